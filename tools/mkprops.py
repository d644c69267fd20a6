#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
BUF="src/matrix/buffer.rs"; MM="src/matrix/mod.rs"; SP="src/matrix/sparse.rs"; GR="src/matrix/graph.rs"
INV="src/matrix/inverse.rs"; DIR="src/matrix/solve/direct.rs"; SM="src/matrix/solve/mod.rs"; IT="src/matrix/solve/iterative.rs"; EIG="src/matrix/solve/eigen.rs"
EM="src/element/mod.rs"; EL="src/element/element.rs"; CO="src/element/constraint.rs"; IN="src/element/integrate.rs"; ST="src/element/strain.rs"; SS="src/element/stress.rs"
SPA="src/spatial/mod.rs"; PR="src/spatial/predicates.rs"; VM="src/visual/mod.rs"; VC="src/visual/color.rs"; VF="src/visual/fill.rs"; VB="src/visual/bresenham.rs"

prop("C01","Dense matrix is a faithful rows x cols table",
 "For every shape and every sequence of element writes, row/column replacements, row/column swaps and in-place transpositions, a dense matrix returns at each (row, column) exactly the value last stored there (a transposition exchanges the two coordinates of every value and the two dimensions), and a write changes no other position. Every location outside the shape is refused on both read and write (the optional accessors answer nothing, indexing panics), never answered from other memory. A flat list builds the matrix with those values in row-major order exactly when its length equals rows times columns, and two dense matrices are equal exactly when shape and all values agree, however they were built.",
 ["inputs","histories"],"all shapes (including empty, 1xn, nx1), all locations in or out of range, all histories of put/index/set_row/set_col/swap/transpose",
 "Tests use a handful of 2x2 to 4x4 matrices; aliasing of positions, out-of-range access through the unchecked pointer path and mixed transposed/untransposed comparison depend on the shape and history.",
 [BUF,MM],[("position arithmetic and unchecked access","src/matrix/buffer.rs LinearMatrix::pos, get, get_mut, index, index_mut"),("transpose by flag","src/matrix/buffer.rs LinearMatrix::transpose"),("construction and equality","src/matrix/buffer.rs LinearMatrix::zeros, from_flat, eq"),("row and column updates","src/matrix/mod.rs MatrixLike::put, set_row, set_col, swap_rows, swap_cols")])
prop("C02","Triangular, diagonal and fixed-size storage hold the right entries",
 "For every dimension, a lower (upper) triangular matrix keeps an independent value for every position on and below (above) the diagonal, a diagonal matrix one for every diagonal position and a fixed-size matrix one for every position of its shape; a read returns the value last written there. Positions in range but outside the stored part read as zero and cannot be written, positions out of range are refused, and no access reaches memory outside the stored values. A fixed-size matrix is built row-major and only when the number of values equals its shape.",
 ["inputs","histories"],"all dimensions, all locations, all write histories",
 "Tests construct one or two 3x3/4x4 examples; packing collisions or an out-of-bounds unchecked read only show for particular dimensions and locations.",
 [BUF],[("packed triangular offsets","src/matrix/buffer.rs LowerTriangular::pos, UpperTriangular::pos"),("unchecked access behind the offsets","src/matrix/buffer.rs get/get_mut/index/index_mut of LowerTriangular, UpperTriangular, Diagonal"),("fixed-size storage","src/matrix/buffer.rs ConstMatrix::pos, from_flat_array, from_flat, zeros")])
prop("C03","Sparse element access agrees with the stored entries",
 "For compressed-row, lower-envelope, bi-envelope and dictionary matrices of any sparsity pattern, reading position (row, column) returns the stored entry for that position, zero when none is stored, and refuses positions outside the shape. Writing a stored position (any in-range position for a dictionary) changes that entry only; the stored-row views return exactly the stored run and its first column. No access goes outside the backing arrays.",
 ["inputs","histories"],"all shapes, sparsity patterns (empty rows, full rows, trailing empty rows) and locations",
 "Tests look up a few positions in 4x4 matrices; off-by-one errors depend on the position of empty rows and of the first or last stored column.",
 [SP],[("row search and envelope offsets","src/matrix/sparse.rs CompressedRow::pos, LowerRowEnvelope::pos, BiEnvelope::pos"),("stored row views","src/matrix/sparse.rs row_stored, row_stored_mut, row_stored_nodiag, row_nzs"),("dictionary access","src/matrix/sparse.rs Dictionary::get, get_mut, index, index_mut")])
prop("C04","Converting between matrix formats preserves every entry",
 "Building a compressed-row, dense, dictionary or bi-envelope matrix from labelled values, from a flat list or from a dictionary yields a matrix of the same shape with the same value at every position; converting to a lower envelope keeps every entry on and below the diagonal and reads zero above it. This holds for every sparsity pattern, including empty leading, interior and trailing rows (the lower envelope needs an entry in each row's lower part). The nonzero enumeration of a matrix lists each of its nonzero entries exactly once with its value.",
 ["inputs"],"all shapes, sparsity patterns and entry values, in every order of insertion",
 "Tests convert one or two fixed small matrices; loss or displacement of entries depends on where the empty rows and extreme columns are.",
 [SP],[("compressed-row assembly","src/matrix/sparse.rs CompressedRow::from_labeled_vals, from_flat"),("envelope assembly","src/matrix/sparse.rs LowerRowEnvelope::from_envelope, from_flat, from_bienv, BiEnvelope::from_row_bounds"),("dictionary conversions","src/matrix/sparse.rs impl From<Dictionary> for LowerRowEnvelope, BiEnvelope, CompressedRow, LinearMatrix; Dictionary::from_flat")])
prop("C05","Dictionary transforms compute what they name",
 "For every sparse dictionary matrix: permuting by a permutation p moves the entry at (r, c) to (p(r), p(c)) for every entry; transposition moves (r, c) to (c, r); masking keeps exactly the entries whose row and column are both kept, renumbered in order; the dictionary product equals the matrix product. The reported lower envelope of a row is the distance from its leftmost entry on or left of the diagonal to the diagonal inclusive (zero if none), and the row bounds are the first and one past the last stored column. None of this depends on the iteration order of the underlying map.",
 ["inputs","schedules"],"all square or conforming shapes, all sparsity patterns and masks, all map iteration orders",
 "Tests cover one fixed matrix per operation with one hash order.",
 [SP],[("transforms","src/matrix/sparse.rs Dictionary::permute, transposed, mask, mul_dict"),("profiles","src/matrix/sparse.rs Dictionary::envelope, row_bounds, edges_lower")])
prop("C06","Matrix iteration visits each element once in the stated order",
 "Iterating a row, a column, the diagonal, the whole matrix, or the index list of any matrix yields exactly the elements (or indices) of that part, each once, in increasing order (row-major for the whole matrix), then ends; asking for a row or column outside the shape is refused. This holds for every shape, including matrices with no rows or no columns, and for every matrix kind and transposition state.",
 ["inputs"],"all shapes including 0xn and nx0, all matrix kinds",
 "Tests iterate a few 2x2/3x3 matrices; wrap-around and termination depend on the shape.",
 [MM,SP],[("iterators","src/matrix/mod.rs MatrixRow/MatrixCol/MatrixDiag/MatrixAll/MatrixIndices next"),("sparse row iterator","src/matrix/sparse.rs CompressedRowRow::next"),("range checks","src/matrix/mod.rs MatrixLike::row, col")])
prop("C07","Matrix and vector arithmetic equals its mathematical definition",
 "For all conforming operands, the matrix product has at (r, c) the sum over j of A(r, j) B(j, c); sums, differences, in-place additions and subtractions, scalings, the dot product, envelope matrix-vector products, envelope updates by a scaled matrix, running averages and the squared Frobenius norm equal their textbook definitions entry by entry, whatever the storage kind or transposition state of the operands. Identity, row, column and row-list constructors produce exactly those matrices. Matrix operands whose shapes do not conform are refused.",
 ["inputs"],"all conforming shapes, storage kinds, transposition states and values (real arithmetic; floating-point rounding excluded)",
 "Tests multiply and add a few fixed matrices of one kind.",
 [MM,BUF,SP],[("generic product and updates","src/matrix/mod.rs MatrixLike::mul, add_ass, sub_ass, dot, eye, from_rows, row_vec, col_vec, Average::update"),("dense operators","src/matrix/buffer.rs Add, Sub, AddAssign, MulAssign for LinearMatrix; Diagonal::product, mean, num_neg"),("sparse kernels","src/matrix/sparse.rs CompressedRow::mul, BiEnvelope::mul_vec, LowerRowEnvelope::add_scaled_bienv"),("norm","src/matrix/norm.rs Norm::frobenius")])
prop("C08","Triangular substitution solves the triangular system",
 "For every triangular matrix with nonzero diagonal and every right-hand side, forward and backward substitution return the vector x with Lx = b (Ux = b), the triangular inverses times the original give the identity, and the envelope solves give Lx = b, L'x = b, or the solution for a leading or inner diagonal block. The result does not depend on what the output buffer contained before. Dividing by a diagonal matrix solves the diagonal system.",
 ["inputs","histories"],"all dimensions, envelopes, diagonal blocks, right-hand sides and prior contents of the output buffer (real arithmetic)",
 "Tests check one small solve with a fresh zero buffer.",
 [BUF,SP],[("dense substitution","src/matrix/buffer.rs LowerTriangular::forward_sub, tri_inv, UpperTriangular::backward_sub, tri_inv, Diagonal::solve"),("envelope substitution","src/matrix/sparse.rs LowerRowEnvelope::solve, solve_submatrix, solve_transposed")])
prop("C09","Envelope Cholesky factors reconstruct the matrix and solve the system",
 "For every symmetric positive definite matrix stored as its lower envelope, the Cholesky factor L lies inside that envelope and satisfies A = LL' at every position; for every symmetric matrix whose leading pivots are nonzero the root-free factors satisfy A = LDL' with unit lower L inside the envelope. The factored solves return x with LL'x = b and LDL'x = b for every right-hand side.",
 ["inputs"],"all dimensions, envelopes and right-hand sides (real arithmetic)",
 "Tests factor two 4x4 matrices with nearly full envelopes.",
 [DIR,SP],[("factorisations","src/matrix/solve/direct.rs cholesky_envelope, cholesky_envelope_no_root"),("factored solves","src/matrix/solve/direct.rs solve_ll, solve_ldl")])
prop("C10","Gaussian elimination answers Ax = b or reports failure",
 "For every square matrix A and column b, Gaussian elimination either succeeds with an x satisfying Ax = b, or reports an error; it succeeds for every nonsingular A, whatever the signs and order of its pivots, and reports an error for singular A instead of returning numbers. Non-square A or a b of the wrong shape is an error, not a wrong answer.",
 ["inputs"],"all dimensions and entries, in particular matrices needing row exchanges at any step, with negative pivots, zero columns (real arithmetic)",
 "Tests solve one or two systems; the choice of pivot row depends on the order and sign of the entries at every elimination step.",
 [INV,MM],[("elimination and back substitution","src/matrix/inverse.rs Inverse::solve_gausselim"),("row operations","src/matrix/mod.rs MatrixLike::swap_rows, mutate_row")])
prop("C11","LU factors, determinant and inverse agree with the matrix",
 "For every square matrix with nonzero leading minors, the LU factors are unit lower and upper triangular with LU equal to the matrix, and the inverse times the matrix is the identity. The determinant equals the mathematical determinant of the matrix, sign included, for every square matrix, whatever row exchanges it takes, and a singular matrix of order three or more is reported as a pivot failure or as zero.",
 ["inputs"],"all dimensions and entries (real arithmetic)",
 "Tests factor one 3x3 and invert two matrices; row-exchange parity only shows on particular entry orders.",
 [INV,BUF],[("factorisation","src/matrix/inverse.rs Inverse::lu_decompose, det_lu"),("pivoted determinant","src/matrix/inverse.rs Inverse::det_lu_pivot, determinant"),("inverse","src/matrix/inverse.rs Inverse::inv_lu, inverse")])
prop("C12","Node reordering is a valid permutation for every graph",
 "For every nonempty undirected graph given by its edges (with duplicates, self loops, isolated vertices and several components), the adjacency lists are the sorted distinct neighbours of each vertex, degrees count them, and the reverse Cuthill-McKee ordering is a permutation of all the vertices. The farthest-node search returns a vertex of the root's component together with its breadth-first distance, which is the greatest in that component.",
 ["inputs"],"all vertex counts of at least one and all edge lists",
 "Tests order one connected example graph.",
 [GR],[("graph construction","src/matrix/graph.rs Graph::from_edges, from_lol, adjacent, degree"),("traversal and ordering","src/matrix/graph.rs adjacent_masked, far_node, pseudo_peripheral, reverse_cuthill_mckee")])
prop("C13","Permutations are bijections and their inverse undoes them",
 "Every permutation object maps 0..n-1 onto 0..n-1 one to one: forward and backward lookups are mutually inverse for every element, and inverting exchanges them. Permuting a slice moves the value at i to the image of i, so applying a permutation and then its inverse restores every slice. A placement list with a repeated or out-of-range entry is refused.",
 ["inputs"],"all sizes, placements and slices",
 "Tests use one fixed permutation.",
 [GR],[("construction","src/matrix/graph.rs Permutation::from_placement, identity"),("lookups and slices","src/matrix/graph.rs Permutation::permute, unpermute, permute_slice, invert")])
prop("C14","Linear systems keep their coefficients and answers in the original order",
 "A linear system built coefficient by coefficient holds the sum of everything added at each position, and one built from matrices holds exactly their entries; bandwidth reduction only relabels unknowns consistently in all matrices and the right-hand side. Every direct solver returns, in the caller's original numbering, the solution of the system the caller described, so for symmetric positive definite systems dense elimination and envelope Cholesky agree.",
 ["inputs","histories"],"all sizes, sparsity patterns, accumulation histories and right-hand sides (real arithmetic)",
 "Tests solve one 4x4 system where the reordering is almost trivial.",
 [SM,DIR],[("accumulation","src/matrix/solve/mod.rs System::add_k_coefficient, add_m_coefficient, add_rhs_val, from_kr, from_km"),("reordering","src/matrix/solve/mod.rs System::reduce_envelope, into_krp, into_parts"),("solvers","src/matrix/solve/direct.rs DenseGaussSolver, CholeskyEnvelopeSolver")])
prop("C15","Gauss-Seidel iteration converges to the solution or gives up",
 "Each sweep of the iterative solver is the over-relaxed Gauss-Seidel update of the system, so an iterate that a sweep leaves unchanged solves it. Whenever the solver returns, the last change was within the requested tolerance relative to the result, which for a symmetric positive definite system means the answer approximates the solution; a zero right-hand side gives the zero answer. It refuses systems of inconsistent shape or without a diagonal entry, and does not run beyond its iteration limit.",
 ["inputs"],"all sizes, sparsity patterns and right-hand sides (real arithmetic)",
 "One 4x4 system is tested, with one tolerance.",
 [IT,SP],[("sweep and stopping rule","src/matrix/solve/iterative.rs gauss_seidel, GaussSeidelSolver::solve")])
prop("C16","Eigenvalue counts and modes are right",
 "For a symmetric stiffness and positive definite mass matrix, the number of eigenvalues reported below a value is the number of negative pivots of the shifted matrix. Interval splitting loses no eigenvalue: the counts of the parts add up to the count of the whole and each part lies inside it. The eigenpairs returned for separated spectra are the requested number of lowest ones in increasing order, each satisfying Kv = lambda Mv with mass-normalised v in the caller's numbering.",
 ["inputs"],"all sizes, values, and count/shift combinations (real arithmetic)",
 "One 4x4 example is tested.",
 [EIG,SP,DIR],[("inertia count","src/matrix/solve/eigen.rs DeterminantSearcher::eigenvalues_under, src/matrix/buffer.rs Diagonal::num_neg"),("interval bookkeeping","src/matrix/solve/eigen.rs ManyEigenRange::split, EigenRange::new, process_eigenrange, secant_iterate_one, find_eigens"),("inverse iteration","src/matrix/solve/eigen.rs inverse_iterate, rayleigh_quotient, gram_schmidt_orthogonalize")])
prop("C17","Combining node constraints never releases a fixed direction",
 "After any sequence of constraints applied to a node, each of the coordinate directions fixed by some plain constraint in the sequence is still fixed, fixing x and y in either order fixes both, and adding the free constraint changes nothing. A plain constraint takes precedence over an angled one in either order, two angled constraints combine to their mean angle, and other nodes are not affected.",
 ["histories"],"all sequences of the five constraint kinds on any nodes",
 "Tests add at most two constraints to a node.",
 [EM,CO],[("merging","src/element/mod.rs ElementAssemblage::add_constraint"),("queries","src/element/constraint.rs Constraint::is_plain, plain_dim_struck")])
prop("C18","Constraint transforms are rotations plus masking, and invert each other",
 "For every list of node constraints, the reduced vector is the full vector rotated at each angled node by its angle and stripped of exactly the fixed directions; expanding a reduced vector puts zero in every fixed direction and rotates back, so expanding and then reducing is the identity, and reducing then expanding is the identity on vectors satisfying the constraints. The reduced matrix is T'KT restricted to the free directions, for the same rotation T, so it is consistent with the vector transforms.",
 ["inputs"],"all constraint lists, angles, vectors and matrices (real arithmetic; sine and cosine satisfy sin^2 + cos^2 = 1)",
 "No unit test covers an angled constraint.",
 [CO,SP],[("setup","src/element/constraint.rs DofTransform::from_constraints, rotation_matrix"),("vectors","src/element/constraint.rs mask_vec, unmask_vec, bar_vec, unbar_vec"),("matrices","src/element/constraint.rs bar_matrix")])
prop("C19","Element stiffness and mass matrices are correct for every triangle",
 "For every non-degenerate triangle, orientation, material and plane stress or plane strain condition, the element stiffness equals thickness times area times B'CB with the linear-triangle strain matrix B and the stated constitutive law C (the axisymmetric rule weights by radius and adds the hoop strain); it is symmetric and annihilates rigid translations. The element mass matrix is density times thickness times the integral of H'H, so its entries for each direction sum to the element's mass. Each coefficient is labelled with the node and direction it belongs to.",
 ["inputs"],"all vertex positions and orderings, materials and conditions (real arithmetic)",
 "Tests compare one axis-aligned triangle with reference numbers.",
 [EL,ST,IN],[("interpolation and Jacobian","src/element/element.rs Element::get_isopar_mats, map_dof, map_matrix"),("integrals","src/element/element.rs calc_k, calc_m; src/element/integrate.rs gauss_tri"),("strain and material","src/element/strain.rs Condition::build_b, build_c, thickness")])
prop("C20","Global matrices and loads are the sum of all contributions",
 "The global stiffness and mass matrices hold at each pair of degrees of freedom the sum of the coefficients all elements contribute there, and zero elsewhere. The global load holds at each degree of freedom the sum of every concentrated force on that node plus every distributed edge force, each counted once even when two elements share the edge; a uniform edge force is shared equally by the two end nodes and totals force per length times edge length. The order in which forces and elements are visited does not matter.",
 ["inputs","schedules"],"all meshes, loads and map iteration orders",
 "Tests load one edge of a one-element mesh.",
 [EM,EL],[("assembly","src/element/mod.rs ElementAssemblage::calc_k, calc_m, calc_load, NodeDof::to_dof"),("edge forces","src/element/element.rs Element::int_f_l, nodes_connect, map_vec; src/element/integrate.rs gauss_segment_mat"),("result order","src/element/mod.rs raw_to_node_disp")])
prop("C21","Quadrature rules integrate polynomials of their order exactly",
 "The triangle rule gives the exact integral over the reference triangle of every polynomial of total degree at most two. The segment rule of order n (1 to 4) gives, along any segment in the plane, the exact line integral of every matrix-valued polynomial of degree at most 2n - 1 in the segment parameter, up to the printed precision of its constants, and samples only points of the segment. Both rules are linear in the integrand.",
 ["inputs"],"all segments, orders 1 to 4, all polynomial integrands (constants exact to their printed digits)",
 "Tests integrate a few fixed functions.",
 [IN],[("rules","src/element/integrate.rs gauss_tri, gauss_segment_mat"),("constants","src/element/integrate.rs GAUSS_*")])
prop("C22","Stress recovery follows the textbook definitions",
 "A stress state built from a strain-rule vector reports its type by length, keeps every component, and expands to the symmetric Cauchy matrix of that state. The von Mises value equals the textbook formula for the state type, is never negative, is unchanged under sign reversal, and scales with the stress; adding and scaling states works component by component and mixing types is refused. Node stresses are the average over exactly the elements meeting at the node, and nodes without elements report none.",
 ["inputs"],"all stress vectors of the supported lengths; all meshes and displacement fields",
 "Tests evaluate one or two states.",
 [SS,EM,EL],[("states","src/element/stress.rs StressState::from_vector, loc, to_cauchy, von_mises, Add, Mul, Div"),("averaging","src/matrix/mod.rs Average::update; src/element/mod.rs Deformation::stresses, von_mises"),("element stresses","src/element/element.rs Element::stresses")])
prop("C23","Point arithmetic and geometric predicates are correct",
 "Points of one to three dimensions keep their coordinates and dimension through construction, conversion, addition, subtraction, scaling, midpoint, dot product and distance, and refuse other dimensions and out-of-range indices. Barycentric coordinates sum to one and reproduce the point for every non-degenerate triangle; the in-triangle, in-circle (counter-clockwise vertices), in-sphere and tetrahedron-orientation predicates decide exactly their determinant definitions away from the boundary; the circumcentre is equidistant from the three vertices and absent only for degenerate triangles.",
 ["inputs"],"all points, triangles and tetrahedra (real arithmetic)",
 "Tests evaluate each predicate on one configuration.",
 [SPA,PR],[("points","src/spatial/mod.rs Point"),("triangle predicates","src/spatial/predicates.rs bary_coor, in_triangle, circumcenter"),("determinant predicates","src/spatial/predicates.rs in_circle, in_sphere, tetrahedron_dir")])
prop("C24","Line rasterisation is connected and stays within half a pixel",
 "For every pair of integer endpoints the rasterised line contains both endpoints, has exactly one pixel per step along its longer axis, moves by at most one pixel in each direction between neighbouring pixels, and every pixel is within half a pixel of the ideal segment measured along the shorter axis. Drawing on the unsigned image grid keeps exactly these pixels, including those on the border rows and columns. Swapping the endpoints spans the same range of pixels.",
 ["inputs"],"all endpoint pairs within machine range",
 "Tests draw a few fixed lines.",
 [VB],[("octants","src/visual/bresenham.rs line, line_unsigned"),("error-driven stepping","src/visual/bresenham.rs line_low, line_high")])
prop("C25","Colour maps and triangle fill interpolate within range",
 "Every colour map yields, for every value, channels that equal the documented piecewise-linear ramps rounded to bytes, with the hot map running from black at 0 to white at 1, never darkening as the value grows, and constant outside. Filling a triangle colours exactly the pixels of its bounding box inside or on it, each once, with the barycentric interpolation of the corner values; a dot covers the square around its centre. Values set for display are normalised to run from 0 at the minimum to 1 at the maximum.",
 ["inputs"],"all values, triangles and value lists",
 "Tests look at a couple of rendered images only by eye.",
 [VC,VF,VM],[("ramps","src/visual/color.rs hot_map, rgb_map, peak"),("fill","src/visual/fill.rs triangle_interp, dot_points"),("normalisation","src/visual/mod.rs Visualizer::set_vals")])
prop("C26","Delaunay meshing covers the region with valid triangles",
 "Meshing a polygonal boundary yields triangles that cover the interior exactly, without overlap, with every requested boundary segment present and no triangle outside.",
 ["inputs"],"all boundaries","Tests mesh a few example boundaries (and cannot be built here).",
 ["src/mesher/plane.rs","src/mesher/bounds.rs"],[("mesher","src/mesher/plane.rs, src/mesher/bounds.rs")])
prop("C27","Boundary and mesh files survive a write/read round trip",
 "Writing a mesh or boundary to its text format and reading it back yields the same nodes, elements, constraints, forces, material and condition.",
 ["inputs"],"all meshes and boundaries","Tests parse a few example files (and cannot be built here).",
 ["src/file/bmsh.rs","src/file/bbnd.rs"],[("formats","src/file/bmsh.rs, src/file/bbnd.rs")])
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(path,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
