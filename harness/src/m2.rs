// C09 - C18: factorisations, solvers, graphs, systems, eigenproblems, constraints
use crate::common::*;
use crate::ensure;
use bugi::element::constraint::{Constraint, DofTransform};
use bugi::element::material::TEST;
use bugi::element::strain::Condition;
use bugi::element::ElementAssemblage;
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::inverse::Inverse;
use bugi::matrix::solve::direct::*;
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::*;
use std::panic::AssertUnwindSafe;

fn entries<T: MatrixLike>(m: &T, r: usize, c: usize) -> M {
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
// lower envelope storage of a, at least as wide as needed, sometimes wider
fn low_env(rng: &mut Rng, a: &M, n: usize) -> LowerRowEnvelope {
    let wide = rng.bool();
    let mut env = vec![];
    for i in 0..n {
        let need = i + 1 - (0..=i).find(|&j| a[i][j] != 0.0).unwrap_or(i);
        env.push(if wide { rng.range(need, i + 1) } else { need });
    }
    let mut m = LowerRowEnvelope::from_envelope(env.clone());
    for i in 0..n {
        for j in (i + 1 - env[i])..=i {
            m[(i, j)] = a[i][j];
        }
    }
    m
}

pub fn c09(cx: &mut Ctx) {
    for _ in 0..cx.reps(600) {
        let n = cx.rng.range(1, 8);
        let a = rand_spd(&mut cx.rng, n);
        let m = low_env(&mut cx.rng, &a, n);
        let b: Vec<f64> = (0..n).map(|_| if cx.rng.chance(1, 4) { 0.0 } else { cx.rng.val() }).collect();
        let x0: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        cx.case("cholesky", || format!("A = {:?} envelope {:?} b {:?} prior output {:?}", a, m.envelope(), b, x0), || {
            let l = cholesky_envelope(&m);
            ensure!(l.envelope() == m.envelope(), "factor envelope {:?}", l.envelope());
            let le = entries(&l, n, n);
            let p = mulm(&le, &transp(&le, n, n), n, n);
            ensure!(vclose(&flat(&p), &flat(&a), 1e-9), "LL' = {:?}", p);
            let mut x = x0.clone();
            solve_ll(&l, &b, &mut x);
            ensure!(vclose(&mulv(&a, &x), &b, 1e-7), "solve_ll gives {:?}", x);
            let (l, d) = cholesky_envelope_no_root(&m);
            ldl_check(&l, &d, &a, &b, &x0, n)
        });
        // indefinite: A = L D L'
        let mut le = eye(n);
        let mut dd = zeros(n, n);
        let dens = cx.rng.range(1, 4);
        for i in 0..n {
            dd[i][i] = [1.0, -1.0, 2.0, -2.0, 4.0, -0.5, 3.0][cx.rng.below(7)];
            let s = cx.rng.below(i + 1);
            for j in s..i {
                if cx.rng.chance(dens, 4) {
                    le[i][j] = cx.rng.int(-3, 3) as f64;
                }
            }
        }
        let a = mulm(&mulm(&le, &dd, n, n), &transp(&le, n, n), n, n);
        let m = low_env(&mut cx.rng, &a, n);
        cx.case("ldl", || format!("A = {:?} (L {:?}, D {:?}) envelope {:?} b {:?} prior output {:?}", a, le, dd, m.envelope(), b, x0), || {
            let (l, d) = cholesky_envelope_no_root(&m);
            ldl_check(&l, &d, &a, &b, &x0, n)
        });
    }
}
fn ldl_check(l: &LowerRowEnvelope, d: &Diagonal, a: &M, b: &[f64], x0: &[f64], n: usize) -> Result<(), String> {
    let e = entries(l, n, n);
    let de = entries(d, n, n);
    for i in 0..n {
        ensure!(e[i][i] == 1.0, "L({},{}) = {}", i, i, e[i][i]);
    }
    let p = mulm(&mulm(&e, &de, n, n), &transp(&e, n, n), n, n);
    ensure!(vclose(&flat(&p), &flat(a), 1e-8), "LDL' = {:?}", p);
    let mut x = x0.to_vec();
    solve_ldl(l, d, b, &mut x);
    ensure!(vclose(&mulv(a, &x), b, 1e-6), "solve_ldl gives {:?}, product {:?}", x, mulv(a, &x));
    Ok(())
}

// a well-conditioned nonsingular matrix that may need row exchanges
fn rand_nonsing(rng: &mut Rng, n: usize) -> M {
    loop {
        let style = rng.below(4);
        let m: M = match style {
            0 => {
                // scaled permutation with some fill
                let p = rng.perm(n);
                let mut m = zeros(n, n);
                for i in 0..n {
                    m[i][p[i]] = [1.0, -1.0, 2.0, -3.0, -4.0][rng.below(5)];
                    if rng.bool() {
                        m[i][rng.below(n)] += rng.int(-2, 2) as f64;
                    }
                }
                m
            }
            1 => {
                let p = rng.perm(n);
                let mut l = eye(n);
                let mut u = zeros(n, n);
                for i in 0..n {
                    for j in 0..n {
                        if j < i {
                            l[i][j] = rng.int(-2, 2) as f64;
                        }
                        if j > i {
                            u[i][j] = rng.int(-2, 2) as f64;
                        }
                        if i == j {
                            u[i][j] = [1.0, -1.0, 2.0, -2.0][rng.below(4)];
                        }
                    }
                }
                let a = mulm(&l, &u, n, n);
                p.iter().map(|&i| a[i].clone()).collect()
            }
            _ => (0..n).map(|_| (0..n).map(|_| rng.int(-5, 5) as f64).collect()).collect(),
        };
        let d = idet(&m, n);
        if d.abs() >= 1 {
            return m;
        }
    }
}
// exact determinant of an integer matrix (Bareiss)
fn idet(m: &M, n: usize) -> i128 {
    let mut a: Vec<Vec<i128>> = m.iter().map(|r| r.iter().map(|x| *x as i128).collect()).collect();
    let mut sign = 1;
    let mut prev = 1;
    for k in 0..n {
        if a[k][k] == 0 {
            match (k + 1..n).find(|&i| a[i][k] != 0) {
                Some(i) => {
                    a.swap(i, k);
                    sign = -sign
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
            }
        }
        prev = a[k][k];
    }
    sign * prev
}

pub fn c10(cx: &mut Ctx) {
    for _ in 0..cx.reps(1200) {
        let n = cx.rng.range(0, 6);
        let a = rand_nonsing(&mut cx.rng, n);
        let b: Vec<f64> = (0..n).map(|_| if cx.rng.chance(1, 4) { 0.0 } else { cx.rng.val() }).collect();
        let kind = cx.rng.below(3);
        cx.case("nonsingular", || format!("A = {:?} b = {:?} storage kind {}", a, b, kind), || {
            let bm: M = b.iter().map(|v| vec![*v]).collect();
            let (x, shape): (Vec<f64>, _) = match kind {
                0 => {
                    let x = lin(&a, n, n).solve_gausselim(lin(&bm, n, 1)).map_err(|e| format!("error {}", e))?;
                    (x.flat().cloned().collect(), x.shape())
                }
                1 => {
                    let x = lin_t(&a, n, n).solve_gausselim(lin_t(&bm, n, 1)).map_err(|e| format!("error {}", e))?;
                    (x.flat().cloned().collect(), x.shape())
                }
                _ => {
                    let x = dict(&a, n, n).solve_gausselim(dict(&bm, n, 1)).map_err(|e| format!("error {}", e))?;
                    (x.flat().cloned().collect(), x.shape())
                }
            };
            ensure!(shape == (n, 1), "shape {:?}", shape);
            ensure!(x.len() == n && vclose(&mulv(&a, &x), &b, 1e-6), "x = {:?}, Ax = {:?}", x, mulv(&a, &x));
            Ok(())
        });
        // singular in ways that survive rounding: zero rows, zero columns, equal columns
        let n = cx.rng.range(1, 6);
        let mut a = rand_nonsing(&mut cx.rng, n);
        let (i, j) = (cx.rng.below(n), cx.rng.below(n));
        match cx.rng.below(3) {
            0 => a[i] = vec![0.0; n],
            1 => {
                for r in a.iter_mut() {
                    r[i] = 0.0
                }
            }
            _ => {
                for r in a.iter_mut() {
                    let v = r[i];
                    r[j] = v;
                    if i == j {
                        r[i] = 0.0
                    }
                }
            }
        }
        let b: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        cx.case("singular", || format!("A = {:?} b = {:?}", a, b), || {
            let bm: M = b.iter().map(|v| vec![*v]).collect();
            match lin(&a, n, n).solve_gausselim(lin(&bm, n, 1)) {
                Ok(x) => Err(format!("answered {:?}", x.flat().cloned().collect::<Vec<_>>())),
                Err(_) => Ok(()),
            }
        });
    }
    for r in 0..5usize {
        for c in 0..5usize {
            for br in 0..5usize {
                for bc in 0..4usize {
                    if r == c && br == r && bc == 1 {
                        continue;
                    }
                    cx.case("shapes", || format!("A {}x{} b {}x{}", r, c, br, bc), || {
                        let mut m = zeros(r, c);
                        for i in 0..r.min(c) {
                            m[i][i] = 2.0;
                        }
                        match lin(&m, r, c).solve_gausselim(LinearMatrix::zeros((br, bc))) {
                            Ok(_) => Err("answered".to_string()),
                            Err(_) => Ok(()),
                        }
                    });
                }
            }
        }
    }
}

pub fn c11(cx: &mut Ctx) {
    for _ in 0..cx.reps(800) {
        let n = cx.rng.range(1, 6);
        let mut l = eye(n);
        let mut u = zeros(n, n);
        for i in 0..n {
            for j in 0..n {
                if j < i {
                    l[i][j] = cx.rng.int(-2, 2) as f64;
                }
                if j > i {
                    u[i][j] = cx.rng.int(-2, 2) as f64;
                }
                if i == j {
                    u[i][j] = [1.0, -1.0, 2.0, -2.0, 3.0][cx.rng.below(5)];
                }
            }
        }
        let a = mulm(&l, &u, n, n);
        let kind = cx.rng.below(3);
        cx.case("lu and inverse", || format!("A = {:?} storage {}", a, kind), || {
            fn go<T: MatrixLike>(m: &T, a: &M, u: &M, n: usize) -> Result<(), String> {
                let (lo, up) = m.lu_decompose();
                let (le, ue) = (entries(&lo, n, n), entries(&up, n, n));
                for i in 0..n {
                    ensure!(le[i][i] == 1.0, "L({},{}) = {}", i, i, le[i][i]);
                }
                let p = mulm(&le, &ue, n, n);
                ensure!(vclose(&flat(&p), &flat(a), 1e-8), "LU = {:?}", p);
                let d = m.det_lu();
                let w: f64 = (0..n).map(|i| u[i][i]).product();
                ensure!(close(d, w, 1e-8), "det_lu {}, expected {}", d, w);
                Ok(())
            }
            fn inv<T: MatrixLike>(m: &T, a: &M, n: usize) -> Result<(), String> {
                for (w, i) in [("inverse", m.inverse()), ("inv_lu", m.inv_lu())].iter() {
                    let p = mulm(&entries(i, n, n), a, n, n);
                    ensure!(vclose(&flat(&p), &flat(&eye(n)), 1e-7), "{} times A = {:?}", w, p);
                }
                Ok(())
            }
            match kind {
                0 => go(&lin(&a, n, n), &a, &u, n).and_then(|_| inv(&lin(&a, n, n), &a, n)),
                1 => go(&lin_t(&a, n, n), &a, &u, n).and_then(|_| inv(&lin_t(&a, n, n), &a, n)),
                _ => go(&dict(&a, n, n), &a, &u, n).and_then(|_| inv(&dict(&a, n, n), &a, n)),
            }
        });
        let n = cx.rng.range(1, 6);
        let a = if cx.rng.chance(1, 4) {
            // singular: one row repeated with a sign or dropped
            let mut a = rand_nonsing(&mut cx.rng, n);
            let (i, j) = (cx.rng.below(n), cx.rng.below(n));
            let f = cx.rng.int(-1, 1) as f64;
            let row: Vec<f64> = a[j].iter().map(|v| v * f).collect();
            if i == j {
                a[i] = vec![0.0; n]
            } else {
                a[i] = row
            }
            a
        } else {
            rand_nonsing(&mut cx.rng, n)
        };
        cx.case("determinant", || format!("{:?}", a), || {
            let w = idet(&a, n) as f64;
            fn go<T: MatrixLike>(m: &T, w: f64) -> Result<(), String> {
                for (name, d) in [("determinant", m.determinant()), ("det_lu_pivot", m.det_lu_pivot())].iter() {
                    match d {
                        Ok(d) => ensure!(close(*d, w, 1e-6), "{} = {}, expected {}", name, d, w),
                        Err(_) => ensure!(w == 0.0, "{} failed, expected {}", name, w),
                    }
                }
                Ok(())
            }
            go(&lin(&a, n, n), w)?;
            go(&lin_t(&a, n, n), w)?;
            go(&dict(&a, n, n), w)?;
            if n == 3 {
                let mut v = [0.0; 9];
                v.copy_from_slice(&flat(&a));
                go(&ConstMatrix::<9>::from_flat_array(3, v), w)?;
            }
            Ok(())
        });
        if n == 2 || n == 1 {
            let a = rand_nonsing(&mut cx.rng, n);
            cx.case("small inverse", || format!("{:?}", a), || {
                let i = lin(&a, n, n).inverse();
                let p = mulm(&entries(&i, n, n), &a, n, n);
                ensure!(vclose(&flat(&p), &flat(&eye(n)), 1e-9), "inverse times A = {:?}", p);
                Ok(())
            });
        }
    }
    for (r, c) in [(1usize, 2usize), (2, 1), (2, 3), (3, 2), (4, 3)] {
        cx.case("non-square", || format!("{:?}", (r, c)), || {
            ensure!(LinearMatrix::zeros((r, c)).determinant().is_err(), "determinant answered");
            ensure!(panics(|| LinearMatrix::zeros((r, c)).lu_decompose()), "lu answered");
            Ok(())
        });
    }
}

fn bfs(adj: &[Vec<usize>], root: usize) -> Vec<usize> {
    let n = adj.len();
    let mut d = vec![usize::MAX; n];
    d[root] = 0;
    let mut q = vec![root];
    let mut h = 0;
    while h < q.len() {
        let v = q[h];
        h += 1;
        for &w in &adj[v] {
            if d[w] == usize::MAX {
                d[w] = d[v] + 1;
                q.push(w);
            }
        }
    }
    d
}

pub fn c12(cx: &mut Ctx) {
    for _ in 0..cx.reps(1500) {
        let n = cx.rng.range(1, 10);
        let shape = cx.rng.below(6);
        let mut edges: Vec<(usize, usize)> = vec![];
        let relabel = cx.rng.perm(n);
        match shape {
            0 => {
                // paths, possibly several
                for i in 1..n {
                    if cx.rng.chance(4, 5) {
                        edges.push((relabel[i - 1], relabel[i]));
                    }
                }
            }
            1 => {
                // tree
                for i in 1..n {
                    edges.push((relabel[cx.rng.below(i)], relabel[i]));
                }
            }
            _ => {
                for _ in 0..cx.rng.below(2 * n) {
                    edges.push((cx.rng.below(n), cx.rng.below(n)));
                }
            }
        }
        if cx.rng.bool() {
            // duplicates, reversals, loops
            for _ in 0..cx.rng.below(4) {
                if let Some(&e) = edges.first() {
                    edges.push(e);
                    edges.push((e.1, e.0));
                }
                edges.push((cx.rng.below(n), n - 1).min((n - 1, n - 1)));
                let v = cx.rng.below(n);
                edges.push((v, v));
            }
            cx.rng.shuffle(&mut edges);
        }
        let mask: Vec<bool> = (0..n).map(|_| cx.rng.bool()).collect();
        cx.case("graph", || format!("{} vertices, edges {:?}, mask {:?}", n, edges, mask), || {
            let mut adj = vec![std::collections::BTreeSet::new(); n];
            for &(x, y) in &edges {
                if x != y {
                    adj[x].insert(y);
                    adj[y].insert(x);
                }
            }
            let adj: Vec<Vec<usize>> = adj.into_iter().map(|s| s.into_iter().collect()).collect();
            let mut g = Graph::from_edges(n, edges.clone());
            ensure!(g.vertex_count() == n, "vertex count {}", g.vertex_count());
            let l = Graph::from_lol(adj.clone());
            ensure!(g == l, "edge-built and list-built graphs differ");
            for v in 0..n {
                ensure!(g.adjacent(v) == &adj[v][..], "neighbours of {}: {:?}", v, g.adjacent(v));
                ensure!(l.adjacent(v) == &adj[v][..], "list-built neighbours of {}: {:?}", v, l.adjacent(v));
                ensure!(g.degree(v) == adj[v].len(), "degree of {}", v);
                let m: Vec<usize> = adj[v].iter().cloned().filter(|&w| mask[w]).collect();
                ensure!(g.degree_masked(v, &mask) == m.len(), "masked degree of {}", v);
                ensure!(g.adjacent_masked(v, &mask) == &m[..], "masked neighbours of {}", v);
            }
            for root in 0..n {
                let (v, d) = g.far_node(root);
                let dist = bfs(&adj, root);
                let far = dist.iter().filter(|x| **x != usize::MAX).max().unwrap();
                ensure!(v < n && dist[v] == d && d == *far, "farthest from {}: {:?}, distances {:?}", root, (v, d), dist);
            }
            ensure!(g.pseudo_peripheral() < n, "peripheral vertex out of range");
            ensure!(panics(AssertUnwindSafe(|| g.clone().far_node(n))), "root out of range accepted");
            ensure!(panics(AssertUnwindSafe(|| g.adjacent(n).len())), "vertex out of range accepted");
            ensure!(panics(|| Graph::from_edges(n, vec![(0, n)])), "edge out of range accepted");
            ensure!(panics(|| Graph::from_edges(n, vec![(n, 0)])), "edge out of range accepted");
            let p = g.reverse_cuthill_mckee();
            perm_ok(&p, n)
        });
    }
}
fn perm_ok(p: &Permutation, n: usize) -> Result<(), String> {
    let mut seen = vec![false; n];
    for i in 0..n {
        let y = p.permute(i);
        ensure!(y < n, "{} maps to {}", i, y);
        ensure!(!seen[y], "two elements map to {}", y);
        seen[y] = true;
        ensure!(p.unpermute(y) == i, "{} maps to {}, which maps back to {}", i, y, p.unpermute(y));
    }
    ensure!(panics(|| p.permute(n)), "element out of range mapped");
    ensure!(panics(|| p.unpermute(n)), "element out of range mapped back");
    Ok(())
}

pub fn c13(cx: &mut Ctx) {
    for _ in 0..cx.reps(1500) {
        let n = cx.rng.below(9);
        let p = cx.rng.perm(n);
        let vals: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        // permutations are reachable through placements (hook) or through the orderings of graphs
        cx.case("bijection", || format!("placement {:?} values {:?}", p, vals), || {
            #[cfg(feature = "hooks")]
            let q = bugi::matrix::graph::verif::from_placement(p.clone());
            #[cfg(not(feature = "hooks"))]
            let q = {
                let mut e = vec![];
                for i in 1..n {
                    e.push((p[i - 1], p[i]));
                }
                if n == 0 {
                    Permutation::identity(0)
                } else {
                    Graph::from_edges(n, e).reverse_cuthill_mckee()
                }
            };
            perm_ok(&q, n)?;
            #[cfg(feature = "hooks")]
            for i in 0..n {
                ensure!(q.permute(p[i]) == i, "placement: {} maps to {}", p[i], q.permute(p[i]));
            }
            let inv = q.clone().invert();
            perm_ok(&inv, n)?;
            for i in 0..n {
                ensure!(inv.permute(i) == q.unpermute(i) && inv.unpermute(i) == q.permute(i), "inverse at {}", i);
            }
            let mut v = vals.clone();
            q.permute_slice(&mut v);
            for i in 0..n {
                ensure!(v[q.permute(i)] == vals[i], "value {} is not at {}: {:?}", i, q.permute(i), v);
            }
            inv.permute_slice(&mut v);
            ensure!(v == vals, "permuting and inverting gives {:?}", v);
            let mut long = vals.clone();
            long.push(0.0);
            ensure!(panics(AssertUnwindSafe(|| q.permute_slice(&mut long))), "longer slice accepted");
            if n > 0 {
                let mut short = vals[1..].to_vec();
                ensure!(panics(AssertUnwindSafe(|| q.permute_slice(&mut short))), "shorter slice accepted");
            }
            let id = Permutation::identity(n);
            perm_ok(&id, n)?;
            for i in 0..n {
                ensure!(id.permute(i) == i, "identity maps {} to {}", i, id.permute(i));
            }
            Ok(())
        });
        #[cfg(feature = "hooks")]
        if n > 0 {
            let mut b = p.clone();
            let i = cx.rng.below(n);
            b[i] = if n > 1 && cx.rng.bool() { b[(i + 1) % n] } else { n + cx.rng.below(3) };
            cx.case("bad placement", || format!("{:?}", b), || {
                ensure!(panics(|| bugi::matrix::graph::verif::from_placement(b.clone())), "accepted");
                Ok(())
            });
        }
    }
}

pub fn c14(cx: &mut Ctx) {
    for _ in 0..cx.reps(400) {
        let n = cx.rng.range(1, 7);
        let a = rand_spd(&mut cx.rng, n);
        let mm = rand_spd(&mut cx.rng, n);
        let b: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        // each coefficient is added in one to three pieces, in random order
        let mut ops: Vec<(u8, usize, usize, f64)> = vec![];
        for i in 0..n {
            for j in 0..n {
                if a[i][j] != 0.0 {
                    for (k, v) in split(&mut cx.rng, a[i][j]) {
                        ops.push((k, i, j, v));
                    }
                }
                if mm[i][j] != 0.0 {
                    for (_, v) in split(&mut cx.rng, mm[i][j]) {
                        ops.push((1, i, j, v));
                    }
                }
            }
            for (_, v) in split(&mut cx.rng, b[i]) {
                ops.push((2, i, 0, v));
            }
        }
        cx.rng.shuffle(&mut ops);
        cx.case("accumulated system", || format!("K = {:?} M = {:?} r = {:?} additions {:?}", a, mm, b, ops), || {
            let build = || {
                let mut s = System::new(n);
                for &(k, i, j, v) in &ops {
                    match k {
                        0 => s.add_k_coefficient((i, j), v),
                        1 => s.add_m_coefficient((i, j), v),
                        _ => s.add_rhs_val(i, v),
                    }
                }
                s
            };
            let bm: M = b.iter().map(|v| vec![*v]).collect();
            let low = |m: &M| -> Vec<usize> { (0..n).map(|i| i + 1 - (0..=i).find(|&j| m[i][j] != 0.0).unwrap()).collect() };
            ensure!(build().k_envelope().collect::<Vec<_>>() == low(&a), "k envelope");
            ensure!(build().m_envelope().collect::<Vec<_>>() == low(&mm), "m envelope");
            let systems = vec![
                ("added", build()),
                ("from dense", System::from_kr(&lin(&a, n, n), &lin(&bm, n, 1))),
                ("from dictionary", System::from_kr(&dict(&a, n, n), &lin_t(&bm, n, 1))),
            ];
            for (w, s) in &systems {
                ensure!(s.dofs() == n, "dofs");
                #[cfg(feature = "hooks")]
                parts_check(s.clone(), &a, if *w == "added" { Some(&mm) } else { None }, Some(&b), n).map_err(|e| format!("{}: {}", w, e))?;
                let x = DenseGaussSolver::new(s.clone()).solve().map_err(|_| "dense solver failed")?;
                ensure!(vclose(&mulv(&a, &x), &b, 1e-7), "{}: dense solution {:?}", w, x);
                let x = CholeskyEnvelopeSolver::new(s.clone()).solve().map_err(|_| "cholesky solver failed")?;
                ensure!(vclose(&mulv(&a, &x), &b, 1e-7), "{}: cholesky solution {:?}, product {:?}", w, x, mulv(&a, &x));
                let mut t = s.clone();
                t.reduce_envelope();
                let x = DenseGaussSolver::new(t).solve().map_err(|_| "dense solver failed")?;
                ensure!(vclose(&mulv(&a, &x), &b, 1e-7), "{}: dense solution after reordering {:?}", w, x);
            }
            let s = System::from_km(&lin(&a, n, n), &lin_t(&mm, n, n));
            #[cfg(feature = "hooks")]
            parts_check(s.clone(), &a, Some(&mm), None, n).map_err(|e| format!("from_km: {}", e))?;
            ensure!(s.dofs() == n, "dofs");
            let bad = LinearMatrix::zeros((n + 1, 1));
            ensure!(panics(|| System::from_kr(&lin(&a, n, n), &bad)), "wrong right-hand side accepted");
            ensure!(panics(|| System::from_kr(&LinearMatrix::zeros((n, n + 1)), &lin(&bm, n, 1))), "non-square K accepted");
            ensure!(panics(|| System::from_kr(&lin(&a, n, n), &LinearMatrix::zeros((n, 2)))), "two right-hand sides accepted");
            Ok(())
        });
    }
}
fn split(rng: &mut Rng, v: f64) -> Vec<(u8, f64)> {
    match rng.below(3) {
        0 => vec![(0, v)],
        1 => vec![(0, v - 3.0), (0, 3.0)],
        _ => vec![(0, v * 0.5), (0, v + 1.0), (0, -0.5 * v - 1.0)],
    }
}
#[cfg(feature = "hooks")]
fn parts_check(s: System, a: &M, m: Option<&M>, b: Option<&[f64]>, n: usize) -> Result<(), String> {
    use bugi::matrix::solve::verif::system_parts;
    let (k, mm, r, p) = system_parts(s.clone());
    ensure!(p.is_none(), "a permutation before any reordering");
    same(&k.ok_or("K missing")?, a, n, n, 1e-12)?;
    match (mm, m) {
        (Some(x), Some(y)) => same(&x, y, n, n, 1e-12)?,
        (None, None) => {}
        _ => return Err("M present or missing".to_string()),
    }
    match (r, b) {
        (Some(x), Some(y)) => ensure!(vclose(&x, y, 1e-12), "right-hand side {:?}", x),
        (None, None) => {}
        _ => return Err("right-hand side present or missing".to_string()),
    }
    let mut s = s;
    s.reduce_envelope();
    let (k, mm, r, p) = system_parts(s);
    // the permutation handed out leads back to the original numbering
    let p = p.ok_or("permutation missing after reordering")?;
    perm_ok(&p, n)?;
    let k = k.ok_or("K missing")?;
    for i in 0..n {
        for j in 0..n {
            ensure!(close(k[(i, j)], a[p.permute(i)][p.permute(j)], 1e-12), "reordered K at {:?}", (i, j));
            if let (Some(x), Some(y)) = (&mm, m) {
                ensure!(close(x[(i, j)], y[p.permute(i)][p.permute(j)], 1e-12), "reordered M at {:?}", (i, j));
            }
        }
        if let (Some(x), Some(y)) = (&r, b) {
            ensure!(close(x[i], y[p.permute(i)], 1e-12), "reordered right-hand side at {}", i);
        }
    }
    Ok(())
}

pub fn c15(cx: &mut Ctx) {
    for _ in 0..cx.reps(300) {
        let n = cx.rng.range(1, 7);
        let mut a = rand_spd(&mut cx.rng, n);
        for i in 0..n {
            a[i][i] *= 2.0;
        }
        let zero = cx.rng.chance(1, 8);
        let b: Vec<f64> = (0..n).map(|_| if zero { 0.0 } else { cx.rng.val() }).collect();
        let bm: M = b.iter().map(|v| vec![*v]).collect();
        let x = gauss_oracle(&a, &b, n);
        cx.case("solver", || format!("K = {:?} r = {:?}", a, b), || {
            let s = System::from_kr(&lin(&a, n, n), &lin(&bm, n, 1));
            let u = GaussSeidelSolver::new(s.clone()).solve().map_err(|_| "failed")?;
            ensure!(vclose(&u, &x, 0.02), "answer {:?}, expected {:?}", u, x);
            if zero {
                ensure!(u.iter().all(|v| *v == 0.0), "zero load answered with {:?}", u);
            }
            let mut t = s.clone();
            t.reduce_envelope();
            let u = GaussSeidelSolver::new(t).solve().map_err(|_| "failed")?;
            ensure!(vclose(&u, &x, 0.02), "answer after reordering {:?}, expected {:?}", u, x);
            Ok(())
        });
        #[cfg(feature = "hooks")]
        {
            use bugi::matrix::solve::verif::gauss_seidel;
            let tr = cx.rng.bool();
            cx.case("iteration", || format!("K = {:?} r = {:?} r stored transposed {}", a, b, tr), || {
                let k = || CompressedRow::from_flat((n, n), flat(&a));
                let r = || if tr { lin_t(&bm, n, 1) } else { lin(&bm, n, 1) };
                let u = gauss_seidel(k(), r(), 1e-11, 5000);
                ensure!(u.shape() == (n, 1), "shape {:?}", u.shape());
                let u: Vec<f64> = u.flat().cloned().collect();
                ensure!(vclose(&u, &x, 1e-7), "answer {:?}, expected {:?}", u, x);
                // far too few iterations for a tiny tolerance
                let hard = n > 1 && !zero && b.iter().all(|v| *v != 0.0) && (0..n).all(|i| (0..n).any(|j| j != i && a[i][j] != 0.0));
                if hard {
                    ensure!(panics(|| gauss_seidel(k(), r(), 1e-300, 3)), "claims convergence to a tolerance it cannot have reached");
                }
                ensure!(panics(|| gauss_seidel(k(), LinearMatrix::zeros((n + 1, 1)), 1e-3, 100)), "wrong right-hand side accepted");
                ensure!(panics(|| gauss_seidel(k(), LinearMatrix::zeros((n, 2)), 1e-3, 100)), "wide right-hand side accepted");
                ensure!(panics(|| gauss_seidel(CompressedRow::zeros((n, n + 1)), r(), 1e-3, 100)), "non-square accepted");
                let mut h = a.clone();
                h[n / 2][n / 2] = 0.0;
                ensure!(panics(|| gauss_seidel(CompressedRow::from_flat((n, n), flat(&h)), r(), 1e-3, 100)), "missing diagonal accepted");
                Ok(())
            });
            // starting from the fixed point: a system whose solution is representable must be a fixed point
            let u0: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
            let rb = mulv(&a, &u0);
            let rm: M = rb.iter().map(|v| vec![*v]).collect();
            cx.case("fixed point", || format!("K = {:?} solution {:?}", a, u0), || {
                let u = gauss_seidel(CompressedRow::from_flat((n, n), flat(&a)), lin(&rm, n, 1), 1e-12, 5000);
                let u: Vec<f64> = u.flat().cloned().collect();
                ensure!(vclose(&u, &u0, 1e-8), "answer {:?}", u);
                Ok(())
            });
        }
    }
}
fn gauss_oracle(a: &M, b: &[f64], n: usize) -> Vec<f64> {
    let mut a = a.clone();
    let mut b = b.to_vec();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().partial_cmp(&a[j][k].abs()).unwrap()).unwrap();
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|j| a[i][j] * x[j]).sum();
        x[i] = (b[i] - s) / a[i][i];
    }
    x
}

// generalised symmetric eigenvalues by Cholesky reduction and Jacobi rotations, ascending
fn eig_oracle(k: &M, m: &M, n: usize) -> Vec<f64> {
    let mut l = zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..j).map(|q| l[i][q] * l[j][q]).sum();
            l[i][j] = if i == j { (m[i][i] - s).sqrt() } else { (m[i][j] - s) / l[j][j] };
        }
    }
    let mut li = zeros(n, n);
    for c in 0..n {
        for i in c..n {
            let s: f64 = (c..i).map(|q| l[i][q] * li[q][c]).sum();
            li[i][c] = ((if i == c { 1.0 } else { 0.0 }) - s) / l[i][i];
        }
    }
    let mut a = mulm(&mulm(&li, k, n, n), &transp(&li, n, n), n, n);
    for _ in 0..100 {
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for i in 0..n {
                    let (x, y) = (a[i][p], a[i][q]);
                    a[i][p] = c * x - s * y;
                    a[i][q] = s * x + c * y;
                }
                for i in 0..n {
                    let (x, y) = (a[p][i], a[q][i]);
                    a[p][i] = c * x - s * y;
                    a[q][i] = s * x + c * y;
                }
            }
        }
    }
    let mut e: Vec<f64> = (0..n).map(|i| a[i][i]).collect();
    e.sort_by(|x, y| x.partial_cmp(y).unwrap());
    e
}

pub fn c16(cx: &mut Ctx) {
    for _ in 0..cx.reps(250) {
        let n = cx.rng.range(1, 6);
        let k = rand_spd(&mut cx.rng, n);
        let mut m = zeros(n, n);
        for i in 0..n {
            m[i][i] = cx.rng.range(2, 6) as f64;
        }
        let consistent = cx.rng.bool();
        if consistent {
            for i in 0..n {
                for j in 0..i {
                    if k[i][j] != 0.0 && cx.rng.bool() {
                        m[i][j] = 0.25;
                        m[j][i] = 0.25;
                    }
                }
            }
        }
        let e = eig_oracle(&k, &m, n);
        let shifts: Vec<f64> = (0..6).map(|_| cx.rng.real(0.3 * e[0], 1.3 * e[n - 1])).collect();
        let shifts: Vec<f64> = shifts.into_iter().filter(|s| e.iter().all(|x| (x - s).abs() > 1e-3 * (1.0 + x.abs()))).collect();
        cx.case("count", || format!("K = {:?} M = {:?} shifts {:?}", k, m, shifts), || {
            let s = DeterminantSearcher::new(EigenSystem::new(System::from_km(&lin(&k, n, n), &lin(&m, n, n))));
            for &l in &shifts {
                let c = s.eigenvalues_under(l);
                let w = e.iter().filter(|x| **x < l).count();
                ensure!(c == w, "{} eigenvalues below {}, expected {} ({:?})", c, l, w, e);
            }
            ensure!(s.eigenvalues_under(e[n - 1] * 1.5 + 1.0) == n, "not all eigenvalues below a large value");
            ensure!(s.eigenvalues_under(e[0] * 0.5) == 0, "eigenvalues below half the smallest");
            Ok(())
        });
        // modes, for spectra that are clearly separated and away from the search boundaries
        let mut md = zeros(n, n);
        let mut kd = zeros(n, n);
        let mut v = cx.rng.real(0.5, 3.0);
        let p = cx.rng.perm(n);
        for i in 0..n {
            md[p[i]][p[i]] = cx.rng.range(1, 4) as f64;
            kd[p[i]][p[i]] = v * md[p[i]][p[i]];
            v *= cx.rng.real(2.2, 3.5);
        }
        for i in 0..n {
            for j in 0..i {
                if cx.rng.bool() {
                    let c = 0.15 * (kd[i][i].min(kd[j][j])) * cx.rng.unit();
                    kd[i][j] = c;
                    kd[j][i] = c;
                }
            }
        }
        let e = eig_oracle(&kd, &md, n);
        let sep = e[0] > 0.0 && e.windows(2).all(|w| w[1] > 1.8 * w[0]);
        if !sep {
            continue;
        }
        let want = cx.rng.range(0, n);
        cx.case("modes", || format!("K = {:?} M = {:?} wanted {}", kd, md, want), || {
            let mut s = DeterminantSearcher::new(EigenSystem::new(System::from_km(&dict(&kd, n, n), &dict(&md, n, n))));
            let ps = s.find_eigens(want);
            ensure!(ps.len() == want, "{} pairs", ps.len());
            for (i, p) in ps.iter().enumerate() {
                ensure!((p.value() - e[i]).abs() <= 1e-3 * e[i], "value {} is {}, expected {}", i, p.value(), e[i]);
                let x = p.vector();
                ensure!(x.len() == n, "vector length");
                let kx = mulv(&kd, x);
                let mx = mulv(&md, x);
                let xmx: f64 = x.iter().zip(&mx).map(|(a, b)| a * b).sum();
                ensure!((xmx - 1.0).abs() < 1e-6, "v'Mv = {}", xmx);
                let scale = kx.iter().fold(0.0f64, |a, b| a.max(b.abs())).max(e[n - 1] * 0.02);
                for q in 0..n {
                    ensure!((kx[q] - p.value() * mx[q]).abs() <= 0.05 * scale, "residual of pair {}: {:?} vs {} * {:?}", i, kx, p.value(), mx);
                }
            }
            ensure!(panics(AssertUnwindSafe(|| s.find_eigens(n + 1))), "more pairs than unknowns accepted");
            Ok(())
        });
    }
    #[cfg(feature = "hooks")]
    {
        use bugi::matrix::solve::eigen::verif::*;
        for low in 0..4usize {
            for next in low + 2..low + 7 {
                for n in low..=next {
                    for (a, b) in [(0.0, 1.0), (1.0, 8.0), (-2.0, 6.0), (0.25, 0.5)] {
                        cx.case("split", || format!("({}, {}) holding {}..{} split at {}", a, b, low, next, n), || {
                            let (l, u) = split(a, b, low, next, n);
                            part(l, a, (a + b) / 2.0, low, n)?;
                            part(u, (a + b) / 2.0, b, n, next)
                        });
                    }
                }
            }
            for n in low + 1..low + 5 {
                cx.case("range", || format!("{}..{}", low, n), || part(range(1.0, 2.0, low, n), 1.0, 2.0, low, n));
            }
        }
        fn part(r: Range, lower: f64, upper: f64, low: usize, next: usize) -> Result<(), String> {
            let c = next - low;
            ensure!(r.0 == c.min(2), "kind {} for {} eigenvalues", r.0, c);
            if c > 0 {
                ensure!(r.1 == lower && r.2 == upper, "bounds {:?}", (r.1, r.2));
            }
            if c > 1 {
                ensure!(r.3 == low && r.4 == next, "indices {:?}", (r.3, r.4));
            }
            Ok(())
        }
        for _ in 0..cx.reps(300) {
            let n = cx.rng.range(1, 6);
            let k = rand_spd(&mut cx.rng, n);
            let m = rand_spd(&mut cx.rng, n);
            let x: Vec<f64> = (0..n).map(|_| cx.rng.nz()).collect();
            let v: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
            cx.case("quotient", || format!("x {:?} K {:?} M {:?}", x, k, m), || {
                let (bk, bm): (BiEnvelope, BiEnvelope) = (dict(&k, n, n).into(), dict(&m, n, n).into());
                let dotp = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(p, q)| p * q).sum::<f64>();
                let w = dotp(&x, &mulv(&k, &x)) / dotp(&x, &mulv(&m, &x));
                ensure!(close(rayleigh(&x, &bk, &bm), w, 1e-9), "rayleigh {}", rayleigh(&x, &bk, &bm));
                // orthogonalisation against one mass-normalised vector
                let mag = dotp(&v, &mulv(&m, &v)).sqrt();
                if mag > 0.0 {
                    let u: Vec<f64> = v.iter().map(|q| q / mag).collect();
                    let mut y = x.clone();
                    gram_schmidt(&mut y, &bm, &[pair(1.0, u.clone())]);
                    ensure!(dotp(&u, &mulv(&m, &y)).abs() < 1e-6, "not orthogonal: {:?}", y);
                }
                Ok(())
            });
        }
    }
}

fn con_eq(a: Constraint, b: Constraint) -> bool {
    match (a, b) {
        (Constraint::AngleFixed(x), Constraint::AngleFixed(y)) => close(x, y, 1e-12),
        _ => a == b,
    }
}

pub fn c17(cx: &mut Ctx) {
    for _ in 0..cx.reps(4000) {
        let len = cx.rng.range(0, 6);
        let nn = cx.rng.range(1, 3);
        let seq: Vec<(usize, Constraint)> = (0..len)
            .map(|_| {
                let n = cx.rng.below(nn);
                let c = match cx.rng.below(6) {
                    0 => Constraint::Free,
                    1 => Constraint::XFixed,
                    2 => Constraint::YFixed,
                    3 => Constraint::XYFixed,
                    _ => Constraint::AngleFixed(cx.rng.int(-8, 8) as f64 / 4.0),
                };
                (n, c)
            })
            .collect();
        cx.case("sequence", || format!("{} nodes, {:?}", nn, seq), || {
            let mut e = ElementAssemblage::new(TEST, Condition::PlaneStress(1.0));
            let pts: Vec<(f64, f64)> = (0..nn).map(|i| (i as f64, 0.0)).collect();
            let ids = e.add_nodes(&pts);
            let mut x = vec![false; nn];
            let mut y = vec![false; nn];
            let mut ang: Vec<Option<f64>> = vec![None; nn];
            for &(n, c) in &seq {
                e.add_constraint(ids[n], c);
                match c {
                    Constraint::Free => {}
                    Constraint::XFixed => x[n] = true,
                    Constraint::YFixed => y[n] = true,
                    Constraint::XYFixed => {
                        x[n] = true;
                        y[n] = true
                    }
                    Constraint::AngleFixed(a) => {
                        if !x[n] && !y[n] {
                            ang[n] = Some(match ang[n] {
                                None => a,
                                Some(b) => (a + b) / 2.0,
                            })
                        }
                    }
                }
                let cons = e.constraints();
                ensure!(cons.len() == nn, "{} constraints", cons.len());
                for i in 0..nn {
                    let w = match (x[i], y[i], ang[i]) {
                        (true, true, _) => Constraint::XYFixed,
                        (true, false, _) => Constraint::XFixed,
                        (false, true, _) => Constraint::YFixed,
                        (false, false, Some(a)) => Constraint::AngleFixed(a),
                        _ => Constraint::Free,
                    };
                    ensure!(cons[i].0 == ids[i] && con_eq(cons[i].1, w), "node {} has {:?}, expected {:?}", i, cons[i], w);
                    ensure!(cons[i].1.plain_dim_struck(0) == x[i], "x struck of {:?}", cons[i]);
                    ensure!(cons[i].1.plain_dim_struck(1) == y[i], "y struck of {:?}", cons[i]);
                    ensure!(cons[i].1.is_plain() == (x[i] || y[i]), "plainness of {:?}", cons[i]);
                }
            }
            Ok(())
        });
    }
}

pub fn c18(cx: &mut Ctx) {
    for _ in 0..cx.reps(700) {
        let nn = cx.rng.below(5);
        let n = nn * 2;
        let cons: Vec<Constraint> = (0..nn)
            .map(|_| match cx.rng.below(7) {
                0 | 1 => Constraint::Free,
                2 => Constraint::XFixed,
                3 => Constraint::YFixed,
                4 => Constraint::XYFixed,
                _ => Constraint::AngleFixed([0.0, 0.5, 1.0, -0.7, 2.5, 3.0, -1.570796][cx.rng.below(7)]),
            })
            .collect();
        let k = if cx.rng.bool() { rand_m(&mut cx.rng, n, n) } else { rand_spd(&mut cx.rng, n) };
        let full: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let red: Vec<f64> = (0..n).map(|_| cx.rng.nz()).collect();
        cx.case("transform", || format!("{:?} K {:?} vectors {:?} {:?}", cons, k, full, red), || {
            let t = DofTransform::from_constraints(&cons);
            let mut keep = vec![true; n];
            let mut tm = eye(n);
            for (i, c) in cons.iter().enumerate() {
                match c {
                    Constraint::Free => {}
                    Constraint::XFixed => keep[2 * i] = false,
                    Constraint::YFixed => keep[2 * i + 1] = false,
                    Constraint::XYFixed => {
                        keep[2 * i] = false;
                        keep[2 * i + 1] = false
                    }
                    Constraint::AngleFixed(a) => {
                        keep[2 * i] = false;
                        tm[2 * i][2 * i] = a.cos();
                        tm[2 * i][2 * i + 1] = -a.sin();
                        tm[2 * i + 1][2 * i] = a.sin();
                        tm[2 * i + 1][2 * i + 1] = a.cos();
                    }
                }
            }
            let free: Vec<usize> = (0..n).filter(|&i| keep[i]).collect();
            let tt = transp(&tm, n, n);
            let kb = mulm(&mulm(&tt, &k, n, n), &tm, n, n);
            let want: M = free.iter().map(|&i| free.iter().map(|&j| kb[i][j]).collect()).collect();
            same(&t.bar_matrix(&dict(&k, n, n)), &want, free.len(), free.len(), 1e-9).map_err(|e| format!("reduced matrix: {}", e))?;
            let rb = mulv(&tt, &full);
            let w: Vec<f64> = free.iter().map(|&i| rb[i]).collect();
            let got = t.bar_vec(&full);
            ensure!(vclose(&got, &w, 1e-9), "reduced vector {:?}, expected {:?}", got, w);
            let r = &red[..free.len()];
            let mut ex = vec![0.0; n];
            for (q, &i) in free.iter().enumerate() {
                ex[i] = r[q];
            }
            let w = mulv(&tm, &ex);
            let got = t.unbar_vec(r);
            ensure!(vclose(&got, &w, 1e-9), "expanded vector {:?}, expected {:?}", got, w);
            let back = t.bar_vec(&got);
            ensure!(vclose(&back, r, 1e-9), "expanding and reducing gives {:?}", back);
            ensure!(panics(|| t.bar_vec(&[&full[..], &[1.0][..]].concat())), "longer vector accepted");
            Ok(())
        });
    }
}
