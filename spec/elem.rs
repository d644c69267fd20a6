//@ include quad.rs
//@ include lu.rs
verus! {
//@ struct NodeId #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ struct NodeDof #[derive(Clone, Copy)]
//@ struct Dof #[derive(Clone, Copy)]
//@ struct NaturalCoor #[derive(Clone, Copy)]
//@ struct Material #[derive(Clone, Copy)] only youngs poisson density
//@ enum Condition #[derive(Clone, Copy)]
//@ struct Element
//@ struct ElementMats
//@ const EL_DIMS
//@ const EL_NODES
//@ const EL_DOFS
//@ const NODE_DIM
// from_flat takes anything that lists numbers
pub trait VFlat: Sized { spec fn fs(&self) -> Seq<R>; fn v_flat(self) -> (res: Vec<R>) ensures res@ == self.fs(); }
impl VFlat for Vec<R> { open spec fn fs(&self) -> Seq<R> { self@ } fn v_flat(self) -> (res: Vec<R>) { self } }
impl<const N: usize> VFlat for [R; N] { open spec fn fs(&self) -> Seq<R> { self@ } fn v_flat(self) -> (res: Vec<R>) { self.v_to_vec() } }
impl LinearMatrix {
pub fn flat_of<S: VIntoShape, F: VFlat>(shape: S, data: F) -> (res: Self)
    requires shape.s_ok(), Self::flat_ok(shape.sr(), shape.sc(), data.fs().len() as int),
    ensures res.wf(), res.nr() == shape.sr(), res.nc() == shape.sc(), forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == data.fs()[r * shape.sc() + c].r(),
{ let v = data.v_flat(); LinearMatrix::from_flat(shape, v) }
//@ fn trait MatrixLike::from_points_row -> res
//@ requires
    points@.len() >= 1, points@.len() <= 3, forall|k: int| 0 <= k < points@.len() ==> (#[trigger] points@[k]).wf() && points@[k].n == 2,
//@ ensures
    res.wf(), res.nr() == points@.len(), res.nc() == 2, forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == points@[r].c(c),
//@ loop 0
    rows@.len() == k0, dim == 2, forall|k: int| 0 <= k < k0 ==> (#[trigger] rows@[k])@.len() == 2 && rows@[k]@[0].r() == points@[k].c(0) && rows@[k]@[1].r() == points@[k].c(1),
//@ end
}
//@ call LinearMatrix::from_flat LinearMatrix::flat_of
impl Point { fn v_into(self) -> (res: Vec<R>) requires self.wf(), self.n >= 1, ensures res@.len() == self.n, forall|k: int| 0 <= k < self.n ==> (#[trigger] res@[k]).r() == self.c(k) { Point::into_vec(self) } }
// ---- the textbook: strain matrix B, material matrix C and thickness under each condition
impl Condition {
    pub open spec fn axi(&self) -> bool { *self is Axisymmetric }
    pub open spec fn nb(&self) -> int { if self.axi() { 4 } else { 3 } }
    pub open spec fn th(&self, rad: real) -> real { match *self { Condition::PlaneStress(t) => t.r(), Condition::PlaneStrain(t) => t.r(), Condition::Axisymmetric => rad } }
    // the material can be represented
    pub open spec fn ok(&self, v: real) -> bool { if *self is PlaneStress { 1real - v * v != 0real } else { 1real - v != 0real && 2real * (1real - v) != 0real && (1real + v) * (1real - 2real * v) != 0real } }
}
// row a, column c of B: the gradients of the three shape functions, and, in the hoop row, their values over the radius
pub open spec fn bsp(cond: Condition, gx: A1, gy: A1, h: A1, rad: real, a: int, c: int) -> real {
    let k = c / 2; let x = c % 2 == 0;
    if a == 0 { if x { gx(k) } else { 0real } } else if a == 1 { if x { 0real } else { gy(k) } } else if a == 2 { if x { gy(k) } else { gx(k) } } else { if x { h(k) / rad } else { 0real } }
}
pub open spec fn csp(cond: Condition, e: real, v: real, a: int, b: int) -> real {
    match cond {
        Condition::PlaneStress(_) => (if a == 2 && b == 2 { (1real - v) / 2real } else if a == 2 || b == 2 { 0real } else if a == b { 1real } else { v }) * (e / (1real - v * v)),
        _ => (if a == 2 && b == 2 { (1real - 2real * v) / (2real * (1real - v)) } else if a == 2 || b == 2 { 0real } else if a == b { 1real } else { v / (1real - v) }) * ((e * (1real - v)) / ((1real + v) * (1real - 2real * v))),
    }
}
impl Condition {
//@ fn Condition::thickness -> res
//@ oneidx global_coor
//@ requires
    global_coor.wf(), global_coor.n >= 1,
//@ ensures
    res.r() == self.th(global_coor.c(0)),
//@ end
//@ fn Condition::build_b -> res
//@ tupleidx h_grads_global b
//@ oneidx global_coor
//@ requires
    h_grads_global.wf(), h_grads_global.nr() == 2, h_grads_global.nc() == 3, global_coor.wf(), global_coor.n == 2, self.axi() ==> global_coor.c(0) != 0real,
//@ ensures
    res.wf(), res.nr() == self.nb(), res.nc() == 6,
    forall|a: int, c: int| inr(&res, a, c) ==> #[trigger] res.at(a, c) == bsp(*self, |k: int| h_grads_global.at(0, k), |k: int| h_grads_global.at(1, k), |k: int| h@[k].r(), global_coor.c(0), a, c),
//@ loop 0
    len0 == 3, b.wf(), b.nr() == 3, b.nc() == 6, forall|r: int, c: int| inr(&b, r, c) ==> #[trigger] b.writable(r, c),
    forall|a: int, c: int| inr(&b, a, c) ==> #[trigger] b.at(a, c) == if c < 2 * k0 { bsp(*self, |k: int| h_grads_global.at(0, k), |k: int| h_grads_global.at(1, k), |k: int| h@[k].r(), global_coor.c(0), a, c) } else { 0real },
//@ loop 1
    len1 == 3, b.wf(), b.nr() == 4, b.nc() == 6, r.r() == global_coor.c(0), r.r() != 0real, forall|r: int, c: int| inr(&b, r, c) ==> #[trigger] b.writable(r, c),
    forall|a: int, c: int| inr(&b, a, c) ==> #[trigger] b.at(a, c) == if c < 2 * k1 { bsp(*self, |k: int| h_grads_global.at(0, k), |k: int| h_grads_global.at(1, k), |k: int| h@[k].r(), global_coor.c(0), a, c) } else { 0real },
//@ end
//@ fn Condition::build_c -> res
//@ tupleidx res
//@ requires
    self.ok(mat.poisson.r()),
//@ ensures
    res.wf(), res.nr() == self.nb(), res.nc() == self.nb(),
    forall|a: int, b: int| inr(&res, a, b) ==> #[trigger] res.at(a, b) == csp(*self, mat.youngs.r(), mat.poisson.r(), a, b),
//@ loop 0
    len0 == 3, res.wf(), res.nr() == 4, res.nc() == 4, forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c),
    forall|a: int, b: int| inr(&res, a, b) ==> #[trigger] res.at(a, b) == if a == b { 1real } else if k0 >= 1 && a + b == 1 || k0 >= 2 && a + b == 3 && a != 1 && a != 2 || k0 >= 3 && a + b == 4 && a != 2 { x.r() } else { 0real },
//@ end
}
impl NodeDof {
//@ fn NodeDof::to_dof -> res
//@ requires
    self.0.0 * 2 + self.1 <= usize::MAX,
//@ ensures
    res.0 == self.0.0 * 2 + self.1,
//@ end
}
// ---- the element
impl Element {
    pub open spec fn x(&self, k: int) -> real { self.node_points@[k].c(0) }
    pub open spec fn y(&self, k: int) -> real { self.node_points@[k].c(1) }
    // twice the signed area
    pub open spec fn jd(&self) -> real { (self.x(1) - self.x(0)) * (self.y(2) - self.y(0)) - (self.x(2) - self.x(0)) * (self.y(1) - self.y(0)) }
    pub open spec fn wf(&self) -> bool { &&& self.jd() != 0real &&& forall|k: int| 0 <= k < 3 ==> (#[trigger] self.node_points@[k]).wf() && self.node_points@[k].n == 2 }
    // the material makes sense, and an axisymmetric element lies off the axis
    pub open spec fn ok(&self) -> bool { &&& self.wf() &&& self.condition.ok(self.material.poisson.r()) &&& self.condition.axi() ==> self.x(0) > 0real && self.x(1) > 0real && self.x(2) > 0real }
    // gradients of the shape functions
    pub open spec fn gx(&self, k: int) -> real { (if k == 0 { self.y(1) - self.y(2) } else if k == 1 { self.y(2) - self.y(0) } else { self.y(0) - self.y(1) }) / self.jd() }
    pub open spec fn gy(&self, k: int) -> real { (if k == 0 { self.x(2) - self.x(1) } else if k == 1 { self.x(0) - self.x(2) } else { self.x(1) - self.x(0) }) / self.jd() }
    pub open spec fn px(&self, r: real, s: real) -> real { hs(r, s, 0) * self.x(0) + hs(r, s, 1) * self.x(1) + hs(r, s, 2) * self.x(2) }
    pub open spec fn bq(&self, r: real, s: real, a: int, c: int) -> real { bsp(self.condition, |k: int| self.gx(k), |k: int| self.gy(k), |k: int| hs(r, s, k), self.px(r, s), a, c) }
    pub open spec fn is_dof(&self, d: NodeDof, i: int) -> bool { d.0 == self.node_ids@[i / 2] && d.1 == i % 2 }
}
// shape functions at (r, s), and their interpolation matrix
pub open spec fn hs(r: real, s: real, k: int) -> real { if k == 0 { 1real - r - s } else if k == 1 { r } else { s } }
pub open spec fn hq(r: real, s: real, d: int, c: int) -> real { if c % 2 == d { hs(r, s, c / 2) } else { 0real } }
pub proof fn lem_sgn(t: real, x: real)
    ensures (t == 0real ==> t * x == 0real && x * t == 0real), (t == 1real ==> t * x == x && x * t == x), (t == -1real ==> t * x == -x && x * t == -x),
{ assert(0real * x == 0real && x * 0real == 0real && 1real * x == x && x * 1real == x && -1real * x == -x && x * -1real == -x) by (nonlinear_arith); }
pub proof fn lem_over(x: real, d: real, y: real)
    requires x * d == y, d != 0real,
    ensures x == y / d,
{ assert(x == y / d) by (nonlinear_arith) requires x * d == y, d != 0real; }
// one row of the inverse of a 2 x 2 matrix
pub proof fn lem_row2(u: real, v: real, a: real, b: real, c: real, d: real, p: real, q: real, t: real)
    requires u * a + v * c == p, u * b + v * d == q, t == a * d - c * b, t != 0real,
    ensures u == (p * d - q * c) / t, v == (q * a - p * b) / t,
{
    assert(u * (a * d - c * b) == u * (a * d) - u * (c * b)) by (nonlinear_arith);
    assert((u * a + v * c) * d == (u * a) * d + (v * c) * d) by (nonlinear_arith);
    assert((u * b + v * d) * c == (u * b) * c + (v * d) * c) by (nonlinear_arith);
    assert((u * a) * d == u * (a * d)) by (nonlinear_arith);
    assert((u * b) * c == u * (c * b)) by (nonlinear_arith);
    assert((v * c) * d == (v * d) * c) by (nonlinear_arith);
    assert(v * (a * d - c * b) == v * (a * d) - v * (c * b)) by (nonlinear_arith);
    assert((u * b + v * d) * a == (u * b) * a + (v * d) * a) by (nonlinear_arith);
    assert((u * a + v * c) * b == (u * a) * b + (v * c) * b) by (nonlinear_arith);
    assert((u * b) * a == (u * a) * b) by (nonlinear_arith);
    assert((v * d) * a == v * (a * d)) by (nonlinear_arith);
    assert((v * c) * b == v * (c * b)) by (nonlinear_arith);
    lem_over(u, t, p * d - q * c); lem_over(v, t, q * a - p * b);
}
pub proof fn lem_sumq(x: real, y: real, t: real) requires t != 0real, ensures x / t + y / t == (x + y) / t, -(x / t) == (-x) / t, x / t - y / t == (x - y) / t
{ assert(x / t + y / t == (x + y) / t && -(x / t) == (-x) / t && x / t - y / t == (x - y) / t) by (nonlinear_arith) requires t != 0real; }
pub proof fn rs2(f: A1) ensures rsum(f, 2) == f(0) + f(1) { reveal_with_fuel(rsum, 3); }
pub proof fn rs3(f: A1) ensures rsum(f, 3) == f(0) + f(1) + f(2) { reveal_with_fuel(rsum, 4); }
impl ElementMats {
    pub open spec fn of(&self, e: &Element, r: real, s: real) -> bool {
        &&& self.b.wf() && self.b.nr() == e.condition.nb() && self.b.nc() == 6 && forall|a: int, c: int| inr(&self.b, a, c) ==> #[trigger] self.b.at(a, c) == e.bq(r, s, a, c)
        &&& self.h.wf() && self.h.nr() == 2 && self.h.nc() == 6 && forall|d: int, c: int| inr(&self.h, d, c) ==> #[trigger] self.h.at(d, c) == hq(r, s, d, c)
        &&& self.det_j.r() == e.jd() && self.thickness.r() == e.condition.th(e.px(r, s))
    }
}
impl Element {
    pub open spec fn cq(&self, a: int, b: int) -> real { csp(self.condition, self.material.youngs.r(), self.material.poisson.r(), a, b) }
    pub open spec fn bcq(&self, r: real, s: real, i: int, b: int) -> real { rsum(|a: int| self.bq(r, s, a, i) * self.cq(a, b), self.condition.nb()) }
    // what is integrated for K and for M, at (r, s)
    pub open spec fn kq(&self, r: real, s: real, i: int, j: int) -> real {
        rsum(|b: int| self.bcq(r, s, i, b) * rabs(self.jd()) * self.condition.th(self.px(r, s)) * self.bq(r, s, b, j), self.condition.nb())
    }
    pub open spec fn mq(&self, r: real, s: real, i: int, j: int) -> real {
        rsum(|d: int| hq(r, s, d, i) * (self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd())) * hq(r, s, d, j), 2)
    }
    pub open spec fn kij(&self, i: int, j: int) -> real { (self.kq(1real / 6real, 1real / 6real, i, j) + self.kq(2real / 3real, 1real / 6real, i, j) + self.kq(1real / 6real, 2real / 3real, i, j)) / 6real }
    pub open spec fn mij(&self, i: int, j: int) -> real { (self.mq(1real / 6real, 1real / 6real, i, j) + self.mq(2real / 3real, 1real / 6real, i, j) + self.mq(1real / 6real, 2real / 3real, i, j)) / 6real }
    // a list of coefficients, one for every pair of the element's degrees of freedom, each labelled with its pair
    pub open spec fn coefs(&self, l: Seq<(NodeDof, NodeDof, R)>, m: A2) -> bool { l.len() == 36 && forall|t: int| 0 <= t < 36 ==> self.is_dof((#[trigger] l[t]).0, t / 6) && self.is_dof(l[t].1, t % 6) && l[t].2.r() == m(t / 6, t % 6) }
    // inside the triangle an axisymmetric element is off the axis
    pub proof fn lem_ref(&self)
        requires self.ok(),
        ensures self.condition.axi() ==> forall|p: Point| #[trigger] in_ref(p) ==> self.px(p.c(0), p.c(1)) > 0real,
    {
        if self.condition.axi() { assert forall|p: Point| #[trigger] in_ref(p) implies self.px(p.c(0), p.c(1)) > 0real by {
            let (u, v) = (p.c(0), p.c(1)); let (a, b, c) = (self.x(0), self.x(1), self.x(2)); let w = 1real - u - v;
            assert(w * a >= 0real && u * b >= 0real && v * c >= 0real) by (nonlinear_arith) requires w >= 0real, u >= 0real, v >= 0real, a > 0real, b > 0real, c > 0real;
            assert(w > 0real ==> w * a > 0real) by (nonlinear_arith) requires a > 0real;
            assert(u > 0real ==> u * b > 0real) by (nonlinear_arith) requires b > 0real;
            assert(v > 0real ==> v * c > 0real) by (nonlinear_arith) requires c > 0real;
        } }
    }
//@ fn Element::map_dof -> res
//@ requires
    i < 6,
//@ ensures
    self.is_dof(res, i as int),
//@ end
//@ fn Element::material -> res
//@ ensures
    res == self.material,
//@ end
//@ fn Element::node_points -> res
//@ ensures
    res == self.node_points,
//@ end
//@ fn Element::node_ids -> res
//@ ensures
    res == self.node_ids,
//@ end
//@ fn Element::get_isopar_mats -> res
//@ tupleidx coords
//@ requires
    self.wf(), c.0.wf(), c.0.n == 2, self.condition.axi() ==> self.px(c.0.c(0), c.0.c(1)) != 0real,
//@ ensures
    res.of(self, c.0.c(0), c.0.c(1)),
//@ after let h_grads
    proof { assert(h_grads.at(0, 0) == -1real && h_grads.at(0, 1) == 1real && h_grads.at(0, 2) == 0real && h_grads.at(1, 0) == -1real && h_grads.at(1, 1) == 0real && h_grads.at(1, 2) == 1real); }
//@ after let h_mat
    proof {
        assert(h@[0].r() == hs(r.r(), s.r(), 0) && h@[1].r() == hs(r.r(), s.r(), 1) && h@[2].r() == hs(r.r(), s.r(), 2));
        assert(h_mat.at(0, 0) == h@[0].r() && h_mat.at(0, 1) == 0real && h_mat.at(0, 2) == h@[1].r() && h_mat.at(0, 3) == 0real && h_mat.at(0, 4) == h@[2].r() && h_mat.at(0, 5) == 0real);
        assert(h_mat.at(1, 0) == 0real && h_mat.at(1, 1) == h@[0].r() && h_mat.at(1, 2) == 0real && h_mat.at(1, 3) == h@[1].r() && h_mat.at(1, 4) == 0real && h_mat.at(1, 5) == h@[2].r());
        assert forall|d: int, k: int| 0 <= d < 2 && 0 <= k < 6 implies #[trigger] h_mat.at(d, k) == hq(r.r(), s.r(), d, k) by { if d == 0 { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else { assert(k == 5); } } else { assert(d == 1); if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else { assert(k == 5); } } }
    }
//@ after let j :
    proof {
        assert forall|a: int, b: int| 0 <= a < 2 && 0 <= b < 2 implies #[trigger] j.at(a, b) == self.node_points@[a + 1].c(b) - self.node_points@[0].c(b) by {
            assert(inr(&j, a, b)); let f = |k: int| h_grads.at(a, k) * node_points_mat.at(k, b); rs3(f);
            lem_sgn(h_grads.at(a, 0), node_points_mat.at(0, b)); lem_sgn(h_grads.at(a, 1), node_points_mat.at(1, b)); lem_sgn(h_grads.at(a, 2), node_points_mat.at(2, b));
        }
        assert(j.at(0, 0) * j.at(1, 1) - j.at(1, 0) * j.at(0, 1) == self.jd()); lem_det2(mf(&j)); assert(det(mf(&j), 2) == self.jd()); assert(4 * 3 == 12int); assert(tri_fits(2)); assert(inv_ok(mf(&j), 2));
    }
//@ after let det_j
    proof { assert(det_j.r() == self.jd()); }
//@ after let coords :
    proof { reveal_with_fuel(rsum, 4); assert(h@[0].r() == hs(r.r(), s.r(), 0) && h@[1].r() == hs(r.r(), s.r(), 1) && h@[2].r() == hs(r.r(), s.r(), 2)); assert(inr(&coords, 0, 0));
        assert(node_points_mat.at(0, 0) == self.x(0) && node_points_mat.at(1, 0) == self.x(1) && node_points_mat.at(2, 0) == self.x(2));
        assert(coords.at(0, 0) == self.px(r.r(), s.r())); }
//@ after let h_grads_global
    proof {
        let (a, b, c2, d) = (j.at(0, 0), j.at(0, 1), j.at(1, 0), j.at(1, 1)); let t = self.jd();
        assert forall|i: int, k: int| 0 <= i < 2 && 0 <= k < 2 implies #[trigger] mm(mf(&j_inv), mf(&j), 2, i, k) == delta(i, k) && j_inv.at(i, 0) * j.at(0, k) + j_inv.at(i, 1) * j.at(1, k) == delta(i, k) by {
            assert(mm(mf(&j_inv), mf(&j), 2, i, k) == delta(i, k)); rs2(|l: int| mf(&j_inv)(i, l) * mf(&j)(l, k)); }
        assert(mm(mf(&j_inv), mf(&j), 2, 0, 0) == 1real && mm(mf(&j_inv), mf(&j), 2, 0, 1) == 0real && mm(mf(&j_inv), mf(&j), 2, 1, 0) == 0real && mm(mf(&j_inv), mf(&j), 2, 1, 1) == 1real);
        lem_row2(j_inv.at(0, 0), j_inv.at(0, 1), a, b, c2, d, 1real, 0real, t); lem_row2(j_inv.at(1, 0), j_inv.at(1, 1), a, b, c2, d, 0real, 1real, t);
        lem_sgn(1real, d); lem_sgn(0real, c2); lem_sgn(0real, a); lem_sgn(1real, b); lem_sgn(0real, d); lem_sgn(1real, c2); lem_sgn(1real, a); lem_sgn(0real, b);
        assert(j_inv.at(0, 0) == d / t && j_inv.at(0, 1) == (-b) / t && j_inv.at(1, 0) == (-c2) / t && j_inv.at(1, 1) == a / t);
        assert forall|i: int, k: int| 0 <= i < 2 && 0 <= k < 3 implies #[trigger] h_grads_global.at(i, k) == (if i == 0 { self.gx(k) } else { self.gy(k) }) by {
            assert(inr(&h_grads_global, i, k)); rs2(|l: int| j_inv.at(i, l) * h_grads.at(l, k));
            lem_sgn(h_grads.at(0, k), j_inv.at(i, 0)); lem_sgn(h_grads.at(1, k), j_inv.at(i, 1));
            lem_sumq(d, -b, t); lem_sumq(-c2, a, t); lem_sumq(d - b, 0real, t); lem_sumq(a - c2, 0real, t);
        }
    }
//@ end
//@ fn Element::map_matrix -> res
//@ tupleidx mat
//@ let acc0 : Vec<(NodeDof, NodeDof, R)>
//@ requires
    mat.wf(), mat.nr() == 6, mat.nc() == 6,
//@ ensures
    res@.len() == 36, forall|t: int| 0 <= t < 36 ==> self.is_dof((#[trigger] res@[t]).0, t / 6) && self.is_dof(res@[t].1, t % 6) && res@[t].2.r() == mat.at(t / 6, t % 6),
//@ loop 0
    len0 == 36, acc0@.len() == k0, forall|t: int| 0 <= t < k0 ==> self.is_dof((#[trigger] acc0@[t]).0, t / 6) && self.is_dof(acc0@[t].1, t % 6) && acc0@[t].2.r() == mat.at(t / 6, t % 6),
//@ end
//@ fn Element::calc_k -> res
//@ opt closures
//@ let closure nat_coor : |nat_coor: Point| -> (res: LinearMatrix) requires nat_coor.wf(), nat_coor.n == 2, self.condition.axi() ==> self.px(nat_coor.c(0), nat_coor.c(1)) != 0real ensures res.wf(), res.dims == (6usize, 6usize), forall|i: int, j: int| 0 <= i < 6 && 0 <= j < 6 ==> #[trigger] res.at(i, j) == self.kq(nat_coor.c(0), nat_coor.c(1), i, j)
//@ requires
    self.ok(),
//@ ensures
    self.coefs(res@, |i: int, j: int| self.kij(i, j)),
//@ before let mut inter
    let ghost (gr, gs, nb) = (nat_coor.c(0), nat_coor.c(1), self.condition.nb());
    let ghost bt = mats.b;
    proof { assert(6 * 3 == 18 && 6 * 4 == 24); assert(fits(6, nb)); }
//@ after let mut inter
    let ghost i0 = inter;
    proof { assert forall|i: int, b: int| 0 <= i < 6 && 0 <= b < nb implies #[trigger] i0.at(i, b) == self.bcq(gr, gs, i, b) by {
        assert(inr(&i0, i, b)); rs_same(|a: int| bt.at(i, a) * c.at(a, b), |a: int| self.bq(gr, gs, a, i) * self.cq(a, b), nb); } }
//@ before inter.mul(
    proof {
        assert forall|i: int, b: int| 0 <= i < 6 && 0 <= b < nb implies #[trigger] inter.at(i, b) == self.bcq(gr, gs, i, b) * rabs(self.jd()) * self.condition.th(self.px(gr, gs)) by { assert(inr(&inter, i, b)); assert(inr(&i0, i, b)); }
        assert forall|a: int, k: int| 0 <= a < nb && 0 <= k < 6 implies #[trigger] mats.b.at(a, k) == self.bq(gr, gs, a, k) by { assert(inr(&mats.b, a, k)); assert(inr(&bt, k, a)); }
        assert forall|i: int, k: int| 0 <= i < 6 && 0 <= k < 6 implies #[trigger] mat_dot(&inter, &mats.b, i, k) == self.kq(gr, gs, i, k) by {
            rs_same(|b: int| inter.at(i, b) * mats.b.at(b, k), |b: int| self.bcq(gr, gs, i, b) * rabs(self.jd()) * self.condition.th(self.px(gr, gs)) * self.bq(gr, gs, b, k), nb); }
    }
//@ requires
    self.ok(),
//@ ensures
    self.coefs(res@, |i: int, j: int| self.kij(i, j)),
//@ before let el_k
    proof { self.lem_ref(); assert(shaped(integrand, (6usize, 6usize))); }
//@ end
//@ fn Element::calc_m -> res
//@ opt closures
//@ let closure nat_coor : |nat_coor: Point| -> (res: LinearMatrix) requires nat_coor.wf(), nat_coor.n == 2, self.condition.axi() ==> self.px(nat_coor.c(0), nat_coor.c(1)) != 0real ensures res.wf(), res.dims == (6usize, 6usize), forall|i: int, j: int| 0 <= i < 6 && 0 <= j < 6 ==> #[trigger] res.at(i, j) == self.mq(nat_coor.c(0), nat_coor.c(1), i, j)
//@ before ht.mul(
    let ghost (gr, gs) = (nat_coor.c(0), nat_coor.c(1)); let ghost rho = self.material.density.r() * self.condition.th(self.px(gr, gs)) * rabs(self.jd());
    proof {
        assert forall|i: int, d: int| 0 <= i < 6 && 0 <= d < 2 implies #[trigger] ht.at(i, d) == hq(gr, gs, d, i) * rho by { assert(inr(&ht, i, d)); assert(inr(&h, d, i)); }
        assert forall|d: int, k: int| 0 <= d < 2 && 0 <= k < 6 implies #[trigger] h.at(d, k) == hq(gr, gs, d, k) by { assert(inr(&h, d, k)); }
        assert forall|i: int, k: int| 0 <= i < 6 && 0 <= k < 6 implies #[trigger] mat_dot(&ht, &h, i, k) == self.mq(gr, gs, i, k) by {
            rs_same(|d: int| ht.at(i, d) * h.at(d, k), |d: int| hq(gr, gs, d, i) * rho * hq(gr, gs, d, k), 2); }
    }
//@ requires
    self.ok(),
//@ ensures
    self.coefs(res@, |i: int, j: int| self.mij(i, j)),
//@ before let el_m
    proof { self.lem_ref(); assert(shaped(integrand, (6usize, 6usize))); }
//@ end
}
// ---- the properties of the matrices
pub proof fn lem_asc(a: real, f: real, t: real, b: real) ensures a * f * t * b == (f * t) * (a * b)
{ let u = f * t; assert(a * f * t == a * u) by (nonlinear_arith) requires u == f * t; assert((a * u) * b == u * (a * b)) by (nonlinear_arith); }
pub proof fn lem_div3(a: real, b: real, c: real, t: real) requires t != 0real, a + b + c == 0real, ensures a / t + b / t + c / t == 0real
{ lem_sumq(a, b, t); lem_sumq(a + b, c, t); lem_over0(t); }
pub proof fn lem_over0(t: real) requires t != 0real, ensures 0real / t == 0real { assert(0real / t == 0real) by (nonlinear_arith) requires t != 0real; }
impl Element {
    // B' C B at (r, s)
    pub open spec fn k1(&self, r: real, s: real, i: int, j: int) -> real { rsum(|b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, j), self.condition.nb()) }
    pub proof fn lem_kq(&self, r: real, s: real, i: int, j: int)
        ensures self.kq(r, s, i, j) == (rabs(self.jd()) * self.condition.th(self.px(r, s))) * self.k1(r, s, i, j),
    {
        let n = self.condition.nb(); let f = rabs(self.jd()); let t = self.condition.th(self.px(r, s));
        let g = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, j); let h = |b: int| self.bcq(r, s, i, b) * f * t * self.bq(r, s, b, j);
        assert forall|b: int| 0 <= b < n implies #[trigger] h(b) == (f * t) * g(b) by { lem_asc(self.bcq(r, s, i, b), f, t, self.bq(r, s, b, j)); }
        rs_scale(f * t, g, h, n);
    }
    pub proof fn lem_csym(&self, a: int, b: int) ensures self.cq(a, b) == self.cq(b, a) {}
    pub proof fn lem_k1_sym(&self, r: real, s: real, i: int, j: int)
        ensures self.k1(r, s, i, j) == self.k1(r, s, j, i),
    {
        let n = self.condition.nb();
        let g = |b: int, a: int| (self.bq(r, s, a, i) * self.cq(a, b)) * self.bq(r, s, b, j);
        let g2 = |b: int, a: int| (self.bq(r, s, a, j) * self.cq(a, b)) * self.bq(r, s, b, i);
        self.lem_k1_sum(r, s, i, j); self.lem_k1_sum(r, s, j, i);
        rs_swap(g, n, n);
        let u = |a: int| rsum(|b: int| g(b, a), n); let v = |b: int| rsum(|a: int| g2(b, a), n);
        assert forall|a: int| 0 <= a < n implies #[trigger] u(a) == v(a) by {
            let p = |b: int| g(b, a); let q = |b: int| g2(a, b);
            assert forall|b: int| 0 <= b < n implies #[trigger] p(b) == q(b) by {
                self.lem_csym(a, b); let (x, y, z) = (self.bq(r, s, a, i), self.cq(a, b), self.bq(r, s, b, j));
                assert((x * y) * z == (z * y) * x) by (nonlinear_arith); }
            rs_same(p, q, n);
        }
        rs_same(u, v, n);
    }
    pub proof fn lem_k1_sum(&self, r: real, s: real, i: int, j: int)
        ensures ({ let n = self.condition.nb(); let g = |b: int, a: int| (self.bq(r, s, a, i) * self.cq(a, b)) * self.bq(r, s, b, j);
            self.k1(r, s, i, j) == rsum(|b: int| rsum(|a: int| g(b, a), n), n) }),
    {
        let n = self.condition.nb(); let g = |b: int, a: int| (self.bq(r, s, a, i) * self.cq(a, b)) * self.bq(r, s, b, j);
        let u = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, j); let v = |b: int| rsum(|a: int| g(b, a), n);
        assert forall|b: int| 0 <= b < n implies #[trigger] u(b) == v(b) by {
            let y = self.bq(r, s, b, j); let p = |a: int| self.bq(r, s, a, i) * self.cq(a, b); let q = |a: int| g(b, a);
            assert forall|a: int| 0 <= a < n implies #[trigger] q(a) == y * p(a) by { let x = p(a); assert(x * y == y * x) by (nonlinear_arith); }
            rs_scale(y, p, q, n); let x = rsum(p, n); assert(x * y == y * x) by (nonlinear_arith);
        }
        rs_same(u, v, n);
    }
    // K is symmetric
    pub proof fn lem_k_sym(&self, i: int, j: int)
        ensures self.kij(i, j) == self.kij(j, i),
    {
        let (p, q) = (1real / 6real, 2real / 3real);
        self.lem_kq(p, p, i, j); self.lem_kq(q, p, i, j); self.lem_kq(p, q, i, j); self.lem_kq(p, p, j, i); self.lem_kq(q, p, j, i); self.lem_kq(p, q, j, i);
        self.lem_k1_sym(p, p, i, j); self.lem_k1_sym(q, p, i, j); self.lem_k1_sym(p, q, i, j);
    }
    // away from the axis K is thickness * area * B' C B, and B does not depend on where it is taken
    pub proof fn lem_k_plane(&self, i: int, j: int)
        requires !self.condition.axi(),
        ensures self.kij(i, j) == self.condition.th(0real) * (rabs(self.jd()) / 2real) * self.k1(0real, 0real, i, j),
            forall|r: real, s: real, a: int, c: int| 0 <= a < 3 ==> #[trigger] self.bq(r, s, a, c) == self.bq(0real, 0real, a, c),
    {
        let (p, q) = (1real / 6real, 2real / 3real);
        self.lem_kq(p, p, i, j); self.lem_kq(q, p, i, j); self.lem_kq(p, q, i, j);
        self.lem_same_b(p, p, i, j); self.lem_same_b(q, p, i, j); self.lem_same_b(p, q, i, j);
        let t = self.condition.th(0real); let f = rabs(self.jd()); let x = self.k1(0real, 0real, i, j);
        assert(t * (f / 2real) * x == ((f * t) * x) / 2real) by (nonlinear_arith);
    }
    proof fn lem_same_b(&self, r: real, s: real, i: int, j: int)
        requires !self.condition.axi(),
        ensures self.k1(r, s, i, j) == self.k1(0real, 0real, i, j),
    {
        let u = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, j); let v = |b: int| self.bcq(0real, 0real, i, b) * self.bq(0real, 0real, b, j);
        assert forall|b: int| 0 <= b < 3 implies #[trigger] u(b) == v(b) by {
            rs_same(|a: int| self.bq(r, s, a, i) * self.cq(a, b), |a: int| self.bq(0real, 0real, a, i) * self.cq(a, b), 3);
        }
        rs_same(u, v, 3);
    }
    // a rigid translation strains nothing: along the axis always, across it when there is no hoop strain
    pub proof fn lem_rigid(&self, i: int, d: int)
        requires self.wf(), d == 1 || d == 0 && !self.condition.axi(),
        ensures self.kij(i, d) + self.kij(i, 2 + d) + self.kij(i, 4 + d) == 0real,
    {
        let (p, q) = (1real / 6real, 2real / 3real);
        self.lem_rigid_at(p, p, i, d); self.lem_rigid_at(q, p, i, d); self.lem_rigid_at(p, q, i, d);
    }
    proof fn lem_rigid_at(&self, r: real, s: real, i: int, d: int)
        requires self.wf(), d == 1 || d == 0 && !self.condition.axi(),
        ensures self.kq(r, s, i, d) + self.kq(r, s, i, 2 + d) + self.kq(r, s, i, 4 + d) == 0real,
    {
        let n = self.condition.nb(); let t = self.jd();
        lem_div3(self.y(1) - self.y(2), self.y(2) - self.y(0), self.y(0) - self.y(1), t);
        lem_div3(self.x(2) - self.x(1), self.x(0) - self.x(2), self.x(1) - self.x(0), t);
        assert(self.gx(0) + self.gx(1) + self.gx(2) == 0real && self.gy(0) + self.gy(1) + self.gy(2) == 0real);
        let f0 = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, d); let f1 = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, 2 + d); let f2 = |b: int| self.bcq(r, s, i, b) * self.bq(r, s, b, 4 + d);
        let f01 = |b: int| f0(b) + f1(b); let f = |b: int| f01(b) + f2(b);
        rs_add(f0, f1, f01, n); rs_add(f01, f2, f, n);
        assert forall|b: int| 0 <= b < n implies #[trigger] f(b) == 0real by {
            let (x, u, v, w) = (self.bcq(r, s, i, b), self.bq(r, s, b, d), self.bq(r, s, b, 2 + d), self.bq(r, s, b, 4 + d));
            assert(u + v + w == 0real) by { if d == 0 { if b == 0 { } else if b == 1 { } else { assert(b == 2); } } else { if b == 0 { } else if b == 1 { } else if b == 2 { } else { assert(b == 3); } } }
            assert(x * u + x * v + x * w == 0real) by (nonlinear_arith) requires u + v + w == 0real;
        }
        rs_zero(f, n);
        self.lem_kq(r, s, i, d); self.lem_kq(r, s, i, 2 + d); self.lem_kq(r, s, i, 4 + d);
        let c = rabs(self.jd()) * self.condition.th(self.px(r, s)); let (u, v, w) = (self.k1(r, s, i, d), self.k1(r, s, i, 2 + d), self.k1(r, s, i, 4 + d));
        assert(c * u + c * v + c * w == 0real) by (nonlinear_arith) requires u + v + w == 0real;
    }
    // M: nothing across directions, and the entries of one direction sum to the mass:
    // density * thickness * area, or density times the integral of the radius
    pub open spec fn mass(&self) -> real {
        let (p, q) = (1real / 6real, 2real / 3real); let c = self.condition;
        self.material.density.r() * ((c.th(self.px(p, p)) + c.th(self.px(q, p)) + c.th(self.px(p, q))) / 3real) * (rabs(self.jd()) / 2real)
    }
    pub open spec fn mrow(&self, i: int, d: int) -> real { self.mij(i, d) + self.mij(i, 2 + d) + self.mij(i, 4 + d) }
    pub proof fn lem_mass(&self, d: int)
        requires 0 <= d < 2,
        ensures self.mrow(d, d) + self.mrow(2 + d, d) + self.mrow(4 + d, d) == self.mass(),
    {
        let (p, q) = (1real / 6real, 2real / 3real); let c = self.condition;
        self.lem_mass_at(p, p, d); self.lem_mass_at(q, p, d); self.lem_mass_at(p, q, d);
        let (rho, f) = (self.material.density.r(), rabs(self.jd())); let (a, b, e) = (c.th(self.px(p, p)), c.th(self.px(q, p)), c.th(self.px(p, q)));
        assert(rho * ((a + b + e) / 3real) * (f / 2real) == (rho * a * f + rho * b * f + rho * e * f) / 6real) by (nonlinear_arith);
    }
    pub open spec fn mqrow(&self, r: real, s: real, i: int, d: int) -> real { self.mq(r, s, i, d) + self.mq(r, s, i, 2 + d) + self.mq(r, s, i, 4 + d) }
    proof fn lem_mass_at(&self, r: real, s: real, d: int)
        requires 0 <= d < 2,
        ensures self.mqrow(r, s, d, d) + self.mqrow(r, s, 2 + d, d) + self.mqrow(r, s, 4 + d, d) == self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd()),
    {
        let rho = self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd());
        let (u, v, w) = (hs(r, s, 0), hs(r, s, 1), hs(r, s, 2));
        self.lem_mq(r, s, 0, 0, d); self.lem_mq(r, s, 0, 1, d); self.lem_mq(r, s, 0, 2, d);
        self.lem_mq(r, s, 1, 0, d); self.lem_mq(r, s, 1, 1, d); self.lem_mq(r, s, 1, 2, d);
        self.lem_mq(r, s, 2, 0, d); self.lem_mq(r, s, 2, 1, d); self.lem_mq(r, s, 2, 2, d);
        assert(u * rho * u + u * rho * v + u * rho * w == u * rho) by (nonlinear_arith) requires u + v + w == 1real;
        assert(v * rho * u + v * rho * v + v * rho * w == v * rho) by (nonlinear_arith) requires u + v + w == 1real;
        assert(w * rho * u + w * rho * v + w * rho * w == w * rho) by (nonlinear_arith) requires u + v + w == 1real;
        assert(u * rho + v * rho + w * rho == rho) by (nonlinear_arith) requires u + v + w == 1real;
    }
    proof fn lem_mq(&self, r: real, s: real, k: int, l: int, d: int)
        requires 0 <= d < 2, 0 <= k < 3, 0 <= l < 3,
        ensures self.mq(r, s, 2 * k + d, 2 * l + d) == hs(r, s, k) * (self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd())) * hs(r, s, l),
    {
        let rho = self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd());
        let f = |e: int| hq(r, s, e, 2 * k + d) * rho * hq(r, s, e, 2 * l + d);
        rs2(f); lem_sgn(0real, rho); lem_sgn(0real, 0real);
    }
    pub proof fn lem_m_cross(&self, i: int, j: int)
        requires 0 <= i, 0 <= j, i % 2 != j % 2,
        ensures self.mij(i, j) == 0real,
    {
        let (p, q) = (1real / 6real, 2real / 3real);
        self.lem_m_cross_at(p, p, i, j); self.lem_m_cross_at(q, p, i, j); self.lem_m_cross_at(p, q, i, j);
    }
    proof fn lem_m_cross_at(&self, r: real, s: real, i: int, j: int)
        requires 0 <= i, 0 <= j, i % 2 != j % 2,
        ensures self.mq(r, s, i, j) == 0real,
    {
        let rho = self.material.density.r() * self.condition.th(self.px(r, s)) * rabs(self.jd());
        let f = |e: int| hq(r, s, e, i) * rho * hq(r, s, e, j);
        rs2(f); lem_sgn(0real, rho); lem_sgn(0real, hq(r, s, 0, j)); lem_sgn(0real, hq(r, s, 1, j)); lem_sgn(0real, hq(r, s, 0, i) * rho); lem_sgn(0real, hq(r, s, 1, i) * rho);
    }
}
}
