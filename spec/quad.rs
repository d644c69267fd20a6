//@ include points.rs
//@ include arith.rs
//@ call func func
verus! {
// ---- Gauss points and weights: rules of one to four points
pub open spec fn gp(n: int, i: int) -> real {
    if n == 1 { { 0real } } else
    if n == 2 { if i == 0 { (-(577350269189626real / 1000000000000000real)) } else { (577350269189626real / 1000000000000000real) } } else
    if n == 3 { if i == 0 { (-(774596669241483real / 1000000000000000real)) } else if i == 1 { 0real } else { (774596669241483real / 1000000000000000real) } } else
    if n == 4 { if i == 0 { (-(861136311594053real / 1000000000000000real)) } else if i == 1 { (-(339981043584856real / 1000000000000000real)) } else if i == 2 { (339981043584856real / 1000000000000000real) } else { (861136311594053real / 1000000000000000real) } } else
    { 0real }
}
pub open spec fn gw(n: int, i: int) -> real {
    if n == 1 { { 2real } } else
    if n == 2 { if i == 0 { 1real } else { 1real } } else
    if n == 3 { if i == 0 { (555555555555555real / 1000000000000000real) } else if i == 1 { (888888888888888real / 1000000000000000real) } else { (555555555555555real / 1000000000000000real) } } else
    if n == 4 { if i == 0 { (347854845137454real / 1000000000000000real) } else if i == 1 { (652145154862546real / 1000000000000000real) } else if i == 2 { (652145154862546real / 1000000000000000real) } else { (347854845137454real / 1000000000000000real) } } else
    { 0real }
}
//@ constfn GAUSS_P_1
    ensures forall|i: int| 0 <= i < 1 ==> (#[trigger] res@[i]).r() == gp(1, i),
//@ end
//@ constfn GAUSS_P_2
    ensures forall|i: int| 0 <= i < 2 ==> (#[trigger] res@[i]).r() == gp(2, i),
//@ end
//@ constfn GAUSS_P_3
    ensures forall|i: int| 0 <= i < 3 ==> (#[trigger] res@[i]).r() == gp(3, i),
//@ end
//@ constfn GAUSS_P_4
    ensures forall|i: int| 0 <= i < 4 ==> (#[trigger] res@[i]).r() == gp(4, i),
//@ end
//@ constfn GAUSS_W_1
    ensures forall|i: int| 0 <= i < 1 ==> (#[trigger] res@[i]).r() == gw(1, i),
//@ end
//@ constfn GAUSS_W_2
    ensures forall|i: int| 0 <= i < 2 ==> (#[trigger] res@[i]).r() == gw(2, i),
//@ end
//@ constfn GAUSS_W_3
    ensures forall|i: int| 0 <= i < 3 ==> (#[trigger] res@[i]).r() == gw(3, i),
//@ end
//@ constfn GAUSS_W_4
    ensures forall|i: int| 0 <= i < 4 ==> (#[trigger] res@[i]).r() == gw(4, i),
//@ end
//@ constfn GAUSS_POINTS
    ensures forall|n: int| 0 <= n <= 4 ==> (#[trigger] res@[n])@.len() == n, forall|n: int, i: int| 0 <= n <= 4 && 0 <= i < n ==> (#[trigger] res@[n]@[i]).r() == gp(n, i),
//@ end
//@ constfn GAUSS_WEIGHTS
    ensures forall|n: int| 0 <= n <= 4 ==> (#[trigger] res@[n])@.len() == n, forall|n: int, i: int| 0 <= n <= 4 && 0 <= i < n ==> (#[trigger] res@[n]@[i]).r() == gw(n, i),
//@ end
//@ constfn GAUSS_TRI_R_1
    ensures res.r() == 1real / 6real,
//@ end
//@ constfn GAUSS_TRI_R_2
    ensures res.r() == 2real / 3real,
//@ end
//@ constfn GAUSS_TRI_R_3
    ensures res.r() == 1real / 6real,
//@ end
//@ constfn GAUSS_TRI_S_1
    ensures res.r() == 1real / 6real,
//@ end
//@ constfn GAUSS_TRI_S_2
    ensures res.r() == 1real / 6real,
//@ end
//@ constfn GAUSS_TRI_S_3
    ensures res.r() == 2real / 3real,
//@ end
// ---- matrices added and scaled in place, by the operators
impl AddAssignSpecImpl<LinearMatrix> for LinearMatrix {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: LinearMatrix) -> bool { self.wf() && o.wf() && self.dims == o.dims }
    open spec fn add_assign_spec(&self, o: LinearMatrix) -> &LinearMatrix { arbitrary() }
}
impl core::ops::AddAssign<LinearMatrix> for LinearMatrix {
    fn add_assign(&mut self, other: LinearMatrix)
        ensures final(self).wf(), same_shape(final(self), old(self)), forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) + other.at(r, c),
    { self.v_add_m(other) }
}
impl MulAssignSpecImpl<R> for LinearMatrix {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, o: R) -> bool { self.wf() }
    open spec fn mul_assign_spec(&self, o: R) -> &LinearMatrix { arbitrary() }
}
impl core::ops::MulAssign<R> for LinearMatrix {
    fn mul_assign(&mut self, other: R)
        ensures final(self).wf(), same_shape(final(self), old(self)), forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) * other.r(),
    { self.v_mul_f(other) }
}
// ---- the triangle rule
pub open spec fn at2(p: Point, x: real, y: real) -> bool { p.wf() && p.n == 2 && p.c(0) == x && p.c(1) == y }
// in the reference triangle
pub open spec fn in_ref(p: Point) -> bool { p.wf() && p.n == 2 && p.c(0) >= 0real && p.c(1) >= 0real && p.c(0) + p.c(1) <= 1real }
pub open spec fn sampled<T: Fn(Point) -> LinearMatrix>(func: T, x: real, y: real, m: LinearMatrix) -> bool { exists|p: Point| #[trigger] func.ensures((p,), m) && at2(p, x, y) }
pub open spec fn tri_rule<T: Fn(Point) -> LinearMatrix>(func: T, res: LinearMatrix, m1: LinearMatrix, m2: LinearMatrix, m3: LinearMatrix) -> bool {
    &&& sampled(func, 1real / 6real, 1real / 6real, m1) && sampled(func, 2real / 3real, 1real / 6real, m2) && sampled(func, 1real / 6real, 2real / 3real, m3)
    &&& res.wf() && same_shape(&res, &m1)
    &&& forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == (m1.at(r, c) + m2.at(r, c) + m3.at(r, c)) / 6real
}
pub open spec fn added_to(s: LinearMatrix, a: LinearMatrix, m: LinearMatrix) -> bool { s.wf() && same_shape(&s, &a) && forall|r: int, c: int| inr(&a, r, c) ==> #[trigger] s.at(r, c) == a.at(r, c) + m.at(r, c) }
// the answers of func are matrices of one shape
pub open spec fn shaped<T: Fn(Point) -> LinearMatrix>(func: T, dims: (usize, usize)) -> bool { forall|p: Point, m: LinearMatrix| #[trigger] func.ensures((p,), m) && p.wf() ==> m.wf() && m.dims == dims }
//@ fn integrate::gauss_tri -> res
//@ sig
    pub fn gauss_tri<T: Fn(Point) -> LinearMatrix>(func: T) -> (res: LinearMatrix)
//@ requires
    forall|p: Point| in_ref(p) ==> #[trigger] func.requires((p,)), exists|d: (usize, usize)| shaped(func, d),
//@ ensures
    exists|m1: LinearMatrix, m2: LinearMatrix, m3: LinearMatrix| tri_rule(func, res, m1, m2, m3),
//@ after let mut res
    let ghost s1 = res;
    proof { assert(sampled(func, 1real / 6real, 1real / 6real, s1)); }
//@ after res += func((GAUSS_TRI_R_2
    let ghost s2 = res;
    proof { assert(exists|p: Point, m: LinearMatrix| #[trigger] func.ensures((p,), m) && at2(p, 2real / 3real, 1real / 6real) && m.wf() && m.dims == s1.dims && added_to(s2, s1, m)); }
    let ghost m2 = choose|m: LinearMatrix| sampled(func, 2real / 3real, 1real / 6real, m) && m.wf() && m.dims == s1.dims && added_to(s2, s1, m);
//@ after res += func((GAUSS_TRI_R_3
    let ghost s3 = res;
    proof { assert(exists|p: Point, m: LinearMatrix| #[trigger] func.ensures((p,), m) && at2(p, 1real / 6real, 2real / 3real) && m.wf() && m.dims == s1.dims && added_to(s3, s2, m)); }
    let ghost m3 = choose|m: LinearMatrix| sampled(func, 1real / 6real, 2real / 3real, m) && m.wf() && m.dims == s1.dims && added_to(s3, s2, m);
//@ tail
    proof { assert(tri_rule(func, ret_, s1, m2, m3)) by { assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == (s1.at(r, c) + m2.at(r, c) + m3.at(r, c)) / 6real by {
        assert(inr(&s1, r, c) && inr(&s2, r, c) && inr(&s3, r, c)); let x = s3.at(r, c); assert(x * (1real / 6real) == x / 6real) by (nonlinear_arith); } } }
//@ end
// exact for every polynomial of degree at most two: c00 + c10 x + c01 y + c20 x^2 + c11 x y + c02 y^2, whose
// integral over the triangle sums a! b! / (a + b + 2)! times its coefficients
pub struct Poly2 { pub c00: real, pub c10: real, pub c01: real, pub c20: real, pub c11: real, pub c02: real }
impl Poly2 {
    pub open spec fn at(self, x: real, y: real) -> real { self.c00 + self.c10 * x + self.c01 * y + self.c20 * (x * x) + self.c11 * (x * y) + self.c02 * (y * y) }
    pub open spec fn integral(self) -> real { self.c00 / 2real + self.c10 / 6real + self.c01 / 6real + self.c20 / 12real + self.c11 / 24real + self.c02 / 12real }
}
pub proof fn lem_tri_exact(f: Poly2)
    ensures (f.at(1real / 6real, 1real / 6real) + f.at(2real / 3real, 1real / 6real) + f.at(1real / 6real, 2real / 3real)) / 6real == f.integral(),
{}
// ---- the segment rule of order n: (dist / 2) * sum of the weights times the samples
pub open spec fn on_seg(p: Point, a: Point, b: Point, x: real) -> bool { p.wf() && p.n == a.n && forall|k: int| 0 <= k < 3 ==> #[trigger] p.c(k) == (a.c(k) + b.c(k)) / 2real + b.c(k) * x / 2real - a.c(k) * x / 2real }
pub open spec fn seg_sample<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point, x: real, m: LinearMatrix) -> bool { exists|p: Point| #[trigger] func.ensures((p,), m) && on_seg(p, a, b, x) }
pub open spec fn seg_terms<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point, n: int, ms: Seq<LinearMatrix>, d: (usize, usize)) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> seg_sample(func, a, b, gp(n, i), #[trigger] ms[i]) && ms[i].wf() && ms[i].dims == d
}
pub open spec fn gsum(n: int, ms: Seq<LinearMatrix>, r: int, c: int) -> real { rsum(|i: int| gw(n, i) * ms[i].at(r, c), ms.len() as int) }
pub open spec fn seg_rule<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point, n: int, ms: Seq<LinearMatrix>, h: real, res: LinearMatrix) -> bool {
    &&& ms.len() == n && seg_terms(func, a, b, n, ms, res.dims) && res.wf()
    &&& h >= 0real && 4real * (h * h) == sq3(a.c(0) - b.c(0), a.c(1) - b.c(1), a.c(2) - b.c(2))
    &&& forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == gsum(n, ms, r, c) * h
}
pub open spec fn seg_ok<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point) -> bool { forall|p: Point, x: R| #![trigger func.requires((p,)), x.r()] on_seg(p, a, b, x.r()) && -1real <= x.r() <= 1real ==> func.requires((p,)) }
pub proof fn lem_gp(n: int, i: int) ensures -1real <= gp(n, i) <= 1real {}
// what is sampled lies on the segment
pub proof fn lem_on_seg(p: Point, a: Point, b: Point, x: real)
    requires on_seg(p, a, b, x), -1real <= x <= 1real,
    ensures ({ let t = (1real + x) / 2real; 0real <= t <= 1real && forall|k: int| 0 <= k < 3 ==> #[trigger] p.c(k) == (1real - t) * a.c(k) + t * b.c(k) }),
{
    let t = (1real + x) / 2real;
    assert forall|k: int| 0 <= k < 3 implies #[trigger] p.c(k) == (1real - t) * a.c(k) + t * b.c(k) by {
        let u = a.c(k); let v = b.c(k);
        assert((1real - t) * u + t * v == (u + v) / 2real + v * x / 2real - u * x / 2real) by (nonlinear_arith) requires t == (1real + x) / 2real;
    }
}
pub proof fn lem_gsum(n: int, ms: Seq<LinearMatrix>, m: LinearMatrix, r: int, c: int)
    ensures gsum(n, ms.push(m), r, c) == gsum(n, ms, r, c) + gw(n, ms.len() as int) * m.at(r, c),
{
    let l = ms.len() as int; let ns = ms.push(m);
    let f = |i: int| gw(n, i) * ns[i].at(r, c); let g = |i: int| gw(n, i) * ms[i].at(r, c); let z = |i: int| 0real;
    rs_zero(z, l); rs_add(g, z, f, l);
    assert(rsum(f, l + 1) == rsum(f, l) + f(l));
}
//@ fn integrate::gauss_segment_mat -> res
//@ sig
    pub fn gauss_segment_mat<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point, order: usize) -> (res: LinearMatrix)
//@ let samples : usize
//@ requires
    a.wf(), b.wf(), a.n == b.n, 1 <= order <= 4,
    seg_ok(func, a, b), exists|d: (usize, usize)| shaped(func, d),
//@ ensures
    exists|ms: Seq<LinearMatrix>, h: real| seg_rule(func, a, b, order as int, ms, h, res),
//@ start
    let ghost n = order as int;
    proof { assert forall|i: int| -1real <= #[trigger] gp(n, i) <= 1real by { lem_gp(n, i); } }
//@ after let mut first_term
    let ghost m0 = first_term; let ghost mut ms = Seq::<LinearMatrix>::empty().push(m0);
    let ghost h0 = dist.r() / 2real; let ghost w0 = first_w.r();
    proof { lem_gp(n, 0); assert(seg_sample(func, a, b, gp(n, 0), m0)); assert(m0.wf()); assert(shaped(func, m0.dims)); }
//@ loop 0
    sum.wf(), n2 == order, 1 <= pos3 <= n2, ms.len() == pos3, seg_terms(func, a, b, n, ms, sum.dims), a.wf(), b.wf(), a.n == b.n, 1 <= order <= 4, n == order,
    mid.wf(), mid.n == a.n, forall|k: int| 0 <= k < 3 ==> #[trigger] mid.c(k) == (a.c(k) + b.c(k)) / 2real,
    seg_ok(func, a, b), shaped(func, sum.dims),
    forall|r: int, c: int| inr(&sum, r, c) ==> #[trigger] sum.at(r, c) == gsum(n, ms, r, c),
    decreases n2 - pos3,
//@ loop 0 before
    proof { assert forall|r: int, c: int| inr(&sum, r, c) implies #[trigger] sum.at(r, c) == gsum(n, ms, r, c) by { lem_gsum(n, Seq::<LinearMatrix>::empty(), m0, r, c); assert(inr(&m0, r, c)); assert(gsum(n, Seq::<LinearMatrix>::empty(), r, c) == 0real); assert(sum.at(r, c) == m0.at(r, c) * w0); assert(w0 == gw(n, 0)); let x = m0.at(r, c); assert(x * w0 == w0 * x) by (nonlinear_arith); } }
//@ loop 0 start
    let ghost ms0 = ms; let ghost s0 = sum; let ghost q0 = ms.len() as int;
//@ after let mut term
    let ghost m1 = term;
    proof { lem_gp(n, q0); assert(p.r() == gp(n, q0)); assert(seg_sample(func, a, b, gp(n, q0), m1)); assert(m1.wf()); ms = ms.push(m1); }
//@ after sum.add_ass
    proof { assert forall|r: int, c: int| inr(&sum, r, c) implies #[trigger] sum.at(r, c) == gsum(n, ms, r, c) by { lem_gsum(n, ms0, m1, r, c); assert(inr(&m1, r, c) && inr(&s0, r, c)); let x = m1.at(r, c); let y = w.r(); assert(x * y == y * x) by (nonlinear_arith); }
        assert forall|i: int| 0 <= i < ms.len() implies seg_sample(func, a, b, gp(n, i), #[trigger] ms[i]) && ms[i].wf() && ms[i].dims == sum.dims by { if i < q0 { assert(ms[i] == ms0[i]); } } }
//@ loop 0 after
    let ghost s9 = sum;
//@ tail
    proof { let h = norm_r_prime.r(); let d = dist.r(); assert(4real * (h * h) == d * d) by (nonlinear_arith) requires h == d / 2real;
        assert(seg_rule(func, a, b, n, ms, h, ret_)) by { assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == gsum(n, ms, r, c) * h by { assert(inr(&s9, r, c)); } } }
//@ end
// ---- exactness of the segment rule: moments of the weights, and polynomials
pub open spec fn pw(x: real, k: int) -> real decreases k { if k <= 0 { 1real } else { x * pw(x, k - 1) } }
// the integral of x^k over [-1, 1]
pub open spec fn mom(k: int) -> real { if k % 2 == 1 { 0real } else { 2real / (k + 1) as real } }
pub open spec fn moment(n: int, k: int) -> real { rsum(|i: int| gw(n, i) * pw(gp(n, i), k), n) }
pub open spec fn near0(d: real) -> bool { -(1real / 100000000000000real) <= d <= 1real / 100000000000000real }
proof fn lem_term_1_0()
    ensures gw(1, 0) * pw(gp(1, 0), 0) == ((2real)), gw(1, 0) * pw(gp(1, 0), 1) == ((0real)),
{
    let x = gp(1, 0);
    assert(pw(x, 0) == 1real);
    assert(((2real)) * 1real == ((2real))) by (nonlinear_arith);
    assert(((0real)) * ((1real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 1) == ((0real)));
    assert(((2real)) * ((0real)) == ((0real))) by (nonlinear_arith);
}
proof fn lem_term_2_0()
    ensures gw(2, 0) * pw(gp(2, 0), 0) == ((1real)), gw(2, 0) * pw(gp(2, 0), 1) == (-(288675134594813real / 500000000000000real)), gw(2, 0) * pw(gp(2, 0), 2) == ((83333333333333401313686504969real / 250000000000000000000000000000real)), gw(2, 0) * pw(gp(2, 0), 3) == (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)),
{
    let x = gp(2, 0);
    assert(pw(x, 0) == 1real);
    assert(((1real)) * 1real == ((1real))) by (nonlinear_arith);
    assert((-(288675134594813real / 500000000000000real)) * ((1real)) == (-(288675134594813real / 500000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == (-(288675134594813real / 500000000000000real)));
    assert(((1real)) * (-(288675134594813real / 500000000000000real)) == (-(288675134594813real / 500000000000000real))) by (nonlinear_arith);
    assert((-(288675134594813real / 500000000000000real)) * (-(288675134594813real / 500000000000000real)) == ((83333333333333401313686504969real / 250000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((83333333333333401313686504969real / 250000000000000000000000000000real)));
    assert(((1real)) * ((83333333333333401313686504969real / 250000000000000000000000000000real)) == ((83333333333333401313686504969real / 250000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(288675134594813real / 500000000000000real)) * ((83333333333333401313686504969real / 250000000000000000000000000000real)) == (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)));
    assert(((1real)) * (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)) == (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_2_1()
    ensures gw(2, 1) * pw(gp(2, 1), 0) == ((1real)), gw(2, 1) * pw(gp(2, 1), 1) == ((288675134594813real / 500000000000000real)), gw(2, 1) * pw(gp(2, 1), 2) == ((83333333333333401313686504969real / 250000000000000000000000000000real)), gw(2, 1) * pw(gp(2, 1), 3) == ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)),
{
    let x = gp(2, 1);
    assert(pw(x, 0) == 1real);
    assert(((1real)) * 1real == ((1real))) by (nonlinear_arith);
    assert(((288675134594813real / 500000000000000real)) * ((1real)) == ((288675134594813real / 500000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == ((288675134594813real / 500000000000000real)));
    assert(((1real)) * ((288675134594813real / 500000000000000real)) == ((288675134594813real / 500000000000000real))) by (nonlinear_arith);
    assert(((288675134594813real / 500000000000000real)) * ((288675134594813real / 500000000000000real)) == ((83333333333333401313686504969real / 250000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((83333333333333401313686504969real / 250000000000000000000000000000real)));
    assert(((1real)) * ((83333333333333401313686504969real / 250000000000000000000000000000real)) == ((83333333333333401313686504969real / 250000000000000000000000000000real))) by (nonlinear_arith);
    assert(((288675134594813real / 500000000000000real)) * ((83333333333333401313686504969real / 250000000000000000000000000000real)) == ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)));
    assert(((1real)) * ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real)) == ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_3_0()
    ensures gw(3, 0) * pw(gp(3, 0), 0) == ((111111111111111real / 200000000000000real)), gw(3, 0) * pw(gp(3, 0), 1) == (-(86066296582386913933703417613real / 200000000000000000000000000000real)), gw(3, 0) * pw(gp(3, 0), 2) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real)), gw(3, 0) * pw(gp(3, 0), 3) == (-(51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real)), gw(3, 0) * pw(gp(3, 0), 4) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(3, 0) * pw(gp(3, 0), 5) == (-(30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(3, 0);
    assert(pw(x, 0) == 1real);
    assert(((111111111111111real / 200000000000000real)) * 1real == ((111111111111111real / 200000000000000real))) by (nonlinear_arith);
    assert((-(774596669241483real / 1000000000000000real)) * ((1real)) == (-(774596669241483real / 1000000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == (-(774596669241483real / 1000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * (-(774596669241483real / 1000000000000000real)) == (-(86066296582386913933703417613real / 200000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(774596669241483real / 1000000000000000real)) * (-(774596669241483real / 1000000000000000real)) == ((599999999999999415898568039289real / 1000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((599999999999999415898568039289real / 1000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((599999999999999415898568039289real / 1000000000000000000000000000000real)) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(774596669241483real / 1000000000000000real)) * ((599999999999999415898568039289real / 1000000000000000000000000000000real)) == (-(464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == (-(464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * (-(464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)) == (-(51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(774596669241483real / 1000000000000000real)) * (-(464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)) == ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(774596669241483real / 1000000000000000real)) * ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)) == (-(278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == (-(278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * (-(278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_3_1()
    ensures gw(3, 1) * pw(gp(3, 1), 0) == ((111111111111111real / 125000000000000real)), gw(3, 1) * pw(gp(3, 1), 1) == ((0real)), gw(3, 1) * pw(gp(3, 1), 2) == ((0real)), gw(3, 1) * pw(gp(3, 1), 3) == ((0real)), gw(3, 1) * pw(gp(3, 1), 4) == ((0real)), gw(3, 1) * pw(gp(3, 1), 5) == ((0real)),
{
    let x = gp(3, 1);
    assert(pw(x, 0) == 1real);
    assert(((111111111111111real / 125000000000000real)) * 1real == ((111111111111111real / 125000000000000real))) by (nonlinear_arith);
    assert(((0real)) * ((1real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 1) == ((0real)));
    assert(((111111111111111real / 125000000000000real)) * ((0real)) == ((0real))) by (nonlinear_arith);
    assert(((0real)) * ((0real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 2) == ((0real)));
    assert(((111111111111111real / 125000000000000real)) * ((0real)) == ((0real))) by (nonlinear_arith);
    assert(((0real)) * ((0real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 3) == ((0real)));
    assert(((111111111111111real / 125000000000000real)) * ((0real)) == ((0real))) by (nonlinear_arith);
    assert(((0real)) * ((0real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 4) == ((0real)));
    assert(((111111111111111real / 125000000000000real)) * ((0real)) == ((0real))) by (nonlinear_arith);
    assert(((0real)) * ((0real)) == ((0real))) by (nonlinear_arith); assert(pw(x, 5) == ((0real)));
    assert(((111111111111111real / 125000000000000real)) * ((0real)) == ((0real))) by (nonlinear_arith);
}
proof fn lem_term_3_2()
    ensures gw(3, 2) * pw(gp(3, 2), 0) == ((111111111111111real / 200000000000000real)), gw(3, 2) * pw(gp(3, 2), 1) == ((86066296582386913933703417613real / 200000000000000000000000000000real)), gw(3, 2) * pw(gp(3, 2), 2) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real)), gw(3, 2) * pw(gp(3, 2), 3) == ((51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real)), gw(3, 2) * pw(gp(3, 2), 4) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(3, 2) * pw(gp(3, 2), 5) == ((30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(3, 2);
    assert(pw(x, 0) == 1real);
    assert(((111111111111111real / 200000000000000real)) * 1real == ((111111111111111real / 200000000000000real))) by (nonlinear_arith);
    assert(((774596669241483real / 1000000000000000real)) * ((1real)) == ((774596669241483real / 1000000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == ((774596669241483real / 1000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((774596669241483real / 1000000000000000real)) == ((86066296582386913933703417613real / 200000000000000000000000000000real))) by (nonlinear_arith);
    assert(((774596669241483real / 1000000000000000real)) * ((774596669241483real / 1000000000000000real)) == ((599999999999999415898568039289real / 1000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((599999999999999415898568039289real / 1000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((599999999999999415898568039289real / 1000000000000000000000000000000real)) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((774596669241483real / 1000000000000000real)) * ((599999999999999415898568039289real / 1000000000000000000000000000000real)) == ((464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == ((464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)) == ((51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((774596669241483real / 1000000000000000real)) * ((464758001544889347556976304052554434172625587real / 1000000000000000000000000000000000000000000000real)) == ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((774596669241483real / 1000000000000000real)) * ((359999999999999299078281647147141174482818553101677847625521real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == ((278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((111111111111111real / 200000000000000real)) * ((278854800926933337068371564863329593625172141201593751740470597667702687643real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_4_0()
    ensures gw(4, 0) * pw(gp(4, 0), 0) == ((173927422568727real / 500000000000000real)), gw(4, 0) * pw(gp(4, 0), 1) == (-(149775219155893819905316980531real / 500000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 2) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 3) == (-(111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 4) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 5) == (-(82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 6) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 0) * pw(gp(4, 0), 7) == (-(61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(4, 0);
    assert(pw(x, 0) == 1real);
    assert(((173927422568727real / 500000000000000real)) * 1real == ((173927422568727real / 500000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * ((1real)) == (-(861136311594053real / 1000000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == (-(861136311594053real / 1000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * (-(861136311594053real / 1000000000000000real)) == (-(149775219155893819905316980531real / 500000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * (-(861136311594053real / 1000000000000000real)) == ((741555747145809939269864966809real / 1000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((741555747145809939269864966809real / 1000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((741555747145809939269864966809real / 1000000000000000000000000000000real)) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * ((741555747145809939269864966809real / 1000000000000000000000000000000real)) == (-(638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == (-(638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * (-(638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)) == (-(111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * (-(638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)) == ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)) == (-(473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == (-(473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * (-(473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * (-(473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 6) == ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(861136311594053real / 1000000000000000real)) * ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 7) == (-(351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * (-(351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_4_1()
    ensures gw(4, 1) * pw(gp(4, 1), 0) == ((326072577431273real / 500000000000000real)), gw(4, 1) * pw(gp(4, 1), 1) == (-(13857311894935994837985450211real / 62500000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 2) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 3) == (-(25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 4) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 5) == (-(45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 6) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 1) * pw(gp(4, 1), 7) == (-(81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(4, 1);
    assert(pw(x, 0) == 1real);
    assert(((326072577431273real / 500000000000000real)) * 1real == ((326072577431273real / 500000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * ((1real)) == (-(42497630448107real / 125000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == (-(42497630448107real / 125000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * (-(42497630448107real / 125000000000000real)) == (-(13857311894935994837985450211real / 62500000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * (-(42497630448107real / 125000000000000real)) == ((1806048593703871173619883449real / 15625000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((1806048593703871173619883449real / 15625000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((1806048593703871173619883449real / 15625000000000000000000000000real)) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * ((1806048593703871173619883449real / 15625000000000000000000000000real)) == (-(76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == (-(76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * (-(76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)) == (-(25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * (-(76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)) == ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)) == (-(138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == (-(138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * (-(138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)) == (-(45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * (-(138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)) == ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 6) == ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert((-(42497630448107real / 125000000000000real)) * ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 7) == (-(250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * (-(250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == (-(81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_4_2()
    ensures gw(4, 2) * pw(gp(4, 2), 0) == ((326072577431273real / 500000000000000real)), gw(4, 2) * pw(gp(4, 2), 1) == ((13857311894935994837985450211real / 62500000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 2) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 3) == ((25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 4) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 5) == ((45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 6) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 2) * pw(gp(4, 2), 7) == ((81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(4, 2);
    assert(pw(x, 0) == 1real);
    assert(((326072577431273real / 500000000000000real)) * 1real == ((326072577431273real / 500000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((1real)) == ((42497630448107real / 125000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == ((42497630448107real / 125000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((42497630448107real / 125000000000000real)) == ((13857311894935994837985450211real / 62500000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((42497630448107real / 125000000000000real)) == ((1806048593703871173619883449real / 15625000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((1806048593703871173619883449real / 15625000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((1806048593703871173619883449real / 15625000000000000000000000000real)) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((1806048593703871173619883449real / 15625000000000000000000000000real)) == ((76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == ((76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)) == ((25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((76752785706550463883024167456010982681043real / 1953125000000000000000000000000000000000000real)) == ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((3261811522819730735034333068833906624126086844344135601real / 244140625000000000000000000000000000000000000000000000000real)) == ((138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == ((138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)) == ((45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((138619260688170049533298204540097783642614907676073064999643201757307real / 30517578125000000000000000000000000000000000000000000000000000000000000real)) == ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 6) == ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((42497630448107real / 125000000000000real)) * ((5890990113715657191341596162427054314913498113643151403322859858092498892271567849real / 3814697265625000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 7) == ((250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((326072577431273real / 500000000000000real)) * ((250353120826139831411256354360753487821797352732247499582687314679864286129422351085833324111843real / 476837158203125000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_term_4_3()
    ensures gw(4, 3) * pw(gp(4, 3), 0) == ((173927422568727real / 500000000000000real)), gw(4, 3) * pw(gp(4, 3), 1) == ((149775219155893819905316980531real / 500000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 2) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 3) == ((111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 4) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 5) == ((82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 6) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)), gw(4, 3) * pw(gp(4, 3), 7) == ((61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)),
{
    let x = gp(4, 3);
    assert(pw(x, 0) == 1real);
    assert(((173927422568727real / 500000000000000real)) * 1real == ((173927422568727real / 500000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((1real)) == ((861136311594053real / 1000000000000000real))) by (nonlinear_arith); assert(pw(x, 1) == ((861136311594053real / 1000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((861136311594053real / 1000000000000000real)) == ((149775219155893819905316980531real / 500000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((861136311594053real / 1000000000000000real)) == ((741555747145809939269864966809real / 1000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 2) == ((741555747145809939269864966809real / 1000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((741555747145809939269864966809real / 1000000000000000000000000000000real)) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((741555747145809939269864966809real / 1000000000000000000000000000000real)) == ((638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 3) == ((638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)) == ((111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((638580580938514966469195382839120794726786877real / 1000000000000000000000000000000000000000000000real)) == ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 4) == ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((549904926124980405891839238492238112416141729612822671642481real / 1000000000000000000000000000000000000000000000000000000000000real)) == ((473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 5) == ((473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((473543099810665822756304091901519905403669113287091816657056545784821765493real / 1000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 6) == ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
    assert(((861136311594053real / 1000000000000000real)) * ((407785158351771264133969021700130541338758190445453178669882780916118427122259840579413129real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith); assert(pw(x, 7) == ((351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)));
    assert(((173927422568727real / 500000000000000real)) * ((351158607185841143386477467907706061834918877915146316311699541908907298422748085087263749527749226521837real / 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real)) == ((61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))) by (nonlinear_arith);
}
proof fn lem_moment_1()
    ensures forall|k: int| 0 <= k < 2 ==> near0(#[trigger] moment(1, k) - mom(k)),
{
    lem_term_1_0();
    assert(near0(moment(1, 0) - mom(0))) by { assert((0int + 1) as real == 1real); assert(mom(0) == 2real / 1real); let f = |i: int| gw(1, i) * pw(gp(1, i), 0); reveal_with_fuel(rsum, 2); assert(f(0) == ((2real))); }
    assert(near0(moment(1, 1) - mom(1))) by { let f = |i: int| gw(1, i) * pw(gp(1, i), 1); reveal_with_fuel(rsum, 2); assert(f(0) == ((0real))); }
}
proof fn lem_moment_2()
    ensures forall|k: int| 0 <= k < 4 ==> near0(#[trigger] moment(2, k) - mom(k)),
{
    lem_term_2_0();
    lem_term_2_1();
    assert(near0(moment(2, 0) - mom(0))) by { assert((0int + 1) as real == 1real); assert(mom(0) == 2real / 1real); let f = |i: int| gw(2, i) * pw(gp(2, i), 0); reveal_with_fuel(rsum, 3); assert(f(0) == ((1real))); assert(f(1) == ((1real))); }
    assert(near0(moment(2, 1) - mom(1))) by { let f = |i: int| gw(2, i) * pw(gp(2, i), 1); reveal_with_fuel(rsum, 3); assert(f(0) == (-(288675134594813real / 500000000000000real))); assert(f(1) == ((288675134594813real / 500000000000000real))); }
    assert(near0(moment(2, 2) - mom(2))) by { assert((2int + 1) as real == 3real); assert(mom(2) == 2real / 3real); let f = |i: int| gw(2, i) * pw(gp(2, i), 2); reveal_with_fuel(rsum, 3); assert(f(0) == ((83333333333333401313686504969real / 250000000000000000000000000000real))); assert(f(1) == ((83333333333333401313686504969real / 250000000000000000000000000000real))); }
    assert(near0(moment(2, 3) - mom(3))) by { let f = |i: int| gw(2, i) * pw(gp(2, i), 3); reveal_with_fuel(rsum, 3); assert(f(0) == (-(24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))); assert(f(1) == ((24056261216234436290904268291515551926125797real / 125000000000000000000000000000000000000000000real))); }
}
proof fn lem_moment_3()
    ensures forall|k: int| 0 <= k < 6 ==> near0(#[trigger] moment(3, k) - mom(k)),
{
    lem_term_3_0();
    lem_term_3_1();
    lem_term_3_2();
    assert(near0(moment(3, 0) - mom(0))) by { assert((0int + 1) as real == 1real); assert(mom(0) == 2real / 1real); let f = |i: int| gw(3, i) * pw(gp(3, i), 0); reveal_with_fuel(rsum, 4); assert(f(0) == ((111111111111111real / 200000000000000real))); assert(f(1) == ((111111111111111real / 125000000000000real))); assert(f(2) == ((111111111111111real / 200000000000000real))); }
    assert(near0(moment(3, 1) - mom(1))) by { let f = |i: int| gw(3, i) * pw(gp(3, i), 1); reveal_with_fuel(rsum, 4); assert(f(0) == (-(86066296582386913933703417613real / 200000000000000000000000000000real))); assert(f(1) == ((0real))); assert(f(2) == ((86066296582386913933703417613real / 200000000000000000000000000000real))); }
    assert(near0(moment(3, 2) - mom(2))) by { assert((2int + 1) as real == 3real); assert(mom(2) == 2real / 3real); let f = |i: int| gw(3, i) * pw(gp(3, i), 2); reveal_with_fuel(rsum, 4); assert(f(0) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real))); assert(f(1) == ((0real))); assert(f(2) == ((66666666666666535099840893254398233492440079real / 200000000000000000000000000000000000000000000real))); }
    assert(near0(moment(3, 3) - mom(3))) by { let f = |i: int| gw(3, i) * pw(gp(3, i), 3); reveal_with_fuel(rsum, 4); assert(f(0) == (-(51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == ((0real))); assert(f(2) == ((51639777949432098088774973240356319688480170493951758597157real / 200000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(3, 4) - mom(4))) by { assert((4int + 1) as real == 5real); assert(mom(4) == 2real / 5real); let f = |i: int| gw(3, i) * pw(gp(3, i), 4); reveal_with_fuel(rsum, 4); assert(f(0) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == ((0real))); assert(f(2) == ((39999999999999882119809071905315788466796822884500373867440877591350263831real / 200000000000000000000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(3, 5) - mom(5))) by { let f = |i: int| gw(3, i) * pw(gp(3, i), 5); reveal_with_fuel(rsum, 4); assert(f(0) == (-(30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == ((0real))); assert(f(2) == ((30983866769659228690396737547776947250400808652444458507592155119327883019155814699701373real / 200000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); }
}
proof fn lem_moment_4()
    ensures forall|k: int| 0 <= k < 8 ==> near0(#[trigger] moment(4, k) - mom(k)),
{
    lem_term_4_0();
    lem_term_4_1();
    lem_term_4_2();
    lem_term_4_3();
    assert(near0(moment(4, 0) - mom(0))) by { assert((0int + 1) as real == 1real); assert(mom(0) == 2real / 1real); let f = |i: int| gw(4, i) * pw(gp(4, i), 0); reveal_with_fuel(rsum, 5); assert(f(0) == ((173927422568727real / 500000000000000real))); assert(f(1) == ((326072577431273real / 500000000000000real))); assert(f(2) == ((326072577431273real / 500000000000000real))); assert(f(3) == ((173927422568727real / 500000000000000real))); }
    assert(near0(moment(4, 1) - mom(1))) by { let f = |i: int| gw(4, i) * pw(gp(4, i), 1); reveal_with_fuel(rsum, 5); assert(f(0) == (-(149775219155893819905316980531real / 500000000000000000000000000000real))); assert(f(1) == (-(13857311894935994837985450211real / 62500000000000000000000000000real))); assert(f(2) == ((13857311894935994837985450211real / 62500000000000000000000000000real))); assert(f(3) == ((149775219155893819905316980531real / 500000000000000000000000000000real))); }
    assert(near0(moment(4, 2) - mom(2))) by { assert((2int + 1) as real == 3real); assert(mom(2) == 2real / 3real); let f = |i: int| gw(4, i) * pw(gp(4, i), 2); reveal_with_fuel(rsum, 5); assert(f(0) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real))); assert(f(1) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real))); assert(f(2) == ((588902919915147243610699447315646067700577real / 7812500000000000000000000000000000000000000real))); assert(f(3) == ((128976879792097356246179225296337429376382143real / 500000000000000000000000000000000000000000000real))); }
    assert(near0(moment(4, 3) - mom(3))) by { let f = |i: int| gw(4, i) * pw(gp(4, i), 3); reveal_with_fuel(rsum, 5); assert(f(0) == (-(111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == (-(25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real))); assert(f(2) == ((25026978660365079688904255045884517034366284591612457739real / 976562500000000000000000000000000000000000000000000000000real))); assert(f(3) == ((111066674545076266681822396686637403069365888082622414195579real / 500000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(4, 4) - mom(4))) by { assert((4int + 1) as real == 5real); assert(mom(4) == 2real / 5real); let f = |i: int| gw(4, i) * pw(gp(4, i), 4); reveal_with_fuel(rsum, 5); assert(f(0) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real))); assert(f(2) == ((1063587290340855148099782900521452243501368921767820021876342170050073real / 122070312500000000000000000000000000000000000000000000000000000000000000real))); assert(f(3) == ((95643546458764070717562940891046196492660827178274342879441025589195291687real / 500000000000000000000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(4, 5) - mom(5))) by { let f = |i: int| gw(4, i) * pw(gp(4, i), 5); reveal_with_fuel(rsum, 5); assert(f(0) == (-(82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == (-(45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(2) == ((45199939614209145880309354636236900710957481409455684622905221839127144621618061811real / 15258789062500000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(3) == ((82362130825274541181533446331206992303419749455562349340886370728496814516250377269537411real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(4, 6) - mom(6))) by { assert((6int + 1) as real == 7real); assert(mom(6) == 2real / 7real); let f = |i: int| gw(4, i) * pw(gp(4, i), 6); reveal_with_fuel(rsum, 5); assert(f(0) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(2) == ((1920890330001412364941828971857364376741216857555950308447874112103335157751761787120412753941777real / 1907348632812500000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(3) == ((70925021553903774858430110309285561922964783129530632365229351072317700618150817588069784153131328616783real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); }
    assert(near0(moment(4, 7) - mom(7))) by { let f = |i: int| gw(4, i) * pw(gp(4, i), 7); reveal_with_fuel(rsum, 5); assert(f(0) == (-(61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(1) == (-(81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(2) == ((81633287375742325268665709786262839150016818530551942895627853170397584052415211811850785805465478419097866139real / 238418579101562500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); assert(f(3) == ((61076111460657406159724251609036220159465975444102042228937868799801150622880361704738679176839390909105370466298791499real / 500000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000real))); }
}

pub open spec fn poly(c: Seq<real>, x: real) -> real { rsum(|k: int| c[k] * pw(x, k), c.len() as int) }
// the integral of the polynomial over [-1, 1]
pub open spec fn poly_int(c: Seq<real>) -> real { rsum(|k: int| c[k] * mom(k), c.len() as int) }
pub open spec fn size1(c: Seq<real>) -> real { rsum(|k: int| if c[k] < 0real { -c[k] } else { c[k] }, c.len() as int) }
pub proof fn lem_moments(n: int)
    requires 1 <= n <= 4,
    ensures forall|k: int| 0 <= k < 2 * n ==> near0(#[trigger] moment(n, k) - mom(k)),
{ if n == 1 { lem_moment_1(); } else if n == 2 { lem_moment_2(); } else if n == 3 { lem_moment_3(); } else { lem_moment_4(); } }
// sums whose terms are within eps times a size of each other
pub proof fn rs_same(f: A1, g: A1, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == g(k),
    ensures rsum(f, n) == rsum(g, n),
    decreases n,
{ if n > 0 { rs_same(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn rs_close(f: A1, g: A1, s: A1, eps: real, n: int)
    requires eps >= 0real, forall|k: int| 0 <= k < n ==> -(eps * s(k)) <= #[trigger] f(k) - g(k) <= eps * s(k),
    ensures -(eps * rsum(s, n)) <= rsum(f, n) - rsum(g, n) <= eps * rsum(s, n),
    decreases n,
{
    if n > 0 { rs_close(f, g, s, eps, n - 1); let a = rsum(s, n - 1); let b = s(n - 1); assert(eps * (a + b) == eps * a + eps * b) by (nonlinear_arith); assert(-(eps * s(n - 1)) <= f(n - 1) - g(n - 1)); assert(rsum(s, n) == a + b); }
    else { assert(eps * 0real == 0real) by (nonlinear_arith); }
}
// the rule of order n is exact, up to the digits of its constants, for polynomials of degree at most 2 n - 1
pub proof fn lem_seg_exact(n: int, c: Seq<real>)
    requires 1 <= n <= 4, c.len() <= 2 * n,
    ensures ({ let e = 1real / 100000000000000real; -(e * size1(c)) <= rsum(|i: int| gw(n, i) * poly(c, gp(n, i)), n) - poly_int(c) <= e * size1(c) }),
{
    let l = c.len() as int; let e = 1real / 100000000000000real;
    lem_moments(n);
    let g = |i: int, k: int| gw(n, i) * (c[k] * pw(gp(n, i), k));
    let f0 = |i: int| gw(n, i) * poly(c, gp(n, i));
    let f1 = |i: int| rsum(|k: int| g(i, k), l);
    assert forall|i: int| 0 <= i < n implies #[trigger] f0(i) == f1(i) by {
        rs_scale(gw(n, i), |k: int| c[k] * pw(gp(n, i), k), |k: int| g(i, k), l);
    }
    rs_same(f0, f1, n);
    rs_swap(g, n, l);
    let h1 = |k: int| rsum(|i: int| g(i, k), n);
    let h0 = |k: int| c[k] * moment(n, k);
    assert forall|k: int| 0 <= k < l implies #[trigger] h1(k) == h0(k) by {
        let u = |i: int| gw(n, i) * pw(gp(n, i), k); let v = |i: int| g(i, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == c[k] * u(i) by { let x = gw(n, i); let y = c[k]; let z = pw(gp(n, i), k); assert(x * (y * z) == y * (x * z)) by (nonlinear_arith); }
        rs_scale(c[k], u, v, n);
    }
    rs_same(h1, h0, l);
    let m0 = |k: int| c[k] * mom(k);
    let s0 = |k: int| if c[k] < 0real { -c[k] } else { c[k] };
    assert forall|k: int| 0 <= k < l implies -(e * s0(k)) <= #[trigger] h0(k) - m0(k) <= e * s0(k) by {
        let x = c[k]; let y = moment(n, k); let z = mom(k); let d = y - z; assert(near0(d));
        assert(x * y - x * z == x * d) by (nonlinear_arith) requires d == y - z;
        if x < 0real { let w = -x; assert(-(e * w) <= x * d <= e * w) by (nonlinear_arith) requires w == -x, w > 0real, -e <= d <= e; }
        else { assert(-(e * x) <= x * d <= e * x) by (nonlinear_arith) requires x >= 0real, -e <= d <= e; }
    }
    rs_close(h0, m0, s0, e, l);
}
// the answer of the rule for samples that are polynomials of the segment parameter, entry by entry
pub proof fn lem_seg_poly<T: Fn(Point) -> LinearMatrix>(func: T, a: Point, b: Point, n: int, ms: Seq<LinearMatrix>, h: real, res: LinearMatrix, r: int, c: int, f: Seq<real>)
    requires 1 <= n <= 4, seg_rule(func, a, b, n, ms, h, res), inr(&res, r, c), f.len() <= 2 * n, forall|i: int| 0 <= i < n ==> (#[trigger] ms[i]).at(r, c) == poly(f, gp(n, i)),
    ensures ({ let e = 1real / 100000000000000real; -(e * size1(f)) * h <= res.at(r, c) - poly_int(f) * h <= (e * size1(f)) * h }),
{
    let e = 1real / 100000000000000real;
    lem_seg_exact(n, f);
    let u = |i: int| gw(n, i) * ms[i].at(r, c); let v = |i: int| gw(n, i) * poly(f, gp(n, i));
    assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == v(i) by { assert(ms[i].at(r, c) == poly(f, gp(n, i))); }
    rs_same(u, v, n);
    let g = gsum(n, ms, r, c); let q = poly_int(f); let s = e * size1(f);
    assert(-s * h <= g * h - q * h <= s * h) by (nonlinear_arith) requires h >= 0real, -s <= g - q <= s;
}
// linear in the integrand: samples that are combinations give the combination of the answers
pub proof fn lem_seg_linear(n: int, m1: Seq<LinearMatrix>, m2: Seq<LinearMatrix>, m3: Seq<LinearMatrix>, t: real, r: int, c: int)
    requires m1.len() == m2.len(), m1.len() == m3.len(), forall|i: int| 0 <= i < m1.len() ==> (#[trigger] m3[i]).at(r, c) == m1[i].at(r, c) + t * m2[i].at(r, c),
    ensures gsum(n, m3, r, c) == gsum(n, m1, r, c) + t * gsum(n, m2, r, c),
{
    let l = m1.len() as int;
    let f = |i: int| gw(n, i) * m1[i].at(r, c); let g = |i: int| gw(n, i) * m2[i].at(r, c); let tg = |i: int| t * g(i); let h = |i: int| gw(n, i) * m3[i].at(r, c);
    rs_scale(t, g, tg, l);
    assert forall|i: int| 0 <= i < l implies #[trigger] h(i) == f(i) + tg(i) by { let w = gw(n, i); let x = m1[i].at(r, c); let y = m2[i].at(r, c); assert(m3[i].at(r, c) == x + t * y); assert(w * (x + t * y) == w * x + t * (w * y)) by (nonlinear_arith); }
    rs_add(f, tg, h, l);
}
}
