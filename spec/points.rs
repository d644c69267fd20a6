//@ include lu.rs
verus! {
pub fn v_umin(a: usize, b: usize) -> (res: usize) ensures res == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@ call min v_umin
#[derive(Debug)]
pub struct SpatialError { }
impl SpatialError { #[verifier::external_body] fn new<T>(msg: T) -> (res: Self) { unimplemented!() } }
//@ known SpatialError::new
//@ struct Point #[derive(Clone, Copy)]
// ---- points: n coordinates, the rest held at zero
impl Point {
    pub open spec fn wf(&self) -> bool { self.n <= 3 && forall|k: int| self.n <= k < 3 ==> #[trigger] self.data@[k].r() == 0real }
    pub open spec fn c(&self, k: int) -> real { self.data@[k].r() }
    pub open spec fn v3(&self, a: real, b: real, c: real) -> bool { self.c(0) == a && self.c(1) == b && self.c(2) == c }
    pub open spec fn is_times(&self, o: Point, t: real) -> bool { self.v3(o.c(0) * t, o.c(1) * t, o.c(2) * t) }
//@ fn Point::dim -> res
//@ ensures
    res == self.n,
//@ end
//@ fn Point::new -> res
//@ requires
    vals@.len() <= 3,
//@ ensures
    res.n == vals@.len(), res.wf(), forall|k: int| 0 <= k < vals@.len() ==> #[trigger] res.c(k) == vals@[k].r(),
//@ end
//@ fn Point::new -> res
//@ opt hidden
//@ diverge
//@ as new_any
//@ ensures
    vals@.len() <= 3,
//@ end
//@ fn Point::zero -> res
//@ requires
    n <= 3,
//@ ensures
    res.n == n, res.wf(), res.v3(0real, 0real, 0real),
//@ end
//@ fn Point::mid -> res
//@ requires
    self.wf(), other.wf(),
//@ ensures
    res.n == if self.n <= other.n { self.n } else { other.n }, self.n == other.n ==> res.wf(),
    forall|k: int| 0 <= k < 3 ==> #[trigger] res.c(k) == (self.c(k) + other.c(k)) / 2real,
//@ end
//@ fn Index<usize> for Point::index -> res
//@ sig
    pub fn v_at(&self, i: usize) -> (res: &R)
//@ requires
    self.n <= 3, i < self.n,
//@ ensures
    res.r() == self.c(i as int), *res == self.data@[i as int],
//@ end
//@ fn Index<usize> for Point::index -> res
//@ opt hidden
//@ diverge
//@ sig
    pub fn v_at_any(&self, i: usize) -> (res: &R)
//@ requires
    self.n <= 3,
//@ ensures
    i < self.n,
//@ end
//@ fn IndexMut<usize> for Point::index_mut -> res
//@ sig
    pub fn v_at_mut(&mut self, i: usize) -> (res: &mut R)
//@ requires
    old(self).wf(), i < old(self).n,
//@ ensures
    res.r() == old(self).c(i as int), final(self).wf(), final(self).n == old(self).n,
    forall|k: int| 0 <= k < 3 ==> #[trigger] final(self).c(k) == if k == i { final(res).r() } else { old(self).c(k) },
//@ end
//@ fn IndexMut<usize> for Point::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    pub fn v_at_mut_any(&mut self, i: usize) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    i < old(self).n,
//@ end
//@ fn Point::dist -> res
//@ requires
    self.wf(), other.wf(), self.n == other.n,
//@ ensures
    res.r() >= 0real, res.r() * res.r() == sq3(self.c(0) - other.c(0), self.c(1) - other.c(1), self.c(2) - other.c(2)),
//@ after let v =
    proof { assert(v.c(0) == self.c(0) - other.c(0) && v.c(1) == self.c(1) - other.c(1) && v.c(2) == self.c(2) - other.c(2)); lem_sq3(v.c(0), v.c(1), v.c(2)); }
//@ end
//@ fn Point::dot -> res
//@ oneidx self other
//@ requires
    self.wf(), other.wf(),
//@ ensures
    res.r() == self.c(0) * other.c(0) + self.c(1) * other.c(1) + self.c(2) * other.c(2),
//@ loop 0
    len0 == (if self.n <= other.n { self.n } else { other.n }), acc0.r() == rsum(|k: int| self.c(k) * other.c(k), k0 as int),
//@ loop 0 after
    proof { let f = |k: int| self.c(k) * other.c(k);
        assert forall|k: int| len0 <= k < 3 implies #[trigger] f(k) == 0real by { lem_mul0(self.c(k)); lem_mul0(other.c(k)); }
        rs_rest(f, len0 as int, 3); reveal_with_fuel(rsum, 4); }
//@ end
//@ fn Point::norm -> res
//@ requires
    self.wf(),
//@ ensures
    res.r() >= 0real, res.r() * res.r() == sq3(self.c(0), self.c(1), self.c(2)),
//@ start
    proof { lem_sq3(self.c(0), self.c(1), self.c(2)); }
//@ end
//@ fn Point::unit -> res
//@ requires
    self.wf(),
//@ ensures
    res.n == self.n, sq3(self.c(0), self.c(1), self.c(2)) != 0real ==> res.wf() && sq3(res.c(0), res.c(1), res.c(2)) == 1real
        && exists|t: real| t > 0real && #[trigger] res.is_times(self, t),
//@ tail
    proof { if sq3(self.c(0), self.c(1), self.c(2)) != 0real { lem_unit(self.c(0), self.c(1), self.c(2), norm.r());
        let s = norm.r(); assert(s != 0real); assert(data@[0].r() == self.data@[0].r() / s && data@[1].r() == self.data@[1].r() / s && data@[2].r() == self.data@[2].r() / s);
        assert forall|k: int| self.n <= k < 3 implies #[trigger] ret_.data@[k].r() == 0real by { assert(self.data@[k].r() == 0real); }
        let t = 1real / s; assert(t > 0real); assert(ret_.is_times(self, t)); assert(ret_.wf()); assert(sq3(ret_.c(0), ret_.c(1), ret_.c(2)) == 1real); } }
//@ end
//@ fn Point::to_vec -> res
//@ let res : Vec<R>
//@ oneidx self
//@ requires
    self.wf(),
//@ ensures
    res@.len() == self.n, forall|k: int| 0 <= k < self.n ==> (#[trigger] res@[k]).r() == self.c(k),
//@ loop 0
    len0 == self.n, res@.len() == k0, forall|k: int| 0 <= k < k0 ==> (#[trigger] res@[k]).r() == self.c(k),
//@ end
//@ fn From<f64> for Point::from -> res
//@ as from1
//@ ensures
    res.wf(), res.n == 1, res.c(0) == x.r(),
//@ end
//@ fn From<(f64,f64)> for Point::from -> res
//@ as from2
//@ ensures
    res.wf(), res.n == 2, res.c(0) == x.0.r(), res.c(1) == x.1.r(),
//@ end
//@ fn From<(u32,u32)> for Point::from -> res
//@ as from_u2
//@ ensures
    res.wf(), res.n == 2, res.c(0) == x.0 as real, res.c(1) == x.1 as real,
//@ end
//@ fn From<(f64,f64,f64)> for Point::from -> res
//@ as from3
//@ ensures
    res.wf(), res.n == 3, res.v3(x.0.r(), x.1.r(), x.2.r()),
//@ end
//@ fn TryInto<f64> for Point::try_into -> res
//@ as to1
//@ oneidx self
//@ requires
    self.wf(),
//@ ensures
    match res { Ok(x) => self.n == 1 && x.r() == self.c(0), Err(_) => self.n != 1 },
//@ end
//@ fn TryInto<(f64,f64)> for Point::try_into -> res
//@ as to2
//@ oneidx self
//@ requires
    self.wf(),
//@ ensures
    match res { Ok(x) => self.n == 2 && x.0.r() == self.c(0) && x.1.r() == self.c(1), Err(_) => self.n != 2 },
//@ end
//@ fn TryInto<(f64,f64,f64)> for Point::try_into -> res
//@ as to3
//@ oneidx self
//@ requires
    self.wf(),
//@ ensures
    match res { Ok(x) => self.n == 3 && self.v3(x.0.r(), x.1.r(), x.2.r()), Err(_) => self.n != 3 },
//@ end
//@ fn TryFrom<Vec<f64>> for Point::try_from -> res
//@ sig
    pub fn try_from(x: Vec<R>) -> (res: Result<Self, &'static str>)
//@ ensures
    match res { Ok(p) => 1 <= x@.len() <= 3 && p.wf() && p.n == x@.len() && forall|k: int| 0 <= k < p.n ==> #[trigger] p.c(k) == x@[k].r(), Err(_) => x@.len() == 0 || x@.len() > 3 },
//@ end
//@ fn From<Point> for Vec<f64>::from -> res
//@ oneidx x
//@ sig
    pub fn into_vec(x: Point) -> (res: Vec<R>)
//@ requires
    x.wf(), x.n >= 1,
//@ ensures
    res@.len() == x.n, forall|k: int| 0 <= k < x.n ==> (#[trigger] res@[k]).r() == x.c(k),
//@ end
//@ fn From<Point> for Vec<f64>::from -> res
//@ opt hidden
//@ diverge
//@ oneidx x
//@ sig
    pub fn into_vec_any(x: Point) -> (res: Vec<R>)
//@ requires
    x.wf(),
//@ ensures
    x.n >= 1, res@.len() == x.n, forall|k: int| 0 <= k < x.n ==> (#[trigger] res@[k]).r() == x.c(k),
//@ end
}
impl AddSpecImpl<Point> for Point {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: Point) -> bool { self.wf() && other.wf() && self.n == other.n }
    open spec fn add_spec(self, other: Point) -> Point { arbitrary() }
}
impl core::ops::Add<Point> for Point {
    type Output = Point;
//@ fn Add for Point::add -> res
//@ ensures
    res.n == self.n, res.wf(), forall|k: int| 0 <= k < 3 ==> #[trigger] res.c(k) == self.c(k) + other.c(k),
//@ end
}
impl Point {
//@ fn Add for Point::add -> res
//@ opt hidden
//@ diverge
//@ as add_any
//@ requires
    self.wf(), other.wf(),
//@ ensures
    self.n == other.n,
//@ end
}
impl SubSpecImpl<Point> for Point {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: Point) -> bool { self.wf() && other.wf() && self.n == other.n }
    open spec fn sub_spec(self, other: Point) -> Point { arbitrary() }
}
impl core::ops::Sub<Point> for Point {
    type Output = Point;
//@ fn Sub for Point::sub -> res
//@ ensures
    res.n == self.n, res.wf(), forall|k: int| 0 <= k < 3 ==> #[trigger] res.c(k) == self.c(k) - other.c(k),
//@ end
}
impl Point {
//@ fn Sub for Point::sub -> res
//@ opt hidden
//@ diverge
//@ as sub_any
//@ requires
    self.wf(), other.wf(),
//@ ensures
    self.n == other.n,
//@ end
}
impl MulSpecImpl<R> for Point {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: R) -> bool { self.wf() }
    open spec fn mul_spec(self, other: R) -> Point { arbitrary() }
}
impl core::ops::Mul<R> for Point {
    type Output = Point;
//@ fn Mul<f64> for Point::mul -> res
//@ ensures
    res.n == self.n, res.wf(), forall|k: int| 0 <= k < 3 ==> #[trigger] res.c(k) == self.c(k) * other.r(),
//@ start
    proof { lem_mul0(other.r()); }
//@ end
}
#[verifier::opaque]
pub open spec fn sq3(a: real, b: real, c: real) -> real { a * a + b * b + c * c }
pub proof fn lem_sq3(a: real, b: real, c: real) ensures sq3(a, b, c) >= 0real, rpow(a, 2) + rpow(b, 2) + rpow(c, 2) == sq3(a, b, c)
{
    reveal(sq3); reveal_with_fuel(rpow, 3);
    assert(a * a >= 0real && b * b >= 0real && c * c >= 0real) by (nonlinear_arith);
    assert(a * (a * 1real) == a * a && b * (b * 1real) == b * b && c * (c * 1real) == c * c) by (nonlinear_arith);
}
proof fn lem_unit1(a: real, b: real, c: real, s: real, p: real, q: real, r: real)
    requires s * s == a * a + b * b + c * c, s > 0real, p * s == a, q * s == b, r * s == c,
    ensures p * p + q * q + r * r == 1real,
{
    assert((p * s) * (p * s) == (p * p) * (s * s) && (q * s) * (q * s) == (q * q) * (s * s) && (r * s) * (r * s) == (r * r) * (s * s)) by (nonlinear_arith);
    let (x, y) = (p * p + q * q + r * r, s * s);
    assert(x * y == y) by { assert((p * p) * y + (q * q) * y + (r * r) * y == (p * p + q * q + r * r) * y) by (nonlinear_arith); }
    assert(y > 0real) by (nonlinear_arith) requires y == s * s, s > 0real;
    assert(x == 1real) by (nonlinear_arith) requires x * y == y, y > 0real;
}
pub open spec fn quo(a: real, s: real) -> real { a / s }
pub proof fn lem_unit(a: real, b: real, c: real, s: real)
    requires s >= 0real, s * s == sq3(a, b, c), sq3(a, b, c) != 0real,
    ensures s > 0real, 1real / s > 0real, a / s == a * (1real / s), b / s == b * (1real / s), c / s == c * (1real / s), sq3(a / s, b / s, c / s) == 1real, 0real / s == 0real,
{
    hide(quo);
    assert(s > 0real) by (nonlinear_arith) requires s >= 0real, s * s != 0real;
    lem_quo(1real, s); lem_quo(a, s); lem_quo(b, s); lem_quo(c, s); lem_quo(0real, s);
    assert(quo(a, s) == a / s && quo(b, s) == b / s && quo(c, s) == c / s && quo(1real, s) == 1real / s && quo(0real, s) == 0real / s) by { reveal(quo); }
    let t = quo(1real, s);
    reveal(sq3);
    lem_unit1(a, b, c, s, quo(a, s), quo(b, s), quo(c, s));
    assert(t > 0real) by (nonlinear_arith) requires t * s == 1real, s > 0real;
    lem_quo1(a, s); lem_quo1(b, s); lem_quo1(c, s); lem_mul0(t); lem_quo1(0real, s);
}
proof fn lem_quo(a: real, s: real) requires s > 0real, ensures quo(a, s) * s == a { lem_div(a, s); }
proof fn lem_quo1(a: real, s: real) requires s > 0real, ensures quo(a, s) == a * quo(1real, s) { assert(a / s == a * (1real / s)) by (nonlinear_arith) requires s > 0real; }
// ---- conversions by the standard traits
pub trait VTryInto<T>: Sized { spec fn ti_ok(self, r: Result<T, SpatialError>) -> bool; spec fn ti_pre(self) -> bool;
    fn v_try_into(self) -> (res: Result<T, SpatialError>) requires self.ti_pre(), ensures self.ti_ok(res); }
impl VTryInto<(R, R)> for Point {
    open spec fn ti_pre(self) -> bool { self.wf() }
    open spec fn ti_ok(self, r: Result<(R, R), SpatialError>) -> bool { match r { Ok(x) => self.n == 2 && x.0.r() == self.c(0) && x.1.r() == self.c(1), Err(_) => self.n != 2 } }
    fn v_try_into(self) -> (res: Result<(R, R), SpatialError>) { self.to2() }
}
impl VTryInto<(R, R, R)> for Point {
    open spec fn ti_pre(self) -> bool { self.wf() }
    open spec fn ti_ok(self, r: Result<(R, R, R), SpatialError>) -> bool { match r { Ok(x) => self.n == 3 && self.v3(x.0.r(), x.1.r(), x.2.r()), Err(_) => self.n != 3 } }
    fn v_try_into(self) -> (res: Result<(R, R, R), SpatialError>) { self.to3() }
}
pub trait VIntoPoint: Sized { spec fn ip(self, p: Point) -> bool; fn v_into(self) -> (res: Point) ensures res.wf(), self.ip(res); }
impl VIntoPoint for (R, R) { open spec fn ip(self, p: Point) -> bool { p.n == 2 && p.c(0) == self.0.r() && p.c(1) == self.1.r() } fn v_into(self) -> (res: Point) { Point::from2(self) } }
impl VIntoPoint for (R, R, R) { open spec fn ip(self, p: Point) -> bool { p.n == 3 && p.v3(self.0.r(), self.1.r(), self.2.r()) } fn v_into(self) -> (res: Point) { Point::from3(self) } }
impl VIntoPoint for (u32, u32) { open spec fn ip(self, p: Point) -> bool { p.n == 2 && p.c(0) == self.0 as int as real && p.c(1) == self.1 as int as real } fn v_into(self) -> (res: Point) { Point::from_u2(self) } }
}
