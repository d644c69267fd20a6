//@ include mat.rs
//@ include alg.rs
verus! {
//@ enum StressType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ struct StressState
// ---- stress states
pub open spec fn t_len(t: StressType) -> int { match t { StressType::Bar => 1, StressType::Plane => 3, StressType::AxiSym => 4, StressType::ThreeD => 6 } }
pub open spec fn t_dim(t: StressType) -> int { match t { StressType::Bar => 1, StressType::Plane => 2, StressType::AxiSym => 3, StressType::ThreeD => 3 } }
// where the stress vector of each kind keeps the component a, b: [xx], [xx yy xy], [xx yy xy zz], [xx yy zz xy yz xz]
pub open spec fn t_loc(t: StressType, a: int, b: int) -> int {
    match t {
        StressType::Bar => if a == 0 && b == 0 { 0 } else { -1 },
        StressType::Plane => if a == 0 && b == 0 { 0 } else if a == 1 && b == 1 { 1 } else if a + b == 1 && a >= 0 && b >= 0 { 2 } else { -1 },
        StressType::AxiSym => if a == 0 && b == 0 { 0 } else if a == 1 && b == 1 { 1 } else if a + b == 1 && a >= 0 && b >= 0 { 2 } else if a == 2 && b == 2 { 3 } else { -1 },
        StressType::ThreeD => if a == b && 0 <= a < 3 { a } else if a < 0 || b < 0 { -1 } else if a + b == 1 { 3 } else if a + b == 3 && a < 3 && b < 3 { 4 } else if a + b == 2 { 5 } else { -1 },
    }
}
impl StressState {
    pub closed spec fn d(&self, k: int) -> real { self.data@[k].r() }
    // the square of the von Mises stress, by kind of state
    pub open spec fn vm2(&self) -> real { vm2_of(self.state_type, self.d(0), self.d(1), self.d(2), self.d(3), self.d(4), self.d(5)) }
}
#[verifier::opaque]
pub open spec fn sqr(x: real) -> real { x * x }
pub open spec fn vm2_of(t: StressType, a: real, b: real, c: real, d: real, e: real, f: real) -> real {
    match t {
        StressType::Bar => sqr(a),
        // plane stress: the third principal direction is free of stress
        StressType::Plane => (sqr(a - b) + sqr(b) + sqr(a)) / 2real + 3real * sqr(c),
        StressType::AxiSym => (sqr(a - b) + sqr(b - d) + sqr(d - a)) / 2real + 3real * sqr(c),
        StressType::ThreeD => (sqr(a - b) + sqr(b - c) + sqr(c - a)) / 2real + 3real * (sqr(d) + sqr(e) + sqr(f)),
    }
}
proof fn lem_sq0(x: real) ensures sqr(x) >= 0real, sqr(-x) == sqr(x), rpow(x, 2) == sqr(x), (x == 0real ==> sqr(x) == 0real)
{ reveal(sqr); reveal_with_fuel(rpow, 3); assert(x * (x * 1real) == x * x) by (nonlinear_arith); assert(x * x >= 0real) by (nonlinear_arith); assert((-x) * (-x) == x * x) by (nonlinear_arith); assert(x == 0real ==> x * x == 0real) by (nonlinear_arith); }
proof fn lem_sqk(x: real, k: real) ensures sqr(x * k) == sqr(x) * sqr(k) { reveal(sqr); assert((x * k) * (x * k) == (x * x) * (k * k)) by (nonlinear_arith); }
// never negative, blind to a change of sign, and of second degree
proof fn lem_vm(t: StressType, a: real, b: real, c: real, d: real, e: real, f: real, k: real)
    ensures vm2_of(t, a, b, c, d, e, f) >= 0real, vm2_of(t, -a, -b, -c, -d, -e, -f) == vm2_of(t, a, b, c, d, e, f),
        vm2_of(t, a * k, b * k, c * k, d * k, e * k, f * k) == vm2_of(t, a, b, c, d, e, f) * sqr(k),
{
    lem_sq0(a); lem_sq0(b); lem_sq0(c); lem_sq0(d); lem_sq0(e); lem_sq0(f); lem_sq0(a - b); lem_sq0(b - d); lem_sq0(d - a); lem_sq0(b - c); lem_sq0(c - a);
    assert(-a - -b == -(a - b) && -b - -d == -(b - d) && -d - -a == -(d - a) && -b - -c == -(b - c) && -c - -a == -(c - a));
    lem_sqk(a, k); lem_sqk(b, k); lem_sqk(c, k); lem_sqk(d, k); lem_sqk(e, k); lem_sqk(f, k); lem_sqk(a - b, k); lem_sqk(b - d, k); lem_sqk(d - a, k); lem_sqk(b - c, k); lem_sqk(c - a, k);
    ds(a, b, k); ds(b, d, k); ds(d, a, k); ds(b, c, k); ds(c, a, k);
    let q = sqr(k);
    da(sqr(a - b) + sqr(b), sqr(a), q); da(sqr(a - b), sqr(b), q); da((sqr(a - b) + sqr(b) + sqr(a)) / 2real, 3real * sqr(c), q);
    da(sqr(a - b) + sqr(b - d), sqr(d - a), q); da(sqr(a - b), sqr(b - d), q); da((sqr(a - b) + sqr(b - d) + sqr(d - a)) / 2real, 3real * sqr(c), q);
    da(sqr(a - b) + sqr(b - c), sqr(c - a), q); da(sqr(a - b), sqr(b - c), q); da((sqr(a - b) + sqr(b - c) + sqr(c - a)) / 2real, 3real * (sqr(d) + sqr(e) + sqr(f)), q);
    da(sqr(d) + sqr(e), sqr(f), q); da(sqr(d), sqr(e), q);
    lem_scal(sqr(a - b) + sqr(b) + sqr(a), q); lem_scal(sqr(a - b) + sqr(b - d) + sqr(d - a), q); lem_scal(sqr(a - b) + sqr(b - c) + sqr(c - a), q); lem_scal(sqr(c), q); lem_scal(sqr(d) + sqr(e) + sqr(f), q);
}
proof fn lem_scal(x: real, q: real) ensures (x / 2real) * q == (x * q) / 2real, (3real * x) * q == 3real * (x * q)
{ assert((x / 2real) * q == (x * q) / 2real) by (nonlinear_arith); assert((3real * x) * q == 3real * (x * q)) by (nonlinear_arith); }
proof fn lem_plane(a: real, b: real) ensures sqr(a) - a * b + sqr(b) == (sqr(a - b) + sqr(b) + sqr(a)) / 2real { reveal(sqr); dss(a, b, a, b); assert(a * b == b * a) by (nonlinear_arith); }
impl StressState {
//@ fn StressState::loc -> res
//@ requires
    0 <= t_loc(self.state_type, a as int, b as int),
//@ ensures
    res == t_loc(self.state_type, a as int, b as int), res < 6,
//@ end
//@ fn StressState::from_vector -> res
//@ requires
    vector.wf(), vector.nr() == 1 || vector.nc() == 1, ({ let n = vector.nr() * vector.nc(); n == 1 || n == 3 || n == 4 || n == 6 }),
//@ ensures
    t_len(res.state_type) == vector.nr() * vector.nc(),
    forall|k: int| 0 <= k < vector.nr() * vector.nc() ==> #[trigger] res.d(k) == vector.at(k / vector.nc(), k % vector.nc()),
    forall|k: int| vector.nr() * vector.nc() <= k < 6 ==> #[trigger] res.d(k) == 0real,
//@ start
    proof { let (r, c) = (vector.nr(), vector.nc()); assert(r == 1 ==> r * c == c) by (nonlinear_arith); assert(c == 1 ==> r * c == r) by (nonlinear_arith); assert(r * c > 0 && r >= 0 && c >= 0 ==> r >= 1 && c >= 1) by (nonlinear_arith); vector.lem_dims(); }
//@ loop 0
    len0 == vector.nr() * vector.nc(), len0 <= 6,
    forall|k: int| 0 <= k < k0 ==> (#[trigger] data@[k]).r() == vector.at(k / vector.nc(), k % vector.nc()),
    forall|k: int| k0 <= k < 6 ==> (#[trigger] data@[k]).r() == 0real,
//@ end
//@ fn StressState::to_cauchy -> res
//@ requires
    !(self.state_type is AxiSym),
//@ ensures
    res.wf(), res.nr() == t_dim(self.state_type), res.nc() == t_dim(self.state_type),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == self.d(t_loc(self.state_type, r, c)) && res.at(r, c) == res.at(c, r),
//@ let res : LinearMatrix
//@ let dim : usize
//@ after let dim
    proof { assert(dim * dim <= 9) by (nonlinear_arith) requires 1 <= dim <= 3; }
//@ loop 0
    res.wf(), dim == t_dim(self.state_type), res.nr() == dim, res.nc() == dim,
    forall|i: int, j: int| inr(&res, i, j) && (i < k0 || j < k0) ==> #[trigger] res.at(i, j) == self.d(t_loc(self.state_type, i, j)),
//@ loop 1
    res.wf(), dim == t_dim(self.state_type), res.nr() == dim, res.nc() == dim, r < dim,
    forall|i: int, j: int| inr(&res, i, j) && (i < r || j < r || i == r && j < r + k1 || j == r && i < r + k1) ==> #[trigger] res.at(i, j) == self.d(t_loc(self.state_type, i, j)),
//@ end
//@ fn StressState::von_mises -> res
//@ ensures
    res.r() >= 0real, res.r() * res.r() == self.vm2(),
//@ start
    proof { let (a, b, c, d, e, f) = (self.d(0), self.d(1), self.d(2), self.d(3), self.d(4), self.d(5));
      lem_vm(self.state_type, a, b, c, d, e, f, 1real); lem_plane(a, b); lem_sq0(a); lem_sq0(b); lem_sq0(c); lem_sq0(d); lem_sq0(e); lem_sq0(f); lem_sq0(a - b); lem_sq0(b - d); lem_sq0(a - d); lem_sq0(b - c); lem_sq0(a - c);
      assert(-(a - d) == d - a && -(a - c) == c - a);
      assert(self.state_type is Bar ==> sqr(a) == a * a && sqr(a) == (-a) * (-a)) by { reveal(sqr); assert(a * a == (-a) * (-a)) by (nonlinear_arith); } }
//@ end
}
proof fn lem_quot(x: real, f: real) requires f != 0real, ensures (x / f) * f == x { assert((x / f) * f == x) by (nonlinear_arith) requires f != 0real; }
// the derived Clone
impl VClone for StressState { fn v_clone(&self) -> (res: Self) { StressState { state_type: self.state_type, data: self.data } } }
// ---- arithmetic of states
pub open spec fn st_add(r: StressState, a: StressState, b: StressState) -> bool { r.state_type == a.state_type && forall|k: int| 0 <= k < 6 ==> #[trigger] r.d(k) == a.d(k) + b.d(k) }
pub open spec fn st_mul(r: StressState, a: StressState, f: real) -> bool { r.state_type == a.state_type && forall|k: int| 0 <= k < 6 ==> #[trigger] r.d(k) == a.d(k) * f }
impl vstd::std_specs::ops::AddSpecImpl for StressState {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: StressState) -> bool { self.state_type == o.state_type }
    open spec fn add_spec(self, o: StressState) -> StressState { self }
}
impl core::ops::Add for StressState {
    type Output = StressState;
//@ fn Add for StressState::add -> res
//@ ensures
    st_add(res, self, other),
//@ end
}
impl vstd::std_specs::ops::MulSpecImpl<R> for StressState {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> StressState { self }
}
impl core::ops::Mul<R> for StressState {
    type Output = StressState;
//@ fn Mul<f64> for StressState::mul -> res
//@ ensures
    st_mul(res, self, other.r()),
//@ end
}
impl vstd::std_specs::ops::DivSpecImpl<R> for StressState {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { o.r() != 0real }
    open spec fn div_spec(self, o: R) -> StressState { self }
}
impl core::ops::Div<R> for StressState {
    type Output = StressState;
//@ fn Div<f64> for StressState::div -> res
//@ ensures
    st_mul(self, res, other.r()),
//@ start
    proof { let f = other.r(); lem_quot(self.d(0), f); lem_quot(self.d(1), f); lem_quot(self.d(2), f); lem_quot(self.d(3), f); lem_quot(self.d(4), f); lem_quot(self.d(5), f); }
//@ end
}
}

//@ type T StressState
verus! {
// ---- refused
impl StressState {
//@ fn Add for StressState::add -> res
//@ opt hidden
//@ diverge
//@ sig
    fn add_any(self, other: Self) -> (res: StressState)
//@ ensures
    self.state_type == other.state_type,
//@ end
//@ fn StressState::from_vector -> res
//@ opt hidden
//@ diverge
//@ as from_vector_any
//@ requires
    vector.wf(), vector.nr() > 0, vector.nc() > 0,
//@ ensures
    vector.nr() == 1 || vector.nc() == 1, ({ let n = vector.nr() * vector.nc(); n == 1 || n == 3 || n == 4 || n == 6 }),
//@ start
    proof { let (r, c) = (vector.nr(), vector.nc()); assert(r == 1 ==> r * c == c) by (nonlinear_arith); assert(c == 1 ==> r * c == r) by (nonlinear_arith); vector.lem_dims(); assert(r == 0 ==> r * c == 0) by (nonlinear_arith); assert(c == 0 ==> r * c == 0) by (nonlinear_arith);  }
//@ loop 0
    len0 == vector.nr() * vector.nc(),
//@ end
//@ fn StressState::loc -> res
//@ opt hidden
//@ diverge
//@ as loc_any
//@ ensures
    0 <= t_loc(self.state_type, a as int, b as int),
//@ end
}
// ---- running averages of states: after n values, n times the average is their sum, component by component
//@ struct Average
impl Average {
    pub open spec fn total(&self, k: int) -> real { match self.avg { Some(a) => a.d(k) * (self.n as int as real), None => 0real } }
    pub open spec fn wf(&self) -> bool { (self.avg is Some) == (self.n > 0) && self.n < usize::MAX }
}
impl Average {
//@ fn Average<T>::update
//@ requires
    old(self).wf(), old(self).n + 1 < usize::MAX, old(self).avg is Some ==> old(self).avg->Some_0.state_type == val.state_type,
//@ ensures
    final(self).wf(), final(self).n == old(self).n + 1, final(self).avg is Some, final(self).avg->Some_0.state_type == val.state_type,
    forall|k: int| 0 <= k < 6 ==> #[trigger] final(self).total(k) == old(self).total(k) + val.d(k),
//@ after self.avg = Some(val
    proof { assert forall|k: int| 0 <= k < 6 implies #[trigger] self.total(k) == val.d(k) by { let a = val.d(k); assert(a * 1real == a) by (nonlinear_arith); } }
//@ after self.avg = Some(temp
    proof { assert forall|k: int| 0 <= k < 6 implies #[trigger] self.total(k) == temp.d(k) by { } 
        assert forall|k: int| 0 <= k < 6 implies #[trigger] temp.d(k) == old(self).total(k) + val.d(k) by { } }
//@ end
//@ fn Average<T>::new -> res
//@ ensures
    res.wf(), res.n == 0, forall|k: int| #[trigger] res.total(k) == 0real,
//@ end
//@ fn Average<T>::consume -> res
//@ requires
    self.wf(),
//@ ensures
    self.n == 0 ==> res is None, self.n > 0 ==> res is Some && res->0 == self.avg->Some_0 && forall|k: int| 0 <= k < 6 ==> (#[trigger] res->0.d(k)) * (self.n as int as real) == self.total(k),
//@ end
}
}
//@ type T -
