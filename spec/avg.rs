//@ include prelude.rs
//@ type T R
verus! {
// ---- running averages of numbers: after n values, n times the average is their sum
//@ struct Average
impl Average {
    pub open spec fn total(&self) -> real { match self.avg { Some(a) => a.r() * (self.n as int as real), None => 0real } }
    pub open spec fn wf(&self) -> bool { (self.avg is Some) == (self.n > 0) && self.n < usize::MAX }
}
impl Average {
//@ fn Average<T>::update
//@ requires
    old(self).wf(), old(self).n + 1 < usize::MAX,
//@ ensures
    final(self).wf(), final(self).n == old(self).n + 1, final(self).total() == old(self).total() + val.r(),
//@ after self.avg = Some(val
    proof { let (a, b) = (val.r(), self.n as int as real); assert(a * b == a) by (nonlinear_arith) requires b == 1real; }
//@ after self.avg = Some(temp
    proof { assert(self.total() == temp.r()); }
//@ before self.avg = Some(temp
    proof { let (x, y) = (temp.r(), self.n as int as real); assert((x / y) * y == x) by (nonlinear_arith) requires y != 0real; }
//@ end
//@ fn Average<T>::new -> res
//@ ensures
    res.wf(), res.n == 0, res.total() == 0real,
//@ end
//@ fn Average<T>::consume -> res
//@ requires
    self.wf(),
//@ ensures
    self.n == 0 ==> res is None, self.n > 0 ==> res is Some && res->0.r() * (self.n as int as real) == self.total(),
//@ end
}
}
