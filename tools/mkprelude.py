# Writes spec/prelude.rs: the number type of the contracts and the library functions they assume.
import sys
out = []
w = out.append
w("""// Generated by tools/mkprelude.py.
#![allow(unused_imports, unused_variables, unused_parens, dead_code, unused_mut, unused_assignments, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;

// ---- numbers: every f64 of the code is an R; r() is its value as a real number
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { v: f64 }
impl R { pub uninterp spec fn r(self) -> real; }
""")
ops = [("Add", "add", "+"), ("Sub", "sub", "-"), ("Mul", "mul", "*"), ("Div", "div", "/")]
for T, f, o in ops:
    for l, r in [("R", "R"), ("&'a R", "R"), ("R", "&'a R"), ("&'a R", "&'b R")]:
        g = "<" + ", ".join([x for x in ("'a", "'b") if x in l + r]) + ">"
        if g == "<>": g = ""
        post = "res.r() == self.r() %s o.r()" % o if o != "/" else "o.r() != 0real ==> res.r() == self.r() / o.r()"
        w(f"""impl{g} {T}SpecImpl<{r}> for {l} {{
    open spec fn obeys_{f}_spec() -> bool {{ false }}
    open spec fn {f}_req(self, rhs: {r}) -> bool {{ true }}
    open spec fn {f}_spec(self, rhs: {r}) -> R {{ arbitrary() }}
}}
impl{g} core::ops::{T}<{r}> for {l} {{
    type Output = R;
    #[verifier::external_body]
    fn {f}(self, o: {r}) -> (res: R) ensures {post} {{ R {{ v: self.v {o} o.v }} }}
}}""")
    for r in ["R", "&'a R"]:
        g = "<'a>" if "'a" in r else ""
        post = "final(self).r() == old(self).r() %s o.r()" % o if o != "/" else "o.r() != 0real ==> final(self).r() == old(self).r() / o.r()"
        w(f"""impl{g} {T}AssignSpecImpl<{r}> for R {{
    open spec fn obeys_{f}_assign_spec() -> bool {{ false }}
    open spec fn {f}_assign_req(&self, rhs: {r}) -> bool {{ true }}
    open spec fn {f}_assign_spec(&self, rhs: {r}) -> &R {{ arbitrary() }}
}}
impl{g} core::ops::{T}Assign<{r}> for R {{
    #[verifier::external_body]
    fn {f}_assign(&mut self, o: {r}) ensures {post} {{ self.v {o}= o.v }}
}}""")
for l in ["R", "&'a R"]:
    g = "<'a>" if "'a" in l else ""
    w(f"""impl{g} NegSpecImpl for {l} {{
    open spec fn obeys_neg_spec() -> bool {{ false }}
    open spec fn neg_req(self) -> bool {{ true }}
    open spec fn neg_spec(self) -> R {{ arbitrary() }}
}}
impl{g} core::ops::Neg for {l} {{
    type Output = R;
    #[verifier::external_body]
    fn neg(self) -> (res: R) ensures res.r() == -self.r() {{ R {{ v: -self.v }} }}
}}""")
w("""
pub open spec fn ord(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self.r() == o.r() }
}
impl PartialEq for R {
    #[verifier::external_body]
    fn eq(&self, o: &R) -> bool { self.v == o.v }
}
impl PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<Ordering> { Some(ord(self.r(), o.r())) }
}
impl PartialOrd for R {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &R) -> Option<Ordering> { self.v.partial_cmp(&o.v) }
}
impl R {
    #[verifier::external_body]
    pub fn v_abs(self) -> (res: R) ensures res.r() == if self.r() < 0real { -self.r() } else { self.r() } { R { v: self.v.abs() } }
    #[verifier::external_body]
    pub fn v_min(self, o: R) -> (res: R) ensures res.r() == if self.r() <= o.r() { self.r() } else { o.r() } { R { v: self.v.min(o.v) } }
    #[verifier::external_body]
    pub fn v_max(self, o: R) -> (res: R) ensures res.r() == if self.r() >= o.r() { self.r() } else { o.r() } { R { v: self.v.max(o.v) } }
    #[verifier::external_body]
    pub fn v_clamp(self, a: R, b: R) -> (res: R) requires a.r() <= b.r(),
        ensures res.r() == if self.r() < a.r() { a.r() } else if self.r() > b.r() { b.r() } else { self.r() } { R { v: self.v.clamp(a.v, b.v) } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (res: R) ensures self.r() >= 0real ==> res.r() >= 0real && res.r() * res.r() == self.r() { R { v: self.v.sqrt() } }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (res: R) ensures n >= 0 ==> res.r() == rpow(self.r(), n as nat) { R { v: self.v.powi(n) } }
    #[verifier::external_body]
    pub fn mul_add(self, a: R, b: R) -> (res: R) ensures res.r() == self.r() * a.r() + b.r() { R { v: self.v.mul_add(a.v, b.v) } }
    #[verifier::external_body]
    pub fn recip(self) -> (res: R) ensures self.r() != 0real ==> res.r() * self.r() == 1real { R { v: self.v.recip() } }
    #[verifier::external_body]
    pub fn signum(self) -> (res: R) ensures self.r() > 0real ==> res.r() == 1real, self.r() < 0real ==> res.r() == -1real { R { v: self.v.signum() } }
    #[verifier::external_body]
    pub fn is_finite(self) -> (res: bool) ensures res { self.v.is_finite() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (res: bool) ensures !res { self.v.is_nan() }
    #[verifier::external_body]
    pub fn round(self) -> (res: R) ensures res.r() == rround(self.r()) { R { v: self.v.round() } }
    #[verifier::external_body]
    pub fn floor(self) -> (res: R) ensures res.r() == self.r().floor() as real { R { v: self.v.floor() } }
    #[verifier::external_body]
    pub fn ceil(self) -> (res: R) ensures res.r() == -((-self.r()).floor() as real) { R { v: self.v.ceil() } }
    // a byte: cut towards zero, saturating
    #[verifier::external_body]
    pub fn v_to_u8(self) -> (res: u8) ensures
        res as int == if self.r() <= 0real { 0int } else if self.r() >= 255real { 255int } else { self.r().floor() },
    { self.v as u8 }
    #[verifier::external_body]
    pub fn cos(self) -> (res: R) ensures res.r() == rcos(self.r()) { R { v: self.v.cos() } }
    #[verifier::external_body]
    pub fn sin(self) -> (res: R) ensures res.r() == rsin(self.r()) { R { v: self.v.sin() } }
    #[verifier::external_body]
    pub fn sin_cos(self) -> (res: (R, R)) ensures res.0.r() == rsin(self.r()), res.1.r() == rcos(self.r()) { let (a, b) = self.v.sin_cos(); (R { v: a }, R { v: b }) }
}
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
#[verifier::external_body]
pub proof fn ax_sincos(x: real) ensures rsin(x) * rsin(x) + rcos(x) * rcos(x) == 1real {}
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
// the nearest whole number, ties away from zero
pub open spec fn rround(x: real) -> real { if x >= 0real { (x + 0.5real).floor() as real } else { -((0.5real - x).floor() as real) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
// a decimal literal of the code: numerator over denominator
#[verifier::external_body]
pub fn rlit(n: i128, d: i128) -> (res: R) requires d > 0, ensures res.r() == if d == 1 {{ (n as int) as real }} else {{ (n as int) as real / (d as int) as real }} { R { v: n as f64 / d as f64 } }
#[verifier::external_body]
pub fn rlit_ref(n: i128, d: i128) -> (res: &'static R) requires d > 0, ensures res.r() == if d == 1 {{ (n as int) as real }} else {{ (n as int) as real / (d as int) as real }} { unimplemented!() }

pub open spec fn rten(k: nat) -> real decreases k { if k == 0 { 1real } else { 10real * rten((k - 1) as nat) } }
pub proof fn lem_ten(k: nat) ensures rten(k) > 0real decreases k { if k > 0 { lem_ten((k - 1) as nat); let x = rten((k - 1) as nat); assert(10real * x > 0real) by (nonlinear_arith) requires x > 0real; } }
// a decimal literal with a long denominator
#[verifier::external_body]
pub fn rlit_e(n: i128, e: u32) -> (res: R) ensures res.r() == (n as int) as real / rten(e as nat) { R { v: n as f64 * 10f64.powi(-(e as i32)) } }

// ---- casts to f64
pub trait VToR: Sized { spec fn to_r_val(self) -> real; fn v_to_r(self) -> (res: R) ensures res.r() == self.to_r_val(); }
""")
for t in ["usize", "isize", "u32", "i32", "u8", "u64", "i64"]:
    w(f"""impl VToR for {t} {{
    open spec fn to_r_val(self) -> real {{ (self as int) as real }}
    #[verifier::external_body]
    fn v_to_r(self) -> (res: R) {{ R {{ v: self as f64 }} }}
}}""")
w("""
// ---- integers
pub trait VInt: Sized { spec fn i(self) -> int; spec fn abs_ok(self) -> bool;
    fn v_abs(self) -> (res: Self) requires self.abs_ok(), ensures res.i() == if self.i() < 0 { -self.i() } else { self.i() };
    fn v_min(self, o: Self) -> (res: Self) ensures res == if self.i() <= o.i() { self } else { o };
    fn v_max(self, o: Self) -> (res: Self) ensures res == if self.i() >= o.i() { self } else { o };
}
""")
for t in ["usize", "isize", "u32", "i32", "u8"]:
    ab = "self" if t[0] == "u" else "if self < 0 { -self } else { self }"
    ok = "true" if t[0] == "u" else f"self > {t}::MIN"
    w(f"""impl VInt for {t} {{
    open spec fn i(self) -> int {{ self as int }}
    open spec fn abs_ok(self) -> bool {{ {ok} }}
    fn v_abs(self) -> (res: Self) {{ {ab} }}
    fn v_min(self, o: Self) -> (res: Self) {{ if self <= o {{ self }} else {{ o }} }}
    fn v_max(self, o: Self) -> (res: Self) {{ if self >= o {{ self }} else {{ o }} }}
}}""")
w("""
// ---- panics and refusals
// v_panic: the code must not get here. v_diverge: the code stops here.
#[verifier::external_body]
pub fn v_panic<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_diverge<T>() -> (r: T) ensures false { unimplemented!() }
pub fn v_unwrap_or_diverge<T>(o: Option<T>) -> (res: T) ensures o == Some(res) { match o { Some(x) => x, None => v_diverge() } }
#[verifier::external_body]
pub struct VMsg { }
#[verifier::external_body]
pub fn v_msg() -> VMsg { unimplemented!() }

// ---- slices and lists
pub trait VSlice<T> { spec fn sq(&self) -> Seq<T>;
    fn v_sub(&self, a: usize, b: usize) -> (res: &[T]) requires a <= b <= self.sq().len(), ensures res@ == self.sq().subrange(a as int, b as int);
    fn v_sub_mut(&mut self, a: usize, b: usize) -> (res: &mut [T]) requires a <= b <= old(self).sq().len(),
        ensures res@ == old(self).sq().subrange(a as int, b as int), final(res)@.len() == res@.len(), final(self).sq().len() == old(self).sq().len(),
            forall|k: int| 0 <= k < old(self).sq().len() ==> #[trigger] final(self).sq()[k] == if a <= k < b { final(res)@[k - a] } else { old(self).sq()[k] };
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sub(&self, a: usize, b: usize) -> (res: &[T]) { &self[a..b] }
    #[verifier::external_body]
    fn v_sub_mut(&mut self, a: usize, b: usize) -> (res: &mut [T]) { &mut self[a..b] }
}
impl<T> VSlice<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sub(&self, a: usize, b: usize) -> (res: &[T]) { &self[a..b] }
    #[verifier::external_body]
    fn v_sub_mut(&mut self, a: usize, b: usize) -> (res: &mut [T]) { &mut self[a..b] }
}
impl<T, const N: usize> VSlice<T> for [T; N] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sub(&self, a: usize, b: usize) -> (res: &[T]) { &self[a..b] }
    #[verifier::external_body]
    fn v_sub_mut(&mut self, a: usize, b: usize) -> (res: &mut [T]) { &mut self[a..b] }
}
// ---- intervals of numbers
pub struct VSpan { lo: R, hi: R, closed: bool }
impl VSpan {
    pub closed spec fn a(&self) -> real { self.lo.r() }
    pub closed spec fn b(&self) -> real { self.hi.r() }
    pub closed spec fn incl(&self) -> bool { self.closed }
    pub fn contains(&self, x: &R) -> (res: bool) ensures res == (self.a() <= x.r() && if self.incl() { x.r() <= self.b() } else { x.r() < self.b() }) { self.lo <= *x && if self.closed { *x <= self.hi } else { *x < self.hi } }
}
pub fn v_span(lo: R, hi: R) -> (res: VSpan) ensures res.a() == lo.r(), res.b() == hi.r(), !res.incl() { VSpan { lo, hi, closed: false } }
pub fn v_span_incl(lo: R, hi: R) -> (res: VSpan) ensures res.a() == lo.r(), res.b() == hi.r(), res.incl() { VSpan { lo, hi, closed: true } }
// ---- sorting: a rearrangement, in the order of the comparison (a total order wherever used)
pub open spec fn hits(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
pub open spec fn rearranges(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
        && (forall|j: int| 0 <= j < n ==> #[trigger] hits(p, j))
}
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #[trigger] rearranges(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
pub open spec fn by_le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&a, &b), o) }
pub open spec fn key_le<T, F: Fn(&T) -> usize>(f: F, a: T, b: T) -> bool { exists|x: usize, y: usize| x <= y && #[trigger] f.ensures((&a,), x) && #[trigger] f.ensures((&b,), y) }
#[verifier::external_body]
pub fn v_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| f.requires((a, b)),
    ensures rearranged(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> by_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort_by(f) }
#[verifier::external_body]
pub fn v_sort_key<T, F: Fn(&T) -> usize>(v: &mut Vec<T>, f: F)
    requires forall|a: &T| f.requires((a,)),
    ensures rearranged(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort_by_key(f) }
#[verifier::external_body]
pub fn v_extend<T: Copy>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn v_copy_into<T: Copy>(v: &mut [T], s: &[T]) requires old(v)@.len() == s@.len(), ensures final(v)@ == s@ { v.copy_from_slice(s) }
#[verifier::external_body]
pub fn v_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
//@ call swap v_swap
#[verifier::external_body]
pub fn v_vec<T: Copy>(x: T, n: usize) -> (res: Vec<T>) ensures res@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] res@[k] == x { vec![x; n] }
// equality of whole buffers
pub trait VEq { spec fn rq(&self) -> Seq<R>;
    fn v_eq(&self, o: &Self) -> (res: bool) ensures res == (self.rq().len() == o.rq().len() && forall|k: int| 0 <= k < self.rq().len() ==> #[trigger] self.rq()[k].r() == o.rq()[k].r()); }
impl VEq for Vec<R> { open spec fn rq(&self) -> Seq<R> { self@ }
    #[verifier::external_body]
    fn v_eq(&self, o: &Self) -> (res: bool) { self == o } }
impl<const N: usize> VEq for [R; N] { open spec fn rq(&self) -> Seq<R> { self@ }
    #[verifier::external_body]
    fn v_eq(&self, o: &Self) -> (res: bool) { self == o } }
// copies; T is a plain value wherever these are used
pub trait VClone: Sized { fn v_clone(&self) -> (res: Self) ensures res == *self; }
impl VClone for R { fn v_clone(&self) -> (res: Self) { *self } }
impl VClone for usize { fn v_clone(&self) -> (res: Self) { *self } }
impl VClone for isize { fn v_clone(&self) -> (res: Self) { *self } }
impl VClone for bool { fn v_clone(&self) -> (res: Self) { *self } }
impl<T: VClone> VClone for Option<T> { fn v_clone(&self) -> (res: Self) { match self { Some(x) => Some(x.v_clone()), None => None } } }
impl VClone for u8 { fn v_clone(&self) -> (res: Self) { *self } }
impl<A: VClone, B: VClone> VClone for (A, B) { fn v_clone(&self) -> (res: Self) { (self.0.v_clone(), self.1.v_clone()) } }
impl<T: VClone> VClone for Vec<T> {
    #[verifier::external_body]
    fn v_clone(&self) -> (res: Self) { unimplemented!() }
}
pub trait VToVec<T> { spec fn tsq(&self) -> Seq<T>; fn v_to_vec(&self) -> (res: Vec<T>) ensures res@ == self.tsq(); }
impl<T: Copy> VToVec<T> for [T] { open spec fn tsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (res: Vec<T>) { self.to_vec() } }
pub trait VCopied<T> { spec fn opt(self) -> Option<T>; fn v_cloned(self) -> (res: Option<T>) ensures res == self.opt(); fn v_copied(self) -> (res: Option<T>) ensures res == self.opt(); }
impl<'a, T: Copy> VCopied<T> for Option<&'a T> { open spec fn opt(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn v_cloned(self) -> (res: Option<T>) { match self { Some(x) => Some(*x), None => None } }
    fn v_copied(self) -> (res: Option<T>) { match self { Some(x) => Some(*x), None => None } } }
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize) requires (a < old(v)@.len()), (b < old(v)@.len()), ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);

// ---- real arithmetic
pub open spec fn rsum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(f, n - 1) + f(n - 1) } }
pub proof fn rsum_eq(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> f(k) == #[trigger] g(k)
    ensures rsum(f, n) == rsum(g, n)
    decreases n
{ if n > 0 { rsum_eq(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
} // verus!
fn main() {}
""")
open(sys.argv[1], "w").write("\n".join(out))
