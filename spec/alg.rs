//@ include prelude.rs
verus! {
// ---- distribution and association of real products
pub proof fn ds(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c, c * (a - b) == c * a - c * b
{ assert((a - b) * c == a * c - b * c) by (nonlinear_arith); assert(c * (a - b) == c * a - c * b) by (nonlinear_arith); }
pub proof fn da(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c, c * (a + b) == c * a + c * b
{ assert((a + b) * c == a * c + b * c) by (nonlinear_arith); assert(c * (a + b) == c * a + c * b) by (nonlinear_arith); }
// (a - b)(c - d)
pub proof fn dss(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d
{ ds(a, b, c - d); ds(c, d, a); ds(c, d, b); }
pub proof fn as3(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), (a * b) * c == (a * c) * b, (a * b) * c == (b * a) * c, (a * b) * c == (c * a) * b
{ assert((a * b) * c == a * (b * c)) by (nonlinear_arith); assert((a * b) * c == (a * c) * b) by (nonlinear_arith); assert((a * b) * c == (b * a) * c) by (nonlinear_arith); assert((a * b) * c == (c * a) * b) by (nonlinear_arith); }
}
