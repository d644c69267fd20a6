//@ include points.rs
//@ include alg.rs
verus! {
//@ enum Orient #[derive(Clone, Copy)]
//@ struct Line #[derive(Clone, Copy)]
// ---- the predicates by their determinants
pub open spec fn flat(p: Point) -> bool { p.wf() && p.n == 2 }
pub open spec fn solid(p: Point) -> bool { p.wf() && p.n == 3 }
// twice the signed area of (p, q, r)
#[verifier::opaque]
pub open spec fn cross(p: Point, q: Point, r: Point) -> real { (q.c(0) - p.c(0)) * (r.c(1) - p.c(1)) - (r.c(0) - p.c(0)) * (q.c(1) - p.c(1)) }
// inside or on the triangle: on the inner side of each edge or on it
pub open spec fn same_sign(x: real, d: real) -> bool { if d > 0real { x >= 0real } else { x <= 0real } }
pub open spec fn inside(p: Point, t: (Point, Point, Point)) -> bool { let d = cross(t.0, t.1, t.2); same_sign(cross(t.1, t.2, p), d) && same_sign(cross(t.2, t.0, p), d) && same_sign(cross(t.0, t.1, p), d) }
#[verifier::spinoff_prover]
proof fn bar1(p: real, q: real, s: real, t: real, g: real, h: real, a: real, b: real, d: real, e: real, f: real)
    requires d == t * p - q * s, e == t * g - q * h, f == p * h - s * g, a * d == e, b * d == f, d != 0real,
    ensures a * p + b * q == g, a * s + b * t == h,
{
    as3(t, g, p); as3(t, p, g); as3(q, h, p); as3(p, h, q); as3(s, g, q); as3(q, s, g);
    ds(t * g, q * h, p); ds(p * h, s * g, q); ds(t * p, q * s, g);
    assert(e * p + f * q - d * g == 0real);
    as3(t, g, s); as3(s, g, t); as3(q, h, s); as3(q, s, h); as3(p, h, t); as3(t, p, h);
    ds(t * g, q * h, s); ds(p * h, s * g, t); ds(t * p, q * s, h);
    assert(e * s + f * t - d * h == 0real);
    let u = a * p + b * q - g; let v = a * s + b * t - h;
    ds(a * p + b * q, g, d); da(a * p, b * q, d); as3(a, p, d); as3(b, q, d); as3(a, d, p); as3(b, d, q);
    assert(u * d == e * p + f * q - g * d);
    ds(a * s + b * t, h, d); da(a * s, b * t, d); as3(a, s, d); as3(b, t, d); as3(a, d, s); as3(b, d, t);
    assert(v * d == e * s + f * t - h * d);
    assert(g * d == d * g && h * d == d * h) by (nonlinear_arith);
    assert(u == 0real) by (nonlinear_arith) requires u * d == 0real, d != 0real;
    assert(v == 0real) by (nonlinear_arith) requires v * d == 0real, d != 0real;
}
#[verifier::spinoff_prover]
proof fn bar2(x: real, y: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real) 
  ensures (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1) == (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3),
   (y2 - y3) * (x - x3) + (x3 - x2) * (y - y3) == (x3 - x2) * (y - y2) - (x - x2) * (y3 - y2),
   (y3 - y1) * (x - x3) + (x1 - x3) * (y - y3) == (x1 - x3) * (y - y3) - (x - x3) * (y1 - y3),
   (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3) - ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) - ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) == (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1) {
   dss(x2,x1,y3,y1); dss(x3,x1,y2,y1); dss(y2,y3,x1,x3); dss(x3,x2,y1,y3); dss(y2,y3,x,x3); dss(x3,x2,y,y3);
   dss(x3,x2,y,y2); dss(x,x2,y3,y2); dss(y3,y1,x,x3); dss(x1,x3,y,y3); dss(x,x3,y1,y3); dss(x2,x1,y,y1); dss(x,x1,y2,y1);
}
#[verifier::spinoff_prover]
proof fn bar3(a: real, b: real, x1: real, x2: real, x3: real) ensures a * x1 + b * x2 + (1real - a - b) * x3 == a * (x1 - x3) + b * (x2 - x3) + x3
{ ds(x1, x3, a); ds(x2, x3, b); ds(1real - a, b, x3); ds(1real, a, x3); assert(1real * x3 == x3) by (nonlinear_arith); }
#[verifier::spinoff_prover]
proof fn lem_bary(x: real, y: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real, d: real, a: real, b: real, c: real)
    requires d == (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3), d != 0real, a * d == (y2 - y3) * (x - x3) + (x3 - x2) * (y - y3), b * d == (y3 - y1) * (x - x3) + (x1 - x3) * (y - y3), c == 1real - a - b,
    ensures a * x1 + b * x2 + c * x3 == x, a * y1 + b * y2 + c * y3 == y,
        (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1) == d,
        a * d == (x3 - x2) * (y - y2) - (x - x2) * (y3 - y2), b * d == (x1 - x3) * (y - y3) - (x - x3) * (y1 - y3), c * d == (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1),
{
    bar2(x, y, x1, y1, x2, y2, x3, y3); bar3(a, b, x1, x2, x3); bar3(a, b, y1, y2, y3);
    ds(1real - a, b, d); ds(1real, a, d); assert(1real * d == d) by (nonlinear_arith);
    let (p, q, s, t, g, h) = (x1 - x3, x2 - x3, y1 - y3, y2 - y3, x - x3, y - y3);
    ds(0real, q, s); ds(0real, q, h); ds(0real, s, g); assert(0real * s == 0real && 0real * h == 0real && 0real * g == 0real) by (nonlinear_arith);
    assert((x3 - x2) * s == -(q * s)); assert((x3 - x2) * h == -(q * h)); assert((y3 - y1) * g == -(s * g));
    bar1(p, q, s, t, g, h, a, b, d, a * d, b * d);
}
// 0 <= a <= 1 by the signs of the parts
#[verifier::spinoff_prover]
proof fn lem_frac(a: real, e: real, d: real)
    requires d != 0real, a * d == e,
    ensures (a >= 0real) == same_sign(e, d),
{
    assert(d > 0real ==> (a >= 0real) == (e >= 0real)) by (nonlinear_arith) requires a * d == e;
    assert(d < 0real ==> (a >= 0real) == (e <= 0real)) by (nonlinear_arith) requires a * d == e;
}
//@ fn predicates::bary_coor -> res
//@ requires
    flat(p), flat(tri.0), flat(tri.1), flat(tri.2), cross(tri.0, tri.1, tri.2) != 0real,
//@ ensures
    res.0.r() + res.1.r() + res.2.r() == 1real,
    res.0.r() * tri.0.c(0) + res.1.r() * tri.1.c(0) + res.2.r() * tri.2.c(0) == p.c(0),
    res.0.r() * tri.0.c(1) + res.1.r() * tri.1.c(1) + res.2.r() * tri.2.c(1) == p.c(1),
    ({ let d = cross(tri.0, tri.1, tri.2); res.0.r() * d == cross(tri.1, tri.2, p) && res.1.r() * d == cross(tri.2, tri.0, p) && res.2.r() * d == cross(tri.0, tri.1, p) }),
//@ after let denom
    proof { assert(denom.r() == cross(p1, p2, p3)) by { reveal(cross); lem_cross(p1, p2, p3); } }
//@ tail
    proof { let d = denom.r(); assert(a.r() * d == (p2.c(1) - p3.c(1)) * (p.c(0) - p3.c(0)) + (p3.c(0) - p2.c(0)) * (p.c(1) - p3.c(1))) by { lem_div((p2.c(1) - p3.c(1)) * (p.c(0) - p3.c(0)) + (p3.c(0) - p2.c(0)) * (p.c(1) - p3.c(1)), d); }
        assert(b.r() * d == (p3.c(1) - p1.c(1)) * (p.c(0) - p3.c(0)) + (p1.c(0) - p3.c(0)) * (p.c(1) - p3.c(1))) by { lem_div((p3.c(1) - p1.c(1)) * (p.c(0) - p3.c(0)) + (p1.c(0) - p3.c(0)) * (p.c(1) - p3.c(1)), d); }
        lem_bary(p.c(0), p.c(1), p1.c(0), p1.c(1), p2.c(0), p2.c(1), p3.c(0), p3.c(1), d, a.r(), b.r(), c.r()); reveal(cross); }
//@ end
#[verifier::spinoff_prover]
proof fn lem_cross(p: Point, q: Point, r: Point)
    ensures cross(p, q, r) == (q.c(1) - r.c(1)) * (p.c(0) - r.c(0)) + (r.c(0) - q.c(0)) * (p.c(1) - r.c(1)),
{ reveal(cross); let (a, b, c, d, e, f) = (p.c(0), p.c(1), q.c(0), q.c(1), r.c(0), r.c(1));
  dss(c, a, f, b); dss(e, a, d, b); dss(d, f, a, e); dss(e, c, b, f); }
//@ fn predicates::in_triangle -> res
//@ requires
    flat(p), flat(tri.0), flat(tri.1), flat(tri.2), cross(tri.0, tri.1, tri.2) != 0real,
//@ ensures
    res == inside(p, tri),
//@ after let (a, b, c)
    proof { let d = cross(tri.0, tri.1, tri.2); lem_frac(a.r(), cross(tri.1, tri.2, p), d); lem_frac(b.r(), cross(tri.2, tri.0, p), d); lem_frac(c.r(), cross(tri.0, tri.1, p), d); }
//@ end

// ---- in circle, in sphere, orientation: the sign of the lifted determinant
pub open spec fn rows4(a: Point, b: Point, c: Point, d: Point, i: int) -> Point { if i == 0 { a } else if i == 1 { b } else if i == 2 { c } else { d } }
pub open spec fn rows5(a: Point, b: Point, c: Point, d: Point, e: Point, i: int) -> Point { if i == 4 { e } else { rows4(a, b, c, d, i) } }
// row (x, y, x^2 + y^2, 1)
pub open spec fn circ(a: Point, b: Point, c: Point, p: Point) -> A2 { |i: int, j: int| { let q = rows4(a, b, c, p, i); if j < 2 { q.c(j) } else if j == 2 { q.c(0) * q.c(0) + q.c(1) * q.c(1) } else { 1real } } }
// row (x, y, z, 1)
pub open spec fn tetra(a: Point, b: Point, c: Point, d: Point) -> A2 { |i: int, j: int| { let q = rows4(a, b, c, d, i); if j < 3 { q.c(j) } else { 1real } } }
// row (x, y, z, x^2 + y^2 + z^2, 1)
pub open spec fn sph(a: Point, b: Point, c: Point, d: Point, p: Point) -> A2 { |i: int, j: int| { let q = rows5(a, b, c, d, p, i); if j < 3 { q.c(j) } else if j == 3 { q.c(0) * q.c(0) + q.c(1) * q.c(1) + q.c(2) * q.c(2) } else { 1real } } }
pub proof fn lem_sq(x: real) ensures rpow(x, 2) == x * x { reveal_with_fuel(rpow, 3); assert(x * (x * 1real) == x * x) by (nonlinear_arith); }
pub proof fn lem_cells4(i: int, j: int) requires 0 <= i < 4, 0 <= j < 4, ensures i == 0 || i == 1 || i == 2 || i == 3, j == 0 || j == 1 || j == 2 || j == 3 {}
pub proof fn lem_sq2(p: Point) ensures rpow(p.c(0), 2) + rpow(p.c(1), 2) == p.c(0) * p.c(0) + p.c(1) * p.c(1) { lem_sq(p.c(0)); lem_sq(p.c(1)); }
pub proof fn lem_sq3p(p: Point) ensures rpow(p.c(0), 2) + rpow(p.c(1), 2) + rpow(p.c(2), 2) == p.c(0) * p.c(0) + p.c(1) * p.c(1) + p.c(2) * p.c(2) { lem_sq(p.c(0)); lem_sq(p.c(1)); lem_sq(p.c(2)); }
// decided by the sign of the determinant, unless elimination finds it to vanish
pub open spec fn decides(res: bool, m: A2, n: int) -> bool { (res ==> det(m, n) > 0real) && (det(m, n) > 0real ==> res || det_fails(m, n)) }
//@ fn predicates::in_circle -> res
//@ oneidx a b c p
//@ requires
    flat(p), flat(tri.0), flat(tri.1), flat(tri.2),
//@ ensures
    decides(res, circ(tri.0, tri.1, tri.2, p), 4),
//@ start
    proof { lem_sq2(p); lem_sq2(tri.0); lem_sq2(tri.1); lem_sq2(tri.2); }
//@ after let mat
    proof { let m = circ(a, b, c, p);
        assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies #[trigger] mf(&mat)(i, j) == m(i, j) by { lem_cells4(i, j); }
        lem_det_eq(mf(&mat), m, 4); }
//@ end
pub proof fn lem_det_eq(a: A2, b: A2, n: int)
    requires same2(a, b, n),
    ensures det(a, n) == det(b, n), det_fails(a, n) ==> det_fails(b, n),
{
    det_same(a, b, n);
    if det_fails(a, n) {
        let (w, odd, i): (A2, bool, int) = choose|w: A2, odd: bool, i: int| #[trigger] det_at(a, w, n, odd) && #[trigger] stuck(w, n, i);
        assert(det_at(b, w, n, odd)) by { assert forall|d: Det| #[trigger] is_det(d, n) implies d(b) == signed(odd, d(w)) by { assert(d(a) == d(b)); } }
    }
}

proof fn lem_cells5(i: int, j: int) requires 0 <= i < 5, 0 <= j < 5, ensures i == 0 || i == 1 || i == 2 || i == 3 || i == 4, j == 0 || j == 1 || j == 2 || j == 3 || j == 4 {}
//@ fn predicates::in_sphere -> res
//@ oneidx a b c d p
//@ requires
    solid(p), solid(tet.0), solid(tet.1), solid(tet.2), solid(tet.3),
//@ ensures
    decides(res, sph(tet.0, tet.1, tet.2, tet.3, p), 5),
//@ start
    proof { lem_sq3p(p); lem_sq3p(tet.0); lem_sq3p(tet.1); lem_sq3p(tet.2); lem_sq3p(tet.3); }
//@ after let mat
    proof { let m = sph(a, b, c, d, p);
        assert forall|i: int, j: int| 0 <= i < 5 && 0 <= j < 5 implies #[trigger] mf(&mat)(i, j) == m(i, j) by { lem_cells5(i, j); }
        lem_det_eq(mf(&mat), m, 5); }
//@ end
pub open spec fn turns(o: Orient, m: A2, n: int) -> bool { match o { Orient::Positive => det(m, n) > 0real, Orient::Negative => det(m, n) < 0real, Orient::Zero => det(m, n) == 0real || det_fails(m, n) } }
//@ fn predicates::tetrahedron_dir -> res
//@ oneidx a b c d
//@ requires
    solid(tet.0), solid(tet.1), solid(tet.2), solid(tet.3),
//@ ensures
    turns(res, tetra(tet.0, tet.1, tet.2, tet.3), 4),
//@ after let mat
    proof { let m = tetra(a, b, c, d);
        assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies #[trigger] mf(&mat)(i, j) == m(i, j) by { lem_cells4(i, j); }
        lem_det_eq(mf(&mat), m, 4); }
//@ end
// ---- circumcentre: the point where two perpendicular bisectors meet
impl Line {
//@ fn Line::from_segment -> res
//@ oneidx p q
//@ requires
    flat(p), flat(q),
//@ ensures
    res.a.r() == q.c(1) - p.c(1), res.b.r() == p.c(0) - q.c(0), res.c.r() == res.a.r() * p.c(0) + res.b.r() * p.c(1),
//@ end
}
// on the line
impl Line { pub closed spec fn on(self, x: real, y: real) -> bool { self.a.r() * x + self.b.r() * y == self.c.r() }
  pub closed spec fn dir(self, a: real, b: real) -> bool { self.a.r() == a && self.b.r() == b } }
#[verifier::opaque]
pub open spec fn gap(x: real, y: real, p: Point) -> real { (x - p.c(0)) * (x - p.c(0)) + (y - p.c(1)) * (y - p.c(1)) }
#[verifier::spinoff_prover]
proof fn lem_sqd(x: real, a: real, b: real, m: real)
    requires m == (a + b) / 2real,
    ensures (x - a) * (x - a) - (x - b) * (x - b) == 2real * ((b - a) * x - (b - a) * m),
{
    dss(x, a, x, a); dss(x, b, x, b); ds(b, a, x); ds(b, a, m);
    assert(m + m == a + b);
    da(m, m, b - a); dss(b, a, b, a); da(a, b, b - a); ds(b, a, b); ds(b, a, a);
    assert(a * b == b * a && a * x == x * a && b * x == x * b && a * m == m * a && b * m == m * b) by (nonlinear_arith);
    assert(2real * ((b - a) * x - (b - a) * m) == ((b - a) * x - (b - a) * m) + ((b - a) * x - (b - a) * m)) by (nonlinear_arith);
}
impl Line {
//@ fn Line::perp_bisect -> res
//@ oneidx p q mid
//@ requires
    flat(p), flat(q),
//@ ensures
    res.dir(q.c(0) - p.c(0), q.c(1) - p.c(1)),
    forall|x: real, y: real| #[trigger] res.on(x, y) ==> gap(x, y, p) == gap(x, y, q),
//@ after let mid
    proof { let b = along.b.r(); assert(-1real * b == -b) by (nonlinear_arith); }
//@ tail
    proof { assert forall|x: real, y: real| #[trigger] ret_.on(x, y) implies gap(x, y, p) == gap(x, y, q) by { reveal(gap);
        lem_sqd(x, p.c(0), q.c(0), mid.c(0)); lem_sqd(y, p.c(1), q.c(1), mid.c(1)); } }
//@ end
}
impl Line {
//@ fn Line::intersect -> res
//@ ensures
    match res { Some(t) => flat(t) && self.on(t.c(0), t.c(1)) && other.on(t.c(0), t.c(1)), None => self.a.r() * other.b.r() - other.a.r() * self.b.r() == 0real },
    self.a.r() * other.b.r() - other.a.r() * self.b.r() == 0real ==> res is None,
//@ before Some((x, y).into())
    proof { lem_cramer(self.a.r(), self.b.r(), self.c.r(), other.a.r(), other.b.r(), other.c.r(), x.r(), y.r(), det.r()); }
//@ end
}
#[verifier::spinoff_prover]
proof fn lem_cramer(p: real, q: real, g: real, s: real, t: real, h: real, x: real, y: real, d: real)
    requires d == p * t - s * q, d != 0real, x == (t * g - q * h) / d, y == (p * h - s * g) / d,
    ensures p * x + q * y == g, s * x + t * y == h,
{
    lem_div(t * g - q * h, d); lem_div(p * h - s * g, d);
    assert(p * t == t * p && s * q == q * s && p * x == x * p && q * y == y * q && s * x == x * s && t * y == y * t) by (nonlinear_arith);
    bar1(p, q, s, t, g, h, x, y, d, t * g - q * h, p * h - s * g);
}
//@ fn predicates::circumcenter -> res
//@ requires
    flat(tri.0), flat(tri.1), flat(tri.2),
//@ ensures
    match res { Some(t) => flat(t) && gap(t.c(0), t.c(1), tri.0) == gap(t.c(0), t.c(1), tri.1) && gap(t.c(0), t.c(1), tri.1) == gap(t.c(0), t.c(1), tri.2) && cross(tri.0, tri.1, tri.2) != 0real, None => cross(tri.0, tri.1, tri.2) == 0real },
//@ start
    proof { lem_cross3(tri.0, tri.1, tri.2); }
//@ end
#[verifier::spinoff_prover]
proof fn lem_cross3(p: Point, q: Point, r: Point)
    ensures cross(p, q, r) == (q.c(0) - p.c(0)) * (r.c(1) - q.c(1)) - (r.c(0) - q.c(0)) * (q.c(1) - p.c(1)),
{ reveal(cross); let (a, b, c, d, e, f) = (p.c(0), p.c(1), q.c(0), q.c(1), r.c(0), r.c(1));
  dss(c, a, f, b); dss(e, a, d, b); dss(c, a, f, d); dss(e, c, d, b);  assert(a * b == b * a && c * d == d * c) by (nonlinear_arith); }
}
