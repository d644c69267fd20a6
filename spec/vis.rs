//@ include pred.rs
verus! {
//@ struct Visualizer only points node_vals val_range
pub struct Rgb<T>(pub [T; 3]);
// ---- colour ramps
pub open spec fn cut(x: real) -> real { if x < 0real { 0real } else if x > 255real { 255real } else { x } }
// a channel: the ramp times 255 cut to the range of a byte and rounded
pub open spec fn chan(x: real) -> int { rround(cut(x * 255real)).floor() }
pub open spec fn hot(v: real, k: int) -> int { let u = if v <= 0real { 0real } else if v >= 1real { 1real } else { v }; chan(u * 3real - k as real) }
// rises to 1.5 at the top and falls away by 4 per unit on both sides
pub open spec fn tent(top: real, v: real) -> int { chan(1.5real - 4real * rabs(v - top)) }
pub proof fn lem_byte(x: real) ensures 0 <= rround(cut(x)).floor() <= 255, rround(cut(x)) == rround(cut(x)).floor() as real,
    rround(cut(x)) - cut(x) <= 0.5real, cut(x) - rround(cut(x)) < 0.5real || cut(x) - rround(cut(x)) <= 0.5real {}
pub proof fn lem_chan_mono(x: real, y: real) requires x <= y, ensures chan(x) <= chan(y)
{ assert(x * 255real <= y * 255real); }
// the hot map runs from black to white without darkening and is constant outside
pub proof fn lem_hot(v: real, w: real, k: int)
    requires 0 <= k < 3,
    ensures hot(0real, k) == 0, hot(1real, k) == 255, v <= w ==> hot(v, k) <= hot(w, k), v <= 0real ==> hot(v, k) == 0, v >= 1real ==> hot(v, k) == 255,
{
    if v <= w { let (a, b) = (if v <= 0real { 0real } else if v >= 1real { 1real } else { v }, if w <= 0real { 0real } else if w >= 1real { 1real } else { w }); assert(a <= b); assert(a * 3real <= b * 3real); lem_chan_mono(a * 3real - k as real, b * 3real - k as real); }
}
//@ fn color::hot_map -> res
//@ opt float-cast u8
//@ ensures
    forall|k: int| 0 <= k < 3 ==> #[trigger] res.0@[k] as int == hot(val.r(), k),
//@ end
//@ fn color::peak -> res
//@ ensures
    res.r() == top.1.r() - slope.r() * rabs(val.r() - top.0.r()),
//@ start
    proof { let (c, x) = (slope.r(), val.r() - top.0.r()); assert(c * (-x) == -(c * x) && -1real * c * x == -(c * x)) by (nonlinear_arith); }
//@ end
//@ fn color::rgb_map -> res
//@ opt float-cast u8
//@ ensures
    res.0@[0] as int == tent(0.75real, val.r()), res.0@[1] as int == tent(0.5real, val.r()), res.0@[2] as int == tent(0.25real, val.r()),
//@ end
// ---- pixels
//@ const DOT_SIZE
pub open spec fn boxed(p: (u32, u32), x0: int, x1: int, y0: int, y1: int) -> bool { x0 <= p.0 <= x1 && y0 <= p.1 <= y1 }
// pixel p comes before (x, y), column by column
pub open spec fn before(p: (u32, u32), x: int, y: int) -> bool { p.0 < x || p.0 == x && p.1 < y }
//@ fn fill::dot_points -> res
//@ loop 0 int=u32
//@ loop 1 int=u32
//@ let res : Vec<(u32, u32)>
//@ requires
    1 <= center_x < u32::MAX, 1 <= center_y < u32::MAX,
//@ ensures
    res@.no_duplicates(),
    forall|p: (u32, u32)| #[trigger] res@.contains(p) == boxed(p, center_x - 1, center_x + 1, center_y - 1, center_y + 1),
//@ loop 0
    res@.no_duplicates(),
    forall|p: (u32, u32)| #[trigger] res@.contains(p) == (boxed(p, center_x - 1, center_x + 1, center_y - 1, center_y + 1) && p.0 < center_x - 1 + k0),
//@ loop 1
    res@.no_duplicates(),
    forall|p: (u32, u32)| #[trigger] res@.contains(p) == (boxed(p, center_x - 1, center_x + 1, center_y - 1, center_y + 1) && before(p, x as int, center_y - 1 + k1)),
//@ loop 1 end
    proof { lem_pushed(old_, (x, y)); }
//@ loop 1 start
    let ghost old_ = res@;
//@ end
pub proof fn lem_pushed<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), !s.contains(x),
    ensures s.push(x).no_duplicates(), forall|p: T| #[trigger] s.push(x).contains(p) == (s.contains(p) || p == x),
{
    let t = s.push(x);
    assert forall|p: T| #[trigger] t.contains(p) == (s.contains(p) || p == x) by {
        if s.contains(p) { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(t[i] == p); }
        if p == x { assert(t[s.len() as int] == p); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i == s.len() { assert(s[j] == t[j]); assert(s.contains(s[j])); } else if j == s.len() { assert(s[i] == t[i]); assert(s.contains(s[i])); }
    }
}

// ---- filled triangles
pub open spec fn pix(p: (u32, u32)) -> (real, real) { (p.0 as int as real, p.1 as int as real) }
// twice the signed area of the pixels a, b and c
pub open spec fn carea(a: (u32, u32), b: (u32, u32), c: (u32, u32)) -> int { (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1) }
pub open spec fn isign(x: int, d: int) -> bool { if d > 0 { x >= 0 } else { x <= 0 } }
pub open spec fn covers(t: Seq<(u32, u32)>, p: (u32, u32)) -> bool { let d = carea(t[0], t[1], t[2]); isign(carea(t[1], t[2], p), d) && isign(carea(t[2], t[0], p), d) && isign(carea(t[0], t[1], p), d) }
// the value at p: each corner weighted by the area of the triangle facing it
pub open spec fn weighed(t: Seq<(u32, u32)>, w: Seq<R>, p: (u32, u32), v: real) -> bool {
    v * carea(t[0], t[1], t[2]) as real == carea(t[1], t[2], p) as real * w[0].r() + carea(t[2], t[0], p) as real * w[1].r() + carea(t[0], t[1], p) as real * w[2].r()
}
pub open spec fn fits32(p: (u32, u32)) -> bool { p.0 < u32::MAX && p.1 < u32::MAX }
pub open spec fn spots(s: Seq<((u32, u32), R)>) -> Seq<(u32, u32)> { s.map(|i: int, x: ((u32, u32), R)| x.0) }
pub open spec fn flat_at(p: Point, a: (u32, u32)) -> bool { flat(p) && p.c(0) == pix(a).0 && p.c(1) == pix(a).1 }
proof fn lem_carea(a: (u32, u32), b: (u32, u32), c: (u32, u32), p: Point, q: Point, r: Point)
    requires flat_at(p, a), flat_at(q, b), flat_at(r, c),
    ensures cross(p, q, r) == carea(a, b, c) as real,
{ reveal(cross); lem_area(a, b, c); }
#[verifier::spinoff_prover]
proof fn lem_conv(a: real, b: real, c: real, x1: real, x2: real, x3: real, lo: real, hi: real)
    requires a >= 0real, b >= 0real, c >= 0real, a + b + c == 1real, lo <= x1 <= hi, lo <= x2 <= hi, lo <= x3 <= hi,
    ensures lo <= a * x1 + b * x2 + c * x3 <= hi,
{
    assert(a * lo <= a * x1 && a * x1 <= a * hi) by (nonlinear_arith) requires a >= 0real, lo <= x1 <= hi;
    assert(b * lo <= b * x2 && b * x2 <= b * hi) by (nonlinear_arith) requires b >= 0real, lo <= x2 <= hi;
    assert(c * lo <= c * x3 && c * x3 <= c * hi) by (nonlinear_arith) requires c >= 0real, lo <= x3 <= hi;
    assert(a * lo + b * lo + c * lo == lo) by { da(a, b, lo); da(a + b, c, lo); assert(1real * lo == lo) by (nonlinear_arith); }
    assert(a * hi + b * hi + c * hi == hi) by { da(a, b, hi); da(a + b, c, hi); assert(1real * hi == hi) by (nonlinear_arith); }
}
proof fn lem_prod(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real)
    decreases if a < 0 { -a } else { a }
{
    if a == 0 { assert(a * b == 0) by (nonlinear_arith) requires a == 0; assert(0real * (b as real) == 0real) by (nonlinear_arith); }
    else if a > 0 { lem_prod(a - 1, b); assert(a * b == (a - 1) * b + b) by (nonlinear_arith); let (x, y) = (a as real, b as real); ds(x, 1real, y); assert(1real * y == y) by (nonlinear_arith); assert((a - 1) as real == x - 1real); }
    else { lem_prod(a + 1, b); assert(a * b == (a + 1) * b - b) by (nonlinear_arith); let (x, y) = (a as real, b as real); da(x, 1real, y); assert(1real * y == y) by (nonlinear_arith); assert((a + 1) as real == x + 1real); }
}
proof fn lem_area(a: (u32, u32), b: (u32, u32), c: (u32, u32))
    ensures carea(a, b, c) as real == (pix(b).0 - pix(a).0) * (pix(c).1 - pix(a).1) - (pix(c).0 - pix(a).0) * (pix(b).1 - pix(a).1),
{ lem_prod(b.0 - a.0, c.1 - a.1); lem_prod(c.0 - a.0, b.1 - a.1); }
// what is covered lies in every box holding the corners
proof fn lem_box(t: Seq<(u32, u32)>, p: (u32, u32), x0: int, x1: int, y0: int, y1: int)
    requires carea(t[0], t[1], t[2]) != 0, covers(t, p), forall|i: int| 0 <= i < 3 ==> boxed(#[trigger] t[i], x0, x1, y0, y1),
    ensures boxed(p, x0, x1, y0, y1),
{
    let (q1, q2, q3, q) = (pix(t[0]), pix(t[1]), pix(t[2]), pix(p));
    lem_area(t[0], t[1], t[2]); lem_area(t[1], t[2], p); lem_area(t[2], t[0], p); lem_area(t[0], t[1], p);
    let d = carea(t[0], t[1], t[2]) as real; let (e1, e2) = (carea(t[1], t[2], p) as real, carea(t[2], t[0], p) as real);
    let (a, b) = (e1 / d, e2 / d); let c = 1real - a - b;
    lem_div(e1, d); lem_div(e2, d);
    bar2(q.0, q.1, q1.0, q1.1, q2.0, q2.1, q3.0, q3.1);
    lem_bary(q.0, q.1, q1.0, q1.1, q2.0, q2.1, q3.0, q3.1, d, a, b, c);
    lem_frac(a, e1, d); lem_frac(b, e2, d); lem_frac(c, carea(t[0], t[1], p) as real, d);
    assert(boxed(t[0], x0, x1, y0, y1) && boxed(t[1], x0, x1, y0, y1) && boxed(t[2], x0, x1, y0, y1));
    lem_conv(a, b, c, q1.0, q2.0, q3.0, x0 as real, x1 as real);
    lem_conv(a, b, c, q1.1, q2.1, q3.1, y0 as real, y1 as real);
}
// the value by its weights
#[verifier::spinoff_prover]
proof fn lem_weigh(a: real, b: real, c: real, d: real, e1: real, e2: real, e3: real, u: real, v: real, w: real)
    requires a * d == e1, b * d == e2, c * d == e3,
    ensures (a * u + b * v + c * w) * d == e1 * u + e2 * v + e3 * w,
{ da(a * u + b * v, c * w, d); da(a * u, b * v, d); as3(a, u, d); as3(b, v, d); as3(c, w, d); as3(a, d, u); as3(b, d, v); as3(c, d, w); }
proof fn lem_spot(s: Seq<((u32, u32), R)>, x: ((u32, u32), R)) ensures spots(s.push(x)) =~= spots(s).push(x.0) {}
//@ fn fill::triangle_interp -> res
//@ loop 4 int=u32
//@ loop 5 int=u32
//@ let res : Vec<((u32, u32), R)>
//@ let acc0 : Option<&u32>
//@ let acc1 : Option<&u32>
//@ let acc2 : Option<&u32>
//@ let acc3 : Option<&u32>
//@ requires
    forall|i: int| 0 <= i < 3 ==> fits32(#[trigger] points@[i]), carea(points@[0], points@[1], points@[2]) != 0,
//@ ensures
    spots(res@).no_duplicates(),
    forall|p: (u32, u32)| #[trigger] spots(res@).contains(p) == covers(points@, p),
    forall|k: int| 0 <= k < res@.len() ==> weighed(points@, vals@, (#[trigger] res@[k]).0, res@[k].1.r()),
//@ loop 0
    len0 == 3, acc0 is Some == (k0 > 0), acc0 is Some ==> *acc0->Some_0 < u32::MAX, forall|i: int| 0 <= i < k0 ==> (#[trigger] points@[i]).0 <= *acc0->Some_0,
//@ loop 1
    len1 == 3, acc1 is Some == (k1 > 0), forall|i: int| 0 <= i < k1 ==> (#[trigger] points@[i]).0 >= *acc1->Some_0,
//@ loop 2
    len2 == 3, acc2 is Some == (k2 > 0), acc2 is Some ==> *acc2->Some_0 < u32::MAX, forall|i: int| 0 <= i < k2 ==> (#[trigger] points@[i]).1 <= *acc2->Some_0,
//@ loop 3
    len3 == 3, acc3 is Some == (k3 > 0), forall|i: int| 0 <= i < k3 ==> (#[trigger] points@[i]).1 >= *acc3->Some_0,
//@ loop 4
    spots(res@).no_duplicates(),
    forall|p: (u32, u32)| #[trigger] spots(res@).contains(p) == (covers(points@, p) && boxed(p, x_min as int, x_max as int, y_min as int, y_max as int) && p.0 < x_min + k4),
    forall|k: int| 0 <= k < res@.len() ==> weighed(points@, vals@, (#[trigger] res@[k]).0, res@[k].1.r()),
//@ loop 5
    spots(res@).no_duplicates(),
    forall|p: (u32, u32)| #[trigger] spots(res@).contains(p) == (covers(points@, p) && boxed(p, x_min as int, x_max as int, y_min as int, y_max as int) && before(p, x as int, y_min + k5)),
    forall|k: int| 0 <= k < res@.len() ==> weighed(points@, vals@, (#[trigger] res@[k]).0, res@[k].1.r()),
//@ loop 5 start
    let ghost old_ = res@;
//@ after let p
    proof { let t = points@; lem_carea(t[0], t[1], t[2], tri.0, tri.1, tri.2); lem_carea(t[1], t[2], (x, y), tri.1, tri.2, p); lem_carea(t[2], t[0], (x, y), tri.2, tri.0, p); lem_carea(t[0], t[1], (x, y), tri.0, tri.1, p); }
//@ after let weighted_val
    proof { let t = points@; let d = carea(t[0], t[1], t[2]) as real;
      lem_weigh(weights.0.r(), weights.1.r(), weights.2.r(), d, carea(t[1], t[2], (x, y)) as real, carea(t[2], t[0], (x, y)) as real, carea(t[0], t[1], (x, y)) as real, vals@[0].r(), vals@[1].r(), vals@[2].r()); }
//@ after res.push
    proof { lem_spot(old_, ((x, y), weighted_val)); lem_pushed(spots(old_), (x, y)); }
//@ tail
    proof { assert forall|p: (u32, u32)| covers(points@, p) implies boxed(p, x_min as int, x_max as int, y_min as int, y_max as int) by { lem_box(points@, p, x_min as int, x_max as int, y_min as int, y_max as int); } }
//@ end

// from 0 at the least value to 1 at the greatest
pub open spec fn normed(v: Seq<R>, w: Seq<R>, lo: real, hi: real) -> bool {
    &&& w.len() == v.len() && lo < hi
    &&& exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).r() == lo
    &&& exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).r() == hi
    &&& forall|i: int| 0 <= i < v.len() ==> lo <= (#[trigger] v[i]).r() <= hi && w[i].r() == (v[i].r() - lo) / (hi - lo)
}
proof fn lem_part1(x: real, d: real) requires d > 0real, 0real <= x <= d, ensures 0real <= x / d <= 1real
{ lem_div(x, d); let q = x / d; assert(0real <= q <= 1real) by (nonlinear_arith) requires d > 0real, 0real <= q * d <= d; }
pub proof fn lem_normed(v: Seq<R>, w: Seq<R>, lo: real, hi: real, i: int)
    requires normed(v, w, lo, hi), 0 <= i < v.len(),
    ensures 0real <= w[i].r() <= 1real, v[i].r() == lo ==> w[i].r() == 0real, v[i].r() == hi ==> w[i].r() == 1real,
{ lem_div(v[i].r() - lo, hi - lo); let x = w[i].r(); let d = hi - lo; assert(0real <= x <= 1real && (x * d == 0real ==> x == 0real) && (x * d == d ==> x == 1real)) by (nonlinear_arith) requires d > 0real, 0real <= x * d <= d; }
// ---- values set for display
impl Visualizer {
//@ fn Visualizer::set_vals
//@ requires
    vals@.len() == old(self).points@.len(),
    exists|i: int, j: int| 0 <= i < vals@.len() && 0 <= j < vals@.len() && (#[trigger] vals@[i]).r() < (#[trigger] vals@[j]).r(),
//@ ensures
    final(self).points == old(self).points,
    final(self).node_vals is Some, final(self).val_range is Some,
    normed(vals@, final(self).node_vals->Some_0@, final(self).val_range->Some_0.0.r(), final(self).val_range->Some_0.1.r()),
//@ let acc0 : Option<&R>
//@ let acc1 : Option<&R>
//@ start
    let ghost v = vals@;
    proof { let (i, j) = choose|i: int, j: int| 0 <= i < vals@.len() && 0 <= j < vals@.len() && (#[trigger] vals@[i]).r() < (#[trigger] vals@[j]).r(); assert(vals@.len() > 0); }
//@ loop 0
    acc0 is Some == (k0 > 0), acc0 is Some ==> exists|i: int| 0 <= i < k0 && (#[trigger] v[i]).r() == (*acc0->Some_0).r(), forall|i: int| 0 <= i < k0 ==> (#[trigger] v[i]).r() >= (*acc0->Some_0).r(),
//@ loop 1
    acc1 is Some == (k1 > 0), acc1 is Some ==> exists|i: int| 0 <= i < k1 && (#[trigger] v[i]).r() == (*acc1->Some_0).r(), forall|i: int| 0 <= i < k1 ==> (#[trigger] v[i]).r() <= (*acc1->Some_0).r(),
//@ after let range
    proof { let (i, j) = choose|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).r() < (#[trigger] v[j]).r(); assert(range.r() > 0real); }
//@ loop 2
    vals@.len() == v.len(),
    forall|i: int| k2 <= i < v.len() ==> #[trigger] vals@[i] == v[i],
    forall|i: int| 0 <= i < k2 ==> (#[trigger] vals@[i]).r() == (v[i].r() - min.r()) / range.r(),
//@ loop 2 start
    proof { let x = v[i2 as int]; lem_part1(x.r() - min.r(), range.r()); }
//@ end
}
}
