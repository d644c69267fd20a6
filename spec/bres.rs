//@ include prelude.rs
verus! {
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn pt(p: (isize, isize)) -> (int, int) { (p.0 as int, p.1 as int) }
pub open spec fn sw(p: (int, int)) -> (int, int) { (p.1, p.0) }
// twice the offset of p from the segment a-b along the second axis, times the length along the first
pub open spec fn off2(p: (int, int), a: (int, int), b: (int, int)) -> int {
    2 * ((p.1 - a.1) * (b.0 - a.0) - (p.0 - a.0) * (b.1 - a.1))
}
// v rasterises the segment from a to b, the first axis being the longer one, walked upwards
pub open spec fn raster(v: Seq<(int, int)>, a: (int, int), b: (int, int)) -> bool {
    &&& a.0 <= b.0
    &&& v.len() == b.0 - a.0 + 1
    &&& v[0] == a
    &&& v[b.0 - a.0] == b
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == a.0 + k && iabs(off2(v[k], a, b)) <= b.0 - a.0
    &&& forall|k: int, l: int| 0 <= k && l == k + 1 && l < v.len() ==> iabs((#[trigger] v[l]).1 - (#[trigger] v[k]).1) <= 1
}
pub open spec fn pts(v: Seq<(isize, isize)>) -> Seq<(int, int)> { v.map(|i: int, p: (isize, isize)| pt(p)) }
pub open spec fn pts_sw(v: Seq<(isize, isize)>) -> Seq<(int, int)> { v.map(|i: int, p: (isize, isize)| sw(pt(p))) }
// the pixels of the segment between a and b in either direction and with either axis the longer one
pub open spec fn drawn(v: Seq<(isize, isize)>, a: (int, int), b: (int, int)) -> bool {
    let dx = iabs(b.0 - a.0);
    let dy = iabs(b.1 - a.1);
    if dy < dx {
        raster(pts(v), a, b) || raster(pts(v), b, a)
    } else {
        raster(pts_sw(v), sw(a), sw(b)) || raster(pts_sw(v), sw(b), sw(a))
    }
}
pub open spec fn bounded(p: (isize, isize)) -> bool { -0x1000_0000_0000_0000 <= p.0 <= 0x1000_0000_0000_0000 && -0x1000_0000_0000_0000 <= p.1 <= 0x1000_0000_0000_0000 }

// the k-th pixel's offset from the number n of steps taken aside
pub proof fn lem_off(k: int, n: int, s: int, dx: int, dy: int)
    by(nonlinear_arith)
    requires s == 1 || s == -1
    ensures 2 * ((s * n) * dx - k * (s * dy)) == s * (2 * n * dx - 2 * k * dy),
        iabs(s * (2 * n * dx - 2 * k * dy)) == iabs(2 * n * dx - 2 * k * dy)
{ }
pub proof fn lem_step(k: int, n: int, dx: int, dy: int)
    by(nonlinear_arith)
    ensures 2 * (n + 1) * dx == 2 * n * dx + 2 * dx, 2 * (k + 1) * dy == 2 * k * dy + 2 * dy
{ }
pub proof fn lem_last(n: int, dx: int, dy: int)
    by(nonlinear_arith)
    requires iabs(2 * n * dx - 2 * dx * dy) <= dx, 0 <= dy <= dx, 0 <= n,
    ensures n == dy || dx == 0
{ }

//@ fn bresenham::line_low -> res
//@ loop 0 int=isize
//@ let res : Vec<(isize, isize)>
//@ let y_inc : isize
//@ requires
    bounded(orig), bounded(end), orig.0 <= end.0, iabs(end.1 - orig.1) <= end.0 - orig.0,
//@ ensures
    raster(pts(res@), pt(orig), pt(end)),
//@ before for
    let ghost mut n: int = 0;
    let ghost dx = end.0 - orig.0;
    let ghost dy = iabs(end.1 - orig.1);
//@ loop 0
    invariant
        del.0 == dx, del.1 == dy, y_inc == 1 || y_inc == -1, end.1 - orig.1 == y_inc * dy, 0 <= n <= k0,
        k0 < len0 ==> y == orig.1 + y_inc * n,
        k0 < len0 ==> d == 2 * k0 * dy - 2 * n * dx + 2 * dy - dx,
        k0 < len0 ==> iabs(2 * n * dx - 2 * k0 * dy) <= dx,
        res@.len() == k0,
        forall|k: int| 0 <= k < k0 ==> (#[trigger] res@[k]).0 == orig.0 + k && iabs(off2(pt(res@[k]), pt(orig), pt(end))) <= dx,
        forall|k: int, l: int| 0 <= k && l == k + 1 && l < k0 ==> iabs((#[trigger] res@[l]).1 - (#[trigger] res@[k]).1) <= 1,
        0 < k0 < len0 ==> iabs(y - res@[k0 - 1].1) <= 1,
        k0 > 0 ==> res@[0] == orig,
        k0 == len0 ==> res@[dx as int] == end,
//@ loop 0 start
    let ghost n0 = n;
    proof { lem_off(i0 as int, n, y_inc as int, dx, dy); lem_step(i0 as int, n, dx, dy); 
        if i0 == dx { lem_last(n, dx, dy); }
        if d > 0 { n = n + 1; } }
//@ end
//@ fn bresenham::line_high -> res
//@ loop 0 int=isize
//@ let res : Vec<(isize, isize)>
//@ let x_inc : isize
//@ requires
    bounded(orig), bounded(end), orig.1 <= end.1, iabs(end.0 - orig.0) <= end.1 - orig.1,
//@ ensures
    raster(pts_sw(res@), sw(pt(orig)), sw(pt(end))),
//@ before for
    let ghost mut n: int = 0;
    let ghost dx = end.1 - orig.1;
    let ghost dy = iabs(end.0 - orig.0);
//@ loop 0
    invariant
        del.1 == dx, del.0 == dy, x_inc == 1 || x_inc == -1, end.0 - orig.0 == x_inc * dy, 0 <= n <= k0,
        k0 < len0 ==> x == orig.0 + x_inc * n,
        k0 < len0 ==> d == 2 * k0 * dy - 2 * n * dx + 2 * dy - dx,
        k0 < len0 ==> iabs(2 * n * dx - 2 * k0 * dy) <= dx,
        res@.len() == k0,
        forall|k: int| 0 <= k < k0 ==> (#[trigger] res@[k]).1 == orig.1 + k && iabs(off2(sw(pt(res@[k])), sw(pt(orig)), sw(pt(end)))) <= dx,
        forall|k: int, l: int| 0 <= k && l == k + 1 && l < k0 ==> iabs((#[trigger] res@[l]).0 - (#[trigger] res@[k]).0) <= 1,
        0 < k0 < len0 ==> iabs(x - res@[k0 - 1].0) <= 1,
        k0 > 0 ==> res@[0] == orig,
        k0 == len0 ==> res@[dx as int] == end,
//@ loop 0 start
    let ghost n0 = n;
    proof { lem_off(i0 as int, n, x_inc as int, dx, dy); lem_step(i0 as int, n, dx, dy); 
        if i0 == dx { lem_last(n, dx, dy); }
        if d > 0 { n = n + 1; } }
//@ end
//@ fn bresenham::line -> res
//@ requires
    bounded(orig), bounded(end),
//@ ensures
    drawn(res@, pt(orig), pt(end)),
//@ end
pub open spec fn upt(p: (u32, u32)) -> (int, int) { (p.0 as int, p.1 as int) }
pub open spec fn iseq(v: Seq<(u32, u32)>, w: Seq<(isize, isize)>) -> bool {
    v.len() == w.len() && forall|k: int| 0 <= k < v.len() ==> upt(#[trigger] v[k]) == pt(w[k])
}
// a drawn segment between points of the grid stays on the grid
pub proof fn lem_between(v: Seq<(int, int)>, a: (int, int), b: (int, int), k: int)
    requires raster(v, a, b), 0 <= k < v.len(), a.0 >= 0, a.1 >= 0, b.1 >= 0, iabs(b.1 - a.1) <= b.0 - a.0,
    ensures v[k].0 >= 0, v[k].1 >= 0, v[k].0 <= b.0, v[k].1 <= a.1 || v[k].1 <= b.1,
{
    let p = v[k];
    let dx = b.0 - a.0;
    let dy = b.1 - a.1;
    assert(p.0 == a.0 + k);
    if dx > 0 {
        lem_mid(p.1 - a.1, k, dx, dy);
    }
}
// an offset of at most half a unit keeps t within the span of the segment
pub proof fn lem_mid(t: int, k: int, dx: int, dy: int)
    by(nonlinear_arith)
    requires dx > 0, 0 <= k <= dx, iabs(dy) <= dx, iabs(2 * (t * dx - k * dy)) <= dx,
    ensures dy >= 0 ==> 0 <= t <= dy, dy <= 0 ==> dy <= t <= 0,
{
    if dy >= 0 {
        assert(0 <= k * dy <= dx * dy);
        if t < 0 { assert(t * dx <= -dx); }
        if t > dy { assert(t * dx >= (dy + 1) * dx); }
    } else {
        assert(dx * dy <= k * dy <= 0);
        if t > 0 { assert(t * dx >= dx); }
        if t < dy { assert(t * dx <= (dy - 1) * dx); }
    }
}
pub proof fn lem_all(v: Seq<(isize, isize)>, a: (int, int), b: (int, int), k: int)
    requires drawn(v, a, b), a.0 >= 0, a.1 >= 0, b.0 >= 0, b.1 >= 0, 0 <= k < v.len(),
        a.0 <= u32::MAX, a.1 <= u32::MAX, b.0 <= u32::MAX, b.1 <= u32::MAX,
    ensures 0 <= v[k].0 <= u32::MAX, 0 <= v[k].1 <= u32::MAX,
{
    assert(pts(v)[k] == pt(v[k]));
    assert(pts_sw(v)[k] == sw(pt(v[k])));
    if iabs(b.1 - a.1) < iabs(b.0 - a.0) {
        if raster(pts(v), a, b) { lem_between(pts(v), a, b, k); } else { lem_between(pts(v), b, a, k); }
    } else {
        if raster(pts_sw(v), sw(a), sw(b)) { lem_between(pts_sw(v), sw(a), sw(b), k); } else { lem_between(pts_sw(v), sw(b), sw(a), k); }
    }
}
//@ fn bresenham::line_unsigned -> res
//@ let acc0 : Vec<(u32, u32)>
//@ ensures
    exists|w: Seq<(isize, isize)>| drawn(w, upt(*orig), upt(*end)) && #[trigger] iseq(res@, w),
//@ loop 0
    acc0@.len() == k0,
    len0 == s0@.len(),
    drawn(s0@, pt(orig), pt(end)),
    orig.0 >= 0, orig.1 >= 0, end.0 >= 0, end.1 >= 0,
    orig.0 <= u32::MAX, orig.1 <= u32::MAX, end.0 <= u32::MAX, end.1 <= u32::MAX,
    forall|k: int| 0 <= k < k0 ==> upt(#[trigger] acc0@[k]) == pt(s0@[k]),
//@ loop 0 start
    proof { lem_all(s0@, pt(orig), pt(end), i0 as int); }
//@ tail
    assert(iseq(ret_@, s0@));
//@ end
// the longer axis of a line and its reverse: the same coordinates, in the same order
pub proof fn swapped(v: Seq<(isize, isize)>, w: Seq<(isize, isize)>, a: (int, int), b: (int, int))
    requires drawn(v, a, b), drawn(w, b, a),
    ensures v.len() == w.len(),
        iabs(b.1 - a.1) < iabs(b.0 - a.0) ==> forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == w[k].0,
        iabs(b.1 - a.1) >= iabs(b.0 - a.0) ==> forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).1 == w[k].1,
{
    assert(pts(v).len() == v.len() && pts_sw(v).len() == v.len() && pts(w).len() == w.len() && pts_sw(w).len() == w.len());
    assert forall|k: int| 0 <= k < v.len() implies
        (iabs(b.1 - a.1) < iabs(b.0 - a.0) ==> (#[trigger] v[k]).0 == w[k].0) && (iabs(b.1 - a.1) >= iabs(b.0 - a.0) ==> v[k].1 == w[k].1) by {
        assert(pts(v)[k] == pt(v[k]) && pts_sw(v)[k] == sw(pt(v[k])));
        assert(pts(w)[k] == pt(w[k]) && pts_sw(w)[k] == sw(pt(w[k])));
    }
}
}
