//@ include elem.rs
verus! {
impl Point {
//@ fn Point::to_vec -> res
//@ as v_to_vec
//@ let res : Vec<R>
//@ oneidx self
//@ requires
    self.wf(),
//@ ensures
    res@.len() == self.n, forall|k: int| 0 <= k < self.n ==> (#[trigger] res@[k]).r() == self.c(k),
//@ loop 0
    len0 == self.n, self.wf(), res@.len() == k0, forall|k: int| 0 <= k < k0 ==> (#[trigger] res@[k]).r() == self.c(k),
//@ end
}
// ---- nodes of an element, and what an edge force gives
pub open spec fn len2(a: Point, b: Point) -> real { sq3(a.c(0) - b.c(0), a.c(1) - b.c(1), a.c(2) - b.c(2)) }
pub open spec fn is_len(l: real, a: Point, b: Point) -> bool { l >= 0real && l * l == len2(a, b) }
pub open spec fn seg_len(a: Point, b: Point) -> real { choose|l: real| is_len(l, a, b) }
pub proof fn lem_len(l: real, a: Point, b: Point)
    requires is_len(l, a, b),
    ensures seg_len(a, b) == l,
{ let m = seg_len(a, b); assert(is_len(m, a, b)); assert(m == l) by (nonlinear_arith) requires m >= 0real, l >= 0real, m * m == l * l; }
pub open spec fn natx(k: int, d: int) -> real { if k == 1 && d == 0 || k == 2 && d == 1 { 1real } else { 0real } }
// a point of an edge of the reference triangle, and the shape functions there
pub proof fn lem_edge(la: int, lb: int, x: real, p: Point, a: Point, b: Point)
    requires 0 <= la < 3, 0 <= lb < 3, la != lb, a.wf(), b.wf(), a.n == 2, b.n == 2, on_seg(p, a, b, x), a.c(0) == natx(la, 0), a.c(1) == natx(la, 1), b.c(0) == natx(lb, 0), b.c(1) == natx(lb, 1),
    ensures hs(p.c(0), p.c(1), la) == (1real - x) / 2real, hs(p.c(0), p.c(1), lb) == (1real + x) / 2real, forall|i: int| 0 <= i < 3 && i != la && i != lb ==> #[trigger] hs(p.c(0), p.c(1), i) == 0real,
        -1real <= x <= 1real ==> in_ref(p),
{
    lem_sgn(b.c(0), x); lem_sgn(b.c(1), x); lem_sgn(a.c(0), x); lem_sgn(a.c(1), x);
    assert(p.c(0) == (a.c(0) + b.c(0)) / 2real + b.c(0) * x / 2real - a.c(0) * x / 2real);
    assert(p.c(1) == (a.c(1) + b.c(1)) / 2real + b.c(1) * x / 2real - a.c(1) * x / 2real);
}
pub proof fn lem_nat_dist(la: int, lb: int, a: Point, b: Point)
    requires 0 <= la < 3, 0 <= lb < 3, la != lb, a.wf(), b.wf(), a.n == 2, b.n == 2, a.c(0) == natx(la, 0), a.c(1) == natx(la, 1), b.c(0) == natx(lb, 0), b.c(1) == natx(lb, 1),
    ensures sq3(a.c(0) - b.c(0), a.c(1) - b.c(1), a.c(2) - b.c(2)) > 0real,
{
    reveal(sq3); let (x, y, z) = (a.c(0) - b.c(0), a.c(1) - b.c(1), a.c(2) - b.c(2));
    assert(z == 0real); assert(x != 0real || y != 0real);
    assert(x * x >= 0real && y * y >= 0real && (x != 0real ==> x * x > 0real) && (y != 0real ==> y * y > 0real) && z * z >= 0real) by (nonlinear_arith);
}
// the two samples of an edge, scaled to its length
pub proof fn lem_edge_val(s: real, h: real, f: real, l: real, nl: real, v: real, w: real)
    requires v == (s * f) * h, nl == 2real * h, h > 0real, w == v * (l / nl),
    ensures w == (s * f) * l / 2real,
{
    let u = s * f; let q = l / nl; assert(q * nl == l) by (nonlinear_arith) requires q == l / nl, nl > 0real;
    assert(w == (u * h) * q); assert((u * h) * q == u * (h * q)) by (nonlinear_arith); assert(nl * q == 2real * (h * q)) by (nonlinear_arith) requires nl == 2real * h;
    assert(q * nl == nl * q) by (nonlinear_arith); let e = h * q; assert(e == l / 2real); assert(u * e == u * l / 2real) by (nonlinear_arith) requires e == l / 2real;
}
impl Element {
    pub open spec fn conn(&self, a: NodeId, b: NodeId) -> bool { let (x, y, z) = (self.node_ids@[0], self.node_ids@[1], self.node_ids@[2]); x == a && y == b || y == a && x == b || y == a && z == b || z == a && y == b || x == a && z == b || z == a && x == b }
    pub open spec fn loc(&self, a: NodeId) -> int { if a == self.node_ids@[0] { 0 } else if a == self.node_ids@[1] { 1 } else if a == self.node_ids@[2] { 2 } else { 3 } }
    pub open spec fn ids_ok(&self) -> bool { self.node_ids@[0] != self.node_ids@[1] && self.node_ids@[1] != self.node_ids@[2] && self.node_ids@[0] != self.node_ids@[2] }
    pub open spec fn elen(&self, a: NodeId, b: NodeId) -> real { seg_len(self.node_points@[self.loc(a)], self.node_points@[self.loc(b)]) }
    // the load of an edge force at local degree of freedom t: half the total at each end
    pub open spec fn fl(&self, a: NodeId, b: NodeId, f: Point, t: int) -> real { if t / 2 == self.loc(a) || t / 2 == self.loc(b) { f.c(t % 2) * self.elen(a, b) / 2real } else { 0real } }
//@ fn Element::nodes_connect -> res
//@ ensures
    res == self.conn(a, b),
//@ loop 0
    len0 == 6, s0@.len() == 6, s0@[0] == (x, y), s0@[1] == (y, x), s0@[2] == (y, z), s0@[3] == (z, y), s0@[4] == (x, z), s0@[5] == (z, x),
    x == self.node_ids@[0] && y == self.node_ids@[1] && z == self.node_ids@[2],
    acc0 == exists|i: int| 0 <= i < k0 && #[trigger] s0@[i] == (a, b),
//@ tail
    proof { if self.conn(a, b) { assert(s0@[0] == (a, b) || s0@[1] == (a, b) || s0@[2] == (a, b) || s0@[3] == (a, b) || s0@[4] == (a, b) || s0@[5] == (a, b)); } }
//@ end
//@ fn Element::node_natural -> res
//@ ensures
    res is Some == (self.loc(a) < 3), res is Some ==> ({ let p = res->Some_0; p.wf() && p.n == 2 && p.c(0) == natx(self.loc(a), 0) && p.c(1) == natx(self.loc(a), 1) }),
//@ end
//@ fn Element::node -> res
//@ ensures
    res is Some == (self.loc(a) < 3), res is Some ==> res->Some_0 == self.node_points@[self.loc(a)],
//@ end
//@ fn Element::map_vec -> res
//@ let acc0 : Vec<(NodeDof, R)>
//@ requires
    v@.len() <= 6,
//@ ensures
    res@.len() == v@.len(), forall|t: int| 0 <= t < v@.len() ==> self.is_dof((#[trigger] res@[t]).0, t) && res@[t].1 == v@[t],
//@ loop 0
    len0 == v@.len(), v@.len() <= 6, acc0@.len() == k0, forall|t: int| 0 <= t < k0 ==> self.is_dof((#[trigger] acc0@[t]).0, t) && acc0@[t].1 == v@[t],
//@ end
//@ const Element::INT_ORDER
//@ fn Element::int_f_l -> res
//@ opt closures
//@ let acc0 : Vec<R>
//@ let closure nat_coor : |nat_coor: Point| -> (res: LinearMatrix) requires nat_coor.wf(), nat_coor.n == 2, self.condition.axi() ==> self.px(nat_coor.c(0), nat_coor.c(1)) != 0real ensures res.wf(), res.dims == (6usize, 1usize), forall|t: int| 0 <= t < 6 ==> #[trigger] res.at(t, 0) == hs(nat_coor.c(0), nat_coor.c(1), t / 2) * fp.c(t % 2)
//@ requires
    self.ok(), self.ids_ok(), f.wf(), f.n == 2,
//@ ensures
    res is Some == self.conn(edge.0, edge.1),
    res is Some ==> ({ let l = res->Some_0@; l.len() == 6 && forall|t: int| 0 <= t < 6 ==> self.is_dof((#[trigger] l[t]).0, t) && l[t].1.r() == self.fl(edge.0, edge.1, f, t) }),
//@ start
    let ghost fp = f; let ghost (la, lb) = (self.loc(edge.0), self.loc(edge.1));
//@ before let mut res
    proof {
        let func = integrand;
        assert(la < 3 && lb < 3 && la != lb);
        assert forall|p: Point, x: R| #![trigger func.requires((p,)), x.r()] on_seg(p, a, b, x.r()) && -1real <= x.r() <= 1real implies func.requires((p,)) by { lem_edge(la, lb, x.r(), p, a, b); self.lem_ref(); assert(in_ref(p)); }
        assert(seg_ok(func, a, b)); assert(shaped(func, (6usize, 1usize)));
    }
//@ before let nat_len
    let ghost res0 = res; let ghost (ms, hh) = choose|ms: Seq<LinearMatrix>, h: real| seg_rule(integrand, a, b, 2, ms, h, res);
    proof {
        let m0 = ms[0]; assert(seg_sample(integrand, a, b, gp(2, 0), m0)); let p0 = choose|p: Point| #[trigger] integrand.ensures((p,), m0) && on_seg(p, a, b, gp(2, 0)); assert(m0.dims == (6usize, 1usize)); assert(res.dims == (6usize, 1usize));
        assert forall|t: int| 0 <= t < 6 implies #[trigger] res.at(t, 0) == ((if t / 2 == la || t / 2 == lb { 1real } else { 0real }) * fp.c(t % 2)) * hh by {
            let i = t / 2; let f = fp.c(t % 2); let (m0, m1) = (ms[0], ms[1]); assert(inr(&res, t, 0));
            rs2(|i: int| gw(2, i) * ms[i].at(t, 0)); assert(res.at(t, 0) == gsum(2, ms, t, 0) * hh);
            assert(seg_sample(integrand, a, b, gp(2, 0), m0)); assert(seg_sample(integrand, a, b, gp(2, 1), m1));
            let p0 = choose|p: Point| #[trigger] integrand.ensures((p,), m0) && on_seg(p, a, b, gp(2, 0)); let p1 = choose|p: Point| #[trigger] integrand.ensures((p,), m1) && on_seg(p, a, b, gp(2, 1));
            lem_edge(la, lb, gp(2, 0), p0, a, b); lem_edge(la, lb, gp(2, 1), p1, a, b);
            let (h0, h1) = (hs(p0.c(0), p0.c(1), i), hs(p1.c(0), p1.c(1), i)); let s = if i == la || i == lb { 1real } else { 0real };
            assert(m0.at(t, 0) == h0 * f); assert(m1.at(t, 0) == h1 * f); assert(h0 + h1 == s);
            assert(gw(2, 0) == 1real && gw(2, 1) == 1real); lem_sgn(1real, m0.at(t, 0)); lem_sgn(1real, m1.at(t, 0));
            assert(gsum(2, ms, t, 0) == h0 * f + h1 * f); assert(h0 * f + h1 * f == s * f) by (nonlinear_arith) requires h0 + h1 == s;
        }
    }
//@ before res *=
    proof {
        lem_nat_dist(la, lb, a, b); let (n, q) = (nat_len.r(), sq3(a.c(0) - b.c(0), a.c(1) - b.c(1), a.c(2) - b.c(2))); 
        assert(n == 2real * hh && hh > 0real) by (nonlinear_arith) requires n >= 0real, hh >= 0real, n * n == q, 4real * (hh * hh) == q, q > 0real;
        assert(is_len(real_len.r(), a_real, b_real)); lem_len(real_len.r(), a_real, b_real);
    }
//@ after res *=
    let ghost res1 = res;
    proof {
        assert(res.dims == (6usize, 1usize)); assert(res.wf()); assert(fits(res.nr(), res.nc()));
        assert forall|t: int| 0 <= t < 6 implies #[trigger] res.at(t, 0) == self.fl(edge.0, edge.1, fp, t) by {
            let s = if t / 2 == la || t / 2 == lb { 1real } else { 0real }; assert(inr(&res0, t, 0)); assert(inr(&res, t, 0)); let f = fp.c(t % 2); let l = real_len.r();
            assert(res.at(t, 0) == res0.at(t, 0) * (l / nat_len.r()));
            lem_edge_val(s, hh, f, l, nat_len.r(), res0.at(t, 0), res.at(t, 0)); lem_sgn(s, f); lem_sgn(0real, l); lem_sgn(s, l);
        }
    }
//@ loop 0
    n1 == 6, res.wf(), res.dims == (6usize, 1usize), res == res1, acc0@.len() == k0, forall|t: int| 0 <= t < k0 ==> (#[trigger] acc0@[t]).r() == res1.at(t, 0),
//@ before h.mul(
    let ghost (gr, gs) = (nat_coor.c(0), nat_coor.c(1));
    proof {
        assert forall|t: int| 0 <= t < 6 implies #[trigger] mat_dot(&h, &f, t, 0) == hs(gr, gs, t / 2) * fp.c(t % 2) by {
            rs2(|d: int| h.at(t, d) * f.at(d, 0)); assert(inr(&h, t, 0) && inr(&h, t, 1) && inr(&f, 0, 0) && inr(&f, 1, 0));
            assert(h.at(t, 0) == hq(gr, gs, 0, t) && h.at(t, 1) == hq(gr, gs, 1, t));
            lem_sgn(hq(gr, gs, 0, t), fp.c(0)); lem_sgn(hq(gr, gs, 1, t), fp.c(1));
        }
    }
//@ end
}
}
