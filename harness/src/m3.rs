// C19 - C25: elements, assembly, quadrature, stress, geometry, drawing
use crate::common::*;
use crate::ensure;
use bugi::element::element::Element;
use bugi::element::integrate::*;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::stress::{StressState, StressType};
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeDof, NodeId};
use bugi::matrix::*;
use bugi::visual::color::{hot_map, rgb_map};
use std::panic::AssertUnwindSafe;

type P2 = (f64, f64);

fn rand_tri(rng: &mut Rng, axi: bool) -> [P2; 3] {
    loop {
        let mut p = || {
            (
                rng.int(if axi { 1 } else { -8 }, 8) as f64 + rng.int(0, 3) as f64 / 4.0,
                rng.int(-8, 8) as f64 + rng.int(0, 3) as f64 / 4.0,
            )
        };
        let t = [p(), p(), p()];
        let a = area2(&t);
        if a.abs() > 0.9 {
            return t;
        }
    }
}
fn area2(t: &[P2; 3]) -> f64 {
    (t[1].0 - t[0].0) * (t[2].1 - t[0].1) - (t[2].0 - t[0].0) * (t[1].1 - t[0].1)
}
fn rand_mat(rng: &mut Rng) -> Material {
    Material {
        name: "TEST",
        youngs: rng.range(1, 40) as f64 / 4.0,
        poisson: rng.below(8) as f64 / 20.0,
        density: rng.range(1, 20) as f64 / 4.0,
    }
}
fn rand_cond(rng: &mut Rng) -> Condition {
    match rng.below(3) {
        0 => Condition::PlaneStress(rng.range(1, 9) as f64 / 4.0),
        1 => Condition::PlaneStrain(rng.range(1, 9) as f64 / 4.0),
        _ => Condition::Axisymmetric,
    }
}
// constitutive law, from the flexibility relations
fn c_law(cond: &Condition, m: &Material) -> M {
    let (e, v) = (m.youngs, m.poisson);
    let g = e / (2.0 * (1.0 + v));
    match cond {
        Condition::PlaneStress(_) => {
            let k = e / (1.0 - v * v);
            vec![vec![k, k * v, 0.0], vec![k * v, k, 0.0], vec![0.0, 0.0, g]]
        }
        Condition::PlaneStrain(_) => {
            let la = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
            vec![vec![la + 2.0 * g, la, 0.0], vec![la, la + 2.0 * g, 0.0], vec![0.0, 0.0, g]]
        }
        Condition::Axisymmetric => {
            let la = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
            let d = la + 2.0 * g;
            vec![
                vec![d, la, 0.0, la],
                vec![la, d, 0.0, la],
                vec![0.0, 0.0, g, 0.0],
                vec![la, la, 0.0, d],
            ]
        }
    }
}
fn grads(t: &[P2; 3]) -> [P2; 3] {
    let a = area2(t);
    let g = |i: usize, j: usize| ((t[i].1 - t[j].1) / a, (t[j].0 - t[i].0) / a);
    [g(1, 2), g(2, 0), g(0, 1)]
}
fn b_at(cond: &Condition, t: &[P2; 3], h: [f64; 3]) -> M {
    let g = grads(t);
    let axi = matches!(cond, Condition::Axisymmetric);
    let mut b = zeros(if axi { 4 } else { 3 }, 6);
    let r: f64 = (0..3).map(|i| h[i] * t[i].0).sum();
    for i in 0..3 {
        b[0][2 * i] = g[i].0;
        b[1][2 * i + 1] = g[i].1;
        b[2][2 * i] = g[i].1;
        b[2][2 * i + 1] = g[i].0;
        if axi {
            b[3][2 * i] = h[i] / r;
        }
    }
    b
}
const TRI: [[f64; 3]; 3] = [
    [4.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0],
    [1.0 / 6.0, 4.0 / 6.0, 1.0 / 6.0],
    [1.0 / 6.0, 1.0 / 6.0, 4.0 / 6.0],
];
fn thick(cond: &Condition, t: &[P2; 3], h: [f64; 3]) -> f64 {
    match cond {
        Condition::PlaneStress(x) | Condition::PlaneStrain(x) => *x,
        Condition::Axisymmetric => (0..3).map(|i| h[i] * t[i].0).sum(),
    }
}
fn k_ref(cond: &Condition, m: &Material, t: &[P2; 3]) -> M {
    let c = c_law(cond, m);
    let mut k = zeros(6, 6);
    for h in TRI {
        let b = b_at(cond, t, h);
        let n = b.len();
        let cb = mulm(&c, &b, n, 6);
        let btcb = mulm(&transp(&b, n, 6), &cb, n, 6);
        let w = thick(cond, t, h) * area2(t).abs() / 6.0;
        for i in 0..6 {
            for j in 0..6 {
                k[i][j] += w * btcb[i][j];
            }
        }
    }
    k
}
fn m_ref(cond: &Condition, m: &Material, t: &[P2; 3]) -> M {
    let mut k = zeros(6, 6);
    for h in TRI {
        let w = m.density * thick(cond, t, h) * area2(t).abs() / 6.0;
        for i in 0..3 {
            for j in 0..3 {
                for d in 0..2 {
                    k[2 * i + d][2 * j + d] += w * h[i] * h[j];
                }
            }
        }
    }
    k
}
#[cfg(feature = "hooks")]
fn dof(n: NodeDof) -> usize {
    bugi::element::verif::dof(n)
}
#[cfg(not(feature = "hooks"))]
fn dof(n: NodeDof) -> usize {
    // NodeDof(NodeId(i), d) prints its numbers in that order
    let s = format!("{:?}", n);
    let v: Vec<usize> = s
        .split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect();
    v[0] * 2 + v[1]
}
fn labelled(v: Vec<(NodeDof, NodeDof, f64)>, ids: &[usize; 3]) -> Result<M, String> {
    let mut k = zeros(6, 6);
    let mut seen = vec![vec![false; 6]; 6];
    ensure!(v.len() == 36, "{} coefficients", v.len());
    let loc = |d: usize| ids.iter().position(|&i| i == d / 2).map(|p| 2 * p + d % 2);
    for (a, b, x) in v {
        match (loc(dof(a)), loc(dof(b))) {
            (Some(i), Some(j)) => {
                ensure!(!seen[i][j], "position {:?} labelled twice", (i, j));
                seen[i][j] = true;
                k[i][j] = x;
            }
            _ => return Err(format!("coefficient labelled {:?} {:?}", a, b)),
        }
    }
    Ok(k)
}
fn mclose(a: &M, b: &M) -> bool {
    vclose(&flat(a), &flat(b), 1e-9)
}

pub fn c19(cx: &mut Ctx) {
    for _ in 0..cx.reps(800) {
        let cond = rand_cond(&mut cx.rng);
        let mat = rand_mat(&mut cx.rng);
        let t = rand_tri(&mut cx.rng, matches!(cond, Condition::Axisymmetric));
        // scatter the element among other nodes
        let n = cx.rng.range(3, 7);
        let p = cx.rng.perm(n);
        let ids = [p[0], p[1], p[2]];
        cx.case("element", || format!("{:?} {:?} nodes {:?} as node ids {:?}", cond, mat, t, ids), || {
            let mut nodes = vec![(100.0, 50.0); n];
            for i in 0..3 {
                nodes[ids[i]] = t[i];
            }
            let mut e = ElementAssemblage::new(mat, cond);
            let nid = e.add_nodes(&nodes);
            let el = Element::new(&e, [nid[ids[0]], nid[ids[1]], nid[ids[2]]]);
            let k = labelled(el.calc_k(), &ids)?;
            let kr = k_ref(&cond, &mat, &t);
            ensure!(mclose(&k, &kr), "stiffness {:?}, expected {:?}", k, kr);
            ensure!(mclose(&k, &transp(&k, 6, 6)), "stiffness not symmetric");
            let axi = matches!(cond, Condition::Axisymmetric);
            for d in 0..2 {
                if axi && d == 0 {
                    continue;
                }
                let u: Vec<f64> = (0..6).map(|i| if i % 2 == d { 1.0 } else { 0.0 }).collect();
                let f = mulv(&k, &u);
                let s = flat(&k).iter().fold(0.0f64, |a, x| a.max(x.abs()));
                ensure!(f.iter().all(|x| x.abs() <= 1e-9 * s), "translation {} gives forces {:?}", d, f);
            }
            let m = labelled(el.calc_m(), &ids)?;
            let mr = m_ref(&cond, &mat, &t);
            ensure!(mclose(&m, &mr), "mass {:?}, expected {:?}", m, mr);
            // the element is accepted by an assemblage and stays as it is
            let r = el.jacobian_ratio();
            ensure!((r - 1.0).abs() < 1e-9, "jacobian ratio {}", r);
            Ok(())
        });
    }
}

// structured grid of triangles with random diagonals and orientations
fn mesh(rng: &mut Rng, axi: bool) -> (Vec<P2>, Vec<[usize; 3]>) {
    let (nx, ny) = (rng.range(1, 3), rng.range(1, 3));
    let mut pts = vec![];
    for y in 0..=ny {
        for x in 0..=nx {
            let jitter = rng.int(-1, 1) as f64 / 8.0;
            pts.push((x as f64 * 1.5 + jitter + if axi { 2.0 } else { -1.0 }, y as f64 + rng.int(-1, 1) as f64 / 8.0));
        }
    }
    let extra = rng.below(2);
    for _ in 0..extra {
        pts.push((50.0, 50.0));
    }
    let perm = rng.perm(pts.len());
    let mut q = vec![(0.0, 0.0); pts.len()];
    for i in 0..pts.len() {
        q[perm[i]] = pts[i];
    }
    let mut els = vec![];
    for y in 0..ny {
        for x in 0..nx {
            let id = |i: usize, j: usize| perm[(y + j) * (nx + 1) + x + i];
            let (a, b, c, d) = (id(0, 0), id(1, 0), id(1, 1), id(0, 1));
            let two = if rng.bool() { [[a, b, c], [a, c, d]] } else { [[a, b, d], [b, c, d]] };
            for mut t in two {
                rng.shuffle(&mut t);
                els.push(t);
            }
        }
    }
    if els.len() > 2 && rng.chance(1, 3) {
        els.remove(0);
    }
    rng.shuffle(&mut els);
    (q, els)
}
fn tri_of(pts: &[P2], t: &[usize; 3]) -> [P2; 3] {
    [pts[t[0]], pts[t[1]], pts[t[2]]]
}
fn build(pts: &[P2], els: &[[usize; 3]], mat: Material, cond: Condition) -> ElementAssemblage {
    let mut e = ElementAssemblage::new(mat, cond);
    let ids = e.add_nodes(pts);
    for t in els {
        e.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    e
}
fn add_loc(g: &mut M, t: &[usize; 3], k: &M) {
    for i in 0..6 {
        for j in 0..6 {
            g[2 * t[i / 2] + i % 2][2 * t[j / 2] + j % 2] += k[i][j];
        }
    }
}

pub fn c20(cx: &mut Ctx) {
    for _ in 0..cx.reps(150) {
        let cond = rand_cond(&mut cx.rng);
        let mat = rand_mat(&mut cx.rng);
        let (pts, els) = mesh(&mut cx.rng, matches!(cond, Condition::Axisymmetric));
        let n = pts.len();
        // forces: some nodes, some element edges, in either direction
        let mut conc: Vec<(usize, P2)> = vec![];
        for i in 0..n {
            if cx.rng.chance(1, 3) {
                conc.push((i, (cx.rng.val(), cx.rng.val())));
            }
        }
        let mut edges: Vec<(usize, usize)> = vec![];
        for t in &els {
            for (a, b) in [(t[0], t[1]), (t[1], t[2]), (t[0], t[2])] {
                let e = (a.min(b), a.max(b));
                if !edges.contains(&e) {
                    edges.push(e);
                }
            }
        }
        cx.rng.shuffle(&mut edges);
        let ne = cx.rng.below(edges.len() + 1);
        let mut dist: Vec<((usize, usize), P2)> = vec![];
        for &(a, b) in &edges[..ne] {
            let e = if cx.rng.bool() { (a, b) } else { (b, a) };
            dist.push((e, (cx.rng.val(), cx.rng.val())));
        }
        let desc = format!("{:?} {:?} nodes {:?} elements {:?} node forces {:?} edge forces {:?}", cond, mat, pts, els, conc, dist);
        cx.case("assembly", || desc, || {
            let mut e = build(&pts, &els, mat, cond);
            let ids: Vec<NodeId> = (0..n).map(NodeId::new).collect();
            for &(i, f) in &conc {
                e.add_conc_force(ids[i], f.into());
            }
            for &((a, b), f) in &dist {
                e.add_dist_line_force(ids[a], ids[b], f.into());
            }
            #[cfg(feature = "hooks")]
            {
                let mut kr = zeros(2 * n, 2 * n);
                let mut mr = zeros(2 * n, 2 * n);
                for t in &els {
                    add_loc(&mut kr, t, &k_ref(&cond, &mat, &tri_of(&pts, t)));
                    add_loc(&mut mr, t, &m_ref(&cond, &mat, &tri_of(&pts, t)));
                }
                let read = |d: &Dictionary| -> M {
                    (0..2 * n).map(|i| (0..2 * n).map(|j| d[(i, j)]).collect()).collect()
                };
                let k = bugi::element::verif::calc_k(&e);
                ensure!(k.shape() == (2 * n, 2 * n), "stiffness shape {:?}", k.shape());
                ensure!(mclose(&read(&k), &kr), "global stiffness {:?}, expected {:?}", read(&k), kr);
                let m = bugi::element::verif::calc_m(&e);
                ensure!(mclose(&read(&m), &mr), "global mass {:?}, expected {:?}", read(&m), mr);
                let mut r = vec![0.0; 2 * n];
                for &(i, f) in &conc {
                    r[2 * i] += f.0;
                    r[2 * i + 1] += f.1;
                }
                for &((a, b), f) in &dist {
                    let l = ((pts[a].0 - pts[b].0).powi(2) + (pts[a].1 - pts[b].1).powi(2)).sqrt();
                    for x in [a, b] {
                        r[2 * x] += f.0 * l / 2.0;
                        r[2 * x + 1] += f.1 * l / 2.0;
                    }
                }
                let got = bugi::element::verif::calc_load(&e);
                ensure!(vclose(&got, &r, 1e-9), "global load {:?}, expected {:?}", got, r);
                // unconstrained results come back node by node
                let raw: Vec<f64> = (0..2 * n).map(|i| i as f64 + 0.5).collect();
                let d = bugi::element::verif::raw_to_node_disp(&e, &raw);
                ensure!(d.len() == n, "{} node displacements", d.len());
                for i in 0..n {
                    ensure!(d[i][0] == raw[2 * i] && d[i][1] == raw[2 * i + 1], "node {} displaced {:?}", i, d[i]);
                }
            }
            // edge forces element by element
            for t in &els {
                let el = Element::new(&e, [ids[t[0]], ids[t[1]], ids[t[2]]]);
                for a in 0..n {
                    for b in 0..n {
                        let conn = a != b && t.contains(&a) && t.contains(&b);
                        ensure!(el.nodes_connect(ids[a], ids[b]) == conn, "nodes_connect({},{}) of {:?}", a, b, t);
                        let f: P2 = (3.0, -5.0);
                        let r = el.int_f_l((ids[a], ids[b]), f.into());
                        ensure!(r.is_some() == conn, "edge force on {:?} of {:?}", (a, b), t);
                        if let Some(v) = r {
                            let mut g = vec![0.0; 2 * n];
                            for (d, x) in v {
                                g[dof(d)] += x;
                            }
                            let l = ((pts[a].0 - pts[b].0).powi(2) + (pts[a].1 - pts[b].1).powi(2)).sqrt();
                            let mut w = vec![0.0; 2 * n];
                            for x in [a, b] {
                                w[2 * x] += f.0 * l / 2.0;
                                w[2 * x + 1] += f.1 * l / 2.0;
                            }
                            ensure!(vclose(&g, &w, 1e-9), "edge {:?} of {:?}: {:?}, expected {:?}", (a, b), t, g, w);
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

pub fn c21(cx: &mut Ctx) {
    // exact integrals of r^a s^b over the reference triangle: a! b! / (a + b + 2)!
    fn fact(n: usize) -> f64 {
        (1..=n).map(|x| x as f64).product()
    }
    for a in 0..=2usize {
        for b in 0..=(2 - a) {
            cx.case("triangle monomial", || format!("r^{} s^{}", a, b), || {
                let v: f64 = gauss_tri(|p| p[0].powi(a as i32) * p[1].powi(b as i32));
                let e = fact(a) * fact(b) / fact(a + b + 2);
                ensure!((v - e).abs() < 1e-12, "{}, expected {}", v, e);
                Ok(())
            });
        }
    }
    for _ in 0..cx.reps(200) {
        let k: Vec<f64> = (0..6).map(|_| cx.rng.val()).collect();
        cx.case("triangle polynomial", || format!("coefficients of 1 r s r2 rs s2: {:?}", k), || {
            let v: f64 = gauss_tri(|p| {
                let (r, s) = (p[0], p[1]);
                k[0] + k[1] * r + k[2] * s + k[3] * r * r + k[4] * r * s + k[5] * s * s
            });
            let e = k[0] / 2.0 + k[1] / 6.0 + k[2] / 6.0 + k[3] / 12.0 + k[4] / 24.0 + k[5] / 12.0;
            ensure!(close(v, e, 1e-11), "{}, expected {}", v, e);
            Ok(())
        });
    }
    for _ in 0..cx.reps(400) {
        let order = cx.rng.range(1, 4);
        let p: P2 = (cx.rng.int(-6, 6) as f64 / 2.0, cx.rng.int(-6, 6) as f64 / 2.0);
        let q: P2 = (cx.rng.int(-6, 6) as f64 / 2.0, cx.rng.int(-6, 6) as f64 / 2.0);
        let deg = cx.rng.below(2 * order);
        let (r, c) = (cx.rng.range(1, 3), cx.rng.range(1, 3));
        // polynomials in t in [0, 1] along the segment
        let co: Vec<Vec<f64>> = (0..r * c).map(|_| (0..=deg).map(|_| cx.rng.val()).collect()).collect();
        cx.case(
            "segment",
            || format!("order {} from {:?} to {:?}, {}x{} polynomials {:?}", order, p, q, r, c, co),
            || {
                let d = (q.0 - p.0, q.1 - p.1);
                let l2 = d.0 * d.0 + d.1 * d.1;
                let outside = std::cell::RefCell::new(None);
                let got = gauss_segment_mat(
                    |x| {
                        let t = if l2 == 0.0 { 0.0 } else { ((x[0] - p.0) * d.0 + (x[1] - p.1) * d.1) / l2 };
                        let off = (x[0] - p.0 - t * d.0).abs() + (x[1] - p.1 - t * d.1).abs();
                        if !(t >= -1e-12 && t <= 1.0 + 1e-12 && off < 1e-9) {
                            *outside.borrow_mut() = Some((x[0], x[1]));
                        }
                        let v: Vec<f64> = co.iter().map(|k| k.iter().rev().fold(0.0, |a, b| a * t + b)).collect();
                        LinearMatrix::from_flat((r, c), v)
                    },
                    p.into(),
                    q.into(),
                    order,
                );
                if let Some(o) = *outside.borrow() {
                    return Err(format!("sampled {:?}, outside the segment", o));
                }
                for i in 0..r {
                    for j in 0..c {
                        let k = &co[i * c + j];
                        let e: f64 = l2.sqrt() * k.iter().enumerate().map(|(n, x)| x / (n as f64 + 1.0)).sum::<f64>();
                        let s: f64 = l2.sqrt() * k.iter().map(|x| x.abs()).sum::<f64>();
                        let g = got[(i, j)];
                        ensure!((g - e).abs() <= 1e-11 * (1.0 + s), "({},{}) = {}, expected {}", i, j, g, e);
                    }
                }
                Ok(())
            },
        );
    }
}

fn vm_ref(ty: StressType, d: &[f64]) -> f64 {
    // from the full tensor: sqrt(3/2 s:s)
    let mut t = [[0.0; 3]; 3];
    match ty {
        StressType::Bar => t[0][0] = d[0],
        StressType::Plane | StressType::AxiSym => {
            t[0][0] = d[0];
            t[1][1] = d[1];
            t[0][1] = d[2];
            t[1][0] = d[2];
            if let StressType::AxiSym = ty {
                t[2][2] = d[3];
            }
        }
        StressType::ThreeD => {
            for i in 0..3 {
                t[i][i] = d[i];
            }
            for (i, j, k) in [(0, 1, 3), (1, 2, 4), (0, 2, 5)] {
                t[i][j] = d[k];
                t[j][i] = d[k];
            }
        }
    }
    let m = (t[0][0] + t[1][1] + t[2][2]) / 3.0;
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let x = t[i][j] - if i == j { m } else { 0.0 };
            s += x * x;
        }
    }
    (1.5 * s).sqrt()
}
fn sdata(s: &StressState) -> Vec<f64> {
    // the components in the order of the vector, read back through the debug print if need be
    #[cfg(feature = "hooks")]
    {
        bugi::element::stress::verif::data(s).to_vec()
    }
    #[cfg(not(feature = "hooks"))]
    {
        let t = format!("{:?}", s);
        let i = t.find('[').unwrap();
        let j = t.find(']').unwrap();
        t[i + 1..j].split(',').map(|x| x.trim().parse().unwrap()).collect()
    }
}
fn types(n: usize) -> Option<StressType> {
    match n {
        1 => Some(StressType::Bar),
        3 => Some(StressType::Plane),
        4 => Some(StressType::AxiSym),
        6 => Some(StressType::ThreeD),
        _ => None,
    }
}

pub fn c22(cx: &mut Ctx) {
    for len in 1..9usize {
        for row in [true, false] {
            cx.case("vector length", || format!("{} values as row: {}", len, row), || {
                let v: Vec<f64> = (0..len).map(|x| x as f64 + 1.0).collect();
                let sh = if row { (1, len) } else { (len, 1) };
                let p = panics(|| StressState::from_vector(LinearMatrix::from_flat(sh, v.clone())));
                ensure!(p == types(len).is_none(), "refused: {}", p);
                Ok(())
            });
        }
    }
    cx.case("matrix", || "2x3".into(), || {
        ensure!(panics(|| StressState::from_vector(LinearMatrix::zeros((2, 3)))), "accepted");
        ensure!(panics(|| StressState::from_vector(LinearMatrix::zeros((2, 2)))), "accepted");
        Ok(())
    });
    for _ in 0..cx.reps(600) {
        let n = *[1usize, 3, 4, 6].get(cx.rng.below(4)).unwrap();
        let v: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let w: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let k = cx.rng.nz();
        let row = cx.rng.bool();
        cx.case("state", || format!("{:?}, {:?}, factor {} row: {}", v, w, k, row), || {
            let mk = |v: &[f64]| {
                let sh = if row { (1, n) } else { (n, 1) };
                StressState::from_vector(LinearMatrix::from_flat(sh, v.to_vec()))
            };
            let s = mk(&v);
            let ty = types(n).unwrap();
            ensure!(s.state_type == ty, "type {:?}", s.state_type);
            let d = sdata(&s);
            ensure!(d[..n] == v[..] && d[n..].iter().all(|&x| x == 0.0), "components {:?}", d);
            let vm = s.von_mises();
            let e = vm_ref(ty, &v);
            ensure!(close(vm, e, 1e-9) && vm >= 0.0, "von mises {}, expected {}", vm, e);
            let neg: Vec<f64> = v.iter().map(|x| -x).collect();
            ensure!(close(mk(&neg).von_mises(), vm, 1e-12), "von mises changes with sign");
            ensure!(close((s.clone() * k).von_mises(), vm * k.abs(), 1e-9), "von mises does not scale");
            if n != 4 {
                let c = s.to_cauchy();
                let dim = match n {
                    1 => 1,
                    3 => 2,
                    _ => 3,
                };
                let mut t = zeros(dim, dim);
                match n {
                    1 => t[0][0] = v[0],
                    3 => t = vec![vec![v[0], v[2]], vec![v[2], v[1]]],
                    _ => t = vec![vec![v[0], v[3], v[5]], vec![v[3], v[1], v[4]], vec![v[5], v[4], v[2]]],
                }
                same(&c, &t, dim, dim, 0.0)?;
            }
            let sum = s.clone() + mk(&w);
            ensure!(sum.state_type == ty, "sum type");
            let e: Vec<f64> = (0..6).map(|i| if i < n { v[i] + w[i] } else { 0.0 }).collect();
            ensure!(sdata(&sum) == e, "sum {:?}", sdata(&sum));
            let e: Vec<f64> = (0..6).map(|i| if i < n { v[i] * k } else { 0.0 }).collect();
            ensure!(sdata(&(s.clone() * k)) == e, "product {:?}", sdata(&(s.clone() * k)));
            let e: Vec<f64> = (0..6).map(|i| if i < n { v[i] / k } else { 0.0 }).collect();
            ensure!(sdata(&(s.clone() / k)) == e, "quotient {:?}", sdata(&(s.clone() / k)));
            for m in [1usize, 3, 4, 6] {
                if m != n {
                    let o = StressState::from_vector(LinearMatrix::from_flat((1, m), vec![1.0; m]));
                    let (a, b) = (s.clone(), o.clone());
                    ensure!(panics(AssertUnwindSafe(move || a + b)), "mixed types {} and {} added", n, m);
                }
            }
            Ok(())
        });
    }
    #[cfg(feature = "hooks")]
    for _ in 0..cx.reps(120) {
        let cond = rand_cond(&mut cx.rng);
        let mat = rand_mat(&mut cx.rng);
        let (pts, els) = mesh(&mut cx.rng, matches!(cond, Condition::Axisymmetric));
        let n = pts.len();
        let u: Vec<P2> = (0..n).map(|_| (cx.rng.val(), cx.rng.val())).collect();
        let desc = format!("{:?} {:?} nodes {:?} elements {:?} displacements {:?}", cond, mat, pts, els, u);
        cx.case("node stresses", || desc, || {
            let e = build(&pts, &els, mat, cond);
            let d = bugi::element::verif::deformation(&e, u.iter().map(|&x| x.into()).collect());
            let st = d.stresses();
            let vm = d.von_mises();
            ensure!(st.len() == n && vm.len() == n, "{} stresses for {} nodes", st.len(), n);
            for i in 0..n {
                let mut sum = vec![0.0; 6];
                let mut cnt = 0.0;
                for t in &els {
                    if let Some(k) = t.iter().position(|&x| x == i) {
                        let mut h = [0.0; 3];
                        h[k] = 1.0;
                        let b = b_at(&cond, &tri_of(&pts, t), h);
                        let ul: Vec<f64> = t.iter().flat_map(|&j| vec![u[j].0, u[j].1]).collect();
                        let s = mulv(&c_law(&cond, &mat), &mulv(&b, &ul));
                        for (x, y) in sum.iter_mut().zip(&s) {
                            *x += y;
                        }
                        cnt += 1.0;
                    }
                }
                match &st[i] {
                    None => ensure!(cnt == 0.0 && vm[i] == 0.0, "node {} reports no stress", i),
                    Some(s) => {
                        ensure!(cnt > 0.0, "node {} without elements reports {:?}", i, s);
                        let e: Vec<f64> = sum.iter().map(|x| x / cnt).collect();
                        ensure!(vclose(&sdata(s), &e, 1e-8), "node {}: {:?}, expected {:?}", i, s, e);
                        let m = vm_ref(s.state_type, &e);
                        ensure!(close(vm[i], m, 1e-7), "node {}: von mises {}, expected {}", i, vm[i], m);
                    }
                }
            }
            Ok(())
        });
    }
}

#[cfg(not(feature = "hooks"))]
pub fn c23(_: &mut Ctx) {}
#[cfg(not(feature = "hooks"))]
pub fn c24(_: &mut Ctx) {}

#[cfg(feature = "hooks")]
fn idet(m: &[Vec<i128>]) -> i128 {
    let n = m.len();
    if n == 1 {
        return m[0][0];
    }
    (0..n)
        .map(|c| {
            let minor: Vec<Vec<i128>> = m[1..]
                .iter()
                .map(|r| r.iter().enumerate().filter(|x| x.0 != c).map(|x| *x.1).collect())
                .collect();
            m[0][c] * idet(&minor) * if c % 2 == 0 { 1 } else { -1 }
        })
        .sum()
}

#[cfg(feature = "hooks")]
pub fn c23(cx: &mut Ctx) {
    use bugi::verif::predicates::*;
    use bugi::verif::Point;
    use std::convert::{TryFrom, TryInto};
    for _ in 0..cx.reps(400) {
        let n = cx.rng.range(1, 3);
        let a: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let b: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let k = cx.rng.val();
        cx.case("point", || format!("{:?} {:?} {}", a, b, k), || {
            let p = Point::new(&a);
            let q = Point::new(&b);
            let is = |p: Point, e: Vec<f64>| -> Result<(), String> {
                ensure!(p.dim() == n, "dimension {}", p.dim());
                ensure!(p.to_vec() == e, "coordinates {:?}, expected {:?}", p, e);
                let v: Vec<f64> = p.into();
                ensure!(v == e, "as a list {:?}", v);
                for i in 0..n {
                    ensure!(p[i] == e[i], "[{}] = {}", i, p[i]);
                }
                for i in n..5 {
                    ensure!(panics(|| p[i]), "index {} answered", i);
                    let mut m = p;
                    ensure!(panics(AssertUnwindSafe(|| m[i] = 1.0)), "mutable index {} answered", i);
                }
                Ok(())
            };
            is(p, a.clone())?;
            is(Point::try_from(a.clone()).unwrap(), a.clone())?;
            let f = |g: &dyn Fn(f64, f64) -> f64| (0..n).map(|i| g(a[i], b[i])).collect::<Vec<f64>>();
            is(p + q, f(&|x, y| x + y))?;
            is(p - q, f(&|x, y| x - y))?;
            is(p * k, f(&|x, _| x * k))?;
            is(p.mid(q), f(&|x, y| (x + y) / 2.0))?;
            is(Point::zero(n), vec![0.0; n])?;
            let mut m = p;
            m[n - 1] = 77.0;
            let mut e = a.clone();
            e[n - 1] = 77.0;
            is(m, e)?;
            let dot: f64 = f(&|x, y| x * y).iter().sum();
            ensure!(p.dot(q) == dot, "dot {}", p.dot(q));
            let d: f64 = f(&|x, y| (x - y) * (x - y)).iter().sum::<f64>().sqrt();
            ensure!(close(p.dist(q), d, 1e-12), "dist {}", p.dist(q));
            let nn: f64 = a.iter().map(|x| x * x).sum::<f64>().sqrt();
            ensure!(close(p.norm(), nn, 1e-12), "norm {}", p.norm());
            ensure!((p == q) == (a == b), "equality");
            let o = n % 3 + 1;
            let other = Point::new(&vec![1.0; o]);
            ensure!(panics(|| p + other) && panics(|| p - other), "dimensions {} and {} combined", n, o);
            let r1: Result<f64, _> = p.try_into();
            let r2: Result<(f64, f64), _> = p.try_into();
            let r3: Result<(f64, f64, f64), _> = p.try_into();
            ensure!(r1.is_ok() == (n == 1) && r2.is_ok() == (n == 2) && r3.is_ok() == (n == 3), "conversion");
            match n {
                1 => {
                    is(a[0].into(), a.clone())?;
                    ensure!(r1.unwrap() == a[0], "conversion");
                }
                2 => {
                    is((a[0], a[1]).into(), a.clone())?;
                    ensure!(r2.unwrap() == (a[0], a[1]), "conversion");
                }
                _ => {
                    is((a[0], a[1], a[2]).into(), a.clone())?;
                    ensure!(r3.unwrap() == (a[0], a[1], a[2]), "conversion");
                }
            }
            Ok(())
        });
    }
    cx.case("dimensions", || "0, 4 and 5 coordinates".into(), || {
        for n in [0usize, 4, 5] {
            ensure!(Point::try_from(vec![1.0; n]).is_err(), "{} coordinates accepted", n);
        }
        ensure!(panics(|| Point::new(&[1.0; 4])), "4 coordinates accepted");
        let p: Point = (3u32, 5u32).into();
        ensure!(p.dim() == 2 && p[0] == 3.0 && p[1] == 5.0, "from u32 pair {:?}", p);
        Ok(())
    });
    type I2 = (i64, i64);
    fn pt(p: I2) -> Point {
        (p.0 as f64, p.1 as f64).into()
    }
    fn orient(a: I2, b: I2, c: I2) -> i64 {
        (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
    }
    for _ in 0..cx.reps(3000) {
        let s = if cx.rng.bool() { 6 } else { 40 };
        let mut g = || (cx.rng.int(-s, s), cx.rng.int(-s, s));
        let (a, b, c, p) = (g(), g(), g(), g());
        let tri = (pt(a), pt(b), pt(c));
        let o = orient(a, b, c);
        cx.case("triangle", || format!("{:?} {:?} {:?} point {:?}", a, b, c, p), || {
            if o == 0 {
                ensure!(circumcenter(tri).is_none(), "circumcentre of a degenerate triangle");
                return Ok(());
            }
            let (u, v, w) = bary_coor(pt(p), tri);
            let e = (orient(p, b, c), orient(a, p, c), orient(a, b, p));
            let of = o as f64;
            ensure!(
                close(u, e.0 as f64 / of, 1e-9) && close(v, e.1 as f64 / of, 1e-9) && close(w, e.2 as f64 / of, 1e-9),
                "barycentric {:?}", (u, v, w)
            );
            let sg = o.signum();
            let (x, y, z) = (e.0 * sg, e.1 * sg, e.2 * sg);
            if x != 0 && y != 0 && z != 0 {
                let inside = x > 0 && y > 0 && z > 0;
                ensure!(in_triangle(pt(p), tri) == inside, "in_triangle is {}", !inside);
            }
            match circumcenter(tri) {
                None => return Err("no circumcentre".into()),
                Some(q) => {
                    let (d, e, f) = (q.dist(tri.0), q.dist(tri.1), q.dist(tri.2));
                    ensure!(close(d, e, 1e-6) && close(e, f, 1e-6), "circumcentre {:?}", q);
                }
            }
            if o > 0 {
                let row = |p: I2| vec![p.0 as i128, p.1 as i128, (p.0 * p.0 + p.1 * p.1) as i128, 1];
                let d = idet(&[row(a), row(b), row(c), row(p)]);
                if d != 0 {
                    ensure!(in_circle(pt(p), tri) == (d > 0), "in_circle is {}", d < 0);
                    // independently: strictly closer to the circumcentre than the vertices
                    let q = circumcenter(tri).unwrap();
                    let (dp, da) = (q.dist(pt(p)), q.dist(tri.0));
                    if (dp - da).abs() > 1e-6 {
                        ensure!((dp < da) == (d > 0), "oracle disagreement");
                    }
                }
            }
            Ok(())
        });
    }
    type I3 = (i64, i64, i64);
    fn pt3(p: I3) -> Point {
        (p.0 as f64, p.1 as f64, p.2 as f64).into()
    }
    for _ in 0..cx.reps(2000) {
        let s = if cx.rng.bool() { 2 } else { 9 };
        let mut g = || (cx.rng.int(-s, s), cx.rng.int(-s, s), cx.rng.int(-s, s));
        let (a, b, c, d, p) = (g(), g(), g(), g(), g());
        let tet = (pt3(a), pt3(b), pt3(c), pt3(d));
        cx.case("tetrahedron", || format!("{:?} point {:?}", (a, b, c, d), p), || {
            let r4 = |p: I3| vec![p.0 as i128, p.1 as i128, p.2 as i128, 1];
            let o = idet(&[r4(a), r4(b), r4(c), r4(d)]);
            let got = tetrahedron_dir(tet);
            if o != 0 {
                let e = if o > 0 { Orient::Positive } else { Orient::Negative };
                ensure!(got == e, "orientation {:?}, expected {:?}", got, e);
            }
            let r5 = |p: I3| {
                vec![p.0 as i128, p.1 as i128, p.2 as i128, (p.0 * p.0 + p.1 * p.1 + p.2 * p.2) as i128, 1]
            };
            let k = idet(&[r5(a), r5(b), r5(c), r5(d), r5(p)]);
            if k != 0 {
                let got = in_sphere(pt3(p), tet);
                ensure!(got == (k > 0), "in_sphere is {}", got);
            }
            Ok(())
        });
    }
    for (a, b, c, d, e) in [
        ((0, 0, 0), (1, 0, 0), (2, 0, 0), (5, 1, 2), Orient::Zero),
        ((0, 0, 0), (1, 0, 0), (0, 1, 0), (3, 3, 0), Orient::Zero),
        ((1, 1, 1), (1, 1, 1), (0, 1, 0), (3, 3, 0), Orient::Zero),
    ] {
        cx.case("flat tetrahedron", || format!("{:?}", (a, b, c, d)), || {
            let g = tetrahedron_dir((pt3(a), pt3(b), pt3(c), pt3(d)));
            ensure!(g == e, "{:?}", g);
            Ok(())
        });
    }
}

#[cfg(feature = "hooks")]
pub fn c24(cx: &mut Ctx) {
    use bugi::visual::verif::{line, line_unsigned};
    type I = (isize, isize);
    fn check(a: I, b: I, v: &[I]) -> Result<(), String> {
        let (dx, dy) = ((b.0 - a.0).abs(), (b.1 - a.1).abs());
        let n = dx.max(dy);
        ensure!(v.len() as isize == n + 1, "{} pixels for a longer side of {}", v.len(), n);
        ensure!(v.contains(&a) && v.contains(&b), "an endpoint is missing: {:?}", v);
        for w in v.windows(2) {
            let (sx, sy) = ((w[1].0 - w[0].0).abs(), (w[1].1 - w[0].1).abs());
            let (major, minor) = if dx > dy { (sx, sy) } else { (sy, sx) };
            // with equal sides either axis may step first, both do
            ensure!(major == 1 && minor <= 1, "step from {:?} to {:?}", w[0], w[1]);
        }
        for p in v {
            // 2 |minor offset * n| <= n, in integers
            let (along, across) = if dx > dy { ((p.0 - a.0), (p.1 - a.1)) } else { ((p.1 - a.1), (p.0 - a.0)) };
            let (l, m) = if dx > dy { (b.0 - a.0, b.1 - a.1) } else { (b.1 - a.1, b.0 - a.0) };
            if n > 0 {
                let off = 2 * (across as i128 * l as i128 - along as i128 * m as i128);
                ensure!(off.abs() <= n as i128, "{:?} is more than half a pixel off", p);
            }
        }
        Ok(())
    }
    fn rng_of(v: &[I]) -> (isize, isize, isize, isize) {
        (
            v.iter().map(|p| p.0).min().unwrap(),
            v.iter().map(|p| p.0).max().unwrap(),
            v.iter().map(|p| p.1).min().unwrap(),
            v.iter().map(|p| p.1).max().unwrap(),
        )
    }
    let h = if cx.thorough { 40 } else { 18 };
    for dx in -h..=h {
        for dy in -h..=h {
            for o in [(0, 0), (3, -7), (-20, 11)] {
                let b = (o.0 + dx, o.1 + dy);
                cx.case("line", || format!("{:?} to {:?}", o, b), || {
                    let v = line(o, b);
                    check(o, b, &v)?;
                    let w = line(b, o);
                    check(b, o, &w)?;
                    ensure!(rng_of(&v) == rng_of(&w), "different ranges");
                    Ok(())
                });
            }
        }
    }
    for _ in 0..cx.reps(400) {
        let m = *[30i64, 3000, 100_000].get(cx.rng.below(3)).unwrap();
        let a = (cx.rng.int(-m, m) as isize, cx.rng.int(-m, m) as isize);
        let d = cx.rng.int(0, 60) as isize;
        let b = match cx.rng.below(4) {
            0 => (a.0 + cx.rng.int(-60, 60) as isize, a.1 + cx.rng.int(-60, 60) as isize),
            1 => (a.0 + d, a.1 - d),
            2 => (a.0, a.1 - d),
            _ => (a.0 - 3 * d, a.1 + d),
        };
        cx.case("line", || format!("{:?} to {:?}", a, b), || check(a, b, &line(a, b)));
        let (a, b) = ((a.0.abs() as u32 % 40, a.1.abs() as u32 % 40), (b.0.abs() as u32 % 40, b.1.abs() as u32 % 40));
        cx.case("image line", || format!("{:?} to {:?}", a, b), || {
            let s = |p: (u32, u32)| (p.0 as isize, p.1 as isize);
            let v: Vec<I> = line_unsigned(&a, &b).into_iter().map(s).collect();
            check(s(a), s(b), &v)?;
            ensure!(v == line(s(a), s(b)), "differs from the signed line: {:?}", v);
            Ok(())
        });
    }
    for (a, b) in [((0, 0), (9, 0)), ((0, 0), (0, 9)), ((0, 5), (9, 0)), ((0, 0), (0, 0)), ((4, 0), (0, 4))] {
        cx.case("border line", || format!("{:?} to {:?}", a, b), || {
            let s = |p: (u32, u32)| (p.0 as isize, p.1 as isize);
            let v: Vec<I> = line_unsigned(&a, &b).into_iter().map(s).collect();
            check(s(a), s(b), &v)
        });
    }
}

pub fn c25(cx: &mut Ctx) {
    fn ramp(x: f64) -> f64 {
        x.max(0.0).min(255.0)
    }
    // a byte within rounding of the ramp, allowing the last bit of the ramp to be rounded
    fn byte(b: u8, x: f64) -> bool {
        (b as f64 - ramp(x)).abs() <= 0.5 + 1e-9
    }
    let mut vals: Vec<f64> = (-40..=140).map(|x| x as f64 / 100.0).collect();
    for k in [0.0, 1.0, 1.0 / 3.0, 2.0 / 3.0, 0.25, 0.5, 0.75, 0.125, 0.375, 0.625, 0.875, 1e300, -1e300, 2.0, -1.0] {
        vals.push(k);
        vals.push(k + 1e-9);
        vals.push(k - 1e-9);
    }
    vals.push(f64::INFINITY);
    vals.push(f64::NEG_INFINITY);
    for _ in 0..cx.reps(2000) {
        let v = cx.rng.real(-0.5, 1.5);
        vals.push(v);
    }
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev = [0u8; 3];
    for &x in &vals {
        let p = prev;
        cx.case("colour", || format!("{}", x), || {
            let c = hot_map(x).0;
            let v = x.max(0.0).min(1.0) * 3.0;
            for i in 0..3 {
                ensure!(byte(c[i], (v - i as f64) * 255.0), "hot map {:?}", c);
                ensure!(c[i] >= p[i], "hot map darkens from {:?} to {:?}", p, c);
            }
            if x <= 0.0 {
                ensure!(c == [0, 0, 0], "hot map {:?}", c);
            }
            if x >= 1.0 {
                ensure!(c == [255, 255, 255], "hot map {:?}", c);
            }
            let c = rgb_map(x).0;
            for (i, t) in [0.75, 0.5, 0.25].iter().enumerate() {
                let e = (1.5 - 4.0 * (x - t).abs()) * 255.0;
                ensure!(byte(c[i], e), "rgb map {:?}, channel {} expected {}", c, i, ramp(e));
            }
            Ok(())
        });
        prev = hot_map(x).0;
    }
    #[cfg(feature = "hooks")]
    {
        use bugi::verif::Point;
        use bugi::visual::verif::*;
        use bugi::visual::Visualizer;
        for _ in 0..cx.reps(400) {
            let s = if cx.rng.bool() { 8 } else { 30 };
            let off = cx.rng.below(3) * 50;
            let mut g = || (cx.rng.below(s) as u32 + off as u32, cx.rng.below(s) as u32 + off as u32);
            let t = [g(), g(), g()];
            let vals = [cx.rng.val(), cx.rng.val(), cx.rng.val()];
            let o = |a: (u32, u32), b: (u32, u32), c: (u32, u32)| {
                (b.0 as i64 - a.0 as i64) * (c.1 as i64 - a.1 as i64) - (c.0 as i64 - a.0 as i64) * (b.1 as i64 - a.1 as i64)
            };
            let d = o(t[0], t[1], t[2]);
            if d == 0 {
                continue;
            }
            cx.case("fill", || format!("{:?} values {:?}", t, vals), || {
                let px = triangle_interp(t, vals);
                let mut seen = std::collections::BTreeMap::new();
                for (p, v) in px {
                    ensure!(seen.insert(p, v).is_none(), "{:?} twice", p);
                }
                for x in off as u32..(off + s) as u32 + 1 {
                    for y in off as u32..(off + s) as u32 + 1 {
                        let p = (x, y);
                        let w = [o(p, t[1], t[2]), o(t[0], p, t[2]), o(t[0], t[1], p)];
                        let sg = d.signum();
                        let inside = w.iter().all(|k| k * sg >= 0);
                        // rounding may decide pixels on an edge either way
                        let edge = inside && w.iter().any(|k| *k == 0) && !t.contains(&p);
                        let got = seen.remove(&p);
                        ensure!(edge || got.is_some() == inside, "pixel {:?} coloured: {}", p, got.is_some());
                        if let Some(v) = got {
                            let e: f64 = (0..3).map(|i| w[i] as f64 / d as f64 * vals[i]).sum();
                            ensure!((v - e).abs() < 1e-9 * (1.0 + e.abs()), "pixel {:?} = {}, expected {}", p, v, e);
                        }
                    }
                }
                ensure!(seen.is_empty(), "pixels outside the bounding box: {:?}", seen);
                Ok(())
            });
        }
        for (x, y) in [(1u32, 1u32), (5, 9), (200, 1), (17, 17)] {
            cx.case("dot", || format!("{:?}", (x, y)), || {
                let mut v = dot_points(x, y);
                v.sort();
                let mut e = vec![];
                for a in x - 1..=x + 1 {
                    for b in y - 1..=y + 1 {
                        e.push((a, b));
                    }
                }
                ensure!(v == e, "{:?}", v);
                Ok(())
            });
        }
        for _ in 0..cx.reps(300) {
            let n = cx.rng.range(2, 9);
            let v: Vec<f64> = (0..n).map(|_| cx.rng.val() * 3.0).collect();
            let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, &x| (a.0.min(x), a.1.max(x)));
            if lo == hi {
                continue;
            }
            cx.case("node values", || format!("{:?}", v), || {
                let pts: Vec<Point> = (0..n).map(|i| (i as f64, 1.0).into()).collect();
                let mut z: Visualizer = pts.into();
                z.set_vals(v.clone());
                let got = node_vals(&z).unwrap();
                ensure!(got.len() == n, "{} values", got.len());
                for i in 0..n {
                    let e = (v[i] - lo) / (hi - lo);
                    ensure!(close(got[i], e, 1e-12) && got[i] >= 0.0 && got[i] <= 1.0, "value {} = {}, expected {}", i, got[i], e);
                    if v[i] == lo {
                        ensure!(got[i] == 0.0, "minimum shown as {}", got[i]);
                    }
                    if v[i] == hi {
                        ensure!(got[i] == 1.0, "maximum shown as {}", got[i]);
                    }
                }
                ensure!(val_range(&z) == Some((lo, hi)), "range {:?}", val_range(&z));
                Ok(())
            });
        }
        cx.case("value count", || "3 values for 2 points".into(), || {
            let pts: Vec<Point> = (0..2).map(|i| (i as f64, 1.0).into()).collect();
            let mut z: Visualizer = pts.into();
            ensure!(panics(AssertUnwindSafe(|| z.set_vals(vec![1.0, 2.0, 3.0]))), "accepted");
            Ok(())
        });
    }
}
