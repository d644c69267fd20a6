// C01 - C08: storage, conversion, iteration, arithmetic, substitution
use crate::common::*;
use crate::ensure;
use bugi::matrix::*;
use std::panic::AssertUnwindSafe;

pub fn c01(cx: &mut Ctx) {
    for _ in 0..cx.reps(500) {
        let (mut r, mut c) = (cx.rng.below(5), cx.rng.below(5));
        let mut model = rand_m(&mut cx.rng, r, c);
        let t = cx.rng.bool();
        let mut m = if t { lin_t(&model, r, c) } else { lin(&model, r, c) };
        let mut log = format!("{}x{} {:?} transposed storage: {}", r, c, model, t);
        let mut n = 1.5;
        for _ in 0..cx.rng.below(12) {
            n += 1.0;
            let (i, j) = (cx.rng.below(r + 2), cx.rng.below(c + 2));
            let inr = i < r && j < c;
            let op = cx.rng.below(10);
            let (i2, j2) = (cx.rng.below(r), cx.rng.below(c));
            log += &format!("; op {} at {:?} with {} / {:?}", op, (i, j), n, (i2, j2));
            let l2 = log.clone();
            let mm = AssertUnwindSafe(&mut m);
            let mo = AssertUnwindSafe(&mut model);
            let (rr, rc) = (&mut r, &mut c);
            cx.case("history", || l2, move || {
                let m = mm;
                let model = mo;
                let m: &mut LinearMatrix = m.0;
                let model: &mut M = model.0;
                match op {
                    0 => {
                        m.put((i, j), n);
                        if inr {
                            model[i][j] = n
                        }
                    }
                    1 if inr => {
                        m[(i, j)] = n;
                        model[i][j] = n
                    }
                    2 => match m.get_mut((i, j)) {
                        Some(x) => {
                            ensure!(inr, "get_mut outside the shape answered");
                            *x = n;
                            model[i][j] = n
                        }
                        None => ensure!(!inr, "get_mut inside the shape refused"),
                    },
                    3 if i < *rr => {
                        let row: Vec<f64> = (0..*rc).map(|k| n + k as f64 / 8.0).collect();
                        m.set_row(i, row.clone());
                        model[i] = row
                    }
                    4 if j < *rc => {
                        let col: Vec<f64> = (0..*rr).map(|k| n + k as f64 / 8.0).collect();
                        m.set_col(j, col.clone());
                        for k in 0..*rr {
                            model[k][j] = col[k]
                        }
                    }
                    5 if i < *rr && *rr > 0 => {
                        m.swap_rows(i, i2);
                        model.swap(i, i2)
                    }
                    6 if j < *rc && *rc > 0 => {
                        m.swap_cols(j, j2);
                        for row in model.iter_mut() {
                            row.swap(j, j2)
                        }
                    }
                    7 => {
                        m.transpose();
                        *model = transp(model, *rr, *rc);
                        std::mem::swap(rr, rc)
                    }
                    8 if inr => {
                        m.mutate((i, j), |x| *x += 2.0);
                        model[i][j] += 2.0
                    }
                    9 if i < *rr => {
                        m.mutate_row(i, |x| *x = *x * 2.0 + 1.0);
                        for x in model[i].iter_mut() {
                            *x = *x * 2.0 + 1.0
                        }
                    }
                    _ => {}
                }
                reads(m, model, *rr, *rc)?;
                refuses(m, *rr, *rc)
            });
        }
        // wrong row and column lengths are refused
        if r > 0 && c > 0 {
            cx.case("set_row length", || log.clone(), || {
                let mut a = m.clone();
                ensure!(panics(AssertUnwindSafe(|| a.set_row(0, vec![1.0; c + 1]))), "long row accepted");
                let mut a = m.clone();
                ensure!(panics(AssertUnwindSafe(|| a.set_row(0, vec![1.0; c - 1]))), "short row accepted");
                let mut a = m.clone();
                ensure!(panics(AssertUnwindSafe(|| a.set_col(0, vec![1.0; r + 1]))), "long column accepted");
                let mut a = m.clone();
                ensure!(panics(AssertUnwindSafe(|| a.set_col(0, vec![1.0; r - 1]))), "short column accepted");
                Ok(())
            });
        }
    }
    for r in 0..6usize {
        for c in 0..6usize {
            for len in 0..40usize {
                cx.case("from_flat length", || format!("shape {:?} from {} values", (r, c), len), || {
                    let v: Vec<f64> = (0..len).map(|x| x as f64 + 0.5).collect();
                    let v2 = v.clone();
                    let p = panics(move || LinearMatrix::from_flat((r, c), v2));
                    ensure!(p == (len != r * c), "refused: {}", p);
                    if !p {
                        let m = LinearMatrix::from_flat((r, c), v.clone());
                        for i in 0..r {
                            for j in 0..c {
                                ensure!(m[(i, j)] == v[i * c + j], "({},{}) = {}", i, j, m[(i, j)]);
                            }
                        }
                    }
                    Ok(())
                });
            }
            cx.case("zeros", || format!("{:?}", (r, c)), || {
                let m = LinearMatrix::zeros((r, c));
                reads(&m, &zeros(r, c), r, c)?;
                refuses(&m, r, c)
            });
        }
    }
    let h = usize::MAX / 2 + 1;
    for s in [(h, 2), (2, h), (1usize << 32, 1usize << 32), (usize::MAX, 2), (usize::MAX, usize::MAX)] {
        cx.case("overflowing shape", || format!("{:?}", s), || {
            ensure!(panics(|| LinearMatrix::zeros(s)), "zeros of an overflowing shape accepted");
            let len = s.0.wrapping_mul(s.1);
            if len < 1000 {
                ensure!(panics(|| LinearMatrix::from_flat(s, vec![0.0; len])), "from_flat of an overflowing shape accepted");
            }
            Ok(())
        });
    }
    for _ in 0..cx.reps(400) {
        let (r, c) = (cx.rng.below(4), cx.rng.below(4));
        let a = rand_m(&mut cx.rng, r, c);
        let mut b = a.clone();
        let differ = cx.rng.bool() && r * c > 0;
        if differ {
            let (i, j) = (cx.rng.below(r), cx.rng.below(c));
            b[i][j] += 1.0;
        }
        let ta = cx.rng.bool();
        let tb = cx.rng.bool();
        let retr = cx.rng.bool();
        cx.case("equality", || format!("{}x{} {:?} vs {:?} storage {} {} retransposed {}", r, c, a, b, ta, tb, retr), || {
            let mut x = if ta { lin_t(&a, r, c) } else { lin(&a, r, c) };
            let mut y = if tb { lin_t(&b, r, c) } else { lin(&b, r, c) };
            if retr {
                x.transpose();
                y.transpose();
            }
            ensure!((x == y) == !differ, "x == y is {}", x == y);
            ensure!((y == x) == !differ, "y == x is {}", y == x);
            if r != c {
                let z = LinearMatrix::from_flat(if retr { (r, c) } else { (c, r) }, flat(&a));
                ensure!(x != z && z != x, "different shapes compare equal");
            }
            let mut w = x.clone();
            ensure!(w == x, "a clone differs");
            if r * c > 0 {
                w[(0, 0)] += 1.0;
                ensure!(x[(0, 0)] == (if retr { a[0][0] } else { a[0][0] }), "a clone shares storage");
            }
            Ok(())
        });
    }
    for n in 0..5usize {
        cx.case("vector conversion", || format!("length {}", n), || {
            let v: Vec<f64> = (0..n).map(|x| x as f64 + 1.0).collect();
            let m: LinearMatrix = v.clone().into();
            ensure!(m.shape() == (n, 1), "shape {:?}", m.shape());
            for i in 0..n {
                ensure!(m[(i, 0)] == v[i], "entry {}", i);
            }
            let m = LinearMatrix::col_vec(v.clone());
            ensure!(m.shape() == (n, 1), "col_vec shape {:?}", m.shape());
            for i in 0..n {
                ensure!(m[(i, 0)] == v[i], "col_vec entry {}", i);
            }
            let m = LinearMatrix::row_vec(v.clone());
            ensure!(m.shape() == (1, n), "row_vec shape {:?}", m.shape());
            for i in 0..n {
                ensure!(m[(0, i)] == v[i], "row_vec entry {}", i);
            }
            Ok(())
        });
    }
}

fn stored_check<T: MatrixLike>(mut m: T, n: usize, stored: &dyn Fn(usize, usize) -> bool, order: &[usize]) -> Result<(), String> {
    let mut model = zeros(n, n);
    reads(&m, &model, n, n)?;
    refuses(&m, n, n)?;
    for (k, &p) in order.iter().enumerate() {
        let (i, j) = (p / n, p % n);
        let v = k as f64 + 1.25;
        if stored(i, j) {
            match k % 3 {
                0 => m.put((i, j), v),
                1 => m[(i, j)] = v,
                _ => *m.get_mut((i, j)).ok_or("stored position refused")? = v,
            }
            model[i][j] = v;
        } else {
            ensure!(m.get_mut((i, j)).is_none(), "unstored position {:?} handed out", (i, j));
            m.put((i, j), v);
            let mut c = m.clone();
            ensure!(panics(AssertUnwindSafe(|| c[(i, j)] = v)), "unstored position {:?} written", (i, j));
        }
        reads(&m, &model, n, n)?;
    }
    refuses(&m, n, n)
}

fn const_check<const N: usize>(cx: &mut Ctx) {
    let mut shapes = vec![];
    for r in 0..=N + 1 {
        for c in 0..=N + 1 {
            shapes.push((r, c));
        }
    }
    let mut data = [0.0; N];
    for (i, x) in data.iter_mut().enumerate() {
        *x = i as f64 + 0.5;
    }
    for (r, c) in shapes {
        cx.case("fixed size", || format!("{} values as {:?}", N, (r, c)), || {
            let bad = r * c != N;
            ensure!(panics(|| ConstMatrix::<N>::from_flat_array((r, c), data)) == bad, "from_flat_array refusal wrong");
            ensure!(panics(|| ConstMatrix::<N>::zeros((r, c))) == bad, "zeros refusal wrong");
            for len in [N.saturating_sub(1), N, N + 1, 0, r * c] {
                let v: Vec<f64> = (0..len).map(|x| x as f64 + 0.5).collect();
                let p = panics(move || ConstMatrix::<N>::from_flat((r, c), v));
                ensure!(p == (bad || len != N), "from_flat of {} values refused: {}", len, p);
            }
            if !bad {
                let mut model = zeros(r, c);
                for i in 0..r {
                    for j in 0..c {
                        model[i][j] = data[i * c + j];
                    }
                }
                let mut m = ConstMatrix::<N>::from_flat_array((r, c), data);
                reads(&m, &model, r, c)?;
                refuses(&m, r, c)?;
                let m2 = ConstMatrix::<N>::from_flat((r, c), data.to_vec());
                reads(&m2, &model, r, c)?;
                ensure!(m == m2, "equal matrices differ");
                reads(&ConstMatrix::<N>::zeros((r, c)), &zeros(r, c), r, c)?;
                for i in 0..r {
                    for j in 0..c {
                        let v = (i * 100 + j) as f64;
                        if (i + j) % 2 == 0 {
                            m[(i, j)] = v
                        } else {
                            m.put((i, j), v)
                        }
                        model[i][j] = v;
                        reads(&m, &model, r, c)?;
                    }
                }
                if N > 0 {
                    ensure!(m != m2, "different matrices equal");
                }
            }
            Ok(())
        });
    }
}

pub fn c02(cx: &mut Ctx) {
    for n in 0..7usize {
        for _ in 0..cx.reps(6) {
            let order = cx.rng.perm(n * n);
            let d = || format!("dimension {} write order {:?}", n, order);
            cx.case("lower", d, || stored_check(LowerTriangular::zeros(n), n, &|i, j| j <= i, &order));
            cx.case("upper", d, || stored_check(UpperTriangular::zeros(n), n, &|i, j| i <= j, &order));
            cx.case("diagonal", d, || stored_check(Diagonal::zeros(n), n, &|i, j| i == j, &order));
            cx.case("diagonal from list", d, || {
                let v: Vec<f64> = (0..n).map(|x| x as f64 + 1.0).collect();
                let mut dg: Diagonal = v.clone().into();
                let mut model = zeros(n, n);
                for i in 0..n {
                    model[i][i] = v[i];
                }
                reads(&dg, &model, n, n)?;
                refuses(&dg, n, n)?;
                ensure!(panics(|| dg[n]), "diagonal index past the end answered");
                for i in 0..n {
                    ensure!(dg[i] == v[i], "[{}]", i);
                    dg[i] = 9.0 + i as f64;
                    model[i][i] = 9.0 + i as f64;
                    reads(&dg, &model, n, n)?;
                }
                dg.transpose();
                reads(&dg, &model, n, n)?;
                ensure!(panics(AssertUnwindSafe(|| dg[n] = 1.0)), "diagonal index past the end written");
                Ok(())
            });
        }
        for k in 0..7usize {
            cx.case("triangular shape", || format!("{:?}", (n, k)), || {
                let d = n.max(k);
                reads(&LowerTriangular::zeros((n, k)), &zeros(d, d), d, d)?;
                reads(&UpperTriangular::zeros((n, k)), &zeros(d, d), d, d)?;
                ensure!(panics(|| Diagonal::zeros((n, k))) == (n != k), "diagonal of a non-square shape");
                Ok(())
            });
        }
    }
    for s in [usize::MAX, usize::MAX - 1, 1usize << 32, (1usize << 32) - 1, 6074000999] {
        cx.case("overflowing dimension", || format!("{}", s), || {
            ensure!(panics(|| LowerTriangular::zeros(s)), "lower accepted");
            ensure!(panics(|| UpperTriangular::zeros(s)), "upper accepted");
            Ok(())
        });
    }
    for s in [(1usize << 63, 2usize), (usize::MAX, usize::MAX), (1 << 62, 4)] {
        cx.case("overflowing fixed shape", || format!("{:?}", s), || {
            let a = [0.0; 0];
            ensure!(panics(|| ConstMatrix::<0>::from_flat_array(s, a)), "accepted 0");
            let a = [0.0; 1];
            ensure!(panics(|| ConstMatrix::<1>::from_flat_array(s, a)), "accepted 1");
            Ok(())
        });
    }
    const_check::<0>(cx);
    const_check::<1>(cx);
    const_check::<2>(cx);
    const_check::<3>(cx);
    const_check::<4>(cx);
    const_check::<6>(cx);
    const_check::<9>(cx);
    const_check::<12>(cx);
}

// a compressed matrix of the given entries by one of its constructors
fn crow(a: &M, r: usize, c: usize, way: usize, rng_order: &[usize]) -> CompressedRow {
    match way {
        0 => CompressedRow::from_flat((r, c), flat(a)),
        1 => dict(a, r, c).into(),
        _ => {
            let mut v = vec![];
            for &p in rng_order {
                let (i, j) = (p / c, p % c);
                if a[i][j] != 0.0 {
                    v.push(((i, j), a[i][j]));
                }
            }
            CompressedRow::from_labeled_vals((r, c), v)
        }
    }
}
// lower envelope matrix with stored runs env
fn env_of(rng: &mut Rng, n: usize) -> Vec<usize> {
    (0..n).map(|i| if rng.chance(1, 4) { i + 1 } else { rng.range(1, i + 1) }).collect()
}
fn lenv(rng: &mut Rng, n: usize) -> (LowerRowEnvelope, M, Vec<usize>) {
    let env = env_of(rng, n);
    let mut m = LowerRowEnvelope::from_envelope(env.clone());
    let mut a = zeros(n, n);
    for i in 0..n {
        for j in (i + 1 - env[i])..=i {
            let v = if i == j { rng.nz() } else { rng.val() };
            m[(i, j)] = v;
            a[i][j] = v;
        }
    }
    (m, a, env)
}
// bi-envelope matrix with random stored runs (rows may be empty); returns bounds
fn bienv(rng: &mut Rng, n: usize) -> (BiEnvelope, M, Vec<Option<(usize, usize)>>) {
    let mut a = zeros(n, n);
    let mut d = Dictionary::zeros(n);
    let mut b = vec![None; n];
    for i in 0..n {
        if rng.chance(1, 5) {
            continue;
        }
        let s = rng.below(n);
        let e = rng.range(s, n - 1);
        b[i] = Some((s, e + 1));
        for j in s..=e {
            if j == s || j == e || rng.bool() {
                let v = rng.nz();
                a[i][j] = v;
                d[(i, j)] = v;
            }
        }
    }
    (d.into(), a, b)
}

pub fn c03(cx: &mut Ctx) {
    for _ in 0..cx.reps(500) {
        let (r, c) = (cx.rng.below(6), cx.rng.range(0, 5));
        let a = rand_m(&mut cx.rng, r, c);
        let way = cx.rng.below(3);
        let order = cx.rng.perm(r * c);
        cx.case("compressed", || format!("{}x{} {:?} built by way {} order {:?}", r, c, a, way, order), || {
            let mut m = crow(&a, r, c, way, &order);
            reads(&m, &a, r, c)?;
            refuses(&m, r, c)?;
            let mut model = a.clone();
            ensure!(m.non_zero_count() == flat(&a).iter().filter(|x| **x != 0.0).count(), "nonzero count {}", m.non_zero_count());
            for i in 0..r {
                let row: Vec<(usize, f64)> = m.row_nzs(i).collect();
                let want: Vec<(usize, f64)> = (0..c).filter(|&j| a[i][j] != 0.0).map(|j| (j, a[i][j])).collect();
                ensure!(row == want, "stored row {} is {:?}, expected {:?}", i, row, want);
            }
            for (k, &p) in order.iter().enumerate() {
                let (i, j) = (p / c, p % c);
                let v = k as f64 + 0.25;
                if a[i][j] != 0.0 {
                    if k % 2 == 0 {
                        m[(i, j)] = v
                    } else {
                        m.put((i, j), v)
                    }
                    model[i][j] = v;
                } else {
                    m.put((i, j), v);
                    ensure!(m.get_mut((i, j)).is_none(), "unstored {:?} handed out", (i, j));
                    let mut q = m.clone();
                    ensure!(panics(AssertUnwindSafe(|| q[(i, j)] = v)), "unstored {:?} written", (i, j));
                }
                reads(&m, &model, r, c)?;
            }
            Ok(())
        });
        let z = cx.rng.below(7);
        cx.case("compressed zeros", || format!("{}x{}", z, c), || {
            let m = CompressedRow::zeros((z, c));
            reads(&m, &zeros(z, c), z, c)?;
            for i in 0..z {
                ensure!(m.row_nzs(i).count() == 0, "row {} stores something", i);
            }
            refuses(&m, z, c)
        });
        let n = cx.rng.range(1, 6);
        let (m, a, env) = lenv(&mut cx.rng, n);
        let order = cx.rng.perm(n * n);
        cx.case("lower envelope", || format!("envelope {:?} entries {:?}", env, a), || {
            let mut m = m;
            reads(&m, &a, n, n)?;
            refuses(&m, n, n)?;
            ensure!(m.envelope() == env, "envelope {:?}", m.envelope());
            ensure!(m.non_zero_count() == env.iter().sum::<usize>(), "stored count");
            for i in 0..n {
                let s = i + 1 - env[i];
                ensure!(m.row_stored(i) == (s, &a[i][s..=i]), "row_stored({}) = {:?}", i, m.row_stored(i));
                ensure!(m.row_stored_nodiag(i) == (s, &a[i][s..i]), "row_stored_nodiag({}) = {:?}", i, m.row_stored_nodiag(i));
            }
            let mut model = a.clone();
            for (k, &p) in order.iter().enumerate() {
                let (i, j) = (p / n, p % n);
                let v = k as f64 + 0.25;
                let stored = j <= i && j + env[i] >= i + 1;
                if stored {
                    match k % 3 {
                        0 => m[(i, j)] = v,
                        1 => m.put((i, j), v),
                        _ => {
                            let (s, row) = m.row_stored_mut(i);
                            row[j - s] = v
                        }
                    }
                    model[i][j] = v;
                } else {
                    m.put((i, j), v);
                    ensure!(m.get_mut((i, j)).is_none(), "unstored {:?} handed out", (i, j));
                    let mut q = m.clone();
                    ensure!(panics(AssertUnwindSafe(|| q[(i, j)] = v)), "unstored {:?} written", (i, j));
                }
                reads(&m, &model, n, n)?;
            }
            Ok(())
        });
        let (m, a, b) = bienv(&mut cx.rng, n);
        cx.case("bi-envelope", || format!("bounds {:?} entries {:?}", b, a), || {
            let mut m = m;
            reads(&m, &a, n, n)?;
            refuses(&m, n, n)?;
            let mut model = a.clone();
            for i in 0..n {
                let (s, row) = m.row_stored(i);
                match b[i] {
                    None => ensure!(row.is_empty(), "empty row {} stores {:?}", i, row),
                    Some((x, y)) => ensure!(s == x && row == &a[i][x..y], "row_stored({}) = {:?}", i, (s, row)),
                }
            }
            for (k, &p) in order.iter().enumerate() {
                let (i, j) = (p / n, p % n);
                let v = k as f64 + 0.25;
                if b[i].map(|(x, y)| j >= x && j < y).unwrap_or(false) {
                    if k % 2 == 0 {
                        m[(i, j)] = v
                    } else {
                        m.put((i, j), v)
                    }
                    model[i][j] = v;
                } else {
                    m.put((i, j), v);
                    ensure!(m.get_mut((i, j)).is_none(), "unstored {:?} handed out", (i, j));
                }
                reads(&m, &model, n, n)?;
            }
            Ok(())
        });
        let (r, c) = (cx.rng.below(6), cx.rng.below(6));
        let a = rand_m(&mut cx.rng, r, c);
        let order = cx.rng.perm(r * c);
        cx.case("dictionary", || format!("{}x{} {:?}", r, c, a), || {
            let mut m = dict(&a, r, c);
            reads(&m, &a, r, c)?;
            refuses(&m, r, c)?;
            let mut model = a.clone();
            for (k, &p) in order.iter().enumerate() {
                let (i, j) = (p / c, p % c);
                let v = k as f64 + 0.25;
                match k % 4 {
                    0 => {
                        m[(i, j)] = v;
                        model[i][j] = v
                    }
                    1 => {
                        m.put((i, j), v);
                        model[i][j] = v
                    }
                    2 => {
                        m[(i, j)] += v;
                        model[i][j] += v
                    }
                    _ => {
                        let x = m.get_mut((i, j)).ok_or("in-range position refused")?;
                        ensure!(*x == model[i][j], "get_mut value {}", x);
                        *x = v;
                        model[i][j] = v
                    }
                }
                reads(&m, &model, r, c)?;
            }
            Ok(())
        });
    }
}

pub fn c04(cx: &mut Ctx) {
    for _ in 0..cx.reps(700) {
        let (r, c) = (cx.rng.below(7), cx.rng.below(6));
        let a = rand_m(&mut cx.rng, r, c);
        let order = cx.rng.perm(r * c);
        cx.case("conversions", || format!("{}x{} {:?} order {:?}", r, c, a, order), || {
            for way in 0..3 {
                let m = crow(&a, r, c, way, &order);
                same(&m, &a, r, c, 0.0).map_err(|e| format!("compressed row (way {}): {}", way, e))?;
                for i in 0..r {
                    let row: Vec<(usize, f64)> = m.row_nzs(i).collect();
                    let want: Vec<(usize, f64)> = (0..c).filter(|&j| a[i][j] != 0.0).map(|j| (j, a[i][j])).collect();
                    ensure!(row == want, "compressed row {} lists {:?}", i, row);
                }
            }
            let d = dict(&a, r, c);
            let l: LinearMatrix = d.clone().into();
            same(&l, &a, r, c, 0.0).map_err(|e| format!("dense from dictionary: {}", e))?;
            let d2 = Dictionary::from_flat((r, c), flat(&a));
            same(&d2, &a, r, c, 0.0).map_err(|e| format!("dictionary from flat: {}", e))?;
            ensure!(d == d2, "dictionaries differ");
            let mut want: Vec<((usize, usize), f64)> = vec![];
            for i in 0..r {
                for j in 0..c {
                    if a[i][j] != 0.0 {
                        want.push(((i, j), a[i][j]));
                    }
                }
            }
            let srt = |mut v: Vec<((usize, usize), f64)>| {
                v.sort_by(|x, y| x.0.cmp(&y.0));
                v
            };
            ensure!(srt(d2.nzs().collect()) == want, "dictionary nonzeros {:?}", srt(d2.nzs().collect()));
            ensure!(srt(l.nzs().collect()) == want, "dense nonzeros");
            ensure!(srt(crow(&a, r, c, 0, &order).nzs().collect()) == want, "compressed nonzeros");
            ensure!(srt(lin_t(&a, r, c).nzs().collect()) == want, "transposed dense nonzeros");
            Ok(())
        });
        let n = cx.rng.below(7);
        let a = rand_m(&mut cx.rng, n, n);
        cx.case("bi-envelope", || format!("{:?}", a), || {
            let b: BiEnvelope = dict(&a, n, n).into();
            same(&b, &a, n, n, 0.0)?;
            for i in 0..n {
                let (s, row) = b.row_stored(i);
                let cols: Vec<usize> = (0..n).filter(|&j| a[i][j] != 0.0).collect();
                if cols.is_empty() {
                    ensure!(row.is_empty(), "empty row {} stores {:?}", i, row);
                } else {
                    ensure!(s == cols[0] && s + row.len() == cols[cols.len() - 1] + 1, "row {} stores {}..{}", i, s, s + row.len());
                }
            }
            Ok(())
        });
        if n > 0 {
            let mut a = rand_m(&mut cx.rng, n, n);
            for i in 0..n {
                if (0..=i).all(|j| a[i][j] == 0.0) {
                    a[i][cx.rng.below(i + 1)] = 2.5;
                }
            }
            let low: M = (0..n).map(|i| (0..n).map(|j| if j <= i { a[i][j] } else { 0.0 }).collect()).collect();
            let env: Vec<usize> = (0..n).map(|i| i + 1 - (0..=i).find(|&j| a[i][j] != 0.0).unwrap()).collect();
            cx.case("lower envelope", || format!("{:?}", a), || {
                let l: LowerRowEnvelope = dict(&a, n, n).into();
                same(&l, &low, n, n, 0.0)?;
                ensure!(l.envelope() == env, "envelope {:?}, expected {:?}", l.envelope(), env);
                let f = LowerRowEnvelope::from_flat(n, flat(&low));
                same(&f, &low, n, n, 0.0).map_err(|e| format!("from_flat: {}", e))?;
                ensure!(f.envelope() == env, "from_flat envelope {:?}", f.envelope());
                let z = LowerRowEnvelope::from_envelope(env.clone());
                same(&z, &zeros(n, n), n, n, 0.0).map_err(|e| format!("from_envelope: {}", e))?;
                let mut full = a.clone();
                for i in 0..n {
                    if full[i][i] == 0.0 {
                        full[i][i] = 1.0;
                    }
                }
                let b: BiEnvelope = dict(&full, n, n).into();
                let lowf: M = (0..n).map(|i| (0..n).map(|j| if j <= i { full[i][j] } else { 0.0 }).collect()).collect();
                let l = LowerRowEnvelope::from_bienv(&b);
                same(&l, &lowf, n, n, 0.0).map_err(|e| format!("from_bienv: {}", e))
            });
            if a.iter().enumerate().any(|(i, row)| row[i + 1..].iter().any(|x| *x != 0.0)) {
                cx.case("upper entries refused", || format!("{:?}", a), || {
                    ensure!(panics(|| LowerRowEnvelope::from_flat(n, flat(&a))), "upper triangle nonzeros accepted");
                    Ok(())
                });
            }
        }
        let n = cx.rng.range(1, 6);
        let (l, a, env) = lenv(&mut cx.rng, n);
        cx.case("envelope nonzeros", || format!("{:?} {:?}", env, a), || {
            let v: Vec<((usize, usize), f64)> = l.nzs().collect();
            let mut want = vec![];
            for i in 0..n {
                for j in 0..n {
                    if a[i][j] != 0.0 {
                        want.push(((i, j), a[i][j]));
                    }
                }
            }
            ensure!(v == want, "{:?}", v);
            ensure!(panics(|| LowerRowEnvelope::from_envelope(vec![1, 3])), "oversized envelope accepted");
            ensure!(panics(|| LowerRowEnvelope::from_envelope(vec![1, 0])), "empty envelope row accepted");
            Ok(())
        });
    }
}

pub fn c05(cx: &mut Ctx) {
    for _ in 0..cx.reps(700) {
        let n = cx.rng.below(7);
        let a = rand_m(&mut cx.rng, n, n);
        let p = cx.rng.perm(n);
        let mask: Vec<bool> = (0..n).map(|_| cx.rng.chance(2, 3)).collect();
        cx.case("square transforms", || format!("{:?} placement {:?} mask {:?}", a, p, mask), || {
            // vertex p[i] goes to place i
            #[cfg(feature = "hooks")]
            let perm = bugi::matrix::graph::verif::from_placement(p.clone());
            #[cfg(not(feature = "hooks"))]
            let perm = Permutation::identity(n);
            let mut d = dict(&a, n, n);
            d.permute(&perm);
            let mut want = zeros(n, n);
            for i in 0..n {
                for j in 0..n {
                    want[perm.permute(i)][perm.permute(j)] = a[i][j];
                }
            }
            same(&d, &want, n, n, 0.0).map_err(|e| format!("permute: {}", e))?;
            let t = dict(&a, n, n).transposed();
            same(&t, &transp(&a, n, n), n, n, 0.0).map_err(|e| format!("transposed: {}", e))?;
            let m = dict(&a, n, n).mask(&mask);
            let keep: Vec<usize> = (0..n).filter(|&i| mask[i]).collect();
            let want: M = keep.iter().map(|&i| keep.iter().map(|&j| a[i][j]).collect()).collect();
            same(&m, &want, keep.len(), keep.len(), 0.0).map_err(|e| format!("mask: {}", e))?;
            let mut long = mask.clone();
            long.push(true);
            ensure!(panics(|| dict(&a, n, n).mask(&long)), "overlong mask accepted");
            let env = dict(&a, n, n).envelope();
            let want: Vec<usize> = (0..n).map(|i| (0..=i).find(|&j| a[i][j] != 0.0).map(|j| i + 1 - j).unwrap_or(0)).collect();
            ensure!(env == want, "envelope {:?}, expected {:?}", env, want);
            let mut e: Vec<(usize, usize)> = dict(&a, n, n).edges_lower().collect();
            e.sort();
            let mut f: Vec<(usize, usize)> = dict(&a, n, n).edges().collect();
            f.sort();
            let mut all = vec![];
            for i in 0..n {
                for j in 0..n {
                    if a[i][j] != 0.0 {
                        all.push((i, j));
                    }
                }
            }
            ensure!(f == all, "edges {:?}", f);
            // each symmetric pair is listed at least once
            let half: Vec<(usize, usize)> = all.iter().cloned().filter(|x| x.0 <= x.1).collect();
            ensure!(e == half, "one-sided edges {:?}", e);
            Ok(())
        });
        let (r, c, k) = (cx.rng.below(5), cx.rng.below(5), cx.rng.below(5));
        let a = rand_m(&mut cx.rng, r, k);
        let b = rand_m(&mut cx.rng, k, c);
        cx.case("dictionary product", || format!("{}x{} {:?} by {}x{} {:?}", r, k, a, k, c, b), || {
            let m = dict(&a, r, k).mul_dict(&dict(&b, k, c));
            same(&m, &mulm(&a, &b, k, c), r, c, 1e-12)?;
            ensure!(panics(|| dict(&a, r, k).mul_dict(&dict(&rz(k + 1, c), k + 1, c))), "non-conforming product accepted");
            Ok(())
        });
        cx.case("row bounds", || format!("{}x{} {:?}", r, k, a), || {
            let bnd = dict(&a, r, k).row_bounds();
            ensure!(bnd.len() == r, "length {}", bnd.len());
            for i in 0..r {
                let cols: Vec<usize> = (0..k).filter(|&j| a[i][j] != 0.0).collect();
                if let (Some(f), Some(l)) = (cols.first(), cols.last()) {
                    ensure!(bnd[i] == (*f, *l + 1), "row {}: {:?}", i, bnd[i]);
                }
            }
            same(&dict(&a, r, k).transposed(), &transp(&a, r, k), k, r, 0.0).map_err(|e| format!("transposed: {}", e))?;
            if r != k {
                ensure!(panics(|| dict(&a, r, k).mask(&vec![true; r])), "mask of a non-square matrix accepted");
            }
            Ok(())
        });
    }
}
fn rz(r: usize, c: usize) -> M {
    zeros(r, c)
}

fn walk<T: MatrixLike>(m: &T, a: &M, r: usize, c: usize) -> Result<(), String> {
    let cap = r * c + r + c + 5;
    for i in 0..r {
        let v: Vec<f64> = m.row(i).take(cap).cloned().collect();
        ensure!(v == a[i], "row {} gives {:?}", i, v);
        let mut it = m.row(i);
        for _ in 0..c {
            it.next();
        }
        ensure!(it.next().is_none() && it.next().is_none(), "row {} goes on", i);
    }
    for j in 0..c {
        let v: Vec<f64> = m.col(j).take(cap).cloned().collect();
        let w: Vec<f64> = (0..r).map(|i| a[i][j]).collect();
        ensure!(v == w, "col {} gives {:?}", j, v);
    }
    let v: Vec<f64> = m.diag().take(cap).cloned().collect();
    let w: Vec<f64> = (0..r.min(c)).map(|i| a[i][i]).collect();
    ensure!(v == w, "diag gives {:?}", v);
    let v: Vec<f64> = m.flat().take(cap).cloned().collect();
    ensure!(v == flat(a), "flat gives {:?}", v);
    let mut it = m.flat();
    for _ in 0..r * c {
        it.next();
    }
    ensure!(it.next().is_none(), "flat goes on");
    let v: Vec<(usize, usize)> = m.indices().take(cap).collect();
    let mut w = vec![];
    for i in 0..r {
        for j in 0..c {
            w.push((i, j));
        }
    }
    ensure!(v == w, "indices give {:?}", v);
    let mut it = m.indices();
    for _ in 0..r * c {
        it.next();
    }
    ensure!(it.next().is_none() && it.next().is_none(), "indices go on");
    ensure!(panics(|| m.row(r).count()), "row {} outside the shape answered", r);
    ensure!(panics(|| m.col(c).count()), "col {} outside the shape answered", c);
    ensure!(panics(|| m.row(r + 1).count()), "row {} outside the shape answered", r + 1);
    ensure!(panics(|| m.col(c + 1).count()), "col {} outside the shape answered", c + 1);
    Ok(())
}

pub fn c06(cx: &mut Ctx) {
    for r in 0..6usize {
        for c in 0..6usize {
            for _ in 0..cx.reps(4) {
                let a = rand_m(&mut cx.rng, r, c);
                let order = cx.rng.perm(r * c);
                cx.case("any shape", || format!("{}x{} {:?}", r, c, a), || {
                    walk(&lin(&a, r, c), &a, r, c).map_err(|e| format!("dense: {}", e))?;
                    walk(&lin_t(&a, r, c), &a, r, c).map_err(|e| format!("dense transposed: {}", e))?;
                    walk(&dict(&a, r, c), &a, r, c).map_err(|e| format!("dictionary: {}", e))?;
                    walk(&crow(&a, r, c, 0, &order), &a, r, c).map_err(|e| format!("compressed: {}", e))?;
                    let m = crow(&a, r, c, 0, &order);
                    for i in 0..r {
                        let mut it = m.row_nzs(i);
                        let n = a[i].iter().filter(|x| **x != 0.0).count();
                        for _ in 0..n {
                            ensure!(it.next().is_some(), "stored row {} ends early", i);
                        }
                        ensure!(it.next().is_none() && it.next().is_none(), "stored row {} goes on", i);
                    }
                    Ok(())
                });
            }
        }
        let n = r;
        for _ in 0..cx.reps(4) {
            let mut lo = zeros(n, n);
            let mut up = zeros(n, n);
            let mut di = zeros(n, n);
            let mut l = LowerTriangular::zeros(n);
            let mut u = UpperTriangular::zeros(n);
            let mut d = Diagonal::zeros(n);
            for i in 0..n {
                for j in 0..n {
                    let v = cx.rng.val();
                    if j <= i {
                        lo[i][j] = v;
                        l[(i, j)] = v;
                    }
                    if i <= j {
                        up[i][j] = v;
                        u[(i, j)] = v;
                    }
                    if i == j {
                        di[i][j] = v;
                        d[(i, j)] = v;
                    }
                }
            }
            cx.case("square kinds", || format!("{} {:?} {:?}", n, lo, up), || {
                walk(&l, &lo, n, n).map_err(|e| format!("lower: {}", e))?;
                walk(&u, &up, n, n).map_err(|e| format!("upper: {}", e))?;
                walk(&d, &di, n, n).map_err(|e| format!("diagonal: {}", e))
            });
            if n > 0 {
                let (m, a, env) = lenv(&mut cx.rng, n);
                cx.case("lower envelope", || format!("{:?} {:?}", env, a), || walk(&m, &a, n, n));
                let (m, a, b) = bienv(&mut cx.rng, n);
                cx.case("bi-envelope", || format!("{:?} {:?}", b, a), || walk(&m, &a, n, n));
            }
        }
    }
    let mut v = [0.0; 6];
    for (i, x) in v.iter_mut().enumerate() {
        *x = i as f64;
    }
    for (r, c) in [(1, 6), (2, 3), (3, 2), (6, 1)] {
        cx.case("fixed size", || format!("{:?}", (r, c)), || {
            let a: M = (0..r).map(|i| (0..c).map(|j| v[i * c + j]).collect()).collect();
            walk(&ConstMatrix::<6>::from_flat_array((r, c), v), &a, r, c)
        });
    }
}

fn prods<T: MatrixLike, U: MatrixLike>(x: &T, y: &U, want: &M, r: usize, c: usize) -> Result<(), String> {
    let p: LinearMatrix = x.mul(y);
    same(&p, want, r, c, 1e-12).map_err(|e| format!("to dense: {}", e))?;
    let p: CompressedRow = x.mul(y);
    same(&p, want, r, c, 1e-12).map_err(|e| format!("to compressed: {}", e))?;
    let p: Dictionary = x.mul(y);
    same(&p, want, r, c, 1e-12).map_err(|e| format!("to dictionary: {}", e))
}

pub fn c07(cx: &mut Ctx) {
    for _ in 0..cx.reps(350) {
        let (r, k, c) = (cx.rng.below(5), cx.rng.below(5), cx.rng.below(5));
        let a = rand_m(&mut cx.rng, r, k);
        let b = rand_m(&mut cx.rng, k, c);
        let b2 = rand_m(&mut cx.rng, r, k);
        let s = cx.rng.val();
        let order = cx.rng.perm(r * k);
        let order2 = cx.rng.perm(k * c);
        let want = mulm(&a, &b, k, c);
        cx.case("products", || format!("{}x{} {:?} by {}x{} {:?}", r, k, a, k, c, b), || {
            prods(&lin(&a, r, k), &lin(&b, k, c), &want, r, c)?;
            prods(&lin_t(&a, r, k), &lin(&b, k, c), &want, r, c).map_err(|e| format!("left transposed: {}", e))?;
            prods(&lin(&a, r, k), &lin_t(&b, k, c), &want, r, c).map_err(|e| format!("right transposed: {}", e))?;
            prods(&crow(&a, r, k, 0, &order), &lin(&b, k, c), &want, r, c).map_err(|e| format!("compressed: {}", e))?;
            prods(&crow(&a, r, k, 2, &order), &crow(&b, k, c, 2, &order2), &want, r, c).map_err(|e| format!("both compressed: {}", e))?;
            prods(&dict(&a, r, k), &lin_t(&b, k, c), &want, r, c).map_err(|e| format!("dictionary: {}", e))?;
            prods(&lin(&a, r, k), &dict(&b, k, c), &want, r, c).map_err(|e| format!("by dictionary: {}", e))?;
            let bad = LinearMatrix::zeros((k + 1, c));
            ensure!(panics(|| { let _: LinearMatrix = lin(&a, r, k).mul(&bad); }), "non-conforming product accepted");
            ensure!(panics(|| { let _: LinearMatrix = crow(&a, r, k, 0, &order).mul(&bad); }), "non-conforming compressed product accepted");
            if k > 0 {
                let bad = LinearMatrix::zeros((k - 1, c));
                ensure!(panics(|| { let _: LinearMatrix = lin(&a, r, k).mul(&bad); }), "non-conforming product accepted");
                ensure!(panics(|| { let _: LinearMatrix = crow(&a, r, k, 0, &order).mul(&bad); }), "non-conforming compressed product accepted");
            }
            Ok(())
        });
        cx.case("sums", || format!("{}x{} {:?} and {:?} scalar {}", r, k, a, b2, s), || {
            let add: M = (0..r).map(|i| (0..k).map(|j| a[i][j] + b2[i][j]).collect()).collect();
            let sub: M = (0..r).map(|i| (0..k).map(|j| a[i][j] - b2[i][j]).collect()).collect();
            let sca: M = (0..r).map(|i| (0..k).map(|j| a[i][j] * s).collect()).collect();
            let sha: M = (0..r).map(|i| (0..k).map(|j| a[i][j] + s).collect()).collect();
            for tx in [false, true] {
                for ty in [false, true] {
                    let x = if tx { lin_t(&a, r, k) } else { lin(&a, r, k) };
                    let y = if ty { lin_t(&b2, r, k) } else { lin(&b2, r, k) };
                    let w = |e: String, n: &str| format!("{} with storage {} {}: {}", n, tx, ty, e);
                    same(&(&x + &y), &add, r, k, 1e-12).map_err(|e| w(e, "+"))?;
                    same(&(&x - &y), &sub, r, k, 1e-12).map_err(|e| w(e, "-"))?;
                    let mut z = x.clone();
                    z += y.clone();
                    same(&z, &add, r, k, 1e-12).map_err(|e| w(e, "+="))?;
                    let mut z = x.clone();
                    z.add_ass(&y);
                    same(&z, &add, r, k, 1e-12).map_err(|e| w(e, "add_ass"))?;
                    let mut z = x.clone();
                    z.sub_ass(&y);
                    same(&z, &sub, r, k, 1e-12).map_err(|e| w(e, "sub_ass"))?;
                    let mut z = x.clone();
                    z *= s;
                    same(&z, &sca, r, k, 1e-12).map_err(|e| w(e, "*="))?;
                    let mut z = x.clone();
                    z += s;
                    same(&z, &sha, r, k, 1e-12).map_err(|e| w(e, "+= scalar"))?;
                    let f = x.frobenius();
                    let g: f64 = flat(&a).iter().map(|v| v * v).sum();
                    ensure!(close(f * f, g, 1e-10) && f >= 0.0, "norm {} of {:?}", f, a);
                }
            }
            let mut d = dict(&a, r, k);
            d.add_ass(&dict(&b2, r, k));
            same(&d, &add, r, k, 1e-12).map_err(|e| format!("dictionary add_ass: {}", e))?;
            let mut d = dict(&a, r, k);
            d.sub_ass(&dict(&b2, r, k));
            same(&d, &sub, r, k, 1e-12).map_err(|e| format!("dictionary sub_ass: {}", e))?;
            let bad = LinearMatrix::zeros((r + 1, k));
            let x = lin(&a, r, k);
            ensure!(panics(|| &x + &bad) && panics(|| &x - &bad), "sum of different shapes accepted");
            let mut z = x.clone();
            ensure!(panics(AssertUnwindSafe(|| z.add_ass(&bad))), "add_ass of different shapes accepted");
            let mut z = x.clone();
            ensure!(panics(AssertUnwindSafe(|| z.sub_ass(&bad))), "sub_ass of different shapes accepted");
            let mut z = x.clone();
            ensure!(panics(AssertUnwindSafe(|| z += bad.clone())), "+= of different shapes accepted");
            if r != k {
                let mut y = lin(&b2, r, k);
                y.transpose();
                let mut z = x.clone();
                ensure!(panics(|| &x + &y) && panics(|| &x - &y), "sum with the transposed shape accepted");
                ensure!(panics(AssertUnwindSafe(|| z += y.clone())), "+= with the transposed shape accepted");
            }
            Ok(())
        });
        let n = cx.rng.range(1, 5);
        let (l, la, env) = lenv(&mut cx.rng, n);
        let (b, ba, bb) = bienv(&mut cx.rng, n);
        let x: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let y0: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let s = cx.rng.val();
        cx.case("sparse kernels", || format!("lower {:?} {:?}, bi {:?} {:?}, x {:?}, y {:?}, scale {}", env, la, bb, ba, x, y0, s), || {
            let mut y = y0.clone();
            b.mul_vec(&x, &mut y);
            let w = mulv(&ba, &x);
            ensure!(vclose(&y, &w, 1e-12), "mul_vec gives {:?}, expected {:?}", y, w);
            ensure!(panics(AssertUnwindSafe(|| b.mul_vec(&x[1..], &mut y.clone()))), "short vector accepted");
            // products of envelope matrices through the generic code
            prods(&l, &b, &mulm(&la, &ba, n, n), n, n).map_err(|e| format!("envelopes: {}", e))?;
            prods(&b, &lin(&la, n, n), &mulm(&ba, &la, n, n), n, n).map_err(|e| format!("bi-envelope: {}", e))?;
            // an update inside the envelope
            let mut inside = ba.clone();
            let mut d = Dictionary::zeros(n);
            for i in 0..n {
                for j in 0..n {
                    if j + env[i] < i + 1 {
                        inside[i][j] = 0.0
                    }
                    if inside[i][j] != 0.0 {
                        d[(i, j)] = inside[i][j];
                    }
                }
            }
            let q: BiEnvelope = d.into();
            if (0..n).all(|i| q.row_stored(i).1.len() > 0 || q.row_stored(i).0 + env[i] >= i + 1) {
                let mut l2 = l.clone();
                l2.add_scaled_bienv(&q, s);
                let w: M = (0..n).map(|i| (0..n).map(|j| if j <= i { la[i][j] + s * inside[i][j] } else { 0.0 }).collect()).collect();
                same(&l2, &w, n, n, 1e-12).map_err(|e| format!("add_scaled_bienv: {}", e))?;
            }
            if (0..n).any(|i| bb[i].map(|q| q.0 + env[i] < i + 1).unwrap_or(false)) {
                let mut l2 = l.clone();
                ensure!(panics(AssertUnwindSafe(|| l2.add_scaled_bienv(&b, s))), "update outside the envelope accepted");
            }
            Ok(())
        });
        cx.case("vectors", || format!("{:?} {:?} {}", x, y0, s), || {
            let w: f64 = x.iter().zip(&y0).map(|(p, q)| p * q).sum();
            ensure!(close(dot(&x, &y0), w, 1e-12), "dot {}", dot(&x, &y0));
            let d: Diagonal = x.clone().into();
            ensure!(close(d.product(), x.iter().product(), 1e-12), "product {}", d.product());
            ensure!(close(d.product_scaled(s), x.iter().map(|v| v * s).product(), 1e-12), "product_scaled {}", d.product_scaled(s));
            ensure!(close(d.mean(), x.iter().sum::<f64>() / n as f64, 1e-12), "mean {}", d.mean());
            ensure!(d.num_neg() == x.iter().filter(|v| **v < 0.0).count(), "num_neg {}", d.num_neg());
            let mut av = Average::new();
            ensure!(av.clone().consume().is_none(), "empty average");
            let mut sum = 0.0;
            for (i, v) in x.iter().enumerate() {
                av.update(*v);
                sum += v;
                let got = av.clone().consume().ok_or("average missing")?;
                ensure!(close(got, sum / (i + 1) as f64, 1e-12), "average of {} values {}", i + 1, got);
            }
            let di: M = (0..n).map(|i| (0..n).map(|j| if i == j { x[i] } else { 0.0 }).collect()).collect();
            prods(&d, &lin(&la, n, n), &mulm(&di, &la, n, n), n, n).map_err(|e| format!("diagonal: {}", e))?;
            let mut lt = LowerTriangular::zeros(n);
            let mut ut = UpperTriangular::zeros(n);
            for i in 0..n {
                for j in 0..=i {
                    lt[(i, j)] = la[i][j];
                    ut[(j, i)] = la[i][j];
                }
            }
            let lat = transp(&la, n, n);
            prods(&lt, &ut, &mulm(&la, &lat, n, n), n, n).map_err(|e| format!("triangular: {}", e))?;
            prods(&ut, &lt, &mulm(&lat, &la, n, n), n, n).map_err(|e| format!("triangular: {}", e))
        });
    }
    for n in 0..6usize {
        cx.case("identity", || format!("{}", n), || {
            same(&LinearMatrix::eye(n), &eye(n), n, n, 0.0)?;
            same(&Dictionary::eye(n), &eye(n), n, n, 0.0)?;
            same(&Diagonal::eye(n), &eye(n), n, n, 0.0)?;
            same(&LowerTriangular::eye(n), &eye(n), n, n, 0.0)?;
            same(&UpperTriangular::eye(n), &eye(n), n, n, 0.0)
        });
        for c in 0..5usize {
            let a = rand_m(&mut cx.rng, n, c);
            let (i, j) = (cx.rng.below(n + 1), cx.rng.below(n + 1));
            cx.case("row lists", || format!("{:?}", a), || {
                if n == 0 {
                    ensure!(panics(|| LinearMatrix::from_rows(a.clone())), "no rows accepted");
                    return Ok(());
                }
                same(&LinearMatrix::from_rows(a.clone()), &a, n, c, 0.0)?;
                same(&Dictionary::from_rows(a.clone()), &a, n, c, 0.0)?;
                same(&CompressedRow::from_rows(a.clone()), &a, n, c, 0.0)?;
                if n > 1 {
                    let mut b = a.clone();
                    b[n - 1].push(1.0);
                    ensure!(panics(|| LinearMatrix::from_rows(b)), "ragged rows accepted");
                }
                // rotations
                let th = 0.3 + c as f64;
                if i < n && j < n && i != j {
                    let m = LinearMatrix::rotation(n, i, j, th);
                    let mut w = eye(n);
                    w[i][i] = th.cos();
                    w[j][j] = th.cos();
                    w[i][j] = -th.sin();
                    w[j][i] = th.sin();
                    same(&m, &w, n, n, 1e-12)?;
                } else {
                    ensure!(panics(|| LinearMatrix::rotation(n, i, j, th)), "bad rotation indices accepted");
                }
                Ok(())
            });
        }
    }
}

pub fn c08(cx: &mut Ctx) {
    for _ in 0..cx.reps(400) {
        let n = cx.rng.below(7);
        let dens = cx.rng.range(1, 3);
        let mut lo = zeros(n, n);
        let mut l = LowerTriangular::zeros(n);
        let mut u = UpperTriangular::zeros(n);
        for i in 0..n {
            for j in 0..=i {
                let v = if i == j {
                    [1.0, -1.0, 2.0, -2.0, 4.0, 0.5][cx.rng.below(6)]
                } else if cx.rng.chance(dens, 3) {
                    cx.rng.int(-3, 3) as f64
                } else {
                    0.0
                };
                lo[i][j] = v;
                l[(i, j)] = v;
                u[(j, i)] = v;
            }
        }
        let up = transp(&lo, n, n);
        let b: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        cx.case("triangular", || format!("{:?} b {:?}", lo, b), || {
            let x = l.forward_sub(&b);
            ensure!(vclose(&mulv(&lo, &x), &b, 1e-9), "forward_sub gives {:?}, residual of {:?}", x, mulv(&lo, &x));
            let x = u.backward_sub(&b);
            ensure!(vclose(&mulv(&up, &x), &b, 1e-9), "backward_sub gives {:?}, residual of {:?}", x, mulv(&up, &x));
            let li = l.tri_inv();
            let p = mulm(&(0..n).map(|i| (0..n).map(|j| li[(i, j)]).collect()).collect(), &lo, n, n);
            ensure!(vclose(&flat(&p), &flat(&eye(n)), 1e-9), "lower inverse times matrix {:?}", p);
            let ui = u.tri_inv();
            let p = mulm(&(0..n).map(|i| (0..n).map(|j| ui[(i, j)]).collect()).collect(), &up, n, n);
            ensure!(vclose(&flat(&p), &flat(&eye(n)), 1e-9), "upper inverse times matrix {:?}", p);
            let mut long = b.clone();
            long.push(1.0);
            ensure!(panics(|| l.forward_sub(&long)) && panics(|| u.backward_sub(&long)), "wrong length accepted");
            let dg: Vec<f64> = (0..n).map(|i| lo[i][i]).collect();
            let d: Diagonal = dg.clone().into();
            let mut x = b.clone();
            d.solve(&mut x);
            for i in 0..n {
                ensure!(close(x[i] * dg[i], b[i], 1e-12), "diagonal solve entry {} is {}", i, x[i]);
            }
            ensure!(panics(AssertUnwindSafe(|| d.solve(&mut long.clone()))), "wrong length accepted");
            Ok(())
        });
        let n = cx.rng.range(1, 7);
        let env = env_of(&mut cx.rng, n);
        let mut a = zeros(n, n);
        let mut m = LowerRowEnvelope::from_envelope(env.clone());
        for i in 0..n {
            for j in (i + 1 - env[i])..=i {
                let v = if i == j { [1.0, -1.0, 2.0, -2.0, 4.0, 0.5][cx.rng.below(6)] } else { cx.rng.int(-3, 3) as f64 };
                a[i][j] = v;
                m[(i, j)] = v;
            }
        }
        let b: Vec<f64> = (0..n).map(|_| if cx.rng.chance(1, 3) { 0.0 } else { cx.rng.val() }).collect();
        let x0: Vec<f64> = (0..n).map(|_| cx.rng.val()).collect();
        let s = cx.rng.below(n);
        let e = cx.rng.range(s, n);
        cx.case("envelope", || format!("envelope {:?} entries {:?} b {:?} prior output {:?} block {:?}", env, a, b, x0, (s, e)), || {
            let mut x = x0.clone();
            m.solve(&b, &mut x);
            ensure!(vclose(&mulv(&a, &x), &b, 1e-9), "solve gives {:?}, product {:?}", x, mulv(&a, &x));
            let mut x = x0.clone();
            m.solve_transposed(&b, &mut x);
            let at = transp(&a, n, n);
            ensure!(vclose(&mulv(&at, &x), &b, 1e-9), "solve_transposed gives {:?}, product {:?}", x, mulv(&at, &x));
            let bs = &b[s..e];
            let mut xs = x0[s..e].to_vec();
            m.solve_submatrix(bs, &mut xs, (s, e));
            let blk: M = (s..e).map(|i| a[i][s..e].to_vec()).collect();
            ensure!(vclose(&mulv(&blk, &xs), bs, 1e-9), "solve_submatrix gives {:?}, product {:?}", xs, mulv(&blk, &xs));
            ensure!(panics(AssertUnwindSafe(|| m.solve(&b[1..], &mut x0.clone()))), "short right-hand side accepted");
            ensure!(panics(AssertUnwindSafe(|| m.solve(&b, &mut x0.clone()[1..]))), "short output accepted");
            ensure!(panics(AssertUnwindSafe(|| m.solve_transposed(&b[1..], &mut x0.clone()))), "short right-hand side accepted (transposed)");
            let big = vec![1.0; n + 1 - s];
            ensure!(panics(AssertUnwindSafe(|| m.solve_submatrix(&big, &mut big.clone(), (s, n + 1)))), "block past the end accepted");
            Ok(())
        });
    }
}
