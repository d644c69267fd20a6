// Shared machinery of the replay harness: deterministic inputs, case bookkeeping, dense oracles.
use bugi::matrix::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    // 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    // a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % (b - a + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    // exactly representable values, so that sums and products of a few are exact
    pub fn val(&mut self) -> f64 {
        match self.below(8) {
            0 => 0.0,
            1 => self.int(-4, 4) as f64 / 2.0,
            2 => self.int(-4, 4) as f64 / 4.0,
            _ => self.int(-9, 9) as f64,
        }
    }
    pub fn nz(&mut self) -> f64 {
        loop {
            let v = self.val();
            if v != 0.0 {
                return v;
            }
        }
    }
    // uniform in [-1, 1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
    // uniform in [a, b)
    pub fn real(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * (self.unit() + 1.0) / 2.0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub cases: usize,
    pub distinct: std::collections::BTreeMap<&'static str, usize>,
    pub trace: bool,
}

pub static CASE_NO: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Ctx {
    // number of repetitions: q in the quick tier, several times more in the thorough one
    pub fn reps(&self, q: usize) -> usize {
        if self.thorough {
            q * 12
        } else {
            q
        }
    }
    pub fn case(
        &mut self,
        kind: &'static str,
        desc: impl FnOnce() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        self.cases += 1;
        *self.distinct.entry(kind).or_insert(0) += 1;
        CASE_NO.store(self.cases, std::sync::atomic::Ordering::SeqCst);
        if self.trace {
            eprintln!("@@CASE {} {}", kind, desc().replace('\n', " "));
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(())) => {}
                Ok(Err(_)) | Err(_) => std::process::exit(1),
            }
            return;
        }
        let msg = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(_) => LAST_PANIC.with(|l| format!("panicked: {}", l.borrow())),
        };
        println!("FAIL {}\ninput: {}\nobserved: {}", kind, desc(), msg);
        std::process::exit(1);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub type M = Vec<Vec<f64>>;

pub fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
pub fn eye(n: usize) -> M {
    let mut m = zeros(n, n);
    for i in 0..n {
        m[i][i] = 1.0;
    }
    m
}
pub fn rand_m(rng: &mut Rng, r: usize, c: usize) -> M {
    let sparse = rng.below(3);
    (0..r)
        .map(|_| {
            let empty = sparse > 0 && rng.chance(1, 4);
            (0..c)
                .map(|_| {
                    if empty || (sparse > 0 && rng.chance(sparse, 3)) {
                        0.0
                    } else {
                        rng.val()
                    }
                })
                .collect()
        })
        .collect()
}
pub fn mulm(a: &M, b: &M, inner: usize, c: usize) -> M {
    a.iter()
        .map(|row| (0..c).map(|j| (0..inner).map(|k| row[k] * b[k][j]).sum()).collect())
        .collect()
}
pub fn transp(a: &M, r: usize, c: usize) -> M {
    (0..c).map(|j| (0..r).map(|i| a[i][j]).collect()).collect()
}
pub fn mulv(a: &M, x: &[f64]) -> Vec<f64> {
    a.iter().map(|row| row.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}
pub fn flat(a: &M) -> Vec<f64> {
    a.iter().flatten().cloned().collect()
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn vclose(a: &[f64], b: &[f64], tol: f64) -> bool {
    let scale = a.iter().chain(b).fold(1.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * scale)
}
// random symmetric positive definite matrix, diagonally dominant, with a random sparse pattern
pub fn rand_spd(rng: &mut Rng, n: usize) -> M {
    let mut m = zeros(n, n);
    let dens = rng.range(1, 4);
    for i in 0..n {
        for j in 0..i {
            if rng.chance(dens, 5) {
                let v = rng.int(-4, 4) as f64;
                m[i][j] = v;
                m[j][i] = v;
            }
        }
    }
    for i in 0..n {
        let s: f64 = (0..n).filter(|&j| j != i).map(|j| m[i][j].abs()).sum();
        m[i][i] = s + rng.range(1, 6) as f64;
    }
    m
}

pub fn lin(a: &M, r: usize, c: usize) -> LinearMatrix {
    LinearMatrix::from_flat((r, c), flat(a))
}
// the same matrix stored column major
pub fn lin_t(a: &M, r: usize, c: usize) -> LinearMatrix {
    let mut m = LinearMatrix::from_flat((c, r), flat(&transp(a, r, c)));
    m.transpose();
    m
}
pub fn dict(a: &M, r: usize, c: usize) -> Dictionary {
    let mut d = Dictionary::zeros((r, c));
    for i in 0..r {
        for j in 0..c {
            if a[i][j] != 0.0 {
                d[(i, j)] = a[i][j];
            }
        }
    }
    d
}
// whether every position of m reads as in a and positions around the edge are refused
pub fn reads<T: MatrixLike>(m: &T, a: &M, r: usize, c: usize) -> Result<(), String> {
    ensure!(m.shape() == (r, c), "shape {:?}, expected {:?}", m.shape(), (r, c));
    for i in 0..r {
        for j in 0..c {
            match m.get((i, j)) {
                Some(x) => ensure!(*x == a[i][j], "get({},{}) = {}, expected {}", i, j, x, a[i][j]),
                None => return Err(format!("get({},{}) = None", i, j)),
            }
            let x = m[(i, j)];
            ensure!(x == a[i][j], "[({},{})] = {}, expected {}", i, j, x, a[i][j]);
        }
    }
    Ok(())
}
pub fn oob_locs(r: usize, c: usize) -> Vec<(usize, usize)> {
    let mut v = vec![
        (r, 0),
        (0, c),
        (r, c),
        (r + 1, 0),
        (0, c + 1),
        (r, c + 1),
        (usize::MAX, 0),
        (0, usize::MAX),
        (usize::MAX, usize::MAX),
        (r * c, 0),
        (0, r * c),
    ];
    if r > 0 {
        v.push((r - 1, c));
        v.push((r - 1, c + 3));
    }
    if c > 0 {
        v.push((r, c - 1));
        v.push((r + 2, c - 1));
    }
    v.retain(|l| l.0 >= r || l.1 >= c);
    v
}
pub fn refuses<T: MatrixLike>(m: &T, r: usize, c: usize) -> Result<(), String> {
    for l in oob_locs(r, c) {
        ensure!(m.get(l).is_none(), "get{:?} outside {:?} answered", l, (r, c));
        ensure!(panics(|| m[l]), "index {:?} outside {:?} answered", l, (r, c));
        let mut k = m.clone();
        ensure!(k.get_mut(l).is_none(), "get_mut{:?} outside {:?} answered", l, (r, c));
        ensure!(
            panics(AssertUnwindSafe(|| k[l] = 1.0)),
            "index_mut {:?} outside {:?} answered",
            l,
            (r, c)
        );
    }
    Ok(())
}
pub fn same<T: MatrixLike>(m: &T, a: &M, r: usize, c: usize, tol: f64) -> Result<(), String> {
    ensure!(m.shape() == (r, c), "shape {:?}, expected {:?}", m.shape(), (r, c));
    for i in 0..r {
        for j in 0..c {
            let x = m[(i, j)];
            ensure!(close(x, a[i][j], tol), "({},{}) = {}, expected {}", i, j, x, a[i][j]);
        }
    }
    Ok(())
}
