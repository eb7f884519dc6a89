//! Executable reference model, independent of funspace: every base is a set of
//! dense matrices built from the definition of its functions, applied lane by
//! lane in f64, with a running bound on the rounding error that an
//! implementation in a given precision may make.
#![allow(clippy::all)]
use num_complex::Complex;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
pub mod scn;
pub type C = Complex<f64>;

pub const CHEB: i64 = 0;
pub const DIR: i64 = 1;
pub const NEU: i64 = 2;
pub const DIRNEU: i64 = 3;
pub const BIHA: i64 = 4;
pub const BIHB: i64 = 5;
pub const R2C: i64 = 6;
pub const C2C: i64 = 7;
pub const BNAMES: [&str; 8] = [
    "chebyshev", "cheb_dirichlet", "cheb_neumann", "cheb_dirichlet_neumann", "cheb_biharmonic_a",
    "cheb_biharmonic_b", "fourier_r2c", "fourier_c2c",
];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Base {
    pub kind: i64,
    pub n: usize,
}
impl Base {
    pub fn phys(&self) -> usize {
        self.n
    }
    pub fn orth(&self) -> usize {
        if self.kind == R2C { self.n / 2 + 1 } else { self.n }
    }
    pub fn spec(&self) -> usize {
        match self.kind {
            DIR | NEU | DIRNEU => self.n - 2,
            BIHA | BIHB => self.n - 4,
            _ => self.orth(),
        }
    }
    pub fn min_n(kind: i64) -> usize {
        match kind {
            CHEB => 2,
            DIR | NEU => 5,
            DIRNEU => 6,
            BIHA | BIHB => 10,
            _ => 1,
        }
    }
    pub fn is_r2r(&self) -> bool {
        self.kind < R2C
    }
    pub fn len_in(&self, op: i64) -> usize {
        match op {
            FWD => self.phys(),
            FROM => self.orth(),
            _ => self.spec(),
        }
    }
    pub fn len_out(&self, op: i64) -> usize {
        match op {
            FWD | FROM => self.spec(),
            BWD => self.phys(),
            _ => self.orth(),
        }
    }
}
pub const FWD: i64 = 0;
pub const BWD: i64 = 1;
pub const TO: i64 = 2;
pub const FROM: i64 = 3;
pub const GRAD: i64 = 4;
pub const ONAMES: [&str; 5] = ["forward", "backward", "to_ortho", "from_ortho", "gradient"];

#[derive(Clone, Debug)]
pub struct Mat<T> {
    pub r: usize,
    pub c: usize,
    pub a: Vec<T>,
}
impl<T: Copy + num_traits_zero::Z> Mat<T> {
    fn new(r: usize, c: usize) -> Self {
        Mat { r, c, a: vec![T::z(); r * c] }
    }
    fn fun(r: usize, c: usize, f: impl Fn(usize, usize) -> T) -> Self {
        let mut m = Self::new(r, c);
        for i in 0..r {
            for j in 0..c {
                m.a[i * c + j] = f(i, j);
            }
        }
        m
    }
    pub fn at(&self, i: usize, j: usize) -> T {
        self.a[i * self.c + j]
    }
}
mod num_traits_zero {
    pub trait Z {
        fn z() -> Self;
    }
    impl Z for f64 {
        fn z() -> f64 {
            0.0
        }
    }
    impl Z for super::C {
        fn z() -> super::C {
            super::C::new(0.0, 0.0)
        }
    }
}
type M = Mat<f64>;
impl M {
    fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        let mut m = M::new(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let x = self.at(i, k);
                if x != 0.0 {
                    for j in 0..o.c {
                        m.a[i * o.c + j] += x * o.at(k, j);
                    }
                }
            }
        }
        m
    }
    fn t(&self) -> M {
        M::fun(self.c, self.r, |i, j| self.at(j, i))
    }
    fn abs(&self) -> M {
        M { r: self.r, c: self.c, a: self.a.iter().map(|x| x.abs()).collect() }
    }
    fn add(&self, o: &M) -> M {
        M { r: self.r, c: self.c, a: self.a.iter().zip(&o.a).map(|(x, y)| x + y).collect() }
    }
    fn id(n: usize) -> M {
        M::fun(n, n, |i, j| if i == j { 1.0 } else { 0.0 })
    }
    /// inverse by Gauss-Jordan with partial pivoting
    fn inv(&self) -> M {
        let n = self.r;
        let mut a = self.clone();
        let mut b = M::id(n);
        for k in 0..n {
            let p = (k..n).max_by(|x, y| a.at(*x, k).abs().partial_cmp(&a.at(*y, k).abs()).unwrap()).unwrap();
            if p != k {
                for j in 0..n {
                    a.a.swap(k * n + j, p * n + j);
                    b.a.swap(k * n + j, p * n + j);
                }
            }
            let d = 1.0 / a.at(k, k);
            for j in 0..n {
                a.a[k * n + j] *= d;
                b.a[k * n + j] *= d;
            }
            for i in 0..n {
                if i != k {
                    let f = a.at(i, k);
                    if f != 0.0 {
                        for j in 0..n {
                            a.a[i * n + j] -= f * a.a[k * n + j];
                            b.a[i * n + j] -= f * b.a[k * n + j];
                        }
                    }
                }
            }
        }
        b
    }
}

/// out = m x; rounding error of one application <= K eps e |x|
pub struct OpM {
    pub m: Mat<C>,
    pub real: bool,
    pub e: M,
    /// only the real part of the result is kept
    pub re: bool,
}
fn opm(m: M, e: M) -> OpM {
    OpM { m: Mat { r: m.r, c: m.c, a: m.a.iter().map(|x| C::new(*x, 0.0)).collect() }, real: true, e, re: false }
}

/// coefficients of the base functions of a composite base on T_k, T_{k+1}, ..
fn stencil(b: &Base) -> M {
    let m = b.spec();
    let mut s = M::new(b.n, m);
    for k in 0..m {
        let x = k as f64;
        let c: [f64; 5] = match b.kind {
            CHEB => [1.0, 0.0, 0.0, 0.0, 0.0],
            DIR => [1.0, 0.0, -1.0, 0.0, 0.0],
            NEU => [1.0, 0.0, -(x / (x + 2.0)).powi(2), 0.0, 0.0],
            DIRNEU => {
                // sum a_i (-1)^i = 0 at the left end, sum a_i i^2 = 0 at the right end
                let (p, q, r) = (x * x, (x + 1.0).powi(2), (x + 2.0).powi(2));
                let a1 = (r - p) / (q + r);
                [1.0, a1, a1 - 1.0, 0.0, 0.0]
            }
            BIHA | BIHB => {
                // even/odd symmetric: value and (first|second) derivative vanish at 1
                let f = |j: f64| if b.kind == BIHA { j * j } else { j * j * (j * j - 1.0) / 3.0 };
                let (p, q, r) = (f(x), f(x + 2.0), f(x + 4.0));
                // 1 + a + c = 0; p + a q + c r = 0
                let c = (q - p) / (r - q);
                [1.0, 0.0, -1.0 - c, 0.0, c]
            }
            _ => unreachable!(),
        };
        for (d, v) in c.iter().enumerate() {
            if *v != 0.0 {
                s.a[(k + d) * m + k] = *v;
            }
        }
    }
    s
}

fn cheb_fwd(n: usize) -> (M, M) {
    let nn = n - 1;
    let half = |k: usize| if k == 0 || k == nn { 0.5 } else { 1.0 };
    let w = |j: usize, k: usize| 2.0 / nn as f64 * half(j) * half(k);
    (M::fun(n, n, |j, k| w(j, k) * cospi(j * (nn - k), nn)), M::fun(n, n, w))
}
fn cheb_bwd(n: usize) -> (M, M) {
    let nn = n - 1;
    (M::fun(n, n, |k, j| cospi(j * (nn - k), nn)), M::fun(n, n, |_, _| 1.0))
}
/// cos(pi a / b), accurately
fn cospi(a: usize, b: usize) -> f64 {
    let r = a % (2 * b);
    (std::f64::consts::PI * r as f64 / b as f64).cos()
}
fn expi(a: usize, n: usize, sign: f64) -> C {
    let r = a % n;
    let (s, c) = (2.0 * std::f64::consts::PI * r as f64 / n as f64).sin_cos();
    C::new(c, sign * s)
}
fn cheb_diff(n: usize) -> M {
    M::fun(n, n, |k, j| if j > k && (j - k) % 2 == 1 { 2.0 * j as f64 / if k == 0 { 2.0 } else { 1.0 } } else { 0.0 })
}
fn power(m: &M, k: usize) -> M {
    let mut r = M::id(m.r);
    for _ in 0..k {
        r = m.mul(&r);
    }
    r
}

fn build(b: &Base, op: i64, k: usize) -> OpM {
    let n = b.n;
    match b.kind {
        R2C => {
            let m = b.spec();
            match op {
                FWD => OpM {
                    m: Mat::fun(m, n, |i, j| expi(i * j, n, -1.0)),
                    real: false,
                    e: M::fun(m, n, |_, _| 1.0),
                    re: false,
                },
                BWD => {
                    let w = |i: usize| if i == 0 || (n % 2 == 0 && i == n / 2) { 1.0 } else { 2.0 } / n as f64;
                    OpM {
                        m: Mat::fun(n, m, |j, i| expi(i * j, n, 1.0) * w(i)),
                        real: false,
                        e: M::fun(n, m, |_, i| w(i)),
                        re: true,
                    }
                }
                GRAD => diag(m, k, |i| i as f64),
                _ => opm(M::id(m), M::id(m)),
            }
        }
        C2C => match op {
            FWD => OpM {
                m: Mat::fun(n, n, |i, j| expi(i * j, n, -1.0)),
                real: false,
                e: M::fun(n, n, |_, _| 1.0),
                re: false,
            },
            BWD => OpM {
                m: Mat::fun(n, n, |j, i| expi(i * j, n, 1.0) / n as f64),
                real: false,
                e: M::fun(n, n, |_, _| 1.0 / n as f64),
                re: false,
            },
            GRAD => diag(n, k, |i| if i <= (n - 1) / 2 { i as f64 } else { i as f64 - n as f64 }),
            _ => opm(M::id(n), M::id(n)),
        },
        _ => {
            let comp = b.kind != CHEB;
            let s = stencil(b);
            let sa = s.abs();
            match op {
                TO => opm(s, sa),
                BWD => {
                    let (m, e) = cheb_bwd(n);
                    opm(m.mul(&s), e.mul(&sa))
                }
                GRAD => {
                    let d = power(&cheb_diff(n), k);
                    let e = d.abs().mul(&sa);
                    opm(d.mul(&s), e)
                }
                FROM | FWD => {
                    let (f, ef) = if comp {
                        let a = s.t().mul(&s);
                        let ai = a.inv();
                        let f = ai.mul(&s.t());
                        let e = ai.abs().mul(&a.abs().mul(&f.abs()).add(&sa.t()));
                        (f, e)
                    } else {
                        (M::id(n), M::id(n))
                    };
                    if op == FROM {
                        opm(f, ef)
                    } else {
                        let (m, e) = cheb_fwd(n);
                        opm(f.mul(&m), ef.mul(&e))
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}
fn diag(n: usize, k: usize, w: impl Fn(usize) -> f64) -> OpM {
    let i_pow = [C::new(1.0, 0.0), C::new(0.0, 1.0), C::new(-1.0, 0.0), C::new(0.0, -1.0)][k % 4];
    OpM {
        m: Mat::fun(n, n, |i, j| if i == j { i_pow * w(i).powi(k as i32) } else { C::new(0.0, 0.0) }),
        real: false,
        e: M::fun(n, n, |i, j| if i == j { w(i).abs().powi(k as i32) } else { 0.0 }),
        re: false,
    }
}

thread_local! {
    static CACHE: RefCell<BTreeMap<(Base, i64, usize), Rc<OpM>>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn op(b: &Base, o: i64, k: usize) -> Rc<OpM> {
    let k = if o == GRAD { k } else { 0 };
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 3000 {
            c.clear();
        }
        c.entry((*b, o, k)).or_insert_with(|| Rc::new(build(b, o, k))).clone()
    })
}

/// A dense array with, per element, a bound on the error of a computed value.
#[derive(Clone, Debug)]
pub struct Arr {
    pub dims: Vec<usize>,
    pub v: Vec<C>,
    pub e: Vec<f64>,
}
impl Arr {
    pub fn exact(dims: &[usize], v: Vec<C>) -> Arr {
        assert_eq!(v.len(), dims.iter().product::<usize>());
        Arr { dims: dims.to_vec(), e: vec![0.0; v.len()], v }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
}
pub fn eps(prec: i64) -> f64 {
    if prec == 0 { 5.97e-8 } else { 1.12e-16 }
}
pub fn tiny(prec: i64) -> f64 {
    if prec == 0 { 1e-36 } else { 1e-290 }
}
/// safety factor on the first-order rounding analysis (measured worst case: see DESIGN.md)
pub const SAFETY: f64 = 6.0;
fn factor(n: usize) -> f64 {
    SAFETY * (8.0 + 0.5 * n as f64)
}

pub fn apply(x: &Arr, o: &OpM, axis: usize, prec: i64) -> Arr {
    assert_eq!(x.dims[axis], o.m.c, "model: axis length");
    let mut dims = x.dims.clone();
    dims[axis] = o.m.r;
    let inner: usize = x.dims[axis + 1..].iter().product();
    let outer: usize = x.dims[..axis].iter().product();
    let (r, c) = (o.m.r, o.m.c);
    let mut v = vec![C::new(0.0, 0.0); outer * r * inner];
    let mut e = vec![0.0; v.len()];
    let ke = factor(r.max(c)) * eps(prec);
    let t = tiny(prec);
    let mut xa = vec![0.0; c];
    let mut xe = vec![0.0; c];
    let mut xv = vec![C::new(0.0, 0.0); c];
    for p in 0..outer {
        for q in 0..inner {
            for j in 0..c {
                let i = (p * c + j) * inner + q;
                xv[j] = x.v[i];
                xa[j] = x.v[i].norm();
                xe[j] = x.e[i];
            }
            for i in 0..r {
                let mut s = C::new(0.0, 0.0);
                let mut g = 0.0;
                let mut h = 0.0;
                let (row, er) = (&o.m.a[i * c..(i + 1) * c], &o.e.a[i * c..(i + 1) * c]);
                if o.real {
                    for j in 0..c {
                        s += xv[j] * row[j].re;
                        g += er[j] * (xa[j] + xe[j]);
                        h += row[j].re.abs() * xe[j];
                    }
                } else {
                    for j in 0..c {
                        s += xv[j] * row[j];
                        g += er[j] * (xa[j] + xe[j]);
                        h += er[j] * xe[j];
                    }
                }
                if o.re {
                    s.im = 0.0;
                }
                let k = (p * r + i) * inner + q;
                v[k] = s;
                e[k] = h * (1.0 + ke) + ke * g + t;
            }
        }
    }
    Arr { dims, v, e }
}
pub fn divide(x: &mut Arr, s: f64, prec: i64) {
    for i in 0..x.v.len() {
        x.v[i] /= s;
        x.e[i] = x.e[i] / s.abs() + 64.0 * eps(prec) * x.v[i].norm() + tiny(prec);
    }
}

/// operation on a space: every axis with its own base
pub fn space_op(x: &Arr, bases: &[Base], o: i64, deriv: &[usize], prec: i64) -> Arr {
    let n = bases.len();
    let mut y = x.clone();
    for i in 0..n {
        let ax = if o == FWD { n - 1 - i } else { i };
        y = apply(&y, &op(&bases[ax], o, deriv[ax]), ax, prec);
    }
    y
}

/// balanced distribution of n points over p processes, the larger blocks last
pub fn split(n: usize, p: usize) -> Vec<(usize, usize)> {
    let (q, r) = (n / p, n % p);
    let mut st = 0;
    (0..p)
        .map(|i| {
            let l = q + usize::from(i >= p - r);
            let o = (st, l);
            st += l;
            o
        })
        .collect()
}

// ---------------------------------------------------------------- data
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}
/// element `i` of `len` of a data set; rounded to the precision in use
pub fn datum(seed: u64, pat: i64, i: usize, len: usize, prec: i64, real: bool) -> C {
    let h = mix(seed, i as u64 + 1);
    let (a, b) = (unit(h), unit(mix(h, 77)));
    let mut c = match pat {
        0 => C::new(a, b),
        1 => {
            let d = 1.0 / (1.0 + (i % 16) as f64).powi(3);
            C::new(a * d, b * d)
        }
        2 => {
            if i == (seed % len.max(1) as u64) as usize {
                C::new(1.0, -0.5)
            } else {
                C::new(0.0, 0.0)
            }
        }
        3 => C::new((h % 19) as f64 - 9.0, ((h >> 20) % 19) as f64 - 9.0),
        4 => {
            let s = 10f64.powi(((seed >> 5) % 13) as i32 - 6);
            C::new(a * s, b * s)
        }
        5 => {
            if h % 5 == 0 {
                C::new(a, b)
            } else {
                C::new(0.0, 0.0)
            }
        }
        6 => C::new(1.0, 1.0),
        // a run of non-zero elements, the rest is zero
        9 => {
            let run = 1 + (seed >> 8) as usize % (len / 2 + 1);
            let st = (seed >> 24) as usize % len.max(1);
            if (i + len - st) % len.max(1) < run {
                C::new(a, b)
            } else {
                C::new(0.0, 0.0)
            }
        }
        10 => C::new(0.0, 0.0),
        // far from one
        11 => {
            let s = 10f64.powi((if prec == 0 { 9 } else { 60 }) * (1 - 2 * ((seed >> 7) & 1) as i32));
            C::new(a * s, b * s)
        }
        // real or imaginary values only
        12 => if seed & 256 == 0 { C::new(a, 0.0) } else { C::new(0.0, b) },
        // the same read backwards, or with the opposite sign
        13 => {
            let h = mix(seed, i.min((len.max(1) - 1).saturating_sub(i)) as u64 + 1);
            let s = if seed & 128 != 0 && 2 * i >= len { -1.0 } else { 1.0 };
            C::new(s * unit(h), s * unit(mix(h, 77)))
        }
        // periodic: constant along some axes, or equal lanes
        14 => {
            let h = mix(seed, i as u64 % (1 + (seed >> 6) % 24) + 1);
            C::new(unit(h), unit(mix(h, 77)))
        }
        // alternating signs
        15 => {
            let s = if i % 2 == 0 { 1.0 } else { -1.0 };
            C::new(s, -s)
        }
        // values that increase
        16 => {
            let x = (i + 1) as f64 / len.max(1) as f64;
            C::new(x, x)
        }
        // one element that is not a number, or infinite: it may spoil its own lane only
        8 => {
            if i == (seed % len.max(1) as u64) as usize {
                if seed & 64 == 0 { C::new(f64::NAN, f64::NAN) } else { C::new(f64::INFINITY, a) }
            } else {
                C::new(a, b)
            }
        }
        // magnitudes that differ strongly from element to element
        _ => {
            let s = 10f64.powi((h % 9) as i32 - 4);
            C::new(a * s, b * s)
        }
    };
    if real {
        c.im = 0.0;
    }
    if prec == 0 {
        c = C::new(c.re as f32 as f64, c.im as f32 as f64);
    }
    c
}
pub fn data(seed: u64, pat: i64, dims: &[usize], prec: i64, real: bool) -> Arr {
    let len = dims.iter().product();
    Arr::exact(dims, (0..len).map(|i| datum(seed, pat, i, len, prec, real)).collect())
}

/// worst |actual - expected| / bound over all elements, and where; NaN counts as infinite
pub fn compare(got: impl Fn(usize) -> C, exp: &Arr) -> (f64, usize) {
    let mut w = (0.0, 0);
    for i in 0..exp.v.len() {
        if !(exp.v[i].re.is_finite() && exp.v[i].im.is_finite()) {
            continue; // from input that is not finite: anything goes
        }
        let d = got(i) - exp.v[i];
        let x = d.re.abs().max(d.im.abs());
        let r = if d.re.is_nan() || d.im.is_nan() {
            f64::INFINITY
        } else if x == 0.0 {
            0.0
        } else {
            x / exp.e[i]
        };
        if r > w.0 {
            w = (r, i);
        }
    }
    w
}

/// Identities that the model must satisfy by the definition of the bases. Run
/// before every check; an error means that the model is wrong, not the library.
pub fn selfcheck() -> Result<(), String> {
    let near = |what: &str, b: &Base, a: f64, scale: f64| {
        if a.abs() <= 1e-9 * scale.max(1.0) {
            Ok(())
        } else {
            Err(format!("reference model: {} of {}({}) is off by {:e}", what, BNAMES[b.kind as usize], b.n, a))
        }
    };
    let rnd = |i: usize| (mix(i as u64, 77) % 2001) as f64 / 1000.0 - 1.0;
    for kind in [CHEB, DIR, NEU, DIRNEU, BIHA, BIHB, R2C, C2C] {
        let min = Base::min_n(kind).max([2, 5, 5, 6, 10, 10, 2, 2][kind as usize]);
        for n in (min..min + 9).chain([33, 48]) {
            let b = Base { kind, n };
            let g = |o: i64, x: &[C], k: usize| -> Vec<C> {
                let m = op(&b, o, k);
                let m = &m.m;
                (0..m.r).map(|i| (0..m.c).map(|j| m.at(i, j) * x[j]).sum()).collect()
            };
            let x: Vec<C> = (0..b.spec()).map(|i| C::new(rnd(i), if kind < R2C { 0.0 } else { rnd(i + 999) })).collect();
            let y = g(TO, &x, 0);
            for (p, q) in g(FROM, &y, 0).iter().zip(&x) {
                near("projection of a composite function", &b, (p - q).norm(), 1e3)?;
            }
            if kind < R2C {
                // boundary functionals from T_j(1) = 1, T_j'(1) = j^2, T_j''(1) = j^2 (j^2 - 1) / 3
                let at = |d: usize, right: bool| -> f64 {
                    y.iter()
                        .enumerate()
                        .map(|(j, c)| {
                            let j2 = (j * j) as f64;
                            let v = [1.0, j2, j2 * (j2 - 1.0) / 3.0][d];
                            c.re * v * if right || (j + d) % 2 == 0 { 1.0 } else { -1.0 }
                        })
                        .sum()
                };
                let conds: &[(usize, bool)] = match kind {
                    DIR => &[(0, false), (0, true)],
                    NEU => &[(1, false), (1, true)],
                    DIRNEU => &[(0, false), (1, true)],
                    BIHA => &[(0, false), (0, true), (1, false), (1, true)],
                    BIHB => &[(0, false), (0, true), (2, false), (2, true)],
                    _ => &[],
                };
                for (d, r) in conds {
                    near("boundary condition", &b, at(*d, *r), (n as f64).powi(2 * *d as i32 + 1))?;
                }
                // values and derivative at the collocation points from cos(j t), j sin(j t) / sin(t)
                let ph = g(BWD, &x, 0);
                let dy = g(GRAD, &x, 1);
                for i in 0..n {
                    let t = std::f64::consts::PI * (n - 1 - i) as f64 / (n - 1) as f64;
                    let v: f64 = y.iter().enumerate().map(|(j, c)| c.re * (j as f64 * t).cos()).sum();
                    near("value", &b, v - ph[i].re, 1e2)?;
                    if i > 0 && i + 1 < n {
                        let d: f64 = y.iter().enumerate().map(|(j, c)| c.re * j as f64 * (j as f64 * t).sin() / t.sin()).sum();
                        let e: f64 = dy.iter().enumerate().map(|(j, c)| c.re * (j as f64 * t).cos()).sum();
                        near("derivative", &b, d - e, 1e4)?;
                    }
                }
                for (p, q) in g(FWD, &ph, 0).iter().zip(&x) {
                    near("round trip", &b, (p - q).norm(), 1e4)?;
                }
            } else {
                for i in 0..n {
                    // as a sum of waves with signed wave numbers
                    let t = 2.0 * std::f64::consts::PI * i as f64 / n as f64;
                    let full = |x: &[C]| -> C {
                        let mut s = C::new(0.0, 0.0);
                        for (j, c) in x.iter().enumerate() {
                            let k = if kind == R2C || 2 * j < n { j as f64 } else { j as f64 - n as f64 };
                            let w = C::new((k * t).cos(), (k * t).sin()) * c;
                            s += w;
                            if kind == R2C && j > 0 && 2 * j != n {
                                s += w.conj();
                            }
                        }
                        s / n as f64
                    };
                    let v = full(&x);
                    let w = g(BWD, &x, 0)[i];
                    let diff = if kind == R2C { (v - w).re } else { (v - w).norm() };
                    near("value", &b, diff, 1e2)?;
                }
                let ph: Vec<C> = (0..n).map(|i| C::new(rnd(i + 5), if kind == R2C { 0.0 } else { rnd(i + 50) })).collect();
                let back = g(BWD, &g(FWD, &ph, 0), 0);
                for (p, q) in back.iter().zip(&ph) {
                    let d = if kind == R2C { (p - q).re } else { (p - q).norm() };
                    near("round trip", &b, d, 1e2)?;
                }
                for (j, (d, c)) in g(GRAD, &x, 1).iter().zip(&x).enumerate() {
                    let k = if kind == R2C || 2 * j < n { j as f64 } else { j as f64 - n as f64 };
                    near("derivative", &b, (d - c * C::new(0.0, k)).norm(), 1e2)?;
                }
            }
        }
    }
    Ok(())
}
