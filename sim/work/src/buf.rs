//! Arrays handed to funspace: guard elements before and after the data, a
//! recorded pattern of old content, and an optional non-standard memory layout.
use ndarray::{ShapeBuilder, ArrayBase, ArrayView, ArrayViewMut, Axis, Data as NdData, Dimension, IxDyn};
use num_complex::Complex;
use num_traits::Zero;
use refm::C;
use std::alloc::Layout;
use std::cell::RefCell;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub trait El: Copy + Zero + Send + Sync + 'static {
    fn from_c(c: C) -> Self;
    fn to_c(self) -> C;
    fn from_bits(a: u64, b: u64) -> Self;
}
impl El for f64 {
    fn from_c(c: C) -> Self { c.re }
    fn to_c(self) -> C { C::new(self, 0.0) }
    fn from_bits(a: u64, _: u64) -> Self { f64::from_bits(a) }
}
impl El for f32 {
    fn from_c(c: C) -> Self { c.re as f32 }
    fn to_c(self) -> C { C::new(self as f64, 0.0) }
    fn from_bits(a: u64, _: u64) -> Self { f32::from_bits(a as u32) }
}
impl El for Complex<f64> {
    fn from_c(c: C) -> Self { c }
    fn to_c(self) -> C { self }
    fn from_bits(a: u64, b: u64) -> Self { Complex::new(f64::from_bits(a), f64::from_bits(b)) }
}
impl El for Complex<f32> {
    fn from_c(c: C) -> Self { Complex::new(c.re as f32, c.im as f32) }
    fn to_c(self) -> C { C::new(self.re as f64, self.im as f64) }
    fn from_bits(a: u64, b: u64) -> Self { Complex::new(f32::from_bits(a as u32), f32::from_bits(b as u32)) }
}
macro_rules! int_el {($($t:ty)*) => {$(
    impl El for $t {
        fn from_c(c: C) -> Self { c.re as $t }
        fn to_c(self) -> C { C::new(self as f64, 0.0) }
        fn from_bits(a: u64, _: u64) -> Self { a as $t }
    }
)*}}
int_el!(i32 i64 u8 u16 u64);

pub const G: usize = 4;
/// layouts in memory: 0 row-major, 1 column-major (reversed if one-dimensional),
/// 2 every second element of a row-major array, 3 a window of a wider array,
/// 4 first axis running backwards, 5 axes rotated
pub const NLAY: usize = 6;
/// the memory of an array; in some runs the same few places are used again and again
struct Mem<T> {
    p: *mut T,
    n: usize,
    cap: usize,
}
unsafe impl<T: Send> Send for Mem<T> {}
unsafe impl<T: Sync> Sync for Mem<T> {}
static RECYCLE: AtomicBool = AtomicBool::new(false);
thread_local! {
    static FREE: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
}
pub fn recycle(on: bool) {
    RECYCLE.store(on, Relaxed);
}
impl<T: Copy> Mem<T> {
    fn new(n: usize, f: impl Fn(usize) -> T) -> Self {
        let need = (n * std::mem::size_of::<T>()).max(16);
        let mut found = None;
        if RECYCLE.load(Relaxed) {
            found = FREE
                .try_with(|l| {
                    let mut l = l.borrow_mut();
                    let i = l.iter().rposition(|x| x.1 >= need && x.1 <= 16 * need.max(256))?;
                    Some(l.remove(i))
                })
                .ok()
                .flatten();
        }
        let (p, cap) = found.unwrap_or_else(|| {
            let cap = if RECYCLE.load(Relaxed) { need.next_power_of_two() } else { need };
            let p = unsafe { std::alloc::alloc(Layout::from_size_align(cap, 16).unwrap()) };
            assert!(!p.is_null());
            (p as usize, cap)
        });
        let p = p as *mut T;
        for i in 0..n {
            unsafe { p.add(i).write(f(i)) }
        }
        Mem { p, n, cap }
    }
}
impl<T> Drop for Mem<T> {
    fn drop(&mut self) {
        let x = (self.p as usize, self.cap);
        if !RECYCLE.load(Relaxed) || FREE.try_with(|l| l.borrow_mut().push(x)).is_err() {
            unsafe { std::alloc::dealloc(self.p as *mut u8, Layout::from_size_align(self.cap, 16).unwrap()) }
        }
    }
}
impl<T: Copy> Clone for Mem<T> {
    fn clone(&self) -> Self {
        Mem::new(self.n, |i| self[i])
    }
}
impl<T> Deref for Mem<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
}
impl<T> DerefMut for Mem<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}
#[derive(Clone)]
pub struct Buf<T: Copy> {
    v: Mem<T>,
    pub dims: Vec<usize>,
    lay: usize,
    /// strides as if no axis ran backwards
    st: Vec<usize>,
    back: bool,
}
fn guard<T: El>(i: usize) -> T {
    T::from_bits(0x5ca1_ab1e_0ddb_a115 ^ (i as u64) << 3, 0x3ff1_2345_6789_abcd)
}
impl<T: El> Buf<T> {
    pub fn new(dims: &[usize], lay: usize, mut f: impl FnMut(usize) -> T) -> Self {
        let d = dims.len();
        let mut st = vec![0; d];
        let mut order: Vec<usize> = (0..d).rev().collect(); // fastest first
        match lay {
            1 => order.reverse(),
            5 => order.rotate_left(1),
            _ => {}
        }
        let mut k = 1;
        for (i, &ax) in order.iter().enumerate() {
            if lay == 2 && i == 0 {
                k = 2;
            }
            st[ax] = k;
            k *= dims[ax];
            if lay == 3 && i == 0 {
                k += 3;
            }
        }
        let back = d > 0 && (lay == 4 || (lay == 1 && d == 1));
        let n: usize = dims.iter().product();
        let span = if n == 0 { 0 } else { 1 + (0..d).map(|a| (dims[a] - 1) * st[a]).sum::<usize>() };
        let mut b = Buf { v: Mem::new(span + 2 * G, guard), dims: dims.to_vec(), lay, st, back };
        for i in 0..n {
            let x = f(i);
            b.set(i, x);
        }
        b
    }
    /// element number i in logical order
    pub fn from_nd<S: NdData<Elem = T>, D: Dimension>(a: &ArrayBase<S, D>) -> Self {
        let mut it = a.iter();
        Buf::new(a.shape(), 0, |_| *it.next().unwrap())
    }
    pub fn len(&self) -> usize {
        self.dims.iter().product()
    }
    /// position in memory of logical element i
    fn mem(&self, i: usize) -> usize {
        if self.lay == 0 {
            return i;
        }
        let mut r = i;
        let mut p = 0;
        for d in (0..self.dims.len()).rev() {
            let mut k = r % self.dims[d];
            r /= self.dims[d];
            if d == 0 && self.back {
                k = self.dims[0] - 1 - k;
            }
            p += k * self.st[d];
        }
        p
    }
    pub fn get(&self, i: usize) -> T {
        self.v[G + self.mem(i)]
    }
    pub fn set(&mut self, i: usize, x: T) {
        let m = self.mem(i);
        self.v[G + m] = x;
    }
    pub fn view<D: Dimension>(&self) -> ArrayView<'_, T, D> {
        let s = &self.v[G..self.v.len() - G];
        if self.lay == 0 {
            return ArrayView::from_shape(IxDyn(&self.dims), s).unwrap().into_dimensionality::<D>().unwrap();
        }
        let mut a = ArrayView::from_shape(IxDyn(&self.dims).strides(IxDyn(&self.st)), s).unwrap();
        if self.back {
            a.invert_axis(Axis(0));
        }
        a.into_dimensionality::<D>().unwrap()
    }
    pub fn view_mut<D: Dimension>(&mut self) -> ArrayViewMut<'_, T, D> {
        let n = self.v.len();
        let s = &mut self.v[G..n - G];
        if self.lay == 0 {
            return ArrayViewMut::from_shape(IxDyn(&self.dims), s).unwrap().into_dimensionality::<D>().unwrap();
        }
        let mut a = ArrayViewMut::from_shape(IxDyn(&self.dims).strides(IxDyn(&self.st)), s).unwrap();
        if self.back {
            a.invert_axis(Axis(0));
        }
        a.into_dimensionality::<D>().unwrap()
    }
    pub fn slice(&self) -> &[T] {
        &self.v[G..self.v.len() - G]
    }
    pub fn slice_mut(&mut self) -> &mut [T] {
        let n = self.v.len();
        &mut self.v[G..n - G]
    }
    /// everything including the guards, as bytes
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, self.v.len() * std::mem::size_of::<T>()) }
    }
    pub fn guards_ok(&self) -> bool {
        let n = self.v.len();
        let sz = std::mem::size_of::<T>();
        let b = self.bytes();
        let ok = |i: usize| {
            let g: T = guard(i);
            let gb = unsafe { std::slice::from_raw_parts(&g as *const T as *const u8, sz) };
            &b[i * sz..(i + 1) * sz] == gb
        };
        if self.lay == 2 || self.lay == 3 {
            // the gaps as well
            let mut own = vec![false; n];
            for i in 0..self.len() {
                own[G + self.mem(i)] = true;
            }
            return (0..n).all(|i| own[i] || ok(i));
        }
        (0..G).chain(n - G..n).all(ok)
    }
}

#[derive(Clone)]
pub enum Data<A: El>
where
    Complex<A>: El,
{
    R(Buf<A>),
    C(Buf<Complex<A>>),
}
impl<A: El> Data<A>
where
    Complex<A>: El,
{
    pub fn make(dims: &[usize], real: bool, lay: usize, f: impl Fn(usize) -> C) -> Self {
        if real {
            let mut b = Buf::new(dims, lay, |_| A::zero());
            for i in 0..b.len() {
                b.set(i, A::from_c(f(i)));
            }
            Data::R(b)
        } else {
            let mut b = Buf::new(dims, lay, |_| <Complex<A>>::zero());
            for i in 0..b.len() {
                b.set(i, <Complex<A>>::from_c(f(i)));
            }
            Data::C(b)
        }
    }
    pub fn dims(&self) -> &[usize] {
        match self {
            Data::R(b) => &b.dims,
            Data::C(b) => &b.dims,
        }
    }
    pub fn is_real(&self) -> bool {
        matches!(self, Data::R(_))
    }
    pub fn at(&self, i: usize) -> C {
        match self {
            Data::R(b) => b.get(i).to_c(),
            Data::C(b) => b.get(i).to_c(),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Data::R(b) => b.bytes(),
            Data::C(b) => b.bytes(),
        }
    }
    pub fn guards_ok(&self) -> bool {
        match self {
            Data::R(b) => b.guards_ok(),
            Data::C(b) => b.guards_ok(),
        }
    }
    /// make every element show in the result if it is not overwritten
    pub fn prefill(dims: &[usize], real: bool, lay: usize, pat: i64, seed: u64) -> Self {
        Self::make(dims, real, lay, |i| match pat {
            0 => C::new(0.0, 0.0),
            1 => C::new(f64::NAN, f64::NAN),
            2 => C::new(1e30, -1e30),
            _ => {
                let h = refm::mix(seed, i as u64);
                C::new((h % 2001) as f64 - 1000.0, ((h >> 32) % 2001) as f64 - 1000.0)
            }
        })
    }
}

pub type Form = (Vec<usize>, Vec<isize>, usize);
/// how an array lies in memory
pub fn form<T, D: Dimension>(w: &ArrayViewMut<'_, T, D>) -> Form {
    (w.shape().to_vec(), w.strides().to_vec(), w.as_ptr() as usize)
}
/// an in-place call must leave the caller's array as it was, apart from the elements
pub fn same_form<T, D: Dimension>(w: &ArrayViewMut<'_, T, D>, before: Form) {
    if form(w) != before {
        simk::sched::user_suspend();
        simk::sched::violation(
            "array-altered",
            &format!("an in-place call left its output with shape {:?} and strides {:?} (was {:?}, {:?})", w.shape(), w.strides(), before.0, before.1),
        );
    }
}
