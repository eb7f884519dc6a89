//! Dispatch from scenario records to funspace calls, for f32 and f64.
use crate::buf::{Buf, Data};
use funspace::*;
use ndarray::{Dimension, Ix1, Ix2, Ix3, IxDyn};
use refm::scn::Op;
use refm::{Base as MBase, BWD, FROM, FWD, GRAD, TO};

/// one call of a 1-D base's operation along an axis
macro_rules! un {
    ($b:expr, $o:expr, $x:expr, $OV:ident, $out:expr, $al:ident, $in:ident, $alp:ident, $inp:ident, $sl:ident $(, $k:expr)?) => {{
        let axis = $o.axis as usize;
        match $o.form {
            1 => {
                let Some(Data::$OV(ob)) = $out else { unreachable!() };
                let v = $x.view::<D>();
                let mut w = ob.view_mut::<D>();
                let form = crate::buf::form(&w);
                if $o.par == 1 { $b.$inp(&v, &mut w, $($k,)? axis) } else { $b.$in(&v, &mut w, $($k,)? axis) }
                crate::buf::same_form(&w, form);
                None
            }
            2 => {
                let Some(Data::$OV(ob)) = $out else { unreachable!() };
                $b.$sl($x.slice(), ob.slice_mut() $(, $k)?);
                None
            }
            _ => {
                let v = $x.view::<D>();
                let r = if $o.par == 1 { $b.$alp(&v, $($k,)? axis) } else { $b.$al(&v, $($k,)? axis) };
                Some(Data::$OV(Buf::from_nd(&r)))
            }
        }
    }};
}
macro_rules! ortho_grad {
    ($b:expr, $o:expr, $x:expr, $OV:ident, $out:expr) => {
        match $o.op {
            TO => un!($b, $o, $x, $OV, $out, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par, to_ortho_slice),
            FROM => un!($b, $o, $x, $OV, $out, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par, from_ortho_slice),
            GRAD => {
                let k = $o.k0 as usize;
                un!($b, $o, $x, $OV, $out, gradient, gradient_inplace, gradient_par, gradient_inplace_par, gradient_slice, k)
            }
            _ => unreachable!(),
        }
    };
}

fn ser<T: crate::buf::El, S: ndarray::Data<Elem = T>, D: Dimension>(v: &mut Vec<u8>, a: &ndarray::ArrayBase<S, D>) {
    for d in a.shape() {
        v.extend((*d as u64).to_le_bytes());
    }
    v.extend_from_slice(Buf::from_nd(a).bytes());
}

macro_rules! prec {
    ($m:ident, $A:ty, $two:expr, $D2:ty) => {
        pub mod $m {
            use super::*;
            pub type A = $A;
            pub type D_ = Data<A>;
            type Dim2 = $D2;
            #[derive(Clone)]
            pub enum AnyBase {
                R(BaseR2r<A>),
                F(BaseR2c<A>),
                Z(BaseC2c<A>),
            }
            pub fn make(b: &MBase) -> AnyBase {
                match b.kind {
                    0 => AnyBase::R(chebyshev(b.n)),
                    1 => AnyBase::R(cheb_dirichlet(b.n)),
                    2 => AnyBase::R(cheb_neumann(b.n)),
                    3 => AnyBase::R(cheb_dirichlet_neumann(b.n)),
                    4 => AnyBase::R(cheb_biharmonic_a(b.n)),
                    5 => AnyBase::R(cheb_biharmonic_b(b.n)),
                    6 => AnyBase::F(fourier_r2c(b.n)),
                    _ => AnyBase::Z(fourier_c2c(b.n)),
                }
            }
            impl AnyBase {
                pub fn lens(&self) -> [usize; 3] {
                    match self {
                        AnyBase::R(b) => [b.len_phys(), b.len_spec(), b.len_orth()],
                        AnyBase::F(b) => [b.len_phys(), b.len_spec(), b.len_orth()],
                        AnyBase::Z(b) => [b.len_phys(), b.len_spec(), b.len_orth()],
                    }
                }
            }

            fn base_d<D: Dimension>(b: &AnyBase, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                macro_rules! fw { ($bb:expr, $x:expr, $OV:ident) => {
                    un!($bb, o, $x, $OV, out, forward, forward_inplace, forward_par, forward_inplace_par, forward_slice)
                }}
                macro_rules! bw { ($bb:expr, $x:expr, $OV:ident) => {
                    un!($bb, o, $x, $OV, out, backward, backward_inplace, backward_par, backward_inplace_par, backward_slice)
                }}
                match (b, x, o.op) {
                    (AnyBase::R(b), Data::R(x), FWD) => fw!(b, x, R),
                    (AnyBase::R(b), Data::R(x), BWD) => bw!(b, x, R),
                    (AnyBase::R(b), Data::R(x), _) => ortho_grad!(b, o, x, R, out),
                    (AnyBase::R(b), Data::C(x), _) => ortho_grad!(b, o, x, C, out),
                    (AnyBase::F(b), Data::R(x), FWD) => fw!(b, x, C),
                    (AnyBase::F(b), Data::C(x), BWD) => bw!(b, x, R),
                    (AnyBase::F(b), Data::C(x), _) => ortho_grad!(b, o, x, C, out),
                    (AnyBase::Z(b), Data::C(x), FWD) => fw!(b, x, C),
                    (AnyBase::Z(b), Data::C(x), BWD) => bw!(b, x, C),
                    (AnyBase::Z(b), Data::C(x), _) => ortho_grad!(b, o, x, C, out),
                    _ => unreachable!("element type"),
                }
            }
            pub fn base_op(b: &AnyBase, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                if $two && x.dims().len() == 2 {
                    base_d::<Dim2>(b, o, x, out)
                } else {
                    base_d::<IxDyn>(b, o, x, out)
                }
            }

            /// the matrices and coordinates of a base, as bytes
            pub fn base_mat(b: &AnyBase, o: &Op) -> Vec<u8> {
                let mut v = vec![];
                macro_rules! m { ($b:expr) => {{
                    let k = o.k0 as usize;
                    match o.op {
                        0 => ser(&mut v, &ndarray::Array1::from($b.coords())),
                        1 => ser(&mut v, &$b.stencil()),
                        2 => ser(&mut v, &$b.stencil_inv()),
                        3 => ser(&mut v, &$b.laplacian()),
                        4 => {
                            let (x, y) = $b.laplacian_pinv();
                            ser(&mut v, &x);
                            ser(&mut v, &y);
                        }
                        5 => ser(&mut v, &$b.diffmat(k)),
                        _ => {
                            let (x, y) = $b.diffmat_pinv(k);
                            ser(&mut v, &x);
                            ser(&mut v, &y);
                        }
                    }
                }}}
                match b {
                    AnyBase::R(b) => m!(b),
                    AnyBase::F(b) => m!(b),
                    AnyBase::Z(b) => m!(b),
                }
                v
            }

            /// a space of any dimension
            pub trait Sp: Send + Sync {
                fn run(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_>;
                fn dup(&self) -> Box<dyn Sp>;
                fn mat(&self, o: &Op) -> Vec<u8>;
                /// physical, spectral, orthogonal shapes
                fn shapes(&self) -> [Vec<usize>; 5];
            }
            fn scales<const N: usize>(o: &Op) -> Option<[A; N]> {
                o.scales().map(|s| std::array::from_fn(|i| s[i] as A))
            }
            fn derivs<const N: usize>(o: &Op) -> [usize; N] {
                let k = o.k();
                std::array::from_fn(|i| k[i])
            }
            macro_rules! space_impl {
                ($t:ty, $n:expr, $D:ty, $P:ident, $S:ident) => {
                    impl Sp for $t {
                        fn run(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                            macro_rules! io { ($IV:ident, $OV:ident, $al:ident, $in:ident, $alp:ident, $inp:ident) => {{
                                let Data::$IV(x) = x else { unreachable!("element type") };
                                let v = x.view::<$D>();
                                if o.form == 1 {
                                    let Some(Data::$OV(ob)) = out else { unreachable!() };
                                    let mut w = ob.view_mut::<$D>();
                                    let form = crate::buf::form(&w);
                                    if o.par == 1 { self.$inp(&v, &mut w) } else { self.$in(&v, &mut w) }
                                    crate::buf::same_form(&w, form);
                                    None
                                } else {
                                    let r = if o.par == 1 { self.$alp(&v) } else { self.$al(&v) };
                                    Some(Data::$OV(Buf::from_nd(&r)))
                                }
                            }}}
                            match (o.op, &*x) {
                                (FWD, _) => io!($P, $S, forward, forward_inplace, forward_par, forward_inplace_par),
                                (BWD, _) => io!($S, $P, backward, backward_inplace, backward_par, backward_inplace_par),
                                // complex coefficients, also of bases for real functions
                                (TO, Data::C(_)) => io!(C, C, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                                (FROM, Data::C(_)) => io!(C, C, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                                (_, Data::C(x)) => {
                                    let v = x.view::<$D>();
                                    let (k, s) = (derivs::<$n>(o), scales::<$n>(o));
                                    let r = if o.par == 1 { self.gradient_par(&v, k, s) } else { self.gradient(&v, k, s) };
                                    Some(Data::C(Buf::from_nd(&r)))
                                }
                                (TO, _) => io!($S, $S, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                                (FROM, _) => io!($S, $S, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                                _ => {
                                    let Data::$S(x) = x else { unreachable!("element type") };
                                    let v = x.view::<$D>();
                                    let (k, s) = (derivs::<$n>(o), scales::<$n>(o));
                                    let r = if o.par == 1 { self.gradient_par(&v, k, s) } else { self.gradient(&v, k, s) };
                                    Some(Data::$S(Buf::from_nd(&r)))
                                }
                            }
                        }
                        fn dup(&self) -> Box<dyn Sp> {
                            Box::new(self.clone())
                        }
                        fn mat(&self, o: &Op) -> Vec<u8> {
                            let mut v = vec![];
                            let ax = o.axis as usize;
                            match o.op {
                                0 => ser(&mut v, &self.coords_axis(ax)),
                                1 => ser(&mut v, &self.stencil(ax)),
                                2 => ser(&mut v, &self.stencil_inv(ax)),
                                3 => ser(&mut v, &self.laplacian(ax)),
                                _ => {
                                    let (x, y) = self.laplacian_pinv(ax);
                                    ser(&mut v, &x);
                                    ser(&mut v, &y);
                                }
                            }
                            v
                        }
                        fn shapes(&self) -> [Vec<usize>; 5] {
                            [
                                self.shape_physical().to_vec(),
                                self.shape_spectral().to_vec(),
                                self.shape_spectral_ortho().to_vec(),
                                self.ndarray_physical().shape().to_vec(),
                                self.ndarray_spectral().shape().to_vec(),
                            ]
                        }
                    }
                };
            }
            type R = BaseR2r<A>;
            type F = BaseR2c<A>;
            type Z = BaseC2c<A>;
            space_impl!(Space1<R>, 1, Ix1, R, R);
            space_impl!(Space1<F>, 1, Ix1, R, C);
            space_impl!(Space1<Z>, 1, Ix1, C, C);
            space_impl!(Space2<R, R>, 2, Ix2, R, R);
            space_impl!(Space2<F, R>, 2, Ix2, R, C);
            space_impl!(Space2<Z, F>, 2, Ix2, R, C);
            space_impl!(Space2<Z, Z>, 2, Ix2, C, C);
            space_impl!(Space3<R, R, R>, 3, Ix3, R, R);
            space_impl!(Space3<F, R, R>, 3, Ix3, R, C);
            space_impl!(Space3<Z, F, R>, 3, Ix3, R, C);
            space_impl!(Space3<Z, Z, F>, 3, Ix3, R, C);
            space_impl!(Space3<Z, Z, Z>, 3, Ix3, C, C);

            pub fn make_space(b: &[&AnyBase]) -> Box<dyn Sp> {
                use AnyBase as B;
                match b {
                    [B::R(a)] => Box::new(Space1::new(a)),
                    [B::F(a)] => Box::new(Space1::new(a)),
                    [B::Z(a)] => Box::new(Space1::new(a)),
                    [B::R(a), B::R(b)] => Box::new(Space2::new(a, b)),
                    [B::F(a), B::R(b)] => Box::new(Space2::new(a, b)),
                    [B::Z(a), B::F(b)] => Box::new(Space2::new(a, b)),
                    [B::Z(a), B::Z(b)] => Box::new(Space2::new(a, b)),
                    [B::R(a), B::R(b), B::R(c)] => Box::new(Space3::new(a, b, c)),
                    [B::F(a), B::R(b), B::R(c)] => Box::new(Space3::new(a, b, c)),
                    [B::Z(a), B::F(b), B::R(c)] => Box::new(Space3::new(a, b, c)),
                    [B::Z(a), B::Z(b), B::F(c)] => Box::new(Space3::new(a, b, c)),
                    [B::Z(a), B::Z(b), B::Z(c)] => Box::new(Space3::new(a, b, c)),
                    _ => panic!("unsupported combination of bases"),
                }
            }
        }
    };
}
// one precision with the static dimension for matrices, to keep the build short
prec!(p32, f32, false, IxDyn);
prec!(p64, f64, true, Ix2);
