//! Ranks world: every rank is a process that runs the same program over
//! distributed arrays with the real funspace and the real MPI wrapper crate on
//! top of the simulated MPI library.
use crate::buf::{Buf, Data, El};
use crate::{guarded, op_begin, op_end, viol};
use funspace::space_mpi::*;
use funspace::*;
use ndarray::Ix2;
use num_complex::Complex;
use refm::scn::*;
use refm::*;
use simk::sched::{self, sh};
use simk::sh::stat;
use std::fmt::Debug;

pub trait MEl: El + Equivalence + Debug {}
impl<T: El + Equivalence + Debug> MEl for T {}

/// role 1: the root's form of the call
fn raw_mv<T: MEl>(d: &Decomp2d, code: i64, lay: i64, form: i64, role: i64, x: Option<&Buf<T>>, out: Option<&mut Buf<T>>) -> Option<Buf<T>> {
    let xv = x.map(|x| x.view::<Ix2>());
    let mut ov = out.map(|o| o.view_mut::<Ix2>());
    macro_rules! x { () => { xv.as_ref().unwrap() } }
    macro_rules! o { () => { ov.as_mut().unwrap() } }
    let isx = lay == X;
    let before = ov.as_ref().map(crate::buf::form);
    match (code, role, form) {
        (T_XY, _, _) => d.transpose_x_to_y(x!(), o!()),
        (T_YX, _, _) => d.transpose_y_to_x(x!(), o!()),
        (GATHER, 0, _) if isx => d.gather_x(x!()),
        (GATHER, 0, _) => d.gather_y(x!()),
        (GATHER, _, 0) => return Some(Buf::from_nd(&if isx { d.gather_x_root(x!()) } else { d.gather_y_root(x!()) })),
        (GATHER, _, _) if isx => d.gather_x_inplace_root(x!(), o!()),
        (GATHER, _, _) => d.gather_y_inplace_root(x!(), o!()),
        (ALLGATHER, _, _) if isx => d.all_gather_x(x!(), o!()),
        (ALLGATHER, _, _) => d.all_gather_y(x!(), o!()),
        (SCATTER, 0, 0) => return Some(Buf::from_nd(&if isx { d.scatter_x::<T>() } else { d.scatter_y::<T>() })),
        (SCATTER, 0, _) if isx => d.scatter_x_inplace(o!()),
        (SCATTER, 0, _) => d.scatter_y_inplace(o!()),
        (SCATTER, _, 0) => return Some(Buf::from_nd(&if isx { d.scatter_x_root(x!()) } else { d.scatter_y_root(x!()) })),
        (SCATTER, _, _) if isx => d.scatter_x_inplace_root(x!(), o!()),
        (SCATTER, _, _) => d.scatter_y_inplace_root(x!(), o!()),
        (SPLIT, _, 0) => return Some(Buf::from_nd(&if isx { d.split_array_x_pencil(x!()) } else { d.split_array_y_pencil(x!()) })),
        (SPLIT, _, _) if isx => d.x_pencil.split_array_inplace(x!(), o!()),
        (SPLIT, _, _) => d.y_pencil.split_array_inplace(x!(), o!()),
        _ => unreachable!(),
    }
    if let Some(w) = &ov {
        crate::buf::same_form(w, before.unwrap());
    }
    None
}

/// a block of a global array
#[derive(Clone, Copy, Debug)]
struct Blk {
    g: [usize; 2],
    st: [usize; 2],
    sz: [usize; 2],
}
impl Blk {
    fn len(&self) -> usize {
        self.sz[0] * self.sz[1]
    }
    fn glob(&self, i: usize) -> usize {
        (self.st[0] + i / self.sz[1]) * self.g[1] + self.st[1] + i % self.sz[1]
    }
    fn cut(&self, a: &Arr) -> Arr {
        assert_eq!(&a.dims[..], &self.g[..]);
        Arr {
            dims: self.sz.to_vec(),
            v: (0..self.len()).map(|i| a.v[self.glob(i)]).collect(),
            e: (0..self.len()).map(|i| a.e[self.glob(i)]).collect(),
        }
    }
}
fn block(d: &Decomp2d, lay: i64) -> Blk {
    let g = d.get_global_shape();
    match lay {
        X => Blk { g, st: d.x_pencil.st, sz: d.x_pencil.sz },
        Y => Blk { g, st: d.y_pencil.st, sz: d.y_pencil.sz },
        _ => Blk { g, st: [0, 0], sz: g },
    }
}
fn in_lay(o: &Op) -> i64 {
    match o.code {
        T_XY => X,
        T_YX => Y,
        GATHER | ALLGATHER => o.lay,
        _ => GLOBAL_ALL,
    }
}
fn out_lay(o: &Op) -> i64 {
    match o.code {
        T_XY => Y,
        T_YX => X,
        GATHER | ALLGATHER => GLOBAL_ALL,
        _ => o.lay,
    }
}
fn distort(d: [usize; 2], right: [usize; 2], g: [usize; 2], v: i64) -> Vec<usize> {
    let w = match v {
        0 => [d[1], d[0]],
        1 => [d[0] + 1, d[1]],
        2 => [d[0], d[1] + 1],
        3 => [d[0].max(2) - 1, d[1]],
        4 => [d[0], d[1].max(2) - 1],
        5 => g,
        6 => [g[0] - g[0] / 2, g[1]],
        _ => [d[0] + 1, d[1] + 1],
    };
    if w == right { vec![d[0] + 1, d[1]] } else { w.to_vec() }
}

/// One data movement over buffers of T. `elem(i)`: global element i. `chain`:
/// use this as input instead. Returns the output where there is one.
#[allow(clippy::too_many_arguments)]
fn movement<T: MEl>(
    s: &Scn,
    i: usize,
    d: &Decomp2d,
    rank: usize,
    elem: &dyn Fn(usize) -> T,
    chain: Option<&Buf<T>>,
    verify: &dyn Fn(&Buf<T>, Blk),
    run: &dyn Fn(i64, Option<&Buf<T>>, Option<&mut Buf<T>>) -> Option<Buf<T>>,
    junk: &dyn Fn(usize) -> T,
) -> Option<Buf<T>> {
    let o = &s.ops[i];
    let bi = block(d, in_lay(o));
    let bo = block(d, out_lay(o));
    let bad = o.misuse > 0 && o.mask >> rank & 1 == 1;
    let mut role = (rank == 0) as i64;
    let mut mis = o.misuse;
    let right_role = role;
    if bad && mis == MM_ROLE {
        role = 1 - role;
    }
    // which arrays does this form of the call take?
    let has_in = !(o.code == SCATTER && role == 0);
    let has_out = match o.code {
        GATHER => role == 1 && o.form == 1,
        SCATTER | SPLIT => o.form == 1,
        _ => true,
    };
    if bad && mis == MM_IN_SHAPE && !has_in {
        mis = MM_OUT_SHAPE;
    }
    if bad && mis == MM_OUT_SHAPE && !has_out {
        mis = if has_in { MM_IN_SHAPE } else { MM_ROLE };
        if mis == MM_ROLE {
            role = 1 - right_role;
        }
    }
    let has_in = !(o.code == SCATTER && role == 0);
    let has_out = match o.code {
        GATHER => role == 1 && o.form == 1,
        SCATTER | SPLIT => o.form == 1,
        _ => true,
    };
    let mut idims = bi.sz.to_vec();
    let mut odims = bo.sz.to_vec();
    if bad && mis == MM_IN_SHAPE {
        idims = distort(bi.sz, bi.sz, bi.g, o.e0);
    }
    if bad && mis == MM_OUT_SHAPE {
        odims = distort(bo.sz, bo.sz, bo.g, o.e0);
    }
    if o.misuse > 0 && !bad {
        return None; // the others do not take part in the call
    }
    let x: Option<Buf<T>> = if !has_in {
        None
    } else if bad {
        Some(Buf::new(&idims, 0, |j| junk(j + 7)))
    } else if let Some(c) = chain {
        Some(c.clone())
    } else if o.src > 0 {
        return None;
    } else {
        let mut b = Buf::new(&idims, o.nest as usize % 8, |_| T::zero());
        for j in 0..b.len() {
            b.set(j, elem(bi.glob(j)));
        }
        Some(b)
    };
    let mut out: Option<Buf<T>> = if has_out {
        if o.outpat > 0 {
            sh().stat[stat::STALE_OUT] += 1;
        }
        Some(Buf::new(&odims, o.nest as usize / 8, |j| if o.outpat > 0 { junk(j) } else { T::zero() }))
    } else {
        None
    };
    let x0 = x.as_ref().map(|b| b.bytes().to_vec());
    let o0 = out.as_ref().map(|b| b.bytes().to_vec());
    op_begin(i, o);
    if bad {
        sh().mpi.forbid[rank] = 1;
    }
    let r = guarded(|| run(role, x.as_ref(), out.as_mut()));
    sh().mpi.forbid[rank] = 0;
    if x.as_ref().map(|b| b.bytes().to_vec()) != x0 {
        viol("input-altered", s, i, "the input array (or memory next to it) was written to".into());
    }
    if !out.as_ref().map(|b| b.guards_ok()).unwrap_or(true) {
        viol("out-of-bounds-write", s, i, "memory next to the output array was written to".into());
    }
    if bad {
        match r {
            Ok(_) => viol("misuse-accepted", s, i, format!("misuse {} (role {}, input {:?}, output {:?}) did not panic", mis, role, idims, odims)),
            Err(_) => {
                sh().stat[stat::REJECTED] += 1;
                if out.as_ref().map(|b| b.bytes().to_vec()) != o0 {
                    viol("output-altered", s, i, "a rejected call wrote to its output array".into());
                }
            }
        }
        op_end(i, 1);
        return None;
    }
    let r = match r {
        Err(m) => viol("unexpected-panic", s, i, m),
        Ok(r) => r,
    };
    let res = r.or(out);
    if let Some(b) = &res {
        if b.dims != bo.sz {
            viol("wrong-shape", s, i, format!("result has shape {:?}, expected {:?}", b.dims, bo.sz));
        }
        sh().stat[stat::COMPARED] += b.len() as u64;
        verify(b, bo);
    }
    op_end(i, 0);
    res
}

fn same_bits<T: El>(a: &T, b: &T) -> bool {
    let n = std::mem::size_of::<T>();
    unsafe { std::slice::from_raw_parts(a as *const T as *const u8, n) == std::slice::from_raw_parts(b as *const T as *const u8, n) }
}
fn bits_check<T: MEl>(s: &Scn, i: usize, b: &Buf<T>, blk: Blk, elem: &dyn Fn(usize) -> T) {
    for j in 0..b.len() {
        let want = elem(blk.glob(j));
        if !same_bits(&b.get(j), &want) {
            let at = [blk.st[0] + j / blk.sz[1], blk.st[1] + j % blk.sz[1]];
            let mut from = None;
            for q in 0..blk.g[0] * blk.g[1] {
                if same_bits(&b.get(j), &elem(q)) {
                    from = Some([q / blk.g[1], q % blk.g[1]]);
                    break;
                }
            }
            viol("wrong-element", s, i, match from {
                Some(f) => format!("global element {:?} holds what belongs to {:?}", at, f),
                None => format!("global element {:?} holds a value that is in no array: {:?} (expected {:?})", at, b.get(j), want),
            });
        }
    }
}

fn raw_op<T: MEl>(s: &Scn, i: usize, d: &Decomp2d, rank: usize) {
    let o = &s.ops[i];
    let sd = op_input_seed(s, o);
    let run = 1 + (sd >> 9) as usize % 60;
    let elem = |q: usize| {
        let zero = match o.pat {
            5 => mix(sd, 3 * q as u64 + 7) % 5 > 0,
            9 => (q / run + (sd >> 3) as usize) % 4 > 0,
            10 => true,
            _ => false,
        };
        let q = match o.pat {
            6 => 0,
            13 => 2 * (q / 2) as u64,
            14 => 2 * (q as u64 % (1 + (sd >> 6) % 24)),
            _ => 2 * q as u64,
        };
        if o.pat == 11 || o.pat == 16 {
            // zeros of both signs, not-a-numbers with a payload, infinities, subnormals, extremes
            let pick = |h: u64| {
                if std::mem::size_of::<T>() % 8 == 0 && h & 64 == 0 {
                    [0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8_0000_0000_1234, (0x7ff0 << 48) | 1, 1, (1 << 63) | 1, 0x7fef << 48, u64::MAX][h as usize % 11]
                } else {
                    [0u64, 1 << 31, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_4321, 0x7f80_0001, 1, 0x8000_0001, 0x7f7f_ffff, 0xffff_ffff][h as usize % 11]
                }
            };
            return T::from_bits(pick(mix(sd, q) >> 8), pick(mix(sd, q + 1) >> 8));
        }
        if zero { T::zero() } else { T::from_bits(mix(sd, q), mix(sd, q + 1)) }
    };
    let sj = mix(sd, 0x1234_5678 + rank as u64);
    let junk = |q: usize| T::from_bits(mix(sj, 2 * q as u64), mix(sj, 2 * q as u64 + 1));
    movement(
        s,
        i,
        d,
        rank,
        &elem,
        None,
        &|b, blk| bits_check(s, i, b, blk, &elem),
        &|role, x, out| raw_mv(d, o.code, o.lay, o.form, role, x, out),
        &junk,
    );
}

fn scalar_op<T: MEl + std::iter::Sum + PartialEq>(s: &Scn, i: usize, u: &Universe, rank: usize, float: bool) {
    let o = &s.ops[i];
    let sd = op_input_seed(s, o);
    let n = s.head.ranks as usize;
    let val = |r: usize| -> T {
        let h = mix(sd, match o.pat { 3 => 1, 2 => r as u64 / 2 + 1, _ => r as u64 + 1 });
        if o.pat == 1 {
            return T::zero();
        }
        if o.pat == 4 && o.code != BCAST {
            if float {
                // far apart in size
                return T::from_c(C::new(10f64.powi((h % 60) as i32 - 30), -10f64.powi((h / 64 % 60) as i32 - 30)));
            }
            // as large as the total of 32 of them allows
            let bits = 8 * std::mem::size_of::<T>() as u32;
            return T::from_bits(h >> (64 - bits) >> 6, 0);
        }
        if o.pat == 2 && float && o.code != BCAST {
            // they cancel in pairs
            let e = (1 - 2 * (r as i64 % 2)) as f64 * ((h >> 8) % 2001) as f64;
            return T::from_c(C::new(e, -e));
        }
        if o.code == BCAST {
            T::from_bits(h, mix(h, 5))
        } else if float {
            let e = 10f64.powi((h % 7) as i32 - 3);
            T::from_c(C::new(e * ((h >> 8) % 2001) as f64 - 900.0 * e, e * ((h >> 24) % 2001) as f64 - 700.0 * e))
        } else {
            // sums of up to 21 ranks fit into a byte
            T::from_c(C::new((h % 12) as f64, 0.0))
        }
    };
    let junk: T = T::from_bits(mix(sd, 999 + rank as u64), mix(sd, 555));
    op_begin(i, o);
    if o.code == BCAST {
        let mut v = if rank == 0 { val(0) } else { junk };
        if let Err(m) = guarded(|| broadcast_scalar(u, &mut v)) {
            viol("unexpected-panic", s, i, m);
        }
        if !same_bits(&v, &val(0)) {
            viol("wrong-value", s, i, format!("broadcast gives {:?}, the root has {:?}", v, val(0)));
        }
    } else {
        let v = val(rank);
        let mut r = junk;
        let g = guarded(|| if o.code == GSUM { gather_sum(u, &v, &mut r) } else { all_gather_sum(u, &v, &mut r) });
        if let Err(m) = g {
            viol("unexpected-panic", s, i, m);
        }
        if !same_bits(&v, &val(rank)) {
            viol("input-altered", s, i, "the contributed value was changed".into());
        }
        if o.code == AGSUM || rank == 0 {
            // each once, in rank order: the same additions, so the same result
            let want: T = (0..n).map(val).sum();
            sh().stat[stat::COMPARED] += 1;
            if r != want {
                viol("wrong-value", s, i, format!("sum {:?}, adding the contributions in rank order gives {:?}", r, want));
            }
        } else if !same_bits(&r, &junk) {
            viol("output-altered", s, i, "the result variable of a process other than the root changed".into());
        }
    }
    op_end(i, 0);
}

/// all ranks must have derived the same table
fn agree(key: u64, h: u64) -> bool {
    let a = &mut sh().agree;
    for e in a.iter_mut() {
        if e.0 == 0 {
            *e = (key, h);
            return true;
        }
        if e.0 == key {
            return e.1 == h;
        }
    }
    true
}
fn check_dist(d: &decomp2d::Distribution<2>, n: [usize; 2], p: usize, rank: usize, axis: usize) -> Result<(), String> {
    let split = 1 - axis;
    let e = |m: String| Err(format!("layout of {:?} over {} processes, axis {} contiguous: {}", n, p, axis, m));
    if d.nprocs != p || d.nrank != rank || d.axis_contig != axis {
        return e(format!("reports {} processes, rank {}, contiguous axis {}", d.nprocs, d.nrank, d.axis_contig));
    }
    if d.st_procs.len() != p || d.en_procs.len() != p || d.sz_procs.len() != p {
        return e("table does not have one entry per process".into());
    }
    let mut next = 0;
    let (mut lo, mut hi) = (usize::MAX, 0);
    for r in 0..p {
        if d.st_procs[r][axis] != 0 || d.sz_procs[r][axis] != n[axis] || d.en_procs[r][axis] + 1 != n[axis] {
            return e(format!("rank {} does not hold the whole contiguous axis", r));
        }
        let (st, en, sz) = (d.st_procs[r][split], d.en_procs[r][split], d.sz_procs[r][split]);
        if st != next {
            return e(format!("rank {} starts at {}, the ranks before it end at {}", r, st, next));
        }
        if en + 1 != st + sz {
            return e(format!("rank {}: start {}, end {}, size {}", r, st, en, sz));
        }
        next = st + sz;
        lo = lo.min(sz);
        hi = hi.max(sz);
    }
    if next != n[split] {
        return e(format!("{} of {} points are distributed", next, n[split]));
    }
    if hi - lo > 1 {
        return e(format!("block sizes from {} to {}", lo, hi));
    }
    if d.st != d.st_procs[rank] || d.en != d.en_procs[rank] || d.sz != d.sz_procs[rank] {
        return e(format!("rank {} reports a block other than the one in the table", rank));
    }
    if d.length() != d.sz[0] * d.sz[1] {
        return e(format!("length {} of a block {:?}", d.length(), d.sz));
    }
    Ok(())
}
fn dist_hash(d: &decomp2d::Distribution<2>) -> u64 {
    let mut h = 1;
    for t in [&d.st_procs, &d.en_procs, &d.sz_procs] {
        for x in t.iter() {
            h = mix(mix(h, x[0] as u64), x[1] as u64);
        }
    }
    h
}
fn check_decomp(d: &Decomp2d, n: [usize; 2], p: usize, rank: usize) -> Result<(), String> {
    if d.get_global_shape() != n || d.n_global != n {
        return Err(format!("layout of {:?} reports the global shape {:?}", n, d.get_global_shape()));
    }
    if d.nprocs as usize != p || d.nrank as usize != rank {
        return Err(format!("layout reports {} processes and rank {}", d.nprocs, d.nrank));
    }
    check_dist(&d.x_pencil, n, p, rank, 0)?;
    check_dist(&d.y_pencil, n, p, rank, 1)?;
    if d.get_x_pencil_shape() != d.x_pencil.sz || d.get_y_pencil_shape() != d.y_pencil.sz {
        return Err("pencil shapes differ from the layout's block".into());
    }
    let key = |a: u64| mix(mix(n[0] as u64, n[1] as u64), (p as u64) << 2 | a) | 1;
    if !agree(key(0), dist_hash(&d.x_pencil)) || !agree(key(1), dist_hash(&d.y_pencil)) {
        return Err(format!("ranks disagree about the layout of {:?}", n));
    }
    Ok(())
}

macro_rules! imp {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use crate::bases::$m::*;

            pub trait SpM {
                fn calc(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_>;
                fn serial(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_>;
                fn mv_r(&self, o: &Op, role: i64, x: Option<&Buf<A>>, out: Option<&mut Buf<A>>) -> Option<Buf<A>>;
                fn mv_c(&self, o: &Op, role: i64, x: Option<&Buf<Complex<A>>>, out: Option<&mut Buf<Complex<A>>>) -> Option<Buf<Complex<A>>>;
                fn dec(&self, shape: &[usize]) -> &Decomp2d<'_>;
                /// (physical x, y; spectral x, y) from the shape functions and from fresh arrays
                fn local(&self) -> [[[usize; 2]; 4]; 2];
                fn glob(&self) -> [[usize; 2]; 3];
                fn world(&self) -> (usize, usize);
                fn dup(&self) -> Box<dyn SpM + '_>;
            }
            type R = BaseR2r<A>;
            type F = BaseR2c<A>;
            type Z = BaseC2c<A>;
            type RT = A;
            type CT = Complex<A>;
            macro_rules! space_mv {
                ($self:ident, $o:ident, $role:ident, $x:ident, $out:ident, $dom:ident) => {{
                    let xv = $x.map(|x| x.view::<Ix2>());
                    let mut ov = $out.map(|o| o.view_mut::<Ix2>());
                    space_mv!(@ $dom, $self, $o, $role, xv, ov)
                }};
                (@ phys, $self:ident, $o:ident, $role:ident, $x:ident, $out:ident) => {
                    space_mv!(! $self, $o, $role, $x, $out, transpose_x_to_y_phys, transpose_y_to_x_phys,
                        gather_from_x_pencil_phys, gather_from_y_pencil_phys, gather_from_x_pencil_phys_root, gather_from_y_pencil_phys_root,
                        all_gather_from_x_pencil_phys, all_gather_from_y_pencil_phys,
                        scatter_to_x_pencil_phys, scatter_to_y_pencil_phys, scatter_to_x_pencil_phys_root, scatter_to_y_pencil_phys_root)
                };
                (@ spec, $self:ident, $o:ident, $role:ident, $x:ident, $out:ident) => {
                    space_mv!(! $self, $o, $role, $x, $out, transpose_x_to_y_spec, transpose_y_to_x_spec,
                        gather_from_x_pencil_spec, gather_from_y_pencil_spec, gather_from_x_pencil_spec_root, gather_from_y_pencil_spec_root,
                        all_gather_from_x_pencil_spec, all_gather_from_y_pencil_spec,
                        scatter_to_x_pencil_spec, scatter_to_y_pencil_spec, scatter_to_x_pencil_spec_root, scatter_to_y_pencil_spec_root)
                };
                (! $self:ident, $o:ident, $role:ident, $x:ident, $out:ident, $txy:ident, $tyx:ident, $gx:ident, $gy:ident, $gxr:ident, $gyr:ident,
                    $ax:ident, $ay:ident, $sx:ident, $sy:ident, $sxr:ident, $syr:ident) => {{
                    let isx = $o.lay == X;
                    let before = $out.as_ref().map(crate::buf::form);
                    match ($o.code, $role) {
                        (T_XY, _) => $self.$txy($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (T_YX, _) => $self.$tyx($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (GATHER, 0) if isx => $self.$gx($x.as_ref().unwrap()),
                        (GATHER, 0) => $self.$gy($x.as_ref().unwrap()),
                        (GATHER, _) if isx => $self.$gxr($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (GATHER, _) => $self.$gyr($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (ALLGATHER, _) if isx => $self.$ax($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (ALLGATHER, _) => $self.$ay($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (SCATTER, 0) if isx => $self.$sx($out.as_mut().unwrap()),
                        (SCATTER, 0) => $self.$sy($out.as_mut().unwrap()),
                        (SCATTER, _) if isx => $self.$sxr($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        (SCATTER, _) => $self.$syr($x.as_ref().unwrap(), $out.as_mut().unwrap()),
                        _ => unreachable!(),
                    }
                    if let Some(w) = &$out {
                        crate::buf::same_form(w, before.unwrap());
                    }
                    None
                }};
            }
            // which of the two element types the physical and the spectral arrays have
            macro_rules! mv_pair {
                (R, R) => {
                    fn mv_r(&self, o: &Op, role: i64, x: Option<&Buf<RT>>, out: Option<&mut Buf<RT>>) -> Option<Buf<RT>> {
                        if o.dom == PHYS { space_mv!(self, o, role, x, out, phys) } else { space_mv!(self, o, role, x, out, spec) }
                    }
                    fn mv_c(&self, _: &Op, _: i64, _: Option<&Buf<CT>>, _: Option<&mut Buf<CT>>) -> Option<Buf<CT>> { unreachable!() }
                };
                (R, C) => {
                    fn mv_r(&self, o: &Op, role: i64, x: Option<&Buf<RT>>, out: Option<&mut Buf<RT>>) -> Option<Buf<RT>> {
                        space_mv!(self, o, role, x, out, phys)
                    }
                    fn mv_c(&self, o: &Op, role: i64, x: Option<&Buf<CT>>, out: Option<&mut Buf<CT>>) -> Option<Buf<CT>> {
                        space_mv!(self, o, role, x, out, spec)
                    }
                };
                (C, C) => {
                    fn mv_r(&self, _: &Op, _: i64, _: Option<&Buf<RT>>, _: Option<&mut Buf<RT>>) -> Option<Buf<RT>> { unreachable!() }
                    fn mv_c(&self, o: &Op, role: i64, x: Option<&Buf<CT>>, out: Option<&mut Buf<CT>>) -> Option<Buf<CT>> {
                        if o.dom == PHYS { space_mv!(self, o, role, x, out, phys) } else { space_mv!(self, o, role, x, out, spec) }
                    }
                };
            }
            fn sc(o: &Op) -> Option<[A; 2]> {
                o.scales().map(|s| [s[0] as A, s[1] as A])
            }
            macro_rules! space_m {
                ($b0:ident, $b1:ident, $P:ident, $S:ident) => {
                    impl SpM for Space2Mpi<'_, $b0, $b1> {
                        fn calc(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                            macro_rules! io { ($IV:ident, $OV:ident, $al:ident, $in:ident) => {{
                                let Data::$IV(x) = x else { unreachable!("element type") };
                                let v = x.view::<Ix2>();
                                if o.form == 1 {
                                    let Some(Data::$OV(ob)) = out else { unreachable!() };
                                    let mut w = ob.view_mut::<Ix2>();
                                    let form = crate::buf::form(&w);
                                    self.$in(&v, &mut w);
                                    crate::buf::same_form(&w, form);
                                    None
                                } else {
                                    Some(Data::$OV(Buf::from_nd(&self.$al(&v))))
                                }
                            }}}
                            match o.op {
                                FWD => io!($P, $S, forward_mpi, forward_inplace_mpi),
                                BWD => io!($S, $P, backward_mpi, backward_inplace_mpi),
                                TO => io!($S, $S, to_ortho_mpi, to_ortho_inplace_mpi),
                                FROM => io!($S, $S, from_ortho_mpi, from_ortho_inplace_mpi),
                                _ => {
                                    let Data::$S(x) = x else { unreachable!("element type") };
                                    let v = x.view::<Ix2>();
                                    Some(Data::$S(Buf::from_nd(&self.gradient_mpi(&v, [o.k0 as usize, o.k1 as usize], sc(o)))))
                                }
                            }
                        }
                        fn serial(&self, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                            macro_rules! io { ($IV:ident, $OV:ident, $al:ident, $in:ident, $alp:ident, $inp:ident) => {{
                                let Data::$IV(x) = x else { unreachable!("element type") };
                                let v = x.view::<Ix2>();
                                if o.form == 1 {
                                    let Some(Data::$OV(ob)) = out else { unreachable!() };
                                    let mut w = ob.view_mut::<Ix2>();
                                    let form = crate::buf::form(&w);
                                    if o.par == 1 { self.$inp(&v, &mut w) } else { self.$in(&v, &mut w) }
                                    crate::buf::same_form(&w, form);
                                    None
                                } else {
                                    let r = if o.par == 1 { self.$alp(&v) } else { self.$al(&v) };
                                    Some(Data::$OV(Buf::from_nd(&r)))
                                }
                            }}}
                            match (o.op, &*x) {
                                (FWD, _) => io!($P, $S, forward, forward_inplace, forward_par, forward_inplace_par),
                                (BWD, _) => io!($S, $P, backward, backward_inplace, backward_par, backward_inplace_par),
                                (TO, Data::C(_)) => io!(C, C, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                                (FROM, Data::C(_)) => io!(C, C, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                                (_, Data::C(x)) => {
                                    let v = x.view::<Ix2>();
                                    let k = [o.k0 as usize, o.k1 as usize];
                                    let r = if o.par == 1 { self.gradient_par(&v, k, sc(o)) } else { self.gradient(&v, k, sc(o)) };
                                    Some(Data::C(Buf::from_nd(&r)))
                                }
                                (TO, _) => io!($S, $S, to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
                                (FROM, _) => io!($S, $S, from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
                                _ => {
                                    let Data::$S(x) = x else { unreachable!("element type") };
                                    let v = x.view::<Ix2>();
                                    let k = [o.k0 as usize, o.k1 as usize];
                                    let r = if o.par == 1 { self.gradient_par(&v, k, sc(o)) } else { self.gradient(&v, k, sc(o)) };
                                    Some(Data::$S(Buf::from_nd(&r)))
                                }
                            }
                        }
                        mv_pair!($P, $S);
                        fn dec(&self, shape: &[usize]) -> &Decomp2d<'_> {
                            self.get_decomp_from_global_shape(shape)
                        }
                        fn local(&self) -> [[[usize; 2]; 4]; 2] {
                            let d = |s: &[usize]| [s[0], s[1]];
                            [
                                [self.shape_physical_x_pen(), self.shape_physical_y_pen(), self.shape_spectral_x_pen(), self.shape_spectral_y_pen()],
                                [
                                    d(self.ndarray_physical_x_pen().shape()),
                                    d(self.ndarray_physical_y_pen().shape()),
                                    d(self.ndarray_spectral_x_pen().shape()),
                                    d(self.ndarray_spectral_y_pen().shape()),
                                ],
                            ]
                        }
                        fn glob(&self) -> [[usize; 2]; 3] {
                            [self.shape_physical(), self.shape_spectral(), self.shape_spectral_ortho()]
                        }
                        fn world(&self) -> (usize, usize) {
                            (self.get_nprocs(), self.get_nrank())
                        }
                        fn dup(&self) -> Box<dyn SpM + '_> {
                            Box::new(self.clone())
                        }
                    }
                };
            }
            space_m!(R, R, R, R);
            space_m!(F, R, R, C);
            space_m!(Z, F, R, C);
            space_m!(Z, Z, C, C);

            fn make_sp<'a>(a: &AnyBase, b: &AnyBase, u: &'a Universe) -> Box<dyn SpM + 'a> {
                use AnyBase as B;
                match (a, b) {
                    (B::R(a), B::R(b)) => Box::new(Space2Mpi::new(a, b, u)),
                    (B::F(a), B::R(b)) => Box::new(Space2Mpi::new(a, b, u)),
                    (B::Z(a), B::F(b)) => Box::new(Space2Mpi::new(a, b, u)),
                    (B::Z(a), B::Z(b)) => Box::new(Space2Mpi::new(a, b, u)),
                    _ => panic!("unsupported combination of bases"),
                }
            }

            fn calc_op(s: &Scn, i: usize, sp: &dyn SpM, exp: &Exp, src: Option<&D_>) -> Option<D_> {
                let o = &s.ops[i];
                let local = o.lay == GLOBAL_ALL; // every rank on its own, on the whole array
                let (li, lo) = match o.op {
                    _ if local => (GLOBAL_ALL, GLOBAL_ALL),
                    FWD => (Y, X),
                    BWD => (X, Y),
                    _ => (X, X),
                };
                let bi = block(sp.dec(&exp.inp.dims), li);
                let bo = block(sp.dec(&exp.out.dims), lo);
                let (rin, rout) = s.real_io(o);
                let x = match src {
                    Some(d) => d.clone(),
                    None if o.src > 0 => return None,
                    None => Data::make(&bi.sz, rin, 0, |j| exp.inp.v[bi.glob(j)]),
                };
                let mut out: Option<D_> = if o.form == 0 {
                    None
                } else {
                    if o.outpat > 0 {
                        sh().stat[stat::STALE_OUT] += 1;
                    }
                    Some(Data::prefill(&bo.sz, rout, 0, o.outpat, op_input_seed(s, o)))
                };
                let x0 = x.bytes().to_vec();
                op_begin(i, o);
                let r = guarded(|| if local { sp.serial(o, &x, &mut out) } else { sp.calc(o, &x, &mut out) });
                if x.bytes() != &x0[..] {
                    viol("input-altered", s, i, "the input array (or memory next to it) was written to".into());
                }
                let res = match r {
                    Err(m) => viol("unexpected-panic", s, i, m),
                    Ok(r) => r.or(out).unwrap(),
                };
                if res.dims() != &bo.sz[..] || res.is_real() != rout {
                    viol("wrong-shape", s, i, format!("result has shape {:?}, expected {:?}", res.dims(), bo.sz));
                }
                if !res.guards_ok() {
                    viol("out-of-bounds-write", s, i, "memory next to the output array was written to".into());
                }
                crate::check(s, i, res.dims(), &|j| res.at(j), &bo.cut(&exp.out), "local ");
                op_end(i, 0);
                Some(res)
            }

            fn mv_op(s: &Scn, i: usize, sp: &dyn SpM, exp: &Exp, src: Option<&D_>, rank: usize) -> Option<D_> {
                let o = &s.ops[i];
                let d = sp.dec(&exp.inp.dims);
                let raw = o.dom == ORTH || o.code == SPLIT;
                let real = {
                    let (p, q) = s.real_io(&Op { op: FWD, code: CALC, ..*o });
                    if o.dom == PHYS { p } else { q }
                };
                let sj = mix(op_input_seed(s, o), 77 + rank as u64);
                let jk = |q: usize| C::new((mix(sj, q as u64) % 1001) as f64 + 0.5, (mix(sj, q as u64) >> 33) as f64);
                // moved values are exact copies of what came before
                if real {
                    let chain = match src {
                        Some(Data::R(b)) => Some(b),
                        _ => None,
                    };
                    movement::<RT>(
                        s, i, d, rank,
                        &|q| RT::from_c(exp.inp.v[q]),
                        chain,
                        &|b, blk| crate::check(s, i, &blk.sz, &|j| b.get(j).to_c(), &blk.cut(&exp.out), "local "),
                        &|role, x, out| if raw { raw_mv(d, o.code, o.lay, o.form, role, x, out) } else { sp.mv_r(o, role, x, out) },
                        &|q| RT::from_c(jk(q)),
                    )
                    .map(Data::R)
                } else {
                    let chain = match src {
                        Some(Data::C(b)) => Some(b),
                        _ => None,
                    };
                    movement::<CT>(
                        s, i, d, rank,
                        &|q| CT::from_c(exp.inp.v[q]),
                        chain,
                        &|b, blk| crate::check(s, i, &blk.sz, &|j| b.get(j).to_c(), &blk.cut(&exp.out), "local "),
                        &|role, x, out| if raw { raw_mv(d, o.code, o.lay, o.form, role, x, out) } else { sp.mv_c(o, role, x, out) },
                        &|q| CT::from_c(jk(q)),
                    )
                    .map(Data::C)
                }
            }

            fn layout_space(s: &Scn, o: &Op, sp: &dyn SpM, rank: usize) -> Result<(), String> {
                let p = s.head.ranks as usize;
                if sp.world() != (p, rank) {
                    return Err(format!("space reports (processes, rank) {:?}", sp.world()));
                }
                let b = s.space(o.idx);
                let want = [[b[0].phys(), b[1].phys()], [b[0].spec(), b[1].spec()], [b[0].orth(), b[1].orth()]];
                if sp.glob() != want {
                    return Err(format!("global shapes {:?}, expected {:?}", sp.glob(), want));
                }
                let mut all = want.to_vec();
                all.push([want[1][0], want[0][1]]);
                all.push([want[0][0], want[1][1]]);
                for g in &all {
                    let d = match guarded(|| sp.dec(g)) {
                        Ok(d) => d,
                        Err(m) => return Err(format!("no layout registered for {:?}: {}", g, m)),
                    };
                    check_decomp(d, *g, p, rank)?;
                }
                let loc = match guarded(|| sp.local()) {
                    Ok(l) => l,
                    Err(m) => return Err(m),
                };
                let (dp, ds) = (sp.dec(&want[0]), sp.dec(&want[1]));
                let w = [dp.x_pencil.sz, dp.y_pencil.sz, ds.x_pencil.sz, ds.y_pencil.sz];
                for l in &loc {
                    if *l != w {
                        return Err(format!("local shapes (physical x, y, spectral x, y) {:?}, layouts say {:?}", l, w));
                    }
                }
                Ok(())
            }

            pub fn main(s: &Scn, exp: &[Option<Exp>], rank: usize) {
                let u = match guarded(initialize) {
                    Ok(Some(u)) => u,
                    Ok(None) => sched::violation("mpi-usage", "initialize() refused to initialise MPI"),
                    Err(m) => sched::violation("unexpected-panic", &m),
                };
                {
                    let bases: Vec<AnyBase> = (0..s.bases.len()).map(|i| make(&s.base(i as i64))).collect();
                    let mk = guarded(|| {
                        let decs: Vec<Decomp2d> = s.decs.iter().map(|d| Decomp2d::new(&u, [d[0] as usize, d[1] as usize])).collect();
                        let spaces: Vec<Box<dyn SpM>> =
                            s.spaces.iter().map(|p| make_sp(&bases[p.b0 as usize], &bases[p.b1 as usize], &u)).collect();
                        (decs, spaces)
                    });
                    let (decs, spaces) = match mk {
                        Ok(x) => x,
                        Err(m) => sched::violation("unexpected-panic", &format!("creating layouts and spaces: {}", m)),
                    };
                    let mut outs: Vec<Option<D_>> = vec![None; s.ops.len()];
                    for i in 0..s.ops.len() {
                        let o = &s.ops[i];
                        let src = if o.src > 0 { outs[o.src as usize - 1].clone() } else { None };
                        // the space itself, a copy of it, or another one made just now
                        let other = match o.clone {
                            _ if o.tgt == 0 || o.idx as usize >= spaces.len() => None,
                            1 => Some(guarded(|| spaces[o.idx as usize].dup())),
                            2 => {
                                let p = s.spaces[o.idx as usize];
                                Some(guarded(|| make_sp(&bases[p.b0 as usize], &bases[p.b1 as usize], &u)))
                            }
                            _ => None,
                        };
                        let other = match other {
                            Some(Err(m)) => viol("unexpected-panic", s, i, m),
                            Some(Ok(b)) => Some(b),
                            None => None,
                        };
                        let sp = || -> &dyn SpM { other.as_deref().unwrap_or_else(|| &*spaces[o.idx as usize]) };
                        match o.code {
                            CALC => {
                                if let Some(e) = &exp[i] {
                                    outs[i] = calc_op(s, i, sp(), e, src.as_ref());
                                }
                            }
                            LAYOUT => {
                                op_begin(i, o);
                                let r = if o.tgt == 1 { layout_space(s, o, sp(), rank) } else { layout_dec(s, o, &u, &decs, rank) };
                                if let Err(m) = r {
                                    viol("wrong-layout", s, i, m);
                                }
                                op_end(i, 0);
                            }
                            BCAST | GSUM | AGSUM => scalar(s, i, &u, rank),
                            _ if o.tgt == 1 => {
                                if let Some(e) = &exp[i] {
                                    outs[i] = mv_op(s, i, sp(), e, src.as_ref(), rank);
                                }
                            }
                            _ => raw(s, i, &decs[o.idx as usize], rank),
                        }
                    }
                }
                if let Err(m) = guarded(move || drop(u)) {
                    sched::violation("unexpected-panic", &m);
                }
            }
        }
    };
}
imp!(p32);
imp!(p64);

fn scalar(s: &Scn, i: usize, u: &Universe, rank: usize) {
    match s.ops[i].ety {
        0 => scalar_op::<f64>(s, i, u, rank, true),
        1 => scalar_op::<f32>(s, i, u, rank, true),
        2 => scalar_op::<Complex<f64>>(s, i, u, rank, true),
        3 => scalar_op::<Complex<f32>>(s, i, u, rank, true),
        4 => scalar_op::<i32>(s, i, u, rank, false),
        5 => scalar_op::<u8>(s, i, u, rank, false),
        6 => scalar_op::<i64>(s, i, u, rank, false),
        _ => scalar_op::<u16>(s, i, u, rank, false),
    }
}
fn raw(s: &Scn, i: usize, d: &Decomp2d, rank: usize) {
    match s.ops[i].ety {
        0 => raw_op::<f64>(s, i, d, rank),
        1 => raw_op::<f32>(s, i, d, rank),
        2 => raw_op::<Complex<f64>>(s, i, d, rank),
        3 => raw_op::<Complex<f32>>(s, i, d, rank),
        4 => raw_op::<i32>(s, i, d, rank),
        5 => raw_op::<u8>(s, i, d, rank),
        6 => raw_op::<i64>(s, i, d, rank),
        _ => raw_op::<u16>(s, i, d, rank),
    }
}

fn layout_dec(s: &Scn, o: &Op, u: &Universe, decs: &[Decomp2d], rank: usize) -> Result<(), String> {
    let p = s.head.ranks as usize;
    let d = &decs[o.idx as usize];
    let g = s.decs[o.idx as usize];
    check_decomp(d, [g[0] as usize, g[1] as usize], p, rank)?;
    // layouts for other process counts than the one of this world
    let (n, q) = ([o.e0 as usize, o.e1 as usize], o.e2 as usize);
    if q > 0 && n[0] >= q && n[1] >= q {
        for axis in 0..2 {
            let mut h = None;
            for r in [0, q - 1, o.e3 as usize % q, (o.e3 as usize / 7) % q] {
                let d = match guarded(|| decomp2d::Distribution::<2>::new(n, q, r, axis)) {
                    Ok(d) => d,
                    Err(m) => return Err(format!("layout of {:?} over {} processes: {}", n, q, m)),
                };
                check_dist(&d, n, q, r, axis)?;
                if *h.get_or_insert(dist_hash(&d)) != dist_hash(&d) {
                    return Err(format!("ranks disagree about the layout of {:?} over {} processes", n, q));
                }
            }
        }
    }
    // registration and look-up, in an order the seed decides
    let mut order: Vec<usize> = (0..decs.len()).collect();
    let sd = op_input_seed(s, o);
    for k in (1..order.len()).rev() {
        order.swap(k, (mix(sd, k as u64) % (k as u64 + 1)) as usize);
    }
    if o.mask > 0 {
        let first = order[0];
        order.push(first); // the same shape registered twice
    }
    let mut h = DecompHandler::new(u);
    for (k, j) in order.iter().enumerate() {
        if let Err(m) = guarded(|| h.insert(decs[*j].clone())) {
            return Err(format!("registering a layout: {}", m));
        }
        for j in &order[..=k] {
            let n = [s.decs[*j][0] as usize, s.decs[*j][1] as usize];
            match guarded(|| h.get_decomp_from_global_shape(&n)) {
                Ok(d) => check_decomp(d, n, p, rank)?,
                Err(m) => return Err(format!("registered layout {:?} is not found: {}", n, m)),
            }
        }
    }
    Ok(())
}

pub fn main(s: &Scn, exp: &[Option<Exp>], rank: usize) {
    crate::buf::recycle(s.head.seed & 8 == 0);
    if s.head.prec == 0 {
        p32::main(s, exp, rank)
    } else {
        p64::main(s, exp, rank)
    }
}
