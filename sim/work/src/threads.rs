//! Threads world: several caller threads of one process use bases and spaces,
//! with the real rayon pool underneath.
use crate::buf::{Buf, Data};
use crate::{guarded, op_begin, op_end, viol};
use rayon::prelude::*;
use refm::scn::*;
use refm::*;
use simk::sched::{self, sh};
use simk::sh::stat;

macro_rules! imp {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use crate::bases::$m::*;
            use std::collections::HashMap;
            use std::sync::Mutex;

            struct Ctx<'a> {
                s: &'a Scn,
                exp: &'a [Option<Exp>],
                bases: &'a [AnyBase],
                spaces: &'a [Box<dyn Sp>],
                groups: &'a Mutex<HashMap<i64, (usize, Vec<u8>)>>,
            }

            /// run one call through the object the operation names
            fn invoke(c: &Ctx, o: &Op, x: &D_, out: &mut Option<D_>) -> Option<D_> {
                if o.tgt == 0 {
                    match o.clone {
                        1 => base_op(&c.bases[o.idx as usize].clone(), o, x, out),
                        2 => base_op(&make(&c.s.base(o.idx)), o, x, out),
                        _ => base_op(&c.bases[o.idx as usize], o, x, out),
                    }
                } else {
                    match o.clone {
                        1 => c.spaces[o.idx as usize].dup().run(o, x, out),
                        2 => {
                            let sp = c.s.spaces[o.idx as usize];
                            let b: Vec<AnyBase> = [sp.b0, sp.b1, sp.b2][..sp.dim as usize].iter().map(|b| make(&c.s.base(*b))).collect();
                            let r: Vec<&AnyBase> = b.iter().collect();
                            make_space(&r).run(o, x, out)
                        }
                        _ => c.spaces[o.idx as usize].run(o, x, out),
                    }
                }
            }

            /// a memory layout that is not the usual one
fn odd_lay(o: &Op) -> usize {
    1 + refm::mix(o.seed as u64, 77) as usize % (crate::buf::NLAY - 1)
}
fn wrong_dims(d: &[usize], axis: usize, lanes: bool, v: i64) -> Vec<usize> {
                let mut w = d.to_vec();
                let a = if lanes { (axis + 1 + (v as usize / 4) % (d.len().max(2) - 1)) % d.len() } else { axis };
                w[a] = match v % 4 {
                    0 => w[a] + 1,
                    1 => w[a].max(2) - 1,
                    2 => 2 * w[a] + 1,
                    _ => w[a] + 2,
                };
                if w == d {
                    w[a] += 1;
                }
                w
            }

            fn one(c: &Ctx, i: usize, outs: &mut [Option<D_>]) {
                let s = c.s;
                let o = &s.ops[i];
                let Some(exp) = c.exp[i].as_ref() else {
                    return; // depends on an operation that was left out
                };
                let (_, dout) = s.shapes(o);
                let (_, rout) = s.real_io(o);
                let seed = op_input_seed(s, o);
                let mut x: D_ = if o.src > 0 {
                    match &outs[o.src as usize - 1] {
                        Some(d) => d.clone(),
                        None => return,
                    }
                } else {
                    Data::make(&exp.inp.dims, s.real_io(o).0, 0, |j| exp.inp.v[j])
                };
                let mut odims = dout.clone();
                let mut ons = 0;
                let ax = if o.tgt == 0 { o.axis as usize } else { (o.axis as usize) % odims.len() };
                match o.misuse {
                    M_IN_AXIS | M_LANES if o.misuse == M_IN_AXIS || o.form != 1 || odims.len() < 2 => {
                        let w = wrong_dims(x.dims(), ax, false, o.seed);
                        x = Data::make(&w, x.is_real(), 0, |j| datum(seed, o.pat, j, 64, s.prec(o), false));
                    }
                    M_LANES => odims = wrong_dims(&odims, ax, true, o.seed),
                    M_OUT_AXIS => odims = wrong_dims(&odims, ax, false, o.seed),
                    M_IN_LAYOUT => {
                        let d = x.dims().to_vec();
                        let r = x.is_real();
                        x = Data::make(&d, r, odd_lay(o), |j| exp.inp.v[j]);
                    }
                    M_OUT_LAYOUT => ons = odd_lay(o),
                    _ => {}
                }
                let mut out: Option<D_> = if o.form == 0 {
                    None
                } else {
                    if o.outpat > 0 {
                        sh().stat[stat::STALE_OUT] += 1;
                    }
                    Some(Data::prefill(&odims, rout, ons, o.outpat, seed))
                };
                let x0 = x.bytes().to_vec();
                let out0 = out.as_ref().map(|d| d.bytes().to_vec());
                op_begin(i, o);
                let mut extra: Vec<Option<D_>> = vec![];
                let r = match o.nest {
                    1 => {
                        sh().stat[stat::NESTED] += 1;
                        guarded(|| {
                            let mut r = None;
                            rayon::scope(|sc| sc.spawn(|_| r = invoke(c, o, &x, &mut out)));
                            r
                        })
                    }
                    2 => {
                        sh().stat[stat::NESTED] += 1;
                        let mut out2 = out.clone();
                        let r = guarded(|| rayon::join(|| invoke(c, o, &x, &mut out), || invoke(c, o, &x, &mut out2)));
                        r.map(|(a, b)| {
                            extra.push(b.or(out2));
                            a
                        })
                    }
                    3 => {
                        sh().stat[stat::NESTED] += 1;
                        let mut outs: Vec<Option<D_>> = vec![out.clone(); 3];
                        let r = guarded(|| outs.par_iter_mut().map(|w| invoke(c, o, &x, w)).collect::<Vec<_>>());
                        r.map(|v| {
                            extra = v.into_iter().zip(outs).map(|(a, b)| a.or(b)).collect();
                            out = extra.pop().unwrap();
                            None
                        })
                    }
                    4 => {
                        // a neighbour job in the pool panics
                        sh().stat[stat::NESTED] += 1;
                        let mut ok = false;
                        let mut r = None;
                        let e = guarded(|| {
                            rayon::join(
                                || {
                                    r = invoke(c, o, &x, &mut out);
                                    ok = true;
                                },
                                || panic!("neighbour"),
                            )
                        });
                        match (e, ok) {
                            (Ok(_), _) => viol("panic-lost", s, i, "the panic of a pool job did not reach the caller".into()),
                            (Err(_), true) => Ok(r),
                            (Err(m), false) => Err(m),
                        }
                    }
                    5 => {
                        // a pool of the caller's own, gone afterwards
                        sh().stat[stat::NESTED] += 1;
                        guarded(|| {
                            let n = 1 + (o.seed as u64 % 3) as usize;
                            let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                            pool.install(|| invoke(c, o, &x, &mut out))
                        })
                    }
                    _ => guarded(|| invoke(c, o, &x, &mut out)),
                };
                if x.bytes() != &x0[..] {
                    viol("input-altered", s, i, "the input array (or memory next to it) was written to".into());
                }
                if !out.as_ref().map(|d| d.guards_ok()).unwrap_or(true) {
                    viol("out-of-bounds-write", s, i, "memory next to the output array was written to".into());
                }
                if o.misuse > 0 {
                    match &r {
                        // an unusual memory layout may be rejected or served
                        Ok(_) if o.misuse == M_IN_LAYOUT || o.misuse == M_OUT_LAYOUT => {}
                        Ok(_) => viol("misuse-accepted", s, i, "a call with a wrong array did not panic".into()),
                        Err(_) => {
                            sh().stat[stat::REJECTED] += 1;
                            if out.as_ref().map(|d| d.bytes().to_vec()) != out0 {
                                viol("output-altered", s, i, "a rejected call wrote to its output array".into());
                            }
                            op_end(i, 1);
                            return;
                        }
                    }
                }
                let res = match r {
                    Err(m) => viol("unexpected-panic", s, i, m),
                    Ok(r) => r.or(out).unwrap(),
                };
                extra.push(Some(res));
                for d in extra.iter().flatten() {
                    if d.dims() != &dout[..] || d.is_real() != rout {
                        viol("wrong-shape", s, i, format!("result has shape {:?}, expected {:?}", d.dims(), dout));
                    }
                    if !d.guards_ok() {
                        viol("out-of-bounds-write", s, i, "memory next to the output array was written to".into());
                    }
                    crate::check(s, i, d.dims(), &|j| d.at(j), &exp.out, "");
                }
                let res = extra.pop().unwrap().unwrap();
                for d in extra.iter().flatten() {
                    sh().stat[stat::BITWISE] += 1;
                    if d.bytes() != res.bytes() {
                        viol("not-reproducible", s, i, "two identical calls from the pool returned different bits".into());
                    }
                }
                if let Some(p) = pristine(i) {
                    sh().stat[stat::BITWISE] += 1;
                    if p[..] != res.bytes()[..] {
                        let at = p.iter().zip(res.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                        viol("not-reproducible", s, i, format!("differs from what a process that does nothing else obtains (byte {})", at));
                    }
                }
                if o.grp > 0 {
                    let mut g = c.groups.lock().unwrap();
                    match g.get(&o.grp) {
                        None => {
                            g.insert(o.grp, (i, res.bytes().to_vec()));
                        }
                        Some((j, b)) => {
                            sh().stat[stat::BITWISE] += 1;
                            if &b[..] != res.bytes() {
                                let at = b.iter().zip(res.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                                viol("not-reproducible", s, i, format!("same call, same arguments as op {} but different bits (byte {})", j, at));
                            }
                        }
                    }
                }
                outs[i] = Some(res);
                op_end(i, 0);
            }

            /// the shared objects of this precision
            pub struct Objs {
                bases: Vec<AnyBase>,
                spaces: Vec<Box<dyn Sp>>,
                groups: Mutex<HashMap<i64, (usize, Vec<u8>)>>,
            }
            pub type Outs = Vec<Option<D_>>;

            /// one call; returns through the table of results
            pub fn call(s: &Scn, exp: &[Option<Exp>], b: &Objs, i: usize, outs: &mut Outs) {
                let c = Ctx { s, exp, bases: &b.bases, spaces: &b.spaces, groups: &b.groups };
                if s.ops[i].code == MAT {
                    matrix(&c, i);
                } else {
                    one(&c, i, outs);
                }
            }

            fn matrix(c: &Ctx, i: usize) {
                let o = &c.s.ops[i];
                op_begin(i, o);
                let r = guarded(|| {
                    if o.tgt == 0 {
                        match o.clone {
                            1 => base_mat(&c.bases[o.idx as usize].clone(), o),
                            2 => base_mat(&make(&c.s.base(o.idx)), o),
                            _ => base_mat(&c.bases[o.idx as usize], o),
                        }
                    } else {
                        c.spaces[o.idx as usize].mat(o)
                    }
                });
                let r = r.unwrap_or_default();
                if let Some(p) = pristine(i) {
                    sh().stat[stat::BITWISE] += 1;
                    if p[..] != r[..] {
                        viol("not-reproducible", c.s, i, "differs from what a process that does nothing else obtains".into());
                    }
                }
                op_end(i, 0);
            }

            /// the result of one operation in a process that does nothing else
            pub fn solo(s: &Scn, exp: &[Option<Exp>], i: usize) -> Option<Vec<u8>> {
                let o = &s.ops[i];
                let sp = |k: i64| {
                    let sp = s.spaces[k as usize];
                    let b: Vec<AnyBase> = [sp.b0, sp.b1, sp.b2][..sp.dim as usize].iter().map(|b| make(&s.base(*b))).collect();
                    make_space(&b.iter().collect::<Vec<_>>())
                };
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if o.code == MAT {
                        return if o.tgt == 0 { base_mat(&make(&s.base(o.idx)), o) } else { sp(o.idx).mat(o) };
                    }
                    let exp = exp[i].as_ref().unwrap();
                    let x: D_ = Data::make(&exp.inp.dims, s.real_io(o).0, 0, |j| exp.inp.v[j]);
                    let mut out: Option<D_> = (o.form != 0).then(|| Data::prefill(&s.shapes(o).1, s.real_io(o).1, 0, 0, 0));
                    let r = if o.tgt == 0 { base_op(&make(&s.base(o.idx)), o, &x, &mut out) } else { sp(o.idx).run(o, &x, &mut out) };
                    r.or(out).unwrap().bytes().to_vec()
                }))
                .ok()
            }

            /// bases and spaces as the scenario lists them; nothing if this precision is not used
            pub fn objects(s: &Scn, prec: i64) -> Objs {
                let used = s.ops.iter().any(|o| s.prec(o) == prec);
                let bases = guarded(|| (0..if used { s.bases.len() } else { 0 }).map(|i| make(&s.base(i as i64))).collect::<Vec<_>>());
                let bases = match bases {
                    Ok(b) => b,
                    Err(m) => sched::violation("unexpected-panic", &format!("constructing bases: {}", m)),
                };
                for (i, b) in bases.iter().enumerate() {
                    let m = s.base(i as i64);
                    if b.lens() != [m.phys(), m.spec(), m.orth()] {
                        sched::violation("wrong-shape", &format!("base {}({}) reports lengths {:?}", BNAMES[m.kind as usize], m.n, b.lens()));
                    }
                }
                let spaces: Vec<Box<dyn Sp>> = s
                    .spaces
                    .iter()
                    .filter(|_| used)
                    .map(|p| {
                        let r: Vec<&AnyBase> = [p.b0, p.b1, p.b2][..p.dim as usize].iter().map(|b| &bases[*b as usize]).collect();
                        make_space(&r)
                    })
                    .collect();
                for (i, p) in spaces.iter().enumerate() {
                    let b = s.space(i as i64);
                    let want = [
                        b.iter().map(|b| b.phys()).collect::<Vec<_>>(),
                        b.iter().map(|b| b.spec()).collect(),
                        b.iter().map(|b| b.orth()).collect(),
                        b.iter().map(|b| b.phys()).collect(),
                        b.iter().map(|b| b.spec()).collect(),
                    ];
                    if p.shapes() != want {
                        sched::violation("wrong-shape", &format!("space {:?} reports shapes {:?}", b, p.shapes()));
                    }
                }
                Objs { bases, spaces, groups: Mutex::new(HashMap::new()) }
            }
        }
    };
}
imp!(p32);
imp!(p64);

static mut PRISTINE: Vec<Option<Vec<u8>>> = vec![];
/// results of operations in processes of their own, set before the run
pub fn set_pristine(v: Vec<Option<Vec<u8>>>) {
    unsafe { PRISTINE = v }
}
fn pristine(i: usize) -> Option<&'static Vec<u8>> {
    unsafe { (&*(&raw const PRISTINE)).get(i)?.as_ref() }
}
pub fn wants_solo(s: &Scn, i: usize) -> bool {
    let o = &s.ops[i];
    s.head.world == 0 && (o.code == MAT || (s.head.solo == 1 && o.code == CALC && o.src == 0 && o.misuse == 0))
}
pub fn solo(s: &Scn, exp: &[Option<Exp>], i: usize) -> Option<Vec<u8>> {
    if s.prec(&s.ops[i]) == 0 { p32::solo(s, exp, i) } else { p64::solo(s, exp, i) }
}

pub fn main(s: &Scn, exp: &[Option<Exp>]) {
    crate::buf::recycle(s.head.seed & 8 == 0);
    let (b32, b64);
    if s.head.seed & 4 == 0 {
        b32 = p32::objects(s, 0);
        b64 = p64::objects(s, 1);
    } else {
        b64 = p64::objects(s, 1);
        b32 = p32::objects(s, 0);
    }
    let caller = |k: i64| {
        let mut o32: p32::Outs = vec![None; s.ops.len()];
        let mut o64: p64::Outs = vec![None; s.ops.len()];
        for (i, o) in s.ops.iter().enumerate() {
            if o.caller == k {
                if s.prec(o) == 0 {
                    p32::call(s, exp, &b32, i, &mut o32);
                } else {
                    p64::call(s, exp, &b64, i, &mut o64);
                }
            }
        }
    };
    let n = s.head.callers.max(1);
    std::thread::scope(|sc| {
        for k in 1..n {
            let caller = &caller;
            sc.spawn(move || {
                sched::user_suspend();
                caller(k);
            });
        }
        caller(0);
    });
}
#[allow(unused)]
fn _t(_: Buf<f64>) {}
