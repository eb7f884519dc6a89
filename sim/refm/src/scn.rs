//! Scenarios: what one simulated run does. Plain integers throughout, so that a
//! replay file can hold a scenario and the minimiser can edit it.
use crate::*;

macro_rules! rec {
    ($(#[$m:meta])* $name:ident { $($f:ident),* $(,)? }) => {
        $(#[$m])*
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
        pub struct $name { $(pub $f: i64),* }
        impl $name {
            pub const FIELDS: &'static [&'static str] = &[$(stringify!($f)),*];
            pub fn to_vec(&self) -> Vec<i64> { vec![$(self.$f),*] }
            pub fn from_map(g: &dyn Fn(&str) -> i64) -> Self { $name { $($f: g(stringify!($f))),* } }
        }
    };
}
rec!(BaseSpec { kind, n });
rec!(
    /// `dim` bases: indices into the list of bases
    SpaceSpec { dim, b0, b1, b2 }
);
rec!(
    /// One call. Threads world: executed by `caller`. Ranks world: by every rank.
    Op {
        caller, code, tgt, idx, clone, op, par, form, cplx, ndim, axis, e0, e1, e2, e3, k0, k1, k2, scale, pat,
        seed, outpat, src, nest, misuse, grp, dom, lay, ety, mask, prec,
    }
);
rec!(Head { world, pool, ranks, prec, seed, callers, solo });

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scn {
    pub head: Head,
    pub bases: Vec<BaseSpec>,
    pub spaces: Vec<SpaceSpec>,
    pub decs: Vec<[i64; 2]>,
    pub ops: Vec<Op>,
}

/// op codes
pub const CALC: i64 = 0; // fwd .. grad on a base or space (ranks world: on a space)
pub const T_XY: i64 = 1;
pub const T_YX: i64 = 2;
pub const GATHER: i64 = 3;
pub const ALLGATHER: i64 = 4;
pub const SCATTER: i64 = 5;
pub const SPLIT: i64 = 6;
pub const BCAST: i64 = 7;
pub const GSUM: i64 = 8;
pub const AGSUM: i64 = 9;
pub const LAYOUT: i64 = 10;
/// threads world: a matrix or the coordinates that a base or space offers
pub const MAT: i64 = 11;
pub const MNAMES: [&str; 7] = ["coords", "stencil", "stencil_inv", "laplacian", "laplacian_pinv", "diffmat", "diffmat_pinv"];
pub const CNAMES: [&str; 12] = [
    "calc", "transpose_x_to_y", "transpose_y_to_x", "gather", "all_gather", "scatter", "split", "broadcast_scalar",
    "gather_sum", "all_gather_sum", "layout", "matrix",
];
/// domains of distributed arrays of a space
pub const PHYS: i64 = 0;
pub const SPEC: i64 = 1;
pub const ORTH: i64 = 2;
/// layouts
pub const X: i64 = 0;
pub const Y: i64 = 1;
pub const GLOBAL_ROOT: i64 = 2;
pub const GLOBAL_ALL: i64 = 3;

pub const SCALES: [f64; 8] = [1.0, 2.0, 0.5, 1.5, -1.0, 3.0, 0.1, 7.25];

/// kinds of misuse (threads world)
pub const M_IN_AXIS: i64 = 1;
pub const M_OUT_AXIS: i64 = 2;
pub const M_IN_LAYOUT: i64 = 3;
pub const M_OUT_LAYOUT: i64 = 4;
pub const M_LANES: i64 = 5;
/// kinds of misuse (ranks world)
pub const MM_IN_SHAPE: i64 = 1;
pub const MM_OUT_SHAPE: i64 = 2;
pub const MM_ROLE: i64 = 3;

impl Op {
    pub fn e(&self) -> [i64; 4] {
        [self.e0, self.e1, self.e2, self.e3]
    }
    pub fn k(&self) -> [usize; 3] {
        [self.k0 as usize, self.k1 as usize, self.k2 as usize]
    }
    pub fn scales(&self) -> Option<[f64; 3]> {
        if self.scale == 0 {
            return None;
        }
        let s = self.scale as usize;
        Some([SCALES[s % 8], SCALES[(s / 8) % 8], SCALES[(s / 64) % 8]])
    }
}

impl Scn {
    /// 0: single precision, 1: double
    pub fn prec(&self, o: &Op) -> i64 {
        self.head.prec ^ o.prec
    }
    pub fn base(&self, i: i64) -> Base {
        let b = self.bases[i as usize];
        Base { kind: b.kind, n: b.n as usize }
    }
    pub fn space(&self, i: i64) -> Vec<Base> {
        let s = self.spaces[i as usize];
        [s.b0, s.b1, s.b2][..s.dim as usize].iter().map(|b| self.base(*b)).collect()
    }
    /// is the (input, output) of this calculation real?
    pub fn real_io(&self, o: &Op) -> (bool, bool) {
        if o.tgt == 0 {
            let b = self.base(o.idx);
            match (b.kind, o.op) {
                (R2C, FWD) => (true, false),
                (R2C, BWD) => (false, true),
                (R2C, _) | (C2C, _) => (false, false),
                (_, FWD) | (_, BWD) => (true, true),
                _ => (o.cplx == 0, o.cplx == 0),
            }
        } else {
            let b = self.space(o.idx);
            let phys_real = b.iter().all(|b| b.kind != C2C) || b.iter().any(|b| b.kind == R2C);
            let spec_real = b.iter().all(|b| b.is_r2r());
            match o.op {
                FWD => (phys_real, spec_real),
                BWD => (spec_real, phys_real),
                _ => (spec_real && o.cplx == 0, spec_real && o.cplx == 0),
            }
        }
    }
    /// shapes of the (input, output) of a calculation
    pub fn shapes(&self, o: &Op) -> (Vec<usize>, Vec<usize>) {
        if o.tgt == 0 {
            let b = self.base(o.idx);
            let mut d: Vec<usize> = o.e()[..o.ndim as usize].iter().map(|x| *x as usize).collect();
            let mut q = d.clone();
            d[o.axis as usize] = b.len_in(o.op);
            q[o.axis as usize] = b.len_out(o.op);
            (d, q)
        } else {
            let b = self.space(o.idx);
            (b.iter().map(|b| b.len_in(o.op)).collect(), b.iter().map(|b| b.len_out(o.op)).collect())
        }
    }
    pub fn dom_dims(&self, space: i64, dom: i64) -> Vec<usize> {
        self.space(space)
            .iter()
            .map(|b| match dom {
                PHYS => b.phys(),
                SPEC => b.spec(),
                _ => b.orth(),
            })
            .collect()
    }
    /// global dims of the array that a distributed data movement works on
    pub fn move_dims(&self, o: &Op) -> Vec<usize> {
        if o.tgt == 0 {
            self.decs[o.idx as usize].iter().map(|x| *x as usize).collect()
        } else {
            self.dom_dims(o.idx, o.dom)
        }
    }
    pub fn describe(&self, i: usize) -> String {
        let o = &self.ops[i];
        let bs = |v: &[Base]| v.iter().map(|b| format!("{}({})", BNAMES[b.kind as usize], b.n)).collect::<Vec<_>>().join(" x ");
        if o.code == MAT {
            let what = if o.tgt == 0 { bs(&[self.base(o.idx)]) } else { bs(&self.space(o.idx)) };
            format!("op {}: {}({}) of {} {} by caller {}{}", i, MNAMES[o.op as usize], o.k0, ["base", "space axis"][o.tgt as usize], what, o.caller, if self.prec(o) == 0 { " f32" } else { " f64" })
        } else if o.code == CALC {
            let what = if o.tgt == 0 { bs(&[self.base(o.idx)]) } else { bs(&self.space(o.idx)) };
            let mut s = format!(
                "op {}: {}{}{}{} on {} {}",
                i,
                ONAMES[o.op as usize],
                if o.form == 1 { "_inplace" } else { "" },
                if o.par == 1 { "_par" } else { "" },
                if self.head.world == 1 { "_mpi" } else { "" },
                ["base", "space"][o.tgt as usize],
                what
            );
            if o.tgt == 0 {
                s += &format!(" shape {:?} axis {}", self.shapes(o).0, o.axis);
            }
            if o.op == GRAD {
                s += &format!(" orders {:?} scale {:?}", &o.k(), o.scales());
            }
            if self.head.world == 0 {
                s += &format!(" by caller {}", o.caller);
                if o.nest > 0 {
                    s += &format!(" inside the pool (mode {})", o.nest);
                }
            }
            if o.src > 0 {
                s += &format!(" of the result of op {}", o.src - 1);
            }
            if o.misuse > 0 {
                s += &format!(" misuse {}", o.misuse);
            }
            s + if self.prec(o) == 0 { " f32" } else { " f64" }
        } else {
            let mut s = format!("op {}: {} layout {}", i, CNAMES[o.code as usize], if o.lay == X { "x" } else { "y" });
            if o.code < BCAST || o.code == LAYOUT {
                s += &if o.tgt == 0 {
                    format!(" on a {:?} array", self.move_dims(o))
                } else {
                    format!(" on space {} domain {}", bs(&self.space(o.idx)), ["physical", "spectral", "orthogonal"][o.dom as usize])
                };
            }
            if o.nest > 0 {
                s += &format!(" memory layouts {} and {}", o.nest % 8, o.nest / 8);
            }
            s + &format!(" form {} element type {}{}", o.form, o.ety, if o.misuse > 0 { format!(" misuse {} by ranks {:b}", o.misuse, o.mask) } else { String::new() })
        }
    }
}

/// what the model predicts for one operation
#[derive(Clone, Debug)]
pub struct Exp {
    pub inp: Arr,
    pub out: Arr,
}

pub fn op_input_seed(s: &Scn, o: &Op) -> u64 {
    mix(s.head.seed as u64, o.seed as u64)
}

/// model of one calculation
pub fn calc(s: &Scn, o: &Op, inp: &Arr) -> Arr {
    let p = s.prec(o);
    if o.tgt == 0 {
        let m = op(&s.base(o.idx), o.op, o.k0 as usize);
        apply(inp, &m, o.axis as usize, p)
    } else {
        let b = s.space(o.idx);
        let k = o.k();
        let mut y = space_op(inp, &b, o.op, &k, p);
        if o.op == GRAD {
            if let Some(sc) = o.scales() {
                let d: f64 = (0..b.len()).map(|i| (if p == 0 { sc[i] as f32 as f64 } else { sc[i] }).powi(k[i] as i32)).product();
                divide(&mut y, d, p);
            }
        }
        y
    }
}

/// predictions for all operations (None: nothing numeric to predict)
pub fn expect(s: &Scn) -> Vec<Option<Exp>> {
    let mut r: Vec<Option<Exp>> = Vec::with_capacity(s.ops.len());
    for o in s.ops.iter() {
        let e = match o.code {
            CALC => {
                let (din, _) = s.shapes(o);
                let (rin, _) = s.real_io(o);
                let inp = if o.src > 0 {
                    r[o.src as usize - 1].as_ref().map(|e| e.out.clone())
                } else {
                    Some(data(op_input_seed(s, o), o.pat, &din, s.prec(o), rin))
                };
                match inp {
                    Some(inp) if o.misuse == 0 || (s.head.world == 0 && (o.misuse == M_IN_LAYOUT || o.misuse == M_OUT_LAYOUT)) => {
                        let out = calc(s, o, &inp);
                        Some(Exp { inp, out })
                    }
                    Some(inp) => Some(Exp { out: inp.clone(), inp }),
                    None => None,
                }
            }
            T_XY | T_YX | GATHER | ALLGATHER | SCATTER | SPLIT if o.tgt == 1 => {
                let d = s.move_dims(o);
                let real = if o.dom == PHYS { s.real_io(&Op { op: FWD, ..*o }).0 } else { s.real_io(&Op { op: FWD, ..*o }).1 };
                let inp = if o.src > 0 {
                    r[o.src as usize - 1].as_ref().map(|e| e.out.clone())
                } else {
                    Some(data(op_input_seed(s, o), o.pat, &d, s.head.prec, real))
                };
                inp.map(|i| Exp { out: i.clone(), inp: i })
            }
            _ => None,
        };
        r.push(e);
    }
    r
}
