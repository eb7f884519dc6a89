//! Scenario and fault-plan generators, one profile per property. Everything is
//! a function of the seed.
use refm::scn::*;
use refm::*;
use simk::sh::Strat;

/// state, and whether this is one of the few cases with large arrays
pub struct G(pub u64, pub bool);
impl G {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0, 0xD1B5_4A32_D192_ED03)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn p(&mut self, pc: usize) -> bool {
        self.below(100) < pc
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    fn sd(&mut self) -> i64 {
        (self.next() >> 20) as i64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub scn: Scn,
    pub strat: Strat,
    pub sched_seed: u64,
    /// replay exactly these decisions (index, value); all others are 0
    pub dec: Option<Vec<(u32, u32)>>,
}

const RK: [i64; 6] = [CHEB, DIR, NEU, DIRNEU, BIHA, BIHB];
fn any_kind(g: &mut G) -> i64 {
    g.of(&[CHEB, DIR, NEU, DIRNEU, BIHA, BIHB, R2C, C2C])
}
/// grid size of a base: all small ones, and a choice of larger ones
fn size_min(kind: i64, lo: usize) -> usize {
    let min = Base::min_n(kind).max(lo + [0, 2, 2, 2, 4, 4, 0, 0][kind as usize]);
    if kind == R2C && lo > 1 { min.max(2 * lo - 2) } else { min }
}
fn size(g: &mut G, kind: i64, lo: usize, cap: usize) -> usize {
    let min = size_min(kind, lo);
    let n = match g.below(20) {
        0..=9 => min + g.below(9),
        10..=16 => min + g.below(20),
        17 if g.p(15) && cap >= 200 => return g.of(&[255, 256, 257, 300, 511, 512, 513]),
        _ => g.of(&[31, 32, 33, 36, 48, 49, 64, 65, 97, 100, 127, 128, 129]),
    };
    n.clamp(min, cap.max(min + 2))
}
fn kmax(g: &mut G) -> i64 {
    g.of(&[0, 1, 1, 1, 2, 2, 2, 3, 4, 5])
}
/// high orders only where the growth of the derivative leaves something to compare
fn kmax_of(g: &mut G, n: i64) -> i64 {
    let k = kmax(g);
    if k == 5 && n <= 40 { g.of(&[5, 5, 6, 7, 8]) } else { k }
}
fn scale(g: &mut G) -> i64 {
    if g.p(50) { 0 } else { g.range(1, 511) as i64 }
}
fn pat(g: &mut G) -> i64 {
    g.of(&[0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 9, 10, 11, 12, 13, 14, 15, 16])
}
fn head(g: &mut G, world: i64) -> Head {
    Head { world, pool: if g.p(2) { g.range(9, 16) as i64 } else { g.of(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 8]) }, ranks: 0, prec: g.of(&[0, 1, 1, 1]), seed: g.sd(), callers: 1, solo: 0 }
}

// ------------------------------------------------------------------ threads
fn push_base(s: &mut Scn, kind: i64, n: usize) -> i64 {
    let b = BaseSpec { kind, n: n as i64 };
    if let Some(i) = s.bases.iter().position(|x| *x == b) {
        return i as i64;
    }
    s.bases.push(b);
    s.bases.len() as i64 - 1
}
fn push_space(s: &mut Scn, b: &[i64]) -> i64 {
    let g = |i: usize| b.get(i).copied().unwrap_or(0);
    let sp = SpaceSpec { dim: b.len() as i64, b0: g(0), b1: g(1), b2: g(2) };
    if let Some(i) = s.spaces.iter().position(|x| *x == sp) {
        return i as i64;
    }
    s.spaces.push(sp);
    s.spaces.len() as i64 - 1
}
/// kinds along the axes of a supported space
fn space_kinds(g: &mut G, dim: usize) -> Vec<i64> {
    let mut r = || g.of(&RK);
    let (a, b, c) = (r(), r(), r());
    match dim {
        1 => g.of(&[vec![a], vec![R2C], vec![C2C]].iter().collect::<Vec<_>>()).clone(),
        2 => g.of(&[vec![a, b], vec![a, b], vec![R2C, a], vec![R2C, a], vec![C2C, R2C], vec![C2C, C2C]].iter().collect::<Vec<_>>()).clone(),
        _ => g
            .of(&[vec![a, b, c], vec![a, b, c], vec![R2C, a, b], vec![R2C, a, b], vec![C2C, R2C, a], vec![C2C, C2C, R2C], vec![C2C, C2C, C2C]]
                .iter()
                .collect::<Vec<_>>())
            .clone(),
    }
}
fn new_space(g: &mut G, s: &mut Scn, dim: usize) -> i64 {
    let k = space_kinds(g, dim);
    // now and then one long axis
    let wide = if dim > 1 && g.p(6) { g.below(dim) } else { 9 };
    let base_cap = if g.1 { [0, 1100, 200, 36][dim] } else { [0, 200, 65, 20][dim] };
    let mut ax = 0;
    let mut last = 0;
    let b: Vec<i64> = k
        .iter()
        .map(|k| {
            ax += 1;
            let cap = if wide == 9 { base_cap } else if wide == ax - 1 { 200 } else { [0, 0, 9, 5][dim] };
            let mut n = if wide == ax - 1 { g.range(40, 140).max(size_min(*k, 1)) } else { size(g, *k, 1, cap) };
            if g.1 && wide == 9 {
                n = g.range(base_cap / 4, base_cap).max(size_min(*k, 1));
            }
            if wide == 9 && g.p(30) && last >= size_min(*k, 1) {
                n = last;
            }
            last = n;
            push_base(s, *k, n)
        })
        .collect();
    push_space(s, &b)
}
fn base_call(g: &mut G, s: &Scn, idx: i64, op: i64) -> Op {
    let b = s.base(idx);
    let ndim = g.of(&[1, 2, 2, 2, 3, 3, 4]);
    let axis = g.below(ndim as usize) as i64;
    let mut room = if g.1 { 100_000 } else { 3000 } / b.n.max(1);
    let mut e = [1i64; 4];
    for i in 0..ndim as usize {
        let m = match g.below(10) {
            _ if g.1 => g.range(2, 500),
            0 => 1,
            1..=6 => g.range(1, 5),
            7 | 8 => g.range(2, 12),
            _ if g.p(20) => g.range(64, 700),
            _ if g.p(10) => g.range(700, 2500),
            _ => g.range(8, 70),
        }
        .min(room.max(1));
        if i as i64 != axis {
            e[i] = if g.p(1) && g.p(50) { 0 } else { m as i64 };
            room /= m;
        }
    }
    let mut o = Op {
        tgt: 0,
        idx,
        op,
        ndim,
        axis,
        e0: e[0],
        e1: e[1],
        e2: e[2],
        e3: e[3],
        cplx: (b.is_r2r() && op >= TO && g.p(40)) as i64,
        form: g.of(&[0, 1]),
        k0: if op == GRAD { kmax_of(g, b.n as i64) } else { 0 },
        par: 1,
        pat: if g.p(4) { 8 } else { pat(g) },
        seed: g.sd(),
        outpat: g.below(4) as i64,
        ..Op::default()
    };
    if ndim == 1 && g.p(20) {
        o.form = 2;
        o.par = 0;
    }
    o
}
fn space_call(g: &mut G, s: &Scn, idx: i64, op: i64) -> Op {
    let dim = s.spaces[idx as usize].dim;
    let mut o = Op {
        tgt: 1,
        idx,
        op,
        ndim: dim,
        axis: g.below(dim as usize) as i64,
        form: if op == GRAD { 0 } else { g.of(&[0, 1]) },
        par: g.of(&[0, 1]),
        pat: pat(g),
        seed: g.sd(),
        outpat: g.below(4) as i64,
        ..Op::default()
    };
    if op == GRAD {
        o.k0 = kmax(g);
        if dim > 1 {
            o.k1 = kmax(g);
        }
        if dim > 2 {
            o.k2 = kmax(g);
        }
        o.scale = scale(g);
    }
    if op >= TO && s.space(idx).iter().all(|b| b.is_r2r()) && g.p(25) {
        o.cplx = 1;
    }
    o
}
/// a matrix or the coordinates
fn mat_call(g: &mut G, s: &Scn) -> Op {
    let mut o = Op { code: MAT, seed: g.sd(), prec: g.p(15) as i64, clone: g.of(&[0, 0, 1, 2]), ..Op::default() };
    if s.spaces.is_empty() || (!s.bases.is_empty() && g.p(60)) {
        o.idx = g.below(s.bases.len()) as i64;
        o.op = g.below(7) as i64;
        o.k0 = g.of(&[1, 1, 2, 2, 3, 4]);
    } else {
        o.tgt = 1;
        o.idx = g.below(s.spaces.len()) as i64;
        o.axis = g.below(s.spaces[o.idx as usize].dim as usize) as i64;
        o.op = g.below(5) as i64;
    }
    o
}
fn any_call(g: &mut G, s: &Scn) -> Op {
    let mut o = any_call1(g, s);
    o.prec = g.p(15) as i64;
    o
}
fn any_call1(g: &mut G, s: &Scn) -> Op {
    let op = g.of(&[FWD, BWD, TO, FROM, GRAD]);
    if s.spaces.is_empty() || (!s.bases.is_empty() && g.p(55)) {
        let i = g.below(s.bases.len()) as i64;
        base_call(g, s, i, op)
    } else {
        let i = g.below(s.spaces.len()) as i64;
        space_call(g, s, i, op)
    }
}
pub fn volume(s: &Scn, o: &Op) -> usize {
    let (a, b) = s.shapes(o);
    a.iter().product::<usize>().max(b.iter().product())
}

/// a size for a base of kind `k` that is easily mixed up with that of a known base:
/// as many points, as many coefficients, or nearly as many points
fn related(g: &mut G, k: i64, like: BaseSpec, lo: usize) -> Option<usize> {
    let n = like.n as usize;
    let less = [0, 2, 2, 2, 4, 4, 0, 0];
    let r = match g.below(10) {
        0..=4 => n,
        5..=7 if like.kind == R2C => n / 2 + 1 + less[k as usize],
        5..=7 if k == R2C => (2 * (n - less[like.kind as usize])).saturating_sub(2) + g.below(2),
        5..=7 => n - less[like.kind as usize] + less[k as usize],
        8 => n + 1,
        _ => n - 1,
    };
    (r >= size_min(k, lo)).then_some(r)
}
/// sometimes another base that is easily mixed up with a known one
fn sibling(g: &mut G, s: &mut Scn, pc: usize) {
    if !s.bases.is_empty() && g.p(pc) {
        let i = g.below(s.bases.len());
        let like = s.bases[i];
        let k = if g.p(30) { like.kind } else { any_kind(g) };
        if let Some(n) = related(g, k, like, 1) {
            push_base(s, k, n);
        }
    }
}
/// another space whose shapes are like those of a known one, or mirrored
fn twin_space(g: &mut G, s: &mut Scn, sp: i64, lo: usize) {
    let p = s.spaces[sp as usize];
    let mut a = [p.b0, p.b1, p.b2][..p.dim as usize].to_vec();
    if g.p(50) {
        a.reverse();
    }
    let kinds = if g.p(30) && p.b0 != p.b1 {
        a.iter().map(|i| s.bases[*i as usize].kind).collect()
    } else {
        space_kinds(g, p.dim as usize)
    };
    let class: String = kinds.iter().map(|k| match *k { R2C => 'r', C2C => 'c', _ => 'x' }).collect();
    if class.len() > 1 && !["xx", "rx", "cr", "cc", "xxx", "rxx", "crx", "ccr", "ccc"].contains(&&class[..]) {
        return;
    }
    let sizes: Vec<Option<usize>> = kinds.iter().zip(&a).map(|(k, i)| related(g, *k, s.bases[*i as usize], lo)).collect();
    if sizes.iter().all(|n| n.is_some()) {
        let b: Vec<i64> = kinds.iter().zip(&sizes).map(|(k, n)| push_base(s, *k, n.unwrap())).collect();
        push_space(s, &b);
    }
}
/// C13, C14, C15
fn par_ops(g: &mut G, ops: &[i64]) -> Scn {
    let mut s = Scn { head: head(g, 0), ..Scn::default() };
    // now and then very many calls, of small things
    let long = !g.1 && g.p(2);
    for _ in 0..g.range(1, 2) {
        let k = any_kind(g);
        let mut n = size(g, k, 1, if long { 12 } else { 200 });
        if !long && [CHEB, R2C, C2C].contains(&k) && g.p(1) {
            n = g.of(&[1000, 1023, 1024, 1025, 1111, 1536]);
        }
        push_base(&mut s, k, n);
    }
    sibling(g, &mut s, 25);
    for _ in 0..if long { g.range(20, 140) } else { g.range(1, 3) } {
        let i = g.below(s.bases.len()) as i64;
        let op = g.of(ops);
        let mut o = base_call(g, &s, i, op);
        if long && volume(&s, &o) > 400 {
            continue;
        }
        o.prec = g.p(12) as i64;
        if g.p(35) && o.par == 1 {
            // the single-threaded form of the same call
            let mut q = o;
            q.par = 0;
            q.outpat = g.below(4) as i64;
            s.ops.push(q);
        }
        s.ops.push(o);
    }
    s
}
/// C16
fn concurrent(g: &mut G) -> Scn {
    let mut s = Scn { head: head(g, 0), ..Scn::default() };
    s.head.callers = g.of(&[2, 2, 3, 3, 4, 5]);
    // now and then many callers, or many calls, of small things
    let (crowd, long) = if g.1 { (false, false) } else { (g.p(4), g.p(2)) };
    if crowd {
        s.head.callers = g.range(6, 14) as i64;
        s.head.pool = s.head.pool.min(4);
    }
    for _ in 0..g.range(1, 2) {
        let k = any_kind(g);
        let n = size(g, k, 1, if long || crowd { 12 } else { 40 });
        push_base(&mut s, k, n);
    }
    sibling(g, &mut s, 40);
    if g.p(60) {
        let d = g.of(&[1, 2, 2, 3]);
        let sp = new_space(g, &mut s, d);
        if g.p(25) {
            twin_space(g, &mut s, sp, 1);
        }
    }
    s.head.solo = g.p(30) as i64;
    for k in 0..s.head.callers {
        for _ in 0..if long { g.range(10, 50) } else { g.range(1, 3) } {
            if g.p(8) {
                let mut o = mat_call(g, &s);
                o.caller = k;
                s.ops.push(o);
            }
            let mut o = any_call(g, &s);
            if (long || crowd) && volume(&s, &o) > 500 {
                continue;
            }
            o.caller = k;
            o.par = if o.form == 2 { 0 } else { g.of(&[0, 1, 1]) };
            o.clone = g.of(&[0, 0, 0, 1, 2]);
            o.nest = g.of(&[0, 0, 0, 0, 1, 2, 3, 5]);
            s.ops.push(o);
        }
    }
    s
}
fn misuse(g: &mut G, s: &Scn, o: &mut Op) {
    if o.form == 2 {
        // the transforms of plain slices
        let k = s.base(o.idx).kind;
        if o.op <= BWD && (k == CHEB || k >= R2C) {
            o.misuse = g.of(&[M_IN_AXIS, M_OUT_AXIS]);
            return;
        }
        o.form = 0;
    }
    let (i, q) = s.shapes(o);
    let nonstd = |d: &[usize]| d.iter().filter(|x| **x > 1).count() >= if d.len() == 1 { 1 } else { 2 };
    let mut c = vec![M_IN_AXIS];
    if o.form == 1 {
        c.push(M_OUT_AXIS);
        if o.tgt == 0 && o.ndim > 1 {
            c.push(M_LANES);
        }
        if nonstd(&q) {
            c.push(M_OUT_LAYOUT);
        }
    }
    if nonstd(&i) {
        c.push(M_IN_LAYOUT);
    }
    o.misuse = g.of(&c);
    if o.nest == 4 {
        o.nest = 0;
    }
}
/// C17
fn rejected(g: &mut G) -> Scn {
    let mut s = concurrent(g);
    s.head.callers = g.of(&[1, 2, 2, 3]);
    let n = s.ops.len();
    let h = s.head.callers;
    for i in 0..n {
        s.ops[i].caller %= h;
        if s.ops[i].nest == 0 && g.p(15) {
            s.ops[i].nest = 4;
        }
    }
    // now and then very many rejections, perhaps of the same call
    let many = !g.1 && g.p(5);
    let again = many && g.p(70);
    let mut first: Option<Op> = None;
    for _ in 0..if many { g.range(8, 70) } else { g.range(1, 3) } {
        let mut o = any_call(g, &s);
        if let Some(mut q) = first {
            q.seed = g.sd();
            q.misuse = 0;
            o = q;
        }
        let plain: Vec<i64> = (0..s.bases.len() as i64).filter(|i| [CHEB, R2C, C2C].contains(&s.base(*i).kind)).collect();
        if !plain.is_empty() && g.p(25) {
            // a slice, which only the innermost function can reject
            let idx = g.of(&plain);
            let op = g.of(&[FWD, BWD]);
            o = base_call(g, &s, idx, op);
            (o.form, o.ndim, o.axis, o.e1, o.e2, o.e3) = (2, 1, 0, 1, 1, 1);
        }
        o.caller = g.below(h as usize) as i64;
        o.par = if o.form == 2 { 0 } else { g.of(&[0, 1, 1, 1]) };
        o.nest = g.of(&[0, 0, 1, 2, 3, 5]);
        if again && first.is_none() {
            o.par = if o.form == 2 { 0 } else { 1 };
            first = Some(o);
        }
        if let Some(q) = first {
            o.par = q.par;
        }
        let q = o;
        misuse(g, &s, &mut o);
        let at = g.below(s.ops.len() + 1);
        if g.p(if many { 20 } else { 60 }) {
            // the same call made properly, at any time
            let mut q = q;
            q.caller = g.below(h as usize) as i64;
            let later = g.range(at, s.ops.len());
            s.ops.insert(later, q);
        }
        s.ops.insert(at, o);
    }
    // and afterwards something that must work, by every caller
    for k in 0..h {
        let mut o = any_call(g, &s);
        o.caller = k;
        o.par = if o.form == 2 { 0 } else { 1 };
        s.ops.push(o);
    }
    s
}
/// C18
fn memory(g: &mut G) -> Scn {
    let mut s = Scn { head: head(g, 0), ..Scn::default() };
    s.head.callers = g.of(&[1, 1, 1, 2, 3]);
    // many objects, and long histories, of small things
    let many = !g.1 && g.p(6);
    let long = !g.1 && g.p(3);
    for _ in 0..if many { g.range(5, 16) } else { g.range(1, 3) } {
        let k = any_kind(g);
        let n = size(g, k, 1, if many || long { 24 } else { 200 });
        push_base(&mut s, k, n);
    }
    sibling(g, &mut s, 40);
    sibling(g, &mut s, 40);
    if g.p(50) {
        let d = g.of(&[1, 2, 2, 3]);
        let sp = new_space(g, &mut s, d);
        if g.p(25) {
            twin_space(g, &mut s, sp, 1);
        }
    }
    s.head.solo = g.p(40) as i64;
    let m = g.range(1, 2);
    let base: Vec<Op> = (0..m).map(|_| any_call(g, &s)).collect();
    let reps = if many { g.range(4, 12) } else if long { g.of(&[30, 60, 100, 140, 270]) } else { g.range(2, 4) };
    let reps = if g.1 { 2 } else { reps };
    let vol = base.iter().map(|o| volume(&s, o)).sum::<usize>();
    let reps = if vol > 600 { reps.min(8) } else if vol > 150 { reps.min(100) } else { reps };
    for _ in 0..reps {
        for (j, o) in base.iter().enumerate() {
            let mut q = *o;
            q.grp = j as i64 + 1;
            q.outpat = g.below(4) as i64;
            q.caller = g.below(s.head.callers as usize) as i64;
            q.clone = g.of(&[0, 0, 0, 1, 2]);
            s.ops.push(q);
            if g.p(12) {
                let mut o = mat_call(g, &s);
                o.caller = g.below(s.head.callers as usize) as i64;
                s.ops.push(o);
            }
            if g.p(60) {
                let mut q = any_call(g, &s);
                q.caller = g.below(s.head.callers as usize) as i64;
                q.pat = g.of(&[0, 4, 7]);
                s.ops.push(q);
            }
        }
    }
    s
}
/// C19
fn spaces(g: &mut G) -> Scn {
    let mut s = Scn { head: head(g, 0), ..Scn::default() };
    for _ in 0..g.range(1, 2) {
        let d = g.of(&[1, 2, 2, 3, 3]);
        let sp = new_space(g, &mut s, d);
        if g.p(25) {
            twin_space(g, &mut s, sp, 1);
        }
    }
    let long = !g.1 && g.p(2);
    for _ in 0..if long { g.range(30, 120) } else { g.range(1, 4) } {
        let i = g.below(s.spaces.len()) as i64;
        let op = g.of(&[FWD, BWD, TO, FROM, GRAD, GRAD]);
        let mut o = space_call(g, &s, i, op);
        if long && volume(&s, &o) > 600 && s.ops.len() > 3 {
            continue;
        }
        o.clone = g.of(&[0, 0, 0, 0, 1]);
        o.prec = g.p(12) as i64;
        s.ops.push(o);
    }
    s
}
fn ortho_twin(s: &mut Scn, sp: i64) -> i64 {
    let p = s.spaces[sp as usize];
    let b: Vec<i64> = [p.b0, p.b1, p.b2][..p.dim as usize]
        .iter()
        .map(|b| {
            let x = s.bases[*b as usize];
            let k = if x.kind < R2C { CHEB } else { x.kind };
            push_base(s, k, x.n as usize)
        })
        .collect();
    push_space(s, &b)
}
/// C20
fn chains(g: &mut G) -> Scn {
    let mut s = Scn { head: head(g, 0), ..Scn::default() };
    s.head.callers = g.of(&[1, 1, 2, 3]);
    for k in 0..s.head.callers {
        let d = g.of(&[1, 2, 2, 3]);
        let sp = new_space(g, &mut s, d);
        let tw = ortho_twin(&mut s, sp);
        // states: 0 physical, 1 composite, 2 orthogonal
        let mut st = g.below(3);
        let mut kleft = 4i64;
        let mut src = 0;
        for _ in 0..if g.1 { g.range(2, 3) } else if g.p(3) { g.range(16, 60) } else { g.range(2, 8) } {
            let (t, op, to) = match st {
                0 => g.of(&[(sp, FWD, 1), (sp, FWD, 1), (tw, FWD, 2)]),
                1 => g.of(&[(sp, BWD, 0), (sp, BWD, 0), (sp, TO, 2), (sp, TO, 2), (sp, GRAD, 2)]),
                _ => g.of(&[(sp, FROM, 1), (sp, FROM, 1), (tw, GRAD, 2), (tw, BWD, 0)]),
            };
            let mut o = space_call(g, &s, t, op);
            if op == GRAD {
                for f in [&mut o.k0, &mut o.k1, &mut o.k2] {
                    *f = (*f).min(kleft).min(2);
                    kleft -= *f;
                }
            }
            o.caller = k;
            o.clone = g.of(&[0, 0, 0, 1]);
            o.src = src;
            o.cplx = 0;
            if src > 0 {
                o.pat = 0;
            }
            s.ops.push(o);
            src = s.ops.len() as i64;
            st = to;
        }
    }
    s
}

// ------------------------------------------------------------------ ranks
fn rank_head(g: &mut G) -> Head {
    let mut h = head(g, 1);
    h.pool = g.of(&[1, 2, 3]);
    h.ranks = g.of(&[1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 12]);
    if g.p(1) {
        h.ranks = g.range(13, 20) as i64;
    }
    h
}
fn new_dec(g: &mut G, s: &mut Scn) -> i64 {
    let p = s.head.ranks as usize;
    let f = |g: &mut G| match g.below(10) {
        _ if g.1 => p + g.below(400),
        0 => p,
        1..=6 => p + g.below(12),
        7 | 8 => p * g.range(1, 4),
        _ if g.p(25) => p + g.below(160),
        _ => p + g.below(40),
    };
    let (a, mut b) = (f(g) as i64, f(g) as i64);
    match g.below(12) {
        0 => b = a,
        // the mirror image of a known one
        1 if !s.decs.is_empty() => {
            let d = g.of(&s.decs.clone());
            if !s.decs.contains(&[d[1], d[0]]) {
                s.decs.push([d[1], d[0]]);
                return s.decs.len() as i64 - 1;
            }
        }
        _ => {}
    }
    if s.decs.contains(&[a, b]) {
        return s.decs.iter().position(|x| *x == [a, b]).unwrap() as i64;
    }
    s.decs.push([a, b]);
    s.decs.len() as i64 - 1
}
fn new_mpi_space(g: &mut G, s: &mut Scn) -> i64 {
    let p = s.head.ranks as usize;
    let k = space_kinds(g, 2);
    let mut last = 0;
    let wide = if g.p(4) { g.below(2) } else { 9 };
    let mut ax = 0;
    let b: Vec<i64> = k
        .iter()
        .map(|k| {
            ax += 1;
            let mut n = size(g, *k, p, if wide < 9 { 12 } else if p > 6 { 40 } else { 65 });
            if wide == ax - 1 {
                n = g.range(66, 200);
            } else if g.1 {
                n = g.range(40, 150).max(size_min(*k, p));
            }
            if wide == 9 && g.p(20) && last >= size_min(*k, p) {
                n = last;
            }
            last = n;
            push_base(s, *k, n)
        })
        .collect();
    push_space(s, &b)
}
fn mv(g: &mut G, s: &mut Scn, code: i64) -> Op {
    let mut o = Op { code, form: g.of(&[0, 1]), lay: g.of(&[X, Y]), seed: g.sd(), pat: pat(g), outpat: g.of(&[0, 1, 1, 1]), ..Op::default() };
    if g.p(65) || s.spaces.is_empty() {
        if s.decs.is_empty() || (s.decs.len() < 3 && g.p(40)) {
            new_dec(g, s);
        }
        o.tgt = 0;
        o.idx = g.below(s.decs.len()) as i64;
        o.ety = g.below(8) as i64;
        // memory layouts of input and output
        o.nest = g.of(&[0, 0, 0, 1, 2, 3, 4, 5]) + 8 * g.of(&[0, 0, 0, 1, 2, 3, 4, 5]);
    } else {
        o.tgt = 1;
        o.idx = g.below(s.spaces.len()) as i64;
        o.dom = g.of(&[PHYS, SPEC, SPEC, ORTH]);
    }
    o
}
fn moves(g: &mut G, codes: &[i64]) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    if g.p(45) {
        new_mpi_space(g, &mut s);
    }
    let n = if g.1 { 1 } else if s.head.ranks <= 4 && g.p(2) { g.range(30, 150) } else { g.range(1, 4) };
    for _ in 0..n {
        let c = g.of(codes);
        let o = mv(g, &mut s, c);
        s.ops.push(o);
        if c == T_XY && g.p(50) {
            let mut q = o;
            q.code = T_YX;
            s.ops.push(q);
        }
        if c == SCATTER && g.p(40) {
            let mut q = o;
            q.code = GATHER;
            s.ops.push(q);
        }
    }
    s
}
fn layout(g: &mut G, s: &mut Scn) -> Op {
    let mut o = Op { code: LAYOUT, seed: g.sd(), mask: g.below(2) as i64, ..Op::default() };
    if s.decs.is_empty() || (!s.spaces.is_empty() && g.p(40)) {
        if s.spaces.is_empty() {
            new_dec(g, s);
            return layout(g, s);
        }
        o.tgt = 1;
        o.idx = g.below(s.spaces.len()) as i64;
    } else {
        o.idx = g.below(s.decs.len()) as i64;
        let q = g.range(1, 200);
        o.e2 = q as i64;
        o.e0 = (q + g.of(&[0, 1, 2, 5, 17, 1000, 5000]).min(g.below(6000))) as i64;
        o.e1 = (q + g.below(3 * q)) as i64;
        o.e3 = g.below(100_000) as i64;
        if g.p(15) {
            // far more points than anyone could hold
            let bits = g.range(14, 32);
            o.e0 = (q + g.below(1 << bits) + g.of(&[0, 0, 1 << 24, 1 << 32])) as i64;
            if g.p(50) {
                std::mem::swap(&mut o.e0, &mut o.e1);
            }
        }
    }
    o
}
/// C01
fn layouts(g: &mut G) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    if g.p(25) {
        s.head.ranks = g.range(9, 16) as i64;
    }
    for _ in 0..if g.p(8) { g.range(6, 40) } else { g.range(1, 5) } {
        new_dec(g, &mut s);
    }
    for _ in 0..g.range(0, 2) {
        new_mpi_space(g, &mut s);
    }
    for _ in 0..g.range(1, 4) {
        if g.p(30) {
            let o = mv(g, &mut s, SPLIT);
            s.ops.push(o);
        } else {
            let o = layout(g, &mut s);
            s.ops.push(o);
        }
    }
    s
}
fn mpi_calc(g: &mut G, s: &Scn, idx: i64, op: i64) -> Op {
    let mut o = space_call(g, s, idx, op);
    o.par = 0;
    o.cplx = 0; // the distributed forms have one element type only
    o
}
/// C05, C06, C07
fn dist_calc(g: &mut G, ops: &[i64]) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    for _ in 0..g.of(&[1, 1, 2]) {
        let sp = new_mpi_space(g, &mut s);
        if g.p(25) {
            let p = s.head.ranks as usize;
            twin_space(g, &mut s, sp, p);
        }
    }
    let long = !g.1 && s.head.ranks <= 4 && g.p(2);
    for _ in 0..if long { g.range(20, 70) } else if s.spaces.len() > 1 { g.range(2, 5) } else { g.range(1, 3) } {
        let i = g.below(s.spaces.len()) as i64;
        let op = g.of(ops);
        let o = mpi_calc(g, &s, i, op);
        s.ops.push(o);
        let n = s.ops.len() as i64;
        // the way back
        let back = match op {
            FWD => BWD,
            BWD => FWD,
            TO => FROM,
            FROM => TO,
            _ => GRAD,
        };
        if back != GRAD && g.p(40) {
            let mut q = mpi_calc(g, &s, i, back);
            q.src = n;
            s.ops.push(q);
        }
    }
    s
}
fn scalar_call(g: &mut G) -> Op {
    Op { code: g.of(&[BCAST, GSUM, AGSUM]), ety: g.below(8) as i64, pat: g.of(&[0, 0, 0, 0, 1, 2, 3, 4]), seed: g.sd(), ..Op::default() }
}
/// C09
fn scalars(g: &mut G) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    if g.p(20) {
        s.head.ranks = g.range(10, 16) as i64;
    }
    for _ in 0..if s.head.ranks <= 6 && g.p(3) { g.range(40, 300) } else { g.range(1, 6) } {
        s.ops.push(scalar_call(g));
    }
    s
}
/// C10
fn dist_misuse(g: &mut G) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    if g.p(50) {
        new_mpi_space(g, &mut s);
    }
    for _ in 0..if !g.1 && s.head.ranks <= 5 && g.p(2) { g.range(15, 50) } else { g.range(1, 4) } {
        let c = g.of(&[T_XY, T_YX, GATHER, GATHER, ALLGATHER, SCATTER, SCATTER]);
        let mut o = mv(g, &mut s, c);
        if g.p(60) {
            let mut q = o;
            q.nest = 0;
            q.misuse = if c == GATHER || c == SCATTER { g.of(&[MM_IN_SHAPE, MM_OUT_SHAPE, MM_ROLE]) } else { g.of(&[MM_IN_SHAPE, MM_OUT_SHAPE]) };
            let all = (1i64 << s.head.ranks) - 1;
            q.mask = match g.below(4) {
                0 => all,
                1 => 1,
                2 => 1 << g.below(s.head.ranks as usize),
                _ => (g.next() as i64 & all).max(1),
            };
            q.e0 = g.below(8) as i64;
            s.ops.push(q);
            o.seed = g.sd();
        }
        s.ops.push(o);
    }
    s
}
/// C08, C12: a program over several layouts and spaces, in chains
fn program(g: &mut G, long: bool) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    let nsp = if long { g.range(1, 3) } else { g.range(1, 2) };
    for _ in 0..nsp {
        let sp = new_mpi_space(g, &mut s);
        // a space that shares a base with this one
        if g.p(30) {
            let p = s.spaces[sp as usize];
            if s.bases[p.b0 as usize].kind < R2C {
                push_space(&mut s, &[p.b1, p.b0]);
            }
        }
        if g.p(25) {
            let p = s.head.ranks as usize;
            twin_space(g, &mut s, sp, p);
        }
    }
    for _ in 0..g.range(1, 2) {
        new_dec(g, &mut s);
    }
    // live values: (space, domain, layout, op index + 1)
    let mut live: Vec<(i64, i64, i64, i64)> = vec![];
    let n = if g.1 { g.range(2, 4) } else if long && s.head.ranks <= 4 && g.p(3) { g.range(40, 120) } else if long { g.range(5, 16) } else { g.range(2, 8) };
    // the same kind of call, many times
    let kind = g.of(&[T_XY, T_YX, GATHER, GATHER, ALLGATHER, SCATTER, SCATTER]);
    let again = if !g.1 && s.head.ranks <= 5 && g.p(4) { g.range(20, 120) } else { 0 };
    let n = n + again;
    while s.ops.len() < n {
        let c = g.below(100);
        if s.ops.len() < again && c < 85 {
            let o = if c < 5 { scalar_call(g) } else { mv(g, &mut s, kind) };
            s.ops.push(o);
            continue;
        }
        if c < 8 {
            s.ops.push(scalar_call(g));
            continue;
        }
        if c < 12 {
            let o = layout(g, &mut s);
            s.ops.push(o);
            continue;
        }
        if c < 30 {
            let code = g.of(&[T_XY, T_YX, GATHER, ALLGATHER, SCATTER, SPLIT]);
            let mut o = mv(g, &mut s, code);
            if o.tgt == 1 {
                o.idx = 0;
            }
            s.ops.push(o);
            continue;
        }
        let v = if !live.is_empty() && g.p(80) {
            let k = g.below(live.len());
            if g.p(60) { live.swap_remove(k) } else { live[k] }
        } else {
            let sp = g.below(s.spaces.len()) as i64;
            g.of(&[(sp, PHYS, Y, 0), (sp, SPEC, X, 0), (sp, ORTH, X, 0), (sp, PHYS, GLOBAL_ROOT, 0)])
        };
        let (sp, dom, lay, src) = v;
        // what can be done with it
        let mut c: Vec<(i64, i64, i64)> = vec![]; // (code or 100+op, new domain, new layout)
        match (dom, lay) {
            (PHYS, Y) => c.extend([(100 + FWD, SPEC, X), (100 + FWD, SPEC, X), (T_YX, PHYS, X), (GATHER, PHYS, GLOBAL_ROOT), (ALLGATHER, PHYS, GLOBAL_ALL)]),
            (PHYS, X) => c.extend([(T_XY, PHYS, Y), (T_XY, PHYS, Y), (GATHER, PHYS, GLOBAL_ROOT), (ALLGATHER, PHYS, GLOBAL_ALL)]),
            (SPEC, X) => c.extend([
                (100 + BWD, PHYS, Y),
                (100 + BWD, PHYS, Y),
                (100 + TO, ORTH, X),
                (100 + GRAD, ORTH, X),
                (T_XY, SPEC, Y),
                (GATHER, SPEC, GLOBAL_ROOT),
                (ALLGATHER, SPEC, GLOBAL_ALL),
            ]),
            (SPEC, Y) => c.extend([(T_YX, SPEC, X), (T_YX, SPEC, X), (GATHER, SPEC, GLOBAL_ROOT), (ALLGATHER, SPEC, GLOBAL_ALL)]),
            (ORTH, X) => c.extend([(100 + FROM, SPEC, X), (100 + FROM, SPEC, X), (T_XY, ORTH, Y), (ALLGATHER, ORTH, GLOBAL_ALL)]),
            (ORTH, Y) => c.extend([(T_YX, ORTH, X)]),
            (_, GLOBAL_ROOT) => c.extend([(SCATTER, dom, X), (SCATTER, dom, Y)]),
            (PHYS, _) => c.extend([(SPLIT, PHYS, X), (SPLIT, PHYS, Y), (200 + FWD, SPEC, GLOBAL_ALL)]),
            (SPEC, _) => c.extend([(SPLIT, SPEC, X), (SPLIT, SPEC, Y), (200 + BWD, PHYS, GLOBAL_ALL), (200 + GRAD, ORTH, GLOBAL_ALL)]),
            (_, _) => c.extend([(SPLIT, ORTH, X), (200 + FROM, SPEC, GLOBAL_ALL)]),
        }
        let (code, nd, nl) = g.of(&c);
        let mut o;
        if code >= 100 {
            o = mpi_calc(g, &s, sp, code % 100);
            o.cplx = 0;
            if code % 100 == GRAD {
                o.k0 = o.k0.min(2);
                o.k1 = o.k1.min(2);
            }
            if code >= 200 {
                o.lay = GLOBAL_ALL;
                o.par = g.of(&[0, 0, 1]);
            }
        } else {
            o = Op {
                code,
                tgt: 1,
                idx: sp,
                dom,
                form: g.of(&[0, 1]),
                lay: if code == GATHER || code == ALLGATHER { lay } else { nl },
                seed: g.sd(),
                pat: pat(g),
                outpat: g.of(&[0, 1, 1, 1]),
                ..Op::default()
            };
        }
        o.src = src;
        s.ops.push(o);
        live.push((sp, nd, nl, s.ops.len() as i64));
    }
    s
}
/// C19, the spaces of the distributed kind used on whole arrays
fn local_spaces(g: &mut G) -> Scn {
    let mut s = Scn { head: rank_head(g), ..Scn::default() };
    s.head.ranks = g.of(&[1, 1, 2]);
    s.head.pool = g.of(&[1, 2, 3, 4]);
    new_mpi_space(g, &mut s);
    for _ in 0..g.range(1, 4) {
        let op = g.of(&[FWD, BWD, TO, FROM, GRAD, GRAD]);
        let mut o = space_call(g, &s, 0, op);
        o.lay = GLOBAL_ALL;
        s.ops.push(o);
    }
    s
}

fn fix(mut s: Scn, big: bool) -> Scn {
    if s.head.world == 1 {
        for o in s.ops.iter_mut().filter(|o| o.tgt == 1) {
            o.clone = [0, 0, 0, 0, 0, 1, 1, 2][mix(o.seed as u64, 5) as usize % 8];
        }
    }
    // a space offers only the form with an output array for these
    for o in s.ops.iter_mut() {
        if o.tgt == 1 && o.dom != ORTH && (o.code == GATHER || o.code == SCATTER) {
            o.form = 1;
        }
    }
    // keep the model cheap
    let vols: Vec<usize> = s.ops.iter().map(|o| if o.code == CALC { volume(&s, o) } else { 0 }).collect();
    if s.head.world == 0 && s.ops.iter().all(|o| o.src == 0) {
        let (mut k, mut sum) = (0, 0);
        s.ops.retain(|_| {
            k += 1;
            sum += vols[k - 1];
            if big { sum <= 250_000 } else { vols[k - 1] <= 6000 }
        });
    }
    s
}

/// fault and schedule plan
fn strategy(g: &mut G, id: &str, s: &Scn) -> Strat {
    let mut t = Strat::default();
    let ranks = s.head.world == 1;
    t.mode = g.of(&[0, 1, 1, 1, 2, 2, 3]);
    t.gap = if ranks { g.of(&[30, 100, 300, 1000, 3000, 10_000]) } else { g.of(&[3, 10, 30, 100, 300, 1000, 4000]) };
    t.pick = g.of(&[0, 0, 0, 1, 2, 4, 3]);
    if t.mode == 3 {
        t.pick = g.of(&[2, 4]);
    }
    if g.p(40) {
        t.stall_pm = g.of(&[5, 20, 100, 300]);
        t.stall_ns = g.of(&[1000, 20_000, 20_000, 400_000, 30_000_000, 30_000_000, 1_000_000_000, 4_000_000_000]);
        t.stall_budget = g.of(&[1, 5, 30]);
    }
    if g.p(30) {
        t.spurious_pm = g.of(&[10, 100, 400]);
    }
    t.poison = g.below(7) as u32;
    if ranks {
        t.lat = g.of(&[0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3]);
        t.sync = g.of(&[0, 0, 1, 2, 2, 3]);
        if s.head.ranks > 1 && g.p(25) {
            let all = (1u64 << s.head.ranks) - 1;
            t.part_mask = (g.next() & all).max(1);
            if t.part_mask == all {
                t.part_mask = 1;
            }
            t.part_start = g.below(200_000) as u64;
            t.part_end = t.part_start + g.of(&[10_000, 300_000, 5_000_000, 5_000_000, 30_000_000_000]);
        }
        if id == "C12" && g.p(35) {
            t.crash_rank = 1 + g.below(s.head.ranks as usize) as u32;
            if g.p(70) {
                t.crash_call = 1 + g.below(24) as u32;
                t.crash_phase = g.below(4) as u32;
            } else {
                t.crash_points = 1 + g.below(60_000) as u64;
            }
        }
    }
    t
}

pub fn case(id: &str, seed: u64) -> Case {
    let mut g = G(seed, false);
    let g = &mut g;
    g.1 = g.below(1000) < 12;
    let scn = fix(match id {
        "C01" => layouts(g),
        "C02" => moves(g, &[T_XY, T_XY, T_YX]),
        "C03" => moves(g, &[GATHER, GATHER, ALLGATHER]),
        "C04" => moves(g, &[SCATTER]),
        "C05" => dist_calc(g, &[FWD, BWD]),
        "C06" => dist_calc(g, &[TO, FROM]),
        "C07" => dist_calc(g, &[GRAD]),
        "C08" => program(g, false),
        "C09" => scalars(g),
        "C10" => dist_misuse(g),
        "C12" => program(g, true),
        "C13" => par_ops(g, &[FWD, BWD]),
        "C14" => par_ops(g, &[TO, FROM]),
        "C15" => par_ops(g, &[GRAD]),
        "C16" => concurrent(g),
        "C17" => rejected(g),
        "C18" => memory(g),
        "C19" => {
            if g.p(20) {
                local_spaces(g)
            } else {
                spaces(g)
            }
        }
        "C20" => chains(g),
        _ => panic!("unknown property {}", id),
    }, g.1);
    let mut strat = strategy(g, id, &scn);
    if g.1 {
        strat.gap = strat.gap.max(3000);
    }
    Case { strat, sched_seed: g.next(), scn, dec: None }
}
