//! Replay files and minimisation.
use crate::gen::Case;
use crate::json::J;
use crate::run::{self, End, Outcome};
use refm::scn::*;
use refm::*;
use simk::sh::Strat;

macro_rules! strat_fields {
    ($m:ident) => {
        $m!(mode gap pick stall_pm stall_ns spurious_pm lat sync part_mask part_start part_end crash_rank crash_call crash_phase crash_points poison stall_budget)
    };
}
fn strat_json(t: &Strat) -> J {
    macro_rules! w { ($($f:ident)*) => { J::Obj(vec![$((stringify!($f).to_string(), J::Int(t.$f as i64))),*]) } }
    strat_fields!(w)
}
fn strat_from(j: &J) -> Strat {
    macro_rules! r { ($($f:ident)*) => { Strat { $($f: j.get(stringify!($f)).int() as _),* } } }
    strat_fields!(r)
}
macro_rules! rec_json {
    ($x:expr, $t:ident) => {
        J::Obj($t::FIELDS.iter().zip($x.to_vec()).map(|(n, v)| (n.to_string(), J::Int(v))).collect())
    };
}
fn rec_from<T>(j: &J, f: impl Fn(&dyn Fn(&str) -> i64) -> T) -> T {
    f(&|n| j.get(n).int())
}
pub fn scn_json(s: &Scn) -> J {
    J::obj(vec![
        ("head", rec_json!(s.head, Head)),
        ("bases", J::Arr(s.bases.iter().map(|b| rec_json!(b, BaseSpec)).collect())),
        ("spaces", J::Arr(s.spaces.iter().map(|b| rec_json!(b, SpaceSpec)).collect())),
        ("decs", J::Arr(s.decs.iter().map(|d| J::Arr(vec![J::Int(d[0]), J::Int(d[1])])).collect())),
        ("ops", J::Arr(s.ops.iter().map(|o| rec_json!(o, Op)).collect())),
    ])
}
pub fn scn_from(j: &J) -> Scn {
    Scn {
        head: rec_from(j.get("head"), |g| Head::from_map(g)),
        bases: j.get("bases").arr().iter().map(|x| rec_from(x, |g| BaseSpec::from_map(g))).collect(),
        spaces: j.get("spaces").arr().iter().map(|x| rec_from(x, |g| SpaceSpec::from_map(g))).collect(),
        decs: j.get("decs").arr().iter().map(|x| [x.arr()[0].int(), x.arr()[1].int()]).collect(),
        ops: j.get("ops").arr().iter().map(|x| rec_from(x, |g| Op::from_map(g))).collect(),
    }
}
pub fn case_json(c: &Case) -> J {
    let mut v = vec![("scenario", scn_json(&c.scn)), ("plan", strat_json(&c.strat)), ("sched_seed", J::Int(c.sched_seed as i64))];
    if let Some(d) = &c.dec {
        v.push(("decisions", J::Arr(d.iter().map(|(i, x)| J::Arr(vec![J::Int(*i as i64), J::Int(*x as i64)])).collect())));
    }
    J::obj(v)
}
pub fn case_from(j: &J) -> Case {
    Case {
        scn: scn_from(j.get("scenario")),
        strat: strat_from(j.get("plan")),
        sched_seed: j.get("sched_seed").int() as u64,
        dec: match j.get("decisions") {
            J::Arr(v) => Some(v.iter().map(|x| (x.arr()[0].int() as u32, x.arr()[1].int() as u32)).collect()),
            _ => None,
        },
    }
}

/// may this scenario be run: are all of its calls ones the properties speak about?
pub fn valid(s: &Scn) -> bool {
    let p = s.head.ranks;
    for b in &s.bases {
        let b = Base { kind: b.kind, n: b.n.max(0) as usize };
        if (b.n as i64) < min_n(b.kind) as i64 {
            return false;
        }
    }
    if s.head.world == 1 {
        if p < 1 {
            return false;
        }
        for sp in &s.spaces {
            for b in [sp.b0, sp.b1] {
                let b = s.base(b);
                if (b.spec().min(b.phys()) as i64) < p {
                    return false;
                }
            }
        }
        if s.decs.iter().any(|d| d[0] < p || d[1] < p) {
            return false;
        }
    }
    for o in &s.ops {
        if o.misuse > 0 && s.head.world == 0 {
            let (i, q) = s.shapes(o);
            let nonstd = |d: &[usize]| d.iter().filter(|x| **x > 1).count() >= if d.len() == 1 { 1 } else { 2 };
            if (o.misuse == M_IN_LAYOUT && !nonstd(&i)) || (o.misuse == M_OUT_LAYOUT && !nonstd(&q)) {
                return false;
            }
        }
        if o.code == LAYOUT && o.tgt == 0 && o.e2 > 0 && (o.e0 < o.e2 || o.e1 < o.e2) {
            return false;
        }
        if o.caller >= s.head.callers.max(1) {
            return false;
        }
    }
    true
}
/// smallest sizes the generators use
pub fn min_n(kind: i64) -> usize {
    Base::min_n(kind)
}

fn drop_op(s: &Scn, j: usize) -> Scn {
    let mut gone = vec![false; s.ops.len()];
    gone[j] = true;
    for i in j + 1..s.ops.len() {
        if s.ops[i].src > 0 && gone[s.ops[i].src as usize - 1] {
            gone[i] = true;
        }
    }
    let mut at = vec![0i64; s.ops.len()];
    let mut r = Scn { ops: vec![], ..s.clone() };
    for i in 0..s.ops.len() {
        if !gone[i] {
            let mut o = s.ops[i];
            if o.src > 0 {
                o.src = at[o.src as usize - 1];
            }
            r.ops.push(o);
            at[i] = r.ops.len() as i64;
        }
    }
    r
}

pub struct Min<'a> {
    pub kind: &'a str,
    pub deadline: u64,
    pub runs: u64,
}
impl Min<'_> {
    fn fails(&mut self, c: &Case) -> Option<Outcome> {
        if run::now_us() > self.deadline || !valid(&c.scn) {
            return None;
        }
        self.runs += 1;
        // a scenario whose operations no longer fit together makes the model panic
        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run::run_case(c))).ok()?;
        if o.kind() == self.kind && !o.watchdog { Some(o) } else { None }
    }
    /// the same change under a few schedules
    fn try_scn(&mut self, best: &mut Case, scn: Scn) -> bool {
        if scn == best.scn {
            return false;
        }
        for k in 0..4u64 {
let sched_seed = if k == 0 { best.sched_seed } else { mix(best.sched_seed, k) };
            let c = Case { scn: scn.clone(), sched_seed, ..best.clone() };
            if self.fails(&c).is_some() {
                *best = c;
                return true;
            }
        }
        false
    }
    pub fn minimise(&mut self, c0: &Case) -> Case {
        let mut c = c0.clone();
        // operations
        let mut again = true;
        while again {
            again = false;
            let mut j = c.scn.ops.len();
            while j > 0 {
                j -= 1;
                if c.scn.ops.len() > 1 && j < c.scn.ops.len() {
                    let s = drop_op(&c.scn, j);
                    if !s.ops.is_empty() && self.try_scn(&mut c, s) {
                        again = true;
                    }
                }
            }
        }
        // faults
        macro_rules! zero { ($($f:ident)*) => { $(
            if c.strat.$f != 0 {
                let mut d = c.clone();
                d.strat.$f = 0;
                if self.fails(&d).is_some() { c = d; }
            }
        )* } }
        zero!(crash_rank part_mask stall_pm spurious_pm lat sync poison pick mode);
        // sizes
        for v in [1, 2, 3] {
            if v < c.scn.head.pool {
                let mut s = c.scn.clone();
                s.head.pool = v;
                if self.try_scn(&mut c, s) {
                    break;
                }
            }
        }
        if c.scn.head.world == 1 {
            for v in [1, 2, 3, 4, 5] {
                if v < c.scn.head.ranks {
                    let mut s = c.scn.clone();
                    s.head.ranks = v;
                    for o in s.ops.iter_mut() {
                        o.mask &= (1 << v) - 1;
                    }
                    if s.ops.iter().any(|o| o.misuse > 0 && o.mask == 0) {
                        continue;
                    }
                    if self.try_scn(&mut c, s) {
                        break;
                    }
                }
            }
        } else {
            // fewer callers: merge the last one into the first
            while c.scn.head.callers > 1 {
                let mut s = c.scn.clone();
                s.head.callers -= 1;
                let k = s.head.callers;
                for o in s.ops.iter_mut() {
                    if o.caller >= k {
                        o.caller = 0;
                    }
                }
                if !self.try_scn(&mut c, s) {
                    break;
                }
            }
        }
        for b in 0..c.scn.bases.len() {
            let n = c.scn.bases[b].n;
            let lo = min_n(c.scn.bases[b].kind).max(if c.scn.head.world == 1 { c.scn.head.ranks as usize } else { 1 }) as i64;
            for v in [lo, lo + 1, lo + 2, lo + 3, lo + 4, lo + 5, lo + 6, lo + 8, n / 2, n - 1] {
                if v >= lo && v < c.scn.bases[b].n {
                    let mut s = c.scn.clone();
                    s.bases[b].n = v;
                    if self.try_scn(&mut c, s) {
                        break;
                    }
                }
            }
        }
        for d in 0..c.scn.decs.len() {
            for a in 0..2 {
                for v in [c.scn.head.ranks, c.scn.head.ranks + 1, c.scn.head.ranks + 2, c.scn.decs[d][a] / 2, c.scn.decs[d][a] - 1] {
                    if v >= c.scn.head.ranks && v < c.scn.decs[d][a] {
                        let mut s = c.scn.clone();
                        s.decs[d][a] = v;
                        if self.try_scn(&mut c, s) {
                            break;
                        }
                    }
                }
            }
        }
        for i in 0..c.scn.ops.len() {
            macro_rules! tryf { ($($f:ident = $v:expr),*) => { $(
                if c.scn.ops[i].$f > $v {
                    let mut s = c.scn.clone();
                    s.ops[i].$f = $v;
                    self.try_scn(&mut c, s);
                }
            )* } }
            let layout_op = c.scn.ops[i].code == LAYOUT;
            if c.scn.head.world == 0 && c.scn.ops[i].tgt == 0 && !layout_op {
                let ax = c.scn.ops[i].axis;
                if ax != 0 { tryf!(e0 = 1); }
                if ax != 1 && c.scn.ops[i].ndim > 1 { tryf!(e1 = 1); }
                if ax != 2 && c.scn.ops[i].ndim > 2 { tryf!(e2 = 1); }
                if ax != 3 && c.scn.ops[i].ndim > 3 { tryf!(e3 = 1); }
            }
            if c.scn.ops[i].misuse == 0 { tryf!(nest = 0); }
            tryf!(clone = 0, pat = 0, outpat = 0, scale = 0, par = 0);
        }
        // the schedule: keep only the decisions that matter
        let Some(o) = self.fails(&c) else { return c };
        if o.overflow {
            return c;
        }
        let mut d = Case { dec: Some(o.log.clone()), ..c.clone() };
        if self.fails(&d).is_none() {
            return c;
        }
        let mut n = 2usize;
        loop {
            let cur = d.dec.clone().unwrap();
            if cur.is_empty() {
                break;
            }
            let k = n.min(cur.len());
            let mut cut = false;
            for p in 0..k {
                let (a, b) = (cur.len() * p / k, cur.len() * (p + 1) / k);
                let mut t = cur[..a].to_vec();
                t.extend_from_slice(&cur[b..]);
                let e = Case { dec: Some(t), ..d.clone() };
                if self.fails(&e).is_some() {
                    d = e;
                    n = (k - 1).max(2);
                    cut = true;
                    break;
                }
            }
            if run::now_us() > self.deadline || (!cut && k == cur.len()) {
                break;
            }
            if !cut {
                n = (2 * k).min(cur.len());
            }
        }
        // smaller values
        d
    }
}

pub fn write(path: &str, id: &str, c: &Case, o: &Outcome, orig: (u64, u64), minrun: u64) {
    let (k, m) = match &o.end {
        End::Viol(k, m) => (k.clone(), m.clone()),
        End::Ok => ("none".into(), String::new()),
        End::Harness(m) => ("harness".into(), m.clone()),
    };
    let j = J::obj(vec![
        ("property", J::s(id)),
        ("violation", J::obj(vec![("kind", J::s(&k)), ("message", J::s(&m)), ("event_hash", J::s(&format!("{:016x}", o.evhash)))])),
        ("found_with", J::obj(vec![("check_seed", J::Int(orig.0 as i64)), ("case", J::Int(orig.1 as i64)), ("minimiser_runs", J::Int(minrun as i64))])),
        ("operations", J::Arr((0..c.scn.ops.len()).map(|i| J::s(&c.scn.describe(i))).collect())),
        ("case", case_json(c)),
        ("trace", J::Arr(run::trace(400).iter().map(|x| J::s(x)).collect())),
    ]);
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    std::fs::write(path, j.text()).expect("cannot write the replay file");
}
