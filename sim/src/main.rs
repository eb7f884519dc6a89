//! Deterministic simulation of funspace: driver.
#![allow(clippy::all, static_mut_refs)]
mod gen;
mod json;
mod replay;
mod run;

use gen::Case;
use json::J;
use run::{End, Outcome};
use simk::sh::{stat, NSTAT};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[global_allocator]
static A: simk::alloc::SimAlloc = simk::alloc::SimAlloc;

/// (quick runs, thorough runs)
fn budget(id: &str) -> (u64, u64) {
    let q = match id {
        "C01" => 12_000,
        "C02" | "C03" | "C04" => 20_000,
        "C05" | "C06" | "C07" => 12_000,
        "C08" => 10_000,
        "C09" => 24_000,
        "C10" => 20_000,
        "C12" => 9000,
        "C13" | "C15" => 12_000,
        "C14" => 9000,
        "C16" => 4800,
        "C17" | "C20" => 3600,
        "C18" => 4500,
        "C19" => 8000,
        _ => 0,
    };
    (q, q * 40)
}
const ALL: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20",
];

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    /// 0 not run, 1 held, 2 violation, 3 harness error, 4 different on repetition
    what: u32,
    wall_us: u32,
    aborted: u32,
    faults: u32,
    evhash: u64,
    ilv: u64,
    scn: u64,
    steps: u64,
    vtime: u64,
    nontrivial: u64,
}
#[repr(C)]
struct Ctl {
    next: AtomicU64,
    stop: AtomicU64,
    compared_twice: AtomicU64,
    stat: [AtomicU64; NSTAT],
    hit: [AtomicU64; NSTAT],
    maxerr: AtomicU64,
    most_switches: AtomicU64,
    most_points: AtomicU64,
    msg: [u8; 4096],
    msg_len: AtomicU64,
}
fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let h = id.bytes().fold(seed, |a, b| refm::mix(a, b as u64 + 1));
    refm::mix(h, i + 1)
}
fn hash_scn(c: &Case) -> u64 {
    let mut h = 7u64;
    let mut add = |x: i64| h = refm::mix(h, x as u64);
    for v in [c.scn.head.to_vec()].iter().chain(c.scn.ops.iter().map(|o| o.to_vec()).collect::<Vec<_>>().iter()) {
        v.iter().for_each(|x| add(*x));
    }
    for b in &c.scn.bases {
        b.to_vec().iter().for_each(|x| add(*x));
    }
    for b in &c.scn.spaces {
        b.to_vec().iter().for_each(|x| add(*x));
    }
    for b in &c.scn.decs {
        b.iter().for_each(|x| add(*x));
    }
    h
}

struct Opts {
    id: String,
    seed: u64,
    thorough: bool,
    runs: u64,
    workers: usize,
    twice: u64,
    wall_s: u64,
    root: String,
}

fn worker(o: &Opts, ctl: &Ctl, recs: *mut Rec, t_end: u64) {
    run::setup();
    loop {
        let i = ctl.next.fetch_add(1, SeqCst);
        if i >= o.runs || i > ctl.stop.load(SeqCst) || run::now_us() > t_end {
            break;
        }
        let c = gen::case(&o.id, case_seed(o.seed, &o.id, i));
        let exp = run::prepare(&c);
        run::give_up_above(&ctl.stop, i);
        let r = run::run(&c, &exp);
        if r.given_up {
            break; // a case of a lower number has failed meanwhile
        }
        let rec = unsafe { &mut *recs.add(i as usize) };
        let s = &r.stat;
        *rec = Rec {
            what: 1,
            wall_us: r.wall_us as u32,
            aborted: r.aborted as u32,
            faults: (c.strat.stall_pm > 0 || c.strat.spurious_pm > 0 || c.strat.part_mask != 0 || c.strat.crash_rank != 0 || c.strat.lat >= 2) as u32,
            evhash: r.evhash,
            ilv: r.ilv,
            scn: hash_scn(&c),
            steps: r.steps,
            vtime: r.vtime,
            nontrivial: (s[stat::OPS] > 0 && s[stat::SWITCH] > 0) as u64,
        };
        for k in 0..NSTAT {
            ctl.stat[k].fetch_add(s[k], SeqCst);
            ctl.hit[k].fetch_add((s[k] > 0) as u64, SeqCst);
        }
        let e = (r.maxerr * 1e6) as u64;
        ctl.maxerr.fetch_max(e, SeqCst);
        ctl.most_switches.fetch_max(r.gap[0], SeqCst);
        ctl.most_points.fetch_max(r.gap[1], SeqCst);
        match &r.end {
            End::Ok => {
                if o.twice > 0 && i % o.twice == 0 {
                    let q = run::run(&c, &exp);
                    if q.given_up {
                        break;
                    }
                    ctl.compared_twice.fetch_add(1, SeqCst);
                    if (q.evhash, q.ilv, q.dec, q.steps, &q.end) != (r.evhash, r.ilv, r.dec, r.steps, &r.end) {
                        rec.what = 4;
                        note(ctl, &format!("case {}: {:?} then {:?}", i, (r.evhash, r.ilv, r.dec, r.steps, &r.end), (q.evhash, q.ilv, q.dec, q.steps, &q.end)));
                    }
                }
            }
            End::Viol(k, m) => {
                rec.what = 2;
                note(ctl, &format!("case {}: {}: {}", i, k, m));
                ctl.stop.fetch_min(i, SeqCst);
            }
            End::Harness(m) => {
                rec.what = 3;
                note(ctl, &format!("case {}: {}", i, m));
            }
        }
    }
}
fn note(ctl: &Ctl, m: &str) {
    if ctl.msg_len.compare_exchange(0, m.len().min(4096) as u64, SeqCst, SeqCst).is_ok() {
        let p = ctl.msg.as_ptr() as *mut u8;
        unsafe { core::ptr::copy_nonoverlapping(m.as_ptr(), p, m.len().min(4096)) }
    }
}

/// the model's own identities, in a process of their own to leave no trace here
fn model_ok() -> bool {
    unsafe {
        let p = libc::fork();
        if p == 0 {
            let r = refm::selfcheck();
            if let Err(e) = &r {
                eprintln!("{}", e);
            }
            libc::_exit(r.is_err() as i32);
        }
        let mut st = -1;
        libc::waitpid(p, &mut st, 0);
        st == 0
    }
}

fn check(o: &Opts) -> i32 {
    let t0 = run::now_us();
    let t_end = t0 + o.wall_s * 1_000_000;
    let ctl = unsafe { &mut *(run::map(core::mem::size_of::<Ctl>()) as *mut Ctl) };
    ctl.stop.store(u64::MAX, SeqCst);
    let cov = run::map(simk::cov::map_len());
    simk::cov::set_map(cov);
    let recs = run::map(core::mem::size_of::<Rec>() * o.runs as usize) as *mut Rec;
    let mut pids = vec![];
    for _ in 0..o.workers {
        let p = unsafe { libc::fork() };
        if p == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(o, ctl, recs, t_end)));
            if r.is_err() {
                note(ctl, &format!("worker panicked: {}", work::last_panic()));
            }
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 9 }) }
        }
        pids.push(p);
    }
    let mut bad_worker = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            bad_worker += 1;
        }
    }
    let search_s = (run::now_us() - t0) as f64 / 1e6;
    run::setup();
    let recs = unsafe { std::slice::from_raw_parts(recs, o.runs as usize) };
    let mut harness = bad_worker;
    let (mut done, mut aborted, mut faultfree, mut steps, mut vtime, mut unstable) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut digest = 0u64;
    let mut ilv = vec![];
    let mut scns = vec![];
    let mut slowest = 0;
    let mut first_viol = None;
    let mut nviol = 0u64;
    for (i, r) in recs.iter().enumerate() {
        if r.what == 0 {
            continue;
        }
        done += 1;
        aborted += r.aborted as u64;
        faultfree += (r.faults == 0) as u64;
        digest = refm::mix(digest ^ r.evhash, r.ilv ^ i as u64);
        steps += r.steps;
        vtime += r.vtime;
        slowest = slowest.max(r.wall_us);
        if r.nontrivial > 0 {
            ilv.push((r.scn, r.ilv));
        }
        scns.push(r.scn);
        match r.what {
            2 => {
                nviol += 1;
                if first_viol.is_none() {
                    first_viol = Some(i as u64);
                }
            }
            3 => harness += 1,
            4 => unstable += 1,
            _ => {}
        }
    }
    simk::cov::set_map(core::ptr::null_mut());
    let sites = simk::cov::sites();
    let covered: Vec<usize> = sites.iter().copied().filter(|x| unsafe { *cov.add(*x) } != 0).collect();
    if let Ok(f) = std::env::var("DSTSIM_COV") {
        let l = |v: &[usize]| v.iter().map(|x| format!("{:x}\n", x)).collect::<String>();
        let _ = std::fs::write(format!("{}.all", f), l(&sites));
        let _ = std::fs::write(format!("{}.hit", f), l(&covered));
    }
    ilv.sort();
    ilv.dedup();
    scns.sort();
    scns.dedup();
    let distinct = ilv.len() as u64;
    let mut viols = 0;
    let mut unconfirmed = 0;
    let mut code = 0;
    let mut msgs = vec![];
    if first_viol.is_some() {
        // the lowest-numbered violation that happens again is the one reported:
        // one whose whole execution is the same, or else one of the same kind
        let found: Vec<u64> = recs.iter().enumerate().filter(|(_, r)| r.what == 2).map(|(i, _)| i as u64).take(8).collect();
        'search: for strict in [true, false] {
            for &i in &found {
                let c = gen::case(&o.id, case_seed(o.seed, &o.id, i));
                let r = run::run_case(&c);
                let again = matches!(r.end, End::Viol(..)) && (!strict || r.watchdog || r.evhash == recs[i as usize].evhash);
                if !again {
                    if strict {
                        unconfirmed += 1;
                        eprintln!("case {}: the violation did not happen again in the same way ({:?})", i, r.end);
                    }
                    continue;
                }
                let path = report(o, &c, &r, i);
                println!("VIOLATION property={} replay={}", o.id, path);
                viols += 1;
                code = 1;
                break 'search;
            }
        }
    }
    let txt = String::from_utf8_lossy(&ctl.msg[..ctl.msg_len.load(SeqCst) as usize]).into_owned();
    if code == 0 && (harness > 0 || unstable > 0 || unconfirmed > 0) {
        eprintln!("dstsim: {} harness errors, {} unrepeatable runs, {} unconfirmed violations; first: {}", harness, unstable, unconfirmed, txt);
        code = 2;
    }
    if code == 0 && done == 0 {
        eprintln!("dstsim: nothing was run");
        code = 2;
    }
    let wall = (run::now_us() - t0) as f64 / 1e6;
    let st = |k: usize| ctl.stat[k].load(SeqCst) as i64;
    let hit = |k: usize| ctl.hit[k].load(SeqCst) as i64;
    let counts = J::Obj(
        stat::NAMES
            .iter()
            .enumerate()
            .map(|(k, n)| (n.to_string(), J::obj(vec![("total", J::Int(st(k))), ("runs", J::Int(hit(k)))])))
            .collect(),
    );
    let mut samples = vec![];
    for i in [0u64, 1, 2] {
        if i < done {
            let c = gen::case(&o.id, case_seed(o.seed, &o.id, i));
            samples.push(J::obj(vec![
                ("case", J::Int(i as i64)),
                ("case_seed", J::s(&format!("{:016x}", case_seed(o.seed, &o.id, i)))),
                ("head", J::s(&format!("{:?}", c.scn.head))),
                ("plan", J::s(&format!("{:?}", c.strat))),
                ("operations", J::Arr((0..c.scn.ops.len()).map(|k| J::s(&c.scn.describe(k))).collect())),
                ("interleaving", J::s(&format!("{:016x}", recs[i as usize].ilv))),
            ]));
        }
    }
    let ranks = gen::case(&o.id, case_seed(o.seed, &o.id, 0)).scn.head.world == 1;
    let real = if ranks {
        "funspace (unchanged, built from /repo), ndarray, rustfft, realfft, rayon, the MPI wrapper crate mpi-fork-fnsp: real code in real processes; the Rust standard library"
    } else {
        "funspace (unchanged, built from /repo), ndarray, rustfft, realfft, rayon with its thread pool on real threads; the Rust standard library"
    };
    let stub = if ranks {
        "the MPI library below the wrapper crate (simulated), and the system calls for futexes, clocks, sleeping, thread creation and randomness (answered by the scheduler)"
    } else {
        "the system calls for futexes, clocks, sleeping, thread creation and randomness (answered by the scheduler)"
    };
    let ev = J::obj(vec![
        ("property", J::s(&o.id)),
        ("tier", J::s(if o.thorough { "thorough" } else { "quick" })),
        ("seed", J::Int(o.seed as i64)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::Int(done as i64)),
                ("distinct_nontrivial", J::Int(distinct as i64)),
                ("rule", J::s("one evaluation is one simulated run of a scenario, a fault plan and a schedule that are all derived from (VERIF_SEED, property, case number); it counts as distinct and non-trivial if it executed at least one operation, switched between tasks at least once, and no other run had the same scenario and the same sequence of (task switched from, task switched to, instrumented points executed)")),
                ("samples", J::Arr(samples)),
                ("distinct_scenarios", J::Int(scns.len() as i64)),
                ("digest_of_all_event_logs", J::s(&format!("{:016x}", digest))),
                ("runs_planned", J::Int(o.runs as i64)),
                ("runs_and_seeds_per_hour", J::Num(done as f64 / search_s * 3600.0)),
                ("workers", J::Int(o.workers as i64)),
                ("simulated_time_s", J::Num(vtime as f64 / 1e9)),
                ("instrumented_points_executed", J::Int(steps as i64)),
                ("most_instrumented_points_without_an_operation_ending", J::Int(ctl.most_points.load(SeqCst) as i64)),
                ("most_context_switches_without_an_operation_ending", J::Int(ctl.most_switches.load(SeqCst) as i64)),
                ("instrumented_blocks_executed_at_least_once", J::Int(covered.len() as i64)),
                ("instrumented_blocks_in_the_program", J::Int(sites.len() as i64)),
                ("runs_without_injected_faults", J::Int(faultfree as i64)),
                ("runs_cut_short_by_an_injected_crash", J::Int(aborted as i64)),
                ("runs_repeated_to_check_determinism", J::Int(ctl.compared_twice.load(SeqCst) as i64)),
                ("runs_that_differed_on_repetition", J::Int(unstable as i64)),
                ("harness_errors", J::Int(harness as i64)),
                ("counts", counts),
                ("largest_error_relative_to_bound", J::Num(ctl.maxerr.load(SeqCst) as f64 / 1e6)),
                ("slowest_run_ms", J::Num(slowest as f64 / 1e3)),
                ("real_components", J::s(real)),
                ("stubbed_components", J::s(stub)),
            ]),
        ),
        (
            "assumptions",
            J::Arr(
                [
                    "values are compared with a dense-matrix reference model in f64 within a first-order rounding bound",
                    "preemption happens between basic blocks, loads and stores of funspace and of the workload, and at system calls everywhere else; rayon, ndarray and the FFT libraries are not preempted between system calls",
                    "one task runs at a time (sequentially consistent memory)",
                ]
                .iter()
                .map(|s| J::s(s))
                .collect(),
            ),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(viols)),
    ]);
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, o.id), ev.text()) {
        eprintln!("dstsim: cannot write evidence: {}", e);
        code = if code == 0 { 2 } else { code };
    }
    msgs.push(format!(
        "{}: {} runs ({} distinct interleavings), {:.0} runs/s, {:.1} s, max error/bound {:.4}, violations {}{}",
        o.id,
        done,
        distinct,
        done as f64 / search_s,
        wall,
        ctl.maxerr.load(SeqCst) as f64 / 1e6,
        nviol,
        if code == 2 { " (UNDECIDED)" } else { "" }
    ));
    for m in msgs {
        println!("{}", m);
    }
    code
}

fn report(o: &Opts, c: &Case, r: &Outcome, i: u64) -> String {
    let kind = r.kind().to_string();
    let mut m = replay::Min { kind: &kind, deadline: run::now_us() + 25_000_000, runs: 0 };
    let mut best = if r.watchdog { c.clone() } else { m.minimise(c) };
    let mut out = run::run_case(&best);
    if out.kind() != kind {
        best = c.clone();
        out = run::run_case(&best);
    }
    let path = format!("{}/replays/{}-{}-{}.json", o.root, o.id, o.seed, i);
    replay::write(&path, &o.id, &best, &out, (o.seed, i), m.runs);
    if let End::Viol(k, t) = &out.end {
        println!("{}: {}: {}", o.id, k, t);
        println!("{}: case {} of seed {}, minimised to {} operation(s), {} scheduling decision(s)", o.id, i, o.seed, best.scn.ops.len(), best.dec.as_ref().map(|d| d.len() as i64).unwrap_or(-1));
    }
    path
}

fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur as u64 & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("DSTSIM_REEXEC").is_none() {
            if libc::personality(cur as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("DSTSIM_REEXEC", "1").exec();
                eprintln!("dstsim: exec failed: {}", e);
            }
        }
    }
}

fn main() {
    let r = std::panic::catch_unwind(run_main);
    std::process::exit(r.unwrap_or_else(|_| {
        eprintln!("dstsim: panicked: {}", work::last_panic());
        2
    }));
}
fn run_main() -> i32 {
    no_aslr();
    simk::interpose::init();
    work::quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let env = |n: &str| std::env::var(n).ok();
    let seed = env("VERIF_SEED").and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let num = |n: &str| env(n).and_then(|s| s.parse::<u64>().ok());
    let root = env("DSTSIM_ROOT").unwrap_or("/verif".into());
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = a[1].clone();
            let (q, t) = budget(&id);
            let o = Opts {
                runs: num("DSTSIM_RUNS").unwrap_or(if thorough { t } else { q }).max(1),
                workers: num("DSTSIM_WORKERS").unwrap_or(8) as usize,
                twice: num("DSTSIM_TWICE").unwrap_or(16),
                wall_s: num("DSTSIM_WALL").unwrap_or(if thorough { 3600 } else { 300 }),
                id,
                seed,
                thorough,
                root,
            };
            if !ALL.contains(&o.id.as_str()) {
                eprintln!("unknown property {}", o.id);
                2
            } else if !model_ok() {
                2
            } else {
                check(&o)
            }
        }
        Some("replay") => {
            run::setup();
            let t = std::fs::read_to_string(&a[1]).expect("cannot read the replay file");
            let j = J::parse(&t).expect("cannot parse the replay file");
            let c = replay::case_from(j.get("case"));
            let r = run::run_case(&c);
            for l in run::trace(if a.len() > 2 { 100_000 } else { 60 }) {
                println!("{}", l);
            }
            let want = j.get("violation");
            match &r.end {
                End::Viol(k, m) => {
                    println!("{}: {}", k, m);
                    let same = want.get("event_hash").str() == format!("{:016x}", r.evhash) && want.get("kind").str() == k;
                    println!("{}", if same { "same execution as recorded" } else { "a violation, but NOT the recorded execution" });
                    println!("VIOLATION property={} replay={}", j.get("property").str(), a[1]);
                    1
                }
                End::Ok => {
                    println!("no violation");
                    0
                }
                End::Harness(m) => {
                    println!("harness error: {}", m);
                    2
                }
            }
        }
        // one generated case, for debugging
        Some("run") => {
            run::setup();
            let i: u64 = a[2].parse().unwrap();
            let c = gen::case(&a[1], case_seed(seed, &a[1], i));
            println!("{:?}\n{:?}", c.scn.head, c.strat);
            for k in 0..c.scn.ops.len() {
                println!("  {}", c.scn.describe(k));
            }
            let r = run::run_case(&c);
            if a.len() > 3 {
                for l in run::trace(a[3].parse().unwrap()) {
                    println!("{}", l);
                }
            }
            println!("{:?} {}us steps {} switches {} dec {} vtime {} err {}", r.end, r.wall_us, r.steps, r.stat[0], r.dec, r.vtime, r.maxerr);
            0
        }
        _ => {
            eprintln!("usage: dstsim check ID | replay FILE | run ID CASE [EVENTS]");
            2
        }
    };
    code
}
