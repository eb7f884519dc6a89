//! One simulated run: fork the simulated processes, hand out the baton, collect
//! the outcome.
use crate::gen::Case;
use refm::scn::*;
use simk::sched::{self, ARENA_P, SH};
use simk::sh::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// instrumented points within which some operation must end
pub const STEP_CAP: u64 = 150_000_000;
pub const WATCHDOG_S: u64 = 150;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Viol(String, String),
    /// the harness itself failed
    Harness(String),
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub evhash: u64,
    pub ilv: u64,
    pub dec: u64,
    pub steps: u64,
    pub vtime: u64,
    pub maxerr: f64,
    pub given_up: bool,
    pub gap: [u64; 2],
    pub stat: Vec<u64>,
    pub log: Vec<(u32, u32)>,
    pub overflow: bool,
    pub watchdog: bool,
    pub aborted: bool,
    pub wall_us: u64,
}
impl Outcome {
    pub fn kind(&self) -> &str {
        match &self.end {
            End::Ok => "",
            End::Viol(k, _) => k,
            End::Harness(_) => "harness",
        }
    }
}

pub fn map(size: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}
/// memory shared between this process and the simulated ones
pub fn setup() {
    unsafe {
        SH = map(core::mem::size_of::<Shared>()) as *mut Shared;
        ARENA_P = map(ARENA);
        let mut sa: libc::sigaction = core::mem::zeroed();
        extern "C" fn nop(_: i32) {}
        sa.sa_sigaction = nop as *const () as usize;
        libc::sigaction(libc::SIGALRM, &sa, core::ptr::null_mut());
    }
}
pub fn now_us() -> u64 {
    unsafe {
        let mut t: libc::timespec = core::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
    }
}

/// how many elements the operations of a scenario go through
fn elements(s: &Scn) -> usize {
    let one = |o: &Op| match (o.code, o.tgt) {
        (CALC, _) => crate::gen::volume(s, o),
        (LAYOUT | BCAST | GSUM | AGSUM | MAT, _) => 0,
        (_, 0) => (s.decs[o.idx as usize][0] * s.decs[o.idx as usize][1]) as usize,
        _ => s.space(o.idx).iter().map(|b| b.n as usize + 2).product(),
    };
    s.ops.iter().map(one).sum::<usize>() * s.head.ranks.max(1) as usize
}
fn reset(c: &Case) -> usize {
    let s = sched::sh();
    let h = &c.scn.head;
    let nroots = if h.world == 1 { h.ranks as usize } else { 1 };
    s.done.store(0, SeqCst);
    s.ntasks = nroots as u32;
    s.nroots = nroots as u32;
    s.vtime = 0;
    s.steps = 0;
    s.step_cap = STEP_CAP + 3000 * elements(&c.scn).min(1_000_000) as u64;
    s.rng = sched::seed_rng(c.sched_seed);
    s.erng = sched::seed_rng(c.sched_seed ^ 0x5eed_0fe7);
    s.strat = c.strat;
    s.dec = 0;
    s.log_len = 0;
    s.log_overflow = 0;
    s.replay = 0;
    s.replay_len = 0;
    s.replay_pos = 0;
    if let Some(d) = &c.dec {
        s.replay = 1;
        s.replay_len = d.len().min(MAXDEC) as u32;
        s.replay_buf[..s.replay_len as usize].copy_from_slice(&d[..s.replay_len as usize]);
    }
    s.evseq = 0;
    s.evhash = 0;
    s.ilvhash = 0;
    s.crashed = 0;
    s.aborted = 0;
    s.stat = [0; NSTAT];
    s.vkind_len = 0;
    s.vmsg_len = 0;
    s.maxerr = 0.0;
    (s.end_switch, s.end_steps, s.gap_switch, s.gap_steps) = (0, 0, 0, 0);
    (s.hurry_steps, s.hurry_switch) = (0, 0);
    s.agree = [(0, 0); 512];
    let m = &mut s.mpi;
    m.nranks = if h.world == 1 { nroots as u32 } else { 0 };
    m.inited = [0; MAXR];
    m.finalized = [0; MAXR];
    m.coll_seq = [[0; NCTX]; MAXR];
    m.posted = [0; MAXR];
    m.calls = [0; MAXR];
    m.forbid = [0; MAXR];
    m.nmsg = 0;
    m.next_id = 0;
    m.arena_top = 0;
    m.arena_high = 0;
    m.last_deliver = [[0; MAXR]; MAXR];
    for c in m.coll.iter_mut() {
        c.used = 0;
    }
    for t in s.tasks.iter_mut() {
        t.st = st::UNUSED;
        t.futex.store(0, SeqCst);
        t.wkind = 0;
        t.wkey = 0;
        t.points = 0;
        t.pthread = 0;
        t.joined = 0;
        t.timed_out = 0;
        t.root = 0;
    }
    // as in sched::seed_rng, but not from the stream of decisions
    let mut pr = sched::seed_rng(c.sched_seed ^ 0x0977);
    for i in 0..nroots {
        let t = &mut s.tasks[i];
        t.st = st::READY;
        t.proc_ = i as u32;
        t.root = 1;
        t.deadline = u64::MAX;
        t.prio = 1_000_000 + sched::Rng(&mut pr).below(1_000_000);
    }
    let first = sched::Rng(&mut pr).below(nroots as u32);
    s.current = first;
    nroots
}

unsafe fn child(i: usize, c: &Case, exp: &[Option<Exp>]) -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let zero: libc::itimerval = core::mem::zeroed();
    libc::setitimer(libc::ITIMER_REAL, &zero, core::ptr::null_mut());
    sched::enter_root(i);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if c.scn.head.world == 1 {
            work::ranks::main(&c.scn, exp, i)
        } else {
            work::threads::main(&c.scn, exp)
        }
    }));
    if r.is_err() {
        sched::harness_error(&format!("workload panicked: {}", work::last_panic()));
    }
    sched::root_done()
}

static mut STOP: Option<(&'static AtomicU64, u64)> = None;
/// runs of the case `i` are of no use once `stop` is below `i`
pub fn give_up_above(stop: &AtomicU64, i: u64) {
    unsafe { STOP = Some((&*(stop as *const AtomicU64), i)) }
}

pub fn run(c: &Case, exp: &[Option<Exp>]) -> Outcome {
    let mut r = once(c, exp);
    for _ in 0..2 {
        // nothing in the simulation sends SIGKILL while it goes on: somebody else did
        match &r.end {
            End::Viol(k, m) if k == "crash" && m.contains("killed from outside") => r = once(c, exp),
            _ => break,
        }
    }
    r
}
fn once(c: &Case, exp: &[Option<Exp>]) -> Outcome {
    let t0 = now_us();
    let n = reset(c);
    let s = sched::sh();
    let mut pids = vec![0i32; n];
    let (mut watchdog, mut given_up) = (false, false);
    let mut crashed: Option<String> = None;
    let mut live = n;
    unsafe {
        let v = format!("{}\0", c.scn.head.pool.max(1));
        libc::setenv(b"RAYON_NUM_THREADS\0".as_ptr() as *const _, v.as_ptr() as *const _, 1);
        let iv = libc::timeval { tv_sec: 1, tv_usec: 0 };
        let it = libc::itimerval { it_interval: iv, it_value: iv };
        libc::setitimer(libc::ITIMER_REAL, &it, core::ptr::null_mut());
        for i in 0..n {
            let p = libc::fork();
            if p == 0 {
                child(i, c, exp);
            }
            if p < 0 {
                for q in &pids[..i] {
                    libc::kill(*q, libc::SIGKILL);
                    libc::waitpid(*q, core::ptr::null_mut(), 0);
                }
                return fail("fork failed".into());
            }
            pids[i] = p;
        }
        let f = &s.tasks[s.current as usize].futex;
        f.store(1, SeqCst);
        simk::sys::futex_wake_shared(f as *const _ as *const u32);
        while live > 0 {
            let mut st = 0;
            let p = libc::waitpid(-1, &mut st, 0);
            if p > 0 {
                if let Some(q) = pids.iter_mut().find(|q| **q == p) {
                    *q = 0;
                    live -= 1;
                }
                if libc::WIFSIGNALED(st) && s.done.load(SeqCst) == 0 && crashed.is_none() {
                    let sig = libc::WTERMSIG(st);
                    let m = String::from_utf8_lossy(&s.vmsg[..s.vmsg_len as usize]).into_owned();
                    crashed = Some(format!("a process died of signal {} ({}){}{}", sig, name(sig), if m.is_empty() { "" } else { "; last panic: " }, m));
                }
            } else if now_us() - t0 > WATCHDOG_S * 1_000_000 {
                watchdog = true;
            } else if let Some(stop) = *(&raw const STOP) {
                given_up = stop.0.load(SeqCst) < stop.1;
            }
            if s.done.load(SeqCst) != 0 || crashed.is_some() || watchdog || given_up {
                for q in &pids {
                    if *q > 0 {
                        libc::kill(*q, libc::SIGKILL);
                    }
                }
                for q in pids.iter_mut() {
                    if *q > 0 {
                        libc::waitpid(*q, core::ptr::null_mut(), 0);
                        *q = 0;
                    }
                }
                live = 0;
            }
        }
        let zero: libc::itimerval = core::mem::zeroed();
        libc::setitimer(libc::ITIMER_REAL, &zero, core::ptr::null_mut());
    }
    let txt = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
    let end = match s.done.load(SeqCst) {
        1 => End::Ok,
        2 => End::Viol(txt(&s.vkind, s.vkind_len), txt(&s.vmsg, s.vmsg_len)),
        3 => End::Harness(txt(&s.vmsg, s.vmsg_len)),
        _ => {
            if let Some(m) = crashed {
                End::Viol("crash".into(), m)
            } else if watchdog {
                End::Viol("no-progress".into(), format!("no end after {} s of real time: {}", WATCHDOG_S, sched::describe()))
            } else {
                End::Harness(format!("the simulated processes ended without a verdict: {}", sched::describe()))
            }
        }
    };
    Outcome {
        end,
        evhash: s.evhash,
        ilv: s.ilvhash,
        dec: s.dec,
        steps: s.steps,
        vtime: s.vtime,
        maxerr: s.maxerr,
        given_up,
        gap: [s.gap_switch, s.gap_steps],
        stat: s.stat.to_vec(),
        log: s.log[..s.log_len as usize].to_vec(),
        overflow: s.log_overflow != 0,
        watchdog,
        aborted: s.aborted != 0,
        wall_us: now_us() - t0,
    }
}
fn name(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "segmentation fault",
        libc::SIGABRT => "abort",
        libc::SIGBUS => "bus error",
        libc::SIGILL => "illegal instruction",
        libc::SIGFPE => "arithmetic error",
        libc::SIGKILL => "killed from outside",
        _ => "signal",
    }
}
fn fail(m: String) -> Outcome {
    Outcome {
        end: End::Harness(m),
        evhash: 0,
        ilv: 0,
        dec: 0,
        steps: 0,
        vtime: 0,
        maxerr: 0.0,
        given_up: false,
        gap: [0; 2],
        stat: vec![0; NSTAT],
        log: vec![],
        overflow: false,
        watchdog: false,
        aborted: false,
        wall_us: 0,
    }
}

/// the model's predictions are computed in this process, before the fork
pub fn run_case(c: &Case) -> Outcome {
    let exp = prepare(c);
    run(c, &exp)
}
/// what the model, and processes that do nothing else, say about this case
pub fn prepare(c: &Case) -> Vec<Option<Exp>> {
    let exp = refm::scn::expect(&c.scn);
    let n = c.scn.ops.len();
    if (0..n).any(|i| work::threads::wants_solo(&c.scn, i)) {
        let v = (0..n).map(|i| if work::threads::wants_solo(&c.scn, i) { solo(c, &exp, i) } else { None }).collect();
        work::threads::set_pristine(v);
    } else {
        work::threads::set_pristine(vec![]);
    }
    exp
}

/// one operation alone in a process of its own (real threads, nothing simulated);
/// None if it could not be had, empty if the call panicked
fn solo(c: &Case, exp: &[Option<Exp>], i: usize) -> Option<Vec<u8>> {
    unsafe {
        let mut fd = [0i32; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return None;
        }
        libc::setenv(b"RAYON_NUM_THREADS\0".as_ptr() as *const _, b"2\0".as_ptr() as *const _, 1);
        let p = libc::fork();
        if p == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(20);
            let r = work::threads::solo(&c.scn, exp, i);
            let r = match r {
                Some(mut b) => {
                    b.insert(0, 1);
                    b
                }
                None => vec![0],
            };
            let mut k = 0;
            while k < r.len() {
                let n = libc::write(fd[1], r[k..].as_ptr() as *const _, r.len() - k);
                if n <= 0 {
                    break;
                }
                k += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = libc::read(fd[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        if p > 0 {
            libc::waitpid(p, &mut st, 0);
        }
        if p < 0 || st != 0 || v.is_empty() {
            return None;
        }
        Some(v[1..].to_vec())
    }
}

/// the last events of the run just executed
pub fn trace(max: usize) -> Vec<String> {
    let s = sched::sh();
    let n = s.evseq as usize;
    let from = n.saturating_sub(NEV).max(n.saturating_sub(max));
    let mut v = vec![];
    if from > 0 {
        v.push(format!("... {} earlier events", from));
    }
    for i in from..n {
        let e = s.ev[i % NEV];
        use sched::evk;
        let d = match e.kind {
            evk::SWITCH => format!("processor given to task {} (after {} of its points)", e.a, e.b),
            evk::BLOCK => format!("waits for {} {}", wk::NAMES[e.a as usize], if e.a as u32 == wk::FUTEX { String::new() } else { e.b.to_string() }),
            evk::WAKE => format!("wakes task {}", e.a),
            evk::SPAWN => format!("spawns task {}", e.a),
            evk::EXIT => "ends".into(),
            evk::MPI => format!("enters {} (collective number {})", simk::mpi::KINDS[e.a as usize % 16], e.b),
            evk::SEND => format!("sends {} bytes to rank {}", e.b, e.a),
            evk::RECV => format!("receives {} bytes from rank {}", e.b, e.a),
            evk::OP_BEGIN => format!("begins op {}", e.a),
            evk::OP_END => format!("ends op {}{}", e.a, if e.b == 1 { " (rejected as it must be)" } else { "" }),
            evk::CRASH => format!("process {} CRASHES", e.a),
            evk::STALL => format!("is stalled for {} ns", e.b),
            k => format!("event {} {} {}", k, e.a, e.b),
        };
        v.push(format!("t={} ns task {}: {}", e.vt, e.task as i32, d));
    }
    v
}
