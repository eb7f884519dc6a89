//! The scheduler. Every function here runs with the baton held.
use crate::sh::*;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::Ordering::*;

pub static mut SH: *mut Shared = core::ptr::null_mut();
pub static mut ARENA_P: *mut u8 = core::ptr::null_mut();
pub static mut KEY: libc::pthread_key_t = 0;
/// in replay mode with tracing: names of events are printed by the driver
const FAIR: i64 = 2_000_000;
const HURRY_STEPS: u64 = 1_000_000;
const HURRY_SWITCHES: u64 = 50_000;

thread_local! {
    static TASK: Cell<i32> = const { Cell::new(-1) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
    static SLICE: Cell<i64> = const { Cell::new(0) };
    static LEFT: Cell<i64> = const { Cell::new(0) };
    static FAIRSLICE: Cell<bool> = const { Cell::new(false) };
    static USER: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
#[inline]
pub fn me() -> i32 {
    TASK.with(|t| t.get())
}
pub fn is_task() -> bool {
    me() >= 0
}
pub fn in_user_code() -> bool {
    USER.with(|u| u.get() > 0)
}
/// the pattern for fresh memory, if simulated code is running
pub fn poison() -> Option<u32> {
    if USER.with(|u| u.get()) > 0 {
        let s = sh();
        if s.strat.poison != 0 {
            s.stat[stat::POISON] += 1;
        }
        Some(s.strat.poison)
    } else {
        None
    }
}
#[cold]
pub fn heap_corrupt(size: usize) {
    if is_task() {
        violation("heap-corruption", &format!("write past the end of a heap block of {} bytes", size));
    }
    unsafe { libc::abort() }
}

#[inline(always)]
pub fn point() {
    BUDGET.with(|b| {
        let v = b.get() - 1;
        b.set(v);
        if v <= 0 {
            slow()
        }
    })
}

#[cold]
#[inline(never)]
fn slow() {
    if me() < 0 || !in_user_code() {
        BUDGET.with(|b| b.set(i64::MAX));
        return;
    }
    account();
    let m = me() as usize;
    check_crash_points(m);
    if sh().steps - sh().end_steps > sh().step_cap {
        violation("no-progress", &format!("no operation ended within {} instrumented points: {}", sh().step_cap, describe()));
    }
    let fair = FAIRSLICE.with(|f| f.get());
    preempt(fair);
    new_slice();
}

fn check_crash_points(m: usize) {
    let s = sh();
    if s.strat.crash_points > 0
        && s.strat.crash_rank == s.tasks[m].proc_ + 1
        && s.tasks[m].root == 1
        && s.tasks[m].points >= s.strat.crash_points
    {
        crash_now();
    }
}

/// add the points used in the current slice to the counters
fn account() {
    let used = SLICE.with(|s| s.get()) - BUDGET.with(|b| b.get());
    let s = sh();
    s.steps += used as u64;
    s.vtime += used as u64;
    s.tasks[me() as usize].points += used as u64;
    let rest = BUDGET.with(|b| b.get());
    SLICE.with(|x| x.set(rest));
    hurry();
}

/// Tasks that run without getting an operation done may be spinning on what a
/// sleeping or stalled task holds. A point is a nanosecond, so waiting for
/// that task in lockstep would take billions of points: let time pass faster.
fn overdue() -> bool {
    let s = sh();
    s.steps - s.end_steps > HURRY_STEPS || s.stat[stat::SWITCH] - s.end_switch > HURRY_SWITCHES
}
fn hurry() {
    let s = sh();
    if !overdue() {
        return;
    }
    if s.steps - s.end_steps.max(s.hurry_steps) < HURRY_STEPS
        && s.stat[stat::SWITCH] - s.end_switch.max(s.hurry_switch) < HURRY_SWITCHES
    {
        return;
    }
    (s.hurry_steps, s.hurry_switch) = (s.steps, s.stat[stat::SWITCH]);
    let mut d = u64::MAX;
    for i in 0..s.ntasks as usize {
        if s.tasks[i].st == st::BLOCKED {
            d = d.min(s.tasks[i].deadline);
        }
    }
    if d != u64::MAX && d > s.vtime {
        s.stat[stat::TIMEJUMP] += 1;
        s.vtime = d;
    }
}

fn new_slice() {
    let s = sh();
    let st = s.strat;
    let g = decide(|r| match st.mode {
        0 => 0,
        1 => 1 + r.below(2 * st.gap.max(1)),
        2 => {
            if r.below(3) == 0 {
                1 + r.below(12)
            } else {
                1 + r.below(2 * st.gap.max(1))
            }
        }
        _ => 1 + r.below(8 * st.gap.max(1)),
    });
    let mut len = if g == 0 { FAIR } else { g as i64 };
    let m = me() as usize;
    FAIRSLICE.with(|f| f.set(g == 0));
    if st.crash_points > 0 && st.crash_rank == s.tasks[m].proc_ + 1 && s.tasks[m].root == 1 {
        let rem = st.crash_points.saturating_sub(s.tasks[m].points) as i64;
        if rem > 0 && rem < len {
            len = rem;
        }
    }
    SLICE.with(|x| x.set(len));
    BUDGET.with(|x| x.set(len));
}

/// Simulated user code starts: preemption points count from here on.
pub fn user_begin() {
    if me() < 0 {
        return;
    }
    let d = USER.with(|u| {
        u.set(u.get() + 1);
        u.get()
    });
    if d == 1 {
        let l = LEFT.with(|l| l.get());
        if l > 0 {
            SLICE.with(|x| x.set(l));
            BUDGET.with(|x| x.set(l));
        } else {
            new_slice();
        }
    }
}
pub fn user_end() {
    if me() < 0 {
        return;
    }
    let d = USER.with(|u| {
        u.set(u.get().saturating_sub(1));
        u.get()
    });
    if d == 0 {
        account();
        LEFT.with(|l| l.set(BUDGET.with(|b| b.get())));
        BUDGET.with(|b| b.set(i64::MAX));
        SLICE.with(|b| b.set(i64::MAX));
    }
}
/// Leave user mode completely (after a caught panic) or for a check.
pub fn user_suspend() -> u32 {
    let d = USER.with(|u| u.get());
    if d > 0 {
        USER.with(|u| u.set(1));
        user_end();
    }
    d
}
pub fn user_resume(d: u32) {
    if d > 0 {
        user_begin();
        USER.with(|u| u.set(d));
    }
}

pub struct Rng<'a>(pub &'a mut [u64; 4]);
impl Rng<'_> {
    pub fn next(&mut self) -> u64 {
        let s = &mut *self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }
}
pub fn seed_rng(seed: u64) -> [u64; 4] {
    let mut z = seed;
    let mut o = [0; 4];
    for v in o.iter_mut() {
        z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = z;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *v = x ^ (x >> 31);
    }
    o
}

pub fn decide(gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
    let s = sh();
    let i = s.dec;
    s.dec += 1;
    let v = if s.replay != 0 {
        let p = s.replay_pos as usize;
        if p < s.replay_len as usize && s.replay_buf[p].0 as u64 == i {
            s.replay_pos += 1;
            s.replay_buf[p].1
        } else {
            0
        }
    } else {
        gen(&mut Rng(&mut s.rng))
    };
    if v != 0 {
        if (s.log_len as usize) < MAXDEC {
            s.log[s.log_len as usize] = (i as u32, v);
            s.log_len += 1;
        } else {
            s.log_overflow = 1;
        }
    }
    v
}
/// true with probability pm/1000
pub fn chance(pm: u32) -> bool {
    if pm == 0 {
        return false;
    }
    decide(|r| (r.below(1000) < pm) as u32) != 0
}

pub fn ev(kind: u32, a: u64, b: u64) {
    let s = sh();
    let t = me();
    let e = Ev { seq: s.evseq, vt: s.vtime, task: t as u32, kind, a, b };
    s.ev[(s.evseq as usize) % NEV] = e;
    s.evseq += 1;
    let mut h = s.evhash;
    for x in [e.vt, (t as u64) << 32 | kind as u64, a, b] {
        h = (h ^ x).wrapping_mul(0x1000_0000_01B3);
        h ^= h >> 29;
    }
    s.evhash = h;
    if kind == evk::OP_END {
        s.gap_switch = s.gap_switch.max(s.stat[stat::SWITCH] - s.end_switch);
        s.gap_steps = s.gap_steps.max(s.steps - s.end_steps);
        (s.end_switch, s.end_steps) = (s.stat[stat::SWITCH], s.steps);
    }
}
pub mod evk {
    pub const SWITCH: u32 = 1;
    pub const BLOCK: u32 = 2;
    pub const WAKE: u32 = 3;
    pub const SPAWN: u32 = 4;
    pub const EXIT: u32 = 5;
    pub const MPI: u32 = 6;
    pub const SEND: u32 = 7;
    pub const RECV: u32 = 8;
    pub const OP_BEGIN: u32 = 9;
    pub const OP_END: u32 = 10;
    pub const CRASH: u32 = 11;
    pub const STALL: u32 = 12;
    pub const NAMES: [&str; 13] = [
        "", "switch-to", "block", "wake", "spawn", "exit", "mpi-call", "send", "recv", "op-begin",
        "op-end", "crash", "stall",
    ];
}

fn expire() {
    let s = sh();
    for i in 0..s.ntasks as usize {
        let t = &mut s.tasks[i];
        if t.st == st::BLOCKED && t.deadline <= s.vtime {
            t.st = st::READY;
            t.timed_out = 1;
            t.deadline = u64::MAX;
        }
    }
}

/// pick a ready task other than `not`; None if there is none
fn pick(from: usize, not: Option<usize>) -> Option<usize> {
    let s = sh();
    expire();
    let n = s.ntasks as usize;
    let mut c = [0u16; MAXT];
    let mut k = 0;
    for d in 1..=n {
        let i = (from + d) % n;
        if s.tasks[i].st == st::READY && Some(i) != not {
            c[k] = i as u16;
            k += 1;
        }
    }
    if k == 0 {
        return None;
    }
    if k == 1 {
        return Some(c[0] as usize);
    }
    // nothing gets done: whoever is needed must get the processor eventually
    let p = if overdue() { 0 } else { s.strat.pick };
    let v = decide(|r| match p {
        0 => r.below(k as u32),
        1 => {
            // mostly the lowest id
            if r.below(8) == 0 {
                r.below(k as u32)
            } else {
                (0..k).min_by_key(|i| c[*i]).unwrap() as u32
            }
        }
        2 | 4 => (0..k).max_by_key(|i| (sh().tasks[c[*i] as usize].prio, c[*i])).unwrap() as u32,
        _ => {
            if r.below(8) == 0 {
                r.below(k as u32)
            } else {
                (0..k).max_by_key(|i| c[*i]).unwrap() as u32
            }
        }
    });
    Some(c[(v as usize).min(k - 1)] as usize)
}

unsafe fn wake_task(t: usize) {
    let f = &sh().tasks[t].futex;
    f.store(1, SeqCst);
    sys::futex_wake_shared(f as *const _ as *const u32);
}
pub unsafe fn wait_own(t: usize) {
    let f = &sh().tasks[t].futex;
    loop {
        if f.swap(0, SeqCst) == 1 {
            return;
        }
        sys::futex_wait_shared(f as *const _ as *const u32, 0);
    }
}

fn note_switch(from: usize, to: usize) {
    let s = sh();
    s.stat[stat::SWITCH] += 1;
    if s.crashed != 0 && s.stat[stat::SWITCH] - s.end_switch > 500_000 {
        // nobody has to get anywhere once a rank is gone
        s.aborted = 1;
        finish(1);
    }
    if s.stat[stat::SWITCH] - s.end_switch > 5_000_000 {
        violation("no-progress", &format!("no operation ended within 5000000 context switches: {}", describe()));
    }
    hurry();
    s.current = to as u32;
    s.vtime += 100;
    let mut h = s.ilvhash;
    for x in [from as u64, to as u64, s.tasks[from].points] {
        h = (h ^ x).wrapping_mul(0x1000_0000_01B3);
        h ^= h >> 31;
    }
    s.ilvhash = h;
    ev(evk::SWITCH, to as u64, s.tasks[from].points);
}

fn switch(from: usize, to: usize) {
    if from == to {
        return;
    }
    note_switch(from, to);
    unsafe {
        wake_task(to);
        wait_own(from);
    }
}

/// give the baton away for good (task finished or process about to exit)
fn leave(from: usize) {
    match next_or_idle(from) {
        Some(t) => {
            note_switch(from, t);
            unsafe { wake_task(t) }
        }
        None => unreachable!(),
    }
}

/// next ready task; jumps virtual time; never returns None (ends the run instead)
fn next_or_idle(from: usize) -> Option<usize> {
    loop {
        if let Some(t) = pick(from, None) {
            return Some(t);
        }
        let s = sh();
        let mut d = u64::MAX;
        for i in 0..s.ntasks as usize {
            if s.tasks[i].st == st::BLOCKED {
                d = d.min(s.tasks[i].deadline);
            }
        }
        if d != u64::MAX {
            s.stat[stat::TIMEJUMP] += 1;
            s.vtime = s.vtime.max(d);
            continue;
        }
        deadlock();
    }
}

fn deadlock() -> ! {
    let s = sh();
    if s.crashed != 0 {
        s.aborted = 1;
        finish(1);
    }
    violation("deadlock", &format!("no task can run: {}", describe()));
}

pub fn describe() -> String {
    let s = sh();
    let mut o = String::new();
    for i in 0..s.ntasks as usize {
        let t = &s.tasks[i];
        let st = match t.st {
            st::READY => "ready".to_string(),
            st::BLOCKED => format!("waiting for {} ({})", wk::NAMES[t.wkind as usize], if t.wkind == wk::FUTEX { 0 } else { t.wkey }),
            st::DONE => "done".into(),
            st::DEAD => "dead".into(),
            _ => "?".into(),
        };
        o += &format!("[task {} proc {}: {}] ", i, t.proc_, st);
    }
    o
}

/// Block the current task. Returns true if it was woken by its deadline.
pub fn block(kind: u32, key: u64, deadline: u64) -> bool {
    let m = me() as usize;
    let s = sh();
    let u = USER.with(|u| u.get());
    if u > 0 {
        account();
    }
    let t = &mut s.tasks[m];
    t.st = st::BLOCKED;
    t.wkind = kind;
    t.wkey = key;
    t.deadline = deadline;
    t.timed_out = 0;
    ev(evk::BLOCK, kind as u64, if kind == wk::FUTEX { 0 } else { key });
    let n = next_or_idle(m).unwrap();
    switch(m, n);
    let t = &mut sh().tasks[m];
    t.wkind = wk::NONE;
    if u > 0 {
        new_slice();
    }
    t.timed_out == 1
}

pub fn make_ready(t: usize) {
    let s = sh();
    let x = &mut s.tasks[t];
    if x.st == st::BLOCKED {
        x.st = st::READY;
        x.deadline = u64::MAX;
        x.timed_out = 0;
        ev(evk::WAKE, t as u64, 0);
    }
}

fn maybe_stall(m: usize) -> bool {
    let s = sh();
    if s.strat.stall_budget > 0 && chance(s.strat.stall_pm) {
        s.strat.stall_budget -= 1;
        let max = s.strat.stall_ns.max(2);
        let d = decide(|r| 1 + r.below(max - 1)) as u64;
        s.stat[stat::STALL] += 1;
        ev(evk::STALL, m as u64, d);
        block(wk::STALL, 0, s.vtime + d);
        return true;
    }
    false
}

fn preempt(fair: bool) {
    let m = me() as usize;
    let s = sh();
    if maybe_stall(m) {
        return;
    }
    if matches!(s.strat.pick, 2 | 4) && !fair {
        // PCT: lower the priority of the running task
        s.tasks[m].prio = low_prio();
    }
    if fair {
        expire();
        let n = s.ntasks as usize;
        for d in 1..n {
            let i = (m + d) % n;
            if s.tasks[i].st == st::READY {
                s.stat[stat::FAIR] += 1;
                switch(m, i);
                return;
            }
        }
        return;
    }
    if let Some(t) = pick(m, Some(m)) {
        s.stat[stat::PREEMPT] += 1;
        switch(m, t);
    }
}

static mut LOWP: u32 = 0;
fn low_prio() -> u32 {
    // decreasing with the number of switches; unique enough. Below the
    // priorities of new tasks (pick 4, as PCT has it) or above most of them
    let s = sh();
    let top = if s.strat.pick == 4 { 1_000_000u32 } else { 2_000_000 };
    top.saturating_sub((s.stat[stat::SWITCH] % 1_000_000) as u32)
}

pub fn yield_now() {
    let m = me() as usize;
    let s = sh();
    let u = USER.with(|u| u.get());
    if u > 0 {
        account();
    }
    s.stat[stat::YIELD] += 1;
    s.vtime += 50;
    if matches!(s.strat.pick, 2 | 4) {
        s.tasks[m].prio = low_prio();
    }
    match pick(m, Some(m)) {
        Some(t) => switch(m, t),
        None => {
            // nobody else can run: let time pass so that timed waits can end
            let mut d = u64::MAX;
            for i in 0..s.ntasks as usize {
                if s.tasks[i].st == st::BLOCKED {
                    d = d.min(s.tasks[i].deadline);
                }
            }
            if d != u64::MAX {
                s.vtime = s.vtime.max(d);
                if let Some(t) = pick(m, Some(m)) {
                    switch(m, t)
                }
            } else {
                s.steps += 200;
                hurry();
                if s.steps - s.end_steps > s.step_cap {
                    violation("no-progress", &format!("spinning with nobody to wait for: {}", describe()));
                }
            }
        }
    }
    if u > 0 {
        new_slice();
    }
}

/// a point where a task may lose the processor although it did not block
pub fn maybe_preempt(pm: u32) {
    if sh().strat.mode != 0 && chance(pm) {
        let u = USER.with(|u| u.get());
        if u > 0 {
            account();
        }
        preempt(false);
        if u > 0 {
            new_slice();
        }
    }
}

/// Become root task `i` of this process and wait for the baton.
pub fn enter_root(i: usize) {
    TASK.with(|t| t.set(i as i32));
    unsafe { wait_own(i) }
}
pub fn root_done() -> ! {
    let m = me() as usize;
    let s = sh();
    s.tasks[m].st = st::DONE;
    ev(evk::EXIT, m as u64, 0);
    // the process exits: its pool threads end with it
    for i in 0..s.ntasks as usize {
        if i != m && s.tasks[i].proc_ == s.tasks[m].proc_ && s.tasks[i].root == 0 {
            s.tasks[i].st = st::DEAD;
        }
    }
    end_if_complete();
    leave(m);
    unsafe { sys::exit_group(0) }
}
fn end_if_complete() {
    let s = sh();
    for i in 0..s.nroots as usize {
        if s.tasks[i].st != st::DONE && s.tasks[i].st != st::DEAD {
            return;
        }
    }
    finish(1);
}

/// register a new thread of this process; returns its slot
pub fn new_slot() -> usize {
    let s = sh();
    let i = s.ntasks as usize;
    if i >= MAXT {
        harness_error("too many simulated threads");
    }
    s.ntasks += 1;
    let p = s.tasks[me() as usize].proc_;
    let t = &mut s.tasks[i];
    t.st = st::UNUSED;
    t.futex.store(0, SeqCst);
    t.proc_ = p;
    t.root = 0;
    t.deadline = u64::MAX;
    t.prio = 0;
    t.points = 0;
    t.joined = 0;
    s.stat[stat::THREADS] += 1;
    i
}
pub fn slot_started(i: usize, th: u64) {
    let s = sh();
    let t = &mut s.tasks[i];
    t.pthread = th;
    t.st = st::READY;
    let p = 1_000_000 + decide(|r| r.below(1_000_000));
    t.prio = p;
    ev(evk::SPAWN, i as u64, 0);
    maybe_preempt(300);
}
pub fn slot_failed(i: usize) {
    sh().tasks[i].st = st::DONE;
}
pub unsafe fn thread_enter(i: usize) {
    TASK.with(|t| t.set(i as i32));
    wait_own(i);
    user_begin();
}
/// last thing a simulated thread does (after its thread-local destructors)
pub fn thread_leave() {
    let m = me();
    if m < 0 {
        return;
    }
    let m = m as usize;
    if in_user_code() {
        account();
        USER.with(|u| u.set(0));
        BUDGET.with(|b| b.set(i64::MAX));
    }
    let s = sh();
    s.tasks[m].st = st::DONE;
    ev(evk::EXIT, m as u64, 0);
    for i in 0..s.ntasks as usize {
        if s.tasks[i].st == st::BLOCKED && s.tasks[i].wkind == wk::JOIN && s.tasks[i].wkey == m as u64 {
            make_ready(i);
        }
    }
    TASK.with(|t| t.set(-1));
    leave(m);
}

pub fn finish(code: u32) -> ! {
    sh().done.store(code, SeqCst);
    unsafe { sys::exit_group(0) }
}

pub fn put(buf: &mut [u8], len: &mut u32, s: &str) {
    let n = s.len().min(buf.len());
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}
/// Report a property violation: ends the run.
pub fn violation(kind: &str, msg: &str) -> ! {
    let s = sh();
    put(&mut s.vkind, &mut s.vkind_len, kind);
    put(&mut s.vmsg, &mut s.vmsg_len, msg);
    finish(2)
}
pub fn harness_error(msg: &str) -> ! {
    let s = sh();
    put(&mut s.vkind, &mut s.vkind_len, "harness-error");
    put(&mut s.vmsg, &mut s.vmsg_len, msg);
    finish(3)
}

/// The process of the current task dies on the spot.
pub fn crash_now() -> ! {
    let m = me() as usize;
    let s = sh();
    let p = s.tasks[m].proc_;
    s.stat[stat::CRASH] += 1;
    s.crashed |= 1 << p;
    ev(evk::CRASH, p as u64, 0);
    for i in 0..s.ntasks as usize {
        if s.tasks[i].proc_ == p {
            s.tasks[i].st = st::DEAD;
        }
    }
    crate::mpi::drop_in_flight(p);
    end_if_complete();
    leave(m);
    unsafe { sys::exit_group(0) }
}
