//! State shared by all simulated processes of one run (one MAP_SHARED mapping).
//! Only the task that holds the baton reads or writes it, so no locks are needed.
use std::sync::atomic::AtomicU32;

pub const MAXT: usize = 256;
pub const MAXDEC: usize = 1 << 17;
pub const MAXMSG: usize = 4096;
pub const MAXR: usize = 64;
pub const NEV: usize = 1 << 14;
pub const NSTAT: usize = 64;
pub const ARENA: usize = 1 << 28;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Ev {
    pub seq: u64,
    pub vt: u64,
    pub task: u32,
    pub kind: u32,
    pub a: u64,
    pub b: u64,
}

pub mod st {
    pub const UNUSED: u32 = 0;
    pub const READY: u32 = 1;
    pub const BLOCKED: u32 = 3;
    pub const DONE: u32 = 4;
    pub const DEAD: u32 = 5;
}
pub mod wk {
    pub const NONE: u32 = 0;
    pub const FUTEX: u32 = 1;
    pub const JOIN: u32 = 2;
    pub const MAIL: u32 = 3;
    pub const STALL: u32 = 4;
    pub const SLEEP: u32 = 5;
    pub const RENDEZVOUS: u32 = 6;
    pub const NAMES: [&str; 7] = [
        "none", "futex", "join", "message", "stall", "sleep", "send-completion",
    ];
}

#[repr(C)]
pub struct Task {
    pub st: u32,
    pub futex: AtomicU32,
    pub proc_: u32,
    pub root: u32,
    pub wkind: u32,
    pub wkey: u64,
    pub deadline: u64,
    pub timed_out: u32,
    pub prio: u32,
    pub points: u64,
    pub pthread: u64,
    pub joined: u32,
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
#[repr(C)]
pub struct Strat {
    /// 0 no preemption, 1 geometric gaps, 2 bursts, 3 priorities (PCT-like)
    pub mode: u32,
    pub gap: u32,
    /// 0 uniform, 1 lowest id, 2 priorities (preempted tasks come back soon), 3 last-created first, 4 priorities (preempted tasks come last)
    pub pick: u32,
    /// per mille probability of a stall at a preemption point
    pub stall_pm: u32,
    pub stall_ns: u32,
    /// per mille probability of a spurious futex wake-up
    pub spurious_pm: u32,
    /// message latency model: 0 immediate, 1 small jitter, 2 heavy tail
    pub lat: u32,
    /// 0 eager, 1 rendezvous, 2 random per message, 3 synchronising collectives
    pub sync: u32,
    /// partition: messages that cross `part_mask` are held in [start, end)
    pub part_mask: u64,
    pub part_start: u64,
    pub part_end: u64,
    /// crash: rank+1 (0 = none), at the given MPI call (1-based; 0 = unused), phase
    pub crash_rank: u32,
    pub crash_call: u32,
    pub crash_phase: u32,
    /// or at this many instrumented points of that rank (0 = unused)
    pub crash_points: u64,
    /// heap poison pattern index (0 = none)
    pub poison: u32,
    pub stall_budget: u32,
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Msg {
    pub src: u32,
    pub dst: u32,
    pub chan: u64,
    pub off: u64,
    pub len: u64,
    pub deliver: u64,
    pub seq: u64,
    pub rdv: u32,
    pub id: u32,
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Coll {
    pub seq: u64,
    pub kind: u32,
    pub root: i32,
    pub esz: u32,
    pub nreg: u32,
    pub first: u32,
    pub used: u32,
}
pub const NCOLL: usize = 4096;
pub const NCTX: usize = 8;

#[repr(C)]
pub struct Mpi {
    pub nranks: u32,
    pub inited: [u32; MAXR],
    pub finalized: [u32; MAXR],
    pub coll_seq: [[u64; NCTX]; MAXR],
    /// receives and immediate collectives that are not complete
    pub posted: [u32; MAXR],
    pub calls: [u64; MAXR],
    pub forbid: [u32; MAXR],
    pub nmsg: u32,
    pub next_id: u32,
    pub msgs: [Msg; MAXMSG],
    pub arena_top: u64,
    pub arena_high: u64,
    pub last_deliver: [[u64; MAXR]; MAXR],
    pub coll: [Coll; NCOLL],
}

#[repr(C)]
pub struct Shared {
    pub done: AtomicU32,
    pub ntasks: u32,
    pub nroots: u32,
    pub current: u32,
    pub vtime: u64,
    pub steps: u64,
    pub step_cap: u64,
    /// context switches and instrumented points at the last end of an operation,
    /// and the most that passed between two of them
    pub end_switch: u64,
    pub hurry_steps: u64,
    pub hurry_switch: u64,
    pub end_steps: u64,
    pub gap_switch: u64,
    pub gap_steps: u64,
    pub rng: [u64; 4],
    pub erng: [u64; 4],
    pub strat: Strat,
    pub dec: u64,
    pub replay: u32,
    pub replay_len: u32,
    pub replay_pos: u32,
    pub log_len: u32,
    pub log_overflow: u32,
    pub evseq: u64,
    pub evhash: u64,
    pub ilvhash: u64,
    pub crashed: u64,
    pub aborted: u32,
    pub tasks: [Task; MAXT],
    pub stat: [u64; NSTAT],
    pub vkind: [u8; 64],
    pub vmsg: [u8; 4096],
    pub vkind_len: u32,
    pub vmsg_len: u32,
    pub maxerr: f64,
    /// tables that all ranks must agree on: (key, hash)
    pub agree: [(u64, u64); 512],
    pub mpi: Mpi,
    pub ev: [Ev; NEV],
    pub replay_buf: [(u32, u32); MAXDEC],
    pub log: [(u32, u32); MAXDEC],
}

pub mod stat {
    pub const SWITCH: usize = 0;
    pub const PREEMPT: usize = 1;
    pub const STALL: usize = 2;
    pub const SPURIOUS: usize = 3;
    pub const THREADS: usize = 4;
    pub const FUTEX_WAIT: usize = 5;
    pub const FUTEX_WAKE: usize = 6;
    pub const YIELD: usize = 7;
    pub const MSG: usize = 8;
    pub const MSG_DELAYED: usize = 9;
    pub const MSG_REORDER: usize = 10;
    pub const RENDEZVOUS: usize = 11;
    pub const COLL: usize = 12;
    pub const PARTITION: usize = 13;
    pub const CRASH: usize = 14;
    pub const POISON: usize = 15;
    pub const OPS: usize = 16;
    pub const REJECTED: usize = 17;
    pub const COMPARED: usize = 18;
    pub const STALE_OUT: usize = 19;
    pub const MSG_BYTES: usize = 20;
    pub const TIMEJUMP: usize = 21;
    pub const FAIR: usize = 22;
    pub const SYNC_COLL: usize = 23;
    pub const EARLY_RETURN: usize = 24;
    pub const LOST_ON_CRASH: usize = 25;
    pub const PANICS: usize = 26;
    pub const PAR_OPS: usize = 27;
    pub const STEAL_LIKE: usize = 28;
    pub const BITWISE: usize = 29;
    pub const NESTED: usize = 30;
    pub const NAMES: [&str; 31] = [
        "context_switches", "preemptions", "task_stalls", "spurious_wakeups", "threads_created",
        "futex_waits", "futex_wakes", "sched_yields", "messages", "messages_delayed",
        "messages_reordered_across_pairs", "rendezvous_sends", "collective_calls",
        "messages_held_by_partition", "rank_crashes", "poisoned_allocations", "operations",
        "rejected_calls", "values_compared", "stale_output_buffers", "message_bytes",
        "virtual_time_jumps", "fairness_preemptions", "synchronising_collectives",
        "collectives_returned_before_peers_entered", "in_flight_messages_lost_on_crash",
        "panics_observed", "parallel_operations", "pool_jobs_on_other_threads",
        "bitwise_comparisons", "operations_from_inside_pool",
    ];
}
