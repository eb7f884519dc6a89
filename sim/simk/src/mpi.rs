//! The simulated MPI library: blocking collectives and point-to-point calls of
//! the world communicator, carried by messages whose latency, order across
//! pairs, buffering and loss (on a crash) the scheduler decides.
use crate::sched::{self, *};
use crate::sh::*;
use libc::{c_char, c_double, c_int, c_void};

pub type H = usize;
const fn dt(id: usize, size: usize) -> H {
    0x0dd0_0000 + (id << 8) + size
}
macro_rules! consts {($($n:ident : $t:ty = $v:expr;)*) => {$(
    #[no_mangle] pub static mut $n: $t = $v;
)*}}
consts! {
    RSMPI_C_BOOL: H = dt(1,1); RSMPI_FLOAT: H = dt(2,4); RSMPI_DOUBLE: H = dt(3,8);
    RSMPI_COMPLEX: H = dt(4,8); RSMPI_DOUBLE_COMPLEX: H = dt(5,16);
    RSMPI_INT8_T: H = dt(6,1); RSMPI_INT16_T: H = dt(7,2); RSMPI_INT32_T: H = dt(8,4); RSMPI_INT64_T: H = dt(9,8);
    RSMPI_UINT8_T: H = dt(10,1); RSMPI_UINT16_T: H = dt(11,2); RSMPI_UINT32_T: H = dt(12,4); RSMPI_UINT64_T: H = dt(13,8);
    RSMPI_DATATYPE_NULL: H = 0x0dd0_0000;
    RSMPI_COMM_WORLD: H = 0xc001; RSMPI_COMM_NULL: H = 0xc000; RSMPI_COMM_SELF: H = 0xc002;
    RSMPI_COMM_TYPE_SHARED: c_int = 1;
    RSMPI_GROUP_EMPTY: H = 0x6001; RSMPI_GROUP_NULL: H = 0x6000;
    RSMPI_UNDEFINED: c_int = -32766; RSMPI_PROC_NULL: c_int = -2; RSMPI_ANY_SOURCE: c_int = -1; RSMPI_ANY_TAG: c_int = -1;
    RSMPI_MESSAGE_NULL: H = 0x3000; RSMPI_MESSAGE_NO_PROC: H = 0x3001; RSMPI_REQUEST_NULL: H = 0x4000;
    RSMPI_STATUS_IGNORE: H = 0; RSMPI_STATUSES_IGNORE: H = 0;
    RSMPI_IDENT: c_int = 0; RSMPI_CONGRUENT: c_int = 1; RSMPI_SIMILAR: c_int = 2; RSMPI_UNEQUAL: c_int = 3;
    RSMPI_THREAD_SINGLE: c_int = 0; RSMPI_THREAD_FUNNELED: c_int = 1; RSMPI_THREAD_SERIALIZED: c_int = 2; RSMPI_THREAD_MULTIPLE: c_int = 3;
    RSMPI_GRAPH: c_int = 2; RSMPI_CART: c_int = 1; RSMPI_DIST_GRAPH: c_int = 3;
    RSMPI_MAX_LIBRARY_VERSION_STRING: c_int = 256; RSMPI_MAX_PROCESSOR_NAME: c_int = 256;
    RSMPI_MAX: H = 0x5001; RSMPI_MIN: H = 0x5002; RSMPI_SUM: H = 0x5003; RSMPI_PROD: H = 0x5004;
    RSMPI_LAND: H = 0x5005; RSMPI_BAND: H = 0x5006; RSMPI_LOR: H = 0x5007; RSMPI_BOR: H = 0x5008;
    RSMPI_LXOR: H = 0x5009; RSMPI_BXOR: H = 0x500a;
    RSMPI_INFO_NULL: H = 0x7000; RSMPI_ERRORS_ARE_FATAL: H = 0x8001;
}

pub const KINDS: [&str; 16] = [
    "barrier", "bcast", "gather", "gatherv", "scatter", "scatterv", "allgather", "allgatherv", "alltoall",
    "alltoallv", "reduce", "allreduce", "scan", "exscan", "reduce_scatter", "comm_dup",
];

fn m() -> &'static mut Mpi {
    &mut sh().mpi
}
fn rank() -> usize {
    sh().tasks[me() as usize].proc_ as usize
}
fn size() -> usize {
    m().nranks as usize
}
fn need_task(f: &str) {
    if !is_task() {
        panic!("{} outside of a simulation", f);
    }
}
fn usable(f: &str) {
    need_task(f);
    let s = sh();
    if s.mpi.nranks == 0 {
        harness_error("MPI used in a run without ranks");
    }
    let r = rank();
    if s.mpi.inited[r] == 0 || s.mpi.finalized[r] != 0 {
        violation("mpi-usage", &format!("rank {} calls {} outside of MPI_Init..MPI_Finalize", r, f));
    }
    if s.tasks[me() as usize].root == 0 {
        violation("mpi-usage", &format!("rank {} calls {} from a thread other than the one that initialised MPI", r, f));
    }
}
/// the communicators of a rank: the world (0) and its duplicates
static mut CTX: usize = 0;
static mut FREED: [bool; NCTX] = [false; NCTX];
fn world(comm: H, f: &str) {
    let w = unsafe { RSMPI_COMM_WORLD };
    let k = match comm {
        c if c == w => 0,
        c if c > DUP && c < DUP + NCTX => c - DUP,
        _ => harness_error(&format!("{} on a communicator other than the world and its duplicates", f)),
    };
    if unsafe { FREED[k] } {
        violation("mpi-usage", &format!("{}: rank {} uses a communicator that it has freed", f, rank()));
    }
    unsafe { CTX = k }
}
const DUP: H = 0xc100;
fn phase(p: u32) {
    let s = sh();
    let r = rank();
    if s.strat.crash_rank == r as u32 + 1
        && s.strat.crash_call > 0
        && s.mpi.calls[r] == s.strat.crash_call as u64
        && s.strat.crash_phase == p
    {
        crash_now();
    }
}

/// enter a communicating call
fn enter(f: &str) {
    usable(f);
    if m().forbid[rank()] != 0 {
        violation("communicated-before-rejecting", &format!("rank {} enters {} in a call that must be rejected first", rank(), f));
    }
    m().calls[rank()] += 1;
    maybe_preempt(150);
    phase(0);
}
fn leave_call() {
    phase(3);
    maybe_preempt(150);
}

/// match this collective against what the other ranks called in the same position
fn collective(kind: u32, root: i32, ty: H) -> u64 {
    let s = sh();
    let r = rank();
    let ctx = unsafe { CTX };
    s.mpi.coll_seq[r][ctx] += 1;
    let seq = s.mpi.coll_seq[r][ctx] | (ctx as u64) << 40;
    s.stat[stat::COLL] += 1;
    ev(evk::MPI, kind as u64, seq);
    if root >= size() as i32 {
        violation("collective-mismatch", &format!("rank {}: {} with root {} of {} ranks", r, KINDS[kind as usize], root, size()));
    }
    let c = &mut s.mpi.coll[seq as usize % NCOLL];
    if c.used == 0 || c.seq != seq {
        *c = Coll { seq, kind, root, esz: ty as u32, nreg: 1, first: r as u32, used: 1 };
    } else {
        c.nreg += 1;
        let (k0, r0, t0, f0) = (c.kind, c.root, c.esz, c.first);
        if k0 != kind || r0 != root {
            violation(
                "collective-mismatch",
                &format!(
                    "collective number {}: rank {} calls {} (root {}) where rank {} called {} (root {})",
                    seq, r, KINDS[kind as usize], root, f0, KINDS[k0 as usize], r0
                ),
            );
        }
        if t0 != ty as u32 {
            violation(
                "collective-mismatch",
                &format!("collective number {} ({}): rank {} and rank {} use different element types", seq, KINDS[kind as usize], r, f0),
            );
        }
    }
    if s.strat.sync == 3 && !unsafe { DEFER } {
        // a synchronising implementation: nobody leaves before everybody entered
        s.stat[stat::SYNC_COLL] += 1;
        let ch = seq << 4 | 1;
        for d in 1..size() {
            send((r + d) % size(), ch, core::ptr::null(), 0, false);
        }
        for d in 1..size() {
            recv((r + d) % size(), ch, core::ptr::null_mut(), 0, "synchronisation");
        }
    }
    seq << 4
}

/// returns the message id
fn send(dst: usize, chan: u64, p: *const u8, len: usize, may_block: bool) -> (u32, bool) {
    let s = sh();
    let src = rank();
    if s.mpi.nmsg as usize >= MAXMSG {
        harness_error("too many messages in flight");
    }
    if s.mpi.nmsg == 0 {
        s.mpi.arena_top = 0;
    }
    let off = s.mpi.arena_top;
    if off as usize + len > ARENA {
        harness_error("message arena exhausted");
    }
    s.mpi.arena_top += (len as u64 + 15) & !15;
    s.mpi.arena_high = s.mpi.arena_high.max(s.mpi.arena_top);
    if len > 0 {
        unsafe { core::ptr::copy_nonoverlapping(p, ARENA_P.add(off as usize), len) }
    }
    let now = s.vtime;
    let lat = match s.strat.lat {
        0 => 0,
        1 => decide(|r| r.below(3000)),
        3 => decide(|r| if r.below(8) == 0 { r.below(4_000_000_000) } else { r.below(500) }),
        _ => decide(|r| {
            if r.below(4) == 0 {
                r.below(2_000_000)
            } else {
                r.below(500)
            }
        }),
    } as u64;
    let mut d = now + lat;
    if lat > 0 {
        s.stat[stat::MSG_DELAYED] += 1;
    }
    let pm = s.strat.part_mask;
    if pm != 0 && (pm >> src & 1) != (pm >> dst & 1) && d >= s.strat.part_start && d < s.strat.part_end {
        d = s.strat.part_end + lat;
        s.stat[stat::PARTITION] += 1;
    }
    // non-overtaking between one pair of ranks
    d = d.max(s.mpi.last_deliver[src][dst]);
    s.mpi.last_deliver[src][dst] = d;
    for i in 0..s.mpi.nmsg as usize {
        let x = &s.mpi.msgs[i];
        if x.dst == dst as u32 && x.src != src as u32 && x.deliver > d {
            s.stat[stat::MSG_REORDER] += 1;
            break;
        }
    }
    let rdv = may_block
        && match s.strat.sync {
            1 => true,
            2 => decide(|r| r.below(2)) != 0,
            _ => false,
        };
    if rdv {
        s.stat[stat::RENDEZVOUS] += 1;
    }
    s.mpi.next_id += 1;
    let id = s.mpi.next_id;
    s.stat[stat::MSG] += 1;
    s.stat[stat::MSG_BYTES] += len as u64;
    ev(evk::SEND, dst as u64, len as u64);
    let k = s.mpi.nmsg as usize;
    s.mpi.msgs[k] = Msg { src: src as u32, dst: dst as u32, chan, off, len: len as u64, deliver: d, seq: id as u64, rdv: rdv as u32, id };
    s.mpi.nmsg += 1;
    // the receiver may be waiting for exactly this
    let t = &mut s.tasks[dst];
    if t.st == st::BLOCKED && (t.wkind == wk::MAIL || (t.wkind == wk::RENDEZVOUS && s.mpi.posted[dst] > 0)) {
        t.deadline = t.deadline.min(d);
    }
    (id, rdv)
}

fn find(src: i32, chan: u64) -> Option<usize> {
    let s = sh();
    let r = rank() as u32;
    let mut best: Option<usize> = None;
    for i in 0..s.mpi.nmsg as usize {
        let x = &s.mpi.msgs[i];
        let fits = if chan & ANYTAG != 0 { x.chan & !TAGS == chan & !ANYTAG } else { x.chan == chan };
        if x.dst == r && (src < 0 || x.src == src as u32) && fits {
            let better = match best {
                None => true,
                Some(b) => (x.deliver, x.id) < (s.mpi.msgs[b].deliver, s.mpi.msgs[b].id),
            };
            if better {
                best = Some(i);
            }
        }
    }
    best
}

fn wait_mail(src: i32, chan: u64) -> usize {
    loop {
        let mut dl = progress();
        let s = sh();
        if let Some(i) = find(src, chan) {
            if s.mpi.msgs[i].deliver <= s.vtime {
                return i;
            }
            dl = dl.min(s.mpi.msgs[i].deliver);
        }
        block(wk::MAIL, chan >> 4, dl);
    }
}

fn take(i: usize, p: *mut u8, len: usize, what: &str) -> usize {
    let s = sh();
    let x = s.mpi.msgs[i];
    if x.len != len as u64 {
        violation(
            "collective-mismatch",
            &format!("{}: rank {} sends {} bytes to rank {}, which expects {}", what, x.src, x.len, x.dst, len),
        );
    }
    if len > 0 {
        unsafe { core::ptr::copy_nonoverlapping(ARENA_P.add(x.off as usize), p, len) }
    }
    ev(evk::RECV, x.src as u64, x.len);
    s.mpi.nmsg -= 1;
    let last = s.mpi.nmsg as usize;
    s.mpi.msgs[i] = s.mpi.msgs[last];
    if x.rdv != 0 {
        let t = &s.tasks[x.src as usize];
        if t.st == st::BLOCKED && (t.wkind == wk::RENDEZVOUS || (t.wkind == wk::MAIL && t.wkey == ANYTHING)) {
            make_ready(x.src as usize);
        }
    }
    x.src as usize
}

fn recv(src: usize, chan: u64, p: *mut u8, len: usize, what: &str) {
    let i = wait_mail(src as i32, chan);
    take(i, p, len, what);
}
fn in_flight(id: u32) -> bool {
    let s = sh();
    (0..s.mpi.nmsg as usize).any(|i| s.mpi.msgs[i].id == id)
}
fn wait_sent(id: u32) {
    loop {
        let dl = progress();
        if !in_flight(id) {
            return;
        }
        block(wk::RENDEZVOUS, id as u64, dl);
    }
}

#[derive(Clone, Copy)]
struct Part {
    off: usize,
    len: usize,
}
fn parts(what: &str, counts: *const c_int, displs: *const c_int, esz: usize) -> Vec<Part> {
    (0..size())
        .map(|i| unsafe {
            let (c, d) = (*counts.add(i), *displs.add(i));
            if c < 0 || d < 0 {
                violation("collective-mismatch", &format!("{}: rank {} passes count {} / displacement {} for rank {}", what, rank(), c, d, i));
            }
            Part { off: d as usize * esz, len: c as usize * esz }
        })
        .collect()
}
fn even(count: usize, esz: usize) -> Vec<Part> {
    (0..size()).map(|i| Part { off: i * count * esz, len: count * esz }).collect()
}
fn disjoint(what: &str, v: &[Part]) {
    let mut w: Vec<(usize, usize)> = v.iter().filter(|p| p.len > 0).map(|p| (p.off, p.off + p.len)).collect();
    w.sort();
    for k in 1..w.len() {
        if w[k].0 < w[k - 1].1 {
            violation("collective-mismatch", &format!("{}: the receive blocks of rank {} overlap", what, rank()));
        }
    }
}
fn span(v: &[Part]) -> usize {
    v.iter().filter(|p| p.len > 0).map(|p| p.off + p.len).max().unwrap_or(0)
}
fn no_alias(what: &str, a: *const u8, al: usize, b: *const u8, bl: usize) {
    let (a, b) = (a as usize, b as usize);
    if al > 0 && bl > 0 && a < b + bl && b < a + al {
        violation("mpi-usage", &format!("{}: send and receive buffers of rank {} overlap", what, rank()));
    }
}

/// general exchange: to[i] = Some(part to send to i), from[i] = Some(part to receive from i)
fn exchange(kind: u32, chan: u64, sb: *const u8, to: &[Option<Part>], rb: *mut u8, from: &[Option<Part>]) {
    let what = KINDS[kind as usize];
    let r = rank();
    let n = size();
    let pend = contribute(what, chan, sb, to, rb, from);
    let mut left = (0..n).filter(|i| *i != r && from[*i].is_some()).count();
    if unsafe { DEFER } {
        unsafe { DEFER = false }
        let got = vec![false; n];
        unsafe { DEFERRED = new_request(Req::Coll { what, chan, rb, from: from.to_vec(), got, left, pend }) };
        return;
    }
    let mut got = vec![false; n];
    while left > 0 {
        let i = wait_mail(-1, chan);
        collect(what, i, rb, from, &mut got);
        left -= 1;
        if left > 0 {
            phase(2);
            maybe_preempt(60);
        }
    }
    for id in pend {
        wait_sent(id);
    }
    let c = &m().coll[(chan >> 4) as usize % NCOLL];
    if (c.nreg as usize) < n {
        sh().stat[stat::EARLY_RETURN] += 1;
    }
}
/// send this rank's parts of a collective; the messages that have to be waited for
fn contribute(what: &str, chan: u64, sb: *const u8, to: &[Option<Part>], rb: *mut u8, from: &[Option<Part>]) -> Vec<u32> {
    let r = rank();
    let n = size();
    let mut pend = Vec::new();
    let off = if n > 1 { decide(|g| g.below(n as u32)) as usize } else { 0 };
    let mut k = 0;
    for d in 0..n {
        let i = (off + r + d) % n;
        if let Some(p) = to[i] {
            if i == r {
                match from[r] {
                    Some(q) if q.len == p.len => unsafe {
                        if p.len > 0 {
                            core::ptr::copy_nonoverlapping(sb.add(p.off), rb.add(q.off), p.len)
                        }
                    },
                    q => violation(
                        "collective-mismatch",
                        &format!("{}: rank {} sends {} bytes to itself but expects {}", what, r, p.len, q.map_or(0, |q| q.len)),
                    ),
                }
                continue;
            }
            let ptr = if p.len > 0 { unsafe { sb.add(p.off) } } else { core::ptr::null() };
            let (id, rdv) = send(i, chan, ptr, p.len, true);
            if rdv {
                pend.push(id);
            }
            k += 1;
            if k == 1 {
                phase(1);
            }
            maybe_preempt(60);
        }
    }
    pend
}
/// take message i of a collective into its place
fn collect(what: &str, i: usize, rb: *mut u8, from: &[Option<Part>], got: &mut [bool]) {
    let src = m().msgs[i].src as usize;
    match from[src] {
        Some(q) if !got[src] => {
            let ptr = if q.len > 0 { unsafe { rb.add(q.off) } } else { core::ptr::null_mut() };
            take(i, ptr, q.len, what);
            got[src] = true;
        }
        _ => violation("collective-mismatch", &format!("{}: rank {} receives an unexpected message from rank {}", what, rank(), src)),
    }
}

pub fn drop_in_flight(p: u32) {
    let s = sh();
    let now = s.vtime;
    // what the dead rank sent: of each pair of ranks a first part still arrives
    let mut order: Vec<usize> = (0..s.mpi.nmsg as usize).filter(|i| s.mpi.msgs[*i].src == p).collect();
    order.sort_by_key(|i| s.mpi.msgs[*i].id);
    let mut cut = [false; MAXR];
    let mut lost = vec![false; s.mpi.nmsg as usize];
    for i in order {
        let x = &s.mpi.msgs[i];
        if x.deliver > now {
            let c = &mut cut[x.dst as usize];
            *c = *c || decide(|r| r.below(2)) == 0;
            lost[i] = *c;
        }
    }
    for i in (0..lost.len()).rev() {
        if lost[i] || s.mpi.msgs[i].dst == p {
            s.stat[stat::LOST_ON_CRASH] += 1;
            s.mpi.nmsg -= 1;
            s.mpi.msgs[i] = s.mpi.msgs[s.mpi.nmsg as usize];
        }
    }
}

fn esz(t: H) -> usize {
    let z = t & 0xff;
    if t >> 20 != 0xdd || z == 0 {
        harness_error("unknown MPI datatype");
    }
    z
}
fn cnt(what: &str, c: c_int) -> usize {
    if c < 0 {
        violation("collective-mismatch", &format!("{}: rank {} passes count {}", what, rank(), c));
    }
    c as usize
}
fn one(n: usize, i: usize, p: Part) -> Vec<Option<Part>> {
    let mut v = vec![None; n];
    v[i] = Some(p);
    v
}
fn all(v: Vec<Part>) -> Vec<Option<Part>> {
    v.into_iter().map(Some).collect()
}
fn others(n: usize, me: usize, p: Part) -> Vec<Option<Part>> {
    (0..n).map(|i| if i == me { None } else { Some(p) }).collect()
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Init_thread(_: *mut c_int, _: *mut c_void, req: c_int, prov: *mut c_int) -> c_int {
    need_task("MPI_Init_thread");
    let r = rank();
    if m().inited[r] != 0 {
        violation("mpi-usage", &format!("rank {} initialises MPI twice", r));
    }
    m().inited[r] = 1;
    *prov = req;
    maybe_preempt(300);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Initialized(f: *mut c_int) -> c_int {
    need_task("MPI_Initialized");
    *f = m().inited[rank()] as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalized(f: *mut c_int) -> c_int {
    need_task("MPI_Finalized");
    *f = m().finalized[rank()] as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Query_thread(f: *mut c_int) -> c_int {
    *f = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalize() -> c_int {
    enter("MPI_Finalize");
    let r = rank();
    let s = sh();
    for i in 0..s.mpi.nmsg as usize {
        let x = &s.mpi.msgs[i];
        if x.dst == r as u32 {
            let src = x.src;
            violation("mpi-usage", &format!("rank {} finalises MPI with an unreceived message from rank {}", r, src));
        }
    }
    s.mpi.finalized[r] = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_rank(c: H, o: *mut c_int) -> c_int {
    usable("MPI_Comm_rank");
    *o = if c == RSMPI_COMM_SELF { 0 } else { world(c, "MPI_Comm_rank"); rank() as c_int };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_size(c: H, o: *mut c_int) -> c_int {
    usable("MPI_Comm_size");
    *o = if c == RSMPI_COMM_SELF { 1 } else { world(c, "MPI_Comm_size"); size() as c_int };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_compare(a: H, b: H, o: *mut c_int) -> c_int {
    let known = |c: H| c == RSMPI_COMM_WORLD || (c > DUP && c < DUP + NCTX);
    *o = if a == b { RSMPI_IDENT } else if known(a) && known(b) { RSMPI_CONGRUENT } else { RSMPI_UNEQUAL };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Abort(_: H, code: c_int) -> c_int {
    violation("mpi-usage", &format!("rank {} called MPI_Abort({})", rank(), code))
}
#[no_mangle]
pub unsafe extern "C" fn RSMPI_Wtime() -> c_double {
    sh().vtime += 20;
    sh().vtime as f64 * 1e-9
}
#[no_mangle]
pub unsafe extern "C" fn RSMPI_Wtick() -> c_double {
    1e-9
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_version(a: *mut c_int, b: *mut c_int) -> c_int {
    *a = 3;
    *b = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_processor_name(p: *mut c_char, n: *mut c_int) -> c_int {
    let s = format!("node{}", rank());
    core::ptr::copy_nonoverlapping(s.as_ptr(), p as *mut u8, s.len());
    *n = s.len() as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Barrier(c: H) -> c_int {
    enter("MPI_Barrier");
    world(c, "MPI_Barrier");
    let ch = collective(0, -1, 0);
    let (n, r) = (size(), rank());
    let p = Part { off: 0, len: 0 };
    exchange(0, ch, core::ptr::null(), &others(n, r, p), core::ptr::null_mut(), &others(n, r, p));
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Bcast(b: *mut u8, count: c_int, t: H, root: c_int, c: H) -> c_int {
    enter("MPI_Bcast");
    world(c, "MPI_Bcast");
    let ch = collective(1, root, t);
    let (n, r) = (size(), rank());
    let p = Part { off: 0, len: cnt("bcast", count) * esz(t) };
    if r == root as usize {
        exchange(1, ch, b, &others(n, r, p), core::ptr::null_mut(), &vec![None; n]);
    } else {
        exchange(1, ch, core::ptr::null(), &vec![None; n], b, &one(n, root as usize, p));
    }
    leave_call();
    0
}
unsafe fn gather_like(kind: u32, sb: *const u8, slen: usize, rb: *mut u8, rparts: Vec<Part>, root: c_int, t: H) {
    let ch = collective(kind, root, t);
    let (n, r) = (size(), rank());
    let to = one(n, root as usize, Part { off: 0, len: slen });
    if r == root as usize {
        disjoint(KINDS[kind as usize], &rparts);
        no_alias(KINDS[kind as usize], sb, slen, rb, span(&rparts));
        exchange(kind, ch, sb, &to, rb, &all(rparts));
    } else {
        exchange(kind, ch, sb, &to, core::ptr::null_mut(), &vec![None; n]);
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Gather(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int, c: H) -> c_int {
    enter("MPI_Gather");
    world(c, "MPI_Gather");
    let parts = if rank() as c_int == root { even(cnt("gather", rc), esz(rt)) } else { vec![] };
    gather_like(2, sb, cnt("gather", sc) * esz(stt), rb, parts, root, stt);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Gatherv(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H, root: c_int, c: H) -> c_int {
    enter("MPI_Gatherv");
    world(c, "MPI_Gatherv");
    let p = if rank() as c_int == root { parts("gatherv", rc, rd, esz(rt)) } else { vec![] };
    gather_like(3, sb, cnt("gatherv", sc) * esz(stt), rb, p, root, stt);
    leave_call();
    0
}
unsafe fn scatter_like(kind: u32, sb: *const u8, sparts: Vec<Part>, rb: *mut u8, rlen: usize, root: c_int, t: H) {
    let ch = collective(kind, root, t);
    let (n, r) = (size(), rank());
    let from = one(n, root as usize, Part { off: 0, len: rlen });
    if r == root as usize {
        no_alias(KINDS[kind as usize], sb, span(&sparts), rb, rlen);
        exchange(kind, ch, sb, &all(sparts), rb, &from);
    } else {
        exchange(kind, ch, core::ptr::null(), &vec![None; n], rb, &from);
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scatter(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int, c: H) -> c_int {
    enter("MPI_Scatter");
    world(c, "MPI_Scatter");
    let p = if rank() as c_int == root { even(cnt("scatter", sc), esz(stt)) } else { vec![] };
    scatter_like(4, sb, p, rb, cnt("scatter", rc) * esz(rt), root, rt);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scatterv(sb: *const u8, sc: *const c_int, sd: *const c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int, c: H) -> c_int {
    enter("MPI_Scatterv");
    world(c, "MPI_Scatterv");
    let p = if rank() as c_int == root { parts("scatterv", sc, sd, esz(stt)) } else { vec![] };
    scatter_like(5, sb, p, rb, cnt("scatterv", rc) * esz(rt), root, rt);
    leave_call();
    0
}
unsafe fn exchange_all(kind: u32, sb: *const u8, s: Vec<Part>, rb: *mut u8, r: Vec<Part>, t: H) {
    let ch = collective(kind, -1, t);
    disjoint(KINDS[kind as usize], &r);
    no_alias(KINDS[kind as usize], sb, span(&s), rb, span(&r));
    exchange(kind, ch, sb, &all(s), rb, &all(r));
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allgather(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, c: H) -> c_int {
    enter("MPI_Allgather");
    world(c, "MPI_Allgather");
    let s = vec![Part { off: 0, len: cnt("allgather", sc) * esz(stt) }; size()];
    exchange_all(6, sb, s, rb, even(cnt("allgather", rc), esz(rt)), stt);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allgatherv(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H, c: H) -> c_int {
    enter("MPI_Allgatherv");
    world(c, "MPI_Allgatherv");
    let s = vec![Part { off: 0, len: cnt("allgatherv", sc) * esz(stt) }; size()];
    let r = parts("allgatherv", rc, rd, esz(rt));
    exchange_all(7, sb, s, rb, r, stt);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoall(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, c: H) -> c_int {
    enter("MPI_Alltoall");
    world(c, "MPI_Alltoall");
    exchange_all(8, sb, even(cnt("alltoall", sc), esz(stt)), rb, even(cnt("alltoall", rc), esz(rt)), stt);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoallv(
    sb: *const u8, sc: *const c_int, sd: *const c_int, stt: H,
    rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H, c: H,
) -> c_int {
    enter("MPI_Alltoallv");
    world(c, "MPI_Alltoallv");
    let s = parts("alltoallv", sc, sd, esz(stt));
    let r = parts("alltoallv", rc, rd, esz(rt));
    exchange_all(9, sb, s, rb, r, stt);
    leave_call();
    0
}

unsafe fn combine(op: H, t: H, acc: *mut u8, x: *const u8, n: usize) {
    macro_rules! num {($ty:ty) => {{
        let (a, b) = (acc as *mut $ty, x as *const $ty);
        for i in 0..n {
            let (p, q) = (a.add(i).read_unaligned(), b.add(i).read_unaligned());
            a.add(i).write_unaligned(match op & 0xf { 1 => if q > p { q } else { p }, 2 => if q < p { q } else { p }, 3 => p + q, 4 => p * q,
                _ => harness_error("unsupported MPI reduction") });
        }
    }}}
    macro_rules! cplx {($ty:ty) => {{
        let (a, b) = (acc as *mut $ty, x as *const $ty);
        for i in 0..n {
            let (p, q) = (a.add(2 * i), a.add(2 * i + 1));
            let (u, v) = (b.add(2 * i).read_unaligned(), b.add(2 * i + 1).read_unaligned());
            let (r, s) = (p.read_unaligned(), q.read_unaligned());
            match op & 0xf {
                3 => { p.write_unaligned(r + u); q.write_unaligned(s + v) }
                4 => { p.write_unaligned(r * u - s * v); q.write_unaligned(r * v + s * u) }
                _ => harness_error("unsupported MPI reduction"),
            }
        }
    }}}
    match (t >> 8) & 0xff {
        2 => num!(f32),
        3 => num!(f64),
        4 => cplx!(f32),
        5 => cplx!(f64),
        6 => num!(i8),
        7 => num!(i16),
        8 => num!(i32),
        9 => num!(i64),
        10 => num!(u8),
        11 => num!(u16),
        12 => num!(u32),
        13 => num!(u64),
        _ => harness_error("unsupported MPI reduction type"),
    }
}
unsafe fn reduce_buf(op: H, t: H, buf: &[u8], len: usize, n: usize, out: *mut u8) {
    core::ptr::copy_nonoverlapping(buf.as_ptr(), out, len);
    for i in 1..size() {
        combine(op, t, out, buf.as_ptr().add(i * len), n);
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce(sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, root: c_int, c: H) -> c_int {
    enter("MPI_Reduce");
    world(c, "MPI_Reduce");
    let n = cnt("reduce", n);
    let len = n * esz(t);
    let is_root = rank() as c_int == root;
    let mut buf = vec![0u8; if is_root { len * size() } else { 0 }];
    if is_root {
        no_alias("reduce", sb, len, rb, len);
    }
    let p = if is_root { even(n, esz(t)) } else { vec![] };
    gather_like(10, sb, len, buf.as_mut_ptr(), p, root, t ^ (op << 16));
    if is_root {
        reduce_buf(op, t, &buf, len, n, rb);
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allreduce(sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, c: H) -> c_int {
    enter("MPI_Allreduce");
    world(c, "MPI_Allreduce");
    let n = cnt("allreduce", n);
    let len = n * esz(t);
    no_alias("allreduce", sb, len, rb, len);
    let mut buf = vec![0u8; len * size()];
    let s = vec![Part { off: 0, len }; size()];
    exchange_all(11, sb, s, buf.as_mut_ptr(), even(n, esz(t)), t ^ (op << 16));
    reduce_buf(op, t, &buf, len, n, rb);
    leave_call();
    0
}

const P2P: u64 = 1 << 62;
const ANYTAG: u64 = 1 << 60;
const MATCHED: u64 = 1 << 61;
const TAGS: u64 = 0xffff_ffff << 4;
const ANYTHING: u64 = u64::MAX;
fn p2p_chan(tag: c_int) -> u64 {
    let c = P2P | (unsafe { CTX } as u64) << 40;
    if tag == unsafe { RSMPI_ANY_TAG } { c | ANYTAG } else { c | (tag as u32 as u64) << 4 }
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Status {
    source: c_int,
    tag: c_int,
    error: c_int,
    cancelled: c_int,
    ucount: usize,
}
fn status_of(i: usize) -> Status {
    let x = &m().msgs[i];
    Status { source: x.src as c_int, tag: (x.chan >> 4) as u32 as c_int, error: 0, cancelled: 0, ucount: x.len as usize }
}
const NO_STATUS: Status = Status { source: -1, tag: -1, error: 0, cancelled: 0, ucount: 0 };
fn no_proc() -> Status {
    Status { source: unsafe { RSMPI_PROC_NULL }, ..NO_STATUS }
}
unsafe fn put_status(p: *mut Status, s: Status) {
    if !p.is_null() {
        *p = s;
    }
}

/// the unfinished requests of this rank, in the order in which they were made
#[derive(Clone)]
enum Req {
    Send(Option<u32>),
    /// a posted receive: buffer, its length, source, channel, name of the call
    Recv(*mut u8, usize, i32, u64, &'static str),
    Coll { what: &'static str, chan: u64, rb: *mut u8, from: Vec<Option<Part>>, got: Vec<bool>, left: usize, pend: Vec<u32> },
    Done(Status),
}
const REQ: H = 0x4001;
static mut REQS: Vec<(H, Req)> = Vec::new();
static mut NEXT_REQ: H = REQ;
/// the next collective call starts a request instead of waiting
static mut DEFER: bool = false;
static mut DEFERRED: H = 0;
#[allow(static_mut_refs)]
fn reqs() -> &'static mut Vec<(H, Req)> {
    unsafe { &mut REQS }
}
fn new_request(r: Req) -> H {
    let h = unsafe {
        NEXT_REQ += 1;
        NEXT_REQ
    };
    if matches!(r, Req::Recv(..) | Req::Coll { .. }) {
        m().posted[rank()] += 1;
    }
    reqs().push((h, r));
    h
}
/// Matches what has arrived with the receives that are posted, in the order in
/// which they were posted; the time at which the next one arrives.
fn progress() -> u64 {
    let mut dl = u64::MAX;
    if m().posted[rank()] == 0 {
        return dl;
    }
    for k in 0..reqs().len() {
        match &mut reqs()[k].1 {
            Req::Recv(p, len, src, chan, what) => {
                if let Some(i) = find(*src, *chan) {
                    if m().msgs[i].deliver > sh().vtime {
                        dl = dl.min(m().msgs[i].deliver);
                        // a later receive of the same channel must not overtake this one:
                        // messages of one pair arrive in order, so it cannot
                        continue;
                    }
                    let st = status_of(i);
                    let (p, len, what) = (*p, *len, *what);
                    accept(i, p, len, what);
                    reqs()[k].1 = Req::Done(st);
                    m().posted[rank()] -= 1;
                }
            }
            Req::Coll { what, chan, rb, from, got, left, .. } => {
                while *left > 0 {
                    match find(-1, *chan) {
                        Some(i) if m().msgs[i].deliver <= sh().vtime => {
                            collect(what, i, *rb, from, got);
                            *left -= 1;
                            if *left == 0 {
                                m().posted[rank()] -= 1;
                            }
                        }
                        Some(i) => {
                            dl = dl.min(m().msgs[i].deliver);
                            break;
                        }
                        None => break,
                    }
                }
            }
            _ => {}
        }
    }
    dl
}
fn accept(i: usize, p: *mut u8, room: usize, f: &str) {
    let len = m().msgs[i].len as usize;
    if len > room {
        violation("collective-mismatch", &format!("{}: rank {} receives {} bytes into a buffer of {}", f, rank(), len, room));
    }
    take(i, p, len, f);
}
/// the status of a request that has ended, which is then forgotten
fn ended(h: H) -> Option<Status> {
    let k = match reqs().iter().position(|r| r.0 == h) {
        Some(k) => k,
        None => violation("mpi-usage", &format!("rank {} waits for a request that does not exist", rank())),
    };
    let st = match &reqs()[k].1 {
        Req::Done(s) => Some(*s),
        Req::Send(None) => Some(NO_STATUS),
        Req::Send(Some(id)) if !in_flight(*id) => Some(NO_STATUS),
        Req::Coll { left: 0, pend, .. } if !pend.iter().any(|i| in_flight(*i)) => Some(NO_STATUS),
        _ => None,
    };
    if st.is_some() {
        unsafe { MISSES = 0 }
        reqs().remove(k);
    }
    st
}
fn wait_request(h: H) -> Status {
    loop {
        let dl = progress();
        if let Some(s) = ended(h) {
            return s;
        }
        block(wk::MAIL, ANYTHING, dl);
    }
}
static mut MISSES: u32 = 0;
/// nothing yet: let somebody else run before the caller asks again
fn not_yet(dl: u64) {
    let pause = unsafe {
        MISSES = (MISSES + 1).min(64 * 25);
        1000 << (MISSES / 64)
    };
    // the time until the next message, or a short while
    let s = sh();
    let now = s.vtime;
    let mine = me() as usize;
    let hope = dl != u64::MAX
        || (0..s.ntasks as usize).any(|i| i != mine && (s.tasks[i].st == st::READY || (s.tasks[i].st == st::BLOCKED && s.tasks[i].deadline != u64::MAX)));
    if !hope {
        block(wk::MAIL, ANYTHING, u64::MAX);
        return;
    }
    block(wk::MAIL, ANYTHING, dl.min(now + pause));
}

unsafe fn do_send(f: &str, b: *const u8, n: c_int, t: H, dst: c_int, tag: c_int, c: H, sync: bool) -> Option<u32> {
    world(c, f);
    if dst == RSMPI_PROC_NULL {
        return None;
    }
    if dst < 0 || dst as usize >= size() {
        violation("mpi-usage", &format!("{}: rank {} sends to rank {} of {}", f, rank(), dst, size()));
    }
    if tag < 0 {
        violation("mpi-usage", &format!("{}: rank {} sends with tag {}", f, rank(), tag));
    }
    let (id, rdv) = send(dst as usize, p2p_chan(tag), b, cnt(f, n) * esz(t), true);
    if rdv || sync {
        let k = m().nmsg as usize - 1;
        m().msgs[k].rdv = 1;
        Some(id)
    } else {
        None
    }
}
unsafe fn from_whom(f: &str, src: c_int, c: H) -> bool {
    world(c, f);
    if src == RSMPI_PROC_NULL {
        return false;
    }
    if src != RSMPI_ANY_SOURCE && (src < 0 || src as usize >= size()) {
        violation("mpi-usage", &format!("{}: rank {} receives from rank {} of {}", f, rank(), src, size()));
    }
    true
}
unsafe fn do_recv(f: &'static str, b: *mut u8, n: c_int, t: H, src: c_int, tag: c_int, c: H, status: *mut Status) {
    if !from_whom(f, src, c) {
        put_status(status, no_proc());
        return;
    }
    let room = cnt(f, n) * esz(t);
    if m().posted[rank()] > 0 {
        let h = new_request(Req::Recv(b, room, src, p2p_chan(tag), f));
        put_status(status, wait_request(h));
        return;
    }
    let i = wait_mail(src, p2p_chan(tag));
    let st = status_of(i);
    accept(i, b, room, f);
    put_status(status, st);
}
macro_rules! send_fns {($($n:ident $sync:expr;)*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $n(b: *const u8, n: c_int, t: H, dst: c_int, tag: c_int, c: H) -> c_int {
        enter(stringify!($n));
        if let Some(id) = do_send(stringify!($n), b, n, t, dst, tag, c, $sync) {
            wait_sent(id);
        }
        leave_call();
        0
    }
)*}}
send_fns! { MPI_Send false; MPI_Ssend true; MPI_Rsend false; }
macro_rules! isend_fns {($($n:ident $sync:expr;)*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $n(b: *const u8, n: c_int, t: H, dst: c_int, tag: c_int, c: H, r: *mut H) -> c_int {
        enter(stringify!($n));
        let id = do_send(stringify!($n), b, n, t, dst, tag, c, $sync);
        *r = new_request(Req::Send(id));
        leave_call();
        0
    }
)*}}
isend_fns! { MPI_Isend false; MPI_Issend true; MPI_Irsend false; }
#[no_mangle]
pub unsafe extern "C" fn MPI_Recv(b: *mut u8, n: c_int, t: H, src: c_int, tag: c_int, c: H, s: *mut Status) -> c_int {
    enter("MPI_Recv");
    do_recv("MPI_Recv", b, n, t, src, tag, c, s);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Irecv(b: *mut u8, n: c_int, t: H, src: c_int, tag: c_int, c: H, r: *mut H) -> c_int {
    enter("MPI_Irecv");
    let q = if from_whom("MPI_Irecv", src, c) {
        Req::Recv(b, cnt("MPI_Irecv", n) * esz(t), src, p2p_chan(tag), "MPI_Irecv")
    } else {
        Req::Done(no_proc())
    };
    *r = new_request(q);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Probe(src: c_int, tag: c_int, c: H, s: *mut Status) -> c_int {
    enter("MPI_Probe");
    if from_whom("MPI_Probe", src, c) {
        let i = wait_mail(src, p2p_chan(tag));
        put_status(s, status_of(i));
    } else {
        put_status(s, no_proc());
    }
    leave_call();
    0
}
/// takes message i out of the matching; its handle
fn matched(i: usize) -> H {
    m().msgs[i].chan |= MATCHED;
    0x0100_0000 + m().msgs[i].id as usize
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Mprobe(src: c_int, tag: c_int, c: H, h: *mut H, s: *mut Status) -> c_int {
    enter("MPI_Mprobe");
    if from_whom("MPI_Mprobe", src, c) {
        let i = wait_mail(src, p2p_chan(tag));
        put_status(s, status_of(i));
        *h = matched(i);
    } else {
        put_status(s, no_proc());
        *h = RSMPI_MESSAGE_NO_PROC;
    }
    leave_call();
    0
}
unsafe fn peek(src: c_int, tag: c_int) -> Option<usize> {
    let dl = progress();
    match find(src, p2p_chan(tag)) {
        Some(i) if m().msgs[i].deliver <= sh().vtime => {
            MISSES = 0;
            Some(i)
        }
        x => {
            not_yet(x.map_or(dl, |i| dl.min(m().msgs[i].deliver)));
            None
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iprobe(src: c_int, tag: c_int, c: H, flag: *mut c_int, s: *mut Status) -> c_int {
    enter("MPI_Iprobe");
    *flag = 1;
    if !from_whom("MPI_Iprobe", src, c) {
        put_status(s, no_proc());
    } else if let Some(i) = peek(src, tag) {
        put_status(s, status_of(i));
    } else {
        *flag = 0;
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Improbe(src: c_int, tag: c_int, c: H, flag: *mut c_int, h: *mut H, s: *mut Status) -> c_int {
    enter("MPI_Improbe");
    *flag = 1;
    if !from_whom("MPI_Improbe", src, c) {
        put_status(s, no_proc());
        *h = RSMPI_MESSAGE_NO_PROC;
    } else if let Some(i) = peek(src, tag) {
        put_status(s, status_of(i));
        *h = matched(i);
    } else {
        *flag = 0;
    }
    leave_call();
    0
}
unsafe fn do_mrecv(f: &str, b: *mut u8, n: c_int, t: H, h: *mut H) -> Status {
    if *h == RSMPI_MESSAGE_NO_PROC {
        *h = RSMPI_MESSAGE_NULL;
        return no_proc();
    }
    let s = sh();
    let id = h.read().wrapping_sub(0x0100_0000);
    let i = (0..s.mpi.nmsg as usize).find(|i| s.mpi.msgs[*i].id as usize == id && s.mpi.msgs[*i].chan & MATCHED != 0);
    let i = match i {
        Some(i) => i,
        None => violation("mpi-usage", &format!("{}: rank {} receives a message that does not exist", f, rank())),
    };
    let st = status_of(i);
    accept(i, b, cnt(f, n) * esz(t), f);
    *h = RSMPI_MESSAGE_NULL;
    st
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Mrecv(b: *mut u8, n: c_int, t: H, h: *mut H, s: *mut Status) -> c_int {
    enter("MPI_Mrecv");
    put_status(s, do_mrecv("MPI_Mrecv", b, n, t, h));
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Imrecv(b: *mut u8, n: c_int, t: H, h: *mut H, r: *mut H) -> c_int {
    enter("MPI_Imrecv");
    *r = new_request(Req::Done(do_mrecv("MPI_Imrecv", b, n, t, h)));
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Wait(r: *mut H, s: *mut Status) -> c_int {
    enter("MPI_Wait");
    let st = if *r == RSMPI_REQUEST_NULL { NO_STATUS } else { wait_request(*r) };
    put_status(s, st);
    *r = RSMPI_REQUEST_NULL;
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Test(r: *mut H, flag: *mut c_int, s: *mut Status) -> c_int {
    enter("MPI_Test");
    let dl = progress();
    let st = if *r == RSMPI_REQUEST_NULL { Some(NO_STATUS) } else { ended(*r) };
    *flag = st.is_some() as c_int;
    match st {
        Some(st) => {
            put_status(s, st);
            *r = RSMPI_REQUEST_NULL;
        }
        None => not_yet(dl),
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Waitany(n: c_int, r: *mut H, index: *mut c_int, s: *mut Status) -> c_int {
    enter("MPI_Waitany");
    let n = cnt("MPI_Waitany", n);
    *index = RSMPI_UNDEFINED;
    put_status(s, NO_STATUS);
    while (0..n).any(|i| *r.add(i) != RSMPI_REQUEST_NULL) {
        let dl = progress();
        let off = if n > 1 { decide(|g| g.below(n as u32)) as usize } else { 0 };
        let hit = (0..n).map(|d| (off + d) % n).find_map(|i| {
            if *r.add(i) == RSMPI_REQUEST_NULL { None } else { ended(*r.add(i)).map(|s| (i, s)) }
        });
        if let Some((i, st)) = hit {
            *r.add(i) = RSMPI_REQUEST_NULL;
            *index = i as c_int;
            put_status(s, st);
            break;
        }
        block(wk::MAIL, ANYTHING, dl);
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Sendrecv(
    sb: *const u8, sn: c_int, stt: H, dst: c_int, stag: c_int,
    rb: *mut u8, rn: c_int, rt: H, src: c_int, rtag: c_int, c: H, s: *mut Status,
) -> c_int {
    enter("MPI_Sendrecv");
    let p = do_send("MPI_Sendrecv", sb, sn, stt, dst, stag, c, false);
    do_recv("MPI_Sendrecv", rb, rn, rt, src, rtag, c, s);
    if let Some(id) = p {
        wait_sent(id);
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Sendrecv_replace(
    b: *mut u8, n: c_int, t: H, dst: c_int, stag: c_int, src: c_int, rtag: c_int, c: H, s: *mut Status,
) -> c_int {
    enter("MPI_Sendrecv_replace");
    let p = do_send("MPI_Sendrecv_replace", b, n, t, dst, stag, c, false);
    do_recv("MPI_Sendrecv_replace", b, n, t, src, rtag, c, s);
    if let Some(id) = p {
        wait_sent(id);
    }
    leave_call();
    0
}
macro_rules! immediate {($($n:ident = $f:ident($($a:ident: $t:ty),*);)*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $n($($a: $t,)* c: H, r: *mut H) -> c_int {
        DEFER = true;
        DEFERRED = 0;
        let x = $f($($a,)* c);
        if DEFER || DEFERRED == 0 {
            harness_error(concat!(stringify!($n), " cannot be deferred"));
        }
        *r = DEFERRED;
        x
    }
)*}}
immediate! {
    MPI_Ibarrier = MPI_Barrier();
    MPI_Ibcast = MPI_Bcast(b: *mut u8, n: c_int, t: H, root: c_int);
    MPI_Igather = MPI_Gather(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int);
    MPI_Igatherv = MPI_Gatherv(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H, root: c_int);
    MPI_Iscatter = MPI_Scatter(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int);
    MPI_Iscatterv = MPI_Scatterv(sb: *const u8, sc: *const c_int, sd: *const c_int, stt: H, rb: *mut u8, rc: c_int, rt: H, root: c_int);
    MPI_Iallgather = MPI_Allgather(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H);
    MPI_Iallgatherv = MPI_Allgatherv(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H);
    MPI_Ialltoall = MPI_Alltoall(sb: *const u8, sc: c_int, stt: H, rb: *mut u8, rc: c_int, rt: H);
    MPI_Ialltoallv = MPI_Alltoallv(sb: *const u8, sc: *const c_int, sd: *const c_int, stt: H, rb: *mut u8, rc: *const c_int, rd: *const c_int, rt: H);
}
/// prefix reductions: every rank gets the buffers of all and combines the first ones
unsafe fn prefix(kind: u32, sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, upto: usize) {
    let n = cnt("scan", n);
    let len = n * esz(t);
    no_alias(KINDS[kind as usize], sb, len, rb, len);
    let mut buf = vec![0u8; len * size()];
    exchange_all(kind, sb, vec![Part { off: 0, len }; size()], buf.as_mut_ptr(), even(n, esz(t)), t ^ (op << 16));
    for i in 0..upto {
        if i == 0 {
            core::ptr::copy_nonoverlapping(buf.as_ptr(), rb, len);
        } else {
            combine(op, t, rb, buf.as_ptr().add(i * len), n);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scan(sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, c: H) -> c_int {
    enter("MPI_Scan");
    world(c, "MPI_Scan");
    prefix(12, sb, rb, n, t, op, rank() + 1);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Exscan(sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, c: H) -> c_int {
    enter("MPI_Exscan");
    world(c, "MPI_Exscan");
    prefix(13, sb, rb, n, t, op, rank());
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce_scatter_block(sb: *const u8, rb: *mut u8, n: c_int, t: H, op: H, c: H) -> c_int {
    enter("MPI_Reduce_scatter_block");
    world(c, "MPI_Reduce_scatter_block");
    let n = cnt("reduce_scatter", n);
    let len = n * esz(t);
    no_alias("reduce_scatter", sb, len * size(), rb, len);
    let mut buf = vec![0u8; len * size()];
    exchange_all(14, sb, even(n, esz(t)), buf.as_mut_ptr(), even(n, esz(t)), t ^ (op << 16));
    reduce_buf(op, t, &buf, len, n, rb);
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_dup(c: H, out: *mut H) -> c_int {
    static mut NEXT: usize = 0;
    enter("MPI_Comm_dup");
    world(c, "MPI_Comm_dup");
    let ch = collective(15, -1, 0);
    let (n, r) = (size(), rank());
    NEXT += 1;
    if NEXT >= NCTX {
        harness_error("too many communicators");
    }
    *out = DUP + NEXT;
    // all ranks must get the same context: they exchange the number
    let mine = (NEXT as u64).to_ne_bytes();
    let mut got = vec![0u8; 8 * n];
    let p = Part { off: 0, len: 8 };
    let from: Vec<_> = (0..n).map(|i| if i == r { None } else { Some(Part { off: 8 * i, len: 8 }) }).collect();
    exchange(15, ch, mine.as_ptr(), &others(n, r, p), got.as_mut_ptr(), &from);
    for i in 0..n {
        if i != r && got[8 * i..8 * i + 8] != mine {
            harness_error("communicators duplicated in different orders");
        }
    }
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_free(c: *mut H) -> c_int {
    enter("MPI_Comm_free");
    if *c == RSMPI_COMM_WORLD {
        violation("mpi-usage", &format!("rank {} frees the world communicator", rank()));
    }
    world(*c, "MPI_Comm_free");
    FREED[CTX] = true;
    *c = RSMPI_COMM_NULL;
    leave_call();
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_count(s: *const Status, t: H, n: *mut c_int) -> c_int {
    *n = ((*s).ucount / esz(t)) as c_int;
    0
}
pub fn unsupported(f: &str) -> ! {
    if !is_task() {
        panic!("{} outside of a simulation", f);
    }
    sched::harness_error(&format!("MPI function {} is not simulated", f))
}
