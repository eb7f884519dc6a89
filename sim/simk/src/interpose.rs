//! libc entry points through which the Rust standard library reaches the
//! operating system's nondeterminism, redirected to the scheduler.
use crate::sched::{self, *};
use crate::sh::*;
use crate::sys;
use libc::{c_int, c_long, c_void, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;

/// call once, before any simulation
pub fn init() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
        let j = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _);
        assert!(!c.is_null() && !j.is_null());
        REAL_CREATE = Some(core::mem::transmute(c));
        REAL_JOIN = Some(core::mem::transmute(j));
        libc::pthread_key_create(&mut KEY, Some(key_dtor));
    }
}
unsafe extern "C" fn key_dtor(_: *mut c_void) {
    sched::thread_leave();
}
struct Pack {
    f: Start,
    arg: *mut c_void,
    slot: usize,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    unsafe {
        let pk = &*(p as *const Pack);
        let (f, arg, slot) = (pk.f, pk.arg, pk.slot);
        libc::free(p);
        libc::pthread_setspecific(KEY, (slot + 1) as *const c_void);
        sched::thread_enter(slot);
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real = match REAL_CREATE {
        Some(r) => r,
        None => {
            init();
            REAL_CREATE.unwrap()
        }
    };
    if !is_task() {
        return real(t, a, f, arg);
    }
    let slot = new_slot();
    let p = libc::malloc(core::mem::size_of::<Pack>()) as *mut Pack;
    p.write(Pack { f, arg, slot });
    let rc = real(t, a, tramp, p as *mut c_void);
    if rc != 0 {
        slot_failed(slot);
        return rc;
    }
    slot_started(slot, *t as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if REAL_JOIN.is_none() {
        init();
    }
    if is_task() {
        let s = sh();
        let p = s.tasks[me() as usize].proc_;
        for i in (0..s.ntasks as usize).rev() {
            if s.tasks[i].pthread == t as u64 && s.tasks[i].proc_ == p && s.tasks[i].joined == 0 && s.tasks[i].root == 0 {
                while sh().tasks[i].st != st::DONE {
                    block(wk::JOIN, i as u64, u64::MAX);
                }
                sh().tasks[i].joined = 1;
                break;
            }
        }
    }
    (REAL_JOIN.unwrap())(t, r)
}

unsafe fn errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        errno(-r as c_int);
        -1
    } else {
        r as c_long
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if is_task() {
        match n {
            libc::SYS_futex => return futex(a as *mut u32, b as c_int, c as u32, d as *const timespec, f as u32),
            libc::SYS_getrandom => {
                fill(a as *mut u8, b);
                return b as c_long;
            }
            libc::SYS_sched_yield => {
                yield_now();
                return 0;
            }
            _ => {}
        }
    }
    ret(sys::raw6(n as usize, a, b, c, d, e, f))
}

pub const CLOCK_BASE: u64 = 1_000_000_000_000;

unsafe fn futex(addr: *mut u32, op: c_int, val: u32, ts: *const timespec, val3: u32) -> c_long {
    let cmd = op & 0x7f;
    let s = sh();
    let p = s.tasks[me() as usize].proc_ as u64;
    let key = (p << 56) | (addr as u64 & 0x00ff_ffff_ffff_ffff);
    match cmd {
        0 | 9 => {
            // WAIT, WAIT_BITSET
            if core::ptr::read_volatile(addr) != val {
                errno(libc::EAGAIN);
                return -1;
            }
            s.stat[stat::FUTEX_WAIT] += 1;
            if s.strat.spurious_pm > 0 && chance(s.strat.spurious_pm) {
                s.stat[stat::SPURIOUS] += 1;
                yield_now();
                return 0;
            }
            let dl = if ts.is_null() {
                u64::MAX
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if cmd == 9 {
                    t.saturating_sub(CLOCK_BASE).max(s.vtime + 1)
                } else {
                    s.vtime + t
                }
            };
            let _ = val3;
            if block(wk::FUTEX, key, dl) {
                errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            // WAKE, WAKE_BITSET
            s.stat[stat::FUTEX_WAKE] += 1;
            let mut n = 0u32;
            while n < val {
                let mut c = [0u16; MAXT];
                let mut k = 0;
                for i in 0..s.ntasks as usize {
                    let t = &s.tasks[i];
                    if t.st == st::BLOCKED && t.wkind == wk::FUTEX && t.wkey == key {
                        c[k] = i as u16;
                        k += 1;
                    }
                }
                if k == 0 {
                    break;
                }
                let v = if k > 1 { decide(|r| r.below(k as u32)) as usize } else { 0 };
                make_ready(c[v.min(k - 1)] as usize);
                n += 1;
            }
            if n > 0 {
                maybe_preempt(200);
            }
            n as c_long
        }
        _ => {
            harness_error(&format!("unsupported futex operation {}", cmd));
        }
    }
}

unsafe fn fill(p: *mut u8, n: usize) {
    // a function of the run's seed only
    let s = sh();
    for i in 0..n {
        *p.add(i) = Rng(&mut s.erng).next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: libc::c_uint) -> ssize_t {
    if is_task() {
        fill(p as *mut u8, n);
        return n as ssize_t;
    }
    ret(sys::raw6(libc::SYS_getrandom as usize, p as usize, n, fl as usize, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if is_task() {
        yield_now();
        return 0;
    }
    ret(sys::raw6(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut timespec) -> c_int {
    if is_task() {
        let s = sh();
        s.vtime += 20;
        let t = s.vtime + CLOCK_BASE;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys::raw6(libc::SYS_clock_gettime as usize, c as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn sleep_ts(ts: *const timespec, abs: bool) {
    let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    let d = if abs { t.saturating_sub(CLOCK_BASE) } else { sh().vtime + t };
    block(wk::SLEEP, 0, d.max(sh().vtime + 1));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if is_task() {
        sleep_ts(ts, false);
        return 0;
    }
    ret(sys::raw6(libc::SYS_nanosleep as usize, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if is_task() {
        sleep_ts(ts, fl & 1 != 0);
        return 0;
    }
    -(sys::raw6(libc::SYS_clock_nanosleep as usize, c as usize, fl as usize, ts as usize, rem as usize, 0, 0) as c_int)
}
