//! Workloads: what the simulated callers and ranks do with the real funspace.
#![allow(clippy::all)]
pub mod bases;
pub mod buf;
pub mod ranks;
pub mod threads;

use simk::sched;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
static mut LAST_PANIC: String = String::new();

/// panics are part of the behaviour under test: remember the message, print nothing
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let d = sched::user_suspend();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            *(&raw mut LAST_PANIC) = m + &l;
        }
        if sched::is_task() {
            let s = sched::sh();
            s.stat[simk::sh::stat::PANICS] += 1;
            // in case the process aborts
            sched::put(&mut s.vmsg, &mut s.vmsg_len, unsafe { &*(&raw const LAST_PANIC) });
        }
        sched::user_resume(d);
    }));
}
pub fn last_panic() -> String {
    unsafe { (*(&raw const LAST_PANIC)).clone() }
}

/// run funspace code as simulated code; Err if it panicked
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    sched::user_resume(1);
    let r = catch_unwind(AssertUnwindSafe(f));
    sched::user_suspend();
    r.map_err(|_| last_panic())
}

use refm::scn::{Op, Scn};
pub fn viol(kind: &str, s: &Scn, i: usize, msg: String) -> ! {
    let r = if s.head.world == 1 { format!(" [rank {}]", sched::sh().tasks[sched::me() as usize].proc_) } else { String::new() };
    sched::violation(kind, &format!("{}{}: {}", s.describe(i), r, msg))
}
pub fn op_begin(i: usize, o: &Op) {
    sched::sh().stat[simk::sh::stat::OPS] += 1;
    if o.par == 1 {
        sched::sh().stat[simk::sh::stat::PAR_OPS] += 1;
    }
    sched::ev(sched::evk::OP_BEGIN, i as u64, 0);
}
pub fn op_end(i: usize, how: u64) {
    sched::ev(sched::evk::OP_END, i as u64, how);
}
/// compare a result with the prediction for (a block of) the model's array
pub fn check(s: &Scn, i: usize, dims: &[usize], at: &dyn Fn(usize) -> refm::C, exp: &refm::Arr, what: &str) {
    let sh = sched::sh();
    sh.stat[simk::sh::stat::COMPARED] += exp.v.len() as u64;
    let (w, p) = refm::compare(at, exp);
    if w > sh.maxerr && w.is_finite() {
        sh.maxerr = w;
    }
    if w > 1.0 {
        let mut idx = vec![];
        let mut r = p;
        for d in dims.iter().rev() {
            idx.insert(0, r % d);
            r /= d;
        }
        viol(
            "wrong-value",
            s,
            i,
            format!("{}element {:?} of {:?} is {:e}, the model says {:e} (error bound {:e}, exceeded {:.3e} times)", what, idx, dims, at(p), exp.v[p], exp.e[p], w),
        );
    }
}
