//! Callbacks of the compiler's coverage instrumentation: every basic block, load
//! and store of funspace and of the workload is a point at which the scheduler
//! may take over. Executed blocks are noted in a map for the evidence.
use crate::sched::point;

/// one byte per address of the program text; null unless a check asks for it
static mut MAP: *mut u8 = core::ptr::null_mut();
static mut LO: usize = 0;
static mut LEN: usize = 0;
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
/// bytes of the map
pub fn map_len() -> usize {
    unsafe { &raw const etext as usize - &raw const __executable_start as usize }
}
pub fn set_map(p: *mut u8) {
    unsafe {
        LO = &raw const __executable_start as usize;
        LEN = map_len();
        MAP = p;
    }
}
/// offsets of the return addresses of all instrumented blocks in the program
pub fn sites() -> Vec<usize> {
    unsafe {
        let lo = &raw const __executable_start as usize;
        // the text segment is the one this function is in
        let me = sites as *const () as usize;
        let mut from = lo;
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        for l in maps.lines() {
            let r = l.split(' ').next().unwrap_or("");
            if let Some((a, b)) = r.split_once('-') {
                let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
                if a <= me && me < b {
                    from = a;
                }
            }
        }
        let to = &raw const etext as usize;
        let text = core::slice::from_raw_parts(from as *const u8, to - from);
        let target = __sanitizer_cov_trace_pc as *const () as usize;
        let mut v = vec![];
        for i in 0..text.len().saturating_sub(5) {
            if text[i] == 0xE8 {
                let d = i32::from_le_bytes([text[i + 1], text[i + 2], text[i + 3], text[i + 4]]) as isize;
                if (from + i + 5).wrapping_add_signed(d) == target {
                    v.push(from + i + 5 - lo);
                }
            }
        }
        v
    }
}

#[unsafe(naked)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    core::arch::naked_asm!("mov rdi, [rsp]", "jmp {}", sym block)
}
extern "C" fn block(pc: usize) {
    unsafe {
        if !MAP.is_null() {
            let o = pc.wrapping_sub(LO);
            if o < LEN && *MAP.add(o) == 0 {
                *MAP.add(o) = 1;
            }
        }
    }
    point()
}
macro_rules! cb {($($n:ident),*) => {$(
    #[no_mangle]
    pub extern "C" fn $n(_p: *const u8) { point() }
)*}}
cb!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);
