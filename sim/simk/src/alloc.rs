//! Global allocator: a canary behind every block, freed memory overwritten, and
//! fresh memory filled with a seeded pattern while simulated code runs.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
const CAN: u64 = 0x5AFE_C0DE_0BAD_F00D;

#[inline]
unsafe fn can_set(p: *mut u8, l: &Layout) {
    (p.add(l.size()) as *mut u64).write_unaligned(CAN);
}
fn ext(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + 8, l.align()) }
}
pub const PATTERNS: [u64; 7] = [
    0,
    0x7ff8_dead_beef_0001,
    0x7e37_e43c_7e37_e43c,
    0xffff_ffff_ffff_ffff,
    0x4045_0000_4228_0000,
    0xaaaa_aaaa_aaaa_aaaa,
    0x0000_0000_0000_0001,
];

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(ext(&l));
        if p.is_null() {
            return p;
        }
        can_set(p, &l);
        if let Some(pat) = sched::poison() {
            let v = PATTERNS[pat as usize % PATTERNS.len()];
            let n8 = l.size() / 8;
            for i in 0..n8 {
                (p as *mut u64).add(i).write_unaligned(v);
            }
            for i in n8 * 8..l.size() {
                *p.add(i) = (v >> (8 * (i % 8))) as u8;
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(ext(&l));
        if !p.is_null() {
            can_set(p, &l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p.add(l.size()) as *const u64).read_unaligned() != CAN {
            sched::heap_corrupt(l.size());
        }
        (p.add(l.size()) as *mut u64).write_unaligned(0);
        if sched::in_user_code() {
            core::ptr::write_bytes(p, 0xDB, l.size());
        }
        System.dealloc(p, ext(&l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
