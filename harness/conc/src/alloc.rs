//! Allocator with red zones: checks sizes on free, double frees, writes outside blocks, leaks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Check;
const RZ: usize = 64;
const MAGIC: u64 = 0x5afe_b10c_5afe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
pub static ERR: AtomicUsize = AtomicUsize::new(0);
pub const ERRS: [&str; 9] = ["", "free with a different size than allocated", "free with a different alignment", "double or foreign free", "write before a heap block", "write past the end of a heap block", "resize with a different size than allocated", "heap block of size zero", "resize of a dead or foreign block"];
thread_local! { pub static LIVE: Cell<isize> = const { Cell::new(0) }; pub static ARMED: Cell<bool> = const { Cell::new(false) }; }
fn err(n: usize) { let _ = ERR.compare_exchange(0, n, Relaxed, Relaxed); }
unsafe fn full(l: Layout) -> Option<(Layout, usize)> {
    let rz = RZ.max(l.align());
    if l.size() > 1 << 36 { return None; }
    Some((Layout::from_size_align_unchecked((l.size() + rz + RZ + 15) & !15, l.align().max(16)), rz))
}
unsafe fn check(p: *mut u8, l: Layout, bad_size: usize, dead: usize) -> bool {
    let h = p.sub(32) as *mut u64;
    if h.read_unaligned() != MAGIC { err(dead); return false; }
    if h.add(1).read_unaligned() != l.size() as u64 { err(bad_size); return false; }
    if h.add(2).read_unaligned() != l.align() as u64 { err(2); return false; }
    for i in 0..8 { if *p.sub(8).add(i) != 0xfd { err(4); } }
    for i in 0..RZ { if *p.add(l.size()).add(i) != 0xfe { err(5); } }
    true
}
unsafe impl GlobalAlloc for Check {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((f, rz)) = full(l) else { return std::ptr::null_mut() };
        if l.size() == 0 { err(7); }
        let b = System.alloc(f);
        if b.is_null() { return b; }
        let p = b.add(rz);
        let h = p.sub(32) as *mut u64;
        h.write_unaligned(MAGIC); h.add(1).write_unaligned(l.size() as u64); h.add(2).write_unaligned(l.align() as u64);
        std::ptr::write_bytes(p.sub(8), 0xfd, 8);
        if ARMED.try_with(|a| a.get()).unwrap_or(false) { std::ptr::write_bytes(p, 0xaa, l.size()); }
        std::ptr::write_bytes(p.add(l.size()), 0xfe, RZ);
        let _ = LIVE.try_with(|n| n.set(n.get() + 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !check(p, l, 1, 3) { return; }
        (p.sub(32) as *mut u64).write_unaligned(DEAD);
        std::ptr::write_bytes(p, 0xdd, l.size().min(4096));
        let _ = LIVE.try_with(|n| n.set(n.get() - 1));
        let (f, rz) = full(l).unwrap();
        System.dealloc(p.sub(rz), f);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !check(p, l, 6, 8) { return std::ptr::null_mut(); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
