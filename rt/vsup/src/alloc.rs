//! Checking global allocator: records size and alignment of every block in a header and compares at
//! release; counts live bytes and blocks of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checking;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BAD: Cell<Option<(usize, usize, usize, usize)>> = const { Cell::new(None) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}
/// Blocks obtained by `f` are not counted (used for the bookkeeping of the harness itself)
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let before = PAUSED.with(|p| p.replace(true));
    let r = f();
    PAUSED.with(|p| p.set(before));
    r
}
const MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
const UNCOUNTED: usize = 0x5AFE_B10C_0000_B10C;
const DEAD: usize = 0xDEAD_B10C_DEAD_B10C;

fn head(l: &Layout) -> usize { 32.max(l.align()) }

pub fn live_bytes() -> isize { LIVE.with(|c| c.get()) }
pub fn live_blocks() -> isize { BLOCKS.with(|c| c.get()) }
pub fn peak_bytes() -> isize { PEAK.with(|c| c.get()) }
pub fn reset_peak() { PEAK.with(|p| p.set(live_bytes())) }
pub fn allocs() -> u64 { ALLOCS.with(|c| c.get()) }
/// (size, align) the block was obtained with and (size, align) it was released with
pub fn take_bad() -> Option<(usize, usize, usize, usize)> { BAD.with(|b| b.take()) }

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if p.is_null() { return p; }
        let u = p.add(h);
        let w = u as *mut usize;
        let paused = PAUSED.try_with(|p| p.get()).unwrap_or(false);
        *w.sub(1) = if paused { UNCOUNTED } else { MAGIC }; *w.sub(2) = l.size(); *w.sub(3) = l.align();
        if paused { return u; }
        let _ = LIVE.try_with(|c| { c.set(c.get() + l.size() as isize); let v = c.get(); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let w = u as *mut usize;
        let (magic, size, align) = (*w.sub(1), *w.sub(2), *w.sub(3));
        if magic != MAGIC && magic != UNCOUNTED {
            // released twice or never obtained from here: record, and keep the block
            let _ = BAD.try_with(|b| if b.get().is_none() { b.set(Some((0, 0, l.size(), l.align()))) });
            return;
        }
        if size != l.size() || align != l.align() {
            let _ = BAD.try_with(|b| if b.get().is_none() { b.set(Some((size, align, l.size(), l.align()))) });
        }
        *w.sub(1) = DEAD;
        if magic == MAGIC {
            let _ = LIVE.try_with(|c| c.set(c.get() - size as isize));
            let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        }
        let ol = Layout::from_size_align_unchecked(size, align);
        let h = head(&ol);
        System.dealloc(u.sub(h), Layout::from_size_align_unchecked(size + h, align.max(16)));
    }
}
