//! Live heap bytes of each broker: the threads of its runtime tag what they allocate.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
pub const SLOTS: usize = 4096;
static LIVE: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
static BLOCKS: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
static PEAK: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
std::thread_local! {
    static OWNER: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// what this thread allocates from now on belongs to broker `id`
pub fn own(id: usize) {
    OWNER.with(|o| o.set((id % (SLOTS - 1)) as u32 + 1));
}
fn slot(id: usize) -> usize {
    id % (SLOTS - 1) + 1
}
pub fn live(id: usize) -> i64 {
    LIVE[slot(id)].load(Relaxed)
}
/// the most that was live since the last reset
pub fn peak(id: usize) -> i64 {
    PEAK[slot(id)].load(Relaxed)
}
pub fn reset_peak(id: usize) {
    PEAK[slot(id)].store(live(id), Relaxed);
}
pub fn blocks(id: usize) -> i64 {
    BLOCKS[slot(id)].load(Relaxed)
}
#[cfg(feature = "counting")]
mod counting {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};
    struct Counting;
    #[global_allocator]
    static A: Counting = Counting;
    const HEAD: usize = 16;
    fn wide(l: Layout) -> Option<Layout> {
        // larger alignments (rare) are not counted
        if l.align() > HEAD {
            return None;
        }
        Layout::from_size_align(l.size().checked_add(HEAD)?, HEAD).ok()
    }
    fn add(owner: u32, bytes: i64, blocks: i64) {
        let now = LIVE[owner as usize].fetch_add(bytes, Relaxed) + bytes;
        if bytes > 0 && owner != 0 {
            PEAK[owner as usize].fetch_max(now, Relaxed);
        }
        BLOCKS[owner as usize].fetch_add(blocks, Relaxed);
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let Some(w) = wide(l) else { return System.alloc(l) };
            put(System.alloc(w), l.size())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let Some(w) = wide(l) else { return System.alloc_zeroed(l) };
            put(System.alloc_zeroed(w), l.size())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let Some(w) = wide(l) else { return System.dealloc(p, l) };
            let h = p.sub(HEAD);
            add(*(h as *const u32), -(l.size() as i64), -1);
            System.dealloc(h, w)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let Some(w) = wide(l) else { return System.realloc(p, l, n) };
            let Some(total) = n.checked_add(HEAD) else { return std::ptr::null_mut() };
            let h = p.sub(HEAD);
            let owner = *(h as *const u32);
            let q = System.realloc(h, w, total);
            if q.is_null() {
                return q;
            }
            add(owner, n as i64 - l.size() as i64, 0);
            q.add(HEAD)
        }
    }
    unsafe fn put(h: *mut u8, n: usize) -> *mut u8 {
        if h.is_null() {
            return h;
        }
        let owner = OWNER.try_with(|o| o.get()).unwrap_or(0);
        *(h as *mut u32) = owner;
        add(owner, n as i64, 1);
        h.add(HEAD)
    }
}
