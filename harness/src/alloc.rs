//! Counting allocator: a deterministic measure of work.  When one case allocates more than its
//! budget the process ends with exit code 77, which the driver interprets.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

#[inline]
fn count(n: usize) {
    let t = TOTAL.fetch_add(n as u64, Relaxed) + n as u64;
    if t > LIMIT.load(Relaxed) {
        let msg = b"allocation budget of one case exceeded\n";
        unsafe {
            libc::write(2, msg.as_ptr() as *const _, msg.len());
            libc::_exit(77)
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn start(budget: u64) {
    TOTAL.store(0, Relaxed);
    LIMIT.store(budget, Relaxed);
}

pub fn stop() -> u64 {
    LIMIT.store(u64::MAX, Relaxed);
    TOTAL.load(Relaxed)
}

pub fn so_far() -> u64 {
    TOTAL.load(Relaxed)
}
