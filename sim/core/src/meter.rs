//! Allocator seam: meters what the code under test requests and refuses absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
}

/// a single request above this, or more live than this, is refused
pub const REFUSE: usize = 192 << 20;

fn grow(n: usize) -> bool {
    if !ON.try_with(|x| x.get()).unwrap_or(false) { return true; }
    let l = LIVE.with(|x| { x.set(x.get() + n as i64); x.get() });
    PEAK.with(|x| if l > x.get() { x.set(l) });
    TOTAL.with(|x| x.set(x.get() + n as u64));
    COUNT.with(|x| x.set(x.get() + 1));
    BIGGEST.with(|x| if n as u64 > x.get() { x.set(n as u64) });
    n <= REFUSE && l <= REFUSE as i64
}
fn shrink(n: usize) {
    if ON.try_with(|x| x.get()).unwrap_or(false) { LIVE.with(|x| x.set(x.get() - n as i64)); }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if grow(l.size()) { System.alloc(l) } else { std::ptr::null_mut() } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if grow(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { shrink(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() { if !grow(n - l.size()) { return std::ptr::null_mut(); } } else { shrink(l.size() - n); }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Used { pub peak: i64, pub total: u64, pub count: u64, pub biggest: u64, pub left: i64 }

pub fn start() {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    TOTAL.with(|x| x.set(0));
    COUNT.with(|x| x.set(0));
    BIGGEST.with(|x| x.set(0));
    ON.with(|x| x.set(true));
}
/// switches the meter and says whether it was on
pub fn switch(on: bool) -> bool { ON.with(|x| x.replace(on)) }
pub fn stop() -> Used {
    ON.with(|x| x.set(false));
    Used { peak: PEAK.with(|x| x.get()), total: TOTAL.with(|x| x.get()), count: COUNT.with(|x| x.get()), biggest: BIGGEST.with(|x| x.get()), left: LIVE.with(|x| x.get()) }
}
pub struct Pause(bool);
impl Pause { pub fn new() -> Pause { Pause(switch(false)) } }
impl Drop for Pause { fn drop(&mut self) { switch(self.0); } }
