//! Counts what a thread allocates, to find the peak of a call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};
use std::sync::Mutex;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
// What is held in all by the threads that are not the harness's own: memory handed to another
// thread and freed there counts as freed. Only kept while WATCH is on.
static WATCH: AtomicBool = AtomicBool::new(false);
static HELD: AtomicIsize = AtomicIsize::new(0);
static ONE_AT_A_TIME: Mutex<()> = Mutex::new(());
thread_local! { static OURS: Cell<bool> = const { Cell::new(false) }; }
/// Called by the threads of the harness: what they allocate is not the library's.
pub fn ours() { OURS.with(|o| o.set(true)); }
fn note(d: isize) {
    if WATCH.load(Ordering::Relaxed) && !OURS.try_with(|o| o.get()).unwrap_or(true) { HELD.fetch_add(d, Ordering::Relaxed); }
    let _ = NOW.try_with(|n| {
        let v = n.get() + d;
        n.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
/// Runs `f` and says by how much the bytes allocated by this thread rose at most.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = NOW.with(|n| n.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - start).max(0) as usize)
}
/// Runs `f` again and again, and gives what is held after each time, compared with the time before.
pub fn kept(times: usize, mut f: impl FnMut(usize)) -> Vec<isize> {
    struct Off(bool);
    impl Drop for Off { fn drop(&mut self) { OURS.with(|o| o.set(self.0)); } }
    let _lock = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let mut held = [0isize; 16];
    WATCH.store(true, Ordering::Relaxed);
    {
        let _off = Off(OURS.with(|o| o.replace(false)));
        for (i, h) in held.iter_mut().enumerate().take(times) {
            f(i);
            crate::engine::forget_panic();
            *h = HELD.load(Ordering::Relaxed);
        }
    }
    WATCH.store(false, Ordering::Relaxed);
    held[..times].windows(2).map(|w| w[1] - w[0]).collect()
}
