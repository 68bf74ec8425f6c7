//! Stops the process when one case runs away: no progress for a minute, or memory without end.
//! Cases take milliseconds and kilobytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SECS: u64 = 60;
const CAP: i64 = 3 << 30;

static TICK: AtomicU64 = AtomicU64::new(0);
static SAY: Mutex<(String, i32)> = Mutex::new((String::new(), 12));
static USED: AtomicI64 = AtomicI64::new(0);

/// A new case begins; `say` is printed if it never ends
pub fn case(say: String, code: i32) {
    *SAY.lock().unwrap() = (say, code);
    if TICK.fetch_add(1, Relaxed) == 0 {
        std::thread::spawn(|| {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = TICK.load(Relaxed);
                if t != last {
                    (last, since) = (t, Instant::now());
                } else if since.elapsed() > Duration::from_secs(SECS) {
                    let s = SAY.lock().unwrap();
                    println!("{}", s.0);
                    std::process::exit(s.1);
                }
            }
        });
    }
}

struct Capped;

fn more(n: i64) -> bool {
    n > 0 && USED.load(Relaxed) + n > CAP
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if more(l.size() as i64) {
            return std::ptr::null_mut();
        }
        USED.fetch_add(l.size() as i64, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as i64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let d = n as i64 - l.size() as i64;
        if more(d) {
            return std::ptr::null_mut();
        }
        USED.fetch_add(d, Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static A: Capped = Capped;
