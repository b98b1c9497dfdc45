//! The system allocator with every block marked: counts live blocks of the thread,
//! notices a block freed twice. Freed blocks wait in a queue so that their mark survives.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Marked;
const ALIVE: u64 = 0xa11ce_0b10c_a11ce;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const HEAD: usize = 64;
const QUEUE: usize = 2048;

pub static ON: AtomicBool = AtomicBool::new(false);
pub static TWICE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static AT: Cell<usize> = const { Cell::new(0) };
    static Q: Cell<*mut [(*mut u8, usize, usize); QUEUE]> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn live() -> isize {
    LIVE.with(Cell::get)
}

fn outer(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + HEAD, l.align().max(16)).unwrap()
}

unsafe impl GlobalAlloc for Marked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > HEAD {
            return System.alloc(l);
        }
        let p = System.alloc(outer(l));
        if p.is_null() {
            return p;
        }
        (p as *mut u64).write(ALIVE);
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        p.add(HEAD)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > HEAD {
            return System.dealloc(q, l);
        }
        let p = q.sub(HEAD);
        let m = (p as *mut u64).read();
        if m == DEAD {
            TWICE.fetch_add(1, Ordering::Relaxed);
            return;
        }
        (p as *mut u64).write(DEAD);
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        if !ON.load(Ordering::Relaxed) {
            return System.dealloc(p, outer(l));
        }
        let _ = Q.try_with(|c| {
            let mut t = c.get();
            if t.is_null() {
                t = System.alloc_zeroed(Layout::new::<[(*mut u8, usize, usize); QUEUE]>()) as *mut _;
                c.set(t);
            }
            let i = AT.with(|a| {
                let i = a.get();
                a.set((i + 1) % QUEUE);
                i
            });
            let old = (*t)[i];
            (*t)[i] = (p, l.size(), l.align());
            if !old.0.is_null() {
                System.dealloc(old.0, outer(Layout::from_size_align_unchecked(old.1, old.2)));
            }
        });
    }
}
