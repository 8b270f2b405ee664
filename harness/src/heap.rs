//! A heap that keeps books: every block lies between guard zones, starts out as NaNs and ends as NaNs, and the
//! operations of a measured region are written down one by one.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const ZONE: usize = 16;
const GUARD: u8 = 0xA5;
const POISON: u8 = 0xFF;
pub const LOG: usize = 240;

pub struct Books;

#[derive(Clone, Copy)]
struct Sheet {
    on: bool,
    n: usize,
    live: isize,
    peak: isize,
    len: usize,
    log: [(bool, usize, usize); LOG], // (allocated?, address, size)
}
struct Page(UnsafeCell<Sheet>);
thread_local! {
    static SHEET: Page = const { Page(UnsafeCell::new(Sheet { on: false, n: 0, live: 0, peak: 0, len: 0, log: [(false, 0, 0); LOG] })) };
    static READY: Cell<bool> = const { Cell::new(false) };
}
fn note(up: bool, p: usize, size: usize) {
    let _ = READY.try_with(|r| {
        if r.get() {
            SHEET.with(|s| {
                let s = unsafe { &mut *s.0.get() };
                if s.on {
                    s.n += up as usize;
                    s.live += if up { size as isize } else { -(size as isize) };
                    s.peak = s.peak.max(s.live);
                    if s.len < LOG {
                        s.log[s.len] = (up, p, size);
                    }
                    s.len += 1;
                }
            })
        }
    });
}

unsafe impl GlobalAlloc for Books {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > ZONE {
            return System.alloc(l);
        }
        let Some(total) = l.size().checked_add(2 * ZONE) else { return std::ptr::null_mut() };
        let p = System.alloc(Layout::from_size_align_unchecked(total, ZONE));
        if p.is_null() {
            return p;
        }
        p.write_bytes(GUARD, ZONE);
        p.add(ZONE).write_bytes(POISON, l.size());
        p.add(ZONE + l.size()).write_bytes(GUARD, ZONE);
        note(true, p as usize, l.size());
        p.add(ZONE)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > ZONE {
            return System.dealloc(q, l);
        }
        let p = q.sub(ZONE);
        let whole = |z: *mut u8| (0..ZONE).all(|i| *z.add(i) == GUARD);
        if !whole(p) || !whole(q.add(l.size())) {
            // someone wrote where it had no business
            std::process::abort();
        }
        note(false, p as usize, l.size());
        q.write_bytes(POISON, l.size());
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 2 * ZONE, ZONE));
    }
}

pub struct Account {
    pub n: usize,
    pub peak: usize,
    pub net: isize,
    /// [1, block, size] or [0, block, size]; blocks are numbered as they come, 0 is a block from before
    pub log: Vec<[usize; 3]>,
    pub whole: bool,
}

/// What `f` does to the heap, the end of whatever it leaves in its own scope included.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Account) {
    SHEET.with(|s| {
        let s = unsafe { &mut *s.0.get() };
        (s.n, s.live, s.peak, s.len) = (0, 0, 0, 0);
        s.on = true;
    });
    READY.with(|r| r.set(true));
    let r = f();
    READY.with(|r| r.set(false));
    let s = SHEET.with(|s| {
        let s = unsafe { &mut *s.0.get() };
        s.on = false;
        *s
    });
    let mut names: Vec<usize> = vec![];
    let mut log = vec![];
    for (up, p, size) in &s.log[..s.len.min(LOG)] {
        if *up {
            names.push(*p);
            log.push([1, names.len(), *size]);
        } else {
            log.push([0, names.iter().rposition(|q| q == p).map_or(0, |i| i + 1), *size]);
        }
    }
    (r, Account { n: s.n, peak: s.peak as usize, net: s.live, log, whole: s.len <= LOG })
}
