//! Deterministic allocator: the code under test orders interned terms by the hash of their
//! address, so addresses are part of its schedule. Everything lives in one mapping at a fixed
//! address; each execution (a forked child) gets a fresh region whose start depends on the seed.
use std::alloc::{GlobalAlloc, Layout};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, Ordering};

const BASE: usize = 0x2000_0000_0000;
const SPLIT: usize = BASE + (4 << 30);
const EXEC: usize = 3 << 30;
const CLASSES: usize = 40;

struct State {
    next: usize,
    end: usize,
    child: bool,
    free: [usize; CLASSES],
}

pub struct Arena;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut STATE: State = State { next: 0, end: 0, child: false, free: [0; CLASSES] };

fn locked<T>(f: impl FnOnce(&mut State) -> T) -> T {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = unsafe { f(&mut *std::ptr::addr_of_mut!(STATE)) };
    LOCK.store(false, Ordering::Release);
    r
}

fn class(l: &Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(&l);
        if c >= CLASSES || l.align() > 4096 {
            return null_mut();
        }
        locked(|s| {
            if s.next == 0 {
                let p = libc::mmap(
                    BASE as *mut _,
                    (SPLIT - BASE) + EXEC + (1 << 20),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                    -1,
                    0,
                );
                if p as usize != BASE {
                    return null_mut();
                }
                s.next = BASE;
                s.end = SPLIT;
            }
            if s.free[c] != 0 {
                let p = s.free[c];
                s.free[c] = *(p as *const usize);
                return p as *mut u8;
            }
            // blocks of a page or more are rounded to pages, smaller ones to 16 bytes
            let size = if c <= 12 { 1usize << c } else { (l.size() + 4095) & !4095 };
            let size = if c > 12 { 1usize << c.min(62) } else { size };
            let align = l.align().max(16);
            let p = (s.next + align - 1) & !(align - 1);
            if p + size > s.end {
                return null_mut();
            }
            s.next = p + size;
            p as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(&l);
        locked(|s| {
            if s.child && (p as usize) < SPLIT {
                return; // keep the child's layout independent of the parent's heap
            }
            *(p as *mut usize) = s.free[c];
            s.free[c] = p as usize;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        if class(&nl) == class(&l) {
            return p;
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// In a forked child: allocate from the execution region, starting at a seed-dependent offset.
pub fn enter_execution(seed: u64) {
    locked(|s| {
        s.child = true;
        s.free = [0; CLASSES];
        s.next = SPLIT + (seed as usize % 4096) * 80 / 16 * 16;
        s.end = SPLIT + EXEC;
    })
}

#[global_allocator]
static GLOBAL: Arena = Arena;
