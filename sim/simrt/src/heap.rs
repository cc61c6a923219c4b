//! Heap operations as yield points. Code that shares data without a lock between its steps, or
//! takes and releases a lock twice, is preempted in between: nearly anything it does there
//! allocates or frees something.
//!
//! Only the code under test is preempted like this, where a region of it is `open`; the simulator
//! and the simulated users, network and servers close it again on the way in.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

use crate::rng::Rng;

struct State {
    open: bool,
    every: u32,
    left: u32,
    rng: Option<Rng>,
}

struct Global(UnsafeCell<State>);
unsafe impl Sync for Global {}
// Only ever touched by the simulated OS thread, except that others may read `open` as false.
static STATE: Global = Global(UnsafeCell::new(State { open: false, every: 0, left: 0, rng: None }));

fn st() -> &'static mut State {
    unsafe { &mut *STATE.0.get() }
}

pub(crate) fn start(every: u32, seed: u64) {
    let s = st();
    s.open = false;
    s.every = every;
    s.rng = Some(Rng::new(seed));
    s.left = draw();
}

fn draw() -> u32 {
    let s = st();
    1 + s.rng.as_mut().unwrap().below(2 * s.every.max(1) as usize) as u32
}

/// Restores what held before when dropped.
pub struct Region(bool);

impl Drop for Region {
    fn drop(&mut self) {
        if self.0 != st().open {
            st().open = self.0;
        }
    }
}

/// What follows is code under test.
pub fn open() -> Region {
    let was = st().open;
    if st().every > 0 && crate::in_sim() {
        st().open = true;
    }
    Region(was)
}

/// What follows is not.
pub fn closed() -> Region {
    let was = st().open;
    if was {
        st().open = false;
    }
    Region(was)
}

#[cold]
#[inline(never)]
fn operation() {
    let s = st();
    if s.left > 1 {
        s.left -= 1;
        return;
    }
    s.open = false;
    s.left = draw();
    crate::heap_point();
    st().open = true;
}

/// The global allocator of a simulation: the system's, but for the above.
pub struct Heap;

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if (*STATE.0.get()).open {
            operation();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (*STATE.0.get()).open {
            operation();
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if (*STATE.0.get()).open {
            operation();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if (*STATE.0.get()).open {
            operation();
        }
        System.realloc(p, l, n)
    }
}
