//! Stackful coroutines: an mmap'd stack with a guard page and a context switch in assembly.

use std::arch::global_asm;
use std::ffi::c_void;

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
compile_error!("the simulator's context switch is written for x86_64 Linux");

global_asm!(
    ".global sio_sim_switch",
    "sio_sim_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global sio_sim_tramp",
    "sio_sim_tramp:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);

extern "C" {
    fn sio_sim_switch(save: *mut *mut u8, to: *mut u8);
    fn sio_sim_tramp();
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
}

const STACK: usize = 2 << 20;
const GUARD: usize = 64 << 10;

struct Inner {
    stack: *mut u8,
    sp: *mut u8,
    sched_sp: *mut u8,
    f: Option<Box<dyn FnOnce()>>,
    done: bool,
}

pub struct Coro(Box<Inner>);

unsafe extern "C" fn entry(inner: *mut Inner) -> ! {
    let f = (*inner).f.take().unwrap();
    f();
    (*inner).done = true;
    sio_sim_switch(&mut (*inner).sp, (*inner).sched_sp);
    std::process::abort();
}

impl Coro {
    pub fn new(f: Box<dyn FnOnce()>) -> Coro {
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let p = mmap(std::ptr::null_mut(), STACK + GUARD, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(p as isize != -1, "mmap of a coroutine stack failed");
            mprotect(p, GUARD, 0);
            let stack = p as *mut u8;
            let mut inner = Box::new(Inner { stack, sp: std::ptr::null_mut(), sched_sp: std::ptr::null_mut(), f: Some(f), done: false });
            let top = stack.add(STACK + GUARD) as *mut u64;
            // After the final `ret` into the trampoline rsp is 16-byte aligned.
            let sp = top.sub(2 + 7);
            let ip: *mut Inner = &mut *inner;
            *sp.add(0) = 0; // r15
            *sp.add(1) = 0; // r14
            *sp.add(2) = entry as *const () as u64; // r13
            *sp.add(3) = ip as u64; // r12
            *sp.add(4) = 0; // rbx
            *sp.add(5) = 0; // rbp
            *sp.add(6) = sio_sim_tramp as *const () as u64;
            *sp.add(7) = 0;
            *sp.add(8) = 0;
            inner.sp = sp as *mut u8;
            Coro(inner)
        }
    }

    /// Run the coroutine until it suspends or ends; true if it has ended.
    pub unsafe fn resume(&mut self) -> bool {
        let i: *mut Inner = &mut *self.0;
        sio_sim_switch(&mut (*i).sched_sp, (*i).sp);
        (*i).done
    }

    pub unsafe fn suspend(&mut self) {
        let i: *mut Inner = &mut *self.0;
        sio_sim_switch(&mut (*i).sp, (*i).sched_sp);
    }
}

impl Drop for Coro {
    fn drop(&mut self) {
        if self.0.done {
            unsafe { munmap(self.0.stack as *mut c_void, STACK + GUARD) };
        }
    }
}
