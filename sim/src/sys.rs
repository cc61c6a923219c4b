//! The few system calls the runner needs, and memory shared with the processes of the runs.

use std::ffi::c_void;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn madvise(addr: *mut c_void, len: usize, advice: i32) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub struct Shared {
    pub ptr: *mut u8,
    pub len: usize,
}

impl Shared {
    pub fn new(len: usize) -> Shared {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1, "mmap failed");
        Shared { ptr: p as *mut u8, len }
    }

    /// Give the memory back once it has grown large.
    pub fn trim(&self) {
        unsafe { madvise(self.ptr as *mut c_void, self.len, 9) };
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { munmap(self.ptr as *mut c_void, self.len) };
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Code(i32),
    Signal(i32),
}

pub fn fork_child(f: impl FnOnce()) -> i32 {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        // Die with the parent.
        unsafe { prctl(1, 9, 0, 0, 0) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        exit(if r.is_ok() { 0 } else { 101 });
    }
    pid
}

pub fn wait_child(pid: i32) -> End {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    if st & 0x7f == 0 {
        End::Code((st >> 8) & 0xff)
    } else {
        End::Signal(st & 0x7f)
    }
}

pub fn exit(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn kill_child(pid: i32) {
    unsafe { kill(pid, 9) };
}

/// Bounds on one run: CPU seconds, wall seconds, address space.
pub fn limits(cpu: u64, wall: u32, mem: u64) {
    unsafe {
        setrlimit(0, &[cpu, cpu + 1]);
        setrlimit(4, &[0, 0]);
        setrlimit(9, &[mem, mem]);
        alarm(wall);
    }
}
