//! The libc functions through which std and the dependencies reach the kernel for blocking, time
//! and randomness. Defined here, they take precedence over libc's in this binary; on the simulated
//! thread they are answered by the simulator, on any other they go to the kernel.

use std::arch::asm;
use std::cell::UnsafeCell;

use crate::rng::splitmix;

#[allow(non_camel_case_types)]
type long = i64;

const SYS_NANOSLEEP: long = 35;
const SYS_FUTEX: long = 202;
const SYS_CLOCK_GETTIME: long = 228;
const SYS_CLOCK_NANOSLEEP: long = 230;
const SYS_GETRANDOM: long = 318;

/// Simulated CLOCK_REALTIME at simulated time zero: 2030-01-01T00:00:00Z.
pub const EPOCH: u64 = 1_893_456_000;
/// Simulated CLOCK_MONOTONIC at simulated time zero.
const BOOT: u64 = 100_000;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe fn raw(n: long, a: long, b: long, c: long, d: long, e: long, f: long) -> long {
    let r: long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: long) -> long {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

struct Entropy(UnsafeCell<u64>);
unsafe impl Sync for Entropy {}
static ENTROPY: Entropy = Entropy(UnsafeCell::new(0));

/// Seed for every random byte the process asks the kernel for on the simulated thread.
pub fn set_entropy_seed(s: u64) {
    unsafe { *ENTROPY.0.get() = s ^ 0xa076_1d64_78bd_642f }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let v = splitmix(&mut *ENTROPY.0.get()).to_le_bytes();
        for b in v {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
}

struct Jumps(UnsafeCell<Vec<(u64, i64)>>);
unsafe impl Sync for Jumps {}
static JUMPS: Jumps = Jumps(UnsafeCell::new(Vec::new()));

/// The wall clock is set at these simulated times (ns), by so many seconds.
pub fn set_clock_jumps(j: Vec<(u64, i64)>) {
    unsafe { *JUMPS.0.get() = j }
}

/// Seconds of CLOCK_REALTIME at simulated time zero as it would be told now.
fn epoch(now: u64) -> u64 {
    let off: i64 = unsafe { (*JUMPS.0.get()).iter().filter(|(at, _)| *at <= now).map(|(_, by)| by).sum() };
    EPOCH.saturating_add_signed(off)
}

thread_local! {
    static DETERMINISTIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// From now on this OS thread takes its randomness from the entropy seed.
pub fn prewarm() {
    DETERMINISTIC.with(|x| x.set(true));
}

fn deterministic() -> bool {
    DETERMINISTIC.try_with(|x| x.get()).unwrap_or(false)
}

unsafe fn futex(addr: long, op: long, val: long, timeout: long, bits: long) -> long {
    let cmd = op & 0x7f;
    match cmd {
        // FUTEX_WAIT (relative timeout), FUTEX_WAIT_BITSET (absolute timeout)
        0 | 9 => {
            let t = timeout as *const Timespec;
            let t = if t.is_null() {
                None
            } else {
                let ns = ((*t).sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec as u64);
                Some(if cmd == 0 {
                    crate::now().saturating_add(ns)
                } else if op & 256 != 0 {
                    ns.saturating_sub(epoch(crate::now()) * 1_000_000_000)
                } else {
                    ns.saturating_sub(BOOT * 1_000_000_000)
                })
            };
            crate::futex_wait(addr as *const u32, val as u32, t) as long
        }
        // FUTEX_WAKE, FUTEX_WAKE_BITSET
        1 | 10 => crate::futex_wake(addr as *const u32, val as u32) as long,
        _ => raw(SYS_FUTEX, addr, op, val, timeout, 0, bits),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: long, a: long, b: long, c: long, d: long, e: long, f: long) -> long {
    match n {
        SYS_FUTEX if crate::can_block() => ret(futex(a, b, c, d, f)),
        SYS_GETRANDOM if deterministic() => {
            fill(a as *mut u8, b as usize);
            b
        }
        SYS_CLOCK_GETTIME if crate::in_sim() => clock_gettime(a as i32, b as *mut Timespec) as long,
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if deterministic() {
        fill(buf, len);
        len as isize
    } else {
        ret(raw(SYS_GETRANDOM, buf as long, len as long, flags as long, 0, 0, 0)) as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    match crate::sim_now_for_clock() {
        // CLOCK_PROCESS_CPUTIME_ID and CLOCK_THREAD_CPUTIME_ID stay real; nothing under test reads them.
        Some(now) if clock != 2 && clock != 3 => {
            let base = if clock == 0 || clock == 5 { epoch(now) } else { BOOT };
            (*ts).sec = (base + now / 1_000_000_000) as i64;
            (*ts).nsec = (now % 1_000_000_000) as i64;
            0
        }
        _ => ret(raw(SYS_CLOCK_GETTIME, clock as long, ts as long, 0, 0, 0, 0)) as i32,
    }
}

unsafe fn do_sleep(req: *const Timespec) {
    crate::sleep((*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if crate::can_block() {
        do_sleep(req);
        0
    } else {
        ret(raw(SYS_NANOSLEEP, req as long, rem as long, 0, 0, 0, 0)) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if crate::can_block() && flags == 0 {
        do_sleep(req);
        0
    } else if crate::can_block() {
        let base = if clock == 0 { epoch(crate::now()) } else { BOOT };
        let t = ((*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64).saturating_sub(base * 1_000_000_000);
        crate::sleep_until(t);
        0
    } else {
        -raw(SYS_CLOCK_NANOSLEEP, clock as long, flags as long, req as long, rem as long, 0, 0) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::can_block() {
        crate::spin();
    }
    0
}
