//! Clock and entropy seams. The binary's own `clock_gettime` and `getrandom` replace the C library's for every crate
//! linked into it (std, chrono, fastrand, hash maps, the uuid and key stand-ins). On a simulation thread they answer
//! from the run's simulated clock and the run's seeded entropy; on every other thread they are the plain system calls.

use std::cell::Cell;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CLOCK: Cell<i64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Takes over this thread's clock and entropy.
pub fn install(entropy_seed: u64) {
    ENTROPY.set(entropy_seed);
    ENTROPY_CALLS.set(0);
    ON.set(true);
}

pub fn uninstall() {
    ON.set(false);
}

/// Sets what the code under simulation reads as wall-clock time (nanoseconds since the epoch).
pub fn set_clock(ns: i64) {
    CLOCK.set(ns);
}

pub fn real_ns() -> u64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(228, 1i64, &mut ts as *mut Timespec) };
    ts.sec as u64 * 1_000_000_000 + ts.nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if ON.get() {
        let ns = CLOCK.get();
        (*ts).sec = ns.div_euclid(1_000_000_000);
        (*ts).nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    syscall(228, clk as i64, ts) as i32
}

pub fn mix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ON.get() {
        let mut s = ENTROPY.get();
        for i in 0..len {
            *buf.add(i) = (mix(&mut s) >> 17) as u8;
        }
        ENTROPY.set(s);
        ENTROPY_CALLS.set(ENTROPY_CALLS.get() + 1);
        return len as isize;
    }
    syscall(318, buf, len, flags as i64) as isize
}
