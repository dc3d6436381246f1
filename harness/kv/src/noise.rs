//! Schedule noise: the allocator pauses participating threads at generated points, so that every
//! allocation and release inside a call is a possible place for another thread to run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// how a thread is disturbed: seed, one in 2^rare allocations yields or spins, and the
/// (allocation number, microseconds) pauses
#[derive(Clone, Copy)]
pub struct Plan { pub rng: u64, pub rare: u8, pub points: [(u32, u32); 4] }
const OFF: Plan = Plan { rng: 0, rare: 0, points: [(0, 0); 4] };
thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(OFF) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
}
pub fn on(p: Plan) { PLAN.with(|c| c.set(p)); COUNT.with(|c| c.set(0)); ACTIVE.with(|c| c.set(true)); }
pub fn off() { ACTIVE.with(|c| c.set(false)); }
pub fn count() -> u32 { COUNT.with(|c| c.get()) }

fn pause(us: u32) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
    unsafe { libc::nanosleep(&t, std::ptr::null_mut()); }
}
#[inline]
fn tick() {
    if !ACTIVE.try_with(|c| c.get()).unwrap_or(false) { return; }
    let _ = PLAN.try_with(|c| {
        let mut p = c.get();
        let n = COUNT.with(|c| { let n = c.get() + 1; c.set(n); n });
        p.rng ^= p.rng << 13; p.rng ^= p.rng >> 7; p.rng ^= p.rng << 17;
        c.set(p);
        for (at, us) in p.points { if at == n { pause(us); } }
        if p.rare < 32 && p.rng & ((1u64 << p.rare) - 1) == 0 {
            match (p.rng >> 40) % 4 {
                0 => std::thread::yield_now(),
                1 | 2 => for _ in 0..(p.rng >> 44) % 4000 { std::hint::spin_loop() },
                _ => pause((p.rng >> 44) as u32 % 300 + 20),
            }
        }
    });
}
pub struct Noisy;
unsafe impl GlobalAlloc for Noisy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { tick(); unsafe { System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); unsafe { System.realloc(p, l, n) } }
}
