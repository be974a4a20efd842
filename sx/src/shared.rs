//! State shared between the worker processes (created by fork) of one run.

use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[repr(C)]
pub struct Shared {
    pub free_slots: AtomicI64,
    pub live: AtomicI64,
    pub stop: AtomicU64,
    pub paths: AtomicU64,
    pub completed: AtomicU64,
    pub killed_assume: AtomicU64,
    pub failures: AtomicU64,
    pub forks: AtomicU64,
    pub steps: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub cache_hits: AtomicU64,
    pub solver_ns: AtomicU64,
    pub inconclusive: AtomicU64,
    pub workers: AtomicU64,
    pub max_inputs: AtomicU64,
    pub max_depth: AtomicU64,
    pub covers: [AtomicU64; 256],
}

pub fn create<T>(bytes: usize) -> &'static T {
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), bytes, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const T)
    }
}

pub struct Cov {
    p: *const AtomicU8,
    pub n: usize,
}
impl Cov {
    pub fn new(n: usize) -> Self {
        let p: &'static AtomicU8 = create(n.max(1));
        Cov { p, n }
    }
    #[inline]
    pub fn hit(&self, i: u32) {
        unsafe {
            let a = &*self.p.add(i as usize);
            if a.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                a.store(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
    }
    pub fn get(&self, i: u32) -> bool {
        unsafe { (*self.p.add(i as usize)).load(SeqCst) != 0 }
    }
}
