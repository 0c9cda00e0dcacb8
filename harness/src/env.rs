//! Inputs, assumptions, obligations.
//!
//! Under `--cfg sym` these are calls that the symbolic executor interprets: an input is a symbolic
//! byte, an assumption restricts the explored inputs, an obligation becomes part of the solver's
//! query. Otherwise they have a native implementation, used to replay a counterexample.

#[cfg(sym)]
mod imp {
    extern "C" {
        fn __v_in(index: u64, hi: u64) -> u8;
        fn __v_assume(c: bool);
        fn __v_assert(c: bool, p: *const u8, n: usize);
        fn __v_cover(c: bool, p: *const u8, n: usize);
        fn __v_split(v: u64, n: u64);
        fn __v_panic_tag() -> u8;
        fn __v_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
    }
    #[inline(always)]
    pub fn input(i: usize, hi: u8) -> u8 {
        unsafe { __v_in(i as u64, hi as u64) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { __v_assume(c) }
    }
    #[inline(always)]
    pub fn chk(c: bool, label: &'static str) {
        unsafe { __v_assert(c, label.as_ptr(), label.len()) }
    }
    #[inline(always)]
    pub fn cover(c: bool, label: &'static str) {
        unsafe { __v_cover(c, label.as_ptr(), label.len()) }
    }
    #[inline(always)]
    pub fn split(v: usize, n: usize) {
        unsafe { __v_split(v as u64, n as u64) }
    }
    extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) {
        let f = unsafe { &mut *(p as *mut F) };
        f()
    }
    /// Runs the closure; returns whether it panicked.
    #[inline(always)]
    pub fn panics<F: FnMut()>(mut f: F) -> bool {
        unsafe { __v_catch(tramp::<F>, &mut f as *mut F as *mut u8) }
    }
    /// What the message of the last panic began with: 1 `[precondition]`, 2 `[consistency]`,
    /// 3 `[validity]`, 4 anything else.
    #[inline(always)]
    pub fn panic_tag() -> u8 {
        unsafe { __v_panic_tag() }
    }
    /// Panics (in the code under test's callbacks).
    #[inline(never)]
    pub fn blow_up() -> ! {
        panic!("blow up")
    }
}

#[cfg(not(sym))]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static INPUTS: RefCell<HashMap<usize, u8>> = RefCell::new(HashMap::new());
        static TAG: std::cell::Cell<u8> = std::cell::Cell::new(0);
        pub static COVERED: RefCell<Vec<&'static str>> = RefCell::new(Vec::new());
    }
    pub fn set_inputs(s: &str) {
        INPUTS.with(|m| {
            for p in s.split(',').filter(|p| !p.is_empty()) {
                let (a, b) = p.split_once('=').expect("INDEX=VALUE");
                m.borrow_mut().insert(a.parse().expect("index"), b.parse().expect("value"));
            }
        })
    }
    pub fn verbose() -> bool {
        std::env::args().any(|a| a == "-v")
    }
    pub fn covered() -> Vec<&'static str> {
        COVERED.with(|v| v.borrow().clone())
    }
    pub fn input(i: usize, hi: u8) -> u8 {
        let v = INPUTS.with(|m| m.borrow().get(&i).copied().unwrap_or(0));
        assume(v <= hi);
        v
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FAILED");
            std::process::exit(77)
        }
    }
    pub fn chk(c: bool, label: &'static str) {
        if !c {
            println!("FAILED {}", label);
            std::process::exit(10)
        }
    }
    pub fn cover(c: bool, label: &'static str) {
        if c {
            COVERED.with(|v| v.borrow_mut().push(label));
        }
    }
    pub fn split(_: usize, _: usize) {}
    pub fn panics<F: FnMut()>(mut f: F) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) {
            Ok(()) => false,
            Err(e) => {
                let s = e.downcast_ref::<String>().map(|s| s.as_str()).or_else(|| e.downcast_ref::<&str>().copied()).unwrap_or("");
                let tags = ["[precondition]", "[consistency]", "[validity]", ""];
                TAG.with(|t| t.set(1 + tags.iter().position(|t| s.starts_with(t)).unwrap() as u8));
                true
            }
        }
    }
    pub fn panic_tag() -> u8 {
        TAG.with(|t| t.get())
    }
    pub fn blow_up() -> ! {
        panic!("blow up")
    }
}

pub use imp::*;

/// Reader of consecutive inputs.
pub struct Rd {
    pos: usize,
}

impl Rd {
    #[inline(always)]
    pub fn new() -> Self {
        Rd { pos: 0 }
    }
    /// An input in `0..=hi`.
    #[inline(always)]
    pub fn upto(&mut self, hi: u8) -> u8 {
        let v = input(self.pos, hi);
        self.pos += 1;
        v
    }
    #[inline(always)]
    pub fn below(&mut self, n: usize) -> usize {
        self.upto((n - 1) as u8) as usize
    }
    #[inline(always)]
    pub fn bit(&mut self) -> bool {
        self.upto(1) == 1
    }
    #[inline(always)]
    pub fn u64(&mut self) -> u64 {
        let mut v = 0;
        let mut i = 0;
        while i < 8 {
            v |= (self.upto(255) as u64) << (8 * i);
            i += 1;
        }
        v
    }
    #[inline(always)]
    pub fn arr<const N: usize>(&mut self, hi: u8) -> [u8; N] {
        let mut a = [0; N];
        let mut i = 0;
        while i < N {
            a[i] = self.upto(hi);
            i += 1;
        }
        a
    }
}

/// Counts the allocations of everything that is linked: P28.
#[cfg(check = "P28")]
pub mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            COUNT.store(COUNT.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            COUNT.store(COUNT.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static HEAP: Counting = Counting;
    /// How many allocations there were so far.
    #[inline(never)]
    pub fn count() -> usize {
        COUNT.load(Ordering::Relaxed)
    }
}
