//! Primitives the harnesses are written against.  In the symbolic build they are left as
//! external functions and implemented by the engine (rsym); in the native build (replay of
//! models and counterexamples) they read a concrete input vector.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn rsym_bytes(p: *mut u8, n: usize);
        fn rsym_assume(c: bool);
        fn rsym_check(c: bool, p: *const u8, n: usize);
        fn rsym_fail(p: *const u8, n: usize) -> !;
        fn rsym_observe(v: u64);
        fn rsym_observe_bytes(p: *const u8, n: usize);
        fn rsym_cover(p: *const u8, n: usize);
        fn rsym_concretize(v: u64) -> u64;
        fn rsym_tier() -> u64;
        fn rsym_arg() -> u64;
        fn rsym_depth() -> u64;
        fn rsym_depth_peak() -> u64;
        fn rsym_steps() -> u64;
        fn rsym_heap_limit(n: u64);
        fn rsym_heap() -> u64;
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { rsym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { rsym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { rsym_check(c, m.as_ptr(), m.len()) }
    }
    pub fn fail(m: &'static str) -> ! {
        unsafe { rsym_fail(m.as_ptr(), m.len()) }
    }
    pub fn observe(v: u64) {
        unsafe { rsym_observe(v) }
    }
    pub fn observe_bytes(b: &[u8]) {
        unsafe { rsym_observe_bytes(b.as_ptr(), b.len()) }
    }
    pub fn cover(m: &'static str) {
        unsafe { rsym_cover(m.as_ptr(), m.len()) }
    }
    /// Fix a symbolic value (the engine forks over every feasible value).
    pub fn concretize(v: u64) -> u64 {
        unsafe { rsym_concretize(v) }
    }
    /// 0 in the quick tier, 1 in the thorough tier
    pub fn tier() -> u64 {
        unsafe { rsym_tier() }
    }
    /// parameter of the harness instance (`name:arg`)
    pub fn arg() -> u64 {
        unsafe { rsym_arg() }
    }
    /// call depth (frames in the engine)
    pub fn depth() -> u64 {
        unsafe { rsym_depth() }
    }
    /// Run `f`; how much deeper than here calls went meanwhile, in frames.  (The native build
    /// instead gives `f` a small stack to overflow.)
    pub fn deepest<R: Send>(f: impl FnOnce() -> R + Send) -> (R, u64) {
        let here = depth();
        unsafe { rsym_depth_peak() };
        let r = f();
        (r, unsafe { rsym_depth_peak() } - here)
    }
    /// work done so far (IR instructions in the engine)
    pub fn work() -> u64 {
        unsafe { rsym_steps() }
    }
    /// From here on at most `n` bytes more may be held on the heap than now; 0 lifts the limit.
    pub fn heap_limit(n: u64) {
        unsafe { rsym_heap_limit(n) }
    }
    /// bytes held on the heap
    pub fn heap() -> u64 {
        unsafe { rsym_heap() }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u64>,
        pub tier: u64,
        pub arg: u64,
        pub covers: Vec<String>,
    }
    thread_local! {
        pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    }
    pub fn report() -> String {
        CTX.with(|c| {
            let c = c.borrow();
            c.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        })
    }
    pub fn fill(b: &mut [u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            for x in b.iter_mut() {
                *x = c.input.get(c.pos).copied().unwrap_or(0);
                c.pos += 1;
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY assume-failed");
            std::process::exit(3);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            fail(m)
        }
    }
    pub fn fail(m: &'static str) -> ! {
        println!("REPLAY check-failed {}", m);
        std::process::exit(1);
    }
    /// what the replay itself allocates does not count
    fn uncounted(f: impl FnOnce(&mut Ctx)) {
        let limit = LIMIT.swap(0, SeqCst);
        let held = LIVE.load(SeqCst);
        CTX.with(|c| f(&mut c.borrow_mut()));
        LIVE.store(held, SeqCst);
        LIMIT.store(limit, SeqCst);
    }
    /// the same input from its beginning, without a trace
    pub fn again(f: impl FnOnce()) {
        let (pos, seen) = CTX.with(|c| {
            let mut c = c.borrow_mut();
            (std::mem::replace(&mut c.pos, 0), (c.obs.len(), c.covers.len()))
        });
        f();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.pos = pos;
            c.obs.truncate(seen.0);
            c.covers.truncate(seen.1);
        })
    }
    pub fn heap() -> u64 {
        LIVE.load(SeqCst)
    }
    pub fn observe(v: u64) {
        uncounted(|c| c.obs.push(v))
    }
    pub fn observe_bytes(b: &[u8]) {
        observe(b.len() as u64);
        for x in b {
            observe(*x as u64);
        }
    }
    pub fn cover(m: &'static str) {
        uncounted(|c| c.covers.push(m.to_string()))
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn tier() -> u64 {
        CTX.with(|c| c.borrow().tier)
    }
    pub fn arg() -> u64 {
        CTX.with(|c| c.borrow().arg)
    }
    /// CPU time of this thread in units of 4 ns, which no instruction of an unoptimised build
    /// exceeds by much
    pub fn work() -> u64 {
        extern "C" {
            fn syscall(n: i64, clock: i64, t: *mut [u64; 2]) -> i64;
        }
        let mut t = [0u64; 2];
        unsafe { syscall(228, 3, &mut t) };
        (t[0] * 1_000_000_000 + t[1]) / 4
    }
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static LIVE: AtomicU64 = AtomicU64::new(0);
    static LIMIT: AtomicU64 = AtomicU64::new(0);
    /// counts what is held; reallocation goes through `alloc` and `dealloc`
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let held = LIVE.fetch_add(l.size() as u64, SeqCst) + l.size() as u64;
            let limit = LIMIT.load(SeqCst);
            if limit != 0 && held > limit {
                LIMIT.store(0, SeqCst);
                fail("more memory held than the input accounts for")
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, SeqCst);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;
    pub fn heap_limit(n: u64) {
        LIMIT.store(if n == 0 { 0 } else { LIVE.load(SeqCst) + n }, SeqCst)
    }
    pub fn deepest<R: Send>(f: impl FnOnce() -> R + Send) -> (R, u64) {
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(128 << 10).spawn_scoped(s, f).unwrap().join());
        match r {
            Ok(r) => (r, 0),
            Err(_) => std::process::exit(101),
        }
    }
    /// Stack position in bytes, scaled down so that it is comparable with a frame count.
    #[inline(never)]
    pub fn depth() -> u64 {
        let x = 0u8;
        let p = &x as *const u8 as usize;
        std::hint::black_box(&x);
        // the stack grows downwards
        (u64::MAX / 2).wrapping_sub(p as u64)
    }
}

pub use imp::*;

/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
/// Arbitrary value in lo..=hi, fixed per path.
pub fn choose(lo: u64, hi: u64) -> u64 {
    let b = byte();
    assume(b as u64 <= hi - lo);
    lo + concretize(b as u64)
}
/// Branch-free comparison.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
