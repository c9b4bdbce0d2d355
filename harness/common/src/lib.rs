//! What a harness may ask of the machine that runs it: symx answers with solver
//! variables, the native runner with the recorded values of one case.
mod ffi {
    extern "C" {
        pub fn sym_bits(width: u32) -> u64;
        pub fn sym_assume(cond: bool);
        pub fn sym_assert(cond: bool, msg: *const u8, len: usize);
        pub fn sym_reach(id: *const u8, len: usize);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_trace(v: u64);
        pub fn sym_expect_panic(on: bool);
        pub fn sym_live_heap() -> u64;
        pub fn sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        pub fn sym_join(thread: u64);
        pub fn sym_preempt(at: u64, to: u64);
    }
}
/// A fresh value of `width` bits.
pub fn bits(width: u32) -> u64 {
    unsafe { ffi::sym_bits(width) }
}
/// Restricts the case to those satisfying `cond`.
pub fn assume(cond: bool) {
    unsafe { ffi::sym_assume(cond) }
}
pub fn check(cond: bool, msg: &'static str) {
    unsafe { ffi::sym_assert(cond, msg.as_ptr(), msg.len()) }
}
/// Marks a situation a check must have met to count as not vacuous.
pub fn reach(id: &'static str) {
    unsafe { ffi::sym_reach(id.as_ptr(), id.len()) }
}
/// Splits the case on the value of `v`.
pub fn conc(v: u64) -> u64 {
    unsafe { ffi::sym_conc(v) }
}
/// Records an output, compared between the encoding and the native build.
pub fn trace(v: u64) {
    unsafe { ffi::sym_trace(v) }
}
/// From here on (until switched off) a panic ends the case without being a failure.
pub fn expect_panic(on: bool) {
    unsafe { ffi::sym_expect_panic(on) }
}
/// Number of live heap blocks.
pub fn live_heap() -> u64 {
    unsafe { ffi::sym_live_heap() }
}
/// Another thread of control running `f`. Threads take turns: one runs until it ends, waits, pauses or is preempted.
pub fn spawn<F: FnOnce()>(f: F) -> u64 {
    extern "C" fn start<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { Box::from_raw(p as *mut F) };
        f()
    }
    unsafe { ffi::sym_spawn(start::<F>, Box::into_raw(Box::new(f)) as *mut u8) }
}
pub fn join(thread: u64) {
    unsafe { ffi::sym_join(thread) }
}
/// Lets `n` preemptions happen: each before any atomic instruction (numbered as they come up while there is another thread
/// to run), in favour of any of `others` threads.
pub fn preemptions(n: usize, others: usize) {
    for _ in 0..n {
        let to = choose(others);
        let at = bits(16);
        unsafe { ffi::sym_preempt(at, to as u64) }
    }
}
/// Runs `f`, which has to panic whatever happens.
pub fn must_panic<R>(msg: &'static str, f: impl FnOnce() -> R) {
    expect_panic(true);
    let r = f();
    expect_panic(false);
    std::mem::forget(r);
    check(false, msg);
}
/// One of 0..n, as a separate case each.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let w = usize::BITS - (n - 1).leading_zeros();
    let v = bits(w);
    assume(v < n as u64);
    conc(v) as usize
}
pub fn flag() -> bool {
    bits(1) == 1
}

/// Values a solver variable can stand for.
pub trait Any: Sized {
    fn any() -> Self;
}
macro_rules! any_int {
    ($($t:ty),*) => { $(impl Any for $t { fn any() -> Self { bits(<$t>::BITS) as $t } })* };
}
any_int!(u8, u16, u32, u64, i8, i16, i32, i64, usize);
impl Any for bool {
    fn any() -> Self {
        bits(1) == 1
    }
}
impl Any for f32 {
    fn any() -> Self {
        f32::from_bits(bits(32) as u32)
    }
}
impl Any for f64 {
    fn any() -> Self {
        f64::from_bits(bits(64))
    }
}
pub fn any<T: Any>() -> T {
    T::any()
}
