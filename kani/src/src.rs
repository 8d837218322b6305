//! values of the quantified variables: every value under Kani, those of a counterexample in a replay
#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
#[cfg(kani)]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(kani)]
macro_rules! vx_check { ($c:expr, $m:literal) => { kani::assert($c, $m) }; }
#[cfg(not(kani))]
macro_rules! vx_check { ($c:expr, $m:literal) => { assert!($c, $m) }; }
pub(crate) use vx_check as check;

#[cfg(not(kani))]
pub use native::*;
#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    thread_local!(pub static VALUES: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0)));
    pub struct Discard;
    pub trait Concrete { fn get() -> Self; }
    fn next(n: usize) -> Vec<u8> {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            let (a, b) = (v.1, v.1 + n);
            v.1 = b;
            (a..b).map(|i| v.0.get(i).copied().unwrap_or(0)).collect()
        })
    }
    impl<const N: usize> Concrete for [u8; N] { fn get() -> Self { let v = next(N); let mut a = [0; N]; a.copy_from_slice(&v); a } }
    macro_rules! ints { ($($t:ty),*) => { $(impl Concrete for $t { fn get() -> Self { let v = next(core::mem::size_of::<$t>()); let mut a = [0; core::mem::size_of::<$t>()]; a.copy_from_slice(&v); <$t>::from_le_bytes(a) } })* } }
    ints!(u8, u16, u32, u64, usize);
    impl Concrete for bool { fn get() -> Self { next(1)[0] & 1 == 1 } }
    pub fn any<T: Concrete>() -> T { T::get() }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Discard) } }
}
