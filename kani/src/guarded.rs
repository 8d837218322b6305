//! C14: contracts of guarded memory (engine/runtime/src/boxed.rs, memories/buffer.rs), inductively: from every
//! state that satisfies the invariant `inv`, each operation ends in a state that satisfies it, with the borrow
//! count changed by exactly the borrow that was made or dropped; misuse does not return.
//! libsodium is represented by its contract: the page protection is what the last successful call set.
#![cfg(kani)]
use crate::src::*;
use runtime::memories::buffer::*;
use zeroize::Zeroize;

pub mod sodium {
    use libsodium_sys as _;
    pub const NONE: u8 = 0;
    pub const RO: u8 = 1;
    pub const RW: u8 = 2;
    /// up to four allocations: address and page protection
    pub static mut PTR: [usize; 4] = [0; 4];
    pub static mut PROT: [u8; 4] = [9; 4];
    pub static mut LEN: [usize; 4] = [0; 4];
    pub static mut LIVE: [bool; 4] = [false; 4];
    pub static mut USED: usize = 0;
    /// when set, changing the protection fails from now on
    pub static mut FAIL: bool = false;
    /// whether the bytes matter
    pub static mut REAL: bool = true;

    pub unsafe fn init() -> i32 {
        0
    }
    pub unsafe fn allocarray(count: usize, size: usize) -> *mut core::ffi::c_void {
        let n = count * size;
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align(if n == 0 { 1 } else { n }, 1).unwrap());
        PTR[USED] = p as usize;
        PROT[USED] = RW;
        LEN[USED] = n;
        LIVE[USED] = true;
        USED += 1;
        p as *mut _
    }
    pub unsafe fn free(p: *mut core::ffi::c_void) {
        let i = at(p);
        LIVE[i] = false;
        std::alloc::dealloc(p as *mut u8, std::alloc::Layout::from_size_align(if LEN[i] == 0 { 1 } else { LEN[i] }, 1).unwrap());
    }
    pub unsafe fn mlock(_p: *mut core::ffi::c_void, _n: usize) -> i32 {
        0
    }
    pub unsafe fn at(p: *mut core::ffi::c_void) -> usize {
        let a = p as usize;
        if USED > 0 && PTR[0] == a { 0 } else if USED > 1 && PTR[1] == a { 1 } else if USED > 2 && PTR[2] == a { 2 } else { 3 }
    }
    unsafe fn set(p: *mut core::ffi::c_void, v: u8) -> i32 {
        let i = at(p);
        kani::assert(PTR[i] == p as usize && LIVE[i], "protection is changed only of live guarded memory");
        if FAIL {
            return -1;
        }
        PROT[i] = v;
        0
    }
    pub unsafe fn noaccess(p: *mut core::ffi::c_void) -> i32 {
        set(p, NONE)
    }
    pub unsafe fn readonly(p: *mut core::ffi::c_void) -> i32 {
        set(p, RO)
    }
    pub unsafe fn readwrite(p: *mut core::ffi::c_void) -> i32 {
        set(p, RW)
    }
    pub unsafe fn memzero(p: *mut core::ffi::c_void, n: usize) {
        if REAL {
            core::ptr::write_bytes(p as *mut u8, 0, n)
        }
    }
    pub unsafe fn random(p: *mut core::ffi::c_void, n: usize) {
        let _ = (p, n);
    }
    pub unsafe fn memcmp(a: *const core::ffi::c_void, b: *const core::ffi::c_void, n: usize) -> i32 {
        let r = core::slice::from_raw_parts(a as *const u8, n) == core::slice::from_raw_parts(b as *const u8, n);
        if r { 0 } else { -1 }
    }
}
use sodium::*;

fn page(i: usize) -> u8 {
    unsafe { PROT[i] }
}

/// the state that the statement describes, with `n` live borrows: no borrow - inaccessible; read borrows - read-only
/// memory; one write borrow - read-write; the page has the protection that is recorded
fn inv(refs: u8, prot: u8, page: u8) -> bool {
    page == prot && ((refs == 0 && prot == NONE) || (refs > 0 && prot == RO) || (refs == 1 && prot == RW))
}

/// a buffer in any state that satisfies the invariant
fn any_buffer() -> (Buffer<u8>, u8, u8) {
    unsafe { REAL = false }
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 40);
    let b = Buffer::<u8>::zero(n);
    in_any_state(b)
}

/// a buffer of up to four bytes in any state that satisfies the invariant
fn any_small_buffer() -> (Buffer<u8>, u8, u8) {
    let data: [u8; 4] = any();
    let n: usize = any();
    assume(n >= 1 && n <= 4);
    in_any_state(Buffer::<u8>::alloc(&data[..n], n))
}

fn in_any_state(b: Buffer<u8>) -> (Buffer<u8>, u8, u8) {
    let (refs, prot): (u8, u8) = (any(), any());
    assume(inv(refs, prot, prot));
    b.verif_set_state(refs, prot);
    unsafe { PROT[0] = prot }
    (b, refs, prot)
}

/// the contract of an operation that adds a read borrow
fn read_borrowed(b: &Buffer<u8>, refs: u8) {
    let (r, p) = b.verif_state();
    check!(r == refs + 1, "the borrow count is one higher");
    check!(p == RO && page(0) == RO, "a read borrow makes it readable, not writable");
}

/// the contract of an operation that drops a borrow
fn dropped(b: &Buffer<u8>, refs: u8, prot: u8) {
    let (r, p) = b.verif_state();
    check!(r == refs - 1, "the borrow count is one lower");
    check!(inv(r, p, page(0)), "the invariant holds");
    check!(r == 0 || p == prot, "other borrows keep their access");
    check!(r != 0 || page(0) == NONE, "the last borrow makes it inaccessible");
}

macro_rules! harness {
    ($(#[$a:meta])* fn $n:ident() $b:block) => {
        #[kani::proof]
        #[kani::stub(libsodium_sys::sodium_init, sodium::init)]
        #[kani::stub(libsodium_sys::sodium_allocarray, sodium::allocarray)]
        #[kani::stub(libsodium_sys::sodium_free, sodium::free)]
        #[kani::stub(libsodium_sys::sodium_mlock, sodium::mlock)]
        #[kani::stub(libsodium_sys::sodium_mprotect_noaccess, sodium::noaccess)]
        #[kani::stub(libsodium_sys::sodium_mprotect_readonly, sodium::readonly)]
        #[kani::stub(libsodium_sys::sodium_mprotect_readwrite, sodium::readwrite)]
        #[kani::stub(libsodium_sys::sodium_memzero, sodium::memzero)]
        #[kani::stub(libsodium_sys::sodium_memcmp, sodium::memcmp)]
        #[kani::stub(libsodium_sys::randombytes_buf, sodium::random)]
        $(#[$a])*
        pub fn $n() $b
    };
}

harness! {
    /// Buffer::alloc, Boxed::new
    fn create() {
        unsafe { REAL = false }
        let n: usize = any();
        assume(n >= 1 && n <= 1 << 40);
        let b = Buffer::<u8>::zero(n);
        let (r, p) = b.verif_state();
        check!(r == 0 && p == NONE && page(0) == NONE, "a new guarded memory is inaccessible and not borrowed");
        check!(b.len() == n, "it has the requested size");
        std::mem::forget(b);
    }
}
harness! {
    /// Buffer::alloc
    fn alloc() {
        let data: [u8; 4] = any();
        let n: usize = any();
        assume(n >= 1 && n <= 4);
        let b = Buffer::<u8>::alloc(&data[..n], n);
        let (r, p) = b.verif_state();
        check!(r == 0 && p == NONE && page(0) == NONE, "a new guarded memory is inaccessible and not borrowed");
        check!(b.len() == n, "it has the requested size");
        std::mem::forget(b);
    }
}
harness! {
    /// Buffer::borrow, Boxed::unlock, Boxed::retain, Ref::deref
    fn borrow() {
        let (b, refs, prot) = any_buffer();
        assume(prot != RW && refs < 255);
        let r = b.borrow();
        read_borrowed(&b, refs);
        check!((*r).len() == b.len(), "the borrow covers the whole memory");
        read_borrowed(&b, refs);
        std::mem::forget(r);
        std::mem::forget(b);
    }
}
harness! {
    /// Clone for Ref::clone
    fn clone_borrow() {
        let (b, refs, prot) = any_buffer();
        assume(prot != RW && refs < 254);
        let r = b.borrow();
        let c = r.clone();
        read_borrowed(&b, refs + 1);
        std::mem::forget((r, c));
        std::mem::forget(b);
    }
}
harness! {
    /// Drop for Ref::drop, Boxed::lock, Boxed::release
    fn drop_borrow() {
        let (b, refs, prot) = any_buffer();
        assume(prot != RW && refs < 255);
        let r = b.borrow();
        drop(r);
        let (r2, p2) = b.verif_state();
        check!(r2 == refs && p2 == prot && page(0) == prot, "the state from before the borrow is back");
        std::mem::forget(b);
    }
}
harness! {
    /// Drop for Ref::drop in a state with any number of other borrows
    fn drop_borrow_of_many() {
        let (b, _, prot0) = any_buffer();
        assume(prot0 == NONE);
        let r = b.borrow();
        let refs: u8 = any();
        assume(refs >= 1);
        b.verif_set_state(refs, RO);
        drop(r);
        dropped(&b, refs, RO);
        std::mem::forget(b);
    }
}
harness! {
    /// Buffer::borrow_mut, Boxed::unlock_mut, RefMut::deref_mut, Drop for RefMut::drop
    fn borrow_mut() {
        let (mut b, refs, prot) = any_buffer();
        assume(refs == 0);
        let n = b.len();
        let mut r = b.borrow_mut();
        check!(page(0) == RW, "a write borrow makes it writable");
        check!((*r).len() == n, "the borrow covers the whole memory");
        {
            let s: &mut [u8] = &mut r;
            check!(s.len() == n, "the write borrow covers the whole memory");
        }
        check!(page(0) == RW, "it stays writable");
        drop(r);
        let (r2, p2) = b.verif_state();
        check!(r2 == 0 && p2 == NONE && page(0) == NONE, "dropping the write borrow makes it inaccessible");
        let _ = prot;
        std::mem::forget(b);
    }
}
harness! {
    /// RefMut::deref_mut, Ref::deref: the bytes
    fn write_then_read() {
        let (mut b, refs, _) = any_small_buffer();
        assume(refs == 0);
        let n = b.len();
        let k: usize = any();
        assume(k < n);
        let v: u8 = any();
        let mut r = b.borrow_mut();
        r[k] = v;
        drop(r);
        let r = b.borrow();
        check!(r[k] == v, "what was written is there");
        std::mem::forget(r);
        std::mem::forget(b);
    }
}
harness! {
    /// the count that a write borrow records
    fn borrow_mut_count() {
        let (mut b, refs, _) = any_buffer();
        assume(refs == 0);
        std::mem::forget(b.borrow_mut());
        let (r, p) = b.verif_state();
        check!(r == 1 && p == RW && page(0) == RW, "exactly one write borrow");
        std::mem::forget(b);
    }
}
harness! {
    /// Zeroize for Boxed::zeroize
    fn zeroize() {
        let (mut b, refs, _) = any_small_buffer();
        assume(refs == 0);
        let p = unsafe { PTR[0] } as *const u8;
        let n = b.len();
        let k: usize = any();
        assume(k < n);
        b.zeroize();
        let (r, q) = b.verif_state();
        check!(r == 0 && q == NONE && page(0) == NONE, "a wiped memory is inaccessible");
        check!(b.len() == 0, "a wiped memory is empty");
        check!(unsafe { *p.add(k) } == 0, "the bytes are wiped");
        std::mem::forget(b);
    }
}
harness! {
    /// Drop for Buffer::drop, Drop for Boxed::drop
    fn drop_buffer() {
        let (b, refs, _) = any_buffer();
        assume(refs == 0);
        drop(b);
        check!(unsafe { !LIVE[0] }, "the memory is released");
    }
}
harness! {
    /// Clone for Buffer, Boxed::clone: the source is as before, the clone is inaccessible and equal
    fn clone_buffer() {
        let (b, refs, prot) = any_small_buffer();
        assume(prot != RW && refs < 255);
        let c = b.clone();
        let (r, p) = b.verif_state();
        check!(r == refs && p == prot && page(0) == prot, "the source is as before");
        let (r, p) = c.verif_state();
        check!(r == 0 && p == NONE && page(1) == NONE, "the clone is inaccessible and not borrowed");
        check!(c.len() == b.len(), "the clone has the same size");
        std::mem::forget((b, c));
    }
}
harness! {
    /// PartialEq for Buffer
    fn eq_buffer() {
        let (b, refs, prot) = any_small_buffer();
        assume(prot != RW && refs < 255);
        let c = Buffer::<u8>::alloc(&[1, 2], 2);
        let _ = b == c;
        let (r, p) = b.verif_state();
        check!(r == refs && p == prot && page(0) == prot, "the left side is as before");
        let (r, p) = c.verif_state();
        check!(r == 0 && p == NONE && page(1) == NONE, "the right side is as before");
        std::mem::forget((b, c));
    }
}
harness! {
    /// Buffer::random, Buffer::zero
    fn other_constructors() {
        let a = Buffer::<u8>::random(3);
        let b = Buffer::<u8>::zero(3);
        check!(a.verif_state() == (0, NONE) && b.verif_state() == (0, NONE), "new guarded memory is not borrowed");
        check!(page(0) == NONE && page(1) == NONE, "new guarded memory is inaccessible");
        std::mem::forget((a, b));
    }
}

// ---------------------------------------------------------------- misuse does not return
harness! {
    fn stop_read_while_written() {
        let (b, _, prot) = any_buffer();
        assume(prot == RW);
        let _r = b.borrow();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_too_many_borrows() {
        let (b, refs, _) = any_buffer();
        assume(refs == 255);
        let _r = b.borrow();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_write_while_borrowed() {
        let (mut b, refs, _) = any_buffer();
        assume(refs > 0);
        let _r = b.borrow_mut();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_release_without_borrow() {
        let (b, _, prot) = any_buffer();
        assume(prot == NONE);
        let r = b.borrow();
        b.verif_set_state(0, NONE);
        drop(r);
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_read_of_inaccessible() {
        let (b, _, prot) = any_buffer();
        assume(prot == NONE);
        let r = b.borrow();
        b.verif_set_state(any(), NONE);
        let _s: &[u8] = &r;
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_zeroize_while_borrowed() {
        let (mut b, refs, _) = any_buffer();
        assume(refs > 0);
        b.zeroize();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_drop_while_borrowed() {
        let (b, refs, _) = any_buffer();
        assume(refs > 0);
        drop(b);
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_borrow_without_protection() {
        let (b, refs, _) = any_buffer();
        assume(refs == 0);
        unsafe { FAIL = true }
        let _r = b.borrow();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_borrow_mut_without_protection() {
        let (mut b, refs, _) = any_buffer();
        assume(refs == 0);
        unsafe { FAIL = true }
        let _r = b.borrow_mut();
        check!(false, "the misuse was granted");
    }
}
harness! {
    fn stop_lock_without_protection() {
        let (b, refs, _) = any_buffer();
        assume(refs == 0);
        let r = b.borrow();
        unsafe { FAIL = true }
        drop(r);
        check!(false, "the misuse was granted");
    }
}
harness! {
    /// the slice of a write borrow, with another state recorded
    fn stop_write_of_read_only() {
        let (mut b, refs, _) = any_buffer();
        assume(refs == 0);
        let bp = &b as *const Buffer<u8>;
        let mut r = b.borrow_mut();
        let p: u8 = any();
        assume(p < 2);
        unsafe { (*bp).verif_set_state(1, p) };
        let _s: &mut [u8] = &mut r;
        check!(false, "the misuse was granted");
    }
}
