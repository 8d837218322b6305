// Contracts for engine/runtime/src/boxed.rs and memories/buffer.rs: the bytes of guarded memory, for any length
// (when they are accessible is decided by the Kani harnesses of C14)
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@closures on
//@rewrite "T: Bytes(?: \+ \w+)*" => "T: Bytes"
//@rewrite "slice::from_raw_parts_mut\(self\.ptr\.as_ptr\(\), (.*?)\)" => "self.ptr.vx_slice_mut($1)"
//@rewrite "slice::from_raw_parts\(self\.ptr\.as_ptr\(\), (.*?)\)" => "self.ptr.vx_slice($1)"
//@rewrite "\bassert!\(((?:[^(),\"]|\([^()]*\))*)(?:,[^()]*)?\)" => "vx_check($1)"
//@rewrite "panic!\([^()]*\)" => "vx_check(false)"
//@rewrite "\w+\.ptr != (?:core::ptr::)?NonNull::dangling\(\)" => "true"
//@rewrite "pub\(crate\) " => "pub "

// ================================================================ assumed contracts
/// a failing check stops
#[verifier::external_body]
pub fn vx_check(b: bool) ensures b, { unimplemented!() }
pub trait Bytes: Sized + Copy {}
impl Bytes for u8 {}
pub uninterp spec fn is_zero<T>(t: T) -> bool;
/// sodium_memzero and sodium_memcmp on the bytes of a slice
pub trait VxSlice<T> {
    spec fn sq(&self) -> Seq<T>;
    fn zero(&mut self) ensures vx_all0(final(self).sq()), final(self).sq().len() == old(self).sq().len();
    fn const_eq(&self, o: &Self) -> (r: bool) requires self.sq().len() == o.sq().len(), ensures r == (self.sq() == o.sq());
}
pub open spec fn vx_all0<T>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_zero(#[trigger] s[i]) }
impl<T> VxSlice<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn zero(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn const_eq(&self, o: &Self) -> bool { unimplemented!() }
}
/// memory of libsodium that the box owns
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NonNull<T> { x: PhantomData<T> }
impl<T> NonNull<T> {
    pub uninterp spec fn mem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub unsafe fn vx_slice<'a>(&'a self, n: usize) -> (r: &'a [T])
        requires n <= self.mem().len(),
        ensures r@ == self.mem().take(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn vx_slice_mut<'a>(&'a mut self, n: usize) -> (r: &'a mut [T])
        requires n <= old(self).mem().len(),
        ensures r@ == old(self).mem().take(n as int), final(self).mem() == final(r)@ + old(self).mem().skip(n as int), final(r)@.len() == n,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cell<T> { x: PhantomData<T> }
// protection and borrow count: decided by C14's Kani harnesses; here they may be anything
impl<T> Cell<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> T { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, t: T) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Prot { NoAccess, ReadOnly, ReadWrite }
#[verifier::external_body]
pub fn mprotect<T>(p: &NonNull<T>, prot: Prot) { unimplemented!() }

// ================================================================ boxed.rs
//@file engine/runtime/src/boxed.rs
//@item type RefCount
//@item struct Boxed
impl<T: Bytes> Boxed<T> {
    pub closed spec fn wf(&self) -> bool { self.len <= self.ptr.mem().len() }
    pub closed spec fn view(&self) -> Seq<T> { self.ptr.mem().take(self.len as int) }
    // sodium_allocarray
    #[verifier::external_body]
    pub fn new_unlocked(len: usize) -> (r: Self) ensures r.wf(), r@.len() == len, { unimplemented!() }
//@fn Boxed::new
@ret r
@rx "unsafe \{ lock_memory\(boxed\.ptr\.as_mut\(\), len\) \};" => ""
@sig
    requires forall|b: &mut Self| b.wf() && b@.len() == len ==> #[trigger] init.requires((b,)),
    ensures exists|b: &mut Self| b.wf() && b@.len() == len && #[trigger] init.ensures((b,), ()) && *final(b) == r,
//@end
//@fn Boxed::len
@ret r
@sig
    ensures self.wf() ==> r == self@.len(),
//@end
//@fn Boxed::is_empty
@ret r
@sig
    ensures self.wf() ==> r == (self@.len() == 0),
//@end
//@fn Boxed::unlock
@ret r
@sig
    ensures *r == *self,
//@end
//@fn Boxed::unlock_mut
@ret r
@sig
    ensures *r == *old(self), *final(r) == *final(self),
//@end
//@fn Boxed::lock
@sig
//@end
//@fn Boxed::retain
@rx "self\.ptr\.as_ptr\(\)" => "&self.ptr"
@sig
//@end
//@fn Boxed::release
@rx "self\.ptr\.as_ptr\(\)" => "&self.ptr"
@rx "(self\.refs\.get\(\))\.wrapping_sub\(1\)" => "$1.wrapping_sub(1)"
@sig
//@end
//@fn Boxed::is_locked
@sig
//@end
//@fn Boxed::as_slice
@ret r
@sig
    requires self.wf(),
    ensures r@ == self@,
//@end
//@fn Boxed::as_mut_slice
@ret r
@sig
    requires old(self).wf(),
    ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).wf(),
//@end
//@fn Boxed::try_new
@ret r
@sig
    requires forall|b: &mut Self| b.wf() && b@.len() == len ==> #[trigger] init.requires((b,)),
    ensures r matches Ok(x) ==> exists|b: &mut Self, o: R| b.wf() && b@.len() == len && #[trigger] init.ensures((b,), Ok(o)) && *final(b) == x,
//@end
//@fn Boxed::zero
@ret r
@closure 0
requires old(b).wf(), ensures final(b)@.len() == old(b)@.len(), final(b).wf(), vx_all0(final(b)@)
@rx "\|b\|" => "|b: &mut Boxed<T>|"
@sig
    ensures r.wf(), r@.len() == len, vx_all0(r@),
//@end
//@fn Zeroize for Boxed::zeroize
@sig
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@.len() == 0,
//@end
//@fn PartialEq for Boxed::eq
@ret r
@start
proof { assert(self@.len() == self.len && other@.len() == other.len); }
@sig
    requires self.wf(), other.wf(),
    ensures r == (self@ == other@),
//@end
//@fn Clone for Boxed::clone
@ret r
@closure 0
requires old(b).wf(), old(b)@.len() == self@.len(), ensures final(b)@ =~= self@, final(b).wf()
@rx "\|b\|" => "|b: &mut Boxed<T>|"
@sig
    requires self.wf(),
    ensures r.wf(), r@ == self@,
//@end
}
// ================================================================ buffer.rs
//@file engine/runtime/src/memories/buffer.rs
//@item struct Buffer
//@item struct Ref
//@item struct RefMut
impl<T: Bytes> Buffer<T> {
    pub closed spec fn wf(&self) -> bool { self.boxed.wf() }
    pub closed spec fn view(&self) -> Seq<T> { self.boxed@ }
//@fn Buffer::alloc
@ret r
@closure 0
requires old(b).wf(), old(b)@.len() == payload@.len(), ensures final(b)@ =~= payload@, final(b).wf()
@rx "\|b\|" => "|b: &mut Boxed<T>|"
@sig
    requires payload@.len() == size,
    ensures r.wf(), r@ == payload@,
//@end
//@fn Buffer::len
@ret r
@sig
    requires self.wf(),
    ensures r == self@.len(),
//@end
//@fn Buffer::is_empty
@ret r
@sig
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@end
//@fn Buffer::borrow
@ret r
@sig
    requires self.wf(),
    ensures r.wf(), r@ == self@,
//@end
//@fn Buffer::borrow_mut
@ret r
@sig
    requires old(self).wf(),
    ensures r.wf(), r@ == old(self)@, final(self)@ == final(r.boxed)@, final(self).wf() == final(r.boxed).wf(),
//@end
//@fn Zeroize for Buffer::zeroize
@sig
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@.len() == 0,
//@end
    /// derived
    pub fn clone(&self) -> (r: Self)
        requires self.wf(),
        ensures r.wf(), r@ == self@,
    { Buffer { boxed: self.boxed.clone() } }
//@fn PartialEq for Buffer::eq
@ret r
@rx "rhs: &Self" => "rhs: &Self"
@sig
    requires self.wf(), rhs.wf(),
    ensures r == (self@ == rhs@),
//@end
}
impl<'a, T: Bytes> Ref<'a, T> {
    pub closed spec fn wf(&self) -> bool { self.boxed.wf() }
    pub closed spec fn view(&self) -> Seq<T> { self.boxed@ }
//@fn Ref::new
@ret r
@sig
    ensures r.boxed == boxed,
//@end
//@fn Clone for Ref::clone
@ret r
@sig
    ensures r.boxed == self.boxed,
//@end
//@fn Deref for Ref::deref
@ret r
@rx "&Self::Target" => "&[T]"
@sig
    requires self.wf(),
    ensures r@ == self@,
//@end
}
impl<'a, T: Bytes> RefMut<'a, T> {
    pub closed spec fn wf(&self) -> bool { self.boxed.wf() }
    pub closed spec fn view(&self) -> Seq<T> { self.boxed@ }
//@fn RefMut::new
@ret r
@sig
    ensures *r.boxed == *old(boxed), *final(r.boxed) == *final(boxed),
//@end
//@fn Deref for RefMut::deref
@ret r
@rx "&Self::Target" => "&[T]"
@sig
    requires self.wf(),
    ensures r@ == self@,
//@end
//@fn DerefMut for RefMut::deref_mut
@ret r
@rx "&mut Self::Target" => "&mut [T]"
@sig
    requires old(self).wf(),
    ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).wf(),
//@end
}
} // verus!
fn main() {}
