// ================================================================ types/utils.rs
//@file engine/src/vault/types/utils.rs
//@item struct ChainId #[derive(Clone, Copy)]
//@item struct RecordId #[derive(Clone, Copy)]
//@item struct Id #[derive(Clone, Copy)]
//@item struct VaultId #[derive(Clone, Copy)]
//@item struct ClientId #[derive(Clone, Copy)]
//@item struct BlobId #[derive(Clone, Copy)]
//@item struct RecordHint #[derive(Clone, Copy)]
//@item struct Val #[derive(Clone, Copy)]

// derived equality of byte arrays
pub uninterp spec fn val_of(n: u64) -> Val;
impl PartialEq for ChainId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ChainId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for BlobId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BlobId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for RecordId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for RecordId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for VaultId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for VaultId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl Val {
    // contract decided by C06 on the real code
    #[verifier::external_body]
    pub fn u64(self) -> (r: u64) ensures self == val_of(r), { unimplemented!() }
}
/// big-endian conversion is injective (C06)
#[verifier::external_body]
pub broadcast proof fn axiom_val(a: u64, b: u64) requires #[trigger] val_of(a) == #[trigger] val_of(b), ensures a == b, {}
impl From<ChainId> for RecordId {
//@fn From<ChainId> for RecordId::from
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<ChainId> for RecordId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ChainId) -> Self { RecordId(e) }
}
impl From<RecordId> for ChainId {
//@fn From<RecordId> for ChainId::from
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<RecordId> for ChainId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RecordId) -> Self { e.0 }
}

pub trait VxAsRef {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
impl VxAsRef for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl<'a> VxAsRef for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
impl VxAsRef for ChainId {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for ChainId::as_ref
//@end
}
impl VxAsRef for BlobId {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for BlobId::as_ref
//@end
}

// ================================================================ guarded memory, as C13/C14 decide it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Buffer<T> { x: core::marker::PhantomData<T> }
impl<T> Buffer<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    /// panics (does not return) when the sizes differ
    #[verifier::external_body]
    pub fn alloc(payload: &[T], size: usize) -> (r: Self) ensures r@ == payload@, size == payload@.len(), { unimplemented!() }
    /// derefs to the bytes
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &[T]) ensures r@ == self@, { unimplemented!() }
}
impl<T> Clone for Buffer<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() } }
impl<T> PartialEq for Buffer<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for Buffer<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
/// an error text
#[verifier::external_body]
pub fn vx_msg() -> (r: String) { unimplemented!() }
