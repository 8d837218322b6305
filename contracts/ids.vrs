// Contracts for engine/src/vault/types/utils.rs and the byte form of headers in types/transactions.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::cmp::Ordering;
use core::ops::{Add, AddAssign};
use core::convert::{TryFrom, TryInto};
verus! {
global size_of usize == 8;
//@closures on
//@rewrite "AsRef<\[u8\]>" => "VxAsRef"
//@rewrite "AsMut<\[u8\]>" => "VxAsMut"

// ---------------------------------------------------------------- std
/// big-endian bytes of a 64-bit integer
pub open spec fn be8(n: u64) -> Seq<u8> {
    seq![(n >> 56) as u8, (n >> 48) as u8, (n >> 40) as u8, (n >> 32) as u8, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]
}
//@rewrite "u64::from_be_bytes\(" => "vx_from_be_bytes("
//@rewrite "\bnum\.to_be_bytes\(\)" => "vx_to_be_bytes(num)"
#[verifier::external_body]
pub fn vx_to_be_bytes(n: u64) -> (r: [u8; 8]) ensures r@ =~= be8(n) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures be8(r) =~= b@ { unimplemented!() }
//@rewrite "\.to_vec\(\)" => ".vx_to_vec()"
pub trait VxToVec { spec fn vx_bytes(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vx_bytes(); }
impl<const N: usize> VxToVec for [u8; N] { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub proof fn lemma_be8(a: u64, b: u64)
    requires be8(a) =~= be8(b),
    ensures a == b,
{
    assert(be8(a)[0] == be8(b)[0] && be8(a)[1] == be8(b)[1] && be8(a)[2] == be8(b)[2] && be8(a)[3] == be8(b)[3]);
    assert(be8(a)[4] == be8(b)[4] && be8(a)[5] == be8(b)[5] && be8(a)[6] == be8(b)[6] && be8(a)[7] == be8(b)[7]);
    assert(a == b) by (bit_vector) requires
        (a >> 56) as u8 == (b >> 56) as u8, (a >> 48) as u8 == (b >> 48) as u8, (a >> 40) as u8 == (b >> 40) as u8, (a >> 32) as u8 == (b >> 32) as u8,
        (a >> 24) as u8 == (b >> 24) as u8, (a >> 16) as u8 == (b >> 16) as u8, (a >> 8) as u8 == (b >> 8) as u8, a as u8 == b as u8;
}
pub trait VxAsRef {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

// ================================================================ types/utils.rs
//@file engine/src/vault/types/utils.rs
//@item struct ChainId #[derive(Clone, Copy)]
//@item struct RecordId #[derive(Clone, Copy)]
//@item struct Id #[derive(Clone, Copy)]
//@item struct VaultId #[derive(Clone, Copy)]
//@item struct ClientId #[derive(Clone, Copy)]
//@item struct BlobId #[derive(Clone, Copy)]
//@item struct RecordHint #[derive(Clone, Copy)]
//@item struct Val #[derive(Clone, Copy)]
//@item struct InvalidLength

pub open spec fn id_from(b: Seq<u8>, r: Result<Seq<u8>, InvalidLength>) -> bool {
    match r { Ok(v) => b.len() == 24 && v == b, Err(e) => b.len() != 24 && e.expected == 24 && e.found == b.len() }
}

impl RecordHint {
//@fn RecordHint::new
@ret r
@sig
    ensures match r {
        Some(h) => hint.bytes().len() <= 24 && h.0@ =~= hint.bytes() + zeros(24 - hint.bytes().len()),
        None => hint.bytes().len() > 24,
    },
//@end
}
impl VxAsRef for RecordHint {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for RecordHint::as_ref
//@end
}
impl Val {
//@fn Val::u64
@ret r
@sig
    ensures be8(r) =~= self.0@,
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<[u8; 24]> for RecordHint {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: [u8; 24]) -> Self { RecordHint(e) }
}
impl From<[u8; 24]> for RecordHint {
//@fn From<[u8; 24]> for RecordHint::from
@ret r
@sig
    ensures r == RecordHint(bs),
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<u64> for Val {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: u64) -> Self { arbitrary() }
}
impl From<u64> for Val {
//@fn From<u64> for Val::from
@ret r
@sig
    ensures be8(num) =~= r.0@,
//@end
}
/// the integer a counter denotes
pub open spec fn val(v: Val) -> u64 { choose|n: u64| be8(n) =~= v.0@ }
pub proof fn lemma_val(v: Val, n: u64) requires be8(n) =~= v.0@, ensures val(v) == n, { lemma_be8(n, val(v)); }
/// converting an integer to a counter and back is the identity (Val::from, then Val::u64)
pub proof fn lemma_val_round_trip(n: u64, v: Val, m: u64) requires be8(n) =~= v.0@, be8(m) =~= v.0@, ensures m == n, { lemma_be8(n, m); }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Val {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for Val { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for Val {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Val {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(if val(*self) < val(*o) { Ordering::Less } else if val(*self) == val(*o) { Ordering::Equal } else { Ordering::Greater }) }
}
impl PartialOrd for Val {
//@fn PartialOrd for Val::partial_cmp
@start
    proof { lemma_vals(); }
//@end
}
impl vstd::std_specs::cmp::OrdSpecImpl for Val {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { if val(*self) < val(*o) { Ordering::Less } else if val(*self) == val(*o) { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for Val {
//@fn Ord for Val::cmp
@start
    proof { lemma_vals(); }
//@end
}
pub proof fn lemma_vals() ensures forall|v: Val, n: u64| (#[trigger] be8(n)) =~= (#[trigger] v.0@) ==> val(v) == n,
{
    assert forall|v: Val, n: u64| (#[trigger] be8(n)) =~= (#[trigger] v.0@) implies val(v) == n by { lemma_val(v, n); }
}
// an overflowing addition is an arithmetic panic in every profile of the workspace (overflow-checks = true)
impl vstd::std_specs::ops::AddSpecImpl<u64> for Val {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: u64) -> bool { true }
    open spec fn add_spec(self, rhs: u64) -> Val { self }
}
impl Add<u64> for Val {
    type Output = Self;
//@fn Add<u64> for Val::add
@ret r
@rx "self\.u64\(\) \+ rhs" => "vx_add(self.u64(), rhs)"
@sig
    ensures val(self) + rhs <= u64::MAX && val(r) == val(self) + rhs,
@start
    proof { lemma_vals(); }
//@end
}
/// addition with overflow checks: does not return when the sum does not fit
#[verifier::external_body]
pub fn vx_add(a: u64, b: u64) -> (r: u64) ensures r == a + b { unimplemented!() }
impl vstd::std_specs::ops::AddAssignSpecImpl<u64> for Val {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: u64) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: u64) -> &Val { self }
}
impl AddAssign<u64> for Val {
//@fn AddAssign<u64> for Val::add_assign
@sig
    ensures val(*old(self)) + rhs <= u64::MAX && val(*final(self)) == val(*old(self)) + rhs,
//@end
}

impl VxAsRef for ChainId {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for ChainId::as_ref
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<RecordId> for ChainId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RecordId) -> Self { e.0 }
}
impl From<RecordId> for ChainId {
//@fn From<RecordId> for ChainId::from
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<ChainId> for RecordId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ChainId) -> Self { RecordId(e) }
}
impl From<ChainId> for RecordId {
//@fn From<ChainId> for RecordId::from
//@end
}
impl VxAsRef for BlobId {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for BlobId::as_ref
//@end
}
impl VxAsRef for Id {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for Id::as_ref
//@end
}
impl VxAsRef for VaultId {
    open spec fn bytes(&self) -> Seq<u8> { self.0.0@ }
//@fn AsRef<[u8]> for VaultId::as_ref
//@end
}
impl VxAsRef for ClientId {
    open spec fn bytes(&self) -> Seq<u8> { self.0.0@ }
//@fn AsRef<[u8]> for ClientId::as_ref
//@end
}
pub trait VxInto { spec fn gives(&self) -> Seq<u8>; fn into(self) -> (r: Vec<u8>) ensures r@ == self.gives(); }
//@rewrite "impl Into<Vec<u8>>" => "impl VxInto"
impl VxInto for VaultId {
    open spec fn gives(&self) -> Seq<u8> { self.0.0@ }
//@fn Into<Vec<u8>> for VaultId::into
//@end
}
impl VxInto for ClientId {
    open spec fn gives(&self) -> Seq<u8> { self.0.0@ }
//@fn Into<Vec<u8>> for ClientId::into
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<BlobId> for Vec<u8> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: BlobId) -> Self { arbitrary() }
}
impl From<BlobId> for Vec<u8> {
//@fn From<BlobId> for Vec<u8>::from
@ret r
@sig
    ensures r@ == id.0@,
//@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a BlobId> for Vec<u8> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: &'a BlobId) -> Self { arbitrary() }
}
impl<'a> From<&'a BlobId> for Vec<u8> {
//@fn From<&BlobId> for Vec<u8>::from
@ret r
@sig
    ensures r@ == id.0@,
//@end
}

// ---------------------------------------------------------------- loading
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for ChainId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for ChainId {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for ChainId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for ChainId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl TryFrom<Vec<u8>> for ChainId {
    type Error = InvalidLength;
//@fn TryFrom<Vec<u8>> for ChainId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for BlobId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for BlobId {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for BlobId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for Id {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for Id {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for Id::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for Id {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl TryFrom<Vec<u8>> for Id {
    type Error = InvalidLength;
//@fn TryFrom<Vec<u8>> for Id::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for RecordId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl TryFrom<Vec<u8>> for RecordId {
    type Error = InvalidLength;
//@fn TryFrom<Vec<u8>> for RecordId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for RecordId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for RecordId {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for RecordId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for ClientId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl TryFrom<Vec<u8>> for ClientId {
    type Error = InvalidLength;
//@fn TryFrom<Vec<u8>> for ClientId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for ClientId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for ClientId {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for ClientId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for VaultId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl TryFrom<Vec<u8>> for VaultId {
    type Error = InvalidLength;
//@fn TryFrom<Vec<u8>> for VaultId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for VaultId {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: &'a [u8]) -> Result<Self, InvalidLength> { Err(InvalidLength { expected: 24, found: 24 }) }
}
impl<'a> TryFrom<&'a [u8]> for VaultId {
    type Error = InvalidLength;
//@fn TryFrom<&[u8]> for VaultId::try_from
@ret r
@sig
    ensures match r { Ok(v) => bs@.len() == 24 && v.0.0@ == bs@, Err(e) => bs@.len() != 24 && e.expected == 24 && e.found == bs@.len() },
//@end
}
impl ChainId {
//@fn ChainId::load
@ret r
@sig
    ensures match r { Ok(v) => data@.len() == 24 && v.0@ == data@, Err(e) => data@.len() != 24 && e.expected == 24 && e.found == data@.len() },
//@end
}
impl Id {
//@fn Id::load
@ret r
@sig
    ensures match r { Ok(v) => data@.len() == 24 && v.0@ == data@, Err(e) => data@.len() != 24 && e.expected == 24 && e.found == data@.len() },
//@end
}
impl RecordId {
//@fn RecordId::load
@ret r
@sig
    ensures match r { Ok(v) => data@.len() == 24 && v.0.0@ == data@, Err(e) => data@.len() != 24 && e.expected == 24 && e.found == data@.len() },
//@end
}
impl ClientId {
//@fn ClientId::load
@ret r
@sig
    ensures match r { Ok(v) => data@.len() == 24 && v.0.0@ == data@, Err(e) => data@.len() != 24 && e.expected == 24 && e.found == data@.len() },
//@end
}
impl VaultId {
//@fn VaultId::load
@ret r
@sig
    ensures match r { Ok(v) => data@.len() == 24 && v.0.0@ == data@, Err(e) => data@.len() != 24 && e.expected == 24 && e.found == data@.len() },
//@end
}

// ================================================================ types/transactions.rs: the byte form of a header
//@file engine/src/vault/types/transactions.rs
//@item enum TransactionType #[derive(Clone, Copy)]
//@item struct Transaction
//@item const TRANSACTION_MAX_BYTES
impl TransactionType {
//@fn TransactionType::val
@ret r
@sig
    ensures be8(if *self is Data { 1 } else { 2 }) =~= r.0@,
//@end
}
impl vstd::std_specs::convert::TryFromSpecImpl<Vec<u8>> for Transaction {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(b: Vec<u8>) -> Result<Self, ()> { Err(()) }
}
impl TryFrom<Vec<u8>> for Transaction {
    type Error = ();
//@fn TryFrom<Vec<u8>> for Transaction::try_from
@ret r
@sig
    ensures match r { Ok(t) => vec@.len() == 112 && t.0@ == vec@, Err(_) => vec@.len() != 112 },
//@end
}
impl VxDefault for Transaction {
    open spec fn vx_d(&self) -> bool { self.0@ =~= zeros(112) }
//@fn Default for Transaction::default
@ret r
//@end
}
pub trait VxDefault: Sized { spec fn vx_d(&self) -> bool; fn default() -> (r: Self) ensures r.vx_d(); }
impl VxAsRef for Transaction {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for Transaction::as_ref
//@end
}
} // verus!
fn main() {}
