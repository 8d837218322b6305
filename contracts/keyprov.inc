// ================================================================ security/keyprovider.rs
/// the provider takes keys of 32 bytes (C16)
pub broadcast axiom fn axiom_key_len() ensures #[trigger] key_len::<Provider>() == 32;
pub trait Zeroize: Sized { fn zeroize(&mut self); }
impl<const N: usize> Zeroize for [u8; N] { #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() } }
/// crypto::hashes::Digest: a hash function, and what it was fed so far
pub trait Digest: Sized {
    spec fn fed(&self) -> Seq<u8>;
    spec fn hash(d: Seq<u8>) -> Seq<u8>;
    fn update(&mut self, d: &[u8]) ensures final(self).fed() == old(self).fed() + d@;
    fn finalize(self) -> (r: Vec<u8>) ensures r@ == Self::hash(self.fed());
}
pub mod blake2b {
    use super::*;
    pub uninterp spec fn blake2b256(d: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub struct Blake2b256 { x: u8 }
    impl Blake2b256 { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty(), { unimplemented!() } }
    impl Digest for Blake2b256 {
        uninterp spec fn fed(&self) -> Seq<u8>;
        open spec fn hash(d: Seq<u8>) -> Seq<u8> { blake2b256(d) }
        #[verifier::external_body]
        fn update(&mut self, d: &[u8]) { unimplemented!() }
        #[verifier::external_body]
        fn finalize(self) -> (r: Vec<u8>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_len(d: Seq<u8>) ensures (#[trigger] blake2b256(d)).len() == 32;
}
pub mod argon2 {
    use super::*;
    pub struct Config { x: u8 }
    pub struct Error { x: u8 }
    /// with the default parameters; None if it refuses the input (a short salt)
    pub uninterp spec fn argon(p: Seq<u8>, s: Seq<u8>) -> Option<Seq<u8>>;
    impl Config { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
    #[verifier::external_body]
    pub fn hash_raw(p: &[u8], s: &[u8], c: &Config) -> (r: Result<Vec<u8>, Error>)
        ensures match r { Ok(v) => argon(p@, s@) == Some(v@) && v@.len() == 32, Err(_) => argon(p@, s@) is None },
    { unimplemented!() }
}
/// what a truncated passphrase yields
pub open spec fn truncated(p: Seq<u8>) -> Seq<u8> { Seq::new(32, |i: int| if i < p.len() { p[i] } else { 0 }) }
pub trait VxToVec { spec fn vx_b(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vx_b(); }
impl<const N: usize> VxToVec for [u8; N] { open spec fn vx_b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxToVec for Vec<u8> { open spec fn vx_b(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
use eng::{MemoryError, NCKey};
/// `iter().enumerate().take(n)`
#[verifier::external_body]
pub fn vx_enum_take<'a>(s: &'a [u8], n: usize) -> (r: Vec<(usize, &'a u8)>)
    ensures r@.len() == (if s@.len() < n { s@.len() } else { n as nat }), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).0 == j && *r@[j].1 == s@[j],
{ unimplemented!() }
//@rewrites clear
//@closures on
//@rewrite "\.map_err\(\|e\| ClientError::Inner\(e\.to_string\(\)\)\)" => ".vx_inner()"
//@rewrite "P: AsRef<\[u8\]>" => "P: VxAsRef"
//@rewrite "\.to_vec\(\)" => ".vx_to_vec()"
//@rewrite "engine::vault::NCKey" => "NCKey"
//@rewrite "crypto::hashes::blake2b" => "blake2b"
//@rewrite "MemoryError::NCSizeNotAllowed" => "MemoryError {}"
//@rewrite "(\w+)\s*\.as_ref\(\)\s*\.iter\(\)\s*\.enumerate\(\)\s*\.take\(([^()]+)\)" => "vx_enum_take($1.as_ref(), $2)"
//@file client/src/security/keyprovider.rs
//@item const KEY_SIZE_HASHED
//@item struct KeyProvider
impl KeyProvider {
    /// the key it yields
    pub open spec fn key(&self) -> Seq<u8> { self.inner@ }
    pub open spec fn wf(&self) -> bool { self.inner@.len() == 32 }
//@fn TryFrom<Vec<u8>> for KeyProvider::try_from
@ret r
@start
    broadcast use axiom_key_len;
@sig
    ensures match r { Ok(k) => k.wf() && k.key() == data@, Err(_) => data@.len() != 32 },
//@end
//@fn KeyProvider::with_passphrase_truncated
@ret r
@start
    let ghost vx_p = passphrase.bytes();
    proof { assert(forall|k: Seq<u8>| k.len() == 32 && (forall|j: int| 0 <= j < 32 ==> #[trigger] k[j] == (if j < vx_p.len() { vx_p[j] } else { 0 })) ==> k =~= truncated(vx_p)); }
@loopiter 0 vx_it
@loop 0 for
    invariant key@.len() == 32, vx_it.seq().len() <= 32, vx_it.seq().len() <= vx_p.len(), vx_it.seq().len() == vx_p.len() || vx_it.seq().len() == 32, forall|j: int| 0 <= j < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[j]).0 == j && *vx_it.seq()[j].1 == vx_p[j],
        forall|j: int| 0 <= j < 32 ==> #[trigger] key@[j] == (if j < vx_it.index@ { vx_p[j] } else { 0 }),
@sig
    ensures match r { Ok(k) => k.wf() && k.key() == truncated(passphrase.bytes()), Err(_) => false },
//@end
//@fn KeyProvider::with_passphrase_hashed
@ret r
@sig
    ensures match r {
        Ok(k) => k.wf() && k.key() == D::hash(digest.fed() + passphrase.bytes()),
        Err(_) => D::hash(digest.fed() + passphrase.bytes()).len() != 32,
    },
//@end
//@fn KeyProvider::with_passphrase_hashed_blake2b
@ret r
@start
    broadcast use blake2b::axiom_len;
    assert(Seq::<u8>::empty() + passphrase.bytes() =~= passphrase.bytes());
@sig
    ensures match r { Ok(k) => k.wf() && k.key() == blake2b::blake2b256(passphrase.bytes()), Err(_) => false },
//@end
//@fn KeyProvider::with_passphrase_hashed_argon2
@ret r
@sig
    ensures match r {
        Ok(k) => k.wf() && argon2::argon(passphrase.bytes(), salt.bytes()) == Some(k.key()),
        Err(_) => argon2::argon(passphrase.bytes(), salt.bytes()) is None,
    },
//@end
//@fn KeyProvider::try_unlock
@ret r
@sig
    ensures match r { Ok(b) => b@ == self.key(), Err(_) => fault() },
//@end
}
