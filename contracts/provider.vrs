// Contracts for client/src/internal/provider.rs: the real cipher box behind the vault, against the contract of
// the trait BoxProvider that everything else relies on
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@closures on
//@include rewrites.inc
//@include vaulttypes.inc
//@include crypto_box.inc
//@include aead.inc
//@rewrite "r#box" => "vx_box"
//@rewrite "key\.deref\(\)" => "key"

// ---------------------------------------------------------------- dependencies: assumed contracts
pub struct XChaCha20Poly1305 {}
impl XChaCha20Poly1305 {
    pub const NAME: &'static str = "XCHACHA20-POLY1305";
    pub const NONCE_LENGTH: usize = 24;
    pub const TAG_LENGTH: usize = 16;
    #[verifier::external_body]
    pub fn try_encrypt(key: &[u8], nonce: &[u8], ad: &[u8], plain: &[u8], cipher: &mut [u8], tag: &mut [u8]) -> (r: Result<usize, crypto::Error>)
        requires plain@.len() == old(cipher)@.len(),
        ensures
            r is Ok <==> key@.len() == 32 && nonce@.len() == 24 && old(tag)@.len() == 16,
            r is Ok ==> (final(cipher)@, final(tag)@) == aead_seal(1, key@, nonce@, ad@, plain@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_decrypt(key: &[u8], nonce: &[u8], ad: &[u8], plain: &mut [u8], cipher: &[u8], tag: &[u8]) -> (r: Result<usize, crypto::Error>)
        requires cipher@.len() == old(plain)@.len(),
        ensures
            key@.len() != 32 || nonce@.len() != 24 || tag@.len() != 16 ==> r is Err,
            key@.len() == 32 && nonce@.len() == 24 && tag@.len() == 16 ==> match r {
                Ok(_) => aead_open(1, key@, nonce@, ad@, cipher@, tag@) == Some(final(plain)@),
                Err(_) => aead_open(1, key@, nonce@, ad@, cipher@, tag@) is None,
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn fill(bs: &mut [u8]) -> (r: Result<(), crypto::Error>) ensures final(bs)@.len() == old(bs)@.len(), r is Err ==> fault(), r is Ok ==> drawn(final(bs)@), { unimplemented!() }
pub open spec fn vx_flat(s: Seq<Vec<u8>>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { s[0]@ + vx_flat(s.drop_first()) }
}
pub trait VxConcat: Sized { spec fn vx_parts(&self) -> Seq<Vec<u8>>; fn concat(self) -> (r: Vec<u8>) ensures r@ == vx_flat(self.vx_parts()); }
impl<const N: usize> VxConcat for [Vec<u8>; N] {
    open spec fn vx_parts(&self) -> Seq<Vec<u8>> { self@ }
    #[verifier::external_body]
    fn concat(self) -> (r: Vec<u8>) { unimplemented!() }
}
broadcast proof fn lemma_flat3(s: Seq<Vec<u8>>)
    requires s.len() == 3,
    ensures #[trigger] vx_flat(s) == s[0]@ + s[1]@ + s[2]@,
{
    reveal_with_fuel(vx_flat, 4);
    assert(s.drop_first().drop_first().drop_first().len() == 0);
    assert(vx_flat(s) =~= s[0]@ + s[1]@ + s[2]@);
}

// ================================================================ provider.rs
//@file client/src/internal/provider.rs
//@item struct Provider
/// what a box of this provider contains: tag, nonce, ciphertext
pub open spec fn box_of(k: Seq<u8>, ad: Seq<u8>, b: Seq<u8>) -> Option<Seq<u8>> {
    if k.len() == 32 && b.len() >= 40 { aead_open(1, k, b.subrange(16, 40), ad, b.subrange(40, b.len() as int), b.subrange(0, 16)) } else { None }
}
/// definition of the trait's abstract cipher for this provider
pub broadcast axiom fn def_unsealed(k: Seq<u8>, ad: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] unsealed::<Provider>(k, ad, b) == box_of(k, ad, b);
pub axiom fn def_lens() ensures key_len::<Provider>() == 32, overhead::<Provider>() == 40;

/// laying out what sealing yields as tag, nonce, ciphertext makes a box that opens
broadcast proof fn lemma_sealed(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>, b: Seq<u8>)
    requires
        k.len() == 32, n.len() == 24,
        b =~= aead_seal(1, k, n, ad, p).1 + n + aead_seal(1, k, n, ad, p).0,
    ensures
        #![trigger unsealed::<Provider>(k, ad, b), aead_seal(1, k, n, ad, p)]
        unsealed::<Provider>(k, ad, b) == Some(p),
{
    broadcast use def_unsealed;
    broadcast use axiom_aead;
    let s = aead_seal(1, k, n, ad, p);
    assert(b.subrange(0, 16) =~= s.1);
    assert(b.subrange(16, 40) =~= n);
    assert(b.subrange(40, b.len() as int) =~= s.0);
}
/// opening with the parts of a box
broadcast proof fn lemma_opened(k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>, t: Seq<u8>, b: Seq<u8>)
    requires
        k.len() == 32, b.len() >= 40,
        t =~= b.subrange(0, 16), n =~= b.subrange(16, 40), c =~= b.subrange(40, b.len() as int),
    ensures
        #![trigger unsealed::<Provider>(k, ad, b), aead_open(1, k, n, ad, c, t)]
        unsealed::<Provider>(k, ad, b) == aead_open(1, k, n, ad, c, t),
{
    broadcast use def_unsealed;
}

impl Provider {
//@file client/src/internal/provider.rs
//@item const Provider::NONCE_LEN
//@item const Provider::TAG_LEN
}
impl BoxProvider for Provider {
    type Error = crypto::Error;
//@fn BoxProvider for Provider::box_key_len
@start
proof { def_lens(); }
//@end
//@fn BoxProvider for Provider::box_overhead
@start
proof { def_lens(); }
//@end
//@fn BoxProvider for Provider::box_seal
@start
proof { def_lens(); }
broadcast use def_unsealed; broadcast use axiom_aead; broadcast use lemma_sealed; broadcast use lemma_flat3;
//@end
//@fn BoxProvider for Provider::box_open
@start
broadcast use def_unsealed; broadcast use lemma_opened; proof { def_lens(); }
//@end
//@fn BoxProvider for Provider::random_buf
//@end
}
/// opening returns data for nothing but what sealing that data yields
proof fn lemma_only_sealed(k: Seq<u8>, ad: Seq<u8>, b: Seq<u8>)
    ensures unsealed::<Provider>(k, ad, b) matches Some(p) ==> exists|n: Seq<u8>| b =~= #[trigger] aead_seal(1, k, n, ad, p).1 + n + aead_seal(1, k, n, ad, p).0,
{
    broadcast use def_unsealed;
    broadcast use axiom_aead_open;
    if let Some(p) = unsealed::<Provider>(k, ad, b) {
        let n = b.subrange(16, 40);
        assert(b =~= aead_seal(1, k, n, ad, p).1 + n + aead_seal(1, k, n, ad, p).0);
    }
}
} // verus!
fn main() {}
