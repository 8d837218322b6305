// ================================================================ iota-crypto, hkdf: assumed contracts
// Each primitive is a mathematical function of its inputs; that it is the standard's function is the dependency's matter.
/// the client refers to the crate's bytes-or-text arguments by reference; a text is read as its bytes
#[verifier::external_body]
pub struct VxString { x: u8 }
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
impl VxString {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn zeroize(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(b: Vec<u8>) -> (r: Result<VxString, FromUtf8Error>) ensures r is Ok <==> utf8(b@), r matches Ok(s) ==> s@ == b@, { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_empty() -> (r: VxString) ensures r@ =~= Seq::<u8>::empty(), { unimplemented!() }
}
pub struct FromUtf8Error { x: u8 }
/// texts are UTF-8
pub broadcast axiom fn axiom_utf8(s: VxString) ensures utf8(#[trigger] s@);
impl Clone for VxString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
pub broadcast proof fn lemma_str_cloned(a: VxString, b: VxString) ensures #[trigger] cloned(a, b) ==> a == b, {}
/// `AsRef`, for the types that occur
pub trait VxRef<T: ?Sized> { spec fn vx_same_as(&self, r: &T) -> bool; fn vx_ref(&self) -> (r: &T) ensures self.vx_same_as(r); }
impl VxRef<[u8]> for Vec<u8> { open spec fn vx_same_as(&self, r: &[u8]) -> bool { r@ == self@ } fn vx_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl VxRef<[u8]> for [u8] { open spec fn vx_same_as(&self, r: &[u8]) -> bool { r@ == self@ } fn vx_ref(&self) -> (r: &[u8]) { self } }
impl VxRef<VxString> for VxString { open spec fn vx_same_as(&self, r: &VxString) -> bool { r == self } fn vx_ref(&self) -> (r: &VxString) { self } }
/// derived `clone` of vectors of bytes and `to_vec` on bytes copy
pub broadcast proof fn lemma_u8_cloned(a: u8, b: u8) ensures #[trigger] cloned(a, b) ==> a == b, {}

#[verifier::external_body]
pub fn fill(bs: &mut [u8]) -> (r: Result<(), crypto::Error>)
    ensures final(bs)@.len() == old(bs)@.len(), r is Err ==> fault(),
{ unimplemented!() }

pub uninterp spec fn ed_public(sk: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ed_signature(sk: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
pub mod ed25519 {
    use super::*;
    pub const SECRET_KEY_LENGTH: usize = 32;
    pub const SIGNATURE_LENGTH: usize = 64;
    pub struct SecretKey { pub k: [u8; 32] }
    pub struct PublicKey { pub k: [u8; 32] }
    pub struct Signature { pub s: [u8; 64] }
    impl SecretKey {
        pub fn from_bytes(b: [u8; 32]) -> (r: Self) ensures r.k == b, { SecretKey { k: b } }
        pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.k, { self.k }
        #[verifier::external_body]
        pub fn generate() -> (r: Result<Self, crypto::Error>) ensures r is Err ==> fault(), { unimplemented!() }
        #[verifier::external_body]
        pub fn public_key(&self) -> (r: PublicKey) ensures r.k@ == ed_public(self.k@), { unimplemented!() }
        #[verifier::external_body]
        pub fn sign(&self, msg: &[u8]) -> (r: Signature) ensures r.s@ == ed_signature(self.k@, msg@), { unimplemented!() }
    }
    impl PublicKey { pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.k, { self.k } }
    impl Signature { pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r == self.s, { self.s } }
}
pub uninterp spec fn x_public(sk: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn x_shared(sk: Seq<u8>, pk: Seq<u8>) -> Seq<u8>;
pub mod x25519 {
    use super::*;
    pub const SECRET_KEY_LENGTH: usize = 32;
    pub const PUBLIC_KEY_LENGTH: usize = 32;
    pub struct SecretKey { pub k: [u8; 32] }
    pub struct PublicKey { pub k: [u8; 32] }
    pub struct SharedSecret { pub k: [u8; 32] }
    impl SecretKey {
        #[verifier::external_body]
        pub fn try_from_slice(b: &[u8]) -> (r: Result<Self, crypto::Error>)
            ensures r is Ok <==> b@.len() == 32, r matches Ok(k) ==> k.k@ == b@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn generate() -> (r: Result<Self, crypto::Error>) ensures r is Err ==> fault(), { unimplemented!() }
        pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.k, { self.k }
        #[verifier::external_body]
        pub fn public_key(&self) -> (r: PublicKey) ensures r.k@ == x_public(self.k@), { unimplemented!() }
        #[verifier::external_body]
        pub fn diffie_hellman(&self, p: &PublicKey) -> (r: SharedSecret) ensures r.k@ == x_shared(self.k@, p.k@), { unimplemented!() }
    }
    impl PublicKey {
        pub fn from_bytes(b: [u8; 32]) -> (r: Self) ensures r.k == b, { PublicKey { k: b } }
        pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.k, { self.k }
    }
    impl SharedSecret { pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.k, { self.k } }
}

// ---------------------------------------------------------------- hashes and what is built on them; 256, 384, 512 name the SHA-2 functions
pub const SHA256_LEN: usize = 32;
pub const SHA384_LEN: usize = 48;
pub const SHA512_LEN: usize = 64;
pub uninterp spec fn sha2(alg: int, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hmac(alg: int, key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hkdf_of(alg: int, salt: Seq<u8>, ikm: Seq<u8>, info: Seq<u8>, len: nat) -> Seq<u8>;
pub uninterp spec fn pbkdf2(alg: int, password: Seq<u8>, salt: Seq<u8>, count: nat, len: nat) -> Seq<u8>;
pub trait VxBytes: Sized { spec fn vx_bytes_of(&self) -> Seq<u8>; }
impl<'a> VxBytes for &'a [u8] { open spec fn vx_bytes_of(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn vx_bytes_of(&self) -> Seq<u8> { self@ } }
pub trait Digest: Sized {
    spec fn alg() -> int;
    spec fn fed(&self) -> Seq<u8>;
    fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty();
    fn output_size() -> (r: usize) ensures r == hash_len(Self::alg()), 0 < r <= 64;
    fn update<B: VxBytes>(d: &mut Self, b: B) ensures final(d).fed() == old(d).fed() + b.vx_bytes_of();
    fn finalize_reset(&mut self) -> (r: Vec<u8>)
        ensures r@ == sha2(Self::alg(), old(self).fed()), r@.len() == hash_len(Self::alg()), final(self).fed() == Seq::<u8>::empty();
}
pub open spec fn hash_len(alg: int) -> nat { if alg == 256 { 32 } else if alg == 384 { 48 } else { 64 } }
pub struct Sha256 { pub d: Ghost<Seq<u8>> }
pub struct Sha384 { pub d: Ghost<Seq<u8>> }
pub struct Sha512 { pub d: Ghost<Seq<u8>> }
impl Digest for Sha256 {
    open spec fn alg() -> int { 256 }
    open spec fn fed(&self) -> Seq<u8> { self.d@ }
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    fn output_size() -> (r: usize) { 32 }
    #[verifier::external_body] fn update<B: VxBytes>(d: &mut Self, b: B) { unimplemented!() }
    #[verifier::external_body] fn finalize_reset(&mut self) -> (r: Vec<u8>) { unimplemented!() }
}
impl Digest for Sha384 {
    open spec fn alg() -> int { 384 }
    open spec fn fed(&self) -> Seq<u8> { self.d@ }
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    fn output_size() -> (r: usize) { 48 }
    #[verifier::external_body] fn update<B: VxBytes>(d: &mut Self, b: B) { unimplemented!() }
    #[verifier::external_body] fn finalize_reset(&mut self) -> (r: Vec<u8>) { unimplemented!() }
}
impl Digest for Sha512 {
    open spec fn alg() -> int { 512 }
    open spec fn fed(&self) -> Seq<u8> { self.d@ }
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    fn output_size() -> (r: usize) { 64 }
    #[verifier::external_body] fn update<B: VxBytes>(d: &mut Self, b: B) { unimplemented!() }
    #[verifier::external_body] fn finalize_reset(&mut self) -> (r: Vec<u8>) { unimplemented!() }
}
#[verifier::external_body]
pub fn HMAC_SHA256(data: &[u8], key: &[u8], mac: &mut [u8; 32]) ensures final(mac)@ == hmac(256, key@, data@), { unimplemented!() }
#[verifier::external_body]
pub fn HMAC_SHA384(data: &[u8], key: &[u8], mac: &mut [u8; 48]) ensures final(mac)@ == hmac(384, key@, data@), { unimplemented!() }
#[verifier::external_body]
pub fn HMAC_SHA512(data: &[u8], key: &[u8], mac: &mut [u8; 64]) ensures final(mac)@ == hmac(512, key@, data@), { unimplemented!() }
pub mod hkdf {
    use super::*;
    #[verifier::reject_recursive_types(H)]
    pub struct Hkdf<H> { pub h: core::marker::PhantomData<H>, pub salt: Ghost<Seq<u8>>, pub ikm: Ghost<Seq<u8>> }
    #[derive(Debug)]
    pub struct InvalidLength {}
    impl<H: Digest> Hkdf<H> {
        /// no salt is a salt of zeros of the hash's length (RFC 5869)
        #[verifier::external_body]
        pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> (r: Self)
            ensures r.ikm@ == ikm@, r.salt@ == (match salt { Some(s) => s@, None => Seq::new(hash_len(H::alg()), |i: int| 0u8) }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> (r: Result<(), InvalidLength>)
            ensures
                final(okm)@.len() == old(okm)@.len(),
                r is Ok <==> old(okm)@.len() <= 255 * hash_len(H::alg()),
                r is Ok ==> final(okm)@ == hkdf_of(H::alg(), self.salt@, self.ikm@, info@, old(okm)@.len()),
        { unimplemented!() }
    }
}
pub struct NonZeroU32 { pub n: u32 }
impl Clone for NonZeroU32 { fn clone(&self) -> (r: Self) ensures r == *self, { *self } }
impl Copy for NonZeroU32 {}
#[verifier::external_body]
pub fn PBKDF2_HMAC_SHA256(password: &[u8], salt: &[u8], count: NonZeroU32, buffer: &mut [u8])
    ensures final(buffer)@ == pbkdf2(256, password@, salt@, count.n as nat, old(buffer)@.len()), final(buffer)@.len() == old(buffer)@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn PBKDF2_HMAC_SHA384(password: &[u8], salt: &[u8], count: NonZeroU32, buffer: &mut [u8])
    ensures final(buffer)@ == pbkdf2(384, password@, salt@, count.n as nat, old(buffer)@.len()), final(buffer)@.len() == old(buffer)@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn PBKDF2_HMAC_SHA512(password: &[u8], salt: &[u8], count: NonZeroU32, buffer: &mut [u8])
    ensures final(buffer)@ == pbkdf2(512, password@, salt@, count.n as nat, old(buffer)@.len()), final(buffer)@.len() == old(buffer)@.len(),
{ unimplemented!() }

// ---------------------------------------------------------------- SLIP-10, BIP-39
#[verifier::external_body]
pub struct Chain { x: u8 }
pub type ChainCode = [u8; 32];
pub uninterp spec fn slip_master(seed: Seq<u8>) -> [u8; 64];
/// the key at the end of the chain; none when a segment is not hardened
pub uninterp spec fn slip_child(key: [u8; 64], chain: Chain) -> Option<[u8; 64]>;
pub mod slip10 {
    use super::*;
    pub enum Curve { Ed25519 }
    pub struct Key { pub k: [u8; 64] }
    pub struct Seed { pub b: Vec<u8> }
    impl Clone for Key { fn clone(&self) -> (r: Self) ensures r == *self, { *self } }
    impl Copy for Key {}
    impl Key {
        #[verifier::external_body]
        pub fn try_from(b: &[u8]) -> (r: Result<Self, crypto::Error>) ensures r is Ok <==> b@.len() == 64, r matches Ok(k) ==> k.k@ == b@, { unimplemented!() }
        #[verifier::external_body]
        pub fn derive(&self, chain: &Chain) -> (r: Result<Key, crypto::Error>)
            ensures match r { Ok(k) => slip_child(self.k, *chain) == Some(k.k), Err(_) => slip_child(self.k, *chain) is None },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn chain_code(&self) -> (r: ChainCode) ensures r@ == self.k@.subrange(32, 64), { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_into_vec(self) -> (r: Vec<u8>) ensures r@ == self.k@, { unimplemented!() }
    }
    impl Seed {
        #[verifier::external_body]
        pub fn from_bytes(b: &[u8]) -> (r: Self) ensures r.b@ == b@, { unimplemented!() }
        #[verifier::external_body]
        pub fn derive(&self, curve: Curve, chain: &Chain) -> (r: Result<Key, crypto::Error>)
            ensures match r { Ok(k) => slip_child(slip_master(self.b@), *chain) == Some(k.k), Err(_) => slip_child(slip_master(self.b@), *chain) is None },
        { unimplemented!() }
    }
}
pub uninterp spec fn bip_words(lang: u8, entropy: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn bip_seed(mnemonic: Seq<u8>, passphrase: Seq<u8>) -> Seq<u8>;
pub mod bip39 {
    use super::*;
    #[verifier::external_body]
    pub fn mnemonic_to_seed(m: &VxString, p: &VxString, s: &mut [u8; 64]) ensures final(s)@ == bip_seed(m@, p@), { unimplemented!() }
    pub mod wordlist {
        use super::*;
        pub struct Wordlist { pub lang: u8 }
        pub const ENGLISH: Wordlist = Wordlist { lang: 0 };
        pub const JAPANESE: Wordlist = Wordlist { lang: 1 };
        #[derive(Debug)]
        pub struct Error { x: u8 }
        #[verifier::external_body]
        pub fn encode(data: &[u8], w: &Wordlist) -> (r: Result<VxString, Error>)
            ensures
                data@.len() == 16 || data@.len() == 20 || data@.len() == 24 || data@.len() == 28 || data@.len() == 32 ==> r is Ok,
                r matches Ok(s) ==> s@ == bip_words(w.lang, data@),
        { unimplemented!() }
    }
}

// ---------------------------------------------------------------- AEADs by number: 0 AES-256-GCM, 1 XChaCha20-Poly1305
pub open spec fn aead_nonce_len(alg: int) -> nat { if alg == 0 { 12 } else { 24 } }
/// (ciphertext, tag)
pub uninterp spec fn aead_seal(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>) -> (Seq<u8>, Seq<u8>);
pub uninterp spec fn aead_open(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn axiom_aead(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
    ensures ({
        let s = #[trigger] aead_seal(alg, k, n, ad, p);
        s.0.len() == p.len() && s.1.len() == 16 && aead_open(alg, k, n, ad, s.0, s.1) == Some(p)
    });
pub struct VxEnc { pub alg: u8 }
impl VxEnc {
    #[verifier::external_body]
    pub fn call(&self, key: &[u8], nonce: &[u8], ad: &[u8], plain: &[u8], cipher: &mut [u8], tag: &mut [u8]) -> (r: Result<usize, crypto::Error>)
        requires plain@.len() == old(cipher)@.len(),
        ensures
            final(cipher)@.len() == old(cipher)@.len(), final(tag)@.len() == old(tag)@.len(),
            r is Ok <==> key@.len() == 32 && nonce@.len() == aead_nonce_len(self.alg as int) && old(tag)@.len() == 16,
            r is Ok ==> (final(cipher)@, final(tag)@) == aead_seal(self.alg as int, key@, nonce@, ad@, plain@),
    { unimplemented!() }
}
pub struct VxDec { pub alg: u8 }
impl VxDec {
    #[verifier::external_body]
    pub fn call(&self, key: &[u8], nonce: &[u8], ad: &[u8], plain: &mut [u8], cipher: &[u8], tag: &[u8]) -> (r: Result<usize, crypto::Error>)
        requires cipher@.len() == old(plain)@.len(),
        ensures
            final(plain)@.len() == old(plain)@.len(),
            r is Ok <==> key@.len() == 32 && nonce@.len() == aead_nonce_len(self.alg as int) && tag@.len() == 16
                && aead_open(self.alg as int, key@, nonce@, ad@, cipher@, tag@) is Some,
            r is Ok ==> aead_open(self.alg as int, key@, nonce@, ad@, cipher@, tag@) == Some(final(plain)@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_tag() -> (r: [u8; 16]) { unimplemented!() }
/// `Extend` of a vector by the bytes of an array or a vector
pub trait VxExtend { spec fn vx_more(&self) -> Seq<u8>; fn vx_push_to(self, v: &mut Vec<u8>) where Self: Sized ensures final(v)@ == old(v)@ + self.vx_more(); }
impl<const N: usize> VxExtend for [u8; N] {
    open spec fn vx_more(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_push_to(self, v: &mut Vec<u8>) { unimplemented!() }
}
impl VxExtend for Vec<u8> {
    open spec fn vx_more(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_push_to(self, v: &mut Vec<u8>) { unimplemented!() }
}

// ---------------------------------------------------------------- AES key wrap (RFC 3394)
pub uninterp spec fn kw_wrap(kek: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn kw_unwrap(kek: Seq<u8>, c: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn axiom_kw(kek: Seq<u8>, p: Seq<u8>)
    requires kek.len() == 32, p.len() % 8 == 0,
    ensures #[trigger] kw_wrap(kek, p).len() == p.len() + 8, kw_unwrap(kek, kw_wrap(kek, p)) == Some(p);
/// (keeps a copy of the key here instead of a reference)
pub struct Aes256Kw { pub key: Vec<u8> }
impl Aes256Kw {
    pub const KEY_LENGTH: usize = 32;
    pub const BLOCK: usize = 8;
    #[verifier::external_body]
    pub fn new(key: &[u8]) -> (r: Self) ensures r.key@ == key@, { unimplemented!() }
    /// panics on keys of any other length, and when the ciphertext buffer is too long
    #[verifier::external_body]
    pub fn wrap_key(&self, plaintext: &[u8], ciphertext: &mut [u8]) -> (r: Result<(), crypto::Error>)
        requires self.key@.len() == 32, old(ciphertext)@.len() == plaintext@.len() + 8,
        ensures
            final(ciphertext)@.len() == old(ciphertext)@.len(),
            r is Ok <==> plaintext@.len() % 8 == 0,
            r is Ok ==> final(ciphertext)@ == kw_wrap(self.key@, plaintext@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap_key(&self, ciphertext: &[u8], plaintext: &mut [u8]) -> (r: Result<(), crypto::Error>)
        requires self.key@.len() == 32, ciphertext@.len() == old(plaintext)@.len() + 8,
        ensures
            final(plaintext)@.len() == old(plaintext)@.len(),
            r is Ok <==> ciphertext@.len() % 8 == 0 && kw_unwrap(self.key@, ciphertext@) is Some,
            r is Ok ==> kw_unwrap(self.key@, ciphertext@) == Some(final(plaintext)@),
    { unimplemented!() }
}
pub trait VxConcat: Sized { spec fn vx_flat(&self) -> Seq<u8>; fn concat(self) -> (r: Vec<u8>) ensures r@ == self.vx_flat(); }
impl<'a> VxConcat for [&'a [u8]; 2] {
    open spec fn vx_flat(&self) -> Seq<u8> { self[0]@ + self[1]@ }
    #[verifier::external_body]
    fn concat(self) -> (r: Vec<u8>) { unimplemented!() }
}
pub open spec fn be32(n: u32) -> Seq<u8> { seq![(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8] }
pub trait VxBe: Sized { fn vx_be32(self) -> (r: [u8; 4]) ensures r@ == self.vx_spec_be(); spec fn vx_spec_be(self) -> Seq<u8>; }
impl VxBe for u32 {
    open spec fn vx_spec_be(self) -> Seq<u8> { be32(self) }
    #[verifier::external_body]
    fn vx_be32(self) -> (r: [u8; 4]) { unimplemented!() }
}
