// ================================================================ iota-crypto AEADs: assumed contracts
// `aead_seal` is the cipher as a mathematical function; opening recomputes the tag and so returns data only for what
// sealing yields. (That nobody else can produce such bytes is unforgeability, an assumption about the cipher.)
pub mod crypto {
    pub enum Error { CipherError { alg: &'static str }, BufferSize { name: &'static str }, Other { code: u32 } }
}
pub trait VxAead { spec fn alg() -> int; spec fn nonce_len() -> nat; spec fn tag_len() -> nat; }
/// (ciphertext, tag)
pub uninterp spec fn aead_seal(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>) -> (Seq<u8>, Seq<u8>);
pub uninterp spec fn aead_open(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn axiom_aead(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
    ensures ({
        let s = #[trigger] aead_seal(alg, k, n, ad, p);
        s.0.len() == p.len() && s.1.len() == 16 && aead_open(alg, k, n, ad, s.0, s.1) == Some(p)
    });
pub broadcast axiom fn axiom_aead_open(alg: int, k: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, c: Seq<u8>, t: Seq<u8>)
    ensures #[trigger] aead_open(alg, k, n, ad, c, t) matches Some(p) ==> aead_seal(alg, k, n, ad, p) == (c, t);
