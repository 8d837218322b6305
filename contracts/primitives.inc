// ================================================================ procedures/primitives.rs
//@macros on
//@file client/src/procedures/primitives.rs
//@rewrite "&\*(guards?)\[(\d)\]\.borrow\(\)" => "$1[$2].borrow()"
//@rewrite "&(guards?)\[(\d)\]\.borrow\(\)" => "$1[$2].borrow()"
//@rewrite "\.borrow\(\)\.as_ref\(\)" => ".borrow()"
//@rewrite "\.as_ref\(\)" => ".vx_ref()"
//@rewrite "\bRef<u8>" => "&[u8]"
//@rewrite "\bString\b" => "VxString"
//@rewrite "&str\b" => "&VxString"
//@rewrite "core::num::NonZeroU32" => "NonZeroU32"
//@rewrite "(Aes256Gcm|XChaCha20Poly1305)::try_encrypt" => "VxEnc { alg: vx_alg_$1() }"
//@rewrite "(Aes256Gcm|XChaCha20Poly1305)::try_decrypt" => "VxDec { alg: vx_alg_$1() }"
//@rewrite "Tag::<(Aes256Gcm|XChaCha20Poly1305)>::default\(\)" => "vx_tag()"
//@rewrite "\bf\(" => "f.call("
//@rewrite "(\w+)\.extend\((\w+)\)" => "$2.vx_push_to(&mut $1)"
//@rewrite "\.to_be_bytes\(\)" => ".vx_be32()"
//@rewrite "FatalProcedureError::from\(\"[^\"]*\"\.to_owned\(\)\)" => "vx_fatal()"
//@rewrite "FatalProcedureError::from\(format!\([^()]*\)\)" => "vx_fatal()"
//@rewrite "\|\|\s*\"\"\.into\(\)" => "|| -> (vx_s: VxString) ensures vx_s@ =~= Seq::<u8>::empty() { vx_empty_string() }"
//@rewrite "\.map\(\|o\| o\.into\(\)\)" => ".vx_into_output()"
//@rewrite "dk\.into\(\)" => "dk.vx_into_vec()"
//@rewrite "<D: Digest \+ hkdf::hmac::digest::FixedOutputReset>" => "<D: Digest>"
pub fn vx_alg_Aes256Gcm() -> (r: u8) ensures r == 0, { 0 }
pub fn vx_alg_XChaCha20Poly1305() -> (r: u8) ensures r == 1, { 1 }
pub fn vx_empty_string() -> (r: VxString) ensures r@ =~= Seq::<u8>::empty(), { VxString::vx_empty() }
//@item enum MnemonicLanguage
//@item enum AeadCipher #[derive(Clone, Copy)]
//@item enum KeyType
//@item enum Sha2Hash
//@item enum AesKeyWrapCipher #[derive(Clone, Copy)]
impl Sha2Hash { pub open spec fn alg(&self) -> int { match self { Sha2Hash::Sha256 => 256, Sha2Hash::Sha384 => 384, Sha2Hash::Sha512 => 512 } } }
impl AeadCipher { pub open spec fn alg(&self) -> int { match self { AeadCipher::Aes256Gcm => 0, AeadCipher::XChaCha20Poly1305 => 1 } } }
impl MnemonicLanguage { pub open spec fn lang(&self) -> u8 { match self { MnemonicLanguage::English => 0, MnemonicLanguage::Japanese => 1 } } }
pub open spec fn phrase(p: Option<VxString>) -> Seq<u8> { match p { Some(s) => s@, None => Seq::empty() } }

/// what executing a procedure of each kind does
pub open spec fn step_gen<P: GenerateSecret, R: RunnerState>(p: P, a: R, b: R, r: Result<P::Output, ProcedureError>) -> bool {
    &&& same_but(a, b, p.tgt().id())
    &&& match r {
        Ok(o) => exists|q: Products<P::Output>| #[trigger] p.gens(Ok(q)) && q.output == o && b.at(p.tgt().id()) == Some(q.secret@),
        Err(_) => b.at(p.tgt().id()) == a.at(p.tgt().id())
            && (fault() || a.blocked(p.tgt().id()) || exists|e: FatalProcedureError| #[trigger] p.gens(Err(e))),
    }
}
pub open spec fn step_derive<const N: usize, P: DeriveSecret<N>, R: RunnerState>(p: P, a: R, b: R, r: Result<P::Output, ProcedureError>) -> bool {
    &&& same_but(a, b, p.tgt().id())
    &&& match r {
        Ok(o) => exists|s: Seq<Seq<u8>>, q: Products<P::Output>| #[trigger] p.derives(s, Ok(q)) && sees(a, p.srcs(), s) && q.output == o && b.at(p.tgt().id()) == Some(q.secret@),
        Err(_) => b.at(p.tgt().id()) == a.at(p.tgt().id())
            && (fault() || a.blocked(p.tgt().id()) || !all_readable(a, p.srcs())
                || exists|s: Seq<Seq<u8>>, e: FatalProcedureError| #[trigger] p.derives(s, Err(e)) && sees(a, p.srcs(), s)),
    }
}
pub open spec fn step_use<const N: usize, P: UseSecret<N>, R: RunnerState>(p: P, a: R, b: R, r: Result<P::Output, ProcedureError>) -> bool {
    &&& same(a, b)
    &&& match r {
        Ok(o) => exists|s: Seq<Seq<u8>>, q: P::Output| #[trigger] p.uses(s, Ok(q)) && q == o && sees(a, p.srcs(), s),
        Err(_) => fault() || !all_readable(a, p.srcs()) || exists|s: Seq<Seq<u8>>, e: FatalProcedureError| #[trigger] p.uses(s, Err(e)) && sees(a, p.srcs(), s),
    }
}

//@item struct WriteVault
impl GenerateSecret for WriteVault {
    type Output = ();
    open spec fn gens(&self, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ == self.data@ }
    open spec fn tgt(&self) -> Location { self.location }
//@fn GenerateSecret for WriteVault::generate
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn GenerateSecret for WriteVault::target
//@end
}
impl Procedure for WriteVault {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for WriteVault::execute
//@end
}

//@item struct RevokeData
impl Procedure for RevokeData {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool {
        &&& same_but(a, b, self.location.id())
        &&& match r {
            Ok(_) => b.at(self.location.id()) is None && (self.should_gc ==> forall|l: (VaultId, RecordId)| l.0 == self.location.vid() ==> !#[trigger] b.blocked(l)),
            Err(_) => fault(),
        }
    }
//@fn Procedure for RevokeData::execute
//@end
}
//@item struct GarbageCollect
impl Procedure for GarbageCollect {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool {
        &&& same(a, b)
        &&& match r {
            Ok(_) => forall|l: (VaultId, RecordId)| l.0 == vault_id_of(self.vault_path@) ==> !#[trigger] b.blocked(l),
            Err(_) => fault(),
        }
    }
//@fn Procedure for GarbageCollect::execute
//@end
}

//@item struct CopyRecord
impl DeriveSecret<1> for CopyRecord {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ =~= b[0] }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.source] }
    open spec fn tgt(&self) -> Location { self.target }
//@fn DeriveSecret<1> for CopyRecord::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<1> for CopyRecord::source
//@end
//@fn DeriveSecret<1> for CopyRecord::target
//@end
}
impl Procedure for CopyRecord {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for CopyRecord::execute
//@end
}

//@item struct BIP39Generate
impl GenerateSecret for BIP39Generate {
    type Output = VxString;
    open spec fn gens(&self, r: Result<Products<VxString>, FatalProcedureError>) -> bool { match r {
        Ok(p) => exists|e: Seq<u8>| #![trigger e.len()] #![trigger bip_words(self.language.lang(), e)] e.len() == 32 && bip_words(self.language.lang(), e) == p.output@ && p.secret@ =~= bip_seed(p.output@, phrase(self.passphrase)),
        Err(_) => fault(),
    } }
    open spec fn tgt(&self) -> Location { self.output }
//@fn GenerateSecret for BIP39Generate::generate
@ret r
@start
    broadcast use lemma_u8_cloned, lemma_str_cloned;
//@end
//@fn GenerateSecret for BIP39Generate::target
//@end
}
impl Procedure for BIP39Generate {
    type Output = VxString;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<VxString, ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for BIP39Generate::execute
//@end
}

//@item struct BIP39Recover
impl GenerateSecret for BIP39Recover {
    type Output = ();
    open spec fn gens(&self, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ =~= bip_seed(self.mnemonic@, phrase(self.passphrase)) }
    open spec fn tgt(&self) -> Location { self.output }
//@fn GenerateSecret for BIP39Recover::generate
@ret r
@start
    broadcast use lemma_u8_cloned, lemma_str_cloned;
//@end
//@fn GenerateSecret for BIP39Recover::target
//@end
}
impl Procedure for BIP39Recover {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for BIP39Recover::execute
//@end
}

//@item struct Slip10Generate
impl GenerateSecret for Slip10Generate {
    type Output = ();
    open spec fn gens(&self, r: Result<Products<()>, FatalProcedureError>) -> bool { match r { Ok(p) => p.secret@.len() == (match self.size_bytes { Some(n) => n as nat, None => 64 }), Err(_) => fault() } }
    open spec fn tgt(&self) -> Location { self.output }
//@fn GenerateSecret for Slip10Generate::generate
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn GenerateSecret for Slip10Generate::target
//@end
}
impl Procedure for Slip10Generate {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for Slip10Generate::execute
//@end
}

//@item enum Slip10DeriveInput
impl Slip10DeriveInput { pub open spec fn loc(&self) -> Location { match self { Slip10DeriveInput::Seed(l) => *l, Slip10DeriveInput::Key(l) => *l } } }
/// the derived key; none: not a key, or a segment that is not hardened
pub open spec fn slip10_result(input: Slip10DeriveInput, chain: Chain, s: Seq<u8>) -> Option<[u8; 64]> {
    match input {
        Slip10DeriveInput::Key(_) => if s.len() == 64 { slip_child(arr64(s), chain) } else { None },
        Slip10DeriveInput::Seed(_) => slip_child(slip_master(s), chain),
    }
}
pub open spec fn arr64(s: Seq<u8>) -> [u8; 64] { choose|a: [u8; 64]| a@ == s }
pub broadcast proof fn lemma_arr64(a: [u8; 64]) ensures arr64(#[trigger] a@) == a, { assert(arr64(a@)@ =~= a@); }

//@item struct Slip10Derive
impl DeriveSecret<1> for Slip10Derive {
    type Output = ChainCode;
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<ChainCode>, FatalProcedureError>) -> bool { match slip10_result(self.input, self.chain, b[0]) {
        Some(k) => r matches Ok(p) && p.secret@ == k@ && p.output@ == k@.subrange(32, 64),
        None => r is Err,
    } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.input.loc()] }
    open spec fn tgt(&self) -> Location { self.output }
//@fn DeriveSecret<1> for Slip10Derive::derive
@ret r
@rx "\|parent\|" => "|parent: slip10::Key|"
@closure 0
-> (vx_r: Result<slip10::Key, crypto::Error>) ensures match vx_r { Ok(k) => slip_child(parent.k, self.chain) == Some(k.k), Err(_) => slip_child(parent.k, self.chain) is None }
@start
    broadcast use lemma_u8_cloned, lemma_arr64;
//@end
//@fn DeriveSecret<1> for Slip10Derive::source
//@end
//@fn DeriveSecret<1> for Slip10Derive::target
//@end
}
impl Procedure for Slip10Derive {
    type Output = ChainCode;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<ChainCode, ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for Slip10Derive::execute
//@end
}

//@fn x25519_secret_key
@ret r
@sig
    ensures r is Ok <==> raw@.len() == 32, r matches Ok(k) ==> k.k@ == raw@,
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn ed25519_secret_key
@ret r
@sig
    ensures r is Ok <==> raw@.len() >= 32, r matches Ok(k) ==> k.k@ =~= raw@.take(32),
@start
    broadcast use lemma_u8_cloned;
//@end

//@item struct GenerateKey
impl GenerateSecret for GenerateKey {
    type Output = ();
    open spec fn gens(&self, r: Result<Products<()>, FatalProcedureError>) -> bool { match r { Ok(p) => p.secret@.len() == 32, Err(_) => fault() } }
    open spec fn tgt(&self) -> Location { self.output }
//@fn GenerateSecret for GenerateKey::generate
@ret r
@rx "ed25519::SecretKey::generate\(\)\.map\(\|sk\|" => "ed25519::SecretKey::generate().map(|sk: ed25519::SecretKey|"
@rx "x25519::SecretKey::generate\(\)\.map\(\|sk\|" => "x25519::SecretKey::generate().map(|sk: x25519::SecretKey|"
@closure 0
-> (v: Vec<u8>) ensures v@.len() == 32
@closure 1
-> (v: Vec<u8>) ensures v@.len() == 32
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn GenerateSecret for GenerateKey::target
//@end
}
impl Procedure for GenerateKey {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for GenerateKey::execute
//@end
}

//@item struct PublicKey
impl UseSecret<1> for PublicKey {
    type Output = [u8; 32];
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<[u8; 32], FatalProcedureError>) -> bool { match self.ty {
        KeyType::Ed25519 => if b[0].len() >= 32 { r matches Ok(k) && k@ == ed_public(b[0].take(32)) } else { r is Err },
        KeyType::X25519 => if b[0].len() == 32 { r matches Ok(k) && k@ == x_public(b[0]) } else { r is Err },
    } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.private_key] }
//@fn UseSecret<1> for PublicKey::use_secret
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<1> for PublicKey::source
//@end
}
impl Procedure for PublicKey {
    type Output = [u8; 32];
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<[u8; 32], ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for PublicKey::execute
//@end
}

//@item struct Ed25519Sign
impl UseSecret<1> for Ed25519Sign {
    type Output = [u8; 64];
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<[u8; 64], FatalProcedureError>) -> bool { if b[0].len() >= 32 { r matches Ok(s) && s@ == ed_signature(b[0].take(32), self.msg@) } else { r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.private_key] }
//@fn UseSecret<1> for Ed25519Sign::use_secret
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<1> for Ed25519Sign::source
//@end
}
impl Procedure for Ed25519Sign {
    type Output = [u8; 64];
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<[u8; 64], ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for Ed25519Sign::execute
//@end
}

//@item struct X25519DiffieHellman
impl DeriveSecret<1> for X25519DiffieHellman {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { if b[0].len() == 32 { r matches Ok(p) && p.secret@ =~= x_shared(b[0], self.public_key@) } else { r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.private_key] }
    open spec fn tgt(&self) -> Location { self.shared_key }
//@fn DeriveSecret<1> for X25519DiffieHellman::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<1> for X25519DiffieHellman::source
//@end
//@fn DeriveSecret<1> for X25519DiffieHellman::target
//@end
}
impl Procedure for X25519DiffieHellman {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for X25519DiffieHellman::execute
//@end
}

//@item struct Hmac
impl UseSecret<1> for Hmac {
    type Output = Vec<u8>;
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<Vec<u8>, FatalProcedureError>) -> bool { r matches Ok(m) && m@ =~= hmac(self.hash_type.alg(), b[0], self.msg@) }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.key] }
//@fn UseSecret<1> for Hmac::use_secret
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<1> for Hmac::source
//@end
}
impl Procedure for Hmac {
    type Output = Vec<u8>;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<Vec<u8>, ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for Hmac::execute
//@end
}

//@item struct Hkdf
impl DeriveSecret<1> for Hkdf {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ =~= hkdf_of(self.hash_type.alg(), self.salt@, b[0], self.label@, hash_len(self.hash_type.alg())) }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.ikm] }
    open spec fn tgt(&self) -> Location { self.okm }
//@fn DeriveSecret<1> for Hkdf::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<1> for Hkdf::source
//@end
//@fn DeriveSecret<1> for Hkdf::target
//@end
}
impl Procedure for Hkdf {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for Hkdf::execute
//@end
}

//@item struct Pbkdf2Hmac
impl GenerateSecret for Pbkdf2Hmac {
    type Output = ();
    open spec fn gens(&self, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ =~= pbkdf2(self.hash_type.alg(), self.password@, self.salt@, self.count.n as nat, hash_len(self.hash_type.alg())) }
    open spec fn tgt(&self) -> Location { self.output }
//@fn GenerateSecret for Pbkdf2Hmac::generate
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn GenerateSecret for Pbkdf2Hmac::target
//@end
}
impl Procedure for Pbkdf2Hmac {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_gen(*self, a, b, r) }
//@fn Procedure for Pbkdf2Hmac::execute
//@end
}

//@item struct AeadEncrypt
impl UseSecret<1> for AeadEncrypt {
    type Output = Vec<u8>;
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<Vec<u8>, FatalProcedureError>) -> bool { if b[0].len() == 32 && self.nonce@.len() == aead_nonce_len(self.cipher.alg()) {
        r matches Ok(o) && ({ let s = aead_seal(self.cipher.alg(), b[0], self.nonce@, self.associated_data@, self.plaintext@); o@ =~= s.1 + s.0 })
    } else { r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.key] }
//@fn UseSecret<1> for AeadEncrypt::use_secret
@ret r
@rx "let mut ctx" => "proof { axiom_vec_len(&self.plaintext); } let mut ctx"
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<1> for AeadEncrypt::source
//@end
}
impl Procedure for AeadEncrypt {
    type Output = Vec<u8>;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<Vec<u8>, ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for AeadEncrypt::execute
//@end
}

//@item struct AeadDecrypt
impl UseSecret<1> for AeadDecrypt {
    type Output = Vec<u8>;
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<Vec<u8>, FatalProcedureError>) -> bool { if b[0].len() == 32 && self.nonce@.len() == aead_nonce_len(self.cipher.alg()) && self.tag@.len() == 16 {
        match aead_open(self.cipher.alg(), b[0], self.nonce@, self.associated_data@, self.ciphertext@, self.tag@) {
            Some(p) => r matches Ok(o) && o@ =~= p,
            None => r is Err,
        }
    } else { r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.key] }
//@fn UseSecret<1> for AeadDecrypt::use_secret
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<1> for AeadDecrypt::source
//@end
}
impl Procedure for AeadDecrypt {
    type Output = Vec<u8>;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<Vec<u8>, ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for AeadDecrypt::execute
//@end
}

// ---------------------------------------------------------------- Concat KDF: the specification (NIST SP 800-56A, 5.8.1)
//@item struct ConcatKdf
impl ConcatKdf {
    /// AlgorithmID, PartyUInfo, PartyVInfo with 32-bit lengths; SuppPubInfo, SuppPrivInfo as they are
    pub open spec fn other_info(&self) -> Seq<u8> {
        be32(self.algorithm_id@.len() as u32) + self.algorithm_id@ + be32(self.apu@.len() as u32) + self.apu@
            + be32(self.apv@.len() as u32) + self.apv@ + self.pub_info@ + self.priv_info@
    }
    /// the first n blocks: H(1 || Z || OtherInfo) || H(2 || Z || OtherInfo) || ..
    pub open spec fn blocks(&self, z: Seq<u8>, n: nat) -> Seq<u8>
        decreases n,
    {
        if n == 0 { Seq::empty() } else { self.blocks(z, (n - 1) as nat) + sha2(self.hash.alg(), be32(n as u32) + z + self.other_info()) }
    }
    pub open spec fn rounds(&self) -> nat { ((self.key_len + hash_len(self.hash.alg()) - 1) / hash_len(self.hash.alg()) as int) as nat }
    /// too long: more than 2^32 - 1 blocks, or a length that overflows
    pub open spec fn too_long(&self) -> bool { self.rounds() > u32::MAX || self.key_len + hash_len(self.hash.alg()) - 1 > usize::MAX }
    pub open spec fn result(&self, z: Seq<u8>) -> Seq<u8> { self.blocks(z, self.rounds()).take(self.key_len as int) }
//@fn ConcatKdf::concat_kdf
@ret r
@sig
    requires D::alg() == self.hash.alg(), // the caller chooses the type by the field
    ensures
        r is Err <==> self.too_long(),
        r matches Ok(o) ==> o@ =~= self.result(z@) && o@.len() == self.key_len,
@rx "let mut output: Vec<u8> = Vec::new\(\);" => "let mut output: Vec<u8> = Vec::new(); let ghost hl = hash_len(self.hash.alg());"
@loop 0 for
    invariant
        D::alg() == self.hash.alg(), hl == hash_len(D::alg()),
        digest.fed() =~= Seq::<u8>::empty(), alg == self.algorithm_id, apu@ == self.apu@, apv@ == self.apv@, pub_info@ == self.pub_info@, prv_info@ == self.priv_info@,
        output@ =~= self.blocks(z@, count as nat), output@.len() == count * hl,
@loopend 0
    proof {
        let n = (count + 1) as u32;
        assert(vx_in =~= be32(n) + z@ + self.other_info());
        assert((count + 1) * hl == count * hl + hl) by (nonlinear_arith);
    }
@rx "output\.extend_from_slice" => "let ghost vx_in = digest.fed(); output.extend_from_slice"
@rx "output\.truncate" => "proof { lemma_rounds(len as int, hl as int); } output.truncate"
//@end
}
/// enough blocks for the length
proof fn lemma_rounds(len: int, h: int)
    requires len >= 0, h > 0,
    ensures ((len + h - 1) / h) * h >= len, (len + h - 1) / h >= 0,
{
    assert(((len + h - 1) / h) * h >= len) by (nonlinear_arith) requires len >= 0, h > 0;
    assert((len + h - 1) / h >= 0) by (nonlinear_arith) requires len >= 0, h > 0;
}

impl DeriveSecret<1> for ConcatKdf {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { if self.too_long() { r is Err } else { r matches Ok(p) && p.secret@ =~= self.result(b[0]) && p.secret@.len() == self.key_len } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.shared_secret] }
    open spec fn tgt(&self) -> Location { self.output }
//@fn DeriveSecret<1> for ConcatKdf::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<1> for ConcatKdf::source
//@end
//@fn DeriveSecret<1> for ConcatKdf::target
//@end
}
impl Procedure for ConcatKdf {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for ConcatKdf::execute
//@end
}

//@fn check_kek_length
@ret r
@sig
    ensures r is Ok <==> key@.len() == 32,
//@end
//@item struct AesKeyWrapEncrypt
impl AesKeyWrapEncrypt {
//@fn AesKeyWrapEncrypt::wrap_key
@ret r
@sig
    ensures
        r is Ok <==> encryption_key@.len() == 32 && wrap_key@.len() % 8 == 0,
        r matches Ok(c) ==> c@ =~= kw_wrap(encryption_key@, wrap_key@),
@start
    proof { axiom_slice_len(wrap_key); }
//@end
}

impl UseSecret<2> for AesKeyWrapEncrypt {
    type Output = Vec<u8>;
    open spec fn uses(&self, b: Seq<Seq<u8>>, r: Result<Vec<u8>, FatalProcedureError>) -> bool { if b[0].len() == 32 && b[1].len() % 8 == 0 { r matches Ok(c) && c@ =~= kw_wrap(b[0], b[1]) } else { r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.encryption_key, self.wrap_key] }
//@fn UseSecret<2> for AesKeyWrapEncrypt::use_secret
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn UseSecret<2> for AesKeyWrapEncrypt::source
//@end
}
impl Procedure for AesKeyWrapEncrypt {
    type Output = Vec<u8>;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<Vec<u8>, ProcedureError>) -> bool { step_use(*self, a, b, r) }
//@fn Procedure for AesKeyWrapEncrypt::execute
//@end
}

//@item struct AesKeyWrapDecrypt
impl AesKeyWrapDecrypt {
    pub open spec fn plain(&self, k: Seq<u8>) -> Option<Seq<u8>> {
        if k.len() == 32 && self.wrapped_key@.len() >= 8 && self.wrapped_key@.len() % 8 == 0 { kw_unwrap(k, self.wrapped_key@) } else { None }
    }
//@fn AesKeyWrapDecrypt::unwrap_key
@ret r
@sig
    ensures match r { Ok(p) => self.plain(decryption_key@) == Some(p@), Err(_) => self.plain(decryption_key@) is None },
//@end
}

impl DeriveSecret<1> for AesKeyWrapDecrypt {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { match self.plain(b[0]) { Some(k) => r matches Ok(p) && p.secret@ =~= k, None => r is Err } }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.decryption_key] }
    open spec fn tgt(&self) -> Location { self.output }
//@fn DeriveSecret<1> for AesKeyWrapDecrypt::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<1> for AesKeyWrapDecrypt::source
//@end
//@fn DeriveSecret<1> for AesKeyWrapDecrypt::target
//@end
}
impl Procedure for AesKeyWrapDecrypt {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for AesKeyWrapDecrypt::execute
//@end
}

//@item struct ConcatSecret
impl DeriveSecret<2> for ConcatSecret {
    type Output = ();
    open spec fn derives(&self, b: Seq<Seq<u8>>, r: Result<Products<()>, FatalProcedureError>) -> bool { r matches Ok(p) && p.secret@ =~= b[0] + b[1] }
    open spec fn srcs(&self) -> Seq<Location> { seq![self.location_a, self.location_b] }
    open spec fn tgt(&self) -> Location { self.output_location }
//@fn DeriveSecret<2> for ConcatSecret::derive
@ret r
@start
    broadcast use lemma_u8_cloned;
//@end
//@fn DeriveSecret<2> for ConcatSecret::source
//@end
//@fn DeriveSecret<2> for ConcatSecret::target
//@end
}
impl Procedure for ConcatSecret {
    type Output = ();
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<(), ProcedureError>) -> bool { step_derive(*self, a, b, r) }
//@fn Procedure for ConcatSecret::execute
//@end
}

// ---------------------------------------------------------------- the enum of all procedures
//@item enum StrongholdProcedure
/// the output of one step, as bytes
pub trait VxOut { spec fn out(&self) -> Seq<u8>; }
impl VxOut for () { open spec fn out(&self) -> Seq<u8> { Seq::empty() } }
impl VxOut for Vec<u8> { open spec fn out(&self) -> Seq<u8> { self@ } }
impl VxOut for VxString { open spec fn out(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxOut for [u8; N] { open spec fn out(&self) -> Seq<u8> { self@ } }
/// `From<T> for ProcedureOutput`
pub trait VxFrom<T: VxOut>: Sized { fn from(t: T) -> (r: ProcedureOutput) ensures r.0@ =~= t.out(); }
pub trait VxInto { fn vx_into(self) -> (r: ProcedureOutput) where Self: Sized + VxOut ensures r.0@ == self.out(); }
impl<T: VxOut> VxInto for T where ProcedureOutput: VxFrom<T> { fn vx_into(self) -> (r: ProcedureOutput) { <ProcedureOutput as VxFrom<T>>::from(self) } }
//@file client/src/procedures/types.rs
impl VxFrom<()> for ProcedureOutput {
//@fn From<()> for ProcedureOutput::from
@rx "_: \(\)" => "vx_u: ()"
//@end
}
impl VxFrom<Vec<u8>> for ProcedureOutput {
//@fn From<Vec<u8>> for ProcedureOutput::from
//@end
}
impl VxFrom<VxString> for ProcedureOutput {
//@fn From<String> for ProcedureOutput::from
@rx "\.into\(\)" => ".vx_into()"
//@end
}
impl<const N: usize> VxFrom<[u8; N]> for ProcedureOutput {
//@fn From<[u8; N]> for ProcedureOutput::from
@rx "\.into\(\)" => ".vx_into()"
@start
    broadcast use lemma_u8_cloned;
//@end
}
pub struct VxNever { x: u8 }
/// `TryFrom<ProcedureOutput>` (and `From<ProcedureOutput>`, which implies it)
pub trait VxTryOut: VxOut + Sized {
    type Error;
    spec fn accepts(b: Seq<u8>) -> bool;
    fn try_from(value: ProcedureOutput) -> (r: Result<Self, Self::Error>) ensures Self::accepts(value.0@) ==> r is Ok && r->Ok_0.out() =~= value.0@;
    /// what a procedure returned can be read back
    proof fn law_out(&self) ensures Self::accepts(self.out());
}
/// `From<ProcedureOutput>`: core's blanket `TryFrom` calls it and cannot fail
pub trait VxFromOut: VxOut + Sized { spec fn takes(b: Seq<u8>) -> bool; fn from(value: ProcedureOutput) -> (r: Self) ensures Self::takes(value.0@) ==> r.out() =~= value.0@; }
impl VxFromOut for () {
    open spec fn takes(b: Seq<u8>) -> bool { b.len() == 0 }
//@fn From<ProcedureOutput> for ()::from
@rx "_: ProcedureOutput" => "value: ProcedureOutput"
//@end
}
impl VxFromOut for Vec<u8> {
    open spec fn takes(b: Seq<u8>) -> bool { true }
//@fn From<ProcedureOutput> for Vec<u8>::from
//@end
}
impl VxTryOut for () {
    type Error = VxNever;
    open spec fn accepts(b: Seq<u8>) -> bool { Self::takes(b) }
    fn try_from(value: ProcedureOutput) -> (r: Result<Self, Self::Error>) { Ok(<() as VxFromOut>::from(value)) }
    proof fn law_out(&self) {}
}
impl VxTryOut for Vec<u8> {
    type Error = VxNever;
    open spec fn accepts(b: Seq<u8>) -> bool { Self::takes(b) }
    fn try_from(value: ProcedureOutput) -> (r: Result<Self, Self::Error>) { Ok(<Vec<u8> as VxFromOut>::from(value)) }
    proof fn law_out(&self) {}
}
impl VxTryOut for VxString {
    type Error = FromUtf8Error;
    open spec fn accepts(b: Seq<u8>) -> bool { utf8(b) }
//@fn TryFrom<ProcedureOutput> for String::try_from
//@end
    proof fn law_out(&self) { broadcast use axiom_utf8; }
}
impl<const N: usize> VxTryOut for [u8; N] {
    type Error = Vec<u8>;
    open spec fn accepts(b: Seq<u8>) -> bool { b.len() == N }
//@fn TryFrom<ProcedureOutput> for [u8; N]::try_from
@rx "value\.0\.try_into\(\)" => "vx_try_array(value.0)"
//@end
    proof fn law_out(&self) {}
}
#[verifier::external_body]
pub fn vx_try_array<const N: usize>(v: Vec<u8>) -> (r: Result<[u8; N], Vec<u8>>) ensures v@.len() == N ==> r is Ok && r->Ok_0@ == v@, v@.len() != N ==> r is Err, { unimplemented!() }
//@file client/src/procedures/primitives.rs
pub trait VxIntoOutput { spec fn vx_mapped(&self, r: &Result<ProcedureOutput, ProcedureError>) -> bool; fn vx_into_output(self) -> (r: Result<ProcedureOutput, ProcedureError>) where Self: Sized ensures self.vx_mapped(&r); }
/// `map(|o| o.into())`
impl<T: VxOut> VxIntoOutput for Result<T, ProcedureError> where ProcedureOutput: VxFrom<T> {
    open spec fn vx_mapped(&self, r: &Result<ProcedureOutput, ProcedureError>) -> bool {
        match self { Ok(o) => *self == Ok::<T, ProcedureError>(*o) && r is Ok && r->Ok_0.0@ == o.out(), Err(e) => *self == Err::<T, ProcedureError>(*e) && *r == Err::<ProcedureOutput, ProcedureError>(*e) }
    }
    fn vx_into_output(self) -> (r: Result<ProcedureOutput, ProcedureError>) { match self { Ok(o) => Ok(o.vx_into()), Err(e) => Err(e) } }
}
pub open spec fn acts_as<P: Procedure, R: RunnerState>(p: P, a: R, b: R, r: Result<ProcedureOutput, ProcedureError>) -> bool where P::Output: VxOut {
    match r { Ok(o) => exists|q: P::Output| #![trigger p.step(a, b, Ok(q))] #![trigger q.out()] p.step(a, b, Ok(q)) && o.0@ == q.out(), Err(e) => p.step(a, b, Err(e)) }
}
impl Procedure for StrongholdProcedure {
    type Output = ProcedureOutput;
    open spec fn step<R: RunnerState>(&self, a: R, b: R, r: Result<ProcedureOutput, ProcedureError>) -> bool {
        match self {
            StrongholdProcedure::WriteVault(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::RevokeData(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::GarbageCollect(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::CopyRecord(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Slip10Generate(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Slip10Derive(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::BIP39Generate(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::BIP39Recover(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::PublicKey(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::GenerateKey(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Ed25519Sign(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::X25519DiffieHellman(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Hmac(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Hkdf(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::ConcatKdf(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::AesKeyWrapEncrypt(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::AesKeyWrapDecrypt(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::Pbkdf2Hmac(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::AeadEncrypt(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::AeadDecrypt(p) => acts_as(*p, a, b, r),
            StrongholdProcedure::ConcatSecret(p) => acts_as(*p, a, b, r),
        }
    }
//@fn Procedure for StrongholdProcedure::execute
//@end
}
impl StrongholdProcedure {
    /// where the procedure writes
    pub open spec fn out_loc(&self) -> Option<Location> {
        match self {
            StrongholdProcedure::WriteVault(p) => Some(p.location),
            StrongholdProcedure::CopyRecord(p) => Some(p.target),
            StrongholdProcedure::Slip10Generate(p) => Some(p.output),
            StrongholdProcedure::Slip10Derive(p) => Some(p.output),
            StrongholdProcedure::BIP39Generate(p) => Some(p.output),
            StrongholdProcedure::BIP39Recover(p) => Some(p.output),
            StrongholdProcedure::GenerateKey(p) => Some(p.output),
            StrongholdProcedure::X25519DiffieHellman(p) => Some(p.shared_key),
            StrongholdProcedure::Hkdf(p) => Some(p.okm),
            StrongholdProcedure::ConcatKdf(p) => Some(p.output),
            StrongholdProcedure::AesKeyWrapDecrypt(p) => Some(p.output),
            StrongholdProcedure::Pbkdf2Hmac(p) => Some(p.output),
            StrongholdProcedure::ConcatSecret(p) => Some(p.output_location),
            _ => None,
        }
    }
    pub open spec fn in_loc(&self) -> Option<Location> {
        match self {
            StrongholdProcedure::CopyRecord(p) => Some(p.source),
            StrongholdProcedure::Slip10Derive(p) => Some(p.input.loc()),
            StrongholdProcedure::PublicKey(p) => Some(p.private_key),
            StrongholdProcedure::Ed25519Sign(p) => Some(p.private_key),
            StrongholdProcedure::X25519DiffieHellman(p) => Some(p.private_key),
            StrongholdProcedure::Hmac(p) => Some(p.key),
            StrongholdProcedure::Hkdf(p) => Some(p.ikm),
            StrongholdProcedure::ConcatKdf(p) => Some(p.shared_secret),
            StrongholdProcedure::AeadEncrypt(p) => Some(p.key),
            StrongholdProcedure::AeadDecrypt(p) => Some(p.key),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- consequences
/// a step changes nothing but what is at its output location (or at the location it revokes): the client's roll-back relies on it
pub open spec fn writes_at(p: StrongholdProcedure) -> Option<(VaultId, RecordId)> {
    match p { StrongholdProcedure::RevokeData(q) => Some(q.location.id()), _ => match p.out_loc() { Some(l) => Some(l.id()), None => None } }
}
pub proof fn lemma_frame<R: RunnerState>(p: StrongholdProcedure, a: R, b: R, r: Result<ProcedureOutput, ProcedureError>)
    requires p.step(a, b, r),
    ensures
        forall|l: (VaultId, RecordId)| writes_at(p) != Some(l) ==> #[trigger] b.at(l) == a.at(l),
        match p.out_loc() { Some(l) => if r is Ok { b.at(l.id()) is Some } else { b.at(l.id()) == a.at(l.id()) }, None => true },
{
}
