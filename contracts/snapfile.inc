// ================================================================ the file system: assumed contracts
/// One state: which file a path names, and of each file what a reader sees and what survives a crash (nothing is known
/// to survive before the file is synchronised).
pub struct State { pub names: Map<Seq<u8>, int>, pub seen: Map<int, Seq<u8>>, pub durable: Map<int, Option<Seq<u8>>> }
impl State {
    pub open spec fn holds(&self, p: Seq<u8>) -> Option<Seq<u8>> { if self.names.contains_key(p) { Some(self.seen[self.names[p]]) } else { None } }
    /// what a crash in this state leaves at `p`: no file, or (if known) these bytes
    pub open spec fn crash(&self, p: Seq<u8>) -> Option<Option<Seq<u8>>> { if self.names.contains_key(p) { Some(self.durable[self.names[p]]) } else { None } }
    /// the same names, and the same files but for `f`
    pub open spec fn only(&self, o: State, f: Option<int>) -> bool {
        &&& self.names == o.names
        &&& forall|i: int| #![trigger self.seen[i]] #![trigger self.durable[i]] Some(i) != f ==> self.seen[i] == o.seen[i] && self.durable[i] == o.durable[i]
    }
}
/// the file system and the states it went through
#[verifier::external_body]
pub tracked struct World { x: u8 }
impl World {
    pub uninterp spec fn st(&self) -> State;
    pub uninterp spec fn hist(&self) -> Seq<State>;
}
/// between `a` and `b` only the file `f` was changed
pub open spec fn changed(a: World, b: World, f: Option<int>) -> bool {
    &&& b.st().only(a.st(), f)
    &&& a.hist().len() <= b.hist().len()
    &&& forall|i: int| 0 <= i < a.hist().len() ==> #[trigger] b.hist()[i] == a.hist()[i]
    &&& forall|i: int| a.hist().len() <= i < b.hist().len() ==> (#[trigger] b.hist()[i]).only(a.st(), f)
}
/// one atomic step
pub open spec fn step(a: World, b: World) -> bool { b.hist() == a.hist().push(b.st()) }
pub struct IoError { x: u8 }
#[verifier::external_body]
pub struct File { x: u8 }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n, { self.n } }
impl File {
    pub fn create(p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<File, IoError>)
        ensures r matches Ok(f) ==> final(w).st().names.contains_key(p@) && final(w).st().names[p@] == f.id() && final(w).st().seen[f.id()] == Seq::<u8>::empty(),
    { OpenOptions::new().write(true).create(true).truncate(true).open(p, Tracked(w)) }
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn pos(&self) -> int;
    /// the content reaches the disk
    #[verifier::external_body]
    pub fn sync_all(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures
            changed(*old(w), *final(w), Some(self.id())), final(w).st().seen[self.id()] == old(w).st().seen[self.id()],
            match r { Ok(_) => final(w).st().durable[self.id()] == Some(old(w).st().seen[self.id()]), Err(_) => fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_data(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures
            changed(*old(w), *final(w), Some(self.id())), final(w).st().seen[self.id()] == old(w).st().seen[self.id()],
            match r { Ok(_) => final(w).st().durable[self.id()] == Some(old(w).st().seen[self.id()]), Err(_) => fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Metadata, IoError>)
        ensures *final(w) == *old(w), match r { Ok(m) => m.n == old(w).st().seen[self.id()].len(), Err(_) => fault() },
    { unimplemented!() }
}
/// std::io::Write; a file, or a vector
pub trait Write: Sized {
    spec fn data(&self, w: World) -> Seq<u8>;
    spec fn file(&self) -> Option<int>;
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures
            changed(*old(w), *final(w), old(self).file()), final(self).file() == old(self).file(),
            match r { Ok(_) => final(self).data(*final(w)) == old(self).data(*old(w)) + b@, Err(_) => fault() };
    /// the data depend on the file only
    proof fn law_data(&self, a: World, b: World)
        ensures self.file() is None || (self.file() matches Some(i) && a.st().seen[i] == b.st().seen[i]) ==> self.data(a) == self.data(b);
}
impl Write for File {
    open spec fn data(&self, w: World) -> Seq<u8> { w.st().seen[self.id()] }
    open spec fn file(&self) -> Option<int> { Some(self.id()) }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>) { unimplemented!() }
    proof fn law_data(&self, a: World, b: World) {}
}
impl Write for Vec<u8> {
    open spec fn data(&self, w: World) -> Seq<u8> { self@ }
    open spec fn file(&self) -> Option<int> { None }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>) { unimplemented!() }
    proof fn law_data(&self, a: World, b: World) {}
}
/// std::io::Read; a file, or a slice
pub trait Read: Sized {
    spec fn rest(&self, w: World) -> Seq<u8>;
    fn read_exact(&mut self, b: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures
            *final(w) == *old(w), final(b)@.len() == old(b)@.len(),
            match r {
                Ok(_) => old(self).rest(*old(w)).len() >= old(b)@.len() && final(b)@ == old(self).rest(*old(w)).take(old(b)@.len() as int)
                    && final(self).rest(*old(w)) == old(self).rest(*old(w)).skip(old(b)@.len() as int),
                Err(_) => fault() || old(self).rest(*old(w)).len() < old(b)@.len(),
            };
    fn read_to_end(&mut self, b: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, IoError>)
        ensures *final(w) == *old(w), match r { Ok(n) => final(b)@ == old(b)@ + old(self).rest(*old(w)), Err(_) => fault() };
}
impl<'a> Read for &'a [u8] {
    open spec fn rest(&self, w: World) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, b: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, IoError>) { unimplemented!() }
}
impl Read for File {
    open spec fn rest(&self, w: World) -> Seq<u8> { w.st().seen[self.id()].skip(self.pos()) }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_to_end(&mut self, b: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, IoError>) { unimplemented!() }
}
// ---------------------------------------------------------------- paths: two different byte strings name two different files
pub struct OsStr { x: u8 }
#[verifier::external_body]
pub struct OsString { x: u8 }
#[verifier::external_body]
pub struct Path { x: u8 }
impl Path {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_os(&self) -> (r: OsString) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &OsString) -> (r: &Path) ensures r@ == s@, { unimplemented!() }
}
impl OsString {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn push(&mut self, s: VxText) ensures final(self)@ == old(self)@ + s@, final(self)@.len() == old(self)@.len() + s@.len(), { unimplemented!() }
}
#[verifier::external_body]
pub struct VxText { x: u8 }
impl VxText { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// a text literal that is not empty
#[verifier::external_body]
pub fn vx_lit() -> (r: VxText) ensures r@.len() > 0, { unimplemented!() }
pub mod hex {
    use super::*;
    #[verifier::external_body]
    pub fn encode<const N: usize>(b: [u8; N]) -> (r: VxText) ensures r@.len() == 2 * N, { unimplemented!() }
}
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool, pub n: bool, pub t: bool, pub a: bool }
impl OpenOptions {
    pub fn new() -> (r: Self) ensures r == (OpenOptions { r: false, w: false, c: false, n: false, t: false, a: false }), { OpenOptions { r: false, w: false, c: false, n: false, t: false, a: false } }
    pub fn read(self, b: bool) -> (r: Self) ensures r == (OpenOptions { r: b, ..self }), { OpenOptions { r: b, ..self } }
    pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { w: b, ..self }), { OpenOptions { w: b, ..self } }
    pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { c: b, ..self }), { OpenOptions { c: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: Self) ensures r == (OpenOptions { n: b, ..self }), { OpenOptions { n: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { t: b, ..self }), { OpenOptions { t: b, ..self } }
    pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { a: b, ..self }), { OpenOptions { a: b, ..self } }
    #[verifier::external_body]
    pub fn open(self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<File, IoError>)
        ensures
            match r {
                Ok(f) => if old(w).st().names.contains_key(p@) {
                    &&& !self.n && f.id() == old(w).st().names[p@] && f.pos() == 0
                    &&& self.t ==> step(*old(w), *final(w)) && final(w).st().only(old(w).st(), Some(f.id())) && final(w).st().seen[f.id()] == Seq::<u8>::empty()
                    &&& !self.t ==> *final(w) == *old(w)
                } else {
                    &&& (self.n || self.c) && step(*old(w), *final(w)) && f.pos() == 0
                    &&& final(w).st().names == old(w).st().names.insert(p@, f.id())
                    &&& forall|q: Seq<u8>| #[trigger] old(w).st().names.contains_key(q) ==> old(w).st().names[q] != f.id()
                    &&& final(w).st().seen == old(w).st().seen.insert(f.id(), Seq::<u8>::empty())
                    &&& final(w).st().durable == old(w).st().durable.insert(f.id(), None)
                },
                Err(_) => *final(w) == *old(w) && (fault() || !(self.n || self.c || old(w).st().names.contains_key(p@))),
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn rename(a: &Path, b: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
    ensures match r {
        Ok(_) => {
            &&& step(*old(w), *final(w)) && old(w).st().names.contains_key(a@)
            &&& final(w).st() == (State { names: old(w).st().names.remove(a@).insert(b@, old(w).st().names[a@]), ..old(w).st() })
        },
        Err(_) => *final(w) == *old(w) && (fault() || !old(w).st().names.contains_key(a@)),
    },
{ unimplemented!() }
pub mod fs {
    use super::*;
    pub use super::{rename, File, OpenOptions};
    /// not atomic, and nothing is known to be on the disk
    #[verifier::external_body]
    pub fn copy(a: &Path, b: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, IoError>)
        ensures old(w).hist().len() <= final(w).hist().len(), r is Ok ==> final(w).st().holds(b@) == old(w).st().holds(a@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
        ensures match r {
            Ok(_) => step(*old(w), *final(w)) && final(w).st() == (State { names: old(w).st().names.remove(p@), ..old(w).st() }),
            Err(_) => *final(w) == *old(w),
        },
    { unimplemented!() }
}

// ================================================================ the ciphers: assumed contracts
pub uninterp spec fn x_public(sk: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn x_shared(sk: Seq<u8>, pk: Seq<u8>) -> Seq<u8>;
/// Diffie-Hellman: both sides get the same
pub broadcast axiom fn axiom_dh(a: Seq<u8>, b: Seq<u8>) requires a.len() == 32, b.len() == 32, ensures #[trigger] x_shared(a, x_public(b)) == x_shared(b, x_public(a));
pub uninterp spec fn blake2b256(d: Seq<u8>) -> Seq<u8>;
pub mod x25519 {
    use super::*;
    pub const SECRET_KEY_LENGTH: usize = 32;
    pub const PUBLIC_KEY_LENGTH: usize = 32;
    pub struct SecretKey { pub k: [u8; 32] }
    pub struct PublicKey { pub k: [u8; 32] }
    pub struct SharedSecret { pub k: [u8; 32] }
    impl SecretKey {
        pub fn from_bytes(b: [u8; 32]) -> (r: Self) ensures r.k == b, { SecretKey { k: b } }
        #[verifier::external_body]
        pub fn try_from_slice(b: &[u8]) -> (r: Result<Self, crypto::Error>)
            ensures r is Ok <==> b@.len() == 32, r matches Ok(k) ==> k.k@ == b@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn generate() -> (r: Result<Self, crypto::Error>) ensures r is Err ==> fault(), { unimplemented!() }
        #[verifier::external_body]
        pub fn public_key(&self) -> (r: PublicKey) ensures r.k@ == x_public(self.k@), { unimplemented!() }
        #[verifier::external_body]
        pub fn diffie_hellman(&self, p: &PublicKey) -> (r: SharedSecret) ensures r.k@ == x_shared(self.k@, p.k@), { unimplemented!() }
    }
    impl PublicKey {
        pub fn from_bytes(b: [u8; 32]) -> (r: Self) ensures r.k == b, { PublicKey { k: b } }
        pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.k, { self.k }
    }
    impl SharedSecret {
        pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.k, { self.k }
        pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures *r == self.k, { &self.k }
    }
}
pub mod blake2b {
    use super::*;
    pub struct Blake2b256 {}
    impl Blake2b256 {
        #[verifier::external_body]
        pub fn digest(d: &Vec<u8>) -> (r: [u8; 32]) ensures r@ == blake2b256(d@), { unimplemented!() }
    }
}
pub mod rand {
    use super::*;
    #[verifier::external_body]
    pub fn fill(bs: &mut [u8]) -> (r: Result<(), crypto::Error>) ensures final(bs)@.len() == old(bs)@.len(), r is Err ==> fault(), { unimplemented!() }
}
pub struct XChaCha20Poly1305 {}
impl XChaCha20Poly1305 {
    pub const NONCE_LENGTH: usize = 24;
    pub const TAG_LENGTH: usize = 16;
    #[verifier::external_body]
    pub fn try_encrypt(key: &[u8], nonce: &[u8], ad: &[u8], plain: &[u8], cipher: &mut [u8], tag: &mut [u8]) -> (r: Result<usize, crypto::Error>)
        requires plain@.len() == old(cipher)@.len(),
        ensures
            r is Ok <==> key@.len() == 32 && nonce@.len() == 24 && old(tag)@.len() == 16,
            r is Ok ==> (final(cipher)@, final(tag)@) == aead_seal(1, key@, nonce@, ad@, plain@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_decrypt(key: &[u8], nonce: &[u8], ad: &[u8], plain: &mut [u8], cipher: &[u8], tag: &[u8]) -> (r: Result<usize, crypto::Error>)
        requires cipher@.len() == old(plain)@.len(),
        ensures
            key@.len() != 32 || nonce@.len() != 24 || tag@.len() != 16 ==> r is Err,
            key@.len() == 32 && nonce@.len() == 24 && tag@.len() == 16 ==> match r {
                Ok(_) => aead_open(1, key@, nonce@, ad@, cipher@, tag@) == Some(final(plain)@),
                Err(_) => aead_open(1, key@, nonce@, ad@, cipher@, tag@) is None,
            },
    { unimplemented!() }
}
// ---------------------------------------------------------------- compression: the contract is decided by C01 and C02
pub uninterp spec fn dec(i: Seq<u8>, o: Seq<u8>) -> Option<Seq<u8>>;
pub struct Lz4DecodeError {}
#[verifier::external_body]
pub fn compress(input: &[u8]) -> (r: Vec<u8>) ensures dec(r@, Seq::empty()) == Some(input@), { unimplemented!() }
#[verifier::external_body]
pub fn decompress(input: &[u8]) -> (r: Result<Vec<u8>, Lz4DecodeError>)
    ensures match dec(input@, Seq::empty()) { None => r is Err, Some(o) => r is Ok && r->Ok_0@ == o },
{ unimplemented!() }
// ---------------------------------------------------------------- errors
pub trait VxMapTo<T, F>: Sized { spec fn vx_res(&self) -> Option<T>; fn vx_map_to(self, f: F) -> (r: Result<T, F>) ensures match r { Ok(t) => self.vx_res() == Some(t), Err(e) => self.vx_res() is None && e == f }; }
/// `map_err` to an error that carries a text
impl<T, E, F> VxMapTo<T, F> for Result<T, E> {
    open spec fn vx_res(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
    #[verifier::external_body]
    fn vx_map_to(self, f: F) -> (r: Result<T, F>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_array<const N: usize>(v: &Vec<u8>, a: usize, b: usize) -> (r: [u8; N])
    requires a <= b <= v@.len(), b - a == N, // the range is inside and the length fits: no panic
    ensures r@ == v@.subrange(a as int, b as int),
{ unimplemented!() }
impl From<IoError> for ReadError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
impl From<IoError> for WriteError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_copy_from(d: &mut [u8; 32], s: &[u8; 32]) ensures final(d)@ == s@, { unimplemented!() }

pub trait VxBytes { spec fn vx_b(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vx_b(); }
impl<const N: usize> VxBytes for [u8; N] {
    open spec fn vx_b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VxBytes for [u8] {
    open spec fn vx_b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VxPush { fn vx_append(&mut self, b: &[u8]); }
impl VxPush for Vec<u8> {
    #[verifier::external_body]
    fn vx_append(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@, { unimplemented!() }
}

// ================================================================ the container
/// public ephemeral key, tag, ciphertext
pub open spec fn nonce_of(epk: Seq<u8>, key: Seq<u8>) -> Seq<u8> { blake2b256(epk + x_public(key)).take(24) }
pub open spec fn sealed_as(b: Seq<u8>, esk: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, plain: Seq<u8>) -> bool {
    let s = aead_seal(1, x_shared(esk, x_public(key)), nonce_of(x_public(esk), key), ad, plain);
    b =~= x_public(esk) + s.1 + s.0
}
/// what a container opens to
pub open spec fn opened(b: Seq<u8>, key: Seq<u8>, ad: Seq<u8>) -> Option<Seq<u8>> {
    if b.len() < 48 { None } else { aead_open(1, x_shared(key, b.take(32)), nonce_of(b.take(32), key), ad, b.skip(48), b.subrange(32, 48)) }
}
/// public keys have 32 bytes
pub broadcast axiom fn axiom_pk(sk: Seq<u8>) ensures (#[trigger] x_public(sk)).len() == 32;
pub axiom fn axiom_blake(d: Seq<u8>) ensures blake2b256(d).len() == 32;
/// what was written reads back
pub broadcast proof fn lemma_reads_back(b: Seq<u8>, esk: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, plain: Seq<u8>)
    requires #[trigger] sealed_as(b, esk, key, ad, plain), esk.len() == 32, key.len() == 32,
    ensures opened(b, key, ad) == Some(plain),
{
    broadcast use axiom_pk, axiom_dh, axiom_aead;
    let s = aead_seal(1, x_shared(esk, x_public(key)), nonce_of(x_public(esk), key), ad, plain);
    assert(b.take(32) =~= x_public(esk));
    assert(b.subrange(32, 48) =~= s.1);
    assert(b.skip(48) =~= s.0);
    assert(x_shared(esk, x_public(key)) == x_shared(key, x_public(esk)));
}
/// A container opens only to what its own tag and ciphertext are the seal of, under this key and associated data: it
/// has no other byte, and every altered byte would have to be a forgery.
pub proof fn lemma_only_sealed(b: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
    requires opened(b, key, ad) == Some(p),
    ensures b.len() == 48 + p.len(), aead_seal(1, x_shared(key, b.take(32)), nonce_of(b.take(32), key), ad, p) == (b.skip(48), b.subrange(32, 48)),
{
    broadcast use axiom_aead_open, axiom_aead;
    let s = aead_seal(1, x_shared(key, b.take(32)), nonce_of(b.take(32), key), ad, p);
    assert(s.0.len() == p.len());
}
/// header, container: what a file means
pub open spec fn header() -> Seq<u8> { seq![0x50u8, 0x41, 0x52, 0x54, 0x49, 0x2, 0x0] }
pub open spec fn headed(s: Seq<u8>) -> bool { s.len() >= 7 && s.take(7) == header() }
pub open spec fn payload_at(s: State, p: Seq<u8>, key: Seq<u8>, ad: Seq<u8>) -> Option<Seq<u8>> { match s.holds(p) { Some(c) => file_of(c, key, ad), None => None } }
pub open spec fn file_of(c: Seq<u8>, key: Seq<u8>, ad: Seq<u8>) -> Option<Seq<u8>> {
    if c.len() < 55 || c.take(7) != header() { None } else { match opened(c.skip(7), key, ad) { Some(z) => dec(z, Seq::empty()), None => None } }
}
/// and so does the file it is put in
pub broadcast proof fn lemma_file(b: Seq<u8>, esk: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, z: Seq<u8>)
    requires #[trigger] sealed_as(b, esk, key, ad, z), esk.len() == 32, key.len() == 32,
    ensures file_of(MAGIC@ + VERSION@ + b, key, ad) == dec(z, Seq::empty()),
{
    lemma_reads_back(b, esk, key, ad, z);
    let f = MAGIC@ + VERSION@ + b;
    assert(f.skip(7) =~= b);
    assert(f.take(7) =~= header());
}
broadcast proof fn lemma_changed(a: World, b: World, c: World, f: Option<int>)
    requires #[trigger] changed(a, b, f), #[trigger] changed(b, c, f),
    ensures changed(a, c, f),
{
    assert forall|i: int| a.hist().len() <= i < c.hist().len() implies (#[trigger] c.hist()[i]).only(a.st(), f) by {
        if i < b.hist().len() { assert(c.hist()[i] == b.hist()[i]); }
    }
    assert forall|i: int| 0 <= i < a.hist().len() implies #[trigger] c.hist()[i] == a.hist()[i] by { assert(b.hist()[i] == a.hist()[i]); }
}
// ---------------------------------------------------------------- sequences
broadcast proof fn lemma_assoc(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (((d + a) + b) + c) == d + (a + b + c), { assert(((d + a) + b) + c =~= d + (a + b + c)); }
broadcast proof fn lemma_assoc2(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures #[trigger] ((d + a) + b) == d + (a + b), { assert((d + a) + b =~= d + (a + b)); }
broadcast proof fn lemma_skip0(s: Seq<u8>) ensures #[trigger] s.skip(0) == s, { assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_none(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s, { assert(Seq::<u8>::empty() + s =~= s); }
broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len(), ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b), { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
broadcast proof fn lemma_skip_take(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len(), ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b), { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
broadcast proof fn lemma_header(s: Seq<u8>)
    ensures #![trigger s.take(5)] #![trigger headed(s)] headed(s) <==> s.len() >= 7 && s.take(5) =~= MAGIC@ && s.subrange(5, 7) =~= VERSION@,
{
    if s.len() < 7 { return; }
    let h = header();
    assert(s.take(7) == h ==> s.take(5) =~= MAGIC@ && s.subrange(5, 7) =~= VERSION@) by {
        assert(s.take(5) =~= s.take(7).take(5)); assert(s.subrange(5, 7) =~= s.take(7).subrange(5, 7));
        assert(h.take(5) =~= MAGIC@); assert(h.subrange(5, 7) =~= VERSION@);
    }
    assert(s.take(7) =~= s.take(5) + s.subrange(5, 7));
    assert(h =~= MAGIC@ + VERSION@);
}
/// the seal of a container, as `write` makes it
broadcast proof fn lemma_sealed(esk: Seq<u8>, key: Seq<u8>, n: Seq<u8>, ad: Seq<u8>, p: Seq<u8>)
    requires n == nonce_of(x_public(esk), key),
    ensures ({ let s = #[trigger] aead_seal(1, x_shared(esk, x_public(key)), n, ad, p); sealed_as(x_public(esk) + s.1 + s.0, esk, key, ad, p) }),
{}

//@closures on
//@file engine/src/snapshot/logic.rs
//@rewrite "\.map_err\(\|e\| (\w+)::(\w+)\(format!\([^()]*\)\)\)" => ".vx_map_to($1::$2(vx_string()))"
//@rewrite "\.to_vec\(\)" => ".vx_to_vec()"
//@rewrite "\.extend_from_slice\(" => ".vx_append("
//@rewrite "std::fs::" => "fs::"
//@rewrite "std::io::Error" => "IoError"
//@rewrite "(\w+)\[0\.\.NONCE_SIZE\]\s*\.try_into\(\)\s*\.expect\(\"[^\"]*\"\)" => "vx_slice_array(&$1, 0, NONCE_SIZE)"
//@rewrite "(\w+)\.clone_from_slice\((\w+)\)" => "vx_copy_from(&mut $1, $2)"
//@rewrite "\.as_os_str\(\)\.to_os_string\(\)" => ".vx_os()"
//@rewrite "\.push\(\"[^\"]+\"\)" => ".push(vx_lit())"
//@rewrite "(fn (?:write|read|write_to|read_from|check_min_file_len|check_header)(?:<[^>]*>)?\([^)]*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@rewrite "((?:\.write_all|\.read_exact|\.read_to_end|\bwrite|\bread|\bread_from|check_min_file_len|check_header|\brename|remove_file|\bcopy|File::create|\.open)\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*?),?\s*\)(\?|;|\n)" => "$1, Tracked(&mut *w))$2"
//@rewrite "(\.(?:sync_all|sync_data|metadata)\()\)" => "${1}Tracked(&mut *w))"
//@item const MAGIC
//@item const VERSION
//@item const KEY_SIZE
//@item type Key
//@item const NONCE_SIZE
//@item type Nonce
//@item enum ReadError
//@item enum WriteError
//@fn write
@ret r
@sig
    ensures
        /*#C03,C28*/ changed(*old(w), *final(w), old(output).file()) && final(output).file() == old(output).file(),
        /*#C03*/ match r {
            Ok(_) => exists|e: Seq<u8>, c: Seq<u8>| e.len() == 32 && #[trigger] sealed_as(c, e, key@, associated_data@, plain@) && final(output).data(*final(w)) == old(output).data(*old(w)) + c,
            Err(_) => fault(),
        },
@start
    proof { broadcast use lemma_assoc, lemma_changed, lemma_sealed, axiom_pk, axiom_aead; }
//@end
//@fn read
@ret r
@sig
    ensures
        /*#C03,C04*/ *final(w) == *old(w),
        /*#C03*/ opened(old(input).rest(*old(w)), key@, associated_data@) matches Some(o) ==> match r { Ok(p) => p@ == o, Err(_) => fault() },
        /*#C04*/ opened(old(input).rest(*old(w)), key@, associated_data@) is None ==> r is Err,
@start
    proof { broadcast use lemma_skip_skip, lemma_skip_take, lemma_skip0, lemma_none, axiom_pk; }
//@end
//@fn check_min_file_len
@ret r
@sig
    ensures
        /*#C03,C04*/ *final(w) == *old(w) && *final(input) == *old(input),
        /*#C03*/ r is Err ==> fault() || old(w).st().seen[old(input).id()].len() < 55,
        /*#C04*/ r is Ok ==> old(w).st().seen[old(input).id()].len() >= 55,
//@end
//@fn check_header
@ret r
@sig
    ensures
        /*#C03,C04*/ *final(w) == *old(w),
        /*#C03,C04*/ r is Ok && headed(old(input).rest(*old(w))) ==> final(input).rest(*old(w)) == old(input).rest(*old(w)).skip(7),
        /*#C03*/ r is Err ==> fault() || !headed(old(input).rest(*old(w))),
        /*#C04*/ r is Ok ==> headed(old(input).rest(*old(w))),
@start
    proof { broadcast use lemma_header, lemma_skip_skip, lemma_skip_take; }
//@end
//@fn read_from
@ret r
@sig
    ensures
        /*#C03,C04*/ *final(w) == *old(w),
        /*#C03*/ payload_at(old(w).st(), path@, key@, associated_data@) matches Some(o) ==> match r { Ok(p) => p@ == o, Err(_) => fault() },
        /*#C04*/ payload_at(old(w).st(), path@, key@, associated_data@) is None ==> r is Err,
@start
    proof { broadcast use lemma_skip0, lemma_skip_skip; }
//@end
//@fn write_to
@ret r
@sig
    ensures
        /*#C03*/ r is Ok ==> payload_at(final(w).st(), path@, key@, associated_data@) == Some(plain@),
        /*#C03*/ r is Ok ==> forall|q: Seq<u8>| q != path@ ==> #[trigger] final(w).st().holds(q) == old(w).st().holds(q),
        /*#C28*/ survives(*old(w), *final(w), path@, key@, associated_data@, plain@),
@start
    proof { broadcast use lemma_changed, lemma_assoc2, lemma_none, lemma_file; }
//@end
/// in every state the file system went through, a crash leaves the old file or a complete new one at `path`
pub open spec fn survives(a: World, b: World, path: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, plain: Seq<u8>) -> bool {
    &&& a.hist().len() <= b.hist().len()
    &&& forall|i: int| a.hist().len() <= i < b.hist().len() ==> crash_safe(a.st(), #[trigger] b.hist()[i], path, key, ad, plain)
}
pub open spec fn crash_safe(a: State, s: State, path: Seq<u8>, key: Seq<u8>, ad: Seq<u8>, plain: Seq<u8>) -> bool {
    s.crash(path) == a.crash(path) || (s.crash(path) matches Some(Some(c)) && file_of(c, key, ad) == Some(plain))
}
