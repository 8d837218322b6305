pub mod snap {
use super::*;
use super::snapshot::Key;
// ================================================================ serialisation: assumed contracts
// serde and bincode with the derived implementations: what was serialised deserialises to a value with the same content
pub trait VxSerde: Sized { spec fn alike(&self, o: &Self) -> bool; }
/// what these bytes deserialise to
pub uninterp spec fn unpacked<T>(b: Seq<u8>) -> Option<T>;
pub mod bincode {
    use super::*;
    pub struct Error { x: u8 }
    #[verifier::external_body]
    pub fn serialize<T: VxSerde>(t: &T) -> (r: Result<Vec<u8>, Error>)
        ensures match r { Ok(b) => unpacked::<T>(b@) matches Some(u) && t.alike(&u), Err(_) => fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<T: VxSerde>(b: &Vec<u8>) -> (r: Result<T, Error>)
        ensures match r { Ok(t) => unpacked::<T>(b@) matches Some(u) && u.alike(&t), Err(_) => unpacked::<T>(b@) is None || fault() },
    { unimplemented!() }
}
pub mod random {
    #[verifier::external_body]
    pub fn random() -> (r: [u8; 32]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_empty() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
/// `try_into` an array of fixed size
pub trait VxArr { spec fn vx_s(&self) -> Seq<u8>; fn vx_to_array(&self) -> (r: Result<[u8; 32], ()>) ensures match r { Ok(a) => a@ == self.vx_s(), Err(_) => self.vx_s().len() != 32 }; }
impl VxArr for [u8] { open spec fn vx_s(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_array(&self) -> (r: Result<[u8; 32], ()>) { unimplemented!() } }
impl VxArr for Vec<u8> { open spec fn vx_s(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_array(&self) -> (r: Result<[u8; 32], ()>) { unimplemented!() } }
pub trait VxAsMut { fn vx_zeroize(&mut self); }
impl<const N: usize> VxAsMut for [u8; N] { #[verifier::external_body] fn vx_zeroize(&mut self) { unimplemented!() } }
impl<const N: usize> VxAsRef for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl Zeroize for Vec<u8> { #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_own(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@, { unimplemented!() }
pub trait VxErrInto<T>: Sized { spec fn vx_opt(&self) -> Option<T>; fn vx_err_into<F>(self) -> (r: Result<T, F>) ensures match r { Ok(t) => self.vx_opt() == Some(t), Err(_) => self.vx_opt() is None }; }
impl<T, E> VxErrInto<T> for Result<T, E> {
    open spec fn vx_opt(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
    #[verifier::external_body]
    fn vx_err_into<F>(self) -> (r: Result<T, F>) { unimplemented!() }
}
// derived
impl<K, V> Clone for Cache<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for DbView<Provider> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl DbView<Provider> { pub fn default() -> (r: Self) ensures r.wf(), r.vaults@ == Map::<VaultId, Vault<Provider>>::empty(), { DbView::new() } }
impl VxLawfulClone for ClientId {}
// ---------------------------------------------------------------- errors
//@rewrites clear
//@file client/src/types/error.rs
//@rewrite "std::io::Error" => "snapshot::IoError"
//@item enum SnapshotError
//@rewrites clear
impl From<ClientError> for SnapshotError { #[verifier::external_body] fn from(e: ClientError) -> Self { unimplemented!() } }
impl From<bincode::Error> for SnapshotError { #[verifier::external_body] fn from(e: bincode::Error) -> Self { unimplemented!() } }
impl From<CryptoError> for SnapshotError { #[verifier::external_body] fn from(e: CryptoError) -> Self { unimplemented!() } }
impl<E> From<VaultError<E>> for SnapshotError { #[verifier::external_body] fn from(e: VaultError<E>) -> Self { unimplemented!() } }
impl From<RecordError> for SnapshotError { #[verifier::external_body] fn from(e: RecordError) -> Self { unimplemented!() } }
impl From<snapshot::ReadError> for SnapshotError { #[verifier::external_body] fn from(e: snapshot::ReadError) -> Self { unimplemented!() } }
impl From<snapshot::WriteError> for SnapshotError { #[verifier::external_body] fn from(e: snapshot::WriteError) -> Self { unimplemented!() } }
impl From<SnapshotError> for ClientError { #[verifier::external_body] fn from(e: SnapshotError) -> Self { unimplemented!() } }

// ================================================================ what it means that two states are the same
pub type Parts = (HashMap<VaultId, PKey<Provider>>, DbView<Provider>);
pub open spec fn keys_like(a: HashMap<VaultId, PKey<Provider>>, b: HashMap<VaultId, PKey<Provider>>) -> bool {
    &&& forall|v: VaultId| #![trigger a@.contains_key(v)] #![trigger b@.contains_key(v)] a@.contains_key(v) <==> b@.contains_key(v)
    &&& forall|v: VaultId| #![trigger a@[v]] #![trigger b@[v]] a@.contains_key(v) ==> a@[v]@ == b@[v]@
}
pub open spec fn db_like(a: DbView<Provider>, b: DbView<Provider>) -> bool {
    &&& forall|v: VaultId| #![trigger a.vaults@.contains_key(v)] #![trigger b.vaults@.contains_key(v)] a.vaults@.contains_key(v) <==> b.vaults@.contains_key(v)
    &&& forall|v: VaultId| #![trigger a.vaults@[v]] #![trigger b.vaults@[v]] a.vaults@.contains_key(v) ==> a.vaults@[v].key@ == b.vaults@[v].key@ && a.vaults@[v].entries@ == b.vaults@[v].entries@
}
pub open spec fn store_like(a: Cache<Vec<u8>, Vec<u8>>, b: Cache<Vec<u8>, Vec<u8>>) -> bool {
    &&& forall|k: Vec<u8>, t: int| #![trigger a.live(k, t)] #![trigger b.live(k, t)] a.live(k, t) == b.live(k, t)
    &&& forall|k: Vec<u8>| #![trigger a.has(k)] #![trigger b.has(k)] a.has(k) == b.has(k)
}
pub open spec fn like(a: ClientState, b: ClientState) -> bool { keys_like(a.0, b.0) && db_like(a.1, b.1) && store_like(a.2, b.2) }
/// the same clients with the same states
pub open spec fn all_like(a: Map<ClientId, ClientState>, b: Map<ClientId, ClientState>) -> bool {
    &&& forall|c: ClientId| #![trigger a.contains_key(c)] #![trigger b.contains_key(c)] a.contains_key(c) <==> b.contains_key(c)
    &&& forall|c: ClientId| #![trigger a[c]] #![trigger b[c]] a.contains_key(c) ==> like(a[c], b[c])
}
impl VxSerde for Parts { open spec fn alike(&self, o: &Self) -> bool { keys_like(self.0, o.0) && db_like(self.1, o.1) } }
impl VxSerde for SnapshotState { open spec fn alike(&self, o: &Self) -> bool { all_like(self.0@, o.0@) } }
pub open spec fn parts_ok(s: Parts) -> bool {
    &&& s.1.wf()
    &&& forall|x: VaultId| s.0@.contains_key(x) ==> (#[trigger] s.0@[x])@.len() == key_len::<Provider>()
    &&& forall|v: VaultId| #[trigger] s.1.vaults@.contains_key(v) ==> s.0@.contains_key(v) && s.0@[v]@ == s.1.vaults@[v].key@
}
pub open spec fn states_ok(m: Map<ClientId, ClientState>) -> bool { forall|c: ClientId| m.contains_key(c) ==> state_ok(#[trigger] m[c]) }
pub broadcast proof fn lemma_wf_like(a: DbView<Provider>, b: DbView<Provider>)
    requires #[trigger] db_like(a, b), a.wf(),
    ensures b.wf(), forall|v: VaultId, r: RecordId| #[trigger] a.at(v, r) == b.at(v, r), forall|v: VaultId, r: RecordId| #[trigger] a.revoked(v, r) == b.revoked(v, r),
{
    assert forall|v: VaultId| b.vaults@.contains_key(v) implies (#[trigger] b.vaults@[v]).wf() by { assert(a.vaults@.contains_key(v)); assert(a.vaults@[v].wf()); }
    assert forall|v: VaultId, r: RecordId| #[trigger] a.at(v, r) == b.at(v, r) by {
        if a.vaults@.contains_key(v) { assert(a.vaults@[v].entries@ == b.vaults@[v].entries@); assert(a.vaults@[v].key@ == b.vaults@[v].key@); }
    }
    assert forall|v: VaultId, r: RecordId| #[trigger] a.revoked(v, r) == b.revoked(v, r) by {
        if a.vaults@.contains_key(v) { assert(a.vaults@[v].entries@ == b.vaults@[v].entries@); }
    }
}
broadcast proof fn lemma_parts_like(a: Parts, b: Parts)
    requires #[trigger] a.alike(&b), parts_ok(a),
    ensures parts_ok(b),
{
    lemma_wf_like(a.1, b.1);
    assert forall|v: VaultId| #[trigger] b.1.vaults@.contains_key(v) implies b.0@.contains_key(v) && b.0@[v]@ == b.1.vaults@[v].key@ by {
        assert(a.1.vaults@.contains_key(v)); assert(a.1.vaults@[v].key@ == b.1.vaults@[v].key@); assert(a.0@[v]@ == b.0@[v]@);
    }
    assert forall|x: VaultId| b.0@.contains_key(x) implies (#[trigger] b.0@[x])@.len() == key_len::<Provider>() by { assert(a.0@[x]@ == b.0@[x]@); }
}
pub broadcast proof fn lemma_like_sym(a: ClientState, b: ClientState) requires #[trigger] like(a, b), ensures like(b, a), {}
pub broadcast proof fn lemma_like_trans(a: ClientState, b: ClientState, c: ClientState) requires #[trigger] like(a, b), #[trigger] like(b, c), ensures like(a, c), {}
pub open spec fn among<K, V>(s: Seq<(K, V)>, n: int, k: K) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k }
pub broadcast proof fn lemma_among<K, V>(m: Map<K, V>, s: Seq<(K, V)>)
    requires #[trigger] vx_lists_owned(m, s),
    ensures forall|k: K| #![trigger m.contains_key(k)] #![trigger among(s, s.len() as int, k)] m.contains_key(k) <==> among(s, s.len() as int, k),
{}
pub open spec fn listed<K>(s: Seq<K>, n: int, k: K) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == k }
pub broadcast proof fn lemma_store_like(a: Cache<Vec<u8>, Vec<u8>>) ensures #[trigger] store_like(a, a), {}
pub broadcast proof fn lemma_states_like(a: SnapshotState, b: SnapshotState)
    requires #[trigger] a.alike(&b), states_ok(a.0@),
    ensures states_ok(b.0@),
{
    assert forall|c: ClientId| b.0@.contains_key(c) implies state_ok(#[trigger] b.0@[c]) by {
        assert(a.0@.contains_key(c));
        let x = a.0@[c]; let y = b.0@[c];
        lemma_parts_like((x.0, x.1), (y.0, y.1));
    }
}

// ================================================================ snapshot.rs
//@closures on
//@file client/src/types/snapshot.rs
//@item type EncryptedClientState
//@item struct Snapshot
//@item struct SnapshotState
impl SnapshotPath {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == *old(w), r == (old(w).st().holds(self@) is Some), { unimplemented!() }
}
#[verifier::external_body]
pub struct SnapshotPath { x: u8 }
pub enum UseKey { Key(snapshot::Key), Stored(Location) }
// derived
impl Snapshot {
    pub fn default() -> (r: Self)
        ensures r.wf(), r.states@ == Map::<ClientId, EncryptedClientState>::empty(), forall|l: (VaultId, RecordId)| #[trigger] r.secret(l) is None,
    { Snapshot { keystore: KeyStore::default(), db: DbView::default(), states: HashMap::default() } }
}
impl SnapshotState { pub fn default() -> (r: Self) ensures r.0@ == Map::<ClientId, ClientState>::empty(), { SnapshotState(HashMap::default()) } }
/// the clients and states in a snapshot file, as the key opens it
pub open spec fn content(s: snapshot::State, p: Seq<u8>, key: Seq<u8>) -> Option<Map<ClientId, ClientState>> {
    match payload_at(s, p, key, Seq::<u8>::empty()) { None => None, Some(b) => match unpacked::<SnapshotState>(b) { None => None, Some(u) => Some(u.0@) } }
}
/// a file that the key opens was written by this code: the states in it are intact
pub open spec fn honest(s: snapshot::State, p: Seq<u8>, key: Seq<u8>) -> bool { content(s, p, key) matches Some(m) ==> states_ok(m) }
pub broadcast proof fn lemma_hold_ok(s: Snapshot, m: Map<ClientId, ClientState>)
    requires #[trigger] s.holds_all(m), s.wf(),
    ensures states_ok(m),
{
    assert forall|c: ClientId| m.contains_key(c) implies state_ok(#[trigger] m[c]) by {
        assert(s.states@.contains_key(c));
        let x = s.client(c).unwrap(); let y = m[c];
        lemma_parts_like((x.0, x.1), (y.0, y.1));
    }
}
broadcast proof fn lemma_hold_like(s: Snapshot, a: SnapshotState, b: SnapshotState)
    requires #[trigger] s.holds_all(b.0@), #[trigger] a.alike(&b),
    ensures s.holds_all(a.0@),
{
    assert forall|c: ClientId| a.0@.contains_key(c) implies s.client(c) is Some && like(s.client(c).unwrap(), #[trigger] a.0@[c]) by { assert(b.0@.contains_key(c)); lemma_like_trans(s.client(c).unwrap(), b.0@[c], a.0@[c]); }
}
impl Snapshot {
    /// the keys and vaults that are held for a client
    pub open spec fn parts(&self, c: ClientId) -> Option<Parts> {
        match self.keystore.at(VaultId(c.0)) {
            None => None,
            Some(k) => match opened(self.states@[c].0@, k, Seq::<u8>::empty()) { None => None, Some(p) => unpacked::<Parts>(p) },
        }
    }
    /// the state that is held for a client
    pub open spec fn client(&self, c: ClientId) -> Option<ClientState> {
        if self.states@.contains_key(c) { match self.parts(c) { None => None, Some(p) => Some((p.0, p.1, self.states@[c].1)) } } else { None }
    }
    /// every client that is held can be opened, and its state is intact
    pub open spec fn wf(&self) -> bool {
        &&& self.keystore.wf() && self.db.wf()
        &&& forall|c: ClientId| #[trigger] self.states@.contains_key(c) ==> self.keystore.at(VaultId(c.0)) is Some && (self.parts(c) matches Some(p) && parts_ok(p))
    }
    /// these are the clients and states that it holds
    pub open spec fn holds_all(&self, m: Map<ClientId, ClientState>) -> bool {
        &&& forall|c: ClientId| #![trigger m.contains_key(c)] #![trigger self.states@.contains_key(c)] m.contains_key(c) <==> self.states@.contains_key(c)
        &&& forall|c: ClientId| #![trigger m[c]] #![trigger self.client(c)] m.contains_key(c) ==> self.client(c) is Some && like(self.client(c).unwrap(), m[c])
    }
    /// the secret that is readable at a location of its own vaults
    pub open spec fn secret(&self, l: (VaultId, RecordId)) -> Option<Seq<u8>> {
        match self.keystore.at(l.0) { Some(k) => if self.db.opens(l.0, k) { match self.db.at(l.0, l.1) { Some(c) => Some(c.data), None => None } } else { None }, None => None }
    }
    pub open spec fn same_but(&self, o: &Self, c: ClientId) -> bool { forall|x: ClientId| x != c ==> #[trigger] self.client(x) == o.client(x) }
    pub open spec fn same(&self, o: &Self) -> bool { forall|x: ClientId| #[trigger] self.client(x) == o.client(x) }
}
//@rewrite "\.borrow\(\)\s*\.deref\(\)\s*\.try_into\(\)" => ".borrow().vx_to_array()"
//@rewrite "&\[\]" => "vx_empty()"
//@rewrite "\bread\(&mut (\w+)\.as_slice\(\)," => "snapshot::read_mem($1.as_slice(),"
//@rewrite "([^.\w])write\(&(\w+), &mut (\w+)," => "${1}snapshot::write_mem(&$2, &mut $3,"
//@rewrite "PKey::load\((\w+)\.into\(\)\)" => "PKey::load(vx_own(&$1))"
//@rewrite "(create_key\(\w+\))\s*\.expect\(\"[^\"]*\"\)" => "$1.vx_or_panic()"
//@rewrite "RecordHint::new\(\"\"\)" => "RecordHint::new(vx_own(vx_empty()))"
//@rewrite "K: AsRef<\[u8\]> \+ AsMut<\[u8\]> \+ Zeroize" => "K: VxAsRef + VxAsMut"
//@rewrite "\.as_mut\(\)\.zeroize\(\)" => ".vx_zeroize()"
//@rewrite "\bfor (\([^)]*\)) in (vx_it: )?(\w+(?:\.\w+)*)\s*(\{|\n\s*invariant)" => "for $1 in ${2}${3}.into_iter() $4"
//@rewrite "let mut (\w+) = Vec::new\(\);(\s*self\s*\.db\s*\.get_guard)" => "let ($1, vx_set) = vx_once::<Vec<u8>>();$2"
//@rewrite "\w+\.extend_from_slice\(&(\w+)\)" => "vx_set.set(vx_own($1))"
//@rewrite "\b(\w+)\.try_into\(\)\.map_err" => "$1.unwrap().vx_to_array().map_err"
//@rewrite "\b(read_from|write_to)_file\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*?),?\s*\)(\?|\.|;|\n)" => "snapshot::$1($2, Tracked(&mut *w))$3"
//@rewrite "(fn (?:read_from_snapshot|write_to_snapshot)\((?:[^()]|\([^()]*\))*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@rewrite "\.map_err\(\|\w+\| \w+\.into\(\)\)" => ".vx_err_into()"
impl Snapshot {
    /// the key that a file is to be written with
    pub open spec fn key_of(&self, u: UseKey) -> Option<Seq<u8>> { match u { UseKey::Key(k) => Some(k@), UseKey::Stored(l) => self.secret(l.id()) } }
    /// the file holds exactly what the snapshot holds, and the key opens it
    pub open spec fn written(&self, s: snapshot::State, p: Seq<u8>, k: Option<Seq<u8>>) -> bool {
        k matches Some(x) && content(s, p, x) matches Some(m) && self.holds_all(m)
    }
//@fn Snapshot::read_from_snapshot
@ret r
@start
    broadcast use lemma_states_like, lemma_hold_like;
@sig
    requires honest(old(w).st(), snapshot_path@, key@),
    ensures
        *final(w) == *old(w),
        match r {
            Ok(s) => s.wf() && (content(old(w).st(), snapshot_path@, key@) matches Some(m) && s.holds_all(m)),
            Err(_) => true,
        },
        write_key is None && r is Err ==> fault() || content(old(w).st(), snapshot_path@, key@) is None,
//@end
//@fn Snapshot::write_to_snapshot
@ret r
@start
    broadcast use lemma_hold_like;
@closure 0
-> (vx_r: Result<(), Infallible>) ensures vx_r is Ok, vx_set.val() matches Some(v) && v@ == guarded_data@
@sig
    requires self.wf(),
    ensures
        r is Ok ==> self.written(final(w).st(), snapshot_path@, self.key_of(use_key)),
        r is Ok ==> forall|q: Seq<u8>| q != snapshot_path@ ==> #[trigger] final(w).st().holds(q) == old(w).st().holds(q),
//@end
//@fn Snapshot::get_state
@ret r
@closure 0
-> (vx_r: Option<(&EncryptedClientState, PKey<Provider>)>) requires self.keystore.wf() ensures match vx_r { Some(t) => t.0 == state && self.keystore.at(vid) == Some(t.1@), None => self.keystore.at(vid) is None }
@closure 2
-> (vx_r: Option<(&EncryptedClientState, Key)>) ensures match vx_r { Some(t) => t.0 == vx_p0.0 && t.1@ == vx_p0.1@, None => vx_p0.1@.len() != 32 }
@start
    broadcast use axiom_key_len, lemma_parts_like, lemma_store_like;
@sig
    requires self.wf(),
    ensures match r {
        Ok(s) => state_ok(s) && if self.states@.contains_key(id) { like(self.client(id).unwrap(), s) } else { s.0@ == Map::<VaultId, PKey<Provider>>::empty() && s.1.vaults@ == Map::<VaultId, Vault<Provider>>::empty() && forall|k: Vec<u8>, t: int| #[trigger] s.2.live(k, t) is None },
        Err(_) => fault(),
    },
//@end
//@fn Snapshot::purge_client
@ret r
@sig
    requires old(self).wf(),
    ensures final(self).wf(), final(self).client(id) is None, !final(self).states@.contains_key(id), final(self).same_but(old(self), id), r is Ok,
//@end
//@fn Snapshot::has_data
@ret r
@sig
    ensures r == self.states@.contains_key(cid),
//@end
//@fn Snapshot::clear
@ret r
@sig
    requires old(self).wf(),
    ensures final(self).wf(), final(self).states@ == Map::<ClientId, EncryptedClientState>::empty(), forall|l: (VaultId, RecordId)| #[trigger] final(self).secret(l) is None, r is Ok,
//@end
//@fn Snapshot::add_data
@ret r
@start
    broadcast use axiom_key_len, lemma_parts_like, lemma_store_like, snapshot::lemma_reads_back, snapshot::lemma_none;
@sig
    requires old(self).wf(), state_ok(vx_a2),
    ensures
        final(self).wf(), final(self).same_but(old(self), id), final(self).db == old(self).db,
        forall|v: VaultId| v != VaultId(id.0) ==> #[trigger] final(self).keystore.at(v) == old(self).keystore.at(v),
        match r {
            Ok(_) => final(self).states@.dom() == old(self).states@.dom().insert(id) && final(self).client(id) is Some && like(final(self).client(id).unwrap(), vx_a2),
            Err(_) => fault() && final(self).states@ == old(self).states@ && final(self).same(old(self)),
        },
//@end
//@fn Snapshot::store_snapshot_key
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).states@ == old(self).states@,
        r is Ok ==> final(self).secret((vault_id, record_id)) == Some(snapshot_key@),
//@end
//@fn Snapshot::store_secret_key
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).states@ == old(self).states@,
        r is Ok ==> final(self).secret(location.id()) == Some(encryption_key.bytes()),
//@end
//@fn Snapshot::from_state
@ret r
@start
    let ghost vx_m = state.0@;
    broadcast use lemma_like_sym, lemma_like_trans, lemma_among;
@loopiter 0 vx_it
@loop 0 for
    invariant
        vx_lists_owned(vx_m, vx_it.seq()), states_ok(vx_m), snapshot.wf(),
        forall|c: ClientId| #![trigger snapshot.states@.contains_key(c)] #![trigger vx_m.contains_key(c)] snapshot.states@.contains_key(c) <==> among(vx_it.seq(), vx_it.index@ as int, c),
        forall|c: ClientId| #![trigger snapshot.states@.contains_key(c)] #![trigger vx_m[c]] #![trigger snapshot.client(c)] snapshot.states@.contains_key(c) ==> snapshot.client(c) is Some && like(snapshot.client(c).unwrap(), vx_m[c]),
@sig
    requires states_ok(state.0@),
    ensures match r {
        Ok(s) => s.wf() && s.holds_all(state.0@),
        Err(_) => fault() || write_key is Some,
    },
//@end
//@fn Snapshot::get_snapshot_state
@ret r
@start
    broadcast use lemma_like_sym, lemma_like_trans;
@loopiter 0 vx_it
@loop 0 for
    invariant
        self.wf(), states_ok(state.0@),
        forall|c: ClientId| #[trigger] self.states@.contains_key(c) <==> listed(vx_it.seq(), vx_it.seq().len() as int, c),
        forall|c: ClientId| #[trigger] state.0@.contains_key(c) <==> listed(vx_it.seq(), vx_it.index@ as int, c),
        forall|c: ClientId| #[trigger] state.0@.contains_key(c) ==> self.client(c) is Some && like(self.client(c).unwrap(), state.0@[c]),
@sig
    requires self.wf(),
    ensures match r {
        Ok(s) => states_ok(s.0@) && self.holds_all(s.0@),
        Err(_) => fault(),
    },
//@end
}
} // mod snap
use snap::*;
