// ================================================================ client.rs, clientrunner.rs
/// `ids` are the locations, with the keys of their vaults
pub open spec fn resolved(c: Client, locs: Seq<Location>, ids: Seq<(Key<Provider>, VaultId, RecordId)>) -> bool {
    ids.len() == locs.len() && forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]).1 == locs[i].id().0 && ids[i].2 == locs[i].id().1 && c.keystore@.at(ids[i].1) == Some(ids[i].0@)
}
pub open spec fn same_contents(a: DbView<Provider>, b: DbView<Provider>) -> bool {
    forall|v: VaultId, x: RecordId| #[trigger] a.at(v, x) == b.at(v, x)
}
proof fn lemma_sees<const N: usize>(c: Client, db: DbView<Provider>, locs: Seq<Location>, ids: Seq<(Key<Provider>, VaultId, RecordId)>)
    requires c.wf(), resolved(c, locs, ids), same_contents(c.db@, db), forall|v: VaultId| #[trigger] c.db@.vaults@.contains_key(v) ==> db.opens(v, c.db@.vaults@[v].key@),
    ensures
        forall|b: [Buffer<u8>; N]| #[trigger] db.all_of(ids, b@) ==> sees(c, locs, views(b)),
        all_readable(c, locs) ==> db.readable(ids),
{
    assert forall|b: [Buffer<u8>; N]| #[trigger] db.all_of(ids, b@) implies sees(c, locs, views(b)) by {
        assert forall|i: int| 0 <= i < locs.len() implies c.at((#[trigger] locs[i]).id()) == Some(views(b)[i]) by {
            assert(ids[i].1 == locs[i].id().0);
            assert(views(b)[i] == b@[i]@);
            assert(c.db@.at(ids[i].1, ids[i].2) == db.at(ids[i].1, ids[i].2));
        }
    }
    if all_readable(c, locs) {
        assert forall|i: int| 0 <= i < ids.len() implies db.opens((#[trigger] ids[i]).1, ids[i].0@) && db.at(ids[i].1, ids[i].2) is Some by {
            assert(c.at(locs[i].id()) is Some);
            assert(c.db@.at(ids[i].1, ids[i].2) == db.at(ids[i].1, ids[i].2));
            assert(c.db@.vaults@.contains_key(ids[i].1));
        }
    }
}
//@rewrites clear
//@closures on
//@macros on
//@include once.inc
//@rewrite "Arc<(RwLock<[^\n]*>)>,?" => "$1,"
//@rewrite "Arc::new\(RwLock::new\((.*)\)\)," => "RwLock::new($1),"
//@file client/src/types/client.rs
//@item struct Client
impl Client {
    /// the key store and the vaults are intact, and hold the same keys
    pub open spec fn wf(&self) -> bool {
        &&& self.keystore@.wf() && self.db@.wf()
        &&& forall|v: VaultId| #[trigger] self.db@.vaults@.contains_key(v) ==> self.keystore@.at(v) == Some(self.db@.vaults@[v].key@)
    }
}
impl RunnerState for Client {
    open spec fn inv(&self) -> bool { self.wf() }
    open spec fn at(&self, l: (VaultId, RecordId)) -> Option<Seq<u8>> { match self.db@.at(l.0, l.1) { Some(c) => Some(c.data), None => None } }
    open spec fn blocked(&self, l: (VaultId, RecordId)) -> bool { self.db@.revoked(l.0, l.1) }
    open spec fn known(&self, v: VaultId) -> bool { self.keystore@.at(v) is Some }
}
// derived
impl Store { pub fn default() -> (r: Self) ensures forall|k: Vec<u8>, t: int| #[trigger] r.map().live(k, t) is None, { Store { cache: RwLock::new(Cache::default()) } } }
impl ClientId { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Default for Client {
//@fn Default for Client::default
@ret r
@sig
    ensures
        r.wf(), forall|l: (VaultId, RecordId)| #[trigger] r.at(l) is None && !r.blocked(l), forall|v: VaultId| !#[trigger] r.known(v), forall|k: Vec<u8>, t: int| #[trigger] r.store.map().live(k, t) is None,
        // the same, of the parts
        forall|v: VaultId, x: RecordId| #![trigger r.db@.at(v, x)] #![trigger r.db@.revoked(v, x)] r.db@.at(v, x) is None && !r.db@.revoked(v, x),
        forall|v: VaultId| #[trigger] r.keystore@.at(v) is None,
//@end
}
impl RecordHint {
    // contract decided by C06
    #[verifier::external_body]
    pub fn new(hint: Vec<u8>) -> (r: Option<Self>) ensures r is Some <==> hint@.len() <= 24, { unimplemented!() }
}
pub mod rand {
    use vstd::prelude::*;
    /// stronghold_utils::random: 1 to n bytes
    #[verifier::external_body]
    pub fn variable_bytestring(n: usize) -> (r: Vec<u8>) ensures 1 <= r@.len() <= n, { unimplemented!() }
}
//@file client/src/procedures/clientrunner.rs
//@item const DEFAULT_RANDOM_HINT_SIZE
//@item type ResolvedLocation
//@rewrite "fn (exec_proc|write_to_vault|revoke_data|garbage_collect|get_guard)(<.*>)?\(\s*&self" => "fn $1$2(&mut self"
//@rewrite "\bVaultError::LockPoisoned" => "VaultError::<FatalProcedureError>::LockPoisoned"
//@rewrite "let mut ret = None;" => "let (ret, vx_set) = vx_once();"
//@rewrite "ret = Some\((.*)\);" => "vx_set.set($1);"
//@rewrite "<\[_; N\]>::try_from\(ids\)\s*\.expect\([^)]*\)" => "vx_array(ids)"
//@rewrite "\"[^\"]*\"\.to_string\(\)\.into\(\)" => "vx_fatal()"
//@rewrite "\.expect\(\"[^\"]*\"\)" => ".vx_or_panic()"
impl Runner for Client {
//@fn Runner for Client::get_guards
@ret r
@rx "guard: \[Buffer<u8>; N\]\| \{" => "guard: [Buffer<u8>; N]| -> (vx_r: Result<(), FatalProcedureError>) requires f.requires((guard,)) ensures match vx_r { Ok(_) => exists|p: Result<T, FatalProcedureError>| #[trigger] f.ensures((guard,), p) && (p matches Ok(o) && vx_set.val() == Some(o)), Err(e) => f.ensures((guard,), Err(e)) } {"
@loopiter 0 vx_it
@rx "for location in vx_it: \( (\w+) \)" => "for location in vx_it: vx_vec($1)"
@loop 0 for
    invariant
        self.wf(), vx_it.seq() == locations@, ids@.len() == vx_it.index@, keystore == self.keystore@,
        forall|i: int| 0 <= i < ids@.len() ==> (#[trigger] ids@[i]).1 == locations@[i].id().0 && ids@[i].2 == locations@[i].id().1 && self.keystore@.at(ids@[i].1) == Some(ids@[i].0@),
@rx "let res = db" => "let ghost vx_ids = ids@; proof { assert(resolved(*self, locations@, vx_ids)); lemma_sees::<N>(*self, *db, locations@, vx_ids); } let res = db"
//@end
//@fn Runner for Client::exec_proc
@ret r
@attr #[verifier::loop_isolation(false)]
@rx "guards: \[Buffer<u8>; N\]\| \{" => "guards: [Buffer<u8>; N]| -> (vx_r: Result<Vec<u8>, FatalProcedureError>) requires f.requires((guards,)) ensures match vx_r { Ok(d) => exists|p: Products<T>| vx_set.val() == Some(p.output) && p.secret == d && #[trigger] f.ensures((guards,), Ok(p)), Err(e) => f.ensures((guards,), Err(e)) } {"
@loopiter 0 vx_it
@rx "for location in vx_it: \( (\w+) \)" => "for location in vx_it: vx_vec($1)"
@loop 0 for
    invariant
        vx_it.seq() == source_locations@, ids@.len() == vx_it.index@, *keystore == vx_ks, vx_ks.wf(),
        forall|i: int| 0 <= i < ids@.len() ==> (#[trigger] ids@[i]).1 == source_locations@[i].id().0 && ids@[i].2 == source_locations@[i].id().1 && keystore.at(ids@[i].1) == Some(ids@[i].0@),
@before 0
let ghost vx_ks = *keystore;
@rx "let res = db" => "let ghost vx_ids = sources@; proof { assert(resolved(*old(self), source_locations@, vx_ids)); lemma_sees::<N>(*old(self), *db, source_locations@, vx_ids); } let res = db"
//@end
//@fn Runner for Client::write_to_vault
@ret r
//@end
//@fn Runner for Client::revoke_data
@ret r
//@end
//@fn Runner for Client::garbage_collect
@ret r
//@end
}
impl Client {
//@fn Client::get_guard
@ret r
@rx "guard: Buffer<u8>\| \{" => "guard: Buffer<u8>| -> (vx_r: Result<(), FatalProcedureError>) requires f.requires((guard,)) ensures match vx_r { Ok(_) => exists|p: Result<T, FatalProcedureError>| #[trigger] f.ensures((guard,), p) && (p matches Ok(o) && vx_set.val() == Some(o)), Err(e) => f.ensures((guard,), Err(e)) } {"
@sig
    requires old(self).wf(), forall|b: Buffer<u8>| f.requires((b,)),
    ensures
        final(self).wf(), same(*old(self), *final(self)),
        match r {
            Ok(o) => exists|b: Buffer<u8>, p: Result<T, FatalProcedureError>| old(self).at(location.id()) == Some(b@) && #[trigger] f.ensures((b,), p) && p == Ok::<T, FatalProcedureError>(o),
            Err(_) => fault() || old(self).at(location.id()) is None
                || exists|b: Buffer<u8>, p: Result<T, FatalProcedureError>| old(self).at(location.id()) == Some(b@) && #[trigger] f.ensures((b,), p) && p is Err,
        },
//@end
}
