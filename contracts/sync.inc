// ================================================================ sync.rs: copying between clients
use eng::{contents, rec_wf};
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub trait VxContains<T> { spec fn vx_has(&self, x: T) -> bool; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.vx_has(*x); }
impl<T> VxContains<T> for Vec<T> { open spec fn vx_has(&self, x: T) -> bool { self@.contains(x) } #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() } }
pub trait VxRetain<T> { spec fn vx_all(&self) -> Seq<T>;
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| #![trigger old(self).vx_all()[i]] 0 <= i < old(self).vx_all().len() ==> f.requires((&old(self).vx_all()[i],)),
        ensures vx_filtered(old(self).vx_all(), f, final(self).vx_all()); }
impl<T> VxRetain<T> for Vec<T> { open spec fn vx_all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() } }
/// `HashMap::from` an array
pub fn vx_map_of<K, V>(a: Vec<(K, V)>) -> (r: HashMap<K, V>)
    ensures r@ == vx_extend(Map::<K, V>::empty(), a@), a@.len() == 1 ==> r@ =~= map![a@[0].0 => a@[0].1],
{ let mut m = HashMap::new(); m.extend(a); proof { reveal_with_fuel(vx_extend, 2); } m }
#[verifier::external_body]
pub fn vx_string() -> (r: String) { unimplemented!() }

//@closures on
//@rewrite "RwLockReadGuard<'a, KeyStore<Provider>>" => "&'a KeyStore<Provider>"
//@rewrite "Self::Db" => "&'a DbView<Provider>"
//@rewrite "(\w)\.contains\(" => "$1.vx_contains("
//@rewrite "\.retain\(" => ".vx_retain("
//@rewrite "\.into_iter\(\)" => ".vx_into_iter()"
//@rewrite "format!\([^()]*\)" => "vx_string()"
//@file client/src/sync.rs
//@item enum MergePolicy #[derive(Clone, Copy)]
//@item struct SyncClientsConfig
//@item enum KeyProvider
//@item type ClientHierarchy
pub type Db = DbView<Provider>;
impl SyncClientsConfig {
    /// the vault `v` of the source is to be copied
    pub open spec fn vault(&self, v: VaultId) -> bool { match self.select_vaults { Some(s) => s@.contains(v), None => true } }
    /// the record `x` of the vault `v` is to be copied, if the vault is
    pub open spec fn record(&self, v: VaultId, x: RecordId) -> bool { self.select_records@.contains_key(v) ==> self.select_records@[v]@.contains(x) }
    /// where it goes
    pub open spec fn to(&self, v: VaultId) -> VaultId { if self.map_vaults@.contains_key(v) { self.map_vaults@[v] } else { v } }
    /// a record with this blob takes the place of what is at the target
    pub open spec fn takes(&self, there: Option<Val3>, b: BlobId) -> bool { match there { None => true, Some(o) => self.merge_policy is Replace && o.blob != b } }
}
// ---------------------------------------------------------------- configuring
// derived
impl SyncClientsConfig {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.select_vaults is None, r.select_records@ == Map::<VaultId, Vec<RecordId>>::empty(), r.map_vaults@ == Map::<VaultId, VaultId>::empty(), { unimplemented!() }
}
impl<'a, P: VxAsRef> VxAsRef for &'a P { open spec fn bytes(&self) -> Seq<u8> { (*self).bytes() } fn as_ref(&self) -> (r: &[u8]) { (*self).as_ref() } }
#[verifier::external_body]
pub fn derive_record_id<V: VxAsRef, R: VxAsRef>(vault_path: V, record_path: R) -> (r: RecordId) ensures r == record_id_of(vault_path.bytes(), record_path.bytes()), { unimplemented!() }
//@rewrite "\bP: AsRef<\[u8\]>" => "P: VxAsRef"
//@rewrite "\bV: AsRef<\[u8\]>" => "V: VxAsRef"
//@rewrite "\bR: AsRef<\[u8\]>" => "R: VxAsRef"
//@rewrite "\.\.Default::default\(\)" => "..Self::default()"
//@rewrite "SyncClientsConfig \{\s*merge_policy" => "Self { merge_policy"
impl SyncClientsConfig {
//@fn SyncClientsConfig::new
@ret r
@sig
    ensures r.merge_policy == merge_policy, forall|v: VaultId| #[trigger] r.vault(v), forall|v: VaultId, x: RecordId| #[trigger] r.record(v, x), forall|v: VaultId| #[trigger] r.to(v) == v,
//@end
//@fn SyncClientsConfig::sync_selected_vaults
@sig
    ensures
        forall|v: VaultId| #[trigger] final(self).vault(v) <==> exists|i: int| 0 <= i < vault_paths@.len() && vault_id_of((#[trigger] vault_paths@[i]).bytes()) == v,
        forall|v: VaultId, x: RecordId| #[trigger] final(self).record(v, x) == old(self).record(v, x), forall|v: VaultId| #[trigger] final(self).to(v) == old(self).to(v),
        final(self).merge_policy == old(self).merge_policy,
//@end
//@fn SyncClientsConfig::sync_selected_record
@closure 0
-> (vx_r: RecordId) ensures vx_r == record_id_of(vault_path.bytes(), path.bytes())
@sig
    ensures
        forall|x: RecordId| #[trigger] final(self).record(vault_id_of(vault_path.bytes()), x) <==> exists|i: int| 0 <= i < record_paths@.len() && record_id_of(vault_path.bytes(), (#[trigger] record_paths@[i]).bytes()) == x,
        forall|v: VaultId, x: RecordId| v != vault_id_of(vault_path.bytes()) ==> #[trigger] final(self).record(v, x) == old(self).record(v, x),
        forall|v: VaultId| #[trigger] final(self).vault(v) == old(self).vault(v), forall|v: VaultId| #[trigger] final(self).to(v) == old(self).to(v),
        final(self).merge_policy == old(self).merge_policy,
//@end
//@fn SyncClientsConfig::map_vaults
@closure 0
-> (vx_r: (VaultId, VaultId)) ensures vx_r.0 == vault_id_of(vx_p0.0.bytes()), vx_r.1 == vault_id_of(vx_p0.1.bytes())
@rx "self\.map_vaults\.extend\((\w+)\)" => "proof { lemma_extend(self.map_vaults@, $1@); } self.map_vaults.extend($1)"
@sig
    ensures
        forall|v: VaultId| (forall|p: P| #[trigger] map_vault_paths@.contains_key(p) ==> vault_id_of(p.bytes()) != v) ==> #[trigger] final(self).to(v) == old(self).to(v),
        forall|v: VaultId| (exists|p: P| #[trigger] map_vault_paths@.contains_key(p) && vault_id_of(p.bytes()) == v)
            ==> exists|p: P| #[trigger] map_vault_paths@.contains_key(p) && vault_id_of(p.bytes()) == v && #[trigger] final(self).to(v) == vault_id_of(map_vault_paths@[p].bytes()),
        forall|v: VaultId| #[trigger] final(self).vault(v) == old(self).vault(v), forall|v: VaultId, x: RecordId| #[trigger] final(self).record(v, x) == old(self).record(v, x),
        final(self).merge_policy == old(self).merge_policy,
//@end
}
/// `l` are the readable records of the vault, with their blobs
pub open spec fn lists(db: Db, v: VaultId, l: Seq<(RecordId, BlobId)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (db.at(v, (#[trigger] l[i]).0) matches Some(c) && c.blob == l[i].1)
    &&& forall|x: RecordId| (#[trigger] db.at(v, x)) is Some ==> l.contains((x, db.at(v, x).unwrap().blob))
}
/// `l` are those records of `list` that are selected and that the target takes
pub open spec fn differs(db: Db, c: SyncClientsConfig, v: VaultId, list: Seq<(RecordId, BlobId)>, l: Seq<RecordId>) -> bool {
    differs_n(db, c, v, list, list.len() as int, l)
}
pub open spec fn differs_n(db: Db, c: SyncClientsConfig, v: VaultId, list: Seq<(RecordId, BlobId)>, n: int, l: Seq<RecordId>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> exists|j: int| 0 <= j < n && (#[trigger] list[j]).0 == (#[trigger] l[i]) && c.record(v, l[i]) && c.takes(db.at(c.to(v), l[i]), list[j].1)
    &&& forall|j: int| 0 <= j < n ==> c.record(v, (#[trigger] list[j]).0) && c.takes(db.at(c.to(v), list[j].0), list[j].1) ==> l.contains(list[j].0)
}
pub broadcast proof fn lemma_differs_skip(db: Db, c: SyncClientsConfig, v: VaultId, list: Seq<(RecordId, BlobId)>, n: int, l: Seq<RecordId>)
    requires #[trigger] differs_n(db, c, v, list, n, l), 0 <= n < list.len(), !(c.record(v, list[n].0) && c.takes(db.at(c.to(v), list[n].0), list[n].1)),
    ensures differs_n(db, c, v, list, n + 1, l),
{}
pub broadcast proof fn lemma_differs_push(db: Db, c: SyncClientsConfig, v: VaultId, list: Seq<(RecordId, BlobId)>, n: int, l: Seq<RecordId>, x: RecordId)
    requires #[trigger] differs_n(db, c, v, list, n, l), 0 <= n < list.len(), c.record(v, list[n].0) && c.takes(db.at(c.to(v), list[n].0), list[n].1), x == list[n].0,
    ensures differs_n(db, c, v, list, n + 1, #[trigger] l.push(x)),
{
    broadcast use vx_push_contains;
    let m = l.push(x);
    assert forall|i: int| 0 <= i < m.len() implies exists|j: int| 0 <= j < n + 1 && (#[trigger] list[j]).0 == (#[trigger] m[i]) && c.record(v, m[i]) && c.takes(db.at(c.to(v), m[i]), list[j].1) by {
        if i < l.len() { assert(m[i] == l[i]); } else { assert(list[n].0 == m[i]); }
    }
}
/// `l` are the records `sel` of the vault
pub open spec fn exports(db: Db, v: VaultId, sel: Seq<RecordId>, l: Seq<(RecordId, Record)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> sel.contains((#[trigger] l[i]).0) && db.vaults@[v].entries@.contains_key(l[i].0.0) && db.vaults@[v].entries@[l[i].0.0] == l[i].1
    &&& forall|x: RecordId| #[trigger] sel.contains(x) && db.vaults@[v].entries@.contains_key(x.0) ==> l.contains((x, db.vaults@[v].entries@[x.0]))
}
/// the hierarchy of the first `n` of the vaults `s`
pub open spec fn part_of(db: Db, s: Seq<VaultId>, n: int, h: HashMap<VaultId, Vec<(RecordId, BlobId)>>) -> bool {
    &&& forall|v: VaultId| #[trigger] h@.contains_key(v) ==> db.vaults@.contains_key(v) && s.contains(v) && lists(db, v, h@[v]@)
    &&& forall|j: int| 0 <= j < n ==> db.vaults@.contains_key(#[trigger] s[j]) ==> h@.contains_key(s[j])
}
pub broadcast proof fn lemma_in<T>(s: Seq<T>, i: int) requires 0 <= i < s.len(), ensures s.contains(#[trigger] s[i]), {}
/// the difference of the first `n` of the listed vaults `s`
pub open spec fn diff_of(db: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, BlobId)>)>, n: int, d: HashMap<VaultId, Vec<RecordId>>) -> bool {
    &&& forall|v: VaultId| #[trigger] d@.contains_key(v) <==> c.vault(v) && among(s, n, v)
    &&& forall|j: int| 0 <= j < n && c.vault((#[trigger] s[j]).0) ==> differs(db, c, s[j].0, s[j].1@, d@[s[j].0]@)
}
/// the records of the first `n` of the listed vaults `s`
pub open spec fn export_of(db: Db, s: Seq<(VaultId, Vec<RecordId>)>, n: int, e: HashMap<VaultId, Vec<(RecordId, Record)>>) -> bool {
    &&& forall|v: VaultId| #[trigger] e@.contains_key(v) <==> among(s, n, v)
    &&& forall|j: int| 0 <= j < n ==> db.vaults@.contains_key((#[trigger] s[j]).0) && exports(db, s[j].0, s[j].1@, e@[s[j].0]@)
}
pub open spec fn among<K, V>(s: Seq<(K, V)>, n: int, k: K) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k }
pub trait SyncState {
    spec fn sdb(&self) -> Db;
    spec fn skey(&self, v: VaultId) -> Option<Seq<u8>>;
    /// the vaults are intact and the keys are theirs
    spec fn sok(&self) -> bool;
    proof fn lemma_sok(&self)
        requires self.sok(),
        ensures self.sdb().wf(), forall|v: VaultId| #[trigger] self.sdb().vaults@.contains_key(v) ==> self.skey(v) == Some(self.sdb().vaults@[v].key@);
}
/// a vault is asked for that has a key, but was never made
pub open spec fn missing<S: SyncState>(s: S, vaults: Option<Vec<VaultId>>) -> bool { vaults matches Some(l) && exists|v: VaultId| #[trigger] l@.contains(v) && s.skey(v) is Some && !s.sdb().vaults@.contains_key(v) }
impl<'a> KeyProvider<'a> {
    pub open spec fn at(&self, v: VaultId) -> Option<Seq<u8>> {
        match self { KeyProvider::KeyStore(k) => k.at(v), KeyProvider::KeyMap(m) => if m@.contains_key(v) { Some(m@[v]@) } else { None } }
    }
    pub open spec fn ok(&self) -> bool { match self { KeyProvider::KeyStore(k) => k.wf(), KeyProvider::KeyMap(_) => true } }
}
pub trait SyncClients<'a>: SyncState + Sized {
    fn get_db(&'a self) -> (r: Result<&'a Db, ClientError>) ensures match r { Ok(d) => *d == self.sdb(), Err(_) => fault() };
    fn get_key_provider(&'a self) -> (r: Result<KeyProvider<'a>, ClientError>)
        requires self.sok()
        ensures match r { Ok(k) => k.ok() && (forall|v: VaultId| #![trigger k.at(v)] #![trigger self.skey(v)] k.at(v) == self.skey(v)), Err(_) => fault() };
//@fn trait SyncClients::get_hierarchy
@ret r
@attr #[verifier::loop_isolation(false)]
@closure 0
-> (vx_r: Vec<VaultId>) ensures forall|v: VaultId| #[trigger] db.vaults@.contains_key(v) <==> vx_r@.contains(v)
@start
    proof { self.lemma_sok(); }
    broadcast use lemma_in;
    let ghost vx_vaults = vaults;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_vaults matches Some(s) ==> vx_it.seq() == s@, vx_vaults is None ==> forall|v: VaultId| #[trigger] db.vaults@.contains_key(v) <==> vx_it.seq().contains(v),
        self.sok(), *db == self.sdb(), db.wf(), key_provider.ok(), forall|v: VaultId| #![trigger key_provider.at(v)] #![trigger self.skey(v)] key_provider.at(v) == self.skey(v),
        forall|v: VaultId| #[trigger] db.vaults@.contains_key(v) ==> key_provider.at(v) == Some(db.vaults@[v].key@),
        part_of(*db, vx_it.seq(), vx_it.at(), hierarchy),
@sig
    requires self.sok(),
    ensures
        match r {
            Ok(h) => {
                &&& forall|v: VaultId| #[trigger] h@.contains_key(v) <==> self.sdb().vaults@.contains_key(v) && (vaults matches Some(s) ==> s@.contains(v))
                &&& forall|v: VaultId| #[trigger] h@.contains_key(v) ==> lists(self.sdb(), v, h@[v]@)
            },
            Err(_) => fault() || missing(*self, vaults),
        },
//@end
//@fn trait SyncClients::get_diff
@ret r
@attr #[verifier::loop_isolation(false)]
@closure 0
-> (vx_r: RecordId) ensures vx_r == vx_p0.0
@closure 1
-> (vx_r: bool) ensures vx_r == config.record(vid, *rid)
@closure 2
-> (vx_r: bool) ensures vx_r == s@.contains(*rid)
@start
    proof { self.lemma_sok(); }
    broadcast use lemma_in, lemma_differs_skip, lemma_differs_push;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(other@, vx_it.seq()),
        diff_of(*db, *config, vx_it.seq(), vx_it.at(), diff),
@forwhile 1 vx_jt
@loop 1 for
    invariant
        vx_jt.wf(), vx_it.wf(), vx_jt.seq() == vx_it.seq()[vx_it.at() - 1].1@, vx_it.at() > 0, vid == vx_it.seq()[vx_it.at() - 1].0, mapped_vid == config.to(vid),
        differs_n(*db, *config, vid, vx_jt.seq(), vx_jt.at(), record_diff@),
@sig
    requires self.sok(),
    ensures
        match r {
            Ok(d) => {
                &&& forall|v: VaultId| #[trigger] d@.contains_key(v) <==> other@.contains_key(v) && config.vault(v)
                &&& forall|v: VaultId| #[trigger] d@.contains_key(v) ==> differs(self.sdb(), *config, v, other@[v]@, d@[v]@)
            },
            Err(_) => fault(),
        },
//@end
//@fn trait SyncClients::export_entries
@ret r
@attr #[verifier::loop_isolation(false)]
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(vx_sel, vx_it.seq()),
        export_of(*db, vx_it.seq(), vx_it.at(), export),
@start
    let ghost vx_sel = select@;
@sig
    ensures
        match r {
            Ok(e) => {
                &&& forall|v: VaultId| #![trigger e@.contains_key(v)] #![trigger select@.contains_key(v)] e@.contains_key(v) <==> select@.contains_key(v)
                &&& forall|v: VaultId| #[trigger] e@.contains_key(v) ==> self.sdb().vaults@.contains_key(v) && exports(self.sdb(), v, select@[v]@, e@[v]@)
            },
            Err(_) => fault() || exists|v: VaultId| #[trigger] select@.contains_key(v) && !self.sdb().vaults@.contains_key(v),
        },
//@end
}
//@file client/src/types/client.rs
//@rewrite "fn (sync_vaults|sync_with)\(\s*&self" => "fn $1(&mut self"
//@rewrite "(\[\([^\]]*\)\])\.into\(\)" => "vx_map_of(vx_vec($1))"
//@rewrite "\.unwrap_or_default\(\)" => ".unwrap_or(HashMap::new())"
impl SyncState for Client {
    open spec fn sdb(&self) -> Db { self.db@ }
    open spec fn skey(&self, v: VaultId) -> Option<Seq<u8>> { self.keystore@.at(v) }
    open spec fn sok(&self) -> bool { self.wf() }
    proof fn lemma_sok(&self) {}
}
impl<'a> SyncClients<'a> for Client {
//@fn SyncClients<'a> for Client::get_db
@ret r
//@end
//@fn SyncClients<'a> for Client::get_key_provider
@ret r
//@end
}
/// the record `x` of the vault `v` of the source goes to the vault `t`, which takes it
pub open spec fn comes(src: Db, dst: Db, c: SyncClientsConfig, v: VaultId, t: VaultId, x: RecordId) -> bool {
    c.vault(v) && c.record(v, x) && c.to(v) == t && (src.at(v, x) matches Some(o) && c.takes(dst.at(t, x), o.blob))
}
pub open spec fn none_comes(src: Db, dst: Db, c: SyncClientsConfig, t: VaultId, x: RecordId) -> bool { forall|v: VaultId| !#[trigger] comes(src, dst, c, v, t, x) }
pub open spec fn came(src: Db, dst: Db, c: SyncClientsConfig, t: VaultId, x: RecordId, now: Option<Val3>) -> bool {
    exists|v: VaultId| #[trigger] comes(src, dst, c, v, t, x) && now == src.at(v, x)
}
/// `l` are exactly the records of the vault `v` that are to come to the target, as the source holds them
pub open spec fn pack(src: Db, dst: Db, c: SyncClientsConfig, v: VaultId, l: Seq<(RecordId, Record)>) -> bool {
    &&& c.vault(v) && src.vaults@.contains_key(v)
    &&& forall|i: int| 0 <= i < l.len() ==> comes(src, dst, c, v, c.to(v), (#[trigger] l[i]).0) && src.vaults@[v].entries@.contains_key(l[i].0.0) && src.vaults@[v].entries@[l[i].0.0] == l[i].1
    &&& forall|x: RecordId| #[trigger] comes(src, dst, c, v, c.to(v), x) ==> vx_has_key(l, x)
}
/// everything that is to come is packed
pub open spec fn packed(src: Db, dst: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> pack(src, dst, c, (#[trigger] s[j]).0, s[j].1@)
    &&& forall|v: VaultId, t: VaultId, x: RecordId| #[trigger] comes(src, dst, c, v, t, x) ==> among(s, s.len() as int, v)
}
pub proof fn lemma_pack(src: Db, dst: Db, c: SyncClientsConfig, v: VaultId, list: Seq<(RecordId, BlobId)>, sel: Seq<RecordId>, l: Seq<(RecordId, Record)>)
    requires c.vault(v), src.vaults@.contains_key(v), lists(src, v, list), differs(dst, c, v, list, sel), exports(src, v, sel, l),
    ensures pack(src, dst, c, v, l),
{
    assert forall|i: int| 0 <= i < l.len() implies comes(src, dst, c, v, c.to(v), (#[trigger] l[i]).0) by {
        let x = l[i].0;
        let k = choose|k: int| 0 <= k < sel.len() && sel[k] == x;
        let j = choose|j: int| 0 <= j < list.len() && (#[trigger] list[j]).0 == sel[k] && c.record(v, sel[k]) && c.takes(dst.at(c.to(v), sel[k]), list[j].1);
        assert(src.at(v, list[j].0) is Some);
    }
    assert forall|x: RecordId| #[trigger] comes(src, dst, c, v, c.to(v), x) implies vx_has_key(l, x) by {
        assert(list.contains((x, src.at(v, x).unwrap().blob)));
        let j = choose|j: int| 0 <= j < list.len() && list[j] == (x, src.at(v, x).unwrap().blob);
        assert(sel.contains(list[j].0));
        assert(l.contains((x, src.vaults@[v].entries@[x.0])));
        let i = choose|i: int| 0 <= i < l.len() && l[i] == (x, src.vaults@[v].entries@[x.0]);
        assert(l[i].0 == x);
    }
}
pub proof fn lemma_packed(src: Db, dst: Db, c: SyncClientsConfig, h: Map<VaultId, Vec<(RecordId, BlobId)>>, d: Map<VaultId, Vec<RecordId>>, e: Map<VaultId, Vec<(RecordId, Record)>>, s: Seq<(VaultId, Vec<(RecordId, Record)>)>)
    requires
        forall|v: VaultId| #[trigger] h.contains_key(v) <==> src.vaults@.contains_key(v) && c.vault(v),
        forall|v: VaultId| #[trigger] h.contains_key(v) ==> lists(src, v, h[v]@),
        forall|v: VaultId| #[trigger] d.contains_key(v) <==> h.contains_key(v) && c.vault(v),
        forall|v: VaultId| #[trigger] d.contains_key(v) ==> differs(dst, c, v, h[v]@, d[v]@),
        forall|v: VaultId| #[trigger] e.contains_key(v) <==> d.contains_key(v),
        forall|v: VaultId| #[trigger] e.contains_key(v) ==> exports(src, v, d[v]@, e[v]@),
        vx_lists_owned(e, s),
    ensures packed(src, dst, c, s),
{
    assert forall|j: int| 0 <= j < s.len() implies pack(src, dst, c, (#[trigger] s[j]).0, s[j].1@) by {
        let v = s[j].0;
        assert(e.contains_key(v) && d.contains_key(v) && h.contains_key(v));
        lemma_pack(src, dst, c, v, h[v]@, d[v]@, e[v]@);
    }
    assert forall|v: VaultId, t: VaultId, x: RecordId| #[trigger] comes(src, dst, c, v, t, x) implies among(s, s.len() as int, v) by {
        assert(h.contains_key(v) && d.contains_key(v) && e.contains_key(v));
    }
}
/// one of the first `n` packs has the record `x` for the vault `t`
pub open spec fn sent(c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>, j: int, t: VaultId, x: RecordId) -> bool { c.to(s[j].0) == t && vx_has_key(s[j].1@, x) }
/// the first `n` packs have been stored
pub open spec fn stored(src: Db, dst: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>, n: int, now: Db) -> bool {
    forall|t: VaultId, x: RecordId| #![trigger now.at(t, x)]
        ((forall|j: int| 0 <= j < n ==> !#[trigger] sent(c, s, j, t, x)) && now.at(t, x) == dst.at(t, x))
        || (exists|j: int| 0 <= j < n && #[trigger] sent(c, s, j, t, x) && now.at(t, x) == src.at(s[j].0, x))
}
pub open spec fn outcome(src: Db, dst: Db, c: SyncClientsConfig, all: bool, now: Db) -> bool {
    forall|t: VaultId, x: RecordId| came(src, dst, c, t, x, #[trigger] now.at(t, x)) || ((all ==> none_comes(src, dst, c, t, x)) && now.at(t, x) == dst.at(t, x))
}
pub broadcast proof fn lemma_stored(src: Db, dst: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>, n: int, now: Db)
    requires #[trigger] stored(src, dst, c, s, n, now), packed(src, dst, c, s), 0 <= n <= s.len(),
    ensures outcome(src, dst, c, n == s.len(), now),
{
    assert forall|t: VaultId, x: RecordId| came(src, dst, c, t, x, #[trigger] now.at(t, x)) || ((n == s.len() ==> none_comes(src, dst, c, t, x)) && now.at(t, x) == dst.at(t, x)) by {
        if exists|j: int| 0 <= j < n && #[trigger] sent(c, s, j, t, x) && now.at(t, x) == src.at(s[j].0, x) {
            let j = choose|j: int| 0 <= j < n && #[trigger] sent(c, s, j, t, x) && now.at(t, x) == src.at(s[j].0, x);
            let l = s[j].1@;
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == x;
            assert(comes(src, dst, c, s[j].0, t, l[i].0));
        } else if n == s.len() {
            assert forall|v: VaultId| !#[trigger] comes(src, dst, c, v, t, x) by {
                if comes(src, dst, c, v, t, x) {
                    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == v;
                    assert(pack(src, dst, c, v, s[j].1@));
                    assert(sent(c, s, j, t, x));
                }
            }
        }
    }
}
/// what `import_records` has done with the pack `n`
pub open spec fn imported(src: Db, v: VaultId, t: VaultId, l: Seq<(RecordId, Record)>, a: Db, b: Db) -> bool {
    &&& b.same_but(&a, t)
    &&& forall|x: RecordId| !vx_has_key(l, x) ==> #[trigger] b.at(t, x) == a.at(t, x)
    &&& forall|x: RecordId| vx_has_key(l, x) ==> #[trigger] b.at(t, x) == src.at(v, x)
}
pub proof fn lemma_imported(src: Db, dst: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>, n: int, l: Seq<(RecordId, Record)>, a: Db, b: Db)
    requires stored(src, dst, c, s, n, a), 0 <= n < s.len(), imported(src, s[n].0, c.to(s[n].0), l, a, b), forall|x: RecordId| #[trigger] vx_has_key(l, x) <==> vx_has_key(s[n].1@, x),
    ensures stored(src, dst, c, s, n + 1, b),
{
    assert forall|t: VaultId, x: RecordId|
        ((forall|j: int| 0 <= j < n + 1 ==> !#[trigger] sent(c, s, j, t, x)) && #[trigger] b.at(t, x) == dst.at(t, x))
        || (exists|j: int| 0 <= j < n + 1 && #[trigger] sent(c, s, j, t, x) && b.at(t, x) == src.at(s[j].0, x)) by {
        let o = a.at(t, x);
        if sent(c, s, n, t, x) {
            assert(b.at(t, x) == src.at(s[n].0, x));
        } else {
            assert(b.at(t, x) == a.at(t, x));
        }
    }
}
pub proof fn lemma_unchanged(src: Db, dst: Db, c: SyncClientsConfig, s: Seq<(VaultId, Vec<(RecordId, Record)>)>, n: int, a: Db, b: Db, t: VaultId)
    requires stored(src, dst, c, s, n, a), b.same_but(&a, t), forall|x: RecordId| #[trigger] b.at(t, x) == a.at(t, x),
    ensures stored(src, dst, c, s, n, b),
{
    assert forall|w: VaultId, x: RecordId| #[trigger] b.at(w, x) == a.at(w, x) by {}
    assert forall|t: VaultId, x: RecordId|
        ((forall|j: int| 0 <= j < n ==> !#[trigger] sent(c, s, j, t, x)) && #[trigger] b.at(t, x) == dst.at(t, x))
        || (exists|j: int| 0 <= j < n && #[trigger] sent(c, s, j, t, x) && b.at(t, x) == src.at(s[j].0, x)) by { let o = a.at(t, x); }
}
pub proof fn lemma_kept(src: Db, dst: Db, c: SyncClientsConfig, v: VaultId, l: Seq<(RecordId, Record)>, k: Seq<(RecordId, Record)>, key: Seq<u8>)
    requires src.wf(), src.opens(v, key), pack(src, dst, c, v, l),
        forall|i: int| 0 <= i < k.len() ==> l.contains(#[trigger] k[i]), forall|i: int| 0 <= i < l.len() && c.record(v, l[i].0) ==> k.contains(#[trigger] l[i]),
    ensures
        pack(src, dst, c, v, k), forall|x: RecordId| vx_has_key(k, x) <==> vx_has_key(l, x), Db::whole(key, k), Db::honest(key, k),
        forall|i: int| 0 <= i < k.len() ==> contents::<Provider>(key, (#[trigger] k[i]).1) == src.at(v, k[i].0),
{
    assert forall|i: int| 0 <= i < k.len() implies k[i].1.id == k[i].0.0 && contents::<Provider>(key, (#[trigger] k[i]).1) is Some && contents::<Provider>(key, k[i].1) == src.at(v, k[i].0)
        && comes(src, dst, c, v, c.to(v), k[i].0) && src.vaults@[v].entries@.contains_key(k[i].0.0) && src.vaults@[v].entries@[k[i].0.0] == k[i].1 by {
        let j = choose|j: int| 0 <= j < l.len() && l[j] == k[i];
        assert(comes(src, dst, c, v, c.to(v), l[j].0));
        assert(src.vaults@[v].wf());
        assert(rec_wf::<Provider>(src.vaults@[v].key@, k[i].0.0, src.vaults@[v].entries@[k[i].0.0]));
    }
    assert forall|x: RecordId| vx_has_key(k, x) <==> vx_has_key(l, x) by {
        if vx_has_key(k, x) {
            let i = choose|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == x;
            let j = choose|j: int| 0 <= j < l.len() && l[j] == k[i];
            assert(l[j].0 == x);
        }
        if vx_has_key(l, x) {
            let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0 == x;
            assert(comes(src, dst, c, v, c.to(v), l[j].0));
            assert(k.contains(l[j]));
            let i = choose|i: int| 0 <= i < k.len() && k[i] == l[j];
            assert(k[i].0 == x);
        }
    }
}
impl Client {
//@fn Client::sync_with
@ret r
@attr #[verifier::loop_isolation(false)]
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(),
        packed(other.db@, old(self).db@, config, vx_it.seq()), stored(other.db@, old(self).db@, config, vx_it.seq(), vx_it.at(), self.db@),
        self.wf(), self.id == old(self).id, self.store == old(self).store,
@start
    broadcast use lemma_stored, lemma_in;
@rx "let mut vx_it = vx_for\((\w+)\s*\);" => "let mut vx_it = vx_for($1); proof { lemma_packed(other.db@, old(self).db@, config, vx_h, vx_d, vx_e, vx_it.seq()); }"
@rx "let diff =" => "let ghost vx_h = hierarchy@; let diff ="
@rx "let exported =" => "let ghost vx_d = diff@; let exported ="
@rx "(let mut vx_it)" => "let ghost vx_e = exported@; $1"
@rx "db\.import_records\(&(\w+), &(\w+), (\w+), (\w+)\)\?" => "let ghost vx_n = vx_it.at() - 1; let ghost vx_k = $4@; let ghost vx_b = *db; proof { lemma_kept(other.db@, old(self).db@, config, vx_it.seq()[vx_n].0, vx_it.seq()[vx_n].1@, vx_k, $1@); } let vx_r = db.import_records(&$1, &$2, $3, $4); proof { if vx_r is Ok { lemma_imported(other.db@, old(self).db@, config, vx_it.seq(), vx_n, vx_k, vx_b, *db); } else { lemma_unchanged(other.db@, old(self).db@, config, vx_it.seq(), vx_n, vx_b, *db, $3); } } vx_r?"
@closure 0
-> (vx_r: bool) ensures vx_r == select_records@.contains(vx_p0.0)
@sig
    requires old(self).wf(), other.wf(),
    ensures
        final(self).wf(), final(self).id == old(self).id, final(self).store == old(self).store,
        match r {
            Ok(_) => outcome(other.db@, old(self).db@, config, true, final(self).db@),
            Err(_) => outcome(other.db@, old(self).db@, config, false, final(self).db@) && (fault() || missing(*other, config.select_vaults)),
        },
//@end
//@fn Client::sync_vaults
@ret r
@attr #[verifier::loop_isolation(false)]
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_it.seq().len() <= 1,
        packed(old(self).db@, old(self).db@, vx_c, vx_it.seq()), stored(old(self).db@, old(self).db@, vx_c, vx_it.seq(), vx_it.at(), *db),
        vx_it.at() == 0 ==> config == vx_c && *db == old(self).db@ && *key_store == old(self).keystore@,
        sound(*key_store, *db),
@start
    broadcast use lemma_stored, lemma_in;
    let ghost vx_sel = select_records;
@rx "let hierarchy =" => "let ghost vx_c = config; proof { assert(one_vault(vx_c, vault_id_of(source_path@), vault_id_of(target_path@), vx_sel, merge_policy)); } let hierarchy ="
@rx "let mut vx_it = vx_for\((\w+)\s*\);" => "let mut vx_it = vx_for($1); proof { lemma_packed(old(self).db@, old(self).db@, vx_c, vx_h, vx_d, vx_e, vx_it.seq()); lemma_one(old(self).db@, old(self).db@, vx_c, vault_id_of(source_path@), vault_id_of(target_path@), vx_sel, merge_policy, vx_e, vx_it.seq()); }"
@rx "let diff =" => "let ghost vx_h = hierarchy@; let diff ="
@rx "let exported =" => "let ghost vx_d = diff@; let exported ="
@rx "(let mut vx_it)" => "let ghost vx_e = exported@; $1"
@rx "db\.import_records\(&(\w+), &(\w+), (\w+), (\w+)\)\?" => "let ghost vx_n = vx_it.at() - 1; let ghost vx_k = $4@; let ghost vx_b = *db; proof { lemma_kept(old(self).db@, old(self).db@, vx_c, vx_it.seq()[vx_n].0, vx_it.seq()[vx_n].1@, vx_k, $1@); } let vx_r = db.import_records(&$1, &$2, $3, $4); proof { if vx_r is Ok { lemma_imported(old(self).db@, old(self).db@, vx_c, vx_it.seq(), vx_n, vx_k, vx_b, *db); } else { lemma_unchanged(old(self).db@, old(self).db@, vx_c, vx_it.seq(), vx_n, vx_b, *db, $3); } } vx_r?"
@closure 0
-> (vx_r: HashMap<VaultId, Vec<RecordId>>) ensures vx_r@ == map![source => vec]
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).id == old(self).id, final(self).store == old(self).store,
        exists|c: SyncClientsConfig| #[trigger] one_vault(c, vault_id_of(source_path@), vault_id_of(target_path@), select_records, merge_policy) && match r {
            Ok(_) => outcome(old(self).db@, old(self).db@, c, true, final(self).db@),
            Err(_) => outcome(old(self).db@, old(self).db@, c, false, final(self).db@) && (fault() || missing(*old(self), c.select_vaults)),
        },
//@end
}
/// the configuration that copies the selected records of the vault `s` to `t`
pub open spec fn one_vault(c: SyncClientsConfig, s: VaultId, t: VaultId, sel: Option<Vec<RecordId>>, p: MergePolicy) -> bool {
    &&& c.select_vaults matches Some(l) && l@ =~= seq![s]
    &&& c.map_vaults@ =~= map![s => t] && c.merge_policy == p
    &&& c.select_records@ =~= (match sel { Some(l) => map![s => l], None => Map::<VaultId, Vec<RecordId>>::empty() })
}
pub open spec fn sound(k: KeyStore<Provider>, d: Db) -> bool { k.wf() && d.wf() && forall|v: VaultId| #[trigger] d.vaults@.contains_key(v) ==> k.at(v) == Some(d.vaults@[v].key@) }
pub proof fn lemma_one(src: Db, dst: Db, c: SyncClientsConfig, s: VaultId, t: VaultId, sel: Option<Vec<RecordId>>, p: MergePolicy, e: Map<VaultId, Vec<(RecordId, Record)>>, q: Seq<(VaultId, Vec<(RecordId, Record)>)>)
    requires one_vault(c, s, t, sel, p), packed(src, dst, c, q), vx_lists_owned(e, q),
    ensures q.len() <= 1,
{
    if q.len() > 1 {
        assert(pack(src, dst, c, q[0].0, q[0].1@)); assert(pack(src, dst, c, q[1].0, q[1].1@));
        let l = c.select_vaults.unwrap();
        let i = choose|i: int| 0 <= i < l@.len() && l@[i] == q[0].0; let j = choose|j: int| 0 <= j < l@.len() && l@[j] == q[1].0;
        assert(q[0].0 == s && q[1].0 == s);
    }
}
