// ================================================================ sync.rs: copying between snapshots
//@closures on
//@rewrite "(\w)\.contains\(" => "$1.vx_contains("
//@rewrite "\.retain\(" => ".vx_retain("
//@rewrite "\.into_iter\(\)" => ".vx_into_iter()"
//@rewrite "format!\([^()]*\)" => "vx_string()"
//@rewrite "SyncSnapshotsConfig \{\s*merge_policy,\s*\.\.Default::default\(\)" => "SyncSnapshotsConfig { merge_policy, ..SyncSnapshotsConfig::default()"
//@rewrite "\.\.Default::default\(\)" => "..SyncClientsConfig::default()"
//@file client/src/sync.rs
//@item struct SyncSnapshotsConfig
//@item type SnapshotHierarchy
impl SyncClientsConfig {
    /// the same settings
    pub open spec fn same(&self, o: &Self) -> bool {
        &&& forall|v: VaultId| #[trigger] self.vault(v) == o.vault(v)
        &&& forall|v: VaultId, x: RecordId| #[trigger] self.record(v, x) == o.record(v, x)
        &&& forall|v: VaultId| #[trigger] self.to(v) == o.to(v)
        &&& self.merge_policy == o.merge_policy
    }
}
pub uninterp spec fn vx_no_map<K, V>() -> HashMap<K, V>;
/// there is an empty map
pub broadcast axiom fn axiom_no_map<K, V>() ensures (#[trigger] vx_no_map::<K, V>())@ == Map::<K, V>::empty();
pub open spec fn no_db() -> Db { DbView { vaults: vx_no_map() } }
impl SyncSnapshotsConfig {
    pub open spec fn client(&self, c: ClientId) -> bool { match self.select_clients { Some(s) => s@.contains(c), None => true } }
    pub open spec fn to(&self, c: ClientId) -> ClientId { if self.map_clients@.contains_key(c) { self.map_clients@[c] } else { c } }
    pub open spec fn of(&self, c: ClientId) -> SyncClientsConfig {
        if self.client_config@.contains_key(c) { self.client_config@[c] }
        else { self.of_others() }
    }
    pub open spec fn of_others(&self) -> SyncClientsConfig { SyncClientsConfig { select_vaults: None, select_records: vx_no_map(), map_vaults: vx_no_map(), merge_policy: self.merge_policy } }
}
// derived
impl SyncSnapshotsConfig {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.select_clients is None, r.client_config@ == Map::<ClientId, SyncClientsConfig>::empty(), r.map_clients@ == Map::<ClientId, ClientId>::empty(), { unimplemented!() }
}
/// its contract is decided by C15
pub uninterp spec fn client_id_of(path: Seq<u8>) -> ClientId;
impl ClientId { #[verifier::external_body] pub fn load_from_path(data: &[u8], path: &[u8]) -> (r: Self) ensures data@ == path@ ==> r == client_id_of(path@), { unimplemented!() } }
//@rewrite "\bP: AsRef<\[u8\]>" => "P: VxAsRef"
impl SyncSnapshotsConfig {
//@fn SyncSnapshotsConfig::new
@ret r
@sig
    ensures
        r.merge_policy == merge_policy, forall|c: ClientId| #[trigger] r.client(c), forall|c: ClientId| #[trigger] r.to(c) == c,
        forall|c: ClientId| #[trigger] r.of(c) == r.of_others(),
//@end
//@fn SyncSnapshotsConfig::sync_selected_clients
@closure 0
-> (vx_r: ClientId) ensures vx_r == client_id_of(path.bytes())
@sig
    ensures
        forall|c: ClientId| #[trigger] final(self).client(c) <==> exists|i: int| 0 <= i < client_paths@.len() && client_id_of((#[trigger] client_paths@[i]).bytes()) == c,
        forall|c: ClientId| #[trigger] final(self).of(c) == old(self).of(c), forall|c: ClientId| #[trigger] final(self).to(c) == old(self).to(c),
        final(self).merge_policy == old(self).merge_policy,
//@end
//@fn SyncSnapshotsConfig::config_client_sync
@sig
    ensures
        final(self).of(client_id_of(client_path.bytes())) == config,
        forall|c: ClientId| c != client_id_of(client_path.bytes()) ==> #[trigger] final(self).of(c) == old(self).of(c),
        forall|c: ClientId| #[trigger] final(self).client(c) == old(self).client(c), forall|c: ClientId| #[trigger] final(self).to(c) == old(self).to(c),
        final(self).merge_policy == old(self).merge_policy,
//@end
//@fn SyncSnapshotsConfig::map_clients
@closure 0
-> (vx_r: (ClientId, ClientId)) ensures vx_r.0 == client_id_of(vx_p0.0.bytes()), vx_r.1 == client_id_of(vx_p0.1.bytes())
@rx "self\.map_clients\.extend\((\w+)\)" => "proof { lemma_extend(self.map_clients@, $1@); } self.map_clients.extend($1)"
@sig
    ensures
        forall|c: ClientId| (forall|p: P| #[trigger] map_client_paths@.contains_key(p) ==> client_id_of(p.bytes()) != c) ==> #[trigger] final(self).to(c) == old(self).to(c),
        forall|c: ClientId| (exists|p: P| #[trigger] map_client_paths@.contains_key(p) && client_id_of(p.bytes()) == c)
            ==> exists|p: P| #[trigger] map_client_paths@.contains_key(p) && client_id_of(p.bytes()) == c && #[trigger] final(self).to(c) == client_id_of(map_client_paths@[p].bytes()),
        forall|c: ClientId| #[trigger] final(self).client(c) == old(self).client(c), forall|c: ClientId| #[trigger] final(self).of(c) == old(self).of(c),
        final(self).merge_policy == old(self).merge_policy,
//@end
}
impl SyncState for ClientState {
    open spec fn sdb(&self) -> Db { self.1 }
    open spec fn skey(&self, v: VaultId) -> Option<Seq<u8>> { if self.0@.contains_key(v) { Some(self.0@[v]@) } else { None } }
    open spec fn sok(&self) -> bool { state_ok(*self) }
    proof fn lemma_sok(&self) {}
}
//@file client/src/types/snapshot.rs
//@rewrite "Self::Db" => "&'a DbView<Provider>"
impl<'a> SyncClients<'a> for ClientState {
//@fn SyncClients<'a> for ClientState::get_db
@ret r
//@end
//@fn SyncClients<'a> for ClientState::get_key_provider
@ret r
//@end
}
/// the readable records of every vault
pub open spec fn tree(db: Db, h: Map<VaultId, Vec<(RecordId, BlobId)>>) -> bool {
    &&& forall|v: VaultId| #[trigger] h.contains_key(v) <==> db.vaults@.contains_key(v)
    &&& forall|v: VaultId| #[trigger] h.contains_key(v) ==> lists(db, v, h[v]@)
}
pub open spec fn diffs(db: Db, c: SyncClientsConfig, h: Map<VaultId, Vec<(RecordId, BlobId)>>, d: Map<VaultId, Vec<RecordId>>) -> bool {
    &&& forall|v: VaultId| #[trigger] d.contains_key(v) <==> h.contains_key(v) && c.vault(v)
    &&& forall|v: VaultId| #[trigger] d.contains_key(v) ==> differs(db, c, v, h[v]@, d[v]@)
}
pub open spec fn exps(db: Db, d: Map<VaultId, Vec<RecordId>>, e: Map<VaultId, Vec<(RecordId, Record)>>) -> bool {
    &&& forall|v: VaultId| #[trigger] e.contains_key(v) <==> d.contains_key(v)
    &&& forall|v: VaultId| #[trigger] e.contains_key(v) ==> db.vaults@.contains_key(v) && exports(db, v, d[v]@, e[v]@)
}
pub broadcast proof fn lemma_tree_like(a: Db, b: Db, h: Map<VaultId, Vec<(RecordId, BlobId)>>)
    requires #[trigger] db_like(a, b), #[trigger] tree(b, h), b.wf(),
    ensures tree(a, h),
{
    lemma_like_at(a, b);
}
proof fn lemma_like_at(a: Db, b: Db)
    requires db_like(a, b), b.wf() || a.wf(),
    ensures forall|v: VaultId, x: RecordId| #![trigger a.at(v, x)] #![trigger b.at(v, x)] a.at(v, x) == b.at(v, x), a.wf() && b.wf(),
{
    if a.wf() { lemma_wf_like(a, b); } else { assert(db_like(b, a)); lemma_wf_like(b, a); }
}
pub proof fn lemma_diffs_like(a: Db, b: Db, c: SyncClientsConfig, k: SyncClientsConfig, h: Map<VaultId, Vec<(RecordId, BlobId)>>, d: Map<VaultId, Vec<RecordId>>)
    requires db_like(a, b), diffs(b, c, h, d), b.wf(), k.same(&c),
    ensures diffs(a, k, h, d),
{
    lemma_like_at(a, b);
    assert forall|v: VaultId| #[trigger] d.contains_key(v) implies differs(a, k, v, h[v]@, d[v]@) by {
        assert(differs(b, c, v, h[v]@, d[v]@));
        assert(k.to(v) == c.to(v));
        let l = d[v]@; let list = h[v]@;
        assert forall|i: int| 0 <= i < l.len() implies exists|j: int| 0 <= j < list.len() && (#[trigger] list[j]).0 == (#[trigger] l[i]) && k.record(v, l[i]) && k.takes(a.at(k.to(v), l[i]), list[j].1) by {
            let j = choose|j: int| 0 <= j < list.len() && (#[trigger] list[j]).0 == l[i] && c.record(v, l[i]) && c.takes(b.at(c.to(v), l[i]), list[j].1);
            assert(k.record(v, l[i]) == c.record(v, l[i]));
        }
        assert forall|j: int| 0 <= j < list.len() && k.record(v, (#[trigger] list[j]).0) && k.takes(a.at(k.to(v), list[j].0), list[j].1) implies l.contains(list[j].0) by {
            assert(k.record(v, list[j].0) == c.record(v, list[j].0));
        }
    }
}
pub broadcast proof fn lemma_diffs_db(a: Db, b: Db, c: SyncClientsConfig, h: Map<VaultId, Vec<(RecordId, BlobId)>>, d: Map<VaultId, Vec<RecordId>>)
    requires #[trigger] db_like(a, b), #[trigger] diffs(b, c, h, d), b.wf(),
    ensures diffs(a, c, h, d),
{
    lemma_diffs_like(a, b, c, c, h, d);
}
pub broadcast proof fn lemma_diffs_of(b: Db, c: SyncClientsConfig, k: SyncSnapshotsConfig, x: ClientId, h: Map<VaultId, Vec<(RecordId, BlobId)>>, d: Map<VaultId, Vec<RecordId>>)
    requires #[trigger] diffs(b, c, h, d), b.wf(), #[trigger] k.of(x).same(&c),
    ensures diffs(b, k.of(x), h, d),
{
    lemma_diffs_like(b, b, c, k.of(x), h, d);
}
pub broadcast proof fn lemma_exps_like(a: Db, b: Db, d: Map<VaultId, Vec<RecordId>>, e: Map<VaultId, Vec<(RecordId, Record)>>)
    requires #[trigger] db_like(a, b), #[trigger] exps(b, d, e),
    ensures exps(a, d, e),
{
    assert forall|v: VaultId| #[trigger] e.contains_key(v) implies a.vaults@.contains_key(v) && exports(a, v, d[v]@, e[v]@) by {
        assert(b.vaults@.contains_key(v));
        assert(a.vaults@[v].entries@ == b.vaults@[v].entries@);
    }
}
pub type Tree<T> = HashMap<ClientId, HashMap<VaultId, Vec<T>>>;
/// the hierarchies of the first `n` clients of `q`
pub open spec fn trees<S: SnapSt>(s: S, q: Seq<ClientId>, n: int, h: Tree<(RecordId, BlobId)>) -> bool {
    &&& forall|c: ClientId| #[trigger] h@.contains_key(c) <==> s.has(c) && listed(q, n, c)
    &&& forall|c: ClientId| #[trigger] h@.contains_key(c) ==> tree(s.cdb(c), h@[c]@)
}
/// the differences of the first `n` hierarchies of `q`
pub open spec fn all_diffs<S: SnapSt>(s: S, k: SyncSnapshotsConfig, q: Seq<(ClientId, HashMap<VaultId, Vec<(RecordId, BlobId)>>)>, n: int, d: Tree<RecordId>) -> bool {
    &&& forall|c: ClientId| #[trigger] d@.contains_key(c) <==> k.client(c) && s.has(k.to(c)) && among(q, n, c)
    &&& forall|j: int| 0 <= j < n && d@.contains_key((#[trigger] q[j]).0) ==> diffs(s.cdb(k.to(q[j].0)), k.of(q[j].0), q[j].1@, d@[q[j].0]@)
}
/// the exports of the first `n` differences of `q`
pub open spec fn all_exps<S: SnapSt>(s: S, q: Seq<(ClientId, HashMap<VaultId, Vec<RecordId>>)>, n: int, e: Tree<(RecordId, Record)>) -> bool {
    &&& forall|c: ClientId| #[trigger] e@.contains_key(c) <==> s.has(c) && among(q, n, c)
    &&& forall|j: int| 0 <= j < n && e@.contains_key((#[trigger] q[j]).0) ==> exps(s.cdb(q[j].0), q[j].1@, e@[q[j].0]@)
}
// ---------------------------------------------------------------- storing what was exported
pub type Packs = Seq<(VaultId, Vec<(RecordId, Record)>)>;
pub type Keys = Map<VaultId, PKey<Provider>>;
/// the record `i` of the pack `j` is one to store, and it goes to `x` of the vault `t`
pub open spec fn lands_at(c: SyncClientsConfig, s: Packs, j: int, i: int, t: VaultId, x: RecordId) -> bool {
    0 <= i < s[j].1@.len() && s[j].1@[i].0 == x && c.vault(s[j].0) && c.record(s[j].0, x) && c.to(s[j].0) == t
}
/// the first `n` packs, sealed with the keys `k`, have been stored
pub open spec fn landed_n(c: SyncClientsConfig, s: Packs, n: int, k: Keys, pre: Db, post: Db) -> bool {
    forall|t: VaultId, x: RecordId| #![trigger post.at(t, x)]
        ((forall|j: int, i: int| 0 <= j < n ==> !#[trigger] lands_at(c, s, j, i, t, x)) && post.at(t, x) == pre.at(t, x))
        || (exists|j: int, i: int| 0 <= j < n && #[trigger] lands_at(c, s, j, i, t, x) && k.contains_key(s[j].0) && post.at(t, x) == contents::<Provider>(k[s[j].0]@, s[j].1@[i].1))
}
pub open spec fn lands(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, v: VaultId, i: int, t: VaultId, x: RecordId) -> bool {
    r.contains_key(v) && 0 <= i < r[v]@.len() && r[v]@[i].0 == x && c.vault(v) && c.record(v, x) && c.to(v) == t
}
/// the records `r`, sealed with the keys `k`, have been stored, if `all` of them
pub open spec fn landed(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys, pre: Db, post: Db, all: bool) -> bool {
    forall|t: VaultId, x: RecordId| #![trigger post.at(t, x)]
        ((all ==> forall|v: VaultId, i: int| !#[trigger] lands(c, r, v, i, t, x)) && post.at(t, x) == pre.at(t, x))
        || (exists|v: VaultId, i: int| #[trigger] lands(c, r, v, i, t, x) && k.contains_key(v) && post.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1))
}
/// what a key opens among the records was sealed with it
pub open spec fn fit(r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys) -> bool {
    forall|v: VaultId| #[trigger] r.contains_key(v) && k.contains_key(v) ==> Db::honest(k[v]@, r[v]@)
}
/// the key of a vault is missing, or one of its records cannot be read
pub open spec fn lacks(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys) -> bool { exists|v: VaultId| #[trigger] r.contains_key(v) && c.vault(v) && (!k.contains_key(v) || !Db::whole(k[v]@, r[v]@)) }
/// what the function that updates a state has done
pub open spec fn did(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys, a: ClientState, b: ClientState, o: Result<(), SnapshotError>) -> bool {
    state_ok(b) && landed(c, r, k, a.1, b.1, o is Ok) && (o is Err ==> fault() || lacks(c, r, k))
}
pub broadcast proof fn lemma_landed_skip(c: SyncClientsConfig, s: Packs, n: int, k: Keys, pre: Db, post: Db)
    requires #[trigger] landed_n(c, s, n, k, pre, post), 0 <= n < s.len(), !c.vault(s[n].0),
    ensures landed_n(c, s, n + 1, k, pre, post),
{}
pub broadcast proof fn lemma_landed_all(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, s: Packs, n: int, k: Keys, pre: Db, post: Db)
    requires #[trigger] landed_n(c, s, n, k, pre, post), #[trigger] vx_lists_owned(r, s), 0 <= n <= s.len(),
    ensures landed(c, r, k, pre, post, n == s.len()),
{
    let all = n == s.len();
    assert forall|t: VaultId, x: RecordId|
        ((all ==> forall|v: VaultId, i: int| !#[trigger] lands(c, r, v, i, t, x)) && #[trigger] post.at(t, x) == pre.at(t, x))
        || (exists|v: VaultId, i: int| #[trigger] lands(c, r, v, i, t, x) && k.contains_key(v) && post.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1)) by {
        if exists|j: int, i: int| 0 <= j < n && #[trigger] lands_at(c, s, j, i, t, x) && k.contains_key(s[j].0) && post.at(t, x) == contents::<Provider>(k[s[j].0]@, s[j].1@[i].1) {
            let (j, i) = choose|j: int, i: int| 0 <= j < n && #[trigger] lands_at(c, s, j, i, t, x) && k.contains_key(s[j].0) && post.at(t, x) == contents::<Provider>(k[s[j].0]@, s[j].1@[i].1);
            assert(lands(c, r, s[j].0, i, t, x));
        } else if all {
            assert forall|v: VaultId, i: int| !#[trigger] lands(c, r, v, i, t, x) by {
                if lands(c, r, v, i, t, x) {
                    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == v;
                    assert(lands_at(c, s, j, i, t, x));
                }
            }
        }
    }
}
/// one more pack: `l` is what is selected of it
pub proof fn lemma_landed_step(c: SyncClientsConfig, s: Packs, n: int, k: Keys, pre: Db, a: Db, b: Db, l: Seq<(RecordId, Record)>)
    requires
        landed_n(c, s, n, k, pre, a), 0 <= n < s.len(), c.vault(s[n].0), k.contains_key(s[n].0),
        forall|i: int| 0 <= i < l.len() ==> s[n].1@.contains(#[trigger] l[i]) && c.record(s[n].0, l[i].0),
        forall|i: int| 0 <= i < s[n].1@.len() && c.record(s[n].0, (#[trigger] s[n].1@[i]).0) ==> l.contains(s[n].1@[i]),
        b.same_but(&a, c.to(s[n].0)),
        forall|x: RecordId| !vx_has_key(l, x) ==> #[trigger] b.at(c.to(s[n].0), x) == a.at(c.to(s[n].0), x),
        forall|x: RecordId| vx_has_key(l, x) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == x && #[trigger] b.at(c.to(s[n].0), x) == contents::<Provider>(k[s[n].0]@, l[i].1),
    ensures landed_n(c, s, n + 1, k, pre, b),
{
    let v = s[n].0;
    assert forall|t: VaultId, x: RecordId|
        ((forall|j: int, i: int| 0 <= j < n + 1 ==> !#[trigger] lands_at(c, s, j, i, t, x)) && #[trigger] b.at(t, x) == pre.at(t, x))
        || (exists|j: int, i: int| 0 <= j < n + 1 && #[trigger] lands_at(c, s, j, i, t, x) && k.contains_key(s[j].0) && b.at(t, x) == contents::<Provider>(k[s[j].0]@, s[j].1@[i].1)) by {
        let o = a.at(t, x);
        if t == c.to(v) && vx_has_key(l, x) {
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == x && b.at(t, x) == contents::<Provider>(k[v]@, l[i].1);
            let h = choose|h: int| 0 <= h < s[n].1@.len() && s[n].1@[h] == l[i];
            assert(lands_at(c, s, n, h, t, x));
        } else {
            assert(b.at(t, x) == a.at(t, x));
            if exists|i: int| #[trigger] lands_at(c, s, n, i, t, x) {
                let i = choose|i: int| #[trigger] lands_at(c, s, n, i, t, x);
                assert(l.contains(s[n].1@[i]));
                let h = choose|h: int| 0 <= h < l.len() && l[h] == s[n].1@[i];
                assert(l[h].0 == x);
            }
        }
    }
}
pub proof fn lemma_landed_same(c: SyncClientsConfig, s: Packs, n: int, k: Keys, pre: Db, a: Db, b: Db)
    requires landed_n(c, s, n, k, pre, a), forall|t: VaultId, x: RecordId| #[trigger] b.at(t, x) == a.at(t, x),
    ensures landed_n(c, s, n, k, pre, b),
{
    assert forall|t: VaultId, x: RecordId|
        ((forall|j: int, i: int| 0 <= j < n ==> !#[trigger] lands_at(c, s, j, i, t, x)) && #[trigger] b.at(t, x) == pre.at(t, x))
        || (exists|j: int, i: int| 0 <= j < n && #[trigger] lands_at(c, s, j, i, t, x) && k.contains_key(s[j].0) && b.at(t, x) == contents::<Provider>(k[s[j].0]@, s[j].1@[i].1)) by { let o = a.at(t, x); }
}
pub broadcast proof fn lemma_landed_like(c: SyncClientsConfig, r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys, a: Db, b: Db, d: Db, e: Db, all: bool)
    requires #[trigger] landed(c, r, k, a, b, all), #[trigger] db_like(d, a), #[trigger] db_like(e, b), a.wf(), b.wf(),
    ensures landed(c, r, k, d, e, all),
{
    lemma_like_at(d, a); lemma_like_at(e, b);
    assert forall|t: VaultId, x: RecordId|
        ((all ==> forall|v: VaultId, i: int| !#[trigger] lands(c, r, v, i, t, x)) && #[trigger] e.at(t, x) == d.at(t, x))
        || (exists|v: VaultId, i: int| #[trigger] lands(c, r, v, i, t, x) && k.contains_key(v) && e.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1)) by { let o = b.at(t, x); }
}
pub broadcast proof fn lemma_did_of(c: SyncClientsConfig, q: SyncSnapshotsConfig, y: ClientId, r: Map<VaultId, Vec<(RecordId, Record)>>, k: Keys, a: ClientState, b: ClientState, o: Result<(), SnapshotError>)
    requires #[trigger] did(c, r, k, a, b, o), (#[trigger] q.of(y)).same(&c),
    ensures did(q.of(y), r, k, a, b, o),
{
    let f = q.of(y);
    assert forall|v: VaultId, i: int, t: VaultId, x: RecordId| #[trigger] lands(f, r, v, i, t, x) == lands(c, r, v, i, t, x) by {
        assert(f.vault(v) == c.vault(v)); assert(f.record(v, x) == c.record(v, x)); assert(f.to(v) == c.to(v));
    }
    let all = o is Ok;
    assert forall|t: VaultId, x: RecordId|
        ((all ==> forall|v: VaultId, i: int| !#[trigger] lands(f, r, v, i, t, x)) && #[trigger] b.1.at(t, x) == a.1.at(t, x))
        || (exists|v: VaultId, i: int| #[trigger] lands(f, r, v, i, t, x) && k.contains_key(v) && b.1.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1)) by {
        if exists|v: VaultId, i: int| #[trigger] lands(c, r, v, i, t, x) && k.contains_key(v) && b.1.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1) {
            let (v, i) = choose|v: VaultId, i: int| #[trigger] lands(c, r, v, i, t, x) && k.contains_key(v) && b.1.at(t, x) == contents::<Provider>(k[v]@, r[v]@[i].1);
            assert(lands(f, r, v, i, t, x));
        }
    }
    if lacks(c, r, k) { let v = choose|v: VaultId| #[trigger] r.contains_key(v) && c.vault(v) && (!k.contains_key(v) || !Db::whole(k[v]@, r[v]@)); assert(f.vault(v) == c.vault(v)); assert(lacks(f, r, k)); }
}
pub type Crates = Seq<(ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>)>;
pub type AllKeys = Map<ClientId, HashMap<VaultId, PKey<Provider>>>;
pub open spec fn brings_at(q: SyncSnapshotsConfig, s: Crates, j: int, v: VaultId, i: int, y: ClientId, t: VaultId, x: RecordId) -> bool {
    q.client(s[j].0) && q.to(s[j].0) == y && lands(q.of(s[j].0), s[j].1@, v, i, t, x)
}
pub open spec fn brought_n<S: SnapSt>(q: SyncSnapshotsConfig, s: Crates, n: int, k: AllKeys, pre: S, post: S) -> bool {
    forall|y: ClientId, t: VaultId, x: RecordId| #![trigger post.cdb(y).at(t, x)]
        ((forall|j: int, v: VaultId, i: int| 0 <= j < n ==> !#[trigger] brings_at(q, s, j, v, i, y, t, x)) && post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|j: int, v: VaultId, i: int| 0 <= j < n && #[trigger] brings_at(q, s, j, v, i, y, t, x) && k.contains_key(s[j].0) && k[s[j].0]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[s[j].0]@[v]@, s[j].1@[v]@[i].1))
}
pub open spec fn brings(q: SyncSnapshotsConfig, r: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, c: ClientId, v: VaultId, i: int, y: ClientId, t: VaultId, x: RecordId) -> bool {
    r.contains_key(c) && q.client(c) && q.to(c) == y && lands(q.of(c), r[c]@, v, i, t, x)
}
pub open spec fn brought<S: SnapSt>(q: SyncSnapshotsConfig, r: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys, pre: S, post: S, all: bool) -> bool {
    forall|y: ClientId, t: VaultId, x: RecordId| #![trigger post.cdb(y).at(t, x)]
        ((all ==> forall|c: ClientId, v: VaultId, i: int| !#[trigger] brings(q, r, c, v, i, y, t, x)) && post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId, i: int| #[trigger] brings(q, r, c, v, i, y, t, x) && k.contains_key(c) && k[c]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, r[c]@[v]@[i].1))
}
pub broadcast proof fn lemma_brought_skip<S: SnapSt>(q: SyncSnapshotsConfig, s: Crates, n: int, k: AllKeys, pre: S, post: S)
    requires #[trigger] brought_n(q, s, n, k, pre, post), 0 <= n < s.len(), !q.client(s[n].0),
    ensures brought_n(q, s, n + 1, k, pre, post),
{}
pub proof fn lemma_brought_step<S: SnapSt>(q: SyncSnapshotsConfig, s: Crates, n: int, k: AllKeys, pre: S, a: S, b: S)
    requires brought_n(q, s, n, k, pre, a), 0 <= n < s.len(), q.client(s[n].0), k.contains_key(s[n].0),
        forall|c: ClientId| c != q.to(s[n].0) ==> #[trigger] b.cdb(c) == a.cdb(c),
        landed(q.of(s[n].0), s[n].1@, k[s[n].0]@, a.cdb(q.to(s[n].0)), b.cdb(q.to(s[n].0)), true),
    ensures brought_n(q, s, n + 1, k, pre, b),
{
    let c = s[n].0;
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        ((forall|j: int, v: VaultId, i: int| 0 <= j < n + 1 ==> !#[trigger] brings_at(q, s, j, v, i, y, t, x)) && #[trigger] b.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|j: int, v: VaultId, i: int| 0 <= j < n + 1 && #[trigger] brings_at(q, s, j, v, i, y, t, x) && k.contains_key(s[j].0) && k[s[j].0]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[s[j].0]@[v]@, s[j].1@[v]@[i].1)) by {
        let o = a.cdb(y).at(t, x);
        if y == q.to(c) {
            if exists|v: VaultId, i: int| #[trigger] lands(q.of(c), s[n].1@, v, i, t, x) && k[c]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, s[n].1@[v]@[i].1) {
                let (v, i) = choose|v: VaultId, i: int| #[trigger] lands(q.of(c), s[n].1@, v, i, t, x) && k[c]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, s[n].1@[v]@[i].1);
                assert(brings_at(q, s, n, v, i, y, t, x));
            } else {
                assert(b.cdb(y).at(t, x) == a.cdb(y).at(t, x));
            }
        }
    }
}
/// an update that failed: some of the pack, or nothing, has come
pub broadcast proof fn lemma_brought_part<S: SnapSt>(q: SyncSnapshotsConfig, r: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, s: Crates, n: int, k: AllKeys, pre: S, a: S, b: S)
    requires #[trigger] brought_n(q, s, n, k, pre, a), #[trigger] vx_lists_owned(r, s), 0 <= n < s.len(), q.client(s[n].0), k.contains_key(s[n].0),
        #[trigger] others_same(a, b, q.to(s[n].0)),
        landed(q.of(s[n].0), s[n].1@, k[s[n].0]@, a.cdb(q.to(s[n].0)), b.cdb(q.to(s[n].0)), false),
    ensures brought(q, r, k, pre, b, false),
{
    lemma_brought_all(q, r, s, n, k, pre, a);
    let c = s[n].0;
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        #[trigger] b.cdb(y).at(t, x) == pre.cdb(y).at(t, x)
        || (exists|c: ClientId, v: VaultId, i: int| #[trigger] brings(q, r, c, v, i, y, t, x) && k.contains_key(c) && k[c]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, r[c]@[v]@[i].1)) by {
        let o = a.cdb(y).at(t, x);
        if y == q.to(c) {
            if exists|v: VaultId, i: int| #[trigger] lands(q.of(c), s[n].1@, v, i, t, x) && k[c]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, s[n].1@[v]@[i].1) {
                let (v, i) = choose|v: VaultId, i: int| #[trigger] lands(q.of(c), s[n].1@, v, i, t, x) && k[c]@.contains_key(v) && b.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, s[n].1@[v]@[i].1);
                assert(brings(q, r, c, v, i, y, t, x));
            } else {
                assert(b.cdb(y).at(t, x) == a.cdb(y).at(t, x));
            }
        }
    }
}
pub open spec fn others_same<S: SnapSt>(a: S, b: S, y: ClientId) -> bool { forall|c: ClientId| c != y ==> #[trigger] b.cdb(c) == a.cdb(c) }
pub broadcast proof fn lemma_brought_all<S: SnapSt>(q: SyncSnapshotsConfig, r: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, s: Crates, n: int, k: AllKeys, pre: S, post: S)
    requires #[trigger] brought_n(q, s, n, k, pre, post), #[trigger] vx_lists_owned(r, s), 0 <= n <= s.len(),
    ensures brought(q, r, k, pre, post, n == s.len()),
{
    let all = n == s.len();
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        ((all ==> forall|c: ClientId, v: VaultId, i: int| !#[trigger] brings(q, r, c, v, i, y, t, x)) && #[trigger] post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId, i: int| #[trigger] brings(q, r, c, v, i, y, t, x) && k.contains_key(c) && k[c]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, r[c]@[v]@[i].1)) by {
        if exists|j: int, v: VaultId, i: int| 0 <= j < n && #[trigger] brings_at(q, s, j, v, i, y, t, x) && k.contains_key(s[j].0) && k[s[j].0]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[s[j].0]@[v]@, s[j].1@[v]@[i].1) {
            let (j, v, i) = choose|j: int, v: VaultId, i: int| 0 <= j < n && #[trigger] brings_at(q, s, j, v, i, y, t, x) && k.contains_key(s[j].0) && k[s[j].0]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[s[j].0]@[v]@, s[j].1@[v]@[i].1);
            assert(brings(q, r, s[j].0, v, i, y, t, x));
        } else if all {
            assert forall|c: ClientId, v: VaultId, i: int| !#[trigger] brings(q, r, c, v, i, y, t, x) by {
                if brings(q, r, c, v, i, y, t, x) {
                    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == c;
                    assert(brings_at(q, s, j, v, i, y, t, x));
                }
            }
        }
    }
}
pub trait SnapSt {
    /// the vaults of a client
    spec fn cdb(&self, c: ClientId) -> Db;
    /// there is a state to hand out
    spec fn has(&self, c: ClientId) -> bool;
    spec fn named(&self, c: ClientId) -> bool;
    spec fn sane(&self) -> bool;
    /// what is handed out for the client
    spec fn gives(&self, c: ClientId, s: Option<&ClientState>) -> bool;
    proof fn lemma_cdb(&self, c: ClientId)
        requires self.sane(),
        ensures self.cdb(c).wf();
    proof fn lemma_gives(&self, c: ClientId, s: Option<&ClientState>)
        requires self.gives(c, s), self.sane(),
        ensures s is Some <==> self.has(c), s matches Some(x) ==> state_ok(*x) && db_like(self.cdb(c), x.1);
}
/// a state that a function which updates it may get
pub open spec fn given(d: Db, s: ClientState) -> bool { state_ok(s) && db_like(d, s.1) }
#[verifier::prophetic]
pub open spec fn sound_after<F: FnOnce(&mut ClientState) -> Result<(), SnapshotError>>(d: Db, f: F) -> bool {
    forall|m: &mut ClientState, r: Result<(), SnapshotError>| given(d, *m) && #[trigger] f.ensures((m,), r) ==> state_ok(*final(m))
}
/// the function has turned the vaults `d` into `e`
#[verifier::prophetic]
pub open spec fn updated<F: FnOnce(&mut ClientState) -> Result<(), SnapshotError>>(d: Db, f: F, r: Result<(), SnapshotError>, e: Db) -> bool {
    exists|m: &mut ClientState| given(d, *m) && #[trigger] f.ensures((m,), r) && (db_like(e, final(m).1) || (r is Err && db_like(e, d)))
}
pub broadcast proof fn lemma_given<S: SnapSt>(s: S, c: ClientId, o: Option<&ClientState>)
    requires #[trigger] s.gives(c, o), s.sane(),
    ensures o is Some <==> s.has(c), o matches Some(x) ==> state_ok(*x) && db_like(s.cdb(c), x.1),
{
    s.lemma_gives(c, o);
}
pub trait SyncSnapshots: SnapSt + Sized {
    fn clients(&self) -> (r: Vec<ClientId>) ensures forall|c: ClientId| #[trigger] self.named(c) <==> r@.contains(c);
    fn get_from_state<F, T>(&self, cid: ClientId, f: F) -> (r: Result<T, SnapshotError>)
        where F: FnOnce(Option<&ClientState>) -> Result<T, SnapshotError>
        requires self.sane(), forall|s: Option<&ClientState>| #[trigger] self.gives(cid, s) ==> f.requires((s,)),
        ensures (r is Err && fault()) || exists|s: Option<&ClientState>| #[trigger] self.gives(cid, s) && f.ensures((s,), r);
    fn update_state<F>(&mut self, cid: ClientId, f: F) -> (r: Result<(), SnapshotError>)
        where F: FnOnce(&mut ClientState) -> Result<(), SnapshotError>
        requires
            old(self).sane(), forall|m: &mut ClientState| #[trigger] given(old(self).cdb(cid), *m) ==> f.requires((m,)),
            sound_after(old(self).cdb(cid), f),
        ensures
            final(self).sane(), forall|c: ClientId| c != cid ==> #[trigger] final(self).cdb(c) == old(self).cdb(c),
            updated(old(self).cdb(cid), f, r, final(self).cdb(cid)) || (r is Err && fault() && db_like(final(self).cdb(cid), old(self).cdb(cid)));
//@file client/src/sync.rs
//@fn trait SyncSnapshots::get_hierarchy
@ret r
@attr #[verifier::loop_isolation(false)]
@closure 0
-> (vx_r: Vec<ClientId>) ensures forall|c: ClientId| #[trigger] self.named(c) <==> vx_r@.contains(c)
@closure 1
-> (vx_r: Result<Option<HashMap<VaultId, Vec<(RecordId, BlobId)>>>, SnapshotError>)
    requires state matches Some(s) ==> state_ok(*s)
    ensures match vx_r { Ok(Some(h)) => state matches Some(s) && tree(s.1, h@), Ok(None) => state is None, Err(_) => fault() }
@start
    broadcast use lemma_in, lemma_tree_like, lemma_given;
    let ghost vx_clients = clients;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_clients matches Some(s) ==> vx_it.seq() == s@, vx_clients is None ==> forall|c: ClientId| #[trigger] self.named(c) <==> vx_it.seq().contains(c),
        self.sane(),
        trees(*self, vx_it.seq(), vx_it.at(), hierarchy),
@sig
    requires self.sane(),
    ensures
        match r {
            Ok(h) => {
                &&& forall|c: ClientId| #[trigger] h@.contains_key(c) <==> self.has(c) && (match clients { Some(s) => s@.contains(c), None => self.named(c) })
                &&& forall|c: ClientId| #[trigger] h@.contains_key(c) ==> tree(self.cdb(c), h@[c]@)
            },
            Err(_) => fault(),
        },
//@end
//@fn trait SyncSnapshots::get_diff
@ret r
@attr #[verifier::loop_isolation(false)]
@closure 0
-> (vx_r: Result<Option<HashMap<VaultId, Vec<RecordId>>>, SnapshotError>)
    requires state matches Some(s) ==> state_ok(*s)
    ensures match vx_r { Ok(Some(d)) => state matches Some(s) && diffs(s.1, config.of(cid), hierarchy@, d@), Ok(None) => state is None, Err(_) => fault() }
@start
    broadcast use lemma_in, lemma_diffs_db, lemma_diffs_of, axiom_no_map, lemma_given;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(other@, vx_it.seq()), self.sane(),
        all_diffs(*self, *config, vx_it.seq(), vx_it.at(), diff),
@sig
    requires self.sane(),
    ensures
        match r {
            Ok(d) => {
                &&& forall|c: ClientId| #[trigger] d@.contains_key(c) <==> config.client(c) && self.has(config.to(c)) && other@.contains_key(c)
                &&& forall|c: ClientId| #[trigger] d@.contains_key(c) ==> diffs(self.cdb(config.to(c)), config.of(c), other@[c]@, d@[c]@)
            },
            Err(_) => fault(),
        },
//@end
//@fn trait SyncSnapshots::export_entries
@ret r
@attr #[verifier::loop_isolation(false)]
@closure 0
-> (vx_r: Result<Option<HashMap<VaultId, Vec<(RecordId, Record)>>>, SnapshotError>)
    requires state matches Some(s) ==> state_ok(*s)
    ensures match vx_r { Ok(Some(e)) => state matches Some(s) && exps(s.1, select@, e@), Ok(None) => state is None,
        Err(_) => fault() || (state matches Some(s) && exists|v: VaultId| #[trigger] select@.contains_key(v) && !s.1.vaults@.contains_key(v)) }
@start
    broadcast use lemma_in, lemma_exps_like, lemma_given;
    let ghost vx_sel = select@;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(vx_sel, vx_it.seq()), self.sane(),
        all_exps(*self, vx_it.seq(), vx_it.at(), export),
@sig
    requires self.sane(),
    ensures
        match r {
            Ok(e) => {
                &&& forall|c: ClientId| #[trigger] e@.contains_key(c) <==> self.has(c) && select@.contains_key(c)
                &&& forall|c: ClientId| #[trigger] e@.contains_key(c) ==> exps(self.cdb(c), select@[c]@, e@[c]@)
            },
            Err(_) => fault() || exists|c: ClientId, v: VaultId| #[trigger] select@.contains_key(c) && #[trigger] select@[c]@.contains_key(v) && !self.cdb(c).vaults@.contains_key(v),
        },
//@end
//@fn trait SyncSnapshots::import_records
@ret r
@attr #[verifier::loop_isolation(false)]
@start
    broadcast use lemma_landed_skip, lemma_landed_all, lemma_landed_like, lemma_did_of, lemma_brought_skip, lemma_brought_all, lemma_brought_part, axiom_no_map;
    let ghost vx_cfg = *config;
    let ghost vx_rs = records@;
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(vx_rs, vx_it.seq()), self.sane(),
        brought_n(vx_cfg, vx_it.seq(), vx_it.at(), old_keys@, *old(self), *self),
@rx "let mapped_cid =" => "let ghost vx_n = vx_it.at() - 1; let ghost vx_c = vx_it.seq()[vx_n].0; let ghost vx_rc = vx_it.seq()[vx_n].1@; let ghost vx_kc = old_keystore@; let ghost vx_a = *self; let mapped_cid ="
@closure 1
-> (vx_r: Result<(), SnapshotError>)
    requires state_ok(*old(state)), fit(records@, old_keystore@)
    ensures did(*config, records@, old_keystore@, *old(state), *final(state), vx_r)
@forwhile 1 vx_jt
@loop 1 for
    invariant
        vx_jt.wf(), vx_lists_owned(vx_rc, vx_jt.seq()), state_ok(*state), fit(vx_rc, old_keystore@),
        landed_n(*config, vx_jt.seq(), vx_jt.at(), old_keystore@, vx_s.1, state.1),
@rx "state\.1\.import_records\((\w+), (\w+), (\w+), (\w+)\)\?" => "let ghost vx_m = vx_jt.at() - 1; let ghost vx_k = $4@; let ghost vx_b = state.1; let vx_r = state.1.import_records($1, $2, $3, $4); proof { if vx_r is Ok { lemma_landed_step(*config, vx_jt.seq(), vx_m, old_keystore@, vx_s.1, vx_b, state.1, vx_k); } else { lemma_landed_same(*config, vx_jt.seq(), vx_m, old_keystore@, vx_s.1, vx_b, state.1); } } vx_r?"
@rx "match config\.client_config" => "let vx_o = match config.client_config"
@rx "\}\?;" => "}; proof { let vx_y = vx_cfg.to(vx_c); assert(others_same(vx_a, *self, vx_y)); vx_a.lemma_cdb(vx_y); if db_like(self.cdb(vx_y), vx_a.cdb(vx_y)) { lemma_like_at(self.cdb(vx_y), vx_a.cdb(vx_y)); } assert(landed(vx_cfg.of(vx_c), vx_rc, vx_kc, vx_a.cdb(vx_y), self.cdb(vx_y), vx_o is Ok)); if vx_o is Ok { lemma_brought_step(vx_cfg, vx_it.seq(), vx_n, old_keys@, *old(self), vx_a, *self); } } vx_o?;"
@rx "let mut vx_jt" => "let ghost vx_s = *state; let mut vx_jt"
@closure 2
-> (vx_r: bool) ensures vx_r == select_records@.contains(vx_p0.0)
@closure 4
-> (vx_r: Result<(), SnapshotError>)
    requires state_ok(*old(state))
    ensures did(vx_cfg.of(vx_c), vx_rc, vx_kc, *old(state), *final(state), vx_r)
@closure 5
-> (vx_r: Result<(), SnapshotError>)
    requires state_ok(*old(state))
    ensures did(vx_cfg.of(vx_c), vx_rc, vx_kc, *old(state), *final(state), vx_r)
@sig
    requires
        old(self).sane(),
        forall|c: ClientId| #[trigger] records@.contains_key(c) && old_keys@.contains_key(c) ==> fit(records@[c]@, old_keys@[c]@),
    ensures
        final(self).sane(),
        brought(*config, records@, old_keys@, *old(self), *final(self), r is Ok),
        r is Err ==> fault() || exists|c: ClientId| #[trigger] records@.contains_key(c) && (!old_keys@.contains_key(c) || lacks(config.of(c), records@[c]@, old_keys@[c]@)),
//@end
}
//@file client/src/types/snapshot.rs
/// `ClientState::default()`: derived
pub fn vx_default_state() -> (r: ClientState) ensures state_ok(r), r.0@ == Map::<VaultId, PKey<Provider>>::empty(), r.1.vaults@ == Map::<VaultId, Vault<Provider>>::empty(), { (HashMap::default(), DbView::default(), Cache::default()) }
//@rewrite "\.or_default\(\)" => ".or_insert_with(vx_default_state)"
impl SnapSt for SnapshotState {
    open spec fn cdb(&self, c: ClientId) -> Db { if self.0@.contains_key(c) { self.0@[c].1 } else { no_db() } }
    open spec fn has(&self, c: ClientId) -> bool { self.0@.contains_key(c) }
    open spec fn named(&self, c: ClientId) -> bool { self.0@.contains_key(c) }
    open spec fn sane(&self) -> bool { states_ok(self.0@) }
    open spec fn gives(&self, c: ClientId, s: Option<&ClientState>) -> bool { match s { Some(x) => self.0@.contains_key(c) && self.0@[c] == *x, None => !self.0@.contains_key(c) } }
    proof fn lemma_cdb(&self, c: ClientId) { broadcast use axiom_no_map; }
    proof fn lemma_gives(&self, c: ClientId, s: Option<&ClientState>) {}
}
impl SyncSnapshots for SnapshotState {
//@fn SyncSnapshots for SnapshotState::clients
@ret r
//@end
//@fn SyncSnapshots for SnapshotState::get_from_state
@ret r
@rx "\bf\((\w+)\)" => " proof { assert(self.gives(cid, $1)); } f($1)"
//@end
//@fn SyncSnapshots for SnapshotState::update_state
@ret r
@rx "\bf\((\w+)\)" => " proof { assert(given(old(self).cdb(cid), *$1)); } f($1)"
@start
    broadcast use axiom_no_map;
//@end
}
impl SnapSt for Snapshot {
    open spec fn cdb(&self, c: ClientId) -> Db { match self.client(c) { Some(s) => s.1, None => no_db() } }
    open spec fn has(&self, c: ClientId) -> bool { true }
    open spec fn named(&self, c: ClientId) -> bool { self.states@.contains_key(c) }
    open spec fn sane(&self) -> bool { self.wf() }
    open spec fn gives(&self, c: ClientId, s: Option<&ClientState>) -> bool { s matches Some(x) && given(self.cdb(c), *x) }
    proof fn lemma_cdb(&self, c: ClientId) { broadcast use axiom_no_map; }
    proof fn lemma_gives(&self, c: ClientId, s: Option<&ClientState>) {}
}
impl SyncSnapshots for Snapshot {
//@fn SyncSnapshots for Snapshot::clients
@ret r
//@end
//@fn SyncSnapshots for Snapshot::get_from_state
@ret r
@rx "\bf\((Some\(&\w+\))\)" => " proof { assert(self.gives(cid, $1)); } f($1)"
@start
    broadcast use axiom_no_map;
//@end
//@fn SyncSnapshots for Snapshot::update_state
@ret r
@rx "\bf\(&mut (\w+)\)" => " proof { assert(given(old(self).cdb(cid), $1)); } f(&mut $1)"
@start
    broadcast use axiom_no_map;
//@end
}
// ---------------------------------------------------------------- merging
pub type States = Map<ClientId, ClientState>;
/// the record `x` of the vault `v` of the client `c` comes to the vault `t` of the client `y`, which takes it
pub open spec fn arrives(src: States, pre: Snapshot, q: SyncSnapshotsConfig, c: ClientId, v: VaultId, y: ClientId, t: VaultId, x: RecordId) -> bool {
    src.contains_key(c) && q.client(c) && q.to(c) == y && comes(src[c].1, pre.cdb(y), q.of(c), v, t, x)
}
/// every record of every client is one that arrives, as the source has it, or, where none does, as it was
pub open spec fn merged(src: States, pre: Snapshot, q: SyncSnapshotsConfig, all: bool, post: Snapshot) -> bool {
    forall|y: ClientId, t: VaultId, x: RecordId| #![trigger post.cdb(y).at(t, x)]
        ((all ==> forall|c: ClientId, v: VaultId| !#[trigger] arrives(src, pre, q, c, v, y, t, x)) && post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId| #[trigger] arrives(src, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == src[c].1.at(v, x))
}
/// exactly the records that are to arrive
pub open spec fn loaded(src: States, pre: Snapshot, q: SyncSnapshotsConfig, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>) -> bool {
    &&& forall|c: ClientId| #[trigger] e.contains_key(c) <==> src.contains_key(c) && q.client(c)
    &&& forall|c: ClientId, v: VaultId| #![trigger e[c]@.contains_key(v)] e.contains_key(c) ==> (e[c]@.contains_key(v) <==> src[c].1.vaults@.contains_key(v) && q.of(c).vault(v))
    &&& forall|c: ClientId, v: VaultId| #![trigger e[c]@[v]] e.contains_key(c) && e[c]@.contains_key(v) ==> pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e[c]@[v]@)
}
pub open spec fn keys_of(src: States, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys) -> bool {
    forall|c: ClientId| #[trigger] e.contains_key(c) ==> k.contains_key(c) && k[c] == src[c].0
}
pub proof fn lemma_loaded(src: States, pre: Snapshot, q: SyncSnapshotsConfig, h: Tree<(RecordId, BlobId)>, d: Tree<RecordId>, e: Tree<(RecordId, Record)>)
    requires
        forall|c: ClientId| #[trigger] h@.contains_key(c) <==> src.contains_key(c) && q.client(c),
        forall|c: ClientId| #[trigger] h@.contains_key(c) ==> tree(src[c].1, h@[c]@),
        forall|c: ClientId| #[trigger] d@.contains_key(c) <==> q.client(c) && h@.contains_key(c),
        forall|c: ClientId| #[trigger] d@.contains_key(c) ==> diffs(pre.cdb(q.to(c)), q.of(c), h@[c]@, d@[c]@),
        forall|c: ClientId| #[trigger] e@.contains_key(c) <==> src.contains_key(c) && d@.contains_key(c),
        forall|c: ClientId| #[trigger] e@.contains_key(c) ==> exps(src[c].1, d@[c]@, e@[c]@),
    ensures loaded(src, pre, q, e@),
{
    assert forall|c: ClientId, v: VaultId| #![trigger e@[c]@.contains_key(v)] e@.contains_key(c) implies (e@[c]@.contains_key(v) <==> src[c].1.vaults@.contains_key(v) && q.of(c).vault(v)) by {
        assert(d@.contains_key(c) && h@.contains_key(c));
        assert(exps(src[c].1, d@[c]@, e@[c]@)); assert(diffs(pre.cdb(q.to(c)), q.of(c), h@[c]@, d@[c]@)); assert(tree(src[c].1, h@[c]@));
        assert(d@[c]@.contains_key(v) == (h@[c]@.contains_key(v) && q.of(c).vault(v)));
    }
    assert forall|c: ClientId, v: VaultId| #![trigger e@[c]@[v]] e@.contains_key(c) && e@[c]@.contains_key(v) implies pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e@[c]@[v]@) by {
        assert(d@.contains_key(c) && h@.contains_key(c));
        assert(exps(src[c].1, d@[c]@, e@[c]@)); assert(diffs(pre.cdb(q.to(c)), q.of(c), h@[c]@, d@[c]@)); assert(tree(src[c].1, h@[c]@));
        assert(d@[c]@.contains_key(v) && h@[c]@.contains_key(v));
        lemma_pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, h@[c]@[v]@, d@[c]@[v]@, e@[c]@[v]@);
    }
}
pub proof fn lemma_fit(src: States, pre: Snapshot, q: SyncSnapshotsConfig, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys)
    requires loaded(src, pre, q, e), keys_of(src, e, k), states_ok(src),
    ensures
        forall|c: ClientId| #[trigger] e.contains_key(c) ==> fit(e[c]@, k[c]@),
        forall|c: ClientId| #[trigger] e.contains_key(c) ==> !lacks(q.of(c), e[c]@, k[c]@),
        forall|c: ClientId, v: VaultId, i: int| e.contains_key(c) && e[c]@.contains_key(v) && 0 <= i < e[c]@[v]@.len() ==> contents::<Provider>(k[c]@[v]@, (#[trigger] e[c]@[v]@[i]).1) == src[c].1.at(v, e[c]@[v]@[i].0),
{
    assert forall|c: ClientId| #[trigger] e.contains_key(c) implies fit(e[c]@, k[c]@) && !lacks(q.of(c), e[c]@, k[c]@) && (forall|v: VaultId, i: int| e[c]@.contains_key(v) && 0 <= i < e[c]@[v]@.len() ==> contents::<Provider>(k[c]@[v]@, (#[trigger] e[c]@[v]@[i]).1) == src[c].1.at(v, e[c]@[v]@[i].0)) by {
        assert(state_ok(src[c])); assert(k[c] == src[c].0);
        assert forall|v: VaultId| #[trigger] e[c]@.contains_key(v) implies k[c]@.contains_key(v) && Db::whole(k[c]@[v]@, e[c]@[v]@) && Db::honest(k[c]@[v]@, e[c]@[v]@) && (forall|i: int| 0 <= i < e[c]@[v]@.len() ==> contents::<Provider>(k[c]@[v]@, (#[trigger] e[c]@[v]@[i]).1) == src[c].1.at(v, e[c]@[v]@[i].0)) by {
            assert(src[c].1.vaults@.contains_key(v));
            assert(pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e[c]@[v]@));
            lemma_kept(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e[c]@[v]@, e[c]@[v]@, k[c]@[v]@);
        }
    }
}
pub proof fn lemma_merged(src: States, pre: Snapshot, q: SyncSnapshotsConfig, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys, all: bool, post: Snapshot)
    requires loaded(src, pre, q, e), keys_of(src, e, k), states_ok(src), brought(q, e, k, pre, post, all),
    ensures merged(src, pre, q, all, post),
{
    lemma_fit(src, pre, q, e, k);
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        ((all ==> forall|c: ClientId, v: VaultId| !#[trigger] arrives(src, pre, q, c, v, y, t, x)) && #[trigger] post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId| #[trigger] arrives(src, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == src[c].1.at(v, x)) by {
        if exists|c: ClientId, v: VaultId, i: int| #[trigger] brings(q, e, c, v, i, y, t, x) && k.contains_key(c) && k[c]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, e[c]@[v]@[i].1) {
            let (c, v, i) = choose|c: ClientId, v: VaultId, i: int| #[trigger] brings(q, e, c, v, i, y, t, x) && k.contains_key(c) && k[c]@.contains_key(v) && post.cdb(y).at(t, x) == contents::<Provider>(k[c]@[v]@, e[c]@[v]@[i].1);
            assert(pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e[c]@[v]@));
            assert(comes(src[c].1, pre.cdb(q.to(c)), q.of(c), v, q.of(c).to(v), e[c]@[v]@[i].0));
            assert(arrives(src, pre, q, c, v, y, t, x));
        } else if all {
            assert forall|c: ClientId, v: VaultId| !#[trigger] arrives(src, pre, q, c, v, y, t, x) by {
                if arrives(src, pre, q, c, v, y, t, x) {
                    assert(e.contains_key(c)); assert(src[c].1.at(v, x) is Some); assert(e[c]@.contains_key(v));
                    assert(pack(src[c].1, pre.cdb(q.to(c)), q.of(c), v, e[c]@[v]@));
                    let l = e[c]@[v]@;
                    assert(vx_has_key(l, x));
                    let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == x;
                    assert(brings(q, e, c, v, i, y, t, x));
                }
            }
        }
    }
}
impl Snapshot {
//@fn Snapshot::merge_state
@ret r
@attr #[verifier::loop_isolation(false)]
@start
    let ghost vx_src = state.0@;
@rx "let diff =" => "let ghost vx_h = hierarchy; let diff ="
@rx "let exported =" => "let ghost vx_d = diff; let exported ="
@rx "let mut (\w+) = HashMap::new\(\);" => "proof { lemma_loaded(vx_src, *old(self), config, vx_h, vx_d, exported); } let ghost vx_e = exported@; let mut $1 = HashMap::new();"
@rx "self\.import_records\((\w+), &(\w+), &(\w+)\)\?" => "proof { lemma_fit(vx_src, *old(self), config, vx_e, $2@); } let vx_o = self.import_records($1, &$2, &$3); proof { lemma_merged(vx_src, *old(self), config, vx_e, $2@, vx_o is Ok, *self); } vx_o?"
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_it.seq().no_duplicates(), forall|i: int| 0 <= i < vx_it.seq().len() ==> vx_e.contains_key(*#[trigger] vx_it.seq()[i]),
        forall|c: ClientId| #[trigger] vx_e.contains_key(c) ==> exists|i: int| 0 <= i < vx_it.seq().len() && *#[trigger] vx_it.seq()[i] == c,
        moved(vx_src, vx_it.seq(), vx_it.at(), state.0@, old_keys),
@sig
    requires old(self).wf(), states_ok(state.0@),
    ensures
        final(self).wf(),
        merged(state.0@, *old(self), config, r is Ok, *final(self)),
        r is Err ==> fault(),
//@end
}
/// the keys of the first `n` clients have been moved from the state to `k`
pub open spec fn moved(src: States, s: Seq<&ClientId>, n: int, st: States, k: HashMap<ClientId, HashMap<VaultId, PKey<Provider>>>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> k@.contains_key(*#[trigger] s[i]) && k@[*s[i]] == src[*s[i]].0
    &&& forall|i: int| n <= i < s.len() ==> (st.contains_key(*#[trigger] s[i]) <==> src.contains_key(*s[i])) && st[*s[i]] == src[*s[i]]
}
// ---------------------------------------------------------------- handing a state over to a remote peer
use snapshot::{axiom_dh, axiom_pk, dec, x25519, x_public, x_shared, VxMapTo};
impl From<snapshot::crypto::Error> for SnapshotError { #[verifier::external_body] fn from(e: snapshot::crypto::Error) -> Self { unimplemented!() } }
/// the states in what a peer was sent, as the shared key opens it
pub open spec fn handed(b: Seq<u8>, key: Seq<u8>) -> Option<States> {
    match opened(b, key, Seq::<u8>::empty()) {
        None => None,
        Some(z) => match dec(z, Seq::<u8>::empty()) { None => None, Some(p) => match unpacked::<SnapshotState>(p) { None => None, Some(u) => Some(u.0@) } },
    }
}
/// the key that the secret at a location shares with a peer
pub open spec fn shares(s: Option<Seq<u8>>, pk: Seq<u8>) -> Option<Seq<u8>> { match s { Some(k) => if k.len() == 32 { Some(x_shared(k, pk)) } else { None }, None => None } }
/// what the peer `pk` sent to the owner of the secret at `l`
pub open spec fn received(s: Snapshot, b: Seq<u8>, l: (VaultId, RecordId), pk: Seq<u8>) -> Option<States> {
    match shares(s.secret(l), pk) { Some(k) => handed(b, k), None => None }
}
pub type Select = Map<ClientId, HashMap<VaultId, Vec<RecordId>>>;
/// the selected records of the first `n` clients of `s`, and the keys
pub open spec fn picked_n(m: Snapshot, s: Seq<(ClientId, HashMap<VaultId, Vec<RecordId>>)>, n: int, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys) -> bool {
    &&& forall|c: ClientId| #[trigger] e.contains_key(c) ==> among(s, n, c)
    &&& forall|c: ClientId| #[trigger] k.contains_key(c) <==> e.contains_key(c)
    &&& forall|j: int| 0 <= j < n && e.contains_key((#[trigger] s[j]).0) ==> exps(m.cdb(s[j].0), s[j].1@, e[s[j].0]@) && opens_all(m.cdb(s[j].0), k[s[j].0]@)
    &&& forall|j: int, v: VaultId| 0 <= j < n && !e.contains_key((#[trigger] s[j]).0) ==> !#[trigger] s[j].1@.contains_key(v)
}
pub open spec fn opens_all(d: Db, k: Keys) -> bool { forall|v: VaultId| #[trigger] d.vaults@.contains_key(v) ==> k.contains_key(v) && d.vaults@[v].key@ == k[v]@ }
pub open spec fn picked(m: Snapshot, s: Select, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys) -> bool {
    &&& forall|c: ClientId| #[trigger] e.contains_key(c) ==> s.contains_key(c) && k.contains_key(c) && exps(m.cdb(c), s[c]@, e[c]@) && opens_all(m.cdb(c), k[c]@)
    &&& forall|c: ClientId, v: VaultId| s.contains_key(c) && !e.contains_key(c) ==> !#[trigger] s[c]@.contains_key(v)
}
/// the record `x` of the vault `v` of the client `c` is selected
pub open spec fn selects(s: Select, c: ClientId, v: VaultId, x: RecordId) -> bool { s.contains_key(c) && s[c]@.contains_key(v) && s[c]@[v]@.contains(x) }
/// exactly the selected records
pub open spec fn sheds(m: Snapshot, s: Select, u: States) -> bool {
    forall|c: ClientId, v: VaultId, x: RecordId| #![trigger state_at(u, c, v, x)] #![trigger selects(s, c, v, x)] state_at(u, c, v, x) == (if selects(s, c, v, x) { m.cdb(c).at(v, x) } else { None })
}
pub open spec fn state_at(u: States, c: ClientId, v: VaultId, x: RecordId) -> Option<Val3> { if u.contains_key(c) { u[c].1.at(v, x) } else { None } }
/// a selected vault is missing, or a selected record cannot be read
pub open spec fn amiss(m: Snapshot, s: Select) -> bool {
    (exists|c: ClientId, v: VaultId| s.contains_key(c) && #[trigger] s[c]@.contains_key(v) && !m.cdb(c).vaults@.contains_key(v))
    || (exists|c: ClientId, v: VaultId, x: RecordId| #[trigger] selects(s, c, v, x) && m.cdb(c).revoked(v, x))
}
pub broadcast proof fn lemma_picked(m: Snapshot, s: Select, q: Seq<(ClientId, HashMap<VaultId, Vec<RecordId>>)>, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys)
    requires #[trigger] picked_n(m, q, q.len() as int, e, k), #[trigger] vx_lists_owned(s, q),
    ensures picked(m, s, e, k),
{
    assert forall|c: ClientId| #[trigger] e.contains_key(c) implies s.contains_key(c) && k.contains_key(c) && exps(m.cdb(c), s[c]@, e[c]@) && opens_all(m.cdb(c), k[c]@) by {
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == c;
        assert(exps(m.cdb(q[j].0), q[j].1@, e[q[j].0]@));
    }
    assert forall|c: ClientId, v: VaultId| s.contains_key(c) && !e.contains_key(c) implies !#[trigger] s[c]@.contains_key(v) by {
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == c;
        assert(!q[j].1@.contains_key(v));
    }
}
/// what a key opens was sealed with it; if some record cannot be read, it is a revoked one
pub proof fn lemma_picked_fit(m: Snapshot, s: Select, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys)
    requires picked(m, s, e, k), m.sane(),
    ensures
        forall|c: ClientId| #[trigger] e.contains_key(c) ==> fit(e[c]@, k[c]@),
        forall|c: ClientId, f: SyncClientsConfig| #[trigger] e.contains_key(c) && #[trigger] lacks(f, e[c]@, k[c]@) ==> amiss(m, s),
        forall|c: ClientId, v: VaultId, i: int| e.contains_key(c) && e[c]@.contains_key(v) && 0 <= i < e[c]@[v]@.len() ==> contents::<Provider>(k[c]@[v]@, (#[trigger] e[c]@[v]@[i]).1) == m.cdb(c).at(v, e[c]@[v]@[i].0),
{
    assert forall|c: ClientId, v: VaultId, i: int| e.contains_key(c) && e[c]@.contains_key(v) && 0 <= i < e[c]@[v]@.len() implies
        contents::<Provider>(k[c]@[v]@, (#[trigger] e[c]@[v]@[i]).1) == m.cdb(c).at(v, e[c]@[v]@[i].0) && (e[c]@[v]@[i].1.revoke is None ==> contents::<Provider>(k[c]@[v]@, e[c]@[v]@[i].1) is Some)
        && e[c]@[v]@[i].1.id == e[c]@[v]@[i].0.0 && selects(s, c, v, e[c]@[v]@[i].0) && m.cdb(c).vaults@.contains_key(v) && k[c]@.contains_key(v) && (e[c]@[v]@[i].1.revoke is Some ==> m.cdb(c).revoked(v, e[c]@[v]@[i].0)) by {
        m.lemma_cdb(c);
        let d = m.cdb(c); let l = e[c]@[v]@;
        assert(exports(d, v, s[c]@[v]@, l));
        assert(s[c]@[v]@.contains(l[i].0));
        assert(d.vaults@[v].wf());
        assert(rec_wf::<Provider>(d.vaults@[v].key@, l[i].0.0, d.vaults@[v].entries@[l[i].0.0]));
    }
    assert forall|c: ClientId| #[trigger] e.contains_key(c) implies fit(e[c]@, k[c]@) by {
        assert forall|v: VaultId| #[trigger] e[c]@.contains_key(v) && k[c]@.contains_key(v) implies Db::honest(k[c]@[v]@, e[c]@[v]@) by {}
    }
    assert forall|c: ClientId, f: SyncClientsConfig| #[trigger] e.contains_key(c) && #[trigger] lacks(f, e[c]@, k[c]@) implies amiss(m, s) by {
        let v = choose|v: VaultId| #[trigger] e[c]@.contains_key(v) && f.vault(v) && (!k[c]@.contains_key(v) || !Db::whole(k[c]@[v]@, e[c]@[v]@));
        assert(m.cdb(c).vaults@.contains_key(v));
        let l = e[c]@[v]@;
        let i = choose|i: int| 0 <= i < l.len() && !((#[trigger] l[i]).1.id == l[i].0.0 && contents::<Provider>(k[c]@[v]@, l[i].1) is Some);
        assert(contents::<Provider>(k[c]@[v]@, e[c]@[v]@[i].1) == m.cdb(c).at(v, e[c]@[v]@[i].0));
        assert(selects(s, c, v, l[i].0) && m.cdb(c).revoked(v, l[i].0));
    }
}
pub broadcast proof fn lemma_sheds_like(m: Snapshot, s: Select, a: SnapshotState, b: SnapshotState)
    requires #[trigger] sheds(m, s, a.0@), #[trigger] a.alike(&b), states_ok(a.0@),
    ensures sheds(m, s, b.0@),
{
    assert forall|c: ClientId, v: VaultId, x: RecordId| state_at(a.0@, c, v, x) == #[trigger] state_at(b.0@, c, v, x) by {
        if a.0@.contains_key(c) { assert(state_ok(a.0@[c])); assert(like(a.0@[c], b.0@[c])); lemma_like_at(a.0@[c].1, b.0@[c].1); }
    }
    assert forall|c: ClientId, v: VaultId, x: RecordId| #![trigger state_at(b.0@, c, v, x)] #![trigger selects(s, c, v, x)] state_at(b.0@, c, v, x) == (if selects(s, c, v, x) { m.cdb(c).at(v, x) } else { None }) by { let z = state_at(a.0@, c, v, x); }
}
pub proof fn lemma_sheds(m: Snapshot, s: Select, q: SyncSnapshotsConfig, e: Map<ClientId, HashMap<VaultId, Vec<(RecordId, Record)>>>, k: AllKeys, pre: SnapshotState, u: SnapshotState)
    requires picked(m, s, e, k), m.sane(), brought(q, e, k, pre, u, true), pre.0@ == Map::<ClientId, ClientState>::empty(),
        q.select_clients is None, q.client_config@ == Map::<ClientId, SyncClientsConfig>::empty(), q.map_clients@ == Map::<ClientId, ClientId>::empty(),
    ensures sheds(m, s, u.0@),
{
    broadcast use axiom_no_map;
    lemma_picked_fit(m, s, e, k);
    assert forall|c: ClientId, v: VaultId, x: RecordId| #![trigger state_at(u.0@, c, v, x)] #![trigger selects(s, c, v, x)] state_at(u.0@, c, v, x) == (if selects(s, c, v, x) { m.cdb(c).at(v, x) } else { None }) by {
        assert(u.cdb(c).at(v, x) == state_at(u.0@, c, v, x));
        assert(pre.cdb(c).at(v, x) is None);
        assert(forall|d: ClientId| q.to(d) == d && q.client(d) && forall|w: VaultId| q.of(d).to(w) == w && q.of(d).vault(w) && forall|z: RecordId| q.of(d).record(w, z));
        if exists|d: ClientId, w: VaultId, i: int| #[trigger] brings(q, e, d, w, i, c, v, x) && k.contains_key(d) && k[d]@.contains_key(w) && u.cdb(c).at(v, x) == contents::<Provider>(k[d]@[w]@, e[d]@[w]@[i].1) {
            let (d, w, i) = choose|d: ClientId, w: VaultId, i: int| #[trigger] brings(q, e, d, w, i, c, v, x) && k.contains_key(d) && k[d]@.contains_key(w) && u.cdb(c).at(v, x) == contents::<Provider>(k[d]@[w]@, e[d]@[w]@[i].1);
            assert(d == c && w == v);
            let l = e[c]@[v]@;
            assert(exports(m.cdb(c), v, s[c]@[v]@, l));
            assert(s[c]@[v]@.contains(l[i].0));
            assert(contents::<Provider>(k[c]@[v]@, e[c]@[v]@[i].1) == m.cdb(c).at(v, x));
        } else {
            assert(u.cdb(c).at(v, x) is None);
            if selects(s, c, v, x) && m.cdb(c).at(v, x) is Some {
                assert(e.contains_key(c) && e[c]@.contains_key(v));
                let l = e[c]@[v]@;
                assert(exports(m.cdb(c), v, s[c]@[v]@, l));
                assert(m.cdb(c).vaults@[v].entries@.contains_key(x.0));
                assert(l.contains((x, m.cdb(c).vaults@[v].entries@[x.0])));
                let i = choose|i: int| 0 <= i < l.len() && l[i] == (x, m.cdb(c).vaults@[v].entries@[x.0]);
                assert(brings(q, e, c, v, i, c, v, x));
            }
        }
    }
}
pub proof fn lemma_merged_like(a: States, b: States, pre: Snapshot, q: SyncSnapshotsConfig, all: bool, post: Snapshot)
    requires all_like(a, b), merged(b, pre, q, all, post), states_ok(a),
    ensures merged(a, pre, q, all, post),
{
    assert forall|c: ClientId| a.contains_key(c) implies b.contains_key(c) && forall|v: VaultId, x: RecordId| a[c].1.at(v, x) == #[trigger] b[c].1.at(v, x) by {
        assert(state_ok(a[c])); assert(like(a[c], b[c])); lemma_like_at(a[c].1, b[c].1);
    }
    assert forall|c: ClientId, v: VaultId, y: ClientId, t: VaultId, x: RecordId| #[trigger] arrives(a, pre, q, c, v, y, t, x) == arrives(b, pre, q, c, v, y, t, x) by {
        if a.contains_key(c) { assert(a[c].1.at(v, x) == b[c].1.at(v, x)); }
    }
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        ((all ==> forall|c: ClientId, v: VaultId| !#[trigger] arrives(a, pre, q, c, v, y, t, x)) && #[trigger] post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId| #[trigger] arrives(a, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == a[c].1.at(v, x)) by {
        if exists|c: ClientId, v: VaultId| #[trigger] arrives(b, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == b[c].1.at(v, x) {
            let (c, v) = choose|c: ClientId, v: VaultId| #[trigger] arrives(b, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == b[c].1.at(v, x);
            assert(arrives(a, pre, q, c, v, y, t, x)); assert(b[c].1.at(v, x) == a[c].1.at(v, x));
        }
    }
}
//@rewrite "let decrypted = &mut Vec::new\(\);" => "let (decrypted, vx_set) = vx_once::<Vec<u8>>();"
//@rewrite "\*decrypted = (\w+);" => "vx_set.set($1);"
//@rewrite "engine::snapshot::decompress\((\w+)\)" => "snapshot::decompress(&$1.unwrap())"
//@rewrite "engine::snapshot::read\(&mut (\w+)\.as_slice\(\)," => "snapshot::read_mem($1.as_slice(),"
//@rewrite "&\[\]" => "vx_empty()"
//@rewrite "engine::snapshot::write\(&(\w+), &mut (\w+)," => "snapshot::write_mem(&$1, &mut $2,"
//@rewrite "engine::snapshot::compress\(" => "snapshot::compress("
//@rewrite "\"[^\"]*\"\.to_string\(\)" => "vx_string()"
//@rewrite "\.map_err\(\|e\| (\w+)::(\w+)\(e\.to_string\(\)\)\)" => ".vx_map_to($1::$2(vx_string()))"
impl Snapshot {
//@fn Snapshot::import_from_serialized_state
@ret r
@start
    broadcast use lemma_states_like;
@closure 1
-> (vx_r: Result<(), SnapshotError>)
    ensures match vx_r {
        Ok(_) => guard@.len() == 32 && (opened(bytes@, x_shared(guard@, remote_pk.k@), Seq::<u8>::empty()) matches Some(p) && vx_set.val() matches Some(v) && v@ == p),
        Err(_) => guard@.len() != 32 || opened(bytes@, x_shared(guard@, remote_pk.k@), Seq::<u8>::empty()) is None || fault(),
    }
@rx "self\.merge_state\(state, config\)" => "let ghost vx_m = state.0@; let ghost vx_u = received(*old(self), bytes@, local_sk.id(), remote_pk.k@).unwrap(); let vx_o = self.merge_state(state, config); proof { lemma_merged_like(vx_u, vx_m, *old(self), config, vx_o is Ok, *self); } vx_o"
@sig
    requires old(self).wf(), received(*old(self), bytes@, local_sk.id(), remote_pk.k@) matches Some(u) ==> states_ok(u),
    ensures
        final(self).wf(),
        match received(*old(self), bytes@, local_sk.id(), remote_pk.k@) {
            Some(u) => merged(u, *old(self), config, r is Ok, *final(self)) && (r is Err ==> fault()),
            None => r is Err && *final(self) == *old(self),
        },
//@end
//@fn Snapshot::export_to_serialized_state
@ret r
@attr #[verifier::loop_isolation(false)]
@start
    broadcast use axiom_no_map, lemma_exps_like, lemma_picked, lemma_states_like, lemma_sheds_like, axiom_dh, axiom_pk, snapshot::lemma_none, snapshot::lemma_reads_back;
    let ghost vx_sel = select@;
@rx "(\w+)\.import_records\((\w+), &(\w+), &(SyncSnapshotsConfig::default\(\))\)\?;" => "let vx_q = $4; let ghost vx_e = $2@; let ghost vx_b = $1; proof { lemma_picked_fit(*self, vx_sel, vx_e, $3@); } let vx_o = $1.import_records($2, &$3, &vx_q); proof { if vx_o is Ok { lemma_sheds(*self, vx_sel, vx_q, vx_e, $3@, vx_b, $1); } } vx_o?;"
@forwhile 0 vx_it
@loop 0 for
    invariant
        vx_it.wf(), vx_lists_owned(vx_sel, vx_it.seq()), self.wf(), blank.0@ == Map::<ClientId, ClientState>::empty(),
        picked_h(*self, vx_it.seq(), vx_it.at(), export, old_keys),
@sig
    requires self.wf(),
    ensures
        match r {
            Ok(o) => forall|sk: Seq<u8>| sk.len() == 32 && #[trigger] x_public(sk) == remote_pk.k@ ==> (handed(o.1@, x_shared(sk, o.0.k@)) matches Some(u) && states_ok(u) && sheds(*self, select@, u)),
            Err(_) => fault() || amiss(*self, select@),
        },
//@end
}
pub open spec fn picked_h(m: Snapshot, s: Seq<(ClientId, HashMap<VaultId, Vec<RecordId>>)>, n: int, e: Tree<(RecordId, Record)>, k: HashMap<ClientId, HashMap<VaultId, PKey<Provider>>>) -> bool { picked_n(m, s, n, e@, k@) }
// ---------------------------------------------------------------- the two halves together
/// the selected record `x` of the vault `v` of the sender's client `c` goes to the vault `t` of the receiver's client `y`
pub open spec fn reaches(a: Snapshot, s: Select, pre: Snapshot, q: SyncSnapshotsConfig, c: ClientId, v: VaultId, y: ClientId, t: VaultId, x: RecordId) -> bool {
    selects(s, c, v, x) && q.client(c) && q.to(c) == y && comes(a.cdb(c), pre.cdb(y), q.of(c), v, t, x)
}
/// What `a` exported for the owner of the secret at `l` of `pre`, who imported it: every record of the receiver is a
/// selected one of the sender, as the sender has it, or what it was; nothing that was selected and that the policy takes
/// is left out, and no other record of the sender can have come.
pub proof fn lemma_handed_over(a: Snapshot, s: Select, sk: Seq<u8>, epk: Seq<u8>, b: Seq<u8>, pre: Snapshot, l: (VaultId, RecordId), q: SyncSnapshotsConfig, all: bool, post: Snapshot)
    requires
        pre.secret(l) == Some(sk), sk.len() == 32,
        // what the contract of `export_to_serialized_state` says of a public key that is the one of `sk`
        handed(b, x_shared(sk, epk)) matches Some(u) && states_ok(u) && sheds(a, s, u),
        // what the contract of `import_from_serialized_state` says
        received(pre, b, l, epk) matches Some(u) ==> merged(u, pre, q, all, post),
    ensures
        forall|y: ClientId, t: VaultId, x: RecordId| #![trigger post.cdb(y).at(t, x)]
            ((all ==> forall|c: ClientId, v: VaultId| !#[trigger] reaches(a, s, pre, q, c, v, y, t, x)) && post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
            || (exists|c: ClientId, v: VaultId| #[trigger] reaches(a, s, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == a.cdb(c).at(v, x)),
{
    let u = received(pre, b, l, epk).unwrap();
    assert forall|c: ClientId, v: VaultId, y: ClientId, t: VaultId, x: RecordId| #[trigger] arrives(u, pre, q, c, v, y, t, x) == reaches(a, s, pre, q, c, v, y, t, x) by {
        assert(state_at(u, c, v, x) == (if selects(s, c, v, x) { a.cdb(c).at(v, x) } else { None }));
    }
    assert forall|y: ClientId, t: VaultId, x: RecordId|
        ((all ==> forall|c: ClientId, v: VaultId| !#[trigger] reaches(a, s, pre, q, c, v, y, t, x)) && #[trigger] post.cdb(y).at(t, x) == pre.cdb(y).at(t, x))
        || (exists|c: ClientId, v: VaultId| #[trigger] reaches(a, s, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == a.cdb(c).at(v, x)) by {
        if exists|c: ClientId, v: VaultId| #[trigger] arrives(u, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == u[c].1.at(v, x) {
            let (c, v) = choose|c: ClientId, v: VaultId| #[trigger] arrives(u, pre, q, c, v, y, t, x) && post.cdb(y).at(t, x) == u[c].1.at(v, x);
            assert(reaches(a, s, pre, q, c, v, y, t, x)); assert(state_at(u, c, v, x) == a.cdb(c).at(v, x));
        } else if all {
            assert forall|c: ClientId, v: VaultId| !#[trigger] reaches(a, s, pre, q, c, v, y, t, x) by { assert(!arrives(u, pre, q, c, v, y, t, x)); }
        }
    }
}
