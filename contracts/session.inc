// ================================================================ stronghold.rs
impl Clone for Client { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// what C15 proves of client identifiers: they are functions of the path
pub uninterp spec fn client_id_of(data: Seq<u8>, path: Seq<u8>) -> ClientId;
impl ClientId {
    #[verifier::external_body]
    pub fn load_from_path(data: &[u8], path: &[u8]) -> (r: Self) ensures r == client_id_of(data@, path@), { unimplemented!() }
}
pub open spec fn cid(path: Seq<u8>) -> ClientId { client_id_of(path, path) }
#[verifier::external_body]
pub struct VxPathStr { x: u8 }
impl VxPathStr { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
impl Path {
    #[verifier::external_body]
    pub fn to_str(&self) -> Option<VxPathStr> { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> Option<&Path> { unimplemented!() }
}
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures *final(o) == Some(v), r == *old(o);
pub assume_specification<T> [<[T] as std::convert::AsRef<[T]>>::as_ref] (s: &[T]) -> (r: &[T]) ensures r@ == s@;
/// makes directories only: what the files hold stays
#[verifier::external_body]
pub fn create_dir_all(p: &Path) -> (r: Result<(), snapshot::IoError>) { unimplemented!() }
//@rewrites clear
//@macros on
//@closures on
//@rewrite "\.map_err\(\|\w+\| ClientError::Inner\((?:\w+\.to_string\(\)|format!\([^()]*\))\)\)" => ".vx_inner()"
//@rewrite "\"[^\"]*\"\.(to_string|to_owned)\(\)" => "vx_msg()"
//@rewrite "P: AsRef<\[u8\]>" => "P: VxAsRef"
//@rewrite "std::fs::create_dir_all" => "create_dir_all"
//@rewrite "Arc<(RwLock<[^\n]*>)>,?" => "$1,"
//@rewrite "(fn \w+(?:<P>)?\(\s*)&self" => "$1&mut self"
//@rewrite "\(?\s*\bclients\s*\)?\s*\.get\((&\(?\s*[\w.]+\s*\)?)\)\s*\{" => "clients.get_mut($1) {"
//@rewrite "self\.clients\.read\(\)\?;(\s*let ids|\s*let client_id)" => "self.clients.write()?;$1"
//@rewrite "\*\(&mut (\w+)\) =" => "$1 ="
//@rewrite "\.borrow\(\)\s*\.deref\(\)\s*\.try_into\(\)" => ".borrow().vx_to_array()"
//@rewrite "\b(\w+)\.deref\(\)" => "$1"
//@rewrite "\b(\w+)\.try_into\(\)\.unwrap" => "$1.vx_to_array().unwrap"
//@rewrite "\.map_err\(\|\w+\| ClientError::LockAcquireFailed\)" => ""
//@rewrite "(Snapshot::read_from_snapshot|\.write_to_snapshot)\(((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*?),?\s*\)(\s*\.map_err|\s*\.vx_inner)" => "$1($2, Tracked(&mut *w))$3"
//@rewrite "(fn (?:load_client_from_snapshot|load_snapshot|commit_with_keyprovider|commit)(?:<P>)?\((?:[^()]|\([^()]*\))*?),?\s*\)\s*->" => "$1, Tracked(w): Tracked<&mut World>) ->"
//@rewrite "for \(_, (\w+)\) in (vx_it: )?clients" => "for (_, mut $1) in ${2}clients"
//@rewrite "\.exists\(\)" => ".exists(Tracked(&mut *w))"
//@file client/src/types/stronghold.rs
//@item struct Stronghold
impl Stronghold {
    #[verifier::inline]
    pub open spec fn held(&self) -> Snapshot { self.snapshot@ }
    #[verifier::inline]
    pub open spec fn loaded(&self) -> Map<ClientId, Client> { self.clients@@ }
    pub open spec fn wf(&self) -> bool {
        &&& self.held().wf()
        &&& forall|c: ClientId| self.loaded().contains_key(c) ==> (#[trigger] self.loaded()[c]).wf() && self.loaded()[c].id == c
    }
    /// no client is loaded or unloaded, none changes
    pub open spec fn same_clients(&self, o: &Self) -> bool { self.loaded() =~= o.loaded() }
    pub open spec fn same_held(&self, o: &Self) -> bool { self.held() == o.held() }
    /// the snapshot holds the state of every client that is loaded, and what it held of every other
    pub open spec fn saved(&self, o: &Self) -> bool {
        &&& forall|c: ClientId| #![trigger o.clients@@.contains_key(c)] #![trigger self.snapshot@.client(c)] o.clients@@.contains_key(c) ==> self.held().states@.contains_key(c) && self.held().client(c) is Some && holds_like(o.loaded()[c], self.held().client(c).unwrap())
        &&& forall|c: ClientId| #![trigger self.snapshot@.client(c)] !o.clients@@.contains_key(c) ==> self.held().client(c) == o.held().client(c)
    }
    /// nothing that the snapshot held is lost: it holds what it held, or the state of the client that is loaded now
    pub open spec fn kept(&self, o: &Self) -> bool {
        forall|c: ClientId| #![trigger self.snapshot@.client(c)] self.held().client(c) == o.held().client(c)
            || (o.clients@@.contains_key(c) && self.held().client(c) is Some && holds_like(o.loaded()[c], self.held().client(c).unwrap()))
    }
    pub open spec fn same_rest(&self, o: &Self) -> bool { self.store == o.store && self.key_location == o.key_location }
//@fn Stronghold::create_client
@rx "\.\.Default::default\(\)" => "..Client::default()"
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_held(old(self)), final(self).same_rest(old(self)),
        match r {
            Ok(c) => blank(c) && c.id == cid(client_path.bytes()) && final(self).loaded() == old(self).loaded().insert(cid(client_path.bytes()), c),
            Err(_) => fault() && final(self).same_clients(old(self)),
        },
//@end
//@fn Stronghold::get_client
@ret r
@sig
    requires old(self).wf(),
    ensures
        *final(self) == *old(self),
        match r {
            Ok(c) => old(self).loaded().contains_key(cid(client_path.bytes())) && c == old(self).loaded()[cid(client_path.bytes())],
            Err(_) => fault() || !old(self).loaded().contains_key(cid(client_path.bytes())),
        },
//@end
//@fn Stronghold::unload_client
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_held(old(self)), final(self).same_rest(old(self)),
        match r {
            Ok(c) => old(self).loaded().contains_key(client.id) && c == old(self).loaded()[client.id] && final(self).loaded() == old(self).loaded().remove(client.id),
            Err(_) => (fault() || !old(self).loaded().contains_key(client.id)) && final(self).loaded() =~= old(self).loaded(),
        },
//@end
//@fn Stronghold::purge_client
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_rest(old(self)),
        match r {
            Ok(_) => final(self).loaded() == old(self).loaded().remove(client.id) && final(self).held().client(client.id) is None && final(self).held().same_but(&old(self).held(), client.id),
            Err(_) => fault() && final(self).same_clients(old(self)) && final(self).same_held(old(self)),
        },
//@end
//@fn Stronghold::load_client
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_held(old(self)), final(self).same_rest(old(self)),
        match r {
            Ok(c) => ({
                let i = cid(client_path.bytes());
                &&& !old(self).loaded().contains_key(i) && old(self).held().client(i) is Some
                &&& final(self).loaded() == old(self).loaded().insert(i, c)
                &&& c.id == i && holds_like(c, old(self).held().client(i).unwrap())
            }),
            Err(_) => final(self).same_clients(old(self))
                && (fault() || old(self).loaded().contains_key(cid(client_path.bytes())) || old(self).held().client(cid(client_path.bytes())) is None),
        },
//@end
//@fn Stronghold::load_snapshot
@ret r
@sig
    requires old(self).wf(), honest(old(w).st(), snapshot_path@, keyprovider.key()), keyprovider.wf(),
    ensures
        final(self).wf(), final(self).same_clients(old(self)), final(self).same_rest(old(self)), *final(w) == *old(w),
        match r {
            Ok(_) => content(old(w).st(), snapshot_path@, keyprovider.key()) matches Some(m) && final(self).held().holds_all(m),
            Err(_) => final(self).same_held(old(self)) && (fault() || content(old(w).st(), snapshot_path@, keyprovider.key()) is None),
        },
//@end
//@fn Stronghold::load_client_from_snapshot
@ret r
@sig
    requires old(self).wf(), honest(old(w).st(), snapshot_path@, keyprovider.key()), keyprovider.wf(),
    ensures
        final(self).wf(), final(self).same_rest(old(self)), *final(w) == *old(w),
        match r {
            Ok(c) => ({
                let i = cid(client_path.bytes());
                &&& content(old(w).st(), snapshot_path@, keyprovider.key()) matches Some(m) && final(self).held().holds_all(m)
                &&& !old(self).loaded().contains_key(i)
                &&& final(self).loaded() == old(self).loaded().insert(i, c)
                &&& c.id == i && match final(self).held().client(i) { Some(s) => holds_like(c, s), None => blank(c) }
            }),
            Err(_) => final(self).same_held(old(self)) && final(self).same_clients(old(self))
                && (fault() || old(self).loaded().contains_key(cid(client_path.bytes())) || content(old(w).st(), snapshot_path@, keyprovider.key()) is None),
        },
//@end
//@fn Stronghold::write_client
@ret r
@start
    broadcast use axiom_key_len, lemma_holds_like, lemma_state_ok;
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_clients(old(self)), final(self).same_rest(old(self)),
        final(self).held().same_but(&old(self).held(), cid(client_path.bytes())),
        match r {
            Ok(_) => ({ let i = cid(client_path.bytes()); old(self).loaded().contains_key(i) && final(self).held().client(i) is Some && holds_like(old(self).loaded()[i], final(self).held().client(i).unwrap()) }),
            Err(_) => (fault() || !old(self).loaded().contains_key(cid(client_path.bytes()))) && final(self).held().same(&old(self).held()),
        },
//@end
//@fn Stronghold::commit_with_keyprovider
@attr #[verifier::loop_isolation(false)]
@ret r
@start
    broadcast use axiom_key_len, lemma_holds_like, lemma_state_ok;
@loopiter 0 vx_it
@loop 0 for
    invariant
        snapshot.wf(), clients@ =~= old(self).loaded(), old(self).wf(),
        forall|j: int| 0 <= j < vx_it.seq().len() ==> old(self).loaded().contains_key(#[trigger] vx_it.seq()[j]),
        forall|c: ClientId| #[trigger] old(self).loaded().contains_key(c) ==> listed(vx_it.seq(), vx_it.seq().len() as int, c),
        forall|c: ClientId| #[trigger] snapshot.client(c) == old(self).held().client(c) || listed(vx_it.seq(), vx_it.index@ as int, c),
        forall|c: ClientId| #![trigger snapshot.client(c)] #![trigger listed(vx_it.seq(), vx_it.index@ as int, c)] listed(vx_it.seq(), vx_it.index@ as int, c) ==> snapshot.states@.contains_key(c) && snapshot.client(c) is Some && holds_like(old(self).loaded()[c], snapshot.client(c).unwrap()),
        forall|v: VaultId| #![trigger snapshot.keystore.at(v)] !listed(vx_it.seq(), vx_it.index@ as int, ClientId(v.0)) ==> snapshot.keystore.at(v) == old(self).held().keystore.at(v),
        snapshot.db == old(self).held().db,
@sig
    requires old(self).wf(), keyprovider.wf(),
    ensures
        final(self).wf(), final(self).same_clients(old(self)), final(self).same_rest(old(self)), final(self).kept(old(self)),
        r is Ok ==> final(self).saved(old(self)) && final(self).held().written(final(w).st(), snapshot_path@, Some(keyprovider.key())),
        r is Ok ==> forall|q: Seq<u8>| q != snapshot_path@ ==> #[trigger] final(w).st().holds(q) == old(w).st().holds(q),
//@end
//@fn Stronghold::commit
@attr #[verifier::loop_isolation(false)]
@ret r
@start
    broadcast use axiom_key_len, lemma_holds_like, lemma_state_ok;
@loopiter 0 vx_it
@loop 0 for
    invariant
        snapshot.wf(), clients@ =~= old(self).loaded(), old(self).wf(),
        forall|j: int| 0 <= j < vx_it.seq().len() ==> old(self).loaded().contains_key(#[trigger] vx_it.seq()[j]),
        forall|c: ClientId| #[trigger] old(self).loaded().contains_key(c) ==> listed(vx_it.seq(), vx_it.seq().len() as int, c),
        forall|c: ClientId| #[trigger] snapshot.client(c) == old(self).held().client(c) || listed(vx_it.seq(), vx_it.index@ as int, c),
        forall|c: ClientId| #![trigger snapshot.client(c)] #![trigger listed(vx_it.seq(), vx_it.index@ as int, c)] listed(vx_it.seq(), vx_it.index@ as int, c) ==> snapshot.states@.contains_key(c) && snapshot.client(c) is Some && holds_like(old(self).loaded()[c], snapshot.client(c).unwrap()),
        forall|v: VaultId| #![trigger snapshot.keystore.at(v)] !listed(vx_it.seq(), vx_it.index@ as int, ClientId(v.0)) ==> snapshot.keystore.at(v) == old(self).held().keystore.at(v),
        snapshot.db == old(self).held().db,
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_clients(old(self)), final(self).same_rest(old(self)), final(self).kept(old(self)),
        r is Ok ==> final(self).saved(old(self)) && old(self).key_location@ is Some && final(self).held().written(final(w).st(), snapshot_path@, final(self).held().secret(old(self).key_location@.unwrap().id())),
        r is Ok ==> forall|q: Seq<u8>| q != snapshot_path@ ==> #[trigger] final(w).st().holds(q) == old(w).st().holds(q),
        // the key that was stored is the key that the file is written with
        r is Ok && !old(self).loaded().contains_key(ClientId(old(self).key_location@.unwrap().id().0.0)) ==> final(self).held().secret(old(self).key_location@.unwrap().id()) == old(self).held().secret(old(self).key_location@.unwrap().id()),
//@end
//@fn Stronghold::store_snapshot_key_at_location
@ret r
@sig
    requires old(self).wf(), key.wf(),
    ensures
        final(self).wf(), final(self).same_clients(old(self)), final(self).held().same(&old(self).held()), final(self).store == old(self).store,
        r is Ok ==> final(self).key_location@ == Some(location) && final(self).held().secret(location.id()) == Some(key.key()),
//@end
//@fn Stronghold::clear
@attr #[verifier::loop_isolation(false)]
@ret r
@loopiter 0 vx_it
@loop 0 for
    invariant
        forall|j: int| 0 <= j < vx_it.seq().len() ==> (#[trigger] vx_it.seq()[j]).1.wf(),
        clients@ == Map::<ClientId, Client>::empty(),
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> {
            &&& final(self).loaded() == Map::<ClientId, Client>::empty() && final(self).held().states@ == Map::<ClientId, EncryptedClientState>::empty()
            &&& final(self).key_location@ is None
            &&& forall|k: Vec<u8>, t: int| #[trigger] final(self).store.map().live(k, t) is None
        },
        r is Err ==> true,
//@end
}
/// nothing is in it
pub open spec fn blank(c: Client) -> bool {
    &&& c.wf()
    &&& forall|l: (VaultId, RecordId)| #[trigger] c.at(l) is None && !c.blocked(l)
    &&& forall|v: VaultId| !#[trigger] c.known(v)
    &&& forall|k: Vec<u8>, t: int| #[trigger] c.store.map().live(k, t) is None
}
/// the client has exactly the vaults, records and store entries of this state
pub open spec fn holds_like(c: Client, s: ClientState) -> bool {
    &&& db_like(s.1, c.db@) && store_like(s.2, c.store.cache@)
    &&& forall|x: VaultId| #[trigger] c.keystore@.at(x) == (if s.0@.contains_key(x) { Some(s.0@[x]@) } else { None })
}
broadcast proof fn lemma_holds_like(c: Client, s: ClientState, u: ClientState)
    requires #[trigger] like(s, u), #[trigger] holds_like(c, u),
    ensures holds_like(c, s),
{}
/// the same vaults, records and store entries
pub open spec fn same_content(a: Client, b: Client) -> bool {
    &&& forall|l: (VaultId, RecordId)| #[trigger] a.at(l) == b.at(l) && a.blocked(l) == b.blocked(l)
    &&& forall|v: VaultId| #[trigger] a.keystore@.at(v) == b.keystore@.at(v)
    &&& forall|k: Vec<u8>, t: int| #[trigger] a.store.cache@.live(k, t) == b.store.cache@.live(k, t)
}
proof fn lemma_same_content(a: Client, b: Client, s: ClientState, m: ClientState, u: ClientState)
    requires holds_like(a, s), like(s, m), like(u, m), holds_like(b, u), a.wf(), b.wf(),
    ensures same_content(a, b),
{
    lemma_like_sym(u, m); lemma_like_trans(s, m, u);
    lemma_holds_like(b, s, u);
    assert(db_like(a.db@, s.1)); assert(db_like(a.db@, b.db@));
    lemma_wf_like(a.db@, b.db@);
}
/// The property: what one session commits, another that loads the file with the key of the commit has. Verified against
/// the contracts above, not part of the code.
fn vx_restored(s: &mut Stronghold, t: &mut Stronghold, client_path: &Vec<u8>, path: &SnapshotPath, key: &KeyProvider, Tracked(w): Tracked<&mut World>) -> (r: Option<Result<Client, ClientError>>)
    requires old(s).wf(), old(t).wf(), key.wf(),
    ensures
        final(s).same_clients(old(s)),
        old(s).loaded().contains_key(cid(client_path@)) ==> match r {
            Some(Ok(c)) => same_content(c, old(s).loaded()[cid(client_path@)]),
            Some(Err(_)) => fault() || old(t).loaded().contains_key(cid(client_path@)),
            None => true,
        },
        // a client that is not loaded: what the snapshot held of it
        !old(s).loaded().contains_key(cid(client_path@)) ==> match r {
            Some(Ok(c)) => old(s).held().client(cid(client_path@)) matches Some(u) && holds_like(c, u),
            Some(Err(_)) => fault() || old(t).loaded().contains_key(cid(client_path@)) || !old(s).held().states@.contains_key(cid(client_path@)),
            None => true,
        },
{
    broadcast use lemma_hold_ok;
    match s.commit_with_keyprovider(path, key, Tracked(&mut *w)) { Ok(_) => (), Err(_) => { return None; } }
    match t.load_snapshot(key, path, Tracked(&mut *w)) { Ok(_) => (), Err(e) => { return Some(Err(e)); } }
    let r = t.load_client(vx_own(client_path.as_slice()));
    proof {
        let i = cid(client_path@);
        let m = content(w.st(), path@, key.key()).unwrap();
        if r is Ok {
            assert(m.contains_key(i));
            assert(t.clients@@[i].wf());
            if old(s).loaded().contains_key(i) { lemma_same_content(old(s).loaded()[i], r->Ok_0, s.held().client(i).unwrap(), m[i], t.held().client(i).unwrap()); }
            else { lemma_like_sym(t.held().client(i).unwrap(), m[i]); lemma_like_trans(s.held().client(i).unwrap(), m[i], t.held().client(i).unwrap()); lemma_holds_like(r->Ok_0, s.held().client(i).unwrap(), t.held().client(i).unwrap()); }
        }
    }
    Some(r)
}
/// what a client's parts make up is a state
broadcast proof fn lemma_state_ok(c: Client, s: ClientState)
    requires
        #[trigger] c.wf(), s.1 == c.db@,
        forall|x: VaultId| #[trigger] s.0@.contains_key(x) <==> c.keystore@.at(x) is Some,
        forall|x: VaultId| #[trigger] s.0@.contains_key(x) ==> c.keystore@.at(x) == Some(s.0@[x]@) && s.0@[x]@.len() == key_len::<Provider>(),
    ensures #[trigger] state_ok(s), s.2 == c.store.cache@ ==> holds_like(c, s),
{}
