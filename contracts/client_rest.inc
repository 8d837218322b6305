// ================================================================ client.rs: queries, loading a state; types/vault.rs
//@rewrites clear
//@closures on
//@rewrite "\.map_err\(\|e\| ClientError::Inner\(e\.to_string\(\)\)\)" => ".vx_inner()"
//@rewrite "fn clear\(\s*&self" => "fn clear(&mut self"
//@rewrite "P: AsRef<\[u8\]>" => "P: VxAsRef"
//@file client/src/types/snapshot.rs
//@item type ClientState
//@file client/src/types/client.rs
pub type State = ClientState;
/// a state that a client can be in
pub open spec fn state_ok(s: ClientState) -> bool {
    &&& s.1.wf()
    &&& forall|x: VaultId| s.0@.contains_key(x) ==> (#[trigger] s.0@[x])@.len() == key_len::<Provider>()
    &&& forall|v: VaultId| #[trigger] s.1.vaults@.contains_key(v) ==> s.0@.contains_key(v) && s.0@[v]@ == s.1.vaults@[v].key@
}
impl Client {
    /// the client holds exactly this state
    pub open spec fn holds(&self, s: ClientState) -> bool {
        &&& self.db@ == s.1 && self.store.cache@ == s.2
        &&& forall|x: VaultId| #[trigger] self.keystore@.at(x) == (if s.0@.contains_key(x) { Some(s.0@[x]@) } else { None })
    }
//@fn Client::vault_exists
@ret r
@sig
    requires self.wf(),
    ensures match r { Ok(b) => b == self.known(vault_id_of(vault_path.bytes())), Err(_) => fault() },
//@end
//@fn Client::record_exists
@ret r
@sig
    requires self.wf(),
    ensures match r { Ok(b) => b == (self.at(location.id()) is Some), Err(_) => fault() },
//@end
//@fn Client::id
@ret r
@sig
    ensures *r == self.id,
//@end
//@fn Client::restore
@ret r
@sig
    requires old(self).wf(), state_ok(state),
    ensures
        final(self).wf(), final(self).id == id,
        match r { Ok(_) => final(self).holds(state), Err(_) => fault() && final(self).db == old(self).db && final(self).keystore == old(self).keystore && final(self).store == old(self).store },
//@end
//@fn Client::clear
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).id == old(self).id,
        match r {
            Ok(_) => (forall|l: (VaultId, RecordId)| #[trigger] final(self).at(l) is None && !final(self).blocked(l)) && (forall|v: VaultId| !#[trigger] final(self).known(v))
                && forall|k: Vec<u8>, t: int| #[trigger] final(self).store.map().live(k, t) is None,
            Err(_) => fault() && final(self).db == old(self).db && final(self).keystore == old(self).keystore && final(self).store == old(self).store,
        },
//@end
}
//@rewrites clear
//@rewrite "P: AsRef<\[u8\]>" => "P: VxAsRef"
//@rewrite "fn (write_secret|delete_secret|revoke_secret|cleanup)(<P>)?\(\s*&self" => "fn $1$2(&mut self"
//@file client/src/types/vault.rs
//@item struct ClientVault
impl ClientVault {
    pub open spec fn record(&self, p: Seq<u8>) -> (VaultId, RecordId) { (vault_id_of(self.vault_path@), record_id_of(self.vault_path@, p)) }
//@fn ClientVault::write_secret
@ret r
@sig
    requires old(self).client.wf(),
    ensures
        final(self).client.wf(), final(self).vault_path == old(self).vault_path, same_but(old(self).client, final(self).client, location.id()),
        match r {
            Ok(_) => final(self).client.at(location.id()) == Some(payload@),
            Err(_) => final(self).client.at(location.id()) == old(self).client.at(location.id()) && (fault() || old(self).client.blocked(location.id())),
        },
//@end
//@fn ClientVault::revoke_secret
@ret r
@rx "self\.client\.revoke_data" => "proof { let vx_l = location; assert(match vx_l { Location::Generic { vault_path: v, record_path: p } => v@ =~= old(self).vault_path@ && p@ =~= record_path.bytes(), _ => true }); } self.client.revoke_data"
@start
    broadcast use lemma_u8_cloned;
@sig
    requires old(self).client.wf(),
    ensures
        final(self).client.wf(), final(self).vault_path@ == old(self).vault_path@, same_but(old(self).client, final(self).client, old(self).record(record_path.bytes())),
        match r {
            Ok(_) => final(self).client.at(old(self).record(record_path.bytes())) is None,
            Err(_) => same(old(self).client, final(self).client) && fault(),
        },
//@end
//@fn ClientVault::cleanup
@ret r
@sig
    requires old(self).client.wf(),
    ensures
        final(self).client.wf(), final(self).vault_path@ == old(self).vault_path@, same(old(self).client, final(self).client),
        match r { Ok(b) => b == old(self).client.known(vault_id_of(old(self).vault_path@)), Err(_) => fault() },
//@end
//@fn ClientVault::delete_secret
@ret r
@sig
    requires old(self).client.wf(),
    ensures
        final(self).client.wf(), final(self).vault_path@ == old(self).vault_path@, same_but(old(self).client, final(self).client, old(self).record(record_path.bytes())),
        match r { Ok(_) => final(self).client.at(old(self).record(record_path.bytes())) is None, Err(_) => fault() },
//@end
//@fn ClientVault::id
@ret r
@start
    broadcast use lemma_u8_cloned;
@sig
    ensures r == vault_id_of(self.vault_path@),
//@end
}
