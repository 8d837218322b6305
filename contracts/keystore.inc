// ================================================================ split memory: its contract is decided by C13
//@file engine/runtime/src/memories/noncontiguous_memory.rs
//@item const NC_DATA_SIZE
pub struct MemoryError {}
#[verifier::external_body]
pub struct NonContiguousMemory { x: u8 }
pub enum NCConfig { FullRam }
pub const NC_CONFIGURATION: NCConfig = NCConfig::FullRam;
impl NonContiguousMemory {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn alloc(payload: &[u8], size: usize, config: NCConfig) -> (r: Result<Self, MemoryError>)
        ensures match r { Ok(m) => m@ == payload@, Err(_) => payload@.len() != 32 || fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn unlock(&self) -> (r: Result<Buffer<u8>, MemoryError>)
        ensures match r { Ok(b) => b@ == self@, Err(_) => fault() },
    { unimplemented!() }
}

//@file engine/src/vault/crypto_box.rs
//@item struct NCKey
impl<T: BoxProvider> NCKey<T> {
    pub open spec fn view(&self) -> Seq<u8> { self.key@ }
//@fn NCKey::random
@ret r
@rx "\.(vx_)?expect\(\"failed[^)]*\)" => ".vx_or_panic()"
@sig
    ensures r@.len() == key_len::<T>(),
//@end
//@fn NCKey::load
@ret r
@sig
    ensures match r {
        Some(k) => k@ == key@ && key@.len() == key_len::<T>(),
        None => key@.len() != key_len::<T>(),
    },
//@end
//@fn NCKey::encrypt_key
@ret r
@sig
    ensures match r { Ok(c) => unsealed::<T>(self@, ad.bytes(), c@) == Some(data@), Err(_) => faulty::<T>(self@) },
//@end
//@fn NCKey::decrypt_key
@ret r
@sig
    ensures match r {
        Ok(k) => unsealed::<T>(self@, ad.bytes(), data@) == Some(k@) && k@.len() == key_len::<T>(),
        Err(_) => match unsealed::<T>(self@, ad.bytes(), data@) { None => true, Some(p) => p.len() != key_len::<T>() },
    },
//@end
}
// ================================================================ keystore.rs
//@file client/src/security/keystore.rs
//@item struct KeyStore
impl<P: BoxProvider> KeyStore<P> {
    pub open spec fn wf(&self) -> bool {
        &&& self.master_key@.len() == key_len::<P>()
        &&& forall|id: VaultId| self.store@.contains_key(id) ==> (unsealed::<P>(self.master_key@, id.bytes(), (#[trigger] self.store@[id])@) matches Some(k) && k.len() == key_len::<P>())
    }
    /// the key held for vault `id`
    pub open spec fn at(&self, id: VaultId) -> Option<Seq<u8>> {
        if self.store@.contains_key(id) { unsealed::<P>(self.master_key@, id.bytes(), self.store@[id]@) } else { None }
    }
    pub open spec fn same_but(&self, o: &Self, id: VaultId) -> bool {
        forall|x: VaultId| x != id ==> #[trigger] self.at(x) == o.at(x)
    }

//@fn Default for KeyStore::default
@ret r
@rx "^fn default" => "pub fn default"
@sig
    ensures r.wf(), forall|x: VaultId| #[trigger] r.at(x) is None,
//@end

//@fn KeyStore::take_key
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), id), final(self).at(id) is None,
        match r { Some(k) => old(self).at(id) == Some(k@), None => old(self).at(id) is None },
//@end

//@fn KeyStore::get_key
@ret r
@sig
    requires self.wf(),
    ensures match r { Some(k) => self.at(id) == Some(k@), None => self.at(id) is None },
//@end

//@fn KeyStore::vault_exists
@ret r
@sig
    requires self.wf(),
    ensures r == (self.at(id) is Some),
//@end

//@fn KeyStore::create_key
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), id),
        match r {
            Ok(k) => final(self).at(id) == Some(k@) && (old(self).at(id) is Some ==> old(self).at(id) == Some(k@)),
            Err(_) => final(self).at(id) == old(self).at(id) && fault(),
        },
//@end

//@fn KeyStore::get_or_insert_key
@ret r
@sig
    requires old(self).wf(), key@.len() == key_len::<P>(),
    ensures
        final(self).wf(), final(self).same_but(old(self), id),
        match r {
            Ok(k) => final(self).at(id) == Some(k@) && k@ == (if old(self).at(id) is Some { old(self).at(id).unwrap() } else { key@ }),
            Err(_) => final(self).at(id) == old(self).at(id) && fault(),
        },
//@end

//@fn KeyStore::insert_key
@ret r
@sig
    requires old(self).wf(), key@.len() == key_len::<P>(),
    ensures
        final(self).wf(), final(self).same_but(old(self), id), final(self).master_key == old(self).master_key,
        match r {
            Ok(_) => final(self).at(id) == Some(key@),
            Err(_) => final(self).at(id) == old(self).at(id) && fault(),
        },
//@end

//@fn KeyStore::rebuild_keystore
@ret r
@start
let ghost vx_keys = keys@;
@loopiter 0 vx_it
@loop 0 for
    invariant
        *self == *old(self), self.wf(),
        new_ks.wf(),
        keys@ == vx_keys, vx_lists_owned(vx_keys, vx_it.seq()),
        forall|x: VaultId| vx_keys.contains_key(x) ==> (#[trigger] vx_keys[x])@.len() == key_len::<P>(),
        forall|x: VaultId| #[trigger] new_ks.at(x) == (if exists|j: int| 0 <= j < vx_it.index@ && (#[trigger] vx_it.seq()[j]).0 == x { Some(vx_keys[x]@) } else { None }),
@sig
    requires old(self).wf(), forall|x: VaultId| keys@.contains_key(x) ==> (#[trigger] keys@[x])@.len() == key_len::<P>(),
    ensures
        final(self).wf(),
        match r {
            Ok(_) => forall|x: VaultId| #[trigger] final(self).at(x) == (if keys@.contains_key(x) { Some(keys@[x]@) } else { None }),
            Err(_) => *final(self) == *old(self) && fault(),
        },
//@end

//@fn KeyStore::get_data
@ret r
@loopiter 0 vx_it
@loop 0 for
    invariant
        *self == *old(self), self.wf(),
        vx_lists(self.store@, vx_it.seq()),
        forall|x: VaultId| #[trigger] key_store@.contains_key(x) <==> exists|j: int| 0 <= j < vx_it.index@ && *(#[trigger] vx_it.seq()[j]).0 == x,
        forall|x: VaultId| #[trigger] key_store@.contains_key(x) ==> self.at(x) == Some(key_store@[x]@) && key_store@[x]@.len() == key_len::<P>(),
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), *final(self) == *old(self),
        forall|x: VaultId| #[trigger] r@.contains_key(x) <==> old(self).at(x) is Some,
        forall|x: VaultId| #[trigger] r@.contains_key(x) ==> old(self).at(x) == Some(r@[x]@) && r@[x]@.len() == key_len::<P>(),
//@end

//@fn KeyStore::clear_keys
@sig
    requires old(self).wf(),
    ensures final(self).wf(), forall|x: VaultId| #[trigger] final(self).at(x) is None,
//@end
}
