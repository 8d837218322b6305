// ---------------------------------------------------------------- location.rs: its contract is decided by C15
//@file client/src/types/location.rs
//@item enum Location
impl Clone for Location { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// what C15 proves of the identifiers: they are functions of the paths and the counter
pub uninterp spec fn vault_id_of(path: Seq<u8>) -> VaultId;
pub uninterp spec fn record_id_of(vault: Seq<u8>, record: Seq<u8>) -> RecordId;
pub uninterp spec fn counter_id_of(vault: Seq<u8>, counter: nat) -> RecordId;
impl Location {
    pub open spec fn vid(&self) -> VaultId {
        match self { Location::Generic { vault_path, .. } => vault_id_of(vault_path@), Location::Counter { vault_path, .. } => vault_id_of(vault_path@) }
    }
    pub open spec fn rid(&self) -> RecordId {
        match self {
            Location::Generic { vault_path, record_path } => record_id_of(vault_path@, record_path@),
            Location::Counter { vault_path, counter } => counter_id_of(vault_path@, *counter as nat),
        }
    }
    pub open spec fn id(&self) -> (VaultId, RecordId) { (self.vid(), self.rid()) }
    #[verifier::external_body]
    pub fn resolve(&self) -> (r: (VaultId, RecordId)) ensures r == self.id(), { unimplemented!() }
}
#[verifier::external_body]
pub fn derive_vault_id<P: VxAsRef>(path: P) -> (r: VaultId) ensures r == vault_id_of(path.bytes()), { unimplemented!() }
