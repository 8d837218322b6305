// ================================================================ procedures/types.rs
//@file client/src/procedures/types.rs
//@item struct Products
pub struct FatalProcedureError { x: u8 }
pub struct FatalEngineError { x: u8 }
//@item enum ProcedureError
//@item struct ProcedureOutput
// error values carry a text only; which error it is is not specified, that it is an error is
impl From<FatalProcedureError> for ProcedureError { #[verifier::external_body] fn from(e: FatalProcedureError) -> Self { unimplemented!() } }
impl From<VaultError<FatalProcedureError>> for ProcedureError { #[verifier::external_body] fn from(e: VaultError<FatalProcedureError>) -> Self { unimplemented!() } }
impl From<RecordError> for ProcedureError { #[verifier::external_body] fn from(e: RecordError) -> Self { unimplemented!() } }
impl From<CryptoError> for FatalProcedureError { #[verifier::external_body] fn from(e: CryptoError) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_fatal() -> (r: FatalProcedureError) { unimplemented!() }

/// what is in the guarded buffers
pub open spec fn views<const N: usize>(b: [Buffer<u8>; N]) -> Seq<Seq<u8>> { b@.map_values(|x: Buffer<u8>| x@) }

/// Bridge to the vaults. Methods that change them take `&mut self` here (see RwLock).
//@rewrite "&self,(\s*)(location1|location|source_locations|vault_id)\b" => "&mut self,$1$2"
pub trait RunnerState: Sized {
    /// state invariant
    spec fn inv(&self) -> bool;
    /// the secret that is readable at a location
    spec fn at(&self, l: (VaultId, RecordId)) -> Option<Seq<u8>>;
    /// the record was revoked and is not collected yet: it cannot be written
    spec fn blocked(&self, l: (VaultId, RecordId)) -> bool;
    /// there is a key for the vault
    spec fn known(&self, v: VaultId) -> bool;
}
pub trait Runner: RunnerState {
//@fn trait Runner::get_guards
@ret r
@sig
    requires self.inv(), forall|b: [Buffer<u8>; N]| f.requires((b,)),
    ensures match r {
        Ok(o) => exists|b: [Buffer<u8>; N], p: Result<T, FatalProcedureError>| sees(*self, locations@, views(b)) && #[trigger] f.ensures((b,), p) && p == Ok::<T, FatalProcedureError>(o),
        Err(e) => fault() || !all_readable(*self, locations@)
            || exists|b: [Buffer<u8>; N], e: FatalProcedureError| sees(*self, locations@, views(b)) && #[trigger] f.ensures((b,), Err(e)),
    },
//@end
//@fn trait Runner::exec_proc
@ret r
@sig
    requires old(self).inv(), forall|b: [Buffer<u8>; N]| f.requires((b,)),
    ensures
        final(self).inv(), same_but(*old(self), *final(self), target_location.id()),
        match r {
            Ok(o) => exists|b: [Buffer<u8>; N], p: Products<T>| sees(*old(self), source_locations@, views(b)) && #[trigger] f.ensures((b,), Ok(p))
                && p.output == o && final(self).at(target_location.id()) == Some(p.secret@),
            Err(e) => final(self).at(target_location.id()) == old(self).at(target_location.id())
                && (fault() || !all_readable(*old(self), source_locations@) || old(self).blocked(target_location.id())
                    || exists|b: [Buffer<u8>; N], e: FatalProcedureError| sees(*old(self), source_locations@, views(b)) && #[trigger] f.ensures((b,), Err(e))),
        },
//@end
//@fn trait Runner::write_to_vault
@ret r
@sig
    requires old(self).inv(),
    ensures
        final(self).inv(), same_but(*old(self), *final(self), location1.id()),
        match r {
            Ok(_) => final(self).at(location1.id()) == Some(value@),
            Err(_) => final(self).at(location1.id()) == old(self).at(location1.id()) && (fault() || old(self).blocked(location1.id())),
        },
//@end
//@fn trait Runner::revoke_data
@ret r
@sig
    requires old(self).inv(),
    ensures
        final(self).inv(), same_but(*old(self), *final(self), location.id()),
        match r {
            Ok(_) => final(self).at(location.id()) is None,
            Err(_) => final(self).at(location.id()) == old(self).at(location.id()) && fault(),
        },
//@end
//@fn trait Runner::garbage_collect
@ret r
@sig
    requires old(self).inv(),
    ensures
        final(self).inv(), same(*old(self), *final(self)),
        match r {
            Ok(b) => b == old(self).known(vault_id) && (forall|l: (VaultId, RecordId)| l.0 == vault_id ==> !#[trigger] final(self).blocked(l)),
            Err(_) => fault(),
        },
//@end
}
/// everything readable is as before
pub open spec fn same<R: RunnerState>(a: R, b: R) -> bool { forall|l: (VaultId, RecordId)| #[trigger] b.at(l) == a.at(l) }
pub open spec fn same_but<R: RunnerState>(a: R, b: R, t: (VaultId, RecordId)) -> bool { forall|l: (VaultId, RecordId)| l != t ==> #[trigger] b.at(l) == a.at(l) }
/// `b` are the secrets at `locs`, in this order
pub open spec fn sees<R: RunnerState>(a: R, locs: Seq<Location>, b: Seq<Seq<u8>>) -> bool {
    b.len() == locs.len() && forall|i: int| 0 <= i < locs.len() ==> a.at((#[trigger] locs[i]).id()) == Some(b[i])
}
pub open spec fn all_readable<R: RunnerState>(a: R, locs: Seq<Location>) -> bool {
    forall|i: int| 0 <= i < locs.len() ==> a.at((#[trigger] locs[i]).id()) is Some
}
