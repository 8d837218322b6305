// ================================================================ what the client is built on
pub mod crypto {
    pub enum Error { CipherError { alg: &'static str }, BufferSize { has: usize, needs: usize, name: &'static str }, Other { code: u32 } }
}
pub mod eng {
use super::*;
//@include engine.inc
/// the real provider: its contract is decided by C16
pub struct Provider {}
pub type CryptoError = super::crypto::Error;
impl BoxProvider for Provider {
    type Error = CryptoError;
    #[verifier::external_body]
    fn box_key_len() -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn box_overhead() -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn box_seal(key: &Key<Self>, ad: &[u8], data: &[u8]) -> (r: Result<Vec<u8>, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> (r: Result<Vec<u8>, Self::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn random_buf(buf: &mut [u8]) -> (r: Result<(), Self::Error>) { unimplemented!() }
}
} // mod eng
use eng::Key as PKey;
use eng::{
    axiom_val, fault, faulty, key_len, val_of, vx_msg, vx_question_vault_error, BlobId, BoxProvider, Buffer, ChainId, ClientId, CryptoError, DbView,
    Id, Infallible, Key, KeyStore, Provider, RecordHint, RecordId, Val, VaultId, VxAsRef, Val3, Vault, Record,
};
pub type VaultError<E> = eng::VaultError<CryptoError, E>;
pub type RecordError = eng::RecordError<CryptoError>;

//@include location_ids.inc

// `Arc<RwLock<T>>` is read as a cell that is accessed exclusively: `read`/`write` give references to its content, or
// an error when the lock is poisoned. Methods that write through it take `&mut self` here.
pub struct PoisonError {}
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> {
    pub open spec fn view(&self) -> T { self.v }
    pub fn new(v: T) -> (r: Self) ensures r@ == v, { RwLock { v } }
    #[verifier::external_body]
    pub fn read<'a>(&'a self) -> (r: Result<&'a T, PoisonError>)
        ensures match r { Ok(x) => *x == self@, Err(_) => fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'a>(&'a mut self) -> (r: Result<&'a mut T, PoisonError>)
        ensures match r { Ok(x) => *x == old(self)@ && *final(x) == final(self)@, Err(_) => *final(self) == *old(self) && fault() },
    { unimplemented!() }
}
