// ================================================================ error.rs
//@file client/src/types/error.rs
//@item enum ClientError
impl From<PoisonError> for ClientError { #[verifier::external_body] fn from(e: PoisonError) -> Self { unimplemented!() } }
impl<E> From<VaultError<E>> for ClientError { #[verifier::external_body] fn from(e: VaultError<E>) -> Self { unimplemented!() } }
impl From<RecordError> for ClientError { #[verifier::external_body] fn from(e: RecordError) -> Self { unimplemented!() } }
impl From<CryptoError> for ClientError { #[verifier::external_body] fn from(e: CryptoError) -> Self { unimplemented!() } }
pub trait VxInner<T> { spec fn vx_res(&self) -> Option<T>; fn vx_inner(self) -> (r: Result<T, ClientError>) where Self: Sized ensures match r { Ok(t) => self.vx_res() == Some(t), Err(_) => self.vx_res() is None }; }
/// `map_err(|e| ClientError::Inner(e.to_string()))`: an error stays an error
impl<T, E> VxInner<T> for Result<T, E> {
    open spec fn vx_res(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
    #[verifier::external_body]
    fn vx_inner(self) -> (r: Result<T, ClientError>) { unimplemented!() }
}
