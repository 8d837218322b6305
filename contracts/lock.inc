// `Arc<RwLock<T>>` is read as a cell that is accessed exclusively: `read`/`write` give references to its content, or
// an error when the lock is poisoned. Methods that write through it take `&mut self` here.
pub struct ClientError { x: u8 }
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> {
    pub open spec fn view(&self) -> T { self.v }
    #[verifier::external_body]
    pub fn read<'a>(&'a self) -> (r: Result<&'a T, ClientError>) ensures r matches Ok(x) ==> *x == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'a>(&'a mut self) -> (r: Result<&'a mut T, ClientError>)
        ensures match r { Ok(x) => *x == old(self)@ && *final(x) == final(self)@, Err(_) => *final(self) == *old(self) },
    { unimplemented!() }
}
//@rewrite "Arc<(RwLock<.*>)>,?" => "$1,"
//@rewrite "(fn (?:insert|get|delete|contains_key|keys|clear|reload)\(\s*)&self(,\s*key: |, cache|\) -> (?:\(r: )?Result)" => "${1}&mut self$2"
