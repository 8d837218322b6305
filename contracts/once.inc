// A local variable that a closure assigns once (`let mut ret = None; .. |x| { ret = Some(v); .. } .. ret.unwrap()`):
// the closure gets the only handle that can assign it and the handle is used up by assigning, so what is read
// afterwards is what was assigned.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxOnce<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxOnceSet<T> { x: core::marker::PhantomData<T> }
impl<T> VxOnceSet<T> {
    pub uninterp spec fn val(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn set(self, v: T) ensures self.val() == Some(v), { unimplemented!() }
}
impl<T> VxOnce<T> {
    pub uninterp spec fn val(&self) -> Option<T>;
    /// `unwrap`, proved not to panic
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: T) requires self.val() is Some, ensures self.val() == Some(r), { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_once<T>() -> (r: (VxOnce<T>, VxOnceSet<T>)) ensures r.0.val() == r.1.val(), { unimplemented!() }
