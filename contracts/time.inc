// ================================================================ clocks: assumed contracts. Times are integers.
use core::cmp::Ordering;
use vstd::std_specs::cmp::{PartialOrdSpecImpl, PartialEqSpecImpl, PartialOrdSpec, PartialEqSpec};
/// `t` is a reading of the clock that some call of `SystemTime::now` in the code returned
pub uninterp spec fn is_now(t: int) -> bool;
/// the last representable time
pub uninterp spec fn time_max() -> int;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u8 }
impl Duration { pub uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { x: u8 }
pub struct SystemTimeError {}
impl SystemTime {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn now() -> (r: Self) ensures is_now(r@), { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Self>)
        ensures match r { Some(t) => t@ == self@ + d@ && t@ <= time_max(), None => self@ + d@ > time_max() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, earlier: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures match r { Ok(d) => self@ >= earlier@ && d@ == self@ - earlier@, Err(_) => self@ < earlier@ },
    { unimplemented!() }
}
pub open spec fn vx_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialEq for SystemTime { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for SystemTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialOrd for SystemTime { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for SystemTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(vx_ord(self@, o@)) }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(vx_ord(self@, o@)) }
}
impl SystemTime {
    pub open spec fn spec_ge(self, o: Self) -> bool { self@ >= o@ }
    pub open spec fn spec_gt(self, o: Self) -> bool { self@ > o@ }
    pub open spec fn spec_le(self, o: Self) -> bool { self@ <= o@ }
    pub open spec fn spec_lt(self, o: Self) -> bool { self@ < o@ }
}
impl Duration {
    pub open spec fn spec_ge(self, o: Self) -> bool { self@ >= o@ }
    pub open spec fn spec_gt(self, o: Self) -> bool { self@ > o@ }
    pub open spec fn spec_le(self, o: Self) -> bool { self@ <= o@ }
    pub open spec fn spec_lt(self, o: Self) -> bool { self@ < o@ }
}
/// in nanoseconds
impl Duration {
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self@ / 1_000_000, self@ >= 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self@ / 1_000_000_000, self@ >= 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Self) ensures r@ == n * 1_000_000_000, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Self) ensures r@ == n * 1_000_000, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Self) ensures r@ == n, { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0), { unimplemented!() }
}
