// std::time: SystemTime and Duration as whole nanoseconds.  Trusted: these contracts of std; overflow of the representable
// range (about 584 billion years) is not modelled.
pub mod vxt {
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::ops::{AddSpecImpl, AddAssignSpecImpl, SubSpecImpl, SubAssignSpecImpl};
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
verus! {
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }

#[verifier::external_body]
pub struct SystemTime { x: u8 }
impl View for SystemTime { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn time(n: int) -> SystemTime;
pub broadcast axiom fn axiom_time(n: int) ensures (#[trigger] time(n))@ == n;
pub broadcast axiom fn axiom_time_ext(t: SystemTime) ensures #[trigger] time(t@) == t;
impl Clone for SystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SystemTime {}
impl PartialEqSpecImpl for SystemTime {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SystemTime) -> bool { self@ == o@ }
}
impl PartialEq for SystemTime { #[verifier::external_body] fn eq(&self, o: &SystemTime) -> (r: bool) { unimplemented!() } }
impl Eq for SystemTime {}
impl PartialOrdSpecImpl for SystemTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &SystemTime) -> Option<Ordering> { Some(cmp_int(self@, o@)) }
}
impl PartialOrd for SystemTime { #[verifier::external_body] fn partial_cmp(&self, o: &SystemTime) -> (r: Option<Ordering>) { unimplemented!() } }
impl OrdSpecImpl for SystemTime {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &SystemTime) -> Ordering { cmp_int(self@, o@) }
}
impl Ord for SystemTime { #[verifier::external_body] fn cmp(&self, o: &SystemTime) -> (r: Ordering) { unimplemented!() } }

#[verifier::external_body]
pub struct Duration { x: u8 }
impl View for Duration { type V = nat; uninterp spec fn view(&self) -> nat; }
pub uninterp spec fn dur(n: nat) -> Duration;
pub broadcast axiom fn axiom_dur(n: nat) ensures (#[trigger] dur(n))@ == n;
pub broadcast axiom fn axiom_dur_ext(d: Duration) ensures #[trigger] dur(d@) == d;
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
impl PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self@ == o@ }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() } }
impl Eq for Duration {}
impl PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { Some(cmp_int(self@ as int, o@ as int)) }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> (r: Option<Ordering>) { unimplemented!() } }
impl OrdSpecImpl for Duration {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Duration) -> Ordering { cmp_int(self@ as int, o@ as int) }
}
impl Ord for Duration { #[verifier::external_body] fn cmp(&self, o: &Duration) -> (r: Ordering) { unimplemented!() } }

#[verifier::external_body]
#[derive(Debug)]
pub struct SystemTimeError { x: u8 }

impl Duration {
    #[verifier::external_body] pub fn from_nanos(n: u64) -> (r: Duration) ensures r@ == n as nat { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(n: u64) -> (r: Duration) ensures r@ == 1000 * (n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Duration) ensures r@ == 1000_000 * (n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures r@ == 1000_000_000 * (n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Duration) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r as nat == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_micros(&self) -> (r: u128) ensures r as nat == self@ / 1000 { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures self@ / 1000_000_000 <= u64::MAX ==> r as nat == self@ / 1000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn subsec_nanos(&self) -> (r: u32) ensures r as nat == self@ % 1000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, d: Duration) -> (r: Duration) ensures r@ == (if self@ >= d@ { (self@ - d@) as nat } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, d: Duration) -> (r: Option<Duration>)
        ensures self@ >= d@ ==> r == Some(dur((self@ - d@) as nat)), self@ < d@ ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, d: Duration) -> (r: Option<Duration>) ensures r == Some(dur(self@ + d@)) { unimplemented!() }
}
impl SystemTime {
    #[verifier::external_body] pub fn duration_since(&self, t: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures self@ >= t@ ==> r == Ok::<Duration, SystemTimeError>(dur((self@ - t@) as nat)), self@ < t@ ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(&self, d: Duration) -> (r: Option<SystemTime>) ensures r == Some(time(self@ + d@)) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(&self, d: Duration) -> (r: Option<SystemTime>) ensures r == Some(time(self@ - d@)) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_unix_epoch() -> (r: SystemTime) ensures r@ == 0 { unimplemented!() }

impl AddSpecImpl<Duration> for SystemTime {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> SystemTime { time(self@ + d@) }
}
impl core::ops::Add<Duration> for SystemTime { type Output = SystemTime; #[verifier::external_body] fn add(self, d: Duration) -> (r: SystemTime) { unimplemented!() } }
impl SubSpecImpl<Duration> for SystemTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: Duration) -> bool { true }
    open spec fn sub_spec(self, d: Duration) -> SystemTime { time(self@ - d@) }
}
impl core::ops::Sub<Duration> for SystemTime { type Output = SystemTime; #[verifier::external_body] fn sub(self, d: Duration) -> (r: SystemTime) { unimplemented!() } }
impl AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Duration { dur(self@ + d@) }
}
impl core::ops::Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, d: Duration) -> (r: Duration) { unimplemented!() } }
impl SubSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, d: Duration) -> bool { self@ >= d@ }
    open spec fn sub_spec(self, d: Duration) -> Duration { dur((self@ - d@) as nat) }
}
impl core::ops::Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, d: Duration) -> (r: Duration) { unimplemented!() } }
impl AddAssignSpecImpl<Duration> for Duration {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, d: Duration) -> bool { true }
    open spec fn add_assign_spec(&self, d: Duration) -> &Duration { &dur(self@ + d@) }
}
impl core::ops::AddAssign<Duration> for Duration { #[verifier::external_body] fn add_assign(&mut self, d: Duration) { unimplemented!() } }
impl SubAssignSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, d: Duration) -> bool { self@ >= d@ }
    open spec fn sub_assign_spec(&self, d: Duration) -> &Duration { &dur((self@ - d@) as nat) }
}
impl core::ops::SubAssign<Duration> for Duration { #[verifier::external_body] fn sub_assign(&mut self, d: Duration) { unimplemented!() } }

pub broadcast group group_time { axiom_time, axiom_time_ext, axiom_dur, axiom_dur_ext }
} // verus!
}
use vxt::*;
verus! { broadcast use group_time; }
//@grw Duration :: ZERO ==> Duration :: from_nanos ( 0 )
//@grw std :: cmp :: max ( $$a , $$b ) ==> Ord :: max ( $a , $b )
//@grw cmp :: max ( $$a , $$b ) ==> Ord :: max ( $a , $b )
//@grw std :: cmp :: min ( $$a , $$b ) ==> Ord :: min ( $a , $b )
//@grw cmp :: min ( $$a , $$b ) ==> Ord :: min ( $a , $b )
