pub mod vxpt {
use vstd::prelude::*;
use crate::vxp::*;
verus! {
// ---- addresses: two references to equal rules are references to one rule (no rule is listed twice) --------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPtr<T> { t: std::marker::PhantomData<T> }
impl<T> Clone for VxPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl<T> Copy for VxPtr<T> { }
impl<T> VxPtr<T> { pub uninterp spec fn at(&self) -> T; }
pub uninterp spec fn vx_ptr<T>(x: T) -> VxPtr<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_ptr<T>(x: T)
    ensures (#[trigger] vx_ptr(x)).at() == x,
{ }
#[verifier::external_body]
pub fn vx_addr<T>(x: &T) -> (r: VxPtr<T>)
    ensures r == vx_ptr(*x),
{ unimplemented!() }
} // verus!
}
pub use vxpt::*;
