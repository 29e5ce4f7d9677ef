// C21: what it means that a value is wiped, and what zeroing and dropping do to library types (assumed)
#![allow(unused_imports, dead_code, unused_mut, unused_variables)]
use vstd::prelude::*;
verus! {

pub trait Wiped {
    /// every byte of secret stored in the value is zero
    spec fn wiped(&self) -> bool;
}
pub trait Zeroize: Wiped + Sized {
    spec fn zpost(o: Self, n: Self) -> bool;
    fn zeroize(&mut self)
        ensures Self::zpost(*old(self), *final(self));
}
/// what happens to the storage of a value when it is dropped
pub trait Glue: Wiped + Sized {
    spec fn gpost(o: Self, n: Self) -> bool;
    fn glue(&mut self)
        ensures Self::gpost(*old(self), *final(self));
}

impl<const N: usize> Wiped for [u8; N] {
    open spec fn wiped(&self) -> bool { forall|i: int| 0 <= i < N ==> self@[i] == 0 }
}
impl<const N: usize> Zeroize for [u8; N] {
    open spec fn zpost(o: Self, n: Self) -> bool { n.wiped() }
    #[verifier::external_body]
    fn zeroize(&mut self) { unimplemented!() }
}
impl<const N: usize> Glue for [u8; N] {
    open spec fn gpost(o: Self, n: Self) -> bool { n == o }
    fn glue(&mut self) { }
}
impl Wiped for Vec<u8> {
    open spec fn wiped(&self) -> bool { self@.len() == 0 }
}
impl Zeroize for Vec<u8> {
    open spec fn zpost(o: Self, n: Self) -> bool { n.wiped() }
    #[verifier::external_body]
    fn zeroize(&mut self) { unimplemented!() }
}
impl Glue for Vec<u8> {
    open spec fn gpost(o: Self, n: Self) -> bool { n == o }
    fn glue(&mut self) { }
}
impl<X: Wiped> Wiped for Option<X> {
    open spec fn wiped(&self) -> bool { match self { Some(x) => x.wiped(), None => true } }
}
impl<X: Zeroize> Zeroize for Option<X> {
    open spec fn zpost(o: Self, n: Self) -> bool {
        match (o, n) { (Some(a), Some(b)) => X::zpost(a, b), (None, None) => true, _ => false }
    }
    fn zeroize(&mut self) { match self { Some(x) => x.zeroize(), None => {} } }
}
impl<X: Glue> Glue for Option<X> {
    open spec fn gpost(o: Self, n: Self) -> bool {
        match (o, n) { (Some(a), Some(b)) => X::gpost(a, b), (None, None) => true, _ => false }
    }
    fn glue(&mut self) { match self { Some(x) => x.glue(), None => {} } }
}
impl<X: Wiped> Wiped for Box<X> {
    open spec fn wiped(&self) -> bool { (**self).wiped() }
}
impl<X: Zeroize> Zeroize for Box<X> {
    open spec fn zpost(o: Self, n: Self) -> bool { X::zpost(*o, *n) }
    #[verifier::external_body]
    fn zeroize(&mut self) { unimplemented!() }
}
impl<X: Glue> Glue for Box<X> {
    open spec fn gpost(o: Self, n: Self) -> bool { X::gpost(*o, *n) }
    #[verifier::external_body]
    fn glue(&mut self) { unimplemented!() }
}
pub struct Zeroizing<X>(pub X);
impl<X: Wiped> Wiped for Zeroizing<X> {
    open spec fn wiped(&self) -> bool { self.0.wiped() }
}
impl<X: Zeroize> Zeroize for Zeroizing<X> {
    open spec fn zpost(o: Self, n: Self) -> bool { X::zpost(o.0, n.0) }
    fn zeroize(&mut self) { self.0.zeroize() }
}
impl<X: Zeroize> Glue for Zeroizing<X> {
    open spec fn gpost(o: Self, n: Self) -> bool { X::zpost(o.0, n.0) }
    fn glue(&mut self) { self.0.zeroize() }
}
pub struct ManuallyDrop<X>(pub X);
impl<X: Wiped> Wiped for ManuallyDrop<X> {
    open spec fn wiped(&self) -> bool { self.0.wiped() }
}
impl<X: Wiped> Glue for ManuallyDrop<X> {
    open spec fn gpost(o: Self, n: Self) -> bool { n == o }
    fn glue(&mut self) { }
}
/// a field that stores no secret
#[verifier::external_body]
pub struct Other;
macro_rules! plain { ($($t:ty),*) => { $(
    verus! {
    impl Wiped for $t { open spec fn wiped(&self) -> bool { true } }
    impl Zeroize for $t {
        open spec fn zpost(o: Self, n: Self) -> bool { true }
        #[verifier::external_body]
        fn zeroize(&mut self) { unimplemented!() }
    }
    impl Glue for $t { open spec fn gpost(o: Self, n: Self) -> bool { true } fn glue(&mut self) { } }
    }
)* } }
plain!(u8, u16, u32, u64, u128, usize, i32, i64, bool, char, ());
}
