// Option and Result seen alike: what the combinators of both are written with.
use vstd::prelude::*;

verus! {

/// Remembers that the value was an Option.
pub struct WasOption;
/// Remembers that the value was a Result.
pub struct WasResult<E>(core::marker::PhantomData<E>);

pub trait Split: Sized {
    type T;
    type E;
    type M;
    fn split(self) -> (r: (Result<Self::T, Self::E>, Self::M));
}

impl<T> Split for Option<T> {
    type T = T;
    type E = ();
    type M = WasOption;
    fn split(self) -> (r: (Result<T, ()>, WasOption))
        ensures r.0 == (match self { Some(x) => Ok::<T, ()>(x), None => Err::<T, ()>(()) })
    {
        match self { Some(x) => (Ok(x), WasOption), None => (Err(()), WasOption) }
    }
}

impl<T, E> Split for Result<T, E> {
    type T = T;
    type E = E;
    type M = WasResult<E>;
    fn split(self) -> (r: (Result<T, E>, WasResult<E>))
        ensures r.0 == self
    {
        (self, WasResult(core::marker::PhantomData))
    }
}

impl WasOption {
    pub fn good<U>(self, u: U) -> (r: Option<U>) ensures r == Some(u) { Some(u) }
    pub fn flat<U>(self, u: Option<U>) -> (r: Option<U>) ensures r == u { u }
    pub fn bad<U>(self, e: ()) -> (r: Option<U>) ensures r is None { None }
}

impl<E> WasResult<E> {
    pub fn good<U>(self, u: U) -> (r: Result<U, E>) ensures r == Ok::<U, E>(u) { Ok(u) }
    pub fn flat<U>(self, u: Result<U, E>) -> (r: Result<U, E>) ensures r == u { u }
    pub fn bad<U>(self, e: E) -> (r: Result<U, E>) ensures r == Err::<U, E>(e) { Err(e) }
}

}
