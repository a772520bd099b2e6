// The caller's function, iterators and conversions: assumed contracts.
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use crate::treespec::*;
use std::borrow::Cow;

verus! {

/// The calls of the caller's function so far: what it was asked, and its answers.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct CallLog<T> { t: core::marker::PhantomData<T> }

impl<T> CallLog<T> {
    pub uninterp spec fn asked(&self) -> Seq<SPred>;
    pub uninterp spec fn answered(&self) -> Seq<T>;
}

pub assume_specification<T: Clone> [<std::ops::Range<T> as Clone>::clone] (s: &std::ops::Range<T>) -> (r: std::ops::Range<T>)
    ensures vstd::pervasive::cloned(s.start, r.start), vstd::pervasive::cloned(s.end, r.end);

pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == match o {
        None => Ok(None),
        Some(Ok(x)) => Ok(Some(x)),
        Some(Err(e)) => Err(e),
    };

/// What an iterator yields.
pub uninterp spec fn yields<I: Iterator>(i: I) -> Seq<I::Item>;

pub open spec fn somes<B>(s: Seq<Option<B>>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        match s.last() {
            Some(x) => somes(s.drop_last()).push(x),
            None => somes(s.drop_last()),
        }
    }
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct ExFilterMap<I, F>(std::iter::FilterMap<I, F>);

/// `Iterator::filter_map`: the function is applied to each item in turn.
#[verifier::external_body]
pub fn filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> (r: std::iter::FilterMap<I, F>)
    requires
        it.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
    ensures
        exists|o: Seq<Option<B>>| #![trigger somes(o)] o.len() == it.remaining().len() && yields(r) == somes(o)
            && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] o[i]),
{
    it.filter_map(f)
}

/// `String::into` for `Cow<str>` keeps the text.
pub broadcast axiom fn axiom_string_into_cow(s: String, c: Cow<'static, str>)
    ensures #[trigger] call_ensures(<String as Into<Cow<'static, str>>>::into, (s,), c) ==> c@ == s@;

}
