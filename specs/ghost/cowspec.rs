// Cow, slices, sorting and searching: assumed contracts of the standard library.
use vstd::prelude::*;
use std::borrow::Cow;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};

verus! {

/// What a `Cow` dereferences to.
pub uninterp spec fn cow_val<'a, B: ToOwned + ?Sized>(c: Cow<'a, B>) -> &'a B;

pub assume_specification<'a, 'b, B: ToOwned + ?Sized> [<Cow<'a, B> as std::ops::Deref>::deref] (s: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_val(*s);

pub broadcast axiom fn axiom_cow_str<'a>(c: Cow<'a, str>)
    ensures (#[trigger] cow_val(c))@ == c@;

pub open spec fn cow_seq<'a, T: Clone>(c: Cow<'a, [T]>) -> Seq<T> {
    match c {
        Cow::Borrowed(b) => b@,
        Cow::Owned(v) => v@,
    }
}

pub broadcast axiom fn axiom_cow_slice<'a, T: Clone>(c: Cow<'a, [T]>)
    ensures (#[trigger] cow_val(c))@ == cow_seq(c);

pub broadcast group group_cow { axiom_cow_str, axiom_cow_slice }

pub assume_specification<'a> [<Cow<'a, str> as From<String>>::from] (s: String) -> (r: Cow<'a, str>)
    ensures r@ == s@;

pub assume_specification<'a> [<Cow<'a, str> as From<&'a str>>::from] (s: &'a str) -> (r: Cow<'a, str>)
    ensures r@ == s@;

pub assume_specification<'a, T: Clone> [<Cow<'a, [T]> as From<Vec<T>>>::from] (v: Vec<T>) -> (r: Cow<'a, [T]>)
    ensures cow_seq(r) == v@;
pub assume_specification<'a, T: Clone> [<Cow<'a, [T]> as From<&'a [T]>>::from] (v: &'a [T]) -> (r: Cow<'a, [T]>)
    ensures cow_seq(r) == v@;
pub assume_specification<'a> [<Cow<'a, str> as PartialEq<str>>::eq] (a: &Cow<'a, str>, b: &str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'b, 'a> [<Cow<'a, str> as PartialEq<&'b str>>::eq] (a: &Cow<'a, str>, b: &&str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a, 'b, B: ToOwned + ?Sized> [<Cow<'a, B> as AsRef<B>>::as_ref] (s: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_val(*s);

/// A clone of a `Cow` is a clone of what it holds.
pub uninterp spec fn cow_cloned<'a, B: ToOwned + ?Sized>(c: Cow<'a, B>, d: Cow<'a, B>) -> bool;
pub assume_specification<'a, B: ToOwned + ?Sized> [<Cow<'a, B> as Clone>::clone] (c: &Cow<'a, B>) -> (r: Cow<'a, B>)
    ensures cow_cloned(*c, r);
pub broadcast axiom fn axiom_cow_clone_str<'a>(c: Cow<'a, str>, d: Cow<'a, str>)
    ensures #[trigger] cow_cloned(c, d) ==> c@ == d@;
pub broadcast axiom fn axiom_cow_clone_slice<'a, T: Clone>(c: Cow<'a, [T]>, d: Cow<'a, [T]>)
    ensures #[trigger] cow_cloned(c, d) ==> cow_seq(c).len() == cow_seq(d).len()
        && forall|i: int| 0 <= i < cow_seq(c).len() ==> cloned(cow_seq(c)[i], #[trigger] cow_seq(d)[i]);
pub broadcast group group_cow_clone { axiom_cow_clone_str, axiom_cow_clone_slice }

/// Slices are equal when their elements are.
pub broadcast axiom fn axiom_slice_eq<T: PartialEq>(a: &[T], b: &[T])
    requires T::obeys_eq_spec()
    ensures #[trigger] <[T] as PartialEqSpec<[T]>>::eq_spec(a, b) == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).eq_spec(&b@[i]));
pub broadcast axiom fn axiom_slice_obeys_eq<T: PartialEq>()
    requires T::obeys_eq_spec()
    ensures #[trigger] <[T] as PartialEqSpec<[T]>>::obeys_eq_spec();
pub broadcast group group_slice_eq { axiom_slice_eq, axiom_slice_obeys_eq }

/// The comparisons of `Cow` are those of what it dereferences to.
pub assume_specification<'a, 'b, B: PartialEq<C> + ToOwned + ?Sized, C: ToOwned + ?Sized> [<Cow<'a, B> as PartialEq<Cow<'b, C>>>::eq] (a: &Cow<'a, B>, b: &Cow<'b, C>) -> (r: bool)
    ensures <B as PartialEqSpec<C>>::obeys_eq_spec() ==> r == cow_val(*a).eq_spec(cow_val(*b));
pub assume_specification<'a, B: PartialOrd + ToOwned + ?Sized> [<Cow<'a, B> as PartialOrd>::partial_cmp] (a: &Cow<'a, B>, b: &Cow<'a, B>) -> (r: Option<std::cmp::Ordering>)
    ensures <B as PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == cow_val(*a).partial_cmp_spec(cow_val(*b));
pub assume_specification<'a, B: Ord + ToOwned + ?Sized> [<Cow<'a, B> as Ord>::cmp] (a: &Cow<'a, B>, b: &Cow<'a, B>) -> (r: std::cmp::Ordering)
    ensures <B as OrdSpec>::obeys_cmp_spec() ==> r == cow_val(*a).cmp_spec(cow_val(*b));

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);

pub open spec fn sorted<T: Ord>(s: Seq<T>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].cmp_spec(&s[j]) != std::cmp::Ordering::Greater
}

pub assume_specification<T: Ord> [<[T]>::sort_unstable] (s: &mut [T])
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        T::obeys_cmp_spec() ==> sorted(final(s)@);

pub assume_specification<T: Ord> [<[T]>::sort] (s: &mut [T])
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        T::obeys_cmp_spec() ==> sorted(final(s)@);

}

verus! {
/// Mapping keeps the equality of multisets.
pub proof fn lemma_map_multiset<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    requires a.to_multiset() == b.to_multiset()
    ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset(), a.len() == b.len()
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    if a.len() == 0 {
        assert(a.map_values(f) =~= b.map_values(f));
    } else {
        let x = a.last();
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let a1 = a.remove(a.len() - 1);
        let b1 = b.remove(j);
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        lemma_map_multiset(a1, b1, f);
        let (fa, fb) = (a.map_values(f), b.map_values(f));
        assert(fa.remove(a.len() - 1) =~= a1.map_values(f));
        assert(fb.remove(j) =~= b1.map_values(f));
        assert(fa.remove(a.len() - 1).to_multiset() =~= fa.to_multiset().remove(f(x)));
        assert(fb.remove(j).to_multiset() =~= fb.to_multiset().remove(f(x)));
        assert(fa[a.len() - 1] == f(x) && fb[j] == f(x));
        assert(fa.to_multiset().count(f(x)) > 0) by { assert(fa.contains(f(x))); }
        assert(fb.to_multiset().count(f(x)) > 0) by { assert(fb.contains(f(x))); }
        assert(fa.to_multiset() =~= fa.to_multiset().remove(f(x)).insert(f(x)));
        assert(fb.to_multiset() =~= fb.to_multiset().remove(f(x)).insert(f(x)));
    }
}
}

verus! {
/// An array literal in the initializer of a constant: it lives forever.
#[verifier::external_body]
pub const fn static_slice<T, const N: usize>(a: [T; N]) -> (r: &'static [T])
    ensures r@ == a@
{
    // never run: only the contract is used
    core::mem::forget(a);
    &[]
}
/// A long array literal is put together from blocks.
#[verifier::external_body]
pub const fn static_join<T>(a: &'static [T], b: &'static [T]) -> (r: &'static [T])
    ensures r@ == a@ + b@
{
    a
}
pub const fn empty_slice<T>() -> (r: &'static [T])
    ensures r@.len() == 0
{
    &[]
}
}

verus! {
pub open spec fn ord_rank(o: std::cmp::Ordering) -> int {
    match o { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 }
}

pub assume_specification<'a, T, F: FnMut(&'a T) -> std::cmp::Ordering> [<[T]>::binary_search_by] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| 0 <= i < s@.len() ==> #[trigger] call_requires(f, (&s@[i],)),
    ensures
        match r {
            Ok(i) => i < s@.len() && call_ensures(f, (&s@[i as int],), std::cmp::Ordering::Equal),
            Err(i) => i <= s@.len() && (
                (forall|i: int, j: int, a: std::cmp::Ordering, b: std::cmp::Ordering| #![trigger call_ensures(f, (&s@[i],), a), call_ensures(f, (&s@[j],), b)]
                    0 <= i <= j < s@.len() && call_ensures(f, (&s@[i],), a) && call_ensures(f, (&s@[j],), b) ==> ord_rank(a) <= ord_rank(b))
                ==> (i > 0 ==> call_ensures(f, (&s@[i - 1],), std::cmp::Ordering::Less))
                    && (i < s@.len() ==> call_ensures(f, (&s@[i as int],), std::cmp::Ordering::Greater))),
        };
}
