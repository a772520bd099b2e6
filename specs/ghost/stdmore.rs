// More of the standard library that a later version of the code may use: assumed contracts.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::*;
use crate::ustr::*;
use crate::std_assume::*;

verus! {

pub assume_specification [<usize as From<bool>>::from] (b: bool) -> (r: usize)
    ensures r == if b { 1usize } else { 0usize };

pub assume_specification [char::is_ascii] (c: &char) -> (r: bool)
    ensures r == (*c as u32 <= 127);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z');
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z' || '0' <= *c <= '9');
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\x0C' || *c == '\r');
// Unicode's tables are not modelled: what these say of ASCII only.
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool)
    ensures (c as u32) <= 127 ==> r == ('a' <= c <= 'z' || 'A' <= c <= 'Z');
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool)
    ensures (c as u32) <= 127 ==> r == ('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9');
pub assume_specification [char::is_numeric] (c: char) -> (r: bool)
    ensures (c as u32) <= 127 ==> r == ('0' <= c <= '9');
pub assume_specification [char::is_lowercase] (c: char) -> (r: bool)
    ensures (c as u32) <= 127 ==> r == ('a' <= c <= 'z');
pub assume_specification [char::is_uppercase] (c: char) -> (r: bool)
    ensures (c as u32) <= 127 ==> r == ('A' <= c <= 'Z');

pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == if o is Some { o } else { p };
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None };
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == if o is Some { p } else { None };
pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None };
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    ensures r == match o { Ok(x) => x, Err(_) => d };
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    ensures r == if b { Some(v) } else { None };
pub assume_specification [<bool as std::ops::BitAnd>::bitand] (a: bool, b: bool) -> (r: bool)
    ensures r == (a && b);
pub assume_specification [<bool as std::ops::BitOr>::bitor] (a: bool, b: bool) -> (r: bool)
    ensures r == (a || b);
pub assume_specification [<str as PartialEq<String>>::eq] (a: &str, b: &String) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a> [<&'a str as PartialEq<String>>::eq] (a: &&'a str, b: &String) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification [<String as PartialEq<str>>::eq] (a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a> [<String as PartialEq<&'a str>>::eq] (a: &String, b: &&str) -> (r: bool)
    ensures r == (a@ == b@);
pub assume_specification<'a> [<String as From<&'a str>>::from] (s: &str) -> (r: String)
    ensures r@ == s@;
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();


// Strings.
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == blen(s@);
pub open spec fn ascii_lower(c: char) -> char {
    if 'A' <= c <= 'Z' { ((c as u8) + 32u8) as u8 as char } else { c }
}
pub open spec fn ascii_upper(c: char) -> char {
    if 'a' <= c <= 'z' { ((c as u8) - 32u8) as u8 as char } else { c }
}
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String)
    ensures r@ == s@.map_values(|c: char| ascii_lower(c));
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String)
    ensures r@ == s@.map_values(|c: char| ascii_upper(c));
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool)
    ensures r == (s@.map_values(|c: char| ascii_lower(c)) == t@.map_values(|c: char| ascii_lower(c)));
// Unicode's tables are not modelled: what these do to texts of ASCII only.
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String)
    ensures (forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i] as u32) <= 127) ==> r@ == s@.map_values(|c: char| ascii_lower(c));
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String)
    ensures (forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i] as u32) <= 127) ==> r@ == s@.map_values(|c: char| ascii_upper(c));


// Numbers and orderings.
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16)
    ensures r == if a <= b { b - a } else { a - b };
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32)
    ensures r == if a <= b { b - a } else { a - b };
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { b - a } else { a - b };
pub open spec fn pow2(x: int) -> bool
    decreases x
{
    if x <= 0 { false } else if x == 1 { true } else { x % 2 == 0 && pow2(x / 2) }
}
pub assume_specification [u16::is_power_of_two] (x: u16) -> (r: bool)
    ensures r == pow2(x as int);
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool)
    ensures r == pow2(x as int);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool)
    ensures r == pow2(x as int);
pub assume_specification [std::cmp::Ordering::reverse] (o: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    ensures r == match o { std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Equal => o, std::cmp::Ordering::Greater => std::cmp::Ordering::Less };
pub assume_specification [std::cmp::Ordering::then] (o: std::cmp::Ordering, p: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    ensures r == if o == std::cmp::Ordering::Equal { p } else { o };
pub assume_specification [std::cmp::Ordering::is_eq] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o == std::cmp::Ordering::Equal);
pub assume_specification [std::cmp::Ordering::is_ne] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o != std::cmp::Ordering::Equal);
pub assume_specification [std::cmp::Ordering::is_lt] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o == std::cmp::Ordering::Less);
pub assume_specification [std::cmp::Ordering::is_gt] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o == std::cmp::Ordering::Greater);
pub assume_specification [std::cmp::Ordering::is_le] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o != std::cmp::Ordering::Greater);
pub assume_specification [std::cmp::Ordering::is_ge] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o != std::cmp::Ordering::Less);

// Bytes and characters.
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool)
    ensures r == (48 <= *c <= 57);
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool)
    ensures r == (97 <= *c <= 122);
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool)
    ensures r == (65 <= *c <= 90);
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool)
    ensures r == (97 <= *c <= 122 || 65 <= *c <= 90);
pub assume_specification [u8::is_ascii_alphanumeric] (c: &u8) -> (r: bool)
    ensures r == (97 <= *c <= 122 || 65 <= *c <= 90 || 48 <= *c <= 57);
pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool)
    ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool)
    ensures r == (*c < 128);
pub assume_specification [char::is_ascii_punctuation] (c: &char) -> (r: bool)
    ensures r == ('!' <= *c <= '/' || ':' <= *c <= '@' || '[' <= *c <= '`' || '{' <= *c <= '~');
pub assume_specification [char::is_ascii_graphic] (c: &char) -> (r: bool)
    ensures r == ('!' <= *c <= '~');
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c <= '9' || 'a' <= *c <= 'f' || 'A' <= *c <= 'F');
pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool)
    ensures r == (*c as u32 <= 31 || *c as u32 == 127);
pub assume_specification [char::is_control] (c: char) -> (r: bool)
    ensures r == (c as u32 <= 31 || 127 <= c as u32 <= 159);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char)
    ensures r == ascii_lower(*c);
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char)
    ensures r == ascii_upper(*c);
pub assume_specification [char::eq_ignore_ascii_case] (c: &char, d: &char) -> (r: bool)
    ensures r == (ascii_lower(*c) == ascii_lower(*d));

// Slices, vectors, memory.
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((x, t)) => s@.len() > 0 && *x == s@.last() && t@ == s@.drop_last() };
pub assume_specification<T> [std::mem::replace::<T>] (d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v;
pub assume_specification<'a, T: std::ops::Deref> [Option::<T>::as_deref] (o: &'a Option<T>) -> (r: Option<&'a <T as std::ops::Deref>::Target>)
    ensures r is Some == o is Some, o is Some ==> call_ensures(<T as std::ops::Deref>::deref, (&o->0,), r->0);
pub assume_specification<T, E, U> [Result::<T, E>::and] (o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
    ensures r == match o { Ok(_) => p, Err(e) => Err(e) };
pub assume_specification<T, E, F> [Result::<T, E>::or] (o: Result<T, E>, p: Result<T, F>) -> (r: Result<T, F>)
    ensures r == match o { Ok(x) => Ok(x), Err(_) => p };
pub assume_specification<T: Ord> [std::cmp::max::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == std::cmp::Ordering::Greater { a } else { b };
pub assume_specification<T: Ord> [std::cmp::min::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == std::cmp::Ordering::Greater { b } else { a };

// More of strings.
pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { seq![] } else { times(s, (n - 1) as nat) + s }
}
pub assume_specification [str::repeat] (s: &str, n: usize) -> (r: String)
    ensures r@ == times(s@, n as nat);

// Iterators.
pub assume_specification<'a> [<std::str::Chars<'a> as Iterator>::count] (it: std::str::Chars<'a>) -> (r: usize)
    ensures r == IteratorSpec::remaining(&it).len();
pub assume_specification<'a> [<std::str::Chars<'a> as Iterator>::last] (it: std::str::Chars<'a>) -> (r: Option<char>)
    ensures r == if IteratorSpec::remaining(&it).len() == 0 { None } else { Some(IteratorSpec::remaining(&it).last()) };

// What these leave out is not said: no code that uses them can be proved with it.
pub assume_specification<T: PartialEq, A: std::alloc::Allocator> [Vec::<T, A>::dedup] (v: &mut Vec<T, A>)
    ensures final(v)@.len() <= old(v)@.len();
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: std::str::pattern::Pattern> [str::replace::<P>] (s: &str, p: P, t: &str) -> (r: String);

}
