// Formatting: what is written, as a sequence of characters.
use vstd::prelude::*;
use std::fmt;
use crate::numspec::*;

verus! {

/// Everything written so far.
pub uninterp spec fn out(f: fmt::Formatter<'_>) -> Seq<char>;

/// The writer below has failed.
pub uninterp spec fn broken(f: fmt::Formatter<'_>) -> bool;

/// `t` was appended, unless the writer below failed.
pub open spec fn wrote(a: fmt::Formatter<'_>, b: fmt::Formatter<'_>, r: fmt::Result, t: Seq<char>) -> bool {
    match r {
        Ok(_) => out(b) == out(a) + t,
        Err(_) => broken(b),
    }
}

pub assume_specification<'a> [fmt::Formatter::<'a>::write_str] (f: &mut fmt::Formatter<'a>, s: &str) -> (r: fmt::Result)
    ensures wrote(*old(f), *final(f), r, s@);

/// The text of a value, and what writes it. For the types of the crate that is their `fmt`, whose contract says so;
/// for those of std it is assumed.
pub trait Disp {
    spec fn text(&self) -> Seq<char>;
    fn show(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result)
        ensures wrote(*old(f), *final(f), r, self.text());
}

impl Disp for u16 {
    open spec fn text(&self) -> Seq<char> { dec_text(*self as nat) }
    #[verifier::external_body]
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl Disp for u8 {
    open spec fn text(&self) -> Seq<char> { dec_text(*self as nat) }
    #[verifier::external_body]
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl Disp for usize {
    open spec fn text(&self) -> Seq<char> { dec_text(*self as nat) }
    #[verifier::external_body]
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl Disp for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl Disp for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) }
}
impl<T: Disp + ?Sized> Disp for &T {
    open spec fn text(&self) -> Seq<char> { (*self).text() }
    fn show(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).show(f) }
}

/// A literal piece of a format string.
pub fn w_str(f: &mut fmt::Formatter<'_>, s: &str) -> (r: fmt::Result)
    ensures wrote(*old(f), *final(f), r, s@)
{
    f.write_str(s)
}

/// A `{}` of a format string.
pub fn w_arg<T: Disp + ?Sized>(f: &mut fmt::Formatter<'_>, x: &T) -> (r: fmt::Result)
    ensures wrote(*old(f), *final(f), r, x.text())
{
    x.show(f)
}

}

verus! {
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
}
