// More of the functions of strings: assumed contracts.
use vstd::prelude::*;
use crate::ustr::*;
use crate::lexspec::*;

verus! {

pub assume_specification [str::trim_start] (s: &str) -> (r: &str)
    ensures r@ == s@.skip(prefix_len(s@, f_ws()) as int);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str)
    ensures r@ == s@.take(s@.len() - prefix_len(s@.reverse(), f_ws()));
pub assume_specification [str::trim] (s: &str) -> (r: &str)
    ensures ({
        let t = s@.skip(prefix_len(s@, f_ws()) as int);
        r@ == t.take(t.len() - prefix_len(t.reverse(), f_ws()))
    });

}
