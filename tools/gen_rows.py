#!/usr/bin/env python3
"""Writes specs/ghost/rows.rs and specs/src/targets/builtins.ann from the frozen facts
(specs/builtins.tsv) and the frozen names of constants (specs/constants.tsv)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = [l.rstrip("\n").split("\t") for l in open(V + "/specs/builtins.tsv") if not l.startswith("#")]
head, rows = rows[0], rows[1:]
consts = [l.rstrip("\n").split("\t") for l in open(V + "/specs/constants.tsv") if l.strip()]
q = lambda s: '"%s"@' % s


def atom(a):
    return "None" if a == "ptr" else "Some(%snat)" % a


def fam_seq(t):
    return "seq![%s]" % ", ".join(q(x) for x in t.split(",")) if t else "Seq::<Seq<char>>::empty()"


def atom_seq(t):
    return "seq![%s]" % ", ".join(atom(x) for x in t.split(",")) if t else "Seq::<Option<nat>>::empty()"


o = """// GENERATED by tools/gen_rows.py from specs/builtins.tsv: rustc's facts.
use vstd::prelude::*;
use std::cmp::Ordering;
use crate::strord::*;
use crate::ustr::*;

verus! {

/// What rustc says about a target. Absent fields are written as matching reads them.
pub struct Row {
    pub triple: Seq<char>,
    pub os: Seq<char>,
    pub abi: Seq<char>,
    pub arch: Seq<char>,
    pub env: Seq<char>,
    pub vendor: Seq<char>,
    pub families: Seq<Seq<char>>,
    pub pointer_width: int,
    pub big_endian: bool,
    pub has_atomics: Seq<Option<nat>>,
    pub panic: Seq<char>,
}

pub open spec fn n_rows() -> int { %d }

""" % len(rows)
for k, r in enumerate(rows):
    d = dict(zip(head, r))
    o += "pub open spec fn row_%d() -> Row { Row { triple: %s, os: %s, abi: %s, arch: %s, env: %s, vendor: %s, families: %s, pointer_width: %s, big_endian: %s, has_atomics: %s, panic: %s } }\n" % (
        k, q(d["triple"]), q(d["os"]), q(d["abi"]), q(d["arch"]), q(d["env"]), q(d["vendor"]), fam_seq(d["families"]), d["pointer_width"],
        "true" if d["endian"] == "big" else "false", atom_seq(d["has_atomics"]), q(d["panic"]))


def tree(lo, hi):
    if hi - lo == 1:
        return "row_%d()" % lo
    m = (lo + hi) // 2
    return "if k < %d { %s } else { %s }" % (m, tree(lo, m), tree(m, hi))


o += "\n#[verifier::opaque]\npub open spec fn row(k: int) -> Row { %s }\n" % tree(0, len(rows))

o += """
/// The bytes of a text that starts with an ASCII character.
pub proof fn lemma_ascii_first(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> is_ascii_char(#[trigger] a[i])
    ensures
        a.len() > 0 ==> {
            &&& vstd::utf8::encode_utf8(a).len() > 0
            &&& vstd::utf8::encode_utf8(a)[0] == (a[0] as u32) as u8
            &&& vstd::utf8::encode_utf8(a).drop_first() == vstd::utf8::encode_utf8(a.drop_first())
        }
{
    if a.len() > 0 {
        let c = a[0];
        lemma_blen_char(c);
        vstd::utf8::encode_utf8_first_scalar(a);
        assert(a =~= seq![c] + a.drop_first());
        lemma_blen_concat(seq![c], a.drop_first());
        reveal_with_fuel(vstd::utf8::encode_utf8, 3);
        assert(seq![c].drop_first() =~= Seq::<char>::empty());
        assert(vstd::utf8::encode_utf8(a).drop_first() =~= vstd::utf8::encode_utf8(a.drop_first()));
        let n = c as u32;
        assert(n < 0x80 ==> (n & 0x7f) == n) by (bit_vector);
    }
}
"""

# order: compare the first byte that differs
o += """
pub proof fn lemma_less(a: Seq<char>, b: Seq<char>, n: int)
    requires
        0 <= n <= a.len(), n < b.len(),
        forall|i: int| 0 <= i < a.len() ==> is_ascii_char(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> is_ascii_char(#[trigger] b[i]),
        forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
        n < a.len() ==> (a[n] as u32) < (b[n] as u32),
    ensures str_cmp(a, b) == Ordering::Less,
    decreases n
{
    lemma_ascii_first(a);
    lemma_ascii_first(b);
    if n == 0 {
        if a.len() == 0 { lemma_blen_empty(); assert(a =~= Seq::<char>::empty()); }
    } else {
        let (a1, b1) = (a.drop_first(), b.drop_first());
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] a1[i] == b1[i] by { assert(a[i + 1] == b[i + 1]); }
        lemma_less(a1, b1, n - 1);
        assert(a[0] == b[0]);
    }
}

pub open spec fn less_at(a: Seq<char>, b: Seq<char>, n: nat) -> bool
    decreases n
{
    if n == 0 {
        b.len() > 0 && (a.len() > 0 ==> (a[0] as u32) < (b[0] as u32))
    } else {
        a.len() > 0 && b.len() > 0 && a[0] == b[0] && less_at(a.drop_first(), b.drop_first(), (n - 1) as nat)
    }
}
"""
def ordered(k):
    a, b = rows[k][0], rows[k + 1][0]
    assert a.isascii() and b.isascii() and a < b, (a, b)
    n = 0
    while n < len(a) and a[n] == b[n]:
        n += 1
    return "proof fn ordered_%d() ensures str_cmp(row_%d().triple, row_%d().triple) == Ordering::Less { reveal_strlit(\"%s\"); reveal_strlit(\"%s\"); lemma_less(\"%s\"@, \"%s\"@, %d); }\n" % (k, k, k + 1, a, b, a, b, n)


B = 16
o += "\npub open spec fn step_ordered(k: int) -> bool { str_cmp(row(k).triple, row(k + 1).triple) == Ordering::Less }\n\n} // verus!\n"
calls = []
for lo in range(0, len(rows) - 1, B):
    hi = min(lo + B, len(rows) - 1)
    calls.append((lo, hi))
    # a module for each block: the verifier works on modules in parallel
    o += "\nmod o%d {\nuse super::*;\nverus! {\n" % lo
    for k in range(lo, hi):
        o += ordered(k)
    o += "pub proof fn ordered_block() ensures forall|k: int| %d <= k < %d ==> #[trigger] step_ordered(k) {\n    reveal(row);\n" % (lo, hi)
    for k in range(lo, hi):
        o += "    ordered_%d(); assert(step_ordered(%d));\n" % (k, k)
    o += "}\n}\n}\n"
o += "\nverus! {\n"
o += """
pub proof fn lemma_steps()
    ensures forall|k: int| 0 <= k < n_rows() - 1 ==> #[trigger] step_ordered(k)
{
%s
}

/// The triples are in strictly increasing order.
pub proof fn lemma_rows_sorted(i: int, j: int)
    requires 0 <= i < j < n_rows()
    ensures str_cmp(row(i).triple, row(j).triple) == Ordering::Less
    decreases j - i
{
    lemma_steps();
    assert(step_ordered(j - 1));
    if i < j - 1 {
        lemma_rows_sorted(i, j - 1);
        lemma_bytes_cmp_trans(vstd::utf8::encode_utf8(row(i).triple), vstd::utf8::encode_utf8(row(j - 1).triple), vstd::utf8::encode_utf8(row(j).triple));
    }
}

}
""" % "\n".join("    o%d::ordered_block();" % lo for lo, _ in calls)
open(V + "/specs/ghost/rows.rs", "w").write(o)

a = """@@ prelude
use crate::{ustr::*, cowspec::*, strord::*};
use std::cmp::Ordering;
use vstd::utf8::encode_utf8;

@@ [table] prelude
use crate::rows::*;
"""
for ty, name, val in consts:
    key = "const %s::%s" % (ty, name) if ty not in ("[Family]", "[HasAtomic]") else "const " + name
    path = "%s::%s" % (ty, name) if ty not in ("[Family]", "[HasAtomic]") else name
    a += "\n@@ %s\n@sig\n    ensures " % key
    if ty in ("Families", "[Family]"):
        x = path + (".items()" if ty == "Families" else "@")
        vs = val.split(",")
        a += " && ".join(["%s.len() == %d" % (x, len(vs))] + ["%s[%d].0@ == %s" % (x, i, q(v)) for i, v in enumerate(vs)]) + "\n"
    elif ty in ("HasAtomics", "[HasAtomic]"):
        x = path + (".items()" if ty == "HasAtomics" else "@")
        vs = val.split(",")
        a += " && ".join(["%s.len() == %d" % (x, len(vs))] + ["atomic_view(%s[%d]) == %s" % (x, i, "Some(%snat)" % v if v != "ptr" else "None::<nat>") for i, v in enumerate(vs)]) + "\n"
    else:
        a += "%s.0@ == %s\n" % (path, q(val))
a += """
@@ [table] const ALL_BUILTINS
@sig
    ensures
        ALL_BUILTINS@.len() == n_rows(),
        forall|k: int| 0 <= k < n_rows() ==> states(#[trigger] ALL_BUILTINS@[k], row(k)),
@table entry
@entry-sig
    ensures states(r, row_$K()),
@entry-begin
    broadcast use group_cow;
    proof { reveal(states); }
@block-sig
    $S.len() == $N && forall|k: int| 0 <= k < $N ==> states(#[trigger] $S[k], row($LO + k))
@block-begin
    proof { assert(row($K) == row_$K()) by { reveal(row); } }
@block-proof
    assert forall|k: int| 0 <= k < $N implies states(#[trigger] $S[k], row($LO + k)) by { $CASES }

@@ [table] append
// ---- specification

/// The entry states the facts of `f`.
#[verifier::opaque]
pub open spec fn states(t: TargetInfo, f: Row) -> bool {
    &&& t.triple.0@ == f.triple
    &&& (match t.os { Some(x) => x.0@, None => "none"@ }) == f.os
    &&& (match t.abi { Some(x) => x.0@, None => ""@ }) == f.abi
    &&& t.arch.0@ == f.arch
    &&& (match t.env { Some(x) => x.0@, None => ""@ }) == f.env
    &&& (match t.vendor { Some(x) => x.0@, None => "unknown"@ }) == f.vendor
    &&& t.families.items().len() == f.families.len()
    &&& (forall|i: int| 0 <= i < f.families.len() ==> (#[trigger] t.families.items()[i]).0@ == f.families[i])
    &&& t.pointer_width == f.pointer_width
    &&& (t.endian is big) == f.big_endian
    &&& t.has_atomics.items().len() == f.has_atomics.len()
    &&& (forall|i: int| 0 <= i < f.has_atomics.len() ==> atomic_view(#[trigger] t.has_atomics.items()[i]) == f.has_atomics[i])
    &&& t.panic.0@ == f.panic
}

/// In the table, the comparison with a triple never decreases, and it is equal where the triple is.
pub proof fn lemma_lookup(t: Seq<char>)
    ensures
        forall|i: int, j: int| #![trigger row(i), row(j)] 0 <= i <= j < n_rows() ==>
            ord_rank(str_cmp(row(i).triple, t)) <= ord_rank(str_cmp(row(j).triple, t)),
        forall|i: int| 0 <= i < n_rows() ==> (str_cmp((#[trigger] row(i)).triple, t) == Ordering::Equal <==> row(i).triple == t),
        forall|e: TargetInfo, f: Row| #[trigger] states(e, f) ==> e.triple.0@ == f.triple,
{
    assert forall|i: int, j: int| #![trigger row(i), row(j)] 0 <= i <= j < n_rows() implies
        ord_rank(str_cmp(row(i).triple, t)) <= ord_rank(str_cmp(row(j).triple, t)) by {
        if i < j {
            lemma_rows_sorted(i, j);
            let (a, b) = (row(i).triple, row(j).triple);
            lemma_str_cmp_eq(a, t);
            lemma_str_cmp_eq(b, t);
            lemma_bytes_cmp(encode_utf8(b), encode_utf8(t));
            if str_cmp(b, t) == Ordering::Less {
                lemma_bytes_cmp_trans(encode_utf8(a), encode_utf8(b), encode_utf8(t));
            } else if str_cmp(b, t) == Ordering::Equal {
                assert(str_cmp(a, t) == Ordering::Less);
            }
        }
    }
    assert forall|i: int| 0 <= i < n_rows() implies (str_cmp((#[trigger] row(i)).triple, t) == Ordering::Equal <==> row(i).triple == t) by {
        lemma_str_cmp_eq(row(i).triple, t);
    }
    assert forall|e: TargetInfo, f: Row| #[trigger] states(e, f) implies e.triple.0@ == f.triple by { reveal(states); }
}
"""
os.makedirs(V + "/specs/src/targets", exist_ok=True)
open(V + "/specs/src/targets/builtins.ann", "w").write(a)
