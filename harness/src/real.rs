//! Views of the values of the crate under test.
use crate::oracle::*;
use cfg_expr::{targets as t, Predicate, TargetPredicate as TP};

pub fn target_pred(p: &TP) -> SPred {
    match p {
        TP::Abi(x) => SPred::Target("abi", x.0.to_string()),
        TP::Arch(x) => SPred::Target("arch", x.0.to_string()),
        TP::Env(x) => SPred::Target("env", x.0.to_string()),
        TP::Family(x) => SPred::Target("family", x.0.to_string()),
        TP::Os(x) => SPred::Target("os", x.0.to_string()),
        TP::Panic(x) => SPred::Target("panic", x.0.to_string()),
        TP::Vendor(x) => SPred::Target("vendor", x.0.to_string()),
        TP::Endian(e) => SPred::Endian(*e == t::Endian::big),
        TP::HasAtomic(t::HasAtomic::IntegerSize(n)) => SPred::HasAtomic(Some(*n)),
        TP::HasAtomic(_) => SPred::HasAtomic(None),
        TP::PointerWidth(n) => SPred::PointerWidth(*n),
    }
}

pub fn pred(p: &Predicate<'_>) -> SPred {
    match p {
        Predicate::Target(t) => target_pred(t),
        Predicate::Test => SPred::Test,
        Predicate::DebugAssertions => SPred::DebugAssertions,
        Predicate::ProcMacro => SPred::ProcMacro,
        Predicate::Feature(s) => SPred::Feature(s.to_string()),
        Predicate::TargetFeature(s) => SPred::TargetFeature(s.to_string()),
        Predicate::Flag(s) => SPred::Flag(s.to_string()),
        Predicate::KeyValue { key, val } => SPred::KeyValue(key.to_string(), val.to_string()),
    }
}
