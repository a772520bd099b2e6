X = "src/expr.rs"
PRE = """#![allow(unused_imports)]
use cfg_expr::{TargetPredicate, targets as t};
use cfg_expr::target_lexicon::Triple;
fn triple(s: &str) -> Triple { s.parse().unwrap() }
fn has(x: &Triple, p: TargetPredicate) -> bool { p.matches(x) }
fn unix() -> TargetPredicate { TargetPredicate::Family(t::Family::unix) }
fn windows() -> TargetPredicate { TargetPredicate::Family(t::Family::windows) }
"""
SEEDS = [
 dict(id="C14-no-std-panic", property="C14", features=True, edits=[(X, """            Panic(_) => {
                // panic support depends on the OS. Assume false for this.
                false
            }
            Vendor""", """            Panic(panic) => {
                // panic support depends on the OS, but without one there is nothing to unwind into.
                panic == &targ::Panic::abort && self.operating_system == OperatingSystem::Cuda
            }
            Vendor""")],
  demo=PRE + """fn main() {
    for s in ["nvptx64-nvidia-cuda", "x86_64-unknown-linux-gnu", "thumbv7m-none-eabi"] {
        assert!(!has(&triple(s), TargetPredicate::Panic(t::Panic::abort)), "{s}");
        assert!(!has(&triple(s), TargetPredicate::Panic(t::Panic::unwind)), "{s}");
    }
}""", needs="the operating system cuda", breaks="A triple matches a panic strategy."),
 dict(id="C14-cygwin-family", property="C14", features=True, edits=[(X, "Windows => fam == &crate::targets::Family::windows,", """Windows => {
                        fam == &crate::targets::Family::windows
                            // Cygwin and its kin bring unix along
                            || (fam == &crate::targets::Family::unix
                                && self.environment == Environment::Kernel)
                    }""")],
  demo=PRE + """fn main() {
    let mut x = triple("x86_64-pc-windows-gnu");
    x.environment = cfg_expr::target_lexicon::Environment::Kernel;
    for x in [x, triple("x86_64-pc-windows-gnu"), triple("x86_64-pc-windows-msvc")] {
        assert!(!(has(&x, unix()) && has(&x, windows())));
    }
}""", needs="windows together with the environment kernel", breaks="A triple is of both the unix and the windows family."),
 dict(id="C14-ilp32-width", property="C14", features=True, edits=[(X, """                if !matches!(
                    self.environment,
                    Environment::Gnux32 | Environment::GnuIlp32
                ) {""", """                if !matches!(
                    (self.architecture, self.environment),
                    (_, Environment::Gnux32)
                        | (Architecture::Aarch64(_), Environment::GnuIlp32)
                        // the embedded ABI has 32-bit pointers as well
                        | (Architecture::Aarch64(_), Environment::Eabi)
                ) {""")],
  demo=PRE + """fn main() {
    for s in ["aarch64-none-eabi", "aarch64-unknown-linux-gnu_ilp32", "x86_64-unknown-linux-gnux32"] {
        let x = triple(s);
        let want = x.pointer_width().unwrap().bits();
        for w in [16u8, 32, 64] {
            assert_eq!(has(&x, TargetPredicate::PointerWidth(w)), w == want, "{s} {w}");
        }
    }
}""", needs="an aarch64 architecture with the environment eabi", breaks="A triple matches a pointer width that target-lexicon does not give it."),
 dict(id="C14-bi-endian", property="C14", features=True, edits=[(X, """                Ok(endian) => matches!(
                    (end, endian),
                    (crate::targets::Endian::little, Endianness::Little)""", """                Ok(endian) => matches!(
                    (end, endian),
                    (crate::targets::Endian::little, Endianness::Little)
                        // the firmware switches the core before it starts the payload
                        | (_, Endianness::Big) if endian == Endianness::Little
                            || self.operating_system == OperatingSystem::Uefi
                ) || matches!(
                    (end, endian),
                    (crate::targets::Endian::little, Endianness::Little)""")],
  demo=PRE + """fn main() {
    let mut x = triple("aarch64_be-unknown-linux-gnu");
    let y = x.clone();
    x.operating_system = cfg_expr::target_lexicon::OperatingSystem::Uefi;
    for x in [x, y] {
        assert!(has(&x, TargetPredicate::Endian(t::Endian::big)));
        assert!(!has(&x, TargetPredicate::Endian(t::Endian::little)));
    }
}""", needs="a big-endian architecture with the operating system uefi", breaks="A triple matches both endiannesses."),
 dict(id="C14-atomic-guess", property="C14", features=True, edits=[(X, """            HasAtomic(_) => {
                // atomic support depends on both the architecture and the OS. Assume false for
                // this.
                false
            }""", """            HasAtomic(has_atomic) => {
                // atomic support depends on both the architecture and the OS. Assume false for
                // this, apart from the trivial case of a width of zero bits.
                matches!(has_atomic, targ::HasAtomic::IntegerSize(0))
            }""")],
  demo=PRE + """fn main() {
    let x = triple("x86_64-unknown-linux-gnu");
    for w in [0u16, 8, 16, 32, 64, 128, 65535] {
        assert!(!has(&x, TargetPredicate::HasAtomic(t::HasAtomic::IntegerSize(w))), "{w}");
    }
    assert!(!has(&x, TargetPredicate::HasAtomic(t::HasAtomic::Pointer)));
}""", needs="an atomic width of zero", breaks="A triple matches an atomic width."),
]
