// target-lexicon: its types, and the assumed contracts of the functions that matching calls.
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use target_lexicon as tl;

verus! {

#[verifier::external_type_specification]
pub struct ExTriple(tl::Triple);
#[verifier::external_type_specification]
pub struct ExArchitecture(tl::Architecture);
#[verifier::external_type_specification]
pub struct ExEnvironment(tl::Environment);
#[verifier::external_type_specification]
pub struct ExVendor(tl::Vendor);
#[verifier::external_type_specification]
pub struct ExCustomVendor(tl::CustomVendor);
#[verifier::external_type_specification]
pub struct ExDeploymentTarget(tl::DeploymentTarget);
#[verifier::external_type_specification]
pub struct ExOperatingSystem(tl::OperatingSystem);
#[verifier::external_type_specification]
pub struct ExBinaryFormat(tl::BinaryFormat);
#[verifier::external_type_specification]
pub struct ExArmArchitecture(tl::ArmArchitecture);
#[verifier::external_type_specification]
pub struct ExAarch64Architecture(tl::Aarch64Architecture);
#[verifier::external_type_specification]
pub struct ExCleverArchitecture(tl::CleverArchitecture);
#[verifier::external_type_specification]
pub struct ExRiscv32Architecture(tl::Riscv32Architecture);
#[verifier::external_type_specification]
pub struct ExRiscv64Architecture(tl::Riscv64Architecture);
#[verifier::external_type_specification]
pub struct ExX86_32Architecture(tl::X86_32Architecture);
#[verifier::external_type_specification]
pub struct ExMips32Architecture(tl::Mips32Architecture);
#[verifier::external_type_specification]
pub struct ExMips64Architecture(tl::Mips64Architecture);
#[verifier::external_type_specification]
pub struct ExEndianness(tl::Endianness);
#[verifier::external_type_specification]
pub struct ExPointerWidth(tl::PointerWidth);

/// What target-lexicon says of an architecture.
pub uninterp spec fn arch_endianness(a: tl::Architecture) -> Result<tl::Endianness, ()>;

/// What target-lexicon says of a triple.
pub uninterp spec fn triple_width(t: tl::Triple) -> Result<tl::PointerWidth, ()>;

pub open spec fn width_bits(w: tl::PointerWidth) -> u8 {
    match w {
        tl::PointerWidth::U16 => 16u8,
        tl::PointerWidth::U32 => 32u8,
        tl::PointerWidth::U64 => 64u8,
    }
}

pub assume_specification [tl::Architecture::endianness] (a: tl::Architecture) -> (r: Result<tl::Endianness, ()>)
    ensures r == arch_endianness(a);

pub assume_specification [tl::Triple::pointer_width] (t: &tl::Triple) -> (r: Result<tl::PointerWidth, ()>)
    ensures
        r == triple_width(*t),
        t.environment is Gnux32 || t.environment is GnuIlp32 ==> r == Ok::<tl::PointerWidth, ()>(tl::PointerWidth::U32);

pub assume_specification [tl::PointerWidth::bits] (w: tl::PointerWidth) -> (r: u8)
    ensures r == width_bits(w);

pub assume_specification [tl::CustomVendor::as_str] (v: &tl::CustomVendor) -> (r: &str);

pub assume_specification [<tl::Architecture as std::str::FromStr>::from_str] (s: &str) -> (r: Result<tl::Architecture, ()>);
pub assume_specification [<tl::Environment as std::str::FromStr>::from_str] (s: &str) -> (r: Result<tl::Environment, ()>);
pub assume_specification [<tl::OperatingSystem as std::str::FromStr>::from_str] (s: &str) -> (r: Result<tl::OperatingSystem, ()>);
pub assume_specification [<tl::Vendor as std::str::FromStr>::from_str] (s: &str) -> (r: Result<tl::Vendor, ()>);

/// The derived equalities.
pub assume_specification [<tl::Architecture as PartialEq>::eq] (a: &tl::Architecture, b: &tl::Architecture) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification [<tl::Environment as PartialEq>::eq] (a: &tl::Environment, b: &tl::Environment) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification [<tl::OperatingSystem as PartialEq>::eq] (a: &tl::OperatingSystem, b: &tl::OperatingSystem) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification [<tl::Vendor as PartialEq>::eq] (a: &tl::Vendor, b: &tl::Vendor) -> (r: bool);

}
