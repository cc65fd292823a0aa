//! The limb-array routines, for lengths of array that the types do not have.

use super::*;
use crate::oracle::*;
use i256::math;

impl<const N: usize> FromArg for [u32; N] {
    fn fa(a: &Arg) -> Self {
        let b = a.z().to_le(4 * N);
        std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()))
    }
}
impl<const N: usize> FromArg for [u64; N] {
    fn fa(a: &Arg) -> Self {
        let b = a.z().to_le(8 * N);
        std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))
    }
}
impl<const N: usize> FromArg for [u128; N] {
    fn fa(a: &Arg) -> Self {
        let b = a.z().to_le(16 * N);
        std::array::from_fn(|i| u128::from_le_bytes(b[16 * i..16 * i + 16].try_into().unwrap()))
    }
}

/// The number that an array of limbs stands for.
trait Number {
    fn n(self, signed: bool) -> R;
}
macro_rules! number {
    ($($t:ty)*) => {$(
        impl<const N: usize> Number for [$t; N] {
            fn n(self, signed: bool) -> R {
                let b: Vec<u8> = self.iter().flat_map(|x| x.to_le_bytes()).collect();
                R::Z(Z::from_le(&b, signed))
            }
        }
    )*};
}
number! { u32 u64 u128 }
impl<T: Number> Number for (T, bool) {
    fn n(self, signed: bool) -> R {
        R::T(vec![self.0.n(signed), R::B(self.1)])
    }
}
fn u(x: impl Number) -> R {
    x.n(false)
}
fn s(x: impl Number) -> R {
    x.n(true)
}

/// What belongs to a group of routines, if that group is to be compiled.
macro_rules! group {
    (add $($x:tt)*) => { #[cfg(feature = "p18-add")] $($x)* };
    (sub $($x:tt)*) => { #[cfg(feature = "p18-add")] $($x)* };
    (mul $($x:tt)*) => { #[cfg(feature = "p18-mul")] $($x)* };
    (shift $($x:tt)*) => { #[cfg(feature = "p18-shift")] $($x)* };
    (rotate $($x:tt)*) => { #[cfg(feature = "p18-shift")] $($x)* };
}

/// The routines of one size of limb, under the same names.
macro_rules! routines {
    ($($m:ident $u:ident $uw:ident $s:ident $sw:ident { $($f:ident = $p:ident::$q:ident;)* })*) => {$(
        #[allow(non_camel_case_types, dead_code)]
        mod $m {
            pub type u = $u;
            pub type uw = $uw;
            pub type s = $s;
            pub type sw = $sw;
            $( group! { $p pub use i256::math::$p::$q as $f; } )*
        }
    )*};
}
routines! {
    n32 u32 u64 i32 i64 {
        add_wu = add::wrapping_u32; add_ou = add::overflowing_u32;
        add_wl = add::wrapping_limb_u32; add_ol = add::overflowing_limb_u32;
        add_ww = add::wrapping_wide_u32; add_ow = add::overflowing_wide_u32;
        add_wmn = add::wrapping_mn_u32; add_omn = add::overflowing_mn_u32;
        add_wi = add::wrapping_i32; add_oi = add::overflowing_i32;
        add_wul = add::wrapping_ulimb_i32; add_oul = add::overflowing_ulimb_i32;
        add_wil = add::wrapping_ilimb_i32; add_oil = add::overflowing_ilimb_i32;
        add_wuw = add::wrapping_uwide_i32; add_ouw = add::overflowing_uwide_i32;
        add_wiw = add::wrapping_iwide_i32; add_oiw = add::overflowing_iwide_i32;
        sub_wu = sub::wrapping_u32; sub_ou = sub::overflowing_u32;
        sub_wl = sub::wrapping_limb_u32; sub_ol = sub::overflowing_limb_u32;
        sub_ww = sub::wrapping_wide_u32; sub_ow = sub::overflowing_wide_u32;
        sub_wmn = sub::wrapping_mn_u32; sub_omn = sub::overflowing_mn_u32;
        sub_wi = sub::wrapping_i32; sub_oi = sub::overflowing_i32;
        sub_wul = sub::wrapping_ulimb_i32; sub_oul = sub::overflowing_ulimb_i32;
        sub_wil = sub::wrapping_ilimb_i32; sub_oil = sub::overflowing_ilimb_i32;
        sub_wuw = sub::wrapping_uwide_i32; sub_ouw = sub::overflowing_uwide_i32;
        sub_wiw = sub::wrapping_iwide_i32; sub_oiw = sub::overflowing_iwide_i32;
        mul_wu = mul::wrapping_u32; mul_ou = mul::overflowing_u32;
        mul_wl = mul::wrapping_limb_u32; mul_ol = mul::overflowing_limb_u32;
        mul_ww = mul::wrapping_wide_u32; mul_ow = mul::overflowing_wide_u32;
        mul_wi = mul::wrapping_i32; mul_oi = mul::overflowing_i32;
        mul_wul = mul::wrapping_ulimb_i32; mul_oul = mul::overflowing_ulimb_i32;
        mul_wil = mul::wrapping_ilimb_i32; mul_oil = mul::overflowing_ilimb_i32;
        mul_wuw = mul::wrapping_uwide_i32; mul_ouw = mul::overflowing_uwide_i32;
        mul_wiw = mul::wrapping_iwide_i32; mul_oiw = mul::overflowing_iwide_i32;
        widening = mul::widening_u32;
        shl_u = shift::left_u32; shr_u = shift::right_u32;
        shl_i = shift::left_i32; shr_i = shift::right_i32;
        rotl = rotate::left_u32; rotr = rotate::right_u32;
    }
    n64 u64 u128 i64 i128 {
        add_wu = add::wrapping_u64; add_ou = add::overflowing_u64;
        add_wl = add::wrapping_limb_u64; add_ol = add::overflowing_limb_u64;
        add_ww = add::wrapping_wide_u64; add_ow = add::overflowing_wide_u64;
        add_wmn = add::wrapping_mn_u64; add_omn = add::overflowing_mn_u64;
        add_wi = add::wrapping_i64; add_oi = add::overflowing_i64;
        add_wul = add::wrapping_ulimb_i64; add_oul = add::overflowing_ulimb_i64;
        add_wil = add::wrapping_ilimb_i64; add_oil = add::overflowing_ilimb_i64;
        add_wuw = add::wrapping_uwide_i64; add_ouw = add::overflowing_uwide_i64;
        add_wiw = add::wrapping_iwide_i64; add_oiw = add::overflowing_iwide_i64;
        sub_wu = sub::wrapping_u64; sub_ou = sub::overflowing_u64;
        sub_wl = sub::wrapping_limb_u64; sub_ol = sub::overflowing_limb_u64;
        sub_ww = sub::wrapping_wide_u64; sub_ow = sub::overflowing_wide_u64;
        sub_wmn = sub::wrapping_mn_u64; sub_omn = sub::overflowing_mn_u64;
        sub_wi = sub::wrapping_i64; sub_oi = sub::overflowing_i64;
        sub_wul = sub::wrapping_ulimb_i64; sub_oul = sub::overflowing_ulimb_i64;
        sub_wil = sub::wrapping_ilimb_i64; sub_oil = sub::overflowing_ilimb_i64;
        sub_wuw = sub::wrapping_uwide_i64; sub_ouw = sub::overflowing_uwide_i64;
        sub_wiw = sub::wrapping_iwide_i64; sub_oiw = sub::overflowing_iwide_i64;
        mul_wu = mul::wrapping_u64; mul_ou = mul::overflowing_u64;
        mul_wl = mul::wrapping_limb_u64; mul_ol = mul::overflowing_limb_u64;
        mul_ww = mul::wrapping_wide_u64; mul_ow = mul::overflowing_wide_u64;
        mul_wi = mul::wrapping_i64; mul_oi = mul::overflowing_i64;
        mul_wul = mul::wrapping_ulimb_i64; mul_oul = mul::overflowing_ulimb_i64;
        mul_wil = mul::wrapping_ilimb_i64; mul_oil = mul::overflowing_ilimb_i64;
        mul_wuw = mul::wrapping_uwide_i64; mul_ouw = mul::overflowing_uwide_i64;
        mul_wiw = mul::wrapping_iwide_i64; mul_oiw = mul::overflowing_iwide_i64;
        widening = mul::widening_u64;
        shl_u = shift::left_u64; shr_u = shift::right_u64;
        shl_i = shift::left_i64; shr_i = shift::right_i64;
        rotl = rotate::left_u64; rotr = rotate::right_u64;
    }
    n128 u128 u128 i128 i128 {
        shl_u = shift::left_u128; shr_u = shift::right_u128;
        shl_i = shift::left_i128; shr_i = shift::right_i128;
        rotl = rotate::left_u128; rotr = rotate::right_u128;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Add,
    Sub,
    Mul,
}
impl Kind {
    fn exact(self, a: &Args) -> Z {
        let (a, b) = (a[0].z(), a[1].z());
        match self {
            Kind::Add => a.add(b),
            Kind::Sub => a.sub(b),
            Kind::Mul => a.mul(b),
        }
    }
    fn pair(self, t: &mut Tape, ta: &Ty, tb: &Ty) -> Args {
        let (a, b) = match self {
            Kind::Mul => gen::mul_pair(t, ta, tb),
            _ => gen::pair(t, ta, tb),
        };
        zs([a, b])
    }
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Addition, subtraction and multiplication: the second operand is as wide as
/// the first, or of `other` bits.
fn sums(out: &mut Vec<Spec>, kind: Kind, suffix: String, other: Option<Ty>) {
    let name = ["add", "sub", "mul"][kind as usize];
    let g = move |t: &mut Tape, ty: &Ty| kind.pair(t, ty, other.as_ref().unwrap_or(ty));
    out.push(spec(leak(format!("{name}_w{suffix}")), g, move |t, a| mode::wrapping(t, kind.exact(a))));
    out.push(spec(leak(format!("{name}_o{suffix}")), g, move |t, a| mode::overflowing(t, kind.exact(a))));
}

fn shifted(t: &mut Tape, ty: &Ty) -> Args {
    let a = gen::val(t, ty);
    zs([a, Z::from_u128(gen::shift_in(t, ty.bits) as u128)])
}
fn rotated(t: &mut Tape, ty: &Ty) -> Args {
    let a = gen::val(t, ty);
    zs([a, Z::from_u128(gen::shift(t, ty.bits) as u128)])
}
fn distance(a: &Args) -> u32 {
    a[1].z().u32()
}
fn rotate(t: &Ty, a: &Args, left: bool) -> R {
    let k = distance(a) % t.bits;
    let k = if left { k } else { (t.bits - k) % t.bits };
    let a = a[0].z();
    R::Z(t.wrap(&a.shl(k)).add(&a.shr(t.bits - k)))
}

/// Some operand needs more than one limb of 32 bits, or the call overflows.
fn over32(_: &Ty, a: &Args, e: &R) -> bool {
    e.exceptional() || a.iter().any(|x| x.z().bits() > 32)
}

fn rule(limb: u32) -> fn(&Ty, &Args, &R) -> bool {
    if limb == 32 {
        over32
    } else {
        default_rule
    }
}

/// The plain routines on two arrays of one length, on an array and a scalar,
/// and on arrays of two lengths.
fn specs(limb: u32, pairs: &[(u32, u32)]) -> Vec<Spec> {
    let mut v = Vec::new();
    for kind in [Kind::Add, Kind::Sub, Kind::Mul] {
        sums(&mut v, kind, "u".into(), None);
        sums(&mut v, kind, "i".into(), None);
        sums(&mut v, kind, "l".into(), Some(Ty::u(limb)));
        sums(&mut v, kind, "w".into(), Some(Ty::u(2 * limb)));
        sums(&mut v, kind, "ul".into(), Some(Ty::u(limb)));
        sums(&mut v, kind, "il".into(), Some(Ty::s(limb)));
        sums(&mut v, kind, "uw".into(), Some(Ty::u(2 * limb)));
        sums(&mut v, kind, "iw".into(), Some(Ty::s(2 * limb)));
        for (_, n) in pairs {
            sums(&mut v, kind, format!("mn{n}"), Some(Ty::u(n * limb)));
        }
    }
    v.push(spec("widening", |t, ty| Kind::Mul.pair(t, ty, ty), |t, a| {
        let z = Kind::Mul.exact(a);
        R::T(vec![R::Z(t.wrap(&z)), R::Z(z.shr(t.bits))])
    }));
    v.push(spec("shl_u", shifted, |t, a| mode::wrapping(t, a[0].z().shl(distance(a)))));
    v.push(spec("shl_i", shifted, |t, a| mode::wrapping(t, a[0].z().shl(distance(a)))));
    v.push(spec("shr_u", shifted, |_, a| R::Z(a[0].z().shr(distance(a)))));
    v.push(spec("shr_i", shifted, |_, a| R::Z(a[0].z().divfloor(&Z::pow2(distance(a))).0)));
    v.push(spec("rotl", rotated, |t, a| rotate(t, a, true)));
    v.push(spec("rotr", rotated, |t, a| rotate(t, a, false)));
    for s in &mut v {
        s.name = leak(format!("u{limb}_{}", s.name));
        s.nontrivial = rule(limb);
    }
    v
}

/// Call `$m!` for every size of limb and length of array.
macro_rules! lengths {
    ($m:ident: $($limb:ident $bits:literal [$($n:literal)*])*) => {
        $($( $m!($limb $bits $n); )*)*
    };
}
macro_rules! pairs {
    ($m:ident: $($limb:ident $bits:literal [$($a:literal $b:literal),*])*) => {
        $($( $m!($limb $bits $a $b); )*)*
    };
}

pub fn ops(out: &mut Vec<Op>) {
    const PAIRS: &[(u32, u32)] = &[
        (3, 2), (4, 2), (4, 3), (5, 2), (5, 4), (7, 3), (8, 4), (9, 5), (16, 8), (17, 16),
        (2, 1), (3, 1), (7, 7),
    ];
    let mut named: Vec<Spec> = Vec::new();
    for limb in [32, 64, 128] {
        named.extend(specs(limb, PAIRS));
    }
    // A specification belongs to one size of limb: prefix the call's name too.
    let mut put = |bits: u32, ty: Ty, acts: &[Act]| {
        let acts: Vec<Act> = acts
            .iter()
            .map(|(n, f, b, s)| (leak(format!("u{bits}_{n}")), *f, *b, *s))
            .collect();
        join(out, &named, ty, &acts);
    };

    macro_rules! unsigned_same_add {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::u($bits * $n), acts! {
                "add_wu"(a: [$m::u; $n], b: [$m::u; $n]) u($m::add_wu(&a, &b));
                "add_ou"(a: [$m::u; $n], b: [$m::u; $n]) u($m::add_ou(&a, &b));
                "sub_wu"(a: [$m::u; $n], b: [$m::u; $n]) u($m::sub_wu(&a, &b));
                "sub_ou"(a: [$m::u; $n], b: [$m::u; $n]) u($m::sub_ou(&a, &b));
                "add_wl"(a: [$m::u; $n], b: $m::u) u($m::add_wl(&a, b));
                "add_ol"(a: [$m::u; $n], b: $m::u) u($m::add_ol(&a, b));
                "sub_wl"(a: [$m::u; $n], b: $m::u) u($m::sub_wl(&a, b));
                "sub_ol"(a: [$m::u; $n], b: $m::u) u($m::sub_ol(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-add")]
    lengths!(unsigned_same_add: n32 32 [2 3 4 5 6 7 9 12 17] n64 64 [2 3 5 7 9 12 17]);

    macro_rules! unsigned_same_mul {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::u($bits * $n), acts! {
                "mul_wu"(a: [$m::u; $n], b: [$m::u; $n]) u($m::mul_wu(&a, &b));
                "mul_ou"(a: [$m::u; $n], b: [$m::u; $n]) u($m::mul_ou(&a, &b));
                "widening"(a: [$m::u; $n], b: [$m::u; $n]) {
                    let (lo, hi) = $m::widening(&a, &b);
                    vec![u(lo), u(hi)]
                };
                "mul_wl"(a: [$m::u; $n], b: $m::u) u($m::mul_wl(&a, b));
                "mul_ol"(a: [$m::u; $n], b: $m::u) u($m::mul_ol(&a, b));
                "mul_ww"(a: [$m::u; $n], b: $m::uw) u($m::mul_ww(&a, b));
                "mul_ow"(a: [$m::u; $n], b: $m::uw) u($m::mul_ow(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-mul")]
    lengths!(unsigned_same_mul: n32 32 [2 3 4 5 6 7 9 12 17] n64 64 [2 3 5 7 9 12 17]);

    // An addend of two limbs goes with at least three.
    macro_rules! unsigned_wide {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::u($bits * $n), acts! {
                "add_ww"(a: [$m::u; $n], b: $m::uw) u($m::add_ww(&a, b));
                "add_ow"(a: [$m::u; $n], b: $m::uw) u($m::add_ow(&a, b));
                "sub_ww"(a: [$m::u; $n], b: $m::uw) u($m::sub_ww(&a, b));
                "sub_ow"(a: [$m::u; $n], b: $m::uw) u($m::sub_ow(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-add")]
    lengths!(unsigned_wide: n32 32 [3 4 5 6 7 9 12 17] n64 64 [3 5 7 9 12 17]);

    macro_rules! signed_same_add {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::s($bits * $n), acts! {
                "add_wi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::add_wi(&a, &b));
                "add_oi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::add_oi(&a, &b));
                "sub_wi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::sub_wi(&a, &b));
                "sub_oi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::sub_oi(&a, &b));
                "add_wul"(a: [$m::u; $n], b: $m::u) s($m::add_wul(&a, b));
                "add_oul"(a: [$m::u; $n], b: $m::u) s($m::add_oul(&a, b));
                "sub_wul"(a: [$m::u; $n], b: $m::u) s($m::sub_wul(&a, b));
                "sub_oul"(a: [$m::u; $n], b: $m::u) s($m::sub_oul(&a, b));
                "add_wil"(a: [$m::u; $n], b: $m::s) s($m::add_wil(&a, b));
                "add_oil"(a: [$m::u; $n], b: $m::s) s($m::add_oil(&a, b));
                "sub_wil"(a: [$m::u; $n], b: $m::s) s($m::sub_wil(&a, b));
                "sub_oil"(a: [$m::u; $n], b: $m::s) s($m::sub_oil(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-add")]
    lengths!(signed_same_add: n32 32 [2 3 4 5 6 7 9 12 17] n64 64 [2 3 5 7 9 12 17]);

    macro_rules! signed_same_mul {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::s($bits * $n), acts! {
                "mul_wi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::mul_wi(&a, &b));
                "mul_oi"(a: [$m::u; $n], b: [$m::u; $n]) s($m::mul_oi(&a, &b));
                "mul_wul"(a: [$m::u; $n], b: $m::u) s($m::mul_wul(&a, b));
                "mul_oul"(a: [$m::u; $n], b: $m::u) s($m::mul_oul(&a, b));
                "mul_wil"(a: [$m::u; $n], b: $m::s) s($m::mul_wil(&a, b));
                "mul_oil"(a: [$m::u; $n], b: $m::s) s($m::mul_oil(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-mul")]
    lengths!(signed_same_mul: n32 32 [2 3 4 5 6 7 9 12 17] n64 64 [2 3 5 7 9 12 17]);

    // An unsigned addend of two limbs has a value only in three or more.
    macro_rules! signed_wide_add {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::s($bits * $n), acts! {
                "add_wuw"(a: [$m::u; $n], b: $m::uw) s($m::add_wuw(&a, b));
                "add_ouw"(a: [$m::u; $n], b: $m::uw) s($m::add_ouw(&a, b));
                "sub_wuw"(a: [$m::u; $n], b: $m::uw) s($m::sub_wuw(&a, b));
                "sub_ouw"(a: [$m::u; $n], b: $m::uw) s($m::sub_ouw(&a, b));
                "add_wiw"(a: [$m::u; $n], b: $m::sw) s($m::add_wiw(&a, b));
                "add_oiw"(a: [$m::u; $n], b: $m::sw) s($m::add_oiw(&a, b));
                "sub_wiw"(a: [$m::u; $n], b: $m::sw) s($m::sub_wiw(&a, b));
                "sub_oiw"(a: [$m::u; $n], b: $m::sw) s($m::sub_oiw(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-add")]
    lengths!(signed_wide_add: n32 32 [3 4 5 6 7 9 12 17] n64 64 [3 5 7 9 12 17]);

    macro_rules! signed_wide_mul {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::s($bits * $n), acts! {
                "mul_wuw"(a: [$m::u; $n], b: $m::uw) s($m::mul_wuw(&a, b));
                "mul_ouw"(a: [$m::u; $n], b: $m::uw) s($m::mul_ouw(&a, b));
                "mul_wiw"(a: [$m::u; $n], b: $m::sw) s($m::mul_wiw(&a, b));
                "mul_oiw"(a: [$m::u; $n], b: $m::sw) s($m::mul_oiw(&a, b));
            });
        };
    }
    #[cfg(feature = "p18-mul")]
    lengths!(signed_wide_mul: n32 32 [3 4 5 6 7 9 12 17] n64 64 [3 5 7 9 12 17]);

    macro_rules! shifts {
        ($m:ident $bits:literal $n:literal) => {
            put($bits, Ty::u($bits * $n), acts! {
                "shl_u"(a: [$m::u; $n], k: u32) u($m::shl_u(a, k));
                "shr_u"(a: [$m::u; $n], k: u32) u($m::shr_u(a, k));
                "rotl"(a: [$m::u; $n], k: u32) u($m::rotl(a, k));
                "rotr"(a: [$m::u; $n], k: u32) u($m::rotr(a, k));
            });
            put($bits, Ty::s($bits * $n), acts! {
                "shl_i"(a: [$m::u; $n], k: u32) s($m::shl_i(a, k));
                "shr_i"(a: [$m::u; $n], k: u32) s($m::shr_i(a, k));
            });
        };
    }
    #[cfg(feature = "p18-shift")]
    lengths!(shifts: n32 32 [2 3 4 5 7 9 16 17] n64 64 [2 3 5 7 9 12 17] n128 128 [2 3 5 6 7 9]);

    macro_rules! sums_mn {
        ($m:ident $bits:literal $a:literal $b:literal) => {
            let acts: &[Act] = acts! {
                "add_wmn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::add_wmn(&a, &b));
                "add_omn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::add_omn(&a, &b));
                "sub_wmn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::sub_wmn(&a, &b));
                "sub_omn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::sub_omn(&a, &b));
            };
            let acts: Vec<Act> =
                acts.iter().map(|(n, f, b, s)| (leak(format!("{n}{}", $b)), *f, *b, *s)).collect();
            put($bits, Ty::u($bits * $a), &acts);
        };
    }
    #[cfg(feature = "p18-add")]
    pairs!(sums_mn:
        n32 32 [3 2, 4 2, 4 3, 5 2, 5 4, 7 3, 8 4, 9 5, 16 8, 17 16]
        n64 64 [3 2, 4 2, 4 3, 5 2, 5 4, 7 3, 8 4, 9 5, 17 16]);
    macro_rules! mul_mn {
        ($m:ident $bits:literal $a:literal $b:literal) => {
            let acts: &[Act] = acts! {
                "mul_wmn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::mul_wu(&a, &b));
                "mul_omn"(a: [$m::u; $a], b: [$m::u; $b]) u($m::mul_ou(&a, &b));
            };
            let acts: Vec<Act> =
                acts.iter().map(|(n, f, b, s)| (leak(format!("{n}{}", $b)), *f, *b, *s)).collect();
            put($bits, Ty::u($bits * $a), &acts);
        };
    }
    #[cfg(feature = "p18-mul")]
    pairs!(mul_mn:
        n32 32 [2 1, 3 1, 3 2, 4 2, 4 3, 5 2, 5 4, 7 3, 8 4, 9 5, 16 8, 17 16]
        n64 64 [2 1, 3 1, 3 2, 4 2, 4 3, 5 2, 5 4, 7 3, 8 4, 9 5, 17 16]);
    #[cfg(feature = "p18-div")]
    division(out);
    #[cfg(feature = "p18-digit")]
    digits(out);
    #[cfg(feature = "p18-limb")]
    of_the_configuration(out);
}

/// The routines for the limbs of the configuration, which forward to one size.
#[cfg(feature = "p18-limb")]
fn of_the_configuration(out: &mut Vec<Op>) {
    use i256::{ILimb, IWide, ULimb, UWide};
    const LIMB: u32 = ULimb::BITS;
    // Shifts work on double limbs.
    let mut named = specs(LIMB, &[(0, 2)]);
    let prefix = format!("u{LIMB}_");
    let mut more = Vec::new();
    for kind in [Kind::Add, Kind::Sub, Kind::Mul] {
        sums(&mut more, kind, "u64".into(), Some(Ty::u(64)));
        sums(&mut more, kind, "i64".into(), Some(Ty::s(64)));
    }
    named.extend(more.into_iter().map(|s| s.rule(rule(LIMB))));
    for s in &mut named {
        s.name = leak(format!("limb_{}", s.name.strip_prefix(&prefix[..]).unwrap_or(s.name)));
    }
    let mut put = |ty: Ty, acts: &[Act]| {
        let acts: Vec<Act> = acts.iter().map(|(n, f, b, s)| (leak(format!("limb_{n}")), *f, *b, *s)).collect();
        join(out, &named, ty, &acts);
    };
    macro_rules! arrays {
        ($($n:literal)*) => {$(
            put(Ty::u(LIMB * $n), acts! {
                "add_wu"(a: [ULimb; $n], b: [ULimb; $n]) u(math::add::wrapping_unsigned(&a, &b));
                "add_wl"(a: [ULimb; $n], b: ULimb) u(math::add::wrapping_limb(&a, b));
                "add_ww"(a: [ULimb; $n], b: UWide) u(math::add::wrapping_wide(&a, b));
                "add_wu64"(a: [ULimb; $n], b: u64) u(math::add::wrapping_scalar_u64(&a, b));
                "add_ou"(a: [ULimb; $n], b: [ULimb; $n]) u(math::add::overflowing_unsigned(&a, &b));
                "add_ol"(a: [ULimb; $n], b: ULimb) u(math::add::overflowing_limb(&a, b));
                "add_ow"(a: [ULimb; $n], b: UWide) u(math::add::overflowing_wide(&a, b));
                "add_ou64"(a: [ULimb; $n], b: u64) u(math::add::overflowing_scalar_u64(&a, b));
                "sub_wu"(a: [ULimb; $n], b: [ULimb; $n]) u(math::sub::wrapping_unsigned(&a, &b));
                "sub_wl"(a: [ULimb; $n], b: ULimb) u(math::sub::wrapping_limb(&a, b));
                "sub_ww"(a: [ULimb; $n], b: UWide) u(math::sub::wrapping_wide(&a, b));
                "sub_wu64"(a: [ULimb; $n], b: u64) u(math::sub::wrapping_scalar_u64(&a, b));
                "sub_ou"(a: [ULimb; $n], b: [ULimb; $n]) u(math::sub::overflowing_unsigned(&a, &b));
                "sub_ol"(a: [ULimb; $n], b: ULimb) u(math::sub::overflowing_limb(&a, b));
                "sub_ow"(a: [ULimb; $n], b: UWide) u(math::sub::overflowing_wide(&a, b));
                "sub_ou64"(a: [ULimb; $n], b: u64) u(math::sub::overflowing_scalar_u64(&a, b));
                "mul_wu"(a: [ULimb; $n], b: [ULimb; $n]) u(math::mul::wrapping_unsigned(&a, &b));
                "mul_wl"(a: [ULimb; $n], b: ULimb) u(math::mul::wrapping_limb(&a, b));
                "mul_ww"(a: [ULimb; $n], b: UWide) u(math::mul::wrapping_wide(&a, b));
                "mul_wu64"(a: [ULimb; $n], b: u64) u(math::mul::wrapping_scalar_u64(&a, b));
                "mul_ou"(a: [ULimb; $n], b: [ULimb; $n]) u(math::mul::overflowing_unsigned(&a, &b));
                "mul_ol"(a: [ULimb; $n], b: ULimb) u(math::mul::overflowing_limb(&a, b));
                "mul_ow"(a: [ULimb; $n], b: UWide) u(math::mul::overflowing_wide(&a, b));
                "mul_ou64"(a: [ULimb; $n], b: u64) u(math::mul::overflowing_scalar_u64(&a, b));
                "widening"(a: [ULimb; $n], b: [ULimb; $n]) {
                    let (lo, hi) = math::mul::widening(&a, &b);
                    vec![u(lo), u(hi)]
                };
                "add_wmn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::add::wrapping_mn(&a, &b));
                "add_omn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::add::overflowing_mn(&a, &b));
                "sub_wmn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::sub::wrapping_mn(&a, &b));
                "sub_omn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::sub::overflowing_mn(&a, &b));
                "mul_wmn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::mul::wrapping_unsigned(&a, &b));
                "mul_omn2"(a: [ULimb; $n], b: [ULimb; 2]) u(math::mul::overflowing_unsigned(&a, &b));
            });
            put(Ty::s(LIMB * $n), acts! {
                "add_wi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::add::wrapping_signed(&a, &b));
                "add_wul"(a: [ULimb; $n], b: ULimb) s(math::add::wrapping_ulimb(&a, b));
                "add_wil"(a: [ULimb; $n], b: ILimb) s(math::add::wrapping_ilimb(&a, b));
                "add_wuw"(a: [ULimb; $n], b: UWide) s(math::add::wrapping_uwide(&a, b));
                "add_wiw"(a: [ULimb; $n], b: IWide) s(math::add::wrapping_iwide(&a, b));
                "add_wu64"(a: [ULimb; $n], b: u64) s(math::add::wrapping_uscalar_i64(&a, b));
                "add_wi64"(a: [ULimb; $n], b: i64) s(math::add::wrapping_iscalar_i64(&a, b));
                "add_oi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::add::overflowing_signed(&a, &b));
                "add_oul"(a: [ULimb; $n], b: ULimb) s(math::add::overflowing_ulimb(&a, b));
                "add_oil"(a: [ULimb; $n], b: ILimb) s(math::add::overflowing_ilimb(&a, b));
                "add_ouw"(a: [ULimb; $n], b: UWide) s(math::add::overflowing_uwide(&a, b));
                "add_oiw"(a: [ULimb; $n], b: IWide) s(math::add::overflowing_iwide(&a, b));
                "add_ou64"(a: [ULimb; $n], b: u64) s(math::add::overflowing_uscalar_i64(&a, b));
                "add_oi64"(a: [ULimb; $n], b: i64) s(math::add::overflowing_iscalar_i64(&a, b));
                "sub_wi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::sub::wrapping_signed(&a, &b));
                "sub_wul"(a: [ULimb; $n], b: ULimb) s(math::sub::wrapping_ulimb(&a, b));
                "sub_wil"(a: [ULimb; $n], b: ILimb) s(math::sub::wrapping_ilimb(&a, b));
                "sub_wuw"(a: [ULimb; $n], b: UWide) s(math::sub::wrapping_uwide(&a, b));
                "sub_wiw"(a: [ULimb; $n], b: IWide) s(math::sub::wrapping_iwide(&a, b));
                "sub_wu64"(a: [ULimb; $n], b: u64) s(math::sub::wrapping_uscalar_i64(&a, b));
                "sub_wi64"(a: [ULimb; $n], b: i64) s(math::sub::wrapping_iscalar_i64(&a, b));
                "sub_oi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::sub::overflowing_signed(&a, &b));
                "sub_oul"(a: [ULimb; $n], b: ULimb) s(math::sub::overflowing_ulimb(&a, b));
                "sub_oil"(a: [ULimb; $n], b: ILimb) s(math::sub::overflowing_ilimb(&a, b));
                "sub_ouw"(a: [ULimb; $n], b: UWide) s(math::sub::overflowing_uwide(&a, b));
                "sub_oiw"(a: [ULimb; $n], b: IWide) s(math::sub::overflowing_iwide(&a, b));
                "sub_ou64"(a: [ULimb; $n], b: u64) s(math::sub::overflowing_uscalar_i64(&a, b));
                "sub_oi64"(a: [ULimb; $n], b: i64) s(math::sub::overflowing_iscalar_i64(&a, b));
                "mul_wi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::mul::wrapping_signed(&a, &b));
                "mul_wul"(a: [ULimb; $n], b: ULimb) s(math::mul::wrapping_ulimb(&a, b));
                "mul_wil"(a: [ULimb; $n], b: ILimb) s(math::mul::wrapping_ilimb(&a, b));
                "mul_wuw"(a: [ULimb; $n], b: UWide) s(math::mul::wrapping_uwide(&a, b));
                "mul_wiw"(a: [ULimb; $n], b: IWide) s(math::mul::wrapping_iwide(&a, b));
                "mul_wu64"(a: [ULimb; $n], b: u64) s(math::mul::wrapping_uscalar_i64(&a, b));
                "mul_wi64"(a: [ULimb; $n], b: i64) s(math::mul::wrapping_iscalar_i64(&a, b));
                "mul_oi"(a: [ULimb; $n], b: [ULimb; $n]) s(math::mul::overflowing_signed(&a, &b));
                "mul_oul"(a: [ULimb; $n], b: ULimb) s(math::mul::overflowing_ulimb(&a, b));
                "mul_oil"(a: [ULimb; $n], b: ILimb) s(math::mul::overflowing_ilimb(&a, b));
                "mul_ouw"(a: [ULimb; $n], b: UWide) s(math::mul::overflowing_uwide(&a, b));
                "mul_oiw"(a: [ULimb; $n], b: IWide) s(math::mul::overflowing_iwide(&a, b));
                "mul_ou64"(a: [ULimb; $n], b: u64) s(math::mul::overflowing_uscalar_i64(&a, b));
                "mul_oi64"(a: [ULimb; $n], b: i64) s(math::mul::overflowing_iscalar_i64(&a, b));
            });
            put(Ty::u(2 * LIMB * $n), acts! {
                "shl_u"(a: [UWide; $n], k: u32) u(math::shift::left_uwide(a, k));
                "shr_u"(a: [UWide; $n], k: u32) u(math::shift::right_uwide(a, k));
                "rotl"(a: [UWide; $n], k: u32) u(math::rotate::left_wide(a, k));
                "rotr"(a: [UWide; $n], k: u32) u(math::rotate::right_wide(a, k));
            });
            put(Ty::s(2 * LIMB * $n), acts! {
                "shl_i"(a: [UWide; $n], k: u32) s(math::shift::left_iwide(a, k));
                "shr_i"(a: [UWide; $n], k: u32) s(math::shift::right_iwide(a, k));
            });
        )*};
    }
    arrays!(3 5 9);
}

/// Division, whose limbs are those of the configuration.
#[cfg(feature = "p18-div")]
fn division(out: &mut Vec<Op>) {
    use i256::{ULimb, UWide};
    const LIMB: u32 = ULimb::BITS;
    macro_rules! full {
        ($($m:literal: $($n:literal)*;)*) => {$($(
            let specs = [
                spec(concat!("div_full_", $n), |t, ty| {
                    let (a, b) = gen::div_pair(t, ty, &Ty::u(LIMB * $n));
                    zs([a, b])
                }, |t, a| expect(t, trunc(a), Part::QR, Form::Strict)).weight(300),
                spec(concat!("cmp_", $n), |t, ty| {
                    let (a, b) = gen::pair(t, ty, &Ty::u(LIMB * $n));
                    zs([a, b])
                }, |_, a| a[0].z().cmp(a[1].z()).r()),
                spec(concat!("cmp_rev_", $n), |t, ty| {
                    let (a, b) = gen::pair(t, ty, &Ty::u(LIMB * $n));
                    zs([a, b])
                }, |_, a| a[1].z().cmp(a[0].z()).r()),
            ];
            let specs = specs.map(|s| s.rule(rule(LIMB)));
            join(out, &specs, Ty::u(LIMB * $m), &[
                (concat!("div_full_", $n), (|args: &Args| {
                    let a = <[ULimb; $m]>::fa(&args[0]);
                    let b = <[ULimb; $n]>::fa(&args[1]);
                    let (q, r) = math::div::full(&a, &b);
                    vec![u(q), u(r)].r()
                }) as ActFn, &[None, None], UNWRITTEN),
                (concat!("cmp_", $n), (|args: &Args| {
                    let a = <[ULimb; $m]>::fa(&args[0]);
                    let b = <[ULimb; $n]>::fa(&args[1]);
                    math::div::cmp(&a, &b).r()
                }) as ActFn, &[None, None], UNWRITTEN),
                (concat!("cmp_rev_", $n), (|args: &Args| {
                    let a = <[ULimb; $m]>::fa(&args[0]);
                    let b = <[ULimb; $n]>::fa(&args[1]);
                    math::div::cmp(&b, &a).r()
                }) as ActFn, &[None, None], UNWRITTEN),
            ]);
        )*)*};
    }
    full! {
        2: 1 2;
        3: 1 2 3;
        4: 2 3;
        5: 1 2 3 4 5;
        6: 4;
        7: 2 4 5 7;
        9: 3 6 9;
        12: 5 11;
        17: 2 8 16 17;
    }
    let g = |bits: u32| {
        move |t: &mut Tape, ty: &Ty| {
            let (a, b) = gen::div_pair(t, ty, &Ty::u(bits));
            zs([a, b])
        }
    };
    let specs = [
        spec("div_limb", g(LIMB), |t, a| expect(t, trunc(a), Part::QR, Form::Strict)).weight(200),
        spec("div_wide", g(2 * LIMB), |t, a| expect(t, trunc(a), Part::QR, Form::Strict)).weight(200),
    ]
    .map(|s| s.rule(rule(LIMB)));
    macro_rules! scalar {
        ($($n:literal)*) => {$(
            join(out, &specs, Ty::u(LIMB * $n), acts! {
                "div_limb"(a: [ULimb; $n], b: ULimb) {
                    let (q, r) = math::div::limb(&a, b);
                    vec![u(q), r.r()]
                };
                "div_wide"(a: [ULimb; $n], b: UWide) {
                    let (q, r) = math::div::wide(&a, b);
                    vec![u(q), r.r()]
                };
            });
        )*};
    }
    scalar!(2 3 5 7 9 12 17);
    #[cfg(feature = "limb32")]
    {
        let specs =
            [spec("div_u128", g(128), |t, a| expect(t, trunc(a), Part::QR, Form::Strict)).weight(300)];
        macro_rules! scalar {
            ($($n:literal)*) => {$(
                join(out, &specs, Ty::u(LIMB * $n), acts! {
                    "div_u128"(a: [ULimb; $n], b: u128) {
                        let (q, r) = math::div::from_u128(&a, b);
                        vec![u(q), r.r()]
                    };
                });
            )*};
        }
        scalar!(4 5 6 7 9 17);
    }
}

/// Single digits with carries.
#[cfg(feature = "p18-digit")]
fn digits(out: &mut Vec<Op>) {
    fn carry(t: &mut Tape, ty: &Ty) -> Args {
        let (a, b) = gen::pair(t, ty, ty);
        zs([a, b, Z::i(t.below(2) as i64)])
    }
    fn many<const N: usize>(t: &mut Tape, ty: &Ty) -> Args {
        (0..N).map(|_| Arg::Z(gen::val(t, ty))).collect()
    }
    fn split(t: &Ty, z: Z) -> R {
        R::T(vec![R::Z(t.wrap(&z)), R::Z(z.shr(t.bits))])
    }
    let any = |_: &Ty, _: &Args, _: &R| true;
    let specs = [
        spec("carrying_add", carry, |t, a| mode::overflowing(t, Kind::Add.exact(a).add(a[2].z()))).rule(any),
        spec("borrowing_sub", carry, |t, a| mode::overflowing(t, Kind::Sub.exact(a).sub(a[2].z()))).rule(any),
        spec("carrying_mul", many::<3>, |t, a| split(t, Kind::Mul.exact(a).add(a[2].z()))).rule(any),
        spec("mac", many::<4>, |t, a| split(t, a[0].z().add(&a[1].z().mul(a[2].z())).add(a[3].z()))).rule(any),
    ];
    use math::bigint::*;
    macro_rules! unsigned {
        ($t:ident $add:ident $sub:ident $mul:ident $mac:ident) => {
            join(out, &specs, Ty::u($t::BITS), acts! {
                "carrying_add"(a: $t, b: $t, c: bool) $add(a, b, c);
                "borrowing_sub"(a: $t, b: $t, c: bool) $sub(a, b, c);
                "carrying_mul"(a: $t, b: $t, c: $t) $mul(a, b, c);
                "mac"(a: $t, b: $t, c: $t, d: $t) $mac(a, b, c, d);
            });
        };
    }
    unsigned!(u32 carrying_add_u32 borrowing_sub_u32 carrying_mul_u32 mac_u32);
    unsigned!(u64 carrying_add_u64 borrowing_sub_u64 carrying_mul_u64 mac_u64);
    macro_rules! signed {
        ($t:ident $add:ident $sub:ident) => {
            join(out, &specs, Ty::s($t::BITS), acts! {
                "carrying_add"(a: $t, b: $t, c: bool) $add(a, b, c);
                "borrowing_sub"(a: $t, b: $t, c: bool) $sub(a, b, c);
            });
        };
    }
    signed!(i32 carrying_add_i32 borrowing_sub_i32);
    signed!(i64 carrying_add_i64 borrowing_sub_i64);
}
