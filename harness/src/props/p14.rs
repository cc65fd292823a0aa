//! The num-traits interface.

use super::*;
use crate::oracle::*;
use num_traits::ops::bytes::{FromBytes, ToBytes};
use num_traits::ops::euclid::{CheckedEuclid, Euclid};
use num_traits::*;

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b])
}
fn g_mul(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    zs([a, b])
}
fn g_div(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::div_pair(t, ty, ty);
    zs([a, b])
}
fn g_shift(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty), Z::i(gen::shift(t, ty.bits) as i64)])
}
/// Factors and a term that brings the sum to the edge.
fn g_mul_add(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    let p = a.mul(&b);
    let c = match t.below(4) {
        0 => ty.max().sub(&p).addi(t.offset(1)),
        1 => ty.min().sub(&p).addi(t.offset(1)),
        _ => gen::val(t, ty),
    };
    zs([a, b, ty.wrap(&c)])
}
fn g_unit(t: &mut Tape, ty: &Ty) -> Args {
    zs([match t.below(4) {
        0 => Z::zero(),
        1 => Z::i(1),
        2 => ty.wrap(&Z::pow2(t.below(ty.bits as u64) as u32)),
        _ => gen::val(t, ty),
    }])
}
fn g_of(p: Ty) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, _| zs([gen::val(t, &p)])
}
fn g_near(p: Ty) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let z = match t.below(8) {
            0 | 1 => gen::val(t, &p),
            2 => p.max().addi(t.offset(2)),
            3 => p.min().addi(t.offset(2)),
            4 => gen::val(t, ty).shl(p.bits).add(&gen::val(t, &p)),
            _ => gen::val(t, ty),
        };
        zs([ty.wrap(&z)])
    }
}
fn g_text(t: &mut Tape, ty: &Ty) -> Args {
    let radix = 2 + t.below(35) as u32;
    let z = match t.below(4) {
        0 => ty.max().addi(t.offset(2)),
        1 => ty.min().addi(t.offset(2)),
        _ => gen::val(t, ty),
    };
    let mut s = z.radix(radix);
    if t.chance(8) {
        s.push('!');
    }
    vec![Arg::S(s), Arg::Z(Z::i(radix as i64))]
}
/// Counts as non-trivial: anything but a tiny non-negative value.
fn rule(_: &Ty, a: &Args, e: &R) -> bool {
    let z = a[0].z();
    e.exceptional() || z.neg || z.bits() > 6
}

fn kept(_: &Ty, a: &Args) -> R {
    R::Z(a[0].z().clone())
}
fn some_if(t: &Ty, a: &Args) -> R {
    mode::checked(t, a[0].z().clone())
}
fn bits(t: &Ty, a: &Args) -> Vec<bool> {
    t.bitvec(a[0].z())
}
fn num(n: usize) -> R {
    R::Z(Z::i(n as i64))
}
fn lead(b: &[bool], x: bool) -> R {
    num(b.iter().rev().take_while(|y| **y == x).count())
}
fn trail(b: &[bool], x: bool) -> R {
    num(b.iter().take_while(|y| **y == x).count())
}
fn perm(t: &Ty, a: &Args, f: impl Fn(usize, usize) -> usize) -> R {
    let b = bits(t, a);
    R::Z(t.from_bitvec(&(0..b.len()).map(|i| b[f(i, b.len())]).collect::<Vec<_>>()))
}
fn swapped(t: &Ty, a: &Args) -> R {
    perm(t, a, |i, n| (n / 8 - 1 - i / 8) * 8 + i % 8)
}
fn byte_order(t: &Ty, a: &Args, big: bool) -> R {
    if big == big_endian() {
        kept(t, a)
    } else {
        swapped(t, a)
    }
}
/// A shift by a plain operator, on the value read as the given sign.
fn shift(t: &Ty, a: &Args, signed: bool, left: bool) -> R {
    let k = a[1].z().u32();
    if k >= t.bits && OVF {
        return R::Panic;
    }
    let as_ty = if signed { Ty::s(t.bits) } else { Ty::u(t.bits) };
    let x = as_ty.wrap(a[0].z());
    let k = k % t.bits;
    R::Z(t.wrap(&if left { x.shl(k) } else { x.shr(k) }))
}
fn bytes(t: &Ty, a: &Args, big: bool) -> R {
    let mut b = a[0].z().to_le(t.bits as usize / 8);
    if big {
        b.reverse();
    }
    R::T(b.into_iter().map(|x| R::Z(Z::i(x as i64))).collect())
}
/// Plain multiplication followed by plain addition.
fn mul_add(t: &Ty, a: &Args) -> R {
    match mode::plain(t, a[0].z().mul(a[1].z())) {
        R::Z(p) => mode::plain(t, p.add(a[2].z())),
        r => r,
    }
}
fn plain_pow(t: &Ty, a: &Args) -> R {
    let p = crate::oracle::pow(t, a[0].z(), a[1].z().u32());
    if OVF {
        pow_strict(p)
    } else {
        R::Z(p.0)
    }
}

pub fn ops(out: &mut Vec<Op>) {
    use mode::*;
    let add = |a: &Args| a[0].z().add(a[1].z());
    let sub = |a: &Args| a[0].z().sub(a[1].z());
    let mul = |a: &Args| a[0].z().mul(a[1].z());
    let specs = [
        spec("SaturatingAdd", g2, move |t, a| saturating(t, add(a))),
        spec("SaturatingSub", g2, move |t, a| saturating(t, sub(a))),
        spec("SaturatingMul", g_mul, move |t, a| saturating(t, mul(a))),
        spec("Saturating_add", g2, move |t, a| saturating(t, add(a))),
        spec("Saturating_sub", g2, move |t, a| saturating(t, sub(a))),
        spec("WrappingAdd", g2, move |t, a| wrapping(t, add(a))),
        spec("WrappingSub", g2, move |t, a| wrapping(t, sub(a))),
        spec("WrappingMul", g_mul, move |t, a| wrapping(t, mul(a))),
        spec("WrappingNeg", g1, |t, a| wrapping(t, a[0].z().neg())),
        spec("CheckedAdd", g2, move |t, a| checked(t, add(a))),
        spec("CheckedSub", g2, move |t, a| checked(t, sub(a))),
        spec("CheckedMul", g_mul, move |t, a| checked(t, mul(a))),
        spec("CheckedNeg", g1, |t, a| checked(t, a[0].z().neg())),
        spec("CheckedDiv", g_div, |t, a| expect(t, trunc(a), Part::Q, Form::Checked)),
        spec("CheckedRem", g_div, |t, a| expect(t, trunc(a), Part::R, Form::Checked)),
        spec("Euclid_div", g_div, |t, a| expect(t, euclid(a), Part::Q, Form::Strict)),
        spec("Euclid_rem", g_div, |t, a| expect(t, euclid(a), Part::R, Form::Strict)),
        spec("CheckedEuclid_div", g_div, |t, a| expect(t, euclid(a), Part::Q, Form::Checked)),
        spec("CheckedEuclid_rem", g_div, |t, a| expect(t, euclid(a), Part::R, Form::Checked)),
        spec("WrappingShl", g_shift, |t, a| {
            wrapping(t, a[0].z().shl(a[1].z().u32() % t.bits))
        }),
        spec("WrappingShr", g_shift, |t, a| {
            wrapping(t, a[0].z().shr(a[1].z().u32() % t.bits))
        }),
        spec("CheckedShl", g_shift, |t, a| match a[1].z().u32() {
            k if k < t.bits => R::some(wrapping(t, a[0].z().shl(k))),
            _ => R::None,
        }),
        spec("CheckedShr", g_shift, |t, a| match a[1].z().u32() {
            k if k < t.bits => R::some(wrapping(t, a[0].z().shr(k))),
            _ => R::None,
        }),
        spec("MulAdd", g_mul_add, mul_add),
        spec("MulAddAssign", g_mul_add, mul_add),
        spec("Pow", g_pow, plain_pow).weight(60),
        spec("Pow_ref", g_pow, plain_pow).weight(60),
        spec("PrimInt_pow", g_pow, plain_pow).weight(60),
        spec("checked_pow", g_pow, |t, a| {
            match crate::oracle::pow(t, a[0].z(), a[1].z().u32()) {
                (z, true) => R::some(R::Z(z)),
                _ => R::None,
            }
        })
        .weight(60),
        spec("Bounded", g_unit, |t, _| R::T(vec![R::Z(t.min()), R::Z(t.max())])).weight(2),
        spec("Zero_One", g_unit, |_, _| {
            let (o, l) = (R::Z(Z::zero()), R::Z(Z::i(1)));
            R::T(vec![o.clone(), o, l.clone(), l])
        })
        .weight(2),
        spec("is_zero", g_unit, |_, a| R::B(a[0].z().is_zero())),
        spec("is_one", g_unit, |_, a| R::B(*a[0].z() == Z::i(1))),
        spec("from_str_radix", g_text, |t, a| {
            let (s, radix) = (a[0].s(), a[1].z().u32());
            let (neg, digits) = match s.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, s),
            };
            let mut z = Z::zero();
            for c in digits.chars() {
                match c.to_digit(radix) {
                    Some(d) => z = z.muladd_small(radix, d),
                    None => return R::Err,
                }
            }
            let z = if neg { z.neg() } else { z };
            if t.fits(&z) { R::some(R::Z(z)) } else { R::Err }
        }),
        spec("to_be_bytes", g1, |t, a| bytes(t, a, true)),
        spec("to_le_bytes", g1, |t, a| bytes(t, a, false)),
        spec("to_ne_bytes", g1, |t, a| bytes(t, a, big_endian())),
        spec("from_be_bytes", g1, kept),
        spec("from_le_bytes", g1, kept),
        spec("from_ne_bytes", g1, kept),
        spec("count_ones", g1, |t, a| num(bits(t, a).iter().filter(|x| **x).count())),
        spec("count_zeros", g1, |t, a| num(bits(t, a).iter().filter(|x| !**x).count())),
        spec("leading_ones", g1, |t, a| lead(&bits(t, a), true)),
        spec("leading_zeros", g1, |t, a| lead(&bits(t, a), false)),
        spec("trailing_ones", g1, |t, a| trail(&bits(t, a), true)),
        spec("trailing_zeros", g1, |t, a| trail(&bits(t, a), false)),
        spec("rotate_left", g_shift, |t, a| {
            let k = a[1].z().u32() as usize;
            perm(t, a, |i, n| (i + n - k % n) % n)
        }),
        spec("rotate_right", g_shift, |t, a| {
            let k = a[1].z().u32() as usize;
            perm(t, a, |i, n| (i + k % n) % n)
        }),
        spec("signed_shl", g_shift, |t, a| shift(t, a, true, true)),
        spec("signed_shr", g_shift, |t, a| shift(t, a, true, false)),
        spec("unsigned_shl", g_shift, |t, a| shift(t, a, false, true)),
        spec("unsigned_shr", g_shift, |t, a| shift(t, a, false, false)),
        spec("swap_bytes", g1, swapped),
        spec("reverse_bits", g1, |t, a| perm(t, a, |i, n| n - 1 - i)),
        spec("from_be", g1, |t, a| byte_order(t, a, true)),
        spec("from_le", g1, |t, a| byte_order(t, a, false)),
        spec("to_be", g1, |t, a| byte_order(t, a, true)),
        spec("to_le", g1, |t, a| byte_order(t, a, false)),
        spec("Signed_abs", g1, |t, a| plain(t, a[0].z().abs())),
        spec("Signed_abs_sub", g2, move |t, a| {
            if a[0].z().le(a[1].z()) { R::Z(Z::zero()) } else { plain(t, sub(a)) }
        }),
        spec("Signed_signum", g_unit, |_, a| R::Z(Z::i(a[0].z().cmp(&Z::zero()) as i64))),
        spec("Signed_is_positive", g_unit, |_, a| R::B(Z::zero().lt(a[0].z()))),
        spec("Signed_is_negative", g_unit, |_, a| R::B(a[0].z().neg)),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "SaturatingAdd"(a: $T, b: $T) SaturatingAdd::saturating_add(&a, &b);
                "SaturatingSub"(a: $T, b: $T) SaturatingSub::saturating_sub(&a, &b);
                "SaturatingMul"(a: $T, b: $T) SaturatingMul::saturating_mul(&a, &b);
                "Saturating_add"(a: $T, b: $T) Saturating::saturating_add(a, b);
                "Saturating_sub"(a: $T, b: $T) Saturating::saturating_sub(a, b);
                "WrappingAdd"(a: $T, b: $T) WrappingAdd::wrapping_add(&a, &b);
                "WrappingSub"(a: $T, b: $T) WrappingSub::wrapping_sub(&a, &b);
                "WrappingMul"(a: $T, b: $T) WrappingMul::wrapping_mul(&a, &b);
                "WrappingNeg"(a: $T) WrappingNeg::wrapping_neg(&a);
                "CheckedAdd"(a: $T, b: $T) CheckedAdd::checked_add(&a, &b);
                "CheckedSub"(a: $T, b: $T) CheckedSub::checked_sub(&a, &b);
                "CheckedMul"(a: $T, b: $T) CheckedMul::checked_mul(&a, &b);
                "CheckedNeg"(a: $T) CheckedNeg::checked_neg(&a);
                "CheckedDiv"(a: $T, b: $T) CheckedDiv::checked_div(&a, &b);
                "CheckedRem"(a: $T, b: $T) CheckedRem::checked_rem(&a, &b);
                "Euclid_div"(a: $T, b: $T) Euclid::div_euclid(&a, &b);
                "Euclid_rem"(a: $T, b: $T) Euclid::rem_euclid(&a, &b);
                "CheckedEuclid_div"(a: $T, b: $T) CheckedEuclid::checked_div_euclid(&a, &b);
                "CheckedEuclid_rem"(a: $T, b: $T) CheckedEuclid::checked_rem_euclid(&a, &b);
                "WrappingShl"(a: $T, k: u32) WrappingShl::wrapping_shl(&a, k);
                "WrappingShr"(a: $T, k: u32) WrappingShr::wrapping_shr(&a, k);
                "CheckedShl"(a: $T, k: u32) CheckedShl::checked_shl(&a, k);
                "CheckedShr"(a: $T, k: u32) CheckedShr::checked_shr(&a, k);
                "MulAdd"(a: $T, b: $T, c: $T) MulAdd::mul_add(a, b, c);
                "MulAddAssign"(a: $T, b: $T, c: $T) {
                    let mut x = a;
                    MulAddAssign::mul_add_assign(&mut x, b, c);
                    x
                };
                "Pow"(a: $T, e: u32) Pow::<u32>::pow(a, e);
                "Pow_ref"(a: $T, e: u32) Pow::<&u32>::pow(a, &e);
                "PrimInt_pow"(a: $T, e: u32) PrimInt::pow(a, e);
                "checked_pow"(a: $T, e: u32) num_traits::checked_pow(a, e as usize);
                "Bounded"(_a: $T) [<$T as Bounded>::min_value(), <$T as Bounded>::max_value()];
                "Zero_One"(_a: $T) [
                    <$T as Zero>::zero(),
                    <$T as ConstZero>::ZERO,
                    <$T as One>::one(),
                    <$T as ConstOne>::ONE,
                ];
                "is_zero"(a: $T) Zero::is_zero(&a);
                "is_one"(a: $T) One::is_one(&a);
                "from_str_radix"(s: String, r: u32) <$T as Num>::from_str_radix(&s, r);
                "to_be_bytes"(a: $T) ToBytes::to_be_bytes(&a);
                "to_le_bytes"(a: $T) ToBytes::to_le_bytes(&a);
                "to_ne_bytes"(a: $T) ToBytes::to_ne_bytes(&a);
                "from_be_bytes"(a: Le) <$T as FromBytes>::from_be_bytes(&array(&a, true));
                "from_le_bytes"(a: Le) <$T as FromBytes>::from_le_bytes(&array(&a, false));
                "from_ne_bytes"(a: Le)
                    <$T as FromBytes>::from_ne_bytes(&array(&a, big_endian()));
                "count_ones"(a: $T) PrimInt::count_ones(a);
                "count_zeros"(a: $T) PrimInt::count_zeros(a);
                "leading_ones"(a: $T) PrimInt::leading_ones(a);
                "leading_zeros"(a: $T) PrimInt::leading_zeros(a);
                "trailing_ones"(a: $T) PrimInt::trailing_ones(a);
                "trailing_zeros"(a: $T) PrimInt::trailing_zeros(a);
                "rotate_left"(a: $T, k: u32) PrimInt::rotate_left(a, k);
                "rotate_right"(a: $T, k: u32) PrimInt::rotate_right(a, k);
                "signed_shl"(a: $T, k: u32) PrimInt::signed_shl(a, k);
                "signed_shr"(a: $T, k: u32) PrimInt::signed_shr(a, k);
                "unsigned_shl"(a: $T, k: u32) PrimInt::unsigned_shl(a, k);
                "unsigned_shr"(a: $T, k: u32) PrimInt::unsigned_shr(a, k);
                "swap_bytes"(a: $T) PrimInt::swap_bytes(a);
                "reverse_bits"(a: $T) PrimInt::reverse_bits(a);
                "from_be"(a: $T) <$T as PrimInt>::from_be(a);
                "from_le"(a: $T) <$T as PrimInt>::from_le(a);
                "to_be"(a: $T) PrimInt::to_be(a);
                "to_le"(a: $T) PrimInt::to_le(a);
            });
        };
    }
    all!(both);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "Signed_abs"(a: $T) Signed::abs(&a);
                "Signed_abs_sub"(a: $T, b: $T) Signed::abs_sub(&a, &b);
                "Signed_signum"(a: $T) Signed::signum(&a);
                "Signed_is_positive"(a: $T) Signed::is_positive(&a);
                "Signed_is_negative"(a: $T) Signed::is_negative(&a);
            });
        };
    }
    signed!(sig);

    // Conversions.
    macro_rules! prim {
        ($T:ident, $p:ident, $from:ident, $to:ident) => {{
            let p = <$p as Prim>::ty();
            let name = |s: &str| joined(s, stringify!($p));
            let names = ["FromPrimitive", "NumCast", "as_big", "as_prim", "ToPrimitive"].map(name);
            let specs = [
                spec(names[0], g_of(p), some_if).weight(50).rule(rule),
                spec(names[1], g_of(p), some_if).weight(50).rule(rule),
                spec(names[2], g_of(p), |t, a| mode::wrapping(t, a[0].z().clone()))
                    .weight(50)
                    .rule(rule),
                spec(names[3], g_near(p), move |_, a| R::Z(p.wrap(a[0].z()))).weight(80).rule(rule),
                spec(names[4], g_near(p), move |_, a| mode::checked(&p, a[0].z().clone()))
                    .weight(200)
                    .rule(rule),
            ];
            let acts: [Act; 5] = [
                (names[0], |a| <$T as FromPrimitive>::$from(<$p>::fa(&a[0])).r(), &[None], UNWRITTEN),
                (names[1], |a| <$T as NumCast>::from(<$p>::fa(&a[0])).r(), &[None], UNWRITTEN),
                (names[2], |a| AsPrimitive::<$T>::as_(<$p>::fa(&a[0])).r(), &[None], UNWRITTEN),
                (names[3], |a| AsPrimitive::<$p>::as_(<$T>::fa(&a[0])).r(), &[Some($T::TY)], UNWRITTEN),
                (names[4], |a| ToPrimitive::$to(&<$T>::fa(&a[0])).r(), &[Some($T::TY)], UNWRITTEN),
            ];
            join(out, &specs, $T::TY, &acts);
        }};
    }
    let other = [
        spec("as_from_bool", |t: &mut Tape, _: &Ty| zs([Z::i(t.below(2) as i64)]), kept)
            .weight(2)
            .rule(|_, a, _| !a[0].z().is_zero()),
        spec(
            "as_from_char",
            |t: &mut Tape, _: &Ty| {
                let c = t.below(0x110000 - 0x800);
                zs([Z::i(if c < 0xd800 { c } else { c + 0x800 } as i64)])
            },
            kept,
        )
        .weight(30)
        .rule(rule),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            prim!($T, u8, from_u8, to_u8);
            prim!($T, u16, from_u16, to_u16);
            prim!($T, u32, from_u32, to_u32);
            prim!($T, u64, from_u64, to_u64);
            prim!($T, u128, from_u128, to_u128);
            prim!($T, usize, from_usize, to_usize);
            prim!($T, i8, from_i8, to_i8);
            prim!($T, i16, from_i16, to_i16);
            prim!($T, i32, from_i32, to_i32);
            prim!($T, i64, from_i64, to_i64);
            prim!($T, i128, from_i128, to_i128);
            prim!($T, isize, from_isize, to_isize);
            join(out, &other, $T::TY, acts! {
                "as_from_bool"(x: bool) AsPrimitive::<$T>::as_(x);
                "as_from_char"(x: u32)
                    AsPrimitive::<$T>::as_(char::from_u32(x).expect("scalar value"));
            });
        };
    }
    all!(both);
}

fn array<const N: usize>(a: &Le, big: bool) -> [u8; N] {
    let mut b: [u8; N] = a.0[..N].try_into().expect("length of the array");
    if big {
        b.reverse();
    }
    b
}
