//! Logarithms, powers of two, multiples, midpoint and differences.

use super::*;
use crate::oracle::*;

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b])
}
fn g_div(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::div_pair(t, ty, ty);
    zs([a, b])
}
/// A number around a power of the base.
fn g_log(t: &mut Tape, ty: &Ty) -> Args {
    let base = match t.below(8) {
        0 => Z::i(t.below(3) as i64),
        1 => Z::i(10),
        2 | 3 => Z::i(2 + t.below(40) as i64),
        4 => Z::pow2(1 + t.below(ty.bits as u64 / 2) as u32).addi(t.offset(1)),
        5 => {
            let k = 1 + t.below(ty.bits as u64 / 2) as u32;
            gen::narrow(t, k).addi(2)
        }
        _ => gen::val(t, ty),
    };
    let base = ty.wrap(&base);
    let a = match t.below(4) {
        0 => gen::val(t, ty),
        // Below the base.
        1 => base.addi(-(t.below(3) as i64)),
        _ if Z::i(1).lt(&base) => {
            let top = log(&ty.max(), &base);
            // Often the largest power there is.
            let n = if t.chance(4) { top } else { t.below(top as u64 + 1) as u32 };
            let mut z = Z::i(1);
            for _ in 0..n {
                z = z.mul(&base);
            }
            z.addi(t.offset(1))
        }
        _ => gen::val(t, ty),
    };
    zs([ty.wrap(&a), base])
}
fn g_pow2(t: &mut Tape, ty: &Ty) -> Args {
    let z = if t.bool() {
        Z::pow2(t.below(ty.bits as u64) as u32).addi(t.offset(2))
    } else {
        gen::val(t, ty)
    };
    zs([ty.wrap(&z)])
}
/// A number around a multiple.
fn g_multiple(t: &mut Tape, ty: &Ty) -> Args {
    if t.chance(3) {
        return g_div(t, ty);
    }
    let k = 1 + t.below(ty.bits as u64) as u32;
    let d = gen::narrow(t, k).addi(1);
    let q = if t.chance(4) {
        // The largest multiple there is, or the first that does not fit.
        ty.max().divfloor(&d).0.addi(t.below(2) as i64)
    } else {
        let l = (ty.bits + 1).saturating_sub(d.bits());
        let l = t.below(l as u64 + 1) as u32;
        gen::narrow(t, l)
    };
    let a = q.mul(&d).addi(t.offset(1));
    let neg_a = ty.signed && t.bool();
    let neg_d = ty.signed && t.bool();
    let a = if neg_a { a.neg() } else { a };
    let d = if neg_d { d.neg() } else { d };
    zs([ty.wrap(&a), ty.wrap(&d)])
}

/// Largest n with base^n <= a, for a >= 1 and base >= 2.
fn log(a: &Z, base: &Z) -> u32 {
    let mut n = 0;
    let mut p = base.clone();
    while p.le(a) {
        p = p.mul(base);
        n += 1;
    }
    n
}
fn checked_log(a: &Args) -> Option<u32> {
    let (x, b) = (a[0].z(), a[1].z());
    if x.le(&Z::zero()) || b.le(&Z::i(1)) {
        None
    } else {
        Some(log(x, b))
    }
}
fn checked_log2(a: &Args) -> Option<u32> {
    checked_log(&zs([a[0].z().clone(), Z::i(2)]))
}
fn opt(x: Option<u32>) -> R {
    x.map_or(R::None, |n| R::some(R::Z(Z::i(n as i64))))
}
fn or_panic(x: Option<u32>) -> R {
    x.map_or(R::Panic, |n| R::Z(Z::i(n as i64)))
}

pub fn ops(out: &mut Vec<Op>) {
    use mode::*;
    let specs = [
        spec("ilog", g_log, |_, a| or_panic(checked_log(a))).weight(150),
        spec("checked_ilog", g_log, |_, a| opt(checked_log(a))).weight(150),
        spec("ilog2", g1, |_, a| or_panic(checked_log2(a))),
        spec("checked_ilog2", g1, |_, a| opt(checked_log2(a))),
        spec("is_power_of_two", g_pow2, |_, a| {
            let z = a[0].z();
            R::B(!z.is_zero() && next_pow2(z) == *z)
        }),
        spec("next_power_of_two", g_pow2, |t, a| plain(t, next_pow2(a[0].z()))),
        spec("checked_next_power_of_two", g_pow2, |t, a| checked(t, next_pow2(a[0].z()))),
        spec("wrapping_next_power_of_two", g_pow2, |t, a| wrapping(t, next_pow2(a[0].z()))),
        spec("is_multiple_of", g_multiple, |_, a| {
            R::B(match trunc(a) {
                Some((_, r)) => r.is_zero(),
                None => a[0].z().is_zero(),
            })
        }),
        spec("next_multiple_of", g_multiple, |t, a| {
            next_multiple(a).map_or(R::Panic, |z| plain(t, z))
        }),
        spec("checked_next_multiple_of", g_multiple, |t, a| {
            next_multiple(a).map_or(R::None, |z| checked(t, z))
        }),
        spec("midpoint", g2, |_, a| {
            R::Z(a[0].z().add(a[1].z()).divrem(&Z::i(2)).0)
        }),
        spec("abs_diff", g2, |_, a| R::Z(a[0].z().sub(a[1].z()).abs())),
        spec("checked_signed_diff", g2, |t, a| checked(&t.other(), a[0].z().sub(a[1].z()))),
    ];
    let specs: Vec<Spec> = specs
        .into_iter()
        .map(|s| {
            let w = s.weight;
            s.weight(w * 2)
        })
        .collect();
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "ilog"(a: $T, b: $T) a.ilog(b);
                "checked_ilog"(a: $T, b: $T) a.checked_ilog(b);
                "ilog2"(a: $T) a.ilog2();
                "checked_ilog2"(a: $T) a.checked_ilog2();
                "next_multiple_of"(a: $T, b: $T) a.next_multiple_of(b);
                "checked_next_multiple_of"(a: $T, b: $T) a.checked_next_multiple_of(b);
                "midpoint"(a: $T, b: $T) a.midpoint(b);
                "abs_diff"(a: $T, b: $T) a.abs_diff(b);
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "is_power_of_two"(a: $T) a.is_power_of_two();
                "next_power_of_two"(a: $T) a.next_power_of_two();
                "checked_next_power_of_two"(a: $T) a.checked_next_power_of_two();
                "wrapping_next_power_of_two"(a: $T) a.wrapping_next_power_of_two();
                "is_multiple_of"(a: $T, b: $T) a.is_multiple_of(b);
                "checked_signed_diff"(a: $T, b: $T) a.checked_signed_diff(b);
            });
        };
    }
    unsigned!(uns);
}
