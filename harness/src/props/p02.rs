//! Multiplication and exponentiation.

use super::*;
use crate::oracle::*;

fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    zs([a, b])
}
fn g3(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    zs([a, b, gen::val(t, ty)])
}
/// Operands whose product is in range: the second is cut down to fit.
fn g_mul_ok(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    if ty.fits(&a.mul(&b)) {
        return zs([a, b]);
    }
    // b toward zero until it fits: |b| <= max / |a|.
    let q = ty.max().divrem(&a).0.abs();
    let b = if b.neg { q.neg() } else { q };
    zs([a, b])
}
fn mul(a: &Args) -> Z {
    a[0].z().mul(a[1].z())
}

fn p(t: &Ty, a: &Args) -> (Z, bool) {
    pow(t, a[0].z(), a[1].z().u32())
}
pub fn ops(out: &mut Vec<Op>) {
    use mode::*;
    let specs = vec![
        spec("wrapping_mul", g2, |t, a| wrapping(t, mul(a))).weight(150),
        spec("overflowing_mul", g2, |t, a| overflowing(t, mul(a))).weight(200),
        spec("checked_mul", g2, |t, a| checked(t, mul(a))),
        spec("saturating_mul", g2, |t, a| saturating(t, mul(a))),
        spec("strict_mul", g2, |t, a| strict(t, mul(a))),
        spec("unchecked_mul", g_mul_ok, |t, a| strict(t, mul(a))),
        spec("widening_mul", g2, |t, a| {
            let x = mul(a);
            R::T(vec![R::Z(t.wrap(&x)), R::Z(x.shr(t.bits))])
        }),
        spec("carrying_mul", g3, |t, a| {
            let x = mul(a).add(a[2].z());
            R::T(vec![R::Z(t.wrap(&x)), R::Z(x.shr(t.bits))])
        }),
        spec("high_mul", g2, |t, a| R::Z(mul(a).shr(t.bits))),
        spec("pow", g_pow, |t, a| if OVF { pow_strict(p(t, a)) } else { R::Z(p(t, a).0) })
            .weight(40),
        spec("wrapping_pow", g_pow, |t, a| R::Z(p(t, a).0)).weight(40),
        spec("overflowing_pow", g_pow, |t, a| {
            let (v, ok) = p(t, a);
            R::T(vec![R::Z(v), R::B(!ok)])
        })
        .weight(40),
        spec("checked_pow", g_pow, |t, a| {
            let (v, ok) = p(t, a);
            if ok {
                R::some(R::Z(v))
            } else {
                R::None
            }
        })
        .weight(40),
        spec("saturating_pow", g_pow, |t, a| {
            let (v, ok) = p(t, a);
            R::Z(if ok {
                v
            } else if a[0].z().neg && a[1].z().is_odd() {
                t.min()
            } else {
                t.max()
            })
        })
        .weight(40),
        spec("strict_pow", g_pow, |t, a| pow_strict(p(t, a))).weight(40),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "wrapping_mul"(a: $T, b: $T) a.wrapping_mul(b);
                "overflowing_mul"(a: $T, b: $T) a.overflowing_mul(b);
                "checked_mul"(a: $T, b: $T) a.checked_mul(b);
                "saturating_mul"(a: $T, b: $T) a.saturating_mul(b);
                "strict_mul"(a: $T, b: $T) a.strict_mul(b);
                "unchecked_mul"(a: $T, b: $T) unsafe { a.unchecked_mul(b) };
                "pow"(a: $T, e: u32) a.pow(e);
                "wrapping_pow"(a: $T, e: u32) a.wrapping_pow(e);
                "overflowing_pow"(a: $T, e: u32) a.overflowing_pow(e);
                "checked_pow"(a: $T, e: u32) a.checked_pow(e);
                "saturating_pow"(a: $T, e: u32) a.saturating_pow(e);
                "strict_pow"(a: $T, e: u32) a.strict_pow(e);
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "widening_mul"(a: $T, b: $T) a.widening_mul(b);
                "carrying_mul"(a: $T, b: $T, c: $T) a.carrying_mul(b, c);
                "high_mul"(a: $T, b: $T) a.high_mul(b);
            });
        };
    }
    unsigned!(uns);
}
