//! Addition, subtraction, negation and absolute value.

use super::*;

fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b])
}
fn g2o(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, &ty.other());
    zs([a, b])
}
fn g2c(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b, Z::i(t.below(2) as i64)])
}
fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
/// Operands whose sum is in range: built from the sum.
fn g_add_ok(t: &mut Tape, ty: &Ty) -> Args {
    let (c, a) = gen::pair(t, ty, ty);
    let b = c.sub(&a);
    if ty.fits(&b) {
        zs([a, b])
    } else {
        zs([c, Z::zero()])
    }
}
fn g_sub_ok(t: &mut Tape, ty: &Ty) -> Args {
    let (a, c) = gen::pair(t, ty, ty);
    let b = a.sub(&c);
    if ty.fits(&b) {
        zs([a, b])
    } else {
        zs([a, Z::zero()])
    }
}
fn g_neg_ok(t: &mut Tape, ty: &Ty) -> Args {
    let a = gen::val(t, ty);
    zs([if ty.fits(&a.neg()) { a } else { ty.max() }])
}

fn add(a: &Args) -> Z {
    a[0].z().add(a[1].z())
}
fn sub(a: &Args) -> Z {
    a[0].z().sub(a[1].z())
}
fn neg(a: &Args) -> Z {
    a[0].z().neg()
}
fn abs(a: &Args) -> Z {
    a[0].z().abs()
}

pub fn ops(out: &mut Vec<Op>) {
    use mode::*;
    let specs = vec![
        spec("wrapping_add", g2, |t, a| wrapping(t, add(a))),
        spec("overflowing_add", g2, |t, a| overflowing(t, add(a))),
        spec("checked_add", g2, |t, a| checked(t, add(a))),
        spec("saturating_add", g2, |t, a| saturating(t, add(a))),
        spec("strict_add", g2, |t, a| strict(t, add(a))),
        spec("unchecked_add", g_add_ok, |t, a| strict(t, add(a))),
        spec("wrapping_sub", g2, |t, a| wrapping(t, sub(a))),
        spec("overflowing_sub", g2, |t, a| overflowing(t, sub(a))),
        spec("checked_sub", g2, |t, a| checked(t, sub(a))),
        spec("saturating_sub", g2, |t, a| saturating(t, sub(a))),
        spec("strict_sub", g2, |t, a| strict(t, sub(a))),
        spec("unchecked_sub", g_sub_ok, |t, a| strict(t, sub(a))),
        spec("carrying_add", g2c, |t, a| overflowing(t, add(a).add(a[2].z()))),
        spec("borrowing_sub", g2c, |t, a| overflowing(t, sub(a).sub(a[2].z()))),
        spec("wrapping_neg", g1, |t, a| wrapping(t, neg(a))),
        spec("checked_neg", g1, |t, a| checked(t, neg(a))),
        spec("strict_neg", g1, |t, a| strict(t, neg(a))),
        spec("overflowing_neg", g1, |t, a| overflowing(t, neg(a))),
        spec("saturating_neg", g1, |t, a| saturating(t, neg(a))),
        spec("unchecked_neg", g_neg_ok, |t, a| strict(t, neg(a))),
        spec("abs", g1, |t, a| plain(t, abs(a))),
        spec("wrapping_abs", g1, |t, a| wrapping(t, abs(a))),
        spec("checked_abs", g1, |t, a| checked(t, abs(a))),
        spec("strict_abs", g1, |t, a| strict(t, abs(a))),
        spec("overflowing_abs", g1, |t, a| overflowing(t, abs(a))),
        spec("saturating_abs", g1, |t, a| saturating(t, abs(a))),
        spec("unsigned_abs", g1, |_, a| R::Z(abs(a))),
        // Mixed signedness.
        spec("wrapping_add_other", g2o, |t, a| wrapping(t, add(a))),
        spec("overflowing_add_other", g2o, |t, a| overflowing(t, add(a))),
        spec("checked_add_other", g2o, |t, a| checked(t, add(a))),
        spec("saturating_add_other", g2o, |t, a| saturating(t, add(a))),
        spec("strict_add_other", g2o, |t, a| strict(t, add(a))),
        spec("wrapping_sub_other", g2o, |t, a| wrapping(t, sub(a))),
        spec("overflowing_sub_other", g2o, |t, a| overflowing(t, sub(a))),
        spec("checked_sub_other", g2o, |t, a| checked(t, sub(a))),
        spec("saturating_sub_other", g2o, |t, a| saturating(t, sub(a))),
        spec("strict_sub_other", g2o, |t, a| strict(t, sub(a))),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "wrapping_add"(a: $T, b: $T) a.wrapping_add(b);
                "overflowing_add"(a: $T, b: $T) a.overflowing_add(b);
                "checked_add"(a: $T, b: $T) a.checked_add(b);
                "saturating_add"(a: $T, b: $T) a.saturating_add(b);
                "strict_add"(a: $T, b: $T) a.strict_add(b);
                "unchecked_add"(a: $T, b: $T) unsafe { a.unchecked_add(b) };
                "wrapping_sub"(a: $T, b: $T) a.wrapping_sub(b);
                "overflowing_sub"(a: $T, b: $T) a.overflowing_sub(b);
                "checked_sub"(a: $T, b: $T) a.checked_sub(b);
                "saturating_sub"(a: $T, b: $T) a.saturating_sub(b);
                "strict_sub"(a: $T, b: $T) a.strict_sub(b);
                "unchecked_sub"(a: $T, b: $T) unsafe { a.unchecked_sub(b) };
                "carrying_add"(a: $T, b: $T, c: bool) a.carrying_add(b, c);
                "borrowing_sub"(a: $T, b: $T, c: bool) a.borrowing_sub(b, c);
                "wrapping_neg"(a: $T) a.wrapping_neg();
                "checked_neg"(a: $T) a.checked_neg();
                "strict_neg"(a: $T) a.strict_neg();
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "wrapping_add_other"(a: $T, b: $O) a.wrapping_add_signed(b);
                "overflowing_add_other"(a: $T, b: $O) a.overflowing_add_signed(b);
                "checked_add_other"(a: $T, b: $O) a.checked_add_signed(b);
                "saturating_add_other"(a: $T, b: $O) a.saturating_add_signed(b);
                "strict_add_other"(a: $T, b: $O) a.strict_add_signed(b);
                "overflowing_sub_other"(a: $T, b: $O) a.overflowing_sub_signed(b);
            });
        };
    }
    unsigned!(uns);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "overflowing_neg"(a: $T) a.overflowing_neg();
                "saturating_neg"(a: $T) a.saturating_neg();
                "unchecked_neg"(a: $T) unsafe { a.unchecked_neg() };
                "abs"(a: $T) a.abs();
                "wrapping_abs"(a: $T) a.wrapping_abs();
                "checked_abs"(a: $T) a.checked_abs();
                "strict_abs"(a: $T) a.strict_abs();
                "overflowing_abs"(a: $T) a.overflowing_abs();
                "saturating_abs"(a: $T) a.saturating_abs();
                "unsigned_abs"(a: $T) a.unsigned_abs();
                "overflowing_add_other"(a: $T, b: $O) a.overflowing_add_unsigned(b);
                "checked_add_other"(a: $T, b: $O) a.checked_add_unsigned(b);
                "saturating_add_other"(a: $T, b: $O) a.saturating_add_unsigned(b);
                "strict_add_other"(a: $T, b: $O) a.strict_add_unsigned(b);
                "wrapping_sub_other"(a: $T, b: $O) a.wrapping_sub_unsigned(b);
                "overflowing_sub_other"(a: $T, b: $O) a.overflowing_sub_unsigned(b);
                "checked_sub_other"(a: $T, b: $O) a.checked_sub_unsigned(b);
                "saturating_sub_other"(a: $T, b: $O) a.saturating_sub_unsigned(b);
                "strict_sub_other"(a: $T, b: $O) a.strict_sub_unsigned(b);
            });
        };
    }
    signed!(sig);
}
