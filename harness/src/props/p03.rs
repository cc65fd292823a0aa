//! Division and remainder.

use super::*;
use crate::oracle::*;

pub fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::div_pair(t, ty, ty);
    zs([a, b])
}

pub fn ops(out: &mut Vec<Op>) {
    use Form::*;
    use Part::*;
    let specs = vec![
        spec("div_rem", g2, |t, a| expect(t, trunc(a), QR, Plain)).weight(200),
        spec("wrapping_div_rem", g2, |t, a| expect(t, trunc(a), QR, Wrapping)).weight(200),
        spec("overflowing_div_rem", g2, |t, a| expect(t, trunc(a), QR, Overflowing)),
        spec("checked_div_rem", g2, |t, a| expect(t, trunc(a), QR, Checked)),
        spec("op_div", g2, |t, a| expect(t, trunc(a), Q, Plain)),
        spec("wrapping_div", g2, |t, a| expect(t, trunc(a), Q, Wrapping)),
        spec("overflowing_div", g2, |t, a| expect(t, trunc(a), Q, Overflowing)),
        spec("checked_div", g2, |t, a| expect(t, trunc(a), Q, Checked)),
        spec("strict_div", g2, |t, a| expect(t, trunc(a), Q, Strict)),
        spec("saturating_div", g2, |t, a| expect(t, trunc(a), Q, Saturating)),
        spec("op_rem", g2, |t, a| expect(t, trunc(a), R, Plain)),
        spec("wrapping_rem", g2, |t, a| expect(t, trunc(a), R, Wrapping)),
        spec("overflowing_rem", g2, |t, a| expect(t, trunc(a), R, Overflowing)),
        spec("checked_rem", g2, |t, a| expect(t, trunc(a), R, Checked)),
        spec("strict_rem", g2, |t, a| expect(t, trunc(a), R, Strict)),
        // The plain Euclidean, floor and ceiling forms are documented to panic
        // on MIN / -1 in any build.
        spec("div_euclid", g2, |t, a| expect(t, euclid(a), Q, Strict)),
        spec("wrapping_div_euclid", g2, |t, a| expect(t, euclid(a), Q, Wrapping)),
        spec("overflowing_div_euclid", g2, |t, a| expect(t, euclid(a), Q, Overflowing)),
        spec("checked_div_euclid", g2, |t, a| expect(t, euclid(a), Q, Checked)),
        spec("strict_div_euclid", g2, |t, a| expect(t, euclid(a), Q, Strict)),
        spec("rem_euclid", g2, |t, a| expect(t, euclid(a), R, Strict)),
        spec("wrapping_rem_euclid", g2, |t, a| expect(t, euclid(a), R, Wrapping)),
        spec("overflowing_rem_euclid", g2, |t, a| expect(t, euclid(a), R, Overflowing)),
        spec("checked_rem_euclid", g2, |t, a| expect(t, euclid(a), R, Checked)),
        spec("strict_rem_euclid", g2, |t, a| expect(t, euclid(a), R, Strict)),
        spec("div_floor", g2, |t, a| expect(t, floor(a), Q, Strict)),
        spec("div_ceil", g2, |t, a| expect(t, ceil(a), Q, Strict)),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "div_rem"(a: $T, b: $T) a.div_rem(b);
                "wrapping_div_rem"(a: $T, b: $T) a.wrapping_div_rem(b);
                "overflowing_div_rem"(a: $T, b: $T) a.overflowing_div_rem(b);
                "checked_div_rem"(a: $T, b: $T) a.checked_div_rem(b);
                "op_div"(a: $T, b: $T) a / b;
                "wrapping_div"(a: $T, b: $T) a.wrapping_div(b);
                "overflowing_div"(a: $T, b: $T) a.overflowing_div(b);
                "checked_div"(a: $T, b: $T) a.checked_div(b);
                "strict_div"(a: $T, b: $T) a.strict_div(b);
                "saturating_div"(a: $T, b: $T) a.saturating_div(b);
                "op_rem"(a: $T, b: $T) a % b;
                "wrapping_rem"(a: $T, b: $T) a.wrapping_rem(b);
                "overflowing_rem"(a: $T, b: $T) a.overflowing_rem(b);
                "checked_rem"(a: $T, b: $T) a.checked_rem(b);
                "strict_rem"(a: $T, b: $T) a.strict_rem(b);
                "div_euclid"(a: $T, b: $T) a.div_euclid(b);
                "wrapping_div_euclid"(a: $T, b: $T) a.wrapping_div_euclid(b);
                "overflowing_div_euclid"(a: $T, b: $T) a.overflowing_div_euclid(b);
                "checked_div_euclid"(a: $T, b: $T) a.checked_div_euclid(b);
                "strict_div_euclid"(a: $T, b: $T) a.strict_div_euclid(b);
                "rem_euclid"(a: $T, b: $T) a.rem_euclid(b);
                "wrapping_rem_euclid"(a: $T, b: $T) a.wrapping_rem_euclid(b);
                "overflowing_rem_euclid"(a: $T, b: $T) a.overflowing_rem_euclid(b);
                "checked_rem_euclid"(a: $T, b: $T) a.checked_rem_euclid(b);
                "strict_rem_euclid"(a: $T, b: $T) a.strict_rem_euclid(b);
                "div_floor"(a: $T, b: $T) a.div_floor(b);
                "div_ceil"(a: $T, b: $T) a.div_ceil(b);
            });
        };
    }
    all!(both);
}
