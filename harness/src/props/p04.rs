//! Arithmetic with a primitive scalar.

use super::*;
use crate::oracle::*;

const FORMS: [(&str, Form); 4] = [
    ("", Form::Plain),
    ("wrapping_", Form::Wrapping),
    ("overflowing_", Form::Overflowing),
    ("checked_", Form::Checked),
];

pub fn ops(out: &mut Vec<Op>) {
    let specs = scalar_specs(&FORMS);
    macro_rules! call {
        ($T:ident, $S:ty; $($m:ident)*) => {
            join(out, &specs, $T::TY, &[$(
                (stringify!($m), (|args: &Args| {
                    let a = <$T as FromArg>::fa(&args[0]);
                    let b = <$S as FromArg>::fa(&args[1]);
                    a.$m(b).r()
                }) as ActFn, &[Some($T::TY), None],
                (&[("a", stringify!($T)), ("b", stringify!($S))], concat!("a.", stringify!($m), "(b)"))),
            )*]);
        };
    }
    macro_rules! both {
        ($T:ident, $O:ident) => {
            call!($T, i256::ULimb;
                add_ulimb sub_ulimb mul_ulimb div_rem_ulimb div_ulimb rem_ulimb
                wrapping_add_ulimb wrapping_sub_ulimb wrapping_mul_ulimb
                wrapping_div_rem_ulimb wrapping_div_ulimb wrapping_rem_ulimb
                overflowing_add_ulimb overflowing_sub_ulimb overflowing_mul_ulimb
                overflowing_div_rem_ulimb overflowing_div_ulimb
                overflowing_rem_ulimb checked_add_ulimb checked_sub_ulimb
                checked_mul_ulimb checked_div_rem_ulimb checked_div_ulimb
                checked_rem_ulimb);
            call!($T, i256::UWide;
                add_uwide sub_uwide mul_uwide div_rem_uwide div_uwide rem_uwide
                wrapping_add_uwide wrapping_sub_uwide wrapping_mul_uwide
                wrapping_div_rem_uwide wrapping_div_uwide wrapping_rem_uwide
                overflowing_add_uwide overflowing_sub_uwide overflowing_mul_uwide
                overflowing_div_rem_uwide overflowing_div_uwide
                overflowing_rem_uwide checked_add_uwide checked_sub_uwide
                checked_mul_uwide checked_div_rem_uwide checked_div_uwide
                checked_rem_uwide);
            call!($T, u32;
                add_u32 sub_u32 mul_u32 div_rem_u32 div_u32 rem_u32 wrapping_add_u32
                wrapping_sub_u32 wrapping_mul_u32 wrapping_div_rem_u32
                wrapping_div_u32 wrapping_rem_u32 overflowing_add_u32
                overflowing_sub_u32 overflowing_mul_u32 overflowing_div_rem_u32
                overflowing_div_u32 overflowing_rem_u32 checked_add_u32
                checked_sub_u32 checked_mul_u32 checked_div_rem_u32 checked_div_u32
                checked_rem_u32);
            call!($T, u64;
                add_u64 sub_u64 mul_u64 div_rem_u64 div_u64 rem_u64 wrapping_add_u64
                wrapping_sub_u64 wrapping_mul_u64 wrapping_div_rem_u64
                wrapping_div_u64 wrapping_rem_u64 overflowing_add_u64
                overflowing_sub_u64 overflowing_mul_u64 overflowing_div_rem_u64
                overflowing_div_u64 overflowing_rem_u64 checked_add_u64
                checked_sub_u64 checked_mul_u64 checked_div_rem_u64 checked_div_u64
                checked_rem_u64);
            call!($T, u128;
                add_u128 sub_u128 mul_u128 div_rem_u128 div_u128 rem_u128
                wrapping_add_u128 wrapping_sub_u128 wrapping_mul_u128
                wrapping_div_rem_u128 wrapping_div_u128 wrapping_rem_u128
                overflowing_add_u128 overflowing_sub_u128 overflowing_mul_u128
                overflowing_div_rem_u128 overflowing_div_u128 overflowing_rem_u128
                checked_add_u128 checked_sub_u128 checked_mul_u128
                checked_div_rem_u128 checked_div_u128 checked_rem_u128);
        };
    }
    all!(both);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            call!($T, i256::ILimb;
                add_ilimb sub_ilimb mul_ilimb div_rem_ilimb div_ilimb rem_ilimb
                wrapping_add_ilimb wrapping_sub_ilimb wrapping_mul_ilimb
                wrapping_div_rem_ilimb wrapping_div_ilimb wrapping_rem_ilimb
                overflowing_add_ilimb overflowing_sub_ilimb overflowing_mul_ilimb
                overflowing_div_rem_ilimb overflowing_div_ilimb
                overflowing_rem_ilimb checked_add_ilimb checked_sub_ilimb
                checked_mul_ilimb checked_div_rem_ilimb checked_div_ilimb
                checked_rem_ilimb);
            call!($T, i256::IWide;
                add_iwide sub_iwide mul_iwide div_rem_iwide div_iwide rem_iwide
                wrapping_add_iwide wrapping_sub_iwide wrapping_mul_iwide
                wrapping_div_rem_iwide wrapping_div_iwide wrapping_rem_iwide
                overflowing_add_iwide overflowing_sub_iwide overflowing_mul_iwide
                overflowing_div_rem_iwide overflowing_div_iwide
                overflowing_rem_iwide checked_add_iwide checked_sub_iwide
                checked_mul_iwide checked_div_rem_iwide checked_div_iwide
                checked_rem_iwide);
            call!($T, i32;
                add_i32 sub_i32 mul_i32 div_rem_i32 div_i32 rem_i32 wrapping_add_i32
                wrapping_sub_i32 wrapping_mul_i32 wrapping_div_rem_i32
                wrapping_div_i32 wrapping_rem_i32 overflowing_add_i32
                overflowing_sub_i32 overflowing_mul_i32 overflowing_div_rem_i32
                overflowing_div_i32 overflowing_rem_i32 checked_add_i32
                checked_sub_i32 checked_mul_i32 checked_div_rem_i32 checked_div_i32
                checked_rem_i32);
            call!($T, i64;
                add_i64 sub_i64 mul_i64 div_rem_i64 div_i64 rem_i64 wrapping_add_i64
                wrapping_sub_i64 wrapping_mul_i64 wrapping_div_rem_i64
                wrapping_div_i64 wrapping_rem_i64 overflowing_add_i64
                overflowing_sub_i64 overflowing_mul_i64 overflowing_div_rem_i64
                overflowing_div_i64 overflowing_rem_i64 checked_add_i64
                checked_sub_i64 checked_mul_i64 checked_div_rem_i64 checked_div_i64
                checked_rem_i64);
            call!($T, i128;
                add_i128 sub_i128 mul_i128 div_rem_i128 div_i128 rem_i128
                wrapping_add_i128 wrapping_sub_i128 wrapping_mul_i128
                wrapping_div_rem_i128 wrapping_div_i128 wrapping_rem_i128
                overflowing_add_i128 overflowing_sub_i128 overflowing_mul_i128
                overflowing_div_rem_i128 overflowing_div_i128 overflowing_rem_i128
                checked_add_i128 checked_sub_i128 checked_mul_i128
                checked_div_rem_i128 checked_div_i128 checked_rem_i128);
        };
    }
    signed!(sig);
}
