//! Plain operators, in every spelling, under both overflow modes.

use super::*;
use crate::oracle::*;

fn g_add(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b])
}
fn g_mul(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::mul_pair(t, ty, ty);
    zs([a, b])
}
fn g_div(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::div_pair(t, ty, ty);
    zs([a, b])
}
fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}

fn mul(a: &Args) -> Z {
    a[0].z().mul(a[1].z())
}

pub fn ops(out: &mut Vec<Op>) {
    use mode::plain;
    let mut specs = Vec::new();
    for name in ["add", "add_ref", "add_assign", "add_assign_ref"] {
        specs.push(spec(name, g_add, |t, a| plain(t, a[0].z().add(a[1].z()))));
    }
    for name in ["sub", "sub_ref", "sub_assign", "sub_assign_ref"] {
        specs.push(spec(name, g_add, |t, a| plain(t, a[0].z().sub(a[1].z()))));
    }
    for name in ["mul", "mul_ref", "mul_assign", "mul_assign_ref"] {
        specs.push(spec(name, g_mul, |t, a| plain(t, mul(a))));
    }
    for name in ["div", "div_ref", "div_assign", "div_assign_ref"] {
        specs.push(spec(name, g_div, |t, a| expect(t, trunc(a), Part::Q, Form::Plain)));
    }
    for name in ["rem", "rem_ref", "rem_assign", "rem_assign_ref"] {
        specs.push(spec(name, g_div, |t, a| expect(t, trunc(a), Part::R, Form::Plain)));
    }
    for name in ["neg", "neg_ref"] {
        specs.push(spec(name, g1, |t, a| plain(t, a[0].z().neg())));
    }
    specs.push(spec("abs", g1, |t, a| plain(t, a[0].z().abs())));
    specs.push(
        spec("pow", g_pow, |t, a| {
            let p = pow(t, a[0].z(), a[1].z().u32());
            if OVF {
                pow_strict(p)
            } else {
                R::Z(p.0)
            }
        })
        .weight(60),
    );
    specs.push(spec("next_power_of_two", g1, |t, a| plain(t, next_pow2(a[0].z()))));
    specs.push(spec("next_multiple_of", g_div, |t, a| match next_multiple(a) {
        None => R::Panic,
        Some(z) => plain(t, z),
    }));
    specs.push(spec("div_rem", g_div, |t, a| expect(t, trunc(a), Part::QR, Form::Plain)));
    // Documented to panic in any build.
    specs.push(spec("div_euclid", g_div, |t, a| expect(t, euclid(a), Part::Q, Form::Strict)));
    specs.push(spec("rem_euclid", g_div, |t, a| expect(t, euclid(a), Part::R, Form::Strict)));
    specs.push(spec("div_floor", g_div, |t, a| expect(t, floor(a), Part::Q, Form::Strict)));
    specs.push(spec("div_ceil", g_div, |t, a| expect(t, ceil(a), Part::Q, Form::Strict)));
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "add"(a: $T, b: $T) a + b;
                "add_ref"(a: $T, b: $T) a + &b;
                "add_assign"(a: $T, b: $T) { let mut x = a; x += b; x };
                "add_assign_ref"(a: $T, b: $T) { let mut x = a; x += &b; x };
                "sub"(a: $T, b: $T) a - b;
                "sub_ref"(a: $T, b: $T) a - &b;
                "sub_assign"(a: $T, b: $T) { let mut x = a; x -= b; x };
                "sub_assign_ref"(a: $T, b: $T) { let mut x = a; x -= &b; x };
                "mul"(a: $T, b: $T) a * b;
                "mul_ref"(a: $T, b: $T) a * &b;
                "mul_assign"(a: $T, b: $T) { let mut x = a; x *= b; x };
                "mul_assign_ref"(a: $T, b: $T) { let mut x = a; x *= &b; x };
                "div"(a: $T, b: $T) a / b;
                "div_ref"(a: $T, b: $T) a / &b;
                "div_assign"(a: $T, b: $T) { let mut x = a; x /= b; x };
                "div_assign_ref"(a: $T, b: $T) { let mut x = a; x /= &b; x };
                "rem"(a: $T, b: $T) a % b;
                "rem_ref"(a: $T, b: $T) a % &b;
                "rem_assign"(a: $T, b: $T) { let mut x = a; x %= b; x };
                "rem_assign_ref"(a: $T, b: $T) { let mut x = a; x %= &b; x };
                "pow"(a: $T, e: u32) a.pow(e);
                "next_multiple_of"(a: $T, b: $T) a.next_multiple_of(b);
                "div_rem"(a: $T, b: $T) a.div_rem(b);
                "div_euclid"(a: $T, b: $T) a.div_euclid(b);
                "rem_euclid"(a: $T, b: $T) a.rem_euclid(b);
                "div_floor"(a: $T, b: $T) a.div_floor(b);
                "div_ceil"(a: $T, b: $T) a.div_ceil(b);
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "next_power_of_two"(a: $T) a.next_power_of_two();
            });
        };
    }
    unsigned!(uns);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "neg"(a: $T) -a;
                "neg_ref"(a: $T) -&a;
                "abs"(a: $T) a.abs();
            });
        };
    }
    signed!(sig);

    // Scalar forms.
    let specs = scalar_specs(&[("", Form::Plain)]);
    macro_rules! call {
        ($T:ident, $S:ty; $($m:ident)*) => {
            join(out, &specs, $T::TY, &[$(
                (stringify!($m), (|args: &Args| {
                    let a = <$T as FromArg>::fa(&args[0]);
                    let b = <$S as FromArg>::fa(&args[1]);
                    a.$m(b).r()
                }) as ActFn, &[Some($T::TY), None],
                (&[("a", stringify!($T)), ("b", stringify!($S))], concat!("a.", stringify!($m), "(b)"))),
            )*]);
        };
    }
    macro_rules! both {
        ($T:ident, $O:ident) => {
            call!($T, i256::ULimb; add_ulimb sub_ulimb mul_ulimb div_rem_ulimb div_ulimb rem_ulimb);
            call!($T, i256::UWide; add_uwide sub_uwide mul_uwide div_rem_uwide div_uwide rem_uwide);
            call!($T, u32; add_u32 sub_u32 mul_u32 div_rem_u32 div_u32 rem_u32);
            call!($T, u64; add_u64 sub_u64 mul_u64 div_rem_u64 div_u64 rem_u64);
            call!($T, u128; add_u128 sub_u128 mul_u128 div_rem_u128 div_u128 rem_u128);
        };
    }
    all!(both);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            call!($T, i256::ILimb; add_ilimb sub_ilimb mul_ilimb div_rem_ilimb div_ilimb rem_ilimb);
            call!($T, i256::IWide; add_iwide sub_iwide mul_iwide div_rem_iwide div_iwide rem_iwide);
            call!($T, i32; add_i32 sub_i32 mul_i32 div_rem_i32 div_i32 rem_i32);
            call!($T, i64; add_i64 sub_i64 mul_i64 div_rem_i64 div_i64 rem_i64);
            call!($T, i128; add_i128 sub_i128 mul_i128 div_rem_i128 div_i128 rem_i128);
        };
    }
    signed!(sig);

    // Those of P06, if it takes part.
    if !cfg!(feature = "p06") {
        shift_ops(out);
    }
}
