//! Conversions to and from primitives, and between signed and unsigned.

use super::*;

/// Counts as non-trivial: anything but a tiny non-negative value.
fn rule(_: &Ty, a: &Args, e: &R) -> bool {
    let z = a[0].z();
    e.exceptional() || z.neg || z.bits() > 6
}

/// A value of a fixed type.
fn g_of(ty: Ty) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, _| zs([gen::val(t, &ty)])
}
fn g_bool(t: &mut Tape, _: &Ty) -> Args {
    zs([Z::i(t.below(2) as i64)])
}
fn g_char(t: &mut Tape, _: &Ty) -> Args {
    let c = match t.below(8) {
        0 => t.below(128) as u32,
        1 => 0xd7ff - t.below(2) as u32,
        2 => 0xe000 + t.below(2) as u32,
        3 => 0x10ffff - t.below(2) as u32,
        4 => 0xffff + t.below(2) as u32,
        5 => t.below(0xd800) as u32,
        _ => 0xe000 + t.below(0x10ffff - 0xe000 + 1) as u32,
    };
    zs([Z::i(c as i64)])
}
/// A value near what a primitive of `p` can hold.
fn g_to(p: Ty) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let z = match t.below(8) {
            0 | 1 => gen::val(t, &p),
            2 => p.max().addi(t.offset(2)),
            3 => p.min().addi(t.offset(2)),
            // The low part is one thing, the high part another.
            4 => gen::val(t, ty).shl(p.bits).add(&gen::val(t, &p)),
            _ => gen::val(t, ty),
        };
        zs([ty.wrap(&z)])
    }
}
fn g_self(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
/// A value of `from`, often at a limit of the type of the other sign.
fn g_across(t: &mut Tape, from: &Ty) -> Args {
    let to = from.other();
    let z = match t.below(4) {
        0 => to.max().addi(t.offset(2)),
        1 => to.min().addi(t.offset(2)),
        _ => gen::val(t, from),
    };
    zs([from.wrap(&z)])
}
fn g_other(t: &mut Tape, ty: &Ty) -> Args {
    g_across(t, &ty.other())
}

fn kept(_: &Ty, a: &Args) -> R {
    R::Z(a[0].z().clone())
}
fn wrapped(t: &Ty, a: &Args) -> R {
    R::Z(t.wrap(a[0].z()))
}
fn tried(t: &Ty, a: &Args) -> R {
    if t.fits(a[0].z()) {
        R::some(R::Z(a[0].z().clone()))
    } else {
        R::Err
    }
}

fn to_char(z: u32) -> char {
    char::from_u32(z).expect("generated a scalar value")
}

pub fn ops(out: &mut Vec<Op>) {
    macro_rules! prim {
        ($T:ident, $p:ty, $from:ident, $as:ident) => {{
            let p = <$p as Prim>::ty();
            let specs = [
                spec(stringify!($from), g_of(p), wrapped).weight(60).rule(rule),
                spec(stringify!($as), g_to(p), move |_, a| R::Z(p.wrap(a[0].z())))
                    .weight(120)
                    .rule(rule),
            ];
            let acts: [Act; 2] = [
                (stringify!($from), |a| <$T>::$from(<$p>::fa(&a[0])).r(), &[None],
                    (&[("x", stringify!($p))], concat!(stringify!($T), "::", stringify!($from), "(x)"))),
                (stringify!($as), |a| <$T>::fa(&a[0]).$as().r(), &[Some($T::TY)],
                    (&[("a", stringify!($T))], concat!("a.", stringify!($as), "()"))),
            ];
            join(out, &specs, $T::TY, &acts);
        }};
    }
    macro_rules! from {
        ($T:ident, $p:ty, $exp:ident, $name:literal, $e:expr) => {{
            let specs = [spec($name, g_of(<$p as Prim>::ty()), $exp).weight(60).rule(rule)];
            join(out, &specs, $T::TY, &[($name, (|a| {
                let f: fn($p) -> R = $e;
                f(<$p>::fa(&a[0]))
            }) as ActFn, &[None], UNWRITTEN)]);
        }};
    }
    let small = [
        spec("from_bool", g_bool, kept).weight(2).rule(|_, a, _| !a[0].z().is_zero()),
        spec("from_char", g_char, kept).weight(60).rule(rule),
    ];
    let same = [
        spec("from_unsigned", |t: &mut Tape, ty: &Ty| zs([gen::val(t, &ty.unsigned())]), wrapped),
        spec("from_signed", |t: &mut Tape, ty: &Ty| zs([gen::val(t, &Ty::s(ty.bits))]), wrapped),
        spec("as_unsigned", g_self, |t, a| R::Z(Ty::u(t.bits).wrap(a[0].z()))),
        spec("as_signed", g_self, |t, a| R::Z(Ty::s(t.bits).wrap(a[0].z()))),
        spec("cast_other", g_self, |t, a| R::Z(t.other().wrap(a[0].z()))),
        spec("cast_and_back", g_self, kept),
        spec("try_from_other", g_other, tried).weight(300),
        spec("try_into_other", g_across, |t, a| tried(&t.other(), a)).weight(300),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            prim!($T, u8, from_u8, as_u8);
            prim!($T, u16, from_u16, as_u16);
            prim!($T, u32, from_u32, as_u32);
            prim!($T, u64, from_u64, as_u64);
            prim!($T, u128, from_u128, as_u128);
            prim!($T, i8, from_i8, as_i8);
            prim!($T, i16, from_i16, as_i16);
            prim!($T, i32, from_i32, as_i32);
            prim!($T, i64, from_i64, as_i64);
            prim!($T, i128, from_i128, as_i128);
            prim!($T, i256::ULimb, from_ulimb, as_ulimb);
            prim!($T, i256::ILimb, from_ilimb, as_ilimb);
            prim!($T, i256::UWide, from_uwide, as_uwide);
            prim!($T, i256::IWide, from_iwide, as_iwide);
            from!($T, u8, kept, "From<u8>", |x| <$T>::from(x).r());
            from!($T, u16, kept, "From<u16>", |x| <$T>::from(x).r());
            from!($T, u32, kept, "From<u32>", |x| <$T>::from(x).r());
            from!($T, u64, kept, "From<u64>", |x| <$T>::from(x).r());
            from!($T, u128, kept, "From<u128>", |x| <$T>::from(x).r());
            from!($T, i8, tried, "TryFrom<i8>", |x| <$T>::try_from(x).r());
            from!($T, i16, tried, "TryFrom<i16>", |x| <$T>::try_from(x).r());
            from!($T, i32, tried, "TryFrom<i32>", |x| <$T>::try_from(x).r());
            from!($T, i64, tried, "TryFrom<i64>", |x| <$T>::try_from(x).r());
            from!($T, i128, tried, "TryFrom<i128>", |x| <$T>::try_from(x).r());
            join(out, &small, $T::TY, acts! {
                "from_bool"(x: bool) <$T>::from(x);
                "from_char"(x: u32) <$T>::from(to_char(x));
            });
            join(out, &same, $T::TY, acts! {
                "as_unsigned"(a: $T) a.as_unsigned();
                "as_signed"(a: $T) a.as_signed();
                "try_from_other"(a: $O) <$T>::try_from(a);
                "try_into_other"(a: $T) <$O>::try_from(a);
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &same, $T::TY, acts! {
                "from_unsigned"(a: $T) <$T>::from_unsigned(a);
                "from_signed"(a: $O) <$T>::from_signed(a);
                "cast_other"(a: $T) a.cast_signed();
                "cast_and_back"(a: $T) a.cast_signed().cast_unsigned();
            });
        };
    }
    unsigned!(uns);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            from!($T, i8, kept, "From<i8>", |x| <$T>::from(x).r());
            from!($T, i16, kept, "From<i16>", |x| <$T>::from(x).r());
            from!($T, i32, kept, "From<i32>", |x| <$T>::from(x).r());
            from!($T, i64, kept, "From<i64>", |x| <$T>::from(x).r());
            from!($T, i128, kept, "From<i128>", |x| <$T>::from(x).r());
            join(out, &same, $T::TY, acts! {
                "from_unsigned"(a: $O) <$T>::from_unsigned(a);
                "from_signed"(a: $T) <$T>::from_signed(a);
                "cast_other"(a: $T) a.cast_unsigned();
                "cast_and_back"(a: $T) a.cast_unsigned().cast_signed();
            });
        };
    }
    signed!(sig);
}
