//! Shifts and rotations.

use super::*;

fn g(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty), Z::i(gen::shift(t, ty.bits) as i64)])
}
fn g_in(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty), Z::i(gen::shift_in(t, ty.bits) as i64)])
}

fn shl(t: &Ty, a: &Args, k: u32) -> R {
    R::Z(t.wrap(&a[0].z().shl(k)))
}
fn shr(_: &Ty, a: &Args, k: u32) -> R {
    R::Z(a[0].z().shr(k))
}
type Shift = fn(&Ty, &Args, u32) -> R;

fn rotl(t: &Ty, a: &Z, k: u32) -> R {
    let b = t.bitvec(a);
    let n = b.len();
    R::Z(t.from_bitvec(&(0..n).map(|i| b[(i + n - k as usize) % n]).collect::<Vec<_>>()))
}

pub fn ops(out: &mut Vec<Op>) {
    let mut specs = Vec::new();
    let dirs: [(&'static str, Shift); 2] = [("shl", shl), ("shr", shr)];
    for (name, f) in dirs {
        let n = |form: &str| -> &'static str {
            Box::leak(format!("{form}_{name}").into_boxed_str())
        };
        specs.push(spec(n("wrapping"), g, move |t, a| f(t, a, a[1].z().u32() % t.bits)));
        specs.push(spec(n("overflowing"), g, move |t, a| {
            let k = a[1].z().u32();
            R::T(vec![f(t, a, k % t.bits), R::B(k >= t.bits)])
        }));
        specs.push(spec(n("checked"), g, move |t, a| match a[1].z().u32() {
            k if k < t.bits => R::some(f(t, a, k)),
            _ => R::None,
        }));
        specs.push(spec(n("strict"), g, move |t, a| match a[1].z().u32() {
            k if k < t.bits => f(t, a, k),
            _ => R::Panic,
        }));
        specs.push(spec(n("unbounded"), g, move |t, a| match a[1].z().u32() {
            k if k < t.bits => f(t, a, k),
            _ => R::Z(Z::zero()),
        }));
        specs.push(spec(n("unchecked"), g_in, move |t, a| f(t, a, a[1].z().u32())));
    }
    specs.push(spec("rotate_left", g, |t, a| rotl(t, a[0].z(), a[1].z().u32() % t.bits)));
    specs.push(spec("rotate_right", g, |t, a| {
        rotl(t, a[0].z(), (t.bits - a[1].z().u32() % t.bits) % t.bits)
    }));
    specs.push(spec("rotate_there_and_back", g, |_, a| {
        R::T(vec![R::Z(a[0].z().clone()), R::Z(a[0].z().clone())])
    }));
    let specs: Vec<Spec> = specs.into_iter().map(|s| s.weight(250)).collect();
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "wrapping_shl"(a: $T, k: u32) a.wrapping_shl(k);
                "wrapping_shr"(a: $T, k: u32) a.wrapping_shr(k);
                "checked_shl"(a: $T, k: u32) a.checked_shl(k);
                "checked_shr"(a: $T, k: u32) a.checked_shr(k);
                "strict_shl"(a: $T, k: u32) a.strict_shl(k);
                "strict_shr"(a: $T, k: u32) a.strict_shr(k);
                "unbounded_shl"(a: $T, k: u32) a.unbounded_shl(k);
                "unbounded_shr"(a: $T, k: u32) a.unbounded_shr(k);
                "unchecked_shl"(a: $T, k: u32) unsafe { a.unchecked_shl(k) };
                "unchecked_shr"(a: $T, k: u32) unsafe { a.unchecked_shr(k) };
                "rotate_left"(a: $T, k: u32) a.rotate_left(k);
                "rotate_right"(a: $T, k: u32) a.rotate_right(k);
                "rotate_there_and_back"(a: $T, k: u32)
                    (a.rotate_left(k).rotate_right(k), a.rotate_right(k).rotate_left(k));
            });
        };
    }
    all!(both);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "overflowing_shl"(a: $T, k: u32) a.overflowing_shl(k);
                "overflowing_shr"(a: $T, k: u32) a.overflowing_shr(k);
            });
        };
    }
    signed!(sig);
    shift_ops(out);
}
