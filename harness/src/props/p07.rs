//! Bitwise logic, counts, reversal and the accessors of parts.

use super::*;

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::pair(t, ty, ty);
    zs([a, b])
}
/// A value and the index of one of its pieces of `w` bits.
fn g_piece(w: u32) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let i = t.below((ty.bits / w) as u64);
        zs([gen::val(t, ty), Z::i(i as i64)])
    }
}

fn zip(f: fn(bool, bool) -> bool) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let (x, y) = (t.bitvec(a[0].z()), t.bitvec(a[1].z()));
        R::Z(t.from_bitvec(&x.iter().zip(&y).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>()))
    }
}
fn perm(f: fn(usize, usize) -> usize) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let b = t.bitvec(a[0].z());
        R::Z(t.from_bitvec(&(0..b.len()).map(|i| b[f(i, b.len())]).collect::<Vec<_>>()))
    }
}
fn not(t: &Ty, a: &Args) -> R {
    let b: Vec<bool> = t.bitvec(a[0].z()).iter().map(|x| !x).collect();
    R::Z(t.from_bitvec(&b))
}
fn run(bit: bool, leading: bool) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let mut b = t.bitvec(a[0].z());
        if leading {
            b.reverse();
        }
        R::Z(Z::i(b.iter().take_while(|x| **x == bit).count() as i64))
    }
}
fn count(bit: bool) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| R::Z(Z::i(t.bitvec(a[0].z()).iter().filter(|x| **x == bit).count() as i64))
}
/// Bits `[lo, lo + len)` as a number of the given type.
fn part(t: &Ty, a: &Z, lo: u32, as_ty: Ty) -> R {
    let u = t.unsigned().wrap(a).shr(lo);
    R::Z(as_ty.wrap(&u))
}

pub fn ops(out: &mut Vec<Op>) {
    let mut specs = Vec::new();
    let logic: [(&str, fn(bool, bool) -> bool); 3] =
        [("and", |x, y| x & y), ("or", |x, y| x | y), ("xor", |x, y| x ^ y)];
    for (name, f) in logic {
        for form in ["const", "val", "ref", "assign", "assign_ref"] {
            let n: &'static str = Box::leak(format!("{name}_{form}").into_boxed_str());
            specs.push(spec(n, g2, zip(f)));
        }
    }
    specs.push(spec("not_const", g1, not));
    specs.push(spec("not", g1, not));
    specs.push(spec("not_ref", g1, not));
    specs.push(spec("count_ones", g1, count(true)));
    specs.push(spec("count_zeros", g1, count(false)));
    specs.push(spec("leading_zeros", g1, run(false, true)).weight(300));
    specs.push(spec("leading_ones", g1, run(true, true)).weight(300));
    specs.push(spec("trailing_zeros", g1, run(false, false)).weight(300));
    specs.push(spec("trailing_ones", g1, run(true, false)).weight(300));
    specs.push(spec("swap_bytes", g1, perm(|i, n| (n / 8 - 1 - i / 8) * 8 + i % 8)));
    specs.push(spec("reverse_bits", g1, perm(|i, n| n - 1 - i)));
    specs.push(spec("swap_bytes_twice", g1, perm(|i, _| i)));
    specs.push(spec("reverse_bits_twice", g1, perm(|i, _| i)));
    specs.push(spec("is_even", g1, |_, a| R::B(!a[0].z().is_odd())));
    specs.push(spec("is_odd", g1, |_, a| R::B(a[0].z().is_odd())));
    specs.push(spec("low", g1, |t, a| part(t, a[0].z(), 0, Ty::u(t.bits / 2))));
    specs.push(spec("high", g1, |t, a| part(t, a[0].z(), t.bits / 2, Ty::u(t.bits / 2))));
    specs.push(spec("least_significant_limb", g1, |t, a| part(t, a[0].z(), 0, Ty::u(LIMB))));
    specs.push(spec("most_significant_limb", g1, |t, a| {
        let top = if t.signed { Ty::s(LIMB) } else { Ty::u(LIMB) };
        part(t, a[0].z(), t.bits - LIMB, top)
    }));
    specs.push(spec("get_limb", g_piece(LIMB), |t, a| {
        part(t, a[0].z(), a[1].z().u32() * LIMB, Ty::u(LIMB))
    }));
    specs.push(spec("get_wide", g_piece(2 * LIMB), |t, a| {
        part(t, a[0].z(), a[1].z().u32() * 2 * LIMB, Ty::u(2 * LIMB))
    }));
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "and_const"(a: $T, b: $T) a.bitand_const(b);
                "and_val"(a: $T, b: $T) a & b;
                "and_ref"(a: $T, b: $T) a & &b;
                "and_assign"(a: $T, b: $T) { let mut x = a; x &= b; x };
                "and_assign_ref"(a: $T, b: $T) { let mut x = a; x &= &b; x };
                "or_const"(a: $T, b: $T) a.bitor_const(b);
                "or_val"(a: $T, b: $T) a | b;
                "or_ref"(a: $T, b: $T) a | &b;
                "or_assign"(a: $T, b: $T) { let mut x = a; x |= b; x };
                "or_assign_ref"(a: $T, b: $T) { let mut x = a; x |= &b; x };
                "xor_const"(a: $T, b: $T) a.bitxor_const(b);
                "xor_val"(a: $T, b: $T) a ^ b;
                "xor_ref"(a: $T, b: $T) a ^ &b;
                "xor_assign"(a: $T, b: $T) { let mut x = a; x ^= b; x };
                "xor_assign_ref"(a: $T, b: $T) { let mut x = a; x ^= &b; x };
                "not_const"(a: $T) a.not_const();
                "not"(a: $T) !a;
                "not_ref"(a: $T) !&a;
                "count_ones"(a: $T) a.count_ones();
                "count_zeros"(a: $T) a.count_zeros();
                "leading_zeros"(a: $T) a.leading_zeros();
                "leading_ones"(a: $T) a.leading_ones();
                "trailing_zeros"(a: $T) a.trailing_zeros();
                "trailing_ones"(a: $T) a.trailing_ones();
                "swap_bytes"(a: $T) a.swap_bytes();
                "reverse_bits"(a: $T) a.reverse_bits();
                "swap_bytes_twice"(a: $T) a.swap_bytes().swap_bytes();
                "reverse_bits_twice"(a: $T) a.reverse_bits().reverse_bits();
                "is_even"(a: $T) a.is_even();
                "is_odd"(a: $T) a.is_odd();
                "least_significant_limb"(a: $T) a.least_significant_limb();
                "most_significant_limb"(a: $T) a.most_significant_limb();
                "get_limb"(a: $T, i: usize) a.get_limb(i);
                "get_wide"(a: $T, i: usize) a.get_wide(i);
            });
        };
    }
    all!(both);
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "low"(a: $T) a.low();
                "high"(a: $T) a.high();
            });
        };
    }
    unsigned!(uns);
}
