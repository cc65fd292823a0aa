//! Arrays of bytes, limbs and words.

use super::*;

#[derive(Clone, Copy, PartialEq)]
#[allow(clippy::upper_case_acronyms)]
enum Order {
    BE,
    LE,
    NE,
}

fn big(o: Order) -> bool {
    o == Order::BE || (o == Order::NE && big_endian())
}

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
fn kept(_: &Ty, a: &Args) -> R {
    R::Z(a[0].z().clone())
}

fn digit_list(t: &Ty, a: &Z, w: u32, o: Order) -> Vec<Z> {
    let bytes = a.to_le(t.bits as usize / 8);
    let mut v: Vec<Z> = bytes.chunks(w as usize / 8).map(|c| Z::from_le(c, false)).collect();
    if big(o) {
        v.reverse();
    }
    v
}
/// The digits of `w` bits, in the given order.
fn digits(t: &Ty, a: &Z, w: u32, o: Order) -> R {
    R::T(digit_list(t, a, w, o).into_iter().map(R::Z).collect())
}
/// The same as an array of primitives.
fn array<P: Prim + FromArg + std::fmt::Debug, const N: usize>(t: &Ty, a: &Le, o: Order) -> [P; N] {
    let bytes = &a.0[..t.bits as usize / 8];
    let digits = bytes.chunks(P::TY.bits as usize / 8).map(|c| P::fa(&Arg::Raw(c.to_vec())));
    let mut v: Vec<P> = digits.collect();
    if big(o) {
        v.reverse();
    }
    v.try_into().expect("length of the array")
}
fn swapped(t: &Ty, a: &Args, o: Order) -> R {
    if big(o) == big_endian() {
        R::Z(a[0].z().clone())
    } else {
        let mut b = a[0].z().to_le(t.bits as usize / 8);
        b.reverse();
        R::Z(Z::from_le(&b, t.signed))
    }
}
/// A value and an index, in range or not.
fn g_index(w: u32) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let n = (ty.bits / w) as u64;
        let i = match t.below(16) {
            0 => n,
            1 => n + t.below(3),
            2 => 2 * n - t.below(2),
            3 => match t.below(4) {
                0 => usize::ty().max().to_u128().expect("usize") as u64,
                1 => (1 << (pointer_bits() - 1)) - 1 + t.below(3),
                2 => 1 << t.below(pointer_bits() as u64),
                _ => t.next() >> (64 - pointer_bits()),
            },
            _ => t.below(n),
        };
        zs([gen::val(t, ty), Z::from_u128(i as u128)])
    }
}
fn indexed(w: u32) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let n = t.bits / w;
        if a[1].z().lt(&Z::i(n as i64)) {
            let u = t.unsigned().wrap(a[0].z());
            R::Z(Ty::u(w).wrap(&u.shr(a[1].z().u32() * w)))
        } else {
            R::Panic
        }
    }
}

pub fn ops(out: &mut Vec<Op>) {
    let specs = [
        spec("to_be_bytes", g1, |t, a| digits(t, a[0].z(), 8, Order::BE)),
        spec("from_be_bytes", g1, kept),
        spec("to_le_bytes", g1, |t, a| digits(t, a[0].z(), 8, Order::LE)),
        spec("from_le_bytes", g1, kept),
        spec("to_ne_bytes", g1, |t, a| digits(t, a[0].z(), 8, Order::NE)),
        spec("from_ne_bytes", g1, kept),
        spec("bytes_there_and_back", g1, |_, a| R::T(vec![R::Z(a[0].z().clone()); 3])),
        spec("to_be_limbs", g1, |t, a| digits(t, a[0].z(), LIMB, Order::BE)),
        spec("from_be_limbs", g1, kept),
        spec("to_le_limbs", g1, |t, a| digits(t, a[0].z(), LIMB, Order::LE)),
        spec("from_le_limbs", g1, kept),
        spec("to_ne_limbs", g1, |t, a| digits(t, a[0].z(), LIMB, Order::NE)),
        spec("from_ne_limbs", g1, kept),
        spec("limbs_there_and_back", g1, |_, a| R::T(vec![R::Z(a[0].z().clone()); 3])),
        spec("to_be_wide", g1, |t, a| digits(t, a[0].z(), 2 * LIMB, Order::BE)),
        spec("from_be_wide", g1, kept),
        spec("to_le_wide", g1, |t, a| digits(t, a[0].z(), 2 * LIMB, Order::LE)),
        spec("from_le_wide", g1, kept),
        spec("to_ne_wide", g1, |t, a| digits(t, a[0].z(), 2 * LIMB, Order::NE)),
        spec("from_ne_wide", g1, kept),
        spec("wide_there_and_back", g1, |_, a| R::T(vec![R::Z(a[0].z().clone()); 3])),
        spec("to_be_u32", g1, |t, a| digits(t, a[0].z(), 32, Order::BE)),
        spec("from_be_u32", g1, kept),
        spec("to_le_u32", g1, |t, a| digits(t, a[0].z(), 32, Order::LE)),
        spec("from_le_u32", g1, kept),
        spec("to_ne_u32", g1, |t, a| digits(t, a[0].z(), 32, Order::NE)),
        spec("from_ne_u32", g1, kept),
        spec("u32_there_and_back", g1, |_, a| R::T(vec![R::Z(a[0].z().clone()); 3])),
        spec("to_be_u64", g1, |t, a| digits(t, a[0].z(), 64, Order::BE)),
        spec("from_be_u64", g1, kept),
        spec("to_le_u64", g1, |t, a| digits(t, a[0].z(), 64, Order::LE)),
        spec("from_le_u64", g1, kept),
        spec("to_ne_u64", g1, |t, a| digits(t, a[0].z(), 64, Order::NE)),
        spec("from_ne_u64", g1, kept),
        spec("u64_there_and_back", g1, |_, a| R::T(vec![R::Z(a[0].z().clone()); 3])),
        spec("from_be", g1, |t, a| swapped(t, a, Order::BE)),
        spec("from_le", g1, |t, a| swapped(t, a, Order::LE)),
        spec("to_be", g1, |t, a| swapped(t, a, Order::BE)),
        spec("to_le", g1, |t, a| swapped(t, a, Order::LE)),
        spec("get_limb", g_index(LIMB), indexed(LIMB)).weight(200),
        spec("get_wide", g_index(2 * LIMB), indexed(2 * LIMB)).weight(200),
        spec("least_significant_limb", g1, |_, a| R::Z(Ty::u(LIMB).wrap(a[0].z()))),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "to_be_bytes"(a: $T) a.to_be_bytes();
                "from_be_bytes"(a: Le) <$T>::from_be_bytes(array::<u8, _>(&$T::TY, &a, Order::BE));
                "to_le_bytes"(a: $T) a.to_le_bytes();
                "from_le_bytes"(a: Le) <$T>::from_le_bytes(array::<u8, _>(&$T::TY, &a, Order::LE));
                "to_ne_bytes"(a: $T) a.to_ne_bytes();
                "from_ne_bytes"(a: Le) <$T>::from_ne_bytes(array::<u8, _>(&$T::TY, &a, Order::NE));
                "bytes_there_and_back"(a: $T) [
                    <$T>::from_be_bytes(a.to_be_bytes()),
                    <$T>::from_le_bytes(a.to_le_bytes()),
                    <$T>::from_ne_bytes(a.to_ne_bytes()),
                ];
                "to_be_limbs"(a: $T) a.to_be_limbs();
                "from_be_limbs"(a: Le) <$T>::from_be_limbs(array::<i256::ULimb, _>(&$T::TY, &a, Order::BE));
                "to_le_limbs"(a: $T) a.to_le_limbs();
                "from_le_limbs"(a: Le) <$T>::from_le_limbs(array::<i256::ULimb, _>(&$T::TY, &a, Order::LE));
                "to_ne_limbs"(a: $T) a.to_ne_limbs();
                "from_ne_limbs"(a: Le) <$T>::from_ne_limbs(array::<i256::ULimb, _>(&$T::TY, &a, Order::NE));
                "limbs_there_and_back"(a: $T) [
                    <$T>::from_be_limbs(a.to_be_limbs()),
                    <$T>::from_le_limbs(a.to_le_limbs()),
                    <$T>::from_ne_limbs(a.to_ne_limbs()),
                ];
                "to_be_wide"(a: $T) a.to_be_wide();
                "from_be_wide"(a: Le) <$T>::from_be_wide(array::<i256::UWide, _>(&$T::TY, &a, Order::BE));
                "to_le_wide"(a: $T) a.to_le_wide();
                "from_le_wide"(a: Le) <$T>::from_le_wide(array::<i256::UWide, _>(&$T::TY, &a, Order::LE));
                "to_ne_wide"(a: $T) a.to_ne_wide();
                "from_ne_wide"(a: Le) <$T>::from_ne_wide(array::<i256::UWide, _>(&$T::TY, &a, Order::NE));
                "wide_there_and_back"(a: $T) [
                    <$T>::from_be_wide(a.to_be_wide()),
                    <$T>::from_le_wide(a.to_le_wide()),
                    <$T>::from_ne_wide(a.to_ne_wide()),
                ];
                "to_be_u32"(a: $T) a.to_be_u32();
                "from_be_u32"(a: Le) <$T>::from_be_u32(array::<u32, _>(&$T::TY, &a, Order::BE));
                "to_le_u32"(a: $T) a.to_le_u32();
                "from_le_u32"(a: Le) <$T>::from_le_u32(array::<u32, _>(&$T::TY, &a, Order::LE));
                "to_ne_u32"(a: $T) a.to_ne_u32();
                "from_ne_u32"(a: Le) <$T>::from_ne_u32(array::<u32, _>(&$T::TY, &a, Order::NE));
                "u32_there_and_back"(a: $T) [
                    <$T>::from_be_u32(a.to_be_u32()),
                    <$T>::from_le_u32(a.to_le_u32()),
                    <$T>::from_ne_u32(a.to_ne_u32()),
                ];
                "to_be_u64"(a: $T) a.to_be_u64();
                "from_be_u64"(a: Le) <$T>::from_be_u64(array::<u64, _>(&$T::TY, &a, Order::BE));
                "to_le_u64"(a: $T) a.to_le_u64();
                "from_le_u64"(a: Le) <$T>::from_le_u64(array::<u64, _>(&$T::TY, &a, Order::LE));
                "to_ne_u64"(a: $T) a.to_ne_u64();
                "from_ne_u64"(a: Le) <$T>::from_ne_u64(array::<u64, _>(&$T::TY, &a, Order::NE));
                "u64_there_and_back"(a: $T) [
                    <$T>::from_be_u64(a.to_be_u64()),
                    <$T>::from_le_u64(a.to_le_u64()),
                    <$T>::from_ne_u64(a.to_ne_u64()),
                ];
                "from_be"(a: $T) <$T>::from_be(a);
                "from_le"(a: $T) <$T>::from_le(a);
                "to_be"(a: $T) a.to_be();
                "to_le"(a: $T) a.to_le();
                "get_limb"(a: $T, i: usize) a.get_limb(i);
                "get_wide"(a: $T, i: usize) a.get_wide(i);
                "least_significant_limb"(a: $T) a.least_significant_limb();
            });
        };
    }
    all!(both);
}
