//! The shift operators, for every type of distance and every spelling.

use super::*;

/// A value and a distance of type `td`.
fn g(td: Option<Ty>) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let a = gen::val(t, ty);
        let td = td.unwrap_or(*ty);
        let k = match t.below(8) {
            // Any value of the type of the distance.
            0 => gen::val(t, &td),
            // Just out of range, negative included.
            1 => {
                let z = match t.below(4) {
                    0 => Z::i(ty.bits as i64),
                    1 => Z::i(-1),
                    2 => td.max(),
                    _ => td.min(),
                };
                td.wrap(&z.addi(t.offset(2)))
            }
            // In range, except if an 8-bit type cannot say so.
            _ => {
                let z = Z::i(gen::shift_in(t, ty.bits) as i64);
                if td.fits(&z) {
                    z
                } else {
                    z.divrem_small(td.max().to_u128().map_or(u32::MAX, |x| x as u32)).0
                }
            }
        };
        zs([a, k])
    }
}

fn expect(left: bool) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let (x, k) = (a[0].z(), a[1].z());
        let bits = Z::i(t.bits as i64);
        let n = if !k.neg && k.lt(&bits) {
            k.u32()
        } else if OVF {
            return R::Panic;
        } else if t.bits.is_power_of_two() || (!k.neg && k.bits() <= 32) {
            // The high-order bits of the distance are dropped.
            k.divfloor(&bits).1.u32()
        } else {
            // No power of two divides the width evenly and the distance is not
            // a u32: nothing is documented.
            return R::Free;
        };
        R::Z(if left { t.wrap(&x.shl(n)) } else { x.shr(n) })
    }
}

pub fn shift_ops(out: &mut Vec<Op>) {
    macro_rules! prim {
        ($T:ident, $D:ident) => {{
            let ty = <$D as Prim>::ty();
            let name = |s: &str| joined(s, stringify!($D));
            let none = cfg!(miri);
            let specs: Vec<Spec> = if none { vec![] } else { ["shl", "shl_ref", "shl_assign", "shl_assign_ref"]
                .iter()
                .map(|s| spec(name(s), g(Some(ty)), expect(true)))
                .chain(
                    ["shr", "shr_ref", "shr_assign", "shr_assign_ref"]
                        .iter()
                        .map(|s| spec(name(s), g(Some(ty)), expect(false))),
                )
                .map(|s| s.weight(40))
                .collect() };
            let acts: &[Act] = acts! {
                "shl"(a: $T, k: $D) a << k;
                "shl_ref"(a: $T, k: $D) a << &k;
                "shl_assign"(a: $T, k: $D) { let mut x = a; x <<= k; x };
                "shl_assign_ref"(a: $T, k: $D) { let mut x = a; x <<= &k; x };
                "shr"(a: $T, k: $D) a >> k;
                "shr_ref"(a: $T, k: $D) a >> &k;
                "shr_assign"(a: $T, k: $D) { let mut x = a; x >>= k; x };
                "shr_assign_ref"(a: $T, k: $D) { let mut x = a; x >>= &k; x };
            };
            let acts: Vec<_> = acts.iter().map(|(s, f, b, e)| (name(s), *f, *b, *e)).collect();
            join(out, &specs, $T::TY, &acts);
        }};
    }
    macro_rules! both {
        ($T:ident, $O:ident) => {
            prim!($T, u8);
            prim!($T, u16);
            prim!($T, u32);
            prim!($T, u64);
            prim!($T, u128);
            prim!($T, usize);
            prim!($T, i8);
            prim!($T, i16);
            prim!($T, i32);
            prim!($T, i64);
            prim!($T, i128);
            prim!($T, isize);
            let other = <$O as Big>::TY;
            let specs = vec![
                spec("shl_self", g(None), expect(true)),
                spec("shl_self_ref", g(None), expect(true)),
                spec("shl_ref_ref", g(None), expect(true)),
                spec("shr_self", g(None), expect(false)),
                spec("shr_self_ref", g(None), expect(false)),
                spec("shr_ref_ref", g(None), expect(false)),
                spec("shl_other", g(Some(other)), expect(true)),
                spec("shl_other_ref", g(Some(other)), expect(true)),
                spec("shl_assign_other", g(Some(other)), expect(true)),
                spec("shl_assign_other_ref", g(Some(other)), expect(true)),
                spec("shr_other", g(Some(other)), expect(false)),
                spec("shr_other_ref", g(Some(other)), expect(false)),
                spec("shr_assign_other", g(Some(other)), expect(false)),
                spec("shr_assign_other_ref", g(Some(other)), expect(false)),
            ];
            join(out, &specs, $T::TY, acts! {
                "shl_self"(a: $T, k: $T) a << k;
                "shl_self_ref"(a: $T, k: $T) a << &k;
                "shl_ref_ref"(a: $T, k: $T) &a << &k;
                "shr_self"(a: $T, k: $T) a >> k;
                "shr_self_ref"(a: $T, k: $T) a >> &k;
                "shr_ref_ref"(a: $T, k: $T) &a >> &k;
                "shl_other"(a: $T, k: $O) a << k;
                "shl_other_ref"(a: $T, k: $O) a << &k;
                "shl_assign_other"(a: $T, k: $O) { let mut x = a; x <<= k; x };
                "shl_assign_other_ref"(a: $T, k: $O) { let mut x = a; x <<= &k; x };
                "shr_other"(a: $T, k: $O) a >> k;
                "shr_other_ref"(a: $T, k: $O) a >> &k;
                "shr_assign_other"(a: $T, k: $O) { let mut x = a; x >>= k; x };
                "shr_assign_other_ref"(a: $T, k: $O) { let mut x = a; x >>= &k; x };
            });
        };
    }
    all!(both);
}
