//! Comparison, equality, hashing and sign.

use super::*;
use std::cmp::Ordering::{self, *};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

/// Pairs that agree on a prefix, a suffix, or all but one digit.
fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = if t.chance(3) {
        let a = gen::val(t, ty);
        let u = ty.unsigned();
        let k = t.below(ty.bits as u64 + 1) as u32;
        let x = gen::val(t, ty);
        let mask = Z::pow2(k).addi(-1);
        let (ua, ux) = (u.wrap(&a), u.wrap(&x));
        let (lo_a, lo_x) = (ua.divrem(&mask.addi(1)).1, ux.divrem(&mask.addi(1)).1);
        let b = if t.bool() {
            // High bits of a, low bits of x.
            ua.sub(&lo_a).add(&lo_x)
        } else {
            ux.sub(&lo_x).add(&lo_a)
        };
        (a, ty.wrap(&b))
    } else {
        gen::pair(t, ty, ty)
    };
    zs([a, b])
}
fn g3(t: &mut Tape, ty: &Ty) -> Args {
    let v = g2(t, ty);
    let (a, b) = (v[0].z().clone(), v[1].z().clone());
    let (_, c) = gen::pair(t, ty, ty);
    let mut w = [a, b, c];
    // Rotate so that the related pair is not always the first.
    w.rotate_left(t.below(3) as usize);
    let [x, lo, hi] = w;
    // Mostly a legal interval.
    if t.chance(8) || lo.le(&hi) {
        zs([x, lo, hi])
    } else {
        zs([x, hi, lo])
    }
}
fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
/// A value and a mask for taking another route to it.
fn g_eq(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty), gen::val(t, ty)])
}

fn ord(a: &Args) -> Ordering {
    a[0].z().cmp(a[1].z())
}
fn is(f: fn(Ordering) -> bool) -> impl Fn(&Ty, &Args) -> R {
    move |_, a| R::B(f(ord(a)))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn ops(out: &mut Vec<Op>) {
    let cmp = |_: &Ty, a: &Args| R::Z(Z::i(ord(a) as i64));
    let pick = |greater: bool| {
        move |_: &Ty, a: &Args| {
            let first = (ord(a) == Greater) == greater;
            R::Z(a[if first { 0 } else { 1 }].z().clone())
        }
    };
    let mut specs = vec![
        spec("eq_const", g2, is(|o| o == Equal)),
        spec("eq_branched", g2, is(|o| o == Equal)),
        spec("eq", g2, is(|o| o == Equal)),
        spec("ne", g2, is(|o| o != Equal)),
        spec("cmp_const", g2, cmp),
        spec("cmp", g2, cmp),
        spec("partial_cmp", g2, move |t, a| R::some(cmp(t, a))),
        spec("min", g2, pick(false)),
        spec("max", g2, pick(true)),
        spec("clamp", g3, |_, a| {
            let (x, lo, hi) = (a[0].z(), a[1].z(), a[2].z());
            if hi.lt(lo) {
                R::Panic
            } else if x.lt(lo) {
                R::Z(lo.clone())
            } else if hi.lt(x) {
                R::Z(hi.clone())
            } else {
                R::Z(x.clone())
            }
        }),
        spec("hash", g_eq, |_, _| R::B(true)),
        spec("hash_set", g2, is(|o| o == Equal)).weight(30),
        spec("sorted", g3, |_, a| {
            let mut v: Vec<&Z> = a.iter().map(|x| x.z()).collect();
            v.sort_by(|x, y| x.cmp(y));
            R::T(v.into_iter().map(|z| R::Z(z.clone())).collect())
        })
        .weight(50),
        spec("tree_set", g3, |_, a| {
            let mut v: Vec<&Z> = a.iter().map(|x| x.z()).collect();
            v.sort_by(|x, y| x.cmp(y));
            v.dedup_by(|x, y| x == y);
            R::T(v.into_iter().map(|z| R::Z(z.clone())).collect())
        })
        .weight(50),
        spec("limits", g1, |t, _| {
            let (lo, hi) = (R::Z(t.min()), R::Z(t.max()));
            R::T(vec![lo.clone(), hi.clone(), lo, hi, R::Z(Z::zero()), R::B(true), R::Z(Z::i(t.bits as i64))])
        })
        .weight(20),
        spec("is_positive", g1, |_, a| R::B(!a[0].z().neg && !a[0].z().is_zero())),
        spec("is_negative", g1, |_, a| R::B(a[0].z().neg)),
        spec("signum", g1, |_, a| R::Z(Z::i(a[0].z().cmp(&Z::zero()) as i64))),
    ];
    for name in ["lt_const", "lt"] {
        specs.push(spec(name, g2, is(|o| o == Less)));
    }
    for name in ["le_const", "le"] {
        specs.push(spec(name, g2, is(|o| o != Greater)));
    }
    for name in ["gt_const", "gt"] {
        specs.push(spec(name, g2, is(|o| o == Greater)));
    }
    for name in ["ge_const", "ge"] {
        specs.push(spec(name, g2, is(|o| o != Less)));
    }
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "eq_const"(a: $T, b: $T) a.eq_const(b);
                "eq_branched"(a: $T, b: $T) a.eq_branched(b);
                "eq"(a: $T, b: $T) a == b;
                "ne"(a: $T, b: $T) a != b;
                "lt_const"(a: $T, b: $T) a.lt_const(b);
                "le_const"(a: $T, b: $T) a.le_const(b);
                "gt_const"(a: $T, b: $T) a.gt_const(b);
                "ge_const"(a: $T, b: $T) a.ge_const(b);
                "lt"(a: $T, b: $T) a < b;
                "le"(a: $T, b: $T) a <= b;
                "gt"(a: $T, b: $T) a > b;
                "ge"(a: $T, b: $T) a >= b;
                "cmp_const"(a: $T, b: $T) a.cmp_const(b);
                "cmp"(a: $T, b: $T) a.cmp(&b);
                "partial_cmp"(a: $T, b: $T) a.partial_cmp(&b);
                "min"(a: $T, b: $T) a.min(b);
                "max"(a: $T, b: $T) a.max(b);
                "clamp"(a: $T, lo: $T, hi: $T) a.clamp(lo, hi);
                "limits"(a: $T) vec![
                    <$T>::MIN.r(),
                    <$T>::MAX.r(),
                    <$T>::min_value().r(),
                    <$T>::max_value().r(),
                    <$T>::default().r(),
                    (<$T>::MIN <= a && a <= <$T>::MAX && <$T>::IS_SIGNED == (<$T>::MIN != <$T>::default())).r(),
                    <$T>::BITS.r(),
                ];
                "hash"(a: $T, b: $T) {
                    let other = a.wrapping_sub(b).wrapping_add(b);
                    hash(&a) == hash(&other) && hash(&[a, b]) == hash(&[other, b])
                };
                "hash_set"(a: $T, b: $T) {
                    let mut s = HashSet::new();
                    s.insert(a);
                    let found = s.contains(&b);
                    if found == s.insert(b) {
                        panic!("contains and insert disagree");
                    }
                    found
                };
                "sorted"(a: $T, b: $T, c: $T) {
                    let mut v = [a, b, c];
                    v.sort();
                    v
                };
                "tree_set"(a: $T, b: $T, c: $T) {
                    BTreeSet::from([a, b, c]).into_iter().map(|x| x.r()).collect::<Vec<R>>()
                };
            });
        };
    }
    all!(both);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "is_positive"(a: $T) a.is_positive();
                "is_negative"(a: $T) a.is_negative();
                "signum"(a: $T) a.signum();
            });
        };
    }
    signed!(sig);
}
