//! Whole computations: textbook algorithms written with the types under test,
//! text whose exact form is not claimed but must not depend on the build, and
//! random programs over the operations of all other properties.

use super::*;

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([gen::val(t, ty)])
}
fn g2(t: &mut Tape, ty: &Ty) -> Args {
    let (a, b) = gen::div_pair(t, ty, ty);
    zs([a, b])
}
fn g2n(most: u64) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        let (a, b) = gen::pair(t, ty, ty);
        zs([a, b, Z::i(t.below(most + 1) as i64)])
    }
}
/// Three values of at most half the width: products fit.
fn g_half(t: &mut Tape, ty: &Ty) -> Args {
    let mut one = || {
        let k = t.below(ty.bits as u64 / 2) as u32;
        let z = gen::narrow(t, k);
        if ty.signed && t.bool() {
            z.neg()
        } else {
            z
        }
    };
    zs([one(), one(), one()])
}
fn g_exp(t: &mut Tape, ty: &Ty) -> Args {
    let mut a = g_half(t, ty);
    a[2] = Arg::Z(Z::from_u128(a[2].z().to_u128().map_or(1, |x| x | 1)));
    a.push(Arg::Z(Z::i(t.below(1 << 20) as i64)));
    a
}
fn g_small(t: &mut Tape, ty: &Ty) -> Args {
    let mut a = g2n(12)(t, ty);
    let k = t.below(64) as u32;
    a[0] = Arg::Z(gen::narrow(t, k));
    a
}
fn g_six(t: &mut Tape, ty: &Ty) -> Args {
    let mut v = Vec::new();
    for _ in 0..3 {
        let (a, b) = gen::pair(t, ty, ty);
        v.push(Arg::Z(a));
        v.push(Arg::Z(b));
    }
    v
}
fn g_base(t: &mut Tape, ty: &Ty) -> Args {
    let b = match t.below(4) {
        0 => 10,
        1 => 10_000_000_000_000_000_000,
        2 => 1 << (1 + t.below(63)),
        _ => t.next().max(2),
    };
    zs([gen::val(t, ty), Z::from_u128(b as u128)])
}

fn r(z: Z) -> R {
    R::Z(z)
}
fn list(v: Vec<Z>) -> R {
    R::T(v.into_iter().map(R::Z).collect())
}
fn zgcd(a: &Args) -> Z {
    let (mut x, mut y) = (a[0].z().clone(), a[1].z().clone());
    while !y.is_zero() {
        let m = x.divrem(&y).1;
        x = y;
        y = m;
    }
    x
}
fn zroot(n: &Z) -> Z {
    let mut lo = Z::zero();
    for k in (0..n.bits() / 2 + 1).rev() {
        let x = lo.add(&Z::pow2(k));
        if x.mul(&x).le(n) {
            lo = x;
        }
    }
    lo
}
fn zlogic(t: &Ty, a: &Z, b: &Z, f: fn(bool, bool) -> bool) -> Z {
    let (x, y) = (t.bitvec(a), t.bitvec(b));
    t.from_bitvec(&x.iter().zip(&y).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>())
}
fn zxor(t: &Ty, a: &Z, b: &Z) -> Z {
    zlogic(t, a, b, |x, y| x ^ y)
}
fn zrotl(t: &Ty, a: &Z, k: u32) -> Z {
    let b = t.bitvec(a);
    let n = b.len();
    t.from_bitvec(&(0..n).map(|i| b[(i + n - k as usize % n) % n]).collect::<Vec<_>>())
}
fn zswap(t: &Ty, a: &Z) -> Z {
    let mut b = a.to_le(t.bits as usize / 8);
    b.reverse();
    Z::from_le(&b, t.signed)
}

/// The values after each step of `step`, which says that an overflow panics.
fn plain_chain(t: &Ty, a: &Z, b: &Z) -> Option<Vec<Z>> {
    let fit = |z: Z| (!OVF || t.fits(&z)).then(|| t.wrap(&z));
    let c = fit(a.add(b))?;
    let d = fit(c.mul(a))?;
    let e = fit(d.sub(b))?;
    let f = fit(e.mul(&e))?;
    let g = fit(f.addi(1))?;
    Some(vec![c, d, e, f, g])
}

/// All the algorithms are done long before this runs out.
struct Steps(u32);
impl Steps {
    fn new() -> Steps {
        Steps(5000)
    }
    fn step(&mut self) -> bool {
        self.0 = self.0.checked_sub(1).expect("an algorithm that ends");
        true
    }
}

pub fn ops(out: &mut Vec<Op>) {
    program_ops(out, 2000);
    let specs = vec![
        spec("gcd", g2, |t, a| r(t.wrap(&zgcd(a)))).weight(20),
        spec("binary_gcd", g2, |_, a| r(zgcd(a).abs())).weight(20),
        spec("egcd", g_half, |_, a| r(zgcd(a).abs())).weight(20),
        spec("modpow", g_exp, |_, a| {
            let m = a[2].z();
            let mut x = Z::i(1).divrem(m).1;
            let (base, e) = (a[0].z(), a[3].z().u32());
            for k in (0..20).rev() {
                x = x.mul(&x).divrem(m).1;
                if e >> k & 1 == 1 {
                    x = x.mul(base).divrem(m).1;
                }
            }
            r(x)
        })
        .weight(20),
        spec("fibonacci", g2n(300), |t, a| {
            let (mut x, mut y) = (a[0].z().clone(), a[1].z().clone());
            for _ in 0..a[2].z().u32() {
                let s = t.wrap(&x.add(&y));
                x = y;
                y = s;
            }
            list(vec![x, y])
        })
        .weight(20),
        spec("horner", g2n(20), |t, a| {
            let mut x = Z::zero();
            for i in 0..a[2].z().u32() {
                x = t.wrap(&x.mul(a[0].z()).add(a[1].z()).addi(-(i as i64)));
            }
            r(x)
        })
        .weight(20),
        spec("product", g_small, |t, a| {
            let (mut x, mut n) = (Z::i(1), 0);
            for i in 0..a[2].z().u32() {
                let y = x.mul(&a[0].z().addi(i as i64));
                if !t.fits(&y) {
                    break;
                }
                x = y;
                n += 1;
            }
            list(vec![x, Z::i(n)])
        })
        .weight(30),
        spec("square_root", g1, |_, a| r(zroot(&a[0].z().abs()))).weight(10),
        spec("bisection", g1, |_, a| r(zroot(&a[0].z().abs()))).weight(5),
        spec("digits", g_base, |_, a| {
            let mut x = a[0].z().abs();
            let mut v = Vec::new();
            while !x.is_zero() {
                let (q, m) = x.divrem(a[1].z());
                v.push(m);
                x = q;
            }
            v.push(a[0].z().abs());
            list(v)
        })
        .weight(30),
        spec("mixing", g2n(12), |t, a| {
            let (mut x, mut y) = (a[0].z().clone(), a[1].z().clone());
            for i in 0..a[2].z().u32() {
                x = zxor(t, &x, &zrotl(t, &y, 61 * i + 7));
                y = t.wrap(&y.add(&zswap(t, &x)));
                x = t.wrap(&x.mul(&y));
                y = zxor(t, &y, &x.shr(13 * i + 1));
                x = t.wrap(&x.sub(&y.shl(64 * (i % 4) + 3)));
            }
            list(vec![x, y])
        })
        .weight(30),
        spec("xorshift", g2n(12), |t, a| {
            let mut x = a[0].z().clone();
            for _ in 0..a[2].z().u32() {
                x = zxor(t, &x, &t.wrap(&x.shl(113)));
                x = zxor(t, &x, &x.shr(71));
                x = zxor(t, &x, &t.wrap(&x.shl(64)));
            }
            r(x)
        })
        .weight(30),
        spec("count_bits", g1, |t, a| {
            r(Z::i(t.bitvec(a[0].z()).iter().filter(|x| **x).count() as i64))
        })
        .weight(20),
        spec("sorted", g_six, |_, a| {
            let mut v: Vec<Z> = a.iter().map(|x| x.z().clone()).collect();
            v.sort_by(|x, y| x.cmp(y));
            list(v)
        })
        .weight(50),
        spec("plain_chain", g_half, |t, a| match plain_chain(t, a[0].z(), a[1].z()) {
            Some(v) => list(v),
            None => R::Panic,
        }),
        spec("plain_chain_wide", |t: &mut Tape, ty: &Ty| {
            let (a, b) = gen::mul_pair(t, ty, ty);
            zs([a, b])
        }, |t, a| match plain_chain(t, a[0].z(), a[1].z()) {
            Some(v) => list(v),
            None => R::Panic,
        }),
        spec("average", g_six, |t, a| {
            let s = a.iter().fold(Z::zero(), |s, x| s.add(x.z()));
            if t.fits(&s) {
                R::some(r(s.divrem(&Z::i(6)).0))
            } else {
                R::None
            }
        })
        .weight(50),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "gcd"(a: $T, b: $T) {
                    let (mut x, mut y) = (a, b);
                    let mut left = Steps::new();
                    while left.step() && y != <$T>::from_u8(0) {
                        let m = x.wrapping_rem(y);
                        x = y;
                        y = m;
                    }
                    x
                };
                "fibonacci"(a: $T, b: $T, n: u32) {
                    let (mut x, mut y) = (a, b);
                    for _ in 0..n {
                        let s = x.wrapping_add(y);
                        x = y;
                        y = s;
                    }
                    (x, y)
                };
                "horner"(a: $T, b: $T, n: u32) {
                    let mut x = <$T>::from_u8(0);
                    for i in 0..n {
                        x = x.wrapping_mul(a).wrapping_add(b).wrapping_sub(<$T>::from_u32(i));
                    }
                    x
                };
                "product"(a: $T, b: $T, n: u32) {
                    let _ = b;
                    let mut x = <$T>::from_u8(1);
                    let mut done = 0u32;
                    for i in 0..n {
                        match a.checked_add(<$T>::from_u32(i)).and_then(|y| x.checked_mul(y)) {
                            Some(y) => x = y,
                            None => break,
                        }
                        done += 1;
                    }
                    R::T(vec![x.r(), done.r()])
                };
                "mixing"(a: $T, b: $T, n: u32) {
                    let (mut x, mut y) = (a, b);
                    for i in 0..n {
                        x ^= y.rotate_left(61 * i + 7);
                        y = y.wrapping_add(x.swap_bytes());
                        x = x.wrapping_mul(y);
                        y ^= x >> (13 * i + 1);
                        x = x.wrapping_sub(y << (64 * (i % 4) + 3));
                    }
                    (x, y)
                };
                "xorshift"(a: $T, b: $T, n: u32) {
                    let _ = b;
                    let mut x = a;
                    for _ in 0..n {
                        x = x ^ (x << 113u32);
                        x = x ^ (x >> 71u32);
                        x = x ^ (x << 64u32);
                    }
                    x
                };
                "count_bits"(a: $T) {
                    let mut x = a;
                    let mut n = 0u32;
                    let mut left = Steps::new();
                    while left.step() && x != <$T>::from_u8(0) {
                        x &= x.wrapping_sub(<$T>::from_u8(1));
                        n += 1;
                    }
                    n
                };
                "sorted"(a: $T, b: $T, c: $T, d: $T, e: $T, f: $T) {
                    let mut v = [a, b, c, d, e, f];
                    v.sort();
                    v
                };
                "plain_chain"(a: $T, b: $T) {
                    let c = a + b;
                    let d = c * a;
                    let e = d - b;
                    let f = e * e;
                    let g = f + <$T>::from_u8(1);
                    [c, d, e, f, g]
                };
                "plain_chain_wide"(a: $T, b: $T) {
                    let mut x = a;
                    x += b;
                    let c = x;
                    x *= &a;
                    let d = x;
                    x -= b;
                    let e = x;
                    x *= e;
                    let f = x;
                    x += <$T>::from_u8(1);
                    [c, d, e, f, x]
                };
            });
        };
    }
    all!(both);
    // Same result whatever the order of the terms would overflow on the way.
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "binary_gcd"(a: $T, b: $T) {
                    let zero = <$T>::from_u8(0);
                    let (mut x, mut y) = (a, b);
                    if x == zero || y == zero {
                        x | y
                    } else {
                        let k = (x | y).trailing_zeros();
                        x >>= x.trailing_zeros();
                        let mut left = Steps::new();
                        while left.step() && y != zero {
                            y >>= y.trailing_zeros();
                            if x > y {
                                core::mem::swap(&mut x, &mut y);
                            }
                            y = y - x;
                        }
                        x << k
                    }
                };
                "modpow"(a: $T, b: $T, m: $T, e: u32) {
                    let _ = b;
                    let mut x = <$T>::from_u8(1) % m;
                    for k in (0..20).rev() {
                        x = x * x % m;
                        if e >> k & 1 == 1 {
                            x = x * a % m;
                        }
                    }
                    x
                };
                "square_root"(a: $T) {
                    let zero = <$T>::from_u8(0);
                    if a == zero {
                        zero
                    } else {
                        let bits = <$T>::BITS - a.leading_zeros();
                        let mut x = <$T>::from_u8(1) << bits.div_ceil(2);
                        let mut left = Steps::new();
                        loop {
                            left.step();
                            let y = (x + a / x) >> 1u32;
                            if y >= x {
                                break x;
                            }
                            x = y;
                        }
                    }
                };
                "bisection"(a: $T) {
                    let (mut lo, mut hi) = (<$T>::from_u8(0), a);
                    // lo^2 <= a always; done when nothing is left above.
                    let mut left = Steps::new();
                    while left.step() && lo < hi {
                        let mid = lo.midpoint(hi) + <$T>::from_u8((lo.wrapping_add(hi).least_significant_limb() & 1) as u8);
                        match mid.checked_mul(mid) {
                            Some(s) if s <= a => lo = mid,
                            _ => hi = mid - <$T>::from_u8(1),
                        }
                    }
                    lo
                };
                "digits"(a: $T, b: u64) {
                    let mut x = a;
                    let mut v = Vec::new();
                    let mut left = Steps::new();
                    while left.step() && x != <$T>::from_u8(0) {
                        let (q, m) = x.div_rem_u64(b);
                        v.push(m);
                        x = q;
                    }
                    let mut back = <$T>::from_u8(0);
                    let base = <$T>::from_u64(b);
                    for d in v.iter().rev() {
                        back = back * base + <$T>::from_u64(*d);
                    }
                    let mut v: Vec<R> = v.into_iter().map(|d| d.r()).collect();
                    v.push(back.r());
                    v
                };
                "average"(a: $T, b: $T, c: $T, d: $T, e: $T, f: $T) {
                    [a, b, c, d, e, f]
                        .into_iter()
                        .try_fold(<$T>::from_u8(0), |s, x| s.checked_add(x))
                        .map(|s| s.div_u32(6))
                };
            });
        };
    }
    unsigned!(uns);
    macro_rules! sig {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "egcd"(a: $T, b: $T) {
                    let zero = <$T>::from_u8(0);
                    let one = <$T>::from_u8(1);
                    let (mut r0, mut r1) = (a, b);
                    let (mut s0, mut s1) = (one, zero);
                    let (mut t0, mut t1) = (zero, one);
                    let mut left = Steps::new();
                    while left.step() && r1 != zero {
                        let q = r0 / r1;
                        (r0, r1) = (r1, r0 - q * r1);
                        (s0, s1) = (s1, s0 - q * s1);
                        (t0, t1) = (t1, t0 - q * t1);
                    }
                    // The coefficients prove themselves.
                    assert!(a * s0 + b * t0 == r0);
                    r0.abs()
                };
                "square_root"(a: $T) {
                    let zero = <$O>::from_u8(0);
                    let a = a.unsigned_abs();
                    if a == zero {
                        zero
                    } else {
                        let mut x = <$O>::from_u8(1) << (<$O>::BITS - a.leading_zeros()).div_ceil(2);
                        let mut left = Steps::new();
                        loop {
                            left.step();
                            let y = x.wrapping_add(a.wrapping_div(x)).wrapping_shr(1);
                            if y >= x {
                                break x;
                            }
                            x = y;
                        }
                    }
                };
            });
        };
    }
    signed!(sig);

    // Text of no particular form.
    let text = |t: &Ty, _: &Args| {
        let _ = t;
        R::Free
    };
    let specs = vec![
        spec("text_padded", g1, text).weight(100),
        spec("text_exponent", g1, text).weight(100),
        spec("text_radix", |t: &mut Tape, ty: &Ty| zs([gen::val(t, ty), Z::i(2 + t.below(35) as i64)]), text)
            .weight(100),
        spec("text_errors", |t: &mut Tape, _: &Ty| {
            let n = t.below(6);
            let s: String = (0..n).map(|_| *t.pick(&['-', '+', '0', '9', 'z', ' ', '_', 'A', 'é'])).collect();
            let s = if t.chance(4) { s + &"9".repeat(320) } else { s };
            vec![Arg::S(s), Arg::Z(Z::i(2 + t.below(35) as i64))]
        }, text)
        .rule(|_, a, _| !a[0].s().is_empty())
        .weight(100),
        spec("text_narrowing", g1, text).weight(50),
    ];
    macro_rules! text {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "text_padded"(a: $T) R::T(vec![
                    format!("{a:400}|{a:<400}|{a:^400}|{a:>400}|{a:+}|{a:0400}").r(),
                    format!("{a:1100b}|{a:*<1100b}|{a:#01100b}|{a:+b}").r(),
                    format!("{a:400o}|{a:*^400o}|{a:#0400o}|{a:+o}").r(),
                    format!("{a:300x}|{a:*>300x}|{a:#0300x}|{a:+x}|{a:300X}|{a:#0300X}").r(),
                    format!("{a:?}|{a:#?}|{a:400?}|{a:x?}|{a:X?}").r(),
                ]);
                "text_exponent"(a: $T) format!("{a:e}|{a:E}|{a:+e}|{a:.3e}|{a:400e}|{a:#E}|{a:0400E}");
                "text_radix"(a: $T, radix: u32) {
                    let mut b = [b'~'; 1025];
                    String::from_utf8_lossy(a.to_str_radix(&mut b, radix)).to_string()
                };
                "text_errors"(s: String, radix: u32) {
                    let show = |e: i256::ParseIntError| format!("{e}|{e:?}");
                    [
                        <$T>::from_str_radix(&s, radix).map_or_else(show, |x| format!("{x}")),
                        s.parse::<$T>().map_or_else(show, |x| format!("{x}")),
                    ]
                };
                "text_narrowing"(a: $T) <$O>::try_from(a).map_or_else(|e| format!("{e}"), |x| format!("{x}"));
            });
        };
    }
    all!(text);
}
