//! Generators. All of them construct a value in range, none reject.

use crate::tape::Tape;
use crate::z::{Ty, Z};

/// One 64-bit word of a structured value.
fn word(t: &mut Tape) -> u64 {
    match t.below(12) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << 63,
        3 => (1 << 63) - 1,
        4 => 1,
        5 => u64::MAX - 1,
        6 => t.below(4),
        7 => half(t) as u64 | (half(t) as u64) << 32,
        8 => u64::MAX << t.below(64),
        9 => u64::MAX >> t.below(64),
        10 => 1 << t.below(64),
        _ => t.next(),
    }
}

fn half(t: &mut Tape) -> u32 {
    match t.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << 31,
        3 => (1 << 31) - 1,
        4 => 1,
        5 => u32::MAX - 1,
        _ => t.next() as u32,
    }
}

fn from_words(w: &[u64], ty: &Ty) -> Z {
    let mut b = Vec::with_capacity(w.len() * 8);
    for x in w {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b.truncate(ty.bits as usize / 8);
    Z::from_le(&b, ty.signed)
}

/// Any value of the type.
pub fn val(t: &mut Tape, ty: &Ty) -> Z {
    let n = (ty.bits as usize).div_ceil(64);
    let z = match t.below(16) {
        // Small.
        0 => Z::from_u128(t.below(17) as u128),
        // Near the limits of the type.
        1 => {
            let d = t.below(4) as i64;
            if t.bool() {
                ty.min().addi(d)
            } else {
                ty.max().addi(-d)
            }
        }
        // Near a power of two, either sign.
        2 | 3 => {
            let k = t.below(ty.bits as u64 + 1) as u32;
            let z = Z::pow2(k).addi(t.offset(2));
            if t.bool() {
                z.neg()
            } else {
                z
            }
        }
        // Near a limb or primitive boundary, either sign.
        4 => {
            let k = 32 * (1 + t.below(ty.bits as u64 / 32 + 1)) as u32;
            let z = Z::pow2(k - t.below(2) as u32).addi(t.offset(2));
            if t.bool() {
                z.neg()
            } else {
                z
            }
        }
        // Words of structure.
        5..=8 => from_words(&(0..n).map(|_| word(t)).collect::<Vec<_>>(), ty),
        // A run of ones.
        9 => {
            let lo = t.below(ty.bits as u64) as u32;
            let len = t.below(ty.bits as u64) as u32 + 1;
            Z::pow2(len).addi(-1).shl(lo)
        }
        // A few bits.
        10 => {
            let mut z = Z::zero();
            for _ in 0..t.below(4) + 1 {
                z = z.add(&Z::pow2(t.below(ty.bits as u64) as u32));
            }
            z
        }
        // Random of random length, either sign.
        11 | 12 => {
            let k = t.below(ty.bits as u64) as u32 + 1;
            let w: Vec<u64> = (0..n).map(|_| t.next()).collect();
            let z = from_words(&w, &ty.unsigned());
            let z = z.shr(ty.bits - k);
            if t.bool() {
                z.neg()
            } else {
                z
            }
        }
        // One word and a half of information, placed on a limb boundary.
        13 => {
            let k = 32 * t.below(ty.bits as u64 / 32 + 1) as u32;
            let z = Z::from_u128(word(t) as u128).shl(k);
            if t.bool() {
                z.neg()
            } else {
                z
            }
        }
        14 => match t.below(3) {
            // The same word, or two in turn, all the way.
            0 => {
                let w = [word(t), word(t)];
                let k = t.below(2) as usize;
                from_words(&(0..n).map(|i| w[i & k]).collect::<Vec<_>>(), ty)
            }
            // Near a power of a small number, either sign.
            1 => {
                let base = 3 + t.below(34) as u32;
                let mut z = Z::i(1);
                let most = ty.bits / base.ilog2();
                for _ in 0..t.below(most as u64 + 1) {
                    z = z.muladd_small(base, 0);
                }
                let z = z.addi(t.offset(1));
                if t.bool() {
                    z.neg()
                } else {
                    z
                }
            }
            // Bytes of structure.
            _ => {
                let b: Vec<u8> = (0..ty.bits / 8).map(|_| [0, 0xff, 0x80, 1, t.next() as u8][t.below(5) as usize]).collect();
                Z::from_le(&b, ty.signed)
            }
        },
        // Uniform.
        _ => from_words(&(0..n).map(|_| t.next()).collect::<Vec<_>>(), ty),
    };
    ty.wrap(&z)
}

/// A pair, often related so that sums, differences and comparisons sit on a
/// boundary.
pub fn pair(t: &mut Tape, ta: &Ty, tb: &Ty) -> (Z, Z) {
    let a = val(t, ta);
    let b = match t.below(16) {
        0 => a.clone(),
        1 => a.addi(t.offset(2)),
        2 => a.neg().addi(t.offset(2)),
        3 => ta.max().sub(&a).addi(t.offset(2)),
        4 => ta.min().sub(&a).addi(t.offset(2)),
        5 => a.sub(&ta.min()).addi(t.offset(2)),
        6 => a.sub(&ta.max()).addi(t.offset(2)),
        // a with one bit flipped, or complemented.
        7 => {
            let k = t.below(ta.bits as u64) as u32;
            if a.bit(k) {
                a.sub(&Z::pow2(k))
            } else {
                a.add(&Z::pow2(k))
            }
        }
        8 => a.neg().addi(-1),
        _ => val(t, tb),
    };
    let b = tb.wrap(&b);
    // The relation holds in both directions.
    if ta == tb && t.bool() {
        (b, a)
    } else {
        (a, b)
    }
}

/// A pair whose product is often at the edge of the type.
pub fn mul_pair(t: &mut Tape, ta: &Ty, tb: &Ty) -> (Z, Z) {
    let kind = t.below(8);
    if kind >= 5 {
        return pair(t, ta, tb);
    }
    let (a, b) = match kind {
        // limit / a, give or take one.
        0 | 1 => {
            let mut a = val(t, ta);
            if a.is_zero() {
                a = Z::i(3);
            }
            let lim = match t.below(5) {
                0 => ta.max(),
                1 => ta.min(),
                2 => Z::pow2(ta.bits),
                3 => Z::pow2(ta.bits - 1),
                _ => Z::pow2(ta.bits - 1).neg(),
            };
            let b = lim.divfloor(&a).0.addi(t.offset(1));
            (a, b)
        }
        // Two lengths that sum to about the width.
        2 | 3 => {
            let k = t.below(ta.bits as u64 + 1) as u32;
            let l = ta.bits - k + t.below(3) as u32;
            let l = l.saturating_sub(t.below(2) as u32).min(ta.bits);
            let a = narrow(t, k);
            let b = narrow(t, l);
            (a, b)
        }
        // Products of two signed powers of two and neighbours: around MIN.
        _ => {
            let k = t.below(ta.bits as u64) as u32;
            let a = Z::pow2(k).addi(if t.chance(3) { t.offset(1) } else { 0 });
            let b = Z::pow2(ta.bits - 1 - k).addi(if t.bool() { t.offset(2) } else { 0 });
            (a, b)
        }
    };
    let a = if t.bool() && ta.signed { a.neg() } else { a };
    let b = if t.bool() && tb.signed { b.neg() } else { b };
    let (a, b) = (ta.wrap(&a), tb.wrap(&b));
    if ta == tb && t.bool() {
        (b, a)
    } else {
        (a, b)
    }
}

/// A non-negative value of at most `k` bits, structured or random.
pub fn narrow(t: &mut Tape, k: u32) -> Z {
    if k == 0 {
        return Z::zero();
    }
    let n = k.div_ceil(64) as usize;
    let st = t.below(3);
    let w: Vec<u64> = (0..n).map(|_| if st == 0 { word(t) } else { t.next() }).collect();
    let full = Ty::u(n as u32 * 64);
    let z = from_words(&w, &full).shr(n as u32 * 64 - k);
    if t.bool() {
        z
    } else {
        // Exactly k bits.
        let top = Z::pow2(k - 1);
        if z.lt(&top) {
            z.add(&top)
        } else {
            z
        }
    }
}

/// A dividend and divisor of the two types, built from quotient, divisor and
/// remainder, or with the digit patterns that drive long division into its rare
/// corrections.
pub fn div_pair(t: &mut Tape, ta: &Ty, tb: &Ty) -> (Z, Z) {
    let (a, b) = match t.below(16) {
        0..=3 => pair(t, ta, tb),
        // Zero divisor.
        4 => (val(t, ta), Z::zero()),
        // The one overflowing quotient, and its neighbours.
        5 => (ta.min().addi(t.offset(1)), Z::i(-1).addi(t.offset(1))),
        // q * d + r.
        6..=9 => {
            let k = t.below(tb.bits as u64) as u32 + 1;
            let mut d = narrow(t, k);
            if d.is_zero() {
                d = Z::i(1);
            }
            let l = (ta.bits + 1).saturating_sub(d.bits());
            let l = t.below(l as u64 + 1) as u32;
            let q = narrow(t, l);
            let r = match t.below(4) {
                0 => Z::zero(),
                1 => d.addi(-1),
                2 => Z::i(1).divrem(&d).1,
                _ => val(t, &tb.unsigned()).divrem(&d).1,
            };
            (q.mul(&d).add(&r), d)
        }
        // Divisor with a full top digit and long digit pattern; dividend of
        // digits that make the estimate too large.
        10..=13 => {
            let w = if t.bool() { 64 } else { 32 };
            let nd = t.below((tb.bits / w).max(1) as u64) as u32 + 1;
            let nn = t.below((ta.bits / w).max(1) as u64) as u32 + 1;
            let d = digits(t, nd, w);
            let a = digits(t, nn, w);
            (a, d)
        }
        // Powers of two.
        14 => {
            let a = Z::pow2(t.below(ta.bits as u64) as u32).addi(t.offset(1));
            let d = Z::pow2(t.below(tb.bits as u64) as u32).addi(t.offset(1));
            (a, d)
        }
        // Prefix: the dividend starts with the digits of the divisor, less a bit.
        _ => {
            let k = t.below(tb.bits as u64) as u32 + 1;
            let d = narrow(t, k);
            let room = ta.bits.saturating_sub(d.bits());
            let s = t.below(room as u64 + 1) as u32;
            let low = narrow(t, s);
            let a = d.shl(s).add(&low);
            let a = if t.bool() { a.sub(&Z::pow2(s)) } else { a };
            (a, d)
        }
    };
    let a = if ta.signed && t.bool() { a.neg() } else { a };
    let b = if tb.signed && t.bool() { b.neg() } else { b };
    (ta.wrap(&a), tb.wrap(&b))
}

/// `n` digits of `w` bits, from the set that makes quotient estimates wrong.
fn digits(t: &mut Tape, n: u32, w: u32) -> Z {
    let mut z = Z::zero();
    let b = Z::pow2(w);
    for _ in 0..n {
        let d = match t.below(9) {
            0 => Z::zero(),
            1 => b.addi(-1),
            2 => b.addi(-2),
            3 => Z::pow2(w - 1),
            4 => Z::pow2(w - 1).addi(-1),
            5 => Z::i(1),
            6 => Z::pow2(w - 1).addi(1),
            7 => Z::pow2(t.below(w as u64) as u32),
            _ => Z::from_u128(t.next() as u128 & ((1u128 << w) - 1)),
        };
        z = z.mul(&b).add(&d);
    }
    z
}

/// A shift distance or count around every boundary.
pub fn shift(t: &mut Tape, bits: u32) -> u32 {
    match t.below(12) {
        0 => t.below(4) as u32,
        1 | 2 => (32 * t.below(bits as u64 / 32 + 2)) as u32,
        3 => (32 * t.below(bits as u64 / 32 + 2)) as u32 + 1,
        4 => (32 * (t.below(bits as u64 / 32 + 2) + 1)) as u32 - 1,
        5 => bits - t.below(3) as u32,
        6 => bits + t.below(3) as u32,
        7 => match t.below(8) {
            0 => u32::MAX,
            1 => 1 << 31,
            2 => bits * 2,
            3 => bits * 2 - 1,
            4 => bits * (t.below(1 << 20) as u32),
            5 => 256 * t.below(8) as u32 + t.below(3) as u32,
            _ => t.next() as u32,
        },
        _ => t.below(bits as u64) as u32,
    }
}

/// A valid shift distance.
pub fn shift_in(t: &mut Tape, bits: u32) -> u32 {
    let k = shift(t, bits);
    if k < bits {
        k
    } else {
        k % bits
    }
}
