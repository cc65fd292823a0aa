//! The reference integer: unbounded, sign and magnitude, base 2^32.
//!
//! Everything here is the textbook algorithm, and none of it is shared with the
//! crate under test. `selftest` compares it with the native 128-bit integers.

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Z {
    pub neg: bool,
    /// Little-endian digits, no leading zero digit; zero is empty and not `neg`.
    pub m: Vec<u32>,
}

fn trim(m: &mut Vec<u32>) {
    while m.last() == Some(&0) {
        m.pop();
    }
}

fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

fn madd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c != 0 {
        r.push(c as u32);
    }
    r
}

/// a - b, a >= b.
fn msub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - if i < b.len() { b[i] as i64 } else { 0 } - c;
        c = 0;
        if s < 0 {
            s += 1 << 32;
            c = 1;
        }
        r.push(s as u32);
    }
    assert!(c == 0);
    trim(&mut r);
    r
}

impl Z {
    pub fn zero() -> Z {
        Z::default()
    }
    pub fn from_mag(neg: bool, mut m: Vec<u32>) -> Z {
        trim(&mut m);
        let neg = neg && !m.is_empty();
        Z { neg, m }
    }
    pub fn from_u128(v: u128) -> Z {
        Z::from_mag(false, vec![v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
    }
    pub fn from_i128(v: i128) -> Z {
        let mut z = Z::from_u128(v.unsigned_abs());
        z.neg = v < 0;
        z
    }
    pub fn i(v: i64) -> Z {
        Z::from_i128(v as i128)
    }
    pub fn pow2(k: u32) -> Z {
        let mut m = vec![0u32; (k / 32) as usize + 1];
        m[(k / 32) as usize] = 1 << (k % 32);
        Z { neg: false, m }
    }
    /// From little-endian two's-complement bytes.
    pub fn from_le(bytes: &[u8], signed: bool) -> Z {
        let mut m = Vec::with_capacity(bytes.len() / 4 + 1);
        for c in bytes.chunks(4) {
            let mut w = 0u32;
            for (i, b) in c.iter().enumerate() {
                w |= (*b as u32) << (8 * i);
            }
            m.push(w);
        }
        let z = Z::from_mag(false, m);
        if signed && bytes[bytes.len() - 1] >= 0x80 {
            z.sub(&Z::pow2(bytes.len() as u32 * 8))
        } else {
            z
        }
    }
    /// The low `n` bytes of the two's complement, little-endian.
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let words = n.div_ceil(4);
        let mut w: Vec<u32> = (0..words).map(|i| self.m.get(i).copied().unwrap_or(0)).collect();
        if self.neg {
            let mut c = true;
            for x in w.iter_mut() {
                let (v, o) = (!*x).overflowing_add(c as u32);
                *x = v;
                c = o;
            }
        }
        let mut out = Vec::with_capacity(words * 4);
        for x in w {
            out.extend_from_slice(&[x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8]);
        }
        out.truncate(n);
        out
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn is_odd(&self) -> bool {
        self.m.first().is_some_and(|x| x & 1 == 1)
    }
    /// Number of significant bits of the magnitude.
    pub fn bits(&self) -> u32 {
        match self.m.last() {
            None => 0,
            Some(t) => self.m.len() as u32 * 32 - t.leading_zeros(),
        }
    }
    /// Bit `k` of the magnitude.
    pub fn bit(&self, k: u32) -> bool {
        self.m.get((k / 32) as usize).is_some_and(|w| w >> (k % 32) & 1 == 1)
    }
    pub fn neg(&self) -> Z {
        Z { neg: !self.neg && !self.m.is_empty(), m: self.m.clone() }
    }
    pub fn abs(&self) -> Z {
        Z { neg: false, m: self.m.clone() }
    }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            return Z::from_mag(self.neg, madd(&self.m, &o.m));
        }
        match mcmp(&self.m, &o.m) {
            Ordering::Equal => Z::zero(),
            Ordering::Greater => Z::from_mag(self.neg, msub(&self.m, &o.m)),
            Ordering::Less => Z::from_mag(o.neg, msub(&o.m, &self.m)),
        }
    }
    pub fn sub(&self, o: &Z) -> Z {
        self.add(&o.neg())
    }
    pub fn addi(&self, v: i64) -> Z {
        self.add(&Z::i(v))
    }
    pub fn mul(&self, o: &Z) -> Z {
        let mut r = vec![0u32; self.m.len() + o.m.len() + 1];
        for i in 0..self.m.len() {
            let mut c = 0u64;
            for j in 0..o.m.len() {
                let s = self.m[i] as u64 * o.m[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = s as u32;
                c = s >> 32;
            }
            let mut k = i + o.m.len();
            while c != 0 {
                let s = r[k] as u64 + c;
                r[k] = s as u32;
                c = s >> 32;
                k += 1;
            }
        }
        Z::from_mag(self.neg != o.neg, r)
    }
    /// Magnitude divided by a small number.
    pub fn divrem_small(&self, d: u32) -> (Z, u32) {
        let mut q = self.m.clone();
        let mut r = 0u64;
        for x in q.iter_mut().rev() {
            let cur = (r << 32) | *x as u64;
            *x = (cur / d as u64) as u32;
            r = cur % d as u64;
        }
        (Z::from_mag(false, q), r as u32)
    }
    /// Truncating division: quotient toward zero, remainder with the sign of self.
    pub fn divrem(&self, d: &Z) -> (Z, Z) {
        assert!(!d.is_zero());
        if d.m.len() == 1 {
            let (q, r) = self.divrem_small(d.m[0]);
            let q = Z::from_mag(self.neg != d.neg, q.m);
            return (q, Z::from_mag(self.neg, vec![r]));
        }
        if mcmp(&self.m, &d.m) == Ordering::Less {
            return (Z::zero(), self.clone());
        }
        // Shift and subtract, one quotient bit at a time.
        let n = self.bits() - d.bits();
        let mut q = vec![0u32; (n / 32) as usize + 1];
        let mut rem = self.m.clone();
        let mut cur = d.abs().shl(n).m;
        for k in (0..=n).rev() {
            if mcmp(&rem, &cur) != Ordering::Less {
                rem = msub(&rem, &cur);
                q[(k / 32) as usize] |= 1 << (k % 32);
            }
            // cur >>= 1
            let mut c = 0;
            for x in cur.iter_mut().rev() {
                let nc = *x & 1;
                *x = (*x >> 1) | (c << 31);
                c = nc;
            }
            trim(&mut cur);
        }
        (Z::from_mag(self.neg != d.neg, q), Z::from_mag(self.neg, rem))
    }
    /// Floor division.
    pub fn divfloor(&self, d: &Z) -> (Z, Z) {
        let (q, r) = self.divrem(d);
        if !r.is_zero() && r.neg != d.neg {
            (q.addi(-1), r.add(d))
        } else {
            (q, r)
        }
    }
    /// Euclidean division: remainder in 0..|d|.
    pub fn diveuclid(&self, d: &Z) -> (Z, Z) {
        let (q, r) = self.divrem(d);
        if r.neg {
            if d.neg {
                (q.addi(1), r.sub(d))
            } else {
                (q.addi(-1), r.add(d))
            }
        } else {
            (q, r)
        }
    }
    pub fn shl(&self, k: u32) -> Z {
        if self.is_zero() {
            return Z::zero();
        }
        let (w, b) = ((k / 32) as usize, k % 32);
        let mut m = vec![0u32; w];
        let mut c = 0u32;
        for x in &self.m {
            m.push(if b == 0 { *x } else { (*x << b) | c });
            c = if b == 0 { 0 } else { *x >> (32 - b) };
        }
        m.push(c);
        Z::from_mag(self.neg, m)
    }
    /// Floor shift right.
    pub fn shr(&self, k: u32) -> Z {
        self.divfloor(&Z::pow2(k)).0
    }
    pub fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => mcmp(&self.m, &o.m),
            (true, true) => mcmp(&o.m, &self.m),
        }
    }
    pub fn lt(&self, o: &Z) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Z) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.m.len() > 4 {
            return None;
        }
        let mut v = 0u128;
        for (i, x) in self.m.iter().enumerate() {
            v |= (*x as u128) << (32 * i);
        }
        Some(v)
    }
    /// Value as u32; panics if it does not fit (generators guarantee it does).
    pub fn u32(&self) -> u32 {
        let v = self.to_u128().expect("u32 argument");
        assert!(v <= u32::MAX as u128);
        v as u32
    }
    /// Canonical numeral: minus sign, no leading zeros, lower case.
    pub fn radix(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        // Take as many digits per pass as fit one base-2^32 division.
        let (mut big, mut per) = (radix, 1);
        while (big as u64) * (radix as u64) <= u32::MAX as u64 {
            big *= radix;
            per += 1;
        }
        let mut out = Vec::new();
        let mut v = self.abs();
        while !v.is_zero() {
            let (q, mut r) = v.divrem_small(big);
            v = q;
            for _ in 0..per {
                out.push(std::char::from_digit(r % radix, radix).unwrap());
                r /= radix;
            }
        }
        while out.last() == Some(&'0') {
            out.pop();
        }
        if self.neg {
            out.push('-');
        }
        out.iter().rev().collect()
    }
    /// `self * k + d`, on a non-negative value.
    pub fn muladd_small(&self, k: u32, d: u32) -> Z {
        let mut m = Vec::with_capacity(self.m.len() + 1);
        let mut c = d as u64;
        for x in &self.m {
            let s = *x as u64 * k as u64 + c;
            m.push(s as u32);
            c = s >> 32;
        }
        m.push(c as u32);
        Z::from_mag(false, m)
    }
}

impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.m.len() <= 1 {
            return f.write_str(&self.radix(10));
        }
        write!(f, "{}0x{}", if self.neg { "-" } else { "" }, self.abs().radix(16))
    }
}

/// A fixed-width integer type, as the oracle sees it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Ty {
    pub bits: u32,
    pub signed: bool,
}

impl Ty {
    pub const fn u(bits: u32) -> Ty {
        Ty { bits, signed: false }
    }
    pub const fn s(bits: u32) -> Ty {
        Ty { bits, signed: true }
    }
    pub fn name(&self) -> String {
        format!("{}{}", if self.signed { "i" } else { "u" }, self.bits)
    }
    pub fn other(&self) -> Ty {
        Ty { bits: self.bits, signed: !self.signed }
    }
    pub fn unsigned(&self) -> Ty {
        Ty { bits: self.bits, signed: false }
    }
    pub fn max(&self) -> Z {
        Z::pow2(self.bits - self.signed as u32).addi(-1)
    }
    pub fn min(&self) -> Z {
        if self.signed {
            Z::pow2(self.bits - 1).neg()
        } else {
            Z::zero()
        }
    }
    pub fn fits(&self, z: &Z) -> bool {
        if !self.signed {
            return !z.neg && z.bits() <= self.bits;
        }
        // |MIN| has BITS bits but MIN fits.
        z.bits() < self.bits || (z.neg && *z == self.min())
    }
    /// Reduce modulo 2^BITS into the range of the type.
    pub fn wrap(&self, z: &Z) -> Z {
        if self.fits(z) {
            return z.clone();
        }
        Z::from_le(&z.to_le(self.bits as usize / 8), self.signed)
    }
    pub fn clamp(&self, z: &Z) -> Z {
        if self.fits(z) {
            z.clone()
        } else if z.neg {
            self.min()
        } else {
            self.max()
        }
    }
    /// The bits of the two's complement, least significant first.
    pub fn bitvec(&self, z: &Z) -> Vec<bool> {
        let b = z.to_le(self.bits as usize / 8);
        (0..self.bits as usize).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
    }
    pub fn from_bitvec(&self, v: &[bool]) -> Z {
        let mut b = vec![0u8; self.bits as usize / 8];
        for (i, x) in v.iter().enumerate() {
            b[i / 8] |= (*x as u8) << (i % 8);
        }
        Z::from_le(&b, self.signed)
    }
}

/// Compare the reference with native arithmetic. Returns the number of checks.
pub fn selftest(seed: u64) -> u64 {
    let mut s = seed ^ 0x9e3779b97f4a7c15;
    let mut next = move || {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut x = s;
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
        x ^ (x >> 31)
    };
    let mut val = || -> i128 {
        let sh = (next() % 128) as u32;
        let w = ((next() as u128) << 64 | next() as u128) >> sh;
        let w = match next() % 4 {
            0 => w | 0xffff_ffff << 32,
            1 => (1u128 << (127 - sh)).wrapping_sub(next() as u128 % 3),
            _ => w,
        };
        w as i128
    };
    let t = Ty::s(128);
    let u = Ty::u(128);
    let n = if cfg!(miri) { 20 } else { 3000 };
    for _ in 0..n {
        let (a, b) = (val(), val());
        let (za, zb) = (Z::from_i128(a), Z::from_i128(b));
        let (ua, ub) = (Z::from_u128(a as u128), Z::from_u128(b as u128));
        assert_eq!(Z::from_le(&a.to_le_bytes(), true), za);
        assert_eq!(za.to_le(16), a.to_le_bytes());
        assert_eq!(t.wrap(&za.add(&zb)), Z::from_i128(a.wrapping_add(b)));
        assert_eq!(t.fits(&za.add(&zb)), a.checked_add(b).is_some());
        assert_eq!(t.clamp(&za.sub(&zb)), Z::from_i128(a.saturating_sub(b)));
        assert_eq!(t.wrap(&za.mul(&zb)), Z::from_i128(a.wrapping_mul(b)));
        assert_eq!(t.fits(&za.mul(&zb)), a.checked_mul(b).is_some());
        assert_eq!(u.fits(&ua.mul(&ub)), (a as u128).checked_mul(b as u128).is_some());
        assert_eq!(za.cmp(&zb), a.cmp(&b));
        assert_eq!(ua.cmp(&ub), (a as u128).cmp(&(b as u128)));
        if b != 0 && !(a == i128::MIN && b == -1) {
            let (q, r) = za.divrem(&zb);
            assert_eq!((q, r), (Z::from_i128(a / b), Z::from_i128(a % b)));
            let (q, r) = za.diveuclid(&zb);
            assert_eq!((q, r), (Z::from_i128(a.div_euclid(b)), Z::from_i128(a.rem_euclid(b))));
            let (q, r) = ua.divrem(&ub);
            let (x, y) = (a as u128, b as u128);
            assert_eq!((q, r), (Z::from_u128(x / y), Z::from_u128(x % y)));
        }
        let k = (b as u32) % 128;
        assert_eq!(t.wrap(&za.shl(k)), Z::from_i128(a << k));
        assert_eq!(za.shr(k), Z::from_i128(a >> k));
        assert_eq!(za.radix(10), a.to_string());
        assert_eq!(ua.radix(16), format!("{:x}", a as u128));
        // Identities beyond 128 bits.
        let p = ua.mul(&ub).mul(&ua).add(&zb.abs());
        if !ub.is_zero() {
            let (q, r) = p.divrem(&ub);
            assert_eq!(q.mul(&ub).add(&r), p);
            assert!(r.lt(&ub));
        }
    }
    n
}
