//! Expectations and generators shared between properties.

use crate::big::{mode, LIMB, OVF};
use crate::engine::{spec, zs, Args, Spec, R};
use crate::gen;
use crate::tape::Tape;
use crate::z::{Ty, Z};

pub fn g_pow(t: &mut Tape, ty: &Ty) -> Args {
    let e: u32;
    let a;
    match t.below(8) {
        // Any base, small exponent.
        0 => {
            a = gen::val(t, ty);
            e = t.below(6) as u32;
        }
        // An exponent that lands near the limit for the base.
        1..=4 => {
            let most = match t.below(3) {
                0 => 4,
                1 => 16,
                _ => ty.bits as u64 / 2,
            };
            let k = t.below(most) as u32 + 1;
            let z = gen::narrow(t, k);
            let len = z.bits().max(1);
            let most = (ty.bits + len - 1) / len;
            let e0 = most as i64 + t.offset(2);
            e = e0.max(0) as u32;
            a = if ty.signed && t.bool() { z.neg() } else { z };
        }
        // Powers of two and their neighbours: (2^k)^e = 2^(ke).
        5 => {
            let k = t.below(ty.bits as u64 - 1) as u32;
            let z = Z::pow2(k).addi(if t.chance(3) { t.offset(1) } else { 0 });
            let e0 = (ty.bits / (k + 1)) as i64 + t.offset(1);
            e = e0.max(0) as u32;
            a = if ty.signed && t.bool() { z.neg() } else { z };
        }
        // Huge exponents.
        6 => {
            a = gen::val(t, ty);
            e = match t.below(4) {
                0 => u32::MAX - t.below(3) as u32,
                1 => 1 << t.below(32),
                _ => t.next() as u32,
            };
        }
        // Tiny bases.
        _ => {
            let z = Z::i(t.below(4) as i64);
            a = if ty.signed && t.bool() { z.neg() } else { z };
            e = gen::shift(t, ty.bits);
        }
    }
    zs([ty.wrap(&a), Z::from_u128(e as u128)])
}

/// The power modulo 2^BITS, and whether the exact power fits.
pub fn pow(t: &Ty, a: &Z, e: u32) -> (Z, bool) {
    // Exact while it can still fit: magnitudes never shrink for |a| >= 2.
    let fits = if a.is_zero() || a.bits() == 1 {
        let r = if e == 0 || (a.bits() == 1 && (!a.neg || e % 2 == 0)) {
            Z::i(1)
        } else if a.is_zero() {
            Z::zero()
        } else {
            Z::i(-1)
        };
        t.fits(&r)
    } else {
        let mut r = Z::i(1);
        let mut ok = true;
        for _ in 0..e {
            r = r.mul(a);
            if r.bits() > t.bits {
                ok = false;
                break;
            }
        }
        ok && t.fits(&r)
    };
    // Square and multiply, most significant bit first.
    let mut r = Z::i(1);
    for k in (0..32 - e.leading_zeros()).rev() {
        r = t.wrap(&r.mul(&r));
        if e >> k & 1 == 1 {
            r = t.wrap(&r.mul(a));
        }
    }
    (r, fits)
}
pub fn pow_strict((v, ok): (Z, bool)) -> R {
    if ok {
        R::Z(v)
    } else {
        R::Panic
    }
}

/// Quotient and remainder of one rounding, or none for a zero divisor.
pub fn trunc(a: &Args) -> Option<(Z, Z)> {
    (!a[1].z().is_zero()).then(|| a[0].z().divrem(a[1].z()))
}
pub fn euclid(a: &Args) -> Option<(Z, Z)> {
    (!a[1].z().is_zero()).then(|| a[0].z().diveuclid(a[1].z()))
}
pub fn floor(a: &Args) -> Option<(Z, Z)> {
    (!a[1].z().is_zero()).then(|| a[0].z().divfloor(a[1].z()))
}
pub fn ceil(a: &Args) -> Option<(Z, Z)> {
    floor(a).map(|(q, r)| if r.is_zero() { (q, r) } else { (q.addi(1), r.sub(a[1].z())) })
}

/// What is returned: quotient, remainder or both; and by which form.
#[derive(Clone, Copy)]
pub enum Part {
    Q,
    R,
    QR,
}
#[derive(Clone, Copy)]
pub enum Form {
    Plain,
    Wrapping,
    Overflowing,
    Checked,
    Strict,
    Saturating,
}

/// The expected outcome of a division, given the exact quotient and remainder.
pub fn expect(t: &Ty, qr: Option<(Z, Z)>, part: Part, form: Form) -> R {
    let Some((q, r)) = qr else {
        return if matches!(form, Form::Checked) { R::None } else { R::Panic };
    };
    let fits = t.fits(&q);
    let pick = |q: Z, r: Z| match part {
        Part::Q => R::Z(q),
        Part::R => R::Z(r),
        Part::QR => R::T(vec![R::Z(q), R::Z(r)]),
    };
    match form {
        Form::Wrapping => pick(t.wrap(&q), r),
        Form::Overflowing => R::T(vec![pick(t.wrap(&q), r), R::B(!fits)]),
        Form::Saturating => pick(t.clamp(&q), r),
        Form::Checked => {
            if fits {
                R::some(pick(q, r))
            } else {
                R::None
            }
        }
        Form::Strict => {
            if fits {
                pick(q, r)
            } else {
                R::Panic
            }
        }
        Form::Plain => {
            if fits || !OVF {
                pick(t.wrap(&q), r)
            } else {
                R::Panic
            }
        }
    }
}


/// The scalar of each suffix.
pub fn scalars() -> Vec<(&'static str, Ty)> {
    vec![
        ("ulimb", Ty::u(LIMB)),
        ("uwide", Ty::u(2 * LIMB)),
        ("u32", Ty::u(32)),
        ("u64", Ty::u(64)),
        ("u128", Ty::u(128)),
        ("ilimb", Ty::s(LIMB)),
        ("iwide", Ty::s(2 * LIMB)),
        ("i32", Ty::s(32)),
        ("i64", Ty::s(64)),
        ("i128", Ty::s(128)),
    ]
}

/// A big value and a scalar, related as the operation likes it: the relation is
/// computed from a scalar chosen first, so that boundary cases are common even
/// though few big values are near a scalar.
fn g_scalar(op: usize, ts: Ty) -> impl Fn(&mut Tape, &Ty) -> Args {
    move |t, ty| {
        if op >= 3 {
            let (a, b) = gen::div_pair(t, ty, &ts);
            return zs([a, b]);
        }
        let b = gen::val(t, &ts);
        let a = match t.below(8) {
            0..=2 => {
                // On the edge of overflow.
                let lim = match t.below(4) {
                    0 => ty.max(),
                    1 => ty.min(),
                    2 => Z::pow2(ty.bits - 1),
                    _ => Z::zero(),
                };
                let x = match op {
                    0 => lim.sub(&b),
                    1 => lim.add(&b),
                    _ if b.is_zero() => lim,
                    _ => lim.divrem(&b).0,
                };
                ty.wrap(&x.addi(t.offset(2)))
            }
            3 => ty.wrap(&b.addi(t.offset(2))),
            4 => ty.wrap(&b.neg().addi(t.offset(2))),
            // Carries that run through all limbs.
            5 => {
                let k = 32 * (1 + t.below(ty.bits as u64 / 32)) as u32;
                let x = Z::pow2(k).addi(t.offset(3));
                ty.wrap(&if op == 0 { x.sub(&b) } else { x })
            }
            _ => gen::val(t, ty),
        };
        zs([a, b])
    }
}

const OPS: [&str; 6] = ["add", "sub", "mul", "div_rem", "div", "rem"];
/// Expectations of the scalar overloads in the given forms.
pub fn scalar_specs(forms: &[(&'static str, Form)]) -> Vec<Spec> {
    let mut v = Vec::new();
    if cfg!(miri) {
        return v;
    }
    for (suffix, ts) in scalars() {
        for (k, op) in OPS.into_iter().enumerate() {
            for (prefix, form) in forms.iter().copied() {
                let name: &'static str = Box::leak(format!("{prefix}{op}_{suffix}").into_boxed_str());
                v.push(spec(name, g_scalar(k, ts), move |t, a| {
                    let (x, y) = (a[0].z(), a[1].z());
                    let z = match k {
                        0 => x.add(y),
                        1 => x.sub(y),
                        2 => x.mul(y),
                        _ => {
                            let part = [Part::QR, Part::Q, Part::R][k - 3];
                            // A signed value by an unsigned scalar rounds down.
                            let qr = if t.signed && !ts.signed { floor(a) } else { trunc(a) };
                            return expect(t, qr, part, form);
                        }
                    };
                    match form {
                        Form::Plain => mode::plain(t, z),
                        Form::Wrapping => mode::wrapping(t, z),
                        Form::Overflowing => mode::overflowing(t, z),
                        _ => mode::checked(t, z),
                    }
                }));
            }
        }
    }
    v
}


/// The smallest power of two not below `a`.
pub fn next_pow2(a: &Z) -> Z {
    let mut p = Z::i(1);
    while p.lt(a) {
        p = p.shl(1);
    }
    p
}

/// The nearest multiple of the second argument, away from zero in the direction
/// of its sign; none for zero.
pub fn next_multiple(a: &Args) -> Option<Z> {
    // For a positive divisor the least multiple >= a, for a negative one the
    // greatest multiple <= a: in both cases ceil(a / b) * b.
    ceil(a).map(|(q, _)| q.mul(a[1].z()))
}
