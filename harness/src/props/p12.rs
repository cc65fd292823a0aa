//! Formatting.

use super::*;

fn g1(t: &mut Tape, ty: &Ty) -> Args {
    zs([val(t, ty)])
}
/// Values with interesting numerals besides those with interesting bits.
fn val(t: &mut Tape, ty: &Ty) -> Z {
    let z = match t.below(4) {
        // A power of ten or so.
        0 => {
            let r = 2 + t.below(35) as u32;
            let mut z = Z::i(1 + t.below(9) as i64);
            for _ in 0..t.below(ty.max().radix(r).len() as u64) {
                z = z.muladd_small(r, 0);
            }
            let z = z.addi(t.offset(2));
            if t.bool() {
                z.neg()
            } else {
                z
            }
        }
        _ => gen::val(t, ty),
    };
    ty.wrap(&z)
}
fn radix(t: &mut Tape) -> u32 {
    match t.below(6) {
        0 => 10,
        1 => 2,
        2 => 36,
        _ => 2 + t.below(35) as u32,
    }
}
/// Value, radix and spare room in the buffer.
fn g_radix(t: &mut Tape, ty: &Ty) -> Args {
    let spare = if t.bool() { 0 } else { t.below(70) as i64 };
    zs([val(t, ty), Z::i(radix(t) as i64), Z::i(spare)])
}
fn g_bad_radix(t: &mut Tape, ty: &Ty) -> Args {
    let r = match t.below(4) {
        0 => 0,
        1 => 1,
        2 => 37 + t.below(4) as u32,
        _ => (t.next() as u32).max(37),
    };
    zs([val(t, ty), Z::i(r as i64), Z::i(4)])
}
/// A buffer of about the size of the numeral.
fn g_short(t: &mut Tape, ty: &Ty) -> Args {
    let (a, r) = (val(t, ty), radix(t));
    let n = a.radix(r).len() as i64;
    let room = match t.below(4) {
        0 => t.below(n as u64 + 1) as i64,
        1 => ty.bits as i64 - t.below(3) as i64,
        _ => (n + t.offset(2)).max(0),
    };
    zs([a, Z::i(r as i64), Z::i(room)])
}

fn bits(radix: u32, upper: bool, prefix: &'static str) -> impl Fn(&Ty, &Args) -> R {
    move |t, a| {
        let s = t.unsigned().wrap(a[0].z()).radix(radix);
        let s = if upper { s.to_ascii_uppercase() } else { s };
        R::S(format!("{prefix}{s}"))
    }
}
fn numeral(a: &Args, radix: u32) -> R {
    R::S(a[0].z().radix(radix))
}
fn kept(_: &Ty, a: &Args) -> R {
    R::Z(a[0].z().clone())
}

/// The number a text in scientific notation denotes, if it is one.
fn scientific(s: &str, e: char) -> R {
    let go = || -> Option<Z> {
        let (m, x) = s.split_once(e)?;
        let x: i64 = x.parse().ok()?;
        let (neg, m) = match m.strip_prefix('-') {
            Some(m) => (true, m),
            None => (false, m),
        };
        let (int, frac) = m.split_once('.').unwrap_or((m, ""));
        // One digit before the point, not zero unless the number is.
        if int.len() != 1 {
            return None;
        }
        let mut z = Z::zero();
        for c in int.chars().chain(frac.chars()) {
            z = z.muladd_small(10, c.to_digit(10)?);
        }
        if int == "0" && !z.is_zero() {
            return None;
        }
        let shift = x - frac.len() as i64;
        if shift >= 0 {
            for _ in 0..shift {
                z = z.muladd_small(10, 0);
            }
        } else {
            for _ in 0..-shift {
                let (q, r) = z.divrem_small(10);
                if r != 0 {
                    return None;
                }
                z = q;
            }
        }
        Some(if neg { z.neg() } else { z })
    };
    match go() {
        Some(z) => R::Z(z),
        None => R::S(s.to_string()),
    }
}

pub fn ops(out: &mut Vec<Op>) {
    let specs = [
        spec("display", g1, |_, a| numeral(a, 10)).weight(200),
        spec("to_string", g1, |_, a| numeral(a, 10)),
        spec("debug", g1, |_, a| numeral(a, 10)),
        spec("binary", g1, bits(2, false, "")),
        spec("binary_alternate", g1, bits(2, false, "0b")).weight(50),
        spec("octal", g1, bits(8, false, "")),
        spec("octal_alternate", g1, bits(8, false, "0o")).weight(50),
        spec("lower_hex", g1, bits(16, false, "")),
        spec("lower_hex_alternate", g1, bits(16, false, "0x")).weight(50),
        spec("upper_hex", g1, bits(16, true, "")),
        spec("upper_hex_alternate", g1, bits(16, true, "0x")).weight(50),
        spec("lower_exp", g1, kept),
        spec("upper_exp", g1, kept),
        spec("to_str_radix", g_radix, |_, a| numeral(a, a[1].z().u32())).weight(400),
        spec("to_str_bad_radix", g_bad_radix, |_, _| R::Panic).weight(10),
        // It may ask for more room than the digits need, but not cut them off.
        spec("to_str_short", g_short, |_, a| {
            let s = a[0].z().radix(a[1].z().u32());
            if s.len() > a[2].z().u32() as usize {
                R::Panic
            } else {
                R::Any(vec![R::Panic, R::S(s)])
            }
        })
        .weight(50),
        spec("radix_there_and_back", g_radix, |_, a| R::some(R::Z(a[0].z().clone()))).weight(200),
        spec("display_there_and_back", g1, |_, a| R::some(R::Z(a[0].z().clone()))),
        spec("bits_there_and_back", g1, |t, a| {
            R::T(vec![R::some(R::Z(t.unsigned().wrap(a[0].z()))); 4])
        }),
    ];
    macro_rules! both {
        ($T:ident, $U:ident) => {
            join(out, &specs, $T::TY, acts! {
                "display"(a: $T) format!("{a}");
                "to_string"(a: $T) a.to_string();
                "debug"(a: $T) format!("{a:?}");
                "binary"(a: $T) format!("{a:b}");
                "binary_alternate"(a: $T) format!("{a:#b}");
                "octal"(a: $T) format!("{a:o}");
                "octal_alternate"(a: $T) format!("{a:#o}");
                "lower_hex"(a: $T) format!("{a:x}");
                "lower_hex_alternate"(a: $T) format!("{a:#x}");
                "upper_hex"(a: $T) format!("{a:X}");
                "upper_hex_alternate"(a: $T) format!("{a:#X}");
                "lower_exp"(a: $T) scientific(&format!("{a:e}"), 'e');
                "upper_exp"(a: $T) scientific(&format!("{a:E}"), 'E');
                "to_str_radix"(a: $T, r: u32, spare: u32) written(a, r, spare, |a, b, r| a.to_str_radix(b, r));
                "to_str_bad_radix"(a: $T, r: u32, spare: u32) written(a, r, spare, |a, b, r| a.to_str_radix(b, r));
                "to_str_short"(a: $T, r: u32, room: u32) {
                    let mut buffer = vec![b'#'; room as usize];
                    String::from_utf8_lossy(a.to_str_radix(&mut buffer, r)).to_ascii_lowercase()
                };
                "radix_there_and_back"(a: $T, r: u32, spare: u32) {
                    let s = written(a, r, spare, |a, b, r| a.to_str_radix(b, r));
                    <$T>::from_str_radix(&s, r)
                };
                "display_there_and_back"(a: $T) a.to_string().parse::<$T>();
                "bits_there_and_back"(a: $T) [
                    <$U>::from_str_radix(&format!("{a:b}"), 2),
                    <$U>::from_str_radix(&format!("{a:o}"), 8),
                    <$U>::from_str_radix(&format!("{a:x}"), 16),
                    <$U>::from_str_radix(&format!("{a:X}"), 16),
                ];
            });
        };
    }
    macro_rules! uns {
        ($T:ident, $O:ident) => {
            both!($T, $T);
        };
    }
    unsigned!(uns);
    signed!(both);
}

/// Write into a buffer of the documented size and some spare room, full of
/// other text.
fn written<T: Big>(
    a: T,
    radix: u32,
    spare: u32,
    f: for<'a> fn(T, &'a mut [u8], u32) -> &'a [u8],
) -> String {
    let n = T::TY.bits + T::TY.signed as u32 + spare;
    let mut buffer = vec![b'#'; n as usize];
    let s = f(a, &mut buffer, radix);
    // The case of the digits is not specified.
    String::from_utf8_lossy(s).to_ascii_lowercase()
}
