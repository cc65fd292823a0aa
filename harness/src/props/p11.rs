//! Parsing.

use super::*;
use crate::wire::kind;
use i256::ParseIntError;

fn bad(t: &mut Tape, radix: u32) -> String {
    match t.below(12) {
        0 => " ".into(),
        1 => "_".into(),
        2 => "+".into(),
        3 => "-".into(),
        4 => ".".into(),
        5 => "\u{0}".into(),
        6 => "é".into(),
        7 => "\u{1d7d9}".into(),
        // The characters next to the digit ranges.
        8 => t.pick(&['/', ':', '@', '[', '`', '{']).to_string(),
        // The first digit that does not exist in this radix.
        9 | 10 if radix < 36 => {
            let c = char::from_digit(radix, 36).expect("digit");
            if t.bool() { c.to_ascii_uppercase() } else { c }.to_string()
        }
        _ => {
            // Any ASCII that is not a digit of the radix.
            let c = t.below(128) as u8 as char;
            if c.is_digit(radix) { "~".into() } else { c.to_string() }
        }
    }
}

/// A text that is a numeral, nearly one, or out of range.
fn text(t: &mut Tape, ty: &Ty, radix: u32) -> String {
    let z = match t.below(12) {
        0 => ty.max().addi(t.offset(3)),
        1 => ty.min().addi(t.offset(3)),
        // A numeral of digits all alike, around the number that fit.
        2 => {
            let fit = ty.max().radix(radix).len() as i64;
            let n = (fit + t.offset(2)).max(1);
            let d = if t.bool() { radix - 1 } else { t.below(radix as u64) as u32 };
            let mut z = Z::zero();
            for _ in 0..n {
                z = z.muladd_small(radix, d);
            }
            z
        }
        // A power of the radix, or one less.
        3 => {
            let n = t.below(ty.max().radix(radix).len() as u64 + 2);
            let mut z = Z::i(1);
            for _ in 0..n {
                z = z.muladd_small(radix, 0);
            }
            z.addi(t.offset(1))
        }
        // Longer than any primitive and maybe than the type.
        4 => gen::val(t, &Ty::s(ty.bits + 64)),
        // About the size of the primitives.
        5 => gen::val(t, &Ty::s(160)),
        6 => gen::val(t, &Ty::s(64)),
        _ => gen::val(t, ty),
    };
    let neg = if ty.signed { z.neg } else { z.neg && t.chance(4) };
    let mut digits = z.abs().radix(radix);
    match t.below(4) {
        0 => digits = digits.to_ascii_uppercase(),
        1 => {
            digits = digits
                .chars()
                .map(|c| if t.bool() { c.to_ascii_uppercase() } else { c })
                .collect()
        }
        _ => {}
    }
    // Leading zeros do not count.
    if t.chance(4) {
        let n = match t.below(4) {
            0 => 1,
            1 => t.below(40) as usize,
            2 => (ty.bits as usize).saturating_sub(digits.len()),
            _ => ty.bits as usize + t.below(40) as usize,
        };
        digits = "0".repeat(n) + &digits;
    }
    let mut s = match (neg, t.below(6)) {
        (true, _) => format!("-{digits}"),
        (false, 0) => format!("+{digits}"),
        _ => digits,
    };
    match t.below(16) {
        // One bad character, anywhere.
        0 | 1 => {
            let at = t.below(s.len() as u64 + 1) as usize;
            let b = bad(t, radix);
            s.insert_str(at, &b);
        }
        // Instead of a digit.
        2 => {
            let at = t.below(s.len() as u64) as usize;
            let b = bad(t, radix);
            s.replace_range(at..at + 1, &b);
        }
        // Nothing, or nearly.
        3 => s = t.pick(&["", "+", "-", "++", "--", "+-", "-+", " ", "+ ", "- 1"]).to_string(),
        4 => s = format!("{}{s}", t.pick(&["+", "-", " ", "0x", "0b", "0o"])),
        5 => s = format!("{s}{}", t.pick(&[" ", "\n", "u8", "_", "e1", ".0"])),
        _ => {}
    }
    s
}

fn g_radix(t: &mut Tape, ty: &Ty) -> Args {
    let radix = match t.below(10) {
        0 | 1 => 10,
        2 => 16,
        3 => 2,
        4 => 36,
        _ => 2 + t.below(35) as u32,
    };
    let s = text(t, ty, radix);
    vec![Arg::S(s), Arg::Z(Z::i(radix as i64))]
}
fn g_decimal(t: &mut Tape, ty: &Ty) -> Args {
    vec![Arg::S(text(t, ty, 10))]
}
/// Decimal numerals about as long as those of the primitives, for which there
/// are shortcuts by length.
fn g_short(t: &mut Tape, ty: &Ty) -> Args {
    let digits = *t.pick(&[9u64, 18, 19, 20, 37, 38, 39]) as i64 + t.offset(1);
    let sign = *t.pick(if ty.signed { &["", "-", "+"] } else { &["", "+"] });
    let mut s = String::new();
    for i in 0..digits {
        let d = match t.below(6) {
            0 | 1 => 9,
            2 if i > 0 || t.chance(8) => 0,
            _ => 1 + t.below(9),
        };
        s.push((b'0' + d as u8) as char);
    }
    let limits = [i32::MAX as u128, u32::MAX as u128, i64::MAX as u128, u64::MAX as u128, i128::MAX as u128, u128::MAX];
    if t.chance(3) {
        s = Z::from_u128(*t.pick(&limits)).addi(t.offset(2)).radix(10);
    }
    if t.chance(12) {
        let at = t.below(s.len() as u64) as usize;
        let b = bad(t, 10);
        s.replace_range(at..at + 1, &b);
    }
    vec![Arg::S(format!("{sign}{s}"))]
}
fn g_bad_radix(t: &mut Tape, ty: &Ty) -> Args {
    let radix = match t.below(4) {
        0 => 0,
        1 => 1,
        2 => 37 + t.below(4) as u32,
        _ => (t.next() as u32).max(37),
    };
    let s = text(t, ty, 10);
    vec![Arg::S(s), Arg::Z(Z::i(radix as i64))]
}

fn err(kinds: &[&str]) -> R {
    R::Any(kinds.iter().map(|k| R::T(vec![R::Err, R::S(k.to_string())])).collect())
}

fn parse(t: &Ty, s: &str, radix: u32) -> R {
    if s.is_empty() {
        return err(&["Empty"]);
    }
    let (neg, digits) = match s.as_bytes()[0] {
        b'+' => (false, &s[1..]),
        b'-' => (true, &s[1..]),
        _ => (false, s),
    };
    if neg && !t.signed {
        // Too small, or a character that does not belong: both are true.
        return err(&["NegOverflow", "InvalidDigit"]);
    }
    if digits.is_empty() {
        return err(&["InvalidDigit"]);
    }
    let mut z = Z::zero();
    let mut invalid = false;
    for c in digits.chars() {
        match c.to_digit(radix) {
            Some(d) if !invalid => z = z.muladd_small(radix, d),
            Some(_) => {}
            None => invalid = true,
        }
    }
    // What comes before a bad digit may already be too large.
    let z = if neg { z.neg() } else { z };
    let over = if neg { "NegOverflow" } else { "PosOverflow" };
    match (invalid, t.fits(&z)) {
        (false, true) => R::some(R::Z(z)),
        (false, false) => err(&[over]),
        (true, true) => err(&["InvalidDigit"]),
        (true, false) => err(&["InvalidDigit", over]),
    }
}

fn of(ty: &Ty, bits: u32) -> Ty {
    Ty { bits, signed: ty.signed }
}

/// What the text of an error says.
fn message<T: ToR>(r: Result<T, ParseIntError>) -> R {
    match r {
        Ok(x) => R::some(x.r()),
        Err(e) => {
            let text = e.to_string();
            let said = [("empty", "Empty"), ("digit", "InvalidDigit"), ("large", "PosOverflow"), ("small", "NegOverflow")];
            let said = said.iter().find(|(word, _)| text.contains(word)).map_or(text.as_str(), |(_, kind)| kind);
            R::T(vec![R::Err, R::S(said.to_string())])
        }
    }
}

pub fn ops(out: &mut Vec<Op>) {
    let specs = [
        spec("from_str_radix", g_radix, |t, a| parse(t, a[0].s(), a[1].z().u32())).weight(400),
        spec("from_str", g_decimal, |t, a| parse(t, a[0].s(), 10)).weight(200),
        spec("from_str_short", g_short, |t, a| parse(t, a[0].s(), 10)).weight(1000),
        spec("from_str_is_radix_10", g_decimal, |t, a| parse(t, a[0].s(), 10)).weight(100),
        spec("bad_radix", g_bad_radix, |_, _| R::Panic).weight(10),
        spec("message", g_radix, |t, a| parse(t, a[0].s(), a[1].z().u32())).weight(100),
        spec("std_error_64", |t, ty| g_decimal(t, &of(ty, 64)), |t, a| parse(&of(t, 64), a[0].s(), 10)),
        spec("std_error_128", |t, ty| g_decimal(t, &of(ty, 128)), |t, a| parse(&of(t, 128), a[0].s(), 10)),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, &[
                ("from_str_radix", |a| kind(<$T>::from_str_radix(a[0].s(), u32::fa(&a[1]))), &[],
                    (&[("s", "&str"), ("r", "u32")], concat!(stringify!($T), "::from_str_radix(s, r)"))),
                ("from_str", |a| kind(a[0].s().parse::<$T>()), &[], UNWRITTEN),
                ("from_str_short", |a| kind(a[0].s().parse::<$T>()), &[], UNWRITTEN),
                ("from_str_is_radix_10", |a| kind(<$T>::from_str_radix(a[0].s(), 10)), &[], UNWRITTEN),
                ("bad_radix", |a| kind(<$T>::from_str_radix(a[0].s(), u32::fa(&a[1]))), &[], UNWRITTEN),
                ("message", |a| message(<$T>::from_str_radix(a[0].s(), u32::fa(&a[1]))), &[], UNWRITTEN),
            ]);
        };
    }
    all!(both);
    // Errors of the standard library keep their kind.
    macro_rules! std {
        ($T:ident $s:ident $l:ident) => {
            join(out, &specs, $T::TY, &[
                ("std_error_64", |a| kind(a[0].s().parse::<$s>().map_err(ParseIntError::from)), &[], UNWRITTEN),
                ("std_error_128", |a| kind(a[0].s().parse::<$l>().map_err(ParseIntError::from)), &[], UNWRITTEN),
            ]);
        };
    }
    std!(U256 u64 u128);
    std!(I256 i64 i128);
}
