//! Width, fill, alignment, sign and prefix of formatted numbers.

use super::*;
use std::fmt::{Binary, Debug, Display, LowerHex, Octal, UpperHex, Write};

trait Shown: Display + Debug + Binary + Octal + LowerHex + UpperHex {}
impl<T: Display + Debug + Binary + Octal + LowerHex + UpperHex> Shown for T {}

#[derive(Clone, Copy, Default)]
struct Options {
    fill: Option<char>,
    /// Left, centre, right.
    align: Option<u8>,
    plus: bool,
    alternate: bool,
    zero: bool,
    width: Option<usize>,
}

/// The options that a format string stands for: `[[fill]align]['+']['#']['0'][width]`.
fn options(s: &str, width: usize) -> Options {
    let mut o = Options::default();
    let mut c: Vec<char> = s.chars().collect();
    let side = |c: char| "<^>".find(c).map(|x| x as u8);
    if c.len() > 1 && side(c[1]).is_some() {
        o.fill = Some(c.remove(0));
    }
    if !c.is_empty() && side(c[0]).is_some() {
        o.align = side(c.remove(0));
    }
    for x in c {
        match x {
            '+' => o.plus = true,
            '#' => o.alternate = true,
            '0' => o.zero = true,
            'w' => o.width = Some(width),
            '$' => {}
            x => panic!("format option {x}"),
        }
    }
    o
}

/// The rules of the standard library for integers.
fn lay_out(o: &Options, negative: bool, prefix: &str, digits: &str) -> String {
    let sign = if negative {
        "-"
    } else if o.plus {
        "+"
    } else {
        ""
    };
    let prefix = if o.alternate { prefix } else { "" };
    let n = sign.len() + prefix.len() + digits.len();
    let pad = o.width.unwrap_or(0).saturating_sub(n);
    if o.zero {
        return format!("{sign}{prefix}{}{digits}", "0".repeat(pad));
    }
    let before = match o.align {
        Some(0) => 0,
        Some(1) => pad / 2,
        _ => pad,
    };
    let fill = o.fill.unwrap_or(' ');
    let mut s = String::new();
    s.extend(std::iter::repeat(fill).take(before));
    s += sign;
    s += prefix;
    s += digits;
    s.extend(std::iter::repeat(fill).take(pad - before));
    s
}

/// Format in the way of `$k`, and the options of that way.
macro_rules! styles {
    ($($s:literal)*) => {
        const STYLES: &[&str] = &[$($s),*];
        fn show(out: &mut dyn Write, x: &dyn Shown, kind: u32, style: u32, w: usize) -> std::fmt::Result {
            let mut _k = 0;
            $(
                if style == _k {
                    let _ = w;
                    return match kind {
                        0 => write!(out, concat!("{:", $s, "}"), x, w = w),
                        1 => write!(out, concat!("{:", $s, "?}"), x, w = w),
                        2 => write!(out, concat!("{:", $s, "b}"), x, w = w),
                        3 => write!(out, concat!("{:", $s, "o}"), x, w = w),
                        4 => write!(out, concat!("{:", $s, "x}"), x, w = w),
                        _ => write!(out, concat!("{:", $s, "X}"), x, w = w),
                    };
                }
                _k += 1;
            )*
            panic!("style {style}");
        }
    };
}
styles! {
    "w$" "0w$" "#w$" "#0w$" "+w$" "+0w$" "+#w$" "+#0w$"
    "<w$" "^w$" ">w$" "*<w$" "*^w$" "*>w$" "0>w$" "0<w$" "0^w$" "é^w$" "é>w$" "é<w$"
    "<#w$" "^#w$" ">#w$" "*<+w$" "*^+w$" "*>+w$" "*<+#w$" "_^+#w$" "_>+#w$" "0>#w$"
    "<0w$" "*^0w$" "*>#0w$" "*<+#0w$" "-^w$" "+>w$" "#<w$" "<<w$" "^^w$" ">>+w$"
}

fn parts(ty: &Ty, z: &Z, kind: u32) -> (bool, &'static str, String) {
    let bits = |r| ty.unsigned().wrap(z).radix(r);
    match kind {
        0 | 1 => (z.neg, "", z.abs().radix(10)),
        2 => (false, "0b", bits(2)),
        3 => (false, "0o", bits(8)),
        4 => (false, "0x", bits(16)),
        _ => (false, "0x", bits(16).to_ascii_uppercase()),
    }
}

/// Value, kind, style and a width near the length of the text.
fn g(t: &mut Tape, ty: &Ty) -> Args {
    let z = match t.below(4) {
        0 => ty.wrap(&Z::i(t.offset(12))),
        _ => gen::val(t, ty),
    };
    let kind = t.below(6) as u32;
    let style = t.below(STYLES.len() as u64) as i64;
    let n = parts(ty, &z, kind).2.len() as i64;
    let w = match t.below(4) {
        0 => n - 1 + t.below(8) as i64,
        1 => n + 3 + t.below(40) as i64,
        2 => t.below(ty.bits as u64 + 40) as i64,
        _ => n + t.offset(6),
    };
    zs([z, Z::i(kind as i64), Z::i(style), Z::i(w.max(0))])
}
/// The same, with room for so many bytes.
fn g_sink(t: &mut Tape, ty: &Ty) -> Args {
    let mut v = g(t, ty);
    let n = text(ty, &v).len() as i64;
    let room = match t.below(3) {
        0 => n + t.offset(2),
        1 => t.below(n as u64 + 1) as i64,
        _ => n + t.below(40) as i64,
    };
    v.push(Arg::Z(Z::i(room.max(0))));
    v
}

fn text(ty: &Ty, a: &Args) -> String {
    let (kind, style, w) = (a[1].z().u32(), a[2].z().u32(), a[3].z().u32() as usize);
    let z = a[0].z();
    let (negative, prefix, digits) = parts(ty, z, kind);
    let s = lay_out(&options(STYLES[style as usize], w), negative, prefix, &digits);
    // The rules are those of the standard library, where it has the number.
    let mut std = String::new();
    if !z.neg && z.bits() <= 128 {
        let _ = show(&mut std, &z.to_u128().unwrap(), kind, style, w);
    } else if z.neg && z.bits() < 128 && kind < 2 {
        let x = -(z.abs().to_u128().unwrap() as i128);
        let _ = show(&mut std, &x, kind, style, w);
    } else {
        return s;
    }
    assert_eq!(s, std, "the oracle disagrees with the standard library");
    s
}

/// Takes so many bytes and no more.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// The text is longer than the number.
fn padded(ty: &Ty, a: &Args, _: &R) -> bool {
    let width = a[3].z().u32() as usize;
    parts(ty, a[0].z(), a[1].z().u32()).2.len() < width
}

pub fn ops(out: &mut Vec<Op>) {
    let specs = [
        spec("format", g, |t, a| R::S(text(t, a))).weight(800).rule(padded),
        spec("format_into_limited_room", g_sink, |t, a| R::B(text(t, a).len() <= a[4].z().u32() as usize)).rule(padded),
    ];
    macro_rules! both {
        ($T:ident, $O:ident) => {
            join(out, &specs, $T::TY, acts! {
                "format"(a: $T, kind: u32, style: u32, w: u32) {
                    let mut s = String::new();
                    show(&mut s, &a, kind, style, w as usize).expect("no error");
                    s
                };
                "format_into_limited_room"(a: $T, kind: u32, style: u32, w: u32, room: u32) {
                    show(&mut Sink(room as usize), &a, kind, style, w as usize).is_ok()
                };
            });
        };
    }
    all!(both);
}
