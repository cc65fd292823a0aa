//! Glue between the reference integer and the types under test.

use crate::engine::{Arg, ToR, R};
use crate::z::{Ty, Z};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
#[cfg(feature = "i1024")]
pub use i256::{I1024, U1024};
pub use i256::{I256, U256};
#[cfg(feature = "i384")]
pub use i256::{I384, U384};
#[cfg(feature = "i512")]
pub use i256::{I512, U512};

/// Is the crate built with overflow checks?
pub const OVF: bool = cfg!(feature = "ovf");
#[allow(dead_code)]
pub const LIMB: u32 = i256::ULimb::BITS;

pub trait FromArg: Sized {
    /// The type, if it is a big integer.
    const BIG: Option<Ty> = None;
    fn fa(a: &Arg) -> Self;
}
pub trait Big: Copy {
    const TY: Ty;
    fn fz(z: &Z) -> Self;
    fn tz(self) -> Z;
}

macro_rules! big {
    ($($t:ident $n:literal $s:literal;)*) => {$(
        impl Big for $t {
            const TY: Ty = Ty { bits: $n, signed: $s };
            fn fz(z: &Z) -> Self {
                Self::fa(&Arg::Z(z.clone()))
            }
            fn tz(self) -> Z {
                Z::from_le(&self.to_le_bytes(), $s)
            }
        }
        impl FromArg for $t {
            const BIG: Option<Ty> = Some(<$t as Big>::TY);
            fn fa(a: &Arg) -> Self { <$t>::from_le_bytes(a.le()) }
        }
        impl ToR for $t {
            fn r(self) -> R { R::number(&self.to_le_bytes(), $s) }
        }
    )*};
}
big! { U256 256 false; I256 256 true; }
#[cfg(feature = "i384")]
big! { U384 384 false; I384 384 true; }
#[cfg(feature = "i512")]
big! { U512 512 false; I512 512 true; }
#[cfg(feature = "i1024")]
big! { U1024 1024 false; I1024 1024 true; }

macro_rules! prim {
    ($($t:ident)*) => {$(
        impl FromArg for $t {
            fn fa(a: &Arg) -> Self {
                <$t>::from_le_bytes(a.le())
            }
        }
        impl Prim for $t {
            const TY: Ty = Ty { bits: <$t>::BITS, signed: <$t>::MIN != 0 };
            fn ty() -> Ty {
                match stringify!($t) {
                    "usize" => Ty::u(pointer_bits()),
                    "isize" => Ty::s(pointer_bits()),
                    _ => Self::TY,
                }
            }
        }
    )*};
}
pub trait Prim {
    const TY: Ty;
    /// The same on the target that runs the calls.
    fn ty() -> Ty;
}

static BIG_ENDIAN: AtomicBool = AtomicBool::new(cfg!(target_endian = "big"));
static POINTER_BITS: AtomicU32 = AtomicU32::new(usize::BITS);
/// The byte order and size of pointers of the target that runs the calls.
pub fn big_endian() -> bool {
    BIG_ENDIAN.load(Relaxed)
}
pub fn pointer_bits() -> u32 {
    POINTER_BITS.load(Relaxed)
}
/// Expect results of another target, such as `big64`.
pub fn set_target(name: &str) {
    BIG_ENDIAN.store(name.starts_with("big"), Relaxed);
    POINTER_BITS.store(if name.ends_with("32") { 32 } else { 64 }, Relaxed);
}
prim! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }

impl FromArg for bool {
    fn fa(a: &Arg) -> Self {
        a.le::<1>() != [0]
    }
}
impl FromArg for Z {
    fn fa(a: &Arg) -> Self {
        match a {
            Arg::Raw(b) => Z::from_le(b, true),
            a => a.z().clone(),
        }
    }
}
/// A number as little-endian bytes, sign-extended.
pub struct Le(pub Vec<u8>);
impl FromArg for Le {
    fn fa(a: &Arg) -> Self {
        Le(match a {
            Arg::Raw(b) => b.clone(),
            a => a.z().to_le(136),
        })
    }
}
impl FromArg for String {
    fn fa(a: &Arg) -> Self {
        a.s().to_string()
    }
}

/// The calls of one type: `"name"(a: Type, ...) expression;`
#[macro_export]
macro_rules! acts {
    ($( $name:literal ( $($v:ident : $t:ty),* ) $e:expr; )*) => {
        &[ $( ($name, (|args: &$crate::engine::Args| {
            let mut it = args.iter();
            $( let $v = <$t as $crate::big::FromArg>::fa(it.next().expect("argument")); )*
            let _ = &mut it;
            $crate::engine::ToR::r($e)
        }) as $crate::engine::ActFn, const { &[ $( <$t as $crate::big::FromArg>::BIG ),* ] as &[Option<$crate::z::Ty>] },
            (&[ $( (stringify!($v), stringify!($t)) ),* ], stringify!($e))), )* ]
    };
}

/// Expand `$m!(Type, OtherSign)` for the unsigned, signed or all types.
#[macro_export]
macro_rules! unsigned {
    ($m:ident) => {
        $m!(U256, I256);
        #[cfg(feature = "i384")]
        $m!(U384, I384);
        #[cfg(feature = "i512")]
        $m!(U512, I512);
        #[cfg(feature = "i1024")]
        $m!(U1024, I1024);
    };
}
#[macro_export]
macro_rules! signed {
    ($m:ident) => {
        $m!(I256, U256);
        #[cfg(feature = "i384")]
        $m!(I384, U384);
        #[cfg(feature = "i512")]
        $m!(I512, U512);
        #[cfg(feature = "i1024")]
        $m!(I1024, U1024);
    };
}
#[macro_export]
macro_rules! all {
    ($m:ident) => {
        $crate::unsigned!($m);
        $crate::signed!($m);
    };
}

/// Ways of reporting that an exact result does not fit.
pub mod mode {
    use super::*;
    pub fn wrapping(t: &Ty, z: Z) -> R {
        R::Z(t.wrap(&z))
    }
    pub fn overflowing(t: &Ty, z: Z) -> R {
        R::T(vec![R::Z(t.wrap(&z)), R::B(!t.fits(&z))])
    }
    pub fn checked(t: &Ty, z: Z) -> R {
        if t.fits(&z) {
            R::some(R::Z(z))
        } else {
            R::None
        }
    }
    pub fn saturating(t: &Ty, z: Z) -> R {
        R::Z(t.clamp(&z))
    }
    pub fn strict(t: &Ty, z: Z) -> R {
        if t.fits(&z) {
            R::Z(z)
        } else {
            R::Panic
        }
    }
    /// Plain operators.
    pub fn plain(t: &Ty, z: Z) -> R {
        if OVF {
            strict(t, z)
        } else {
            wrapping(t, z)
        }
    }
}
