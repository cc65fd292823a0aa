//! The operations of each property.

#![allow(unused_imports, deprecated)]

pub(crate) use crate::big::*;
pub(crate) use crate::engine::*;
pub(crate) use crate::gen;
pub(crate) use crate::tape::Tape;
pub(crate) use crate::z::{Ty, Z};
pub(crate) use crate::{acts, all, signed, unsigned};

#[cfg(any(feature = "p05", feature = "p06"))]
mod shiftops;
#[cfg(any(feature = "p05", feature = "p06"))]
pub(crate) use shiftops::shift_ops;

#[cfg(any(feature = "p15", feature = "p16"))]
mod program;
#[cfg(any(feature = "p15", feature = "p16"))]
pub(crate) use program::program_ops;

macro_rules! props {
    ($($m:ident $feature:literal $id:literal;)*) => {
        $( #[cfg(feature = $feature)] mod $m; )*
        /// The operations of the property compiled in, and its name.
        pub fn ops() -> (&'static str, Vec<Op>) {
            #[allow(unused_mut)]
            let mut out = Vec::new();
            #[allow(unused_mut, unused_assignments)]
            let mut id = "";
            // One of several properties, if only it matters.
            let only = std::env::var("HARNESS_ONLY").unwrap_or_default();
            $( #[cfg(feature = $feature)] if only.is_empty() || only == $id {
                let before = out.len();
                $m::ops(&mut out);
                id = $id;
                if cfg!(any(feature = "p15", feature = "p16", feature = "p17", feature = "p20")) && !cfg!(miri) {
                    // Operations of several properties: names must differ.
                    for op in &mut out[before..] {
                        op.name = Box::leak(format!("{id}.{}", op.name).into_boxed_str());
                    }
                }
            } )*
            (id, out)
        }
    };
}
props! {
    p01 "p01" "P01";
    p02 "p02" "P02";
    p03 "p03" "P03";
    p04 "p04" "P04";
    p05 "p05" "P05";
    p06 "p06" "P06";
    p07 "p07" "P07";
    p08 "p08" "P08";
    p09 "p09" "P09";
    p10 "p10" "P10";
    p11 "p11" "P11";
    p12 "p12" "P12";
    p13 "p13" "P13";
    p14 "p14" "P14";
    p15 "p15" "P15";
    p18 "p18" "P18";
    p19 "p19" "P19";
}
