//! Property harnesses.  Every input comes from a `vp_*` call: symbolic under the executor, recorded under replay.
#![allow(dead_code, unused_imports, unused_macros)]

mod prelude;
pub use prelude::*;

macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $((stringify!($n), $n as extern "C" fn())),* ];
    }
}
macro_rules! props {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] mod $m; )*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C" fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    }
}
props! {
    "p01" p01 "p02" p02 "p03" p03 "p04" p04 "p05" p05 "p06" p06 "p07" p07 "p08" p08 "p09" p09 "p10" p10 "p11" p11 "p12" p12 "p13" p13 "p14" p14 "p15" p15 "p16" p16 "p17" p17 "p18" p18 "p19" p19 "p20" p20 "p21" p21 "p22" p22 "p23" p23 "p24" p24 "p25" p25 "p26" p26 "p27" p27 "p28" p28 "p29" p29 "p30" p30 "p31" p31 "p32" p32 "p33" p33 "p34" p34 "p35" p35 "p36" p36 "p37" p37 "p38" p38 "p39" p39 "p40" p40
}
