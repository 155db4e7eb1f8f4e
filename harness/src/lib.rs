//! Harness bodies. Every harness is ordinary Rust over the public API of the
//! checked crates; the only inputs are `sym::*` values. The same code is
//! (a) lowered to LLVM IR and executed symbolically by `rsym`, and
//! (b) linked into the replay binary and run natively on concrete inputs.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;

#[macro_use]
pub mod sym;
pub mod util;
pub mod ffi;
pub mod ghost;
pub mod store;

/// A registered harness.
pub struct H {
    pub property: &'static str,
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub run: extern "C-unwind" fn(u64),
}

/// Declares harnesses and their registry.
macro_rules! harnesses {
    ($($prop:ident $name:ident [$q:expr, $t:expr] ($c:ident) $body:block)*) => {
        $(
            #[unsafe(no_mangle)]
            #[allow(unused_variables)]
            pub extern "C-unwind" fn $name(arg: u64) {
                let $c = $crate::sym::Cfg::new(arg);
                $body
            }
        )*
        pub const LIST: &[$crate::H] = &[
            $($crate::H { property: stringify!($prop), name: stringify!($name), quick: $q, thorough: $t, run: $name },)*
        ];
    };
}

#[cfg(feature = "p01")]
pub mod p01;
#[cfg(feature = "p02")]
pub mod p02;
#[cfg(feature = "p03")]
pub mod p03;
#[cfg(feature = "p04")]
pub mod p04;
#[cfg(feature = "p05")]
pub mod p05;
#[cfg(feature = "p06")]
pub mod p06;
#[cfg(feature = "p07")]
pub mod p07;
#[cfg(feature = "p08")]
pub mod p08;
#[cfg(feature = "p09")]
pub mod p09;
#[cfg(feature = "p10")]
pub mod p10;
#[cfg(feature = "p11")]
pub mod p11;
#[cfg(feature = "p12")]
pub mod p12;
#[cfg(feature = "p13")]
pub mod p13;
#[cfg(feature = "p14")]
pub mod p14;
#[cfg(feature = "p15")]
pub mod p15;
#[cfg(feature = "p16")]
pub mod p16;
#[cfg(feature = "p17")]
pub mod p17;
#[cfg(feature = "p18")]
pub mod p18;
#[cfg(feature = "p19")]
pub mod p19;
#[cfg(feature = "p20")]
pub mod p20;
#[cfg(feature = "p21")]
pub mod p21;
#[cfg(feature = "p22")]
pub mod p22;
#[cfg(feature = "p23")]
pub mod p23;
#[cfg(feature = "p24")]
pub mod p24;
#[cfg(feature = "p25")]
pub mod p25;

pub const ALL: &[&[H]] = &[
    #[cfg(feature = "p01")]
    p01::LIST,
    #[cfg(feature = "p02")]
    p02::LIST,
    #[cfg(feature = "p03")]
    p03::LIST,
    #[cfg(feature = "p04")]
    p04::LIST,
    #[cfg(feature = "p05")]
    p05::LIST,
    #[cfg(feature = "p06")]
    p06::LIST,
    #[cfg(feature = "p07")]
    p07::LIST,
    #[cfg(feature = "p08")]
    p08::LIST,
    #[cfg(feature = "p09")]
    p09::LIST,
    #[cfg(feature = "p10")]
    p10::LIST,
    #[cfg(feature = "p11")]
    p11::LIST,
    #[cfg(feature = "p12")]
    p12::LIST,
    #[cfg(feature = "p13")]
    p13::LIST,
    #[cfg(feature = "p14")]
    p14::LIST,
    #[cfg(feature = "p15")]
    p15::LIST,
    #[cfg(feature = "p16")]
    p16::LIST,
    #[cfg(feature = "p17")]
    p17::LIST,
    #[cfg(feature = "p18")]
    p18::LIST,
    #[cfg(feature = "p19")]
    p19::LIST,
    #[cfg(feature = "p20")]
    p20::LIST,
    #[cfg(feature = "p21")]
    p21::LIST,
    #[cfg(feature = "p22")]
    p22::LIST,
    #[cfg(feature = "p23")]
    p23::LIST,
    #[cfg(feature = "p24")]
    p24::LIST,
    #[cfg(feature = "p25")]
    p25::LIST,
];
