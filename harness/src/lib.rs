//! Harness entries for the symbolic executor: one module for each property, chosen by a feature.
#![allow(dead_code, unused_imports, clippy::all)]
mod sym;
mod util;
#[cfg(not(any(feature = "p15", feature = "p16")))]
mod gen;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03", feature = "p04", feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09", feature = "p14", feature = "p18", feature = "p19", feature = "p20", feature = "p21", feature = "p22", feature = "p23"))]
mod ast;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03", feature = "p04", feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09", feature = "p18", feature = "p19", feature = "p21", feature = "p22", feature = "p23"))]
mod place;
#[cfg(any(feature = "p01", feature = "p02", feature = "p03", feature = "p04", feature = "p05", feature = "p06", feature = "p07", feature = "p08", feature = "p09", feature = "p18", feature = "p21", feature = "p22", feature = "p23"))]
mod dress;
#[cfg(any(feature = "p10", feature = "p11", feature = "p12", feature = "p13", feature = "p17"))]
mod cases;
#[cfg(feature = "p15")]
mod p15;
#[cfg(feature = "p16")]
mod p16;
#[cfg(feature = "p01")]
mod p01;
#[cfg(any(feature = "p02", feature = "p03", feature = "p04", feature = "p21"))]
mod p02;
#[cfg(feature = "p03")]
mod p03;
#[cfg(feature = "p04")]
mod p04;
#[cfg(feature = "p05")]
mod p05;
#[cfg(feature = "p06")]
mod p06;
#[cfg(feature = "p07")]
mod p07;
#[cfg(feature = "p08")]
mod p08;
#[cfg(any(feature = "p09", feature = "p21"))]
mod p09;
#[cfg(feature = "p10")]
mod p10;
#[cfg(feature = "p11")]
mod p11;
#[cfg(feature = "p12")]
mod p12;
#[cfg(feature = "p13")]
mod p13;
#[cfg(feature = "p14")]
mod p14;
#[cfg(feature = "p17")]
mod p17;
#[cfg(feature = "p18")]
mod p18;
#[cfg(feature = "p19")]
mod p19;
#[cfg(any(feature = "p20", feature = "p21"))]
mod p20;
#[cfg(feature = "p21")]
mod p21;
#[cfg(feature = "p22")]
mod p22;
#[cfg(feature = "p23")]
mod p23;
