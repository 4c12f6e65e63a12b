#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
pub mod sx;
pub mod sup;
pub mod clock;
pub mod refs;
pub mod tun;
macro_rules! group { ($($f:literal => $m:ident),* $(,)?) => { $(#[cfg(feature = $f)] pub mod $m;)* } }
pub mod srv;
pub mod cli;
#[cfg(any(feature = "h2s", feature = "h2c", feature = "par"))]
pub mod h2p;
#[cfg(any(feature = "h2s", feature = "h2c", feature = "par"))]
pub mod h2x;
#[cfg(any(feature = "h2s", feature = "par"))]
pub mod srv2;
#[cfg(any(feature = "h2c", feature = "par"))]
pub mod cli2h;
#[cfg(any(feature = "conn", feature = "cli2"))]
pub mod same;
group! {
    "frame" => frame,
    "chunk" => chunk, "resp" => resp, "conn" => conn, "io" => io, "limits" => limits, "misc" => misc,
    "cli1" => cli1, "cli2" => cli2,
    "h2s" => rt, "h2s" => h2l, "h2c" => h2lc,
    "h2s" => h2s, "h2c" => h2c, "par" => par,
}
