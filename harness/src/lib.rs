#![allow(dead_code, static_mut_refs)]
pub mod sym;
pub mod tu;
pub mod src;
#[cfg(feature = "geo")] pub mod geo;
#[cfg(feature = "shp")] pub mod shp;
#[cfg(feature = "dbf")] pub mod dbf;
#[cfg(feature = "join")] pub mod join;
#[cfg(feature = "topo")] pub mod topo;
#[cfg(feature = "norm")] pub mod norm;
#[cfg(feature = "clip")] pub mod clip;
#[cfg(feature = "simp")] pub mod simp;
#[cfg(feature = "pipe")] pub mod pipe;
