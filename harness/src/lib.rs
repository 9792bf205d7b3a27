pub mod h_core;
pub mod h_geom;
pub mod h_min;
pub mod h_opt;
pub mod h_pin;
pub mod io;
#[cfg(feature = "ir")]
pub mod stubs;

pub fn table(name: &str) -> Option<io::Harness> {
    let all: &[&[(&str, io::Harness)]] = &[h_core::TABLE, h_pin::TABLE, h_geom::TABLE, h_opt::TABLE, h_min::TABLE];
    all.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
}
