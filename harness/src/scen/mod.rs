//! Scenarios: one or more per property.
use crate::sim::Ctx;
pub mod acc;
pub mod common;
pub mod conc;
pub mod damage;
pub mod fault;
pub mod huge;
pub mod look;
pub mod port;
pub mod read;
pub mod tree;
pub mod write;

pub type F = fn(&mut Ctx);
/// Property, scenario, runs at the quick tier, entry point.
pub const SCENARIOS: &[(&str, &str, u64, F)] = &[
    ("C01", "C01", 8000, write::c01),
    ("C01", "C01.huge", 1, huge::c01),
    ("C02", "C02", 5000, write::c02),
    ("C03", "C03", 8000, write::c03),
    ("C03", "C03.huge", 1, huge::c03),
    ("C04", "C04", 4000, fault::c04),
    ("C05", "C05", 4000, fault::c05),
    ("C05", "C05.read", 3000, fault::c05_read),
    ("C06", "C06", 3000, conc::c06),
    ("C06", "C06.values", 1500, conc::c06_bomb),
    ("C07", "C07", 6000, fault::c07),
    ("C07", "C07.forged", 1, fault::c07_forged),
    ("C08", "C08", 4000, fault::c08),
    ("C09", "C09", 6000, conc::c09),
    ("C10", "C10", 3000, conc::c10),
    ("C11", "C11", 7000, read::c11),
    ("C12", "C12", 6000, read::c12),
    ("C12", "C12.odd", 1, read::c12_odd),
    ("C13", "C13", 8000, read::c13),
    ("C14", "C14", 8000, damage::c14),
    ("C15", "C15", 5000, read::c15),
    ("C18", "C18", 1600, read::c18),
    ("C19", "C19", 2500, port::c19),
    ("", "C19.write", 0, port::c19_write),
    ("C20", "C20", 6000, read::c20),
    ("C16", "C16", 3000, acc::c16),
    ("C17", "C17", 5000, fault::c17),
    ("C17", "C17.race", 2000, fault::c17_race),
];
pub fn plan(prop: &str) -> Vec<(String, u64)> {
    SCENARIOS.iter().filter(|s| s.0 == prop).map(|s| (s.1.to_string(), s.2)).collect()
}
pub fn lookup(name: &str) -> Option<F> {
    SCENARIOS.iter().find(|s| s.1 == name).map(|s| s.3)
}
pub fn names() -> Vec<&'static str> {
    SCENARIOS.iter().filter(|s| !s.0.is_empty()).map(|s| s.1).collect()
}
