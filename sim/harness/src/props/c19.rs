//! The other build configuration: without the worker pool, children in the order of the file, overflow checked.
//! The workloads and oracles of the other properties run on the crate built that way.
use crate::run::*;
use simstd::sim::Rng;

/// whose workload, and whether every listing is compared with the file's order
const AS: [(&str, bool); 14] =
    [("C01", true), ("C02", true), ("C04", true), ("C05", true), ("C06", true), ("C07", true), ("C08", true), ("C09", true), ("C11", true), ("C12", true), ("C13", true), ("C14", true), ("C15", true), ("C18", true)];
fn of(p: &Plan) -> (&'static str, bool) {
    AS[p.knob("as") as usize % AS.len()]
}
pub fn plan(p: &mut Plan, rng: &mut Rng) {
    let a = rng.below(AS.len() as u64);
    super::draw(AS[a as usize].0, p, rng);
    p.set("as", a as i64);
}
pub fn run(p: &Plan) {
    if !cfg!(feature = "alt") {
        harness_error("C19 runs in the other build only");
    }
    let (a, ordered) = of(p);
    super::ORDER.store(ordered, std::sync::atomic::Ordering::Relaxed);
    super::start(a, p)
}
