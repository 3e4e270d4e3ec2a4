//! Independent oracle: nothing in here depends on (or copies code from) stylist.
//!
//! * `rng`    – deterministic PRNG, derived from VERIF_SEED
//! * `model`  – random stylesheet model, source printer, and the *expected* meaning of a sheet
//! * `css`    – a small, independent CSS reader that flattens emitted CSS into events
//! * `report` – counters, violation/replay files, evidence files
pub mod css;
pub mod model;
pub mod report;
pub mod rng;
