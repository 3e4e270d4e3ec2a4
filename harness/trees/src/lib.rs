pub mod comps;
pub mod world;
