//! Harnesses deciding the properties in /verif/properties.jsonl.
pub mod gr;
pub mod lx;
pub mod p;
pub mod rt;
pub mod rx;
