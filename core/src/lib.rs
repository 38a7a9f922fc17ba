//! Shared machinery of the checks: reporting, a reference JSON Schema evaluator, universes of JSON values.
pub mod jsv;
pub mod report;
pub mod uni;
pub mod bisim;
pub use report::Report;
pub mod ecma;
