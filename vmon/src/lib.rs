//! Monitor library: tracked element types, drop ledger, value trees, reference
//! model driven by the observed call trace, and the engine that runs a
//! subject in every mode and judges what was observed.

pub mod elem;
pub mod engine;
pub mod gen;
pub mod ledger;
pub mod model;
pub mod probe;
pub mod support;
pub mod text;
pub mod tree;

pub use funcmap;

pub use elem::*;
pub use engine::*;
pub use gen::*;
pub use model::*;
pub use tree::*;
