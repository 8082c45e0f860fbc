//! Shared machinery of the model-checking harnesses: reference instruction
//! model, fork pool with crash containment, evidence and violation output.
pub mod x86;
pub mod interp;
pub mod native;
pub mod single;
pub mod prog;
pub mod pool;
pub mod report;
pub mod objdump;
pub mod form;
pub mod hist;
pub mod far;
pub mod dumps;
pub mod preempt;
pub use pool::*;
pub use report::*;
