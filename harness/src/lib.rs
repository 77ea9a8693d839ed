//! Shared machinery: choice source and shrinking, reference lexer, reference grammar (sampler and
//! Earley recogniser), layout printer, interface model, runner. Nothing here uses the code under
//! test, so that every oracle is independent of it.
pub mod choice;
pub mod cov;
pub mod dict;
pub mod grammar;
pub mod iface;
pub mod runner;
pub mod spec;
pub mod tok;
