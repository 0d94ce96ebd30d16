//! Shared parts of the property checks: engine, generators and reference interpreters.
pub mod colors;
pub mod confgen;
pub mod docgen;
pub mod dom;
pub mod engine;
pub mod gens;
pub mod jobs;
pub mod geom;
pub mod odd;
pub mod stylegen;
pub mod render;
pub mod svgpath;
pub mod xml;
pub mod lintgen;
pub mod cli;
pub mod actgen;
