//! Property-based verification harness for aseprite-loader.

pub mod alloc;
pub mod blend;
pub mod checks;
pub mod decode;
pub mod encode;
pub mod gen;
pub mod model;
pub mod mutate;
pub mod render;
pub mod runner;
pub mod src;
pub mod view;
