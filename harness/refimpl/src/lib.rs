pub mod rx;
pub mod scan;
pub mod grammar;
pub mod lalr;
pub mod spec;
pub mod gen;
pub mod pat;
pub mod gramgen;
