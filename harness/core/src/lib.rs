pub mod form;
pub mod job;
pub mod gen;
pub mod model;
pub mod render;
pub mod props;
pub mod reqs;
pub mod spec;
pub mod tape;
pub mod types;
pub mod driver;
pub mod prog;
pub mod report;
pub mod item;
pub mod api;
pub mod decl;
pub mod libprog;
