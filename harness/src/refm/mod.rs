//! Reference models, written from the specifications and sharing no code with
//! the library under test.
pub mod h2;
pub mod hpack;
pub mod http1;
pub mod status;
pub mod tables;
pub mod url;
pub mod ws;
