//! Harnesses: each `h_*` function is symbolically executed together with the repository code it reaches.
#![allow(clippy::all)]
pub mod sym;
pub mod gql;
#[cfg(feature = "lang")] pub mod lang;
#[cfg(feature = "fed")] pub mod world;
#[cfg(feature = "fed")] pub mod fed;
#[cfg(feature = "auth")] pub mod auth;
#[cfg(feature = "http")] pub mod http;
#[cfg(feature = "valid")] pub mod valid;
#[cfg(feature = "keys")] pub mod keys;
#[cfg(feature = "stream")] pub mod stream;
