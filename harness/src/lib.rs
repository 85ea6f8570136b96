//! Entry points that the symbolic executor runs, and their independent reference implementations.
//! The same code is compiled natively to replay counterexamples (see ../replay).
#![allow(dead_code, unused_imports)]

pub mod sv;
pub mod watch;
pub mod reference;
pub mod io;
pub mod grammar;

#[cfg(feature = "crypto")]
pub mod crypto;
#[cfg(feature = "field")]
pub mod field;
#[cfg(feature = "point")]
pub mod point;
#[cfg(feature = "ecdhe")]
pub mod ecdhe;
#[cfg(feature = "ct")]
pub mod ct;
#[cfg(feature = "codec")]
pub mod codec;
#[cfg(feature = "record")]
pub mod record;
#[cfg(feature = "hs")]
pub mod hs;
