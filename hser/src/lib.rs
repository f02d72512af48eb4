//! Serialization: z80emu's own Serialize / Deserialize implementations run
//! against a data format that is nothing but a byte buffer of tokens.
#![allow(clippy::all)]
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::host::*;
use z80emu::z80::*;
use z80emu::*;

#[path = "../../harness/src/cpuh.rs"]
pub mod cpuh;
#[path = "../../hapi/src/api.rs"]
pub mod api;
pub mod fmt;
pub mod ser;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
