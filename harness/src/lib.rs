//! Entry points for the symbolic executor (and, linked with `env_native`, for
//! native replay).  Everything goes through the public API of z80emu, so the
//! private layout of the CPU structs is never assumed.
#![allow(clippy::all)]
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::host::*;
use z80emu::z80::*;
use z80emu::*;

pub mod cpuh;
#[cfg(feature = "native")]
pub mod native;
