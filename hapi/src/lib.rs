//! Entry points for everything around the CPU core: accessors, Z80Any, value
//! types, host defaults, the disassembler.  Shares the bus with ../harness.
#![allow(clippy::all)]
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::host::*;
use z80emu::z80::*;
use z80emu::*;

#[path = "../../harness/src/cpuh.rs"]
pub mod cpuh;
pub mod api;
pub mod vals;
pub mod dis;
pub mod text;
#[cfg(feature = "native")]
#[path = "../../harness/src/native.rs"]
pub mod native;
