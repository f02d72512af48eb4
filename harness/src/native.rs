//! Native implementation of the environment: forwards to callbacks set by the
//! replay driver (python ctypes).  Only built with the `native` feature.
use std::os::raw::c_void;
static mut CB: [*const c_void; 32] = [core::ptr::null(); 32];
#[no_mangle] pub unsafe extern "C" fn zh_set_cb(i: u32, p: *const c_void) { CB[i as usize] = p }
#[no_mangle] pub unsafe extern "C" fn e_m1(a0: u16) -> u32 { let f: extern "C" fn(u16) -> u32 = core::mem::transmute(CB[0]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_mreq(a0: u16) -> u32 { let f: extern "C" fn(u16) -> u32 = core::mem::transmute(CB[1]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_io(a0: u16) -> u32 { let f: extern "C" fn(u16) -> u32 = core::mem::transmute(CB[2]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_irqack(a0: u16) -> u32 { let f: extern "C" fn(u16) -> u32 = core::mem::transmute(CB[3]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_nomreq(a0: u16, a1: u8) { let f: extern "C" fn(u16, u8) = core::mem::transmute(CB[4]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_wait(a0: u16, a1: u16) { let f: extern "C" fn(u16, u16) = core::mem::transmute(CB[5]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_now() -> u32 { let f: extern "C" fn() -> u32 = core::mem::transmute(CB[6]); f() }
#[no_mangle] pub unsafe extern "C" fn e_past(a0: u32) -> bool { let f: extern "C" fn(u32) -> bool = core::mem::transmute(CB[7]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_rdop(a0: u16, a1: u16, a2: u32) -> u8 { let f: extern "C" fn(u16, u16, u32) -> u8 = core::mem::transmute(CB[8]); f(a0, a1, a2) }
#[no_mangle] pub unsafe extern "C" fn e_rd(a0: u16, a1: u32) -> u8 { let f: extern "C" fn(u16, u32) -> u8 = core::mem::transmute(CB[9]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_rd16(a0: u16, a1: u32) -> u16 { let f: extern "C" fn(u16, u32) -> u16 = core::mem::transmute(CB[10]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_peek(a0: u16) -> u8 { let f: extern "C" fn(u16) -> u8 = core::mem::transmute(CB[11]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_wr(a0: u16, a1: u8, a2: u32) { let f: extern "C" fn(u16, u8, u32) = core::mem::transmute(CB[12]); f(a0, a1, a2) }
#[no_mangle] pub unsafe extern "C" fn e_in(a0: u16, a1: u32) -> u32 { let f: extern "C" fn(u16, u32) -> u32 = core::mem::transmute(CB[13]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_out(a0: u16, a1: u8, a2: u32) -> u32 { let f: extern "C" fn(u16, u8, u32) -> u32 = core::mem::transmute(CB[14]); f(a0, a1, a2) }
#[no_mangle] pub unsafe extern "C" fn e_isirq(a0: u32) -> bool { let f: extern "C" fn(u32) -> bool = core::mem::transmute(CB[15]); f(a0) }
#[no_mangle] pub unsafe extern "C" fn e_irqdata(a0: u16, a1: u32) -> u32 { let f: extern "C" fn(u16, u32) -> u32 = core::mem::transmute(CB[16]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_reti(a0: u16, a1: u32) -> u16 { let f: extern "C" fn(u16, u32) -> u16 = core::mem::transmute(CB[17]); f(a0, a1) }
#[no_mangle] pub unsafe extern "C" fn e_dbg(a0: u16, a1: u32, a2: u32, a3: u8, a4: *const u8, a5: u32) { let f: extern "C" fn(u16, u32, u32, u8, *const u8, u32) = core::mem::transmute(CB[18]); f(a0, a1, a2, a3, a4, a5) }
#[no_mangle] pub unsafe extern "C" fn e_dbgarg(a0: u8, a1: u8, a2: u8, a3: u32, a4: u32) { let f: extern "C" fn(u8, u8, u8, u32, u32) = core::mem::transmute(CB[19]); f(a0, a1, a2, a3, a4) }
