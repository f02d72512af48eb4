//! The disassembler.
use super::*;
use crate::cpuh::dbg;
use z80emu::z80::any::Z80Any;

fn run<C: Cpu>(pc: u16, mem: &[u8], stop: u32) -> u32 {
    let mut n = 0u32;
    let r = disasm::disasm_memory::<C, _, u32>(pc, mem, |d| {
        dbg(d);
        n += 1;
        if n == stop { Err(7) } else { Ok(()) }
    });
    n | match r { Ok(()) => 0, Err(e) => e << 16 }
}
fn once<C: Cpu>(pc: u16, mem: &[u8]) -> u32 {
    match disasm::disasm_memory_once::<C>(pc, mem) {
        None => 0,
        Some(d) => { dbg(d); 1 }
    }
}
macro_rules! d {
    ($t:ty, $run:ident, $once:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $run(pc: u16, m: *const u8, n: usize, stop: u32) -> u32 {
            run::<$t>(pc, core::slice::from_raw_parts(m, n), stop)
        }
        #[no_mangle] pub unsafe extern "C" fn $once(pc: u16, m: *const u8, n: usize) -> u32 {
            once::<$t>(pc, core::slice::from_raw_parts(m, n))
        }
    };
}
d!(Z80NMOS, nmos_dis, nmos_dis1);
d!(Z80CMOS, cmos_dis, cmos_dis1);
d!(Z80BM1, bm1_dis, bm1_dis1);
d!(Z80Any, any_dis, any_dis1);
