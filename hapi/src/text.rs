//! The text of debugged and disassembled instructions.
use super::*;
use core::fmt::Write;

struct Buf { p: *mut u8, n: usize, cap: usize }
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n == self.cap { return Err(core::fmt::Error) }
            unsafe { *self.p.add(self.n) = b; }
            self.n += 1;
        }
        Ok(())
    }
}
fn end(b: Buf, r: core::fmt::Result) -> u32 {
    b.n as u32 | match r { Ok(()) => 0, Err(_) => 1 << 16 }
}

/// the listing of a chunk
#[no_mangle] pub unsafe extern "C" fn x_listing(pc: u16, m: *const u8, n: usize, out: *mut u8, cap: usize) -> u32 {
    let mut b = Buf { p: out, n: 0, cap };
    let r = disasm::disasm_memory_write_text::<Z80NMOS, _>(pc, core::slice::from_raw_parts(m, n), &mut b);
    end(b, r)
}

/// the first instruction of a chunk in one of the styles
#[no_mangle] pub unsafe extern "C" fn x_text(style: u32, pc: u16, m: *const u8, n: usize, out: *mut u8, cap: usize) -> u32 {
    let mut b = Buf { p: out, n: 0, cap };
    let d = match disasm::disasm_memory_once::<Z80NMOS>(pc, core::slice::from_raw_parts(m, n)) {
        Some(d) => d,
        None => return 1 << 17
    };
    let r = match style {
        0 => write!(b, "{}", d),
        1 => write!(b, "{:x}", d),
        2 => write!(b, "{:X}", d),
        3 => write!(b, "{:#x}", d),
        4 => write!(b, "{:#X}", d),
        5 => write!(b, "{:04x} : {:6} {:#20x} {:02X?}", d.pc, d.mnemonic, d.args, d.code.as_slice()),
        6 => write!(b, "{}", d.args),
        7 => write!(b, "{:x}", d.args),
        8 => write!(b, "{:X}", d.args),
        9 => write!(b, "{:#x}", d.args),
        10 => write!(b, "{:#X}", d.args),
        11 => write!(b, "{:18}|", d.args),
        12 => write!(b, "{:>18X}|", d.args),
        _ => write!(b, "{:#^18X}|", d.args),
    };
    end(b, r)
}
