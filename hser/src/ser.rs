use super::*;
use crate::fmt::*;
use z80emu::z80::any::Z80Any;
use core::num::Wrapping;
use core::result::Result;
use serde::{Deserialize, Serialize};

/// length written, or 0x8000_0000 | error
unsafe fn ser<T: Serialize>(x: &T, p: *mut u8, flags: u32) -> u32 {
    let mut w = W { p, n: 0, flags };
    match x.serialize(&mut w) { Ok(()) => w.n as u32, Err(e) => 0x8000_0000 | e.0 as u32 }
}
/// 0 and a value, 0x100 if there is unread input, or the error
unsafe fn de<'de, T: Deserialize<'de>>(p: *const u8, n: usize, flags: u32) -> Result<T, u32> {
    let mut r = Rd { p, n, at: 0, flags };
    match T::deserialize(&mut r) {
        Ok(x) => if r.at == n { Ok(x) } else { Err(0x100) },
        Err(e) => Err(e.0 as u32),
    }
}
macro_rules! d {
    ($t:ty, $ser:ident, $de:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $ser(c: *const $t, p: *mut u8, flags: u32) -> u32 { ser(&*c, p, flags) }
        #[no_mangle] pub unsafe extern "C" fn $de(c: *mut $t, p: *const u8, n: usize, flags: u32) -> u32 {
            match de::<$t>(p, n, flags) { Ok(x) => { c.write(x); 0 } Err(e) => e }
        }
    };
}
d!(Z80NMOS, nmos_ser, nmos_de);
d!(Z80CMOS, cmos_ser, cmos_de);
d!(Z80BM1, bm1_ser, bm1_de);
d!(Z80Any, any_ser, any_de);
macro_rules! v {
    ($ser:ident, $de:ident, $t:ty, |$x:ident| $to:expr, |$y:ident| $from:expr) => {
        #[no_mangle] pub unsafe extern "C" fn $ser($y: u64, p: *mut u8, flags: u32) -> u32 { let x: $t = $from; ser(&x, p, flags) }
        /// the value, or 1<<63 | error
        #[no_mangle] pub unsafe extern "C" fn $de(o: *mut u64, p: *const u8, n: usize, flags: u32) -> u32 {
            match de::<$t>(p, n, flags) { Ok($x) => { o.write($to); 0 } Err(e) => e }
        }
    };
}
v!(rp_ser, rp_de, RegisterPair, |x| x.get16() as u64, |y| RegisterPair::from(y as u16));
v!(im_ser, im_de, InterruptMode, |x| x as u64, |y| [InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2][y as usize]);
v!(pfx_ser, pfx_de, Prefix, |x| x as u64, |y| if y == 0xDD { Prefix::Xdd } else { Prefix::Yfd });
v!(ts16_ser, ts16_de, TsCounter<u16>, |x| (x.0).0 as u64, |y| TsCounter(Wrapping(y as u16)));
v!(ts32_ser, ts32_de, TsCounter<i32>, |x| (x.0).0 as u32 as u64, |y| TsCounter(Wrapping(y as i32)));
v!(ts64_ser, ts64_de, TsCounter<u64>, |x| (x.0).0 as u64, |y| TsCounter(Wrapping(y)));
