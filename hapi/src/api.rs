//! The register/accessor API, Z80Any, flavour conversions.
use super::*;
use crate::cpuh::*;
use core::convert::TryFrom;
use z80emu::z80::any::Z80Any;

/// what the flavoured CPU and Z80Any have in common besides `Cpu`
pub trait Cx: Cpu + Clone + PartialEq {
    fn memptr(&self) -> u16;
    fn put_memptr(&mut self, v: u16);
    fn norm(&mut self);
    fn q(&self) -> (u8, u8);
}
fn qbits<Q: Flavour>(f: Q) -> (u8, u8) {
    let l = !f.get_q(0, CpuFlags::from_bits_retain(0xFF)) & 1;
    let mut f = f;
    f.begin_instruction();
    (!f.get_q(0, CpuFlags::from_bits_retain(0xFF)) & 1, l)
}
impl<Q: Flavour> Cx for Z80<Q> {
    fn memptr(&self) -> u16 { self.get_memptr() }
    fn put_memptr(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
    fn q(&self) -> (u8, u8) { qbits(self.flavour) }
}
impl Cx for Z80Any {
    fn memptr(&self) -> u16 { self.get_memptr() }
    fn put_memptr(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
    fn q(&self) -> (u8, u8) {
        match self { Z80Any::NMOS(c) => qbits(c.flavour), Z80Any::CMOS(c) => qbits(c.flavour), Z80Any::BM1(c) => qbits(c.flavour) }
    }
}

pub fn obs<C: Cx>(c: &C, p: &mut P) {
    p.af = c.get_reg16(StkReg16::AF);
    p.bc = c.get_reg16(StkReg16::BC);
    p.de = c.get_reg16(StkReg16::DE);
    p.hl = c.get_reg16(StkReg16::HL);
    p.af2 = c.get_alt_reg16(StkReg16::AF);
    p.bc2 = c.get_alt_reg16(StkReg16::BC);
    p.de2 = c.get_alt_reg16(StkReg16::DE);
    p.hl2 = c.get_alt_reg16(StkReg16::HL);
    p.ix = c.get_index16(Prefix::Xdd);
    p.iy = c.get_index16(Prefix::Yfd);
    p.pc = c.get_pc();
    p.sp = c.get_sp();
    p.memptr = c.memptr();
    p.ir = c.get_ir();
    p.i = c.get_i();
    p.r7 = c.get_r();
    p.rd = 0;
    p.im = c.get_im() as u8;
    let (i1, i2) = c.get_iffs();
    p.iff1 = i1 as u8;
    p.iff2 = i2 as u8;
    p.halt = c.is_halt() as u8;
    p.ei = c.is_after_ei() as u8;
    p.prefix = match c.get_prefix() { None => 0, Some(x) => x.to_code() };
    let (fm, lfm) = c.q();
    p.fm = fm;
    p.lfm = lfm;
    p.irq_ok = c.is_irq_allowed() as u8;
    p.nmi_ok = c.is_nmi_allowed() as u8;
    p.after_pfx = c.is_after_prefix() as u8;
}

fn r8(x: u64) -> Reg8 { Reg8::try_from(x as u8).unwrap() }
fn stk(x: u64) -> StkReg16 { [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF][(x & 3) as usize] }
fn px(x: u64) -> Option<Prefix> { [None, Some(Prefix::Xdd), Some(Prefix::Yfd)][x as usize] }
fn two(x: (u8, u8)) -> u64 { (x.0 as u64) << 8 | x.1 as u64 }

fn get<C: Cx>(c: &C, op: u32, s: u64, p: u64) -> u64 {
    match op {
        0 => c.get_pc() as u64,
        1 => c.get_sp() as u64,
        2 => c.get_acc() as u64,
        3 => c.get_flags().bits() as u64,
        4 => c.get_r() as u64,
        5 => c.get_i() as u64,
        6 => c.get_ir() as u64,
        7 => { let (a, b) = c.get_iffs(); a as u64 | (b as u64) << 1 }
        8 => c.is_halt() as u64,
        9 => c.get_im() as u64,
        10 => c.get_reg(r8(s), px(p)) as u64,
        11 => two(c.get_reg2(stk(s))),
        12 => two(c.get_alt_reg2(stk(s))),
        13 => c.get_reg16(stk(s)) as u64,
        14 => c.get_alt_reg16(stk(s)) as u64,
        15 => two(c.get_index2(px(p).unwrap())),
        16 => c.get_index16(px(p).unwrap()) as u64,
        17 => c.is_irq_allowed() as u64,
        18 => c.is_nmi_allowed() as u64,
        19 => c.is_after_ei() as u64,
        20 => c.is_after_prefix() as u64,
        21 => match c.get_prefix() { None => 0, Some(x) => x as u64 },
        22 => c.memptr() as u64,
        _ => unreachable!(),
    }
}

fn set<C: Cx>(c: &mut C, op: u32, s: u64, p: u64, v: u64) {
    match op {
        0 => c.set_pc(v as u16),
        1 => c.set_sp(v as u16),
        2 => c.set_acc(v as u8),
        3 => c.set_flags(CpuFlags::from_bits_retain(v as u8)),
        4 => c.set_r(v as u8),
        5 => c.set_i(v as u8),
        6 => c.inc_r(),
        7 => c.set_iffs(v & 1 != 0, v & 2 != 0),
        8 => c.halt(),
        9 => c.set_im([InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2][s as usize]),
        10 => c.set_reg(r8(s), px(p), v as u8),
        11 => c.set_reg2(stk(s), (v >> 8) as u8, v as u8),
        12 => c.add_r(v as i32),
        13 => c.set_reg16(stk(s), v as u16),
        14 => c.ex_af_af(),
        15 => c.set_index2(px(p).unwrap(), (v >> 8) as u8, v as u8),
        16 => c.set_index16(px(p).unwrap(), v as u16),
        17 => c.exx(),
        18 => c.restore_iff1(),
        19 => c.disable_interrupts(),
        20 => c.enable_interrupts(),
        21 => c.norm(),
        22 => c.put_memptr(v as u16),
        23 => c.reset(),
        24 => {}
        _ => unreachable!(),
    }
}

macro_rules! api {
    ($t:ty, $get:ident, $set:ident, $fresh:ident, $clone:ident, $eq:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $get(c: *const $t, op: u32, s: u64, p: u64) -> u64 { get(&*c, op, s, p) }
        #[no_mangle] pub unsafe extern "C" fn $set(c: *mut $t, op: u32, s: u64, p: u64, v: u64) { set(&mut *c, op, s, p, v) }
        /// 0: default()+reset, 1: clone of a CPU
        #[no_mangle] pub unsafe extern "C" fn $fresh(c: *mut $t) { let mut x = <$t>::default(); x.reset(); c.write(x) }
        #[no_mangle] pub unsafe extern "C" fn $clone(c: *mut $t, d: *const $t) { c.write((*d).clone()) }
        #[no_mangle] pub unsafe extern "C" fn $eq(c: *const $t, d: *const $t) -> u32 { (*c == *d) as u32 }
    };
}
api!(Z80<NMOS>, nmos_get, nmos_set, nmos_fresh, nmos_clone, nmos_eq);
api!(Z80<CMOS>, cmos_get, cmos_set, cmos_fresh, cmos_clone, cmos_eq);
api!(Z80<BM1>, bm1_get, bm1_set, bm1_fresh, bm1_clone, bm1_eq);
api!(Z80Any, any_get, any_set, any_fresh, any_clone, any_eq);

macro_rules! init {
    ($q:ty, $name:ident) => { #[no_mangle] pub unsafe extern "C" fn $name(c: *mut Z80<$q>) { c.write(Z80::<$q>::new()) } };
}
init!(NMOS, nmos_init);
init!(CMOS, cmos_init);
init!(BM1, bm1_init);

#[no_mangle] pub extern "C" fn any_size() -> usize { core::mem::size_of::<Z80Any>() }
#[no_mangle] pub unsafe extern "C" fn any_obs(c: *const Z80Any, p: *mut P) { obs(&*c, &mut *p) }
#[no_mangle] pub unsafe extern "C" fn any_next(c: *mut Z80Any) -> u32 { code((*c).execute_next::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None)) }
#[no_mangle] pub unsafe extern "C" fn any_nextd(c: *mut Z80Any) -> u32 { code((*c).execute_next(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d)))) }
#[no_mangle] pub unsafe extern "C" fn any_instr(c: *mut Z80Any, op: u8) -> u32 { code((*c).execute_instruction::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None, op)) }
#[no_mangle] pub unsafe extern "C" fn any_instrd(c: *mut Z80Any, op: u8) -> u32 { code((*c).execute_instruction(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d)), op)) }
#[no_mangle] pub unsafe extern "C" fn any_limit(c: *mut Z80Any, limit: u32) -> u32 { code((*c).execute_with_limit(&mut Bus, &mut Clk, limit)) }
#[no_mangle] pub unsafe extern "C" fn any_irq(c: *mut Z80Any) -> u32 {
    match (*c).irq::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None) { None => 0x80, Some(r) => code(r) }
}
#[no_mangle] pub unsafe extern "C" fn any_irqd(c: *mut Z80Any) -> u32 {
    match (*c).irq(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d))) { None => 0x80, Some(r) => code(r) }
}
#[no_mangle] pub unsafe extern "C" fn any_nmi(c: *mut Z80Any) -> u32 { (*c).nmi(&mut Bus, &mut Clk) as u32 }
/// 0 NMOS, 1 CMOS, 2 BM1 by the predicates (bits), the tag string and the variant
#[no_mangle] pub unsafe extern "C" fn any_kind(c: *const Z80Any, out: *mut u8) -> u32 {
    let c = &*c;
    let t = c.tag().as_bytes();
    let mut i = 0;
    while i < t.len() && i < 8 { *out.add(i) = t[i]; i += 1; }
    let v = match c { Z80Any::NMOS(..) => 0, Z80Any::CMOS(..) => 1, Z80Any::BM1(..) => 2 };
    v | (c.is_nmos() as u32) << 8 | (c.is_cmos() as u32) << 9 | (c.is_bm1() as u32) << 10 | (t.len() as u32) << 16
}
/// the constructors of Z80Any: 0..2 new_*, 3 default
#[no_mangle] pub unsafe extern "C" fn any_ctor(c: *mut Z80Any, k: u32) {
    c.write(match k { 0 => Z80Any::new_nmos(), 1 => Z80Any::new_cmos(), 2 => Z80Any::new_bm1(), _ => Z80Any::default() })
}
/// with_tag on arbitrary bytes (ASCII): 1 if there is such a CPU
#[no_mangle] pub unsafe extern "C" fn any_with_tag(c: *mut Z80Any, s: *const u8, n: usize) -> u32 {
    match Z80Any::with_tag(core::str::from_utf8_unchecked(core::slice::from_raw_parts(s, n))) { Some(x) => { c.write(x); 1 } None => 0 }
}
/// wrapped CPU -> into_x() ; k = 0 NMOS, 1 CMOS, 2 BM1
#[no_mangle] pub unsafe extern "C" fn any_into(c: *mut Z80Any, k: u32) {
    let x = c.read();
    c.write(match k { 0 => x.into_nmos(), 1 => x.into_cmos(), _ => x.into_bm1() })
}

macro_rules! wrap {
    ($q:ty, $wrap:ident, $unwrap:ident, $un:ident, $from:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $wrap(a: *mut Z80Any, c: *const Z80<$q>, how: u32) {
            a.write(if how == 0 { Z80Any::from((*c).clone()) } else { <$q>::cpu_into_any((*c).clone()) })
        }
        /// takes the matching variant out of Z80Any
        #[no_mangle] pub unsafe extern "C" fn $unwrap(c: *mut Z80<$q>, a: *const Z80Any, how: u32) {
            c.write(if how == 0 { (*a).clone().$un() } else { <$q>::unwrap_cpu_any((*a).clone()) })
        }
        /// converts any variant
        #[no_mangle] pub unsafe extern "C" fn $from(c: *mut Z80<$q>, a: *const Z80Any) { c.write(Z80::<$q>::from((*a).clone())) }
    };
}
wrap!(NMOS, wrap_nmos, unwrap_nmos, unwrap_nmos, from_any_nmos);
wrap!(CMOS, wrap_cmos, unwrap_cmos, unwrap_cmos, from_any_cmos);
wrap!(BM1, wrap_bm1, unwrap_bm1, unwrap_bm1, from_any_bm1);

macro_rules! conv {
    ($a:ty, $b:ty, $name:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $name(d: *mut Z80<$b>, c: *const Z80<$a>, how: u32) {
            d.write(if how == 0 { (*c).clone().into_flavour::<$b>() } else { Z80::<$b>::from_flavour((*c).clone()) })
        }
    };
}
conv!(NMOS, NMOS, conv_nmos_nmos); conv!(NMOS, CMOS, conv_nmos_cmos); conv!(NMOS, BM1, conv_nmos_bm1);
conv!(CMOS, NMOS, conv_cmos_nmos); conv!(CMOS, CMOS, conv_cmos_cmos); conv!(CMOS, BM1, conv_cmos_bm1);
conv!(BM1, NMOS, conv_bm1_nmos); conv!(BM1, CMOS, conv_bm1_cmos); conv!(BM1, BM1, conv_bm1_bm1);
