use super::*;

extern "C" {
    fn e_m1(addr: u16) -> u32;
    fn e_mreq(addr: u16) -> u32;
    fn e_io(addr: u16) -> u32;
    fn e_irqack(addr: u16) -> u32;
    fn e_nomreq(addr: u16, n: u8);
    fn e_wait(addr: u16, n: u16);
    fn e_now() -> u32;
    fn e_past(limit: u32) -> bool;
    fn e_rdop(pc: u16, ir: u16, ts: u32) -> u8;
    fn e_rd(addr: u16, ts: u32) -> u8;
    fn e_rd16(addr: u16, ts: u32) -> u16;
    fn e_peek(addr: u16) -> u8;
    fn e_wr(addr: u16, v: u8, ts: u32);
    fn e_in(port: u16, ts: u32) -> u32; // data | wait<<16
    fn e_out(port: u16, v: u8, ts: u32) -> u32; // brk flag bit0 | brk value 8..16 | wait<<16
    fn e_isirq(ts: u32) -> bool;
    fn e_irqdata(pc: u16, ts: u32) -> u32; // data | wait<<16
    fn e_reti(addr: u16, ts: u32) -> u16; // brk flag bit0 | brk value 8..16
    fn e_dbg(pc: u16, len: u32, code: u32, prefix: u8, mnem: *const u8, mlen: u32);
    fn e_dbgarg(kind: u8, n: u8, tag: u8, a: u32, b: u32);
}

#[derive(Clone, Copy)]
pub struct Clk;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ts(u32);
impl Ts {
    pub fn raw(self) -> u64 { self.0 as u64 }
    pub fn of(x: u64) -> Ts { Ts(x as u32) }
}

impl Clock for Clk {
    type Limit = u32;
    type Timestamp = Ts;
    #[inline(always)]
    fn is_past_limit(&self, limit: u32) -> bool { unsafe { e_past(limit) } }
    #[inline(always)]
    fn add_irq(&mut self, pc: u16) -> Ts { unsafe { Ts(e_irqack(pc)) } }
    #[inline(always)]
    fn add_no_mreq(&mut self, address: u16, add_ts: NonZeroU8) { unsafe { e_nomreq(address, add_ts.get()) } }
    #[inline(always)]
    fn add_m1(&mut self, address: u16) -> Ts { unsafe { Ts(e_m1(address)) } }
    #[inline(always)]
    fn add_mreq(&mut self, address: u16) -> Ts { unsafe { Ts(e_mreq(address)) } }
    #[inline(always)]
    fn add_io(&mut self, port: u16) -> Ts { unsafe { Ts(e_io(port)) } }
    #[inline(always)]
    fn add_wait_states(&mut self, bus: u16, wait_states: NonZeroU16) { unsafe { e_wait(bus, wait_states.get()) } }
    #[inline(always)]
    fn as_timestamp(&self) -> Ts { unsafe { Ts(e_now()) } }
}

#[derive(Clone, Copy)]
pub struct Bus;

impl Io for Bus {
    type Timestamp = Ts;
    type WrIoBreak = u8;
    type RetiBreak = u8;
    #[inline(always)]
    fn read_io(&mut self, port: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let r = unsafe { e_in(port, ts.0) };
        (r as u8, NonZeroU16::new((r >> 16) as u16))
    }
    #[inline(always)]
    fn write_io(&mut self, port: u16, data: u8, ts: Ts) -> (Option<u8>, Option<NonZeroU16>) {
        let r = unsafe { e_out(port, data, ts.0) };
        (if r & 1 != 0 { Some((r >> 8) as u8) } else { None }, NonZeroU16::new((r >> 16) as u16))
    }
    #[inline(always)]
    fn is_irq(&mut self, ts: Ts) -> bool { unsafe { e_isirq(ts.0) } }
    #[inline(always)]
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let r = unsafe { e_irqdata(pc, ts.0) };
        (r as u8, NonZeroU16::new((r >> 16) as u16))
    }
    #[inline(always)]
    fn reti(&mut self, address: u16, ts: Ts) -> Option<u8> {
        let r = unsafe { e_reti(address, ts.0) };
        if r & 1 != 0 { Some((r >> 8) as u8) } else { None }
    }
}

impl Memory for Bus {
    type Timestamp = Ts;
    #[inline(always)]
    fn read_mem(&self, address: u16, ts: Ts) -> u8 { unsafe { e_rd(address, ts.0) } }
    #[inline(always)]
    fn read_mem16(&self, address: u16, ts: Ts) -> u16 { unsafe { e_rd16(address, ts.0) } }
    #[inline(always)]
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 { unsafe { e_rdop(pc, ir, ts.0) } }
    #[inline(always)]
    fn write_mem(&mut self, address: u16, value: u8, ts: Ts) { unsafe { e_wr(address, value, ts.0) } }
    #[inline(always)]
    fn read_debug(&self, address: u16) -> u8 { unsafe { e_peek(address) } }
}

/// The complete observable CPU state, as plain data.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct P {
    pub af: u16, pub bc: u16, pub de: u16, pub hl: u16,
    pub af2: u16, pub bc2: u16, pub de2: u16, pub hl2: u16,
    pub ix: u16, pub iy: u16, pub pc: u16, pub sp: u16,
    pub memptr: u16,
    pub ir: u16,       // out: get_ir()
    pub i: u8,
    pub r7: u8,        // in: value given to set_r; out: get_r()
    pub rd: u8,        // in: delta given to add_r
    pub im: u8,
    pub iff1: u8, pub iff2: u8,
    pub halt: u8, pub ei: u8,
    pub prefix: u8,    // 0, 0xDD, 0xFD
    pub fm: u8,        // flavour: flags modified by the last instruction
    pub lfm: u8,       // flavour: flags modified by the one before it
    pub irq_ok: u8, pub nmi_ok: u8, pub after_pfx: u8,
}

#[inline(always)]
pub fn build<Q: Flavour>(p: &P) -> Z80<Q> {
    let mut c = Z80::<Q>::new();
    c.set_acc((p.af2 >> 8) as u8);
    c.set_flags(CpuFlags::from_bits_retain(p.af2 as u8));
    c.set_reg16(StkReg16::BC, p.bc2);
    c.set_reg16(StkReg16::DE, p.de2);
    c.set_reg16(StkReg16::HL, p.hl2);
    c.ex_af_af();
    c.exx();
    c.set_acc((p.af >> 8) as u8);
    c.set_flags(CpuFlags::from_bits_retain(p.af as u8));
    c.set_reg16(StkReg16::BC, p.bc);
    c.set_reg16(StkReg16::DE, p.de);
    c.set_reg16(StkReg16::HL, p.hl);
    c.set_index16(Prefix::Xdd, p.ix);
    c.set_index16(Prefix::Yfd, p.iy);
    // the pending prefix and the EI shadow are set by the instruction that creates them
    if p.prefix != 0 {
        let _ = c.execute_instruction::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None, p.prefix);
    }
    if p.ei != 0 {
        c.enable_interrupts();
    }
    c.set_iffs(p.iff1 != 0, p.iff2 != 0);
    c.set_im([InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2, InterruptMode::Mode0][(p.im & 3) as usize]);
    c.set_pc(p.pc);
    c.set_sp(p.sp);
    c.set_memptr(p.memptr);
    c.set_i(p.i);
    c.set_r(p.r7);
    c.add_r(p.rd as i32);
    if p.halt != 0 {
        c.halt();
    }
    let mut t = [Q::default(); 4];
    t[1].flags_modified();
    t[2].flags_modified();
    t[2].begin_instruction();
    t[3].flags_modified();
    t[3].begin_instruction();
    t[3].flags_modified();
    c.flavour = t[((p.fm & 1) | (p.lfm & 1) << 1) as usize];
    c
}

#[inline(always)]
pub fn observe<Q: Flavour>(c: &Z80<Q>, p: &mut P) {
    p.af = c.get_reg16(StkReg16::AF);
    p.bc = c.get_reg16(StkReg16::BC);
    p.de = c.get_reg16(StkReg16::DE);
    p.hl = c.get_reg16(StkReg16::HL);
    p.af2 = c.get_alt_reg16(StkReg16::AF);
    p.bc2 = c.get_alt_reg16(StkReg16::BC);
    p.de2 = c.get_alt_reg16(StkReg16::DE);
    p.hl2 = c.get_alt_reg16(StkReg16::HL);
    p.ix = c.get_index16(Prefix::Xdd);
    p.iy = c.get_index16(Prefix::Yfd);
    p.pc = c.get_pc();
    p.sp = c.get_sp();
    p.memptr = c.get_memptr();
    p.ir = c.get_ir();
    p.i = c.get_i();
    p.r7 = c.get_r();
    p.rd = 0;
    p.im = c.get_im() as u8;
    let (i1, i2) = c.get_iffs();
    p.iff1 = i1 as u8;
    p.iff2 = i2 as u8;
    p.halt = c.is_halt() as u8;
    p.ei = c.is_after_ei() as u8;
    p.prefix = match c.get_prefix() { None => 0, Some(x) => x.to_code() };
    p.lfm = !c.flavour.get_q(0, CpuFlags::from_bits_retain(0xFF)) & 1;
    let mut f = c.flavour;
    f.begin_instruction();
    p.fm = !f.get_q(0, CpuFlags::from_bits_retain(0xFF)) & 1;
    p.irq_ok = c.is_irq_allowed() as u8;
    p.nmi_ok = c.is_nmi_allowed() as u8;
    p.after_pfx = c.is_after_prefix() as u8;
}

/// 0 = Ok, 1 = Halt, 2 = WriteIo, 3 = Reti (break value in bits 8..16)
#[inline(always)]
pub fn code(r: Result<u8, u8>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(BreakCause::Halt) => 1,
        Err(BreakCause::WriteIo(v)) => 2 | (v as u32) << 8,
        Err(BreakCause::Reti(v)) => 3 | (v as u32) << 8,
    }
}

fn dbg_arg(kind: u8, n: u8, a: CpuDebugArg) {
    fn px(p: Option<Prefix>) -> u32 { match p { None => 0, Some(p) => p.to_code() as u32 } }
    let (tag, x, y) = match a {
        CpuDebugArg::Imm8(v) => (1, v as u32, 0),
        CpuDebugArg::Bit(v) => (2, v, 0),
        CpuDebugArg::IntMode(m) => (3, m as u8 as u32, 0),
        CpuDebugArg::Reg8(p, r) => (4, r.to_code() as u32, px(p)),
        CpuDebugArg::Imm16(v) => (5, v as u32, 0),
        CpuDebugArg::Reg16(p, r) => (6, r.to_code() as u32, px(p)),
        CpuDebugArg::Stk16(r) => (7, r.to_code() as u32, 0),
        CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(v)) => (8, v as u32, 0),
        CpuDebugArg::Addr(CpuDebugAddr::RegAddr(r)) => (9, r.to_code() as u32, 0),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, None)) => (10, 0, px(Some(p))),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, Some(d))) => (11, d as u8 as u32, px(Some(p))),
        CpuDebugArg::Port(CpuDebugPort::ImmPort(v)) => (12, v as u32, 0),
        CpuDebugArg::Port(CpuDebugPort::RegPort) => (13, 0, 0),
        CpuDebugArg::Cond(c) => (14, c.to_code() as u32, 0),
        CpuDebugArg::I => (15, 0, 0),
        CpuDebugArg::R => (16, 0, 0),
    };
    unsafe { e_dbgarg(kind, n, tag, x, y) }
}

pub fn dbg(d: CpuDebug) {
    let mut b = 0u32;
    let s = d.code.as_slice();
    if s.len() > 0 { b |= s[0] as u32; }
    if s.len() > 1 { b |= (s[1] as u32) << 8; }
    if s.len() > 2 { b |= (s[2] as u32) << 16; }
    if s.len() > 3 { b |= (s[3] as u32) << 24; }
    unsafe {
        e_dbg(d.pc, s.len() as u32, b, match d.prefix { None => 0, Some(p) => p.to_code() },
              d.mnemonic.as_ptr(), d.mnemonic.len() as u32)
    }
    match d.args {
        CpuDebugArgs::None => unsafe { e_dbgarg(0, 0, 0, 0, 0) },
        CpuDebugArgs::Single(a) => dbg_arg(1, 0, a),
        CpuDebugArgs::Double(a, b) => { dbg_arg(2, 0, a); dbg_arg(2, 1, b) }
        CpuDebugArgs::BitOpExt(n, a, r) => {
            dbg_arg(3, 0, CpuDebugArg::Bit(n));
            dbg_arg(3, 1, a);
            dbg_arg(3, 2, CpuDebugArg::Reg8(None, r));
        }
    }
}

macro_rules! entry {
    ($q:ty, $size:ident, $new:ident, $obs:ident, $next:ident, $nextd:ident, $instr:ident, $instrd:ident, $limit:ident, $irq:ident, $irqd:ident, $nmi:ident, $same:ident) => {
        #[no_mangle] pub extern "C" fn $size() -> usize { core::mem::size_of::<Z80<$q>>() }
        #[no_mangle] pub unsafe extern "C" fn $new(c: *mut Z80<$q>, p: *const P) { c.write(build::<$q>(&*p)) }
        #[no_mangle] pub unsafe extern "C" fn $obs(c: *const Z80<$q>, p: *mut P) { observe(&*c, &mut *p) }
        #[no_mangle] pub unsafe extern "C" fn $next(c: *mut Z80<$q>) -> u32 {
            code((*c).execute_next::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None))
        }
        #[no_mangle] pub unsafe extern "C" fn $nextd(c: *mut Z80<$q>) -> u32 {
            code((*c).execute_next(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d))))
        }
        #[no_mangle] pub unsafe extern "C" fn $instr(c: *mut Z80<$q>, op: u8) -> u32 {
            code((*c).execute_instruction::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None, op))
        }
        #[no_mangle] pub unsafe extern "C" fn $instrd(c: *mut Z80<$q>, op: u8) -> u32 {
            code((*c).execute_instruction(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d)), op))
        }
        #[no_mangle] pub unsafe extern "C" fn $limit(c: *mut Z80<$q>, limit: u32) -> u32 {
            code((*c).execute_with_limit(&mut Bus, &mut Clk, limit))
        }
        #[no_mangle] pub unsafe extern "C" fn $irq(c: *mut Z80<$q>) -> u32 {
            match (*c).irq::<_, _, CpuDebugFn>(&mut Bus, &mut Clk, None) { None => 0x80, Some(r) => code(r) }
        }
        #[no_mangle] pub unsafe extern "C" fn $irqd(c: *mut Z80<$q>) -> u32 {
            match (*c).irq(&mut Bus, &mut Clk, Some(|d: CpuDebug| dbg(d))) { None => 0x80, Some(r) => code(r) }
        }
        #[no_mangle] pub unsafe extern "C" fn $nmi(c: *mut Z80<$q>) -> u32 {
            (*c).nmi(&mut Bus, &mut Clk) as u32
        }
        #[no_mangle] pub unsafe extern "C" fn $same(c: *mut Z80<$q>, d: *mut Z80<$q>) -> u32 {
            (*c).normalize_r();
            (*d).normalize_r();
            (*c == *d) as u32
        }
    };
}
entry!(NMOS, nmos_size, nmos_new, nmos_obs, nmos_next, nmos_nextd, nmos_instr, nmos_instrd, nmos_limit, nmos_irq, nmos_irqd, nmos_nmi, nmos_same);
entry!(CMOS, cmos_size, cmos_new, cmos_obs, cmos_next, cmos_nextd, cmos_instr, cmos_instrd, cmos_limit, cmos_irq, cmos_irqd, cmos_nmi, cmos_same);
entry!(BM1, bm1_size, bm1_new, bm1_obs, bm1_next, bm1_nextd, bm1_instr, bm1_instrd, bm1_limit, bm1_irq, bm1_irqd, bm1_nmi, bm1_same);
