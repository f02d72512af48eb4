//! Value types: enums, flags, register pairs, the clock counter, host defaults
//! and forwarding macros.  Every entry is `fn(in: *const u64, out: *mut u64)`.
use super::*;
use crate::cpuh::{Bus, Clk};
use core::convert::TryFrom;
use core::num::Wrapping;
use z80emu::host::TsCounter;

macro_rules! f {
    ($name:ident($i:ident) => [$($o:expr),*]) => {
        #[no_mangle] pub unsafe extern "C" fn $name(inp: *const u64, out: *mut u64) {
            #[allow(unused_variables)]
            let $i = |k: usize| *inp.add(k);
            let r = [$($o as u64),*];
            let mut n = 0;
            while n < r.len() { *out.add(n) = r[n]; n += 1; }
        }
    };
    ($name:ident($i:ident, $o:ident) $b:block) => {
        #[no_mangle] pub unsafe extern "C" fn $name(inp: *const u64, out: *mut u64) {
            #[allow(unused_variables)]
            let $i = |k: usize| *inp.add(k);
            #[allow(unused_variables)]
            let $o = |k: usize, v: u64| *out.add(k) = v;
            $b
        }
    };
}
fn opt<T>(x: core::result::Result<T, ()>, g: impl Fn(T) -> u8) -> u64 { match x { Ok(v) => 0x100 | g(v) as u64, Err(()) => 0 } }
fn sum(s: &str) -> u64 { let mut v = s.len() as u64; for b in s.as_bytes() { v = v << 8 | *b as u64 } v }

f!(v_prefix(i) => [opt(Prefix::try_from(i(0) as u8), |p| p.to_code()), opt(Prefix::try_from(i(0) as u8), |p| u8::from(p))]);
f!(v_im(i) => [opt(InterruptMode::try_from(i(0) as u8), |p| p.to_mode_number()), opt(InterruptMode::try_from(i(0) as u8), |p| u8::from(p)),
               InterruptMode::default() as u8]);
f!(v_reg8(i) => [opt(Reg8::try_from(i(0) as u8), |p| p.to_code()), opt(Reg8::try_from(i(0) as u8), |p| u8::from(p)),
                 match Reg8::try_from(i(0) as u8) { Ok(r) => sum(r.into()), Err(()) => 0 }]);
f!(v_reg16(i) => [Reg16::from_code(i(0) as u8).to_code(), u8::from(Reg16::from(i(0) as u8)), sum(Reg16::from_code(i(0) as u8).into())]);
f!(v_stk16(i) => [StkReg16::from_code(i(0) as u8).to_code(), u8::from(StkReg16::from(i(0) as u8)), sum(StkReg16::from_code(i(0) as u8).into())]);
f!(v_cond(i) => [Condition::from_code(i(0) as u8).to_code(), u8::from(Condition::from(i(0) as u8)), sum(Condition::from_code(i(0) as u8).into()),
                 Condition::from_jr_subset(i(0) as u8).to_code(),
                 Condition::from_code(i(0) as u8).is_satisfied(CpuFlags::from_bits_retain(i(1) as u8)),
                 Condition::from_jr_subset(i(0) as u8).is_satisfied(CpuFlags::from_bits_retain(i(1) as u8))]);
f!(v_condstr(i, o) {
    let n = i(0) as usize;
    let mut b = [0u8; 4];
    let mut k = 0;
    while k < n { b[k] = i(1 + k) as u8; k += 1; }
    let r: core::result::Result<Condition, ()> = core::str::from_utf8_unchecked(&b[..n]).parse();
    o(0, opt(r, |c| c.to_code()))
});
f!(v_opc(i, o) {
    use z80emu::host::cycles::*;
    use z80emu::opconsts::*;
    let b = i(0) as u8;
    let c = Condition::from_code(i(1) as u8);
    let j = Condition::from_jr_subset(i(1) as u8);
    let m = [(b & RET_CC_OPMASK) == RET_CC_OPBASE, (b & CALL_CC_OPMASK) == CALL_CC_OPBASE, (b & JP_CC_OPMASK) == JP_CC_OPBASE,
             (b & JR_CC_OPMASK) == JR_CC_OPBASE, (b & RST_OPMASK) == RST_OPBASE, (b & RETN_OP2_MASK) == RETN_OP2_BASE];
    let v = [RET_CC_OPBASE | c.to_code(), CALL_CC_OPBASE | c.to_code(), JP_CC_OPBASE | c.to_code(), JR_CC_OPBASE | j.to_code(), RST_OPBASE | (i(1) as u8 & 0x38),
             ED_PREFIX, DD_PREFIX, FD_PREFIX, NOP_OPCODE, HALT_OPCODE, DI_OPCODE, EI_OPCODE, RET_OPCODE, RETI_OPCODE_T2.0, RETI_OPCODE_T2.1, RETN_OPCODE_T2.0,
             RETN_OPCODE_T2.1, CALL_OPCODE, JP_OPCODE, JR_OPCODE, RST_00H_OPCODE, RST_08H_OPCODE, RST_10H_OPCODE, RST_18H_OPCODE, RST_20H_OPCODE, RST_28H_OPCODE,
             RST_30H_OPCODE, RST_38H_OPCODE, DJNZ_OPCODE,
             M1_CYCLE_TS, MEMRW_CYCLE_TS, IO_IORQ_LOW_TS, IO_CYCLE_TS, INT_IORQ_LOW_TS, IRQ_ACK_CYCLE_TS];
    let mut k = 0;
    while k < m.len() { o(k, m[k] as u64); k += 1; }
    while k < m.len() + v.len() { o(k, v[k - m.len()] as u64); k += 1; }
});
f!(v_flags(i, o) {
    let f = CpuFlags::from_bits_retain(i(0) as u8);
    o(0, f.sf() as u64); o(1, f.zf() as u64); o(2, f.hf() as u64); o(3, f.pvf() as u64); o(4, f.nf() as u64); o(5, f.cf() as u64);
    let mut g = f;
    g.reset();
    o(6, g.bits() as u64);
});
f!(v_masks(i, o) {
    let r = i(0) as u8;
    let (b0, b1, b2) = (i(1) & 1 != 0, i(1) & 2 != 0, i(1) & 4 != 0);
    let v = [CpuFlags::mask_cvz(b0, b1, b2), CpuFlags::mask_sign(r), CpuFlags::mask_zero(r), CpuFlags::mask_carry(b0), CpuFlags::mask_nf(b0),
             CpuFlags::mask_hf(b0), CpuFlags::mask_hcf(b0), CpuFlags::mask_pvf(b0), CpuFlags::parity(r), CpuFlags::mask_xy(r), CpuFlags::mask_sxy(r),
             CpuFlags::P, CpuFlags::V, CpuFlags::XY, CpuFlags::S, CpuFlags::Z, CpuFlags::Y, CpuFlags::H, CpuFlags::X, CpuFlags::PV, CpuFlags::N, CpuFlags::C,
             CpuFlags::HMASK];
    let mut k = 0;
    while k < v.len() { o(k, v[k].bits() as u64); k += 1; }
});
f!(v_pair(i, o) {
    let v = i(0) as u16;
    let w = i(1) as u16;
    let (h, l) = (i(2) as u8, i(3) as u8);
    let p = RegisterPair::from(v);
    let all = |p: RegisterPair| p.get16() as u64 | (p.get8hi() as u64) << 16 | (p.get8lo() as u64) << 24 | (p.get().0 as u64) << 32 | (p.get().1 as u64) << 40;
    o(0, all(p));
    o(1, all(RegisterPair::from(v as i16)));
    o(2, all(RegisterPair::from([l, h])));
    o(3, all(RegisterPair::from((h, l))));
    let mut q = p; q.set16(w); o(4, all(q));
    let mut q = p; q.set8hi(h); o(5, all(q));
    let mut q = p; q.set8lo(l); o(6, all(q));
    let mut q = p; q.set(h, l); o(7, all(q));
    let mut q = p; q.inc16(); o(8, all(q));
    let mut q = p; q.add16(w); o(9, all(q));
    let mut q = p; q.dec16(); o(10, all(q));
    let mut q = p; let z = q.dec16_is_zero(); o(11, all(q)); o(12, z as u64);
    let mut q = p; q.op16(|x| ((x ^ w) as u8, (x >> 8) as u8)); o(13, all(q));
    let mut q = p; q.op8hi(|x| x.wrapping_add(h)); o(14, all(q));
    let mut q = p; q.op8lo(|x| x.wrapping_add(l)); o(15, all(q));
    let mut q = p; *q.ptr8hi() = h; o(16, all(q));
    let mut q = p; *q.ptr8lo() = l; o(17, all(q));
    o(18, (p == RegisterPair::from(w)) as u64);
    o(19, all(RegisterPair::default()));
});

macro_rules! tsc {
    ($t:ty, $name:ident) => {
        /// 0: start, 1: limit, 2: address, 3: wait / no_mreq count (non-zero)
        #[no_mangle] pub unsafe extern "C" fn $name(inp: *const u64, out: *mut u64) {
            let i = |k: usize| *inp.add(k);
            let o = |k: usize, v: $t| *out.add(k) = v as u64;
            let a = i(2) as u16;
            let mk = || TsCounter::<$t>(Wrapping(i(0) as $t));
            let c = mk();
            *out.add(0) = c.is_past_limit(i(1) as $t) as u64;
            o(1, c.as_timestamp());
            let mut c = mk(); let t = c.add_irq(a); o(2, t); o(3, c.as_timestamp());
            let mut c = mk(); let t = c.add_m1(a); o(4, t); o(5, c.as_timestamp());
            let mut c = mk(); let t = c.add_mreq(a); o(6, t); o(7, c.as_timestamp());
            let mut c = mk(); let t = c.add_io(a); o(8, t); o(9, c.as_timestamp());
            let mut c = mk(); c.add_no_mreq(a, NonZeroU8::new(i(3) as u8 | 1).unwrap()); o(10, c.as_timestamp());
            let mut c = mk(); c.add_wait_states(a, NonZeroU16::new(i(3) as u16 | 1).unwrap()); o(11, c.as_timestamp());
            let c = TsCounter::<$t>::from(i(0) as $t); o(12, c.as_timestamp());
            let c = TsCounter::<$t>::from(Wrapping(i(0) as $t)); o(13, c.as_timestamp());
            let mut c = mk(); *c += Wrapping(i(1) as $t); o(14, c.as_timestamp()); o(15, (*c).0);
            o(16, TsCounter::<$t>::default().as_timestamp());
        }
    };
}
tsc!(u32, v_tsc_u32);
tsc!(i32, v_tsc_i32);
tsc!(u64, v_tsc_u64);
tsc!(i64, v_tsc_i64);
tsc!(u16, v_tsc_u16);

// ------------------------------------------------------------------ forwarding
use cpuh::Ts;
extern "C" { fn e_peek(addr: u16) -> u8; }
pub struct W1<B>(B);
impl<B: Clock> Clock for W1<B> {
    forward_host_clock_types! { @ => B }
    forward_host_clock_methods! { @ => |c| c.0 }
}
impl<B: Io> Io for W1<B> {
    forward_host_io_types! { @ => B }
    forward_host_io_methods! { @ => |b| b.0 }
}
impl<B: Memory> Memory for W1<B> {
    forward_host_memory_types! { @ => B }
    forward_host_memory_methods! { @ => |b| b.0 }
}
pub struct W2<'a, B>(&'a mut B);
impl<B> W2<'_, B> {
    fn r(&self) -> &B { &*self.0 }
    fn m(&mut self) -> &mut B { &mut *self.0 }
}
impl<B: Clock> Clock for W2<'_, B> {
    forward_host_clock_types! { (Limit Timestamp) => B }
    forward_host_clock_methods! { @ref => |c| c.r() }
    forward_host_clock_methods! { @mut => |c| c.m() }
}
impl<B: Io> Io for W2<'_, B> {
    forward_host_io_types! { (Timestamp WrIoBreak RetiBreak) => B }
    forward_host_io_methods! { (write_io read_io is_irq) => |b| b.m() }
    forward_host_io_methods! { irq_data => |b| b.m() }
    forward_host_io_methods! { reti => |b| b.m() }
}
impl<B: Memory> Memory for W2<'_, B> {
    forward_host_memory_types! { Timestamp => B }
    forward_host_memory_methods! { @ref => |b| b.r() }
    forward_host_memory_methods! { @mut => |b| b.m() }
}
pub struct W3<'a, B>(&'a mut B);
impl<B: Clock> Clock for W3<'_, B> {
    forward_host_clock_types! { (Limit, Timestamp) => B }
    forward_host_clock_methods! { (is_past_limit, as_timestamp, add_io) => |c| c.0 }
    forward_host_clock_methods! { (add_irq add_no_mreq add_m1) => |c| c.0 }
    forward_host_clock_methods! { add_mreq => |c| c.0 }
    forward_host_clock_methods! { add_wait_states => |c| c.0 }
}
impl<B: Io> Io for W3<'_, B> {
    forward_host_io_types! { (Timestamp, WrIoBreak, RetiBreak) => B }
    forward_host_io_methods! { (write_io, reti) => |b| b.0 }
    forward_host_io_methods! { read_io => |b| b.0 }
    forward_host_io_methods! { (is_irq irq_data) => |b| b.0 }
}
impl<B: Memory> Memory for W3<'_, B> {
    forward_host_memory_types! { (Timestamp) => B }
    forward_host_memory_methods! { (read_opcode, read_mem) => |b| b.0 }
    forward_host_memory_methods! { (read_mem16 write_mem) => |b| b.0 }
    forward_host_memory_methods! { read_debug => |b| b.0 }
}

fn wait(w: Option<NonZeroU16>) -> u64 { match w { None => 0, Some(n) => n.get() as u64 } }
fn brk(b: Option<u8>) -> u64 { match b { None => 0, Some(n) => 0x100 | n as u64 } }
/// one call of one method; the timestamps are opaque and passed through
fn clk<C: Clock<Limit = u32, Timestamp = Ts>>(c: &mut C, k: u64, a: u16, n: u64) -> u64 {
    match k {
        0 => c.is_past_limit(n as u32) as u64,
        1 => c.add_irq(a).raw(),
        2 => { c.add_no_mreq(a, NonZeroU8::new(n as u8 | 1).unwrap()); 0 }
        3 => c.add_m1(a).raw(),
        4 => c.add_mreq(a).raw(),
        5 => c.add_io(a).raw(),
        6 => { c.add_wait_states(a, NonZeroU16::new(n as u16 | 1).unwrap()); 0 }
        _ => c.as_timestamp().raw(),
    }
}
fn io<C: Io<Timestamp = Ts, WrIoBreak = u8, RetiBreak = u8>>(c: &mut C, k: u64, a: u16, d: u8, t: Ts) -> u64 {
    match k {
        0 => { let (b, w) = c.write_io(a, d, t); brk(b) | wait(w) << 16 }
        1 => { let (b, w) = c.read_io(a, t); b as u64 | wait(w) << 16 }
        2 => c.is_irq(t) as u64,
        3 => { let (b, w) = c.irq_data(a, t); b as u64 | wait(w) << 16 }
        _ => brk(c.reti(a, t)),
    }
}
fn mem<C: Memory<Timestamp = Ts>>(c: &mut C, k: u64, a: u16, d: u16, t: Ts) -> u64 {
    match k {
        0 => c.read_opcode(a, d, t) as u64,
        1 => c.read_mem(a, t) as u64,
        2 => c.read_mem16(a, t) as u64,
        3 => { c.write_mem(a, d as u8, t); 0 }
        _ => c.read_debug(a) as u64,
    }
}
/// how: 0 direct, 1 @, 2 @ref/@mut by reference, 3 lists, 4 wrapped twice
#[no_mangle] pub extern "C" fn w_clk(how: u64, k: u64, a: u64, n: u64) -> u64 {
    let mut b = Clk;
    match how {
        0 => clk(&mut b, k, a as u16, n),
        1 => clk(&mut W1(b), k, a as u16, n),
        2 => clk(&mut W2(&mut b), k, a as u16, n),
        3 => clk(&mut W3(&mut b), k, a as u16, n),
        _ => clk(&mut W1(W2(&mut W3(&mut b))), k, a as u16, n),
    }
}
#[no_mangle] pub extern "C" fn w_io(how: u64, k: u64, a: u64, d: u64, t: u64) -> u64 {
    let mut b = Bus;
    let (a, d, t) = (a as u16, d as u8, Ts::of(t));
    match how {
        0 => io(&mut b, k, a, d, t),
        1 => io(&mut W1(b), k, a, d, t),
        2 => io(&mut W2(&mut b), k, a, d, t),
        3 => io(&mut W3(&mut b), k, a, d, t),
        _ => io(&mut W1(W2(&mut W3(&mut b))), k, a, d, t),
    }
}
#[no_mangle] pub extern "C" fn w_mem(how: u64, k: u64, a: u64, d: u64, t: u64) -> u64 {
    let mut b = Bus;
    let (a, d, t) = (a as u16, d as u16, Ts::of(t));
    match how {
        0 => mem(&mut b, k, a, d, t),
        1 => mem(&mut W1(b), k, a, d, t),
        2 => mem(&mut W2(&mut b), k, a, d, t),
        3 => mem(&mut W3(&mut b), k, a, d, t),
        _ => mem(&mut W1(W2(&mut W3(&mut b))), k, a, d, t),
    }
}

// ------------------------------------------------------------------ defaults
pub struct D0;
impl Io for D0 { type Timestamp = Ts; type WrIoBreak = u8; type RetiBreak = u8; }
impl Memory for D0 { type Timestamp = Ts; }
pub struct D1;
impl Memory for D1 {
    type Timestamp = Ts;
    fn read_debug(&self, address: u16) -> u8 { unsafe { e_peek(address) } }
}
#[no_mangle] pub extern "C" fn d_io(k: u64, a: u64, d: u64, t: u64) -> u64 { io(&mut D0, k, a as u16, d as u8, Ts::of(t)) }
#[no_mangle] pub extern "C" fn d_mem0(k: u64, a: u64, d: u64, t: u64) -> u64 { mem(&mut D0, k, a as u16, d as u16, Ts::of(t)) }
#[no_mangle] pub extern "C" fn d_mem1(k: u64, a: u64, d: u64, t: u64) -> u64 { mem(&mut D1, k, a as u16, d as u16, Ts::of(t)) }

// ------------------------------------------------------------------ break causes
f!(v_cause(i) => [match i(0) { 0 => sum_s(BreakCause::Halt), 1 => sum_s(BreakCause::WriteIo(i(1) as u8)), _ => sum_s(BreakCause::Reti(i(1) as u8)) }]);
fn sum_s(c: BreakCause<u8, u8>) -> u64 {
    let a: &str = (&c).into();
    let mut v = a.len() as u64;
    for x in a.as_bytes() { v = v.wrapping_mul(31).wrapping_add(*x as u64) }
    let b: &str = c.into();
    if a == b { v } else { !v }
}
