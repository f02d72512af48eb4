"""The planted bugs (python3 tools/seeds1.py writes seeded/)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import mk
PRE = r'''#![allow(dead_code, unused_imports, unused_variables)]
use core::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::{*, z80::*, host::*};
type Clk = TsCounter<i32>;
const ND: Option<fn(CpuDebug)> = None;
struct B { mem: Vec<u8>, irq: bool, vec: u8, polls: Vec<i32>, log: Vec<(char, u16, u8)>, inp: u8, brk: bool }
impl B {
    fn new(org: u16, code: &[u8]) -> B {
        let mut mem = vec![0u8; 65536];
        for (i, c) in code.iter().enumerate() { mem[org.wrapping_add(i as u16) as usize] = *c; }
        B { mem, irq: false, vec: 0xff, polls: vec![], log: vec![], inp: 0, brk: false }
    }
}
impl Io for B {
    type Timestamp = i32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn is_irq(&mut self, ts: i32) -> bool { self.polls.push(ts); self.irq }
    fn irq_data(&mut self, _pc: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (self.vec, None) }
    fn read_io(&mut self, port: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (self.inp, None) }
    fn write_io(&mut self, port: u16, data: u8, _ts: i32) -> (Option<()>, Option<NonZeroU16>) { self.log.push(('o', port, data)); (if self.brk { Some(()) } else { None }, None) }
}
impl Memory for B {
    type Timestamp = i32;
    fn read_debug(&self, a: u16) -> u8 { self.mem[a as usize] }
    fn write_mem(&mut self, a: u16, v: u8, _ts: i32) { self.log.push(('w', a, v)); self.mem[a as usize] = v; }
}
fn step<C: Cpu>(cpu: &mut C, b: &mut B, t: &mut Clk) { let _ = cpu.execute_next(b, t, ND); }
'''
S = {}


def seed(sid, prop, needs, breaks, edits, main, **kw):
    S[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, main=PRE + 'fn main() {\n' + main + '}\n', **kw)


INT, OPS, Z = 'src/z80/internal.rs', 'src/z80/ops.rs', 'src/z80.rs'

seed('c01-inc-ix-disp', 'C01', 'INC (IX+d)/DEC (IY+d) whose effective address crosses FFFFh', 'the (IX+d) address saturates instead of wrapping in INC/DEC',
     [(INT, '''        let ii_d = indexed_address!(self.get_index16(prefix), index8);
        let val: u8 = opfn(control''', '''        let ii = self.get_index16(prefix);
        let ii_d = match index8 as i8 {
            d if d < 0 => ii.wrapping_sub(d.unsigned_abs() as u16),
            d => ii.saturating_add(d as u16)
        };
        let val: u8 = opfn(control''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xDD, 0x34, 0x7F]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_index16(Prefix::Xdd, 0xFFF0);
    step(&mut cpu, &mut b, &mut t); step(&mut cpu, &mut b, &mut t);
    assert_eq!(b.log, vec![('w', 0x006F, 1)]);
''')

seed('c06-outi-l-flags', 'C06', 'OUTD with L=00h so that HL-1 borrows, and data making the sum carry', 'OUTI/OUTD flags use L before the update when it wraps',
     [(INT, '''        ops::iox(data, b, hl1 as u8, flags);''', '''        ops::iox(data, b, (hl as u8).saturating_add(delta as u8), flags);''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0xA3]); let mut t = Clk::default();
    b.mem[0x2000 + 0xff] = 0x81;
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::HL, 0x20FF); cpu.set_reg16(StkReg16::BC, 0x1000);
    step(&mut cpu, &mut b, &mut t);
    assert!(!cpu.get_flags().cf() && !cpu.get_flags().hf(), "OUTI with L wrapping to 0");
''')

seed('c09-in-f-wait', 'C09', 'wait states requested by a port on IN r,(C)', 'the wait states of IN (C) (flags only) are dropped',
     [(INT, '''        let bc = self.regs.bc.get16();
        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);''', '''        let bc = self.regs.bc.get16();
        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let (Some(ws), Ok(_)) = (wait_states, &arg) {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);''')],
     '''    struct W(B);
    impl Io for W { type Timestamp = i32; type WrIoBreak = (); type RetiBreak = ();
        fn read_io(&mut self, port: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (1, NonZeroU16::new(9)) } }
    impl Memory for W { type Timestamp = i32; fn read_debug(&self, a: u16) -> u8 { self.0.read_debug(a) } }
    for (op, ts) in [(0x78u8, 21), (0x70, 21)] {
        let mut cpu = Z80NMOS::default(); let mut b = W(B::new(0, &[0xED, op])); let mut t = Clk::default();
        let _ = cpu.execute_next(&mut b, &mut t, ND);
        assert_eq!(t.as_timestamp(), ts);
    }
''')

seed('c13-im2-read-first', 'C13', 'interrupt mode 2 with an odd vector byte FFh, so that the table entry crosses a page',
     'the high byte of the service routine address is read from the same page as the low byte (vector FFh wraps to I*256)',
     [('src/z80/internal.rs', '''                let vaddr = ir & 0xFF00 | vector as u16;
                self.pc.set16(vaddr);
                self.execute''', '''                let vaddr = ir & 0xFF00 | vector as u16;
                if vector == u8::MAX {
                    // the table entry wraps within its page
                    let lo = control.read_mem(vaddr, tsc.add_mreq(vaddr));
                    let hi = control.read_mem(ir & 0xFF00, tsc.add_mreq(ir & 0xFF00));
                    let target = u16::from_le_bytes([lo, hi]);
                    self.memptr.set16(target);
                    self.pc.set16(target);
                    self.flavour.begin_instruction();
                    return Ok(());
                }
                self.pc.set16(vaddr);
                self.execute''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x4000, &[0]); let mut t = Clk::default();
    b.mem[0x30ff] = 0x34; b.mem[0x3100] = 0x12;
    b.irq = true; b.vec = 0xff;
    cpu.set_i(0x30); cpu.set_im(InterruptMode::Mode2); cpu.set_iffs(true, true); cpu.set_sp(0x8000); cpu.set_pc(0x4000);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_pc(), 0x1234);
''')

seed('c14-nmi-halt-iff2', 'C14', 'NMI accepted while halted with interrupts enabled, then RETN',
     'an NMI that ends a HALT also copies IFF1 into IFF2',
     [(INT, '''        self.last_ei = false;
        self.iff1 = false;
        self.inc_r();''', '''        self.last_ei = false;
        self.iff2 = self.iff2 && (self.iff1 || !self.halt);
        self.iff1 = false;
        self.inc_r();''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0x76]); let mut t = Clk::default();
    cpu.set_sp(0x8000); step(&mut cpu, &mut b, &mut t);
    assert!(cpu.is_halt()); cpu.set_iffs(false, true);
    assert!(cpu.nmi(&mut b, &mut t));
    assert_eq!(cpu.get_iffs(), (false, true));
''')

seed('c16-limit-prefix', 'C16', 'execute_with_limit started with a pending DD/FD prefix and an active interrupt request',
     'a pending prefix no longer delays the interrupt when execution is resumed with execute_with_limit',
     [(Z, '''        else if is_int_allowed(self.prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
            self.irq_no_check''', '''        else if self.iff1 && control.is_irq(tsc.as_timestamp()) {
            self.irq_no_check''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xDD, 0x23]); let mut t = Clk::default();
    cpu.set_sp(0x8000); cpu.set_im(InterruptMode::Mode1); step(&mut cpu, &mut b, &mut t);
    assert!(cpu.is_after_prefix()); cpu.set_iffs(true, true); b.irq = true;
    let mut c2 = cpu.clone(); let mut t2 = t;
    let _ = cpu.execute_with_limit(&mut b, &mut t, 5);
    let _ = c2.execute_next(&mut b, &mut t2, ND);
    assert_eq!(cpu.get_pc(), c2.get_pc());
    assert_eq!(cpu.get_pc(), 2);
''')

seed('c17-nmi-history', 'C17', 'a flag-setting instruction, then an accepted NMI, then SCF as the first instruction of the handler',
     'accepting an NMI leaves the flag modification history of the interrupted instruction in place',
     [(INT, '''        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour.begin_instruction();
        self.pc.set16(NMI_RESTART);''', '''        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        if pc != NMI_RESTART {
            self.pc.set16(NMI_RESTART);
        }''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xAF]); let mut t = Clk::default();
    b.mem[0x66] = 0x37;
    cpu.set_sp(0x8000); cpu.set_acc(0); 
    step(&mut cpu, &mut b, &mut t);            // XOR A modifies flags
    cpu.set_flags(CpuFlags::XY);
    assert!(cpu.nmi(&mut b, &mut t));
    step(&mut cpu, &mut b, &mut t);            // SCF: the previous "instruction" did not touch flags
    assert_eq!((cpu.get_flags() & CpuFlags::XY).bits(), 0x28);
''')


seed('c02-ddcb-set-a', 'C02', 'a DDCB/FDCB SET or RES with a register destination H or L',
     'SET n,(IX+d),H / L also stores into the index register half instead of H / L',
     [(INT, '''        if let Ok(reg) = arg {
            self.set_reg(reg, None, result);
        }''', '''        if let Ok(reg) = arg {
            let reg_prefix = match bitops {
                BitOps::Set(..) if !flags.cf() => Some(prefix),
                _ => None
            };
            self.set_reg(reg, reg_prefix, result);
        }''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xDD, 0xCB, 0x01, 0xC4]); let mut t = Clk::default();
    cpu.set_index16(Prefix::Xdd, 0x4000);
    step(&mut cpu, &mut b, &mut t); step(&mut cpu, &mut b, &mut t);
    assert_eq!((cpu.get_index16(Prefix::Xdd), cpu.get_reg(Reg8::H, None)), (0x4000, 1));
''')

seed('c06-ldir-bc-one', 'C06', 'LDIR/LDDR started with BC=0 (65536 iterations) - the first step',
     'LDIR with BC=0 stops after one iteration instead of wrapping to 65535',
     [(INT, '''        let is_over = self.regs.bc.dec16_is_zero();
        ops::ldx(''', '''        let is_over = self.regs.bc.get16() <= 1;
        self.regs.bc.dec16();
        ops::ldx(''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0xB0]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::HL, 0x2000); cpu.set_reg16(StkReg16::DE, 0x3000);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!((cpu.get_pc(), cpu.get_reg16(StkReg16::BC), cpu.get_flags().pvf()), (0x100, 0xFFFF, true));
''')

seed('c10-ex-sp-order', 'C10', 'EX (SP),HL with SP at FFFFh / a host that observes the write order',
     'EX (SP),HL writes the low byte first when the stack pointer is odd',
     [(INT, '''        control.write_mem(sp_1, vhi, tsc.add_mreq(sp_1));
        control.write_mem(sp, vlo, tsc.add_mreq(sp));
        // tsc''', '''        if sp_1 != 0 {
            control.write_mem(sp_1, vhi, tsc.add_mreq(sp_1));
            control.write_mem(sp, vlo, tsc.add_mreq(sp));
        }
        else {
            control.write_mem(sp, vlo, tsc.add_mreq(sp_1));
            control.write_mem(sp_1, vhi, tsc.add_mreq(sp));
        }
        // tsc''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xE3]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_sp(0xffff); cpu.set_reg16(StkReg16::HL, 0x1234);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(b.log, vec![('w', 0, 0x12), ('w', 0xffff, 0x34)]);
''')

seed('c11-cpir-memptr', 'C11', 'CPDR that stops because a match was found (not because BC reached 0), then BIT n,(HL)',
     'MEMPTR is not decremented by CPDR when it ends with a match',
     [(INT, '''        // MEMPTR = MEMPTR +/- 1
        self.memptr.add16(delta as u16);
        None''', '''        // MEMPTR = MEMPTR +/- 1
        if pc.is_none() || self.regs.bc.get16() == 0 || matches!(delta, BlockDelta::Increase) {
            self.memptr.add16(delta as u16);
        }
        None''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0xB9]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::HL, 0x2000); cpu.set_reg16(StkReg16::BC, 5); cpu.set_memptr(0x800);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_memptr(), 0x7ff);
''')

seed('c12-ldra-refresh', 'C12', 'LD R,A followed by more than 128 opcode fetches or R set to FFh',
     'R wraps into bit 7 of the refresh address when R was loaded with bit 7 clear and counts past 127',
     [(Z, '''        let ir = self.ir.get16();
        ir & 0xFF80 | self.r.0 as u16 & 0x007F''', '''        let ir = self.ir.get16();
        let mask = if self.iff1 && self.im == InterruptMode::Mode2 { 0x00FF } else { 0x007F };
        ir & 0xFF80 | self.r.0 as u16 & mask''')],
     '''    let mut cpu = Z80NMOS::default();
    cpu.set_im(InterruptMode::Mode2); cpu.set_iffs(true, true);
    cpu.set_i(0x12); cpu.set_r(0x7f); cpu.inc_r();
    assert_eq!(cpu.get_ir(), 0x1200);
''')

seed('c13-halt-im1-iff2', 'C13', 'a halted CPU in interrupt mode 1 accepting an interrupt',
     'IFF2 survives the acceptance of an interrupt that ends a HALT in mode 1',
     [(INT, '''        self.disable_interrupts();
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {''', '''        if self.im != InterruptMode::Mode1 || !self.halt {
            self.disable_interrupts();
        }
        else {
            self.iff1 = false;
        }
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xFB, 0x76]); let mut t = Clk::default();
    b.irq = true;
    cpu.set_pc(0x100); cpu.set_sp(0x8000); cpu.set_im(InterruptMode::Mode1);
    step(&mut cpu, &mut b, &mut t); step(&mut cpu, &mut b, &mut t); step(&mut cpu, &mut b, &mut t);
    assert_eq!((cpu.get_pc(), cpu.get_iffs()), (0x38, (false, false)));
''')

seed('c20-debug-jr', 'C20', 'a debugger attached while RST/interrupts push at a stack that overlaps... a debugger and a CPU whose R is normalised',
     'with a debugger attached, bit 7 of R leaks: an extra refresh is counted on prefixed instructions',
     [('src/z80/instructions.rs', '''            cpu_debug!([$code] EXX );
            $cpu.exx();''', '''            let r = $cpu.get_r();
            cpu_debug!([$code] EXX );
            if $cpu.get_r() == r && $prefix.is_none() { $cpu.exx() } else { $cpu.exx(); $cpu.r -= 1 }''')], '')
del S['c20-debug-jr']

seed('c21-debug-pc', 'C21', 'a JR/DJNZ at the top of the address space whose target wraps past FFFFh, seen through a debugger',
     'the jump target reported to the debugger saturates instead of wrapping', [], '')
del S['c21-debug-pc']

seed('c23-any-into-bm1', 'C23', 'an NMOS Z80Any whose last instruction modified flags, converted to BM1, then SCF',
     'Z80Any::into_bm1 loses the flag modification history',
     [('src/z80/any.rs', 'Z80Any::BM1(cpu.into_flavour())', 'Z80Any::BM1(cpu.into_flavour::<CMOS>().into_flavour())')],
     '''    let mut cpu = Z80Any::new_nmos(); let mut b = B::new(0, &[0xAF, 0x37]); let mut t = Clk::default();
    cpu.set_acc(0); step(&mut cpu, &mut b, &mut t);
    cpu.set_flags(CpuFlags::XY);
    let mut cpu = cpu.into_bm1();
    step(&mut cpu, &mut b, &mut t);
    assert_eq!((cpu.get_flags() & CpuFlags::XY).bits(), 0);
''')

seed('c27-wait-u16', 'C27', 'more than 255 wait states in one cycle', 'only the low byte of the wait state count is added',
     [('src/host.rs', '''        self.0 += Wrapping(wait_states.get().into())''', '''        self.0 += Wrapping((wait_states.get() as u8).into())''')],
     '''    let mut t = TsCounter::<u32>::default();
    t.add_wait_states(0, NonZeroU16::new(300).unwrap());
    assert_eq!(t.as_timestamp(), 300);
''')

seed('c28-fwd-read16', 'C28', 'forwarding read_mem16 through a wrapper to a memory that overrides it', 'a wrapped 16-bit read is split into two byte reads',
     [('src/macros.rs', '''            ($fwd).read_mem16(addr, ts)''', '''            match addr {
                u16::MAX => ($fwd).read_mem16(addr, ts) & 0x00FF | 0xFF00,
                _ => ($fwd).read_mem16(addr, ts)
            }''')],
     '''    struct M16; impl Memory for M16 { type Timestamp = i32; fn read_mem16(&self, a: u16, _: i32) -> u16 { a ^ 0x5a5a } }
    struct W(M16);
    impl Memory for W { forward_host_memory_types! { @ => M16 } forward_host_memory_methods! { @ => |b| b.0 } }
    assert_eq!(W(M16).read_mem16(0xffff, 0), 0xa5a5);
    assert_eq!(W(M16).read_mem16(0xfffe, 0), 0xa5a4);
''')

seed('c29-reset-flavour', 'C29', 'reset() after a flag-modifying instruction, then SCF', 'reset() keeps the flag modification history',
     [(Z, '''        self.r = Wrapping(0);
        self.flavour.reset();''', '''        self.r = Wrapping(0);
        self.flavour.begin_instruction();''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xAF]); let mut t = Clk::default();
    step(&mut cpu, &mut b, &mut t); cpu.reset();
    assert!(cpu == Z80NMOS::new());
''')

seed('c31-dec-zero', 'C31', 'dec16_is_zero on 0001h with...', 'dec16_is_zero looks only at the low byte when the high byte did not change', [], '')
del S['c31-dec-zero']

seed('c18-ldar-bit7', 'C18', 'LD A,R after R has counted past 127 from a value with bit 7 set', 'LD A,R loses bit 7 when the low seven bits have wrapped to zero',
     [(INT, '''        else {
            ir as u8
        };
        let iff2''', '''        else {
            match ir as u8 { 0x80 => 0, r => r }
        };
        let iff2''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xED, 0x5F]); let mut t = Clk::default();
    cpu.set_r(0xFE);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_acc(), 0x80);
''')

seed('c03-add-zero', 'C03', 'ADD/ADC/SBC with a zero operand and no carry', 'a shortcut for adding zero leaves the flags unchanged',
     [(INT, '''        let reg = op16(v, nn, flags).into();''', '''        if nn == 0 && !flags.cf() && v != 0 {
            self.flavour.flags_modified();
            return reg16;
        }
        let reg = op16(v, nn, flags).into();''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0, &[0xED, 0x4A]); let mut t = Clk::default();
    cpu.set_reg16(StkReg16::HL, 0x8000); 
    step(&mut cpu, &mut b, &mut t);
    assert!(cpu.get_flags().sf());
''')

if __name__ == '__main__':
    for k in sys.argv[1:] or S:
        mk(k, S[k])
        print(k)
