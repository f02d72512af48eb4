"""More planted bugs (python3 tools/seeds2.py writes seeded/)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import mk
from seeds1 import PRE, INT, OPS, Z
S = {}
SER = dict(feat='', deps='serde_json = "1"\nserde = { version = "1", features = ["derive"] }')


def seed(sid, prop, needs, breaks, edits, main, **kw):
    S[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, main=PRE + 'fn main() {\n' + main + '}\n', **kw)


seed('c04-ldnn-wrap', 'C04', '16-bit store whose address is FFFFh', 'the high byte of LD (nn),rr is written at FFFFh instead of 0000h',
     [(INT, '''        control.write_mem(addr, vlo, tsc.add_mreq(addr));
        let addr_1 = addr.wrapping_add(1);''', '''        control.write_mem(addr, vlo, tsc.add_mreq(addr));
        let addr_1 = addr.saturating_add(1);''')],
     '''    let mut cpu = Z80CMOS::default(); let mut b = B::new(0x100, &[0xED, 0x43, 0xFF, 0xFF]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::BC, 0x1234);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(b.log, vec![('w', 0xffff, 0x34), ('w', 0, 0x12)]);
''')

seed('c05-rel-128', 'C05', 'a relative jump with displacement -128', 'JR/DJNZ with displacement 80h jumps forward',
     [('src/z80/macros.rs', '''                $pc + Wrapping($e as i8 as i16 as u16)''', '''                match $e as i8 {
                    d if d < 0 => $pc - Wrapping(d.wrapping_neg() as u16),
                    d => $pc + Wrapping(d as u16)
                }''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x1000, &[0x10, 0x80]); let mut t = Clk::default();
    cpu.set_pc(0x1000); cpu.set_reg16(StkReg16::BC, 0x0500);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_pc(), 0x1002 - 128);
''')

seed('c07-otir-last-break', 'C07', 'the last OTIR iteration, from a device which asks for wait states and for a break at once', 'the break request of the last iteration of OTIR/OTDR is lost when the device also asks for wait states',
     [(INT, '''        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl1);
        if let Some(pc) = pc {''', '''        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl1);
        let should_break = match pc {
            Some(..) if b == 0 && wait_states.is_some() => None,
            _ => should_break
        };
        if let Some(pc) = pc {''')],
     '''    struct W(B);
    impl Io for W { type Timestamp = i32; type WrIoBreak = (); type RetiBreak = ();
        fn write_io(&mut self, port: u16, _d: u8, _ts: i32) -> (Option<()>, Option<NonZeroU16>) { (Some(()), NonZeroU16::new(2)) } }
    impl Memory for W { type Timestamp = i32; fn read_debug(&self, a: u16) -> u8 { self.0.mem[a as usize] } }
    let mut cpu = Z80NMOS::default(); let mut b = W(B::new(0x100, &[0xED, 0xB3])); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::BC, 0x01FE);
    assert!(cpu.execute_next(&mut b, &mut t, ND).is_err(), "break lost");
''')

seed('c15-retn-iff', 'C15', 'RETN with IFF1 set and IFF2 clear (only set_iffs gets there)', 'RETN keeps IFF1 when it was set',
     [(Z, '''        self.iff1 = self.iff2;
    }''', '''        self.iff1 |= self.iff2;
    }''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0x45]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_iffs(true, false);
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_iffs(), (false, false));
''')

seed('c20-halt-debug', 'C20', 'a step of a halted CPU with a debugger attached', 'R does not advance in HALT while a debugger is attached',
     [(Z, '''            tsc.add_m1(self.pc.get16());
            self.inc_r();
            Ok(())''', '''            tsc.add_m1(self.pc.get16());
            self.add_r(i32::from(debug.is_none()));
            Ok(())''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0x76]); let mut t = Clk::default();
    cpu.set_pc(0x100);
    step(&mut cpu, &mut b, &mut t);
    let r = cpu.get_r();
    let _ = cpu.execute_next(&mut b, &mut t, Some(|_d: CpuDebug| {}));
    assert_eq!(cpu.get_r(), r + 1);
''')

seed('c22-error-lost', 'C22', 'a closure which returns an error', 'disasm_memory stops at the error of the closure but reports success',
     [('src/disasm.rs', '''            debug(deb)?;''', '''            if debug(deb).is_err() {
                break
            }''')],
     '''    let mem = [0u8, 0, 0];
    let r = z80emu::disasm::disasm_memory::<Z80NMOS, _, _>(0, &mem, |_d| Err(7));
    assert_eq!(r, Err(7));
''')

seed('c22-prefix-end', 'C22', 'a chunk which ends in the middle of a prefixed instruction', 'a prefixed instruction which is cut by the end of the chunk is still reported, with bytes which are not there',
     [('src/disasm.rs', '''        if cursor > memory.len() {
            break;
        }''', '''        if cursor > memory.len() && !dbg.as_ref().map_or(false, |deb| deb.prefix.is_some()) {
            break;
        }''')],
     '''    let mem = [0u8, 0xDD, 0x21, 0x34];
    let mut n = 0;
    let _ = z80emu::disasm::disasm_memory::<Z80NMOS, _, ()>(0, &mem, |_d| { n += 1; Ok(()) });
    assert_eq!(n, 1);
''')

seed('c24-no-r', 'C24', 'an old serialized state without the r field, with R not zero', 'R is lost when the r field is missing',
     [('src/z80/serde.rs', '''        let r        = r.unwrap_or_else(|| Wrapping(ir.get8lo()));'''[4:], '''    let r        = r.unwrap_or_default();'''),
      ('src/z80/serde.rs', '''    let ir: RegisterPair = ir''', '''    let ir       = ir'''),
      ('src/z80/serde.rs', '''use core::num::Wrapping;
''', ''), ('src/z80/serde.rs', '''use crate::RegisterPair;
''', '')],
     '''    let mut cpu = Z80NMOS::default(); cpu.set_r(0x33);
    let mut v = serde_json::to_value(&cpu).unwrap();
    v.as_object_mut().unwrap().remove("r");
    let c2: Z80NMOS = serde_json::from_value(v).unwrap();
    assert_eq!(c2.get_r(), 0x33);
''', **SER)

seed('c24-bm1-flavour', 'C24', 'a BM1 CPU whose last instruction changed the flags and the one before did not (or the reverse), through a self-describing format', 'the flag history of BM1 comes back swapped',
     [('src/z80/flavours.rs', '''    fn from(NMOS{flags_modified, last_flags_modified}: NMOS) -> Self {
        BM1 {flags_modified, last_flags_modified}''', '''    fn from(NMOS{flags_modified: last_flags_modified, last_flags_modified: flags_modified}: NMOS) -> Self {
        BM1 {flags_modified, last_flags_modified}''')],
     '''    let mut cpu = Z80BM1::default(); let mut b = B::new(0x100, &[0xA7]); let mut t = Clk::default();
    cpu.set_pc(0x100); step(&mut cpu, &mut b, &mut t);
    let s = serde_json::to_string(&cpu).unwrap();
    let c2: Z80BM1 = serde_json::from_str(&s).unwrap();
    assert!(cpu == c2);
''', **SER)

seed('c25-add-r-neg', 'C25', 'add_r with a negative delta', 'add_r with a negative delta adds its magnitude',
     [(Z, '''        self.r += Wrapping(delta as u8);''', '''        self.r += Wrapping(delta.unsigned_abs() as u8);''')],
     '''    let mut cpu = Z80NMOS::default();
    cpu.set_r(10); cpu.add_r(-3);
    assert_eq!(cpu.get_r(), 7);
''')

seed('c26-jr-subset', 'C26', 'from_jr_subset with a byte which is not one of the four JR opcodes', 'Condition::from_jr_subset takes it for granted that bit 5 of the opcode is set',
     [('src/cpu/parse.rs', '''        Condition::from_code(code & 0b00_011_000)''', '''        Condition::from_code(code.wrapping_sub(0b00_100_000))''')],
     '''    for c in 0..=255u8 { assert_eq!(Condition::from_jr_subset(c).to_code(), c & 0x18); }
''')

seed('c33-minus-128', 'C33', 'displacement -128 printed in upper-case hexadecimal', '(IX-128) is printed as (IX-7Fh)',
     [('src/cpu/debug.rs', '''                write!(f, "({}-{:02X}h)", px, 0u8.wrapping_sub(*d as u8))''', '''                write!(f, "({}-{:02X}h)", px, d.saturating_neg())''')],
     '''    let d = z80emu::disasm::disasm_memory_once::<Z80NMOS>(0, &[0xDD, 0x7E, 0x80]).unwrap();
    assert!(format!("{:X}", d).contains("(IX-80h)"), "{:X}", d);
''')

seed('c33-pad', 'C33', 'the longest operand list, in the alternate upper-case form', 'formatting LD (IX+d),n in {:#X} fails',
     [('src/cpu/debug.rs', '''            pad!([15] f, (#"{:#X}", "{:X}"), self)''', '''            pad!([14] f, (#"{:#X}", "{:X}"), self)''')],
     '''    use std::fmt::Write;
    let d = z80emu::disasm::disasm_memory_once::<Z80NMOS>(0, &[0xDD, 0x36, 0x7F, 0xFF]).unwrap();
    let mut s = String::new();
    assert!(write!(s, "{:#X}", d).is_ok());
''')

seed('c16-limit-ei', 'C16', 'EI as the very instruction at which the limit is reached, then a run which goes on with the interrupt line active', 'the shadow of EI is lost when the limit is reached right after EI',
     [(Z, '''            if let LoopExitReason::EnableInt = reason {
                if !tsc.is_past_limit(vc_limit)  {
                    self.last_ei = false;
                    continue // this way skipping irq check immediately after EI
                }
            }''', '''            if let LoopExitReason::EnableInt = reason {
                self.last_ei = false;
                if !tsc.is_past_limit(vc_limit)  {
                    continue // this way skipping irq check immediately after EI
                }
            }''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xFB, 0]); let mut t = Clk::default();
    cpu.set_pc(0x100);
    let _ = cpu.execute_with_limit(&mut b, &mut t, 4);
    assert!(cpu.is_after_ei());
''')

seed('c12-refresh-order', 'C12', 'a refresh address seen when R wraps from 7F', 'the refresh address shows bit 7 of the counter',
     [(Z, '''        let ir = self.ir.get16();
        ir & 0xFF80 | self.r.0 as u16 & 0x007F''', '''        self.ir.get16() & 0xFF80 | self.r.0 as u16''')],
     '''    let mut cpu = Z80NMOS::default(); cpu.set_i(0x12);
    cpu.set_r(0x7F); cpu.add_r(1);
    assert_eq!(cpu.get_ir(), 0x1200);
''')

seed('c13-im0-wait', 'C13', 'wait states at the interrupt acknowledge of a halted CPU', 'the wait states of the interrupt acknowledge are added with the address of the HALT',
     [(INT, '''        let bus_ts = tsc.add_irq(pc);
        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        if let Some(ws) = wait_states {
            tsc.add_wait_states(pc, ws);
        }''', '''        let bus_ts = tsc.add_irq(pc);
        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        if let Some(ws) = wait_states {
            tsc.add_wait_states(if self.im == InterruptMode::Mode2 { self.get_ir() } else { pc }, ws);
        }''')],
     '''    #[derive(Default)] struct C(Vec<u16>);
    impl Clock for C { type Limit = (); type Timestamp = i32;
        fn is_past_limit(&self, _l: ()) -> bool { false } fn add_irq(&mut self, _pc: u16) -> i32 { 0 }
        fn add_no_mreq(&mut self, _a: u16, _n: NonZeroU8) { }
        fn add_m1(&mut self, _a: u16) -> i32 { 0 } fn add_mreq(&mut self, _a: u16) -> i32 { 0 } fn add_io(&mut self, _a: u16) -> i32 { 0 }
        fn add_wait_states(&mut self, b: u16, _w: NonZeroU16) { self.0.push(b) } fn as_timestamp(&self) -> i32 { 0 } }
    struct W(B);
    impl Io for W { type Timestamp = i32; type WrIoBreak = (); type RetiBreak = ();
        fn irq_data(&mut self, _pc: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (0, NonZeroU16::new(1)) } }
    impl Memory for W { type Timestamp = i32; fn read_debug(&self, a: u16) -> u8 { self.0.mem[a as usize] } }
    let mut cpu = Z80NMOS::default(); let mut b = W(B::new(0x100, &[0])); let mut t = C::default();
    cpu.set_pc(0x100); cpu.set_iffs(true, true); cpu.set_im(InterruptMode::Mode2);
    let _ = cpu.irq(&mut b, &mut t, ND);
    assert_eq!(t.0, vec![0x100]);
''')

seed('c08-wait-bus', 'C08', 'wait states requested by OUTI/OUTD, seen by a clock which looks at the address', 'the wait states of OUTI/OUTD are reported with BC before B was decremented',
     [(INT, '''        let (should_break, wait_states) = control.write_io(bc, data, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        self.regs.bc.set8hi(b);''', '''        let (should_break, wait_states) = control.write_io(bc, data, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(self.regs.bc.get16(), ws);
        }
        self.regs.bc.set8hi(b);''')],
     '''    #[derive(Default)] struct C(Vec<u16>);
    impl Clock for C { type Limit = (); type Timestamp = i32;
        fn is_past_limit(&self, _l: ()) -> bool { false } fn add_irq(&mut self, _pc: u16) -> i32 { 0 }
        fn add_no_mreq(&mut self, _a: u16, _n: NonZeroU8) { }
        fn add_m1(&mut self, _a: u16) -> i32 { 0 } fn add_mreq(&mut self, _a: u16) -> i32 { 0 } fn add_io(&mut self, _a: u16) -> i32 { 0 }
        fn add_wait_states(&mut self, b: u16, _w: NonZeroU16) { self.0.push(b) } fn as_timestamp(&self) -> i32 { 0 } }
    struct W(B);
    impl Io for W { type Timestamp = i32; type WrIoBreak = (); type RetiBreak = ();
        fn write_io(&mut self, _p: u16, _d: u8, _ts: i32) -> (Option<()>, Option<NonZeroU16>) { (None, NonZeroU16::new(1)) } }
    impl Memory for W { type Timestamp = i32; fn read_debug(&self, a: u16) -> u8 { self.0.mem[a as usize] } }
    let mut cpu = Z80NMOS::default(); let mut b = W(B::new(0x100, &[0xED, 0xA3])); let mut t = C::default();
    cpu.set_pc(0x100); cpu.set_reg16(StkReg16::BC, 0x0507);
    let _ = cpu.execute_next(&mut b, &mut t, ND);
    assert_eq!(t.0, vec![0x0407]);
''')

seed('c19-bm1-q', 'C19', 'SCF on BM1 after an instruction that left the flags alone, with the same bit set in A and in F', 'BM1 combines A and F by exclusive or',
     [('src/z80/flavours.rs', '''            acc | flags.bits()
        }
    }

    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        Z80Any::BM1(cpu)''', '''            acc ^ flags.bits()
        }
    }

    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        Z80Any::BM1(cpu)''')],
     '''    let mut cpu = Z80BM1::default(); let mut b = B::new(0x100, &[0x37]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_acc(0x28); cpu.set_flags(CpuFlags::from_bits_retain(0x28));
    step(&mut cpu, &mut b, &mut t);
    assert_eq!(cpu.get_flags().bits(), 0x29);
''')

seed('c30-add-r-overflow', 'C30', 'add_r with a delta close to the largest i32, in a build with overflow checks', 'add_r panics',
     [(Z, '''        self.r += Wrapping(delta as u8);''', '''        self.r = Wrapping((i32::from(self.r.0) + delta) as u8);''')],
     '''    let mut cpu = Z80NMOS::default();
    cpu.set_r(10); cpu.add_r(i32::MAX);
    assert_eq!(cpu.get_r(), 9);
''')

seed('c31-from-i16', 'C31', 'a negative i16 which is not a multiple of 256', 'the high half of a pair made of a negative number is rounded the wrong way',
     [('src/cpu/registers.rs', '''        RegisterPair(int.to_le_bytes())
    }
}

impl From<[u8;2]>''', '''        RegisterPair([int as u8, (int / 256) as u8])
    }
}

impl From<[u8;2]>''')],
     '''    assert_eq!(RegisterPair::from(-2i16).get16(), 0xFFFE);
''')

seed('c32-normalize-cond', 'C32', 'normalize_r after R wrapped from 7Fh to 00h', 'normalize_r does nothing when the low seven bits are zero',
     [(Z, '''        self.set_r(self.get_r());
    }''', '''        if self.r.0 & 0x7F != 0 {
            self.set_r(self.get_r());
        }
    }''')],
     '''    let mut a = Z80NMOS::default(); a.set_r(5); a.add_r(-5);
    let mut b = Z80NMOS::default(); b.set_r(0);
    a.normalize_r(); b.normalize_r();
    assert!(a == b);
''')

seed('c34-ldai-poll', 'C34', 'LD A,I with IFF1 clear and IFF2 set', 'LD A,I polls the interrupt line although interrupts are disabled',
     [(INT, '''Q::ACCEPTING_INT_RESETS_IFF2_EARLY && self.iff1 && control.is_irq(tsc.as_timestamp()))''', '''Q::ACCEPTING_INT_RESETS_IFF2_EARLY && control.is_irq(tsc.as_timestamp()) && self.iff1)''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0x57]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_iffs(false, true);
    step(&mut cpu, &mut b, &mut t);
    assert!(b.polls.is_empty());
''')

seed('c34-limit-order', 'C34', 'an interrupt line sampled when a run to a limit ends',
     'execute_with_limit samples the interrupt line before testing the limit, so that a device sees one sample too many at the end of each run',
     [(Z, '''                if tsc.is_past_limit(vc_limit)  {
                    break 'main LoopExitReason::LimitReached
                }

                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq
                }
            };
''', '''                let irq = is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp());

                if tsc.is_past_limit(vc_limit)  {
                    break 'main LoopExitReason::LimitReached
                }

                if irq {
                    break 'main LoopExitReason::Irq
                }
            };
''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0, 0, 0]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_iffs(true, true);
    assert!(cpu.execute_with_limit(&mut b, &mut t, 8).is_ok());
    assert_eq!(b.polls, vec![0, 4]);
''')

seed('c21-jr-not-taken', 'C21', 'a conditional JR or DJNZ not taken with a debugger', 'the target and address told for a DJNZ that falls through are taken from the displacement byte',
     [('src/z80/instructions.rs', '''                $pc += Wrapping(1);
                cpu_debug!([$code, e] DJNZ rel:e);
''', '''                cpu_debug!([$code, e] DJNZ rel:e);
                $pc += Wrapping(1);
''')],
     '''    let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0x10, 0x02]); let mut t = Clk::default();
    cpu.set_pc(0x100); cpu.set_reg(Reg8::B, None, 1);
    let mut at = None;
    let _ = cpu.execute_next(&mut b, &mut t, Some(|d: CpuDebug| at = Some((d.pc, format!("{:#X}", d)))));
    assert_eq!(at.as_ref().unwrap().0, 0x100);
    assert!(at.unwrap().1.contains("104"));
''')

if __name__ == '__main__':
    ids = sys.argv[1:] or list(S)
    for i in ids:
        mk(i, S[i])
    print(len(ids), 'written')
