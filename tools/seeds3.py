"""More planted bugs (python3 tools/seeds3.py writes seeded/)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import mk
from seeds1 import PRE, INT, OPS, Z
S = {}
SERDE, LIB = 'src/z80/serde.rs', 'src/lib.rs'


def seed(sid, prop, needs, breaks, edits, main, **kw):
    S[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, main=PRE + 'fn main() {\n' + main + '}\n', **kw)


seed('c35-int-window', 'C35', 'LD A,I or LD A,R followed at once by an accepted interrupt (two steps and a new private field)',
     'the CPU remembers in a private field that LD A,I was just executed and clears P/V when an interrupt is accepted next; nothing shows, saves or restores it',
     [(Z, '    prefix: Option<Prefix>,\n    r: Wrapping<u8>,\n', '    prefix: Option<Prefix>,\n    pv_window: u8,\n    r: Wrapping<u8>,\n'),
      (Z, '            prefix: self.prefix,\n            r: self.r,\n', '            prefix: self.prefix,\n            pv_window: self.pv_window,\n            r: self.r,\n'),
      (SERDE, '''        r,
        flavour
    })''', '''        r,
        pv_window: 0,
        flavour
    })'''),
      (SERDE, '            flavour: flavour.unwrap_or_default()', '            pv_window: 0,\n            flavour: flavour.unwrap_or_default()'),
      (SERDE, '            flavour: CMOS', '            pv_window: 0,\n            flavour: CMOS'),
      (SERDE, '            flavour: flavour.map(BM1::from).unwrap_or_default()', '            pv_window: 0,\n            flavour: flavour.map(BM1::from).unwrap_or_default()'),
      (INT, '''        self.flavour.flags_modified();
        self.af.set8hi(val);
    }''', '''        self.flavour.flags_modified();
        self.af.set8hi(val);
        if Q::ACCEPTING_INT_RESETS_IFF2_EARLY {
            self.pv_window = self.ir.get8hi() | 1;
        }
    }'''),
      (INT, '''        self.disable_interrupts();
        self.inc_r();
        let mut pc = self.pc.get16();''', '''        self.disable_interrupts();
        self.inc_r();
        if core::mem::take(&mut self.pv_window) == self.ir.get8hi() | 1 && self.af.get8hi() == self.ir.get8hi() {
            let flags = self.get_flags();
            self.set_flags(flags & !CpuFlags::PV);
        }
        let mut pc = self.pc.get16();''')],
     '''    // the state is saved and restored through the accessors between the two steps
    let run = |save: bool| {
        let mut cpu = Z80NMOS::default(); let mut b = B::new(0x100, &[0xED, 0x57, 0x00]); let mut t = Clk::default();
        cpu.set_pc(0x100); cpu.set_i(0x81); cpu.set_im(InterruptMode::Mode1); cpu.set_iffs(true, true); cpu.set_sp(0x8000);
        step(&mut cpu, &mut b, &mut t);
        let mut c = if save {
            let mut c = Z80NMOS::default();
            c.set_pc(cpu.get_pc()); c.set_i(cpu.get_i()); c.set_r(cpu.get_r()); c.set_im(cpu.get_im()); c.set_sp(cpu.get_sp());
            c.set_acc(cpu.get_acc()); c.set_flags(cpu.get_flags()); let (a, b) = cpu.get_iffs(); c.set_iffs(a, b);
            c
        } else { cpu };
        b.irq = true;
        step(&mut c, &mut b, &mut t);
        (c.get_pc(), c.get_flags(), c.get_acc())
    };
    assert_eq!(run(false), run(true));
''')

seed('c36-jr-mask', 'C36', 'a byte other than the valid JR cc opcodes: DJNZ, or LD (HL),n', 'JR_CC_OPMASK ignores bit 5, so DJNZ, JR and NOP-like bytes match JR cc or valid ones stop matching',
     [(LIB, '    pub const JR_CC_OPMASK  : u8 = 0b11_100_111;', '    pub const JR_CC_OPMASK  : u8 = 0b01_100_111;')],
     '''    use z80emu::opconsts::*;
    for b in 0..=255u8 { assert_eq!((b & JR_CC_OPMASK) == JR_CC_OPBASE, [0x20, 0x28, 0x30, 0x38].contains(&b), "{:02x}", b); }
''')

seed('c22-long-chunk', 'C22', 'a chunk of memory longer than 256 bytes', 'addresses of instructions past the first 256 bytes of a chunk are wrong',
     [('src/disasm.rs', '        let pc = pc.wrapping_add(cursor as u16);', '        let pc = pc.wrapping_add(cursor as u16 & 0xfff);')],
     '''    let mut n = 0u32;
    let mem = vec![0u8; 0x2000];
    disasm::disasm_memory::<Z80NMOS, _, ()>(0xfff0, &mem, |d| { assert_eq!(d.pc, 0xfff0u16.wrapping_add(n as u16)); n += 1; Ok(()) }).unwrap();
    assert_eq!(n, 0x2000);
''')

if __name__ == '__main__':
    ids = sys.argv[1:] or list(S)
    for k in ids:
        mk(k, S[k])
