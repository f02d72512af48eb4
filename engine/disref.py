"""Independent Z80 decoder: what a debugger must be told about an instruction.
decode(px, code, imm) -> (mnemonic, uses_prefix, code bytes, args), where `imm`
gives the operand bytes that follow the opcode in memory order."""
import llir
from llir import op_zext, op_sext, op_add
from z80ref import w16

R8 = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 7: 7}
BC, DE, HL, SP = 0x00, 0x10, 0x20, 0x30


def a_imm8(v): return (1, op_zext(v, 8, 32), 0)
def a_bit(v): return (2, v, 0)
def a_im(v): return (3, v, 0)
def a_r8(k, px=0): return (4, k, px)
def a_imm16(v): return (5, op_zext(v, 16, 32), 0)
def a_rr(p, px=0): return (6, p, px)
def a_stk(p): return (7, p, 0)
def a_mem(v): return (8, op_zext(v, 16, 32), 0)
def a_ind(p): return (9, p, 0)
def a_ix(px): return (10, 0, px)
def a_ixd(px, d): return (11, op_zext(d, 8, 32), px)
def a_port(v): return (12, op_zext(v, 8, 32), 0)
A_PORTC = (13, 0, 0)
def a_cond(k): return (14, k << 3, 0)
A_I, A_R = (15, 0, 0), (16, 0, 0)

ALU = ['ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP']
ROT = ['RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL']
ACCROT = ['RLCA', 'RRCA', 'RLA', 'RRA', 'DAA', 'CPL', 'SCF', 'CCF']


def decode(px, code, imm, pc):
    """px: pending prefix or 0; code: concrete opcode bytes; imm(k): k-th operand
    byte (a term); pc: address of the first opcode byte after the prefix"""
    op = code[0]
    if op == 0xCB:
        if px:
            d, o = imm(0), code[1]
            x, y, z = o >> 6, o >> 3 & 7, o & 7
            m = a_ixd(px, d)
            bs = [0xCB, d, o]
            if x == 1:
                return 'BIT', px, bs, [a_bit(y), m]
            ext = [] if z == 6 else [a_r8(z)]
            if x == 0:
                return ROT[y], px, bs, [m] + ext
            return ('RES', 'SET')[x - 2], px, bs, [a_bit(y), m] + ext
        o = code[1]
        x, y, z = o >> 6, o >> 3 & 7, o & 7
        m = a_ind(HL) if z == 6 else a_r8(z)
        if x == 0:
            return ROT[y], 0, [0xCB, o], [m]
        return ('BIT', 'RES', 'SET')[x - 1], 0, [0xCB, o], [a_bit(y), m]
    if op == 0xED:
        return ed(code[1], imm)
    x, y, z, p, q = op >> 6, op >> 3 & 7, op & 7, op >> 4 & 3, op >> 3 & 1
    used = [False]
    nimm = [0]

    def im8():
        v = imm(nimm[0]); nimm[0] += 1
        return v

    def im16():
        l = im8(); h = im8()
        return w16(h, l)

    def reg(k, px_ok=True):
        if px and px_ok and k in (4, 5):
            used[0] = True
            return a_r8(k, px)
        return a_r8(k)

    def rr(p):
        if p == 2 and px:
            used[0] = True
            return a_rr(HL, px)
        return a_rr((BC, DE, HL, SP)[p])

    def mem():
        if px:
            used[0] = True
            return a_ixd(px, im8())
        return a_ind(HL)

    def r8m(k, px_ok=True):
        return mem() if k == 6 else reg(k, px_ok)

    def rel():
        d = im8()
        return a_imm16(op_add(None, op_add(None, pc, 2, 16), op_sext(d, 8, 16), 16))

    def out(mn, *args):
        return mn, px if used[0] else 0, [op] + [imm(i) for i in range(nimm[0])], list(args)

    if x == 0:
        if z == 0:
            if y == 0: return out('NOP')
            if y == 1: return out('EX', a_stk(AF), a_stk(AF))
            if y == 2: return out('DJNZ', rel())
            if y == 3: return out('JR', rel())
            return out('JR', a_cond(y - 4), rel())
        if z == 1:
            if q == 0:
                r = rr(p); return out('LD', r, a_imm16(im16()))
            a = rr(2); return out('ADD', a, rr(p))
        if z == 2:
            if p < 2:
                m = a_ind((BC, DE)[p])
                return out('LD', m, a_r8(7)) if q == 0 else out('LD', a_r8(7), m)
            if p == 2:
                r = rr(2); m = a_mem(im16())
            else:
                r = a_r8(7); m = a_mem(im16())
            return out('LD', m, r) if q == 0 else out('LD', r, m)
        if z == 3: return out(('INC', 'DEC')[q], rr(p))
        if z in (4, 5): return out(('INC', 'DEC')[z - 4], r8m(y))
        if z == 6:
            t = r8m(y); return out('LD', t, a_imm8(im8()))
        return out(ACCROT[y])
    if x == 1:
        if op == 0x76: return out('HALT')
        mm = 6 in (y, z)
        d = r8m(y, not mm); s = r8m(z, not mm)
        return out('LD', d, s)
    if x == 2:
        return alu(out, y, r8m(z))
    if z == 0: return out('RET', a_cond(y))
    if z == 1:
        if q == 0:
            if p == 2 and px:
                used[0] = True
                return out('POP', a_rr(HL, px))
            return out('POP', a_stk((BC, DE, HL, AF)[p]))
        if p == 0: return out('RET')
        if p == 1: return out('EXX')
        if p == 2:
            if px:
                used[0] = True
                return out('JP', a_ix(px))
            return out('JP', a_ind(HL))
        return out('LD', a_rr(SP), rr(2))
    if z == 2: return out('JP', a_cond(y), a_imm16(im16()))
    if z == 3:
        if y == 0: return out('JP', a_imm16(im16()))
        if y == 2: return out('OUT', a_port(im8()), a_r8(7))
        if y == 3: return out('IN', a_r8(7), a_port(im8()))
        if y == 4: return out('EX', a_ind(SP), rr(2))
        if y == 5: return out('EX', a_rr(DE), a_rr(HL))
        return out(('DI', 'EI')[y - 6])
    if z == 4: return out('CALL', a_cond(y), a_imm16(im16()))
    if z == 5:
        if q == 0:
            if p == 2 and px:
                used[0] = True
                return out('PUSH', a_rr(HL, px))
            return out('PUSH', a_stk((BC, DE, HL, AF)[p]))
        return out('CALL', a_imm16(im16()))
    if z == 6: return alu(out, y, a_imm8(im8()))
    return out('RST', a_imm8(op & 0x38))


AF = 0x30


def alu(out, y, arg):
    return out(ALU[y], a_r8(7), arg) if y in (0, 1, 3) else out(ALU[y], arg)


BLOCK = ['LD', 'CP', 'IN', 'OT']


def ed(o, imm):
    x, y, z, p, q = o >> 6, o >> 3 & 7, o & 7, o >> 4 & 3, o >> 3 & 1
    bs = [0xED, o]
    if x == 1:
        if z == 0: return 'IN', 0, bs, [A_PORTC] if y == 6 else [a_r8(y), A_PORTC]
        if z == 1: return 'OUT', 0, bs, [A_PORTC] if y == 6 else [A_PORTC, a_r8(y)]
        r = a_rr((BC, DE, HL, SP)[p])
        if z == 2: return ('SBC', 'ADC')[q], 0, bs, [a_rr(HL), r]
        if z == 3:
            m = a_mem(w16(imm(1), imm(0)))
            return 'LD', 0, bs + [imm(0), imm(1)], [m, r] if q == 0 else [r, m]
        if z == 4: return 'NEG', 0, bs, []
        if z == 5: return ('RETI' if y == 1 else 'RETN'), 0, bs, []
        if z == 6: return 'IM', 0, bs, [a_im((0, 0, 1, 2)[y & 3])]
        t = [('LD', [A_I, a_r8(7)]), ('LD', [A_R, a_r8(7)]), ('LD', [a_r8(7), A_I]), ('LD', [a_r8(7), A_R]),
             ('RRD', []), ('RLD', []), ('NOP*', []), ('NOP*', [])][y]
        return t[0], 0, bs, t[1]
    if x == 2 and y >= 4 and z < 4:
        m = ['LD', 'CP', 'IN', 'OUT' if y < 6 else 'OT'][z] + 'ID'[y & 1] + ('R' if y >= 6 else '')
        return m, 0, bs, []
    return 'NOP*', 0, bs, []
