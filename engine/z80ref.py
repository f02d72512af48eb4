"""Independent reference model of one Z80 CPU step (instruction / interrupt
acceptance), written from the published Z80 documentation (Zilog user manual,
Sean Young's undocumented-Z80, the MEMPTR notes and the contended-cycle tables),
not from the crate.  Every value is an int or a z3 term; `X.branch` forks."""
import z3
from llir import (op_add, op_sub, op_and, op_or, op_xor, op_zext, op_trunc, op_sext, cmp_eq, cmp_ne, cmp_ult,
                  cmp_ugt, b_not, bool_and, bool_or, bool_xor, zext1, select, bv, BV)

C, N, PV, XF, H, YF, Z, S = 1, 2, 4, 8, 16, 32, 64, 128
R8 = ['b', 'c', 'd', 'e', 'h', 'l', None, 'a']


def hi(x): return (x >> 8) & 255 if type(x) is int else z3.Extract(15, 8, x)
def lo(x): return x & 255 if type(x) is int else op_trunc(x, 8)


def w16(h, l):
    if type(h) is int and type(l) is int:
        return h << 8 | l
    return z3.Concat(bv(h, 8), bv(l, 8))


def bit(x, n):
    return bool((x >> n) & 1) if type(x) is int else z3.Extract(n, n, x) == BV(1, 1)


def add8(a, b): return op_add(None, a, b, 8)
def sub8(a, b): return op_sub(None, a, b, 8)
def add16(a, b): return op_add(None, a, b & 0xffff if type(b) is int else b, 16)
def sub16(a, b): return op_sub(None, a, b, 16)
def and8(a, b): return op_and(None, a, b, 8)
def or8(a, b): return op_or(None, a, b, 8)
def xor8(a, b): return op_xor(None, a, b, 8)
def z9(x): return x if type(x) is int else z3.ZeroExt(1, x)
def z17(x): return x if type(x) is int else z3.ZeroExt(1, x)
def ite8(c, a, b): return select(None, c, a, b, 8)


def fl(**kw):
    """flag byte out of booleans"""
    r = 0
    for k, c in kw.items():
        m = {'s': S, 'z': Z, 'y': YF, 'h': H, 'x': XF, 'p': PV, 'n': N, 'c': C}[k]
        if c is True:
            r = op_or(None, r, m, 8)
        elif c is not False:
            r = op_or(None, r, z3.If(c, BV(m, 8), BV(0, 8)), 8)
    return r


def parity(x):
    if type(x) is int:
        return bin(x).count('1') % 2 == 0
    v = z3.Extract(0, 0, x)
    for i in range(1, 8):
        v = v ^ z3.Extract(i, i, x)
    return v == BV(0, 1)


def sxy(v):
    """S, Y, X copied from a byte"""
    return and8(v, S | YF | XF)


def szxy(v):
    return or8(sxy(v), fl(z=cmp_eq(v, 0, 8)))


def lnot(a): return b_not(a)


class Ref:
    REGS = ['a', 'f', 'b', 'c', 'd', 'e', 'h', 'l']

    def __init__(self, X, env, flavour, st):
        self.X, self.env, self.fl = X, env, flavour
        self.__dict__.update(st)
        self.arg_dbg = []

    # ---------------------------------------------------------- bus helpers
    def ir(self):
        return w16(self.i, self.r)

    def inc_r(self):
        # bit 7 of R is preserved, the low 7 bits count
        self.r = or8(and8(add8(self.r, 1), 0x7f), and8(self.r, 0x80))

    def fetch(self):
        self.inc_r()
        ts = self.env.e_m1(self.X, self.pc)
        op = self.env.e_rdop(self.X, self.pc, self.ir(), ts)
        self.pc = add16(self.pc, 1)
        return op

    def rd(self, a):
        ts = self.env.e_mreq(self.X, a)
        return self.env.e_rd(self.X, a, ts)

    def wr(self, a, v):
        ts = self.env.e_mreq(self.X, a)
        self.env.e_wr(self.X, a, v, ts)

    def nomreq(self, a, n):
        self.env.e_nomreq(self.X, a, n)

    def imm8(self):
        v = self.rd(self.pc)
        self.pc = add16(self.pc, 1)
        return v

    def rd16(self, a):
        l = self.rd(a)
        h = self.rd(add16(a, 1))
        return w16(h, l)

    def imm16(self):
        v = self.rd16(self.pc)
        self.pc = add16(self.pc, 2)
        return v

    def push(self, v):
        self.sp = sub16(self.sp, 1)
        self.wr(self.sp, hi(v))
        self.sp = sub16(self.sp, 1)
        self.wr(self.sp, lo(v))

    def pop(self):
        v = self.rd16(self.sp)
        self.sp = add16(self.sp, 2)
        return v

    def inp(self, port):
        ts = self.env.e_io(self.X, port)
        r = self.env.e_in(self.X, port, ts)
        self.wait(port, self.env.last_wait)
        return r

    def wait(self, bus, ws):
        if self.X.branch(cmp_ne(ws, 0, 16)):
            self.env.e_wait(self.X, bus, ws)

    def out(self, port, v):
        ts = self.env.e_io(self.X, port)
        self.env.e_out(self.X, port, v, ts)
        brk = self.env.last_brk
        self.wait(port, self.env.last_wait)
        self.brk = ('wr',) + brk

    # ---------------------------------------------------------- registers
    def pair(self, n):
        return w16(getattr(self, n[0]), getattr(self, n[1]))

    def setpair(self, n, v):
        setattr(self, n[0], hi(v)); setattr(self, n[1], lo(v))

    def idx(self):
        return self.pair('hl') if self.px == 0 else self.ix if self.px == 0xDD else self.iy

    def setidx(self, v):
        if self.px == 0:
            self.setpair('hl', v)
        elif self.px == 0xDD:
            self.ix = v
        else:
            self.iy = v

    def get8(self, k, px=True):
        n = R8[k]
        if px and self.px and n in ('h', 'l'):
            return hi(self.idx()) if n == 'h' else lo(self.idx())
        return getattr(self, n)

    def set8(self, k, v, px=True):
        n = R8[k]
        if px and self.px and n in ('h', 'l'):
            o = self.idx()
            self.setidx(w16(v, lo(o)) if n == 'h' else w16(hi(o), v))
        else:
            setattr(self, n, v)

    def get_rr(self, p, af=False):
        if p == 0: return self.pair('bc')
        if p == 1: return self.pair('de')
        if p == 2: return self.idx()
        return self.pair('af') if af else self.sp

    def set_rr(self, p, v, af=False):
        if p == 0: self.setpair('bc', v)
        elif p == 1: self.setpair('de', v)
        elif p == 2: self.setidx(v)
        elif af: self.setpair('af', v)
        else: self.sp = v

    def cond(self, k):
        c = bit(self.f, [6, 0, 2, 7][k >> 1])
        return c if k & 1 else lnot(c)

    # ---------------------------------------------------------- flags
    def setf(self, v):
        self.f = v
        self.fm = True

    def alu(self, op, v):
        a, f = self.a, self.f
        cy = zext1(bit(f, 0), 8)
        if op in (0, 1, 2, 3, 7):
            if op in (0, 2, 7):
                cy = 0
            if op < 2:
                w = op_add(None, op_add(None, z9(a), z9(v), 9), z9(cy), 9)
                half = op_add(None, op_add(None, and8(a, 15), and8(v, 15), 8), cy, 8)
                hf = bit(half, 4)
            else:
                w = op_sub(None, op_sub(None, z9(a), z9(v), 9), z9(cy), 9)
                half = op_sub(None, op_sub(None, and8(a, 15), and8(v, 15), 8), cy, 8)
                hf = bit(half, 4)
            r = op_trunc(w, 8)
            cf = bit(w, 8)
            if op < 2:
                of = bool_and(None, b_not(bool_xor(None, bit(a, 7), bit(v, 7))), bool_xor(None, bit(a, 7), bit(r, 7)))
            else:
                of = bool_and(None, bool_xor(None, bit(a, 7), bit(v, 7)), bool_xor(None, bit(a, 7), bit(r, 7)))
            nf = fl(s=bit(r, 7), z=cmp_eq(r, 0, 8), h=hf, p=of, n=op >= 2, c=cf)
            nf = or8(nf, and8(v if op == 7 else r, YF | XF))
            self.setf(nf)
            if op != 7:
                self.a = r
            return
        if op == 4: r = and8(a, v)
        elif op == 5: r = xor8(a, v)
        else: r = or8(a, v)
        self.a = r
        self.setf(or8(szxy(r), fl(p=parity(r), h=op == 4)))

    def inc8(self, v):
        r = add8(v, 1)
        self.setf(or8(szxy(r), or8(fl(h=cmp_eq(and8(r, 15), 0, 8), p=cmp_eq(r, 0x80, 8)), and8(self.f, C))))
        return r

    def dec8(self, v):
        r = sub8(v, 1)
        self.setf(or8(szxy(r), or8(fl(h=cmp_eq(and8(v, 15), 0, 8), p=cmp_eq(v, 0x80, 8), n=True), and8(self.f, C))))
        return r

    def rot(self, k, v):
        c = bit(self.f, 0)
        b7, b0 = bit(v, 7), bit(v, 0)
        L = v << 1 & 255 if type(v) is int else z3.Concat(z3.Extract(6, 0, v), BV(0, 1))
        Rr = v >> 1 if type(v) is int else z3.Concat(BV(0, 1), z3.Extract(7, 1, v))
        if k == 0: r, cf = or8(L, zext1(b7, 8)), b7
        elif k == 1: r, cf = or8(Rr, ite8(b0, 0x80, 0)), b0
        elif k == 2: r, cf = or8(L, zext1(c, 8)), b7
        elif k == 3: r, cf = or8(Rr, ite8(c, 0x80, 0)), b0
        elif k == 4: r, cf = L, b7
        elif k == 5: r, cf = or8(Rr, and8(v, 0x80)), b0
        elif k == 6: r, cf = or8(L, 1), b7
        else: r, cf = Rr, b0
        return r, cf

    def cbop(self, op, v):
        """rotate / RES / SET on a value"""
        x, y = op >> 6, (op >> 3) & 7
        if x == 0:
            r, cf = self.rot(y, v)
            self.setf(or8(szxy(r), fl(p=parity(r), c=cf)))
            return r
        if x == 2:
            return and8(v, 255 ^ (1 << y))
        return or8(v, 1 << y)

    def bitop(self, y, v, xy):
        z = b_not(bit(v, y))
        s = bit(v, 7) if y == 7 else False
        self.setf(or8(or8(fl(z=z, p=z, s=s, h=True), and8(xy, YF | XF)), and8(self.f, C)))

    def add_hl(self, d, v):
        """ADD HL,ss (flags S Z P/V untouched)"""
        w = op_add(None, z17(d), z17(v), 17)
        r = op_trunc(w, 16)
        hf = bit(op_add(None, op_and(None, d, 0xfff, 16), op_and(None, v, 0xfff, 16), 16), 12)
        self.setf(or8(or8(and8(self.f, S | Z | PV), fl(h=hf, c=bit(w, 16))), and8(hi(r), YF | XF)))
        return r

    def adc_hl(self, d, v, sub):
        cy = zext1(bit(self.f, 0), 16)
        o = op_sub if sub else op_add
        w = o(None, o(None, z17(d), z17(v), 17), z17(cy), 17)
        r = op_trunc(w, 16)
        hf = bit(o(None, o(None, op_and(None, d, 0xfff, 16), op_and(None, v, 0xfff, 16), 16), cy, 16), 12)
        x = bool_xor(None, bit(d, 15), bit(v, 15))
        of = bool_and(None, x if sub else b_not(x), bool_xor(None, bit(d, 15), bit(r, 15)))
        self.setf(or8(fl(s=bit(r, 15), z=cmp_eq(r, 0, 16), h=hf, p=of, n=sub, c=bit(w, 16)), and8(hi(r), YF | XF)))
        return r

    def daa(self):
        a, f = self.a, self.f
        c, h, n = bit(f, 0), bit(f, 4), bit(f, 1)
        lo9 = cmp_ugt(and8(a, 15), 9, 8)
        c2 = bool_or(None, c, cmp_ugt(a, 0x99, 8))
        d = or8(ite8(bool_or(None, h, lo9), 6, 0), ite8(c2, 0x60, 0))
        r = ite8(n, sub8(a, d), add8(a, d))
        h2 = bool_or(None, bool_and(None, n, bool_and(None, h, cmp_ult(and8(a, 15), 6, 8))), bool_and(None, b_not(n), lo9))
        self.a = r
        self.setf(or8(or8(szxy(r), fl(p=parity(r), h=h2, c=c2)), and8(f, N)))

    # ---------------------------------------------------------- entry points
    def begin(self):
        if self.fl != 'cmos':
            self.lfm = self.fm
            self.fm = False

    def flush_q(self):
        if self.fl == 'cmos':
            self.fm = self.lfm = True

    def execute_instruction(self, op):
        """the opcode byte `op` was already fetched"""
        self.ei = False
        self.halt = False
        self.begin()
        self.brk = None
        self.halted = False
        self.px = self.prefix
        self.prefix = 0
        self.main(op)
        self.flush_q()
        return self.result()

    def result(self):
        if self.halted:
            return ('halt',)
        if self.brk is not None:
            return self.brk
        return ('ok',)

    def execute_next(self):
        if self.irq_allowed() and self.X.branch(self.env.e_isirq(self.X, self.env.e_now(self.X))):
            return self.accept_irq()
        if self.halt:
            self.ei = False
            self.prefix = 0
            self.env.e_m1(self.X, self.pc)
            self.inc_r()
            self.flush_q()
            return ('ok',)
        return self.execute_instruction(self.fetch_op())

    def fetch_op(self):
        return self.fetch()

    def irq_allowed(self):
        if self.ei or self.prefix:
            return False
        return self.X.branch(self.iff1)

    def nmi_allowed(self):
        return not (self.ei or self.prefix)

    def accept_irq(self):
        self.iff1 = self.iff2 = False
        self.inc_r()
        if self.halt:
            self.pc = add16(self.pc, 1)
            self.halt = False
        ts = self.env.e_irqack(self.X, self.pc)
        vec = self.env.e_irqdata(self.X, self.pc, ts)
        self.wait(self.pc, self.env.last_wait)
        if self.X.branch(cmp_eq(self.im, 0, 8)):
            return self.execute_instruction(self.X.choose(vec, 8) if self.choose_vec else vec)
        if self.X.branch(cmp_eq(self.im, 1, 8)):
            return self.execute_instruction(0xFF)
        ir = self.ir()
        self.nomreq(ir, 1)
        self.push(self.pc)
        self.begin()
        self.brk = None; self.halted = False
        self.pc = self.rd16(w16(self.i, vec))
        self.memptr = self.pc
        self.ei = False
        self.flush_q()
        return ('ok',)

    choose_vec = False

    def irq(self):
        if not self.irq_allowed():
            return ('none',)
        return self.accept_irq()

    def nmi(self):
        if not self.nmi_allowed():
            return ('false',)
        self.iff1 = False
        self.ei = False
        self.inc_r()
        if self.halt:
            self.pc = add16(self.pc, 1)
            self.halt = False
        self.env.e_m1(self.X, self.pc)
        self.nomreq(self.ir(), 1)
        self.push(self.pc)
        self.begin()
        self.pc = 0x66
        self.flush_q()
        return ('true',)

    # ---------------------------------------------------------- decoding
    def indexed(self, d):
        return add16(self.idx(), op_sext(d, 8, 16))

    def mem_operand(self):
        """address of (HL) or (IX+d), reading the displacement"""
        if not self.px:
            return self.pair('hl')
        d = self.imm8()
        self.nomreq(sub16(self.pc, 1), 5)
        a = self.indexed(d)
        self.memptr = a
        return a

    def main(self, op):
        X = self.X
        if type(op) is not int:
            op = X.choose(op, 8)
        x, y, z = op >> 6, (op >> 3) & 7, op & 7
        p, q = y >> 1, y & 1
        if op in (0xDD, 0xFD):
            self.prefix = op
            return
        if op == 0xED:
            self.px = 0
            return self.ed(self.fetch())
        if op == 0xCB:
            return self.cb()
        if x == 1:
            if op == 0x76:
                self.halted = True
                self.halt = True
                self.pc = sub16(self.pc, 1)
                return
            if y == 6:
                a = self.mem_operand()
                self.wr(a, self.get8(z, False))
            elif z == 6:
                a = self.mem_operand()
                self.set8(y, self.rd(a), False)
            else:
                self.set8(y, self.get8(z))
            return
        if x == 2:
            if z == 6:
                self.alu(y, self.rd(self.mem_operand()))
            else:
                self.alu(y, self.get8(z))
            return
        getattr(self, 'x%dz%d' % (x, z))(op, y, p, q)

    def jr(self, d):
        self.nomreq(sub16(self.pc, 1), 5)
        self.pc = add16(self.pc, op_sext(d, 8, 16))
        self.memptr = self.pc

    def jr_cond(self, c):
        if self.X.branch(c):
            self.jr(self.imm8())
        else:
            # the displacement byte is skipped: the memory cycle is still there
            self.skip8()

    def skip8(self):
        self.env.e_mreq(self.X, self.pc)
        self.pc = add16(self.pc, 1)

    def x0z0(self, op, y, p, q):
        if y == 0:
            return
        if y == 1:
            a, f, self.a2, self.f2 = self.a2, self.f2, self.a, self.f
            self.a, self.f = a, f
            return
        if y == 2:
            self.nomreq(self.ir(), 1)
            self.b = sub8(self.b, 1)
            return self.jr_cond(cmp_ne(self.b, 0, 8))
        if y == 3:
            return self.jr(self.imm8())
        return self.jr_cond(self.cond(y - 4))

    def x0z1(self, op, y, p, q):
        if q == 0:
            self.set_rr(p, self.imm16())
        else:
            self.nomreq(self.ir(), 7)
            d = self.idx()
            self.memptr = add16(d, 1)
            self.setidx(self.add_hl(d, self.get_rr(p)))

    def x0z2(self, op, y, p, q):
        if p < 2:
            ad = self.pair('bc' if p == 0 else 'de')
            if q == 0:
                self.memptr = self.mix(self.a, ad)
                self.wr(ad, self.a)
            else:
                self.memptr = add16(ad, 1)
                self.a = self.rd(ad)
            return
        nn = self.imm16()
        if p == 2:
            self.memptr = add16(nn, 1)
            if q == 0:
                v = self.idx()
                self.wr(nn, lo(v)); self.wr(add16(nn, 1), hi(v))
            else:
                self.setidx(self.rd16(nn))
        elif q == 0:
            self.memptr = self.mix(self.a, nn)
            self.wr(nn, self.a)
        else:
            self.memptr = add16(nn, 1)
            self.a = self.rd(nn)

    def mix(self, a, ad):
        """MEMPTR after LD (rp/nn),A and OUT (n),A"""
        l = add8(lo(ad), 1)
        return w16(0 if self.fl == 'bm1' else a, l)

    def x0z3(self, op, y, p, q):
        self.nomreq(self.ir(), 2)
        v = self.get_rr(p)
        self.set_rr(p, add16(v, 1 if q == 0 else 0xffff))

    def x0z4(self, op, y, p, q, dec=False):
        f = self.dec8 if dec else self.inc8
        if y == 6:
            a = self.mem_operand()
            v = f(self.rd(a))
            self.nomreq(a, 1)
            self.wr(a, v)
        else:
            self.set8(y, f(self.get8(y)))

    def x0z5(self, op, y, p, q):
        self.x0z4(op, y, p, q, True)

    def x0z6(self, op, y, p, q):
        if y != 6:
            self.set8(y, self.imm8())
        elif not self.px:
            n = self.imm8()
            self.wr(self.pair('hl'), n)
        else:
            d = self.imm8()
            n = self.imm8()
            self.nomreq(sub16(self.pc, 1), 2)
            a = self.indexed(d)
            self.memptr = a
            self.wr(a, n)

    def x0z7(self, op, y, p, q):
        f, a = self.f, self.a
        if y < 4:
            r, cf = self.rot(y, a)
            self.a = r
            self.setf(or8(or8(and8(f, S | Z | PV), and8(r, YF | XF)), fl(c=cf)))
        elif y == 4:
            self.daa()
        elif y == 5:
            self.a = xor8(a, 255)
            self.setf(or8(or8(and8(f, S | Z | PV | C), H | N), and8(self.a, YF | XF)))
        else:
            # SCF / CCF: X and Y come from A, or-ed with F when the previous
            # instruction did not touch the flags (NMOS-type parts)
            xy = a
            if self.fl != 'cmos':
                xy = ite8(self.lfm, a, or8(a, f))
            if y == 6:
                nf = or8(and8(f, S | Z | PV), C)
            else:
                nf = or8(and8(f, S | Z | PV), fl(c=b_not(bit(f, 0)), h=bit(f, 0)))
            self.setf(or8(nf, and8(xy, YF | XF)))

    def x3z0(self, op, y, p, q):
        self.nomreq(self.ir(), 1)
        if self.X.branch(self.cond(y)):
            self.pc = self.memptr = self.pop()

    def x3z1(self, op, y, p, q):
        if q == 0:
            return self.set_rr(p, self.pop(), True)
        if p == 0:
            self.pc = self.memptr = self.pop()
        elif p == 1:
            for n in 'bcdehl':
                t = getattr(self, n)
                setattr(self, n, getattr(self, n + '2'))
                setattr(self, n + '2', t)
        elif p == 2:
            self.pc = self.idx()
        else:
            self.nomreq(self.ir(), 2)
            self.sp = self.idx()

    def x3z2(self, op, y, p, q):
        nn = self.imm16()
        self.memptr = nn
        if self.X.branch(self.cond(y)):
            self.pc = nn

    def x3z3(self, op, y, p, q):
        if y == 0:
            self.pc = self.memptr = self.imm16()
        elif y == 2:
            n = self.imm8()
            self.memptr = self.mix(self.a, n if type(n) is int else z3.ZeroExt(8, n))
            self.out(w16(self.a, n), self.a)
        elif y == 3:
            n = self.imm8()
            port = w16(self.a, n)
            self.memptr = add16(port, 1)
            self.a = self.inp(port)
        elif y == 4:
            sp1 = add16(self.sp, 1)
            v = self.rd16(self.sp)
            self.nomreq(sp1, 1)
            o = self.idx()
            self.wr(sp1, hi(o))
            self.wr(self.sp, lo(o))
            self.nomreq(self.sp, 2)
            self.memptr = v
            self.setidx(v)
        elif y == 5:
            self.d, self.e, self.h, self.l = self.h, self.l, self.d, self.e
        elif y == 6:
            self.iff1 = self.iff2 = False
        else:
            self.iff1 = self.iff2 = True
            self.ei = True

    def call(self, nn):
        self.nomreq(sub16(self.pc, 1), 1)
        self.push(self.pc)
        self.pc = nn

    def x3z4(self, op, y, p, q):
        nn = self.imm16()
        self.memptr = nn
        if self.X.branch(self.cond(y)):
            self.call(nn)

    def x3z5(self, op, y, p, q):
        if q == 0:
            self.nomreq(self.ir(), 1)
            self.push(self.get_rr(p, True))
        else:
            nn = self.imm16()
            self.memptr = nn
            self.call(nn)

    def x3z6(self, op, y, p, q):
        self.alu(y, self.imm8())

    def x3z7(self, op, y, p, q):
        self.nomreq(self.ir(), 1)
        self.push(self.pc)
        self.pc = self.memptr = y * 8

    # ---------------------------------------------------------- CB
    def cb(self):
        if self.px:
            d = self.imm8()
            op = self.rd(self.pc)
            self.nomreq(self.pc, 2)
            self.pc = add16(self.pc, 1)
            if type(op) is not int:
                op = self.X.choose(op, 8)
            a = self.indexed(d)
            self.memptr = a
            v = self.rd(a)
            self.nomreq(a, 1)
            if op >> 6 == 1:
                return self.bitop((op >> 3) & 7, v, hi(a))
            r = self.cbop(op, v)
            self.wr(a, r)
            if op & 7 != 6:
                self.set8(op & 7, r, False)
            return
        op = self.fetch()
        if type(op) is not int:
            op = self.X.choose(op, 8)
        z = op & 7
        if z == 6:
            a = self.pair('hl')
            v = self.rd(a)
            self.nomreq(a, 1)
            if op >> 6 == 1:
                return self.bitop((op >> 3) & 7, v, hi(self.memptr))
            r = self.cbop(op, v)
            self.wr(a, r)
        else:
            v = self.get8(z)
            if op >> 6 == 1:
                return self.bitop((op >> 3) & 7, v, v)
            self.set8(z, self.cbop(op, v))

    # ---------------------------------------------------------- ED
    def ed(self, op):
        X = self.X
        if type(op) is not int:
            op = X.choose(op, 8)
        x, y, z = op >> 6, (op >> 3) & 7, op & 7
        p, q = y >> 1, y & 1
        if x == 1:
            if z == 0:
                port = self.pair('bc')
                v = self.inp(port)
                self.memptr = add16(port, 1)
                self.setf(or8(or8(szxy(v), fl(p=parity(v))), and8(self.f, C)))
                if y != 6:
                    self.set8(y, v)
            elif z == 1:
                port = self.pair('bc')
                self.memptr = add16(port, 1)
                v = self.get8(y) if y != 6 else (0xFF if self.fl == 'cmos' else 0)
                self.out(port, v)
            elif z == 2:
                self.nomreq(self.ir(), 7)
                d = self.pair('hl')
                self.memptr = add16(d, 1)
                self.setpair('hl', self.adc_hl(d, self.get_rr(p), q == 0))
            elif z == 3:
                nn = self.imm16()
                self.memptr = add16(nn, 1)
                if q == 0:
                    v = self.get_rr(p)
                    self.wr(nn, lo(v)); self.wr(add16(nn, 1), hi(v))
                else:
                    self.set_rr(p, self.rd16(nn))
            elif z == 4:
                v = self.a
                self.a = 0
                self.alu(2, v)
            elif z == 5:
                if y == 1:
                    self.env.e_reti(X, self.pc, self.env.e_now(X))
                    self.brk = ('reti',) + self.env.last_rbrk
                self.iff1 = self.iff2      # on every RETN/RETI decoding
                self.pc = self.memptr = self.pop()
            elif z == 6:
                self.im = [0, 0, 1, 2][y & 3]
            else:
                self.ed_misc(y)
            return
        if x == 2 and z < 4 and y >= 4:
            return [self.ldx, self.cpx, self.inx, self.outx][z](1 if y & 1 == 0 else 0xffff, y >= 6)
        # everything else is a two-byte NOP

    def ed_misc(self, y):
        if y < 4:
            self.nomreq(self.ir(), 1)
            if y == 0: self.i = self.a
            elif y == 1: self.r = self.a
            else:
                v = self.i if y == 2 else self.r
                iff2 = self.iff2
                if self.fl == 'nmos':
                    # NMOS defect: an interrupt being accepted right now clears
                    # IFF2 before it is copied into P/V
                    if self.X.branch(bool_and(None, self.iff2, self.iff1)):
                        iff2 = b_not(self.env.e_isirq(self.X, self.env.e_now(self.X)))
                self.a = v
                self.setf(or8(or8(szxy(v), fl(p=iff2)), and8(self.f, C)))
        elif y < 6:
            hl = self.pair('hl')
            self.memptr = add16(hl, 1)
            v = self.rd(hl)
            self.nomreq(hl, 4)
            an, vh, vl = and8(self.a, 15), nib(v, 1), nib(v, 0)
            ah = and8(self.a, 0xf0)
            if y == 4:      # RRD: A.lo <- v.lo, v <- A.lo:v.hi
                r = or8(shl4(an), vh); na = or8(ah, vl)
            else:           # RLD: A.lo <- v.hi, v <- v.lo:A.lo
                r = or8(shl4(vl), an); na = or8(ah, vh)
            self.a = na
            self.setf(or8(or8(szxy(na), fl(p=parity(na))), and8(self.f, C)))
            self.wr(hl, r)

    def step_pair(self, n, d):
        self.setpair(n, add16(self.pair(n), d))

    def repeat(self, addr, cond, mp=True):
        if self.X.branch(cond):
            self.nomreq(addr, 5)
            self.pc = sub16(self.pc, 2)
            if mp:
                self.memptr = add16(self.pc, 1)
            return True
        return False

    def ldx(self, d, rep):
        hl, de = self.pair('hl'), self.pair('de')
        v = self.rd(hl)
        self.wr(de, v)
        self.nomreq(de, 2)
        self.step_pair('hl', d); self.step_pair('de', d); self.step_pair('bc', 0xffff)
        n = add8(self.a, v)
        more = cmp_ne(self.pair('bc'), 0, 16)
        self.setf(or8(and8(self.f, S | Z | C), fl(p=more, x=bit(n, 3), y=bit(n, 1))))
        if rep:
            self.repeat(de, more)

    def cpx(self, d, rep):
        hl = self.pair('hl')
        v = self.rd(hl)
        self.nomreq(hl, 5)
        self.step_pair('hl', d); self.step_pair('bc', 0xffff)
        r = sub8(self.a, v)
        hf = bit(sub8(and8(self.a, 15), and8(v, 15)), 4)
        n = sub8(r, zext1(hf, 8))
        more = cmp_ne(self.pair('bc'), 0, 16)
        z = cmp_eq(r, 0, 8)
        self.setf(or8(and8(self.f, C), fl(s=bit(r, 7), z=z, h=hf, p=more, n=True, x=bit(n, 3), y=bit(n, 1))))
        if not (rep and self.repeat(hl, bool_and(None, more, b_not(z)))):
            self.memptr = add16(self.memptr, d)

    def io_flags(self, v, k):
        """v: the byte moved, k: the value added to it for H and C"""
        s = op_add(None, z9(v), z9(k), 9)
        cy = bit(s, 8)
        b = self.b
        self.setf(or8(szxy(b), fl(n=bit(v, 7), h=cy, c=cy, p=parity(xor8(and8(op_trunc(s, 8), 7), b)))))

    def inx(self, d, rep):
        self.nomreq(self.ir(), 1)
        bc, hl = self.pair('bc'), self.pair('hl')
        v = self.inp(bc)
        self.wr(hl, v)
        self.memptr = add16(bc, d)
        self.b = sub8(self.b, 1)
        self.step_pair('hl', d)
        self.io_flags(v, add8(self.c, d & 255))
        if rep:
            self.repeat(hl, cmp_ne(self.b, 0, 8), False)

    def outx(self, d, rep):
        self.nomreq(self.ir(), 1)
        hl = self.pair('hl')
        v = self.rd(hl)
        self.b = sub8(self.b, 1)
        bc = self.pair('bc')
        self.memptr = add16(bc, d)
        self.step_pair('hl', d)
        self.io_flags(v, self.l)
        self.out(bc, v)
        if rep:
            self.repeat(bc, cmp_ne(self.b, 0, 8), False)


def nib(v, k):
    return (v >> 4 * k) & 15 if type(v) is int else z3.ZeroExt(4, z3.Extract(4 * k + 3, 4 * k, v))


def shl4(v):
    return (v << 4) & 255 if type(v) is int else z3.Concat(z3.Extract(3, 0, v), BV(0, 4))
