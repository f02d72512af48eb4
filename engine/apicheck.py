"""Checks of the accessor API, Z80Any, flavour conversions, value types, host
defaults, forwarding macros and the disassembler."""
import z3
import llir
from llir import Unsupported, bv, op_zext, zext1
from task import Task
from cpucheck import (CpuTask, PairTask, CpuEnv, LimitEnv, compare_events, compare_dbg, model_p, PSIZE, U16, U8, FACET, w16, hi, lo)
from z80ref import Ref
import disref

AND = lambda a, b, w: llir.op_and(None, a, b, w)
OR = lambda a, b, w: llir.op_or(None, a, b, w)
ADD = lambda a, b, w: llir.op_add(None, a, b, w)
SUB = lambda a, b, w: llir.op_sub(None, a, b, w)
XOR = lambda a, b, w: llir.op_xor(None, a, b, w)


def z64(v, w):
    return op_zext(v, w, 64) if w != 64 else v


def cat2(h, l):
    return z64(w16(h, l), 16)


STKN = ['bc', 'de', 'hl', 'af']
R8N = 'bcdehl?a'


class ApiTask(CpuTask):
    """one accessor on an arbitrary CPU state (built through the API), observed
    completely afterwards; against a record-with-fields model"""

    def __init__(self, prog, fl, op, s=0, p=0, get=False, wrapped=False, fixed=None):
        CpuTask.__init__(self, prog, fl, 'api', fixed=fixed)
        self.aop, self.s, self.p, self.get, self.wrapped = op, s, p, get, wrapped

    def describe(self):
        return '%s%s %s %d s=%d p=%d %s' % ('any/' if self.wrapped else '', self.fl, 'get' if self.get else 'set', self.aop, self.s, self.p, self.fixed)

    def inputs(self):
        st = CpuTask.inputs(self)
        st['v'] = z3.BitVec('v', 64)
        return st

    def left(self, ctx):
        fl, cpu = self.fl, ctx.cpu
        if self.wrapped:
            a = ctx.alloc(ctx.call('any_size'))
            ctx.call('wrap_' + fl, a, cpu, 0)
            fl, cpu = 'any', a
        if self.get:
            r = ctx.call(fl + '_get', cpu, self.aop, self.s, self.p)
        else:
            r = 0
            ctx.call(fl + '_set', cpu, self.aop, self.s, self.p, ctx.st['v'])
        ctx.call(fl + '_obs', cpu, ctx.p)
        from cpucheck import read_p
        return r, read_p(ctx, ctx.p)

    def right(self, ctx):
        st = {k: v for k, v in ctx.st.items() if k != 'v'}
        from cpucheck import model_state
        m = Ref(ctx.X, ctx.env, self.fl, model_state(st, self.fl))
        v = ctx.st['v']
        r = 0
        if self.get:
            r = self.mget(m)
        else:
            self.mset(m, v, ctx)
        return r, model_p(m)

    def ix(self, m, part):
        i = 'ix' if self.p == 1 else 'iy'
        return i

    def mget(self, m):
        o, s, p = self.aop, self.s, self.p
        P = model_p(m)
        if o == 7:
            return OR(z64(P['iff1'], 8), llir.op_shl(None, z64(P['iff2'], 8), 1, 64), 64)
        if o == 10:
            n = R8N[s]
            if p and n in 'hl':
                x = P['ix' if p == 1 else 'iy']
                return z64(hi(x) if n == 'h' else lo(x), 8)
            return z64(getattr(m, n), 8)
        one = {0: ('pc', 16), 1: ('sp', 16), 4: ('r7', 8), 5: ('i', 8), 6: ('ir', 16), 8: ('halt', 8), 9: ('im', 8), 17: ('irq_ok', 8),
               18: ('nmi_ok', 8), 19: ('ei', 8), 20: ('after_pfx', 8), 21: ('prefix', 8), 22: ('memptr', 16)}
        if o in one:
            n, w = one[o]
            return z64(P[n], w)
        if o == 2:
            return z64(m.a, 8)
        if o == 3:
            return z64(m.f, 8)
        if o in (11, 13):
            return z64(P[STKN[s]], 16)
        if o in (12, 14):
            return z64(P[STKN[s] + '2'], 16)
        return z64(P['ix' if p == 1 else 'iy'], 16)

    def mset(self, m, v, ctx):
        o, s, p = self.aop, self.s, self.p
        v8, v16 = llir.op_trunc(v, 8), llir.op_trunc(v, 16)
        vh = llir.op_trunc(llir.op_lshr(None, v, 8, 64), 8)
        bit = lambda k: llir.cmp_ne(AND(v, k, 64), 0, 64)
        if o == 0: m.pc = v16
        elif o == 1: m.sp = v16
        elif o == 2: m.a = v8
        elif o == 3: m.f = v8
        elif o == 4: m.r = v8
        elif o == 5: m.i = v8
        elif o in (6, 12):
            m.r = OR(AND(m.r, 0x80, 8), AND(ADD(m.r, 1 if o == 6 else v8, 8), 0x7f, 8), 8)
        elif o == 7: m.iff1, m.iff2 = bit(1), bit(2)
        elif o == 8: m.halt = True
        elif o == 9: m.im = s
        elif o == 10:
            n = R8N[s]
            if p and n in 'hl':
                x = 'ix' if p == 1 else 'iy'
                y = getattr(m, x)
                setattr(m, x, w16(v8, lo(y)) if n == 'h' else w16(hi(y), v8))
            else:
                setattr(m, n, v8)
        elif o in (11, 13):
            n = STKN[s]
            setattr(m, n[0], vh); setattr(m, n[1], v8)
        elif o in (15, 16):
            setattr(m, 'ix' if p == 1 else 'iy', v16)
        elif o == 14:
            for n in 'af':
                x, y = getattr(m, n), getattr(m, n + '2')
                setattr(m, n, y); setattr(m, n + '2', x)
        elif o == 17:
            for n in 'bcdehl':
                x, y = getattr(m, n), getattr(m, n + '2')
                setattr(m, n, y); setattr(m, n + '2', x)
        elif o == 18: m.iff1 = m.iff2
        elif o == 19: m.iff1 = m.iff2 = False
        elif o == 20: m.iff1 = m.iff2 = m.ei = True
        elif o == 22: m.memptr = v16
        elif o == 23:
            reset_model(m)

    def compare(self, c, lctx, rctx, lo_, ro):
        compare_events(c, lctx.env, rctx.env)
        c.eq('res', 'value', lo_[0], ro[0], 64)
        self.compare_state(c, lo_[1], ro[1])


def reset_model(m):
    for n in 'bcdehl':
        setattr(m, n, 0); setattr(m, n + '2', 0)
    m.a = m.f = m.a2 = m.f2 = 0xFF
    m.ix = m.iy = m.pc = m.memptr = 0
    m.sp = 0xFFFF
    m.i = m.r = m.im = 0
    m.iff1 = m.iff2 = m.halt = m.ei = False
    m.prefix = 0
    m.fm = m.lfm = m.fl == 'cmos'


class FreshTask(CpuTask):
    """new(), default()+reset, Z80Any constructors: the reset state; and what
    one instruction does from it"""

    def __init__(self, prog, fl, how, fixed=None):
        CpuTask.__init__(self, prog, fl, 'fresh', fixed=fixed)
        self.how = how

    def describe(self):
        return '%s fresh by %s' % (self.fl, self.how)

    def left(self, ctx):
        fl, cpu = self.fl, ctx.cpu
        if self.how == 'init':
            ctx.call(fl + '_init', cpu)
        elif self.how == 'fresh':
            ctx.call(fl + '_fresh', cpu)
        else:
            cpu = ctx.alloc(ctx.call('any_size'))
            ctx.call('any_ctor', cpu, self.how)
            fl = 'any'
        ctx.call(fl + '_obs', cpu, ctx.p)
        from cpucheck import read_p
        return 0, read_p(ctx, ctx.p)

    def right(self, ctx):
        from cpucheck import model_state
        m = Ref(ctx.X, ctx.env, self.fl, model_state(ctx.st, self.fl))
        reset_model(m)
        if self.how == 3:          # Z80Any::default(): all zero
            m.a = m.f = m.a2 = m.f2 = 0
            m.sp = 0
        return 0, model_p(m)

    def compare(self, c, l, r, lo_, ro):
        self.compare_state(c, lo_[1], ro[1])


class AnyTask(PairTask):
    """the same entry point of a flavour, directly and wrapped in Z80Any"""

    def describe(self):
        return PairTask.describe(self) + ' in Z80Any'

    def make_env(self, resp, side):
        if self.entry != 'limit':
            return CpuEnv(resp, True)
        e = LimitEnv(resp, True)
        e.k = 2
        return e

    def prepare(self, ctx, side):
        PairTask.prepare(self, ctx, side)
        if side == 'right':
            a = ctx.alloc(ctx.call('any_size'))
            ctx.call('wrap_' + self.fl, a, ctx.cpu, 0)
            ctx.cpu = a

    def right(self, ctx):
        rc = self.enter(ctx, 'any', self.entry)
        return rc, self.observe(ctx, 'any')

    def compare(self, c, lctx, rctx, lo_, ro):
        PairTask.compare(self, c, lctx, rctx, lo_, ro)
        a, b = lctx.env.dbg, rctx.env.dbg
        if len(a) != len(b):
            c.mismatch('dbg', 'the debugger was called differently')
        for x, y in zip(a, b):
            for i, (u, v) in enumerate(zip(x, y)):
                if isinstance(u, str):
                    if u != v:
                        c.mismatch('dbg', '%s vs %s' % (u, v))
                else:
                    c.eq('dbg', 'debug field %d' % i, u, v, {1: 16, 4: 8}.get(i, 32) if x[0] == 'dbg' else 32)


class ConvTask(CpuTask):
    """flavour conversions: all CPU state is kept; the SCF/CCF state is kept
    between NMOS and BM1 and cleared by the way through CMOS"""

    def __init__(self, prog, a, b, how, fixed=None):
        CpuTask.__init__(self, prog, a, 'conv', fixed=fixed)
        self.b, self.how = b, how

    def describe(self):
        return 'convert %s to %s by %s %s' % (self.fl, self.b, self.how, self.fixed)

    def left(self, ctx):
        K = {'nmos': 0, 'cmos': 1, 'bm1': 2}
        fl, b, how = self.fl, self.b, self.how
        tag = None
        if how in ('into', 'from'):
            d = ctx.alloc(ctx.call(b + '_size'))
            ctx.call('conv_%s_%s' % (fl, b), d, ctx.cpu, 0 if how == 'into' else 1)
            out = b
        else:
            a = ctx.alloc(ctx.call('any_size'))
            ctx.call('wrap_' + fl, a, ctx.cpu, 1 if how.endswith('2') else 0)
            if how == 'any_from':
                d = ctx.alloc(ctx.call(b + '_size'))
                ctx.call('from_any_' + b, d, a)
                out = b
            else:
                ctx.call('any_into', a, K[b])
                t = ctx.alloc(8, [0] * 8)
                k = ctx.call('any_kind', a, t)
                tag = (k & 0xffffffff if type(k) is int else k, [ctx.load(t + i, 1) for i in range(8)])
                if how.startswith('any_unwrap'):
                    d = ctx.alloc(ctx.call(b + '_size'))
                    ctx.call('unwrap_' + b, d, a, 1 if how.endswith('2') else 0)
                    out = b
                else:
                    d, out = a, 'any'
        ctx.call(out + '_obs', d, ctx.p)
        from cpucheck import read_p
        return tag, read_p(ctx, ctx.p)

    def right(self, ctx):
        from cpucheck import model_state
        m = Ref(ctx.X, ctx.env, self.fl, model_state(ctx.st, self.fl))
        if self.b == 'cmos':
            m.fm = m.lfm = True
        elif self.fl == 'cmos':
            m.fm = m.lfm = False
        n = {'nmos': 'NMOS', 'cmos': 'CMOS', 'bm1': 'BM1'}[self.b]
        k = {'nmos': 0, 'cmos': 1, 'bm1': 2}[self.b]
        return (k | 0x100 << k | len(n) << 16, list(n.encode().ljust(8, b'\0'))), model_p(m)

    def compare(self, c, l, r, lo_, ro):
        if lo_[0] is not None:
            c.eq('res', 'variant and predicates', lo_[0][0], ro[0][0], 32)
            for i, (a, b) in enumerate(zip(lo_[0][1], ro[0][1])):
                c.eq('res', 'tag[%d]' % i, a, b, 8)
        self.compare_state(c, lo_[1], ro[1])


class EqTask(CpuTask):
    """clone() is a copy equal to the original, unaffected by later changes"""
    def __init__(self, prog, fl, wrapped=False, fixed=None):
        CpuTask.__init__(self, prog, fl, 'clone', fixed=fixed)
        self.wrapped = wrapped

    def describe(self):
        return 'clone of %s%s' % (self.fl, ' in Z80Any' if self.wrapped else '')

    def left(self, ctx):
        from cpucheck import read_p
        fl, cpu = self.fl, ctx.cpu
        n = ctx.call(fl + '_size')
        if self.wrapped:
            n = ctx.call('any_size')
            a = ctx.alloc(n)
            ctx.call('wrap_' + fl, a, cpu, 0)
            fl, cpu = 'any', a
        d = ctx.alloc(n)
        ctx.call(fl + '_clone', d, cpu)
        e = ctx.call(fl + '_eq', cpu, d)
        ctx.call(fl + '_set', cpu, 23, 0, 0, 0)
        ctx.call(fl + '_obs', d, ctx.p)
        return e, read_p(ctx, ctx.p)

    def right(self, ctx):
        from cpucheck import model_state
        return 1, model_p(Ref(ctx.X, ctx.env, self.fl, model_state(ctx.st, self.fl)))

    def compare(self, c, l, r, lo_, ro):
        c.eq('res', 'clone == original', lo_[0] & 0xff if type(lo_[0]) is int else llir.op_trunc(lo_[0], 8), 1, 8)
        self.compare_state(c, lo_[1], ro[1])


class TagTask(Task):
    """Z80Any::with_tag on arbitrary ASCII text of n bytes"""
    def __init__(self, prog, n):
        Task.__init__(self, prog)
        self.n = n

    def describe(self):
        return 'with_tag on any %d bytes' % self.n

    def make_env(self, resp, side):
        return CpuEnv(resp, side == 'left')

    def inputs(self):
        return {'b%d' % i: z3.BitVec('b%d' % i, 8) for i in range(self.n)}

    def constraints(self, st):
        return [z3.ULE(st['b%d' % i], 0x7f) for i in range(self.n)]

    def left(self, ctx):
        a = ctx.alloc(ctx.call('any_size'))
        s = ctx.alloc(self.n, [ctx.st['b%d' % i] for i in range(self.n)])
        r = ctx.call('any_with_tag', a, s, self.n)
        r = r & 0xffffffff if type(r) is int else r
        some = ctx.X.branch(llir.cmp_ne(r, 0, 32))
        if not some:
            return 0, 0
        t = ctx.alloc(8, [0] * 8)
        k = ctx.call('any_kind', a, t)
        return 1, k & 0xffffffff if type(k) is int else k

    def right(self, ctx):
        for k, n in enumerate(('NMOS', 'CMOS', 'BM1')):
            if len(n) == self.n:
                conds = [llir.bool_or(None, llir.cmp_eq(ctx.st['b%d' % i], ord(ch), 8), llir.cmp_eq(ctx.st['b%d' % i], ord(ch.lower()), 8)) for i, ch in enumerate(n)]
                ok = True
                for x in conds:
                    ok = llir.bool_and(None, ok, x)
                if ctx.X.branch(ok):
                    return 1, k | 0x100 << k | len(n) << 16
        return 0, 0

    def compare(self, c, l, r, lo_, ro):
        c.eq('res', 'accepted', lo_[0], ro[0], 8)
        c.eq('res', 'variant', lo_[1], ro[1], 32)


# --------------------------------------------------------------------- values
class FnTask(Task):
    """fn(in: *const u64, out: *mut u64) against a Python function on terms"""
    def __init__(self, prog, fn, model, ins, nout, fixed=None):
        Task.__init__(self, prog)
        self.fn, self.model, self.ins, self.nout, self.fixed = fn, model, ins, nout, fixed or {}

    def describe(self):
        return '%s %s' % (self.fn, self.fixed or '')

    def make_env(self, resp, side):
        return CpuEnv(resp, side == 'left')

    def inputs(self):
        return {'x%d' % i: self.fixed.get(i, z3.BitVec('x%d' % i, w)) for i, w in enumerate(self.ins)}

    def left(self, ctx):
        i = ctx.alloc(8 * max(1, len(self.ins)))
        for k, w in enumerate(self.ins):
            ctx.store(i + 8 * k, z64(ctx.st['x%d' % k], w), 8)
        o = ctx.alloc(8 * self.nout)
        for k in range(self.nout):
            ctx.store(o + 8 * k, 0, 8)
        ctx.call(self.fn, i, o)
        return [ctx.load(o + 8 * k, 8) for k in range(self.nout)]

    def right(self, ctx):
        return globals()['m_' + self.model](*[ctx.st['x%d' % k] for k in range(len(self.ins))])

    def compare(self, c, l, r, lo_, ro):
        assert len(ro) == self.nout, (len(ro), self.nout)
        for k, (a, (b, w)) in enumerate(zip(lo_, ro)):
            c.eq('res', 'output %d' % k, a, z64(b, w), 64)


def ite(c, a, b, w):
    return llir.select(None, c, a, b, w)


def optv(cases, x):
    """Some(v) for the listed values, None otherwise"""
    r = 0
    for k, v in cases.items():
        r = ite(llir.cmp_eq(x, k, 8), 0x100 | v, r, 64)
    return r


def ssum(s):
    v = len(s)
    for b in s.encode():
        v = (v << 8 | b) & (1 << 64) - 1
    return v


def m_prefix(x):
    r = optv({0xDD: 0xDD, 0xFD: 0xFD}, x)
    return [(r, 64), (r, 64)]


def m_im(x):
    r = optv({0: 0, 1: 1, 2: 2}, x)
    return [(r, 64), (r, 64), (0, 64)]


def tab(x, mask, t):
    r = 0
    y = AND(x, mask, 8)
    for k, v in t.items():
        r = ite(llir.cmp_eq(y, k, 8), v, r, 64)
    return r


def m_reg8(x):
    n = {0: 'B', 1: 'C', 2: 'D', 3: 'E', 4: 'H', 5: 'L', 7: 'A'}
    c = tab(x, 7, {k: 0x100 | k for k in n})
    return [(c, 64), (c, 64), (tab(x, 7, {k: ssum(v) for k, v in n.items()}), 64)]


def m_r16(names):
    def f(x):
        c = AND(x, 0x30, 8)
        return [(c, 8), (c, 8), (tab(x, 0x30, {i << 4: ssum(n) for i, n in enumerate(names)}), 64)]
    return f


m_reg16 = m_r16(['BC', 'DE', 'HL', 'SP'])
m_stk16 = m_r16(['BC', 'DE', 'HL', 'AF'])
CONDS = ['NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M']


def m_cond(x, f):
    c = AND(x, 0x38, 8)
    j = AND(x, 0x18, 8)

    def sat(code):
        r = 0
        for k, m in enumerate((0x40, 0x01, 0x04, 0x80)):
            s = llir.cmp_ne(AND(f, m, 8), 0, 8)
            r = ite(llir.cmp_eq(code, k << 4, 8), zext1(llir.b_not(s), 8), r, 8)
            r = ite(llir.cmp_eq(code, k << 4 | 8, 8), zext1(s, 8), r, 8)
        return r
    return [(c, 8), (c, 8), (tab(x, 0x38, {i << 3: ssum(n) for i, n in enumerate(CONDS)}), 64), (j, 8), (sat(c), 8), (sat(j), 8)]


def m_condstr(n, *b):
    r = 0
    for i, s in enumerate(CONDS):
        if len(s) == n:
            ok = True
            for k, ch in enumerate(s):
                ok = llir.bool_and(None, ok, llir.cmp_eq(b[k], ord(ch), 8))
            r = ite(ok, 0x100 | i << 3, r, 64)
    return [(r, 64)]


def m_opc(b, x):
    """the encodings of the Zilog manual"""
    y = AND(x, 0x38, 8)

    def one_of(codes):
        r = False
        for c in codes:
            r = llir.bool_or(None, r, llir.cmp_eq(b, c, 8))
        return (zext1(r, 8), 8)
    out = [one_of([base + 8 * k for k in range(n)]) for base, n in ((0xC0, 8), (0xC4, 8), (0xC2, 8), (0x20, 4), (0xC7, 8), (0x45, 8))]
    out += [(OR(y, base, 8), 8) for base in (0xC0, 0xC4, 0xC2)] + [(OR(AND(y, 0x18, 8), 0x20, 8), 8), (OR(y, 0xC7, 8), 8)]
    out += [(v, 8) for v in (0xED, 0xDD, 0xFD, 0x00, 0x76, 0xF3, 0xFB, 0xC9, 0xED, 0x4D, 0xED, 0x45, 0xCD, 0xC3, 0x18, 0xC7, 0xCF, 0xD7, 0xDF, 0xE7, 0xEF,
                             0xF7, 0xFF, 0x10, 4, 3, 1, 4, 2, 6)]
    return out


def m_flags(f):
    t = lambda m: (zext1(llir.cmp_ne(AND(f, m, 8), 0, 8), 8), 8)
    return [t(0x80), t(0x40), t(0x10), t(0x04), t(0x02), t(0x01), (0, 8)]


def m_masks(r, bb):
    b = [llir.cmp_ne(AND(bb, 1 << k, 8), 0, 8) for k in range(3)]
    m = lambda c, v: ite(c, v, 0, 8)
    par = 0
    for k in range(8):
        par = XOR(par, AND(llir.op_lshr(None, r, k, 8), 1, 8), 8)
    z = llir.cmp_eq(r, 0, 8)
    out = [OR(OR(m(b[0], 1), m(b[1], 4), 8), m(b[2], 0x40), 8), AND(r, 0x80, 8), m(z, 0x40), m(b[0], 1), m(b[0], 2), m(b[0], 0x10), m(b[0], 0x11),
           m(b[0], 4), m(llir.cmp_eq(par, 0, 8), 4), AND(r, 0x28, 8), AND(r, 0xA8, 8),
           4, 4, 0x28, 0x80, 0x40, 0x20, 0x10, 0x08, 4, 2, 1, 0x0F]
    return [(x, 8) for x in out]


def m_pair(v, w, h, l):
    def al(x):
        H, L = hi(x), lo(x)
        r = z64(x, 16)
        for k, y in ((16, H), (24, L), (32, H), (40, L)):
            r = OR(r, llir.op_shl(None, z64(y, 8), k, 64), 64)
        return (r, 64)
    d = SUB(v, 1, 16)
    return [al(v), al(v), al(w16(h, l)), al(w16(h, l)), al(w), al(w16(h, lo(v))), al(w16(hi(v), l)), al(w16(h, l)), al(ADD(v, 1, 16)), al(ADD(v, w, 16)),
            al(d), al(d), (zext1(llir.cmp_eq(d, 0, 16), 8), 8), al(w16(lo(XOR(v, w, 16)), hi(v))), al(w16(ADD(hi(v), h, 8), lo(v))),
            al(w16(hi(v), ADD(lo(v), l, 8))), al(w16(h, lo(v))), al(w16(hi(v), l)), (zext1(llir.cmp_eq(v, w, 16), 8), 8), al(0)]


def m_tsc(w, signed):
    def f(s, l, a, n):
        def out(x):
            if signed and w < 64:
                return (llir.op_sext(x, w, 64), 64)
            return (x, w)
        add = lambda k: out(ADD(s, k, w))
        n8 = OR(llir.op_trunc(n, 8), 1, 8)
        n16 = OR(llir.op_trunc(n, 16), 1, 16) if w != 16 or True else n
        ext = lambda x, k: op_zext(x, k, w) if w > k else x
        past = llir.b_not((llir.cmp_slt if signed else llir.cmp_ult)(s, l, w))
        return [(zext1(past, 8), 8), out(s), add(2), add(6), add(4), add(4), add(3), add(3), add(1), add(4),
                out(ADD(s, ext(n8, 8), w)), out(ADD(s, ext(n16, 16), w)), out(s), out(s), out(ADD(s, l, w)), out(ADD(s, l, w)), out(0)]
    return f


m_tsc_u32, m_tsc_i32, m_tsc_u64, m_tsc_i64, m_tsc_u16 = m_tsc(32, 0), m_tsc(32, 1), m_tsc(64, 0), m_tsc(64, 1), m_tsc(16, 0)


def m_cause(k, v):
    s = ['a HALT instruction was executed', 'an I/O write operation has requested a break',
         'a break was requested at the end of an interrupt service routine'][k]
    x = len(s)
    for b in s.encode():
        x = (x * 31 + b) & (1 << 64) - 1
    return [(x, 64)]


# ------------------------------------------------------- forwarding and defaults
class FwdTask(Task):
    """a wrapper's method against the wrapped object's"""
    def __init__(self, prog, fn, how, k):
        Task.__init__(self, prog)
        self.fn, self.how, self.k = fn, how, k

    def describe(self):
        return '%s wrapper %d method %d' % (self.fn, self.how, self.k)

    def make_env(self, resp, side):
        return FwdEnv(resp, True)

    def inputs(self):
        # the timestamp is an opaque value handed out by a clock
        return {'a': z3.BitVec('a', 16), 'd': z3.BitVec('d', 16 if self.fn != 'w_clk' else 32), 't': z3.BitVec('t', 32)}

    def args(self, ctx):
        s = ctx.st
        a = [self.k, z64(s['a'], 16), z64(s['d'], 16 if self.fn != 'w_clk' else 32)]
        if self.fn != 'w_clk':
            a.append(z64(s['t'], 32))
        return a

    def left(self, ctx):
        return ctx.call(self.fn, self.how, *self.args(ctx))

    def right(self, ctx):
        return ctx.call(self.fn, 0, *self.args(ctx))

    def compare(self, c, l, r, lo_, ro):
        c.eq('res', 'result', lo_, ro, 64)
        a, b = l.env.calls, r.env.calls
        if [x[0] for x in a] != [x[0] for x in b] or not a:
            c.mismatch('calls', 'forwarded as %s, expected %s' % ([x[0] for x in a], [x[0] for x in b]))
            return
        for x, y in zip(a, b):
            for i, (u, v) in enumerate(zip(x[1:], y[1:])):
                c.eq('calls', '%s argument %d' % (x[0], i), u, v, 32)


class FwdEnv(CpuEnv):
    """records the arguments of every call as they are"""
    W = {'e_m1': [16], 'e_mreq': [16], 'e_io': [16], 'e_irqack': [16], 'e_nomreq': [16, 8], 'e_wait': [16, 16], 'e_now': [], 'e_past': [32],
         'e_rdop': [16, 16, 32], 'e_rd': [16, 32], 'e_rd16': [16, 32], 'e_peek': [16], 'e_wr': [16, 8, 32], 'e_in': [16, 32], 'e_out': [16, 8, 32],
         'e_isirq': [32], 'e_irqdata': [16, 32], 'e_reti': [16, 32]}
    R = {'e_m1': 32, 'e_mreq': 32, 'e_io': 32, 'e_irqack': 32, 'e_nomreq': 0, 'e_wait': 0, 'e_now': 32, 'e_past': 1, 'e_rdop': 8, 'e_rd': 8, 'e_rd16': 16,
         'e_peek': 8, 'e_wr': 0, 'e_in': 32, 'e_out': 32, 'e_isirq': 1, 'e_irqdata': 32, 'e_reti': 16}

    def __init__(self, resp, impl):
        CpuEnv.__init__(self, resp, impl)
        self.calls = []


def _mk(name):
    def f(self, X, *a):
        self.calls.append((name,) + tuple(op_zext(v, w, 32) if w < 32 else v for v, w in zip(a, self.W[name])))
        if self.R[name]:
            return self.resp(name, len(self.calls), self.R[name])
    return f


for _n in FwdEnv.W:
    setattr(FwdEnv, _n, _mk(_n))


class DefTask(Task):
    """the provided methods of Io and Memory"""
    def __init__(self, prog, fn, k):
        Task.__init__(self, prog)
        self.fn, self.k = fn, k

    def describe(self):
        return '%s method %d' % (self.fn, self.k)

    def make_env(self, resp, side):
        return CpuEnv(resp, True)

    def inputs(self):
        return {'a': z3.BitVec('a', 16), 'd': z3.BitVec('d', 16), 't': z3.BitVec('t', 32)}

    def left(self, ctx):
        s = ctx.st
        return ctx.call(self.fn, self.k, z64(s['a'], 16), z64(s['d'], 16), z64(s['t'], 32))

    def right(self, ctx):
        a = ctx.st['a']
        if self.fn == 'd_io':
            return [0, 0xFF, 0, 0xFF, 0][self.k]
        if self.fn == 'd_mem0':
            return [0xFF, 0xFF, 0xFFFF, 0, 0xFF][self.k]
        p = lambda x: z64(ctx.env.e_peek(ctx.X, x), 8)
        if self.k == 2:
            return OR(p(a), llir.op_shl(None, p(ADD(a, 1, 16)), 8, 64), 64)
        if self.k == 3:
            return 0
        return p(a)

    def compare(self, c, l, r, lo_, ro):
        w = 1 if (self.fn, self.k) == ('d_io', 2) else 64
        c.eq('res', 'result', lo_, ro, w)


# ------------------------------------------------------------------ disassembler
def shape(px, code):
    """the bytes of an instruction: opcode bytes, None for operand bytes"""
    bs = disref.decode(px, code, lambda k: z3.BitVec('imm%d' % k, 8), 0)[2]
    return ([px] if px else []) + [b if type(b) is int else None for b in bs]


class DisTask(Task):
    """disasm_memory / disasm_memory_once over a chunk whose opcode bytes are
    given and whose operand bytes (None) and start address are arbitrary"""

    def __init__(self, prog, fl, mem, stop=0, once=False, pc=None, repeat=0):
        Task.__init__(self, prog)
        if repeat:
            self.max_steps = 100_000_000
            mem = (mem * (repeat // len(mem) + 1))[:repeat]
        self.fl, self.mem, self.stop, self.once, self.pc, self.repeat = fl, mem, stop, once, pc, repeat

    def describe(self):
        if self.repeat:
            return 'disasm %s, %d bytes (%s repeated)' % (self.fl, self.repeat, self.mem[:12])
        return 'disasm %s%s [%s] stop %d' % (self.fl, ' once' if self.once else '', ' '.join('nn' if b is None else '%02X' % b for b in self.mem), self.stop)

    def make_env(self, resp, side):
        return CpuEnv(resp, side == 'left')

    def inputs(self):
        st = {'b%d' % i: z3.BitVec('b%d' % i, 8) if b is None else b for i, b in enumerate(self.mem)}
        st['pc'] = z3.BitVec('pc', 16) if self.pc is None else self.pc
        return st

    def left(self, ctx):
        n = len(self.mem)
        p = ctx.alloc(max(n, 1))
        for i in range(n):
            ctx.store(p + i, ctx.st['b%d' % i], 1)
        if self.once:
            r = ctx.call(self.fl + '_dis1', ctx.st['pc'], p, n)
        else:
            r = ctx.call(self.fl + '_dis', ctx.st['pc'], p, n, self.stop)
        return r & 0xffffffff if type(r) is int else r

    def right(self, ctx):
        n = len(self.mem)
        at = lambda i: ctx.st['b%d' % i] if i < n else 0xFF
        out, cur, px, err = [], 0, 0, 0
        while cur < n:
            op = at(cur)
            if type(op) is not int:
                raise Unsupported('symbolic opcode in the scenario')
            if op in (0xDD, 0xFD):
                px = op
                cur += 1
                continue
            if op == 0xCB:
                code = (op, at(cur + 2) if px else at(cur + 1))
                imm = lambda k: at(cur + 1 + k)
            elif op == 0xED:
                code = (op, at(cur + 1))
                imm = lambda k: at(cur + 2 + k)
            else:
                code = (op,)
                imm = lambda k: at(cur + 1 + k)
            here = ADD(ctx.st['pc'], cur & 0xffff, 16)
            mn, upx, bs, args = disref.decode(px, code, imm, here)
            if cur + len(bs) > n:
                break
            out.append((SUB(here, 1, 16) if upx else here, mn, upx, bs, args))
            cur += len(bs)
            px = 0
            if self.once:
                return 1, out
            if len(out) == self.stop:
                err = 7
                break
        return len(out) | err << 16, out

    def compare(self, c, lctx, rctx, lo_, ro):
        c.eq('res', 'result', lo_, ro[0], 32)
        got = []
        for e in lctx.env.dbg:
            if e[0] == 'dbg':
                got.append([])
            got[-1].append(e)
        if len(got) != len(ro[1]):
            c.mismatch('dbg', '%d instructions were reported, expected %d' % (len(got), len(ro[1])))
            return
        for g, e in zip(got, ro[1]):
            compare_dbg(c, g, e)


class SafeTask(CpuTask):
    """an entry point returns: no panic, overflow, unreachable code, invalid
    access, endless loop - whatever the state and the answers of the bus"""

    def __init__(self, prog, fl, entry, arg=0, sub=(), **kw):
        CpuTask.__init__(self, prog, fl, entry, **kw)
        self.aarg, self.sub = arg, tuple(sub)

    def describe(self):
        return 'safety: ' + CpuTask.describe(self) + (' %s' % (self.sub,) if self.sub else '')

    def make_env(self, resp, side):
        if self.entry != 'limit':
            return CpuEnv(resp, True)
        e = LimitEnv(resp, True)
        e.k = self.aarg or 2
        return e

    def inputs(self):
        st = CpuTask.inputs(self)
        if self.entry in ('set', 'get', 'any_set', 'any_get'):
            st['v'] = z3.BitVec('v', 64)
        return st

    def left(self, ctx):
        fl, e, cpu = self.fl, self.entry, ctx.cpu
        if e.startswith('any_'):
            cpu = ctx.alloc(ctx.call('any_size'))
            ctx.call('wrap_' + fl, cpu, ctx.cpu, 0)
            fl, e = 'any', e[4:]
        if e == 'set':
            ctx.call(fl + '_set', cpu, *self.sub, ctx.st['v'])
        elif e == 'get':
            ctx.call(fl + '_get', cpu, *self.sub)
        else:
            ctx.cpu = cpu
            self.enter(ctx, fl, e)
        return 1

    def right(self, ctx):
        return 1

    def compare(self, c, l, r, lo_, ro):
        c.eq('safe', 'returned', lo_, ro, 8)


class SafeDisTask(DisTask):
    """the disassembler returns, on entirely arbitrary bytes"""

    def describe(self):
        return 'safety: ' + DisTask.describe(self)

    def left(self, ctx):
        DisTask.left(self, ctx)
        return 1

    def right(self, ctx):
        return 1

    def compare(self, c, l, r, lo_, ro):
        c.eq('safe', 'returned', lo_, ro, 8)


class EqualTask(CpuTask):
    """two CPUs with arbitrary states: == after normalize_r exactly when they
    are observably the same; without normalize_r never when they differ"""

    def __init__(self, prog, fl, norm, wrapped=False, fl2=None, fixed=None, fixed2=None):
        CpuTask.__init__(self, prog, fl, 'eq', fixed=fixed)
        self.norm, self.wrapped, self.fl2, self.fixed2 = norm, wrapped, fl2 or fl, fixed2 if fixed2 is not None else self.fixed

    def describe(self):
        return '%s == %s norm=%d wrapped=%d %s %s' % (self.fl, self.fl2, self.norm, self.wrapped, self.fixed, self.fixed2)

    def inputs(self):
        from cpucheck import init_state
        st = init_state(self.fixed)
        for k, v in init_state(self.fixed2).items():
            if type(v) not in (int, bool):
                v = z3.Bool('t_' + k) if z3.is_bool(v) else z3.BitVec('t_' + k, v.size())
            st['t:' + k] = v
        return st

    def constraints(self, st):
        return [z3.ULE(st[k], 2) for k in ('im', 't:im') if type(st[k]) is not int]

    def states(self, ctx):
        return ({k: v for k, v in ctx.st.items() if not k.startswith('t:')}, {k[2:]: v for k, v in ctx.st.items() if k.startswith('t:')})

    def prepare(self, ctx, side):
        if side != 'left':
            return
        from cpucheck import PSIZE, write_p
        ctx.cpus = []
        for fl, st in zip((self.fl, self.fl2), self.states(ctx)):
            p = ctx.alloc(PSIZE)
            cpu = ctx.alloc(ctx.call(fl + '_size'))
            write_p(ctx, p, st)
            ctx.call(fl + '_new', cpu, p)
            ctx.cpus.append(cpu)

    def left(self, ctx):
        a, b = ctx.cpus
        fl = self.fl
        if self.wrapped:
            w = []
            for f, cpu in zip((self.fl, self.fl2), (a, b)):
                x = ctx.alloc(ctx.call('any_size'))
                ctx.call('wrap_' + f, x, cpu, 0)
                w.append(x)
            a, b = w
            fl = 'any'
        if self.norm:
            ctx.call(fl + '_set', a, 21, 0, 0, 0)
            ctx.call(fl + '_set', b, 21, 0, 0, 0)
        r = ctx.call(fl + '_eq', a, b)
        return op_trunc8(r)

    def right(self, ctx):
        from cpucheck import model_state, U16 as A, U8 as B
        P = []
        for fl, st in zip((self.fl, self.fl2), self.states(ctx)):
            P.append(model_p(Ref(ctx.X, ctx.env, fl, model_state(st, fl))))
        same = self.fl == self.fl2
        for n in A + B:
            if n != 'rd':
                same = llir.bool_and(None, same, llir.cmp_eq(P[0][n], P[1][n], 16 if n in A else 8))
        return same

    def compare(self, c, l, r, lo_, ro):
        if self.norm:
            c.eq('eq', 'equal', lo_, zext1(ro, 8), 8)
        else:
            # equal implies observably the same
            c.holds('eq', 'equal only if the same', llir.bool_or(None, llir.cmp_eq(lo_, 0, 8), ro))


def op_trunc8(r):
    return r & 0xff if type(r) is int else llir.op_trunc(r, 8)


# ------------------------------------------------------------------ text
REG8T = 'BCDEHL?A'
CONDT = ['NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M']
PXT = {0xDD: 'IX', 0xFD: 'IY'}


class Text:
    """the documented text forms, as lists of byte terms (X.branch forks on the number of digits)"""

    def __init__(self, X, style):
        # style: 0 decimal, 1 {:x}, 2 {:X}, 3 {:#x}, 4 {:#X}
        self.X, self.style = X, style

    def s(self, t):
        return [ord(ch) for ch in t]

    def dec(self, v, w):
        X = self.X
        n = 1
        while n < 5 and 10 ** n < 1 << w and not X.branch(llir.cmp_ult(v, 10 ** n, w)):
            n += 1
        out = []
        for k in range(n - 1, -1, -1):
            d = llir.op_urem(X, llir.op_udiv(X, v, 10 ** k, w), 10, w)
            out.append(llir.op_add(X, llir.op_trunc(d, 8) if w > 8 else d, 48, 8))
        return out

    def nib(self, v, w, i, upper):
        x = llir.op_and(self.X, llir.op_lshr(self.X, v, 4 * i, w), 15, w)
        x = llir.op_trunc(x, 8) if w > 8 else x
        return llir.select(self.X, llir.cmp_ult(x, 10, 8), llir.op_add(self.X, x, 48, 8), llir.op_add(self.X, x, (55 if upper else 87), 8), 8)

    def hexn(self, v, w, upper=None):
        up = self.style in (2, 4) if upper is None else upper
        return [self.nib(v, w, i, up) for i in range(w // 4 - 1, -1, -1)]

    def num(self, v, w):
        if self.style == 0:
            return self.dec(v, w)
        h = self.hexn(v, w)
        return self.s('0x') + h if self.style > 2 else h + self.s('h')

    def arg(self, a):
        k, v, px = a
        if k == 1: return self.num(llir.op_trunc(v, 8) if type(v) is not int else v, 8)
        if k in (2, 3): return self.s(str(v))
        if k == 4: return self.s((PXT[px] if px and v in (4, 5) else '') + REG8T[v])
        if k == 5: return self.num(llir.op_trunc(v, 16) if type(v) is not int else v, 16)
        if k in (6, 9):
            r = PXT[px] if px and v == 0x20 else {0: 'BC', 0x10: 'DE', 0x20: 'HL', 0x30: 'SP'}[v]
            return self.s(r if k == 6 else '(%s)' % r)
        if k == 7: return self.s({0: 'BC', 0x10: 'DE', 0x20: 'HL', 0x30: 'AF'}[v])
        if k == 8: return self.s('(') + self.num(llir.op_trunc(v, 16) if type(v) is not int else v, 16) + self.s(')')
        if k == 10: return self.s('(%s)' % PXT[px])
        if k == 11:
            d = llir.op_trunc(v, 8) if type(v) is not int else v
            neg = self.X.branch(llir.cmp_ult(127, d, 8))
            m = llir.op_sub(self.X, 0, d, 8) if neg else d
            return self.s('(%s%s' % (PXT[px], '-' if neg else '+')) + self.num(m, 8) + self.s(')')
        if k == 12: return self.s('(') + self.num(llir.op_trunc(v, 8) if type(v) is not int else v, 8) + self.s(')')
        if k == 13: return self.s('(C)')
        if k == 14: return self.s(CONDT[v >> 3])
        return self.s('IR'[k - 15])

    def args(self, args):
        if [a[:2] for a in args] == [(7, 0x30)] * 2:
            return self.s("AF, AF'")
        out = []
        for i, a in enumerate(args):
            out += (self.s(', ') if i else []) + self.arg(a)
        return out

    def pad(self, t, w, how='<', fill=' '):
        k = max(0, w - len(t))
        l = {'<': 0, '>': k, '^': k // 2}[how]
        return [ord(fill)] * l + t + [ord(fill)] * (k - l)

    def code(self, bs):
        out = []
        for i, b in enumerate(bs):
            out += (self.s(', ') if i else []) + (self.dec(b, 8) if self.style == 0 else self.hexn(b, 8))
        return self.s('[') + out + self.s(']')

    def line(self, pc, mn, upx, bs, args):
        st = self.style
        if st == 0:
            head = self.pad(self.dec(pc, 16), 5, '>')
        else:
            head = self.hexn(pc, 16)
            head = self.s('0x') + head if st > 2 else head + self.s('h')
        return head + self.s(' ') + self.pad(self.s(mn), 4) + self.s(' ') + self.pad(self.args(args), 15 if st > 2 else 14) + self.s(' ') + \
            self.code(([upx] if upx else []) + bs)


class TextTask(DisTask):
    """the text of the instructions in a chunk: style < 0 the listing, else the first one in that style"""
    CAP = 160

    def __init__(self, prog, style, mem, pc=None):
        DisTask.__init__(self, prog, 'nmos', mem, once=style >= 0)
        self.style, self.pc = style, pc

    def inputs(self):
        st = DisTask.inputs(self)
        if self.pc is not None:
            st['pc'] = self.pc
        return st

    def describe(self):
        return 'text style %d [%s] pc %s' % (self.style, ' '.join('nn' if b is None else '%02X' % b for b in self.mem), self.pc)

    def left(self, ctx):
        n = len(self.mem)
        p = ctx.alloc(max(n, 1))
        for i in range(n):
            ctx.store(p + i, ctx.st['b%d' % i], 1)
        out = ctx.alloc(self.CAP)
        if self.style < 0:
            r = ctx.call('x_listing', ctx.st['pc'], p, n, out, self.CAP)
        else:
            r = ctx.call('x_text', self.style, ctx.st['pc'], p, n, out, self.CAP)
        r = r & 0xffffffff if type(r) is int else ctx.X.choose(r, 32)
        return r, [ctx.load(out + i, 1) for i in range(min(r & 0xffff, self.CAP))]

    def right(self, ctx):
        ins = DisTask.right(self, ctx)[1]
        st = self.style
        if st < 0:
            T = Text(ctx.X, 1)
            out = []
            for d in ins:
                out += T.line(*d) + [10]
        elif not ins:
            return 1 << 17, []
        else:
            pc, mn, upx, bs, args = ins[0]
            T = Text(ctx.X, st if st < 5 else 3 if st == 5 else st - 6 if st < 11 else 0 if st == 11 else 2)
            if st < 5:
                out = T.line(*ins[0])
            elif st == 5:
                out = T.hexn(pc, 16) + T.s(' : ') + T.pad(T.s(mn), 6) + T.s(' ') + T.pad(T.args(args), 20) + T.s(' ')
                T.style = 2
                out += T.code(([upx] if upx else []) + bs)
            elif st < 11:
                out = T.args(args)
            else:
                out = T.pad(T.args(args), 18, '<>^'[st - 11], ' #'[st == 13]) + T.s('|')
        return len(out), out

    def compare(self, c, lctx, rctx, lo_, ro):
        if lo_[0] != ro[0]:
            c.mismatch('text', 'length %d, expected %d (%s)' % (lo_[0], ro[0], ''.join(chr(b) if type(b) is int else '?' for b in lo_[1])))
            return
        for i, (a, b) in enumerate(zip(lo_[1], ro[1])):
            c.eq('text', 'character %d' % i, a, b, 8)
