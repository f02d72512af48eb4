"""Differential symbolic check of one CPU entry point against z80ref."""
import z3
import llir
from llir import PathEnd, Unsupported, BV, bv, zext1, op_zext
from task import Task, Cmp
from z80ref import Ref, w16, hi, lo

U16 = ['af', 'bc', 'de', 'hl', 'af2', 'bc2', 'de2', 'hl2', 'ix', 'iy', 'pc', 'sp', 'memptr', 'ir']
U8 = ['i', 'r7', 'rd', 'im', 'iff1', 'iff2', 'halt', 'ei', 'prefix', 'fm', 'lfm', 'irq_ok', 'nmi_ok', 'after_pfx']
PSIZE = 2 * len(U16) + len(U8)
OFF = {n: 2 * i for i, n in enumerate(U16)}
OFF.update({n: 2 * len(U16) + i for i, n in enumerate(U8)})
HALVES = {'af': 'af', 'bc': 'bc', 'de': 'de', 'hl': 'hl', 'af2': ('a2', 'f2'), 'bc2': ('b2', 'c2'), 'de2': ('d2', 'e2'),
          'hl2': ('h2', 'l2')}
BYTES = ['a', 'f', 'b', 'c', 'd', 'e', 'h', 'l', 'a2', 'f2', 'b2', 'c2', 'd2', 'e2', 'h2', 'l2']

NOW = 0x4000000


class CpuEnv:
    """The bus, the clock and the peripherals: records every call, answers with
    symbols (or the concrete values of the scenario) that depend only on the
    kind of the access and its position among the accesses of that kind."""

    def __init__(self, resp, impl):
        self.resp = resp        # callable(kind, index, width) -> value
        self.impl = impl
        self.clk = []           # clock events, canonical
        self.data = []          # data events
        self.dbg = []
        self.cv = 0
        self.n = {}
        self.last_wait = 0
        self.last_brk = (False, 0)
        self.last_rbrk = (False, 0)
        self.polls = []         # (accesses so far, cycles so far, timestamp) of every is_irq

    def _r(self, kind, w):
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        return self.resp(kind, i, w)

    def _clk(self, *ev):
        self.clk.append(ev)
        self.cv += 1
        return self.cv

    def e_m1(self, X, a): return self._clk('m1', a)
    def e_mreq(self, X, a): return self._clk('mreq', a)
    def e_io(self, X, a): return self._clk('io', a)
    def e_irqack(self, X, a): return self._clk('irqack', a)

    def e_nomreq(self, X, a, n):
        if type(n) is not int:
            n = X.choose(n, 8)
        for _ in range(n):
            self._clk('nomreq', a)

    def e_wait(self, X, a, n):
        self._clk('wait', a, n)

    def e_now(self, X):
        return NOW + self.cv

    def e_past(self, X, limit):
        return self.resp('past', self.cv, 1)

    def e_rdop(self, X, pc, ir, ts):
        self.data.append(('rdop', pc, ts, ir))
        return self._r('rdop', 8)

    def e_rd(self, X, a, ts):
        self.data.append(('rd', a, ts, None))
        return self._r('rd', 8)

    def e_rd16(self, X, a, ts):
        self.data.append(('rd', a, ts, None))
        l = self._r('rd', 8)
        self.data.append(('rd', llir.op_add(None, a, 1, 16), None, None))
        h = self._r('rd', 8)
        return w16(h, l)

    def e_peek(self, X, a):
        return self.resp('peek', a, 8)

    def e_wr(self, X, a, v, ts):
        self.data.append(('wr', a, ts, v))

    def e_in(self, X, port, ts):
        self.data.append(('in', port, ts, None))
        i = self._r('in', 8)
        self.last_wait = w = self.resp('inw', self.n['in'] - 1, 16)
        return llir.op_or(X, op_zext(i, 8, 32), llir.op_shl(X, op_zext(w, 16, 32), 16, 32), 32) if self.impl else i

    def e_out(self, X, port, v, ts):
        self.data.append(('out', port, ts, v))
        i = self.n.get('out', 0)
        self.n['out'] = i + 1
        self.last_wait = w = self.resp('outw', i, 16)
        f, b = self.resp('outf', i, 1), self.resp('outb', i, 8)
        self.last_brk = (f, b)
        if self.impl:
            return self._brk(X, f, b, w)

    def _brk(self, X, f, b, w):
        r = llir.op_or(X, zext1(f, 32), llir.op_shl(X, op_zext(b, 8, 32), 8, 32), 32)
        return llir.op_or(X, r, llir.op_shl(X, op_zext(w, 16, 32), 16, 32), 32)

    def e_isirq(self, X, ts):
        self.polls.append((len(self.data), self.cv, ts))
        return self.resp('irq', (len(self.data), self.cv), 1)

    def e_irqdata(self, X, pc, ts):
        self.data.append(('irqdata', pc, ts, None))
        v = self._r('vec', 8)
        self.last_wait = w = self.resp('vecw', self.n['vec'] - 1, 16)
        return llir.op_or(X, op_zext(v, 8, 32), llir.op_shl(X, op_zext(w, 16, 32), 16, 32), 32) if self.impl else v

    def e_reti(self, X, pc, ts):
        self.data.append(('reti', pc, ts, None))
        i = self.n.get('reti', 0)
        self.n['reti'] = i + 1
        f, b = self.resp('retif', i, 1), self.resp('retib', i, 8)
        self.last_rbrk = (f, b)
        if self.impl:
            return llir.op_trunc(self._brk(X, f, b, 0), 16)

    def e_dbg(self, X, pc, ln, code, prefix, mn, mlen):
        s = bytes(X.read_bytes(mn, mlen)).decode() if type(mn) is int and type(mlen) is int else '?'
        self.dbg.append(('dbg', pc, ln, code, prefix, s))

    def e_dbgarg(self, X, kind, n, tag, a, b):
        self.dbg.append(('arg', kind, n, tag, a, b))


def init_state(fixed=None):
    """symbolic CPU state: model dict"""
    fixed = fixed or {}
    st = {}
    for n in BYTES + ['i']:
        st[n] = fixed.get(n, z3.BitVec('s_' + n, 8))
    for n in ['ix', 'iy', 'pc', 'sp', 'memptr']:
        st[n] = fixed.get(n, z3.BitVec('s_' + n, 16))
    st['r7'] = fixed.get('r7', z3.BitVec('s_r7', 8))
    st['rd'] = fixed.get('rd', z3.BitVec('s_rd', 8))
    st['im'] = fixed.get('im', z3.BitVec('s_im', 8))
    for n in ['iff1', 'iff2', 'fm', 'lfm']:
        st[n] = fixed.get(n, z3.Bool('s_' + n))
    st['halt'] = fixed.get('halt', False)
    st['ei'] = fixed.get('ei', False)
    st['prefix'] = fixed.get('prefix', 0)
    return st


def model_state(st, fl):
    m = dict(st)
    r7, rd = m.pop('r7'), m.pop('rd')
    m['r'] = llir.op_or(None, llir.op_and(None, llir.op_add(None, r7, rd, 8), 0x7f, 8), llir.op_and(None, r7, 0x80, 8), 8)
    if fl == 'cmos':
        m['fm'] = m['lfm'] = True
    return m


def p_fields(st):
    f = {}
    for n in ['af', 'bc', 'de', 'hl']:
        f[n] = w16(st[n[0]], st[n[1]])
        f[n + '2'] = w16(st[n[0] + '2'], st[n[1] + '2'])
    for n in ['ix', 'iy', 'pc', 'sp', 'memptr']:
        f[n] = st[n]
    f['ir'] = 0
    for n in ['i', 'r7', 'rd', 'im']:
        f[n] = st[n]
    for n in ['iff1', 'iff2', 'fm', 'lfm']:
        f[n] = zext1(st[n], 8)
    f['halt'] = int(st['halt']); f['ei'] = int(st['ei']); f['prefix'] = st['prefix']
    f['irq_ok'] = f['nmi_ok'] = f['after_pfx'] = 0
    return f


def write_p(ctx, p, st):
    f = p_fields(st)
    for n in U16:
        ctx.store(p + OFF[n], f[n], 2)
    for n in U8:
        ctx.store(p + OFF[n], f[n], 1)


def read_p(ctx, p):
    return {n: ctx.load(p + OFF[n], 2 if n in U16 else 1) for n in U16 + U8}


def model_p(m):
    """the model state in the shape of the observation struct"""
    f = {}
    for n in ['af', 'bc', 'de', 'hl']:
        f[n] = w16(getattr(m, n[0]), getattr(m, n[1]))
        f[n + '2'] = w16(getattr(m, n[0] + '2'), getattr(m, n[1] + '2'))
    for n in ['ix', 'iy', 'pc', 'sp', 'memptr', 'i', 'im']:
        f[n] = getattr(m, n)
    f['r7'] = m.r
    f['ir'] = w16(m.i, m.r)
    for n in ['iff1', 'iff2', 'fm', 'lfm']:
        f[n] = zext1(getattr(m, n), 8)
    f['halt'] = int(m.halt); f['ei'] = int(m.ei); f['prefix'] = m.prefix
    ok = not m.ei and not m.prefix
    f['nmi_ok'] = int(ok)
    f['irq_ok'] = f['iff1'] if ok else 0
    f['after_pfx'] = int(bool(m.prefix))
    return f


FACET = {}
for _n in ['af', 'bc', 'de', 'hl', 'af2', 'bc2', 'de2', 'hl2', 'ix', 'iy', 'sp', 'i', 'pc']:
    FACET[_n] = 'regs'
FACET['memptr'] = 'memptr'
FACET['r7'] = FACET['ir'] = 'r'
for _n in ['im', 'iff1', 'iff2', 'halt', 'ei', 'prefix', 'irq_ok', 'nmi_ok', 'after_pfx']:
    FACET[_n] = 'int'
FACET['fm'] = FACET['lfm'] = 'q'


def res_code(r):
    k = r[0]
    if k == 'ok': return 0
    if k == 'halt': return 1
    if k == 'none': return 0x80
    if k == 'true': return 1
    if k == 'false': return 0
    base = 2 if k == 'wr' else 3
    f, v = r[1], r[2]
    return llir.select(None, f, llir.op_or(None, llir.op_shl(None, op_zext(v, 8, 32), 8, 32), base, 32), 0, 32)


def compare_events(c, ie, me):
    """impl env vs model env"""
    a, b = ie.data, me.data
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b) or a[k][0] != b[k][0]:
            c.mismatch('data', 'bus access #%d is %s, expected %s' % (k, a[k][0] if k < len(a) else 'missing', b[k][0] if k < len(b) else 'none'))
            break
        x, y = a[k], b[k]
        c.eq('data', 'address of %s #%d' % (x[0], k), x[1], y[1], 16)
        if x[3] is not None and x[0] != 'rdop':
            c.eq('data', 'value of %s #%d' % (x[0], k), x[3], y[3], 8)
        if x[0] == 'rdop':
            c.eq('ir', 'refresh value of fetch #%d' % k, x[3], y[3], 16)
        if x[2] is not None and y[2] is not None:
            if x[2] != y[2]:
                c.mismatch('clk', 'timestamp of %s #%d is cycle %s, expected %s' % (x[0], k, x[2], y[2]))
    a, b = ie.clk, me.clk
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b) or a[k][0] != b[k][0]:
            c.mismatch('clk', 'cycle #%d is %s, expected %s' % (k, a[k][0] if k < len(a) else 'missing', b[k][0] if k < len(b) else 'none'))
            break
        c.eq('clk', 'address of cycle #%d (%s)' % (k, a[k][0]), a[k][1], b[k][1], 16)
        if a[k][0] == 'wait':
            c.eq('clk', 'wait states of cycle #%d' % k, a[k][2], b[k][2], 16)
    a, b = ie.polls, me.polls
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b) or a[k][:2] != b[k][:2]:
            c.mismatch('poll', 'sample #%d of the interrupt line is %s, expected %s'
                       % (k, *['after %d accesses, at cycle %d' % x[k][:2] if k < len(x) else 'missing' for x in (a, b)]))
            break
        c.eq('poll', 'timestamp of sample #%d of the interrupt line' % k, a[k][2], NOW + a[k][1], 32)



class CpuTask(Task):
    """left: one flavour of the real CPU driven through a public entry point;
    right: the reference model."""
    FIELDS = None          # restrict the compared fields (None: all)
    max_paths = 20000

    def __init__(self, prog, fl, entry, op=None, script=None, fixed=None, facets=None, fields=None, choose_vec=False,
                 skip=(), arg=0):
        Task.__init__(self, prog)
        self.fl, self.entry, self.op, self.script = fl, entry, op, script
        self.fixed = fixed or {}
        self.facets = None if facets is None else set(facets)
        self.fields, self.choose_vec, self.skip, self.arg = fields, choose_vec, set(skip), arg

    def describe(self):
        d = '%s_%s' % (self.fl, self.entry)
        if self.op is not None:
            d += ' op=%02X' % self.op
        if self.script:
            d += ' script=%s' % self.script
        if self.fixed:
            d += ' fixed=%s' % self.fixed
        return d

    def make_env(self, resp, side):
        return CpuEnv(resp, side in self.impl_sides)
    impl_sides = ('left',)

    def inputs(self):
        return init_state(self.fixed)

    def constraints(self, st):
        return [] if type(st['im']) is int else [z3.ULE(st['im'], 2)]

    def prepare(self, ctx, side):
        if side not in self.impl_sides:
            return
        self.build(ctx, self.fl_of(side))

    def fl_of(self, side):
        return self.fl

    def build(self, ctx, fl):
        n = ctx.call(fl + '_size')
        ctx.p = ctx.alloc(PSIZE)
        ctx.cpu = ctx.alloc(n)
        write_p(ctx, ctx.p, ctx.st)
        ctx.call(fl + '_new', ctx.cpu, ctx.p)
        if ctx.env.clk or ctx.env.data:
            raise Unsupported('the CPU constructor used the bus')

    def observe(self, ctx, fl):
        ctx.call(fl + '_obs', ctx.cpu, ctx.p)
        return read_p(ctx, ctx.p)

    def enter(self, ctx, fl, entry):
        a = [ctx.cpu]
        if entry in ('instr', 'instrd'):
            a.append(self.op)
        if entry == 'limit':
            a.append(self.arg)
        r = ctx.call('%s_%s' % (fl, entry), *a)
        return r & 0xffffffff if type(r) is int else r

    def left(self, ctx):
        rc = self.enter(ctx, self.fl, self.entry)
        return rc, self.observe(ctx, self.fl)

    def ref(self, ctx, fl=None):
        fl = fl or self.fl
        m = Ref(ctx.X, ctx.env, fl, model_state(ctx.st, fl))
        m.choose_vec = self.choose_vec
        return m

    def right(self, ctx):
        m = self.ref(ctx)
        e = self.entry
        if e in ('instr', 'instrd'):
            r = m.execute_instruction(self.op)
        elif e in ('next', 'nextd'):
            r = m.execute_next()
        elif e in ('irq', 'irqd'):
            r = m.irq()
        elif e == 'nmi':
            r = m.nmi()
        else:
            raise Unsupported(e)
        return res_code(r), model_p(m)

    def compare(self, c, lctx, rctx, lo, ro):
        compare_events(c, lctx.env, rctx.env)
        c.eq('res', 'result', lo[0], ro[0], 32)
        self.compare_state(c, lo[1], ro[1])

    def compare_state(self, c, o, mp):
        for n in U16 + U8:
            if n == 'rd' or n in self.skip or (self.fields is not None and n not in self.fields):
                continue
            c.eq(FACET[n], n, o[n], mp[n], 16 if n in U16 else 8)


class RebuildTask(CpuTask):
    """after one entry of the real code the CPU is exactly what its accessors
    show: it equals a new CPU given the observed values through the setters"""

    def left(self, ctx):
        self.enter(ctx, self.fl, self.entry)
        self.observe(ctx, self.fl)
        ctx.store(ctx.p + OFF['rd'], 0, 1)
        cpu = ctx.alloc(ctx.call(self.fl + '_size'))
        n = len(ctx.env.clk), len(ctx.env.data)
        ctx.call(self.fl + '_new', cpu, ctx.p)
        if n != (len(ctx.env.clk), len(ctx.env.data)):
            raise Unsupported('the CPU constructor used the bus')
        o = read_p(ctx, ctx.p)
        ctx.call(self.fl + '_obs', cpu, ctx.p)
        return ctx.call(self.fl + '_same', ctx.cpu, cpu), o, read_p(ctx, ctx.p)

    def right(self, ctx):
        return 1

    def compare(self, c, lctx, rctx, lo, ro):
        for n in U16 + U8:
            c.eq('state', 'accessor value %s of the CPU rebuilt from the accessors' % n, lo[2][n], lo[1][n], 16 if n in U16 else 8)
        c.eq('state', 'equality of the CPU with the one rebuilt from its accessors', lo[0], ro, 32)


class StepTask(CpuTask):
    """k consecutive calls of execute_next (both sides), stopping at the first
    break request."""

    def __init__(self, prog, fl, k, entry='next', **kw):
        CpuTask.__init__(self, prog, fl, entry, **kw)
        self.k = k

    def describe(self):
        return CpuTask.describe(self) + ' x%d' % self.k

    def left(self, ctx):
        rs = []
        for _ in range(self.k):
            rc = self.enter(ctx, self.fl, self.entry)
            rs.append(rc)
            if self.stop(ctx, rc):
                break
        return rs, self.observe(ctx, self.fl)

    def stop(self, ctx, rc):
        b = ctx.X.branch(llir.cmp_ne(rc, 0, 32)) if not ctx.native else rc & 0xffffffff != 0
        return b

    def right(self, ctx):
        m = self.ref(ctx)
        rs = []
        for _ in range(self.k):
            rc = res_code(m.execute_next())
            rs.append(rc)
            if ctx.X.branch(llir.cmp_ne(rc, 0, 32)):
                break
        return rs, model_p(m)

    def compare(self, c, lctx, rctx, lo, ro):
        compare_events(c, lctx.env, rctx.env)
        if len(lo[0]) != len(ro[0]):
            c.mismatch('res', '%d steps, expected %d' % (len(lo[0]), len(ro[0])))
        for i, (a, b) in enumerate(zip(lo[0], ro[0])):
            c.eq('res', 'result of step %d' % i, a, b, 32)
        self.compare_state(c, lo[1], ro[1])


class LimitEnv(CpuEnv):
    """the limit is reached at latest after `k` polls at different clock values"""
    k = 1

    def __init__(self, resp, impl):
        CpuEnv.__init__(self, resp, impl)
        self.past_at = []

    def e_past(self, X, limit):
        self.lim = limit
        if self.cv not in self.past_at:
            self.past_at.append(self.cv)
        if len(self.past_at) > self.k:
            return True
        return self.resp('past', self.cv, 1)


class LimitTask(CpuTask):
    """left: one call of execute_with_limit; right: stepping with execute_next
    until the limit is reached or a break is requested.  Both sides are the
    real code."""
    impl_sides = ('left', 'right')
    ARG = 0x1234567

    def __init__(self, prog, fl, k, **kw):
        CpuTask.__init__(self, prog, fl, 'limit', arg=self.ARG, **kw)
        self.k = k
        if k > 50:
            self.max_steps = 10_000_000

    def describe(self):
        if self.k > 50:
            return '%s_limit, %d steps: %s...' % (self.fl, self.k, self.script['rdop'][:12])
        return CpuTask.describe(self) + ' k=%d' % self.k

    def make_env(self, resp, side):
        e = LimitEnv(resp, True)
        e.k = self.k
        return e

    def right(self, ctx):
        env = ctx.env
        rc = 0
        while True:
            if ctx.X.branch(tobool(env.e_past(ctx.X, self.ARG))):
                rc = 0
                break
            rc = self.enter(ctx, self.fl, 'next')
            if ctx.X.branch(llir.cmp_ne(rc, 0, 32)):
                break
        return rc, self.observe(ctx, self.fl)

    def compare(self, c, lctx, rctx, lo, ro):
        CpuTask.compare(self, c, lctx, rctx, lo, ro)
        if hasattr(lctx.env, 'lim'):
            c.eq('res', 'limit passed to the clock', lctx.env.lim, self.ARG, 32)


def tobool(x):
    return x if type(x) is not int else bool(x)


class PairTask(CpuTask):
    """left: entry a of flavour fa; right: entry b of flavour fb (both real code)"""
    impl_sides = ('left', 'right')

    def __init__(self, prog, fl, entry, fl2=None, entry2=None, **kw):
        CpuTask.__init__(self, prog, fl, entry, **kw)
        self.fl2, self.entry2 = fl2 or fl, entry2 or entry

    def describe(self):
        return CpuTask.describe(self) + ' vs %s_%s' % (self.fl2, self.entry2)

    def fl_of(self, side):
        return self.fl if side == 'left' else self.fl2

    def right(self, ctx):
        rc = self.enter(ctx, self.fl2, self.entry2)
        return rc, self.observe(ctx, self.fl2)


class FlavTask(PairTask):
    """two flavours of the real code: identical up to the documented differences
    (masks: field -> bits that must agree; anyout: the OUT data may differ)"""

    def __init__(self, prog, fl, entry, fl2, masks=None, anyout=False, **kw):
        PairTask.__init__(self, prog, fl, entry, fl2=fl2, **kw)
        self.masks, self.anyout = masks or {}, anyout

    def compare(self, c, lctx, rctx, lo, ro):
        lctx.env.polls, rctx.env.polls = [], []     # only NMOS samples the line in LD A,I
        if self.anyout:
            for e in (lctx.env, rctx.env):
                e.data = [(k, a, t, None) if k == 'out' else (k, a, t, v) for k, a, t, v in e.data]
        a, b = dict(lo[1]), dict(ro[1])
        for n, m in self.masks.items():
            w = 16 if n in U16 else 8
            a[n], b[n] = llir.op_and(None, a[n], m, w), llir.op_and(None, b[n], m, w)
        PairTask.compare(self, c, lctx, rctx, (lo[0], a), (ro[0], b))


def compare_dbg(c, got, exp):
    """got: recorded callbacks; exp: (pc, mnemonic, prefix, code bytes, args)"""
    heads = [e for e in got if e[0] == 'dbg']
    if exp is None:
        if heads:
            c.mismatch('dbg', 'the debugger was called (%s) where it must not be' % heads[0][5])
        return
    if len(heads) != 1:
        c.mismatch('dbg', 'the debugger was called %d times, expected once' % len(heads))
        return
    pc, mn, px, bs, args = exp
    _, gpc, gl, gcode, gpx, gmn = heads[0]
    if gmn != mn:
        c.mismatch('dbg', 'mnemonic is %s, expected %s' % (gmn, mn))
    c.eq('dbg', 'pc', gpc, pc, 16)
    c.eq('dbg', 'prefix', gpx, px, 8)
    full = ([px] if px else []) + list(bs)
    c.eq('dbg', 'code length', gl, len(full), 32)
    v = 0
    for i, x in enumerate(full):
        v = llir.op_or(None, v, llir.op_shl(None, op_zext(x, 8, 32), 8 * i, 32), 32)
    c.eq('dbg', 'code bytes', gcode, v, 32)
    ga = [e for e in got if e[0] == 'arg']
    kind = {0: 0, 1: 1, 2: 2, 3: 3}[len(args)]
    if not ga or (ga[0][1], len(ga) if ga[0][1] else 0) != (kind, len(args)):
        c.mismatch('dbg', '%s reported %s arguments (kind %s), expected %d' % (gmn, len(ga), ga and ga[0][1], len(args)))
        return
    for i, (e, a) in enumerate(zip(ga, args)):
        if e[3] != a[0]:
            c.mismatch('dbg', '%s argument %d is of kind %s, expected %s' % (gmn, i, e[3], a[0]))
        else:
            c.eq('dbg', 'argument %d' % i, e[4], a[1], 32)
            if (a[0] == 4 and a[1] not in (4, 5)) or (a[0] == 6 and a[1] != 0x20):
                continue        # a prefix has no meaning for registers other than H, L and HL
            c.eq('dbg', 'prefix of argument %d' % i, e[5], a[2], 32)


class DbgTask(CpuTask):
    """what the debugger is told about one instruction"""
    impl_sides = ('left',)

    def __init__(self, prog, fl, entry, code, **kw):
        CpuTask.__init__(self, prog, fl, entry, op=code[0], **kw)
        self.code = code

    def right(self, ctx):
        import disref
        if self.code[0] in (0xDD, 0xFD):
            return None
        st = ctx.st
        pc = st['pc']
        if self.entry.startswith('instr'):
            pc = llir.op_sub(None, pc, 1, 16)
        env = ctx.env
        px = self.fixed.get('prefix', 0)
        kind = 'rd'

        reads = ctx.peer.env.n.get('rd', 0)

        def imm(k):
            # operand bytes are the first memory reads, in address order; those the
            # instruction itself does not need are taken from the debug view of the memory
            if k < reads:
                return env.resp('rd', k, 8)
            return env.resp('peek', llir.op_add(None, pc, 1 + k, 16), 8)
        mn, upx, bs, args = disref.decode(px, self.code, imm, pc)
        full_pc = llir.op_sub(None, pc, 1, 16) if upx else pc
        return full_pc, mn, upx, bs, args

    def compare(self, c, lctx, rctx, lo, ro):
        compare_dbg(c, lctx.env.dbg, ro)
