"""Serialization checks: the real Serialize / Deserialize implementations over
the token format of hser/src/fmt.rs."""
import z3
import llir
from llir import Unsupported, bv, op_zext, zext1
from task import Task
from cpucheck import CpuTask, CpuEnv, model_p, model_state, read_p, w16, hi, lo
from z80ref import Ref
from apicheck import AND, OR, ADD, SUB, XOR, z64, ite

COMPACT, INDEX, WIDE, WIDEI, VINDEX = 1, 8, 0x40, 0x80, 0x100
KEYSTR, KEYBORROW, KEYOWNED, KEYBYTES = 0, 2, 4, 6
STRBORROW, STROWNED = 0x10, 0x20
NAMES = {'nmos': 'NMOS', 'cmos': 'CMOS', 'bm1': 'BM1'}
FIELDS = ['type', 'af', 'afAlt', 'regs', 'regsAlt', 'index', 'pc', 'sp', 'memptr', 'lastEi', 'ir', 'im', 'iff1', 'iff2', 'halt', 'prefix', 'r',
          'flavour']
SNAKE = {'afAlt': 'af_alt', 'regsAlt': 'regs_alt', 'lastEi': 'last_ei'}
BUF = 1024


def raw(s):
    return [len(s)] + list(s.encode())


def tstr(s):
    return [ord('S')] + raw(s)


def tnum(v, w, k='u'):
    n = w // 8
    v = z64(v, w)
    return [ord(k), n] + [llir.op_trunc(llir.op_lshr(None, v, 8 * i, 64), 8) for i in range(n)]


def tbool(v):
    return [ord('B'), zext1(v, 8)]


def tstruct(name, fields, compact):
    """fields: [(key, tokens)]"""
    out = [ord('T')] + ([] if compact else raw(name)) + [len(fields)]
    for k, t in fields:
        if not compact:
            out += [ord('F')] + raw(k)
        out += t
    return out + ([] if compact else [ord('E')])


def tmap(fields):
    out = [ord('M')]
    for k, t in fields:
        out += tstr(k) + t
    return out + [ord('E')]


def tseq(items, hint=255):
    out = [ord('['), hint]
    for t in items:
        out += t
    return out + [ord(']')]


def trp(v, form='u16'):
    """a RegisterPair value in one of the accepted forms"""
    if form == 'u16':
        return tnum(v, 16)
    if form == 'i16':
        return tnum(v, 16, 'i')
    if form in ('u64', 'u32'):
        w = int(form[1:])
        return tnum(op_zext(v, 16, w), w)
    if form in ('i64', 'i32'):
        w = int(form[1:])
        return tnum(op_zext(v, 16, w), w, 'i')
    if form == 'seq':
        return tseq([tnum(lo(v), 8), tnum(hi(v), 8)])
    raise Unsupported(form)


def tim(k):
    return [ord('V'), k] + raw('Mode%d' % k)


def tprefix(p):
    return [ord('N')] if not p else [ord('O'), ord('V'), {0xDD: 0, 0xFD: 1}[p]] + raw({0xDD: 'Xdd', 0xFD: 'Yfd'}[p])


def tokens(m, kind, compact, irlo, r):
    """field name -> tokens of its value, as the serializer writes them"""
    P = model_p(m)
    rp = lambda n: trp(P[n])
    regs = lambda s: tstruct('GeneralRegisters', [(n, rp(n + s)) for n in ('bc', 'de', 'hl')], compact)
    fm, lfm = (False, False) if kind == 'cmos' else (m.fm, m.lfm)
    return {
        'type': tstr(NAMES[kind]), 'af': rp('af'), 'afAlt': rp('af2'), 'regs': regs(''), 'regsAlt': regs('2'),
        'index': tstruct('IndexRegisters', [('ix', rp('ix')), ('iy', rp('iy'))], compact),
        'pc': rp('pc'), 'sp': rp('sp'), 'memptr': rp('memptr'), 'lastEi': tbool(m.ei), 'ir': trp(w16(m.i, irlo)),
        'im': tim(m.im), 'iff1': tbool(m.iff1), 'iff2': tbool(m.iff2), 'halt': tbool(m.halt), 'prefix': tprefix(m.prefix),
        'r': tnum(r, 8),
        'flavour': tstruct('NMOS' if kind == 'cmos' else NAMES[kind], [('flagsModified', tbool(fm)), ('lastFlagsModified', tbool(lfm))], compact),
    }


def put(ctx, toks):
    p = ctx.alloc(max(1, len(toks)))
    for i, t in enumerate(toks):
        ctx.store(p + i, t, 1)
    return p


def m32(r):
    return r & 0xffffffff if type(r) is int else r


def conc(ctx, r):
    r = m32(r)
    return r if type(r) is int else ctx.X.choose(r, 32)


def wrap(ctx, fl):
    a = ctx.alloc(ctx.call('any_size'))
    ctx.call('wrap_' + fl, a, ctx.cpu, 0)
    return a


def kind_of(ctx, a):
    t = ctx.alloc(8, [0] * 8)
    return m32(ctx.call('any_kind', a, t))


class SerTask(CpuTask):
    """what is written: exactly the 18 fields, in order"""

    def __init__(self, prog, fl, wrapped=False, compact=0, fixed=None):
        CpuTask.__init__(self, prog, fl, 'ser', fixed=fixed)
        self.wrapped, self.compact = wrapped, compact

    def describe(self):
        return 'serialize %s%s compact=%d %s' % (self.fl, ' in Z80Any' if self.wrapped else '', self.compact, self.fixed)

    def left(self, ctx):
        c, fn = (wrap(ctx, self.fl), 'any') if self.wrapped else (ctx.cpu, self.fl)
        b = ctx.alloc(BUF)
        n = conc(ctx, ctx.call(fn + '_ser', c, b, self.compact))
        return n, ([ctx.load(b + i, 1) for i in range(n)] if n < BUF else [])

    def right(self, ctx):
        m = self.ref(ctx)
        # R is written as its two parts: bit 7 in the low byte of ir, bits 0..6 in r
        t = tokens(m, self.fl, self.compact, 0, 0)
        t['ir'] = [ord('u'), 2, 'irlo', m.i]
        t['r'] = [ord('u'), 1, 'r']
        return tstruct('Z80', [(k, t[k]) for k in FIELDS], self.compact), m

    def left_parts(self, n, bs, exp):
        pass

    def compare(self, c, l, r, lo_, ro):
        n, got = lo_
        exp, m = ro
        c.eq('ser', 'length', n, len(exp), 32)
        if n != len(exp):
            return
        parts = {}
        for i, (g, e) in enumerate(zip(got, exp)):
            if isinstance(e, str):
                parts[e] = g
            else:
                c.eq('ser', 'byte %d' % i, g, e, 8)
        c.eq('ser', 'R', OR(AND(parts['irlo'], 0x80, 8), AND(parts['r'], 0x7f, 8), 8), m.r, 8)


def into_model(m, fr, to):
    """the state as it is in CPU kind `to` after coming from serialized kind `fr`"""
    if to == 'cmos':
        m.fm = m.lfm = True
    elif fr == 'cmos':
        m.fm = m.lfm = False
    m.fl = to
    return m


class RoundTask(CpuTask):
    """serialize, then deserialize into a CPU of kind `to` (or Z80Any)"""

    def __init__(self, prog, fl, to, wrapped=False, sflags=0, dflags=0, fixed=None):
        CpuTask.__init__(self, prog, fl, 'round', fixed=fixed)
        self.to, self.wrapped, self.sflags, self.dflags = to, wrapped, sflags, dflags

    def describe(self):
        return 'round trip %s%s to %s flags=%x/%x %s' % (self.fl, ' in Z80Any' if self.wrapped else '', self.to, self.sflags, self.dflags, self.fixed)

    def left(self, ctx):
        c, fn = (wrap(ctx, self.fl), 'any') if self.wrapped else (ctx.cpu, self.fl)
        b = ctx.alloc(BUF)
        n = conc(ctx, ctx.call(fn + '_ser', c, b, self.sflags))
        d = ctx.alloc(ctx.call(self.to + '_size'))
        e = conc(ctx, ctx.call(self.to + '_de', d, b, n, self.sflags | self.dflags))
        if e:
            return e, None, None, None
        k = eq = None
        if self.to == 'any':
            k = kind_of(ctx, d)
            if self.wrapped:
                eq = ctx.call('any_eq', c, d)
        elif self.to == self.fl and not self.wrapped:
            eq = ctx.call(self.fl + '_eq', c, d)
        ctx.call(self.to + '_obs', d, ctx.p)
        return e, k, eq, read_p(ctx, ctx.p)

    def right(self, ctx):
        m = self.ref(ctx)
        to = self.fl if self.to == 'any' else self.to
        return model_p(into_model(m, self.fl, to))

    def compare(self, c, l, r, lo_, ro):
        e, k, eq, p = lo_
        c.eq('ser', 'deserialization error', e, 0, 32)
        if e:
            return
        if k is not None:
            i = list(NAMES).index(self.fl)
            c.eq('ser', 'variant', k, i | 0x100 << i | len(NAMES[self.fl]) << 16, 32)
        if eq is not None:
            c.eq('ser', 'equal to the original', eq & 0xff if type(eq) is int else llir.op_trunc(eq, 8), 1, 8)
        self.compare_state(c, p, ro)


class DeTask(CpuTask):
    """deserialize a composed input.  keys: list of field names in input order
    ('afAlt' or 'af_alt'; '?x' an unknown key); shape: 'map', 'struct',
    'compact', 'seq' (hint None), 'seqN' (hint N)"""

    def __init__(self, prog, to, keys, shape='map', kind='nmos', flags=0, rp='u16', inner='map', tag=None, fixed=None, flkeys=None):
        CpuTask.__init__(self, prog, to if to != 'any' else 'nmos', 'de', fixed=fixed)
        self.to, self.keys, self.shape, self.kind, self.flags, self.rpf, self.inner = to, list(keys), shape, kind, flags, rp, inner
        self.tag = tag if tag is not None else NAMES[kind]
        self.flkeys = ['flagsModified', 'lastFlagsModified'] if flkeys is None else list(flkeys)

    def describe(self):
        return 'deserialize %s from %s %s tag=%s flags=%x pairs=%s inner=%s,%s keys=%s' % (
            self.to, self.kind, self.shape, self.tag, self.flags, self.rpf, self.inner, self.flkeys, ','.join(self.keys))

    def inputs(self):
        st = CpuTask.inputs(self)
        st['irlo'] = z3.BitVec('irlo', 8)
        st['halt8'], st['ei8'] = z3.Bool('halt8'), z3.Bool('ei8')
        st['im'] = self.fixed.get('im', 1)
        return st

    def prepare(self, ctx, side):
        pass

    def model(self, ctx):
        st = {k: v for k, v in ctx.st.items() if k not in ('irlo', 'halt8', 'ei8')}
        # r7 is the value of field r, irlo the low byte of field ir
        st['rd'] = 0
        m = Ref(ctx.X, ctx.env, self.kind, model_state(st, self.kind))
        m.r = ctx.st['r7']
        m.halt, m.ei = ctx.st['halt8'], ctx.st['ei8']
        return m

    def toks(self, ctx):
        m = self.model(ctx)
        cm = self.shape == 'compact'
        P = model_p_sym(m)
        rp = lambda n: trp(P[n], self.rpf)
        inn = (lambda name, fs: tstruct(name, fs, cm)) if cm or self.inner == 'struct' else \
            (lambda name, fs: tseq([t for _, t in fs], len(fs))) if self.inner == 'seq' else (lambda name, fs: tmap(fs))
        fmt = {'flagsModified': tbool(m.fm), 'lastFlagsModified': tbool(m.lfm), 'flags_modified': tbool(m.fm), 'last_flags_modified': tbool(m.lfm)}
        t = {
            'type': tstr(self.tag), 'af': rp('af'), 'afAlt': rp('af2'), 'pc': rp('pc'), 'sp': rp('sp'), 'memptr': rp('memptr'),
            'regs': inn('GeneralRegisters', [(n, rp(n)) for n in ('bc', 'de', 'hl')]),
            'regsAlt': inn('GeneralRegisters', [(n, rp(n + '2')) for n in ('bc', 'de', 'hl')]),
            'index': inn('IndexRegisters', [(n, rp(n)) for n in ('ix', 'iy')]),
            'lastEi': tbool(m.ei), 'ir': trp(w16(m.i, ctx.st['irlo']), self.rpf), 'im': tim(m.im), 'iff1': tbool(m.iff1), 'iff2': tbool(m.iff2),
            'halt': tbool(m.halt), 'prefix': tprefix(m.prefix), 'r': tnum(m.r, 8),
            'flavour': inn('NMOS', [(k, fmt[k]) for k in self.flkeys]),
        }
        for k, s in SNAKE.items():
            t[s] = t[k]
        items = [(k, t[k] if k in t else tnum(0, 8)) for k in self.keys]
        if self.shape == 'map':
            return tmap(items)
        if self.shape in ('struct', 'compact'):
            return tstruct('Z80', items, cm)
        return tseq([x for _, x in items], int(self.shape[3:] or 255))

    def left(self, ctx):
        t = self.toks(ctx)
        b = put(ctx, t)
        d = ctx.alloc(ctx.call(self.to + '_size'))
        e = conc(ctx, ctx.call(self.to + '_de', d, b, len(t), self.flags | (COMPACT if self.shape == 'compact' else 0)))
        if e:
            return e, None, None
        k = kind_of(ctx, d) if self.to == 'any' else None
        from cpucheck import PSIZE
        p = ctx.alloc(PSIZE)
        ctx.call(self.to + '_obs', d, p)
        return e, k, read_p(ctx, p)

    def right(self, ctx):
        m = self.model(ctx)
        names = [next((k for k, s in SNAKE.items() if s == n), n) for n in self.keys]
        seq = self.shape.startswith('seq') or self.shape == 'compact'
        kinds = {v: k for k, v in NAMES.items()}
        if seq:
            ok = names == FIELDS[1:] and self.shape == 'seq17' or names == FIELDS and self.shape != 'seq17' and self.tag in kinds
            tag = self.tag if 'type' in names else 'NMOS'
            flav = self.flkeys_seen()
        else:
            ok = len(set(names)) == len(names) and set(names) <= set(FIELDS) and set(FIELDS) - {'type', 'memptr', 'r', 'flavour'} <= set(names)
            tag = self.tag if 'type' in names else 'NMOS'
            if self.to == 'any' and tag not in kinds:
                ok = False
            flav = self.flkeys_seen() if 'flavour' in names else (False, False)
            if 'memptr' not in names:
                m.memptr = 0
            if 'r' not in names:
                m.r = ctx.st['irlo']
        if not ok:
            return None
        m.r = OR(AND(ctx.st['irlo'], 0x80, 8), AND(m.r, 0x7f, 8), 8)
        m.fm, m.lfm = (m.fm if flav[0] else False), (m.lfm if flav[1] else False)
        to = kinds[tag] if self.to == 'any' else self.to
        if to == 'cmos':
            m.fm = m.lfm = True
        return to, model_p_sym(m)

    def flkeys_seen(self):
        return any(k in self.flkeys for k in ('flagsModified', 'flags_modified')), any(k in self.flkeys for k in ('lastFlagsModified', 'last_flags_modified'))

    def compare(self, c, l, r, lo_, ro):
        e, k, p = lo_
        if ro is None:
            c.holds('ser', 'the input is rejected', e != 0)
            return
        c.eq('ser', 'deserialization error', e, 0, 32)
        if e:
            return
        if k is not None:
            i = list(NAMES).index(ro[0])
            c.eq('ser', 'variant', k, i | 0x100 << i | len(NAMES[ro[0]]) << 16, 32)
        self.compare_state(c, p, ro[1])


def model_p_sym(m):
    """model_p, for symbolic halt and EI flags"""
    halt, ei = m.halt, m.ei
    m.halt = m.ei = False
    f = model_p(m)
    m.halt, m.ei = halt, ei
    f['halt'], f['ei'] = zext1(halt, 8), zext1(ei, 8)
    ok = llir.bool_and(None, llir.b_not(ei), not m.prefix)
    f['nmi_ok'] = zext1(ok, 8)
    f['irq_ok'] = zext1(llir.bool_and(None, ok, m.iff1), 8)
    return f


class PairValTask(Task):
    """a RegisterPair (value type) from every accepted kind of input"""

    def __init__(self, prog, form, n=0, flags=0):
        Task.__init__(self, prog)
        self.form, self.n, self.flags = form, n, flags

    def describe(self):
        return 'RegisterPair from %s n=%d flags=%x' % (self.form, self.n, self.flags)

    def make_env(self, resp, side):
        return CpuEnv(resp, side == 'left')

    def inputs(self):
        if self.form in ('str', 'seq'):
            return {'b%d' % i: z3.BitVec('b%d' % i, 8) for i in range(self.n)}
        return {'v': z3.BitVec('v', int(self.form[1:]))} if self.form[1:].isdigit() else {}

    def constraints(self, st):
        if self.form == 'str':
            # ASCII; a sign in front of the digits is outside the claim
            return [z3.ULE(st['b%d' % i], 0x7f) for i in range(self.n)] + [st['b%d' % i] != ord('+') for i in range(self.n)] + \
                [st['b%d' % i] != ord('-') for i in range(self.n)]
        return []

    def left(self, ctx):
        st = ctx.st
        bs = [st['b%d' % i] for i in range(self.n)] if self.form in ('str', 'seq') else None
        if self.form == 'str':
            t = [ord('S'), self.n] + bs
        elif self.form == 'seq':
            t = tseq([tnum(b, 8) for b in bs], self.n)
        elif self.form == 'unit':
            t = [ord('U')]
        elif self.form == 'bool':
            t = [ord('B'), 1]
        elif self.form == 'map':
            t = tmap([])
        else:
            w = int(self.form[1:])
            t = tnum(st['v'], w, self.form[0])
        o = ctx.alloc(8, [0] * 8)
        e = m32(ctx.call('rp_de', o, put(ctx, t), len(t), self.flags))
        bad = ctx.X.branch(llir.cmp_ne(e, 0, 32))
        return int(bad), 0 if bad else ctx.load(o, 8)

    def right(self, ctx):
        st = ctx.st
        if self.form == 'str':
            b = [st['b%d' % i] for i in range(self.n)]
            br = ctx.X.branch
            if b and br(llir.cmp_eq(b[0], ord('$'), 8)):
                b = b[1:]
            elif len(b) > 1 and br(llir.cmp_eq(b[0], ord('0'), 8)) and br(llir.cmp_eq(b[1], ord('x'), 8)):
                b = b[2:]
            if not b:
                return 1, 0
            v = 0
            for x in b:
                d, ok = hexdigit(x)
                if not br(ok):
                    return 1, 0
                if not br(llir.cmp_eq(AND(v, 0xF000, 64), 0, 64)):
                    return 1, 0
                v = OR(llir.op_shl(None, v, 4, 64), z64(d, 8), 64)
            return 0, v
        if self.form == 'seq':
            return (0, z64(w16(st['b1'], st['b0']), 16)) if self.n == 2 else (1, 0)
        if self.form in ('unit', 'bool', 'map'):
            return 1, 0
        w = int(self.form[1:])
        v = st['v']
        if self.form[0] == 'u':
            v = z64(v, w)
            ok = llir.cmp_eq(llir.op_lshr(None, v, 16, 64), 0, 64)
        else:
            v = llir.op_sext(v, w, 64) if w < 64 else v
            hi48 = llir.op_lshr(None, v, 15, 64)
            ok = llir.bool_or(None, llir.cmp_eq(llir.op_lshr(None, v, 16, 64), 0, 64), llir.cmp_eq(hi48, (1 << 49) - 1, 64))
        if ctx.X.branch(ok):
            return 0, AND(v, 0xffff, 64)
        return 1, 0

    def compare(self, c, l, r, lo_, ro):
        c.eq('ser', 'rejected', lo_[0], ro[0], 8)
        c.eq('ser', 'value', lo_[1], ro[1], 64)


def hexdigit(x):
    dig = llir.cmp_ult(SUB(x, 48, 8), 10, 8)
    low = AND(x, 0xDF, 8)
    alp = llir.cmp_ult(SUB(low, 65, 8), 6, 8)
    return ite(dig, SUB(x, 48, 8), SUB(low, 55, 8), 8), llir.bool_or(None, dig, alp)


class ValTask(Task):
    """value types: exact tokens, and back"""

    def __init__(self, prog, ty, v=None, flags=0, bad=None):
        Task.__init__(self, prog)
        self.ty, self.v, self.flags, self.bad = ty, v, flags, bad

    def describe(self):
        return 'value %s %s flags=%x %s' % (self.ty, self.v, self.flags, self.bad or '')

    def make_env(self, resp, side):
        return CpuEnv(resp, side == 'left')

    def inputs(self):
        w = {'rp': 16, 'ts16': 16, 'ts32': 32, 'ts64': 64}.get(self.ty)
        return {'v': z3.BitVec('v', w) if w else self.v}

    def exp(self, st):
        v = st['v']
        if self.ty == 'rp':
            return tnum(v, 16)
        if self.ty[:2] == 'ts':
            w = int(self.ty[2:])
            return tnum(v, w, 'i' if w == 32 else 'u')
        return tim(v) if self.ty == 'im' else tprefix(v)[1:]

    def left(self, ctx):
        b = ctx.alloc(64, [0] * 64)
        v = ctx.st['v']
        w = {'rp': 16, 'ts16': 16, 'ts32': 32}.get(self.ty, 64)
        o = ctx.alloc(8, [0] * 8)
        if self.bad is not None:
            t = [ord('V'), self.bad[0]] + raw(self.bad[1])
            e = conc(ctx, ctx.call(self.ty + '_de', o, put(ctx, t), len(t), self.flags))
            return int(e != 0)
        n = conc(ctx, ctx.call(self.ty + '_ser', z64(v, w), b, self.flags))
        toks = [ctx.load(b + i, 1) for i in range(n)] if n < 64 else []
        e = conc(ctx, ctx.call(self.ty + '_de', o, b, n, self.flags))
        return n, toks, e, ctx.load(o, 8)

    def right(self, ctx):
        return self.exp(ctx.st) if self.bad is None else None

    def compare(self, c, l, r, lo_, ro):
        if ro is None:
            c.eq('ser', 'rejected', lo_, 1, 8)
            return
        n, toks, e, v = lo_
        c.eq('ser', 'length', n, len(ro), 32)
        for i, (a, b) in enumerate(zip(toks, ro)):
            c.eq('ser', 'byte %d' % i, a, b, 8)
        c.eq('ser', 'error', e, 0, 32)
        w = {'rp': 16, 'ts16': 16, 'ts32': 32}.get(self.ty, 64)
        c.eq('ser', 'value', v, z64(l.st['v'], w), 64)
