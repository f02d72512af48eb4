"""The checks: which scenarios decide which property."""
import scen
from scen import select, with_fetch

PROPS = {}
FLAVOURS = ('nmos', 'cmos', 'bm1')

CPU_ASSUMPTIONS = [
    'bus answers (memory, opcode, port, interrupt vector bytes; wait states; break requests; is_irq) are arbitrary values, one symbol per access, '
    'the same for the code and for the reference',
    'memory is a stateless stub: a read after a write of the same address inside one step is an independent symbol '
    '(order, address and value of every access are compared instead)',
    'the oracle is an independent Z80 reference model (engine/z80ref.py) written from the documented instruction semantics',
    'the instance verified is the generic CPU over one harness clock/bus type (cpuh.rs), all three flavours',
]
CPU_BOUNDS = ('one instruction per scenario (every opcode of the unprefixed, CB, ED, DD/FD and DDCB/FDCB tables, with each pending prefix), '
              'from an arbitrary CPU state: all registers, both alternate sets, MEMPTR, I, R (also after add_r), IM, IFF1/2, Q state symbolic; '
              'operands, displacements and bus answers symbolic')


class Prop:
    crate = 'harness'
    level = 'model_checking'
    slow_first = None
    maxtasks = None
    chunk = 4
    replayable = True
    core = False            # load the IR of the standard library's core

    def __init__(self, pid, quick, thorough=None, bounds='', assumptions=(), **kw):
        self.pid, self._q, self._t, self._b = pid, quick, thorough or quick, bounds
        self.assumptions = list(assumptions)
        self.__dict__.update(kw)
        PROPS[pid] = self

    def specs(self, tier):
        return list(self._q() if tier == 'quick' else self._t())

    def bounds(self, tier):
        return self._b if isinstance(self._b, str) else self._b(tier)


def cpu(fl, entry, **kw):
    return ('cpucheck', 'CpuTask', dict(fl=fl, entry=entry, **kw))


def isa_specs(tags, facets, without=(), fields=None, entry='instr', flavours=FLAVOURS, filt=None):
    def gen():
        for fl in flavours:
            for s in select(tags, without):
                if filt and not filt(s):
                    continue
                fx = {'prefix': s.prefix} if s.prefix else {}
                kw = dict(op=s.op, script=s.script, fixed=fx, facets=facets)
                if entry in ('next', 'nextd'):
                    kw['script'] = with_fetch(s)
                    kw['fixed'] = dict(fx, iff1=False)
                if fields:
                    kw['fields'] = fields
                yield cpu(fl, entry, **kw)
    return gen


def both(*gens):
    def gen():
        for g in gens:
            yield from g()
    return gen


def isa_prop(pid, tags, facets, without=(), filt=None, extra=None, entry='instr'):
    q = isa_specs(tags, facets, without, filt=filt, entry=entry)
    t = both(q, isa_specs(tags, facets, without, filt=filt, entry='next'),
             isa_specs(tags, facets, without, filt=filt, entry='instrd'))
    if extra:
        q, t = both(q, extra), both(t, extra)
    return Prop(pid, q, t, CPU_BOUNDS, CPU_ASSUMPTIONS)


FUNC = ('regs', 'data', 'res')
isa_prop('C01', ['alu8'], FUNC)
isa_prop('C02', ['rot', 'bit'], FUNC)
isa_prop('C03', ['arith16'], FUNC)
isa_prop('C04', ['load', 'exch', 'stack', 'misc'], FUNC)
isa_prop('C05', ['flow'], FUNC)
isa_prop('C06', ['block'], FUNC)
isa_prop('C07', ['io'], FUNC + ('clk',))
isa_prop('C08', None, ('clk',), entry='next')
isa_prop('C10', None, ('data',), entry='next')
isa_prop('C11', None, ('memptr',))
isa_prop('C12', None, ('r', 'ir'), entry='next')


def step(fl, k, codes, script=None, **kw):
    sc = dict(script or {})
    sc.setdefault('vec', [0, 0, 0, 0])
    sc['rdop'] = list(codes) + list(sc.get('rdop', []))
    return ('cpucheck', 'StepTask', dict(fl=fl, k=k, script=sc, **kw))


NOIRQ0 = {(0, 0): False}


def prefix_specs(tier):
    """prefix chains of up to two (quick) or three prefixes, then each instruction"""
    def gen():
        chains = [(0xDD,), (0xFD,), (0xDD, 0xFD), (0xFD, 0xDD), (0xDD, 0xDD), (0xFD, 0xFD)]
        if tier == 'thorough':
            chains += [(a, b, c) for a in (0xDD, 0xFD) for b in (0xDD, 0xFD) for c in (0xDD, 0xFD)]
        for fl in FLAVOURS:
            for ch in chains:
                if tier == 'quick' and len(ch) > 1 and fl != 'nmos':
                    continue
                for s in scen.ISA:
                    if s.prefix != ch[-1] or s.op in (0xDD, 0xFD):
                        continue
                    sc = dict(s.script or {})
                    sc['irq'] = NOIRQ0
                    yield step(fl, len(ch) + 1, ch + (s.op,), script=sc)
    return gen


Prop('C09', prefix_specs('quick'), prefix_specs('thorough'),
     lambda t: 'chains of at most %d DD/FD prefix bytes followed by every opcode of every table; arbitrary initial CPU state; an interrupt request '
               'may be pending at any point after the first byte' % (2 if t == 'quick' else 3), CPU_ASSUMPTIONS)


CONT = [dict(), dict(ei=True), dict(prefix=0xDD), dict(prefix=0xFD), dict(halt=True), dict(halt=True, ei=True), dict(halt=True, prefix=0xFD)]


def irq_specs(tier):
    def gen():
        for fl in FLAVOURS:
            for fx in CONT:
                for en in ('irq', 'irqd', 'next'):
                    pend = {'irq': {(0, 0): True}} if en == 'next' else {}
                    for im in (1, 2):
                        yield cpu(fl, en, fixed=dict(fx, im=im), script=dict(pend, rdop=[0x00]))
                    if fx.get('ei') or fx.get('prefix'):
                        yield cpu(fl, en, fixed=dict(fx, im=0), script=dict(pend, rdop=[0x00], vec=[0x00]))
                        continue
                    for op in range(256):
                        if tier == 'quick' and en != 'irq' and op not in (0, 0x76, 0xC7, 0xFF, 0xCD, 0xFB, 0xDD, 0xED, 0xCB, 0xD3, 0xDB):
                            continue
                        if op in (0xCB, 0xED):
                            for o2 in range(256):
                                if tier == 'quick' and (o2 % 8 != 5 if op == 0xED else o2 % 16):
                                    continue
                                yield cpu(fl, en, fixed=dict(fx, im=0), script=dict(pend, vec=[op], rdop=[o2]))
                        else:
                            yield cpu(fl, en, fixed=dict(fx, im=0), script=dict(pend, vec=[op], rdop=[0x00]))
    return gen


Prop('C13', irq_specs('quick'), irq_specs('thorough'),
     'one interrupt request (irq() or a pending request seen by execute_next) in an arbitrary CPU state, running, halted, after EI, after DD/FD; '
     'IM 0 with every first opcode byte on the bus, IM 1, IM 2; vector byte, I, memory and wait states symbolic', CPU_ASSUMPTIONS)


def nmi_specs():
    for fl in FLAVOURS:
        for fx in CONT:
            yield cpu(fl, 'nmi', fixed=fx)


Prop('C14', nmi_specs, None, 'one NMI request in an arbitrary CPU state, running, halted, after EI, after DD/FD', CPU_ASSUMPTIONS)


ICODES = [(0x00,), (0xFB,), (0xF3,), (0xED, 0x45), (0xED, 0x4D), (0xED, 0x5D), (0xDD,), (0xFD,), (0x76,), (0xED, 0x56), (0xED, 0x5E), (0xED, 0x46),
          (0xED, 0x57), (0x37,), (0xC9,), (0xD3,)]


def inten_specs(tier):
    base = isa_specs(['inten'], ('int', 'res', 'data', 'regs'))

    def gen():
        yield from base()
        for fl in FLAVOURS:
            F = ('int', 'res', 'data', 'regs', 'clk', 'r')
            for im in (1, 2):
                for fx in CONT:
                    for a in ICODES:
                        yield step(fl, 2 if tier == 'quick' else 3, a + (0, 0, 0), fixed=dict(fx, im=im), facets=F)
                for a in ICODES:
                    for b in ICODES:
                        yield step(fl, 3, a + b + (0, 0), fixed=dict(im=im), script={'irq': NOIRQ0}, facets=F)
                yield step(fl, 4, (0xFB, 0xFB, 0x00, 0x00), fixed=dict(im=im), facets=F)
                yield step(fl, 4, (0, 0, 0, 0), fixed=dict(im=im, halt=True), facets=F)
            for a in ICODES:
                yield step(fl, 3, a + (0, 0, 0), fixed=dict(im=0), script={'irq': NOIRQ0, 'vec': [0xFB, 0]}, facets=F)
    return gen


Prop('C15', inten_specs('quick'), inten_specs('thorough'),
     'every DI/EI/HALT/IM/RETN/RETI form once from an arbitrary state, and sequences of 2 to 4 steps over NOP, EI, DI, HALT, IM, RETN, RETI, '
     'prefixes, LD A,I, SCF, RET, OUT with a possible interrupt request at every poll (IM 0 with EI/NOP supplied, IM 1, IM 2)', CPU_ASSUMPTIONS)


def limit(fl, k, codes=None, script=None, **kw):
    sc = dict(script or {})
    if codes is not None:
        sc['rdop'] = list(codes) + list(sc.get('rdop', []))
    sc.setdefault('vec', [0, 0, 0])
    return ('cpucheck', 'LimitTask', dict(fl=fl, k=k, script=sc, **kw))


def long_limit(fl, n, seed):
    """n fixed instructions in a row, fixed register contents and memory, symbolic PC and SP"""
    import random
    rng = random.Random(seed)
    ok = [s for s in scen.ISA if not (s.prefix and 'cbtab' in s.tags) and not s.tags & {'block', 'flow', 'pxed', 'prefix'} and s.op not in (0x76, 0xF3)
          and not (s.op == 0xED and s.tags & {'inten', 'ldair'})]
    codes, steps = [], 0
    for s in [rng.choice(ok) for _ in range(n)]:
        codes += ([s.prefix] if s.prefix else []) + list(s.code)
        steps += 2 if s.prefix else 1
    st = {r: rng.randrange(256) for r in ['a', 'f', 'b', 'c', 'd', 'e', 'h', 'l', 'a2', 'f2', 'b2', 'c2', 'd2', 'e2', 'h2', 'l2', 'i', 'r7', 'rd']}
    st.update({r: rng.randrange(65536) for r in ['ix', 'iy', 'memptr']}, im=1, iff1=True, iff2=False, fm=False, lfm=False)
    by = lambda m: [rng.randrange(m) for _ in range(3 * steps)]
    return limit(fl, steps, codes, {'irq': False, 'past': False, 'rd': by(256), 'in': by(256), 'inw': by(3), 'outw': by(3), 'outf': [False] * steps},
                 fixed=st)


def limit_specs(tier):
    def gen():
        for fl in FLAVOURS:
            for seed in range(2 if tier == 'quick' else 8):
                yield long_limit(fl, 400, seed)
        for fl in FLAVOURS:
            # every instruction, alone
            for s in scen.ISA:
                if 'pxed' in s.tags and tier == 'quick' and s.prefix == 0xFD:
                    continue
                sc = with_fetch(s)
                sc['past'] = {0: False}
                fx = {'prefix': s.prefix} if s.prefix else {'im': 1}
                if not s.prefix:
                    sc['irq'] = NOIRQ0
                yield limit(fl, 1, None, sc, fixed=fx)
            # every unprefixed instruction followed by one that reads hidden state
            for s in scen.ISA:
                if s.prefix or (tier == 'quick' and 'cbtab' in s.tags and s.code[1] % 8 != 6):
                    continue
                for b in ((0x37,), (0xED, 0x5F)):
                    yield limit(fl, 2, None, dict(with_fetch(s), rdop=list(s.code) + list(b), irq=NOIRQ0), fixed=dict(im=1))
            # interrupt-related sequences
            for im in (0, 1, 2):
                for fx in CONT:
                    for a in ICODES:
                        for vec in ((0, 0), (0xFB, 0), (0xDD, 0), (0x76, 0)) if im == 0 else ((0, 0),):
                            if tier == 'quick' and fl != 'nmos' and vec[0] and a[0] not in (0, 0xFB):
                                continue
                            yield limit(fl, 3, a + (0, 0, 0), {'vec': list(vec)}, fixed=dict(fx, im=im))
                for a in ICODES:
                    for b in ICODES:
                        if tier == 'quick' and fl != 'nmos' and (a, b)[im % 2] not in ICODES[:3]:
                            continue
                        yield limit(fl, 3, a + b + (0, 0), {'vec': [0, 0, 0]} if im else {'vec': [0xFB, 0, 0]}, fixed=dict(im=im))
                        if tier == 'thorough':
                            for d in ICODES:
                                yield limit(fl, 4, a + b + d + (0, 0), fixed=dict(im=im), script={'irq': NOIRQ0})
    return gen


Prop('C16', limit_specs('quick'), limit_specs('thorough'),
     lambda t: 'one call of execute_with_limit of at most %d steps against the same number of execute_next calls; every opcode alone, every '
               'unprefixed opcode followed by SCF and by LD A,R, and all pairs of 16 interrupt-related instructions; symbolic is_irq and '
               'is_past_limit at every clock value; runs of 400 fixed instructions with fixed data and symbolic PC and SP' % (3 if t == 'quick' else 4),
     CPU_ASSUMPTIONS + ['is_irq answers as a function of the clock and of the accesses made so far; how often and when it is asked is compared'])


def dbg_specs(tier):
    def gen():
        for fl in FLAVOURS:
            for s in scen.ISA:
                fx = {'prefix': s.prefix} if s.prefix else {}
                yield ('cpucheck', 'PairTask', dict(fl=fl, entry='instr', entry2='instrd', op=s.op, script=s.script, fixed=fx))
                if tier == 'thorough':
                    yield ('cpucheck', 'PairTask', dict(fl=fl, entry='next', entry2='nextd', script=with_fetch(s), fixed=dict(fx, iff1=False)))
            for fx in CONT:
                for im in (0, 1, 2):
                    for v in range(256) if tier == 'thorough' or fl == 'nmos' else (0, 0x76, 0xC7, 0xFF, 0xCD, 0xFB, 0xDD, 0xED, 0xCB, 0xD3, 0xDB):
                        if v and im:
                            continue
                        yield ('cpucheck', 'PairTask', dict(fl=fl, entry='irq', entry2='irqd', script={'rdop': [0], 'vec': [v]}, fixed=dict(fx, im=im)))
                    yield ('cpucheck', 'PairTask', dict(fl=fl, entry='next', entry2='nextd', script={'rdop': [0], 'vec': [0]}, fixed=dict(fx, im=im)))
    return gen


Prop('C20', dbg_specs('quick'), dbg_specs('thorough'), CPU_BOUNDS + '; the same for irq() and execute_next with a possible interrupt', CPU_ASSUMPTIONS[:2])


def dbgc_specs(tier):
    def gen():
        for fl in FLAVOURS:
            for s in scen.ISA:
                fx = {'prefix': s.prefix} if s.prefix else {}
                yield ('cpucheck', 'DbgTask', dict(fl=fl, entry='nextd', code=s.code, script=with_fetch(s), fixed=dict(fx, iff1=False)))
    return gen


Prop('C21', dbgc_specs('quick'), dbgc_specs('thorough'), CPU_BOUNDS, CPU_ASSUMPTIONS[:2])


def q_specs(tier):
    one = isa_specs(None, ('q',), entry='next')

    def gen():
        yield from one()
        for fl in FLAVOURS:
            for x in ((0x37,), (0x3F,)):
                for fx in (dict(), dict(fm=True), dict(fm=False)):
                    for y in (0xDD, 0xFD, None):
                        yield step(fl, 2 if y else 1, ((y,) if y else ()) + x, fixed=fx, script={'irq': NOIRQ0}, facets=('regs', 'q'))
            # what the previous step leaves behind, seen through SCF and CCF
            for s in scen.ISA:
                if s.prefix or (tier == 'quick' and (fl == 'cmos' or ('cbtab' in s.tags and s.code[1] % 8 not in (0, 6)))):
                    continue
                for x in (0x37, 0x3F):
                    if tier == 'quick' and x == 0x3F and s.tags & {'cbtab', 'ed'}:
                        continue
                    sc = with_fetch(s)
                    sc['irq'] = NOIRQ0
                    yield step(fl, 2, s.code + (x,), script={k: v for k, v in sc.items() if k != 'rdop'}, fixed=dict(iff1=False), facets=('regs', 'q'))
            for im in (1, 2):
                yield step(fl, 2, (0x37,), fixed=dict(im=im), script={'irq': {(0, 0): True}}, facets=('regs', 'q'))
            yield step(fl, 2, (0x37,), fixed=dict(im=0), script={'irq': {(0, 0): True}, 'vec': [0xC7]}, facets=('regs', 'q'))
            yield step(fl, 2, (0x37,), fixed=dict(halt=True), script={'irq': {(0, 0): False}}, facets=('regs', 'q'))
            for fx in CONT:
                yield cpu(fl, 'nmi', fixed=fx, facets=('q',))
                for im in (0, 1, 2):
                    yield cpu(fl, 'irq', fixed=dict(fx, im=im), script={'rdop': [0], 'vec': [0xC7] if im == 0 else None}, facets=('q',))
    return gen


Prop('C17', q_specs('quick'), q_specs('thorough'),
     CPU_BOUNDS + '; SCF and CCF after every unprefixed instruction (two steps), after a prefix, an idle HALT cycle and an accepted maskable or non-maskable interrupt', CPU_ASSUMPTIONS)


def ldair_specs(tier):
    one = isa_specs(['ldair'], None)
    nxt = isa_specs(['ldair'], None, entry='next')

    def gen():
        yield from one()
        yield from nxt()
        for fl in FLAVOURS:
            for x in (0x57, 0x5F):
                for im in (0, 1, 2):
                    for fx in (dict(), dict(ei=True)):
                        yield step(fl, 2, (0xED, x, 0), fixed=dict(fx, im=im))
                    for a in ((0xFB,), (0xF3,), (0xDD,), (0xED, 0x47), (0xED, 0x4F), (0xED, 0x45), (0x76,)):
                        yield step(fl, 3, a + (0xED, x, 0), fixed=dict(im=im), script={'irq': NOIRQ0})
                    if tier == 'thorough':
                        for a in ICODES:
                            yield step(fl, 4, a + (0xED, x, 0, 0), fixed=dict(im=im))
    return gen


Prop('C18', ldair_specs('quick'), ldair_specs('thorough'),
     'LD A,I, LD A,R, LD I,A and LD R,A from an arbitrary CPU state, alone and in sequences of 2 to 4 steps with EI, DI, prefixes, RETN and a possible '
     'interrupt request at every poll', CPU_ASSUMPTIONS)


def flav_specs(tier):
    def gen():
        for a, b in (('nmos', 'bm1'), ('nmos', 'cmos'), ('cmos', 'bm1')):
            if tier == 'quick' and (a, b) == ('cmos', 'bm1'):
                continue
            for s in scen.ISA:
                masks, kw = {}, {}
                if 'cmos' in (a, b):
                    masks = {'fm': 0, 'lfm': 0}
                    if s.op in (0x37, 0x3F) and s.code[0] == s.op:
                        masks['af'] = 0xFFD7
                    kw['anyout'] = s.code == (0xED, 0x71)
                if 'bm1' in (a, b) and s.code in ((0x32,), (0x02,), (0x12,), (0xD3,)):
                    masks['memptr'] = 0x00FF
                if 'nmos' in (a, b) and s.code in ((0xED, 0x57), (0xED, 0x5F)):
                    masks['af'] = 0xFFFB
                fx = {'prefix': s.prefix} if s.prefix else {}
                if s.prefix and s.code[0] in (0x32, 0x02, 0x12, 0xD3, 0x37, 0x3F) and 'bm1' in (a, b) and s.code[0] not in (0x37, 0x3F):
                    masks['memptr'] = 0x00FF
                yield ('cpucheck', 'FlavTask', dict(fl=a, fl2=b, entry='instr', op=s.op, script=s.script, fixed=fx, masks=masks, **kw))
                if tier == 'thorough':
                    yield ('cpucheck', 'FlavTask', dict(fl=a, fl2=b, entry='nextd', script=with_fetch(s), fixed=dict(fx, iff1=False), masks=masks, **kw))
            mq = {'fm': 0, 'lfm': 0} if 'cmos' in (a, b) else {}
            for fx in CONT:
                yield ('cpucheck', 'FlavTask', dict(fl=a, fl2=b, entry='nmi', fixed=fx, masks=mq))
                for im in (0, 1, 2):
                    for v in (0, 0x76, 0xC7, 0xFF, 0xCD, 0xFB, 0xDD):
                        if v and im:
                            continue
                        yield ('cpucheck', 'FlavTask', dict(fl=a, fl2=b, entry='irq', script={'rdop': [0], 'vec': [v]}, fixed=dict(fx, im=im), masks=mq))
    return gen


Prop('C19', flav_specs('quick'), flav_specs('thorough'), CPU_BOUNDS + '; the same for irq() and nmi()', CPU_ASSUMPTIONS[:2])


def poll_specs(tier):
    POLL = ('poll',)

    def gen():
        for fl in FLAVOURS:
            for s in scen.ISA:
                fx = {'prefix': s.prefix} if s.prefix else {}
                yield cpu(fl, 'instr', op=s.op, script=s.script, fixed=fx, facets=POLL)
                if s.prefix or tier == 'thorough' or 'ldair' in s.tags:
                    yield cpu(fl, 'next', script=dict(with_fetch(s), irq=NOIRQ0), fixed=fx, facets=POLL)
                else:
                    yield cpu(fl, 'next', script=dict(with_fetch(s), irq=NOIRQ0), facets=POLL)
            for fx in CONT:
                yield cpu(fl, 'nmi', fixed=fx, facets=POLL)
                for en in ('irq', 'irqd', 'next', 'nextd'):
                    for im in (1, 2):
                        yield cpu(fl, en, fixed=dict(fx, im=im), script=dict(rdop=[0x00]), facets=POLL)
                    for vec in (0x00, 0xFB, 0x76, 0xC7, 0xDD, 0xED, 0xCD):
                        yield cpu(fl, en, fixed=dict(fx, im=0), script=dict(rdop=[0x57 if vec == 0xED else 0x00], vec=[vec]), facets=POLL)
                for a in ICODES:
                    for im in (1, 2):
                        yield step(fl, 3, a + (0, 0, 0), fixed=dict(fx, im=im), facets=POLL)
                        yield limit(fl, 2 if tier == 'quick' else 3, a + (0, 0, 0), {'vec': [0, 0]}, fixed=dict(fx, im=im), facets=POLL)
            for s in scen.ISA:
                if s.prefix:
                    continue
                yield limit(fl, 2, None, dict(with_fetch(s), rdop=list(s.code) + [0], irq=NOIRQ0), fixed=dict(im=1), facets=POLL)
    return gen


Prop('C34', poll_specs('quick'), poll_specs('thorough'),
     lambda t: 'every opcode of every table by execute_instruction and execute_next; irq() and nmi(); sequences of 3 steps of 16 interrupt-related '
               'instructions, running, halted, after EI, after DD/FD; execute_with_limit of at most %d steps; symbolic answer of every sample' % (2 if t == 'quick' else 3),
     CPU_ASSUMPTIONS)
