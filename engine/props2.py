"""Checks around the CPU core (harness crate hapi)."""
from props import *
import scen


def api(fl, op, **kw):
    return ('apicheck', 'ApiTask', dict(fl=fl, op=op, **kw))


GETS = [(o, 0, 0) for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 19, 20, 21, 22)] + \
       [(10, s, p) for s in (0, 1, 2, 3, 4, 5, 7) for p in (0, 1, 2)] + [(o, s, 0) for o in (11, 12, 13, 14) for s in range(4)] + \
       [(o, 0, p) for o in (15, 16) for p in (1, 2)]
SETS = [(o, 0, 0) for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 14, 17, 18, 19, 20, 21, 22, 24)] + [(9, s, 0) for s in range(3)] + \
       [(10, s, p) for s in (0, 1, 2, 3, 4, 5, 7) for p in (0, 1, 2)] + [(o, s, 0) for o in (11, 13) for s in range(4)] + \
       [(o, 0, p) for o in (15, 16) for p in (1, 2)]


def api_specs(wrapped):
    def gen():
        for fl in FLAVOURS:
            for fx in CONT:
                for g, lst in ((True, GETS), (False, SETS)):
                    for o, s, p in lst:
                        if fx and not (o in (8, 17, 18, 19, 20, 21, 24) or (not g and o in (0, 4, 7, 9))):
                            continue
                        yield api(fl, o, s=s, p=p, get=g, wrapped=wrapped, fixed=fx)
    return gen


Prop('C25', api_specs(False), None, 'every accessor of the Cpu trait and of Z80 once, for every register, prefix and mode selector, from an arbitrary '
     'CPU state, with an arbitrary value', ['the CPU state is built and observed through the same public accessors'], crate='hapi')


def any_specs(tier):
    def gen():
        for k in range(4):
            yield ('apicheck', 'FreshTask', dict(fl=['nmos', 'cmos', 'bm1', 'nmos'][k], how=k))
        for n in range(0, 7):
            yield ('apicheck', 'TagTask', dict(n=n))
        for a in FLAVOURS:
            yield ('apicheck', 'EqTask', dict(fl=a, wrapped=True))
            for b in FLAVOURS:
                for how in ('into', 'from', 'any_from', 'any_into', 'any_into2', 'any_unwrap', 'any_unwrap2'):
                    for fx in CONT:
                        yield ('apicheck', 'ConvTask', dict(a=a, b=b, how=how, fixed=fx))
        yield from api_specs(True)()
        for fl in FLAVOURS:
            for s in scen.ISA:
                fx = {'prefix': s.prefix} if s.prefix else {}
                small = s.tags & {'cbtab', 'pxed', 'dd'}
                if tier == 'quick' and small and s.code[-1] % 8 != 6:
                    continue
                yield ('apicheck', 'AnyTask', dict(fl=fl, entry='instr', op=s.op, script=s.script, fixed=fx))
                if tier == 'thorough' or s.code in ((0x76,), (0xFB,), (0xED, 0x57), (0xED, 0x4D), (0xED, 0x71), (0xD3,), (0x37,), (0x10,), (0xED, 0xB0)):
                    yield ('apicheck', 'AnyTask', dict(fl=fl, entry='instrd', op=s.op, script=s.script, fixed=fx))
                    yield ('apicheck', 'AnyTask', dict(fl=fl, entry='nextd', script=with_fetch(s), fixed=dict(fx, im=1)))
                    yield ('apicheck', 'AnyTask', dict(fl=fl, entry='next', script=with_fetch(s), fixed=dict(fx, im=1)))
            for fx in CONT:
                yield ('apicheck', 'AnyTask', dict(fl=fl, entry='nmi', fixed=fx))
                for im in (0, 1, 2):
                    for en in ('irq', 'irqd', 'next', 'nextd', 'limit'):
                        yield ('apicheck', 'AnyTask', dict(fl=fl, entry=en, script={'rdop': [0, 0x37, 0, 0], 'vec': [0, 0, 0]}, fixed=dict(fx, im=im)))
    return gen


Prop('C23', any_specs('quick'), any_specs('thorough'),
     lambda t: 'every method of Cpu once on each variant of Z80Any against the CPU it wraps, from an arbitrary state (execute_* with %s), every conversion '
               'between flavours and through Z80Any; with_tag on every ASCII text of 0 to 6 bytes'
               % ('every opcode' if t == 'thorough' else 'every unprefixed and ED opcode and a quarter of the rest'), CPU_ASSUMPTIONS[:2], crate='hapi')


def fresh_specs():
    for fl in FLAVOURS:
        for how in ('init', 'fresh'):
            yield ('apicheck', 'FreshTask', dict(fl=fl, how=how))
        for fx in CONT:
            yield api(fl, 23, fixed=fx)
            yield api(fl, 23, wrapped=True, fixed=fx)
    for k in range(3):
        yield ('apicheck', 'FreshTask', dict(fl=FLAVOURS[k], how=k))
    for fl in FLAVOURS:
        yield ('apicheck', 'EqTask', dict(fl=fl))


Prop('C29', fresh_specs, None, 'reset() from an arbitrary CPU state, new(), Z80Any::new_*, clone()', [], crate='hapi')


def fn(name, model, ins, nout, fixed=None):
    return ('apicheck', 'FnTask', dict(fn=name, model=model, ins=ins, nout=nout, fixed=fixed))


def enum_specs():
    yield fn('v_prefix', 'prefix', [8], 2)
    yield fn('v_im', 'im', [8], 3)
    yield fn('v_reg8', 'reg8', [8], 3)
    yield fn('v_reg16', 'reg16', [8], 3)
    yield fn('v_stk16', 'stk16', [8], 3)
    yield fn('v_cond', 'cond', [8, 8], 6)
    for n in range(5):
        yield fn('v_condstr', 'condstr', [8] + [8] * 4, 1, {0: n})
    yield fn('v_flags', 'flags', [8], 7)
    yield fn('v_masks', 'masks', [8, 8], 23)
    for k in range(3):
        yield fn('v_cause', 'cause', [8, 8], 1, {0: k})


def const_specs():
    yield fn('v_opc', 'opc', [8, 8], 41)


Prop('C36', const_specs, None, 'every byte against every mask and base; every condition and restart code; every constant', [], crate='hapi', chunk=1)


Prop('C26', enum_specs, None, 'every conversion and predicate on every input byte; Condition::from_str on every text of 0 to 4 bytes', [], crate='hapi', chunk=1)


def pair_specs():
    yield fn('v_pair', 'pair', [16, 16, 8, 8], 20)


Prop('C31', pair_specs, None, 'every method of RegisterPair on arbitrary contents and arguments', [], crate='hapi', chunk=1)


def clock_specs():
    for t, w in (('u32', 32), ('i32', 32), ('u64', 64), ('i64', 64), ('u16', 16)):
        yield fn('v_tsc_' + t, 'tsc_' + t, [w, w, 16, 16], 17)


Prop('C27', clock_specs, None, 'each method once from an arbitrary counter with arbitrary arguments, for u16, u32, i32, u64, i64', [], crate='hapi', chunk=1)


def fwd_specs():
    for how in (1, 2, 3, 4):
        for f, n in (('w_clk', 8), ('w_io', 5), ('w_mem', 5)):
            for k in range(n):
                yield ('apicheck', 'FwdTask', dict(fn=f, how=how, k=k))
    for f in ('d_io', 'd_mem0', 'd_mem1'):
        for k in range(5):
            yield ('apicheck', 'DefTask', dict(fn=f, k=k))


Prop('C28', fwd_specs, None, 'each forwarded method once with arbitrary arguments and answers, for wrappers written with @, with @ref/@mut, with lists and single '
     'names, and nested three deep; each provided method of Io and Memory once', [], crate='hapi', chunk=1)


def dis(fl, mem, **kw):
    return ('apicheck', 'DisTask', dict(fl=fl, mem=list(mem), **kw))


# instructions that do not read memory: the start address stays symbolic
LONG = [[0xDD, 0x36, 1, 2, 0x00, 0x3E, 3, 0x32, 0x34, 0x12, 0x76, 0xFD, 0x21, 4, 5], [0xED, 0x43, 0, 0x80, 0xFB, 0xC3, 1, 2, 0xCD, 0xFF, 0xFF, 0x76],
        [0xCB, 0xC7, 0x10, 0x80, 0x01, 7, 8, 0xDD, 0xFD, 0xDD, 0x26, 9], [0x00]]


def dis_specs(tier):
    from apicheck import shape
    full = tier == 'thorough'

    def gen():
        sh = [(s, shape(s.prefix, s.code)) for s in scen.ISA if s.op not in (0xDD, 0xFD)]
        small = lambda s: s.tags & {'cbtab', 'pxed'} and s.code[-1] % 8 not in (1, 6)
        any_ = lambda s: s.code[-1] % 4 == 2
        for s, m in sh:
            for fl in ('nmos', 'cmos', 'bm1', 'any'):
                if not full and (small(s) or (fl != 'nmos' and not any_(s))):
                    continue
                yield dis(fl, m)
            if not full and small(s):
                continue
            for k in range(1, len(m)):                              # cut short
                if m[:k] != [s.prefix]:
                    yield dis('nmos', m[:k])
            yield dis('nmos', m, once=True)
            yield dis('nmos', m + [0x01, None], once=False)         # followed by an instruction that is cut short
        follow = [[0x00], [0xDD, 0x21, None, None], [0x76, 0x3E, None], [0xFB, 0x18, None], [0xFD, 0xCB, None, 0x46], [0xED, 0xB0, 0xED, 0x43, None, None],
                  [0xDD], [0xCB, 0x86], [0x37, 0x10, None], [0x70], [0xDD, 0x7E, None]]
        for i, (s, m) in enumerate(sh):
            if s.tags & {'cbtab', 'pxed'} and s.code[-1] % 16 != 6:
                continue
            for j, f in enumerate(follow):
                if full or (i + j) % 4 == 0 or s.code in ((0x76,), (0xFB,), (0xED, 0xB0), (0xED, 0x4D)):
                    yield dis('nmos', m + f)
        for fl in ('nmos', 'cmos', 'bm1', 'any'):
            for pre in ([0xDD], [0xFD], [0xDD, 0xFD], [0xFD, 0xDD, 0xDD], [0xDD, 0xDD, 0xDD, 0xDD]):
                yield dis(fl, pre)
                yield dis(fl, pre, once=True)
                for m in ([0x00], [0x21, None, None], [0x7E, None], [0xCB, None, 0x06], [0xCB, None, 0xFE], [0xED, 0x44], [0x66, None], [0x76], [0xEB],
                          [0x76, 0xDD, 0x36, None, None], [0xED, 0x4B, None, None, 0xE1], [0xCB, None], [0x36, None]):
                    yield dis(fl, pre + m)
                    yield dis(fl, pre + m, once=True)
            yield dis(fl, [])
            yield dis(fl, [], once=True)
            for stop in (1, 2, 3, 4):
                yield dis(fl, [0x3E, None, 0x76, 0xDD, 0x2A, None, None, 0x04], stop=stop)
                yield dis(fl, [0x76, 0x76, 0xFD, 0x76, 0x76], stop=stop)
            yield dis(fl, [0x3E, None, 0x04], once=True)
            yield dis(fl, [0xCD, None, None, 0xC9, 0xC3, None, None, 0xDD, 0xE9, 0xFF])
            yield dis(fl, [0xED, 0xB0, 0xED, 0xB8, 0xED, 0xB2, 0xED, 0xBB, 0xED, 0x45])
            yield dis(fl, [0xFB, 0xF3, 0xED, 0x5E, 0xED, 0x57, 0xED, 0x4D])
            yield dis(fl, [0x10, None, 0x20, None, 0x28, None, 0x38, None])
            yield dis(fl, [0xD3, None, 0xDB, None, 0xED, 0x78, 0xED, 0x71])
        # long chunks: past 256 bytes, past 64 kilobytes
        for i, fl in enumerate(('nmos', 'cmos', 'bm1', 'any')):
            for j, m in enumerate(LONG):
                if full or i == j:
                    yield dis(fl, m, repeat=(66000, 3000, 5000, 1000)[j])
    return gen


Prop('C22', dis_specs('quick'), dis_specs('thorough'),
     lambda t: 'chunks of one instruction (%s of every table and prefix, operand bytes and start address arbitrary), whole, cut at every byte and followed by '
               'another instruction; prefix chains of up to 4 bytes; sequences of up to 6 instructions in chunks of at most 10 bytes; four repeated '
               'patterns of fixed instructions in chunks of up to 66000 bytes' %
               ('every opcode' if t == 'thorough' else 'every opcode, CB and DD/FD ED tables sampled'), [], crate='hapi',
     slow_first=lambda s: -s[2].get('repeat', 0))


# ------------------------------------------------------------- serialization
def ser_specs(tier):
    full = tier == 'thorough'
    import sercheck as S

    def T(cls, **kw):
        return ('sercheck', cls, kw)

    FX = [dict(im=0), dict(im=1, prefix=0xDD), dict(im=2, prefix=0xFD), dict(im=2, ei=True, halt=True)]
    REQ = [f for f in S.FIELDS if f not in ('type', 'memptr', 'r', 'flavour')]

    def gen():
        for fl in FLAVOURS:
            for fx in FX:
                for wrapped in (False, True):
                    for compact in (0, 1):
                        yield T('SerTask', fl=fl, wrapped=wrapped, compact=compact, fixed=fx)
                        for to in [*FLAVOURS, 'any']:
                            yield T('RoundTask', fl=fl, to=to, wrapped=wrapped, sflags=compact, fixed=fx)
        for fl in FLAVOURS:
            for i, df in enumerate([S.KEYBORROW | S.STRBORROW, S.KEYOWNED | S.STROWNED, S.KEYBYTES, S.INDEX, S.WIDE, S.WIDEI, S.VINDEX]):
                for to in [*FLAVOURS, 'any'] if full else [fl, 'any']:
                    yield T('RoundTask', fl=fl, to=to, dflags=df, fixed=FX[(i + 1) % 3])
        def de(to, keys, **kw):
            return T('DeTask', to=to, keys=keys, **kw)
        F = S.FIELDS
        snake = [S.SNAKE.get(f, f) for f in F]
        for to in [*FLAVOURS, 'any']:
            for kind in FLAVOURS:
                pfx = {'prefix': 0xFD, 'im': 2} if kind == 'cmos' else {'im': 0} if kind == 'bm1' else {}
                yield de(to, F, kind=kind, fixed=pfx)
                yield de(to, F[::-1], kind=kind, fixed=pfx)
                yield de(to, F[9:] + F[:9], kind=kind, fixed=pfx, shape='struct')
                yield de(to, snake, kind=kind, fixed=pfx, flkeys=['flags_modified', 'last_flags_modified'])
                for drop in ('type', 'memptr', 'r', 'flavour'):
                    yield de(to, [f for f in F if f != drop], kind=kind, fixed=pfx)
                yield de(to, REQ, kind=kind, fixed=pfx)
                yield de(to, REQ + ['type'], kind=kind, fixed=pfx)
                yield de(to, F, kind=kind, shape='seq', fixed=pfx)
                yield de(to, F, kind=kind, shape='seq18', fixed=pfx)
                yield de(to, F[1:], kind=kind, shape='seq17', fixed=pfx)
                yield de(to, F, kind=kind, shape='compact', fixed=pfx)
                for fk in (['lastFlagsModified', 'flagsModified'], ['flags_modified'], ['last_flags_modified'], ['flagsModified'], ['lastFlagsModified'], []):
                    yield de(to, F, kind=kind, flkeys=fk, fixed=pfx)
                yield de(to, F, kind=kind, inner='seq', fixed=pfx)
                for rp in ('i16', 'u64', 'u32', 'i64', 'i32', 'seq'):
                    yield de(to, F, kind=kind, rp=rp, fixed=pfx)
            for f in REQ if full or to in ('nmos', 'any') else REQ[::4]:
                yield de(to, [x for x in F if x != f])
            for f in F if full or to in ('nmos', 'any') else F[::5]:
                yield de(to, F + [f])
                yield de(to, [f] + F)
            for f in S.SNAKE:
                yield de(to, F + [S.SNAKE[f]])
            for tag in ('nmos', 'Z80', '', 'BM', 'NMOS ', 'CMOSX'):
                yield de(to, F, tag=tag)
                yield de(to, F, tag=tag, shape='seq')
            for n in range(0, 18):
                if full or n % 3 == 0 or n > 15:
                    yield de(to, F[:n], shape='seq')
                    yield de(to, F[:n], shape='seq%d' % n)
                    yield de(to, F[1:n], shape='seq17')
            for fl in (S.KEYBORROW, S.KEYOWNED, S.INDEX):
                yield de(to, F, flags=fl, kind='bm1')
        for n in range(0, 8 if full else 7):
            yield T('PairValTask', form='str', n=n)
        for n in range(4):
            yield T('PairValTask', form='seq', n=n)
        for form in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'unit', 'bool', 'map'):
            yield T('PairValTask', form=form)
            if form[0] in 'ui' and form != 'unit':
                yield T('PairValTask', form=form, flags=S.COMPACT)
                yield T('PairValTask', form=form, flags=S.WIDE)
        for flags in (0, S.COMPACT, S.VINDEX, S.KEYBYTES):
            for k in range(3):
                yield T('ValTask', ty='im', v=k, flags=flags)
            for p in (0xDD, 0xFD):
                yield T('ValTask', ty='pfx', v=p, flags=flags)
            for ty in ('rp', 'ts16', 'ts32', 'ts64'):
                yield T('ValTask', ty=ty, flags=flags)
        for flags in (0, S.VINDEX):
            for bad in ([3, 'Mode3'], [200, 'mode0'], [255, '']):
                yield T('ValTask', ty='im', flags=flags, bad=bad, v=0)
            for bad in ([2, 'Xfd'], [200, 'XDD'], [255, 'Yf']):
                yield T('ValTask', ty='pfx', flags=flags, bad=bad, v=0)
    return gen


Prop('C24', ser_specs('quick'), ser_specs('thorough'),
     lambda t: 'each CPU kind and Z80Any serialized and read back into each kind, in a self-describing and a compact token format (identifiers as str, borrowed, owned, '
               'bytes or number; integers as themselves, u64 or i64); %d composed inputs with permuted, renamed, missing, repeated fields and truncated sequences; RegisterPair '
               'from every integer of 8 to 64 bits and every text of 0 to %d ASCII bytes without a sign' % (600, 7 if t == 'thorough' else 6),
     CPU_ASSUMPTIONS[:2] + ['the data format is the token format of hser/src/fmt.rs, not a published one', 'allocation succeeds; the text of error messages is not modelled'],
     crate='hser')


def safe_specs(tier):
    full = tier == 'thorough'

    def safe(fl, entry, **kw):
        return ('apicheck', 'SafeTask', dict(fl=fl, entry=entry, **kw))

    def gen():
        for fl in FLAVOURS:
            for i, s in enumerate(scen.ISA):
                fx = {'prefix': s.prefix} if s.prefix else {}
                for en in ('next', 'nextd', 'limit', 'any_next', 'any_nextd') if full else ('nextd',) if fl == 'nmos' else (('next', 'limit', 'any_nextd')[i % 3],):
                    sc = with_fetch(s)
                    if en == 'limit':
                        sc['past'] = {0: False}
                    yield safe(fl, en, script=sc, fixed=dict(fx, iff1=False), arg=1)
                if full or fl == 'nmos' and i % 3 == 0:
                    yield safe(fl, 'instr', op=s.op, script=s.script, fixed=fx)
            for fx in CONT:
                yield safe(fl, 'nmi', fixed=fx)
                yield safe(fl, 'any_nmi', fixed=fx)
                for en in ('irq', 'irqd', 'next', 'limit', 'any_irqd'):
                    if not full and en != 'irqd' and fl != 'nmos':
                        continue
                    for im in (1, 2):
                        yield safe(fl, en, fixed=dict(fx, im=im), script=dict(rdop=[0x00]))
                    for v in range(256):
                        if not full and (v % 16 != 0xD if en != 'irqd' or fl != 'nmos' or fx not in ({}, dict(halt=True)) else v % 2 == 0 and v not in (0x76, 0xC2)):
                            continue
                        yield safe(fl, en, fixed=dict(fx, im=0), script=dict(vec=[v], rdop=[v ^ 0x5A, 0]))
            for fx in (dict(), dict(prefix=0xDD), dict(halt=True, ei=True)):
                if not full and fx and fl != 'nmos':
                    continue
                for k in GETS:
                    yield safe(fl, 'get', sub=k, fixed=fx)
                for k in SETS + [(23, 0, 0)]:
                    yield safe(fl, 'set', sub=k, fixed=fx)
                    yield safe(fl, 'any_set', sub=k, fixed=fx)
        def d(fl, mem, **kw):
            return ('apicheck', 'SafeDisTask', dict(fl=fl, mem=mem, **kw))
        for fl in ('nmos', 'cmos', 'bm1', 'any'):
            yield d(fl, [None])
            for b in range(256):
                if full or (fl == 'nmos' and b % 4 == 1) or b % 64 == 0x2D or b in (0xCB, 0xED):
                    yield d(fl, [b, None])
                    yield d(fl, [b, None], once=True)
            for p in (0xDD, 0xFD):
                yield d(fl, [p, 0xCB, None, None])
                yield d(fl, [p, 0x36, None, None])
                for b in (0xED, 0xDD, 0xFD, 0x76, 0xFB):
                    yield d(fl, [p, b, None])
    return gen


Prop('C30', safe_specs('quick'), safe_specs('thorough'),
     lambda t: 'every entry point of the CPU and of Z80Any once from an arbitrary state: %s; irq() with every first vector byte; every accessor; execute_with_limit of at most 2 '
               'steps; the disassembler on chunks of at most 4 bytes; each call of at most 400,000 IR instructions' %
               ('every opcode through every entry point' if t == 'thorough' else 'every opcode through one entry point (NMOS: execute_next with a debugger)'),
     CPU_ASSUMPTIONS[:2] + ['the harness is compiled with overflow checks and debug assertions, so that each is a panic the executor looks for'], crate='hapi')


def equal_specs():
    FX = CONT + [dict(im=0), dict(ei=True, prefix=0), dict(prefix=0xFD, im=1)]
    for fl in FLAVOURS:
        for norm in (1, 0):
            for w in (False, True):
                for a in FX:
                    yield ('apicheck', 'EqualTask', dict(fl=fl, norm=norm, wrapped=w, fixed=a))
                    for b in FX if a in FX[:2] else FX[:1]:
                        yield ('apicheck', 'EqualTask', dict(fl=fl, norm=norm, wrapped=w, fixed=a, fixed2=b))
        for fl2 in FLAVOURS:
            for fx in CONT:
                yield ('apicheck', 'EqualTask', dict(fl=fl, fl2=fl2, norm=1, wrapped=True, fixed=fx))


Prop('C32', equal_specs, None, 'every pair of CPU states of one flavour, and every pair of Z80Any of any two flavours; with and without normalize_r; pending prefix and EI shadow '
     'combinations enumerated, all else arbitrary', ['the state is observed through the public accessors'], crate='hapi')


def text_specs(tier):
    full = tier == 'thorough'

    def t(style, *mem, pc=None):
        return ('apicheck', 'TextTask', dict(style=style, mem=list(mem), pc=pc))

    ALL = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]

    def gen():
        from apicheck import shape
        sh = [(s, shape(s.prefix, s.code)) for s in scen.ISA if s.op not in (0xDD, 0xFD)]
        n = 0
        for i, (s, m) in enumerate(sh):
            op = s.code[-1]
            if s.tags & {'cbtab'} and not full and op % 8 != (op >> 3) % 8 and op % 8 != 6:
                continue
            if s.tags & {'pxed'} and not full and op % 16 != 3:
                continue
            yield t(1, *m, pc=(0x0123, 0xFEDC, 0xFFFE, 0x0000)[i % 4])
            wide = m[-2:] == [None, None] and m[-3] != 0x36 or s.tags & {'flow'} and None in m
            for st in ALL if full else (ALL[n % 13], ALL[(n * 5 + 3) % 13]):
                if wide and not full and s.code not in ((0x21,), (0xCD,), (0x20,), (0x22,)):
                    st = {0: 2, 6: 8, 11: 12}.get(st, st)
                yield t(st, *m, pc=(0, 7, 54, 321, 9999, 10000, 65535, 32760)[i % 8])
            n += 1
        for st in range(14):
            for m in [[0x00], [0x3E, 7], [0xDD, 0xCB, 0x85, 0xC6], [0xED, 0xB0]]:
                yield t(st, *m)
            if st not in (0, 6, 11) or full:
                for m in ([0x18, None], [0x32, None, None], [0xDD, 0x36, None, None], [0x30, None], [0xD3, None]):
                    yield t(st, *m)
        for m in ([0x18, None, 0x00], [0xDD, 0xDD, 0x7E, None], [0x76, 0x00, 0xCD, None, None, 0xC9], [0xED, 0x5E, 0xFD, 0xCB, None, 0xFF, 0x08], [0x3E],
                  [], [0xDD], [0x08, 0x21, None], [0xED, 0x00, 0xFB, 0xED, 0x4D]):
            yield t(-1, *m)
    return gen


Prop('C33', text_specs('quick'), text_specs('thorough'),
     lambda t: 'the text of one instruction (%s), operands arbitrary, start addresses given (arbitrary for %d instructions), %s; listings of chunks of at most 7 bytes' %
               (('every opcode of every table', 9, 'in every style') if t == 'thorough' else
                ('every opcode; CB and DD/FD ED tables sampled', 9, 'in {:x} and in two more of 14 styles, in rotation')),
     ['core::fmt is executed symbolically too, from the IR of the toolchain\'s own sources of core'], crate='hapi', core=True)


def rebuild(fl, entry, **kw):
    return ('cpucheck', 'RebuildTask', dict(fl=fl, entry=entry, **kw))


def closure_specs():
    for fl in FLAVOURS:
        for s in select(None):
            yield rebuild(fl, 'instr', op=s.op, script=s.script, fixed={'prefix': s.prefix} if s.prefix else {})
        for fx in CONT:
            yield rebuild(fl, 'nmi', fixed=fx)
            yield rebuild(fl, 'next', fixed=fx, script={'rdop': [0], 'irq': {(0, 0): False}})
            for im in (1, 2):
                yield rebuild(fl, 'irq', fixed=dict(fx, im=im))
            for op in (0x00, 0x76, 0xC7, 0xFB, 0xDD, 0xCD):
                yield rebuild(fl, 'irq', fixed=dict(fx, im=0), script={'vec': [op]})


Prop('C35', closure_specs, None, 'every instruction of every table, NMI, and interrupts in every mode, once from an arbitrary CPU state; what holds after one step from an '
     'arbitrary state holds after any number of them', CPU_ASSUMPTIONS[:2] + CPU_ASSUMPTIONS[3:])
