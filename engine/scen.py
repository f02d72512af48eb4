"""Instruction scenarios: (class tags, opcode byte, scripted code bytes, prefix)."""


def base_tags(op):
    x, y, z = op >> 6, op >> 3 & 7, op & 7
    if op in (0xDD, 0xFD):
        return {'prefix'}
    if x == 0:
        if z == 0:
            return {'misc'} if y == 0 else {'exch'} if y == 1 else {'flow'}
        if z == 1:
            return {'load'} if y % 2 == 0 else {'arith16'}
        if z in (2, 6):
            return {'load'}
        if z == 3:
            return {'arith16'}
        if z in (4, 5):
            return {'alu8'}
        return {'rot'} if y < 4 else {'alu8'} if y < 6 else {'scf'}
    if x == 1:
        return {'inten'} if op == 0x76 else {'load'}
    if x == 2:
        return {'alu8'}
    if z in (0, 2, 4, 7):
        return {'flow'}
    if z == 1:
        return {'stack'} if y % 2 == 0 else {'flow'} if y in (1, 5) else {'exch'} if y == 3 else {'load'}
    if z == 3:
        return [{'flow'}, {'cb'}, {'io'}, {'io'}, {'exch', 'stack'}, {'exch'}, {'inten'}, {'inten'}][y]
    if z == 5:
        return {'stack'} if y % 2 == 0 else {'flow'}
    return {'alu8'}


def ed_tags(op):
    x, y, z = op >> 6, op >> 3 & 7, op & 7
    if x == 1:
        if z in (0, 1):
            return {'io'}
        if z == 2:
            return {'arith16'}
        if z == 3:
            return {'load'}
        if z == 4:
            return {'alu8'}
        if z == 5:
            return {'flow', 'inten'}
        if z == 6:
            return {'inten'}
        return [{'load'}, {'load'}, {'ldair'}, {'ldair'}, {'rot'}, {'rot'}, {'misc'}, {'misc'}][y]
    if x == 2 and y >= 4 and z < 4:
        return {'block', 'io'} if z >= 2 else {'block'}
    return {'misc'}


class Scen:
    __slots__ = ('tags', 'op', 'code', 'prefix', 'script')

    def __init__(self, tags, op, code, prefix, script):
        self.tags, self.op, self.code, self.prefix, self.script = tags, op, code, prefix, script


def isa():
    """every instruction of the Z80, with each of the pending prefixes"""
    out = []
    for px in (0, 0xDD, 0xFD):
        p = {'dd'} if px else set()
        for op in range(256):
            if op not in (0xCB, 0xED):
                out.append(Scen(base_tags(op) | p, op, (op,), px, None))
        for op in range(256):
            t = ({'rot'} if op < 0x40 else {'bit'}) | {'cbtab'} | p
            if px:
                # DD CB d op: displacement and opcode are both memory reads
                out.append(Scen(t, 0xCB, (0xCB, op), px, {'rd': [None, op]}))
            else:
                out.append(Scen(t, 0xCB, (0xCB, op), px, {'rdop': [op]}))
            if not px:
                out.append(Scen(ed_tags(op) | {'ed'} | p, 0xED, (0xED, op), px, {'rdop': [op]}))
        if px:
            # the prefix is ignored by the ED table: every class of it
            for op in range(256):
                out.append(Scen(ed_tags(op) | {'ed', 'pxed'} | p, 0xED, (0xED, op), px, {'rdop': [op]}))
    return out


ISA = isa()


def select(tags=None, without=()):
    for s in ISA:
        if (tags is None or s.tags & set(tags)) and not s.tags & set(without):
            yield s


def with_fetch(s):
    """the script of the same scenario when the first byte is fetched too"""
    sc = dict(s.script or {})
    sc['rdop'] = [s.op] + list(sc.get('rdop', []))
    return sc
