"""Symbolic executor for LLVM IR text (the subset rustc emits for this code base).

A module is parsed lazily, one function at a time; every basic block is compiled
to a Python function on first execution.  Values:
  iN (N>1), ptr  -> Python int (concrete) or z3 BitVecRef
  i1             -> Python bool or z3 BoolRef
  aggregates     -> Python list
  undef/poison   -> fresh unconstrained symbol when it is used as a scalar
Pointers are 64-bit numbers  object_id << 32 | offset.
"""
import re
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """The encoder met something it does not model: never a verdict."""


class PathEnd(Exception):
    """The path ends abnormally in the code under test (panic / UB)."""
    def __init__(self, kind, what):
        Exception.__init__(self, kind, what)
        self.kind, self.what = kind, what


# ---------------------------------------------------------------- types

class T:
    __slots__ = ('k', 'w', 'el', 'n', 'size', 'align', 'offs')


def mk_int(w):
    t = T(); t.k = 'i'; t.w = w
    nb = (w + 7) // 8
    p = 1
    while p < nb:
        p *= 2
    t.size = p if w <= 64 else (w + 63) // 64 * 8
    t.align = min(t.size, 16)
    return t


_ints = {}


def int_t(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = mk_int(w)
    return t


PTR = T(); PTR.k = 'p'; PTR.w = 64; PTR.size = 8; PTR.align = 8
VOID = T(); VOID.k = 'v'; VOID.size = 0; VOID.align = 1; VOID.w = 0
OTHER = T(); OTHER.k = 'o'; OTHER.size = 0; OTHER.align = 1; OTHER.w = 0


def mk_struct(els, packed):
    t = T(); t.k = 's'; t.el = els; t.w = 0
    off = 0; al = 1; t.offs = []
    for e in els:
        if not packed:
            off = (off + e.align - 1) // e.align * e.align
            al = max(al, e.align)
        t.offs.append(off)
        off += e.size
    if not packed:
        off = (off + al - 1) // al * al
    t.size = off; t.align = al
    return t


def mk_array(n, e):
    t = T(); t.k = 'a'; t.n = n; t.el = e; t.w = 0
    t.size = n * e.size; t.align = e.align
    return t


TOK = re.compile(r'''\s*(?:
   (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>![-\w.$]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<num>-?\d+(?:\.\d+e[+-]\d+)?)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<pct><\{|\}>|\.\.\.|[][(){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported('expected %r at %r' % (s, self.t[self.i:self.i + 6]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        v = self.next()
        if v == 'ptr':
            return PTR
        if v == 'void':
            return VOID
        m = re.fullmatch(r'i(\d+)', v)
        if m:
            return int_t(int(m.group(1)))
        if v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            els = []
            if not self.accept(close):
                while True:
                    els.append(self.type())
                    if self.accept(close):
                        break
                    self.expect(',')
            return mk_struct(els, v == '<{')
        if v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            return mk_array(n, e)
        if v in ('metadata', 'label', 'token', 'float', 'double', 'half', 'fp128'):
            return OTHER
        if v == '<':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            t = T(); t.k = 'vec'; t.n = n; t.el = e; t.w = 0; t.size = n * e.size; t.align = t.size
            return t
        if v.startswith('%'):
            raise Unsupported('named type ' + v)
        raise Unsupported('type ' + v)

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nofree', 'readonly', 'readnone', 'writeonly', 'writable',
             'zeroext', 'signext', 'dead_on_unwind', 'dead_on_return', 'immarg', 'inreg', 'returned', 'nocapture', 'nest',
             'swiftself', 'noext', 'allocptr', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'hidden',
             'internal', 'private', 'fastcc', 'coldcc', 'ccc', 'external', 'weak', 'linkonce_odr', 'weak_odr', 'allockind'}

    def attrs(self):
        while True:
            v = self.peek(); k = self.kind()
            if k == 'word':
                if v in self.ATTRS:
                    self.i += 1
                    if self.peek() == '(' and v in ('allockind', 'dead_on_return'):
                        self.skip_parens()
                    continue
                if v == 'align':
                    self.i += 1
                    if self.peek() == '(':
                        self.skip_parens()
                    else:
                        self.i += 1
                    continue
                if v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval', 'initializes',
                         'nofpclass', 'preallocated', 'elementtype', 'byref', 'inalloca', 'memory', 'addrspace'):
                    self.i += 1
                    self.skip_parens()
                    continue
                if self.peek(1) == '(' and v not in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add', 'xor'):
                    self.i += 1
                    self.skip_parens()
                    continue
            return


CONST_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none'}


# ---------------------------------------------------------------- modules

class Global:
    __slots__ = ('id', 'name', 'size', 'cells', 'const', 'init', 'mod', 'ty')


class Func:
    __slots__ = ('name', 'mod', 'params', 'body', 'blocks', 'labels', 'nregs', 'lines', 'parsed', 'fid', 'glob',
                 'regidx', 'allocas', 'ninstr', 'hits')


class Program:
    def __init__(self, files, core=None):
        self.funcs = {}       # name -> Func
        self.globals = {}     # (mod, name) -> Global
        self.ext_globals = {}
        self.byid = {}        # id -> Global | Func | (declared function name)
        self.next_id = 16
        self.decl_ids = {}
        for m, f in enumerate(files):
            self._load(m, open(f).read())
        if core:
            self._load_core(len(files), core, files)
        self.executed = set()

    def _load_core(self, mod, path, files):
        """core's own IR, built from the toolchain's sources: the same symbols up to the crate hash"""
        rx = re.compile(r'Cs[0-9A-Za-z]+_4core')
        text = open(path).read()
        mine = set(rx.findall(text))
        theirs = set()
        for f in files:
            theirs |= set(rx.findall(open(f).read()))
        if len(mine) != 1 or len(theirs) != 1:
            raise Unsupported('crate hashes of core: %s %s' % (mine, theirs))
        a, b = mine.pop(), theirs.pop()
        if len(a) != len(b):
            raise Unsupported('crate hashes of core differ in length')
        self._load(mod, text.replace(a, b))
        for n in [n for n, f in self.funcs.items() if f.mod == mod and PANIC_RX.search(n)]:
            del self.funcs[n]

    def _newid(self, o):
        i = self.next_id
        self.next_id += 1
        self.byid[i] = o
        return i

    def _load(self, mod, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                g = Global(); g.name = m.group(1); g.mod = mod; g.init = m.group(2); g.cells = None
                g.id = self._newid(g)
                self.globals[(mod, g.name)] = g
                head = g.init.split('"')[0]
                if not (' private ' in ' ' + head or ' internal ' in ' ' + head) and not head.startswith('external '):
                    self.ext_globals.setdefault(g.name, g)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                f = Func(); f.name = m.group(1); f.mod = mod; f.lines = (l, lines[i + 1:j]); f.parsed = False; f.blocks = None
                f.hits = 0
                f.fid = self._newid(f)
                self.funcs.setdefault(f.name, f)
                i = j
            i += 1

    # -- globals
    def glob_id(self, mod, name):
        g = self.globals.get((mod, name))
        if g is not None and not g.init.startswith('external '):
            return g.id
        g2 = self.ext_globals.get(name)
        if g2 is not None:
            return g2.id
        f = self.funcs.get(name)
        if f is not None:
            return f.fid
        i = self.decl_ids.get(name)
        if i is None:
            i = self.decl_ids[name] = self._newid(name)
        return i

    def global_cells(self, g):
        if g.cells is None:
            p = P(tokenize(re.sub(r', !\w+ !\d+', '', g.init)))
            g.const = False
            while True:
                v = p.peek()
                if v in ('constant', 'global'):
                    g.const = v == 'constant'
                    p.next()
                    break
                if v in ('external',):
                    raise Unsupported('external global ' + g.name)
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            t = p.type()
            g.size = t.size
            cells = [0] * t.size
            self._init(g.mod, t, p, cells, 0)
            g.cells = cells
        return g.cells

    def _init(self, mod, t, p, cells, off):
        k = p.kind(); v = p.peek()
        if k == 'cstr':
            p.next()
            s = v[2:-1]
            i = 0; o = off
            while i < len(s):
                if s[i] == '\\':
                    cells[o] = int(s[i + 1:i + 3], 16); i += 3
                else:
                    cells[o] = ord(s[i]); i += 1
                o += 1
            return
        if v == 'zeroinitializer':
            p.next(); return
        if v in ('undef', 'poison'):
            p.next()
            for i in range(t.size):
                cells[off + i] = None
            return
        if t.k == 's':
            op = p.next(); close = {'{': '}', '<{': '}>'}[op]
            for i, e in enumerate(t.el):
                et = p.type()
                self._init(mod, et, p, cells, off + t.offs[i])
                if i + 1 < len(t.el):
                    p.expect(',')
            p.expect(close)
            return
        if t.k == 'a':
            p.expect('[')
            for i in range(t.n):
                et = p.type()
                self._init(mod, et, p, cells, off + i * et.size)
                if i + 1 < t.n:
                    p.expect(',')
            p.expect(']')
            return
        x = self.const(mod, t, p)
        if x is True or x is False:
            x = int(x)
        for i in range(t.size):
            cells[off + i] = (x >> (8 * i)) & 255

    def const(self, mod, t, p):
        """a constant (expression) of scalar type, as a Python int/bool"""
        k = p.kind(); v = p.next()
        if k == 'num':
            x = int(v)
            if t.k == 'i' and t.w == 1:
                return bool(x & 1)
            return x & ((1 << t.w) - 1)
        if v == 'true':
            return True
        if v == 'false':
            return False
        if v in ('null', 'zeroinitializer', 'none'):
            return False if t.k == 'i' and t.w == 1 else 0
        if k == 'loc' and v[0] == '@':
            return self.glob_id(mod, v[1:]) << 32
        if v == 'inttoptr' or v == 'ptrtoint' or v == 'bitcast' or v == 'trunc':
            p.expect('(')
            t1 = p.type(); x = self.const(mod, t1, p); p.expect('to'); t2 = p.type(); p.expect(')')
            return x & ((1 << t2.w) - 1)
        if v == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek() == 'inrange':
                p.next(); p.skip_parens()
            p.expect('(')
            et = p.type(); p.expect(','); p.type(); base = self.const(mod, PTR, p)
            idx = []
            while p.accept(','):
                it = p.type(); x = self.const(mod, it, p)
                if x >> (it.w - 1):
                    x -= 1 << it.w
                idx.append(x)
            p.expect(')')
            return (base + gep_const(et, idx)) & M64
        if v in ('add', 'sub', 'xor'):
            while p.peek() in ('nuw', 'nsw'):
                p.next()
            p.expect('(')
            t1 = p.type(); a = self.const(mod, t1, p); p.expect(','); t2 = p.type(); b = self.const(mod, t2, p); p.expect(')')
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b}[v] & ((1 << t.w) - 1)
        raise Unsupported('constant ' + repr(v))

    def func(self, name):
        f = self.funcs.get(name)
        if f is not None and not f.parsed:
            self._parse_func(f)
        return f

    # -- functions
    def _parse_func(self, f):
        head, body = f.lines
        head = head[len('define '):]
        i = head.index('@' + f.name + '(')
        p = P(tokenize(head[i + 1 + len(f.name):]))
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')'); break
                p.type(); p.attrs()
                params.append(p.next())
                if p.accept(')'):
                    break
                p.expect(',')
        f.params = params
        blocks = []; labels = {}
        cur = None
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            if not l or l.lstrip().startswith(';') or l.lstrip().startswith('#dbg'):
                continue
            if l[0] != ' ':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
                labels['%' + m.group(1)] = len(blocks)
                cur = []
                blocks.append(cur)
                continue
            if cur is None:
                cur = []
                blocks.append(cur)
                labels['%entry'] = 0
            s = l.strip()
            if s.startswith('switch ') or ('= landingpad' in s):
                if s.startswith('switch ') and not s.endswith(']'):
                    while True:
                        s += ' ' + body[j].strip()
                        j += 1
                        if body[j - 1].strip().startswith(']'):
                            break
            if s.startswith('invoke') or ' = invoke ' in s:
                s += ' ' + body[j].strip(); j += 1
            cur.append(s)
        # which names cross block boundaries
        names = {}
        glob = set(params)
        rx = re.compile(r'%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)')
        for b, ins in enumerate(blocks):
            for s in ins:
                isphi = ' = phi ' in s
                for m in rx.findall(s):
                    if isphi:
                        glob.add(m)
                    o = names.setdefault(m, b)
                    if o != b:
                        glob.add(m)
        f.regidx = {}
        for k, nme in enumerate(params):
            f.regidx[nme] = k
        for nme in sorted(glob):
            if nme not in f.regidx and nme not in labels:
                f.regidx[nme] = len(f.regidx)
        f.nregs = len(f.regidx)
        f.body = blocks
        f.labels = labels
        f.blocks = [None] * len(blocks)
        f.parsed = True
        f.ninstr = sum(len(b) for b in blocks)

    def compile_block(self, f, b):
        g = BlockGen(self, f, b)
        src = g.gen()
        ns = dict(RT)
        ns['PROG'] = self
        ns['F'] = f
        exec(compile(src, '<%s:%d>' % (f.name[-60:], b), 'exec'), ns)
        fn = ns['blk']
        f.blocks[b] = fn
        return fn


def gep_const(t, idx):
    off = idx[0] * t.size
    for x in idx[1:]:
        if t.k == 's':
            off += t.offs[x]; t = t.el[x]
        elif t.k == 'a':
            off += x * t.el.size; t = t.el
        else:
            raise Unsupported('gep')
    return off


FLAGW = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'fast', 'volatile', 'atomic'}


class BlockGen:
    def __init__(self, prog, f, b):
        self.prog, self.f, self.b = prog, f, b
        self.out = []
        self.loc = {}

    def ref(self, name):
        if name in self.loc:
            return self.loc[name]
        i = self.f.regidx.get(name)
        if i is None:
            raise Unsupported('unknown value %s in %s' % (name, self.f.name))
        return 'R[%d]' % i

    def value(self, t, p):
        """operand -> python expression"""
        k = p.kind(); v = p.peek()
        if k == 'loc' and v[0] == '%':
            p.next()
            return self.ref(v)
        if v in ('undef', 'poison'):
            p.next()
            if t.k in ('i', 'p'):
                return 'X.undef(%d)' % t.w
            return 'undef_agg(X,%d)' % (len(t.el) if t.k == 's' else t.n)
        if t.k in ('s', 'a') and v == 'zeroinitializer':
            p.next()
            return repr(zero_agg(t))
        if t.k in ('s',) and v in ('{', '<{'):
            p.next()
            els = []
            for i in range(len(t.el)):
                et = p.type()
                els.append(self.value(et, p))
                if i + 1 < len(t.el):
                    p.expect(',')
            p.next()
            return '[' + ','.join(els) + ']'
        if t.k == 'a' and v == '[':
            p.next()
            els = []
            for i in range(t.n):
                et = p.type()
                els.append(self.value(et, p))
                if i + 1 < t.n:
                    p.expect(',')
            p.next()
            return '[' + ','.join(els) + ']'
        if t.k in ('i', 'p'):
            return repr(self.prog.const(self.f.mod, t, p))
        if t.k == 'o':
            # metadata operand: skip to , or )
            d = 0
            while True:
                v = p.peek()
                if d == 0 and v in (',', ')'):
                    return 'None'
                if v == '(':
                    d += 1
                if v == ')':
                    d -= 1
                p.next()
        raise Unsupported('operand %r of type %s' % (v, t.k))

    def tv(self, p):
        t = p.type()
        p.attrs()
        return t, self.value(t, p)

    def setres(self, name, expr):
        i = self.f.regidx.get(name)
        if i is None:
            v = 'v%d' % len(self.loc)
            self.out.append('%s = %s' % (v, expr))
        else:
            v = 'v%d' % len(self.loc)
            self.out.append('%s = R[%d] = %s' % (v, i, expr))
        self.loc[name] = v

    def edge(self, label):
        """statements for jumping to label: phi moves + return"""
        tb = self.f.labels[label]
        me = None
        srcl = [l for l, i in self.f.labels.items() if i == self.b]
        dst = []; src = []
        for s in self.f.body[tb]:
            if ' = phi ' not in s:
                break
            p = P(tokenize(s))
            name = p.next(); p.expect('='); p.expect('phi')
            while p.peek() in FLAGW:
                p.next()
            t = p.type()
            found = None
            while True:
                p.expect('[')
                q = p.i
                # value then label
                save = self.loc
                ex = None
                # peek label: need to parse value anyway
                ex = self.value(t, p)
                p.expect(',')
                l = p.next()
                p.expect(']')
                if l in srcl or (self.b == 0 and l == '%start' and '%start' not in self.f.labels):
                    found = ex
                    break
                if not p.accept(','):
                    break
            if found is None:
                raise Unsupported('phi edge')
            dst.append('R[%d]' % self.f.regidx[name]); src.append(found)
        r = []
        if dst:
            r.append('%s = %s' % (','.join(dst), ','.join(src)))
        r.append('return %d' % tb)
        return '; '.join(r)

    def gen(self):
        f = self.f
        ins = f.body[self.b]
        for s in ins:
            if ' = phi ' in s:
                continue
            s = re.sub(r'(, ![\w.]+ ![\w.]+)+$', '', s)
            self.instr(s)
        body = '\n  '.join(self.out)
        return 'def blk(X,R):\n  X.steps += %d\n  %s\n' % (len(ins), body)

    def instr(self, s):
        if '"' in s and (' call ' in ' ' + s):
            pass
        p = P(tokenize(s))
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in BINOPS:
                return self.binop(op, p, res)
            if op in CASTS:
                return self.cast(op, p, res)
            raise Unsupported('instruction ' + op)
        return m(p, res)

    def flags(self, p):
        while p.peek() in FLAGW:
            p.next()

    def binop(self, op, p, res):
        self.flags(p)
        t = p.type()
        a = self.value(t, p); p.expect(','); b = self.value(t, p)
        if t.k != 'i':
            raise Unsupported(op + ' on ' + t.k)
        if t.w == 1:
            self.setres(res, 'bool_%s(X,%s,%s)' % (op, a, b))
        else:
            self.setres(res, 'op_%s(X,%s,%s,%d)' % (op, a, b, t.w))

    def cast(self, op, p, res):
        self.flags(p)
        t, v = self.tv(p)
        p.expect('to')
        u = p.type()
        if t.k not in ('i', 'p') or u.k not in ('i', 'p'):
            raise Unsupported(op + ' vector')
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            op = 'trunc' if u.w < t.w else 'zext' if u.w > t.w else 'copy'
        if op == 'bitcast':
            op = 'copy'
        if op == 'copy':
            self.setres(res, v)
        elif op == 'trunc':
            self.setres(res, ('trunc1(%s)' % v) if u.w == 1 else 'op_trunc(%s,%d)' % (v, u.w))
        elif op == 'zext':
            self.setres(res, ('zext1(%s,%d)' % (v, u.w)) if t.w == 1 else 'op_zext(%s,%d,%d)' % (v, t.w, u.w))
        elif op == 'sext':
            self.setres(res, ('sext1(%s,%d)' % (v, u.w)) if t.w == 1 else 'op_sext(%s,%d,%d)' % (v, t.w, u.w))

    def i_freeze(self, p, res):
        t, v = self.tv(p)
        self.setres(res, v)

    def i_icmp(self, p, res):
        self.flags(p)
        pred = p.next()
        t = p.type()
        a = self.value(t, p); p.expect(','); b = self.value(t, p)
        if t.k not in ('i', 'p'):
            raise Unsupported('icmp vector')
        if t.w == 1:
            self.setres(res, 'bool_icmp(X,%r,%s,%s)' % (pred, a, b))
        else:
            self.setres(res, 'cmp_%s(%s,%s,%d)' % (pred, a, b, t.w))

    def i_select(self, p, res):
        self.flags(p)
        t, c = self.tv(p); p.expect(',')
        t, a = self.tv(p); p.expect(',')
        t2, b = self.tv(p)
        self.setres(res, 'select(X,%s,%s,%s,%d)' % (c, a, b, t.w if t.k in 'ip' else 0))

    def i_alloca(self, p, res):
        t = p.type()
        n = 1
        if p.accept(','):
            if p.peek() == 'i64' or p.peek() == 'i32':
                p.type(); n = int(p.next())
        self.setres(res, 'X.alloca(%d)' % (t.size * n))

    def i_load(self, p, res):
        self.flags(p)
        t = p.type(); p.expect(',')
        _, a = self.tv(p)
        self.setres(res, self.load_expr(t, a))

    def load_expr(self, t, a):
        if t.k in ('i', 'p'):
            if t.w == 1:
                return 'trunc1(X.load(%s,1))' % a
            if t.w % 8:
                return 'op_trunc(X.load(%s,%d),%d)' % (a, t.size, t.w)
            return 'X.load(%s,%d)' % (a, t.w // 8)
        if t.k == 's':
            return '(lambda a: [%s])(%s)' % (','.join(self.load_expr(e, 'padd(a,%d)' % o) for e, o in zip(t.el, t.offs)), a)
        if t.k == 'a':
            return '(lambda a: [%s])(%s)' % (','.join(self.load_expr(t.el, 'padd(a,%d)' % (i * t.el.size)) for i in range(t.n)), a)
        raise Unsupported('load ' + t.k)

    def i_store(self, p, res):
        self.flags(p)
        t, v = self.tv(p); p.expect(',')
        _, a = self.tv(p)
        self.store(t, v, a)

    def store(self, t, v, a):
        if t.k in ('i', 'p'):
            if t.w == 1:
                self.out.append('X.store(%s,zext1(%s,8),1)' % (a, v))
            elif t.w % 8:
                self.out.append('X.store(%s,op_zext(%s,%d,%d),%d)' % (a, v, t.w, t.size * 8, t.size))
            else:
                self.out.append('X.store(%s,%s,%d)' % (a, v, t.w // 8))
            return
        if t.k in ('s', 'a'):
            n = 't%d' % len(self.out)
            self.out.append('%s = %s; %sa = %s' % (n, v, n, a))
            els = list(zip(t.el, t.offs)) if t.k == 's' else [(t.el, i * t.el.size) for i in range(t.n)]
            for i, (e, o) in enumerate(els):
                self.store(e, '%s[%d]' % (n, i), 'padd(%sa,%d)' % (n, o))
            return
        raise Unsupported('store ' + t.k)

    def i_getelementptr(self, p, res):
        self.flags(p)
        t = p.type(); p.expect(',')
        _, base = self.tv(p)
        const = 0
        terms = []
        first = True
        while p.accept(','):
            it, x = self.tv(p)
            if first:
                scale = t.size
                first = False
            elif t.k == 's':
                const += t.offs[int(x)]
                t = t.el[int(x)]
                continue
            elif t.k == 'a':
                scale = t.el.size
                t = t.el
            else:
                raise Unsupported('gep')
            if re.fullmatch(r'\d+', x):
                v = int(x)
                if v >> (it.w - 1):
                    v -= 1 << it.w
                const += v * scale
            else:
                terms.append((x, it.w, scale))
        e = base
        if const:
            e = 'padd(%s,%d)' % (e, const)
        for x, w, sc in terms:
            e = 'pidx(%s,%s,%d,%d)' % (e, x, w, sc)
        self.setres(res, e)

    def i_extractvalue(self, p, res):
        t, v = self.tv(p)
        while p.accept(','):
            v = '%s[%d]' % (v, int(p.next()))
        self.setres(res, v)

    def i_insertvalue(self, p, res):
        t, v = self.tv(p); p.expect(',')
        t2, x = self.tv(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        self.setres(res, 'insval(%s,%s,%r)' % (v, x, tuple(idx)))

    def i_br(self, p, res):
        if p.peek() == 'label':
            p.next()
            self.out.append(self.edge(p.next()))
            return
        t, c = self.tv(p); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        self.out.append('if X.branch(%s): %s' % (c, self.edge(a)))
        self.out.append(self.edge(b))

    def i_switch(self, p, res):
        t, v = self.tv(p); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = {}
        order = []
        while not p.accept(']'):
            ct = p.type(); c = self.prog.const(self.f.mod, ct, p); p.expect(','); p.expect('label'); l = p.next()
            cases[int(c)] = l
        n = 'SW%d' % len(self.out)
        tbl = {}
        for c, l in cases.items():
            tbl.setdefault(l, []).append(c)
        ls = list(tbl)
        mp = {c: i for i, l in enumerate(ls) for c in tbl[l]}
        self.out.append('s = X.switch(%s,%r,%d,%d)' % (v, mp, len(ls), t.w))
        for i, l in enumerate(ls):
            self.out.append('if s == %d: %s' % (i, self.edge(l)))
        self.out.append(self.edge(d))

    def i_ret(self, p, res):
        if p.peek() == 'void':
            self.out.append('X.rv = None; return -1')
            return
        t, v = self.tv(p)
        self.out.append('X.rv = %s; return -1' % v)

    def i_unreachable(self, p, res):
        self.out.append('X.ub("unreachable", F.name)')

    def i_resume(self, p, res):
        self.out.append('X.ub("resume", F.name)')

    def i_cleanupret(self, p, res):
        self.out.append('X.ub("resume", F.name)')

    def i_landingpad(self, p, res):
        self.out.append('X.ub("landingpad", F.name)')

    def i_fence(self, p, res):
        pass

    def i_tail(self, p, res):
        return self.i_call(p, res, after=True)
    i_musttail = i_tail
    i_notail = i_tail

    def i_call(self, p, res, after=False):
        if after:
            p.expect('call')
        self.call(p, res)

    def i_invoke(self, p, res):
        lab = self.call(p, res, True)
        self.out.append(self.edge(lab))

    def call(self, p, res, invoke=False):
        self.flags(p)
        # return attrs, type
        while True:
            p.attrs()
            v = p.peek()
            if p.kind() == 'word' and v not in ('ptr', 'void') and not re.fullmatch(r'i\d+', v) and v not in ('metadata', 'float', 'double', 'half'):
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
                continue
            break
        rt = p.type()
        if p.peek() == '(':   # function type, varargs
            p.skip_parens()
        if p.kind() != 'loc':
            raise Unsupported('call target ' + repr(p.peek()))
        callee = p.next()
        p.expect('(')
        args = []; types = []
        if not p.accept(')'):
            while True:
                t = p.type(); p.attrs()
                args.append(self.value(t, p)); types.append(t)
                if p.accept(')'):
                    break
                p.expect(',')
        lab = None
        if invoke:
            while p.peek() != 'to':
                p.next()
            p.next(); p.expect('label'); lab = p.next()
        if callee[0] == '%':
            e = 'X.call_ptr(%s,[%s])' % (self.ref(callee), ','.join(args))
        else:
            name = callee[1:]
            if name.startswith('"'):
                pass
            if name.startswith('llvm.'):
                e = self.intrinsic(name, args, types, rt)
                if e is None:
                    return lab
            else:
                fn = self.prog.funcs.get(name)
                if fn is not None:
                    e = 'X.call(%r,[%s])' % (name, ','.join(args))
                else:
                    e = 'X.extern(%r,[%s])' % (name, ','.join(args))
        if res is not None:
            self.setres(res, e)
        else:
            self.out.append(e)
        return lab

    def intrinsic(self, name, a, types, rt):
        b = name.split('.')
        k = b[1]
        if k in ('lifetime', 'experimental', 'dbg', 'donothing', 'invariant', 'sideeffect', 'prefetch'):
            return None
        if k == 'assume':
            return 'X.assume_chk(%s, F.name)' % a[0]
        if k == 'expect':
            return a[0]
        if k in ('memcpy', 'memmove'):
            return 'X.memcpy(%s,%s,%s)' % (a[0], a[1], a[2])
        if k == 'memset':
            return 'X.memset(%s,%s,%s)' % (a[0], a[1], a[2])
        w = types[0].w if types else 0
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            if b[2] == 'with':
                return 'ovf_%s(X,%s,%s,%d)' % (k, a[0], a[1], w)
            if b[2] == 'sat':
                return 'sat_%s(X,%s,%s,%d)' % (k, a[0], a[1], w)
        if k in ('fshl', 'fshr'):
            return '%s(X,%s,%s,%s,%d)' % (k, a[0], a[1], a[2], w)
        if k in ('ctpop', 'bswap', 'bitreverse'):
            return '%s(X,%s,%d)' % (k, a[0], w)
        if k in ('ctlz', 'cttz'):
            return '%s(X,%s,%d)' % (k, a[0], w)
        if k in ('umin', 'umax', 'smin', 'smax'):
            return 'minmax(X,%r,%s,%s,%d)' % (k, a[0], a[1], w)
        if k in ('ucmp', 'scmp'):
            return 'cmp3(X,%r,%s,%s,%d,%d)' % (k, a[0], a[1], w, rt.w)
        if k == 'abs':
            return 'iabs(X,%s,%d)' % (a[0], w)
        if k == 'trap' or k == 'ubsantrap':
            return 'X.ub("trap", F.name)'
        if k == 'is' and b[2] == 'constant':
            return 'False'
        if k == 'threadlocal':
            return a[0]
        raise Unsupported('intrinsic ' + name)


def zero_agg(t):
    els = t.el if t.k == 's' else [t.el] * t.n
    return [zero_agg(e) if e.k in ('s', 'a') else (False if e.k == 'i' and e.w == 1 else 0) for e in els]


# ---------------------------------------------------------------- runtime value helpers

BV = z3.BitVecVal
_isint = int


def bv(x, w):
    return BV(x, w) if type(x) is int else x


def is_val(x, w):
    return x


def tobool(x):
    return z3.BoolVal(x) if type(x) is bool else x


def sx(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def op_add(X, a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & ((1 << w) - 1)
        if a == 0:
            return b
        return BV(a, w) + b
    if type(b) is int:
        if b == 0:
            return a
        return a + BV(b, w)
    return a + b


def op_sub(X, a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & ((1 << w) - 1)
        if b == 0:
            return a
        return a - BV(b, w)
    return bv(a, w) - b


def op_mul(X, a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(a) is int and a in (0, 1):
        return 0 if a == 0 else b
    if type(b) is int and b in (0, 1):
        return 0 if b == 0 else a
    return bv(a, w) * bv(b, w)


def op_and(X, a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        return a & BV(b, w)
    return a & b


def op_or(X, a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
        return a | BV(b, w)
    return a | b


def op_xor(X, a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        return a ^ BV(b, w)
    return a ^ b


def op_shl(X, a, b, w):
    if type(b) is int:
        if b >= w:
            return X.undef(w)
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        if b == 0:
            return a
        return z3.Concat(z3.Extract(w - 1 - b, 0, a), BV(0, b))
    return bv(a, w) << b


def op_lshr(X, a, b, w):
    if type(b) is int:
        if b >= w:
            return X.undef(w)
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        return z3.ZeroExt(b, z3.Extract(w - 1, b, a))
    return z3.LShR(bv(a, w), b)


def op_ashr(X, a, b, w):
    if type(a) is int and type(b) is int:
        if b >= w:
            return X.undef(w)
        return (sx(a, w) >> b) & ((1 << w) - 1)
    return bv(a, w) >> bv(b, w)


def _divchk(X, b, w):
    if type(b) is int:
        if b == 0:
            X.ub('division by zero', '')
    elif X.branch(b == 0):
        X.ub('division by zero', '')


def op_udiv(X, a, b, w):
    _divchk(X, b, w)
    if type(a) is int and type(b) is int:
        return a // b
    return z3.UDiv(bv(a, w), bv(b, w))


def op_urem(X, a, b, w):
    _divchk(X, b, w)
    if type(a) is int and type(b) is int:
        return a % b
    return z3.URem(bv(a, w), bv(b, w))


def op_sdiv(X, a, b, w):
    _divchk(X, b, w)
    if type(a) is int and type(b) is int:
        a, b = sx(a, w), sx(b, w)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ((1 << w) - 1)
    return bv(a, w) / bv(b, w)


def op_srem(X, a, b, w):
    _divchk(X, b, w)
    if type(a) is int and type(b) is int:
        a, b = sx(a, w), sx(b, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & ((1 << w) - 1)
    return z3.SRem(bv(a, w), bv(b, w))


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'ptrtoaddr', 'inttoptr', 'bitcast'}


def b_not(a):
    return (not a) if type(a) is bool else z3.Not(a)


def bool_and(X, a, b):
    if type(a) is bool:
        return b if a else False
    if type(b) is bool:
        return a if b else False
    return z3.And(a, b)


def bool_or(X, a, b):
    if type(a) is bool:
        return True if a else b
    if type(b) is bool:
        return True if b else a
    return z3.Or(a, b)


def bool_xor(X, a, b):
    if type(a) is bool:
        return b_not(b) if a else b
    if type(b) is bool:
        return b_not(a) if b else a
    return z3.Xor(a, b)


bool_add = bool_xor
bool_sub = bool_xor


def bool_mul(X, a, b):
    return bool_and(X, a, b)


def bool_icmp(X, pred, a, b):
    if pred == 'eq':
        return b_not(bool_xor(X, a, b))
    if pred == 'ne':
        return bool_xor(X, a, b)
    if pred in ('ugt', 'slt'):
        return bool_and(X, a, b_not(b))
    if pred in ('ult', 'sgt'):
        return bool_and(X, b_not(a), b)
    if pred in ('uge', 'sle'):
        return bool_or(X, a, b_not(b))
    return bool_or(X, b_not(a), b)


def is_b01(x):
    """x is If(c, 1, 0) -> c, else None"""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = x.arg(1), x.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            a, b = a.as_long(), b.as_long()
            if a == 1 and b == 0:
                return x.arg(0)
            if a == 0 and b == 1:
                return z3.Not(x.arg(0))
    return None


def trunc1(x):
    if type(x) is int:
        return bool(x & 1)
    c = is_b01(x)
    if c is not None:
        return c
    if x.size() == 1:
        return x == BV(1, 1)
    return z3.Extract(0, 0, x) == BV(1, 1)


def zext1(c, w):
    if type(c) is bool:
        return 1 if c else 0
    return z3.If(c, BV(1, w), BV(0, w))


def sext1(c, w):
    if type(c) is bool:
        return (1 << w) - 1 if c else 0
    return z3.If(c, BV((1 << w) - 1, w), BV(0, w))


def op_trunc(x, w):
    if type(x) is int:
        return x & ((1 << w) - 1)
    # trunc of zext / concat
    k = x.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT:
        y = x.arg(0)
        if y.size() == w:
            return y
        if y.size() > w:
            return op_trunc(y, w)
    elif k == z3.Z3_OP_CONCAT:
        y = x.arg(x.num_args() - 1)
        if y.size() == w:
            return y
    return z3.Extract(w - 1, 0, x)


def op_zext(x, w0, w):
    if type(x) is int:
        return x
    return z3.ZeroExt(w - w0, x)


def op_sext(x, w0, w):
    if type(x) is int:
        return sx(x, w0) & ((1 << w) - 1)
    return z3.SignExt(w - w0, x)


def _b01cmp(a, b):
    if type(b) is int and b in (0, 1):
        return is_b01(a)
    return None


def cmp_eq(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if b <= 1:
            c = is_b01(a)
            if c is not None:
                return c if b else b_not(c)
        return a == BV(b, w)
    if a.eq(b):
        return True
    return a == b


def cmp_ne(a, b, w):
    return b_not(cmp_eq(a, b, w))


def _mk(name, fi, fz, signed):
    def f(a, b, w):
        if type(a) is int and type(b) is int:
            return fi(sx(a, w), sx(b, w)) if signed else fi(a, b)
        return fz(bv(a, w), bv(b, w))
    f.__name__ = name
    return f


cmp_ult = _mk('cmp_ult', lambda a, b: a < b, z3.ULT, False)
cmp_ule = _mk('cmp_ule', lambda a, b: a <= b, z3.ULE, False)
cmp_ugt = _mk('cmp_ugt', lambda a, b: a > b, z3.UGT, False)
cmp_uge = _mk('cmp_uge', lambda a, b: a >= b, z3.UGE, False)
cmp_slt = _mk('cmp_slt', lambda a, b: a < b, lambda a, b: a < b, True)
cmp_sle = _mk('cmp_sle', lambda a, b: a <= b, lambda a, b: a <= b, True)
cmp_sgt = _mk('cmp_sgt', lambda a, b: a > b, lambda a, b: a > b, True)
cmp_sge = _mk('cmp_sge', lambda a, b: a >= b, lambda a, b: a >= b, True)


def select(X, c, a, b, w):
    if type(c) is bool:
        return a if c else b
    if type(a) is list or type(b) is list:
        return a if X.branch(c) else b
    if w == 1:
        if type(a) is bool and type(b) is bool:
            if a == b:
                return a
            return c if a else z3.Not(c)
        return bool_or(X, bool_and(X, c, a), bool_and(X, b_not(c), b))
    if a is b:
        return a
    if type(a) is int and type(b) is int and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def padd(p, k):
    if type(p) is int:
        return (p + k) & M64
    return p + BV(k & M64, 64)


def pidx(p, x, w, sc):
    if type(x) is int:
        return padd(p, sx(x, w) * sc)
    if w < 64:
        x = z3.SignExt(64 - w, x)
    if sc != 1:
        x = x * BV(sc, 64)
    return bv(p, 64) + x


def insval(a, x, idx):
    a = list(a) if a is not None else None
    if len(idx) == 1:
        a[idx[0]] = x
    else:
        a[idx[0]] = insval(a[idx[0]], x, idx[1:])
    return a


def undef_agg(X, n):
    return [None] * n


def ovf_uadd(X, a, b, w):
    if type(a) is int and type(b) is int:
        return [(a + b) & ((1 << w) - 1), a + b >> w != 0]
    a, b = bv(a, w), bv(b, w)
    s = a + b
    return [s, z3.ULT(s, a)]


def ovf_usub(X, a, b, w):
    if type(a) is int and type(b) is int:
        return [(a - b) & ((1 << w) - 1), a < b]
    a, b = bv(a, w), bv(b, w)
    return [a - b, z3.ULT(a, b)]


def ovf_umul(X, a, b, w):
    if type(a) is int and type(b) is int:
        return [(a * b) & ((1 << w) - 1), a * b >> w != 0]
    a, b = bv(a, w), bv(b, w)
    return [a * b, z3.Not(z3.BVMulNoOverflow(a, b, False))]


def _sov(f):
    def g(X, a, b, w):
        if type(a) is int and type(b) is int:
            r = f(sx(a, w), sx(b, w))
            return [r & ((1 << w) - 1), not (-(1 << (w - 1)) <= r < (1 << (w - 1)))]
        a, b = z3.SignExt(w, bv(a, w)), z3.SignExt(w, bv(b, w))
        r = f(a, b)
        lo = z3.Extract(w - 1, 0, r)
        return [lo, z3.SignExt(w, lo) != r]
    return g


ovf_sadd = _sov(lambda a, b: a + b)
ovf_ssub = _sov(lambda a, b: a - b)
ovf_smul = _sov(lambda a, b: a * b)


def sat_usub(X, a, b, w):
    r, o = ovf_usub(X, a, b, w)
    return select(X, o, 0, r, w)


def sat_uadd(X, a, b, w):
    r, o = ovf_uadd(X, a, b, w)
    return select(X, o, (1 << w) - 1, r, w)


def _sats(f):
    def g(X, a, b, w):
        r, o = f(X, a, b, w)
        neg = cmp_slt(a, 0, w)
        return select(X, o, select(X, neg, 1 << (w - 1), (1 << (w - 1)) - 1, w), r, w)
    return g


sat_sadd = _sats(ovf_sadd)
sat_ssub = _sats(ovf_ssub)


def fshl(X, a, b, c, w):
    if type(c) is not int:
        c = z3.URem(c, BV(w, w))
        x = z3.Concat(bv(a, w), bv(b, w)) << z3.ZeroExt(w, c)
        return z3.Extract(2 * w - 1, w, x)
    c %= w
    if type(a) is int and type(b) is int:
        return ((a << w | b) << c >> w) & ((1 << w) - 1)
    if c == 0:
        return a
    a, b = bv(a, w), bv(b, w)
    return z3.Concat(z3.Extract(w - 1 - c, 0, a), z3.Extract(w - 1, w - c, b))


def fshr(X, a, b, c, w):
    if type(c) is not int:
        c = z3.URem(c, BV(w, w))
        x = z3.LShR(z3.Concat(bv(a, w), bv(b, w)), z3.ZeroExt(w, c))
        return z3.Extract(w - 1, 0, x)
    c %= w
    if c == 0:
        return b
    return fshl(X, a, b, w - c, w)


def ctpop(X, a, w):
    if type(a) is int:
        return bin(a).count('1')
    r = BV(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
    return r


def bswap(X, a, w):
    n = w // 8
    if type(a) is int:
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)])


def bitreverse(X, a, w):
    if type(a) is int:
        return int(format(a, '0%db' % w)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, a) for i in range(w)])


def cttz(X, a, w):
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    r = BV(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, a) == 1, BV(i, w), r)
    return r


def ctlz(X, a, w):
    if type(a) is int:
        return w - a.bit_length()
    r = BV(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, BV(w - 1 - i, w), r)
    return r


def minmax(X, k, a, b, w):
    c = {'umin': cmp_ult, 'umax': cmp_ugt, 'smin': cmp_slt, 'smax': cmp_sgt}[k](a, b, w)
    return select(X, c, a, b, w)


def cmp3(X, k, a, b, w, rw):
    lt, gt = (cmp_ult, cmp_ugt) if k == 'ucmp' else (cmp_slt, cmp_sgt)
    return select(X, lt(a, b, w), (1 << rw) - 1, select(X, gt(a, b, w), 1, 0, rw), rw)


def iabs(X, a, w):
    return select(X, cmp_slt(a, 0, w), op_sub(X, 0, a, w), a, w)


RT = {k: v for k, v in globals().items() if callable(v) or k in ('z3',)}

PANIC_RX = re.compile(r'9panicking|unwrap_failed|expect_failed|_fail|panic|handle_alloc_error|capacity_overflow|abort')


class Exec:
    """One execution path: memory, decisions, path condition."""

    def __init__(self, prog, env, prefix=(), solver_timeout_ms=60000, stats=None, base_mem=None, next_obj=1 << 20):
        self.prog = prog
        self.env = env
        self.mem = dict(base_mem) if base_mem else {}
        self.shared = set(self.mem)     # copy on write
        self.next_obj = next_obj
        self.rv = None
        self.steps = 0
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.pc = []                    # path condition (z3 bools)
        self.solver = None
        self.asserted = 0
        self.nfresh = 0
        self.stats = stats if stats is not None else {'queries': 0, 'solver_s': 0.0}
        self.timeout = solver_timeout_ms
        self.max_steps = 3_000_000
        self.depth = 0
        self.externs = {}

    # -- symbols
    def undef(self, w):
        self.nfresh += 1
        n = 'undef%d' % self.nfresh
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    # -- solving
    def _sync(self):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_AUFBV') if getattr(self, 'use_arrays', False) else z3.SolverFor('QF_BV')
            self.solver.set('timeout', self.timeout)
        while self.asserted < len(self.pc):
            self.solver.add(self.pc[self.asserted])
            self.asserted += 1

    def check(self, *extra):
        import time
        self._sync()
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver: ' + self.solver.reason_unknown())
        return r == z3.sat

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Unsupported('assume(false)')
        self.pc.append(c)

    def branch(self, c):
        if type(c) is bool:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t = self.check(c)
            if t:
                f = self.check(z3.Not(c))
                if f:
                    self.pending.append(self.decisions + [False])
                d = True
            else:
                d = False
        self.decisions.append(d)
        self.pc.append(c if d else z3.Not(c))
        return d

    def choose(self, x, w, limit=4096):
        """concretise x (fork over all feasible values)"""
        if type(x) is int:
            return x
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            vals = []
            self._sync()
            self.solver.push()
            while True:
                self.stats['queries'] += 1
                r = self.solver.check()
                if r == z3.unknown:
                    raise Unsupported('solver: ' + self.solver.reason_unknown())
                if r == z3.unsat:
                    break
                v = self.solver.model().eval(x, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported('too many values to concretise')
                self.solver.add(x != BV(v, w))
            self.solver.pop()
            d = vals[0]
            for v in vals[1:]:
                self.pending.append(self.decisions + [v])
        self.decisions.append(d)
        self.pc.append(x == BV(d, w))
        return d

    def switch(self, v, mp, n, w):
        if type(v) is bool:
            v = int(v)
        if type(v) is int:
            return mp.get(v, -1)
        if w == 1:
            for c, i in mp.items():
                if self.branch(v if c else z3.Not(v)):
                    return i
            return -1
        vs = z3.simplify(v)
        if z3.is_bv_value(vs):
            return mp.get(vs.as_long(), -1)
        tbl = {}
        for c, i in mp.items():
            tbl.setdefault(i, []).append(c)
        for i in range(n):
            if self.branch(z3.Or([v == BV(c, w) for c in tbl[i]])):
                return i
        return -1

    def ub(self, what, where):
        raise PathEnd('ub', '%s in %s' % (what, where))

    def assume_chk(self, c, where):
        if not self.branch(c):
            raise PathEnd('ub', 'assume in ' + where)

    # -- memory
    def alloca(self, n):
        i = self.next_obj
        self.next_obj += 1
        self.mem[i] = [None] * n
        return i << 32

    def new_obj(self, cells):
        i = self.next_obj
        self.next_obj += 1
        self.mem[i] = cells
        return i << 32

    def obj(self, i):
        o = self.mem.get(i)
        if o is None:
            g = self.prog.byid.get(i)
            if type(g) is Global:
                o = self.prog.global_cells(g)
                self.mem[i] = o
                self.shared.add(i)
            else:
                raise PathEnd('ub', 'invalid pointer %x' % (i << 32))
        return o

    def wobj(self, i):
        o = self.obj(i)
        if i in self.shared:
            g = self.prog.byid.get(i)
            if type(g) is Global and g.const:
                raise PathEnd('ub', 'write to constant ' + g.name)
            o = self.mem[i] = list(o)
            self.shared.discard(i)
        return o

    def load(self, p, n):
        if type(p) is not int:
            return self.load_sym(p, n)
        o = self.obj(p >> 32)
        return self.load_at(o, p & 0xffffffff, n, p)

    def load_at(self, o, off, n, p):
        if off + n > len(o):
            if n == 0:
                return 0
            raise PathEnd('ub', 'out-of-bounds load %x+%d' % (p, n))
        c = o[off]
        if n == 1:
            if type(c) is tuple:
                return z3.Extract(8 * c[1] + 7, 8 * c[1], c[0])
            if c is None:
                return self.undef(8)
            return c
        if type(c) is tuple:
            if c[1] == 0 and c[2] == n:
                w = c[0]
                for i in range(1, n):
                    d = o[off + i]
                    if type(d) is not tuple or d[0] is not w or d[1] != i:
                        break
                else:
                    return w
        cs = o[off:off + n]
        r = 0
        for i in range(n):
            d = cs[i]
            if type(d) is not int:
                break
            r |= d << (8 * i)
        else:
            return r
        parts = []
        for d in cs:
            if type(d) is tuple:
                d = z3.Extract(8 * d[1] + 7, 8 * d[1], d[0])
            elif d is None:
                d = self.undef(8)
            elif type(d) is int:
                d = BV(d, 8)
            parts.append(d)
        parts.reverse()
        return z3.Concat(*parts)

    def store(self, p, v, n):
        if type(p) is not int:
            p = self.resolve_store(p)
        o = self.wobj(p >> 32)
        off = p & 0xffffffff
        if off + n > len(o):
            if n == 0:
                return
            raise PathEnd('ub', 'out-of-bounds store %x+%d' % (p, n))
        if v is None:
            for i in range(n):
                o[off + i] = None
        elif n == 1:
            o[off] = v
        elif type(v) is int:
            for i in range(n):
                o[off + i] = (v >> (8 * i)) & 255
        else:
            for i in range(n):
                o[off + i] = (v, i, n)

    def resolve_store(self, p):
        return self.choose(p, 64)

    def load_sym(self, p, n):
        p = z3.simplify(p)
        if z3.is_bv_value(p):
            return self.load(p.as_long(), n)
        self._sync()
        if not self.check():
            raise Unsupported('infeasible path')
        v = self.solver.model().eval(p, model_completion=True).as_long()
        base = v >> 32 << 32
        o = self.obj(v >> 32)
        size = len(o)
        inside = z3.And(z3.ULE(BV(base, 64), p), z3.ULE(p, BV(base + size - n, 64))) if size >= n else z3.BoolVal(False)
        if self.check(z3.Not(inside)):
            # may point elsewhere: fork
            return self.load(self.choose(p, 64), n)
        # stride: low bits of p that are constant
        low = z3.simplify(z3.Extract(2, 0, p))
        step = 1
        for s in (8, 4, 2):
            b = z3.simplify(z3.Extract({8: 2, 4: 1, 2: 0}[s], 0, p))
            if z3.is_bv_value(b):
                step = s
                break
        start = (v & 0xffffffff) % step
        offs = range(start, size - n + 1, step)
        if len(offs) > 70000:
            raise Unsupported('symbolic load from a large object')
        r = None
        w = 8 * n
        vals = {}
        for off in offs:
            x = self.load_at(o, off, n, base + off)
            vals[off] = x
        for off in reversed(offs):
            x = bv(vals[off], w)
            if r is None:
                r = x
            elif x is r or x.eq(r):
                continue
            else:
                r = z3.If(p == BV(base + off, 64), x, r)
        return r

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = self.choose(n, 64)
        if n == 0:
            return
        if type(s) is not int:
            cells = [self.load(padd(s, i), 1) for i in range(n)]
        else:
            o = self.obj(s >> 32); off = s & 0xffffffff
            if off + n > len(o):
                raise PathEnd('ub', 'out-of-bounds memcpy source')
            cells = o[off:off + n]
        if type(d) is not int:
            d = self.choose(d, 64)
        o = self.wobj(d >> 32); off = d & 0xffffffff
        if off + n > len(o):
            raise PathEnd('ub', 'out-of-bounds memcpy destination')
        o[off:off + n] = cells

    def memset(self, d, v, n):
        if type(n) is not int:
            n = self.choose(n, 64)
        if n == 0:
            return
        if type(d) is not int:
            d = self.choose(d, 64)
        o = self.wobj(d >> 32); off = d & 0xffffffff
        if off + n > len(o):
            raise PathEnd('ub', 'out-of-bounds memset')
        o[off:off + n] = [v] * n

    def read_bytes(self, p, n):
        return [self.load(p + i, 1) for i in range(n)]

    # -- calls
    def call(self, name, args):
        f = self.prog.func(name)
        if f is None:
            return self.extern(name, args)
        return self.run(f, args)

    def run(self, f, args):
        ov = self.externs.get(f.name)
        if ov is not None:
            return ov(self, args)
        R = args + [None] * (f.nregs - len(args))
        self.prog.executed.add(f.name)
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('recursion depth')
        blocks = f.blocks
        b = 0
        while True:
            fn = blocks[b]
            if fn is None:
                fn = self.prog.compile_block(f, b)
            b = fn(self, R)
            if b < 0:
                break
            if self.steps > self.max_steps:
                raise PathEnd('hang', 'no end within %d steps' % self.max_steps)
        self.depth -= 1
        return self.rv

    def call_ptr(self, p, args):
        if type(p) is not int:
            p = self.choose(p, 64)
        o = self.prog.byid.get(p >> 32)
        if type(o) is Func:
            if not o.parsed:
                self.prog._parse_func(o)
            return self.run(o, args)
        if type(o) is str:
            return self.extern(o, args)
        raise PathEnd('ub', 'call through invalid pointer')

    def extern(self, name, args):
        h = self.externs.get(name)
        if h is not None:
            return h(self, args)
        if name in LIBC:
            return LIBC[name](self, args)
        m = RUNTIME_RX.search(name)
        if m:
            return RUNTIME[m.group(1)](self, args)
        h = getattr(self.env, name, None) if self.env is not None else None
        if h is not None:
            return h(self, *args)
        if PANIC_RX.search(name):
            raise PathEnd('panic', name)
        raise Unsupported('call to external ' + name)


def _bcmp(X, a):
    p, q, n = a
    if type(n) is not int:
        n = X.choose(n, 64)
    conds = []
    for i in range(n):
        c = cmp_eq(X.load(padd(p, i), 1), X.load(padd(q, i), 1), 8)
        if c is False:
            return 1
        if c is not True:
            conds.append(c)
    if not conds:
        return 0
    return z3.If(z3.And(conds), BV(0, 32), BV(1, 32))


def _memcmp(X, a):
    p, q, n = a
    if type(n) is not int:
        n = X.choose(n, 64)
    for i in range(n):
        x, y = X.load(padd(p, i), 1), X.load(padd(q, i), 1)
        if not X.branch(cmp_eq(x, y, 8)):
            return select(X, cmp_ult(x, y, 8), 0xffffffff, 1, 32)
    return 0


LIBC = {
    'bcmp': _bcmp, 'memcmp': _memcmp,
    'memcpy': lambda X, a: (X.memcpy(*a), a[0])[1],
    'memmove': lambda X, a: (X.memcpy(*a), a[0])[1],
    'memset': lambda X, a: (X.memset(a[0], op_trunc(a[1], 8), a[2]), a[0])[1],
}


# the Rust runtime: allocation never fails and gives a fresh object; the text
# of a formatted error message is not modelled (an empty String)
def _rt_alloc(X, a):
    n = a[0] if type(a[0]) is int else X.choose(a[0], 64)
    return X.alloca(max(n, 1))


def _rt_format(X, a):
    X.store(a[0], 0, 8)
    X.store(padd(a[0], 8), 1, 8)
    X.store(padd(a[0], 16), 0, 8)


RUNTIME = {'rust_alloc': _rt_alloc, 'rust_dealloc': lambda X, a: None, 'rust_no_alloc_shim_is_unstable_v2': lambda X, a: None,
           'format_inner': _rt_format}
RUNTIME_RX = re.compile(r'(rust_alloc|rust_dealloc|rust_no_alloc_shim_is_unstable_v2|format_inner)$')


def explore(make, body, max_paths=20000):
    """Depth-first exploration by re-execution.  make(prefix) -> Exec;
    body(X) runs one path and handles PathEnd itself.  Yields (X, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        X = make(prefix)
        r = body(X)
        n += 1
        if n > max_paths:
            raise Unsupported('path budget exhausted (%d)' % max_paths)
        stack.extend(X.pending)
        yield X, r
