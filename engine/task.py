"""Generic two-sided symbolic check: left (code under test) vs right (reference
model, or a second run of the code), over the same symbolic inputs and the same
symbolic environment, plus native replay of counterexamples."""
import json, os, subprocess, sys, time
import z3
import llir
from llir import Exec, PathEnd, Unsupported, BV, bv, explore


class Syms:
    """environment answers: one symbol per (kind, index), unless scripted"""
    def __init__(self, script=None, concrete=None):
        self.script = script or {}
        self.d = {}
        self.peeks = {}          # printed address -> (address, symbol)
        self.concrete = concrete  # dict for replays

    def resp(self, kind, idx, w):
        if kind == 'peek':
            return self.peek(idx)
        s = self.script.get(kind)
        if s is not None:
            if isinstance(s, dict):
                if idx in s:
                    return s[idx]
                if '*' in s:
                    return s['*']
            elif isinstance(s, list):
                if isinstance(idx, int) and idx < len(s) and s[idx] is not None:
                    return s[idx]
            else:
                return s
        if self.concrete is not None:
            v = self.concrete.get(repr((kind, idx)), 0)
            return bool(v) if w == 1 else v
        k = (kind, idx)
        v = self.d.get(k)
        if v is None:
            nm = 'e_%s_%s' % (kind, '_'.join(map(str, idx)) if isinstance(idx, tuple) else idx)
            v = self.d[k] = z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
        return v

    def peek(self, a):
        if self.concrete is not None:
            return self.concrete.get('peek:%d' % a, 0)
        k = str(z3.simplify(a)) if type(a) is not int else str(a)
        v = self.peeks.get(k)
        if v is None:
            v = self.peeks[k] = (a, z3.BitVec('e_peek_%d' % len(self.peeks), 8))
        return v[1]


def model_value(m, v):
    if type(v) in (int, bool):
        return int(v)
    r = m.eval(v, model_completion=True)
    if z3.is_bool(r):
        return int(z3.is_true(r))
    return r.as_long()


class ConcX:
    """the executor interface over concrete values (for the reference side of a replay)"""
    def __init__(self, reader=None):
        self.reader = reader
        self.stats = {}

    def branch(self, c):
        if type(c) is not bool:
            c = z3.simplify(c)
            if not (z3.is_true(c) or z3.is_false(c)):
                raise Unsupported('symbolic value in a concrete run')
            return z3.is_true(c)
        return c

    def choose(self, x, w, limit=0):
        return x

    def read_bytes(self, p, n):
        return self.reader(p, n)


class SymCtx:
    """one side of a symbolic run"""
    native = False

    def __init__(self, X, env):
        self.X, self.env = X, env

    def call(self, name, *args):
        self.X.env = self.env
        return self.X.call(name, list(args))

    def alloc(self, n, init=None):
        p = self.X.alloca(n)
        if init is not None:
            for i, b in enumerate(init):
                self.X.store(p + i, b, 1)
        return p

    def load(self, p, n):
        return self.X.load(p, n)

    def store(self, p, v, n):
        self.X.store(p, v, n)


def cross_check(X, neq):
    """the same query, to a second solver (cvc5)"""
    s = z3.Solver()
    s.add(X.pc)
    s.add(neq)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=60000', '-'], input=txt, capture_output=True, text=True)
    X.stats['cross'] = X.stats.get('cross', 0) + 1
    if r.stdout.strip() not in ('unsat', 'sat'):
        X.stats['cross_unknown'] = X.stats.get('cross_unknown', 0) + 1
    elif r.stdout.strip() != 'unsat':
        raise Unsupported('cvc5 does not confirm z3: %s %s' % (r.stdout[:200], r.stderr[:300]))


class Cmp:
    """collects (facet, name, left, right, width) and structural mismatches"""
    def __init__(self, facets):
        self.facets = facets
        self.cross = False
        self.pairs = []
        self.bad = []
        self.conds = []

    def eq(self, facet, name, a, b, w):
        if self.facets is None or facet in self.facets:
            self.pairs.append((facet, name, a, b, w))

    def holds(self, facet, name, cond):
        """cond must be true"""
        self.eq(facet, name, llir.zext1(cond, 8), 1, 8)

    def mismatch(self, facet, text):
        if self.facets is None or facet in self.facets:
            self.bad.append((facet, text))

    def resolve_concrete(self):
        out = [f + ': ' + t for f, t in self.bad]
        for facet, name, a, b, w in self.pairs:
            if type(a) not in (int, bool) or type(b) not in (int, bool):
                d = z3.simplify(bv(a, w) != bv(b, w))
                if z3.is_true(d):
                    out.append('%s: %s is %s, expected %s' % (facet, name, z3.simplify(bv(a, w)), z3.simplify(bv(b, w))))
                elif not z3.is_false(d):
                    out.append('%s: %s did not evaluate' % (facet, name))
                continue
            if int(a) != int(b):
                out.append('%s: %s is 0x%x, expected 0x%x' % (facet, name, a, b))
        return out

    def resolve(self, X):
        """None if everything is equal on this path, else (texts, z3 model)"""
        if self.bad:
            if not X.check():
                raise Unsupported('infeasible path reached')
            return [b[0] + ': ' + b[1] for b in self.bad], X.solver.model()
        terms, easy = [], []
        for facet, name, a, b, w in self.pairs:
            if type(a) in (int, bool) and type(b) in (int, bool):
                if int(a) != int(b):
                    if not X.check():
                        raise Unsupported('infeasible path reached')
                    return ['%s: %s is 0x%x, expected 0x%x' % (facet, name, a, b)], X.solver.model()
                continue
            a2, b2 = bv(a, w), bv(b, w)
            if a2.eq(b2):
                easy.append(a2 != b2)
                continue
            d = a2 != b2
            if not self.cross:
                d0, d = d, z3.simplify(d)
                if z3.is_false(d):
                    easy.append(d0)
                    continue
            terms.append((facet, name, a2, b2, d))
        X.stats['obligations'] = X.stats.get('obligations', 0) + len(self.pairs)
        X.stats['by_rewriting'] = X.stats.get('by_rewriting', 0) + len(self.pairs) - len(terms)
        if not terms:
            # decided by the solver's rewriter; have it confirm the whole path
            if easy and not X.check(z3.Or(easy)):
                return None
            if easy:
                raise Unsupported('the rewriter and the solver disagree')
            return None
        X.stats['by_solver'] = X.stats.get('by_solver', 0) + len(terms)
        neq = z3.Or([t[4] for t in terms])
        if not X.check(neq):
            if self.cross:
                cross_check(X, neq)
            return None
        m = X.solver.model()
        out = []
        for facet, name, a, b, d in terms:
            if z3.is_true(m.eval(d, model_completion=True)):
                out.append('%s: %s is 0x%x, expected 0x%x' % (facet, name, model_value(m, a), model_value(m, b)))
        return out, m


class Task:
    """Subclasses define:
      inputs()            -> dict name -> concrete int/bool or z3 constant
      constraints(st)     -> list of z3 assumptions on the inputs
      prepare(ctx, side)  -> allocate and build objects (runs once, must not fork)
      left(ctx), right(ctx) -> observations (any object)
      compare(c, lctx, rctx, lo, ro)
    """
    facets = None
    script = None
    canary = False
    cross = False
    name = 'task'
    max_paths = 20000
    timeout_ms = 120000
    max_steps = 400_000
    allow_panic = False

    def __init__(self, prog):
        self.prog = prog
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'steps': 0}
        self.base = None

    def make_env(self, resp, side):
        return None

    def constraints(self, st):
        return []

    def inputs(self):
        return {}

    def prepare(self, ctx, side):
        pass

    def externs(self):
        return {}

    def describe(self):
        return self.name

    # ------------------------------------------------------------- symbolic
    def setup(self):
        self.st = self.inputs()
        syms = Syms(self.script)
        X = Exec(self.prog, None, stats=self.stats)
        X.externs = self.externs()
        self.pre = self.constraints(self.st)
        X.pc += self.pre
        self.slots = []
        for side in ('left', 'right'):
            ctx = SymCtx(X, self.make_env(syms.resp, side))
            ctx.st = self.st
            self.prepare(ctx, side)
            if X.pending:
                raise Unsupported('setup forked')
            self.slots.append({k: v for k, v in ctx.__dict__.items() if k not in ('X', 'env', 'st')})
        self.pre = list(X.pc)
        self.base = dict(X.mem)
        self.next_obj = X.next_obj

    def make(self, prefix):
        X = Exec(self.prog, None, prefix, stats=self.stats, base_mem=self.base, next_obj=self.next_obj,
                 solver_timeout_ms=self.timeout_ms)
        X.externs = self.externs()
        X.max_steps = self.max_steps
        X.pc += self.pre
        X.syms = Syms(self.script)
        return X

    def body(self, X):
        ctxs = []
        for i, side in enumerate(('left', 'right')):
            ctx = SymCtx(X, self.make_env(X.syms.resp, side))
            ctx.st = self.st
            ctx.__dict__.update(self.slots[i])
            ctxs.append(ctx)
        ctxs[1].peer = ctxs[0]
        c = Cmp(self.facets)
        c.cross = self.cross and not self.stats.get('cross')
        self.stats['paths'] += 1
        side = 'left'
        try:
            lo = self.left(ctxs[0])
            side = 'right'
            ro = self.right(ctxs[1])
            side = 'compare'
        except PathEnd as e:
            self.stats['steps'] += X.steps
            if not X.check():
                raise Unsupported('infeasible path reached')
            r = self.on_panic(X, e, side)
            if r is None:
                return None
            return r, X.solver.model(), X
        self.compare(c, ctxs[0], ctxs[1], lo, ro)
        if self.canary:
            c.pairs = [(f, n, a, bv(b, w) ^ BV(1, w), w) for f, n, a, b, w in c.pairs]
            if not c.pairs:
                c.pairs.append(('canary', 'reached', 1, 0, 8))
        r = c.resolve(X)
        self.stats['steps'] += X.steps
        return None if r is None else (r[0], r[1], X)

    def on_panic(self, X, e, side):
        return ['panic: %s' % (str(e)[:300])]

    def run(self):
        """None, or (texts, job) for a counterexample"""
        if self.base is None:
            self.setup()
        for X, r in explore(self.make, self.body, self.max_paths):
            if r is not None:
                return r[0], self.concretise(r[1], r[2])
        return None

    def concretise(self, m, X):
        st = {k: model_value(m, v) for k, v in self.st.items() if not callable(v)}
        conc = {repr(k): model_value(m, v) for k, v in X.syms.d.items()}
        for a, v in X.syms.peeks.values():
            conc['peek:%d' % model_value(m, a)] = model_value(m, v)
        return {'st': st, 'env': conc}

    # ------------------------------------------------------------- concrete
    def concrete_inputs(self, job):
        st = {}
        for k, v in self.inputs().items():
            if type(v) in (int, bool):
                st[k] = v
            elif k in job['st']:
                x = job['st'][k]
                st[k] = bool(x) if z3.is_bool(v) else x
        return st

    def replay(self, job, lib):
        """run both sides natively / concretely; list of mismatch texts"""
        import native
        st = self.concrete_inputs(job)
        ctxs = []
        for side in ('left', 'right'):
            syms = Syms(self.script, job['env'])
            env = self.make_env(syms.resp, side)
            ctx = native.NatCtx(lib, env)
            ctx.st = st
            self.prepare(ctx, side)
            ctxs.append(ctx)
        ctxs[1].peer = ctxs[0]
        c = Cmp(self.facets)
        lo = self.left(ctxs[0])
        ro = self.right(ctxs[1])
        self.compare(c, ctxs[0], ctxs[1], lo, ro)
        return c.resolve_concrete()
