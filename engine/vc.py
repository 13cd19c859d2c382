"""Verification-condition generator: path-wise symbolic execution of normalised
LLVM IR with loop cutting (invariants found by Houdini over spec-supplied
candidate templates) and quantifier-free VCs obtained by instantiating the
universally quantified hypotheses at the ground terms of each query.

Back end: z3 (python bindings)."""
import time, itertools, os, sys
import z3
from irparse import Module, loops, succs, IRError

P = z3.DeclareSort('P')
I = z3.IntSort()
B = z3.BoolSort()
NULL = z3.Const('null', P)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_cnt = itertools.count()
SORT = {'P': P, 'I': I, 'B': B}

def fresh(n, sort):
    return z3.Const('%s!%d' % (n, next(_cnt)), sort)
def freshfn(n, *sorts):
    return z3.Function('%s!%d' % (n, next(_cnt)), *sorts)

class VError(Exception):
    """verifier could not process the code (unsupported construct)"""

# ---------------------------------------------------------------- quantified formulas
class Q:
    """universally quantified formula.  kinds: string over P/I (one char per var),
    or trig=function name whose argument tuples instantiate it."""
    __slots__ = ('name', 'kinds', 'fn', 'trig', 'cache', 'uid', 'lvl')
    def __init__(self, name, kinds, fn, trig=None, lvl=None):
        self.name, self.kinds, self.fn, self.trig = name, kinds, fn, trig
        self.cache = {}
        self.uid = next(_cnt)
        self.lvl = lvl      # max instantiation round (None = unlimited)
    def inst(self, ts):
        k = tuple(t.get_id() for t in ts)
        r = self.cache.get(k)
        if r is None:
            f = self.fn(*ts)
            if isinstance(f, (list, tuple)):
                f = z3.And(*f) if f else TRUE
            r = (f, ts)
            self.cache[k] = r
        return r[0]
    def skolem(self):
        ts = [fresh('sk', SORT[k]) for k in self.kinds]
        return self.inst(ts), ts

def G(name, f):
    return Q(name, '', lambda: f)

_subcache = {}
def subterms(e):
    """(list of P-sorted ground terms, list of applications of uninterpreted functions with args) in e"""
    i = e.get_id()
    r = _subcache.get(i)
    if r is not None:
        return r[0], r[1]
    ps, apps = [], []
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if not z3.is_app(x):
            continue
        d = x.decl()
        n = x.num_args()
        if x.sort() == P:
            if d.kind() == z3.Z3_OP_UNINTERPRETED and xi != NULL.get_id():
                ps.append(x)
        if n:
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                apps.append(x)
            st.extend(x.children())
    _subcache[i] = (ps, apps, e)
    if len(_subcache) > 400000:
        _subcache.clear()
    return ps, apps

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.insts = 0
STATS = Stats()
DEPTH = 2
ARITH = int(os.environ.get('VC_ARITH', '0'))
MAXT = 400

def instantiate(hyps, forms, depth):
    """ground instances of hyps at terms of forms (depth rounds)"""
    out = []
    donekey = set()
    pt, ptseen = [], set()
    apps, appseen = {}, set()
    new = list(forms)
    for rnd in range(depth):
        np, na = [], []
        for f in new:
            ps, aps = subterms(f)
            for t in ps:
                if t.get_id() not in ptseen:
                    ptseen.add(t.get_id())
                    np.append(t)
            for a in aps:
                if a.get_id() not in appseen:
                    appseen.add(a.get_id())
                    na.append(a)
        if not np and not na and rnd:
            break
        pt_all = pt + np
        new = []
        def add(h, ts):
            f = h.inst(ts)
            if z3.is_true(f):
                return
            new.append(f)
            out.append(f)
        for h in hyps:
            if h.lvl is not None and rnd >= h.lvl:
                continue
            if h.trig:
                for a in na:
                    if a.decl().name() == h.trig:
                        add(h, a.children())
            elif h.kinds == '':
                if rnd == 0:
                    add(h, [])
            elif h.kinds == 'P':
                for t in np:
                    add(h, [t])
            elif h.kinds == 'PP':
                for t in pt_all:
                    for u in pt_all:
                        k = (h.uid, t.get_id(), u.get_id())
                        if k not in donekey:
                            donekey.add(k)
                            add(h, [t, u])
            else:
                raise VError('hyp kinds ' + h.kinds)
        pt = pt_all
        if len(pt) > MAXT:
            break
    STATS.insts += len(out)
    return out

class Res:
    __slots__ = ('ok', 'model', 'status')
    def __init__(self, ok, status, model=None):
        self.ok, self.status, self.model = ok, status, model

DEBUG = os.environ.get('VC_DEBUG')
SEED, TMUL = 0, 1       # set for the second attempt at a unit that was not discharged
def solve(hyps, path, neg, depth=None, timeout=10000, want_model=False):
    """check unsat(hyps & path & neg)"""
    depth = DEPTH if depth is None else depth
    forms = list(path) + list(neg)
    t0 = time.time()
    fs = instantiate(hyps, forms, depth)
    s = z3.SimpleSolver()
    s.set('timeout', timeout * TMUL)
    if SEED:
        s.set('random_seed', SEED)
    if ARITH:
        s.set('arith.solver', ARITH)
    for f in forms:
        s.add(f)
    for f in fs:
        s.add(f)
    r = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if DEBUG and dt > 5 and os.environ.get('VC_DUMP'):
        open('%s/q%d_%s_%d.smt2' % (os.environ['VC_DUMP'], STATS.queries, r, int(dt)), 'w').write(s.to_smt2())
    if DEBUG and dt > float(os.environ.get("VC_SLOW","2")):
        print('   slow query %.1fs %s forms=%d inst=%d' % (dt, r, len(forms), len(fs)), file=sys.stderr)
    if r == z3.unsat:
        return Res(True, 'unsat')
    if r == z3.unknown:
        STATS.unknown += 1
        return Res(False, 'unknown')
    return Res(False, 'sat', s.model() if want_model else None)

class IncSolver:
    """one z3 context per path: base assertions once, goals in push/pop frames"""
    def __init__(self, hyps, path):
        self.hyps, self.path = tuple(hyps), list(path)
        t0 = time.time()
        self.s = z3.SimpleSolver()
        if SEED:
            self.s.set('random_seed', SEED)
        if ARITH:
            self.s.set('arith.solver', ARITH)
        self.base = set()
        for f in self.path + instantiate(self.hyps, self.path, 1):
            if f.get_id() not in self.base:
                self.base.add(f.get_id())
                self.s.add(f)
        self.keep = []
        STATS.time += time.time() - t0
    def solve(self, neg, timeout, depth=1):
        t0 = time.time()
        fs = instantiate(self.hyps, self.path + list(neg), depth)
        self.s.push()
        n = 0
        for f in list(neg) + fs:
            if f.get_id() not in self.base:
                self.s.add(f)
                n += 1
        self.s.set('timeout', timeout * TMUL)
        r = self.s.check()
        self.s.pop()
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        if DEBUG and dt > float(os.environ.get('VC_SLOW', '2')):
            print('   slow inc query %.1fs %s base=%d new=%d' % (dt, r, len(self.base), n), file=sys.stderr)
        return Res(r == z3.unsat, str(r))

# ---------------------------------------------------------------- maps (heap fields / ghost fields)
class Map:
    """total map P -> sort, as base function plus pending writes (functional ITE)"""
    __slots__ = ('base', 'writes', 'rs', 'log')
    def __init__(self, base, writes=(), rs=P, log=()):
        self.base, self.writes, self.rs, self.log = base, writes, rs, log
    @staticmethod
    def new(name, rs=P):
        return Map(freshfn(name, P, rs), (), rs)
    def read(self, a):
        acc = []
        for (w, v) in reversed(self.writes):
            if w.eq(a):
                r = v
                break
            acc.append((w, v))
        else:
            r = self.base(a)
        for w, v in reversed(acc):
            r = z3.If(a == w, v, r)
        return r
    def __call__(self, a):
        return self.read(a)
    def write(self, a, v):
        ws = tuple((w, x) for (w, x) in self.writes if not w.eq(a))
        return Map(self.base, ws + ((a, v),), self.rs, self.log + ((a, v),))

class Off:
    """pointer to interior of an object: base (P term or Alloca) + constant offset"""
    __slots__ = ('base', 'off')
    def __init__(self, base, off):
        self.base, self.off = base, off

class Alloca:
    __slots__ = ('id',)
    def __init__(self):
        self.id = next(_cnt)

class Glob:
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name

class Undef:
    pass

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'maps', 'g', 'mem', 'path', 'hyps', 'obl', 'prev', 'blk', 'idx', 'active', 'tr', 'func', 'ev')
    def __init__(self):
        self.env, self.maps, self.g, self.mem = {}, {}, {}, {}
        self.path, self.hyps, self.obl = (), (), ()
        self.prev = self.blk = None
        self.idx = 0
        self.active = ()
        self.tr = ()
        self.func = None
        self.ev = ()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.maps = dict(self.maps)
        s.g = dict(self.g)
        s.mem = dict(self.mem)
        s.path, s.hyps, s.obl, s.prev, s.blk, s.idx, s.active, s.tr, s.func, s.ev = self.path, self.hyps, self.obl, self.prev, self.blk, self.idx, self.active, self.tr, self.func, self.ev
        return s
    def assume(self, f):
        if isinstance(f, Q):
            if f.kinds == '' and not f.trig:
                f = f.inst([])
            else:
                self.hyps = self.hyps + (f,)
                return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if z3.is_true(f):
            return
        self.path = self.path + (f,)
    def need(self, label, f):
        """proof obligation at this point; then known"""
        if isinstance(f, Q):
            if f.kinds == '':
                f = f.inst([])
            else:
                self.obl = self.obl + ((label, f),)
                self.hyps = self.hyps + (f,)
                return
        if z3.is_true(f):
            return
        self.obl = self.obl + ((label, f),)

def as_bit(a):
    """the condition of a 0/1 valued term, or None"""
    if z3.is_int_value(a):
        return {0: FALSE, 1: TRUE}.get(a.as_long())
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = a.arg(1), a.arg(2)
        if z3.is_int_value(x) and z3.is_int_value(y):
            if (x.as_long(), y.as_long()) == (1, 0):
                return a.arg(0)
            if (x.as_long(), y.as_long()) == (0, 1):
                return z3.Not(a.arg(0))
    return None
def simp(f):
    return z3.simplify(f)

class Obligation:
    __slots__ = ('label', 'ok', 'status', 'time', 'loc', 'detail')
    def __init__(self, label, ok, status, t, loc=''):
        self.label, self.ok, self.status, self.time, self.loc = label, ok, status, t, loc
        self.detail = ''

class Return:
    __slots__ = ('st', 'val', 'exc')
    def __init__(self, st, val, exc=False):
        self.st, self.val, self.exc = st, val, exc

# ---------------------------------------------------------------- engine
class Engine:
    def __init__(self, module, spec):
        self.m = module
        self.spec = spec
        self.obls = []
        self.checking = True
        self.depth = getattr(spec, 'depth', DEPTH)
        self.loopinfo = {}
        self.budget = time.time() + getattr(spec, 'budget', 600)
        self.notes = []
        self.npaths = 0
        self.timeout = getattr(spec, 'timeout', 10000)
        self.pruned = 0
        self.pref = {}
        self.hint = None
        self.joins = {}
        self.shard = (0, 1)
        self.quiet = False
    # -- proving
    def prove(self, st, label, goal, loc='', record=True, extra=()):
        t0 = time.time()
        if isinstance(goal, Q):
            f, _ = goal.skolem()
        else:
            f = goal
        r = None
        if z3.is_true(f):
            r = Res(True, 'trivial')
        else:
            for d in range(1, self.depth + 1):
                r = solve(st.hyps + tuple(extra), st.path, [z3.Not(f)], depth=d, timeout=self.timeout)
                if r.ok:
                    break
        if record:
            self.obls.append(Obligation(label, r.ok, r.status, time.time() - t0, loc))
            if not r.ok and DEBUG:
                print('   FAILED', label, r.status, st.tr[-30:], file=sys.stderr)
        return r.ok
    def prove_all(self, st, goals):
        """several goals of one path: same-kind goals share skolem constants and are tried as one query first"""
        groups = {}
        for l, g in goals:
            k = g.kinds if isinstance(g, Q) else ''
            groups.setdefault(k, []).append((l, g))
        for k, gs in groups.items():
            if k == 'P' and getattr(self.spec, 'split', False):
                t0 = time.time()
                ok = self.prove_split(st, list(enumerate(g for _, g in gs)))
                dt = time.time() - t0
                for i, (l, g) in enumerate(gs):
                    self.obls.append(Obligation(l, i in ok, 'unsat' if i in ok else 'not proved', dt / len(gs)))
                continue
            sk = [fresh('sk', SORT[c]) for c in k]
            fs = [(l, g.inst(sk) if isinstance(g, Q) else g) for l, g in gs]
            live = [(l, f) for l, f in fs if not z3.is_true(f)]
            for l, f in fs:
                if z3.is_true(f):
                    self.obls.append(Obligation(l, True, 'trivial', 0))
            if not live:
                continue
            t0 = time.time()
            ok = False
            if len(live) > 1:
                neg = z3.Not(z3.And(*[f for _, f in live]))
                for d in self.depths('batch'):
                    r = solve(st.hyps, st.path, [neg], depth=d, timeout=self.timeout)
                    if r.ok:
                        ok = True
                        self.pref['batch'] = d
                        break
            dt = time.time() - t0
            if ok:
                for l, f in live:
                    self.obls.append(Obligation(l, True, 'unsat', dt / len(live)))
            else:
                for l, f in live:
                    self.prove(st, l, f)
    def prove_split(self, st, goals):
        """goals: list of (key, Q of kind 'P').  Case split of the bound variable over the nodes written on this path
        plus 'any other node'; within a case all goals are one query, refined by models.  Returns the set of keys proved."""
        W, seen = [], set()
        for m in st.maps.values():
            for a, _ in m.writes:
                if a.get_id() not in seen:
                    seen.add(a.get_id())
                    W.append(a)
        left = list(goals)
        failed = set()
        x = fresh('sk', P)
        inc = IncSolver(st.hyps, st.path)
        for w in [None] + W:
            if w is None:
                hyp = [x != y for y in W]
                sub = [(x == y, FALSE) for y in W] + [(y == x, FALSE) for y in W]
                fs = [(k, z3.substitute(g.inst([x]), *sub) if sub else g.inst([x])) for k, g in left]
            else:
                hyp = []
                fs = [(k, g.inst([w])) for k, g in left]
            live = [(k, simp(f)) for k, f in fs]
            live = [(k, f) for k, f in live if not z3.is_true(f)]
            if len(live) > 1 and inc.solve(hyp + [z3.Not(z3.And(*[f for _, f in live]))], 2500).ok:
                continue
            for k, f in live:
                for d in range(1, self.depth + 1):
                    r = inc.solve(hyp + [z3.Not(f)], self.timeout) if d == 1 else solve(st.hyps, st.path, hyp + [z3.Not(f)], depth=d, timeout=self.timeout)
                    if r.ok:
                        break
                else:
                    failed.add(k)
                    if DEBUG:
                        print('   split case', w, 'fails', k, r.status, file=sys.stderr)
            left = [(k, g) for k, g in left if k not in failed]
        return set(k for k, _ in goals) - failed
    def depths(self, key):
        p = self.pref.get(key, 1)
        return [d for d in range(1, self.depth + 1) if d >= p]
    def feasible(self, st, cond):
        r = None
        for d in range(1, min(self.depth, getattr(self.spec, 'feas_depth', 2)) + 1):
            r = solve(st.hyps, st.path, [cond], depth=d, timeout=3000)
            if r.ok:
                self.pruned += 1
                return False
        return True
    def flush(self, st):
        if not st.obl:
            return
        if not self.checking or self.quiet:
            st.path = st.path + tuple(f for _, f in st.obl if not isinstance(f, Q))
            st.obl = ()
            return
        # group quantifier-free obligations
        ground = [(l, f) for l, f in st.obl if not isinstance(f, Q)]
        uniq, seen = [], set()
        for l, f in ground:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                uniq.append((l, f))
        if uniq:
            t0 = time.time()
            conj = z3.And(*[f for _, f in uniq]) if len(uniq) > 1 else uniq[0][1]
            ok = False
            for d in range(1, self.depth + 1):
                r = solve(st.hyps, st.path, [z3.Not(conj)], depth=d, timeout=self.timeout)
                if r.ok:
                    ok = True
                    break
            dt = time.time() - t0
            if ok:
                for l, f in uniq:
                    self.obls.append(Obligation(l, True, 'unsat', dt / len(uniq)))
            else:
                for l, f in uniq:
                    self.prove(st, l, f)
        qs = [(l, f) for l, f in st.obl if isinstance(f, Q) and f.kinds == 'P']
        if qs and getattr(self.spec, 'split', False):
            drop = set(id(f) for _, f in qs)
            st2 = st.copy()
            st2.hyps = tuple(h for h in st.hyps if id(h) not in drop)
            self.prove_all(st2, qs)
            st.obl = tuple((l, f) for l, f in st.obl if not (isinstance(f, Q) and f.kinds == 'P'))
        for l, f in st.obl:
            if isinstance(f, Q):
                st2 = st.copy()
                st2.hyps = tuple(h for h in st.hyps if h is not f)
                self.prove(st2, l, f)
        st.path = st.path + tuple(f for _, f in uniq)
        st.obl = ()
    # -- values
    def const(self, ty, v):
        k = v[0]
        if k == 'num':
            if ty[0] == 'int':
                n = int(v[1])
                return z3.IntVal(n % (1 << ty[1]))
            if ty[0] in ('float', 'double'):
                return ('fp', v[1])
        if k == 'bool':
            return z3.BoolVal(v[1])
        if k == 'null':
            return NULL
        if k in ('undef',):
            if ty[0] == 'ptr':
                return fresh('undef', P)
            if ty == ('int', 1):
                return fresh('undef', B)
            if ty[0] == 'int':
                x = fresh('undef', I)
                return x
            if ty[0] in ('struct', 'arr'):
                ts = ty[1] if ty[0] == 'struct' else [ty[2]] * ty[1]
                return tuple(self.const(t, v) for t in ts)
            return Undef()
        if k == 'zero':
            ty = self.m.resolve(ty)
            if ty[0] == 'struct':
                return tuple(self.const(t, v) for t in ty[1])
            if ty[0] == 'int':
                return FALSE if ty[1] == 1 else z3.IntVal(0)
            if ty[0] == 'ptr':
                return NULL
        if k == 'agg':
            return tuple(self.const(t, x) for t, x in v[1])
        if k == 'glob':
            return Glob(v[1])
        if k == 'cgep':
            b = self.const(('ptr',), v[2][0][1])
            return Glob('%s+?' % (b.name,))
        raise VError('const %s %s' % (ty, v))
    def val(self, st, ty, v):
        if v[0] == 'loc':
            return st.env[v[1]]
        return self.const(ty, v)
    @staticmethod
    def width(ty):
        return ty[1]
    def binop(self, st, k, w, a, b):
        if w == 1:
            if k == 'and':
                return simp(z3.And(a, b))
            if k == 'or':
                return simp(z3.Or(a, b))
            if k in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise VError('i1 ' + k)
        M = 1 << w
        ca = a.as_long() if z3.is_int_value(a) else None
        cb = b.as_long() if z3.is_int_value(b) else None
        if k == 'add':
            if ca is not None and cb is not None:
                return z3.IntVal((ca + cb) % M)
            if cb is not None and cb > M // 2:
                return self.binop(st, 'sub', w, a, z3.IntVal(M - cb))
            s = a + b
            return self.norm(st, s, z3.If(s < M, s, s - M), s < M)
        if k == 'sub':
            if ca is not None and cb is not None:
                return z3.IntVal((ca - cb) % M)
            s = a - b
            return self.norm(st, s, z3.If(s >= 0, s, s + M), s >= 0)
        if k == 'mul':
            if cb is not None or ca is not None:
                if ca is not None and cb is not None:
                    return z3.IntVal(ca * cb % M)
                c, x = (cb, a) if cb is not None else (ca, b)
                if c > M // 2:   # negative constant
                    return simp((x * (c - M)) % M)
                return simp((x * c) % M)
        if k == 'shl' and cb is not None:
            return simp((a * (1 << cb)) % M)
        if k == 'lshr' and cb is not None:
            return simp(a / (1 << cb))
        if k == 'udiv' and cb:
            return simp(a / cb)
        if k == 'urem' and cb:
            return simp(a % cb)
        if k == 'and':
            if cb == 1:
                return simp(a % 2)
            if cb is not None and (cb & (cb + 1)) == 0:
                return simp(a % (cb + 1))
            if cb == 0xFF and w == 8:
                return a
        if k == 'xor' and cb is not None and cb == M - 1:
            return simp(M - 1 - a)
        if k == 'xor' and cb == 1:
            return simp(z3.If(a % 2 == 0, a + 1, a - 1))
        if k == 'ashr' and cb is not None:
            return simp(z3.If(a < M // 2, a / (1 << cb), M - 1 - (M - 1 - a) / (1 << cb)))
        if k in ('or', 'and', 'xor'):
            ba, bb = as_bit(a), as_bit(b)
            if ba is not None and bb is not None:
                return simp(z3.If({'or': z3.Or, 'and': z3.And, 'xor': z3.Xor}[k](ba, bb), z3.IntVal(1), z3.IntVal(0)))
        v = self.spec.binop_ext(self, st, k, w, a, b)
        if v is not None:
            return v
        raise VError('bin %s i%d %s %s' % (k, w, a, b))
    def norm(self, st, plain, wrapped, nowrap):
        """drop modular wrap when the path already excludes it"""
        if self.spec.math_ints:
            # checked: overflow/underflow must be impossible *if the value is used*;
            # we keep the exact modular value unless provably in range
            r = solve(st.hyps, st.path + tuple(f for _, f in st.obl if not isinstance(f, Q)), [z3.Not(nowrap)], depth=1, timeout=1500)
            if r.ok:
                return simp(plain)
        return simp(wrapped)
    def signed(self, w, a):
        M = 1 << w
        if z3.is_int_value(a):
            v = a.as_long()
            return z3.IntVal(v if v < M // 2 else v - M)
        return z3.If(a < M // 2, a, a - M)
    def ptr_eq(self, a, b):
        def key(x):
            if isinstance(x, Off):
                return (x.base, x.off)
            return (x, 0)
        (ab, ao), (bb, bo) = key(a), key(b)
        sp = lambda x: isinstance(x, (Alloca, Glob))
        if sp(ab) or sp(bb):
            if sp(ab) and sp(bb):
                if isinstance(ab, Glob) and isinstance(bb, Glob):
                    return z3.BoolVal(ab.name == bb.name and ao == bo)
                return z3.BoolVal(ab is bb and ao == bo)
            return FALSE
        if ao == bo:
            return simp(ab == bb)
        raise VError('comparison of interior pointers')
    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'ptr':
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return simp(z3.Not(self.ptr_eq(a, b)))
            raise VError('ptr icmp ' + pred)
        w = ty[1]
        if pred == 'eq':
            return simp(a == b)
        if pred == 'ne':
            return simp(a != b)
        if w == 1:
            raise VError('i1 cmp')
        if pred[0] == 's':
            a, b = self.signed(w, a), self.signed(w, b)
        op = pred[1:]
        return simp({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op])
    def ite(self, c, a, b):
        if isinstance(a, tuple):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        return z3.If(c, a, b)
    # -- memory
    def load(self, st, ty, p):
        ty = self.m.resolve(ty)
        base, off = (p.base, p.off) if isinstance(p, Off) else (p, 0)
        if isinstance(base, Alloca):
            v = st.mem.get((base.id, off))
            if v is None:
                return self.const(ty, ('undef',))
            return v
        if isinstance(base, Glob):
            return self.spec.load_global(self, st, base, off, ty)
        st.need('load from non-null object', base != NULL)
        name = 'mem.%d.%s' % (off, ty[0] + (str(ty[1]) if ty[0] == 'int' else ''))
        return self.spec.load(self, st, name, base, off, ty)
    def store(self, st, ty, v, p):
        ty = self.m.resolve(ty)
        base, off = (p.base, p.off) if isinstance(p, Off) else (p, 0)
        if isinstance(base, Alloca):
            st.mem[(base.id, off)] = v
            return
        if isinstance(base, Glob):
            raise VError('store to global ' + base.name)
        st.need('store to non-null object', base != NULL)
        name = 'mem.%d.%s' % (off, ty[0] + (str(ty[1]) if ty[0] == 'int' else ''))
        self.spec.store(self, st, name, base, off, ty, v)
    # -- execution
    def run(self, fname, st, args):
        f = self.m.funcs.get(fname)
        if f is None:
            raise VError('function %s not found in generated IR' % fname)
        st.func = f
        for (t, n), a in zip(f.params, args):
            st.env[n] = a
        if not hasattr(f, 'loops'):
            f.loops = loops(f)
        st.blk, st.idx, st.prev = f.entry, 0, None
        rets = []
        out = self.explore([st], None)
        return out['ret']
    def explore(self, work, loop):
        """explore until return / loop boundary.  loop=(func,header,body) or None"""
        out = {'ret': [], 'back': [], 'exit': []}
        work = list(work)
        while work:
            if time.time() > self.budget:
                raise VError('time budget exceeded')
            st = work.pop()
            f = st.func
            b = st.blk
            if st.idx == 0 and b in f.loops:
                # arriving at loop header
                if loop is not None and loop[0] is f and loop[1] == b:
                    if st.env.get('#phidone') != b:
                        self.flush(st)
                        out['back'].append(st)
                        continue
                elif st.env.get('#phidone') != b:
                    sub = self.loop(st, f, b)
                    for r in sub['ret']:
                        out['ret'].append(r)
                    for s in sub['exit']:
                        work.append(s)
                    continue
            if st.idx == 0 and loop is not None and loop[0] is f and b not in loop[2]:
                self.flush(st)
                out['exit'].append(st)
                continue
            for r in self.step_block(st):
                if isinstance(r, Return):
                    self.flush(r.st)
                    self.npaths += 1
                    out['ret'].append(r)
                else:
                    work.append(r)
        return out
    def goto(self, st, dest):
        st.prev, st.blk, st.idx = st.blk, dest, 0
        st.tr = st.tr + (dest,)
        return st
    def do_phis(self, st):
        blk = st.func.blocks[st.blk]
        vals = {}
        n = 0
        for ins in blk.ins:
            if ins.op != 'phi':
                break
            n += 1
            for v, bb in ins.x['inc']:
                if bb == st.prev:
                    vals[ins.res] = self.val(st, ins.ty, v)
                    break
            else:
                raise VError('phi')
        st.env.update(vals)
        return n
    def branch(self, st, conds):
        """conds: list of (cond, dest). returns feasible states"""
        live = [(simp(c), d) for c, d in conds]
        live = [(c, d) for c, d in live if not z3.is_false(c)]
        if len(live) == 1 and z3.is_true(live[0][0]):
            return [self.goto(st, live[0][1])]
        self.flush(st)
        if self.spec.merge and len(live) == 2 and self.spec.merge_in(self, st.func):
            r = self.try_merge(st, live)
            if r is not None:
                return r
        res = []
        for i, (c, d) in enumerate(live):
            if self.feasible(st, c):
                s = st.copy()
                s.path = s.path + (c,)
                res.append(self.goto(s, d))
        return res
    # -- merging of branches that re-join (if-conversion)
    def join_point(self, f, b):
        key = (f.name, b)
        c = self.joins.get(key)
        if c is not None:
            return c[0]
        J = self.find_join(f, b)
        self.joins[key] = (J,)
        return J
    def simple_block(self, f, x):
        for i in f.blocks[x].ins:
            if i.op in ('call', 'invoke'):
                if i.op == 'invoke':
                    return False
                n = i.x['callee']
                if n[0] != '@' or not (n[1:].startswith(('nt_get_', 'nt_set_')) or self.spec.mergeable(self, n[1:].strip('"'))):
                    return False
            elif i.op in ('ret', 'unreachable', 'resume', 'landingpad', 'alloca', 'switch'):
                return False
        return True
    def find_join(self, f, b):
        ctx = frozenset(h for h, body in f.loops.items() if b in body)
        reach = {}
        def region(x, seen):
            # blocks reachable from x through simple blocks (acyclic), in order
            st = [x]
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if self.simple_block(f, y) and y not in f.loops and frozenset(h for h, bd in f.loops.items() if y in bd) == ctx:
                    st += succs(f.blocks[y])
            return seen
        ss = succs(f.blocks[b])
        r = [region(x, set()) for x in ss]
        common = set.intersection(*r)
        # J: a common block such that every path from ss reaches J through simple blocks
        def all_reach(x, J, depth=0):
            if x == J:
                return True
            if depth > 24 or x in f.loops or not self.simple_block(f, x) or frozenset(h for h, bd in f.loops.items() if x in bd) != ctx:
                return False
            k = (x, J)
            if k in reach:
                return reach[k]
            reach[k] = False
            sx = succs(f.blocks[x])
            reach[k] = bool(sx) and all(all_reach(y, J, depth + 1) for y in sx)
            return reach[k]
        cands = [J for J in common if J not in f.loops and frozenset(h for h, bd in f.loops.items() if J in bd) == ctx and all(all_reach(x, J) for x in ss)]
        if not cands:
            return None
        # nearest: the one that reaches all the others
        best = None
        for J in cands:
            if all(K == J or not self.reaches(f, K, J) for K in cands):
                best = J
        return best
    def reaches(self, f, a, b):
        seen, st = set(), [a]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            for z in succs(f.blocks[y]):
                if z == b:
                    return True
                if z not in f.loops:
                    st.append(z)
        return False
    def try_merge(self, st, live):
        f = st.func
        J = self.join_point(f, st.blk)
        if J is None:
            return None
        ends = []
        dead = []
        for c, d in live:
            s = st.copy()
            s.path = s.path + (c,)
            work = [self.goto(s, d)]
            while work:
                s = work.pop()
                if s.blk == J:
                    if s.env.get('#at') != J:
                        s.idx = self.do_phis(s)
                        s.env['#at'] = J
                    ends.append(s)
                    continue
                r = self.step_block(s)
                for x in r:
                    if isinstance(x, Return):
                        raise VError('return inside merge region')
                    work.append(x)
        m = self.merge_states(st, ends)
        out = []
        for s in (m if m is not None else ends):
            s.tr = s.tr + (J + '*',)
            s.env['#at'] = J
            out.append(s)
        return out
    def merge_states(self, st, ends):
        n0 = len(st.path)
        if len(ends) <= 1:
            return ends
        conds = []
        for s in ends:
            if s.hyps[:len(st.hyps)] != st.hyps:
                return None
            suf = s.path[n0:]
            conds.append(simp(z3.And(*suf)) if suf else TRUE)
        base = st.copy()
        tgt = ends[0].copy()
        tgt.path = st.path + (simp(z3.Or(*conds)),)
        # hyps of the arms are about fresh symbols only: keep all
        hy = list(st.hyps)
        for s in ends:
            hy += s.hyps[len(st.hyps):]
        tgt.hyps = tuple(hy)
        tgt.obl = ()
        obl = list(st.obl)
        for s, c in zip(ends, conds):
            for l, g in s.obl[len(st.obl):]:
                if isinstance(g, Q):
                    return None
                obl.append((l, z3.Implies(c, g)))
        tgt.obl = tuple(obl)
        for k in set().union(*[set(s.maps) for s in ends]):
            ms = [s.maps.get(k) for s in ends]
            m0 = st.maps.get(k)
            if all(m is ms[0] for m in ms):
                tgt.maps[k] = ms[0]
                continue
            if m0 is None or any(m is None or m.base is not m0.base or m.log[:len(m0.log)] != m0.log for m in ms):
                return None
            cur = m0
            for m, c in zip(ms, conds):
                for a, v in m.log[len(m0.log):]:
                    cur = cur.write(a, simp(z3.If(c, v, cur.read(a))))
            tgt.maps[k] = cur
        for k in set().union(*[set(s.g) for s in ends]):
            if any(s.g.get(k) is not ends[0].g.get(k) for s in ends):
                return None
        def mg(vs):
            v = vs[-1]
            for x, c in zip(reversed(vs[:-1]), reversed(conds[:-1])):
                v = z3.If(c, x, v)
            return simp(v)
        env = {}
        for k in ends[0].env:
            vs = [s.env.get(k, None) for s in ends]
            if any(v is None for v in vs):
                continue
            if all(v is vs[0] for v in vs):
                env[k] = vs[0]
            elif all(z3.is_expr(v) for v in vs) and len(set(v.sort().name() for v in vs)) == 1:
                env[k] = vs[0] if all(v.eq(vs[0]) for v in vs) else mg(vs)
            elif all(isinstance(v, str) for v in vs):
                env[k] = vs[0]
            else:
                # not mergeable: value must not be used after the join
                same = all(isinstance(v, Off) and isinstance(vs[0], Off) and v.base is vs[0].base and v.off == vs[0].off for v in vs)
                if same:
                    env[k] = vs[0]
                elif k in st.env or k.startswith('#'):
                    return None
        tgt.env = env
        mem = {}
        for k in set().union(*[set(s.mem) for s in ends]):
            vs = [s.mem.get(k) for s in ends]
            if all(v is vs[0] for v in vs):
                mem[k] = vs[0]
            elif all(v is not None and z3.is_expr(v) for v in vs) and len(set(v.sort().name() for v in vs)) == 1:
                mem[k] = mg(vs)
            elif any(v is None for v in vs):
                continue
            else:
                return None
        tgt.mem = mem
        return [tgt]
    def step_block(self, st):
        blk = st.func.blocks[st.blk]
        if st.idx == 0:
            st.idx = self.do_phis(st) if st.env.get('#phidone') != st.blk else st.idx
            if st.env.get('#phidone') == st.blk:
                st.env.pop('#phidone')
                k = 0
                while blk.ins[k].op == 'phi':
                    k += 1
                st.idx = k
        while True:
            ins = blk.ins[st.idx]
            st.idx += 1
            op = ins.op
            env = st.env
            if op == 'ret':
                return [Return(st, self.val(st, ins.ty, ins.args[0]) if ins.args else None)]
            elif op == 'br':
                d = ins.x['dests']
                if len(d) == 1:
                    return [self.goto(st, d[0])]
                c = self.val(st, ('int', 1), ins.args[0])
                return self.branch(st, [(c, d[0]), (z3.Not(c), d[1])])
            elif op == 'switch':
                v = self.val(st, ins.ty, ins.args[0])
                cs = []
                for cv, d in ins.x['cases']:
                    cs.append((v == self.const(ins.ty, cv), d))
                cs.append((z3.And(*[z3.Not(c) for c, _ in cs]) if cs else TRUE, ins.x['default']))
                return self.branch(st, cs)
            elif op == 'unreachable':
                self.flush(st)
                if self.feasible(st, TRUE) and not st.g.get('#dead'):
                    if self.checking:
                        not self.quiet and self.prove(st, 'unreachable code is unreachable @' + self.m.loc(ins.dbg), FALSE)
                return []
            elif op == 'icmp':
                env[ins.res] = self.icmp(st, ins.x['pred'], ins.ty, self.val(st, ins.ty, ins.args[0]), self.val(st, ins.ty, ins.args[1]))
            elif op == 'select':
                c = self.val(st, ('int', 1), ins.args[0])
                a = self.val(st, ins.ty, ins.args[1])
                b = self.val(st, ins.ty, ins.args[2])
                c = simp(c)
                if z3.is_true(c):
                    env[ins.res] = a
                elif z3.is_false(c):
                    env[ins.res] = b
                elif isinstance(a, (Off, Alloca, Glob)) or isinstance(b, (Off, Alloca, Glob)) or ins.ty[0] == 'ptr':
                    # fork
                    self.flush(st)
                    res = []
                    for cc, vv in ((c, a), (z3.Not(c), b)):
                        if self.feasible(st, cc):
                            s = st.copy()
                            s.path = s.path + (simp(cc),)
                            s.env[ins.res] = vv
                            res.append(s)
                    return res
                elif ins.ty == ('int', 1):
                    env[ins.res] = simp(z3.If(c, a, b))
                else:
                    env[ins.res] = simp(self.ite(c, a, b)) if not isinstance(a, tuple) else self.ite(c, a, b)
            elif op == 'bin':
                env[ins.res] = self.binop(st, ins.x['kind'], ins.ty[1] if ins.ty[0] == 'int' else 0, self.val(st, ins.ty, ins.args[0]), self.val(st, ins.ty, ins.args[1]))
            elif op == 'cast':
                env[ins.res] = self.cast(st, ins)
            elif op == 'freeze':
                env[ins.res] = self.val(st, ins.ty, ins.args[0])
            elif op == 'load':
                env[ins.res] = self.load(st, ins.ty, self.val(st, *ins.args[0]))
            elif op == 'store':
                self.store(st, ins.args[0][0], self.val(st, *ins.args[0]), self.val(st, *ins.args[1]))
            elif op == 'alloca':
                env[ins.res] = Alloca()
            elif op == 'gep':
                env[ins.res] = self.gep(st, ins)
            elif op == 'extractvalue':
                v = self.val(st, ins.ty, ins.args[0])
                for i in ins.x['idx']:
                    v = v[i]
                env[ins.res] = v
            elif op == 'insertvalue':
                a = self.val(st, ins.ty, ins.args[0])
                b = self.val(st, ins.x['vt'], ins.args[1])
                def put(a, idx):
                    if not idx:
                        return b
                    a = list(a)
                    a[idx[0]] = put(a[idx[0]], idx[1:])
                    return tuple(a)
                env[ins.res] = put(a, ins.x['idx'])
            elif op in ('call', 'invoke'):
                r = self.call(st, ins)
                if r is not None:
                    return r
            elif op == 'landingpad':
                env[ins.res] = (fresh('exc', P), z3.IntVal(0))
            elif op == 'resume':
                return [Return(st, None, exc=True)]
            elif op == 'phi':
                raise VError('late phi')
            else:
                raise VError('op ' + op)
    def cast(self, st, ins):
        t, v = ins.args[0]
        a = self.val(st, t, v)
        k = ins.x['kind']
        w2 = ins.ty[1] if ins.ty[0] == 'int' else None
        if k == 'zext':
            if t[1] == 1:
                return simp(z3.If(a, z3.IntVal(1), z3.IntVal(0)))
            return a
        if k == 'trunc':
            if w2 == 1:
                a = simp(a)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
                    x, y = a.arg(1).as_long() % 2, a.arg(2).as_long() % 2
                    return simp(z3.If(a.arg(0), z3.BoolVal(x == 1), z3.BoolVal(y == 1)))
                return simp(a % 2 == 1)
            M = 1 << w2
            if z3.is_int_value(a):
                return z3.IntVal(a.as_long() % M)
            return simp(a % M)
        if k == 'sext':
            if t[1] == 1:
                return simp(z3.If(a, z3.IntVal((1 << w2) - 1), z3.IntVal(0)))
            return simp(z3.If(a < (1 << (t[1] - 1)), a, a + (1 << w2) - (1 << t[1])))
        if k == 'bitcast':
            return a
        raise VError('cast ' + k)
    def gep(self, st, ins):
        base = self.val(st, *ins.args[0])
        t = ins.ty
        off = 0
        for i, (ty, v) in enumerate(ins.args[1:]):
            x = self.val(st, ty, v)
            if not z3.is_int_value(x):
                raise VError('variable gep')
            n = x.as_long()
            if n >= 1 << 63:
                n -= 1 << 64
            if i == 0:
                off += n * self.m.size_align(t)[0]
            else:
                o, t = self.m.field_off(t, n)
                off += o
        if isinstance(base, Off):
            off += base.off
            base = base.base
        if isinstance(base, Glob):
            return Glob('%s+%d' % (base.name, off)) if off else base
        r = self.spec.interior(base, off) if z3.is_expr(base) else None
        if r is not None:
            return r
        return Off(base, off) if off else base
    # -- calls
    def call(self, st, ins):
        callee = ins.x['callee']
        if callee[0] == '%':
            v = st.env[callee]
            name = v.name if isinstance(v, Glob) else None
            if name is None:
                raise VError('indirect call')
        else:
            name = callee[1:].strip('"')
        args = [self.val(st, t, v) for t, v in ins.args]
        res = self.spec.call(self, st, name, args, ins)
        # res: list of (state, value, 'ok'|'throw'|'dead')
        outs = []
        for (s, v, k) in res:
            if k == 'dead':
                continue
            if k == 'throw':
                if ins.op == 'invoke':
                    outs.append(self.goto(s, ins.x['dests'][1]))
                else:
                    if ins.x.get('nounwind'):
                        raise VError('throw from nounwind call')
                    outs.append(Return(s, None, exc=True))
                continue
            if ins.res is not None:
                s.env[ins.res] = v
            if ins.op == 'invoke':
                outs.append(self.goto(s, ins.x['dests'][0]))
            else:
                outs.append(s)
        if len(outs) == 1 and outs[0] is st and ins.op == 'call':
            return None
        return outs
    def call_defined(self, st, name, args):
        """inline a defined function"""
        f = self.m.funcs[name]
        s = st.copy()
        saved = (s.env, s.blk, s.idx, s.prev, s.func, s.active)
        s.env = {}
        rets = []
        s.func = f
        if not hasattr(f, 'loops'):
            f.loops = loops(f)
        for (t, n), a in zip(f.params, args):
            s.env[n] = a
        s.blk, s.idx, s.prev = f.entry, 0, None
        out = self.explore([s], None)
        res = []
        for r in out['ret']:
            q = r.st
            q.env, q.blk, q.idx, q.prev, q.func, q.active = dict(saved[0]), saved[1], saved[2], saved[3], saved[4], saved[5]
            res.append((q, r.val, 'throw' if r.exc else 'ok'))
        return res
    # -- loops
    def loop(self, st, f, header):
        body = f.loops[header]
        self.flush(st)
        key = (f.name, header)
        # phi values at entry
        st = st.copy()
        self.do_phis(st)
        blk = f.blocks[header]
        phis = [i for i in blk.ins if i.op == 'phi']
        mods = self.loop_mods(f, body)
        L = LoopCtx(self, f, header, body, st, phis, mods)
        cands = self.spec.invariants(self, L, st)
        if self.hint is not None:
            cands = [c for c in cands if c.name in self.hint]
        # entry filter
        def entry_ok(c):
            return self.prove(st, 'inv-entry', c.at(st), record=False)
        ncand = len(cands)
        cands = self.filter_ground(st, cands, st)
        if DEBUG:
            print('   loop %s %s: %d candidates, %d hold on entry' % (f.name, header, ncand, len(cands)), file=sys.stderr)
        was = self.checking
        rnd = 0
        while True:
            rnd += 1
            H = self.havoc(st, L)
            self.spec.loop_assume(self, L, st, H)
            for c in cands:
                H.assume(c.at(H))
            # first round with recorded hints: check obligations on the way (one pass instead of two if nothing is dropped)
            opt = was and rnd == 1 and (self.hint is not None or getattr(self.spec, 'optimistic', False))
            mark = len(self.obls)
            self.checking = opt
            Hs = H.copy()
            Hs.env['#phidone'] = header
            out = self.explore([Hs], (f, header, body, Hs))
            remaining = list(cands)
            backs = []
            for ib, bs in enumerate(out['back']):
                if self.shard[1] > 1 and rnd == 1 and ib % self.shard[1] != self.shard[0]:
                    continue
                bphi = bs.copy()
                self.do_phis(bphi)
                self.spec.at_backedge(self, L, H, bphi)
                backs.append(bphi)
                ok = self.filter_ground(bphi, [c for c in remaining], bphi)
                ids = set(id(c) for c in ok)
                remaining = [c for c in remaining if id(c) in ids]
            if len(remaining) == len(cands):
                done = opt
                break
            if self.shard[1] > 1:
                # in a sharded run every invariant has to be preserved on every path
                for c in cands:
                    if c not in remaining:
                        self.obls.append(Obligation('loop %s: invariant [%s] is preserved' % (self.loop_name(f, header), c.name), False, 'not preserved', 0))
                done = opt
                break
            del self.obls[mark:]
            cands = remaining
        self.checking = was
        if DEBUG:
            print('   loop %s %s: kept %d invariants after %d rounds: %s' % (f.name, header, len(cands), rnd, [c.name for c in cands]), file=sys.stderr)
        for c in cands:
            self.loopinfo.setdefault(key, set()).add(c.name)
        if was:
            for c in (cands if not self.quiet else ()):
                self.obls.append(Obligation('loop %s: invariant [%s] holds on entry and is preserved' % (self.loop_name(f, header), c.name), True, 'unsat', 0))
            # final checked pass
            if not done:
                Hs = H.copy()
                Hs.env['#phidone'] = header
                out = self.explore([Hs], (f, header, body, Hs))
                backs = []
                for bs in out['back']:
                    b2 = bs.copy()
                    self.do_phis(b2)
                    self.spec.at_backedge(self, L, H, b2)
                    backs.append(b2)
            # termination
            vs = self.spec.variants(self, L, st)
            okv = None
            if backs:
                for v in vs:
                    good = True
                    h = v.fn(H)
                    for bs in backs:
                        h2 = v.fn(bs)
                        if isinstance(h, (list, tuple)):   # lexicographic
                            dec = FALSE
                            eq = TRUE
                            for x, y in zip(h, h2):
                                dec = z3.Or(dec, z3.And(eq, y < x, x >= 0))
                                eq = z3.And(eq, y == x)
                        else:
                            dec = z3.And(h2 < h, h >= 0)
                        if not self.prove(bs, 'variant', dec, record=False):
                            good = False
                            break
                    if good:
                        okv = v
                        break
                self.obls.append(Obligation('loop %s: terminates%s' % (self.loop_name(f, header), ' (variant %s)' % okv.name if okv else ''), okv is not None, 'unsat' if okv else 'no variant', 0))
        return {'ret': out['ret'], 'exit': out['exit']}
    def loop_name(self, f, header):
        for i in f.blocks[header].ins:
            if i.dbg:
                return self.m.loc(i.dbg)
        return header
    def filter_ground(self, st, cands, at):
        """subset of cands valid in st"""
        ground = [c for c in cands if c.kinds == '']
        quant = [c for c in cands if c.kinds != '']
        keep = []
        # model-guided filtering of ground candidates
        forms = [(c, c.at(at).inst([])) for c in ground]
        forms = [(c, f) for c, f in forms if True]
        triv = [c for c, f in forms if z3.is_true(simp(f))]
        live = [(c, f) for c, f in forms if not z3.is_true(simp(f))]
        while live:
            neg = z3.Not(z3.And(*[f for _, f in live]))
            r = None
            for d in range(1, self.depth + 1):
                r = solve(st.hyps, st.path, [neg], depth=d, timeout=self.timeout, want_model=True)
                if r.ok:
                    break
            if r.ok:
                break
            if r.model is None:
                # unknown: fall back to one by one
                live = [(c, f) for c, f in live if self.prove(st, '', f, record=False)]
                break
            nl = [(c, f) for c, f in live if not z3.is_false(r.model.eval(f, model_completion=True))]
            if len(nl) == len(live):
                live = [(c, f) for c, f in live if self.prove(st, '', f, record=False)]
                break
            live = nl
        ok = set(id(c) for c in triv) | set(id(c) for c, _ in live)
        if getattr(self.spec, 'split', False):
            k1 = [c for c in quant if c.kinds == 'P']
            ok |= set(id(k1[i]) for i in self.prove_split(st, [(i, c.at(at)) for i, c in enumerate(k1)]))
            quant = [c for c in quant if c.kinds != 'P']
        for c in quant:
            if self.prove(st, '', c.at(at), record=False):
                ok.add(id(c))
        return [c for c in cands if id(c) in ok]
    def loop_mods(self, f, body):
        mods = set()
        for b in body:
            for ins in f.blocks[b].ins:
                if ins.op == 'store':
                    mods.add('store')
                elif ins.op in ('call', 'invoke'):
                    c = ins.x['callee']
                    if c[0] == '@':
                        n = c[1:].strip('"')
                        mods |= self.spec.call_mods(self, n)
                    else:
                        mods.add('indirect')
        return mods
    def havoc(self, st, L):
        H = st.copy()
        for ph in L.phis:
            old = st.env[ph.res]
            if isinstance(old, (Off, Alloca, Glob)):
                raise VError('loop-carried interior pointer')
            if ph.ty[0] == 'ptr':
                H.env[ph.res] = fresh('p', P)
            elif ph.ty == ('int', 1):
                H.env[ph.res] = fresh('b', B)
            elif ph.ty[0] == 'int':
                v = fresh('i', I)
                H.env[ph.res] = v
                H.path = H.path + (z3.And(v >= 0, v < (1 << ph.ty[1])),)
            else:
                raise VError('phi type %s' % (ph.ty,))
        self.spec.havoc(self, L, H)
        # allocas written in the loop
        for b in L.body:
            for ins in L.f.blocks[b].ins:
                if ins.op == 'store':
                    p = ins.args[1][1]
                    if p[0] == 'loc' and p[1] in st.env:
                        v = st.env[p[1]]
                        base = v.base if isinstance(v, Off) else v
                        if isinstance(base, Alloca):
                            for k in list(H.mem):
                                if k[0] == base.id:
                                    old = H.mem[k]
                                    if not z3.is_expr(old):
                                        raise VError('loop-modified alloca')
                                    H.mem[k] = fresh('m', old.sort())
        H.env['#phidone'] = L.header
        H.env.pop('#phidone')
        H.blk, H.idx = L.header, 0
        return H

class LoopCtx:
    def __init__(self, E, f, header, body, entry, phis, mods):
        self.E, self.f, self.header, self.body, self.entry, self.phis, self.mods = E, f, header, body, entry, phis, mods
        self.ptrs = [p.res for p in phis if p.ty[0] == 'ptr']
        self.ints = [p.res for p in phis if p.ty[0] == 'int' and p.ty[1] > 1]
        self.bools = [p.res for p in phis if p.ty == ('int', 1)]

class Cand:
    """loop invariant candidate; fn(st, *vars) -> formula"""
    __slots__ = ('name', 'kinds', 'fn', 'trig', 'lvl')
    def __init__(self, name, kinds, fn, trig=None, lvl=None):
        self.name, self.kinds, self.fn, self.trig, self.lvl = name, kinds, fn, trig, lvl
    def at(self, st):
        # snapshot
        s = st.copy()
        return Q(self.name, self.kinds, lambda *v: self.fn(s, *v), trig=self.trig, lvl=self.lvl)

class Variant:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
