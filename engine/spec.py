"""Base class of function contracts (specs) and the run driver for one unit."""
import time
import z3
from vc import *
from irgen import base_name, demangle

NONE = z3.Const('none', P)
PO2_64 = 1 << 64

class Spec:
    tu = None            # TU file
    fn = None            # wrapper name
    fields = {}          # field -> sort 'P'/'I'/'B'/'E<w>'
    norm = None          # alternative normalisation pipeline
    defs = ()
    contracts = {}       # base name -> handler name
    depth = 2
    timeout = 10000
    math_ints = True
    merge = False
    def mergeable(self, E, name):
        return name.startswith('llvm.')
    def merge_in(self, E, f):
        return True
    extra_ext = ()
    # ---- memory model of this unit
    def maps(self):
        m = {}
        for f, s in self.fields.items():
            m[f] = Map.new(f, {'P': P, 'I': I, 'B': B}[s[0]])
        return m
    def acc(self, E, st, a):
        """access condition of a node address"""
        return a != NULL
    def wacc(self, E, st, a, field):
        return TRUE
    def interior(self, base, off):
        """address of a sub-object that the specification names (e.g. the header node of a container)"""
        return None
    def binop_ext(self, E, st, k, w, a, b):
        return None
    def call(self, E, st, name, args, ins):
        if name.startswith('nt_get_'):
            f = name[7:]
            a = args[0]
            st.need('read of %s through a valid node @%s' % (f, E.m.loc(ins.dbg)), self.acc(E, st, a))
            v = simp(st.maps[f].read(a))
            rng = self.field_range(f)
            if rng is not None:
                st.assume(z3.And(v >= 0, v < rng))
            return [(st, v, 'ok')]
        if name.startswith('nt_set_'):
            f = name[7:]
            a = args[0]
            st.need('write of %s through a valid node @%s' % (f, E.m.loc(ins.dbg)), self.acc(E, st, a))
            st.need('write of %s is allowed @%s' % (f, E.m.loc(ins.dbg)), self.wacc(E, st, a, f))
            st.maps[f] = st.maps[f].write(a, args[1])
            return [(st, None, 'ok')]
        if name == 'v_assert_fail':
            E.flush(st)
            if E.checking and not E.quiet:
                E.prove(st, 'library assertion holds @' + E.m.loc(ins.dbg), FALSE)
            return [(st, None, 'dead')]
        if name == '__cxa_begin_catch':
            return [(st, args[0], 'ok')]
        if name == '__cxa_rethrow':
            return [(st, None, 'throw')]
        if name == '__cxa_end_catch':
            return [(st, None, 'ok')]
        if name == '__clang_call_terminate' or name.startswith('_ZSt9terminate'):
            E.flush(st)
            if E.checking and not E.quiet:
                E.prove(st, 'no exception escapes a no-throw function', FALSE)
            return [(st, None, 'dead')]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(E, st, args[0], args[1], args[2])
            return [(st, None, 'ok')]
        if name.startswith('llvm.expect'):
            return [(st, args[0], 'ok')]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')):
            return [(st, None, 'ok')]
        if name.startswith('llvm.memset'):
            raise VError('memset')
        if name.startswith(('llvm.umin', 'llvm.umax')):
            lt = args[0] < args[1]
            mn = name.startswith('llvm.umin')
            return [(st, simp(z3.If(lt, args[0] if mn else args[1], args[1] if mn else args[0])), 'ok')]
        h = getattr(self, 'ext_' + name, None)
        if h is not None:
            return h(E, st, args, ins)
        b = self.demangled(E, name)
        if b in self.contracts and b not in getattr(self, 'open', ()):
            return getattr(self, self.contracts[b])(E, st, args, ins)
        if name in E.m.funcs:
            return E.call_defined(st, name, args)
        raise VError('call to unknown function %s (%s)' % (name, b))
    _dm = {}
    def demangled(self, E, name):
        r = self._dm.get(name)
        if r is None:
            r = self._dm[name] = base_name(demangle([name])[0])
        return r
    def memcpy(self, E, st, d, s, n):
        if not z3.is_int_value(n):
            raise VError('memcpy')
        n = n.as_long()
        db, do = (d.base, d.off) if isinstance(d, Off) else (d, 0)
        sb, so = (s.base, s.off) if isinstance(s, Off) else (s, 0)
        if not (isinstance(db, Alloca) and isinstance(sb, Alloca)):
            raise VError('memcpy of non-local')
        for (i, o) in list(st.mem):
            if i == sb.id and so <= o < so + n:
                st.mem[(db.id, do + o - so)] = st.mem[(i, o)]
    def field_range(self, f):
        s = self.fields.get(f, '')
        if s.startswith('I') and len(s) > 1:
            return int(s[1:])
        return None
    def call_mods(self, E, n):
        if n.startswith('nt_set_'):
            return {n[7:]}
        if n.startswith('nt_get_') or n.startswith(('__', 'llvm.', '_ZSt9terminate')) or n == 'v_assert_fail':
            return set()
        m = getattr(self, 'mods_' + n, None)
        if m is not None:
            return set(m)
        if getattr(self, 'ext_' + n, None) is not None:
            return set()
        b = self.demangled(E, n)
        if b in self.contracts and b not in getattr(self, 'open', ()):
            return set(getattr(self, 'mods_' + self.contracts[b], ()))
        if n in E.m.funcs:
            f = E.m.funcs[n]
            r = set()
            if getattr(f, '_mods_busy', False):
                return r
            f._mods_busy = True
            try:
                r = E.loop_mods(f, f.order)
            finally:
                f._mods_busy = False
            return r
        raise VError('unknown callee ' + n)
    # object memory: keyed by field name and base
    def load(self, E, st, name, base, off, ty):
        m = st.maps.get(name)
        if m is None:
            m = Map.new(name, P if ty[0] == 'ptr' else (B if ty == ('int', 1) else I))
            st.maps[name] = m
            E.spec.newmaps[name] = m
        v = simp(m.read(base))
        if ty[0] == 'int' and ty[1] > 1:
            st.assume(z3.And(v >= 0, v < (1 << ty[1])))
        return v
    def store(self, E, st, name, base, off, ty, v):
        m = st.maps.get(name)
        if m is None:
            m = self.newmaps.get(name)
            if m is None:
                m = Map.new(name, P if ty[0] == 'ptr' else (B if ty == ('int', 1) else I))
                self.newmaps[name] = m
            st.maps[name] = m
        st.maps[name] = m.write(base, v)
    def load_global(self, E, st, g, off, ty):
        raise VError('load of global ' + g.name)
    # ---- loops
    def invariants(self, E, L, st):
        return []
    def variants(self, E, L, st):
        return []
    def loop_assume(self, E, L, st, H):
        pass
    def at_backedge(self, E, L, H, bs):
        pass
    def havoc(self, E, L, H):
        for m in L.mods:
            if m == 'store':
                for k in list(H.maps):
                    if k.startswith('mem.'):
                        H.maps[k] = Map.new(k, H.maps[k].rs)
            elif m in H.maps:
                H.maps[m] = Map.new(m, H.maps[m].rs)
            elif m.startswith('ghost:'):
                self.havoc_ghost(E, L, H, m[6:])
            else:
                raise VError('havoc ' + m)
    def havoc_ghost(self, E, L, H, name):
        raise VError('havoc ghost ' + name)
    # ---- contract
    def pre(self, E, st):
        """set up st, return args"""
        raise NotImplementedError
    def post(self, E, st, ret):
        """yield (label, goal)"""
        return []
    def exc_post(self, E, st):
        yield ('no exception may escape', FALSE)

HINTS = None
def load_hints():
    global HINTS
    if HINTS is None:
        import json, os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'hints.json')
        HINTS = json.load(open(p)) if os.path.exists(p) else {}
    return HINTS

def unit_key(cls):
    return cls.__module__ + '.' + cls.__name__

def run_unit(module, cls, shard=None):
    """verify one unit.  First with the invariant names recorded for it (specs/hints.json, a speed-up only:
    every invariant is checked on every run); if that does not discharge everything, with all candidates."""
    if getattr(cls, 'engine', None) == 'bv':
        import bv
        return bv.run_unit(module, cls)
    if getattr(cls, 'engine', None) == 'lemma':
        import lemmas
        return lemmas.run_unit(module, cls)
    if shard is not None:
        return run_unit1(module, cls(), None, shard)
    h = load_hints().get(unit_key(cls))
    r = None
    if h is not None and h.get('names') is not None:
        try:
            r = run_unit1(module, cls(), set(h['names']))
            if all(o[1] for o in r['obligations']):
                return r
        except VError:
            pass
    return run_unit1(module, cls(), None)

def merge_shards(rs):
    """combine the results of the shards of one unit"""
    bad = [r for r in rs if 'error' in r]
    if bad:
        return bad[0]
    r = dict(rs[0])
    r['obligations'] = sum((x['obligations'] for x in rs), [])
    for k in ('queries', 'solver_s', 'insts'):
        r[k] = sum(x[k] for x in rs)
    r['wall'] = max(x['wall'] for x in rs)
    return r

def run_unit1(module, spec, hint, shard=None):
    t0 = time.time()
    spec.newmaps = {}
    import vc
    vc.ARITH = getattr(spec, 'arith', 0)
    E = Engine(module, spec)
    E.hint = hint
    if shard is not None:
        E.shard = shard
        E.quiet = shard[0] != 0
    st = State()
    st.maps = spec.maps()
    E.args = spec.pre(E, st)
    E.pre_state = st.copy()
    q0, tm0, i0 = STATS.queries, STATS.time, STATS.insts
    # vacuity: the precondition must be satisfiable (up to instantiation)
    r = solve(st.hyps, st.path, [], depth=2, timeout=5000)
    if not E.quiet:
        E.obls.append(Obligation('precondition is satisfiable (vacuity check)', not r.ok, r.status, 0))
    rets = E.run(spec.fn, st.copy(), E.args)
    nret = 0
    live = 0
    for r in rets:
        nret += 1
        if (nret - 1) % E.shard[1] != E.shard[0]:
            continue
        if r.exc:
            goals = list(spec.exc_post(E, r.st))
        else:
            goals = list(spec.post(E, r.st, r.val))
        for g in goals:
            if len(g) > 2:
                E.prove(r.st, g[0], g[1], extra=g[2])
        goals = [g for g in goals if len(g) == 2]
        E.prove_all(r.st, [(('exceptional exit: ' if r.exc else '') + g[0], g[1]) for g in goals])
    if nret == 0:
        E.obls.append(Obligation('some path returns (vacuity check)', False, 'no return path', 0))
    return {'unit': spec.name, 'fn': spec.fn, 'obligations': [(o.label, o.ok, o.status, round(o.time, 3)) for o in E.obls], 'paths': E.npaths, 'pruned': E.pruned, 'wall': time.time() - t0, 'queries': STATS.queries - q0, 'solver_s': STATS.time - tm0, 'insts': STATS.insts - i0, 'loops': {k[0] + k[1]: sorted(v) for k, v in E.loopinfo.items()}}
