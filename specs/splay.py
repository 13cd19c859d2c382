"""Contracts of splaytree_algorithms: splaying keeps the tree well formed and its in-order sequence (own/pos/at are never
touched), also when the comparator throws in the middle of a top-down splay."""
from spec import *
from tree import *
import tree as TR
from rbal import Bal, Top, TR_CNT

class Sp(Bal):
    tu = 'splay.cpp'
    defs = ()
    kind = 'splay'
    bname = 'ht'
    bfield = None
    fields = {'left': 'P', 'right': 'P', 'parent': 'P'}
    contracts = dict(Bal.contracts)
    contracts.update({'splaytree_algorithms::rotate': 'c_rot', 'splaytree_algorithms::splay_up': 'c_up', 'splaytree_algorithms::splay_down': 'c_down'})
    MODS = ('left', 'right', 'parent', 'g.lo', 'g.hi', 'g.bal')
    mods_c_rot = mods_c_up = mods_c_down = MODS
    def wf(self, T, mp, x, relax=None):
        return links_w(T, mp, x)
    def recompute(self, st, x):
        pass
    def on_bal(self, st, x):
        pass
    def bal_local(self, T, mp, x):
        return []
    def leafval(self, mp, a):
        return z3.IntVal(1)

# ------------------------------------------------------------------ bottom-up
class Rot(Sp):
    """rotate(n): requires a well-formed tree (is_header is called on it)"""
    def c_ishdr(self, E, st, args, ins):
        x, = args
        T, mp, h = self.cur(st), dict(st.maps), self.h
        st.need('is_header is called on a member @' + E.m.loc(ins.dbg), z3.And(T.own(x) == h, x != NULL))
        for j, (l, _) in enumerate(self.state_conjs(T, mp, NULL)):
            st.obl = st.obl + (('is_header requires a well-formed tree: ' + l, Q('callee-pre', 'P', lambda y, j=j: self.state_conjs(T, mp, y)[j][1])),)
        return [(st, simp(x == h), 'ok')]
    def c_rot(self, E, st, args, ins):
        n, = args
        p = simp(st.maps['parent'].read(n))
        left = simp(st.maps['left'].read(p)) == n
        st.need('rotated node is an element below another element', z3.And(self.T1.own(n) == self.h, n != self.h, n != NULL, self.T1.own(p) == self.h, p != self.h))
        r = []
        for s, v, k in E.call_defined(st, self.rname, args):
            lo, hi = s.maps['g.lo'], s.maps['g.hi']
            np, nn = self.T1.pos(p), self.T1.pos(n)
            s.maps['g.lo'] = lo.write(p, simp(z3.If(left, nn + 1, lo.read(p)))).write(n, simp(z3.If(left, lo.read(n), lo.read(p))))
            s.maps['g.hi'] = hi.write(p, simp(z3.If(left, hi.read(p), nn - 1))).write(n, simp(z3.If(left, hi.read(p), hi.read(n))))
            r.append((s, v, k))
        return r
    def call(self, E, st, name, args, ins):
        if self.demangled(E, name) == 'splaytree_algorithms::rotate':
            self.rname = name
        return super().call(E, st, name, args, ins)
class SplayUp(Rot):
    shards = 2
    name = 'splaytree splay_up'; fn = 'v_splay_up'
    open = ('splaytree_algorithms::splay_up',)
    def merge_in(self, E, f):
        return 'rotate' in f.name
    def pre(self, E, st):
        self.setup_mid(E, st)
        n = self.n = fresh('n', P)
        T, m0, h = self.T, dict(st.maps), self.h
        st.assume([T.own(n) == h, n != NULL])
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x)]))
        st.assume([links_w(T, m0, h)[j][1] for j in (4, 5)])     # the instance at the header stays known through the loop
        return [n, h]
    def ground_inv(self, E, L, st):
        for q in L.ptrs:
            yield ('current node is an element', lambda s, q=q: z3.And(self.T1.own(s.env[q]) == self.h, s.env[q] != self.h, s.env[q] != NULL))
    def invariants(self, E, L, st):
        c = Sp.invariants(self, E, L, st)
        n1 = self.node = simp(z3.If(self.n == self.h, self.m0['right'].read(self.h), self.n))
        c.append(Cand('current node is an element', '', lambda s: z3.And(self.T1.own(n1) == self.h, n1 != self.h, n1 != NULL)))
        return c
    def cn(self, L):
        return self.node
    def variants(self, E, L, st):
        return [Variant('subtree grows', lambda s: self.T1.pos(self.h) - (s.maps['g.hi'].read(self.node) - s.maps['g.lo'].read(self.node)))]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)
        T, h = self.T1, self.h
        yield ('the node (the last element for the header) is the root', z3.If(self.n == h, z3.If(T.pos(h) == 0, st.maps['parent'].read(h) == NULL, st.maps['parent'].read(h) == T.at(h, T.pos(h) - 1)), st.maps['parent'].read(h) == self.n))

# ------------------------------------------------------------------ top-down
class SplayDown(Sp):
    """three trees: the left tree (root right(h), last node l), the current subtree t, the right tree (root left(h), first node r).
    Ghost: a node on the inner spine of the left tree has the open end hi = n, on that of the right tree lo = -1; both are closed
    next to the final root at the exits"""
    shards = 4
    name = 'splaytree splay_down'; fn = 'v_splay_down'
    open = ('splaytree_algorithms::splay_down',)
    def merge_in(self, E, f):
        return False
    def pre(self, E, st):
        self.setup_mid(E, st)
        T, m0, h = self.T, dict(st.maps), self.h
        k = self.k = fresh('k', P)
        lo, hi = fresh('klo', I), fresh('khi', I)
        self.klo, self.khi = lo, hi
        st.assume([k != NULL, 0 <= lo, lo <= hi, hi <= T.pos(h)])
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x)]))
        st.assume([links_w(T, m0, h)[j][1] for j in (4, 5)])     # the instance at the header stays known through the loop
        return [h, k]
    def cmp(self, E, st, x, v, ins):
        st.need('comparator is only applied to elements of the tree @' + E.m.loc(ins.dbg), z3.And(self.T1.own(x) == self.h, x != self.h, x != NULL))
        return [(st, simp(v), 'ok'), (st.copy(), None, 'throw')]
    def ext_cb_comp_nk(self, E, st, args, ins):
        return self.cmp(E, st, args[0], self.T1.pos(args[0]) < self.klo, ins)
    def ext_cb_comp_kn(self, E, st, args, ins):
        return self.cmp(E, st, args[1], self.T1.pos(args[1]) >= self.khi, ins)
    def lr(self, L):
        """which loop variables are l and r: the targets of set_right / set_left"""
        if hasattr(self, '_lr'):
            return self._lr
        l = r = t = None
        root = simp(self.m0['parent'].read(self.h))
        for b in L.body:
            for i in L.f.blocks[b].ins:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == '@':
                    a = i.args[0][1] if i.args else None
                    if a and a[0] == 'loc' and a[1] in L.ptrs:
                        if i.x['callee'][1:] == 'nt_set_right' and L.entry.env[a[1]].eq(self.h):
                            l = a[1]
                        if i.x['callee'][1:] == 'nt_set_left' and L.entry.env[a[1]].eq(self.h):
                            r = a[1]
        ts = [q for q in L.ptrs if q not in (l, r)]
        if l is None or r is None or l == r or len(ts) != 1:
            raise VError('loop variables of the top-down splay not recognised: %s' % (L.ptrs,))
        self._lr = (ts[0], l, r)
        return self._lr
    def mid_conjs(self, T, mp, x, t, l, r):
        h = self.h
        n = T.pos(h)
        tlo, thi = T.lo(t), T.hi(t)
        Lc, Rc, Pa = mp['left'].read(x), mp['right'].read(x), mp['parent'].read(x)
        par = mp['parent'].read
        on = z3.And(T.own(x) == h, x != h)
        iH = x == h
        out = [('subtree interval contains the node', z3.Implies(on, z3.And(T.lo(x) >= -1, T.lo(x) <= T.pos(x), T.pos(x) <= T.hi(x), T.hi(x) <= n,
                    z3.Implies(T.hi(x) == n, z3.And(T.pos(x) < tlo, T.lo(x) >= 0)), z3.Implies(T.lo(x) == -1, z3.And(T.pos(x) > thi, T.hi(x) < n))))),
               ('left child', z3.Implies(z3.And(on, x != r), z3.And((Lc == NULL) == (T.lo(x) == T.pos(x)), z3.Implies(Lc != NULL, z3.And(T.own(Lc) == h, Lc != h, Lc != t, par(Lc) == x, T.lo(Lc) == T.lo(x), T.hi(Lc) == T.pos(x) - 1))))),
               ('right child', z3.Implies(z3.And(on, x != l), z3.And((Rc == NULL) == (T.hi(x) == T.pos(x)), z3.Implies(Rc != NULL, z3.And(T.own(Rc) == h, Rc != h, Rc != t, par(Rc) == x, T.lo(Rc) == T.pos(x) + 1, T.hi(Rc) == T.hi(x)))))),
               ('parent', z3.Implies(z3.And(on, x != t), z3.And(T.own(Pa) == h, z3.If(Pa == h, z3.Or(z3.And(l != h, mp['right'].read(h) == x), z3.And(r != h, mp['left'].read(h) == x)), z3.Or(z3.And(Pa != r, mp['left'].read(Pa) == x), z3.And(Pa != l, mp['right'].read(Pa) == x))))))]
        a, b = mp['right'].read(h), mp['left'].read(h)
        out.append(('left tree hangs at the header', z3.Implies(iH, z3.If(l == h, z3.And(tlo == 0, a == NULL), z3.And(T.own(l) == h, T.pos(l) == tlo - 1, T.hi(l) == n, T.own(a) == h, a != h, a != NULL, par(a) == h, T.lo(a) == 0, T.hi(a) == n)))))
        out.append(('right tree hangs at the header', z3.Implies(iH, z3.If(r == h, z3.And(thi == n - 1, b == NULL), z3.And(T.own(r) == h, T.pos(r) == thi + 1, T.lo(r) == -1, T.own(b) == h, b != h, b != NULL, par(b) == h, T.lo(b) == -1, T.hi(b) == n - 1)))))
        return out
    def mids(self, s, x, q):
        return self.mid_conjs(self.cur(s), s.maps, x, *[s.env[v] for v in q])
    def invariants(self, E, L, st):
        q = self.lr(L)
        c = []
        for j, (l, _) in enumerate(self.mids(st, NULL, q)):
            c.append(Cand(l, 'P', lambda s, x, j=j: self.mids(s, x, q)[j][1]))
        for j, (lab, _) in enumerate(self.frame_at(st.maps, NULL)):
            c.append(Cand(lab, 'P', lambda s, x, j=j: self.frame_at(s.maps, x)[j][1]))
        t = q[0]
        # everything in the left tree is less than the key, everything in the right tree greater
        c.append(Cand('left tree holds only smaller elements', '', lambda s: self.cur(s).lo(s.env[t]) <= self.klo))
        c.append(Cand('right tree holds only greater elements', '', lambda s: self.cur(s).hi(s.env[t]) + 1 >= self.khi))
        c.append(Cand('current subtree is not empty', '', lambda s: z3.And(self.T1.own(s.env[t]) == self.h, s.env[t] != self.h, s.env[t] != NULL)))
        return c
    def loop_assume(self, E, L, st, H):
        t, l, r = self.lr(L)
        H.g['trl'] = 1
        H.g['gl'], H.g['gr'] = H.env[l], H.env[r]
    def call(self, E, st, name, args, ins):
        """ghost code of linking t into the left (right) tree: its last (first) index becomes open"""
        out = super().call(E, st, name, args, ins)
        if 'trl' in st.g and name in ('nt_set_right', 'nt_set_left'):
            k, m, v = ('gl', 'g.hi', self.T1.pos(self.h)) if name == 'nt_set_right' else ('gr', 'g.lo', z3.IntVal(-1))
            for s, _, _ in out:
                if simp(args[0]).eq(simp(s.g[k])):
                    s.maps[m] = s.maps[m].write(args[1], v)
                    s.g[k] = args[1]
        return out
    def call_mods(self, E, n):
        r = super().call_mods(E, n)
        return set(r) | {'g.lo', 'g.hi'} if n in ('nt_set_right', 'nt_set_left') else r
    def variants(self, E, L, st):
        t = self.lr(L)[0]
        return [Variant('current subtree shrinks', lambda s: s.maps['g.hi'].read(s.env[t]) - s.maps['g.lo'].read(s.env[t]))]
    def final_T(self, st):
        """t (the root at the end) takes the interval of the whole tree; the spines close next to it"""
        T = self.cur(st)
        h = self.h
        n = T.pos(h)
        t = st.maps['parent'].read(h)
        if 'trl' not in st.g:
            return T
        return T.upd(lo=lambda x: z3.If(x == t, 0, z3.If(T.lo(x) == -1, T.pos(t) + 1, T.lo(x))),
                     hi=lambda x: z3.If(x == t, n - 1, z3.If(z3.And(T.own(x) == h, T.hi(x) == n), T.pos(t) - 1, T.hi(x))))
    def goals(self, E, st, tag=''):
        T, mp = self.final_T(st), st.maps
        for j, (l, _) in enumerate(self.state_conjs(T, mp, NULL)):
            yield (tag + 'resulting tree: ' + l, Q('post', 'P', lambda x, j=j: self.state_conjs(T, mp, x)[j][1]))
        for j, (l, _) in enumerate(self.frame_at(mp, NULL)):
            yield (tag + l, Q('post-frame', 'P', lambda x, j=j: self.frame_at(mp, x)[j][1]))
    def post(self, E, st, ret):
        T, h = self.T1, self.h
        yield from self.goals(E, st)
        root = st.maps['parent'].read(h)
        yield ('returns the root (the header when empty)', ret == z3.If(T.pos(h) == 0, h, root))
        yield ('the root is an equivalent element, or a neighbour of the search position', z3.Implies(T.pos(h) > 0, near_key(T.pos(root), self.klo, self.khi)))
    def exc_post(self, E, st):
        yield from self.goals(E, st)

def near_key(p, klo, khi):
    return z3.If(klo < khi, z3.And(klo <= p, p < khi), z3.Or(p == klo, p == klo - 1))
class SplayDownFound(SplayDown):
    name = 'splaytree splay_down(found)'; fn = 'v_splay_down_found'
    def pre(self, E, st):
        a = super().pre(E, st)
        self.out = fresh('found', P)
        st.assume(self.out != NULL)
        return a + [self.out]
    def post(self, E, st, ret):
        yield from super().post(E, st, ret)
        m = [n for n in st.maps if n.startswith('mem.0.int')][0]
        v = st.maps[m].read(self.out)
        yield ('found exactly when an equivalent element exists', (v % 2 == 1 if v.sort() == I else v) == (self.klo < self.khi))

# ------------------------------------------------------------------ complete operations
class SpTop(Top):
    split = True
    def apply(self, E, st, h, T1, what, throws, need=()):
        """callee contract of splay_up/splay_down: well-formed tree in, well-formed tree with the same sequence out"""
        for l, f in need:
            st.need(what + ' requires: ' + l, f)
        mp = dict(st.maps)
        if self.midstate(E, st) and T1 is self.T and not st.g.get('sp'):
            pass        # unchanged tree
        else:
            for j, (l, _) in enumerate(self.state_conjs(T1, mp, NULL, h)):
                st.obl = st.obl + ((what + ' requires: ' + l, Q('callee-pre', 'P', lambda x, j=j: self.state_conjs(T1, mp, x, h)[j][1])),)
        E.flush(st)
        out = []
        for s, kind in ((st, 'ok'),) + (((st.copy(), 'throw'),) if throws else ()):
            new = {f: Map.new(f, P) for f in self.allf}
            s.hyps = tuple(q for q in s.hyps if q.name in ('seq', 'seq-at', 'room for one more'))
            for f in self.allf:
                old = s.maps[f]
                s.maps[f] = new[f]
                s.assume(Q('callee-frame', 'P', lambda x, f=f, old=old, new=new: z3.Or(T1.own(x) == h, new[f].read(x) == old.read(x)), lvl=2))
            def mk(n):
                f, old = fnP('%s4!%d' % (n, next(TR_CNT))), getattr(T1, n)
                return lambda x: z3.If(T1.own(x) == h, f(x), old(x))
            T2 = T1.upd(lo=mk('lo'), hi=mk('hi'))
            s.assume(Q('links', 'P', lambda x, T2=T2, new=new: [f for _, f in links_w(T2, new, x)], lvl=self.wf_lvl))
            if any(q.name == 'adjacency lemma' for q in st.hyps) or getattr(self, 'adj', True):
                s.assume(Q('adjacency lemma', 'P', lambda x, T2=T2, new=new: adj_lemma(T2, new, x), lvl=1))
            s.g['T'] = T2
            s.g['sp'] = 1
            s.g['mp'] = new
            out.append((s, None, kind))
        return out
    def midstate(self, E, st):
        b = st.g.get('mp', self.m0)
        return all(not st.maps[f].writes and st.maps[f].base is b[f].base for f in self.allf)
    def c_min(self, E, st, args, ins, right=False):
        x, = args
        T = st.g['T']
        mp = st.g.get('mp', self.m0)
        st.need('minimum/maximum is called on an element @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != T.own(x), x != NULL))
        for f in ('left', 'right'):
            for w, _ in st.maps[f].writes:
                st.need('subtree searched is unmodified @' + E.m.loc(ins.dbg), z3.Or(T.own(w) != T.own(x), w == T.own(x), T.pos(w) < T.lo(x), T.pos(w) > T.hi(x)))
        r = fresh('max' if right else 'min', P)
        st.assume(z3.And(*[g for _, g in min_post(T, mp, x, r, right)]))
        return [(st, r, 'ok')]
    def throwpoint(self, E, st, ins):
        # user functor: tree must be well formed at this point (either untouched or exactly as splay_down left it)
        if not self.midstate(E, st):
            raise VError('user functor called in a modified tree')
        st.need('the tree is well formed whenever a user functor may throw @' + E.m.loc(ins.dbg), TRUE)
    def c_down(self, E, st, args, ins):
        h, k = args[:2]
        r = self.apply(E, st, h, st.g['T'], 'splay_down', True, [('a header is passed', z3.And(self.T.own(h) == h, h != NONE))])
        # (a key that is a node is passed by reference to the only node under comparison)
        _, lo, hi, _ = self.key_cuts[k.get_id()] if self.iskey(k) else next(iter(self.key_cuts.values()))
        for s, _, k_ in r:
            if k_ == 'ok':
                f = z3.Implies(self.T.pos(h) > 0, near_key(self.T.pos(s.maps['parent'].read(h)), lo, hi))
                s.assume(f)
                s.g['rootf'] = 1
        return [(s, z3.If(self.T.pos(h) == 0, h, s.maps['parent'].read(h)) if k_ == 'ok' else None, k_) for s, _, k_ in r]
    def with_T(self, st, f):
        """evaluate a contract of the unbalanced tree with the splayed tree as its starting point"""
        T, m0 = self.T, self.m0
        self.T = st.g['T']
        self.m0 = dict(m0, **st.g['mp']) if 'mp' in st.g else m0
        try:
            return f()
        finally:
            self.T, self.m0 = T, m0
    def exc_post(self, E, st):
        yield from TreeSpec.becomes(self, E, st, st.g['T'])
class SpUpAfter(SpTop):
    """insertion followed by splay_up of the new node"""
    def c_up(self, E, st, args, ins):
        n, h = args
        T1 = self.result_T(E, st)
        r = self.apply(E, st, h, T1, 'splay_up', False, [('the node is an element of the tree', z3.And(T1.own(n) == h, n != h, T1.own(h) == h, n != NULL))])
        for s, _, _ in r:
            s.assume(s.maps['parent'].read(h) == n)
        return r
    def post(self, E, st, ret):
        yield from self.tcls.post(self, E, st, ret)
        yield ('the inserted element is the root', st.maps['parent'].read(self.h) == self.a)
    def final_T(self, E, st):
        return st.g['T']
class SpErase(SpTop):
    def c_up(self, E, st, args, ins):
        n, h = args
        return self.apply(E, st, h, st.g['T'], 'splay_up', False, [('the node is an element of the tree', z3.And(self.T.own(n) == h, self.T.own(h) == h, n != NULL))])
    def c_prev(self, E, st, args, ins):
        return TreeSpec.c_prev(self, E, st, args, ins)
    def post(self, E, st, ret):
        D = self.with_T(st, lambda: self.result_T(E, st))
        yield from TreeSpec.becomes(self, E, st, D)
class SpDownIns(SpTop):
    """splay_down then ordinary insertion"""
    def final_T(self, E, st):
        return self.with_T(st, lambda: self.result_T(E, st))
class SpLook(SpTop):
    """splay_down then ordinary lookup"""
    def post(self, E, st, ret):
        yield from self.with_T(st, lambda: list(self.result(E, st, ret)))
        yield from TreeSpec.becomes(self, E, st, st.g['T'])
        _, lo, hi, h = next(iter(self.key_cuts.values()))
        yield ('the root is an equivalent element, or a neighbour of the search position', z3.Implies(self.T.pos(h) > 0, near_key(self.T.pos(st.maps['parent'].read(h)), lo, hi)))
def top(mix, cls):
    d = {'name': 'splaytree ' + cls.name, 'tcls': cls, 'frame_at': Bal.frame_at, 'defs': ()}
    return type('Sp' + cls.__name__, (mix, Sp, cls), d)
TOPS = [top(SpUpAfter, c) for c in (TR.InsertBefore, TR.PushBack, TR.PushFront)] + [top(SpErase, TR.Erase)] + [top(SpDownIns, c) for c in (TR.InsertUB, TR.InsertLB, TR.InsertHint)]
TOPS += [top(SpLook, c) for c in (TR.LowerBound, TR.UpperBound, TR.Find, TR.CountK, TR.EqualRange, TR.LowerBoundRange, TR.BoundedRange, TR.UniqueCheck, TR.UniqueCheckHint)]
for _u in TOPS:
    globals()[_u.__name__] = _u
UNITS = [SplayUp, SplayDown, SplayDownFound] + TOPS
