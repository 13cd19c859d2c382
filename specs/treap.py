"""Contracts of treap_algorithms.  prio : node -> Int is the rank of the node's priority under the user's priority order (a
strict weak order on the finitely many nodes involved); pcomp(a, b) is prio(a) < prio(b).  Heap order: prio(parent) <= prio(x)."""
from spec import *
from tree import *
import tree as TR
from rbal import Bal, Top, TopIns, TR_CNT
PRIO = z3.Function('prio', P, I)
CHAIN = z3.Function('chain', I, P)      # ancestors of the insertion point, nearest first
PASSED = z3.Function('passed', I, P)    # nodes an erased element was rotated below, in order

class Tr(Bal):
    tu = 'treap.cpp'
    defs = ()
    kind = 'treap'
    bname = 'ht'
    bfield = None
    fields = {'left': 'P', 'right': 'P', 'parent': 'P'}
    keep = ('seq', 'seq-at', 'chain')
    contracts = dict(Bal.contracts)
    contracts.update({'treap_algorithms::rotate_up_n': 'c_rotup', 'treap_algorithms::rebalance_after_insertion_check': 'c_chk', 'treap_algorithms::rebalance_for_erasure': 'c_rebers'})
    mods_c_rotup = mods_c_rebers = ('left', 'right', 'parent', 'g.lo', 'g.hi', 'g.bal')
    def wf(self, T, mp, x, relax=None):
        return links_w(T, mp, x) + self.bal_local(T, mp, x)
    def recompute(self, st, x):
        pass
    def on_bal(self, st, x):
        pass
    def bal_local(self, T, mp, x, p=None):
        """p: node that may have a smaller priority than its ancestors (its descendants are ordered relative to it and to its parent)"""
        h = T.own(x)
        Pa = mp['parent'].read(x)
        ok = z3.Or(Pa == h, PRIO(Pa) <= PRIO(x))
        if p is not None:
            G = mp['parent'].read(p)
            ok = z3.Or(x == p, z3.If(Pa == p, z3.And(PRIO(p) <= PRIO(x), z3.Or(G == h, PRIO(G) <= PRIO(x))), ok))
        return [('no element has a smaller priority than its parent (heap order)', z3.Implies(z3.And(h != NONE, x != h), ok))]
    def leafval(self, mp, a):
        return z3.IntVal(1)
    # ---- priority comparisons
    fork_prio = False
    def ext_cb_prio(self, E, st, args, ins):
        a, b = args
        v = PRIO(a) < PRIO(b)
        if not self.fork_prio:
            self.throwpoint(E, st, ins)
            return [(st, v, 'ok')]
        return [(st, v, 'ok'), (st.copy(), None, 'throw')]
    # ---- callee contracts
    def deref(self, E, st, p):
        return E.load(st, ('ptr',), p)
    def chain_facts(self, T, mp, h, k, A, n, i):
        """the n nearest ancestors A(0..n-1) are elements with priority >= that of k, A(n) is the header or ordered before k"""
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(T.own(A(i)) == h, A(i) != h, mp['parent'].read(A(i)) == A(i + 1), PRIO(k) <= PRIO(A(i))))
    def chain_end(self, T, h, k, A, n):
        return z3.And(n >= 0, T.own(A(n)) == h, z3.Or(A(n) == h, PRIO(A(n)) <= PRIO(k)))
    def c_chk(self, E, st, args, ins):
        h, up, kr, out = args
        k = self.deref(E, st, kr)
        T = st.g['T']
        if not self.midstate(E, st):
            raise VError('insertion check in a modified tree')
        st.need('the insertion point is the header or an element', z3.And(T.own(h) == h, h != NONE, T.own(up) == h))
        n = fresh('rot', I)
        mp = dict(st.maps)
        st.assume([CHAIN(0) == up, n < (1 << 62), self.chain_end(T, h, k, CHAIN, n)])
        st.assume(Q('chain', '', lambda i: self.chain_facts(T, mp, h, k, CHAIN, n, i), trig='chain'))
        st.g['chain'] = (CHAIN, n)
        E.store(st, ('int', 64), n, out)
        return [(st, None, 'ok')]
    def c_rotup(self, E, st, args, ins):
        h, p, n = args
        T1 = self.ins_T1(st, p)
        A, m = st.g['chain']
        mp = dict(st.maps)
        st.obl = st.obl + (('rotate_up_n requires: the passed ancestors have priorities not before the node', Q('chain-pre', 'I', lambda i: self.chain_facts(T1, mp, h, p, A, n, i))),)
        return self.apply_contract(E, st, h, T1, 'rotate_up_n', {'p': p},
            [('the node is an element of the tree', z3.And(T1.own(p) == h, p != h, p != NULL, T1.own(h) == h)), ('the count is the number of ancestors to pass', z3.And(n == m, mp['parent'].read(p) == A(0), self.chain_end(T1, h, p, A, n)))])
    def ins_T1(self, st, p):
        if getattr(self, 'mid', False):
            return self.cur(st)
        return TopIns.ins_T1(self, st, p)
    def c_rebers(self, E, st, args, ins):
        """z becomes a leaf; exceptional exit: a valid treap with the same sequence"""
        h, z = args
        T = st.g['T']
        if not self.midstate(E, st):
            raise VError('rebalance_for_erasure in a modified tree')
        st.need('rebalance_for_erasure is called on an element of the tree', z3.And(T.own(h) == h, h != NONE, T.own(z) == h, z != h, z != NULL))
        E.flush(st)
        out = []
        ex = st.copy()
        for s, rel, kind in ((st, {'p': z}, 'ok'), (ex, {}, 'throw')):
            new = {f: Map.new(f, P) for f in self.allf}
            s.hyps = tuple(q for q in s.hyps if q.name in self.keep + ('room for one more',))
            for f in self.allf:
                old = s.maps[f]
                s.maps[f] = new[f]
                s.assume(Q('callee-frame', 'P', lambda x, f=f, old=old, new=new: z3.Or(T.own(x) == h, new[f].read(x) == old.read(x)), lvl=2))
            def mk(n, s=s):
                f, old = fnP('%s3!%d' % (n, next(TR_CNT))), getattr(T, n)
                return lambda x: z3.If(T.own(x) == h, f(x), old(x))
            T2 = T.upd(lo=mk('lo'), hi=mk('hi'))
            def conj(x, T2=T2, new=new, rel=rel):
                r = self.here(T2, links_w(T2, new, x) + self.bal_local(T2, new, x, **rel), x, h)
                r += [(l, z3.Implies(T2.own(x) != h, f)) for l, f in links_w(T2, new, x) + self.bal_local(T2, new, x)]
                return [f for _, f in r]
            s.assume(Q('links', 'P', conj, lvl=2))
            s.g['T'] = T2
            if kind == 'ok':
                s.assume([new['left'].read(z) == NULL, new['right'].read(z) == NULL])
                s.g['mreb'] = new
            out.append((s, None, kind))
        return out

# ------------------------------------------------------------------ helpers
class TrChk(Tr):
    name = 'treap rebalance_after_insertion_check'; fn = 'v_chk'
    open = ('treap_algorithms::rebalance_after_insertion_check',)
    oldinv = True
    on_bal = Tr.on_bal
    def pre(self, E, st):
        TreeSpec.setup(self, E, st)
        T, m0 = self.T, self.m0
        h = self.h = self.hdr(E, st, 'h')
        up, k = fresh('up', P), fresh('k', P)
        self.k = k
        st.assume([T.own(up) == h, k != NULL])
        self.A = CHAIN
        st.assume(CHAIN(0) == up)
        # CHAIN lists the ancestors of up, nearest first, ending with the header
        st.assume(Q('chain', '', lambda i: z3.Implies(z3.And(i >= 0, CHAIN(i) != h, T.own(CHAIN(i)) == h), m0['parent'].read(CHAIN(i)) == CHAIN(i + 1)), trig='chain'))
        return [h, up, k]
    def merge_in(self, E, f):
        return True
    def involved(self, x):
        return TreeSpec.involved(self, x)
    def invariants(self, E, L, st):
        T, h = self.T, self.h
        c = []
        for i in L.ints:
            c.append(Cand('ancestors passed so far', 'I', lambda s, j, i=i: self.chain_facts(T, s.maps, h, self.k, CHAIN, s.env[i], j), trig='chain'))
            c.append(Cand('ancestors passed so far are strictly after the key', 'I', lambda s, j, i=i: z3.Implies(z3.And(j >= 0, j < s.env[i]), PRIO(self.k) < PRIO(CHAIN(j))), trig='chain'))
            for q in L.ptrs:
                c.append(Cand('current node is the n-th ancestor', '', lambda s, i=i, q=q: z3.And(s.env[i] >= 0, s.env[q] == CHAIN(s.env[i]), T.own(s.env[q]) == h)))
                c.append(Cand('depth is bounded by the subtree size', '', lambda s, i=i, q=q: s.env[i] <= z3.If(s.env[q] == h, T.pos(h), T.hi(s.env[q]) - T.lo(s.env[q]))))
        return c
    def post(self, E, st, ret):
        T, h, k = self.T, self.h, self.k
        yield ('the ancestors to pass have priorities after the key', Q('chain-post', 'I', lambda i: z3.And(self.chain_facts(T, st.maps, h, k, CHAIN, ret, i), z3.Implies(z3.And(i >= 0, i < ret), PRIO(k) < PRIO(CHAIN(i))))))
        yield ('passing stops at the header or at a node not after the key', z3.And(self.chain_end(T, h, k, CHAIN, ret), ret < (1 << 62)))
        yield from self.unchanged(st)

class TrRotUp(Tr):
    name = 'treap rotate_up_n'; fn = 'v_rotup'
    open = ('treap_algorithms::rotate_up_n',)
    def pre(self, E, st):
        self.setup_mid(E, st)
        T, m0, h = self.T, dict(st.maps), self.h
        p, n = self.p, self.n = fresh('p', P), fresh('n', I)
        st.assume([T.own(p) == h, p != h, p != NULL, n < (1 << 62), m0['parent'].read(p) == CHAIN(0), self.chain_end(T, h, p, CHAIN, n)])
        st.assume(Q('chain', '', lambda i: self.chain_facts(T, m0, h, p, CHAIN, n, i), trig='chain'))
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x, p=p)]))
        return [h, p, n]
    def relax(self, E, L, s):
        return {'p': self.p}
    def ground_inv(self, E, L, st):
        p = self.p
        for i in L.ints:
            yield ('rotations left', lambda s, i=i: z3.And(s.env[i] >= 0, s.env[i] <= self.n, s.maps['parent'].read(p) == CHAIN(self.n - s.env[i])))
        for q in L.ptrs:
            yield ('parent of the node', lambda s, q=q: s.env[q] == s.maps['parent'].read(p))
            for q2 in L.ptrs:
                yield ('grandparent', lambda s, q=q, q2=q2: s.env[q] == s.maps['parent'].read(s.env[q2]))
    def invariants(self, E, L, st):
        c = Tr.invariants(self, E, L, st)
        p, h = self.p, self.h
        m0 = self.m0
        def anc(s, x):
            T = self.cur(s)
            return z3.Implies(z3.And(T.own(x) == h, x != h, x != p, T.lo(x) <= T.pos(p), T.pos(p) <= T.hi(x)), s.maps['parent'].read(x) == m0['parent'].read(x))
        c.append(Cand('ancestors still to pass are unchanged', 'P', anc))
        return c
    def variants(self, E, L, st):
        return [Variant('rotations left', lambda s, i=i: s.env[i]) for i in L.ints]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)

class TrErsReb(Tr):
    name = 'treap rebalance_for_erasure'; fn = 'v_rebers'
    open = ('treap_algorithms::rebalance_for_erasure',)
    fork_prio = True
    mid = True
    keep = ('seq', 'seq-at') + tuple('frame: %s of nodes outside the tree unchanged' % f for f in ('left', 'right', 'parent'))
    def pre(self, E, st):
        self.setup_mid(E, st)
        T, m0, h = self.T, dict(st.maps), self.h
        z = self.z = fresh('z', P)
        st.assume([T.own(z) == h, z != h, z != NULL])
        self.zp = m0['parent'].read(z)
        st.assume(z3.Or(self.zp == h, PRIO(self.zp) <= PRIO(z)))
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x)]))
        return [h, z]
    def relax(self, E, L, s):
        return {'p': self.z}
    def A(self, n):
        return lambda i: z3.If(i < n, PASSED(n - 1 - i), self.zp)
    def passed(self, s, n, i):
        h, z = self.h, self.z
        w = PASSED(i)
        lo, hi = s.maps['g.lo'].read(w), s.maps['g.hi'].read(w)
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(self.T1.own(w) == h, w != h, w != z, lo <= self.T1.pos(z), self.T1.pos(z) <= hi, PRIO(z) <= PRIO(w), s.maps['parent'].read(w) == z3.If(i == 0, self.zp, PASSED(i - 1))))
    def invariants(self, E, L, st):
        c = Tr.invariants(self, E, L, st)
        for i in L.ints:
            c.append(Cand('passed nodes', 'I', lambda s, j, i=i: self.passed(s, s.env[i], j), trig='passed'))
        return c
    def ground_inv(self, E, L, st):
        z, h = self.z, self.h
        yield ('parent of z before the erasure', lambda s: z3.And(self.T1.own(self.zp) == h, z3.Or(self.zp == h, PRIO(self.zp) <= PRIO(z))))
        for i in L.ints:
            yield ('rotations counted', lambda s, i=i: z3.And(s.env[i] >= 0, s.maps['parent'].read(z) == z3.If(s.env[i] == 0, self.zp, PASSED(s.env[i] - 1))))
            yield ('rotations are bounded by the subtree size', lambda s, i=i: s.env[i] <= self.T1.pos(h) - (s.maps['g.hi'].read(z) - s.maps['g.lo'].read(z)))
        for q in L.ptrs:
            for f in ('left', 'right'):
                yield (f + ' child of z', lambda s, q=q, f=f: s.env[q] == s.maps[f].read(z))
    def at_backedge(self, E, L, H, bs):
        # ghost definition: the node rotated above z in iteration n is called passed(n)
        for i in L.ints:
            bs.assume(PASSED(H.env[i]) == bs.maps['parent'].read(self.z))
    def loop_assume(self, E, L, st, H):
        for i in L.ints:
            H.g['n'] = H.env[i]
    def c_rotup(self, E, st, args, ins):
        n = args[2]
        st.g['chain'] = (self.A(n), n)
        return Tr.c_rotup(self, E, st, args, ins)
    def variants(self, E, L, st):
        return [Variant('subtree of z shrinks', lambda s: s.maps['g.hi'].read(self.z) - s.maps['g.lo'].read(self.z))]
    def post(self, E, st, ret):
        yield ('z is a leaf', z3.And(st.maps['left'].read(self.z) == NULL, st.maps['right'].read(self.z) == NULL))
        yield from self.post_mid(E, st, p=self.z)
    def exc_post(self, E, st):
        T = st.g.get('Tfin') or self.cur(st)
        mp = st.maps
        for j, (l, _) in enumerate(self.state_conjs(T, mp, NULL)):
            yield ('a throw leaves a valid treap with the same sequence: ' + l, Q('post', 'P', lambda x, j=j: self.state_conjs(T, mp, x)[j][1]))
        for j, (l, _) in enumerate(self.frame_at(mp, NULL)):
            yield (l, Q('post-frame', 'P', lambda x, j=j: self.frame_at(mp, x)[j][1]))

# ------------------------------------------------------------------ complete operations
class TTop(Top):
    split = True
    def c_min(self, E, st, args, ins, right=False):
        return TreeSpec.c_min(self, E, st, args, ins, right)
class TIns(TTop):
    def final_T(self, E, st):
        return st.g['Tfin']
class TCommit(TIns):
    """insert_unique_commit: requires the rotation count computed by insert_unique_check"""
    def pre(self, E, st):
        h, a, left, node = self.tcls.pre(self, E, st)
        n = fresh('rot', I)
        T, m0 = self.T, self.m0
        st.assume([CHAIN(0) == node, n < (1 << 62), self.chain_end(T, h, a, CHAIN, n)])
        st.assume(Q('chain', '', lambda i: self.chain_facts(T, m0, h, a, CHAIN, n, i), trig='chain'))
        st.g['chain'] = (CHAIN, n)
        return [h, a, left, node, n]
class TErs(TTop):
    def involved(self, x):
        return self.tcls.involved(self, x)
    def post(self, E, st, ret):
        T, T2 = self.T, st.g['T']
        self.T = T2
        try:
            D = self.result_T(E, st)
        finally:
            self.T = T
        yield from self.becomes(E, st, D)
    def exc_post(self, E, st):
        T2 = st.g['T']
        yield from TreeSpec.becomes(self, E, st, T2)
    def c_min(self, E, st, args, ins, right=False):
        x, = args
        T = st.g['T']
        mp = st.g.get('mreb', self.m0)
        st.need('minimum/maximum is called on an element @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != T.own(x), x != NULL))
        for f in ('left', 'right'):
            for w, _ in st.maps[f].writes:
                st.need('subtree searched is unmodified @' + E.m.loc(ins.dbg), z3.Or(T.own(w) != T.own(x), w == T.own(x), T.pos(w) < T.lo(x), T.pos(w) > T.hi(x)))
        r = fresh('max' if right else 'min', P)
        st.assume(z3.And(*[g for _, g in min_post(T, mp, x, r, right)]))
        return [(st, r, 'ok')]

class TChk(TTop):
    """insert_unique_check: the ordered position of bstree's check plus the number of rotations the commit must do"""
    def pre(self, E, st):
        a = self.tcls.pre(self, E, st)
        pk, ro = fresh('pk', P), fresh('ro', P)
        st.assume([pk != NULL, ro != NULL, *[ro != o for o in self.outs]])
        self.pk, self.ro = pk, ro
        i = len(a) - 5
        return a[:i + 1] + [pk] + a[i + 1:] + [ro]
    def result(self, E, st, r):
        yield from self.tcls.result(self, E, st, r)
        if 'chain' in st.g:
            A, n = st.g['chain']
            m = [st.maps[k] for k in st.maps if k == 'mem.0.int64']
            if not m:
                flag = [k for k in st.maps if k.startswith('mem.0.int')][0]
                v = st.maps[flag].read(self.outs[1])
                yield ('commit data is produced whenever insertion is possible', v % 2 == 0 if v.sort() == I else z3.Not(v))
                return
            m = m[0]
            T, node = self.T, self.out(st, 3)
            rot = m.read(self.ro)
            yield ('commit data holds the number of ancestors with a later priority', z3.And(rot == n, A(0) == node))
            yield ('those ancestors are listed nearest first', Q('chain-post', 'I', lambda i: self.chain_facts(T, self.m0, self.h, self.pk, A, rot, i)))
            yield ('the next one is the header or has no later priority', self.chain_end(T, self.h, self.pk, A, rot))
def top(mix, cls):
    d = {'name': 'treap ' + cls.name, 'tcls': cls, 'frame_at': Bal.frame_at, 'defs': ()}
    return type('Tr' + cls.__name__, (mix, Tr, cls), d)
TOPS = [top(TCommit, TR.InsertCommit)] + [top(TIns, c) for c in (TR.InsertUB, TR.InsertLB, TR.InsertHint, TR.InsertBefore, TR.PushBack, TR.PushFront)] + [top(TErs, c) for c in (TR.Erase, TR.Unlink)] + [top(TChk, c) for c in (TR.UniqueCheck, TR.UniqueCheckHint)]
for _u in TOPS:
    globals()[_u.__name__] = _u
UNITS = [TrChk, TrRotUp, TrErsReb] + TOPS
