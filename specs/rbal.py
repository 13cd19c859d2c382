"""Contracts of the rebalancing code of red-black and AVL trees.

Ghost state in addition to tree.py: bh(x) = black height of x's subtree, ht(x) = height of x's subtree.  lo/hi/bh/ht are
ghost maps updated by ghost code attached to the real rotations and to set_color/set_balance; own/pos/at (the abstract
sequence) are not touched by rebalancing, so every contract below also says that rebalancing keeps the sequence."""
from spec import *
from tree import *
import tree as TR

RED, BLACK = 0, 1
NEG, ZERO, POS = 0, 1, 2

class Bal(TreeSpec):
    defs = ('ALGO=rbtree_algorithms', 'PRIV')
    depth = 2
    merge = True
    split = True
    arith = 2
    optimistic = True
    budget = 840
    feas_depth = 1
    def merge_in(self, E, f):
        return 'rotate' in f.name and 'avl' not in f.name
    contracts = dict(TreeSpec.contracts)
    contracts.update({'bstree_algorithms::rotate_left_no_parent_fix': 'c_rotl0', 'bstree_algorithms::rotate_right_no_parent_fix': 'c_rotr0',
                      'bstree_algorithms::rotate_left': 'c_rotl', 'bstree_algorithms::rotate_right': 'c_rotr'})
    mods_c_rotl0 = mods_c_rotr0 = mods_c_rotl = mods_c_rotr = ('left', 'right', 'parent', 'g.lo', 'g.hi', 'g.bal')
    RF = ('left', 'right', 'parent')
    heap = ('left', 'right', 'parent')
    keep = ('seq', 'seq-at')
    @property
    def allf(self):
        return self.heap + ((self.bfield,) if self.bfield else ())
    # ---- ghost
    def cur(self, st):
        T = self.T1
        return self.gT(st, T)
    def gT(self, st, T):
        k = {self.bname: st.maps['g.bal']}
        return T.upd(lo=st.maps['g.lo'], hi=st.maps['g.hi'], **k)
    def install(self, st, T):
        """make T's lo/hi/height the current ghost maps; own/pos/at of T become fixed"""
        self.T1 = T
        st.maps['g.lo'] = Map(T.lo, (), I)
        st.maps['g.hi'] = Map(T.hi, (), I)
        st.maps['g.bal'] = Map(getattr(T, self.bname), (), I)
    def hg(self, T, c):
        return z3.If(c == NULL, 0, getattr(T, self.bname)(c))
    def recompute(self, st, x):
        raise NotImplementedError
    def rot(self, E, st, args, left, full):
        r = []
        p, q = args[0], args[1]
        st.need('rotation of two different nodes', z3.And(p != q, p != NULL, q != NULL))
        name = self.demname[('rotl' if left else 'rotr') + ('' if full else '0')]
        for s, v, k in E.call_defined(st, name, args):
            # ghost code: intervals and heights of the two nodes
            a = simp(s.maps['g.lo'].read(p) if left else s.maps['g.hi'].read(p))
            if left:
                s.maps['g.hi'] = s.maps['g.hi'].write(p, simp(self.T1.pos(q) - 1))
                s.maps['g.lo'] = s.maps['g.lo'].write(q, a)
            else:
                s.maps['g.lo'] = s.maps['g.lo'].write(p, simp(self.T1.pos(q) + 1))
                s.maps['g.hi'] = s.maps['g.hi'].write(q, a)
            self.recompute(s, p)
            self.recompute(s, q)
            r.append((s, v, k))
        return r
    @property
    def demname(self):
        return self._dn
    def call(self, E, st, name, args, ins):
        b = self.demangled(E, name)
        for k, n in (('rotl0', 'rotate_left_no_parent_fix'), ('rotr0', 'rotate_right_no_parent_fix'), ('rotl', 'rotate_left'), ('rotr', 'rotate_right')):
            if b == 'bstree_algorithms::' + n:
                self._dn = dict(getattr(self, '_dn', {}), **{k: name})
        r = super().call(E, st, name, args, ins)
        if self.bfield and name == 'nt_set_' + self.bfield:
            self.on_bal(st, args[0])
        if name in ('nt_get_left', 'nt_get_right', 'nt_get_parent'):
            # name values read through pending writes (keeps terms small)
            r = [(s, self.nm(s, v), k) for s, v, k in r]
        return r
    def nm(self, st, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = fresh('v', v.sort())
            st.assume(c == v)
            return c
        return v
    def call_mods(self, E, n):
        r = super().call_mods(E, n)
        if self.bfield and n == 'nt_set_' + self.bfield:
            r = set(r) | {'g.bal'}
        return r
    def c_rotl0(self, E, st, args, ins):
        return self.rot(E, st, args, True, False)
    def c_rotr0(self, E, st, args, ins):
        return self.rot(E, st, args, False, False)
    def c_rotl(self, E, st, args, ins):
        return self.rot(E, st, args, True, True)
    def c_rotr(self, E, st, args, ins):
        return self.rot(E, st, args, False, True)
    # ---- setup of a unit about one tree h in an intermediate state
    def setup_mid(self, E, st):
        T = TS(fnP('own', P), fnP('pos'), z3.Function('at', P, I, P), fnP('lo'), fnP('hi'))
        setattr(T, self.bname, fnP(self.bname))
        self.T = T
        self.m0 = {f: st.maps[f] for f in self.allf}
        self.install(st, T)
        st.g['T'] = T
        st.assume(Q('seq', 'P', lambda x: seq_w(T, x)))
        st.assume(Q('seq-at', '', lambda h, i: seq_a(T, h, i), trig='at'))
        st.assume([T.own(NULL) == NONE, NONE != NULL, T.own(NONE) == NONE])
        self.named, self.hdrs, self.key_cuts = [], [], {}
        self.installed = False
        self.h = self.hdr(E, st, 'h')
    def involved(self, x):
        return z3.Or(*([self.T1.own(x) == h for h in self.hdrs] + [x == n for n in self.named] + [FALSE]))
    def frame_at(self, mp, x):
        own = self.T1.own(x) == self.h
        return [('frame: %s of nodes outside the tree unchanged' % f, z3.Or(own, mp[f].read(x) == self.m0[f].read(x))) for f in self.allf]
    def here(self, T, conjs, x, h=None):
        h = self.h if h is None else h
        return [(l, z3.Implies(T.own(x) == h, f)) for l, f in conjs]
    def state_conjs(self, T, mp, x, h=None, **rel):
        return self.here(T, links_w(T, mp, x) + self.bal_local(T, mp, x, **rel), x, h)
    def relax(self, E, L, s):
        return {}
    def invariants(self, E, L, st):
        if getattr(self, 'oldinv', False):
            return super().invariants(E, L, st)
        c = []
        n = len(self.state_conjs(self.cur(st), st.maps, fresh('d', P), **self.relax(E, L, st)))
        for j in range(n):
            lab = self.state_conjs(self.cur(st), st.maps, NULL, **self.relax(E, L, st))[j][0]
            c.append(Cand(lab, 'P', lambda s, x, j=j: self.state_conjs(self.cur(s), s.maps, x, **self.relax(E, L, s))[j][1]))
        for j, (lab, _) in enumerate(self.frame_at(st.maps, NULL)):
            c.append(Cand(lab, 'P', lambda s, x, j=j: self.frame_at(s.maps, x)[j][1]))
        for l, f in self.ground_inv(E, L, st):
            c.append(Cand(l, '', f))
        return c
    def havoc(self, E, L, H):
        super().havoc(E, L, H)
        if not getattr(self, 'oldinv', False):
            # facts about the heap before the loop are replaced by the loop invariant
            H.hyps = tuple(q for q in H.hyps if q.name in self.keep)
    def post_mid(self, E, st, **rel):
        T = self.cur(st)
        mp = st.maps
        labs = [l for l, _ in self.state_conjs(T, mp, NULL, **rel)]
        for j, l in enumerate(labs):
            yield ('resulting tree: ' + l, Q('post', 'P', lambda x, j=j: self.state_conjs(T, mp, x, **rel)[j][1]))
        for j, (l, _) in enumerate(self.frame_at(mp, NULL)):
            yield (l, Q('post-frame', 'P', lambda x, j=j: self.frame_at(mp, x)[j][1]))
    # ---- the same contracts, used by callers
    def apply_contract(self, E, st, h, T1, what, pre_rel, extra_need=()):
        """callee contract: requires state_conjs(T1, pre_rel) for tree h, ensures state_conjs with fresh lo/hi/heights"""
        self.T1 = T1
        mp = dict(st.maps)
        for l, f in extra_need:
            st.need(what + ' requires: ' + l, f)
        labs = [l for l, _ in self.state_conjs(T1, mp, NULL, h, **pre_rel)]
        for j, l in enumerate(labs):
            q = Q('callee-pre', 'P', lambda x, j=j: self.state_conjs(T1, mp, x, h, **pre_rel)[j][1])
            st.obl = st.obl + ((what + ' requires: ' + l, q),)
        E.flush(st)
        fs = self.allf
        st.hyps = tuple(q for q in st.hyps if q.name in self.keep + ('links', 'room for one more'))
        new = {f: Map.new(f, st.maps[f].rs) for f in fs}
        for f in fs:
            old = st.maps[f]
            st.maps[f] = new[f]
            st.assume(Q('callee-frame', 'P', lambda x, f=f, old=old: z3.Or(T1.own(x) == h, new[f].read(x) == old.read(x)), lvl=2))
        def mk(n):
            f, old = fnP('%s2!%d' % (n, next(TR_CNT))), getattr(T1, n)
            return lambda x: z3.If(T1.own(x) == h, f(x), old(x))
        T2 = T1.upd(lo=mk('lo'), hi=mk('hi'), **{self.bname: mk(self.bname)})
        st.g['Tfin'] = T2
        st.assume(Q('callee-post', 'P', lambda x: [f for _, f in self.state_conjs(T2, new, x, h)], lvl=2))
        return [(st, None, 'ok')]
import itertools
TR_CNT = itertools.count()

class RB(Bal):
    kind = 'rb'
    bname = 'bh'
    bfield = 'color'
    fields = {'left': 'P', 'right': 'P', 'parent': 'P', 'color': 'I2'}
    contracts = dict(Bal.contracts)
    contracts.update({'rbtree_algorithms::rebalance_after_insertion': 'c_rins', 'rbtree_algorithms::rebalance_after_erasure_restore_invariants': 'c_rers'})
    mods_c_rins = mods_c_rers = ('left', 'right', 'parent', 'color', 'g.lo', 'g.hi', 'g.bal')
    def blk(self, mp, x):
        return z3.If(mp['color'].read(x) == BLACK, 1, 0)
    def recompute(self, st, x):
        T = self.cur(st)
        hl, hr = self.hg(T, st.maps['left'].read(x)), self.hg(T, st.maps['right'].read(x))
        st.maps['g.bal'] = st.maps['g.bal'].write(x, self.nm(st, simp(z3.If(hl >= hr, hl, hr) + self.blk(st.maps, x))))
    def on_bal(self, st, x):
        old = getattr(self, '_old')
        b = st.maps['g.bal']
        st.maps['g.bal'] = b.write(x, self.nm(st, simp(b.read(x) + self.blk(st.maps, x) - old)))
    def call(self, E, st, name, args, ins):
        if name == 'nt_set_color':
            self._old = self.blk(st.maps, args[0])
        return super().call(E, st, name, args, ins)
    def bal_local(self, T, mp, x, ins=None, p=None, ers=None):
        """local red-black facts at x.  ins: freshly linked red-to-be leaf, not yet counted; p: only node allowed to be a red
        child of a red node / a red root; ers=(c,cp): subtree c (maybe null) below cp has one black node too few"""
        h = T.own(x)
        nonh = z3.And(h != NONE, x != h)
        isH = z3.And(h != NONE, x == h)
        L, R, Pa, C = (mp[f].read(x) for f in ('left', 'right', 'parent', 'color'))
        col = mp['color'].read
        def hg(c):
            v = self.hg(T, c)
            return z3.If(c == ins, 0, v) if ins is not None else v
        hl, hr = hg(L), hg(R)
        b = self.blk(mp, x)
        okh = z3.And(hl == hr, T.bh(x) == hl + b)
        if ers is not None:
            c, cp = ers
            okh = z3.If(x == cp, z3.Or(z3.And(L == c, hl + 1 == hr, T.bh(x) == hr + b), z3.And(R == c, hr + 1 == hl, T.bh(x) == hl + b)), okh)
        def okc(ch):
            e = [ch == NULL, col(ch) == BLACK]
            if ins is not None:
                e.append(ch == ins)
            if p is not None:
                e.append(ch == p)
            if ers is not None:
                e.append(z3.And(ch == ers[0], x == ers[1]))
                e.append(x == ers[0])
            return z3.Or(*e)
        rt = [Pa == NULL, col(Pa) == BLACK]
        if ins is not None:
            rt.append(Pa == ins)
        if p is not None:
            rt.append(Pa == p)
        if ers is not None:
            rt.append(Pa == ers[0])
        return [('equal black height on both sides', z3.Implies(nonh, z3.And(okh, hl >= 0, T.bh(x) >= 0))),
                ('a red node has no red child', z3.Implies(z3.And(nonh, C == RED), z3.And(okc(L), okc(R)))),
                ('colours are red or black', z3.Implies(h != NONE, z3.Or(C == RED, C == BLACK, FALSE if ins is None else x == ins))),
                ('the root is black', z3.Implies(isH, z3.Or(*rt))),
                ('the header is red', z3.Implies(isH, C == RED))]
    def wf_rb(self, T, mp, x, *a):
        return self.bal_local(T, mp, x)
    def c_rins(self, E, st, args, ins):
        h, p = args
        T1 = self.ins_T1(st, p)
        return self.apply_contract(E, st, h, T1, 'rebalance_after_insertion', {'ins': p},
            [('the new node is a leaf of the tree', z3.And(T1.own(p) == h, p != h, T1.own(h) == h, st.maps['left'].read(p) == NULL, st.maps['right'].read(p) == NULL))])
    def c_rers(self, E, st, args, ins):
        h, x, xp = args
        T1 = self.ers_T1(st)
        return self.apply_contract(E, st, h, T1, 'rebalance_after_erasure_restore_invariants', {'ers': (x, xp)}, ers_need(T1, st.maps, h, x, xp))

def ers_need(T, mp, h, x, xp):
    L, R, Pa = mp['left'].read(xp), mp['right'].read(xp), mp['parent'].read(xp)
    return [('x is a child (maybe null) of x_parent', z3.And(T.own(xp) == h, T.own(h) == h, h != NONE, z3.If(xp == h, x == Pa, z3.Or(x == L, x == R))))]

class RbInsert(RB):
    shards = 2
    name = 'rbtree rebalance_after_insertion'; fn = 'v_rebal_ins'
    open = ('rbtree_algorithms::rebalance_after_insertion',)
    def pre(self, E, st):
        self.setup_mid(E, st)
        p = self.p = fresh('p', P)
        T, m0, h = self.T, dict(st.maps), self.h
        st.assume([T.own(p) == h, p != h, p != NULL, T.bh(p) == self.blk(m0, p), m0['left'].read(p) == NULL, m0['right'].read(p) == NULL])
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x, ins=p)]))
        return [h, p]
    def relax(self, E, L, s):
        return {'p': s.env[L.ptrs[0]]}
    def ground_inv(self, E, L, st):
        v = L.ptrs[0]
        yield ('current node is an element', lambda s: z3.And(self.T1.own(s.env[v]) == self.h, s.env[v] != self.h, s.env[v] != NULL))
        yield ('current node is red', lambda s: s.maps['color'].read(s.env[v]) == RED)
    def at_backedge(self, E, L, H, bs):
        self.recompute(bs, bs.env[L.ptrs[0]])
    def variants(self, E, L, st):
        v = L.ptrs[0]
        return [Variant('subtree grows', lambda s: self.T1.pos(self.h) - (s.maps['g.hi'].read(s.env[v]) - s.maps['g.lo'].read(s.env[v])))]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)

class RbErase(RB):
    shards = 5
    name = 'rbtree rebalance_after_erasure_restore_invariants'; fn = 'v_rebal_ers'
    open = ('rbtree_algorithms::rebalance_after_erasure_restore_invariants',)
    def pre(self, E, st):
        self.setup_mid(E, st)
        x, xp = self.x, self.xp = fresh('x', P), fresh('xp', P)
        T, m0, h = self.T, dict(st.maps), self.h
        st.assume([f for _, f in ers_need(T, m0, h, x, xp)])
        st.assume(Q('pre-state', 'P', lambda y: [f for _, f in self.state_conjs(T, m0, y, ers=(x, xp))]))
        return [h, x, xp]
    def xx(self, L, s):
        # the loop variables: the one that is never null is x_parent
        a, b = L.ptrs
        if not hasattr(self, '_xp'):
            self._xp = b if L.entry.env[b].eq(self.xp) else a
        xp = self._xp
        x = a if xp == b else b
        return s.env[x], s.env[xp]
    def relax(self, E, L, s):
        return {'ers': self.xx(L, s)}
    def ground_inv(self, E, L, st):
        yield ('x is a child (maybe null) of x_parent', lambda s: z3.And(*[f for _, f in ers_need(self.T1, s.maps, self.h, *self.xx(L, s))]))
    def at_backedge(self, E, L, H, bs):
        self.recompute(bs, self.xx(L, bs)[0])
    def variants(self, E, L, st):
        def m(s):
            x, xp = self.xx(L, s)
            return z3.If(z3.Or(xp == self.h, z3.And(x != NULL, s.maps['color'].read(x) == RED)), 0, 1 + self.T1.pos(self.h) - (s.maps['g.hi'].read(xp) - s.maps['g.lo'].read(xp)))
        return [Variant('x becomes red or x_parent moves up', m)]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)

class AVL(Bal):
    kind = 'avl'
    bname = 'ht'
    bfield = 'balance'
    defs = ('ALGO=avltree_algorithms', 'PRIV')
    fields = {'left': 'P', 'right': 'P', 'parent': 'P', 'balance': 'I3'}
    contracts = dict(Bal.contracts)
    contracts.update({'avltree_algorithms::rebalance_after_insertion': 'c_rins', 'avltree_algorithms::rebalance_after_erasure_restore_invariants': 'c_rers'})
    mods_c_rins = mods_c_rers = ('left', 'right', 'parent', 'balance', 'g.lo', 'g.hi', 'g.bal')
    def recompute(self, st, x):
        T = self.cur(st)
        hl, hr = self.hg(T, st.maps['left'].read(x)), self.hg(T, st.maps['right'].read(x))
        st.maps['g.bal'] = st.maps['g.bal'].write(x, self.nm(st, simp(1 + z3.If(hl >= hr, hl, hr))))
    def on_bal(self, st, x):
        self.recompute(st, x)
    def bal_local(self, T, mp, x, ins=None, grown=None, ers=None):
        """ins/grown: subtree whose parent still counts it one lower than it is; ers=(c,cp): subtree c (maybe null) below cp is
        one lower than cp counts it"""
        h = T.own(x)
        nonh = z3.And(h != NONE, x != h)
        isH = z3.And(h != NONE, x == h)
        L, R, bal = (mp[f].read(x) for f in ('left', 'right', 'balance'))
        g = grown if grown is not None else ins
        def hg(c):
            v = self.hg(T, c)
            return z3.If(z3.And(c == g, c != NULL), v - 1, v) if g is not None else v
        hl, hr = hg(L), hg(R)
        def ok(hl, hr):
            return z3.And(T.ht(x) == 1 + z3.If(hl >= hr, hl, hr), hl - hr <= 1, hr - hl <= 1, bal == z3.If(hl > hr, NEG, z3.If(hl < hr, POS, ZERO)))
        f = ok(hl, hr)
        if ers is not None:
            c, cp = ers
            f = z3.If(x == cp, z3.Or(z3.And(L == c, ok(hl + 1, hr)), z3.And(R == c, ok(hl, hr + 1))), f)
        if ins is not None:
            f = z3.If(x == ins, T.ht(x) == 1, f)
        return [('balance factor equals the height difference, which is -1, 0 or 1', z3.Implies(nonh, f)),
                ('heights are positive', z3.Implies(nonh, T.ht(x) >= 1)),
                ('the header has balance zero', z3.Implies(isH, bal == ZERO))]
    def wf_avl(self, T, mp, x, *a):
        return self.bal_local(T, mp, x)
    def c_rins(self, E, st, args, ins):
        h, p = args
        T1 = self.ins_T1(st, p)
        return self.apply_contract(E, st, h, T1, 'rebalance_after_insertion', {'ins': p},
            [('the new node is a leaf of the tree', z3.And(T1.own(p) == h, p != h, T1.own(h) == h, st.maps['left'].read(p) == NULL, st.maps['right'].read(p) == NULL))])
    def c_rers(self, E, st, args, ins):
        h, x, xp = args
        T1 = self.ers_T1(st)
        return self.apply_contract(E, st, h, T1, 'rebalance_after_erasure_restore_invariants', {'ers': (x, xp)}, ers_need(T1, st.maps, h, x, xp))

class AvlInsert(AVL):
    shards = 2
    name = 'avltree rebalance_after_insertion'; fn = 'v_rebal_ins'
    open = ('avltree_algorithms::rebalance_after_insertion',)
    def pre(self, E, st):
        self.setup_mid(E, st)
        p = self.p = fresh('p', P)
        T, m0, h = self.T, dict(st.maps), self.h
        st.assume([T.own(p) == h, p != h, p != NULL, m0['left'].read(p) == NULL, m0['right'].read(p) == NULL])
        st.assume(Q('pre-state', 'P', lambda x: [f for _, f in self.state_conjs(T, m0, x, ins=p)]))
        return [h, p]
    def cn(self, L, s):
        # loop node: the pointer that is not the (reloaded) root
        for v in L.ptrs:
            if L.entry.env[v].eq(self.p):
                return s.env[v]
        raise VError('loop node not found')
    def relax(self, E, L, s):
        return {'grown': self.cn(L, s)}
    def ground_inv(self, E, L, st):
        yield ('current node is an element', lambda s: z3.And(self.T1.own(self.cn(L, s)) == self.h, self.cn(L, s) != self.h, self.cn(L, s) != NULL))
        yield ('current node is a leaf or leans', lambda s: z3.Or(z3.And(s.maps['left'].read(self.cn(L, s)) == NULL, s.maps['right'].read(self.cn(L, s)) == NULL), s.maps['balance'].read(self.cn(L, s)) != ZERO))
        for v in L.ptrs:
            if not L.entry.env[v].eq(self.p):
                yield ('root is up to date', lambda s, v=v: s.env[v] == s.maps['parent'].read(self.h))
    def variants(self, E, L, st):
        return [Variant('subtree grows', lambda s: self.T1.pos(self.h) - (s.maps['g.hi'].read(self.cn(L, s)) - s.maps['g.lo'].read(self.cn(L, s))))]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)

class AvlErase(AVL):
    shards = 4
    name = 'avltree rebalance_after_erasure_restore_invariants'; fn = 'v_rebal_ers'
    open = ('avltree_algorithms::rebalance_after_erasure_restore_invariants',)
    def pre(self, E, st):
        self.setup_mid(E, st)
        x, xp = self.x, self.xp = fresh('x', P), fresh('xp', P)
        T, m0, h = self.T, dict(st.maps), self.h
        st.assume([f for _, f in ers_need(T, m0, h, x, xp)])
        st.assume(Q('pre-state', 'P', lambda y: [f for _, f in self.state_conjs(T, m0, y, ers=(x, xp))]))
        return [h, x, xp]
    def var(self, L, t):
        for v in L.ptrs:
            if L.entry.env[v].eq(t):
                return v
        raise VError('loop variable not found')
    def xx(self, L, s):
        return s.env[self.var(L, self.x)], s.env[self.var(L, self.xp)]
    def relax(self, E, L, s):
        return {'ers': self.xx(L, s)}
    def ground_inv(self, E, L, st):
        yield ('x is a child (maybe null) of x_parent', lambda s: z3.And(*[f for _, f in ers_need(self.T1, s.maps, self.h, *self.xx(L, s))]))
        for v in L.ptrs:
            if not (L.entry.env[v].eq(self.x) or L.entry.env[v].eq(self.xp)):
                yield ('root is up to date', lambda s, v=v: s.env[v] == s.maps['parent'].read(self.h))
    def variants(self, E, L, st):
        def m(s):
            x, xp = self.xx(L, s)
            return z3.If(xp == self.h, 0, 1 + self.T1.pos(self.h) - (s.maps['g.hi'].read(xp) - s.maps['g.lo'].read(xp)))
        return [Variant('x_parent moves up', m)]
    def post(self, E, st, ret):
        yield from self.post_mid(E, st)

# ------------------------------------------------------------------ complete operations
class Top:
    """insert / erase of a balanced tree: the bst part is inlined, the rebalancing is its contract"""
    oldinv = True
    split = True
    shards = 1
    depth = 2
    def merge_in(self, E, f):
        return True
    def on_bal(self, st, x):
        pass
    def recompute(self, st, x):
        pass
    def involved(self, x):
        return TreeSpec.involved(self, x)
    def cur(self, st):
        return st.g['T']
    def leafval(self, mp, a):
        return self.blk(mp, a) if self.kind == 'rb' else z3.IntVal(1)
    def ins_T1(self, st, p):
        T1 = self.result_T(None, st)
        old, v = getattr(self.T, self.bname), self.leafval(dict(st.maps), p)
        return T1.upd(**{self.bname: lambda x: z3.If(x == p, v, old(x))})
    def ers_T1(self, st):
        T, z, h = self.T, self.z, self.h
        k = T.pos(z)
        two = z3.And(T.lo(z) < k, T.hi(z) > k)
        y = T.at(h, k + 1)
        old = getattr(T, self.bname)
        return self.result_T(None, st).upd(**{self.bname: lambda x: z3.If(z3.And(two, x == y, T.own(z) != NONE), old(z), old(x))})
class TopIns(Top):
    def final_T(self, E, st):
        return st.g['Tfin']
class TopErs(Top):
    def post(self, E, st, ret):
        yield from self.becomes(E, st, st.g.get('Tfin') or self.ers_T1(st))
    def involved(self, x):
        return self.tcls.involved(self, x)
def top(base, mix, cls):
    kind = base.kind
    d = {'name': '%stree %s' % (kind, cls.name), 'tcls': cls, 'frame_at': Bal.frame_at}
    return type(kind.capitalize() + 'T' + cls.__name__, (mix, base, cls), d)
TOPS = []
for _b in (RB, AVL):
    for _c in (TR.InsertCommit, TR.InsertUB, TR.InsertLB, TR.InsertHint, TR.InsertBefore, TR.PushBack, TR.PushFront):
        TOPS.append(top(_b, TopIns, _c))
    for _c in (TR.Erase, TR.Unlink):
        TOPS.append(top(_b, TopErs, _c))
class TopSwap(Top):
    split = False
    shards = 1
SWAPS = []
for _b in (RB, AVL):
    for _c in (TR.SwapNodes, TR.SwapNodes2, TR.ReplaceNode, TR.ReplaceNode2, TR.SwapTree):
        SWAPS.append(top(_b, TopSwap, _c))
for _u in TOPS + SWAPS:
    globals()[_u.__name__] = _u

UNITS = [RbInsert, RbErase, AvlInsert, AvlErase] + TOPS + SWAPS
