"""Contracts of the binary search tree algorithms (bstree / rbtree / avltree).

Ghost state: own(x) = header of the tree x belongs to (NONE if none; own(h)=h for headers),
pos(x) = in-order index (pos(h) = number of elements), lo/hi(x) = first/last index of x's subtree,
at(h,i) = element at index i (at(h,n)=h).  The abstract value of a tree is its in-order sequence at(h,0..n-1)."""
from spec import *

class TS:
    """tree ghost state"""
    def __init__(self, own, pos, at, lo, hi, **k):
        self.own, self.pos, self.at, self.lo, self.hi = own, pos, at, lo, hi
        self.bh = k.get('bh')
        self.ht = k.get('ht')
    def upd(self, **k):
        d = dict(own=self.own, pos=self.pos, at=self.at, lo=self.lo, hi=self.hi, bh=self.bh, ht=self.ht)
        d.update(k)
        return TS(**d)

def fnP(name, rs=I):
    return z3.Function(name, P, rs)

def seq_w(T, x):
    """sequence part of well-formedness at x"""
    h = T.own(x)
    p = T.pos(x)
    return z3.Implies(h != NONE, z3.And(x != NULL, h != NULL, T.own(h) == h, p >= 0, T.at(h, p) == x, T.pos(h) >= 0, T.pos(h) < (1 << 60),
                                        z3.If(x == h, True, p < T.pos(h))))
def seq_a(T, h, i):
    y = T.at(h, i)
    return z3.Implies(z3.And(T.own(h) == h, h != NONE, i >= 0, i <= T.pos(h)), z3.And(T.own(y) == h, T.pos(y) == i))

def links_w(T, mp, x):
    """link consistency at x: list of named conjuncts"""
    h = T.own(x)
    n = T.pos(h)
    L, R, Pa = mp['left'].read(x), mp['right'].read(x), mp['parent'].read(x)
    nonh = z3.And(h != NONE, x != h)
    isH = z3.And(h != NONE, x == h)
    out = []
    out.append(('subtree interval contains the node', z3.Implies(nonh, z3.And(T.lo(x) >= 0, T.lo(x) <= T.pos(x), T.pos(x) <= T.hi(x), T.hi(x) < n))))
    out.append(('left child', z3.Implies(nonh, z3.And((L == NULL) == (T.lo(x) == T.pos(x)),
        z3.Implies(L != NULL, z3.And(T.own(L) == h, L != h, mp['parent'].read(L) == x, T.lo(L) == T.lo(x), T.hi(L) == T.pos(x) - 1))))))
    out.append(('right child', z3.Implies(nonh, z3.And((R == NULL) == (T.hi(x) == T.pos(x)),
        z3.Implies(R != NULL, z3.And(T.own(R) == h, R != h, mp['parent'].read(R) == x, T.lo(R) == T.pos(x) + 1, T.hi(R) == T.hi(x)))))))
    out.append(('parent', z3.Implies(nonh, z3.And(T.own(Pa) == h, z3.If(Pa == h, mp['parent'].read(h) == x, z3.Or(mp['left'].read(Pa) == x, mp['right'].read(Pa) == x))))))
    out.append(('header root', z3.Implies(isH, z3.And((Pa == NULL) == (n == 0),
        z3.Implies(Pa != NULL, z3.And(T.own(Pa) == h, Pa != h, mp['parent'].read(Pa) == h, T.lo(Pa) == 0, T.hi(Pa) == n - 1))))))
    out.append(('header first/last', z3.Implies(isH, z3.And(L == z3.If(n == 0, h, T.at(h, 0)), R == z3.If(n == 0, h, T.at(h, n - 1))))))
    return out

def min_post(T, mp, x, r, right=False):
    if right:
        return [('result is the last element of the subtree', r == T.at(T.own(x), T.hi(x))),
                ('result has no right child', mp['right'].read(r) == NULL),
                ('subtree of the result lies in the subtree', T.lo(r) >= T.lo(x))]
    return [('result is the first element of the subtree', r == T.at(T.own(x), T.lo(x))),
            ('result has no left child', mp['left'].read(r) == NULL),
            ('subtree of the result lies in the subtree', T.hi(r) <= T.hi(x))]

class TreeSpec(Spec):
    tu = 'bstree.cpp'
    defs = ('BST',)
    fields = {'left': 'P', 'right': 'P', 'parent': 'P'}
    kind = 'bst'
    depth = 2
    merge = True
    def mergeable(self, E, name):
        b = self.demangled(E, name)
        return name.startswith('llvm.') or (b in self.contracts and b not in getattr(self, 'open', ()))
    contracts = {'bstree_algorithms_base::next_node': 'c_next', 'bstree_algorithms_base::prev_node': 'c_prev',
                 'bstree_algorithms_base::minimum': 'c_min', 'bstree_algorithms_base::maximum': 'c_max',
                 'bstree_algorithms_base::get_header': 'c_header', 'bstree_algorithms_base::is_header': 'c_ishdr'}
    extra_roles = ()
    def setup(self, E, st):
        T = self.T = TS(fnP('own', P), fnP('pos'), z3.Function('at', P, I, P), fnP('lo'), fnP('hi'))
        if self.kind == 'rb':
            T.bh = fnP('bh')
        if self.kind == 'avl':
            T.ht = fnP('ht')
        self.m0 = dict(st.maps)
        st.g['T'] = T          # current ghost state
        m0 = self.m0
        st.assume(Q('seq', 'P', lambda x: seq_w(T, x)))
        st.assume(Q('seq-at', '', lambda h, i: seq_a(T, h, i), trig='at'))
        st.assume(Q('links', 'P', lambda x: [f for _, f in self.wf(T, m0, x)], lvl=self.wf_lvl))
        st.assume([T.own(NULL) == NONE, NONE != NULL, T.own(NONE) == NONE])
        self.named = []
        self.hdrs = []
        self.key_cuts = {}
        self.installed = False
    wf_lvl = 1
    # ---- well-formedness incl. balance
    def wf(self, T, mp, x, relax=None):
        out = links_w(T, mp, x)
        h = T.own(x)
        nonh = z3.And(h != NONE, x != h)
        isH = z3.And(h != NONE, x == h)
        L, R, Pa = mp['left'].read(x), mp['right'].read(x), mp['parent'].read(x)
        if self.kind == 'rb':
            out += self.wf_rb(T, mp, x, h, nonh, isH, L, R, Pa, relax)
        if self.kind == 'avl':
            out += self.wf_avl(T, mp, x, h, nonh, isH, L, R, Pa, relax)
        return out
    # ---- params
    def hdr(self, E, st, n):
        h = fresh(n, P)
        st.assume([self.T.own(h) == h, h != NONE, h != NULL])
        self.hdrs.append(h)
        return h
    def node_of(self, E, st, n, h, end=False):
        x = fresh(n, P)
        st.assume([self.T.own(x) == h, x != NULL])
        if not end:
            st.assume(x != h)
        return x
    def any_member(self, E, st, n, end=False):
        x = fresh(n, P)
        st.assume([self.T.own(x) != NONE, x != NULL])
        if not end:
            st.assume(x != self.T.own(x))
        self.hdrs.append(self.T.own(x))
        return x
    def loose(self, E, st, n):
        x = fresh(n, P)
        st.assume([self.T.own(x) == NONE, x != NULL])
        self.named.append(x)
        return x
    def key(self, E, st, n, h, k=None):
        """a search key: elements at positions < lo are less, >= hi are greater"""
        k = fresh(n, P) if k is None else k
        lo, hi = fresh('klo', I), fresh('khi', I)
        st.assume([k != NULL, 0 <= lo, lo <= hi, hi <= self.T.pos(h)])
        self.key_cuts[k.get_id()] = (k, lo, hi, h)
        return k
    def cut(self, k):
        return self.key_cuts[k.get_id()][1:3]
    # ---- comparator callbacks
    def throwpoint(self, E, st, ins):
        """a user functor is called: at that moment a throw must leave every tree unchanged"""
        ok = all(st.maps[f] is self.m0[f] or (st.maps[f].base is self.m0[f].base and not st.maps[f].writes) for f in self.m0)
        if ok:
            st.need('no modification before a user functor may throw @' + E.m.loc(ins.dbg), TRUE)
        else:
            s = st.copy()
            E.flush(s)
            if E.checking:
                for g in self.exc_post(E, s):
                    E.prove(s, 'exceptional exit: ' + g[0], g[1])
    def comp_xk(self, E, st, x, k, ins):
        _, lo, hi, h = self.key_cuts[k.get_id()]
        st.need('comparator is only applied to elements of the tree @' + E.m.loc(ins.dbg), z3.And(self.T.own(x) == h, x != h))
        self.throwpoint(E, st, ins)
        return self.T.pos(x) < lo
    def comp_kx(self, E, st, k, x, ins):
        _, lo, hi, h = self.key_cuts[k.get_id()]
        st.need('comparator is only applied to elements of the tree @' + E.m.loc(ins.dbg), z3.And(self.T.own(x) == h, x != h))
        self.throwpoint(E, st, ins)
        return self.T.pos(x) >= hi
    def iskey(self, a):
        return z3.is_expr(a) and a.get_id() in self.key_cuts
    def ext_cb_comp_nk(self, E, st, args, ins):
        return [(st, simp(self.comp_xk(E, st, args[0], args[1], ins)), 'ok')]
    def ext_cb_comp_kn(self, E, st, args, ins):
        return [(st, simp(self.comp_kx(E, st, args[0], args[1], ins)), 'ok')]
    def ext_cb_comp_nn(self, E, st, args, ins):
        a, b = args
        if self.iskey(b) and not self.iskey(a):
            return [(st, simp(self.comp_xk(E, st, a, b, ins)), 'ok')]
        if self.iskey(a) and not self.iskey(b):
            return [(st, simp(self.comp_kx(E, st, a, b, ins)), 'ok')]
        raise VError('comparison of two elements')
    # ---- access
    def involved(self, x):
        return z3.Or(*([z3.And(self.T.own(x) == h) for h in self.hdrs] + [x == n for n in self.named] + [FALSE]))
    def acc(self, E, st, a):
        return z3.And(a != NULL, self.involved(a))
    # ---- callee contracts (pure)
    def cur(self, st):
        return st.g['T']
    def midstate(self, E, st):
        """callee contracts of traversal functions need a well-formed tree: either unchanged heap, or supply local argument"""
        return all(not st.maps[f].writes for f in ('left', 'right', 'parent'))
    def c_min(self, E, st, args, ins, right=False):
        x, = args
        T = self.cur(st)
        st.need('minimum/maximum is called on an element @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != T.own(x), x != NULL))
        if not self.midstate(E, st):
            # the subtree below x must be untouched: no written node lies in it
            for f in ('left', 'right'):
                for w, _ in st.maps[f].writes:
                    st.need('subtree searched is unmodified @' + E.m.loc(ins.dbg), z3.Or(T.own(w) != T.own(x), w == T.own(x), T.pos(w) < T.lo(x), T.pos(w) > T.hi(x)))
        r = fresh('max' if right else 'min', P)
        st.assume(z3.And(*[g for _, g in min_post(T, self.m0, x, r, right)]))
        return [(st, r, 'ok')]
    def c_max(self, E, st, args, ins):
        return self.c_min(E, st, args, ins, True)
    def c_next(self, E, st, args, ins):
        x, = args
        T = self.cur(st)
        if not self.midstate(E, st):
            raise VError('next_node in a modified tree')
        st.need('next_node is called on an element @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != T.own(x), x != NULL))
        r = fresh('next', P)
        st.assume(r == T.at(T.own(x), T.pos(x) + 1))
        return [(st, r, 'ok')]
    def c_prev(self, E, st, args, ins):
        x, = args
        T = self.cur(st)
        if not self.midstate(E, st):
            raise VError('prev_node in a modified tree')
        st.need('prev_node is called on an element or end, not the first @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, T.pos(x) > 0, x != NULL))
        r = fresh('prev', P)
        st.assume(r == T.at(T.own(x), T.pos(x) - 1))
        return [(st, r, 'ok')]
    def c_header(self, E, st, args, ins):
        x, = args
        T = self.cur(st)
        if not self.midstate(E, st):
            raise VError('get_header in a modified tree')
        st.need('get_header is called on a member @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != NULL))
        return [(st, T.own(x), 'ok')]
    def c_ishdr(self, E, st, args, ins):
        x, = args
        T = self.cur(st)
        if not self.midstate(E, st):
            raise VError('is_header in a modified tree')
        st.need('is_header is called on a member @' + E.m.loc(ins.dbg), z3.And(T.own(x) != NONE, x != NULL))
        return [(st, simp(T.own(x) == x), 'ok')]
    # ---- traversal invariants
    def invariants(self, E, L, st):
        self.maybe_install(E, L, st)
        T = st.g['T']
        c = []
        args = [a for a in E.args if z3.is_expr(a) and a.sort() == P]
        cuts = []
        for k, lo, hi, h in self.key_cuts.values():
            cuts += [lo, hi]
        nodes = [a for a in args if not self.iskey(a) and not any(a.eq(n) for n in self.named)]
        def nn(s, n, f):
            return z3.Or(s.env[n] == NULL, f)
        for n in L.ptrs:
            v = lambda s, n=n: s.env[n]
            v0 = st.env[n]
            for h in self.hdrs:
                c.append(Cand('member', '', lambda s, n=n, h=h: T.own(s.env[n]) == h))
                c.append(Cand('null or member', '', lambda s, n=n, h=h: nn(s, n, z3.And(T.own(s.env[n]) == h))))
                c.append(Cand('not header', '', lambda s, n=n, h=h: s.env[n] != h))
                if self.iscut(cuts):
                    c.append(Cand('null or non-header', '', lambda s, n=n, h=h: nn(s, n, s.env[n] != h)))
            c.append(Cand('non-null', '', lambda s, n=n: s.env[n] != NULL))
            if any(v0.eq(x) for x in [NULL]):
                pass
            for f in ('left', 'right', 'parent'):
                for q in L.ptrs:
                    c.append(Cand(f + ' of', '', lambda s, n=n, q=q, f=f: s.env[n] == s.maps[f].read(s.env[q])))
            c.append(Cand('subtree nested', '', lambda s, n=n, v0=v0: z3.And(T.lo(v0) <= T.lo(s.env[n]), T.hi(s.env[n]) <= T.hi(v0))))
            c.append(Cand('same lo', '', lambda s, n=n, v0=v0: T.lo(s.env[n]) == T.lo(v0)))
            c.append(Cand('same hi', '', lambda s, n=n, v0=v0: T.hi(s.env[n]) == T.hi(v0)))
            for a in nodes:
                c.append(Cand('lo=pos param', '', lambda s, n=n, a=a: T.lo(s.env[n]) == T.pos(a)))
                c.append(Cand('hi=pos param', '', lambda s, n=n, a=a: T.hi(s.env[n]) == T.pos(a)))
                c.append(Cand('hi=pos param, or header above the last', '', lambda s, n=n, a=a: z3.If(s.env[n] == T.own(a), T.pos(a) == T.pos(T.own(a)) - 1, T.hi(s.env[n]) == T.pos(a))))
                c.append(Cand('lo=pos param, or header above the first', '', lambda s, n=n, a=a: z3.If(s.env[n] == T.own(a), T.pos(a) == 0, T.lo(s.env[n]) == T.pos(a))))
                c.append(Cand('contains param', '', lambda s, n=n, a=a: z3.Or(s.env[n] == T.own(a), z3.And(T.lo(s.env[n]) <= T.pos(a), T.pos(a) <= T.hi(s.env[n])))))
            for q in L.ptrs:
                if q != n:
                    c.append(Cand('parent of', '', lambda s, n=n, q=q: s.maps['parent'].read(s.env[n]) == s.env[q]))
                    c.append(Cand('y follows x', '', lambda s, n=n, q=q: nn(s, n, T.pos(s.env[q]) == T.hi(s.env[n]) + 1)))
                    c.append(Cand('y precedes x', '', lambda s, n=n, q=q: nn(s, n, z3.If(T.lo(s.env[n]) == 0, s.env[q] == NULL, z3.And(s.env[q] != NULL, T.pos(s.env[q]) == T.lo(s.env[n]) - 1)))))
                    for h in self.hdrs:
                        c.append(Cand('at the header: other is last', '', lambda s, n=n, q=q, h=h: z3.Implies(s.env[n] == h, s.maps['right'].read(h) == s.env[q])))
                        c.append(Cand('at the header: other is first', '', lambda s, n=n, q=q, h=h: z3.Implies(s.env[n] == h, s.maps['left'].read(h) == s.env[q])))
                    c.append(Cand('y is parent of x', '', lambda s, n=n, q=q: nn(s, n, s.maps['parent'].read(s.env[n]) == s.env[q])))
                    for ct in cuts:
                        c.append(Cand('y at cut when x null', '', lambda s, n=n, q=q, ct=ct: z3.Or(s.env[n] != NULL, T.pos(s.env[q]) == ct)))
                        c.append(Cand('prev before cut when x null', '', lambda s, n=n, q=q, ct=ct: z3.Or(s.env[n] != NULL, z3.If(ct == 0, s.env[q] == NULL, z3.And(s.env[q] != NULL, T.pos(s.env[q]) == ct - 1)))))
                        # leaf reached: link point
                        for h in self.hdrs[:1]:
                            c.append(Cand('link point', '', lambda s, n=n, q=q, ct=ct, h=h: z3.Or(s.env[n] != NULL, self.linkpoint(T, s.maps, h, s.env[q], ct))))
                            for b in L.bools:
                                c.append(Cand('link side', '', lambda s, n=n, q=q, ct=ct, h=h, b=b: z3.Or(s.env[n] != NULL, s.env[q] == h, s.env[b] == (T.pos(s.env[q]) == ct))))
                            for b in L.ints:
                                c.append(Cand('link side', '', lambda s, n=n, q=q, ct=ct, h=h, b=b: z3.Or(s.env[n] != NULL, s.env[q] == h, (s.env[b] % 2 == 1) == (T.pos(s.env[q]) == ct))))
            for b in L.bools:
                for h in self.hdrs[:1]:
                    c.append(Cand('flag at header', '', lambda s, n=n, h=h, b=b: z3.Implies(s.env[n] == h, s.env[b])))
            for b in L.ints:
                for h in self.hdrs[:1]:
                    c.append(Cand('flag at header', '', lambda s, n=n, h=h, b=b: z3.Implies(s.env[n] == h, s.env[b] % 2 == 1)))
            for ct in cuts:
                c.append(Cand('cut in range of x', '', lambda s, n=n, ct=ct: nn(s, n, z3.And(T.lo(s.env[n]) <= ct, ct <= T.hi(s.env[n]) + 1))))
            if self.key_cuts and nodes:
                c.append(Cand('null or root chain', '', lambda s, n=n: nn(s, n, T.lo(s.env[n]) >= 0)))
            for i in L.ints:
                i0 = st.env[i]
                c.append(Cand('count tracks position', '', lambda s, n=n, i=i, v0=v0, i0=i0: s.env[i] - i0 == T.pos(s.env[n]) - T.pos(v0)))
            for a in nodes:
                c.append(Cand('pos <= param', '', lambda s, n=n, a=a: T.pos(s.env[n]) <= T.pos(a)))
            for ct in cuts:
                c.append(Cand('pos <= cut', '', lambda s, n=n, ct=ct: T.pos(s.env[n]) <= ct))
        return c + self.more_inv(E, L, st)
    def iscut(self, cuts):
        return True
    def linkpoint(self, T, mp, h, y, ct):
        """a new leaf hung at y (left if pos(y)==ct else right) lands at position ct"""
        return z3.And(T.own(y) == h, z3.If(y == h, T.pos(h) == 0, z3.Or(z3.And(T.pos(y) == ct, mp['left'].read(y) == NULL), z3.And(T.pos(y) + 1 == ct, mp['right'].read(y) == NULL))))
    def more_inv(self, E, L, st):
        return []
    def maybe_install(self, E, L, st):
        pass
    def variants(self, E, L, st):
        T = st.g['T']
        vs = []
        for n in L.ptrs:
            sz_ = lambda s, n=n: z3.If(s.env[n] == NULL, 0, 1 + T.hi(s.env[n]) - T.lo(s.env[n]))
            vs.append(Variant('subtree size shrinks', sz_))
            for h in self.hdrs:
                vs.append(Variant('subtree size grows', lambda s, n=n, h=h: z3.If(s.env[n] == h, 0, T.pos(h) - (T.hi(s.env[n]) - T.lo(s.env[n])))))
                vs.append(Variant('position grows', lambda s, n=n, h=h: T.pos(h) - T.pos(s.env[n])))
        return vs
    # ---- posts
    def unchanged(self, st):
        for f in self.m0:
            if st.maps[f] is self.m0[f] or (st.maps[f].base is self.m0[f].base and not st.maps[f].writes):
                yield ('%s of every node unchanged' % f, TRUE)
            else:
                yield ('%s of every node unchanged' % f, Q('frame', 'P', lambda x, f=f: st.maps[f].read(x) == self.m0[f].read(x)))
    def exc_post(self, E, st):
        for l, g in self.unchanged(st):
            yield (l, g)
    def becomes(self, E, st, T2, relax=None, hdrs=None):
        mp = st.maps
        for j, (l, _) in enumerate(self.wf(T2, mp, fresh('dummy', P))):
            yield ('resulting tree: ' + l, Q('post-wf', 'P', lambda x, j=j: self.wf(T2, mp, x)[j][1]))
        yield ('documented sequence is well formed (positions)', Q('post-seq', 'P', lambda x: seq_w(T2, x)))
        yield ('documented sequence is well formed (every position filled)', Q('post-at', 'PI', lambda h, i: seq_a(T2, h, i)))
        yield from self.frame(st)
    def frame(self, st):
        for f in self.m0:
            yield ('frame: %s of nodes of other trees unchanged' % f, Q('frame', 'P', lambda x, f=f: z3.Implies(z3.Not(self.involved(x)), st.maps[f].read(x) == self.m0[f].read(x))))
        # headers named but no structural difference are covered by wf

def ins_T(T, h, k, a, pp):
    """a becomes a leaf at index k of tree h; its parent pp had index pos(pp) (in {k, k-1}), or pp==h for the empty tree"""
    q = T.pos(pp)
    shift = lambda x: z3.And(T.own(x) == h, T.pos(x) >= k)
    pos = lambda x: z3.If(x == a, k, z3.If(shift(x), T.pos(x) + 1, T.pos(x)))
    own = lambda x: z3.If(x == a, h, T.own(x))
    at = lambda g, i: z3.If(g == h, z3.If(i < k, T.at(h, i), z3.If(i == k, a, T.at(h, i - 1))), T.at(g, i))
    lo = lambda x: z3.If(x == a, k, z3.If(z3.And(T.own(x) == h, T.lo(x) > q), T.lo(x) + 1, T.lo(x)))
    hi = lambda x: z3.If(x == a, k, z3.If(z3.And(T.own(x) == h, T.hi(x) >= q), T.hi(x) + 1, T.hi(x)))
    return T.upd(own=own, pos=pos, at=at, lo=lo, hi=hi)

def del_T(T, h, z):
    """z removed, its in-order successor taking its place when z has two children"""
    k = T.pos(z)
    two = z3.And(T.lo(z) < k, T.hi(z) > k)
    y = T.at(h, k + 1)
    own = lambda x: z3.If(x == z, NONE, T.own(x))
    inn = lambda x: T.own(x) == h
    pos = lambda x: z3.If(z3.And(inn(x), T.pos(x) > k), T.pos(x) - 1, T.pos(x))
    at = lambda g, i: z3.If(z3.And(g == h, i >= k), T.at(h, i + 1), T.at(g, i))
    def lo(x):
        return z3.If(z3.And(two, x == y), T.lo(z), z3.If(z3.And(inn(x), z3.If(two, T.lo(x) > k + 1, T.lo(x) > k)), T.lo(x) - 1, T.lo(x)))
    def lo2(x):
        # left spine of z's right subtree starts at k+1: after y leaves it starts at (k+2)-1
        return z3.If(z3.And(two, x == y), T.lo(z), z3.If(z3.And(inn(x), T.lo(x) > k), z3.If(z3.And(two, T.lo(x) == k + 1), T.lo(x), T.lo(x) - 1), T.lo(x)))
    def hi(x):
        return z3.If(z3.And(two, x == y), T.hi(z) - 1, z3.If(z3.And(inn(x), T.hi(x) >= k), T.hi(x) - 1, T.hi(x)))
    return T.upd(own=own, pos=pos, at=at, lo=lo2, hi=hi)

# ------------------------------------------------------------------ pure functions
class Pure(TreeSpec):
    def post(self, E, st, ret):
        yield from self.result(E, st, ret)
        yield from self.unchanged(st)

class Minimum(Pure):
    name = 'minimum'; fn = 'v_minimum'; open = ('bstree_algorithms_base::minimum',)
    def pre(self, E, st):
        self.setup(E, st)
        return [self.any_member(E, st, 'n')]
    def result(self, E, st, r):
        n, = E.args
        yield from min_post(self.T, self.m0, n, r)
class Maximum(Minimum):
    name = 'maximum'; fn = 'v_maximum'; open = ('bstree_algorithms_base::maximum',)
    def result(self, E, st, r):
        n, = E.args
        yield from min_post(self.T, self.m0, n, r, True)
class NextNode(Pure):
    name = 'next_node'; fn = 'v_next_node'; open = ('bstree_algorithms_base::next_node',)
    def pre(self, E, st):
        self.setup(E, st)
        return [self.any_member(E, st, 'n')]
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('result is the in-order successor (header after the last)', r == T.at(T.own(n), T.pos(n) + 1))
class PrevNode(Pure):
    name = 'prev_node'; fn = 'v_prev_node'; open = ('bstree_algorithms_base::prev_node',)
    def pre(self, E, st):
        self.setup(E, st)
        n = self.any_member(E, st, 'n', end=True)
        st.assume(self.T.pos(n) > 0)
        return [n]
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('result is the in-order predecessor', r == T.at(T.own(n), T.pos(n) - 1))
class GetHeader(Pure):
    name = 'get_header'; fn = 'v_get_header'; open = ('bstree_algorithms_base::get_header',)
    def pre(self, E, st):
        self.setup(E, st)
        return [self.any_member(E, st, 'n', end=True)]
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('result is the header of the tree', r == T.own(n))
class IsHeader(Pure):
    name = 'is_header'; fn = 'v_is_header'; open = ('bstree_algorithms_base::is_header',)
    def pre(self, E, st):
        self.setup(E, st)
        return [self.any_member(E, st, 'n', end=True)]
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('true exactly for headers', r == (n == T.own(n)))
class BeginNode(Pure):
    name = 'begin_node'; fn = 'v_begin_node'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.hdr(E, st, 'h')]
    def result(self, E, st, r):
        h, = E.args; T = self.T
        yield ('result is the first element or the header', r == T.at(h, 0))
class EndNode(BeginNode):
    name = 'end_node'; fn = 'v_end_node'
    def result(self, E, st, r):
        h, = E.args
        yield ('result is the header', r == h)
class RootNode(BeginNode):
    name = 'root_node'; fn = 'v_root_node'
    def result(self, E, st, r):
        h, = E.args; T = self.T
        yield ('header if empty, else the element whose subtree is everything', z3.If(T.pos(h) == 0, r == h, z3.And(T.own(r) == h, r != h, T.lo(r) == 0, T.hi(r) == T.pos(h) - 1)))
class Size(BeginNode):
    name = 'size'; fn = 'v_size'
    def result(self, E, st, r):
        h, = E.args
        yield ('result is the number of elements', r == self.T.pos(h))
class UniqueN(Pure):
    name = 'unique'; fn = 'v_unique'
    def pre(self, E, st):
        self.setup(E, st)
        n = fresh('n', P)
        st.assume(n != NULL)
        self.named.append(n)
        return [n]
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('header: true iff empty', z3.Implies(z3.And(T.own(n) == n, n != NONE), r == (T.pos(n) == 0)))
        yield ('element: false', z3.Implies(z3.And(T.own(n) != NONE, T.own(n) != n), z3.Not(r)))
        yield ('reset node: true', z3.Implies(self.m0['parent'].read(n) == NULL, r))
class Inited(UniqueN):
    name = 'inited'; fn = 'v_inited'
    def result(self, E, st, r):
        n, = E.args; T = self.T
        yield ('true iff every link is null', r == z3.And(*[self.m0[f].read(n) == NULL for f in ('parent', 'left', 'right')]))
        yield ('false for members', z3.Implies(T.own(n) != NONE, z3.Not(r)))
class InitN(TreeSpec):
    name = 'init'; fn = 'v_init'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.loose(E, st, 'n')]
    def post(self, E, st, r):
        n, = E.args
        yield ('links reset', z3.And(*[st.maps[f].read(n) == NULL for f in ('parent', 'left', 'right')]))
        yield from self.becomes(E, st, self.T)
class InitHeader(InitN):
    name = 'init_header'; fn = 'v_init_header'
    def post(self, E, st, r):
        n, = E.args; T = self.T
        st.assume(n != NONE)
        T2 = T.upd(own=lambda x: z3.If(x == n, n, T.own(x)), pos=lambda x: z3.If(x == n, 0, T.pos(x)), at=lambda h, i: z3.If(h == n, n, T.at(h, i)))
        yield from self.becomes(E, st, T2)

# ------------------------------------------------------------------ lookups
class Lookup(Pure):
    def pre(self, E, st):
        self.setup(E, st)
        h = self.hdr(E, st, 'h')
        k = self.key(E, st, 'k', h)
        self.h, self.k = h, k
        self.lo, self.hi = self.cut(k)
        return [h, k]
class LowerBound(Lookup):
    name = 'lower_bound'; fn = 'v_lower_bound'
    def result(self, E, st, r):
        yield ('first element not less than the key, or end', r == self.T.at(self.h, self.lo))
class UpperBound(Lookup):
    name = 'upper_bound'; fn = 'v_upper_bound'
    def result(self, E, st, r):
        yield ('first element greater than the key, or end', r == self.T.at(self.h, self.hi))
class Find(Lookup):
    name = 'find'; fn = 'v_find'
    def result(self, E, st, r):
        yield ('first equivalent element, or end when there is none', r == z3.If(self.lo < self.hi, self.T.at(self.h, self.lo), self.h))
class CountK(Lookup):
    name = 'count(key)'; fn = 'v_count'
    def result(self, E, st, r):
        yield ('number of equivalent elements', r == self.hi - self.lo)
class RangeSpec(Lookup):
    def pre(self, E, st):
        a = super().pre(E, st)
        self.oa, self.ob = fresh('outa', P), fresh('outb', P)
        st.assume([self.oa != self.ob, self.oa != NULL, self.ob != NULL])
        self.outs = [self.oa, self.ob]
        return a + self.outs
    def out(self, st, i, name='mem.0.ptr'):
        return st.maps[name].read(self.outs[i])
class EqualRange(RangeSpec):
    name = 'equal_range'; fn = 'v_equal_range'
    def result(self, E, st, r):
        T = self.T
        yield ('first of the range', self.out(st, 0) == T.at(self.h, self.lo))
        yield ('end of the range', self.out(st, 1) == T.at(self.h, self.hi))
class LowerBoundRange(RangeSpec):
    name = 'lower_bound_range'; fn = 'v_lower_bound_range'
    def result(self, E, st, r):
        T = self.T
        yield ('first of the range', self.out(st, 0) == T.at(self.h, self.lo))
        yield ('end of the range (unique keys)', self.out(st, 1) == T.at(self.h, z3.If(self.lo < self.hi, self.lo + 1, self.lo)))
class BoundedRange(RangeSpec):
    name = 'bounded_range'; fn = 'v_bounded_range'
    def pre(self, E, st):
        a = super().pre(E, st)
        k2 = self.key(E, st, 'k2', self.h)
        self.lo2, self.hi2 = self.cut(k2)
        # documented precondition: upper_key not less than lower_key; if equivalent, one side must be closed
        st.assume([self.lo <= self.lo2, self.hi <= self.hi2])
        # equivalent keys see the same cuts; otherwise lower key's equal range ends before the upper key's begins
        eqv = fresh('eqv', B)
        st.assume(z3.If(eqv, z3.And(self.lo == self.lo2, self.hi == self.hi2), self.hi <= self.lo2))
        lc, rc = fresh('lc', B), fresh('rc', B)
        st.assume(z3.Implies(eqv, z3.Or(lc, rc)))
        self.lc, self.rc = lc, rc
        return [a[0], a[1], k2, lc, rc, a[2], a[3]]
    def result(self, E, st, r):
        T = self.T
        first = z3.If(self.lc, self.lo, self.hi)
        last = z3.If(self.rc, self.hi2, self.lo2)
        yield ('first of the range', self.out(st, 0) == T.at(self.h, first))
        yield ('end of the range', self.out(st, 1) == T.at(self.h, last))
class UniqueCheck(RangeSpec):
    name = 'insert_unique_check'; fn = 'v_insert_unique_check'
    hint = False
    def pre(self, E, st):
        self.setup(E, st)
        if self.hint:
            m0, T = self.m0, self.T
            st.assume(Q('adjacency lemma', 'P', lambda x: adj_lemma(T, m0, x), lvl=1))
        h = self.h = self.hdr(E, st, 'h')
        k = self.k = self.key(E, st, 'k', h)
        self.lo, self.hi = self.cut(k)
        st.assume(self.hi <= self.lo + 1)      # precondition: the tree has unique keys
        self.outs = [fresh('o', P) for _ in range(4)]
        st.assume([z3.Distinct(*self.outs)] + [o != NULL for o in self.outs])
        if self.hint:
            g = self.node_of(E, st, 'hint', h, end=True)
            return [h, g, k] + self.outs
        return [h, k] + self.outs
    def result(self, E, st, r):
        T = self.T
        flag = [n for n in st.maps if n.startswith('mem.0.int')][0]
        tr = lambda v: v % 2 == 1 if v.sort() == I else v
        ins = tr(st.maps[flag].read(self.outs[1]))
        yield ('insertable exactly when no equivalent element exists', ins == (self.lo == self.hi))
        yield ('the equivalent element is returned otherwise', z3.Implies(z3.Not(ins), self.out(st, 0) == T.at(self.h, self.lo)))
        left = tr(st.maps[flag].read(self.outs[2]))
        node = self.out(st, 3)
        yield ('commit data designates the ordered position', z3.Implies(ins, self.commit_ok(self.m0, left, node)))
    def commit_ok(self, mp, left, node):
        T, h = self.T, self.h
        return z3.And(T.own(node) == h, z3.If(node == h, T.pos(h) == 0, z3.If(left, z3.And(T.pos(node) == self.lo, mp['left'].read(node) == NULL), z3.And(T.pos(node) + 1 == self.lo, mp['right'].read(node) == NULL))))
class UniqueCheckHint(UniqueCheck):
    name = 'insert_unique_check(hint)'; fn = 'v_insert_unique_check_hint'
    hint = True

# ------------------------------------------------------------------ insertion
def adj_lemma(T, mp, x):
    """between in-order neighbours x,y exactly one of right(x), left(y) is free"""
    h = T.own(x)
    y = T.at(h, T.pos(x) + 1)
    return z3.Implies(z3.And(h != NONE, x != h, T.pos(x) + 1 < T.pos(h)), (mp['right'].read(x) == NULL) == (mp['left'].read(y) != NULL))
class Insert(TreeSpec):
    def setup(self, E, st):
        super().setup(E, st)
        m0, T = self.m0, self.T
        st.assume(Q('adjacency lemma', 'P', lambda x: adj_lemma(T, m0, x), lvl=1))
        st.assume(Q('room for one more', 'P', lambda x: z3.Implies(T.own(x) == x, T.pos(x) < (1 << 60) - 2), lvl=1))
    """a new node becomes the element at index k (a leaf below its in-order neighbour)"""
    reset = False
    def install_T(self, st):
        return self.result_T(self.E0, st)
    def leafparent(self, E, st, k):
        T, h = self.T, self.h
        # the in-order neighbour that has room: predecessor without right child or successor without left child
        suc, prd = T.at(h, k), T.at(h, k - 1)
        return suc, prd
    def result_T(self, E, st):
        T, h, a = self.T, self.h, self.a
        k = self.index(E)
        suc, prd = T.at(h, k), T.at(h, k - 1)
        # below the successor if it has no left child, else below the predecessor (which then has no right child)
        pp = z3.If(T.pos(h) == 0, h, z3.If(k == T.pos(h), prd, z3.If(self.m0['left'].read(suc) == NULL, suc, prd)))
        return ins_T(T, h, k, a, pp)
    def index(self, E):
        raise NotImplementedError
    def post(self, E, st, ret):
        yield from self.becomes(E, st, self.final_T(E, st))
        if ret is not None:
            yield ('returns the new node', ret == self.a)
    def final_T(self, E, st):
        return self.result_T(E, st)

class InsertBoth:
    """for a bst without rebalancing: the leaf may be attached below either neighbour (both have room only in different situations)"""

class InsertCommit(Insert):
    name = 'insert_unique_commit'; fn = 'v_insert_unique_commit'
    def pre(self, E, st):
        self.setup(E, st)
        T = self.T
        h = self.h = self.hdr(E, st, 'h')
        a = self.a = self.loose(E, st, 'a')
        node = fresh('cnode', P)
        left = fresh('cleft', B)
        self.k = fresh('k', I)
        st.assume([T.own(node) == h, node != NULL])
        st.assume(z3.If(node == h, z3.And(T.pos(h) == 0, self.k == 0), z3.If(left, z3.And(self.m0['left'].read(node) == NULL, self.k == T.pos(node)), z3.And(self.m0['right'].read(node) == NULL, self.k == T.pos(node) + 1))))
        self.node = node
        return [h, a, left, node]
    def index(self, E):
        return self.k
    def post(self, E, st, ret):
        yield from self.becomes(E, st, self.final_T(E, st))
class InsertKeyed(Insert):
    def pre(self, E, st):
        self.setup(E, st)
        h = self.h = self.hdr(E, st, 'h')
        a = self.a = self.loose(E, st, 'a')
        self.key(E, st, 'a', h, a)
        self.lo, self.hi = self.cut(a)
        return self.mkargs(E, st, h, a)
    def mkargs(self, E, st, h, a):
        return [h, a]
class InsertUB(InsertKeyed):
    name = 'insert_equal_upper_bound'; fn = 'v_insert_equal_upper_bound'
    def index(self, E):
        return self.hi
class InsertLB(InsertKeyed):
    name = 'insert_equal_lower_bound'; fn = 'v_insert_equal_lower_bound'
    def index(self, E):
        return self.lo
class InsertHint(InsertKeyed):
    name = 'insert_equal(hint)'; fn = 'v_insert_equal'
    def mkargs(self, E, st, h, a):
        g = self.g = self.node_of(E, st, 'hint', h, end=True)
        return [h, g, a]
    def index(self, E):
        T = self.T
        g = T.pos(self.g)
        # as close as possible before the hint: clamp to the range of equivalent positions
        return z3.If(g < self.lo, self.lo, z3.If(g > self.hi, self.hi, g))
class InsertBefore(Insert):
    name = 'insert_before'; fn = 'v_insert_before'
    def pre(self, E, st):
        self.setup(E, st)
        h = self.h = self.hdr(E, st, 'h')
        g = self.g = self.node_of(E, st, 'pos', h, end=True)
        a = self.a = self.loose(E, st, 'a')
        return [h, g, a]
    def index(self, E):
        return self.T.pos(self.g)
class PushBack(Insert):
    name = 'push_back'; fn = 'v_push_back'
    def pre(self, E, st):
        self.setup(E, st)
        h = self.h = self.hdr(E, st, 'h')
        a = self.a = self.loose(E, st, 'a')
        return [h, a]
    def index(self, E):
        return self.T.pos(self.h)
class PushFront(PushBack):
    name = 'push_front'; fn = 'v_push_front'
    def index(self, E):
        return z3.IntVal(0)

# ------------------------------------------------------------------ removal
class Erase(TreeSpec):
    name = 'erase'; fn = 'v_erase'
    def pre(self, E, st):
        self.setup(E, st)
        h = self.h = self.hdr(E, st, 'h')
        z = self.z = self.node_of(E, st, 'z', h)
        return [h, z]
    def result_T(self, E, st):
        return del_T(self.T, self.h, self.z)
    def post(self, E, st, ret):
        yield from self.becomes(E, st, self.result_T(E, st))
class Unlink(Erase):
    name = 'unlink'; fn = 'v_unlink'
    def pre(self, E, st):
        self.setup(E, st)
        z = self.z = fresh('z', P)
        T = self.T
        st.assume([z != NULL, z3.If(T.own(z) == NONE, self.m0['parent'].read(z) == NULL, z != T.own(z))])
        self.h = T.own(z)
        self.named.append(z)
        self.hdrs.append(self.h)
        return [z]
    def involved(self, x):
        return z3.Or(x == self.z, z3.And(self.T.own(x) != NONE, self.T.own(x) == self.T.own(self.z)))
    def result_T(self, E, st):
        T = self.T
        D = del_T(T, self.h, self.z)
        m = self.h != NONE
        return T.upd(own=lambda x: z3.If(m, D.own(x), T.own(x)), pos=lambda x: z3.If(m, D.pos(x), T.pos(x)), at=lambda g, i: z3.If(m, D.at(g, i), T.at(g, i)), lo=lambda x: z3.If(m, D.lo(x), T.lo(x)), hi=lambda x: z3.If(m, D.hi(x), T.hi(x)))
class UnlinkLeftmost(TreeSpec):
    name = 'unlink_leftmost_without_rebalance'; fn = 'v_unlink_leftmost'
    def pre(self, E, st):
        self.setup(E, st)
        h = self.h = self.hdr(E, st, 'h')
        return [h]
    def post(self, E, st, ret):
        T, h = self.T, self.h
        yield ('returns the first element, or null when empty', z3.If(T.pos(h) == 0, ret == NULL, ret == T.at(h, 0)))
        ne = T.pos(h) > 0
        z = T.at(h, 0)
        D = del_T(T, h, z)
        T2 = T.upd(own=lambda x: z3.If(ne, D.own(x), T.own(x)), pos=lambda x: z3.If(ne, D.pos(x), T.pos(x)), at=lambda g, i: z3.If(ne, D.at(g, i), T.at(g, i)), lo=lambda x: z3.If(ne, D.lo(x), T.lo(x)), hi=lambda x: z3.If(ne, D.hi(x), T.hi(x)))
        yield from self.becomes(E, st, T2)

# ------------------------------------------------------------------ swap / replace
def swp_T(T, a, b):
    """positions of elements a and b exchanged (both elements or reset non-members)"""
    sw = lambda x: z3.If(x == a, b, z3.If(x == b, a, x))
    return T.upd(own=lambda x: T.own(sw(x)), pos=lambda x: T.pos(sw(x)), at=lambda h, i: sw(T.at(h, i)), lo=lambda x: T.lo(sw(x)), hi=lambda x: T.hi(sw(x)),
                 bh=(lambda x: T.bh(sw(x))) if T.bh is not None else None, ht=(lambda x: T.ht(sw(x))) if T.ht is not None else None)
class SwapNodes(TreeSpec):
    name = 'swap_nodes'; fn = 'v_swap_nodes'
    timeout = 60000
    merge = True
    def pre(self, E, st):
        self.setup(E, st)
        h1 = self.hdr(E, st, 'h1')
        h2 = self.hdr(E, st, 'h2')
        self.a = self.node_of(E, st, 'a', h1)
        self.b = self.node_of(E, st, 'b', h2)
        return [self.a, h1, self.b, h2]
    def post(self, E, st, ret):
        yield from self.becomes(E, st, swp_T(self.T, self.a, self.b))
class SwapNodes2(SwapNodes):
    name = 'swap_nodes(2 args)'; fn = 'v_swap_nodes2'
    def pre(self, E, st):
        a = super().pre(E, st)
        return [a[0], a[2]]
class ReplaceNode(TreeSpec):
    name = 'replace_node'; fn = 'v_replace_node'
    def pre(self, E, st):
        self.setup(E, st)
        h = self.hdr(E, st, 'h')
        self.a = self.node_of(E, st, 'a', h)
        self.b = self.loose(E, st, 'b')
        return [self.a, h, self.b]
    def post(self, E, st, ret):
        yield from self.becomes(E, st, swp_T(self.T, self.a, self.b))
class ReplaceNode2(ReplaceNode):
    name = 'replace_node(2 args)'; fn = 'v_replace_node2'
    def pre(self, E, st):
        a = super().pre(E, st)
        return [a[0], a[2]]
class SwapTree(TreeSpec):
    name = 'swap_tree'; fn = 'v_swap_tree'
    def pre(self, E, st):
        self.setup(E, st)
        self.h1 = self.hdr(E, st, 'h1')
        self.h2 = self.hdr(E, st, 'h2')
        return [self.h1, self.h2]
    def post(self, E, st, ret):
        T, a, b = self.T, self.h1, self.h2
        sw = lambda x: z3.If(x == a, b, z3.If(x == b, a, x))
        own = lambda x: z3.If(z3.Or(x == a, x == b), x, sw(T.own(x)))
        pos = lambda x: T.pos(sw(x)) 
        pos = lambda x: z3.If(x == a, T.pos(b), z3.If(x == b, T.pos(a), T.pos(x)))
        at = lambda h, i: sw(T.at(sw(h), i))
        T2 = T.upd(own=own, pos=pos, at=at)
        yield from self.becomes(E, st, T2)

BASE = [Minimum, Maximum, NextNode, PrevNode, GetHeader, IsHeader, BeginNode, EndNode, RootNode, Size, UniqueN, Inited, InitN, InitHeader]
LOOKUP = [LowerBound, UpperBound, Find, CountK, EqualRange, LowerBoundRange, BoundedRange, UniqueCheck, UniqueCheckHint]
INSERT = [InsertCommit, InsertUB, InsertLB, InsertHint, InsertBefore, PushBack, PushFront]
REMOVE = [Erase, Unlink, UnlinkLeftmost]
SWAP = [SwapNodes, SwapNodes2, ReplaceNode, ReplaceNode2, SwapTree]
UNITS = BASE + LOOKUP + INSERT + REMOVE + SWAP
