"""Contracts of circular_list_algorithms over the ring theory."""
from spec import *

class Ring:
    """abstract value of all rings: own(x) ring id, pos(x) index, len(r), at(r,i)"""
    def __init__(self, own, pos, ln, at):
        self.own, self.pos, self.len, self.at = own, pos, ln, at
    @staticmethod
    def new(tag=''):
        return Ring(z3.Function('own' + tag, P, P), z3.Function('pos' + tag, P, I), z3.Function('len' + tag, P, I), z3.Function('at' + tag, P, I, P))
    def member(self, x):
        return self.own(x) != NONE
    def w(self, x):
        r, p = self.own(x), self.pos(x)
        return z3.Implies(r != NONE, z3.And(x != NULL, p >= 0, p < self.len(r), self.at(r, p) == x, self.len(r) < (1 << 60)))
    def a(self, r, i):
        y = self.at(r, i)
        return z3.Implies(z3.And(r != NONE, i >= 0, i < self.len(r)), z3.And(self.own(y) == r, self.pos(y) == i))
    def nxt(self, x):
        r, p = self.own(x), self.pos(x)
        return self.at(r, z3.If(p + 1 == self.len(r), 0, p + 1))
    def prv(self, x):
        r, p = self.own(x), self.pos(x)
        return self.at(r, z3.If(p == 0, self.len(r) - 1, p - 1))
    def links(self, x, mp, circular=True):
        c = [mp['next'].read(x) == self.nxt(x)]
        if 'previous' in mp:
            c.append(mp['previous'].read(x) == self.prv(x))
        return z3.Implies(self.own(x) != NONE, z3.And(*c))

class CL(Spec):
    tu = 'clist.cpp'
    fields = {'next': 'P', 'previous': 'P'}
    rings = 1          # rings involved, r0.. ; named nodes in self.named
    def setup(self, E, st):
        R = self.R = Ring.new()
        m0 = self.m0 = dict(st.maps)
        st.assume(Q('ring', 'P', lambda x: R.w(x), lvl=None))
        st.assume(Q('ring-at', '', R.a, trig='at'))
        st.assume(Q('ring-links', 'P', lambda x: R.links(x, m0), lvl=1))
        st.assume([R.own(NULL) == NONE, NONE != NULL])
        self.named = []
        self.inv = []
        return R
    def node(self, E, st, n):
        x = fresh(n, P)
        st.assume(x != NULL)
        return x
    def member(self, E, st, n, ring=None, pos=None):
        x = self.node(E, st, n)
        st.assume(self.R.own(x) != NONE)
        if ring is not None:
            st.assume(self.R.own(x) == ring)
        if pos is not None:
            st.assume(self.R.pos(x) == pos)
        return x
    def loose(self, E, st, n):
        x = self.node(E, st, n)
        st.assume(self.R.own(x) == NONE)
        self.named.append(x)
        return x
    def involved(self, x):
        """x belongs to a ring the operation may touch"""
        return z3.Or(*([self.R.own(x) == r for r in self.inv] + [x == n for n in self.named] + [FALSE]))
    def acc(self, E, st, a):
        return z3.And(a != NULL, self.involved(a))
    # post helpers
    def unchanged(self, st):
        for f in self.m0:
            yield ('%s of every node unchanged' % f, Q('frame', 'P', lambda x, f=f: st.maps[f].read(x) == self.m0[f].read(x)))
    def becomes(self, st, R2, exempt=()):
        """final heap realises ring state R2; nodes not involved untouched"""
        mp = st.maps
        ex = lambda x: z3.Or(*([x == e for e in exempt] + [FALSE]))
        yield ('forward order is the documented sequence', Q('post-next', 'P', lambda x: z3.Implies(R2.own(x) != NONE, mp['next'].read(x) == R2.nxt(x))))
        if 'previous' in mp:
            yield ('backward order mirrors forward order', Q('post-prev', 'P', lambda x: z3.Implies(R2.own(x) != NONE, mp['previous'].read(x) == R2.prv(x))))
        yield ('documented sequence is well formed (positions)', Q('post-w', 'P', lambda x: z3.Implies(R2.own(x) != NONE, z3.And(R2.pos(x) >= 0, R2.pos(x) < R2.len(R2.own(x)), R2.at(R2.own(x), R2.pos(x)) == x))))
        yield ('documented sequence is well formed (every position filled)', Q('post-a', 'PI', lambda r, i: R2.a(r, i)))
        for f in self.m0:
            yield ('frame: %s of other nodes unchanged' % f, Q('frame', 'P', lambda x, f=f: z3.Implies(z3.Not(self.involved(x)), mp[f].read(x) == self.m0[f].read(x))))
    # generic traversal invariants
    def invariants(self, E, L, st):
        R = self.R
        c = []
        def v(n):
            return lambda s: s.env[n]
        unchanged = [f for f in self.m0 if f in L.mods]
        for n in L.ptrs:
            p0 = st.env[n]
            for k, r in enumerate(self.inv):
                c.append(Cand('%s in ring%d' % ('p', k), '', lambda s, n=n, r=r: R.own(s.env[n]) == r))
            for i in L.ints:
                i0 = st.env[i]
                for sg in (1, -1):
                    c.append(Cand('count tracks position%+d' % sg, '', lambda s, n=n, i=i, p0=p0, i0=i0, sg=sg: s.env[i] - i0 == sg * (R.pos(s.env[n]) - R.pos(p0))))
            for p, q in [(n, q) for q in L.ptrs if q != n]:
                c.append(Cand('successor pair', '', lambda s, p=p, q=q: s.env[p] == R.nxt(s.env[q])))
            c.append(Cand('pos >= entry', '', lambda s, n=n, p0=p0: R.pos(s.env[n]) >= R.pos(p0)))
            c.append(Cand('pos <= entry', '', lambda s, n=n, p0=p0: R.pos(s.env[n]) <= R.pos(p0)))
            for a in E.args:
                if z3.is_expr(a) and a.sort() == P:
                    c.append(Cand('pos <= param', '', lambda s, n=n, a=a: R.pos(s.env[n]) <= R.pos(a)))
        for i in L.ints:
            c.append(Cand('i<=entry', '', lambda s, i=i, i0=st.env[i]: s.env[i] <= i0))
            c.append(Cand('i>=entry', '', lambda s, i=i, i0=st.env[i]: s.env[i] >= i0))
        return c + self.more_inv(E, L, st)
    def more_inv(self, E, L, st):
        return []
    def variants(self, E, L, st):
        R = self.R
        vs = []
        for n in L.ptrs:
            vs.append(Variant('remaining positions', lambda s, n=n: R.len(R.own(s.env[n])) - R.pos(s.env[n])))
            vs.append(Variant('remaining positions mod', lambda s, n=n: z3.If(R.pos(s.env[n]) == 0, 0, R.len(R.own(s.env[n])) - R.pos(s.env[n]))))
            vs.append(Variant('position', lambda s, n=n: R.pos(s.env[n])))
        for i in L.ints:
            vs.append(Variant('counter down', lambda s, i=i: s.env[i]))
        return vs

class Init(CL):
    name = 'circular_list_algorithms::init'; fn = 'v_init'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.loose(E, st, 'a')
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        yield ('links reset', z3.And(st.maps['next'].read(a) == NULL, st.maps['previous'].read(a) == NULL))
        yield from self.becomes(st, self.R)

class InitHeader(CL):
    name = 'circular_list_algorithms::init_header'; fn = 'v_init_header'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.loose(E, st, 'a')]
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        # fresh ring id: a itself
        rid = fresh('rid', P)
        ex = Q('fresh', 'P', lambda x: z3.And(R.own(x) != rid))
        R2 = Ring(lambda x: z3.If(x == a, rid, R.own(x)), lambda x: z3.If(x == a, 0, R.pos(x)), lambda r: z3.If(r == rid, 1, R.len(r)), lambda r, i: z3.If(r == rid, a, R.at(r, i)))
        for l, g in self.becomes(st, R2):
            yield (l, g, (ex, Q('ridne', 'P', lambda x: rid != NONE)))

class Inited(CL):
    name = 'circular_list_algorithms::inited'; fn = 'v_inited'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.node(E, st, 'a')
        self.named.append(a)
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        yield ('true iff links are null', ret == (self.m0['next'].read(a) == NULL))
        yield ('false for members', z3.Implies(self.R.own(a) != NONE, z3.Not(ret)))
        yield from self.unchanged(st)

class Unique(CL):
    name = 'circular_list_algorithms::unique'; fn = 'v_unique'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.node(E, st, 'a')
        self.named.append(a)
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        yield ('member: true iff alone in its ring', z3.Implies(R.own(a) != NONE, ret == (R.len(R.own(a)) == 1)))
        yield ('non-member with reset links: true', z3.Implies(self.m0['next'].read(a) == NULL, ret))
        yield from self.unchanged(st)

class IsEmpty(CL):
    name = 'circular_list_algorithms::is_empty'; fn = 'v_is_empty'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.member(E, st, 'a')
        self.inv.append(self.R.own(a))
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        yield ('true iff ring has one node', ret == (self.R.len(self.R.own(a)) == 1))
        yield from self.unchanged(st)

class Count(CL):
    name = 'circular_list_algorithms::count'; fn = 'v_count'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.member(E, st, 'a', pos=0)   # rings carry no distinguished start: coordinates chosen so that a is 0
        self.inv.append(self.R.own(a))
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        yield ('result is the number of nodes of the ring', ret == self.R.len(self.R.own(a)))
        yield from self.unchanged(st)

class Distance(CL):
    name = 'circular_list_algorithms::distance'; fn = 'v_distance'
    def pre(self, E, st):
        self.setup(E, st)
        f = self.member(E, st, 'f', pos=0)
        l = self.member(E, st, 'l', ring=self.R.own(f))
        self.inv.append(self.R.own(f))
        return [f, l]
    def post(self, E, st, ret):
        f, l = E.args
        yield ('result is the forward distance', ret == self.R.pos(l))
        yield from self.unchanged(st)

class Unlink(CL):
    name = 'circular_list_algorithms::unlink(node)'; fn = 'v_unlink'
    def pre(self, E, st):
        self.setup(E, st)
        a = self.member(E, st, 'a')
        self.inv.append(self.R.own(a))
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        r, k = R.own(a), R.pos(a)
        R2 = Ring(lambda x: z3.If(x == a, NONE, R.own(x)),
                  lambda x: z3.If(z3.And(R.own(x) == r, R.pos(x) > k), R.pos(x) - 1, R.pos(x)),
                  lambda q: z3.If(q == r, R.len(q) - 1, R.len(q)),
                  lambda q, i: z3.If(z3.And(q == r, i >= k), R.at(q, i + 1), R.at(q, i)))
        yield from self.becomes(st, R2)
        yield ('returns the old successor', ret == R.nxt(a))

class UnlinkRange(CL):
    name = 'circular_list_algorithms::unlink(range)'; fn = 'v_unlink_range'
    def pre(self, E, st):
        self.setup(E, st)
        b = self.member(E, st, 'b')
        st.assume(self.R.pos(b) == 0)
        e = self.member(E, st, 'e', ring=self.R.own(b))
        self.inv.append(self.R.own(b))
        return [b, e]
    def post(self, E, st, ret):
        b, e = E.args
        R = self.R
        r, j = R.own(b), R.pos(e)
        R2 = Ring(lambda x: z3.If(z3.And(R.own(x) == r, R.pos(x) < j), NONE, R.own(x)),
                  lambda x: z3.If(R.own(x) == r, R.pos(x) - j, R.pos(x)),
                  lambda q: z3.If(q == r, R.len(q) - j, R.len(q)),
                  lambda q, i: z3.If(q == r, R.at(q, i + j), R.at(q, i)))
        yield from self.becomes(st, R2)
        yield ('interior links of the removed range kept', Q('int', 'P', lambda x: z3.Implies(z3.And(R.own(x) == r, R.pos(x) < j), z3.And(z3.Implies(R.pos(x) + 1 < j, st.maps['next'].read(x) == R.nxt(x)), z3.Implies(R.pos(x) > 0, st.maps['previous'].read(x) == R.prv(x))))))

def insert_ring(R, r, k, a):
    """R with a inserted at index k of ring r (0<=k<=len)"""
    return Ring(lambda x: z3.If(x == a, r, R.own(x)),
                lambda x: z3.If(x == a, k, z3.If(z3.And(R.own(x) == r, R.pos(x) >= k), R.pos(x) + 1, R.pos(x))),
                lambda q: z3.If(q == r, R.len(q) + 1, R.len(q)),
                lambda q, i: z3.If(q == r, z3.If(i < k, R.at(q, i), z3.If(i == k, a, R.at(q, i - 1))), R.at(q, i)))

class LinkBefore(CL):
    name = 'circular_list_algorithms::link_before'; fn = 'v_link_before'
    def pre(self, E, st):
        self.setup(E, st)
        p = self.member(E, st, 'p')
        a = self.loose(E, st, 'a')
        self.inv.append(self.R.own(p))
        return [p, a]
    def post(self, E, st, ret):
        p, a = E.args
        yield from self.becomes(st, insert_ring(self.R, self.R.own(p), self.R.pos(p), a))

class LinkAfter(LinkBefore):
    name = 'circular_list_algorithms::link_after'; fn = 'v_link_after'
    def post(self, E, st, ret):
        p, a = E.args
        yield from self.becomes(st, insert_ring(self.R, self.R.own(p), self.R.pos(p) + 1, a))

class TransferRange(CL):
    """transfer [b,e) before p; p in another ring, or in the same ring outside [b,e)"""
    name = 'circular_list_algorithms::transfer(range)'; fn = 'v_transfer_range'
    def pre(self, E, st):
        self.setup(E, st)
        R = self.R
        b = self.member(E, st, 'b', pos=0)
        e = self.member(E, st, 'e', ring=R.own(b))
        p = self.member(E, st, 'p')
        st.assume(z3.Or(R.own(p) != R.own(b), R.pos(p) >= R.pos(e), ))
        self.inv += [R.own(b), R.own(p)]
        return [p, b, e]
    def post(self, E, st, ret):
        p, b, e = E.args
        yield from self.becomes(st, self.result(p, b, e))
    def result(self, p, b, e):
        R = self.R
        r, s = R.own(b), R.own(p)
        j, k = R.pos(e), R.pos(p)
        same = r == s
        mv = lambda x: z3.And(R.own(x) == r, R.pos(x) < j)
        # same ring: new order  [j..k) [0..j) [k..n)   different: r loses [0,j), s gains it at k
        pos = lambda x: z3.If(same,
            z3.If(R.own(x) == r, z3.If(R.pos(x) < j, R.pos(x) + k - j, z3.If(R.pos(x) < k, R.pos(x) - j, R.pos(x))), R.pos(x)),
            z3.If(R.own(x) == r, z3.If(R.pos(x) < j, R.pos(x) + k, R.pos(x) - j), z3.If(R.own(x) == s, z3.If(R.pos(x) >= k, R.pos(x) + j, R.pos(x)), R.pos(x))))
        at = lambda q, i: z3.If(same,
            z3.If(q == r, z3.If(i < k - j, R.at(q, i + j), z3.If(i < k, R.at(q, i - (k - j)), R.at(q, i))), R.at(q, i)),
            z3.If(q == r, R.at(q, i + j), z3.If(q == s, z3.If(i < k, R.at(q, i), z3.If(i < k + j, R.at(r, i - k), R.at(q, i - j))), R.at(q, i))))
        return Ring(lambda x: z3.If(mv(x), s, R.own(x)), pos,
                    lambda q: z3.If(same, R.len(q), z3.If(q == r, R.len(q) - j, z3.If(q == s, R.len(q) + j, R.len(q)))), at)

class TransferOne(TransferRange):
    name = 'circular_list_algorithms::transfer(one)'; fn = 'v_transfer_one'
    def pre(self, E, st):
        self.setup(E, st)
        R = self.R
        i = self.member(E, st, 'i', pos=0)
        p = self.member(E, st, 'p')
        # in a ring of one node only p==i is possible in the same ring; i of another ring must leave at least its header there
        st.assume(z3.Or(R.own(p) == R.own(i), R.len(R.own(i)) >= 2))
        self.inv += [R.own(i), R.own(p)]
        return [p, i]
    def post(self, E, st, ret):
        p, i = E.args
        R = self.R
        # p == i: no-op
        r1 = self.result2(p, i)
        yield from self.becomes(st, r1)
    def result2(self, p, i):
        R = self.R
        base = self.result3(p, i)
        noop = p == i
        return Ring(lambda x: z3.If(noop, R.own(x), base.own(x)), lambda x: z3.If(noop, R.pos(x), base.pos(x)), lambda q: z3.If(noop, R.len(q), base.len(q)), lambda q, k: z3.If(noop, R.at(q, k), base.at(q, k)))
    def result3(self, p, i):
        R = self.R
        class E1: pass
        # range [i, next(i)): j = 1
        save = R.pos
        r, s = R.own(i), R.own(p)
        k = R.pos(p)
        same = r == s
        j = z3.IntVal(1)
        pos = lambda x: z3.If(same,
            z3.If(R.own(x) == r, z3.If(R.pos(x) < j, R.pos(x) + k - j, z3.If(R.pos(x) < k, R.pos(x) - j, R.pos(x))), R.pos(x)),
            z3.If(R.own(x) == r, z3.If(R.pos(x) < j, R.pos(x) + k, R.pos(x) - j), z3.If(R.own(x) == s, z3.If(R.pos(x) >= k, R.pos(x) + j, R.pos(x)), R.pos(x))))
        at = lambda q, n: z3.If(same,
            z3.If(q == r, z3.If(n < k - j, R.at(q, n + j), z3.If(n < k, R.at(q, n - (k - j)), R.at(q, n))), R.at(q, n)),
            z3.If(q == r, R.at(q, n + j), z3.If(q == s, z3.If(n < k, R.at(q, n), z3.If(n < k + j, R.at(r, n - k), R.at(q, n - j))), R.at(q, n))))
        return Ring(lambda x: z3.If(z3.And(R.own(x) == r, R.pos(x) < j), s, R.own(x)), pos,
                    lambda q: z3.If(same, R.len(q), z3.If(q == r, R.len(q) - j, z3.If(q == s, R.len(q) + j, R.len(q)))), at)

class SwapNodes(CL):
    """any two nodes: members of the same or different rings (also adjacent), or reset non-members"""
    name = 'circular_list_algorithms::swap_nodes'; fn = 'v_swap_nodes'
    def pre(self, E, st):
        self.setup(E, st)
        R = self.R
        a = self.node(E, st, 'a')
        b = self.node(E, st, 'b')
        for x in (a, b):
            st.assume(z3.Or(R.own(x) != NONE, z3.And(self.m0['next'].read(x) == NULL, self.m0['previous'].read(x) == NULL)))
        self.named += [a, b]
        self.inv += [R.own(a), R.own(b)]
        return [a, b]
    def involved(self, x):
        R = self.R
        a, b = self.named
        return z3.Or(x == a, x == b, z3.And(R.own(x) != NONE, z3.Or(R.own(x) == R.own(a), R.own(x) == R.own(b))))
    def post(self, E, st, ret):
        a, b = E.args
        R = self.R
        sw = lambda x: z3.If(x == a, b, z3.If(x == b, a, x))
        R2 = Ring(lambda x: R.own(sw(x)), lambda x: R.pos(sw(x)), R.len, lambda q, i: sw(R.at(q, i)))
        yield from self.becomes(st, R2)
        for x in (a, b):
            yield ('a node left out of any ring has reset links', z3.Implies(R2.own(x) == NONE, z3.And(st.maps['next'].read(x) == NULL, st.maps['previous'].read(x) == NULL)))

class Reverse(CL):
    name = 'circular_list_algorithms::reverse'; fn = 'v_reverse'
    depth = 3
    def pre(self, E, st):
        self.setup(E, st)
        p = self.member(E, st, 'p', pos=0)
        self.inv.append(self.R.own(p))
        return [p]
    def more_inv(self, E, L, st):
        R = self.R
        p, = E.args
        r = R.own(p)
        n = R.len(r)
        c = []
        for f in L.ptrs:
            # prefix [1..kf] already reversed by moving elements to the front
            def nx(s, x, f=f):
                k, q = R.pos(s.env[f]), R.pos(x)
                at = lambda i: R.at(r, i)
                return z3.If(R.own(x) == r, z3.If(q == 0, at(k), z3.If(q > k, R.nxt(x), z3.If(q > 1, at(q - 1), at(z3.If(k + 1 == n, 0, k + 1))))), self.m0['next'].read(x))
            def pv(s, x, f=f):
                k, q = R.pos(s.env[f]), R.pos(x)
                at = lambda i: R.at(r, i)
                k1 = z3.If(k + 1 == n, 0, k + 1)
                return z3.If(R.own(x) == r, z3.If(q == k, p, z3.If(z3.And(q >= 1, q < k), at(q + 1), z3.If(q == k1, at(1), R.prv(x)))), self.m0['previous'].read(x))
            c.append(Cand('prefix reversed (next)', 'P', lambda s, x, nx=nx, f=f: s.maps['next'].read(x) == z3.If(R.pos(s.env[f]) >= 1, nx(s, x), self.m0['next'].read(x)), lvl=2))
            c.append(Cand('prefix reversed (prev)', 'P', lambda s, x, pv=pv, f=f: s.maps['previous'].read(x) == z3.If(R.pos(s.env[f]) >= 1, pv(s, x), self.m0['previous'].read(x)), lvl=2))
            c.append(Cand('pos>=1', '', lambda s, f=f: z3.Or(n == 1, R.pos(s.env[f]) >= 1)))
            c.append(Cand('trivial ring', '', lambda s, f=f: z3.Implies(n == 1, s.env[f] == p)))
            # link-swapping style: positions before f have their links exchanged
            def swn(s, x, f=f, first=True):
                k, q = R.pos(s.env[f]), R.pos(x)
                done = q < k
                return z3.If(z3.And(R.own(x) == r, done), self.m0['previous'].read(x), self.m0['next'].read(x))
            def swp(s, x, f=f):
                k, q = R.pos(s.env[f]), R.pos(x)
                return z3.If(z3.And(R.own(x) == r, q < k), self.m0['next'].read(x), self.m0['previous'].read(x))
            c.append(Cand('links exchanged before p (next)', 'P', lambda s, x, g=swn: s.maps['next'].read(x) == g(s, x), lvl=2))
            c.append(Cand('links exchanged before p (prev)', 'P', lambda s, x, g=swp: s.maps['previous'].read(x) == g(s, x), lvl=2))
        return c
    def post(self, E, st, ret):
        p, = E.args
        R = self.R
        r = R.own(p)
        n = R.len(r)
        fl = lambda i: z3.If(i == 0, 0, n - i)
        R2 = Ring(R.own, lambda x: z3.If(R.own(x) == r, fl(R.pos(x)), R.pos(x)), R.len, lambda q, i: z3.If(q == r, R.at(q, fl(i)), R.at(q, i)))
        yield from self.becomes(st, R2)

class MoveBackwards(CL):
    """move p n positions backwards: p is re-inserted before the node reached from its successor in n steps (p itself not counted)"""
    name = 'circular_list_algorithms::move_backwards'; fn = 'v_move_backwards'
    depth = 3
    fwd = True
    def pre(self, E, st):
        self.setup(E, st)
        R = self.R
        p = self.member(E, st, 'p', pos=0)
        n = fresh('n', I)
        st.assume(z3.And(n >= 0, n < PO2_64))
        r = R.own(p)
        self.inv.append(r)
        # walk(j): index (among the other nodes, 1..m) reached after j steps
        self.walk = z3.Function('walk', I, I)
        m = R.len(r) - 1
        w = self.walk
        st.assume(Q('walk', '', lambda j: z3.Implies(z3.And(m >= 1, j >= 0), z3.And(w(j) >= 1, w(j) <= m)), trig='walk'))
        if self.fwd:
            st.assume(z3.Implies(m >= 1, w(0) == 1))
            self.step = lambda j: w(j + 1) == z3.If(w(j) == m, 1, w(j) + 1)
        else:
            st.assume(z3.Implies(m >= 1, w(0) == m))
            self.step = lambda j: w(j + 1) == z3.If(w(j) == 1, m, w(j) - 1)
        st.assume(Q('walkstep', '', lambda j: z3.Implies(z3.And(m >= 1, j >= 0), self.step(j)), trig='walk', lvl=1))
        return [p, n]
    def more_inv(self, E, L, st):
        R = self.R
        p, n = E.args
        c = []
        for q in L.ptrs:
            c.append(Cand('not p', '', lambda s, q=q: s.env[q] != p))
            for i in L.ints:
                c.append(Cand('walked down', '', lambda s, q=q, i=i: R.pos(s.env[q]) == self.walk(n - s.env[i])))
                c.append(Cand('walked up', '', lambda s, q=q, i=i: R.pos(s.env[q]) == self.walk(s.env[i])))
        for i in L.ints:
            c.append(Cand('i<=n', '', lambda s, i=i: s.env[i] <= n))
        return c
    def variants(self, E, L, st):
        p, n = E.args
        return super().variants(E, L, st) + [Variant('n-i', lambda s, i=i: n - s.env[i]) for i in L.ints]
    def post(self, E, st, ret):
        p, n = E.args
        R = self.R
        r = R.own(p)
        k = self.walk(n) if self.fwd else self.walk(n) + 1     # p goes before old index k (1..m+1)
        still = R.len(r) == 1
        # new order: [1..k) p [k..len)
        pos = lambda x: z3.If(z3.And(R.own(x) == r, z3.Not(still)), z3.If(x == p, k - 1, z3.If(R.pos(x) < k, R.pos(x) - 1, R.pos(x))), R.pos(x))
        at = lambda q, i: z3.If(z3.And(q == r, z3.Not(still)), z3.If(i < k - 1, R.at(q, i + 1), z3.If(i == k - 1, p, R.at(q, i))), R.at(q, i))
        yield from self.becomes(st, Ring(R.own, pos, R.len, at))

class MoveForward(MoveBackwards):
    name = 'circular_list_algorithms::move_forward'; fn = 'v_move_forward'
    fwd = False

UNITS = [Init, InitHeader, Inited, Unique, IsEmpty, Count, Distance, Unlink, UnlinkRange, LinkBefore, LinkAfter, TransferRange, TransferOne, SwapNodes, Reverse, MoveBackwards, MoveForward]
