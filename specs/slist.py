"""Contracts of circular_slist_algorithms and linear_slist_algorithms (and their common base).
The circular algorithms use the ring theory of clist.py with the forward link only; the linear ones the same theory with a null link
after the last position."""
from spec import *
from clist import Ring, CL

class LRing(Ring):
    """null-terminated chains"""
    def nxt(self, x):
        r, p = self.own(x), self.pos(x)
        return z3.If(p + 1 == self.len(r), NULL, self.at(r, p + 1))

UMOD = z3.Function('umod', I, I, I)
def umod_facts(a, b):
    """facts about the mathematical remainder used by the proofs (proved by lemma unit ModFacts)"""
    m = UMOD(a, b)
    return z3.Implies(z3.And(a >= 0, b > 0), z3.And(m >= 0, m < b, m <= a, z3.Implies(a < b, m == a), z3.Implies(a == b, m == 0)))

class SL(CL):
    tu = 'slist.cpp'
    fields = {'next': 'P'}
    lin = False
    what = None
    def ring(self, *a):
        return (LRing if self.lin else Ring)(*a)
    def setup(self, E, st):
        R = self.R = self.ring(z3.Function('own', P, P), z3.Function('pos', P, I), z3.Function('len', P, I), z3.Function('at', P, I, P))
        m0 = self.m0 = dict(st.maps)
        st.assume(Q('ring', 'P', lambda x: R.w(x), lvl=None))
        st.assume(Q('ring-at', '', R.a, trig='at'))
        st.assume(Q('ring-links', 'P', lambda x: R.links(x, m0), lvl=1))
        st.assume(Q('umod', '', umod_facts, trig='umod'))
        st.assume([R.own(NULL) == NONE, NONE != NULL])
        self.named = []
        self.inv = []
        return R
    def binop_ext(self, E, st, k, w, a, b):
        if k == 'urem':
            st.need('no division by zero', b != 0)
            return UMOD(a, b)
        return None
    def start(self, E, st, n):
        """a member; a ring has no distinguished start, so its position is chosen to be 0 in the circular case"""
        return self.member(E, st, n, pos=None if self.lin else 0)
    def upto(self, E, st, n, b):
        """an end marker reachable from b: returns (node or null, index in (pos b, len])"""
        R = self.R
        r = R.own(b)
        j = fresh(n + '_idx', I)
        e = fresh(n, P)
        st.assume([j > R.pos(b), j <= R.len(r), e == z3.If(j == R.len(r), NULL if self.lin else b, R.at(r, j))])
        return e, j
    def acc(self, E, st, a):
        d = st.g.get('disp')
        c = CL.acc(self, E, st, a)
        if d is not None:
            c = z3.And(c, z3.Not(self.disposed(st, a)))
        return c
    def without(self, r, lo, hi):
        """R with positions [lo, hi) of ring r taken out"""
        R = self.R
        n = hi - lo
        return self.ring(lambda x: z3.If(z3.And(R.own(x) == r, R.pos(x) >= lo, R.pos(x) < hi), NONE, R.own(x)),
                         lambda x: z3.If(z3.And(R.own(x) == r, R.pos(x) >= hi), R.pos(x) - n, R.pos(x)),
                         lambda q: z3.If(q == r, R.len(q) - n, R.len(q)),
                         lambda q, i: z3.If(q == r, z3.If(i < lo, R.at(q, i), R.at(q, i + n)), R.at(q, i)))
    def insert(self, r, k, a):
        R = self.R
        return self.ring(lambda x: z3.If(x == a, r, R.own(x)),
                         lambda x: z3.If(x == a, k, z3.If(z3.And(R.own(x) == r, R.pos(x) >= k), R.pos(x) + 1, R.pos(x))),
                         lambda q: z3.If(q == r, R.len(q) + 1, R.len(q)),
                         lambda q, i: z3.If(q == r, z3.If(i < k, R.at(q, i), z3.If(i == k, a, R.at(q, i - 1))), R.at(q, i)))
    def moved(self, r, lo, hi, s, k):
        """R with positions [lo,hi) of ring r moved so that they come before old position k of ring s (k outside (lo,hi) if r is s)"""
        R = self.R
        n = hi - lo
        same = r == s
        mv = lambda x: z3.And(R.own(x) == r, R.pos(x) >= lo, R.pos(x) < hi)
        def pos(x):
            p = R.pos(x)
            up = z3.If(z3.And(p >= lo, p < hi), p + k - hi, z3.If(z3.And(p >= hi, p < k), p - n, p))      # k >= hi
            dn = z3.If(z3.And(p >= lo, p < hi), p - lo + k, z3.If(z3.And(p >= k, p < lo), p + n, p))      # k <= lo
            two = z3.If(mv(x), p - lo + k, z3.If(z3.And(R.own(x) == r, p >= hi), p - n, z3.If(z3.And(R.own(x) == s, p >= k), p + n, p)))
            return z3.If(same, z3.If(R.own(x) == r, z3.If(k >= hi, up, dn), p), two)
        def at(q, i):
            up = z3.If(z3.And(i >= lo, i < k - n), R.at(q, i + n), z3.If(z3.And(i >= k - n, i < k), R.at(q, i - (k - hi)), R.at(q, i)))
            dn = z3.If(z3.And(i >= k, i < k + n), R.at(q, i + lo - k), z3.If(z3.And(i >= k + n, i < hi), R.at(q, i - n), R.at(q, i)))
            two = z3.If(q == r, z3.If(i < lo, R.at(q, i), R.at(q, i + n)), z3.If(q == s, z3.If(i < k, R.at(q, i), z3.If(i < k + n, R.at(r, i - k + lo), R.at(q, i - n))), R.at(q, i)))
            return z3.If(same, z3.If(q == r, z3.If(k >= hi, up, dn), R.at(q, i)), two)
        return self.ring(lambda x: z3.If(mv(x), s, R.own(x)), pos, lambda q: z3.If(same, R.len(q), z3.If(q == r, R.len(q) - n, z3.If(q == s, R.len(q) + n, R.len(q)))), at)

UNITS = []
def unit(cls, kinds='cl'):
    for k in kinds:
        d = {'lin': k == 'l', 'name': ('linear' if k == 'l' else 'circular') + '_slist_algorithms::' + cls.what, 'fn': 'v_%s_%s' % (k, cls.fn)}
        n = ('L' if k == 'l' else 'C') + cls.__name__
        u = type(n, (cls,), d)
        u.__module__ = __name__
        globals()[n] = u
        UNITS.append(u)
    return cls
def both(cls): return unit(cls)
def circ(cls): return unit(cls, 'c')
def line(cls): return unit(cls, 'l')

# ---------------------------------------------------------------- constant-time operations
@both
class Init(SL):
    what = 'init'; fn = 'init'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.loose(E, st, 'a')]
    def post(self, E, st, ret):
        a, = E.args
        yield ('link reset', st.maps['next'].read(a) == NULL)
        yield from self.becomes(st, self.R)
@both
class InitHeader(Init):
    what = 'init_header'; fn = 'init_header'
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        rid = fresh('rid', P)
        ex = Q('fresh', 'P', lambda x: R.own(x) != rid)
        R2 = self.ring(lambda x: z3.If(x == a, rid, R.own(x)), lambda x: z3.If(x == a, 0, R.pos(x)), lambda r: z3.If(r == rid, 1, R.len(r)), lambda r, i: z3.If(r == rid, a, R.at(r, i)))
        for l, g in self.becomes(st, R2):
            yield (l, g, (ex, Q('ridne', 'P', lambda x: rid != NONE)))
@both
class SetSentinel(Init):
    what = 'set_sentinel'; fn = 'set_sentinel'
    def post(self, E, st, ret):
        a, = E.args
        yield ('marked', st.maps['next'].read(a) == (a if self.lin else NULL))
        yield from self.becomes(st, self.R)
class Query(SL):
    def pre(self, E, st):
        self.setup(E, st)
        a = self.node(E, st, 'a')
        self.named.append(a)
        return [a]
    def post(self, E, st, ret):
        yield from self.result(E.args[0], ret)
        yield from self.unchanged(st)
@both
class Inited(Query):
    what = 'inited'; fn = 'inited'
    def result(self, a, ret):
        yield ('true iff the link is null', ret == (self.m0['next'].read(a) == NULL))
        if not self.lin:
            yield ('false for members', z3.Implies(self.R.own(a) != NONE, z3.Not(ret)))
@both
class Unique(Query):
    what = 'unique'; fn = 'unique'
    def result(self, a, ret):
        R = self.R
        last = R.pos(a) + 1 == R.len(R.own(a)) if self.lin else R.len(R.own(a)) == 1
        yield ('member: true iff nothing follows it', z3.Implies(R.own(a) != NONE, ret == last))
        yield ('reset non-member: true', z3.Implies(self.m0['next'].read(a) == NULL, ret))
@both
class IsSentinel(Query):
    what = 'is_sentinel'; fn = 'is_sentinel'
    def result(self, a, ret):
        yield ('true iff in the state of set_sentinel', ret == (self.m0['next'].read(a) == (a if self.lin else NULL)))
        yield ('false for members', z3.Implies(self.R.own(a) != NONE, z3.Not(ret)))
@both
class IsEmpty(Query):
    what = 'is_empty'; fn = 'is_empty'
    def result(self, a, ret):
        R = self.R
        last = R.pos(a) + 1 == R.len(R.own(a)) if self.lin else R.len(R.own(a)) == 1
        yield ('true iff nothing follows the header', z3.Implies(R.own(a) != NONE, ret == last))
@both
class EndNode(Query):
    what = 'end_node'; fn = 'end_node'
    def result(self, a, ret):
        yield ('the end marker', ret == (NULL if self.lin else a))

@both
class UnlinkAfter(SL):
    what = 'unlink_after(node)'; fn = 'unlink_after'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.start(E, st, 'p')
        self.inv.append(R.own(p))
        if self.lin:
            st.assume(R.pos(p) + 1 < R.len(R.own(p)))
        return [p]
    def post(self, E, st, ret):
        p, = E.args
        R = self.R
        k = R.pos(p)
        yield from self.becomes(st, self.without(R.own(p), k + 1, z3.If(R.len(R.own(p)) == 1, k + 1, k + 2)))
@both
class UnlinkAfter2(SL):
    what = 'unlink_after(range)'; fn = 'unlink_after2'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.start(E, st, 'p')
        self.inv.append(R.own(p))
        e, self.j = self.upto(E, st, 'e', p)
        return [p, e]
    def post(self, E, st, ret):
        p, e = E.args
        R = self.R
        r, k, j = R.own(p), R.pos(p), self.j
        yield from self.becomes(st, self.without(r, k + 1, j))
        yield ('links of the removed nodes are kept', Q('int', 'P', lambda x: z3.Implies(z3.And(R.own(x) == r, R.pos(x) > k, R.pos(x) < j), st.maps['next'].read(x) == self.m0['next'].read(x))))
@both
class LinkAfter(SL):
    what = 'link_after'; fn = 'link_after'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.member(E, st, 'p')
        a = self.loose(E, st, 'a')
        self.inv.append(R.own(p))
        return [p, a]
    def post(self, E, st, ret):
        p, a = E.args
        R = self.R
        yield from self.becomes(st, self.insert(R.own(p), R.pos(p) + 1, a))
@both
class IncorporateAfter(SL):
    """a separate chain c(0)=b .. c(n-1)=be is linked after p"""
    what = 'incorporate_after'; fn = 'incorporate_after'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.member(E, st, 'p')
        b, e = self.loose(E, st, 'b'), self.loose(E, st, 'e')
        self.c, self.ci = z3.Function('chain', I, P), z3.Function('cpos', P, I)
        n = self.n = fresh('n', I)
        m0 = self.m0
        st.assume([n >= 1, n < (1 << 60), self.c(0) == b, self.c(n - 1) == e, self.ci(b) == 0, self.ci(e) == n - 1])
        st.assume(Q('chain', '', lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(self.ci(self.c(i)) == i, R.own(self.c(i)) == NONE, self.c(i) != NULL)), trig='chain'))
        st.assume(Q('chainx', 'P', lambda x: z3.Implies(self.inc(x), z3.And(self.c(self.ci(x)) == x, z3.Implies(self.ci(x) + 1 < n, m0['next'].read(x) == self.c(self.ci(x) + 1)))), lvl=1))
        self.inv.append(R.own(p))
        return [p, b, e]
    def inc(self, x):
        return z3.And(self.R.own(x) == NONE, self.ci(x) >= 0, self.ci(x) < self.n, self.c(self.ci(x)) == x, x != NULL)
    def involved(self, x):
        return z3.Or(CL.involved(self, x), self.inc(x))
    def post(self, E, st, ret):
        p, b, e = E.args
        R, n, c, ci = self.R, self.n, self.c, self.ci
        r, k = R.own(p), R.pos(p)
        yield from self.becomes(st, self.ring(
            lambda x: z3.If(self.inc(x), r, R.own(x)),
            lambda x: z3.If(self.inc(x), k + 1 + ci(x), z3.If(z3.And(R.own(x) == r, R.pos(x) > k), R.pos(x) + n, R.pos(x))),
            lambda q: z3.If(q == r, R.len(q) + n, R.len(q)),
            lambda q, i: z3.If(q == r, z3.If(i <= k, R.at(q, i), z3.If(i <= k + n, c(i - k - 1), R.at(q, i - n))), R.at(q, i))))
@both
class TransferAfter(SL):
    """moves (b,e] after p; p outside (b,e), in the same or another list"""
    what = 'transfer_after(range)'; fn = 'transfer_after'
    def pre(self, E, st):
        R = self.setup(E, st)
        b = self.start(E, st, 'b')
        e = self.member(E, st, 'e', ring=R.own(b))
        p = self.member(E, st, 'p')
        st.assume(R.pos(e) >= R.pos(b))
        st.assume(z3.Or(R.own(p) != R.own(b), R.pos(p) <= R.pos(b), R.pos(p) >= R.pos(e)))
        self.inv += [R.own(b), R.own(p)]
        return [p, b, e]
    def post(self, E, st, ret):
        p, b, e = E.args
        R = self.R
        yield from self.becomes(st, self.moved(R.own(b), R.pos(b) + 1, R.pos(e) + 1, R.own(p), R.pos(p) + 1))
@line
class SwapTrailing(SL):
    """the nodes after a and after b change places"""
    what = 'swap_trailing_nodes'; fn = 'swap_trailing_nodes'
    def pre(self, E, st):
        R = self.setup(E, st)
        a, b = self.member(E, st, 'a'), self.member(E, st, 'b')
        st.assume(z3.Or(a == b, R.own(a) != R.own(b)))
        self.inv += [R.own(a), R.own(b)]
        return [a, b]
    def post(self, E, st, ret):
        a, b = E.args
        R = self.R
        r, s, k, j = R.own(a), R.own(b), R.pos(a), R.pos(b)
        A = lambda x: z3.And(a != b, R.own(x) == r, R.pos(x) > k)
        Bx = lambda x: z3.And(a != b, R.own(x) == s, R.pos(x) > j)
        la, lb = R.len(r) - k, R.len(s) - j
        yield from self.becomes(st, self.ring(
            lambda x: z3.If(A(x), s, z3.If(Bx(x), r, R.own(x))),
            lambda x: z3.If(A(x), R.pos(x) - k + j, z3.If(Bx(x), R.pos(x) - j + k, R.pos(x))),
            lambda q: z3.If(a == b, R.len(q), z3.If(q == r, k + lb, z3.If(q == s, j + la, R.len(q)))),
            lambda q, i: z3.If(a == b, R.at(q, i), z3.If(z3.And(q == r, i > k), R.at(s, i - k + j), z3.If(z3.And(q == s, i > j), R.at(r, i - j + k), R.at(q, i))))))

# ---------------------------------------------------------------- traversals
class Walk(SL):
    """traversals: pointer variables stay on the ring between start and target"""
    def idx(self, x):
        """index of a cursor; the end of the list is index len"""
        R = self.R
        r = self.inv[0]
        return z3.If(x == self.endm, R.len(r), R.pos(x)) if self.endm is not None else R.pos(x)
    endm = None
    def more_inv(self, E, L, st):
        R = self.R
        r = self.inv[0]
        c = []
        for n in L.ptrs:
            p0 = st.env[n]
            c.append(Cand('cursor on the list or at its end', '', lambda s, n=n: z3.Or(R.own(s.env[n]) == r, s.env[n] == (NULL if self.lin else self.hd))))
            c.append(Cand('not before start', '', lambda s, n=n, p0=p0: self.idx(s.env[n]) >= R.pos(p0)))
            if getattr(self, 'target', None) is not None:
                c.append(Cand('not beyond target', '', lambda s, n=n: self.idx(s.env[n]) <= self.target))
                c.append(Cand('before target', '', lambda s, n=n: self.idx(s.env[n]) < self.target))
                c.append(Cand('two before target', '', lambda s, n=n: self.idx(s.env[n]) + 1 < self.target))
            for i in L.ints:
                c.append(Cand('counts steps', '', lambda s, n=n, i=i, p0=p0, i0=st.env[i]: s.env[i] - i0 == self.idx(s.env[n]) - R.pos(p0)))
            for q in L.ptrs:
                if q != n:
                    c.append(Cand('adjacent', '', lambda s, n=n, q=q: self.idx(s.env[n]) == self.idx(s.env[q]) + 1))
        return c
    def variants(self, E, L, st):
        return [Variant('distance to the end', lambda s, n=n: self.R.len(self.inv[0]) - self.idx(s.env[n])) for n in L.ptrs]
@both
class GetPrev2(Walk):
    """first node from b on whose successor is a; for linear lists a may be the null end"""
    what = 'get_previous_node(start,node)'; fn = 'get_previous_node2'
    def pre(self, E, st):
        R = self.setup(E, st)
        b = self.start(E, st, 'b')
        self.inv.append(R.own(b))
        self.hd = b
        a, self.j = self.upto(E, st, 'a', b)
        self.target = self.j
        return [b, a]
    def post(self, E, st, ret):
        b, a = E.args
        yield ('the node before', ret == self.R.at(self.R.own(b), self.j - 1))
        yield from self.unchanged(st)
@circ
class GetPrev1(Walk):
    what = 'get_previous_node(node)'; fn = 'get_previous_node'
    def pre(self, E, st):
        R = self.setup(E, st)
        a = self.start(E, st, 'a')
        self.inv.append(R.own(a))
        self.hd = a
        self.target = R.len(R.own(a))
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        yield ('the node before', ret == R.at(R.own(a), R.len(R.own(a)) - 1))
        yield from self.unchanged(st)
@circ
class GetPP1(GetPrev1):
    what = 'get_previous_previous_node(node)'; fn = 'get_pp'
    def pre(self, E, st):
        r = GetPrev1.pre(self, E, st)
        st.assume(self.target >= 2)
        return r
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        yield ('two before', ret == R.at(R.own(a), R.len(R.own(a)) - 2))
        yield from self.unchanged(st)
@circ
class GetPP2(Walk):
    """starts at p, p at least two positions before a"""
    what = 'get_previous_previous_node(start,node)'; fn = 'get_pp2'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.start(E, st, 'p')
        self.inv.append(R.own(p))
        self.hd = p
        a, self.j = self.upto(E, st, 'a', p)
        st.assume(self.j >= 2)
        self.target = self.j
        return [p, a]
    def post(self, E, st, ret):
        p, a = E.args
        yield ('two before', ret == self.R.at(self.R.own(p), self.j - 2))
        yield from self.unchanged(st)
@both
class Count(Walk):
    what = 'count'; fn = 'count'
    def pre(self, E, st):
        R = self.setup(E, st)
        a = self.start(E, st, 'a')
        self.inv.append(R.own(a))
        self.hd = a
        return [a]
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        yield ('number of nodes from the given one on', ret == R.len(R.own(a)) - R.pos(a))
        yield from self.unchanged(st)
@both
class Distance(Walk):
    what = 'distance'; fn = 'distance'
    def pre(self, E, st):
        R = self.setup(E, st)
        f = self.start(E, st, 'f')
        self.inv.append(R.own(f))
        self.hd = f
        j = self.j = fresh('j', I)
        l = fresh('l', P)
        r = R.own(f)
        # a circular list: any member; a linear one: any later member or the end
        st.assume([j >= R.pos(f), j <= R.len(r) if self.lin else j < R.len(r), l == z3.If(j == R.len(r), NULL, R.at(r, j))])
        if self.lin:
            self.endm = NULL
        self.target = j
        return [f, l]
    def post(self, E, st, ret):
        f, l = E.args
        yield ('number of steps', ret == self.j - self.R.pos(f))
        yield from self.unchanged(st)
@circ
class Unlink(Walk):
    """takes a member out; an already reset node is left alone"""
    what = 'unlink'; fn = 'unlink'
    def pre(self, E, st):
        R = self.setup(E, st)
        a = self.node(E, st, 'a')
        st.assume(z3.Or(z3.And(R.own(a) != NONE, R.pos(a) == 0), z3.And(R.own(a) == NONE, self.m0['next'].read(a) == NULL)))
        self.inv.append(R.own(a))
        self.named.append(a)
        self.hd = a
        self.target = R.len(R.own(a))
        return [a]
    def involved(self, x):
        a = self.named[0]
        return z3.Or(x == a, z3.And(self.R.own(x) == self.inv[0], self.inv[0] != NONE))
    def post(self, E, st, ret):
        a, = E.args
        R = self.R
        r = R.own(a)
        w = self.without(r, 0, 1)
        # a ring of one node stays as it is
        one = z3.Or(r == NONE, R.len(r) == 1)
        yield from self.becomes(st, self.ring(lambda x: z3.If(one, R.own(x), w.own(x)), lambda x: z3.If(one, R.pos(x), w.pos(x)), lambda q: z3.If(one, R.len(q), w.len(q)), lambda q, i: z3.If(one, R.at(q, i), w.at(q, i))))
@circ
class LinkBefore(Walk):
    what = 'link_before'; fn = 'link_before'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.start(E, st, 'p')
        a = self.loose(E, st, 'a')
        self.inv.append(R.own(p))
        self.hd = p
        self.target = R.len(R.own(p))
        return [p, a]
    def post(self, E, st, ret):
        p, a = E.args
        R = self.R
        yield from self.becomes(st, self.insert(R.own(p), R.len(R.own(p)), a))
@both
class TransferAll(Walk):
    """every node after o goes after p (another list)"""
    what = 'transfer_after(list)'; fn = 'transfer_after_all'
    def pre(self, E, st):
        R = self.setup(E, st)
        o = self.start(E, st, 'o')
        p = self.member(E, st, 'p')
        st.assume(R.own(p) != R.own(o))
        self.inv += [R.own(o), R.own(p)]
        self.hd = o
        self.target = R.len(R.own(o))
        return [p, o]
    def post(self, E, st, ret):
        p, o = E.args
        R = self.R
        yield from self.becomes(st, self.moved(R.own(o), R.pos(o) + 1, R.len(R.own(o)), R.own(p), R.pos(p) + 1))

# ---------------------------------------------------------------- swap, reverse
@circ
class SwapNodes(Walk):
    """any two nodes: members of the same or different rings (also adjacent), or reset non-members"""
    what = 'swap_nodes'; fn = 'swap_nodes'
    def pre(self, E, st):
        R = self.setup(E, st)
        a, b = self.node(E, st, 'a'), self.node(E, st, 'b')
        for x in (a, b):
            st.assume(z3.Or(R.own(x) != NONE, self.m0['next'].read(x) == NULL))
        self.named += [a, b]
        self.inv += [R.own(a), R.own(b)]
        return [a, b]
    def involved(self, x):
        R = self.R
        a, b = self.named
        return z3.Or(x == a, x == b, z3.And(R.own(x) != NONE, z3.Or(R.own(x) == R.own(a), R.own(x) == R.own(b))))
    def more_inv(self, E, L, st):
        R = self.R
        c = []
        for n in L.ptrs:
            x0 = st.env[n]
            c.append(Cand('cursor on the ring of its start', '', lambda s, n=n, x0=x0: R.own(s.env[n]) == R.own(x0)))
        return c
    def variants(self, E, L, st):
        # steps left until the predecessor of the start
        R = self.R
        out = []
        for n in L.ptrs:
            x0 = st.env[n]
            out.append(Variant('steps to the predecessor of the start', lambda s, n=n, x0=x0: z3.If(R.pos(s.env[n]) >= R.pos(x0), R.len(R.own(x0)) - R.pos(s.env[n]) + R.pos(x0), R.pos(x0) - R.pos(s.env[n]))))
        return out
    def post(self, E, st, ret):
        a, b = E.args
        R = self.R
        sw = lambda x: z3.If(x == a, b, z3.If(x == b, a, x))
        R2 = self.ring(lambda x: R.own(sw(x)), lambda x: R.pos(sw(x)), R.len, lambda q, i: sw(R.at(q, i)))
        yield from self.becomes(st, R2)
        for x in (a, b):
            yield ('a node left out of any ring has a reset link', z3.Implies(R2.own(x) == NONE, st.maps['next'].read(x) == NULL))
@circ
class CReverse(SL):
    what = 'reverse'; fn = 'reverse'
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.start(E, st, 'p')
        self.inv.append(R.own(p))
        return [p]
    def more_inv(self, E, L, st):
        R = self.R
        p, = E.args
        r = R.own(p)
        n = R.len(r)
        at = lambda i: R.at(r, i)
        m0 = self.m0
        cur = lambda s: R.pos(s.maps['next'].read(p))      # the first node now: number of nodes in front of the fixed node
        c = [Cand('first node', '', lambda s: z3.Implies(n > 1, z3.And(R.own(s.maps['next'].read(p)) == r, cur(s) >= 1)))]
        def nx(s, x):
            k, q = cur(s), R.pos(x)
            return z3.If(z3.And(R.own(x) == r, n > 1), z3.If(q == 0, at(k), z3.If(q > k, R.nxt(x), z3.If(q > 1, at(q - 1), at(z3.If(k + 1 == n, 0, k + 1))))), m0['next'].read(x))
        c.append(Cand('prefix reversed', 'P', lambda s, x: s.maps['next'].read(x) == nx(s, x), lvl=2))
        for f in L.ptrs:
            c.append(Cand('fixed node', '', lambda s, f=f: s.env[f] == z3.If(n > 1, at(1), p)))
            # style: cursor runs ahead of the reversed prefix
        return c
    def variants(self, E, L, st):
        R = self.R
        p, = E.args
        return [Variant('nodes not yet moved', lambda s: R.len(R.own(p)) - R.pos(s.maps['next'].read(p)))] + SL.variants(self, E, L, st)
    def post(self, E, st, ret):
        p, = E.args
        R = self.R
        r = R.own(p)
        n = R.len(r)
        fl = lambda i: z3.If(i == 0, 0, n - i)
        yield from self.becomes(st, self.ring(R.own, lambda x: z3.If(R.own(x) == r, fl(R.pos(x)), R.pos(x)), R.len, lambda q, i: z3.If(q == r, R.at(q, fl(i)), R.at(q, i))))

class LinSuffix(SL):
    """the chain from p on is rearranged; what precedes p is not touched"""
    def pre(self, E, st):
        R = self.setup(E, st)
        p = self.node(E, st, 'p')
        st.assume(R.own(p) != NONE)
        self.inv.append(R.own(p))
        self.k = R.pos(p)
        self.m = R.len(R.own(p)) - R.pos(p)
        return self.mkargs(E, st, p)
    def mkargs(self, E, st, p):
        return [p]
    def rel(self, i):
        """node at offset i from p"""
        return self.R.at(self.inv[0], self.k + i)
    def chain(self, st, perm, inv):
        """links of the suffix follow offsets perm(0), perm(1), ... ; inv is the inverse"""
        R = self.R
        r, k, m = self.inv[0], self.k, self.m
        mp = st.maps
        def g(x):
            i = inv(R.pos(x) - k)
            return z3.Implies(z3.And(R.own(x) == r, R.pos(x) >= k), z3.And(i >= 0, i < m, perm(i) == R.pos(x) - k, mp['next'].read(x) == z3.If(i + 1 == m, NULL, self.rel(perm(i + 1)))))
        yield ('order of the suffix is the documented one', Q('post-next', 'P', g))
        yield ('frame: every other link unchanged', Q('frame', 'P', lambda x: z3.Implies(z3.Not(z3.And(R.own(x) == r, R.pos(x) >= k)), mp['next'].read(x) == self.m0['next'].read(x))))
@line
class LReverse(LinSuffix):
    what = 'reverse'; fn = 'reverse'
    def more_inv(self, E, L, st):
        R = self.R
        p, = E.args
        r, k, n = self.inv[0], self.k, R.len(self.inv[0])
        c = []
        at = lambda i: z3.If(i == n, NULL, R.at(r, i))
        for f in L.ptrs:
            for i in L.ptrs:
                # i: next node to move (index b), f: first of the reversed prefix (index b-1); p now leads to i
                b = lambda s, i=i: z3.If(s.env[i] == NULL, n, R.pos(s.env[i]))
                c.append(Cand('first precedes next', '', lambda s, f=f, b=b: z3.And(b(s) > k, b(s) <= n, s.env[f] == R.at(r, b(s) - 1))))
            b = lambda s, i=f: z3.If(s.env[i] == NULL, n, R.pos(s.env[i]))
            c.append(Cand('cursor', '', lambda s, f=f, b=b: z3.And(b(s) > k, z3.Or(s.env[f] == NULL, R.own(s.env[f]) == r))))
            def nx(s, x, b=b):
                q = R.pos(x)
                return z3.If(z3.And(R.own(x) == r, q >= k, q < b(s)), z3.If(q == k, at(b(s)), R.at(r, q - 1)), self.m0['next'].read(x))
            c.append(Cand('prefix reversed', 'P', lambda s, x, nx=nx: s.maps['next'].read(x) == nx(s, x), lvl=2))
            # style: links reversed one by one, the old first node already ends the list
            def nx2(s, x, b=b):
                q = R.pos(x)
                return z3.If(z3.And(R.own(x) == r, q >= k, q < b(s)), z3.If(q == k, NULL, R.at(r, q - 1)), self.m0['next'].read(x))
            c.append(Cand('prefix reversed (cut)', 'P', lambda s, x, nx=nx2: s.maps['next'].read(x) == nx(s, x), lvl=2))
        return c
    def variants(self, E, L, st):
        R = self.R
        return [Variant('nodes left', lambda s, i=i: z3.If(s.env[i] == NULL, 0, R.len(self.inv[0]) - R.pos(s.env[i]))) for i in L.ptrs]
    def post(self, E, st, ret):
        m = self.m
        yield from self.chain(st, lambda i: m - 1 - i, lambda i: m - 1 - i)
        yield ('returns the new first node', ret == self.rel(m - 1))
@line
class LReverseNull(SL):
    what = 'reverse(null)'; fn = 'reverse'
    def pre(self, E, st):
        self.setup(E, st)
        return [NULL]
    def post(self, E, st, ret):
        yield ('null', ret == NULL)
        yield from self.unchanged(st)

# ---------------------------------------------------------------- rotations
class Rot(LinSuffix):
    """m nodes from p on (circular: the m other nodes, at offsets 1..m), n: shift count"""
    base = 0       # offset of the first rotated node
    def mkargs(self, E, st, p):
        n = fresh('n', I)
        st.assume(z3.And(n >= 0, n < PO2_64))
        R = self.R
        if not self.lin:
            st.assume(R.pos(p) == 0)
            self.base = 1
            self.m = R.len(R.own(p)) - 1
        self.N = n
        if self.lin:
            o = fresh('out', P)
            st.assume(o != NULL)
            self.out = o
            return [p, n, o]
        return [p, n]
    def more_inv(self, E, L, st):
        R = self.R
        r, k, m, N, b0 = self.inv[0], self.k, self.m, self.N, self.base
        p = E.args[0]
        c = []
        ab = lambda i: R.at(r, k + b0 + i)       # i-th rotated node, 0..m-1
        ix = lambda x: R.pos(x) - k - b0
        endn = NULL if self.lin else p
        K = UMOD(N, m)
        cut = lambda s: s.maps['next'].read(ab(m - 1)) != endn
        def nx(s, x):
            if self.lin:
                return self.m0['next'].read(x)
            return z3.If(z3.And(cut(s), R.own(x) == r, R.pos(x) == R.len(r) - 1), ab(0), self.m0['next'].read(x))
        c.append(Cand('links: unchanged, or p cut out', 'P', lambda s, x: s.maps['next'].read(x) == nx(s, x), lvl=2))
        c.append(Cand('cut links to the first', '', lambda s: z3.Implies(cut(s), s.maps['next'].read(ab(m - 1)) == ab(0))))
        for i in L.ints:
            c.append(Cand('i<=m', '', lambda s, i=i: s.env[i] <= m))
            c.append(Cand('i>=1', '', lambda s, i=i: s.env[i] >= 1))
            for n in L.ints:
                if n != i:
                    c.append(Cand('i<=n+1', '', lambda s, i=i, n=n: s.env[i] <= s.env[n] + 1))
        wrapped = []
        flags = [lambda s, b=b: s.env[b] for b in L.bools] + [lambda s, b=b: s.env[b] != 0 for b in L.ints]
        for b in L.ints:
            c.append(Cand('flag', '', lambda s, b=b: z3.And(s.env[b] >= 0, s.env[b] <= 1)))
        wrapped += flags
        wrapped.append(cut)
        for w in wrapped:
            for n in L.ints:
                c.append(Cand('count reduced once wrapped', '', lambda s, n=n, w=w: s.env[n] == z3.If(w(s), K, N)))
                c.append(Cand('reduced count positive', '', lambda s, n=n: s.env[n] >= 1))
        for w in flags:
            c.append(Cand('wrapped iff cut', '', lambda s, w=w: w(s) == cut(s)))
            for q in L.ptrs:
                c.append(Cand('old last found', '', lambda s, w=w, q=q: z3.Implies(w(s), s.env[q] == ab(m - 1))))
        for q in L.ptrs:
            c.append(Cand('cursor rotated', '', lambda s, q=q: z3.And(R.own(s.env[q]) == r, ix(s.env[q]) >= 0)))
            c.append(Cand('cursor rotated or p', '', lambda s, q=q: z3.And(R.own(s.env[q]) == r, R.pos(s.env[q]) >= k)))
            for i in L.ints:
                for d in (0, 1, 2):
                    c.append(Cand('cursor at count-%d' % d, '', lambda s, q=q, i=i, d=d: s.env[q] == ab(s.env[i] - d)))
                c.append(Cand('follower at count-2', '', lambda s, q=q, i=i: z3.Implies(s.env[i] >= 2, s.env[q] == ab(s.env[i] - 2))))
                # forward moves: follower n positions behind the scout
                c.append(Cand('n behind (lin)', '', lambda s, q=q, i=i: z3.Or(z3.And(s.env[i] <= N, s.env[q] == p), z3.And(s.env[i] > N, s.env[q] == R.at(r, k + s.env[i] - N - 1 + b0)))))
                c.append(Cand('n behind (circ)', '', lambda s, q=q, i=i: z3.Or(z3.And(s.env[i] <= N, s.env[q] == p), z3.And(s.env[i] > N, s.env[q] == R.at(r, k + s.env[i] - N)))))
                # final walk
                t = m - K
                for d in (0, 1, 2):
                    c.append(Cand('remaining walk %d' % d, '', lambda s, q=q, i=i, d=d, t=t: z3.And(s.env[i] >= 0, s.env[i] <= t, R.own(s.env[q]) == r, R.pos(s.env[q]) == k + t - s.env[i] - d + b0)))
        return c
    def variants(self, E, L, st):
        R = self.R
        vs = [Variant('len - pos', lambda s, q=q: R.len(self.inv[0]) - R.pos(s.env[q])) for q in L.ptrs]
        vs += [Variant('down', lambda s, i=i: s.env[i]) for i in L.ints]
        for i in L.ints:
            for n in L.ints:
                if n != i:
                    vs.append(Variant('laps', lambda s, i=i, n=n: s.env[n] * 2 - s.env[i] + 2))
            for w in [lambda s, b=b: s.env[b] for b in L.bools] + [lambda s, b=b: s.env[b] != 0 for b in L.ints if b != i]:
                vs.append(Variant('first lap then count', lambda s, i=i, w=w: z3.If(w(s), z3.IntVal(0), self.m + 2) + self.m - s.env[i] + 1))
            vs.append(Variant('first lap then count', lambda s, i=i: z3.If(s.maps['next'].read(self.R.at(self.inv[0], self.k + self.base + self.m - 1)) != (NULL if self.lin else self.E0), z3.IntVal(0), self.m + 2) + self.m - s.env[i] + 1))
        return vs
class LRot(Rot):
    fwd = False
    def post(self, E, st, ret):
        R = self.R
        m, N = self.m, self.N
        K = UMOD(N, m)
        t = z3.If(K == 0, z3.IntVal(0), (m - K) if self.fwd else K)      # the first t nodes go to the back
        yield from self.chain(st, lambda i: z3.If(i < m - t, i + t, i - (m - t)), lambda i: z3.If(i >= t, i - t, i + m - t))
        last = st.maps['mem.0.ptr'].read(self.out)
        moved = t > 0
        yield ('returns the new first node, or null if nothing moved', ret == z3.If(moved, self.rel(t), NULL))
        yield ('returns the new last node, or null if nothing moved', last == z3.If(moved, self.rel(t - 1), NULL))
@line
class MoveBack(LRot):
    what = 'move_first_n_backwards'; fn = 'move_backwards'
@line
class MoveFwd(LRot):
    what = 'move_first_n_forward'; fn = 'move_forward'
    fwd = True
class CRot(Rot):
    fwd = False
    def mkargs(self, E, st, p):
        self.E0 = p
        return Rot.mkargs(self, E, st, p)
    def post(self, E, st, ret):
        p, N = E.args
        R = self.R
        r, m = self.inv[0], self.m
        K = UMOD(N, m)
        # p goes after the t-th of the other nodes
        t = z3.If(z3.Or(m == 0, K == 0), z3.IntVal(0), (m - K) if self.fwd else K)
        pos = lambda x: z3.If(R.own(x) == r, z3.If(x == p, t, z3.If(R.pos(x) <= t, R.pos(x) - 1, R.pos(x))), R.pos(x))
        at = lambda q, i: z3.If(q == r, z3.If(i < t, R.at(q, i + 1), z3.If(i == t, p, R.at(q, i))), R.at(q, i))
        yield from self.becomes(st, self.ring(R.own, pos, R.len, at))
        yield ('returns the new previous node of p, or null if nothing moved', ret == z3.If(t > 0, R.at(r, t), NULL))
@circ
class CMoveBack(CRot):
    what = 'move_backwards'; fn = 'move_backwards'
@circ
class CMoveFwd(CRot):
    what = 'move_forward'; fn = 'move_forward'
    fwd = True

# ---------------------------------------------------------------- disposal
@both
class Dispose(SL):
    """every node strictly between b and e is handed to the disposer exactly once, front to back, and not touched afterwards"""
    what = 'unlink_after_and_dispose'; fn = 'unlink_after_and_dispose'
    mods_cb_dispose = ('next', 'ghost:disp')
    def pre(self, E, st):
        R = self.setup(E, st)
        b = self.start(E, st, 'b')
        self.inv.append(R.own(b))
        e, self.j = self.upto(E, st, 'e', b)
        self.k = R.pos(b)
        st.g['disp'] = z3.IntVal(0)
        return [b, e]
    def disposed(self, st, x):
        R = self.R
        return z3.And(R.own(x) == self.inv[0], R.pos(x) > self.k, R.pos(x) <= self.k + st.g['disp'])
    def havoc_ghost(self, E, L, H, name):
        H.g[name] = fresh(name, I)
    def ext_cb_dispose(self, E, st, args, ins):
        R = self.R
        x, = args
        d = st.g['disp']
        st.need('the disposer gets the next undisposed node of the range', z3.And(x == R.at(self.inv[0], self.k + 1 + d), self.k + 1 + d < self.j, x != NULL))
        st.g['disp'] = d + 1
        st.maps['next'] = st.maps['next'].write(x, fresh('junk', P))      # the disposer may do anything to the node
        return [(st, None, 'ok')]
    def more_inv(self, E, L, st):
        R = self.R
        c = [Cand('disposed so far', '', lambda s: z3.And(s.g['disp'] >= 0, self.k + 1 + s.g['disp'] <= self.j))]
        c.append(Cand('undisposed nodes untouched', 'P', lambda s, x: z3.Implies(z3.Not(self.disposed(s, x)), s.maps['next'].read(x) == self.m0['next'].read(x)), lvl=2))
        endn = E.args[1] if len(E.args) > 1 else (NULL if self.lin else E.args[0])
        for q in L.ptrs:
            c.append(Cand('cursor at the next undisposed', '', lambda s, q=q: s.env[q] == z3.If(self.k + 1 + s.g['disp'] == self.j, endn, R.at(self.inv[0], self.k + 1 + s.g['disp']))))
        for i in L.ints:
            c.append(Cand('counter', '', lambda s, i=i: s.env[i] == s.g['disp']))
        return c
    def variants(self, E, L, st):
        return [Variant('nodes left', lambda s: self.j - s.g['disp'])]
    def post(self, E, st, ret):
        b = E.args[0]
        R = self.R
        n = self.j - self.k - 1
        yield ('every node of the range disposed', st.g['disp'] == n)
        yield ('returns their number', ret == n)
        r2 = self.without(self.inv[0], self.k + 1, self.j)
        rng = lambda x: z3.And(R.own(x) == self.inv[0], R.pos(x) > self.k, R.pos(x) < self.j)
        yield from self.becomes(st, r2)
@both
class DetachDispose(Dispose):
    what = 'detach_and_dispose'; fn = 'detach_and_dispose'
    def pre(self, E, st):
        b, e = Dispose.pre(self, E, st)
        st.assume(self.j == self.R.len(self.R.own(b)))
        return [b]

# ---------------------------------------------------------------- stable partition
@both
class Partition(SL):
    """the nodes between b and e: those satisfying the predicate first, both groups in their old order; if the predicate throws, the
    examined nodes are grouped so and the others follow unchanged"""
    what = 'stable_partition'; fn = 'stable_partition'
    split = True
    def pre(self, E, st):
        R = self.setup(E, st)
        b = self.start(E, st, 'b')
        self.inv.append(R.own(b))
        e, self.j = self.upto(E, st, 'e', b)
        k = self.k = R.pos(b)
        r, j = self.inv[0], self.j
        self.Pr = z3.Function('pred', P, B)
        self.f, self.g, self.c1, self.lt, self.lf = [z3.Function(n, I, I) for n in ('nextT', 'nextF', 'cntT', 'lastT', 'lastF')]
        at = lambda i: R.at(r, i)
        pr = lambda i: self.Pr(at(i))
        f, g, c1, lt, lf = self.f, self.g, self.c1, self.lt, self.lf
        inr = lambda i: z3.And(i > k, i < j)
        # definitions by recursion: next true/false index at or after i, number of true before i, last true/false before i
        def defs(i):
            return z3.And(z3.Implies(inr(i), z3.And(f(i) == z3.If(pr(i), i, f(i + 1)), g(i) == z3.If(pr(i), g(i + 1), i),
                                                    c1(i + 1) == c1(i) + z3.If(pr(i), 1, 0), lt(i + 1) == z3.If(pr(i), i, lt(i)), lf(i + 1) == z3.If(pr(i), lf(i), i))))
        st.assume([f(j) == j, g(j) == j, c1(k + 1) == 0, lt(k + 1) == k, lf(k + 1) == k])
        self.defs = defs
        outs = [fresh(n, P) for n in ('n1', 'n2', 'beg2', 'nl')]
        for i, a in enumerate(outs):
            st.assume(a != NULL)
            for c in outs[:i]:
                st.assume(a != c)
        self.outs = outs
        st.g['i'] = k + 1       # number of examined nodes, as an index
        return [b, e] + outs
    def ext_cb_pred(self, E, st, args, ins):
        x, = args
        R = self.R
        i = st.g['i']
        st.need('the predicate gets the next unexamined node', z3.And(i < self.j, x == R.at(self.inv[0], i)))
        s2 = st.copy()
        st.assume(self.defs(i))
        st.g['i'] = simp(i + 1)
        return [(st, self.Pr(x), 'ok'), (s2, None, 'throw')]
    mods_cb_pred = ('ghost:i',)
    def havoc_ghost(self, E, L, H, name):
        H.g[name] = fresh(name, I)
    def links(self, s, x, i, closed):
        """link of node x when the positions before i are grouped; closed: the last true node leads to the first false one"""
        R = self.R
        r, k, j = self.inv[0], self.k, self.j
        at = lambda q: R.at(r, q)
        q = R.pos(x)
        e = self.E.args[1]
        node = lambda q: z3.If(q == j, e, at(q))
        lt, lf, f, g = self.lt, self.lf, self.f, self.g
        nof = lf(i) == k
        nt = s.maps['next'].read(x)
        true = z3.Or(q == k, self.Pr(x))
        inp = z3.And(R.own(x) == r, q >= k, q < i)
        tl = z3.If(q == lt(i), (nt == z3.If(nof, node(i), at(g(k + 1)))) if closed else TRUE, z3.And(nt == at(f(q + 1)), f(q + 1) <= lt(i)))
        fl = z3.If(q == lf(i), nt == node(i), z3.And(nt == at(g(q + 1)), g(q + 1) <= lf(i)))
        return z3.And(z3.Implies(z3.Not(inp), nt == self.m0['next'].read(x)), z3.Implies(inp, z3.If(true, z3.And(q <= lt(i), tl), z3.And(q <= lf(i), fl))))
    def facts(self, i):
        k, j = self.k, self.j
        lt, lf, f, g, c1 = self.lt, self.lf, self.f, self.g, self.c1
        return z3.And(i > k, i <= j, lt(i) >= k, lt(i) < i, lf(i) >= k, lf(i) < i, lt(i) != lf(i) if False else TRUE, f(lt(i) + 1) == f(i),
                      z3.If(lf(i) == k, z3.And(g(k + 1) == g(i), lt(i) == i - 1, c1(i) == i - k - 1), z3.And(g(lf(i) + 1) == g(i), g(k + 1) > k, g(k + 1) <= lf(i))), c1(i) >= 0, c1(i) <= i - k - 1)
    def invariants(self, E, L, st):
        return self.more_inv(E, L, st)
    def more_inv(self, E, L, st):
        self.E = E
        R = self.R
        r, k, j = self.inv[0], self.k, self.j
        b, e = E.args[:2]
        at = lambda q: R.at(r, q)
        i = lambda s: s.g['i']
        c = [Cand('recursive definitions', '', lambda s: self.facts(i(s))),
             Cand('kinds of the last ones', '', lambda s: z3.And(z3.Or(self.lt(i(s)) == k, self.Pr(at(self.lt(i(s))))), z3.Or(self.lf(i(s)) == k, z3.Not(self.Pr(at(self.lf(i(s)))))))),
             Cand('grouped so far', 'P', lambda s, x: self.links(s, x, i(s), False), lvl=2),
             Cand('grouped and closed so far', 'P', lambda s, x: self.links(s, x, i(s), True), lvl=2),
             Cand('no false yet', '', lambda s: self.lf(i(s)) == k),
             Cand('false found', '', lambda s: self.lf(i(s)) > k)]
        c.append(Cand('first false known', '', lambda s: z3.And(self.Pr(at(self.g(k + 1))) == FALSE)))
        for q in L.ptrs:
            c.append(Cand('cursor', '', lambda s, q=q: s.env[q] == z3.If(i(s) == j, e, at(i(s)))))
            c.append(Cand('before cursor', '', lambda s, q=q: s.env[q] == at(i(s) - 1)))
            c.append(Cand('last true', '', lambda s, q=q: s.env[q] == at(self.lt(i(s)))))
            c.append(Cand('last false', '', lambda s, q=q: s.env[q] == at(self.lf(i(s)))))
            c.append(Cand('first false', '', lambda s, q=q: s.env[q] == at(self.g(k + 1))))
            c.append(Cand('first false or end', '', lambda s, q=q: s.env[q] == z3.If(self.lf(i(s)) == k, e, at(self.g(k + 1)))))
            c.append(Cand('last node', '', lambda s, q=q: s.env[q] == at(z3.If(self.lf(i(s)) == k, i(s) - 1, self.lf(i(s))))))
        for n in L.ints:
            c.append(Cand('trues', '', lambda s, n=n: s.env[n] == self.c1(i(s))))
            c.append(Cand('falses', '', lambda s, n=n: s.env[n] == i(s) - k - 1 - self.c1(i(s))))
        return c
    def variants(self, E, L, st):
        return [Variant('nodes not examined', lambda s: self.j - s.g['i'])]
    def final(self, st, i):
        yield ('documented order', Q('post-next', 'P', lambda x: self.links(st, x, i, True)))
    def post(self, E, st, ret):
        self.E = E
        n1, n2, b2, nl = self.outs
        R = self.R
        r, k, j = self.inv[0], self.k, self.j
        b, e = E.args[:2]
        at = lambda q: R.at(r, q)
        i = st.g['i']
        yield ('every node examined once', i == j)
        yield from self.final(st, j)
        m64, mp = st.maps['mem.0.int64'], st.maps['mem.0.ptr']
        yield ('number of nodes satisfying the predicate', m64.read(n1) == self.c1(j))
        yield ('number of the others', m64.read(n2) == j - k - 1 - self.c1(j))
        yield ('first node of the second group, or the end', mp.read(b2) == z3.If(self.lf(j) == k, e, at(self.g(k + 1))))
        yield ('last node', mp.read(nl) == at(z3.If(self.lf(j) == k, j - 1, self.lf(j))))
    def exc_post(self, E, st):
        self.E = E
        yield from self.final(st, st.g['i'])

class DPartition(Partition):
    """stable_partition of the doubly linked list: also the backward links"""
    tu = 'clist.cpp'
    fields = {'next': 'P', 'previous': 'P'}
    name = 'circular_list_algorithms::stable_partition'; fn = 'v_stable_partition'
    def pre(self, E, st):
        b, e, n1, n2, b2, nl = Partition.pre(self, E, st)
        R = self.R
        beg = fresh('beg', P)
        st.assume(beg == z3.If(R.len(self.inv[0]) == 1, b, R.at(self.inv[0], 1)))
        self.before, self.endn = b, e
        return [beg, e, n1, n2, b2]
    def plinks(self, s, x, i, closed):
        R = self.R
        r, k, j = self.inv[0], self.k, self.j
        at = lambda q: R.at(r, q)
        q = R.pos(x)
        lt, lf = self.lt, self.lf
        pv = s.maps['previous'].read(x)
        nof = lf(i) == k
        ff = self.g(k + 1)
        cur = z3.If(i == j, x == self.endn, q == i)
        done = z3.And(q > k, q < i)
        inr = R.own(x) == r
        body = z3.If(cur, pv == at(z3.If(nof, i - 1, lf(i))),
               z3.If(done, z3.If(self.Pr(x), pv == at(lt(q)), z3.If(q == ff, (pv == at(lt(i))) if closed else TRUE, pv == at(lf(q)))), pv == self.m0['previous'].read(x)))
        return z3.If(inr, body, pv == self.m0['previous'].read(x))
    def more_inv(self, E, L, st):
        i = lambda s: s.g['i']
        E2 = type('A', (), {'args': [self.before, self.endn], 'm': E.m})()
        c = Partition.more_inv(self, E2, L, st)
        return c + [Cand('grouped so far (backward)', 'P', lambda s, x: self.plinks(s, x, i(s), False), lvl=2),
                    Cand('grouped and closed so far (backward)', 'P', lambda s, x: self.plinks(s, x, i(s), True), lvl=2)]
    def final(self, st, i):
        yield from Partition.final(self, st, i)
        yield ('backward links mirror the documented order', Q('post-prev', 'P', lambda x: self.plinks(st, x, i, True)))
    def links(self, s, x, i, closed):
        self.E = type('A', (), {'args': [self.before, self.endn]})()
        return Partition.links(self, s, x, i, closed)
    def post(self, E, st, ret):
        n1, n2, b2, nl = self.outs
        k, j = self.k, self.j
        i = st.g['i']
        yield ('every node examined once', i == j)
        yield from self.final(st, j)
        m64, mp = st.maps['mem.0.int64'], st.maps['mem.0.ptr']
        yield ('number of nodes satisfying the predicate', m64.read(n1) == self.c1(j))
        yield ('number of the others', m64.read(n2) == j - k - 1 - self.c1(j))
        yield ('first node of the second group, or the end', mp.read(b2) == z3.If(self.lf(j) == k, self.endn, self.R.at(self.inv[0], self.g(k + 1))))
UNITS.append(DPartition)
