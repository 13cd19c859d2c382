"""Contracts of the members of list_impl, executed with abstract node traits: the ring theory of clist.py for the links, the size
counter as object memory, a ghost counter for disposals and clones.  Four configurations (constant_time_size x link mode)."""
from spec import *
from clist import Ring, CL
from slist import SL

HDR = z3.Function('header_of', P, P)
class LC(CL):
    tu = 'list.cpp'
    fields = {'next': 'P', 'previous': 'P', 'mem.0.int64': 'I'}
    lin = False
    ct, safe = 1, 1
    HOFF = 8
    mods_cb_dispose = ('next', 'previous', 'ghost:disp')
    mods_cb_clone = ('ghost:cl',)
    def ring(self, *a):
        return Ring(*a)
    without, moved = SL.without, SL.moved
    def insert(self, r, k, a):
        return SL.insert(self, r, k, a)
    @property
    def linkf(self):
        return [f for f in ('next', 'previous') if f in self.m0]
    # containers
    def hdr(self, l):
        return HDR(l) if self.ct else l
    def interior(self, base, off):
        if off == self.HOFF and self.ct:
            return HDR(base)
        return None
    def setup(self, E, st):
        R = CL.setup(self, E, st)
        self.conts = []
        self.dn = None
        st.g['disp'] = z3.IntVal(0)
        self.links0 = {f: self.m0[f] for f in self.linkf}
        return R
    def container(self, E, st, n, named=True):
        """a valid container: header at position 0 of its ring, counter equal to the number of elements"""
        l = fresh(n, P)
        R = self.R
        h = self.hdr(l)
        st.assume([l != NULL, h != NULL, R.own(h) != NONE, R.pos(h) == 0])
        if self.ct:
            st.assume(self.m0['mem.0.int64'].read(l) == R.len(R.own(h)) - 1)
        for o in self.conts:
            st.assume([l != o, h != self.hdr(o), R.own(h) != R.own(self.hdr(o))])
        self.conts.append(l)
        self.inv.append(R.own(h))
        return l
    def raw(self, E, st, n):
        """storage for a container"""
        l = fresh(n, P)
        h = self.hdr(l)
        st.assume([l != NULL, h != NULL, self.R.own(h) == NONE])
        for o in self.conts:
            st.assume([l != o, h != self.hdr(o)])
        self.conts.append(l)
        self.named.append(h)
        return l
    def R_(self, l):
        return self.R.own(self.hdr(l))
    def n(self, l):
        return self.R.len(self.R_(l)) - 1
    def el(self, l, i):
        """i-th element, the header at i == size"""
        return z3.If(i == self.n(l), self.hdr(l), self.R.at(self.R_(l), i + 1))
    def fresh_el(self, E, st, n):
        x = self.loose(E, st, n)
        if self.safe:
            st.assume([self.m0[f].read(x) == NULL for f in self.linkf])
        for l in self.conts:
            st.assume(x != self.hdr(l))
        return x
    def element(self, E, st, n, l, end=False):
        x = self.member(E, st, n, ring=self.R_(l))
        if not end:
            st.assume(self.R.pos(x) > 0)
        return x
    # disposal
    def dnode(self, i):
        raise VError('this function must not call the disposer')
    def disposed(self, st, x):
        return FALSE
    def acc(self, E, st, a):
        return z3.And(CL.acc(self, E, st, a), z3.Not(self.disposed(st, a)))
    def havoc_ghost(self, E, L, H, name):
        H.g[name] = fresh(name, I)
    def ext_cb_dispose(self, E, st, args, ins):
        x, = args
        d = st.g['disp']
        st.need('the disposer is called on the next removed element, once each', z3.And(d < self.dcount(st), x == self.dnode(d)))
        if self.safe:
            st.need('the hook of a disposed element has been reset', z3.And(*[st.maps[f].read(x) == NULL for f in self.linkf]))
        st.g['disp'] = simp(d + 1)
        for f in self.linkf:
            st.maps[f] = st.maps[f].write(x, fresh('junk', P))
        return [(st, None, 'ok')]
    def dcount(self, st):
        return self.dn
    def drange(self, l, lo, hi):
        """disposals: elements lo..hi-1 (indices) of l in order"""
        self.dn = hi - lo
        self.dnode = lambda i: self.R.at(self.R_(l), lo + i + 1)
        R, r = self.R, self.R_(l)
        self.disposed = lambda st, x: z3.And(R.own(x) == r, R.pos(x) > lo, R.pos(x) <= lo + st.g['disp'])
        self.dend = self.el(l, hi)
    def more_inv(self, E, L, st):
        c = []
        m = dict(st.maps)
        if self.dn is not None:
            R = self.R
            c.append(Cand('disposed so far', '', lambda s: z3.And(s.g['disp'] >= 0, s.g['disp'] <= self.dn)))
            for q in L.ptrs:
                c.append(Cand('cursor at the next undisposed', '', lambda s, q=q: s.env[q] == z3.If(s.g['disp'] == self.dn, self.dend, self.dnode(s.g['disp']))))
            for f in self.linkf:
                if f in L.mods:
                    c.append(Cand('undisposed nodes untouched', 'P', lambda s, x, f=f: z3.Implies(z3.Not(self.disposed(s, x)), s.maps[f].read(x) == m[f].read(x)), lvl=2))
        if 'store' in L.mods:
            s0 = m['mem.0.int64']
            c.append(Cand('counter decreases with each disposal', 'P', lambda s, x: s.maps['mem.0.int64'].read(x) == z3.If(x == self.conts[0], s0.read(x) - s.g['disp'], s0.read(x)), lvl=1))
        return c
    def variants(self, E, L, st):
        vs = CL.variants(self, E, L, st)
        if self.dn is not None:
            vs.insert(0, Variant('undisposed', lambda s: self.dn - s.g['disp']))
        return vs
    # results
    def result(self, E, st, R2, extra=(), keep=None):
        """ring state R2, counters, released hooks"""
        for l, g in self.becomes(st, R2):
            yield (l, g, tuple(extra)) if extra else (l, g)
        if self.ct:
            cur, old = st.maps['mem.0.int64'], self.m0['mem.0.int64']
            for l in self.conts:
                g = cur.read(l) == R2.len(R2.own(self.hdr(l))) - 1
                yield ('the counter equals the number of elements', g, tuple(extra)) if extra else ('the counter equals the number of elements', g)
            yield ('frame: other counters unchanged', Q('fr', 'P', lambda x: z3.Implies(z3.And(*[x != l for l in self.conts]), cur.read(x) == old.read(x))))
        if self.safe:
            R = self.R
            yield ('hooks of removed elements are reset', Q('rel', 'P', lambda x: z3.Implies(z3.And(R.own(x) != NONE, R2.own(x) == NONE, z3.Not(self.disposed(st, x)), z3.And(*[x != self.hdr(l) for l in self.conts])), z3.And(*[st.maps[f].read(x) == NULL for f in self.linkf]))))
        if self.dn is not None:
            yield ('every removed element disposed exactly once', st.g['disp'] == self.dcount(st))
    def becomes(self, st, R2):
        mp = st.maps
        m0, self_m0 = self.links0, self.m0
        self.m0 = m0
        try:
            yield from list(CL.becomes(self, st, R2))
        finally:
            self.m0 = self_m0
    def same(self, E, st):
        for f in self.m0:
            yield ('%s unchanged' % f, Q('frame', 'P', lambda x, f=f: st.maps[f].read(x) == self.m0[f].read(x)))
    def cleared(self, l):
        return self.without(self.R_(l), 1, self.n(l) + 1)

UNITS = []
CFG = [(1, 1), (0, 0), (1, 0), (0, 1)]
def unit(cls, cfg=CFG):
    for ct, safe in cfg:
        n = '%s_%s%s' % (cls.__name__, 'ct' if ct else 'nc', '_safe' if safe else '')
        u = type(n, (cls,), {'ct': ct, 'safe': safe, 'defs': ('CT=%d' % ct, 'SAFE=%d' % safe), 'name': 'list::%s [%s, %s link]' % (cls.what, 'constant-time size' if ct else 'linear size', 'safe' if safe else 'normal'), 'fn': 'v_' + cls.fn})
        u.__module__ = __name__
        globals()[n] = u
        UNITS.append(u)
    return cls

@unit
class Ctor(LC):
    what = 'list()'; fn = 'ctor'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.raw(E, st, 'l')]
    def empty_ring(self, l):
        R = self.R
        h = self.hdr(l)
        rid = fresh('rid', P)
        ex = (Q('fresh', 'P', lambda x: R.own(x) != rid), G('ridne', rid != NONE))
        return rid, ex, self.ring(lambda x: z3.If(x == h, rid, R.own(x)), lambda x: z3.If(x == h, 0, R.pos(x)), lambda r: z3.If(r == rid, 1, R.len(r)), lambda r, i: z3.If(r == rid, h, R.at(r, i)))
    def post(self, E, st, ret):
        rid, ex, R2 = self.empty_ring(E.args[0])
        yield from self.result(E, st, R2, extra=ex)
@unit
class MoveCtor(Ctor):
    """the new list takes the elements, the source is empty"""
    what = 'list(list&&)'; fn = 'move_ctor'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.raw(E, st, 'l')
        o = self.container(E, st, 'o')
        return [l, o]
    def post(self, E, st, ret):
        l, o = E.args
        R = self.R
        rid, ex, _ = self.empty_ring(l)
        h, ho, r = self.hdr(l), self.hdr(o), self.R_(o)
        # the ring of o keeps its identity with the header replaced
        R2 = self.ring(lambda x: z3.If(x == h, r, z3.If(x == ho, rid, R.own(x))), lambda x: z3.If(z3.Or(x == h, x == ho), 0, R.pos(x)), lambda q: z3.If(q == rid, 1, R.len(q)),
                       lambda q, i: z3.If(q == rid, ho, z3.If(z3.And(q == r, i == 0), h, R.at(q, i))))
        yield from self.result(E, st, R2, extra=ex)
@unit
class Swap(LC):
    what = 'swap'; fn = 'swap'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.container(E, st, 'l'), self.container(E, st, 'o')]
    def post(self, E, st, ret):
        l, o = E.args
        R = self.R
        a, b = self.hdr(l), self.hdr(o)
        sw = lambda x: z3.If(x == a, b, z3.If(x == b, a, x))
        yield from self.result(E, st, self.ring(lambda x: R.own(sw(x)), lambda x: R.pos(sw(x)), R.len, lambda q, i: sw(R.at(q, i))))
@unit
class MoveAssign(Swap):
    what = 'operator=(list&&)'; fn = 'move_assign'
@unit
class Dtor(LC):
    """safe links: every element is released; normal links: nothing is touched"""
    what = '~list'; fn = 'dtor'
    def pre(self, E, st):
        self.setup(E, st)
        return [self.container(E, st, 'l')]
    def more_inv(self, E, L, st):
        R = self.R
        l, = E.args
        r = self.R_(l)
        c = LC.more_inv(self, E, L, st)
        m = dict(st.maps)
        for q in L.ptrs:
            idx = lambda s, q=q: z3.If(s.env[q] == self.hdr(l), self.n(l) + 1, R.pos(s.env[q]))
            c.append(Cand('cursor', '', lambda s, q=q: R.own(s.env[q]) == r))
            for f in self.linkf:
                c.append(Cand('elements before the cursor released', 'P', lambda s, x, f=f, idx=idx: s.maps[f].read(x) == z3.If(z3.And(R.own(x) == r, R.pos(x) > 0, R.pos(x) < idx(s)), NULL, m[f].read(x)), lvl=2))
        return c
    def post(self, E, st, ret):
        l, = E.args
        R = self.R
        r = self.R_(l)
        for f in self.linkf:
            g = (lambda x, f=f: st.maps[f].read(x) == z3.If(R.own(x) == r, NULL, self.m0[f].read(x))) if self.safe else (lambda x, f=f: st.maps[f].read(x) == self.m0[f].read(x))
            yield ('elements and header released, nothing else touched (%s)' % f, Q('rel', 'P', g))
class Push(LC):
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        return [l, self.fresh_el(E, st, 'v')]
    def post(self, E, st, ret):
        l, v = E.args
        yield from self.result(E, st, self.insert(self.R_(l), self.at(l), v))
@unit
class PushBack(Push):
    what = 'push_back'; fn = 'push_back'
    def at(self, l): return self.n(l) + 1
@unit
class PushFront(Push):
    what = 'push_front'; fn = 'push_front'
    def at(self, l): return 1
@unit
class Insert(LC):
    what = 'insert'; fn = 'insert'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        p = self.element(E, st, 'p', l, end=True)
        return [l, p, self.fresh_el(E, st, 'v')]
    def post(self, E, st, ret):
        l, p, v = E.args
        k = z3.If(p == self.hdr(l), self.n(l) + 1, self.R.pos(p))
        yield from self.result(E, st, self.insert(self.R_(l), k, v))
        yield ('returns the inserted element', ret == v)
class Pop(LC):
    disp = False
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        st.assume(self.n(l) >= 1)
        k = self.k(l)
        if self.disp:
            self.drange(l, k, k + 1)
        return [l]
    def post(self, E, st, ret):
        l, = E.args
        k = self.k(l)
        yield from self.result(E, st, self.without(self.R_(l), k + 1, k + 2))
@unit
class PopBack(Pop):
    what = 'pop_back'; fn = 'pop_back'
    def k(self, l): return self.n(l) - 1
@unit
class PopFront(Pop):
    what = 'pop_front'; fn = 'pop_front'
    def k(self, l): return z3.IntVal(0)
@unit
class PopBackD(PopBack):
    what = 'pop_back_and_dispose'; fn = 'pop_back_and_dispose'; disp = True
@unit
class PopFrontD(PopFront):
    what = 'pop_front_and_dispose'; fn = 'pop_front_and_dispose'; disp = True
@unit
class Erase(LC):
    what = 'erase'; fn = 'erase'; disp = False
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        p = self.element(E, st, 'p', l)
        self.k = self.R.pos(p) - 1
        if self.disp:
            self.drange(l, self.k, self.k + 1)
        return [l, p]
    def post(self, E, st, ret):
        l, p = E.args
        yield from self.result(E, st, self.without(self.R_(l), self.k + 1, self.k + 2))
        yield ('returns the element that followed', ret == self.el(l, self.k + 1))
@unit
class EraseD(Erase):
    what = 'erase_and_dispose'; fn = 'erase_and_dispose'; disp = True
@unit
class EraseRange(LC):
    what = 'erase(range)'; fn = 'erase_range'; disp = False
    def pre(self, E, st):
        R = self.setup(E, st)
        l = self.container(E, st, 'l')
        b = self.element(E, st, 'b', l, end=True)
        e = self.element(E, st, 'e', l, end=True)
        ix = lambda x: z3.If(x == self.hdr(l), self.n(l), R.pos(x) - 1)
        self.lo, self.hi = ix(b), ix(e)
        st.assume(self.lo <= self.hi)
        if self.disp:
            self.drange(l, self.lo, self.hi)
        return [l, b, e]
    def more_inv(self, E, L, st):
        c = LC.more_inv(self, E, L, st)
        R = self.R
        l = self.conts[0]
        r = self.R_(l)
        m = dict(st.maps)
        h = self.hdr(l)
        for q in L.ptrs:
            ix = lambda s, q=q: z3.If(s.env[q] == h, self.n(l), R.pos(s.env[q]) - 1)
            c.append(Cand('cursor in range', '', lambda s, q=q, ix=ix: z3.And(R.own(s.env[q]) == r, ix(s) >= self.lo, ix(s) <= self.hi)))
            if not self.disp:
                for f in self.linkf:
                    if f in L.mods:
                        c.append(Cand('range before the cursor released', 'P', lambda s, x, f=f, ix=ix: s.maps[f].read(x) == z3.If(z3.And(R.own(x) == r, R.pos(x) - 1 >= self.lo, R.pos(x) - 1 < ix(s), R.pos(x) > 0), NULL, m[f].read(x)), lvl=2))
                if 'store' in L.mods:
                    s0 = m['mem.0.int64']
                    c.append(Cand('counter follows the cursor', 'P', lambda s, x, ix=ix: s.maps['mem.0.int64'].read(x) == z3.If(x == l, s0.read(x) - (ix(s) - self.lo), s0.read(x)), lvl=1))
            for i in L.ints:
                c.append(Cand('count of steps', '', lambda s, i=i, ix=ix: s.env[i] == ix(s) - self.lo))
        return c
    def variants(self, E, L, st):
        R = self.R
        l = self.conts[0]
        return [Variant('range left', lambda s, q=q: self.hi - z3.If(s.env[q] == self.hdr(l), self.n(l), R.pos(s.env[q]) - 1)) for q in L.ptrs] + LC.variants(self, E, L, st)
    def post(self, E, st, ret):
        l, b, e = E.args[:3]
        yield from self.result(E, st, self.without(self.R_(l), self.lo + 1, self.hi + 1))
        yield ('returns the end of the range', ret == e)
@unit
class EraseRangeN(EraseRange):
    what = 'erase(range, n)'; fn = 'erase_range_n'
    def pre(self, E, st):
        l, b, e = EraseRange.pre(self, E, st)
        n = fresh('n', I)
        st.assume(n == self.hi - self.lo)
        return [l, b, e, n]
@unit
class EraseRangeD(EraseRange):
    what = 'erase_and_dispose(range)'; fn = 'erase_and_dispose_range'; disp = True
@unit
class Clear(EraseRange):
    what = 'clear'; fn = 'clear'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        self.lo, self.hi = z3.IntVal(0), self.n(l)
        if self.disp:
            self.drange(l, self.lo, self.hi)
        return [l]
    def post(self, E, st, ret):
        yield from self.result(E, st, self.cleared(E.args[0]))
@unit
class ClearD(Clear):
    what = 'clear_and_dispose'; fn = 'clear_and_dispose'; disp = True
class Query(LC):
    nonempty = False
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        if self.nonempty:
            st.assume(self.n(l) >= 1)
        return [l]
    def post(self, E, st, ret):
        yield from self.val(E.args[0], ret)
        yield from self.same(E, st)
@unit
class Front(Query):
    what = 'front'; fn = 'front'; nonempty = True
    def val(self, l, ret): yield ('the first element', ret == self.el(l, 0))
@unit
class Back(Query):
    what = 'back'; fn = 'back'; nonempty = True
    def val(self, l, ret): yield ('the last element', ret == self.el(l, self.n(l) - 1))
@unit
class CFront(Front):
    what = 'front const'; fn = 'cfront'
@unit
class CBack(Back):
    what = 'back const'; fn = 'cback'
@unit
class RBegin(Back):
    what = 'rbegin'; fn = 'rbegin'
@unit
class Begin(Query):
    what = 'begin'; fn = 'begin'
    def val(self, l, ret): yield ('the first element or the end', ret == self.el(l, 0))
@unit
class End(Query):
    what = 'end'; fn = 'end'
    def val(self, l, ret): yield ('the header', ret == self.hdr(l))
@unit
class Size(Query):
    what = 'size'; fn = 'size'
    def val(self, l, ret): yield ('the number of elements', ret == self.n(l))
@unit
class Empty(Query):
    what = 'empty'; fn = 'empty'
    def val(self, l, ret): yield ('true iff no element', ret == (self.n(l) == 0))
@unit
class Check(Query):
    """the library's own consistency check accepts every valid list"""
    what = 'check'; fn = 'check'
    def val(self, l, ret): return []
    def more_inv(self, E, L, st):
        c = LC.more_inv(self, E, L, st)
        R = self.R
        l, = E.args
        for q in L.ptrs:
            for i in L.ints:
                c.append(Cand('nodes seen', '', lambda s, q=q, i=i: z3.And(R.own(s.env[q]) == self.R_(l), s.env[i] == R.pos(s.env[q]))))
        return c
class Step(LC):
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        return [self.element(E, st, 'p', l, end=True)]
    def post(self, E, st, ret):
        p, = E.args
        yield ('the neighbour', ret == (self.R.nxt(p) if self.fwd else self.R.prv(p)))
        yield from self.same(E, st)
def one(cls): return unit(cls, [(1, 1)])
@one
class Inc(Step):
    what = 'iterator++'; fn = 'inc'; fwd = True
@one
class Dec(Step):
    what = 'iterator--'; fn = 'dec'; fwd = False
@one
class IteratorTo(LC):
    what = 'iterator_to'; fn = 'iterator_to'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        return [l, self.element(E, st, 'v', l)]
    def post(self, E, st, ret):
        yield ('points to the element', ret == E.args[1])
        yield from self.same(E, st)
@unit
class Splice(LC):
    what = 'splice(list)'; fn = 'splice'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        p = self.element(E, st, 'p', l, end=True)
        x = self.container(E, st, 'x')
        self.k = z3.If(p == self.hdr(l), self.n(l) + 1, self.R.pos(p))
        return [l, p, x]
    def post(self, E, st, ret):
        l, p, x = E.args
        yield from self.result(E, st, self.moved(self.R_(x), z3.IntVal(1), self.n(x) + 1, self.R_(l), self.k))
@unit
class Splice1(Splice):
    """one element of another list"""
    what = 'splice(one)'; fn = 'splice1'
    def pre(self, E, st):
        l, p, x = Splice.pre(self, E, st)
        i = self.element(E, st, 'i', x)
        return [l, p, x, i]
    def post(self, E, st, ret):
        l, p, x, i = E.args
        k = self.R.pos(i)
        yield from self.result(E, st, self.moved(self.R_(x), k, k + 1, self.R_(l), self.k))
@unit
class Splice1Same(LC):
    """one element of the same list, also before itself and before its successor"""
    what = 'splice(one, same list)'; fn = 'splice1'
    def pre(self, E, st):
        self.setup(E, st)
        l = self.container(E, st, 'l')
        p = self.element(E, st, 'p', l, end=True)
        i = self.element(E, st, 'i', l)
        self.k = z3.If(p == self.hdr(l), self.n(l) + 1, self.R.pos(p))
        return [l, p, l, i]
    def post(self, E, st, ret):
        l, p, x, i = E.args
        j = self.R.pos(i)
        k = z3.If(p == i, j + 1, self.k)       # before itself: nothing moves
        yield from self.result(E, st, self.moved(self.R_(l), j, j + 1, self.R_(l), k))
@unit
class SpliceRange(Splice):
    what = 'splice(range)'; fn = 'splice_range'
    def pre(self, E, st):
        l, p, x = Splice.pre(self, E, st)
        R = self.R
        f = self.element(E, st, 'f', x, end=True)
        e = self.element(E, st, 'e', x, end=True)
        ix = lambda q: z3.If(q == self.hdr(x), self.n(x), R.pos(q) - 1)
        self.lo, self.hi = ix(f), ix(e)
        st.assume(self.lo <= self.hi)
        return [l, p, x, f, e]
    def more_inv(self, E, L, st):
        c = Splice.more_inv(self, E, L, st)
        R = self.R
        x = self.conts[1]
        r = self.R_(x)
        for q in L.ptrs:
            ix = lambda s, q=q: z3.If(s.env[q] == self.hdr(x), self.n(x), R.pos(s.env[q]) - 1)
            c.append(Cand('cursor in range', '', lambda s, q=q, ix=ix: z3.And(R.own(s.env[q]) == r, ix(s) >= self.lo, ix(s) <= self.hi)))
            for i in L.ints:
                c.append(Cand('count of steps', '', lambda s, i=i, ix=ix: s.env[i] == ix(s) - self.lo))
        return c
    def variants(self, E, L, st):
        R = self.R
        x = self.conts[1]
        return [Variant('range left', lambda s, q=q: self.hi - z3.If(s.env[q] == self.hdr(x), self.n(x), R.pos(s.env[q]) - 1)) for q in L.ptrs]
    def post(self, E, st, ret):
        l, p, x = E.args[:3]
        yield from self.result(E, st, self.moved(self.R_(x), self.lo + 1, self.hi + 1, self.R_(l), self.k))
@unit
class SpliceRangeN(SpliceRange):
    what = 'splice(range, n)'; fn = 'splice_range_n'
    def pre(self, E, st):
        a = SpliceRange.pre(self, E, st)
        n = fresh('n', I)
        st.assume(n == self.hi - self.lo)
        return a + [n]

# ---------------------------------------------------------------- clone_from
@unit
class CloneFrom(LC):
    """clears the target (disposing its old elements in order), then appends one clone per source element, in order; if the cloner
    throws, the clones made so far are disposed in order and the target is left empty"""
    what = 'clone_from'; fn = 'clone_from'
    def pre(self, E, st):
        R = self.setup(E, st)
        l = self.container(E, st, 'l')
        s = self.container(E, st, 's')
        self.cl, self.ci = z3.Function('clone', I, P), z3.Function('cloneidx', P, I)
        cl, ci = self.cl, self.ci
        m0 = self.m0
        st.g['cl'] = z3.IntVal(0)
        n = self.n(s)
        hs = [self.hdr(l), self.hdr(s)]
        st.assume(Q('clones', '', lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(R.own(cl(i)) == NONE, cl(i) != NULL, ci(cl(i)) == i, *([cl(i) != h for h in hs] + ([m0[f].read(cl(i)) == NULL for f in self.linkf] if self.safe else [])))), trig='clone'))
        self.m = self.n(l)
        self.dn = self.m
        r = self.R_(l)
        self.dnode = lambda i: z3.If(i < self.m, R.at(r, i + 1), cl(i - self.m))
        self.disposed = lambda st, x: z3.Or(z3.And(R.own(x) == r, R.pos(x) > 0, R.pos(x) <= st.g['disp']), z3.And(self.isclone(st, x), ci(x) < st.g['disp'] - self.m))
        return [l, s]
    def isclone(self, st, x):
        return z3.And(self.R.own(x) == NONE, self.ci(x) >= 0, self.ci(x) < st.g['cl'], self.cl(self.ci(x)) == x)
    def dcount(self, st):
        return self.m + st.g['cl']
    def acc(self, E, st, a):
        return z3.And(a != NULL, z3.Or(self.involved(a), self.isclone(st, a)), z3.Not(self.disposed(st, a)))
    def ext_cb_clone(self, E, st, args, ins):
        x, = args
        l, s = E.args
        c = st.g['cl']
        st.need('the cloner gets the next source element', z3.And(c < self.n(s), x == self.el(s, c)))
        st.need('the old elements are disposed first', st.g['disp'] == self.m)
        s2 = st.copy()
        st.g['cl'] = simp(c + 1)
        return [(st, self.cl(c), 'ok'), (s2, None, 'throw')]
    def more_inv(self, E, L, st):
        R = self.R
        l, s = E.args
        h = self.hdr(l)
        cl, ci = self.cl, self.ci
        c = []
        m = dict(st.maps)
        if 'ghost:disp' in L.mods:
            d0 = st.g['disp']
            c.append(Cand('disposals only grow', '', lambda s_: s_.g['disp'] >= d0))
        c.append(Cand('disposed and cloned so far', '', lambda s_: z3.And(s_.g['disp'] >= 0, s_.g['disp'] <= self.dcount(s_), s_.g['cl'] >= 0, s_.g['cl'] <= self.n(s))))
        for q in L.ptrs:
            c.append(Cand('cursor at the next undisposed', '', lambda s_, q=q: s_.env[q] == z3.If(s_.g['disp'] == self.dcount(s_), h, self.dnode(s_.g['disp']))))
            c.append(Cand('cursor in the source', '', lambda s_, q=q: s_.env[q] == self.el(s, s_.g['cl'])))
        if 'ghost:disp' in L.mods:
            for f in self.linkf:
                c.append(Cand('undisposed nodes untouched', 'P', lambda s_, x, f=f: z3.Implies(z3.Not(self.disposed(s_, x)), s_.maps[f].read(x) == m[f].read(x)), lvl=2))
        else:
            def nx(s_, x):
                n = s_.g['cl']
                return z3.If(x == h, z3.If(n > 0, cl(0), h), z3.If(self.isclone(s_, x), z3.If(ci(x) + 1 < n, cl(ci(x) + 1), h), m['next'].read(x)))
            def pv(s_, x):
                n = s_.g['cl']
                return z3.If(x == h, z3.If(n > 0, cl(n - 1), h), z3.If(self.isclone(s_, x), z3.If(ci(x) > 0, cl(ci(x) - 1), h), m['previous'].read(x)))
            c.append(Cand('clones appended (next)', 'P', lambda s_, x: s_.maps['next'].read(x) == nx(s_, x), lvl=2))
            c.append(Cand('clones appended (previous)', 'P', lambda s_, x: s_.maps['previous'].read(x) == pv(s_, x), lvl=2))
            if 'store' in L.mods:
                s0 = m['mem.0.int64']
                c.append(Cand('counter counts the clones', 'P', lambda s_, x: s_.maps['mem.0.int64'].read(x) == z3.If(x == l, s_.g['cl'], s0.read(x)), lvl=1))
        return c
    def variants(self, E, L, st):
        l, s = E.args
        return [Variant('undisposed', lambda s_: self.dcount(s_) - s_.g['disp']), Variant('uncloned', lambda s_: self.n(s) - s_.g['cl'])]
    def target(self, E, n):
        """the target holds the first n clones"""
        R = self.R
        l, s = E.args
        r = self.R_(l)
        cl, ci = self.cl, self.ci
        isc = lambda x: z3.And(R.own(x) == NONE, ci(x) >= 0, ci(x) < n, cl(ci(x)) == x)
        return self.ring(lambda x: z3.If(isc(x), r, z3.If(z3.And(R.own(x) == r, R.pos(x) > 0), NONE, R.own(x))), lambda x: z3.If(isc(x), ci(x) + 1, R.pos(x)), lambda q: z3.If(q == r, n + 1, R.len(q)), lambda q, i: z3.If(z3.And(q == r, i > 0), cl(i - 1), R.at(q, i)))
    def involved(self, x):
        return z3.Or(LC.involved(self, x), z3.And(self.R.own(x) == NONE, self.ci(x) >= 0, self.ci(x) < self.n(self.conts[1]), self.cl(self.ci(x)) == x))
    def post(self, E, st, ret):
        l, s = E.args
        self.dcount = lambda st: self.m
        yield ('one clone per source element', st.g['cl'] == self.n(s))
        yield from self.result(E, st, self.target(E, self.n(s)))
        del self.dcount
    def exc_post(self, E, st):
        yield from self.result(E, st, self.target(E, z3.IntVal(0)))
