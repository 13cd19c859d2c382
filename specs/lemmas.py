"""Pure lemmas (no code): induction steps, discharged by the same solver.  The only unchecked part is the induction
principle itself (well-founded induction over the size hi(x)-lo(x) of a subtree)."""
from spec import *
from tree import *

class Lemma:
    engine = 'lemma'
    tu = None
    defs = ()
    norm = None
    contracts = {}
    fn = '(lemma)'
    def lemmas(self):
        """yield (label, hyps(list of Q), path(list), goal)"""
        raise NotImplementedError

def run_unit(module, cls):
    import time
    t0 = time.time()
    q0, tm0, i0 = STATS.queries, STATS.time, STATS.insts
    obl = []
    for label, hyps, path, goal in cls().lemmas():
        t = time.time()
        r0 = solve(hyps, path, [], depth=2, timeout=5000)
        ok = False
        st = 'inconsistent hypotheses'
        if not r0.ok:
            for d in (1, 2, 3):
                r = solve(hyps, path, [z3.Not(goal)], depth=d, timeout=20000)
                ok, st = r.ok, r.status
                if ok:
                    break
        obl.append((label, ok, st, round(time.time() - t, 3)))
    return {'unit': cls.name, 'fn': cls.fn, 'obligations': obl, 'paths': 0, 'pruned': 0, 'wall': time.time() - t0, 'queries': STATS.queries - q0, 'solver_s': STATS.time - tm0, 'insts': STATS.insts - i0, 'loops': {}}

class Adjacency(Lemma):
    """between in-order neighbours x,y exactly one of right(x), left(y) is null (used by the insertion contracts)"""
    name = 'lemma: in-order neighbours and free links'
    def lemmas(self):
        T = TS(fnP('own', P), fnP('pos'), z3.Function('at', P, I, P), fnP('lo'), fnP('hi'))
        mp = {f: Map.new(f) for f in ('left', 'right', 'parent')}
        hy = [Q('seq', 'P', lambda x: seq_w(T, x)), Q('seq-at', '', lambda h, i: seq_a(T, h, i), trig='at'), Q('links', 'P', lambda x: [f for _, f in links_w(T, mp, x)])]
        base = [T.own(NULL) == NONE, NONE != NULL, T.own(NONE) == NONE]
        v, h = fresh('v', P), fresh('h', P)
        p = fresh('p', I)
        elem = [T.own(v) == h, v != h, h != NONE, T.own(h) == h, h != NULL]
        L, R = mp['left'].read(v), mp['right'].read(v)
        A = lambda w, p: z3.Implies(z3.And(w != NULL, T.lo(w) == p), T.lo(T.at(h, p)) == p)
        Bl = lambda w, p: z3.Implies(z3.And(w != NULL, T.hi(w) == p), T.hi(T.at(h, p)) == p)
        C = lambda w, p: z3.Implies(z3.And(w != NULL, T.lo(w) <= p, p < T.hi(w)), (T.hi(T.at(h, p)) == p) == (T.lo(T.at(h, p + 1)) <= p))
        yield ('induction step: the first element of a subtree has no left child', hy, base + elem + [A(L, p)], A(v, p))
        yield ('induction step: the last element of a subtree has no right child', hy, base + elem + [Bl(R, p)], Bl(v, p))
        yield ('induction step: neighbours inside a subtree have exactly one free link between them', hy, base + elem + [A(R, p + 1), Bl(L, p), C(L, p), C(R, p)], C(v, p))
        x = fresh('x', P)
        root = mp['parent'].read(h)
        ex = [T.own(x) == h, x != h, h != NONE, T.own(h) == h, h != NULL]
        yield ('neighbours in a tree have exactly one free link between them', hy, base + ex + [C(root, T.pos(x))], adj_lemma(T, mp, x))

class RbHeight(Lemma):
    name = 'lemma: red-black height bound'
    def lemmas(self):
        p2 = z3.Function('pow2', I, I)
        ax = [Q('pow2', '', lambda k: z3.And(z3.Implies(k >= 0, z3.And(p2(k) >= 1, p2(k + 1) == 2 * p2(k)))), trig='pow2', lvl=1)]
        sl, sr, hl, hr, b = (fresh(n, I) for n in ('sl', 'sr', 'hl', 'hr', 'b'))
        pre = [hl >= 0, hl == hr, z3.Or(b == 0, b == 1), p2(0) == 1, p2(hl) >= 1, p2(hl + 1) == 2 * p2(hl)]
        yield ('step: a subtree of black height b has at least 2^b - 1 elements', ax, pre + [sl >= p2(hl) - 1, sr >= p2(hr) - 1], sl + sr + 1 >= p2(hl + b) - 1)
        dl, dr, rl, rr, r = (fresh(n, I) for n in ('dl', 'dr', 'rl', 'rr', 'r'))
        bit = lambda x: z3.Or(x == 0, x == 1)
        yield ('step: depth of a subtree <= 2*(black height) (+1 if its root is red)', [], [hl == hr, hl >= 0, bit(rl), bit(rr), bit(r), z3.Implies(r == 1, z3.And(rl == 0, rr == 0)), dl <= 2 * hl + rl, dr <= 2 * hr + rr],
               1 + z3.If(dl >= dr, dl, dr) <= 2 * (hl + 1 - r) + r)
        d, n, bh = fresh('d', I), fresh('n', I), fresh('bh', I)
        yield ('a red-black tree (black root) with n elements has depth d with 2^(d/2) <= n + 1', ax, [bh >= 0, d >= 0, d <= 2 * bh, n >= p2(bh) - 1, Mono(p2, d / 2, bh)], p2(d / 2) <= n + 1)
def Mono(f, a, b):
    """monotonicity of 2^k (instance; proved by its own induction step below)"""
    return z3.Implies(z3.And(0 <= a, a <= b), f(a) <= f(b))
class Pow2Mono(Lemma):
    name = 'lemma: 2^k is monotone'
    def lemmas(self):
        p2 = z3.Function('pow2', I, I)
        a, b = fresh('a', I), fresh('b', I)
        yield ('induction step on b - a', [], [a >= 0, a <= b, p2(b) >= 1, p2(b + 1) == 2 * p2(b), p2(a) <= p2(b)], p2(a) <= p2(b + 1))
class AvlHeight(Lemma):
    name = 'lemma: AVL height bound'
    def lemmas(self):
        F = z3.Function('fib', I, I)
        sl, sr, hl, hr = (fresh(n, I) for n in ('sl', 'sr', 'hl', 'hr'))
        mx = fresh('m', I)
        # F(0)=0, F(1)=1, F(k+2)=F(k+1)+F(k), monotone: instances needed
        fi = lambda k: z3.And(F(k + 2) == F(k + 1) + F(k), F(k + 1) >= F(k), F(k) >= 0)
        pre = [hl >= 0, hr >= 0, hl - hr <= 1, hr - hl <= 1, mx == z3.If(hl >= hr, hl, hr), fi(mx), fi(mx + 1), fi(mx - 1), sl >= F(hl + 2) - 1, sr >= F(hr + 2) - 1]
        yield ('step: an AVL subtree of height h has at least Fib(h+2) - 1 elements', [], pre, sl + sr + 1 >= F(mx + 1 + 2) - 1)
class ModFacts(Lemma):
    name = 'lemma: remainder'
    def lemmas(self):
        import slist
        a, b, q, m = (fresh(n, I) for n in ('a', 'b', 'q', 'm'))
        sub = lambda f: z3.substitute(f, (slist.UMOD(a, b), m))
        hy = [z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == q * b + m, m >= 0, m < b))]
        yield ('the remainder defined by a = q*b + m, 0 <= m < b has the facts used', [], hy, sub(slist.umod_facts(a, b)))
UNITS = [ModFacts, Adjacency, RbHeight, Pow2Mono, AvlHeight]
