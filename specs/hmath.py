"""Contracts of the integer helpers, bucket-index functions and bucket-count tables (C13; C10 uses calculate_h)."""
import z3
from bv import BUnit, BV, St
W = 64
def V(x):
    return z3.BitVecVal(x, 64)
SQRT2_63 = None
def isqrt(n):
    import math
    return math.isqrt(n)

class MB(BUnit):
    tu = 'math.cpp'
    mode = 'bv'

class FloorLog2(MB):
    name = 'floor_log2: 2^r <= x < 2^(r+1)'
    fn = 'v_floor_log2'
    def cases(self, E):
        x = self.x = E.fresh('x', 64)
        yield dict(args=[x], hyps=[x != 0])
    def post(self, E, c, st, r):
        yield 'result below 64', z3.ULT(r, V(64))
        yield 'x shifted right by the result is exactly 1', z3.LShR(self.x, r) == V(1)

class IsPow2(MB):
    name = 'is_pow2: x has at most one bit set'
    fn = 'v_is_pow2'
    def cases(self, E):
        x = self.x = E.fresh('x', 64)
        yield dict(args=[x])
    def post(self, E, c, st, r):
        yield 'result is the definition', (r == z3.BitVecVal(1, 1)) == z3.Or(*[self.x == V(0)] + [self.x == V(1 << k) for k in range(64)])

class CeilLog2(MB):
    name = 'ceil_log2: 2^(r-1) < x <= 2^r'
    fn = 'v_ceil_log2'
    def cases(self, E):
        x = self.x = E.fresh('x', 64)
        yield dict(args=[x], hyps=[x != 0])
    def post(self, E, c, st, r):
        x65, r65 = z3.ZeroExt(2, self.x), z3.ZeroExt(2, r)
        one = z3.BitVecVal(1, 66)
        yield 'result at most 64', z3.ULE(r, V(64))
        yield 'x <= 2^r', z3.ULE(x65, one << r65)
        yield '2^(r-1) < x', z3.Or(r == 0, z3.ULT(one << (r65 - 1), x65))

class CeilPow2(MB):
    name = 'ceil_pow2: least power of two not below x'
    fn = 'v_ceil_pow2'
    def cases(self, E):
        x = self.x = E.fresh('x', 64)
        yield dict(args=[x], hyps=[x != 0, z3.ULE(x, V(1 << 63))])
    def post(self, E, c, st, r):
        yield 'result is a power of two', z3.Or(*[r == V(1 << k) for k in range(64)])
        yield 'result not below x', z3.UGE(r, self.x)
        yield 'half of the result is below x', z3.ULT(z3.LShR(r, 1), self.x)

class PrevPow2(MB):
    name = 'previous_or_equal_pow2: greatest power of two not above x'
    fn = 'v_prev_pow2'
    def cases(self, E):
        x = self.x = E.fresh('x', 64)
        yield dict(args=[x], hyps=[x != 0])
    def post(self, E, c, st, r):
        yield 'result is a power of two', z3.Or(*[r == V(1 << k) for k in range(64)])
        yield 'result not above x', z3.ULE(r, self.x)
        yield 'twice the result is above x', z3.UGT(z3.ZeroExt(1, r) * 2, z3.ZeroExt(1, self.x))

class Sqrt2(MB):
    name = 'sqrt2_pow_2xplus1: ceil(sqrt(2^(2x+1)))'
    fn = 'v_sqrt2'
    def cases(self, E):
        for i in range(64):
            yield dict(args=[V(i)], label='x=%d' % i, i=i)
    def post(self, E, c, st, r):
        v = E.conc(r)
        n = 1 << (2 * c['i'] + 1)
        yield 'result is the square root rounded up', z3.BoolVal(v is not None and (v - 1) ** 2 < n <= v * v)

class CalcH(MB):
    """scapegoat height threshold: the largest h with sqrt(2)^h <= n"""
    name = 'calculate_h_sqrt2: (sqrt 2)^r <= n < (sqrt 2)^(r+1)'
    fn = 'v_calc_h'
    def cases(self, E):
        x = self.x = E.fresh('n', 64)
        for k in range(64):
            yield dict(args=[x], hyps=[z3.LShR(x, k) == V(1)], label='2^%d <= n < 2^%d' % (k, k + 1), k=k)
    def post(self, E, c, st, r):
        k = c['k']
        s = isqrt(1 << (2 * k + 1)) + 1          # least integer >= sqrt(2)*2^k (irrational)
        yield 'result is floor(log_sqrt2 n)', r == z3.If(z3.UGE(self.x, V(s)), V(2 * k + 1), V(2 * k))

class Alpha075(MB):
    name = 'alpha_0_75_by_max_size_t: floor(3n/4), no overflow'
    fn = 'v_alpha075'
    def cases(self, E):
        x = self.x = E.fresh('n', 64)
        yield dict(args=[x])
    def post(self, E, c, st, r):
        x = z3.ZeroExt(2, self.x)
        n34 = z3.UDiv(x * 3, z3.BitVecVal(4, 66))
        rr = z3.ZeroExt(2, r)
        # integer rounding of the product: either rounding of n/4 first or of 3n first
        yield 'result is 3n/4 to within integer rounding', z3.And(z3.ULE(rr, n34), z3.ULE(n34, rr + 3))

class BucketMod(MB):
    name = 'hash_to_bucket (modulo): index = h mod n, below n'
    fn = 'v_bucket_mod'
    mode = 'int'
    def cases(self, E):
        h, n = self.h, self.n = E.fresh('h', 64), E.fresh('n', 64)
        yield dict(args=[h, n], hyps=[n > 0])
    def post(self, E, c, st, r):
        yield 'index below the bucket count', z3.And(r >= 0, r < self.n)
        yield 'index is the remainder', r == E.divmod(self.h, self.n)[1]

class BucketPow2(MB):
    name = 'hash_to_bucket (power of two): index = h mod 2^k'
    fn = 'v_bucket_pow2'
    def cases(self, E):
        h, k = self.h, self.k = E.fresh('h', 64), E.fresh('k', 64)
        self.bc = V(1) << k
        yield dict(args=[h, self.bc], hyps=[z3.ULT(k, V(64))])
    def post(self, E, c, st, r):
        yield 'index below the bucket count', z3.ULT(r, self.bc)
        yield 'index is the remainder', (z3.LShR(self.h, self.k) << self.k) + r == self.h

class SplitPlain(BucketMod):
    name = 'hash_to_bucket_split (modulo, not incremental): index = h mod n for any split'
    fn = 'v_split_ff'
    def cases(self, E):
        h, n, s = E.fresh('h', 64), E.fresh('n', 64), E.fresh('s', 64)
        self.h, self.n = h, n
        yield dict(args=[h, n, s], hyps=[n > 0])

class SplitPow2(BucketPow2):
    name = 'hash_to_bucket_split (power of two, not incremental): index = h mod 2^k for any split'
    fn = 'v_split_tf'
    def cases(self, E):
        h, k, s = E.fresh('h', 64), E.fresh('k', 64), E.fresh('s', 64)
        self.h, self.k = h, k
        self.bc = V(1) << k
        yield dict(args=[h, self.bc, s], hyps=[z3.ULT(k, V(64))])

class SplitInc(MB):
    """bucket count 2^k, split in (bc/2 .. bc]: linear hashing"""
    name = 'hash_to_bucket_split (incremental): bucket of the split state, below split'
    fn = 'v_split_tt'
    def cases(self, E):
        h, k, s = self.h, self.k, self.s = E.fresh('h', 64), E.fresh('k', 64), E.fresh('s', 64)
        self.bc = V(1) << k
        yield dict(args=[h, self.bc, s], hyps=[z3.ULT(k, V(64)), z3.UGE(s, z3.LShR(self.bc, 1)), z3.ULE(s, self.bc), s != 0])
    def post(self, E, c, st, r):
        full = self.h & (self.bc - 1)
        half = self.h & (z3.LShR(self.bc, 1) - 1)
        yield 'index below the split', z3.ULT(r, self.s)
        yield 'index is h mod n when that bucket is split already, else h mod n/2', r == z3.If(z3.ULT(full, self.s), full, half)

class FastMod(MB):
    """every table entry: folded 32-bit hash mod size below index 32, exact 64-bit remainder above"""
    name = 'prime_fmod_size::position: index = (folded) hash mod size(i), every table entry'
    fn = 'v_split_fast'
    mode = 'int'
    def cases(self, E):
        self.sizes, self.tab = table(E)
        for i in range(len(self.sizes)):
            E.axioms = []
            h, n = E.fresh('h', 64), E.fresh('n', 64)
            d = self.sizes[i]
            # names for the digits and quotients of h (they always exist): h = hi*2^32+lo, lo+hi = cy*2^32+a, a = q*d+r
            hi, lo, cy, a = E.fresh('hi', 32), E.fresh('lo', 32), E.fresh('cy', 1), E.fresh('a', 32)
            q, r = E.fresh('q', 64), E.fresh('r', 64)
            yield dict(args=[h, n, z3.IntVal(i)], hyps=[h == hi * 2 ** 32 + lo, lo + hi == cy * 2 ** 32 + a, r < d, (a if d < 2 ** 32 else h) == q * d + r], label='size index %d' % i, i=i, r=r, hints=[hi, cy, q, r])
    def post(self, E, c, st, r):
        d = self.sizes[c['i']]
        yield 'index below the bucket count', z3.And(r >= 0, r < d)
        # documented value: remainder of the 32-bit fold for sizes that fit in 32 bits, of the hash itself above
        yield 'index is the remainder of the %s' % ('folded hash' if d < 2 ** 32 else 'hash'), r == c['r']

_tab = {}
def table(E):
    """the real prime table, read through the real accessor"""
    B = BV(E.m, 'bv')
    out = []
    l = B.m.globals
    i = 0
    while True:
        st = St()
        st.mem = z3.Array('mem0', z3.BitVecSort(64), z3.BitVecSort(8))
        r = B.run('v_size', [V(i)], st)
        v = B.conc(r[0][1]) if len(r) == 1 else None
        if v is None:
            break
        out.append(v)
        i += 1
        if i > 200:
            break
    return out, B

def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):   # deterministic below 3.3e24
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

class Table(MB):
    name = 'bucket-count table: strictly increasing primes'
    fn = 'v_size'
    def cases(self, E):
        t, _ = table(E)
        self.t = t
        for i in range(len(t)):
            yield dict(args=[V(i)], label='entry %d' % i, i=i)
    def post(self, E, c, st, r):
        i, v = c['i'], E.conc(r)
        yield 'entry is a prime', z3.BoolVal(v is not None and is_prime(v))
        yield 'entry exceeds the previous one', z3.BoolVal(i == 0 or v > self.t[i - 1])

class Suggest(MB):
    lower, bits, index = True, 64, False
    fork_select = True
    def cases(self, E):
        self.t, _ = table(E)
        x = self.x = E.fresh('n', self.bits)
        yield dict(args=[x])
    def post(self, E, c, st, r):
        w, M = self.bits, 2 ** self.bits - 1
        x = z3.ZeroExt(64 - w, self.x) if w < 64 else self.x
        ge = (lambda v: z3.UGE(V(v), x)) if self.lower else (lambda v: z3.UGT(V(v), x))
        rv = z3.ZeroExt(64 - w, r) if r.size() < 64 else r
        if self.index:
            e = V(len(self.t) - 1)
            for i in range(len(self.t) - 2, -1, -1):
                e = z3.If(ge(self.t[i]), V(i), e)
            yield 'index of the first table size that is not below (above) the request, or the last', rv == e
        else:
            e = V(min(self.t[-1], M))
            for v in reversed(self.t[:-1]):
                e = z3.If(ge(v), V(min(v, M)), e)
            yield 'first table size that is not below (above) the request, or the largest', rv == e
            ok = z3.ULE(x, V(min(self.t[-1], M))) if self.lower else z3.ULT(x, V(min(self.t[-1], M)))
            yield 'result is not below (above) the request whenever one exists', z3.Implies(ok, z3.UGE(rv, x) if self.lower else z3.UGT(rv, x))
def mk(nm, fn, lower, bits, index):
    return type(nm, (Suggest,), dict(fn=fn, lower=lower, bits=bits, index=index, name='suggested %s bucket count%s, %d-bit size_type' % ('lower' if lower else 'upper', ' index' if index else '', bits), __module__=__name__))
UNITS = [FloorLog2, IsPow2, CeilLog2, CeilPow2, PrevPow2, Sqrt2, CalcH, Alpha075, BucketMod, BucketPow2, SplitPlain, SplitPow2, SplitInc, FastMod, Table]
for lo in (True, False):
    s = 'lower' if lo else 'upper'
    for b, suf in ((64, ''), (32, '32'), (16, '16')):
        k = mk('Suggest%s%d' % (s.title(), b), 'v_%s%s' % (s, suf), lo, b, False)
        globals()[k.__name__] = k
        UNITS.append(k)
    k = mk('Suggest%sIdx' % s.title(), 'v_%s_idx' % s, lo, 64, True)
    globals()[k.__name__] = k
    UNITS.append(k)
