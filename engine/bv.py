"""Contract checker for straight-line / fully unrollable code over machine words and bytes of memory.

Executes the LLVM IR of the real function symbolically (every path, loops unrolled until the solver shows the
continuation infeasible - no bound is assumed: reaching the cap is an error, not a success) and discharges the
contract's postconditions for all arguments.  Two theories: 'bv' (bit vectors, exact machine arithmetic, memory =
array of bytes) and 'int' (unsigned machine words as integers in [0,2^w) with explicit wrap-around)."""
import time, re
import z3
from irparse import Module, IRError

class BVError(Exception):
    pass

class St:
    __slots__ = ('path', 'mem', 'cells', 'brk')
    def __init__(self):
        self.path, self.cells, self.brk = [], {}, 0x7f0000000000
        self.mem = None
    def copy(self):
        s = St()
        s.path, s.cells, s.mem, s.brk = list(self.path), dict(self.cells), self.mem, self.brk
        return s

class BV:
    CAP = 4000
    def __init__(self, module, mode='bv', timeout=60000):
        self.m, self.mode, self.timeout = module, mode, timeout
        self.obls = []
        self.npaths = 0
        self.queries, self.solver_s = 0, 0.0
        self.fresh_n = 0
        self.gaddr, self.faddr, self.gdata = {}, {}, {}
        a = 0x10000000
        for n in list(module.funcs) + list(module.decls):
            self.faddr[n] = a
            a += 16
        self.addrf = {v: k for k, v in self.faddr.items()}
        self.gnext = 0x20000000
        self.hints, self.fork_select = [], False
        self.axioms = []
    # ---- values
    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if self.mode == 'bv':
            return z3.BitVec(n, w)
        v = z3.Int(n)
        self.axioms += [v >= 0, v < 2 ** w]
        return v
    def const(self, x, w):
        return z3.BitVecVal(x, w) if self.mode == 'bv' else z3.IntVal(x % (2 ** w))
    def conc(self, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v) or z3.is_int_value(v):
            return v.as_long()
        return None
    def width(self, t):
        t = self.m.resolve(t)
        if t[0] == 'int':
            return t[1]
        if t[0] == 'ptr':
            return 64
        raise BVError('width of %s' % (t,))
    # ---- solver
    def solve(self, fs):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        import vc
        if vc.SEED:
            s.set('random_seed', vc.SEED)
        for f in self.axioms:
            s.add(f)
        for f in fs:
            s.add(f)
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return r
    def oblige(self, st, label, goal):
        if z3.is_true(z3.simplify(goal)):
            self.obls.append((label, True, 'simplified', 0.0))
            return
        t = time.time()
        r = self.solve(st.path + [z3.Not(goal)])
        self.obls.append((label, r == z3.unsat, str(r), round(time.time() - t, 3)))
    # ---- globals
    def glob(self, name):
        if name in self.faddr:
            return self.faddr[name]
        if name in self.gaddr:
            return self.gaddr[name]
        l = self.m.globals.get(name)
        if l is None:
            raise BVError('global ' + name)
        from irparse import P, tokenize
        r = l.split(' = ', 1)[1]
        ext = re.search(r'\bexternal\b', r) is not None
        mm = re.search(r'\b(constant|global) ', r)
        const = mm.group(1) == 'constant'
        toks = tokenize(re.sub(r'comdat.*$', '', re.sub(r', align \d+.*$', '', re.sub(r', comdat.*$', '', r[mm.end():]))))
        p = P(toks, self.m)
        t = p.type()
        addr = self.gnext
        self.gaddr[name] = addr
        size, _ = self.m.size_align(t)
        self.gnext += (size + 63) // 32 * 32
        if not ext and const:
            v = p.value(t)
            self.gfill(addr, t, v)
        return addr
    def gfill(self, addr, t, v):
        t = self.m.resolve(t)
        if v[0] == 'zero':
            for i in range(self.m.size_align(t)[0]):
                self.gdata[(addr + i)] = 0
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, _ = self.m.field_off(t, i)
                self.gfill(addr + o, et, ev)
            return
        if v[0] == 'undef':
            return
        x = self.conc(self.val({}, t, v))
        n = self.m.size_align(t)[0]
        for i in range(n):
            self.gdata[addr + i] = (x >> (8 * i)) & 255
    def val(self, env, t, v):
        k = v[0]
        if k == 'loc':
            return env[v[1]]
        t = self.m.resolve(t)
        if k == 'num':
            if t[0] in ('float', 'double'):
                raise BVError('float constant')
            n = v[1]
            return self.const(int(n, 16) if n.startswith('0x') else int(n), self.width(t))
        if k == 'bool':
            return self.const(int(v[1]), 1)
        if k in ('null', 'zero') and t[0] in ('int', 'ptr'):
            return self.const(0, self.width(t))
        if k == 'zero':
            return tuple(self.val(env, self.m.field_off(t, i)[1], v) for i in range(len(t[1]) if t[0] != 'arr' else t[1]))
        if k == 'glob':
            return self.const(self.glob(v[1]), 64)
        if k == 'undef':
            if t[0] in ('struct', 'pstruct'):
                return tuple(self.val(env, f, v) for f in t[1])
            return self.fresh('undef', self.width(t))
        if k == 'cgep':
            return self.gep(env, v[1], v[2])
        if k == 'ccast':
            x = self.val(env, v[2][0], v[2][1])
            return x
        if k == 'agg':
            return tuple(self.val(env, a, b) for a, b in v[1])
        raise BVError('value %s' % (v,))
    def gep(self, env, t, ops):
        base = self.val(env, *ops[0])
        off = self.const(0, 64)
        for n, (it, iv) in enumerate(ops[1:]):
            x = self.val(env, it, iv)
            w = self.width(it)
            if n == 0:
                off = self.badd(off, self.bmulc(self.sext(x, w, 64), self.m.size_align(t)[0]))
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'arr':
                    off = self.badd(off, self.bmulc(self.sext(x, w, 64), self.m.size_align(rt[2])[0]))
                    t = rt[2]
                else:
                    c = self.conc(x)
                    o, t = self.m.field_off(rt, c)
                    off = self.badd(off, self.const(o, 64))
        return self.badd(base, off)
    def wrap(self, x, w):
        return x if self.mode == 'bv' else z3.simplify(x % (2 ** w))
    def badd(self, a, b):
        return z3.simplify(self.wrap(a + b, 64))
    def bmulc(self, a, c):
        return z3.simplify(self.wrap(a * (self.const(c, 64)), 64))
    def sext(self, x, w, w2):
        if w == w2:
            return x
        if self.mode == 'bv':
            return z3.simplify(z3.SignExt(w2 - w, x))
        return z3.simplify(z3.If(x < 2 ** (w - 1), x, x + (2 ** w2 - 2 ** w)))
    def signed(self, x, w):
        return z3.If(x < 2 ** (w - 1), x, x - 2 ** w)
    def b2v(self, c):
        c = z3.simplify(c)
        return z3.simplify(z3.If(c, self.const(1, 1), self.const(0, 1)))
    def tobool(self, v):
        return z3.simplify(v == self.const(1, 1))
    def icmp(self, pr, a, b, w):
        if pr == 'eq':
            return a == b
        if pr == 'ne':
            return a != b
        if self.mode == 'bv':
            return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pr](a, b)
        if pr[0] == 's':
            a, b = self.signed(a, w), self.signed(b, w)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
    def binop(self, st, op, a, b, w):
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, 'shift amount is below the width', z3.ULT(b, w) if self.mode == 'bv' else b < w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, 'divisor is not zero', b != 0)
        if self.mode == 'bv':
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
            return z3.simplify(r)
        M = 2 ** w
        cb, ca = self.conc(b), self.conc(a)
        if op == 'add':
            return self.red(st, a + b, w)
        if op == 'sub':
            return self.red(st, a - b, w)
        if op == 'mul':
            return self.red(st, a * b, w)
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            return self.b2v({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
        if op == 'lshr' and cb is not None:
            k = self.by_hint(st, a, 2 ** cb)
            return k if k is not None else z3.simplify(a / z3.IntVal(2 ** cb))
        if op == 'shl' and cb is not None:
            return self.red(st, a * 2 ** cb, w)
        if op == 'shl' and ca is not None:
            r = z3.IntVal(0)
            for k in range(w):
                r = z3.If(b == k, z3.IntVal(ca * 2 ** k % M), r)
            return r
        if op in ('udiv', 'urem'):
            if cb:
                return z3.simplify(a / z3.IntVal(cb) if op == 'udiv' else a % z3.IntVal(cb))
            q, r = self.divmod(a, b)
            return q if op == 'udiv' else r
        if op == 'and':
            for x, c in ((a, cb), (b, ca)):
                if c is not None and (c & (c + 1)) == 0:
                    return z3.simplify(x % z3.IntVal(c + 1))
        raise BVError('int mode: %s' % op)
    def divmod(self, a, b):
        """quotient and remainder, characterised by a = q*b + r, 0 <= r < b (as functions of a and b)"""
        q, r = z3.Function('UDIV', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b), z3.Function('UREM', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        ax = z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a))
        if not any(ax.eq(x) for x in self.axioms):
            self.axioms.append(ax)
        return q, r
    def red(self, st, x, w):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return z3.IntVal(x.as_long() % 2 ** w)
        # no wrap-around: keep the exact value when the solver shows it stays in range
        s = z3.Solver()
        s.set('timeout', 2000)
        for f in self.axioms + st.path:
            s.add(f)
        s.add(z3.Or(x < 0, x >= 2 ** w))
        self.queries += 1
        if s.check() == z3.unsat:
            return x
        k = self.by_hint(st, x, 2 ** w)
        if k is not None:
            return z3.simplify(x - k * 2 ** w)
        return z3.simplify(x % (2 ** w))
    def by_hint(self, st, x, d):
        """a quotient k offered by the contract is used only after the solver proves k*d <= x < (k+1)*d"""
        for k in self.hints:
            s = z3.Solver()
            s.set('timeout', 5000)
            for f in self.axioms + st.path:
                s.add(f)
            s.add(z3.Or(x < k * d, x >= k * d + d))
            self.queries += 1
            if s.check() == z3.unsat:
                return k
        return None
    # ---- memory
    def load(self, st, addr, t):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr', 'pstruct'):
            n = len(t[1]) if t[0] != 'arr' else t[1]
            return tuple(self.load(st, self.badd(addr, self.const(self.m.field_off(t, i)[0], 64)), self.m.field_off(t, i)[1]) for i in range(n))
        n, w = self.m.size_align(t)[0], self.width(t)
        c = self.conc(addr)
        if c is not None:
            if all((c + i) in self.gdata for i in range(n)):
                x = 0
                for i in range(n):
                    x |= self.gdata[c + i] << (8 * i)
                return self.const(x, w)
            if (c, n) in st.cells:
                return st.cells[(c, n)]
            hit = [k for k in st.cells if k[0] < c + n and c < k[0] + k[1]]
            if c >= 0x7f0000000000 or hit:
                if self.mode == 'bv' and hit:
                    bs = []
                    for i in range(n):
                        h = [k for k in st.cells if k[0] <= c + i < k[0] + k[1]]
                        if not h:
                            bs.append(self.fresh('uninit', 8))
                        else:
                            v = st.cells[h[0]]
                            o = c + i - h[0][0]
                            v = z3.ZeroExt(h[0][1] * 8 - v.size(), v) if v.size() < h[0][1] * 8 else v
                            bs.append(z3.Extract(o * 8 + 7, o * 8, v))
                    r = bs[0] if n == 1 else z3.Concat(*reversed(bs))
                    return z3.simplify(z3.Extract(w - 1, 0, r))
                return self.fresh('uninit', w)
        if self.mode != 'bv':
            raise BVError('int mode: load from %s' % addr)
        bs = [z3.Select(st.mem, addr + i) for i in range(n)]
        r = bs[0] if n == 1 else z3.Concat(*reversed(bs))
        return z3.simplify(z3.Extract(w - 1, 0, r))
    def store(self, st, addr, t, v):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr', 'pstruct'):
            for i in range(len(t[1]) if t[0] != 'arr' else t[1]):
                o, ft = self.m.field_off(t, i)
                self.store(st, self.badd(addr, self.const(o, 64)), ft, v[i])
            return
        n, w = self.m.size_align(t)[0], self.width(t)
        c = self.conc(addr)
        if c is not None:
            over = [k for k in st.cells if k != (c, n) and k[0] < c + n and c < k[0] + k[1]]
            for k in over:
                old = st.cells.pop(k)
                if self.mode != 'bv':
                    raise BVError('int mode: overlapping store')
                old = z3.ZeroExt(k[1] * 8 - old.size(), old) if old.size() < k[1] * 8 else old
                for i in range(k[1]):
                    if not c <= k[0] + i < c + n:
                        st.cells[(k[0] + i, 1)] = z3.simplify(z3.Extract(i * 8 + 7, i * 8, old))
            st.cells[(c, n)] = v
            return
        if self.mode != 'bv':
            raise BVError('int mode: store to %s' % addr)
        v = z3.ZeroExt(n * 8 - w, v) if w < n * 8 else v
        for i in range(n):
            st.mem = z3.Store(st.mem, z3.simplify(addr + i), z3.simplify(z3.Extract(i * 8 + 7, i * 8, v)))
    # ---- execution
    def run(self, fn, args, st, depth=0):
        """-> list of (state, return value)"""
        if depth > 30:
            raise BVError('call depth')
        f = self.m.funcs[fn]
        if len(args) != len(f.params):
            raise BVError('arity of ' + fn)
        env0 = {p[1]: a for p, a in zip(f.params, args)}
        out = []
        work = [(f.entry, None, 0, env0, st, {})]
        while work:
            bn, prev, ip, env, st, vis = work.pop()
            blk = f.blocks[bn]
            if ip == 0:
                vis = dict(vis)
                vis[bn] = vis.get(bn, 0) + 1
                if vis[bn] > 200:
                    raise BVError('loop not shown to terminate within 200 iterations')
                new = {}
                for I in blk.ins:
                    if I.op != 'phi':
                        break
                    for v, b in I.x['inc']:
                        if b == prev:
                            new[I.res] = self.val(env, I.ty, v)
                            break
                    else:
                        raise BVError('phi')
                env = dict(env)
                env.update(new)
            j = ip
            done = False
            while not done:
                I = blk.ins[j]
                j += 1
                if I.op == 'phi':
                    continue
                if I.op in ('call', 'invoke'):
                    res = self.call(I, env, st, depth)
                    if I.op == 'invoke':
                        for s2, v in res:
                            e2 = dict(env)
                            e2[I.res] = v
                            work.append((I.x['dests'][0], bn, 0, e2, s2, vis))
                        done = True
                        continue
                    if len(res) == 1:
                        st, v = res[0]
                        if I.res:
                            env[I.res] = v
                        continue
                    for s2, v in res:
                        e2 = dict(env)
                        if I.res:
                            e2[I.res] = v
                        work.append((bn, prev, j, e2, s2, vis))
                    done = True
                    continue
                if I.op == 'ret':
                    out.append((st, self.val(env, I.ty, I.args[0]) if I.args else None))
                    self.npaths += depth == 0
                    done = True
                elif I.op == 'br':
                    d = I.x['dests']
                    if len(d) == 1:
                        work.append((d[0], bn, 0, env, st, vis))
                    else:
                        c = self.tobool(self.val(env, ('int', 1), I.args[0]))
                        self.branch(work, st, env, bn, vis, [(c, d[0]), (z3.Not(c), d[1])])
                    done = True
                elif I.op == 'switch':
                    v = self.val(env, I.ty, I.args[0])
                    w = self.width(I.ty)
                    al, neg = [], []
                    for cv, d in I.x['cases']:
                        c = v == self.val(env, I.ty, cv)
                        al.append((c, d))
                        neg.append(z3.Not(c))
                    al.append((z3.And(*neg), I.x['default']))
                    self.branch(work, st, env, bn, vis, al)
                    done = True
                elif I.op == 'unreachable':
                    self.oblige(st, 'unreachable code is not reached (%s)' % self.m.loc(I.dbg), z3.BoolVal(False))
                    done = True
                elif I.op == 'select' and self.fork_select and self.conc(self.val(env, ('int', 1), I.args[0])) is None:
                    c = self.tobool(self.val(env, ('int', 1), I.args[0]))
                    for cc, v in ((c, I.args[1]), (z3.Not(c), I.args[2])):
                        s2, e2 = st.copy(), dict(env)
                        s2.path.append(cc)
                        if self.solve(s2.path) == z3.unsat:
                            continue
                        e2[I.res] = self.val(env, I.ty, v)
                        work.append((bn, prev, j, e2, s2, vis))
                    done = True
                else:
                    r = self.ins(I, env, st)
                    if I.res:
                        env[I.res] = r
        return out
    def branch(self, work, st, env, bn, vis, alts):
        for c, d in alts:
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            s2 = st.copy()
            if not z3.is_true(c):
                s2.path.append(c)
                if self.solve(s2.path) == z3.unsat:
                    continue
            work.append((d, bn, 0, env, s2, vis))
    def ins(self, I, env, st):
        op = I.op
        if op == 'bin':
            w = self.width(I.ty)
            return self.binop(st, I.x['kind'], self.val(env, I.ty, I.args[0]), self.val(env, I.ty, I.args[1]), w)
        if op == 'icmp':
            w = self.width(I.ty)
            return self.b2v(self.icmp(I.x['pred'], self.val(env, I.ty, I.args[0]), self.val(env, I.ty, I.args[1]), w))
        if op == 'select':
            c = self.tobool(self.val(env, ('int', 1), I.args[0]))
            a, b = self.val(env, I.ty, I.args[1]), self.val(env, I.ty, I.args[2])
            return z3.simplify(z3.If(c, a, b))
        if op == 'cast':
            t0, v = I.args[0]
            x = self.val(env, t0, v)
            k = I.x['kind']
            w0, w1 = self.width(t0), self.width(I.ty)
            if k in ('ptrtoint', 'inttoptr', 'bitcast') and w0 == w1:
                return x
            if k == 'zext':
                return z3.simplify(z3.ZeroExt(w1 - w0, x)) if self.mode == 'bv' else x
            if k == 'sext':
                return self.sext(x, w0, w1)
            if k in ('trunc', 'ptrtoint'):
                return z3.simplify(z3.Extract(w1 - 1, 0, x)) if self.mode == 'bv' else self.red(st, x, w1)
            raise BVError('cast ' + k)
        if op == 'gep':
            return self.gep(env, I.ty, I.args)
        if op == 'alloca':
            n, a = self.m.size_align(I.ty)
            r = st.brk
            st.brk += (n + 31) // 16 * 16
            return self.const(r, 64)
        if op == 'load':
            return self.load(st, self.val(env, *I.args[0]), I.ty)
        if op == 'store':
            (t, v), p = I.args
            self.store(st, self.val(env, *p), t, self.val(env, t, v))
            return None
        if op == 'extractvalue':
            v = self.val(env, I.ty, I.args[0])
            for i in I.x['idx']:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(env, I.ty, I.args[0])
            x = self.val(env, I.x['vt'], I.args[1])
            def ins(v, idx):
                return v[:idx[0]] + ((ins(v[idx[0]], idx[1:]) if len(idx) > 1 else x),) + v[idx[0] + 1:]
            return ins(v, I.x['idx'])
        if op == 'freeze':
            return self.val(env, I.ty, I.args[0])
        raise BVError('instruction %s' % op)
    def call(self, I, env, st, depth):
        cal = I.x['callee']
        if cal[0] == '%':
            c = self.conc(env[cal])
            if c is None or c not in self.addrf:
                raise BVError('indirect call not resolved')
            name = self.addrf[c]
        else:
            name = cal[1:].strip('"')
        args = [self.val(env, t, v) for t, v in I.args]
        if name.startswith('llvm.'):
            return [(st, self.intrinsic(name, args, I, st))]
        if name == 'v_assert_fail':
            self.oblige(st, 'library assertion holds (%s)' % self.m.loc(I.dbg), z3.BoolVal(False))
            return []
        h = getattr(self, 'handlers', {}).get(name)
        if h:
            return h(self, st, args)
        if name in self.m.funcs:
            return self.run(name, args, st, depth + 1)
        raise BVError('call to unknown function ' + name)
    def intrinsic(self, name, a, I, st):
        w = self.width(I.ty) if I.ty != ('void',) else 0
        if name.startswith('llvm.ctlz.') or name.startswith('llvm.cttz.'):
            if self.conc(a[1]) == 1:
                self.oblige(st, 'count-leading-zeros argument is not zero', a[0] != 0)
            r = self.const(w, w)
            for i in (range(w) if 'ctlz' in name else reversed(range(w))):
                bit = (z3.Extract(i, i, a[0]) == 1) if self.mode == 'bv' else (a[0] / z3.IntVal(2 ** i)) % 2 == 1
                if self.mode == 'int' and 'ctlz' in name:
                    bit = a[0] >= 2 ** i
                r = z3.If(bit, self.const(w - 1 - i if 'ctlz' in name else i, w), r)
            return r
        if name.startswith('llvm.umax'):
            return z3.If(self.icmp('ugt', a[0], a[1], w), a[0], a[1])
        if name.startswith('llvm.umin'):
            return z3.If(self.icmp('ult', a[0], a[1], w), a[0], a[1])
        if name.startswith('llvm.memcpy') and self.conc(a[2]) is not None:
            n = self.conc(a[2])
            i = 0
            while i < n:
                k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
                t = ('int', 8 * k)
                v = self.load(st, self.badd(a[1], self.const(i, 64)), t)
                self.store(st, self.badd(a[0], self.const(i, 64)), t, v)
                i += k
            return None
        if name.startswith('llvm.memset') and self.conc(a[2]) is not None:
            for i in range(self.conc(a[2])):
                self.store(st, self.badd(a[0], self.const(i, 64)), ('int', 8), a[1])
            return None
        if name.startswith('llvm.expect'):
            return a[0]
        raise BVError('intrinsic ' + name)

class BUnit:
    """contract: for every case (args, hypotheses), every path's postconditions hold"""
    engine = 'bv'
    tu, fn, mode, defs, std, norm, contracts = None, None, 'bv', (), 'c++17', None, {}
    name = None
    def cases(self, E):
        raise NotImplementedError
    def post(self, E, case, st, ret):
        raise NotImplementedError

def run_unit(module, cls):
    t0 = time.time()
    u = cls()
    E = BV(module, u.mode)
    tot, paths = [], 0
    fns = [u.fn] if isinstance(u.fn, str) else u.fn
    agg = {}
    for case in u.cases(E):
        E.obls = []
        E.hints, E.fork_select = case.get('hints', []), getattr(u, 'fork_select', False)
        st = St()
        st.path = list(case.get('hyps', ()))
        if E.mode == 'bv':
            st.mem = z3.Array('mem0', z3.BitVecSort(64), z3.BitVecSort(8))
        E.obls.append(('precondition is satisfiable (vacuity check)', E.solve(st.path) != z3.unsat, '', 0))
        fn = case.get('fn', fns[0])
        rets = E.run(fn, case['args'], st.copy())
        if not rets:
            E.obls.append(('some path returns (vacuity check)', False, 'no path', 0))
        for s2, v in rets:
            for g in u.post(E, case, s2, v):
                E.oblige(s2, g[0], g[1])
        lab = case.get('label', '')
        # obligations are numerous (cases x paths): counted one by one, reported grouped by label
        for l, ok, stt, tm in E.obls:
            agg.setdefault((lab if not ok else '', l), []).append((ok, stt, tm))
    obls = []
    for (lab, l), xs in agg.items():
        for ok, stt, tm in xs:
            obls.append((l + (' [%s]' % lab if lab else ''), ok, stt, tm))
    return {'unit': u.name or cls.__name__, 'fn': fns[0], 'obligations': obls, 'paths': E.npaths, 'pruned': 0, 'wall': time.time() - t0, 'queries': E.queries, 'solver_s': E.solver_s, 'insts': 0, 'loops': {}}
