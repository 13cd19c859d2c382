"""C15: node representations and element/node address mappings (bit-exact, memory = array of bytes)."""
import z3
from bv import BUnit, St
def V(x):
    return z3.BitVecVal(x, 64)
A = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
NODES = {
 'list': ['next:P', 'previous:P'], 'slist': ['next:P'], 'tree': ['parent:P', 'left:P', 'right:P'],
 'rb': ['parent:P', 'left:P', 'right:P', 'color:2'], 'rbc': ['parent:P', 'left:P', 'right:P', 'color:2'],
 'avl': ['parent:P', 'left:P', 'right:P', 'balance:3'], 'avlc': ['parent:P', 'left:P', 'right:P', 'balance:3'],
 'un': ['next:P'], 'unh': ['next:P', 'hash:Z'], 'ung': ['next:P', 'prev_in_group:P'], 'unhg': ['next:P', 'prev_in_group:P', 'hash:Z'], 'uga': ['next:P'],
 'anl': ['next:P', 'previous:P'], 'ans': ['next:P'], 'anu': ['next:P', 'prev_in_group:P', 'hash:Z'],
 'anr': ['parent:P', 'left:P', 'right:P', 'color:2'], 'ana': ['parent:P', 'left:P', 'right:P', 'balance:3'], 'ant': ['parent:P', 'left:P', 'right:P'],
}
DESC = {'list': 'list_node_traits', 'slist': 'slist_node_traits', 'tree': 'tree_node_traits', 'rb': 'rbtree_node_traits', 'rbc': 'rbtree_node_traits (compact, colour in pointer bits)', 'avl': 'avltree_node_traits', 'avlc': 'avltree_node_traits (compact, balance in pointer bits)', 'un': 'unordered_node_traits', 'unh': 'unordered_node_traits<store_hash>', 'ung': 'unordered_node_traits<optimize_multikey>', 'unhg': 'unordered_node_traits<store_hash, optimize_multikey>', 'uga': 'unordered_group_adapter', 'anl': 'any_list_node_traits', 'ans': 'any_slist_node_traits', 'anu': 'any_unordered_node_traits', 'anr': 'any_rbtree_node_traits', 'ana': 'any_avltree_node_traits', 'ant': 'any_tree_node_traits'}
CONSTS = {'rb': ('color', ['black', 'red']), 'rbc': ('color', ['black', 'red']), 'anr': ('color', ['black', 'red']), 'avl': ('balance', ['negative', 'zero', 'positive']), 'avlc': ('balance', ['negative', 'zero', 'positive']), 'ana': ('balance', ['negative', 'zero', 'positive'])}

class RB(BUnit):
    tu = 'repr.cpp'
    mode = 'bv'
    def call(self, E, fn, args, st):
        """run a further real function from state st: single path expected"""
        r = E.run(fn, args, st.copy())
        if len(r) != 1:
            raise Exception('%d paths in %s' % (len(r), fn))
        return r[0]
    def cval(self, E, fn):
        st = St()
        st.mem = z3.Const('mem0', A)
        return E.conc(E.run(fn, [], st)[0][1])
    def value(self, E, kind):
        """(value, validity)"""
        if kind == 'P':
            p = E.fresh('v', 64)
            return p, (p & V(7)) == 0
        if kind == 'Z':
            return E.fresh('v', 64), z3.BoolVal(True)
        v = E.fresh('v', 32)
        return v, z3.ULT(v, z3.BitVecVal(int(kind), 32))
    def node(self, E, size, name='n'):
        n = E.fresh(name, 64)
        return n, [(n & V(7)) == 0, n != 0, z3.ULE(n, V(0x7fff00000000))]

def outside(a, n, size):
    return z3.Or(z3.ULT(a, n), z3.UGE(a, n + V(size)))

class NodeSet(RB):
    """set_F(n, v): read back exactly; no other field of n and no byte outside n changes"""
    key, field, kind = None, None, None
    def cases(self, E):
        n, hy = self.node(E, 0)
        self.n = n
        v, ok = self.value(E, self.kind)
        self.v = v
        self.size = self.cval(E, 'v_%s_size' % self.key)
        self.st0 = None
        yield dict(args=[n, v], hyps=hy + [ok] + self.ranges(E, n))
    def ranges(self, E, n):
        """stored enumerators are in range (established by every set below): other fields read back their own value"""
        return []
    def post(self, E, c, st, r):
        k, n = self.key, self.n
        st0 = St()
        st0.path, st0.mem = list(st.path), z3.Const('mem0', A)
        s2, got = self.call(E, 'v_%s_get_%s' % (k, self.field), [n], st)
        yield 'value read back is the value stored', got == self.v
        yield 'reading changes no memory', s2.mem == st.mem
        for f in NODES[k]:
            g = f.split(':')[0]
            if g == self.field:
                continue
            _, a = self.call(E, 'v_%s_get_%s' % (k, g), [n], st0)
            _, b = self.call(E, 'v_%s_get_%s' % (k, g), [n], st)
            yield 'field %s of the same node unchanged' % g, a == b
        a = E.fresh('addr', 64)
        yield 'no byte outside the node changes', z3.Implies(outside(a, n, self.size), z3.Select(st.mem, a) == z3.Select(st0.mem, a))

class NodeGet(RB):
    """get_F depends on the bytes of the node only, and changes no memory"""
    def cases(self, E):
        n, hy = self.node(E, 0)
        self.n = n
        self.size = self.cval(E, 'v_%s_size' % self.key)
        yield dict(args=[n], hyps=hy)
    def post(self, E, c, st, r):
        n = self.n
        yield 'reading changes no memory', st.mem == z3.Const('mem0', A)
        st1 = St()
        m1 = z3.Const('mem1', A)
        for i in range(self.size):
            m1 = z3.Store(m1, n + V(i), z3.Select(z3.Const('mem0', A), n + V(i)))
        st1.path, st1.mem = list(st.path), m1
        _, b = self.call(E, 'v_%s_get_%s' % (self.key, self.field), [n], st1)
        yield 'value depends on the bytes of this node only', b == r

class Consts(RB):
    def cases(self, E):
        self.vals = [self.cval(E, 'v_%s_%s' % (self.key, c)) for c in CONSTS[self.key][1]]
        yield dict(args=[])
    def post(self, E, c, st, r):
        n = len(self.vals)
        yield 'the flag constants are distinct and within the stored range', z3.BoolVal(sorted(self.vals) == list(range(n)))

class PPB(RB):
    bits = 1
    def cases(self, E):
        n, hy = self.node(E, 8)
        self.n = n
        m = V((1 << self.bits) - 1)
        p, b = E.fresh('p', 64), E.fresh('b', 64)
        self.p, self.b = p, b
        k = 'v_ppb%d_' % self.bits
        yield dict(fn=k + 'set_ptr', args=[n, p], hyps=hy + [(p & m) == 0], label='set_pointer', what='ptr')
        yield dict(fn=k + 'set_bits', args=[n, b], hyps=hy + [z3.ULE(b, m)], label='set_bits', what='bits')
    def post(self, E, c, st, r):
        k = 'v_ppb%d_' % self.bits
        st0 = St()
        st0.path, st0.mem = list(st.path), z3.Const('mem0', A)
        _, gp = self.call(E, k + 'get_ptr', [self.n], st)
        _, gb = self.call(E, k + 'get_bits', [self.n], st)
        _, gp0 = self.call(E, k + 'get_ptr', [self.n], st0)
        _, gb0 = self.call(E, k + 'get_bits', [self.n], st0)
        if c['what'] == 'ptr':
            yield 'pointer read back is the pointer stored', gp == self.p
            yield 'bits unchanged', gb == gb0
        else:
            yield 'bits read back are the bits stored', gb == self.b
            yield 'pointer unchanged', gp == gp0
        yield 'pointer carries no bits', (gp & V((1 << self.bits) - 1)) == 0
        a = E.fresh('addr', 64)
        yield 'no byte outside the word changes', z3.Implies(outside(a, self.n, 8), z3.Select(st.mem, a) == z3.Select(st0.mem, a))

class ValueTraits(RB):
    """element -> node -> element and node -> element -> node are the identity, node lies inside the element"""
    def cases(self, E):
        self.vs, self.ns = self.cval(E, 'v_%s_vsize' % self.key), self.cval(E, 'v_%s_nsize' % self.key)
        p, hy = self.node(E, 0, 'p')
        self.p = p
        hy.append(z3.UGE(p, V(4096)))
        yield dict(fn='v_%s_to_node' % self.key, args=[p], hyps=hy, label='element to node', what=0)
        n, hy = self.node(E, 0, 'n')
        self.n = n
        hy.append(z3.UGE(n, V(4096)))
        yield dict(fn='v_%s_to_value' % self.key, args=[n], hyps=hy, label='node to element', what=1)
    def post(self, E, c, st, r):
        k = 'v_%s_' % self.key
        yield 'no memory is changed', st.mem == z3.Const('mem0', A)
        if c['what'] == 0:
            s2, v = self.call(E, k + 'to_value', [r], st)
            yield 'to_value_ptr(to_node_ptr(x)) is x', v == self.p
            _, n2 = self.call(E, k + 'cto_node', [self.p], st)
            yield 'const overload agrees', n2 == r
            yield 'the node lies inside the element', z3.And(z3.UGE(r, self.p), z3.ULE(r + V(self.ns), self.p + V(self.vs)))
        else:
            s2, n = self.call(E, k + 'to_node', [r], st)
            yield 'to_node_ptr(to_value_ptr(n)) is n', n == self.n
            _, v2 = self.call(E, k + 'cto_value', [self.n], st)
            yield 'const overload agrees', v2 == r
    def call(self, E, fn, args, st):
        return RB.call(self, E, fn, args, st)

class Disjoint(RB):
    """hooks of the same object occupy disjoint bytes"""
    def cases(self, E):
        p, hy = self.node(E, 0, 'p')
        self.p = p
        hy.append(z3.UGE(p, V(4096)))
        yield dict(args=[p], hyps=hy)
    def post(self, E, c, st, r):
        ks = self.keys
        rs = [(k, self.call(E, 'v_%s_to_node' % k, [self.p], st)[1], self.cval(E, 'v_%s_nsize' % k)) for k in ks]
        for i in range(len(rs)):
            for j in range(i):
                a, b = rs[i], rs[j]
                yield 'nodes of hooks %s and %s are disjoint' % (b[0], a[0]), z3.Or(z3.ULE(a[1] + V(a[2]), b[1]), z3.ULE(b[1] + V(b[2]), a[1]))

class ParentFromMember(RB):
    def cases(self, E):
        p, hy = self.node(E, 0, 'p')
        self.p = p
        hy.append(z3.UGE(p, V(4096)))
        for m in ('a', 's'):
            yield dict(fn='v_mem_' + m, args=[p], hyps=hy, label='member ' + m, m=m)
    def post(self, E, c, st, r):
        for f in ['v_gpm_' + c['m']] + (['v_gpm_cs'] if c['m'] == 's' else []):
            _, v = self.call(E, f, [r], st)
            yield '%s gives the enclosing object' % f[2:], v == self.p

UNITS = []
def add(cls, nm, **d):
    k = type(nm, (cls,), dict(__module__=__name__, **d))
    globals()[nm] = k
    UNITS.append(k)
for k, fs in NODES.items():
    for f in fs:
        n, kd = f.split(':')
        add(NodeSet, 'Set_%s_%s' % (k, n), key=k, field=n, kind=kd, fn='v_%s_set_%s' % (k, n), name='%s::set_%s' % (DESC[k], n))
        add(NodeGet, 'Get_%s_%s' % (k, n), key=k, field=n, kind=kd, fn='v_%s_get_%s' % (k, n), name='%s::get_%s' % (DESC[k], n))
for k in CONSTS:
    add(Consts, 'Const_' + k, key=k, fn='v_%s_%s' % (k, CONSTS[k][1][0]), name='%s: %s constants' % (DESC[k], CONSTS[k][0]))
for b in (1, 2, 3):
    add(PPB, 'PPB%d' % b, bits=b, fn='v_ppb%d_set_ptr' % b, name='pointer_plus_bits<T*,%d>' % b)
BASE = ['b_list', 'b_list1', 'b_slist', 'b_set', 'b_set2', 'b_avl', 'b_bs', 'b_uset', 'b_anyl']
MEM = ['m_list', 'm_set', 'm_set2', 'm_uset', 'm_slist', 'm_anyl', 'm_avl', 'm_bs', 'mv_list']
VTS = BASE + ['b_sg', 'b_splay', 'b_treap', 'b_anys', 'b_anyr', 'b_anyu'] + MEM + ['f_list', 'd_slist', 't_list']
for k in VTS:
    add(ValueTraits, 'VT_' + k, key=k, fn='v_%s_to_node' % k, name='value traits %s: element/node round trip' % k)
add(Disjoint, 'DisjointBase', keys=BASE, fn='v_b_list_to_node', name='base hooks of one object do not overlap')
add(Disjoint, 'DisjointMember', keys=MEM, fn='v_m_list_to_node', name='member hooks of one object do not overlap')
add(ParentFromMember, 'ParentFromMember', fn='v_mem_a', name='get_parent_from_member')
