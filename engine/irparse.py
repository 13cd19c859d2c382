"""Parser for the subset of textual LLVM 18 IR that the normalised TUs use."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s+|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[\w.$-]+))|(?P<glob>@(?:"[^"]*"|[\w.$-]+))|(?P<meta>!(?:[\w.]+)?)|(?P<attr>\#\d+)|(?P<num>-?(?:0x[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))|(?P<word>[A-Za-z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*:|])''')

def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise IRError('token at: ' + s[i:i + 60])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out

ATTRS = set('noundef nonnull noalias nocapture readonly readnone writeonly returned zeroext signext inreg sret byval byref immarg nofree nest dead_on_unwind swiftself inalloca writable'.split())
FASTF = set('nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds disjoint nneg'.split())

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'text')
    def __init__(self, op, res, ty=None, args=None, **x):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args or [], x
        self.dbg = None
        self.text = ''

class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []

class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (ty, name)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %s got %s in %s' % (v, self.peek(), self.t))
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('int', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
            elif v in ('void', 'label', 'metadata', 'float', 'double', 'token'):
                t = (v,)
            elif v == 'x86_fp80':
                t = ('x86_fp80',)
            else:
                raise IRError('type ' + v)
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = ('struct', tuple(fs))
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = ('pstruct', tuple(fs))
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif k == 'loc':
            t = ('named', v)
        else:
            raise IRError('type %s %s' % (k, v))
        while self.peek()[1] == '(':   # function type
            d = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRS:
                self.i += 1
                if v in ('sret', 'byval', 'byref', 'inalloca') and self.peek()[1] == '(':
                    self.skip_paren()
            elif k == 'word' and v in ('align', ):
                self.i += 2
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'initializes', 'memory', 'align', 'elementtype', 'allocsize'):
                self.i += 1
                self.skip_paren()
            elif k == 'attr':
                self.i += 1
            else:
                return
    def skip_paren(self):
        d = 0
        while True:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return
    def value(self, ty):
        """-> ('loc',name)|('const',..)"""
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            return ('num', v)
        if k == 'word':
            if v in ('true', 'false'):
                return ('bool', v == 'true')
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('none',)
            if v in ('getelementptr',):
                while self.peek()[1] in FASTF:
                    self.next()
                if self.peek()[1] == 'inrange':
                    self.next(); self.skip_paren()
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = [self.tyval()]
                while self.accept(','):
                    ops.append(self.tyval())
                self.expect(')')
                return ('cgep', t, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
                self.expect('(')
                a = self.tyval()
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, a, t2)
            if v in ('sub', 'add', 'icmp'):
                raise IRError('constexpr ' + v)
        if v in ('{', '['):
            end = '}' if v == '{' else ']'
            xs = []
            while not self.accept(end):
                xs.append(self.tyval())
                self.accept(',')
            return ('agg', xs)
        if v == '<':
            raise IRError('vector const')
        raise IRError('value %s %s' % (k, v))
    def tyval(self):
        t = self.type()
        self.attrs()
        if t == ('metadata',):
            # skip metadata operand
            d = 0
            while True:
                k, v = self.peek()
                if v in (',', ')') and d == 0:
                    break
                if v == '(':
                    d += 1
                if v == ')':
                    d -= 1
                self.i += 1
            return (t, ('undef',))
        return (t, self.value(t))

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast uitofp sitofp fptoui fptosi fpext fptrunc addrspacecast'.split())

class Module:
    def __init__(self, text):
        self.funcs, self.types, self.md, self.globals, self.decls = {}, {}, {}, {}, {}
        self.nounwind_groups = set()
        self.parse(text)
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        for l in lines:
            m = re.match(r'^attributes #(\d+) = \{(.*)\}', l)
            if m and re.search(r'\bnounwind\b', m.group(2)):
                self.nounwind_groups.add(m.group(1))
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.func(l, body)
            elif l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                if r.strip() != 'opaque':
                    self.types[n] = P(tokenize(r), self).type()
            elif l.startswith('@') and ' = ' in l:
                self.globals[l.split(' = ', 1)[0][1:].strip('"')] = l
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('!'):
                m = re.match(r'^(!\d+) = (.*)$', l)
                if m:
                    self.md[m.group(1)] = m.group(2)
            i += 1
    def is_nounwind(self, attrs_text):
        return any(g in self.nounwind_groups for g in re.findall(r'#(\d+)', attrs_text))
    def func(self, header, body):
        m = re.match(r'^define .*?@("[^"]*"|[\w.$-]+)\(', header)
        f = Func(m.group(1).strip('"'))
        k = m.end() - 1
        pre = header[len('define '):m.start(1) - 1]
        toks = [t for t in tokenize(pre)]
        # strip linkage words
        SK = set('linkonce_odr weak_odr internal private hidden dso_local external weak noundef nonnull zeroext signext noalias local_unnamed_addr available_externally protected'.split())
        p = P(toks, self)
        while True:
            kk, v = p.peek()
            if kk == 'word' and v in SK:
                p.i += 1
            elif kk == 'word' and v in ('align',):
                p.i += 2
            elif kk == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range'):
                p.i += 1; p.skip_paren()
            else:
                break
        f.ret = p.type()
        # params
        d = 0
        for j in range(k, len(header)):
            if header[j] == '(':
                d += 1
            elif header[j] == ')':
                d -= 1
                if d == 0:
                    break
        p = P(tokenize(header[k + 1:j]), self)
        n = 0
        while p.i < len(p.t):
            if p.accept('...'):
                break
            t = p.type()
            p.attrs()
            if p.peek()[0] == 'loc':
                name = p.next()[1]
            else:
                name = '%%%d' % n
            n += 1
            f.params.append((t, name))
            p.accept(',')
        cur = None
        # join multi-line instrs
        joined = []
        for l in body:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if re.match(r'^("[^"]*"|[\w.$-]+):', l):
                joined.append(('label', re.match(r'^("[^"]*"|[\w.$-]+):', l).group(1)))
            elif l.startswith('          ') or s == ']' or (joined and joined[-1][0] == 'sw'):
                prev = joined.pop()
                t = prev[1] + ' ' + s
                if prev[0] == 'sw' and s.startswith(']'):
                    joined.append(('ins', t))
                else:
                    joined.append((prev[0], t))
            elif s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s:
                joined.append(('sw', s))
            else:
                joined.append(('ins', s))
        for k2, s in joined:
            if k2 == 'label':
                cur = Block('%' + s)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%' + str(n))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            ins = self.instr(s)
            if ins is not None:
                cur.ins.append(ins)
        f.entry = f.order[0]
        self.funcs[f.name] = f
    def instr(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
        orig = s
        s = re.sub(r'(, )?![\w.]+ !\d+', '', s)  # strip metadata attachments
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        I = None
        if op == 'ret':
            t = p.type()
            I = Instr('ret', None, t, [] if t == ('void',) else [p.value(t)])
        elif op == 'br':
            t = p.type()
            if t == ('label',):
                I = Instr('br', None, None, [], dests=[p.next()[1]])
            else:
                c = p.value(t)
                p.expect(','); p.type(); a = p.next()[1]
                p.expect(','); p.type(); b = p.next()[1]
                I = Instr('br', None, None, [c], dests=[a, b])
        elif op == 'switch':
            t, v = p.tyval()
            p.expect(','); p.type(); d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tyval()
                p.expect(','); p.type()
                cases.append((cv, p.next()[1]))
            I = Instr('switch', None, t, [v], default=d, cases=cases)
        elif op == 'unreachable':
            I = Instr('unreachable', None)
        elif op == 'resume':
            I = Instr('resume', None)
        elif op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1]
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            I = Instr('phi', res, t, [], inc=inc)
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in FASTF:
                p.next()
            pr = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            I = Instr(op, res, t, [a, b], pred=pr)
        elif op == 'select':
            ct, c = p.tyval()
            p.expect(',')
            t, a = p.tyval()
            p.expect(',')
            _, b = p.tyval()
            I = Instr('select', res, t, [c, a, b])
        elif op in ('call', 'invoke'):
            while p.peek()[1] in FASTF or p.peek()[1] in ('fastcc', 'ccc', 'tail'):
                p.next()
            # ret attrs
            p.attrs()
            t = p.type()
            p.attrs()
            k, callee = p.next()
            if k not in ('glob', 'loc'):
                raise IRError('callee ' + orig)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tyval())
                p.accept(',')
            rest = ' '.join(x[1] for x in p.t[p.i:])
            if callee[1:].startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume')):
                return None
            if t[0] == 'fn':
                t = t[1]
            I = Instr(op, res, t, args, callee=callee, nounwind=self.is_nounwind(rest))
            if op == 'invoke':
                mm = re.search(r'to label (%(?:"[^"]*"|[\w.$-]+)) unwind label (%(?:"[^"]*"|[\w.$-]+))', s)
                I.x['dests'] = [mm.group(1), mm.group(2)]
        elif op == 'landingpad':
            I = Instr('landingpad', res)
        elif op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            I = Instr('load', res, t, [p.tyval()])
        elif op == 'store':
            p.accept('volatile')
            v = p.tyval()
            p.expect(',')
            I = Instr('store', None, None, [v, p.tyval()])
        elif op == 'getelementptr':
            while p.peek()[1] in FASTF:
                p.next()
            t = p.type()
            ops = []
            while p.accept(','):
                ops.append(p.tyval())
            I = Instr('gep', res, t, ops)
        elif op == 'alloca':
            t = p.type()
            I = Instr('alloca', res, t)
        elif op in CAST:
            while p.peek()[1] in FASTF:
                p.next()
            a = p.tyval()
            p.expect('to')
            I = Instr('cast', res, p.type(), [a], kind=op)
        elif op in BIN:
            while p.peek()[1] in FASTF:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            I = Instr('bin', res, t, [a, b], kind=op)
        elif op == 'freeze':
            t, a = p.tyval()
            I = Instr('freeze', res, t, [a])
        elif op == 'fneg':
            t, a = p.tyval()
            I = Instr('fneg', res, t, [a])
        elif op == 'extractvalue':
            t, a = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            I = Instr('extractvalue', res, t, [a], idx=idx)
        elif op == 'insertvalue':
            t, a = p.tyval()
            p.expect(',')
            t2, b = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            I = Instr('insertvalue', res, t, [a, b], idx=idx, vt=t2)
        elif op == 'fence':
            return None
        else:
            raise IRError('op %s: %s' % (op, orig))
        I.dbg = dbg
        I.text = orig
        return I
    # ---- types
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t
    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = 1
            while n * 8 < t[1]:
                n *= 2
            return n, min(n, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'double':
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'pstruct':
            return sum(self.size_align(f)[0] for f in t[1]), 1
        raise IRError('size of %s' % (t,))
    def field_off(self, t, idx):
        t = self.resolve(t)
        if t[0] == 'struct':
            off = 0
            for j, f in enumerate(t[1]):
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a
                if j == idx:
                    return off, f
                off += s
        if t[0] == 'pstruct':
            return sum(self.size_align(f)[0] for f in t[1][:idx]), t[1][idx]
        if t[0] == 'arr':
            return self.size_align(t[2])[0] * idx, t[2]
        raise IRError('field_off %s' % (t,))
    def loc(self, dbg):
        """source location of a !dbg"""
        if not dbg or dbg not in self.md:
            return '?'
        s = self.md[dbg]
        m = re.search(r'line: (\d+)', s)
        line = m.group(1) if m else '?'
        m = re.search(r'scope: (!\d+)', s)
        sc = m.group(1) if m else None
        file = '?'
        n = 0
        while sc and n < 20:
            d = self.md.get(sc, '')
            m = re.search(r'file: (!\d+)', d)
            if m:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(m.group(1), ''))
                if fm:
                    file = fm.group(1).split('/')[-1]
                break
            m = re.search(r'scope: (!\d+)', d)
            sc = m.group(1) if m else None
            n += 1
        return '%s:%s' % (file, line)

# ---- CFG helpers
def succs(b):
    t = b.ins[-1]
    if t.op == 'br':
        return list(t.x['dests'])
    if t.op == 'switch':
        return [t.x['default']] + [d for _, d in t.x['cases']]
    if t.op == 'invoke':
        return list(t.x['dests'])
    return []

def loops(f):
    """natural loops: header -> set(blocks).  Raises on irreducible flow."""
    preds = {b: [] for b in f.order}
    for b in f.order:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    # dominators (iterative)
    dom = {b: set(f.order) for b in f.order}
    dom[f.entry] = {f.entry}
    reach = set()
    st = [f.entry]
    while st:
        x = st.pop()
        if x in reach:
            continue
        reach.add(x)
        st += succs(f.blocks[x])
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == f.entry or b not in reach:
                continue
            ps = [dom[p] for p in preds[b] if p in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    L = {}
    for b in reach:
        for s in succs(f.blocks[b]):
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in preds[x] if p in reach]
    # irreducibility check: every retreating edge must be a back edge
    color = {}
    def dfs(x):
        stack = [(x, iter(succs(f.blocks[x])))]
        color[x] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1 and s not in dom[n]:
                    raise IRError('irreducible control flow in ' + f.name)
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(succs(f.blocks[s]))))
                    break
            else:
                color[n] = 2
                stack.pop()
    dfs(f.entry)
    return L

if __name__ == '__main__':
    import sys
    m = Module(open(sys.argv[1]).read())
    for f in m.funcs.values():
        print(f.name, f.params, f.ret, len(f.order), {h: len(b) for h, b in loops(f).items()})
