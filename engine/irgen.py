"""Compile a verification TU against /repo's current headers and normalise the IR.

The only transformation steps are clang (front end) and LLVM's own
inliner / SROA / mem2reg / simplifycfg / loop-simplify.  Nothing is
re-written by hand: the IR that is verified is generated from the headers in
/repo on every run."""
import os, re, subprocess, tempfile, hashlib, shutil
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPAT = '/opt/vp/compat'

class BuildError(Exception):
    pass

def clang_flags(std='c++17', defs=()):
    f = ['-std=' + std, '-fno-access-control', '-I' + REPO + '/include', '-I' + VERIF + '/tu']
    if os.path.isdir(COMPAT):
        f += ['-isystem', COMPAT]
    f += ['-D' + d for d in defs]
    return f

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]

def base_name(dem):
    """'ns::algo<T>::minimum(Node*)' -> 'algo::minimum' (templates/args/namespaces stripped)"""
    out, depth = '', 0
    i = 0
    while i < len(dem):
        c = dem[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                break
            out += c
        i += 1
    out = out.split(' ')[-1]
    parts = out.split('::')
    return '::'.join(parts[-2:])

DEFINE = re.compile(r'^define [^@]*@("?[^"(]+"?)\(')

def compile_tu(tu, contracts=(), defs=(), std='c++17', workdir=None, raw=False, norm=None):
    """returns text of the normalised IR; contracts = base names kept out of line"""
    own = workdir is None
    if own:
        workdir = tempfile.mkdtemp(prefix='vir_')
    try:
        src = tu if os.path.isabs(tu) else os.path.join(VERIF, 'tu', tu)
        ll = os.path.join(workdir, 'a.ll')
        cmd = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-S', '-emit-llvm'] + clang_flags(std, defs) + [src, '-o', ll]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(p.stderr[-6000:])
        if raw:
            return open(ll).read()
        lines = open(ll).read().split('\n')
        names = []
        for l in lines:
            m = DEFINE.match(l)
            if m:
                names.append(m.group(1).strip('"'))
        dem = dict(zip(names, demangle(names)))
        out = []
        for l in lines:
            m = DEFINE.match(l)
            if m:
                n = m.group(1).strip('"')
                keep = n.startswith('v_') or n.startswith('__clang') or base_name(dem[n]) in contracts
                # attribute goes after the closing paren of the parameter list
                k = find_close(l, l.index('(', m.start(1)))
                rest = l[k + 1:]
                um = re.match(r'( (?:local_)?unnamed_addr)?', rest)
                l = l[:k + 1] + um.group(0) + (' noinline' if keep else ' alwaysinline') + rest[um.end():]
            elif l.startswith('attributes #'):
                l = re.sub(r'\b(noinline|inlinehint|optnone)\b ?', '', l)
            out.append(l)
        ll2 = os.path.join(workdir, 'b.ll')
        open(ll2, 'w').write('\n'.join(out))
        ll3 = os.path.join(workdir, 'c.ll')
        passes = 'always-inline,function(sroa,simplifycfg,instsimplify,sroa,simplifycfg,loop-simplify),globaldce'
        p = subprocess.run(['opt', '-S', '-passes=' + passes, ll2, '-o', ll3], capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError('opt: ' + p.stderr[-3000:])
        return open(ll3).read()
    finally:
        if own:
            shutil.rmtree(workdir, ignore_errors=True)

def find_close(s, k):
    d = 0
    for i in range(k, len(s)):
        if s[i] == '(':
            d += 1
        elif s[i] == ')':
            d -= 1
            if d == 0:
                return i
    raise BuildError('unbalanced define line')

if __name__ == '__main__':
    import sys
    print(compile_tu(sys.argv[1], contracts=sys.argv[2:]))
