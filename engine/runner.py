"""dev driver: python3-vt runner.py <specmodule> [fn filter...]"""
import sys, os, importlib, traceback, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
import multiprocessing as mp

def load_units(modname):
    m = importlib.import_module(modname)
    return m.UNITS

_mods = {}
def _work(job):
    modname, idx, irfile, shard = job
    from irparse import Module
    import spec as S
    t0 = time.time()
    cls = load_units(modname)[idx]
    try:
        if irfile is not None and irfile not in _mods:
            _mods.clear()
            _mods[irfile] = Module(open(irfile).read())
        r = S.run_unit(_mods.get(irfile), cls, shard) if shard else S.run_unit(_mods.get(irfile), cls) if not os.environ.get('VC_NOHINT') else S.run_unit1(_mods.get(irfile), cls(), None)
    except Exception as e:
        r = {'unit': cls.name, 'fn': cls.fn, 'obligations': [], 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc(), 'wall': time.time() - t0}
    r['cls'] = cls.__name__
    r['key'] = modname + '.' + cls.__name__
    return r

def ir_key(u):
    import hashlib
    return hashlib.md5(repr((u.tu, tuple(u.defs), tuple(sorted(u.contracts)), getattr(u, 'std', 'c++17'))).encode()).hexdigest()[:10]

def build_ir(units, outdir):
    import irgen
    irs = {}
    groups = {}
    for u in units:
        if u.tu is None:
            continue
        groups.setdefault((u.tu, tuple(getattr(u, 'defs', ())), getattr(u, 'std', 'c++17'), u.norm), set()).update(u.contracts)
    for k, cs in groups.items():
        t = irgen.compile_tu(k[0], contracts=cs, defs=k[1], std=k[2], norm=k[3])
        fn = os.path.join(outdir, 'ir_%d.ll' % len(irs))
        open(fn, 'w').write(t)
        irs[k] = fn
    return irs
def ir_of(irs, u):
    if u.tu is None:
        return None
    return irs[(u.tu, tuple(getattr(u, 'defs', ())), getattr(u, 'std', 'c++17'), u.norm)]

if __name__ == '__main__':
    modname = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    hints = '--hints' in sys.argv
    if hints:
        os.environ['VC_NOHINT'] = '1'
    H = {}
    dbg = os.environ.get('VC_DEBUG')
    units = load_units(modname)
    sel = [i for i, u in enumerate(units) if not only or any(o == u.fn or o == u.__name__ or (o.endswith('*') and u.fn.startswith(o[:-1])) for o in only)]
    out = '/tmp/w/ir_' + modname
    os.makedirs(out, exist_ok=True)
    irs = build_ir([units[i] for i in sel], out)
    jobs = []
    for i in sel:
        n = getattr(units[i], 'shards', 1)
        jobs += [(modname, i, ir_of(irs, units[i]), (k, n) if n > 1 else None) for k in range(n)]
    t0 = time.time()
    if len(jobs) == 1 or dbg:
        it = map(_work, jobs)
    else:
        pool = mp.Pool(8, maxtasksperchild=3)
        it = pool.imap_unordered(_work, jobs, chunksize=1)
    for r in it:
        bad = {}
        if hints and 'error' not in r and all(o[1] for o in r['obligations']):
            H[r['key']] = {'names': sorted(set(sum(r['loops'].values(), []))), 't': round(r['wall'], 1)}
        for o in r['obligations']:
            if not o[1]:
                bad[(o[0], o[2])] = bad.get((o[0], o[2]), 0) + 1
        print('%-12s %-40s %s obl=%d bad=%d paths=%s q=%s %.1fs (solver %.1f)' % (r['cls'], r['unit'], 'ERR ' + r['error'] if 'error' in r else ('ok' if not bad else 'FAIL'), len(r['obligations']), sum(bad.values()), r.get('paths'), r.get('queries'), r['wall'], r.get('solver_s', 0)), flush=True)
        for b, n in bad.items():
            print('      ', n, b)
        if 'tb' in r and dbg:
            print(r['tb'])
        if dbg and r.get('loops'):
            print('   ', r['loops'])
    print('total %.1fs' % (time.time() - t0))
    if hints:
        import json
        p = os.path.join(os.path.dirname(HERE), 'specs', 'hints.json')
        old = json.load(open(p)) if os.path.exists(p) else {}
        old.update(H)
        json.dump(old, open(p, 'w'), indent=0, sort_keys=True)
