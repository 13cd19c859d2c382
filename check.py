#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property of properties.jsonl for /repo's current tree:
 1. generates LLVM IR of the functions under contract from /repo's headers (clang, every run),
 2. discharges every verification condition of every contract unit (engine/, z3),
 3. compiles and runs the bounded contract-execution harness on the real code: it supplies failing inputs for
    failed obligations and covers, labelled bounded, the functions that have no discharged contract.
Exit 0: held; exit 1 + VIOLATION line otherwise."""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.path.insert(0, HERE)
import multiprocessing as mp
from checks import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)

def harness_start(spec, tmp, tier, seed):
    """compile + run one harness program in the background"""
    src = os.path.join(HERE, 'harness', spec['src'])
    exe = os.path.join(tmp, spec['name'])
    cc = ['g++', '-std=' + spec.get('std', 'c++17'), '-O1', '-w', '-I' + REPO + '/include', '-I' + os.path.join(HERE, 'harness')]
    if os.path.isdir('/opt/vp/compat'):
        cc += ['-isystem', '/opt/vp/compat']
    cc += spec.get('flags', []) + ['-D' + d for d in spec.get('defs', [])] + [src, '-o', exe]
    run = [exe, '--seed', str(seed), '--tier', tier] + spec.get('args', [])
    log = exe + '.log'
    tmo = spec.get('timeout', 240 if tier == 'quick' else 3000)
    sh = '(ulimit -c 0; nice -n 2 "$@" ) > %s 2>&1' % log
    script = 'ulimit -c 0; %s > %s.cc 2>&1 || exit 99; timeout -s KILL %d %s > %s 2>&1' % (' '.join("'%s'" % c for c in cc), exe, tmo, ' '.join("'%s'" % c for c in run), log)
    p = subprocess.Popen(['bash', '-c', script], cwd=tmp, stdin=subprocess.DEVNULL, start_new_session=True)
    return {'spec': spec, 'p': p, 'log': log, 'cclog': exe + '.cc', 'cmd': ' '.join(cc) + ' && ' + ' '.join(run)}

def harness_finish(h):
    rc = h['p'].wait()
    out = open(h['log'], errors='replace').read() if os.path.exists(h['log']) else ''
    stats, fail = {}, None
    for l in out.split('\n'):
        if l.startswith('STATS '):
            try:
                stats = json.loads(l[6:])
            except ValueError:
                pass
        elif l.startswith('FAIL ') and fail is None:
            fail = l[5:]
    if rc == 99:
        cc = open(h['cclog'], errors='replace').read()
        return {'name': h['spec']['name'], 'status': 'nobuild', 'detail': cc[-3000:], 'cmd': h['cmd'], 'stats': stats}
    if rc == 0:
        return {'name': h['spec']['name'], 'status': 'ok', 'stats': stats, 'cmd': h['cmd'], 'out': out}
    if fail is None:
        last = [l for l in out.split('\n') if l.startswith('CASE ')]
        fail = 'exit status %d (crash, sanitizer report, or time limit) in %s' % (rc, last[-1] if last else '?')
    return {'name': h['spec']['name'], 'status': 'fail', 'detail': fail, 'out': out[-6000:], 'cmd': h['cmd'], 'stats': stats}

_mods = {}
def work(job):
    modname, clsname, irfile, shard = job[:4]
    import importlib, time
    import spec as S
    import vc
    vc.SEED, vc.TMUL = (7, 3) if len(job) > 4 else (0, 1)
    from irparse import Module
    t0 = time.time()
    cls = getattr(importlib.import_module(modname), clsname)
    try:
        if irfile is not None and irfile not in _mods:
            _mods.clear()
            _mods[irfile] = Module(open(irfile).read())
        r = S.run_unit(_mods.get(irfile), cls, shard)
    except Exception as e:
        r = {'unit': cls.name, 'fn': cls.fn, 'obligations': [], 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc(), 'wall': time.time() - t0, 'queries': 0, 'solver_s': 0, 'insts': 0}
    r['module'], r['cls'] = modname, clsname
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vchk_')
    try:
        return run(prop, cfg, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(prop, cfg, tier, seed, t0, tmp):
    import importlib, runner, irgen
    from spec import load_hints, unit_key
    hs = [harness_start(h, tmp, tier, seed) for h in cfg.get('harness', []) if tier in h.get('tiers', ('quick', 'thorough'))]
    units = []
    for m, names in cfg.get('units', []):
        mod = importlib.import_module(m)
        if isinstance(names, str):      # regular expression on unit names
            us = [u for u in mod.UNITS if re.fullmatch(names, u.__name__)]
            assert us, names
        else:
            us = [u for u in mod.UNITS if names is None or u.__name__ in names]
        if names is not None and not isinstance(names, str):
            missing = set(names) - set(u.__name__ for u in us)
            assert not missing, missing
        units += [(m, u) for u in us]
    results = []
    hints = load_hints()
    builderr = []
    irs = {}
    groups = {}
    for m, u in units:
        if u.tu is None:
            continue
        groups.setdefault((u.tu, tuple(u.defs), getattr(u, 'std', 'c++17'), u.norm), set()).update(u.contracts)
    from concurrent.futures import ThreadPoolExecutor
    def build(k):
        try:
            t = irgen.compile_tu(k[0], contracts=groups[k], defs=k[1], std=k[2], norm=k[3])
            fn = os.path.join(tmp, 'ir_%d.ll' % abs(hash(k)))
            open(fn, 'w').write(t)
            return k, fn, None
        except irgen.BuildError as e:
            return k, None, str(e)
    with ThreadPoolExecutor(NCPU) as ex:
        for k, fn, err in ex.map(build, list(groups)):
            irs[k] = fn
            if err:
                builderr.append((k, err))
    jobs = []
    for m, u in units:
        fn = irs[(u.tu, tuple(u.defs), getattr(u, 'std', 'c++17'), u.norm)] if u.tu else None
        if fn is None and u.tu:
            results.append({'unit': u.name, 'fn': u.fn, 'obligations': [], 'error': 'the code under contract does not compile in the verification unit', 'wall': 0, 'queries': 0, 'solver_s': 0, 'insts': 0, 'cls': u.__name__, 'module': m})
        else:
            n = getattr(u, 'shards', 1)
            for k in range(n):
                jobs.append((hints.get(unit_key(u), {}).get('t', 90 if n > 1 else 30), (m, u.__name__, fn, (k, n) if n > 1 else None)))
    def discharge(jobs, deadline):
        jobs.sort(key=lambda j: -j[0])
        out, grp = [], {}
        if jobs:
            with mp.Pool(min(NCPU, len(jobs))) as pool:
                pend = [(j, pool.apply_async(work, (j,))) for _, j in jobs]
                for j, a in pend:
                    try:
                        out.append(a.get(timeout=max(1, deadline - time.time())))
                    except mp.TimeoutError:
                        out.append({'unit': j[1], 'fn': j[1], 'obligations': [], 'error': 'verification time budget exceeded', 'wall': 0, 'queries': 0, 'solver_s': 0, 'insts': 0, 'cls': j[1], 'module': j[0]})
                pool.terminate()
        for r in out:
            grp.setdefault((r['module'], r['cls']), []).append(r)
        return [S.merge_shards(v) if len(v) > 1 else v[0] for v in grp.values()]
    import spec as S
    limit = t0 + (720 if tier == 'quick' else 6000)
    results += discharge(jobs, limit)
    hres = [harness_finish(h) for h in hs]
    # second attempt (other solver seed, three times the time per query) at units that were not discharged while no input
    # fails: a proof that exists must not be lost to one slow query
    bad = set((r['module'], r['cls']) for r in results if 'error' in r or not all(o[1] for o in r['obligations']))
    took = time.time() - t0
    if bad and all(h['status'] == 'ok' or any(k['match'] in h.get('detail', '') for k in load_known(prop)) for h in hres) and took < (330 if tier == 'quick' else 3000):
        again = [(t, j + (1,)) for t, j in jobs if (j[0], j[1]) in bad]
        new = dict(((r['module'], r['cls']), r) for r in discharge(again, limit) if 'error' not in r and all(o[1] for o in r['obligations']))
        results = [new.get((r['module'], r['cls']), r) for r in results]
    # ---- evaluate
    failed, total, done = [], 0, 0
    for r in results:
        if 'error' in r:
            total += 1
            failed.append((r, 'unit could not be verified: ' + r['error'], ''))
            continue
        for o in r['obligations']:
            total += 1
            if o[1]:
                done += 1
            else:
                failed.append((r, o[0], o[2]))
    hfail = [h for h in hres if h['status'] != 'ok']
    known = load_known(prop)
    kf, unlisted = [], []
    for h in hfail:
        k = [k for k in known if k['match'] in h.get('detail', '')]
        if k and h['status'] == 'fail':
            kf += k
        else:
            unlisted.append(h)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    write_evidence(prop, cfg, tier, seed, t0, results, total, done, failed, hres)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    print('%s: %d contract units, %d obligations, %d discharged; harness: %s; %.1fs' % (prop, len(results), total, done, ', '.join('%s=%s' % (h['name'], h['status']) for h in hres) or 'none', time.time() - t0))
    if not failed and not unlisted:
        return 0
    rp = os.path.join(HERE, 'evidence', prop + '.replay.txt')
    concrete = [h for h in unlisted if h['status'] == 'fail']
    with open(rp, 'w') as f:
        f.write('property %s: %s\n\n' % (prop, cfg.get('title', '')))
        if concrete:
            f.write('FAILING INPUT on the real code (bounded contract execution):\n')
            for h in concrete:
                f.write('  %s\n  rerun: %s\n  --- output\n%s\n' % (h['detail'], h['cmd'], h.get('out', '')))
        for h in unlisted:
            if h['status'] == 'nobuild':
                f.write('harness %s does not compile against the current tree:\n%s\n' % (h['name'], h['detail']))
        f.write('FAILED OBLIGATIONS (%d):\n' % len(failed))
        for r, l, s in failed:
            f.write('  [%s.%s] %s (function %s): %s   [solver: %s]\n' % (r['module'], r['cls'], r['unit'], r['fn'], l, s))
            if r.get('tb'):
                f.write(r['tb'] + '\n')
        for k, e in builderr:
            f.write('build of %s:\n%s\n' % (k[0], e))
    for r, l, s in failed[:20]:
        print('  failed obligation: %s: %s [%s]' % (r['unit'], l, s))
    for h in unlisted[:5]:
        print('  harness %s: %s: %s' % (h['name'], h['status'], h.get('detail', '')[:600]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if concrete else ' no-failing-input-found'))
    return 1

def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            # format: finding: property=<id> match=<<text>> <what fails>
            if l.startswith('finding: property=%s ' % prop) and 'match=<<' in l:
                mt = l.split('match=<<', 1)[1].split('>>', 1)
                out.append({'match': mt[0], 'text': mt[1].strip()})
    return out

BASE_TRUST = ['clang 18 front end and LLVM inliner/SROA/simplifycfg/loop-simplify passes (IR generation)',
              'the VC generator in /verif/engine (own code) and its LLVM-IR semantics',
              'z3 (python bindings) as the only back-end solver']
def write_evidence(prop, cfg, tier, seed, t0, results, total, done, failed, hres):
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'wall_s': round(time.time() - t0, 2), 'violations': 1 if (failed or any(h['status'] != 'ok' for h in hres)) else 0}
    cov = {}
    if results:
        cov.update({'obligations': total, 'discharged': done, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
                    'trusted_base': BASE_TRUST + cfg.get('trusted', []),
                    'functions_under_contract': [{'contract': r['unit'], 'entry': r['fn'], 'obligations': len(r['obligations']), 'discharged': sum(1 for o in r['obligations'] if o[1]), 'paths': r.get('paths'), 'loops_with_invariants': len(r.get('loops', {})), 'solver_s': round(r.get('solver_s', 0), 2), 'solver_queries': r.get('queries', 0), 'hypothesis_instances': r.get('insts', 0)} for r in results],
                    'back_end': 'z3', 'solver_seconds': round(sum(r.get('solver_s', 0) for r in results), 1),
                    'failed_obligations': ['%s: %s' % (r['unit'], l) for r, l, s in failed][:50]})
    b = []
    for h in hres:
        b.append({'program': h['name'], 'status': h['status'], 'stats': h.get('stats', {})})
    if b:
        cov['bounded_stand_in'] = {'label': 'bounded', 'functions': cfg.get('bounded', []), 'bound': cfg.get('bound', ''), 'runs': b, 'note': 'executed on the real code; not counted among the discharged obligations'}
        ev_n = sum(h.get('stats', {}).get('evaluations', 0) for h in hres)
        cov['evaluations'] = ev_n
        cov['distinct_nontrivial'] = sum(h.get('stats', {}).get('distinct_nontrivial', 0) for h in hres)
        cov['rule'] = cfg.get('rule', 'operation histories: every history up to the stated length over the stated number of elements, then seeded random histories; a case is non-trivial when at least one operation changed the container, and distinct by the hash of its final structural state')
        cov['samples'] = sum([h.get('stats', {}).get('samples', []) for h in hres], [])[:10]
    if not results:
        cov['explanation'] = cfg.get('note', '')
    if ev['level'] == 'other':
        cov['explanation'] = cfg.get('note', 'contracts discharged for the listed functions; the rest of the property is a bounded contract execution')
    ev['coverage'] = cov
    ev['assumptions'] = cfg.get('assumptions', [])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
