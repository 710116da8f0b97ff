#!/opt/veriftools/pyvenv/bin/python3
"""Checks one property: generates the obligations of its contracts from /repo's
current sources, discharges them, then runs the native harness (replay /
bounded stand-in) against code compiled from the same sources."""
import sys, os, json, time, importlib, traceback, multiprocessing as mp, subprocess, hashlib, collections
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'contracts')]
sys.setrecursionlimit(20000)
import z3
from cast import TU, ExtractError, REPO
from engine import Unsupported
import spec, discharge

_tus = {}


def tu_path(t):
    return os.path.join(ROOT, t[1:]) if t.startswith('@') else os.path.join(REPO, 'libclingcon', t)


# the C interface is outside of the namespace (filters of equal length: the
# addresses of nodes have to agree)
FILTERS = {'src/clingcon.cc': ('Clingcon', '(anonymo', 'clingcon')}


def get_tu(t):
    if t not in _tus:
        _tus[t] = TU(tu_path(t), FILTERS.get(t, ('Clingcon',)))
    return _tus[t]


def gen(job):
    """generate obligations of unit i of module m"""
    m, i = job
    t0 = time.time()
    mod = importlib.import_module(m)
    u = mod.UNITS[i]
    out = {'unit': u.name, 'module': m, 'obls': [], 'err': None, 'fn': u.fn, 'prop': u.prop}
    try:
        if getattr(u, 'lemma', False):
            from engine import Obligation
            for nm, hyps, goal in u.gen():
                out['obls'].append(('%s/%s#1' % (u.name, nm), 'lemma', None, discharge.smt2(Obligation(nm, hyps, goal, None, u.name, 'lemma'))))
            s = z3.Solver()
            s.add(*hyps)
            out.update(cover=s.to_smt2(), assumptions=[], inlined=[], called=[], lib=[], nret=1, throws=0, feas=0, timeout=None, real=u.name, gen_s=time.time() - t0)
            return out
        tu = get_tu(u.tu)
        t0 = time.time()
        e, fd = spec.verify(tu, u)
        ctr = collections.Counter()
        for o in e.obls:
            base = '%s/%s' % (u.name, o.name)
            ctr[base] += 1
            key = '%s#%d' % (base, ctr[base])
            g = z3.simplify(o.goal)
            txt = None if z3.is_true(g) else discharge.smt2(o)
            out['obls'].append((key, o.kind, o.line, txt))
        s = z3.Solver()
        for f in e.presat:
            s.add(f)
        out['cover'] = s.to_smt2()
        out['assumptions'] = sorted(e.assumptions)
        out['inlined'] = sorted(e.inlined)
        out['called'] = sorted(e.called)
        out['lib'] = sorted(e.lib_used)
        out['nret'] = e.nret
        out['throws'] = len(e.throws)
        out['feas'] = e.nfeas
        out['timeout'] = u.timeout
        out['real'] = fd.full
    except (Unsupported, ExtractError) as ex:
        out['err'] = ('%s: %s' % (type(ex).__name__, ex))[:300].replace('\n', ' ')
    except RecursionError:
        out['err'] = 'Unsupported: recursion limit'
    except Exception as ex:
        out['err'] = 'Internal: %r' % ex
        out['trace'] = traceback.format_exc()[-3000:]
    out['gen_s'] = time.time() - t0
    return out


def generate(jobs, procs):
    """all units; one whose worker process dies is an internal error of that unit"""
    from concurrent.futures import ProcessPoolExecutor
    got = {}
    with ProcessPoolExecutor(procs) as ex:
        fs = [(j, ex.submit(gen, j)) for j in jobs]
        for j, f in fs:
            try:
                got[j] = f.result()
            except Exception:
                pass
    for j in jobs:
        if j in got:
            continue
        with ProcessPoolExecutor(1) as ex:
            try:
                got[j] = ex.submit(gen, j).result()
            except Exception as e:
                u = importlib.import_module(j[0]).UNITS[j[1]]
                got[j] = dict(unit=u.name, prop=u.prop, obls=[], err='Internal: worker process died (%s)' % type(e).__name__, gen_s=0.0, cover=None)
    return [got[j] for j in jobs]


def prove(mods, only=None, budget=20000, procs=8, verbose=False):
    """returns dict with results"""
    jobs = []
    for m in mods:
        mod = importlib.import_module(m)
        for i, u in enumerate(mod.UNITS):
            if only is None or any(x in u.name for x in only):
                jobs.append((m, i))
    gens = generate(jobs, procs)
    with mp.Pool(procs) as pool:
        work, covers = [], []
        for g in gens:
            if g.get('cover'):
                covers.append((g['unit'], g['cover']))
            for k, kind, line, txt in g['obls']:
                if txt is not None:
                    work.append((k, txt, g.get('timeout') or budget))
        done = {}
        for r in pool.imap_unordered(discharge.decide, work):
            done[r[0]] = r[1:]
        cov = dict(pool.map(discharge.cover, covers))
    texts = {k: t for k, t, _ in work}
    return gens, done, cov, texts


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('mods', nargs='+')
    ap.add_argument('--only', action='append')
    ap.add_argument('--dump')
    ap.add_argument('--budget', type=int, default=10000)
    a = ap.parse_args()
    t0 = time.time()
    gens, done, cov, texts = prove(a.mods, a.only, a.budget)
    for g in gens:
        n = len(g['obls'])
        bad = [(k, kind, line, done[k]) for k, kind, line, txt in g['obls'] if txt is not None and done[k][0] != 'proved']
        tt = sum(done[k][2] for k, _, _, txt in g['obls'] if txt is not None)
        print('%-40s %4d obl %3d bad ret=%s thr=%s cover=%s gen=%.1fs solve=%.1fs %s' % (g['unit'], n, len(bad), g.get('nret'), g.get('throws'), cov.get(g['unit']), g['gen_s'], tt, g['err'] or ''))
        if g.get('trace'):
            print(g['trace'])
        for k, kind, line, txt in g['obls']:
            if txt is not None and done[k][0] == 'proved' and done[k][2] > 3:
                print('      slow', k, done[k][1], '%.1fs' % done[k][2])
                if a.dump:
                    open(os.path.join(a.dump, k.replace('/', '_').replace(':', '_').replace('#', '_').replace(' ','_') + '.smt2'), 'w').write(texts[k])
        for k, kind, line, d in bad[:12]:
            print('    ', d[0], k, 'line', line, '%.1fs' % d[2], d[3][:100].replace('\n', ' '))
            if a.dump:
                open(os.path.join(a.dump, k.replace('/', '_').replace(':', '_').replace('#', '_') + '.smt2'), 'w').write(texts[k])
    print('%.1fs' % (time.time() - t0))


if __name__ == '__main__':
    main()
