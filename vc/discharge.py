"""Discharges obligations with z3 (library) and, where that does not answer, cvc5."""
import z3, subprocess, time, os, tempfile, multiprocessing as mp

CVC5 = 'cvc5'


def smt2(ob):
    s = z3.Solver()
    for h in ob.hyps:
        s.add(h)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def solver(cmd, txt, ms):
    """run a solver binary on a file; hard limit"""
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt)
        f.close()
        r = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=ms / 1000 + 2)
        o = r.stdout.strip().split('\n')
        return (o[0] if o and o[0] in ('sat', 'unsat', 'unknown') else 'unknown'), '\n'.join(o[1:])
    except subprocess.TimeoutExpired:
        return 'unknown', 'timeout'
    finally:
        os.unlink(f.name)


def z3run(txt, ms, seed=0, mbqi=True):
    cmd = ['z3-new', '-T:%d' % max(1, (ms + 999) // 1000), '-t:%d' % ms, 'smt.random_seed=%d' % seed]
    if not mbqi:
        cmd.append('smt.mbqi=false')
    r, rest = solver(cmd, txt + '\n(get-info :reason-unknown)\n', ms)
    if r == 'sat':
        r, rest = solver(cmd, txt + '\n(get-model)\n', ms)
        return 'sat', rest[:6000], ''
    return r, '', rest[:200]


def cvc5run(txt, ms):
    return solver([CVC5, '--tlimit=%d' % ms, '--nl-ext-tplanes', '--full-saturate-quant'], '(set-logic ALL)\n' + txt, ms)[0]


def decide(job):
    """job = (key, smt2 text, budget ms); returns (key, status, backend, secs, model/why)"""
    key, txt, ms = job
    t0 = time.time()
    tried = []
    try:
        for back, t, kw in (('z3', 1500, {}), ('z3', 1500, {'seed': 1, 'mbqi': False}), ('cvc5', 5000, {}), ('z3', ms, {'seed': 7}), ('cvc5', ms, {})):
            t = min(t, ms)
            if back == 'z3':
                r, m, w = z3run(txt, t, **kw)
            else:
                r = cvc5run(txt, t)
            if r == 'unsat':
                return key, 'proved', back, time.time() - t0, ''
            if r == 'sat' and back == 'z3':
                return key, 'failed', 'z3', time.time() - t0, m
        return key, 'unknown', 'z3+cvc5', time.time() - t0, w or 'unknown'
    except Exception as ex:   # solver error: undecided
        return key, 'error', 'z3', time.time() - t0, repr(ex)[:500]


def cover(job):
    """is a set of hypotheses contradictory? (vacuity)"""
    key, txt = job
    try:
        r, _, _ = z3run(txt, 3000)
    except Exception as ex:
        r = 'unknown'
    return key, r
