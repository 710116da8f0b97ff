#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]

1. generates every obligation of the property's contracts from /repo's current
   sources and discharges them (z3, cvc5);
2. builds the native harnesses of the property from the same sources and runs
   them (replay of failures, and bounded stand-in where proof does not reach);
3. writes evidence/<property>.json and decides.

exit 1 + VIOLATION line: a failing input on the real code, or an obligation
that is not accepted any more (then the line ends in no-failing-input-found).
Parts the extractor cannot bring into the verifier's reach on the current
sources are reported in the evidence as undecided, never as violations."""
import sys, os, json, time, subprocess, threading, shutil, tempfile, re, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'contracts')]
sys.setrecursionlimit(20000)
import run
from cast import REPO, CL

CXXF = ['-std=c++17', '-g', '-w', '-I' + REPO + '/libclingcon', '-I' + REPO + '/libclingcon/src', '-I' + REPO + '/third_party/wide-integer', '-I' + CL]
LINK = ['-Wl,--no-as-needed', CL + '/_clingo.cpython-312-x86_64-linux-gnu.so', '-lpython3.12', '-Wl,-rpath,' + CL, '-pthread']
SRC = ['base', 'parsing', 'constraints', 'solver', 'propagator', 'clingcon', 'config', 'astutil']


def sources():
    d = os.path.join(REPO, 'libclingcon/src')
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.cc'))


class Native(threading.Thread):
    """builds and runs one harness"""

    def __init__(self, spec, tier, seed, tmp):
        super().__init__()
        self.spec, self.tier, self.seed, self.tmp = spec, tier, seed, tmp
        self.fails, self.stats, self.samples, self.note = [], {}, [], None
        self.name = spec['name']
        self.cmd = None

    def sh(self, cmd, timeout):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''

    def run(self):
        try:
            self.go()
        except Exception as ex:
            self.note = 'harness error: %r' % ex

    def build(self):
        s = self.spec
        d = os.path.join(self.tmp, self.name)
        os.makedirs(d, exist_ok=True)
        san = s.get('san', ['-fsanitize=undefined,address', '-fno-sanitize-recover=all'])
        opt = s.get('opt', ['-O1'])
        cxx = s.get('cxx', 'g++')
        jobs = []
        objs = []
        own = s.get('includes', [])      # sources the harness itself includes
        for f in ([] if s.get('nosrc') else [x for x in sources() if x not in own]) + ['@' + s['src']]:
            src = os.path.join(ROOT, 'native', f[1:]) if f[0] == '@' else os.path.join(REPO, 'libclingcon/src', f + '.cc')
            o = os.path.join(d, os.path.basename(src) + '.o')
            jobs.append((src, subprocess.Popen([cxx] + CXXF + san + opt + ['-DNDEBUG', '-I' + os.path.join(ROOT, 'native'), '-c', src, '-o', o], stderr=subprocess.PIPE, text=True)))
            objs.append(o)
        for src, p in jobs:
            _, err = p.communicate()
            if p.returncode != 0:
                m = re.search(r'.*error:.*', err)
                self.note = 'does not compile against the current sources: %s: %s' % (os.path.basename(src), (m.group(0) if m else err)[:300])
        if self.note:
            return None
        exe = os.path.join(d, 'h')
        rc, out, err = self.sh([cxx] + san + objs + ['-o', exe] + LINK, 300)
        if rc != 0:
            self.note = 'does not link: %s' % err[-300:]
            return None
        return exe

    def go(self):
        t0 = time.time()
        exe = self.build()
        self.build_s = time.time() - t0
        if exe is None:
            return
        secs = self.spec['secs'][0 if self.tier == 'quick' else 1]
        n = self.spec.get('procs', 1)
        procs = []
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
        for i in range(n):
            cmd = [exe] + self.spec.get('args', []) + ['--seed', str(self.seed * 1000 + i), '--secs', str(secs)]
            of = open(os.path.join(self.tmp, '%s.%d.out' % (self.name, i)), 'w+')
            ef = open(os.path.join(self.tmp, '%s.%d.err' % (self.name, i)), 'w+')
            procs.append((cmd, of, ef, subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, cwd=self.tmp)))
        self.cmd = 'native/%s %s' % (self.spec['src'], ' '.join(procs[0][0][1:]))
        end = time.time() + secs * self.spec.get('slack', 4) + 60
        for cmd, of, ef, p in procs:
            rc = None
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            of.seek(0)
            ef.seek(0)
            out, err = of.read(), ef.read()
            case = ''
            nf = 0
            for line in out.split('\n'):
                if line.startswith('FAIL '):
                    self.fails.append(line[5:])
                    nf += 1
                elif line.startswith('STAT '):
                    k, v = line[5:].split(' ', 1)
                    self.stats[k] = self.stats.get(k, 0) + int(v)
                elif line.startswith('SAMPLE '):
                    self.samples.append(line[7:])
            if rc == 'timeout':
                m = re.findall(r'^CASE (.*)$', err, re.M)
                self.hang = m[-1] if m else ''
                if self.spec.get('hang_is_failure') and m:
                    self.fails.append('hang | no termination within the time limit on: ' + m[-1])
                else:
                    self.note = 'time limit reached'
            elif rc not in (0, 1) or (rc == 1 and nf == 0):
                m = re.findall(r'^CASE (.*)$', err, re.M)
                e = [l for l in err.split('\n') if 'runtime error' in l or 'ERROR: Addr' in l or 'terminate' in l or 'what()' in l]
                self.fails.append('crash | %s | on: %s' % (' '.join(e)[:600] or 'exit status %s' % rc, (m[-1] if m else '?')[:3000]))
        self.wall = time.time() - t0


def known(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from props import PROPS
    P = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    code = 1
    try:
        code = check(prop, P, tier, seed, t0, tmp, evd)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(prop, P, tier, seed, t0, tmp, evd):
    nat = [Native(dict(n), tier, seed, tmp) for n in P.get('native', [])]
    for n in nat:
        n.start()
    budget = P.get('budget', 15000) if tier == 'quick' else 60000
    gens, done, cov, texts = run.prove(P['mods'], [x + '/' for x in [prop]] if P.get('filter', True) else None, budget)
    for n in nat:
        n.join()
    # ---- evaluate the proof part
    und, failed, proved, trivial = [], [], 0, 0
    backends, solve = {}, 0.0
    fns, inl, assume, lib, contracts = [], set(), set(P.get('assumptions', [])), set(), set()
    vac = []
    total = 0
    for g in gens:
        if g['err']:
            und.append('%s: %s' % (g['unit'], g['err']))
            continue
        bad = []
        for k, kind, line, txt in g['obls']:
            total += 1
            if txt is None:
                proved += 1
                backends['syntactic'] = backends.get('syntactic', 0) + 1
                continue
            s, b, secs, info = done[k]
            solve += secs
            if s == 'proved':
                proved += 1
                backends[b] = backends.get(b, 0) + 1
            elif s == 'error':
                und.append('%s: solver error %s' % (k, info[:200]))
                bad.append(k)
            else:
                failed.append((k, line, s, info))
                bad.append(k)
        if cov.get(g['unit']) == 'unsat' or (g['nret'] == 0 and g['throws'] == 0):
            vac.append(g['unit'])
        if not bad:
            fns.append(g['real'])
        inl |= set(g['inlined'])
        assume |= set(g['assumptions'])
        lib |= set(g['lib'])
        contracts |= set(g['called'])
    for v in vac:
        und.append('%s: precondition unsatisfiable or no path returns (vacuous)' % v)
    # ---- native part
    kf = known(prop)
    newfails, oldfails = [], {}
    natinfo = []
    for n in nat:
        natinfo.append({'harness': n.spec['src'], 'what': n.spec.get('what', ''), 'stats': n.stats, 'note': n.note, 'failures': len(n.fails)})
        for f in n.fails:
            key = f.split(' ', 1)[0]
            hit = [t for k, t in kf if k == key]
            if hit:
                oldfails[key] = hit[0]
            else:
                newfails.append((n, f))
    out = []
    code = 0
    for k, t in oldfails.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    rp = os.path.join(evd, 'replay', '%s.txt' % prop)
    if newfails:
        code = 1
        n, f = newfails[0]
        with open(rp, 'w') as h:
            h.write('property %s is violated by the code in %s\n' % (prop, REPO))
            h.write('harness: %s (rebuild: see vc/check.py)\n' % n.cmd)
            for n, f in newfails[:20]:
                h.write('failing input: %s\n' % f)
            for k, line, s, info in failed:
                h.write('failed obligation: %s (line %s): %s\n%s\n' % (k, line, s, info))
        print('failing input: %s' % newfails[0][1][:1500])
        for k, line, s, info in failed[:5]:
            print('failed obligation: %s (line %s)' % (k, line))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    elif failed:
        code = 1
        with open(rp, 'w') as h:
            h.write('property %s: obligations generated from %s are not accepted\n' % (prop, REPO))
            for k, line, s, info in failed:
                h.write('failed obligation: %s (source line %s): %s\nverifier output: %s\n' % (k, line, s, info))
                h.write(texts.get(k, '')[:20000] + '\n')
        for k, line, s, info in failed[:8]:
            print('failed obligation: %s (line %s): %s' % (k, line, s))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for u in und:
        print('undecided: %s' % u[:300])
    evals = sum(sum(v for k, v in n.stats.items() if k == 'cases') for n in nat)
    distinct = sum(sum(v for k, v in n.stats.items() if k == 'distinct') for n in nat)
    samples = [s for n in nat for s in n.samples][:6]
    level = P.get('level', 'proof')
    covd = {
        'obligations': total, 'discharged': proved,
        'checker_cmd': 'python3-vt vc/check.py %s --tier %s' % (prop, tier),
        'trusted_base': ['clang 18 front end (AST of the current sources)', 'vc/*.py: the C++ semantics and library models of the verifier', 'z3 5.3.2', 'cvc5 1.1.2'] + P.get('trusted', []),
        'functions_under_contract': sorted(set(fns)),
        'functions_inlined': sorted(inl - set(fns)),
        'callee_contracts_used': sorted(contracts),
        'library_models_used': sorted(lib),
        'backends': backends, 'solver_s': round(solve, 1),
        'undecided': und, 'failed': [k for k, *_ in failed],
        'bounded_stand_ins': natinfo,
        'not_covered': P.get('not_covered', []),
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': P.get('rule', 'native harness cases; distinct by hash of the generated input, non-trivial as defined by each harness'),
        'samples': samples,
        'explanation': P.get('explanation', ''),
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': covd,
          'assumptions': sorted(assume), 'wall_s': round(time.time() - t0, 2), 'violations': len(newfails) + (len(failed) if not newfails else 0)}
    with open(os.path.join(evd, prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s: %d/%d obligations discharged, %d functions under contract, %d undecided, native cases %d, %.1fs' % (prop, proved, total, len(set(fns)), len(und), evals, time.time() - t0))
    return code


if __name__ == '__main__':
    main()
