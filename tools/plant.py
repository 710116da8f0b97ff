#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ from a list of edits.

Scratch copy /tmp/sc (built, see DESIGN.md); every bug has to compile, pass the
stable tests and have a demonstration that tells the trees apart."""
import sys, os, re, json, subprocess, shutil, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc'
DEMO = '''#!/bin/bash
# exit 0: the answers are the expected ones
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CL=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
g++ -std=gnu++17 -O1 -w -DNDEBUG %(flags)s -I"$PWD/libclingcon" -I"$PWD/libclingcon/src" -I"$PWD/third_party/wide-integer" -I$CL "$D/%(src)s" %(lib)s -o "$T/run" -Wl,--no-as-needed,$CL/_clingo.cpython-312-x86_64-linux-gnu.so,-lpython3.12,-rpath,$CL -pthread || exit 2
%(run)s
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


def tests():
    r = sh('bash /tmp/sc.test.sh /tmp/sc.out.json')
    o = json.load(open('/tmp/sc.out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = [t for t in base if t not in o['passed']]
    return (not bad and bool(o['passed'])), (bad or ('' if o['passed'] else r.stdout[-1500:] + r.stderr[-500:]))


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=SC, timeout=300)


def find(modes, secs):
    """a program the patched tree gets wrong"""
    r = sh('REPO=%s bash %s/native/build2.sh gen.cc /tmp/plant/g' % (SC, ROOT))
    if r.returncode != 0:
        return None
    ps = [subprocess.Popen(['/tmp/plant/g/gen', m, '--seed', str(s), '--secs', str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
          for m in modes for s in range(max(1, 6 // len(modes)))]
    best = None
    for p in ps:
        out = p.communicate()[0]
        for l in out.split('\n'):
            m = re.match(r'FAIL (\S+) .*?\[((?:\w+=\S+ )*)\] (.*)$', l)
            if m and m.group(1) != 'symbols' and (best is None or len(m.group(0)) < best[0]) and '-t' not in m.group(2):
                o = m.group(2).strip() + (' best=1' if 'imize' in m.group(3) else '')
                best = (len(m.group(0)), '@case %s\n%s\n@end\n' % (o, m.group(3).replace('%%PART%%', '\n@part\n')), l[:300])
    return best


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        d = '/tmp/plant/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        assert not sh('git -C %s status --short' % SC).stdout, 'scratch not clean'
        try:
            def edit():
                for f, old, new in b['edits']:
                    p = SC + '/libclingcon/' + f
                    s = open(p).read()
                    assert s.count(old) == 1, '%s: %d occurrences of %r' % (b['id'], s.count(old), old)
                    open(p, 'w').write(s.replace(old, new))
            if 'find' in b and 'cases' not in b:
                edit()
                ok, why = tests()
                if not ok:
                    print(b['id'], 'TESTS', why)
                    continue
                f = find(b['find'], b.get('secs', 60))
                sh('git -C %s checkout -- .' % SC)
                sh('bash /tmp/sc.build.sh')
                if not f:
                    print(b['id'], 'NOTFOUND')
                    continue
                b['cases'] = f[1]
                print(b['id'], 'found', f[2])
            src = b.get('cc')
            if src is None:
                shutil.copy(ROOT + '/native/e2e.cc', d + '/run.cc')
                open(d + '/cases.txt', 'w').write(textwrap.dedent(b['cases']).lstrip('\n'))
                run = '"$T/run" < "$D/cases.txt" > "$T/out" || exit 1\ndiff "$D/expected.txt" "$T/out"'
                open(d + '/demo.sh', 'w').write(DEMO % dict(flags='', src='run.cc', lib='"$PWD/_build/lib/libclingcon_t.a"', run=run))
                # the expected answers are those of the unchanged tree
                sh(': > %s/expected.txt' % d)
                r = demo(d)
                exp = ''.join(l[2:] + '\n' for l in r.stdout.split('\n') if l.startswith('> '))
                open(d + '/expected.txt', 'w').write(exp)
            else:
                open(d + '/run.cc', 'w').write(textwrap.dedent(src).lstrip('\n'))
                open(d + '/demo.sh', 'w').write(DEMO % dict(flags=b.get('flags', ''), src='run.cc', lib=b.get('lib', '"$PWD/_build/lib/libclingcon_t.a"'), run='"$T/run"'))
            edit()
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % SC).stdout)
            ok, why = tests()
            if not ok:
                print(b['id'], 'TESTS', why)
                continue
            r1 = demo(d)
            sh('git -C %s checkout -- .' % SC)
            sh('bash /tmp/sc.build.sh')
            r0 = demo(d)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b['id'], 'DEMO base %d patched %d' % (r0.returncode, r1.returncode), r0.stdout[-500:], r0.stderr[-300:])
                continue
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            dst = ROOT + '/seeded/' + b['id']
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(b['id'], 'KEPT', (r1.stdout.strip().split('\n') or [''])[0][:200])
        finally:
            sh('git -C %s checkout -- .' % SC)
            sys.stdout.flush()
    sh('bash /tmp/sc.build.sh')


main()
