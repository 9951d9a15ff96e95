#!/usr/bin/env python3
"""Development aid for planted bugs; not used by any check.

plant.py new SPEC.py     write, confirm and try every bug of SPEC.py
plant.py try ID [ID...]  run the property's quick check on a scratch tree with the bug

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo)];
demo is the source of a Go main package that exits non-zero when the bug shows.
Everything happens in a clone of /repo under /tmp.
"""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plantwt'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', CGO_ENABLED='1', CGO_LDFLAGS='-lopenblas', HOME='/root',
           ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH='go1.23',
           PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
DEMO = '''#!/bin/bash
# Runs in /repo after a build. Exit 0: behaves as documented.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=1 CGO_LDFLAGS=-lopenblas
export PATH=/opt/veriftools/go1.23.12/bin:$PATH ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
go build -o "$out/demo" "$here/demo.go" || exit 3
cd "$out" && timeout 250 ./demo
'''
DEMOT = '''#!/bin/bash
# Runs in /repo after a build. Exit 0: behaves as documented.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=1 CGO_LDFLAGS=-lopenblas
export PATH=/opt/veriftools/go1.23.12/bin:$PATH ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$out/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$out/overlay.json" -run '^TestDemo$' ./%(dir)s || exit 1
'''
def sh(cmd, cwd=None, env=ENV, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def fresh():
    if not os.path.isdir(WT):
        print(sh(f'git clone -q /repo {WT}')[1])
    sh('git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq', WT)
def tests():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r, o = sh("go test -json -vet=off -count=1 -timeout 2m $(go list -e ./... | grep -vxE 'gorgonia\\.org/gorgonia/(cuda|cmd/cudagen)')", WT)
    ok = set()
    for l in o.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add(d['Package'] + '/' + d['Test']); ok.add(d['Package'] + '::' + d['Test']); ok.add(d['Test']); ok.add(d['Package'] + '.' + d['Test'])
    return sorted(s for s in stable if s not in ok and s.split('::')[-1] not in ok)
def check(prop, tier='quick'):
    os.makedirs('/tmp/plantmod', exist_ok=True)
    m = open(V + '/mc/go.mod').read().replace('=> /repo', '=> ' + WT)
    open('/tmp/plantmod/go.mod', 'w').write(m); shutil.copy(V + '/mc/go.sum', '/tmp/plantmod/go.sum')
    env = dict(ENV, VERIF_TIER=tier, VERIF_SEED='1', VERIF_REPO=WT, VERIF_MODFILE='/tmp/plantmod/go.mod', VERIF_EVIDENCE='/tmp/plantev')
    r, o = sh(f'{V}/run.sh {prop}', V, env)
    return r, [l for l in o.splitlines() if l.startswith('VIOLATION') or 'quick:' in l or l.startswith('  ')][:4], o
def main():
    if sys.argv[1] == 'new':
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        want = sys.argv[3:]
        for b in ns['BUGS']:
            if want and b['id'] not in want: continue
            fresh()
            bad = False
            for f, old, new in b['edits']:
                p = f'{WT}/{f}'; s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT does not match once:', f, s.count(old)); bad = True; break
                open(p, 'w').write(s.replace(old, new))
            if bad: continue
            d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
            if 'testdir' in b:
                open(d + '/demo_test.go', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(DEMOT % {'dir': b['testdir']})
            else:
                open(d + '/demo.go', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
            os.chmod(d + '/demo.sh', 0o755)
            sh(f'git diff > {d}/patch.diff', WT)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            sh('git reset -q --hard', WT)
            r0, o0 = sh(f'bash {d}/demo.sh', WT)
            rr, oo = sh(f'git apply {d}/patch.diff', WT)
            r1, o1 = sh(f'bash {d}/demo.sh', WT)
            miss = tests()
            rc, lines, out = check(b['prop'])
            ok = r0 == 0 and r1 != 0 and not miss
            print(b['id'], 'VALID' if ok else 'INVALID', f'demo clean={r0} bug={r1} missing={miss[:4]}', 'CAUGHT' if rc == 1 else f'MISSED rc={rc}')
            if r0 != 0 or r1 == 3: print(o0[-1500:], o1[-800:])
            for l in lines: print('    ', l[:220])
            if rc not in (0, 1): print(out[-1500:])
            sys.stdout.flush()
            sh('git reset -q --hard', WT)
    elif sys.argv[1] == 'try':
        for i in sys.argv[2:]:
            fresh()
            d = f'{V}/seeded/{i}'
            m = json.load(open(d + '/meta.json'))
            print(sh(f'git apply {d}/patch.diff', WT)[1], end='')
            rc, lines, out = check(m['property'])
            print(i, m['property'], 'CAUGHT' if rc == 1 else f'MISSED rc={rc}')
            for l in lines: print('    ', l[:220])
            sys.stdout.flush()
            sh('git reset -q --hard', WT)
if __name__ == '__main__': main()
