#!/usr/bin/env python3
"""Development aid: tries small changes of the repository on the checks; no check uses it.

mutants.py COUNT SEED OUT [FILE...]   picks COUNT mutants evenly over the files

A mutant that compiles and passes the stable tests is given to the checks that
anchor its file (cheapest first) until one finds it. One line per mutant in OUT.
Works in clones of /repo under /tmp.
"""
import json, os, random, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import plant
plant.WT = os.environ.get('MUTWT', '/tmp/mutwt')
MOD = plant.WT + '.mod'
COST = dict(C33=1, C30=1, C31=8, C32=1, C21=1, C25=1, C29=1, C07=3, C28=3, C26=4, C05=5, C13=7, C11=8, C12=9, C03=10, C08=10, C19=10, C20=10, C17=10, C24=10, C18=11, C16=12, C04=14, C22=17, C27=18, C09=18, C14=20, C01=28, C02=37, C06=41, C15=45, C10=48, C23=60)
EXTRA = {
 'op.go': ['C07', 'C14'], 'vm.go': ['C19', 'C20', 'C01'], 'utils.go': ['C04', 'C09', 'C10'], 'values.go': ['C21'],
}
def anchors():
    m = {}
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        for f in d['anchors']['files']: m.setdefault(f, []).append(d['id'])
    for f, l in EXTRA.items():
        for i in l:
            if i not in m.setdefault(f, []): m[f].append(i)
    return m
def check(prop):
    os.makedirs(MOD, exist_ok=True)
    m = open(V + '/mc/go.mod').read().replace('=> /repo', '=> ' + plant.WT)
    open(MOD + '/go.mod', 'w').write(m); shutil.copy(V + '/mc/go.sum', MOD + '/go.sum')
    env = dict(plant.ENV, VERIF_TIER='quick', VERIF_SEED='1', VERIF_REPO=plant.WT, VERIF_MODFILE=MOD + '/go.mod', VERIF_EVIDENCE=plant.WT + '.ev')
    try: return plant.sh(f'{V}/run.sh {prop}', V, env, 600)
    except subprocess.TimeoutExpired: return 124, 'timeout'
def main():
    count, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    am = anchors()
    files = sys.argv[4:] or sorted(f for f in am if f.endswith('.go') and os.path.exists('/repo/' + f) and not f.startswith('cuda/'))
    plant.fresh()
    plant.sh('go build -o /tmp/mutate .', V + '/tools/mutate')
    rnd = random.Random(seed); per = {}
    for f in files:
        r, o = plant.sh(f'/tmp/mutate {f}', plant.WT)
        l = [json.loads(x) for x in o.splitlines() if x.startswith('{')]
        rnd.shuffle(l); per[f] = l
    picked = []
    while len(picked) < count and any(per.values()):
        for f in files:
            if per[f] and len(picked) < count: picked.append(per[f].pop())
    log = open(out, 'a')
    for m in picked:
        p = plant.WT + '/' + m['file']
        plant.sh('git checkout -q .', plant.WT)
        s = open(p, 'rb').read()
        line = s.decode().splitlines()[m['line']-1].strip()
        open(p, 'wb').write(s[:m['Start']] + m['New'].encode() + s[m['End']:])
        desc = f"{m['file']}:{m['line']} {m['func']} [{m['What']}] {line[:90]}"
        r, o = plant.sh('go build ./... 2>&1 | grep -v cuda | head -3; go vet -unusedresult=false . >/dev/null 2>&1; go build . ' + './' + os.path.dirname(m['file']), plant.WT)
        if r != 0: continue
        try: bad = plant.tests()
        except subprocess.TimeoutExpired: bad = ['timeout']
        if bad:
            log.write(f"TESTED {desc} :: {bad[0]}\n"); log.flush(); continue
        res = 'MISSED'
        tried = []
        for i in sorted(am[m['file']], key=lambda i: COST.get(i, 30)):
            r, o = check(i)
            tried.append(f'{i}={r}')
            if r == 1 and f'VIOLATION property={i}' in o: res = 'CAUGHT ' + i; break
        log.write(f"{res} {desc} :: {' '.join(tried)}\n"); log.flush()
if __name__ == '__main__': main()
