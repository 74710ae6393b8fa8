#!/usr/bin/env python3
"""developer aid: plant a bug. seed.add(id, prop, [(file, old, new)..], needs, breaks, demo_c)
Confirms it in a scratch copy (builds, stable tests pass, demo 0 / nonzero) and stores it in /verif/seeded/<id>."""
import os, subprocess, json, shutil, sys
V = '/verif'; WT = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(WT): sh('cp -a /repo ' + WT)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q %s' % (WT, h))
    if not os.path.exists('/tmp/seedvp'):
        sh('cp -r /opt/vp /tmp/seedvp && sed -i "s#/repo#%s#g; s#/opt/vp#/tmp/seedvp#g" /tmp/seedvp/*.sh /tmp/seedvp/*.py && rm -rf %s/_build && bash /tmp/seedvp/build.sh' % (WT, WT))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; r=$PWD
gcc -w -x c -I $r/DevIL/include -I $r/DevIL/src-IL/include -I $r/DevIL/src-ILU/include $d/demo.c -o $t/demo -L$r/_build/lib/x64 -lILU -lIL -lm -Wl,-rpath,$r/_build/lib/x64 || exit 99
cd $t && timeout 120 ./demo
'''
def base_tests():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
def add(id, prop, edits, needs, breaks, demo):
    fresh()
    d = '%s/seeded/%s' % (V, id); os.makedirs(d, exist_ok=True)
    open(d + '/demo.c', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    def fail(w, o=''):
        print(id, 'REJECTED', w, o[-1500:]); shutil.rmtree(d); sh('cd %s && git checkout -q -- .' % WT); return False
    r = sh('bash /tmp/seedvp/build.sh'); 
    if r.returncode: return fail('base build', r.stdout)
    r = sh('bash %s/demo.sh' % d, cwd=WT)
    if r.returncode: return fail('demo fails on the unchanged tree (%d)' % r.returncode, r.stdout)
    for f, old, new in edits:
        p = '%s/DevIL/%s' % (WT, f); raw = open(p, newline='').read(); crlf = '\r\n' in raw
        if crlf: old, new = (tuple(o.replace('\n', '\r\n') for o in old) if isinstance(old, tuple) else old.replace('\n', '\r\n')), new.replace('\n', '\r\n')
        if isinstance(old, tuple):
            mk, old = old; k = raw.find(mk); k = raw.find(old, k) if k >= 0 else -1
            if k < 0: return fail('no match: %s / %s' % (mk, old))
        else:
            if raw.count(old) != 1: return fail('edit of %s matches %d times: %s' % (f, raw.count(old), old))
            k = raw.find(old)
        open(p, 'w', newline='').write(raw[:k] + new + raw[k + len(old):])
    diff = subprocess.run(['git', '-C', WT, 'diff'], stdout=subprocess.PIPE).stdout; open(d + '/patch.diff', 'wb').write(diff)
    # every removed line must be an original one
    for f in {e[0] for e in edits}:
        mine = sh('cd %s && git blame -s HEAD -- DevIL/%s | grep -v "^^" ' % (WT, f)).stdout
        mine = {l.split(')', 1)[1].strip() for l in mine.splitlines() if ')' in l}
        rem = [l[1:].strip() for l in sh('cd %s && git diff DevIL/%s' % (WT, f)).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
        bad = [l for l in rem if l and l in mine]
        if bad: return fail('not an original line: %s' % bad)
    r = sh('bash /tmp/seedvp/test.sh /tmp/seed_t.json')
    t = json.load(open('/tmp/seed_t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('stable') or base.get('passed') or base.get('tests'))
    miss = want - set(t['passed'])
    if miss: return fail('tests break: %s' % sorted(miss)[:5])
    r = sh('bash %s/demo.sh' % d, cwd=WT)
    if r.returncode in (0, 99): return fail('demo passes with the change', r.stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id, 'planted; demo says', r.returncode, r.stdout.strip()[-200:])
    sh('cd %s && git checkout -q -- .' % WT)
    return True
def check(ids, only=None):
    """runs the property's check against each change (in the scratch copy)"""
    fresh()
    for id in ids:
        d = '%s/seeded/%s' % (V, id); m = json.load(open(d + '/meta.json'))
        sh('cd %s && git checkout -q -- .' % WT); r = sh('git -C %s apply %s/patch.diff' % (WT, d))
        if r.returncode: print(id, 'does not apply', r.stdout); continue
        r = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 %s/tools/run_check.py %s' % (WT, V, m['property']))
        L = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'failed:' in l]
        print(id, m['property'], 'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode, r.stdout.splitlines()[0][:110] if r.stdout else '', (L[0][:160] if L else ''), '| nofail' if L and all('no-failing' in l for l in L if l.startswith('VIOL')) else '')
        sys.stdout.flush()
    sh('cd %s && git checkout -q -- .' % WT)
if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    check(ids)
