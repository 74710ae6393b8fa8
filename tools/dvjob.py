"""dv engine driver: clang -> llvm-link -> opt -> tools/dv under python3-vt."""
import os, json, re, time, sys
LL = '/usr/lib/llvm-18/bin/'

import threading, glob, concurrent.futures as cf
_lock = threading.Lock(); _lib = {}
FL = ['-x', 'c++', '-std=gnu++14', '-Dregister=', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-ffp-contract=off', '-w', '-fwrapv', '-DVRT_DV', '-DIL_EXPORTS', '-DNDEBUG']
def lib(work, sh, REPO, INC):
    """all of IL and ILU as one bitcode module (once per check run)"""
    with _lock:
        if work in _lib: return _lib[work]
        d = work + '/dvlib'; os.makedirs(d, exist_ok=True); bad = []
        srcs = sorted(glob.glob(REPO + '/DevIL/src-IL/src/*.cpp') + glob.glob(REPO + '/DevIL/src-ILU/src/*.cpp'))
        def one(s):
            o = d + '/' + os.path.basename(s) + '.bc'
            rc, so, se = sh([LL + 'clang++'] + FL + ['-I' + i for i in INC] + ['-emit-llvm', '-c', s, '-o', o], timeout=200)
            return s, (o if rc == 0 else None), se
        objs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for s, o, se in ex.map(one, srcs):
                if o: objs.append(o)
                else: bad.append('%s: %s' % (os.path.basename(s), se[-200:]))
        out = d + '/lib.bc'
        rc, so, se = sh([LL + 'llvm-link'] + objs + ['-o', out], timeout=200)
        _lib[work] = (out if rc == 0 else None, bad + ([se[-500:]] if rc else []))
        return _lib[work]
def build(cwork, work, j, sh, REPO, V, INC, defs):
    os.makedirs(work, exist_ok=True)
    lb, bad = lib(cwork, sh, REPO, INC)
    if lb is None: return None, 'dv library: ' + repr(bad)[:800]
    bcs = []
    for h in j['harness']:
        o = work + '/' + h + '.bc'
        rc, so, se = sh([LL + 'clang++'] + FL + ['-D' + x for x in defs] + ['-I' + i for i in INC] + ['-emit-llvm', '-c', V + '/harness/' + h, '-o', o], timeout=120)
        if rc != 0: return None, 'clang %s: %s' % (h, se[-800:])
        bcs.append(o)
    hb = work + '/h.bc'; a = work + '/all.bc'; ll = work + '/all.ll'
    rc, so, se = sh([LL + 'llvm-link'] + bcs + ['-o', hb], timeout=120)
    if rc == 0: rc, so, se = sh([LL + 'opt', '-passes=internalize,globaldce', '--internalize-public-api-list=' + j['h'], hb, '-o', hb + '2'], timeout=120)
    if rc == 0: rc, so, se = sh([LL + 'llvm-link', '--only-needed', hb + '2', lb, '-o', a], timeout=120)
    if rc != 0: return None, 'llvm-link: ' + se[-800:]
    fa = []; inl = j.get('inline', ())
    if inl:
        # small loop-free helpers become conditional values instead of paths
        rc, so, se = sh([LL + 'llvm-nm', '--format=just-symbols', a], timeout=60)
        for n in so.split():
            m = re.match(r'_ZL?(\d+)', n)
            if m and n[m.end():m.end() + int(m.group(1))] in inl: fa.append('--force-attribute=%s:alwaysinline' % n)
    rc, so, se = sh([LL + 'opt'] + fa + ['-passes=' + ('forceattrs,always-inline,' if fa else '') + 'internalize,globaldce,function(sroa,simplifycfg,early-cse,loop-simplify)', '--internalize-public-api-list=' + j['h'], a, '-S', '-o', ll], timeout=120)
    if rc != 0: return None, 'opt: ' + se[-800:]
    return ll, ''

def run(cx, j, sh, REPO, V, INC, TIER):
    t0 = time.time(); j = dict(j); j.setdefault('harness', cx.P['harness'])
    work = '%s/dv_%s%s' % (cx.work, j['h'], j.get('case', '')); os.makedirs(work, exist_ok=True)
    # a copy of a source with substitutions, included by the harness (stated in the evidence's assumptions)
    sub = {}
    for f, pat, rep in j.get('subst', []):
        sub[f], k = re.subn(pat, rep, sub.get(f) or open(REPO + '/DevIL/src-IL/src/' + f, errors='replace').read())
        if k == 0: return dict(job=j, status='error', why='%s has nothing like %s any more: this job does not apply' % (f, pat), t=time.time() - t0, obl=[])
    for f in sub: open(work + '/x_' + f, 'w').write(sub[f])
    if sub: INC = list(INC) + [work]
    ll, why = build(cx.work, work, j, sh, REPO, V, INC, j.get('defs', []))
    if ll is None: return dict(job=j, status='error', why=why, t=time.time() - t0, obl=[])
    budget = j.get('budget', 240 if TIER == 'quick' else 1200)
    cfg = work + '/cfg.json'; out = work + '/out.json'
    json.dump(dict(ll=ll, h=j['h'], opts=dict(dict(budget=budget), **j.get('opts', {}))), open(cfg, 'w'))
    rc, so, se = sh(['python3-vt', V + '/tools/dvmain.py', cfg, out], timeout=budget + 60, mem=6 << 30)
    r = dict(job=j, t=time.time() - t0, obl=[], status='ok', covers=set(), fails=[], cmd='dv ' + j['h'])
    if rc == 'timeout': r['status'] = 'timeout'; r['why'] = 'dv timeout'; return r
    try: d = json.load(open(out))
    except Exception: r['status'] = 'error'; r['why'] = 'dv: ' + (so + se)[-900:]; return r
    if d['status'] != 'ok': r['status'] = 'unsupported'; r['why'] = d['why']
    r['covers'] = set(k for k, v in d['covers'].items() if v); r['uncovered'] = [k for k, v in d['covers'].items() if not v]
    r['queries'] = d['queries']; r['solver'] = d['solver']; r['fns'] = d['fns']
    agg = {}
    for name, kind, loc, st, model in d['obls']:
        k = '%s: %s [%s]' % (loc, name, kind)
        o = agg.setdefault(k, [st, model, loc])
        order = ['SUCCESS', 'UNKNOWN', 'FAILURE']
        if order.index(st) > order.index(o[0]): agg[k] = [st, model, loc]
    for k, (st, model, loc) in agg.items():
        r['obl'].append((k, st))
        if st == 'FAILURE':
            vals = []
            for nm, full in d['nd']:
                for suf, f in (('', lambda v: v), ('+', lambda v: v), ('-', lambda v: (1 << 32) - v)):
                    if model and full + suf in model: vals.append((nm, f(model[full + suf])))
            r['fails'].append((k, vals, dict(at=loc)))
    # a path the generator could not follow leaves failures elsewhere standing
    return r
