#!/usr/bin/env python3
"""Check driver: run_check.py <property> [--only HARNESS]
Builds everything from /repo's working tree, discharges the obligations of the
property's contracts, replays counterexamples on the real code, writes evidence."""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, concurrent.futures as cf, importlib.util, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
IL = REPO + '/DevIL/src-IL'; ILU = REPO + '/DevIL/src-ILU'
INC = [IL + '/include', REPO + '/DevIL/include', ILU + '/include', V + '/rt', V + '/rt/fallback', V + '/harness']
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, os.cpu_count() or 4)
sys.path[:0] = [V + '/tools', V + '/checks']

def sh(cmd, timeout=None, cwd=None, env=None, mem=None):
    def pre():
        os.setsid()
        import resource
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

def sources():
    return sorted(glob.glob(IL + '/src/*.cpp') + glob.glob(ILU + '/src/*.cpp'))

class Ctx: pass

# ---------------------------------------------------------------- native
def native_build(cx):
    d = cx.work + '/nat'; os.makedirs(d, exist_ok=True)
    fl = ['-g1', '-O1', '-w', '-DNDEBUG', '-DIL_EXPORTS', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all'] + ['-I' + i for i in INC]
    jobs = []
    for s in sources():
        jobs.append((s, d + '/' + os.path.basename(s) + '.o', fl))
    for s in [V + '/rt/native.cpp'] + [V + '/harness/' + h for h in cx.P['harness']]:
        jobs.append((s, d + '/H_' + os.path.basename(s) + '.o', fl))
    def one(j):
        return j, sh(['g++', '-x', 'c++'] + j[2] + ['-c', j[0], '-o', j[1]], timeout=300)
    objs = []; bad = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, (rc, o, e) in ex.map(one, jobs):
            if rc != 0: bad.append((j[0], e[-1500:]))
            else: objs.append(j[1])
    if bad:
        cx.notes.append('native compile failed: ' + repr(bad)[:1500])
        if any('/harness/' in b[0] or '/rt/' in b[0] for b in bad): return None
    exe = d + '/native'
    rc, o, e = sh(['g++', '-fsanitize=address', '-rdynamic', '-o', exe] + objs +
                  ['-Wl,--unresolved-symbols=ignore-all', '-lpng', '-lz', '-ljpeg', '-ltiff', '-lmng', '-llcms2', '-lsquish', '-lm', '-ldl'], timeout=300)
    if rc != 0:
        cx.notes.append('native link failed: ' + e[-1500:]); return None
    return exe

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1200:abort_on_error=0:handle_abort=1:quarantine_size_mb=16', LC_ALL='C')

def native_run(cx, h, secs, seed, maxit=10**9):
    out = '%s/%s.%s.fail' % (cx.work, h, seed)
    rc, o, e = sh([cx.exe, 'run', h, str(secs), str(seed), str(maxit), out], timeout=secs + 90, env=NENV, cwd=cx.scratch)
    return dict(h=h, rc=rc, out=o, err=e, file=out if os.path.exists(out) else None)

def native_replay(cx, h, vals, tries=60):
    f = tempfile.NamedTemporaryFile('w', dir=cx.work, suffix='.in', delete=False)
    for n, v in vals: f.write('in %s %d\n' % (n, v))
    f.close(); out = f.name + '.fail'
    rc, o, e = sh([cx.exe, 'replay', h, f.name, str(tries), out], timeout=120, env=NENV, cwd=cx.scratch)
    return dict(h=h, rc=rc, out=o, err=e, file=out if os.path.exists(out) else None)

# ---------------------------------------------------------------- CBMC
def cbmc_job(cx, j):
    t0 = time.time()
    h = j['h']; cb = j.get('case', ''); d = '%s/cb_%s%s' % (cx.work, h, cb); os.makedirs(d, exist_ok=True)
    defs = ['-DVRT_CBMC', '-DNDEBUG', '-DIL_EXPORTS', '-Dstatic_cast=', '-Dregister='] + ['-D' + x for x in j.get('defs', [])]
    srcs = [V + '/harness/' + x for x in j.get('harness', cx.P['harness'])]
    want = j['srcs']
    srcs += [IL + '/src/' + x if not x.startswith('ilu_') else ILU + '/src/' + x for x in want]
    objs = []
    # a copy of a source included by the harness with a constant replaced (stated in the evidence's assumptions)
    sub = {}
    for f, pat, rep in j.get('subst', []):
        sub[f], k = re.subn(pat, rep, sub.get(f) or open(IL + '/src/' + f, errors='replace').read())
        if k == 0: return dict(job=j, status='error', why='%s has nothing like %s any more: this job does not apply' % (f, pat), t=time.time() - t0, obl=[])
    for f in sub: open(d + '/x_' + f, 'w').write(sub[f])
    if sub: defs.append('-I' + d)
    for s in srcs:
        o = d + '/' + os.path.basename(s) + '.gb'
        rc, so, se = sh(['goto-cc', '-x', 'c', '-std=gnu99'] + defs + ['-I' + i for i in INC] + ['-c', s, '-o', o], timeout=120)
        if rc != 0: return dict(job=j, status='error', why='goto-cc %s: %s' % (s, (se + so)[-800:]), t=time.time() - t0, obl=[])
        objs.append(o)
    gb = d + '/all.gb'
    rc, so, se = sh(['goto-cc', '--function', h] + objs + ['-o', gb], timeout=120)
    if rc != 0: return dict(job=j, status='error', why='goto-cc link: ' + (se + so)[-800:], t=time.time() - t0, obl=[])
    if j.get('remove_body'):
        cmd = ['goto-instrument'] + sum([['--remove-function-body', f] for f in j['remove_body']], []) + [gb, gb + '2']
        rc, so, se = sh(cmd, timeout=120)
        if rc == 0: gb = gb + '2'
    flags = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--unwinding-assertions',
             '--unwind', str(j.get('unwind', 10)), '--object-bits', str(j.get('objbits', 10)), '--drop-unused-functions']
    if not j.get('malloc_fail'): flags += ['--no-malloc-may-fail']
    else: flags += ['--malloc-may-fail', '--malloc-fail-null']
    flags += j.get('flags', [])
    if j.get('unwindset'): flags += ['--unwindset', ','.join(j['unwindset'])]
    cmd = ['cbmc', gb, '--function', h, '--json-ui', '--trace'] + flags
    rc, so, se = sh(cmd, timeout=j.get('timeout', 600 if TIER == 'quick' else 1500), mem=14 << 30)
    r = dict(job=j, cmd=' '.join(cmd[:1] + ['<gb>'] + cmd[2:]), t=time.time() - t0, obl=[], status='ok', covers=set(), fails=[])
    if rc == 'timeout': r['status'] = 'timeout'; r['why'] = 'cbmc timeout'; return r
    try: data = json.loads(so)
    except Exception: r['status'] = 'error'; r['why'] = 'cbmc output: ' + (so + se)[-600:]; return r
    res = None
    for x in data:
        if 'result' in x: res = x['result']
        if x.get('messageType') == 'ERROR': r['why'] = x.get('messageText', '')[:800]
    if res is None:
        r['status'] = 'error'; r.setdefault('why', 'no result (rc %s)' % rc); return r
    for p in res:
        desc = p.get('description', ''); st = p['status']; nm = p['property']
        if desc.startswith('COVER '):
            if st == 'FAILURE': r['covers'].add(desc[6:])
            else: r.setdefault('uncovered', []).append(desc[6:])
            continue
        name = nm + ': ' + desc
        m = re.search(r'no body for callee (\S+)', desc)
        if m and any(re.fullmatch(x, m.group(1)) for x in j.get('external', [])): continue   # by its contract: any result, no other effect
        if desc.startswith('unwinding assertion') or 'no body' in desc or nm.endswith('no-body') or '.no-body.' in nm or 'recursion unwinding' in desc:
            if st == 'FAILURE':
                if 'unwind' in desc and j.get('partial'): continue
                r['status'] = 'limit'; r['why'] = name; r['obl'].append((name, 'UNKNOWN')); continue
        r['obl'].append((name, 'SUCCESS' if st == 'SUCCESS' else 'FAILURE' if st == 'FAILURE' else 'UNKNOWN'))
        if st == 'FAILURE': r['fails'].append((name, trace_vals(p.get('trace', []), h), p.get('sourceLocation', {})))
    return r

def trace_vals(tr, h):
    """values returned by nd_* calls, in order, with the name passed as argument"""
    vals = []; last = None
    for s in tr:
        if s.get('stepType') == 'function-call':
            last = None
        if s.get('stepType') != 'assignment': continue
        lhs = s.get('lhs', '')
        fn = s.get('sourceLocation', {}).get('function', '')
        if lhs == 'n' or lhs.endswith('::n'):
            v = s.get('value', {}); m = re.search(r'"([^"]*)"', json.dumps(v.get('data', v)).replace('\\"', '"'))
            last = m.group(1) if m else None
        if lhs == 'vrt_logv':
            b = s.get('value', {}).get('binary')
            if b is None: continue
            vals.append((last or '?', int(b, 2)))
    # keep the last assignment only when several for one declaration
    return vals

# ---------------------------------------------------------------- main
def load_prop(pid):
    spec = importlib.util.spec_from_file_location(pid, V + '/checks/' + pid + '.py')
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m.P

def main():
    pid = sys.argv[1]; only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    t0 = time.time(); cx = Ctx(); cx.P = P = load_prop(pid); cx.notes = []; cx.pid = pid
    cx.work = tempfile.mkdtemp(prefix='dvchk_%s_' % pid); cx.scratch = cx.work + '/scratch'; os.makedirs(cx.scratch)
    try: rc = run(cx, P, pid, only, t0)
    finally: shutil.rmtree(cx.work, ignore_errors=True)
    sys.exit(rc)

def run(cx, P, pid, only, t0):
    jobs = [j for j in P.get('jobs', []) if (not only or j['h'] == only) and (TIER == 'thorough' or not j.get('thorough'))]
    nat = [h for h in P.get('native', []) if not only or h == only]
    for j in jobs: cx_h = j['h']
    results = []; nres = []
    ex = cf.ThreadPoolExecutor(max(1, NCPU - 2)); fut = []
    nb = cf.ThreadPoolExecutor(1).submit(native_build, cx)
    for j in sorted(jobs, key=lambda j: -j.get('cost', 1)):
        fut.append(ex.submit(job_dispatch, cx, j))
    cx.exe = nb.result()
    if cx.exe:
        tb = P.get('native_secs', 6) * (1 if TIER == 'quick' else 10)
        with cf.ThreadPoolExecutor(4) as nx:
            for r in nx.map(lambda a: native_run(cx, a[0], tb, SEED * 31 + a[1], P.get('native_iters', 10**9)), [(h, k) for k, h in enumerate(nat)]): nres.append(r)
    for f in fut: results.append(f.result())
    # ---- verdict
    viol = []; known = load_known(pid); kf_lines = []
    for r in nres:
        if r['rc'] == 3:
            viol.append(dict(kind='input', h=r['h'], what=r['out'].strip().splitlines()[-1] if r['out'].strip() else 'failure', file=r['file'], log=r['err'][-3500:]))
        elif r['rc'] != 0: cx.notes.append('native %s: rc=%s %s %s' % (r['h'], r['rc'], r['out'][-300:], r['err'][-500:]))
    obl = dis = bobl = bdis = 0; undecided = []; perh = []; stime = 0.0; allcov = {}
    for r in results:
        j = r['job']; bounded = j.get('level') == 'bounded'
        n = len(r['obl']); k = sum(1 for _, s in r['obl'] if s == 'SUCCESS')
        if r['status'] != 'ok' and r['status'] != 'limit': n = n + 1
        if bounded: bobl += n; bdis += k
        else: obl += n; dis += k
        stime += r.get('t', 0)
        perh.append(dict(harness=j['h'] + j.get('case', ''), engine=j['engine'], level='bounded' if bounded else 'proof', bound=j.get('bound', ''),
                         functions=j.get('funcs', []), obligations=n, discharged=k, seconds=round(r.get('t', 0), 2), status=r['status'], reached=sorted(r.get('covers', []))))
        if r['status'] != 'ok': undecided.append('%s%s [%s]: %s' % (j['h'], j.get('case', ''), r['status'], r.get('why', '')))
        for c in r.get('uncovered', []): undecided.append('%s: point %s not reachable under the precondition (vacuous)' % (j['h'], c))
        if r['status'] == 'ok' and not r['obl']: undecided.append('%s: no obligations generated' % j['h'])
        for name, st in r['obl']:
            if st == 'UNKNOWN' and r['status'] == 'ok': undecided.append('%s: %s undecided' % (j['h'], name))
        for name, vals, loc in r.get('fails', []):
            v = dict(kind='obligation', h=j['h'], what=name, vals=vals, loc=loc, out=r.get('output', ''))
            nh = j.get('replay', j['h'])
            if cx.exe and not any(x['kind'] == 'input' and x['h'] == nh for x in viol):
                rr = native_replay(cx, nh, vals)
                m = re.search(r'tries=(\d+) rejected=(\d+)', rr['out'])
                # the counterexample ran on the real code and nothing failed: the proof is undecided, not refuted
                if rr['rc'] == 0 and j['engine'] == 'dv' and m and int(m.group(2)) < int(m.group(1)): v['kind'] = 'undecided'
                if rr['rc'] == 3:
                    viol.append(dict(kind='input', h=nh, what=(rr['out'].strip().splitlines() or ['failure'])[-1] + ' (replays failed obligation ' + name + ')', file=rr['file'], log=rr['err'][-3500:]))
                    continue
            viol.append(v)
    # a failed obligation whose harness has a failing input is reported through that input
    hard = [v for v in viol if v['kind'] == 'input']
    if any(v['kind'] != 'input' for v in viol) and not hard and cx.exe:
        # directed search: spend more time on the harnesses whose obligations failed
        hs = sorted(set([v['h'] for v in viol] + nat)); 
        with cf.ThreadPoolExecutor(NCPU) as nx:
            for r in nx.map(lambda h: native_run(cx, h, 25, SEED * 77 + 5), [h for h in hs if h in nat or True]):
                if r['rc'] == 3: viol.append(dict(kind='input', h=r['h'], what=(r['out'].strip().splitlines() or ['failure'])[-1], file=r['file'], log=r['err'][-3500:]))
        hard = [v for v in viol if v['kind'] == 'input']
    for v in viol:
        if v['kind'] == 'undecided': undecided.append('%s: %s: not proved; the solver\'s candidate counterexample %s does not fail on the real code' % (v['h'], v['what'], v['vals']))
    viol = [v for v in viol if v['kind'] != 'undecided']
    rep = V + '/replay/' + pid; os.makedirs(rep, exist_ok=True)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P['level'], wall_s=0, violations=0,
              assumptions=P.get('assumptions', []),
              coverage=dict(obligations=obl, discharged=dis, bounded_obligations=bobl, bounded_discharged=bdis,
                            checker_cmd='python3 tools/run_check.py %s' % pid,
                            trusted_base=P.get('trusted', []) + TRUST(jobs), harnesses=perh, solver_time_s=round(stime, 2),
                            functions_under_contract=sorted(set(sum([j.get('funcs', []) for j in jobs], []))),
                            undecided=undecided, native_search=[r['out'].strip().splitlines()[-1] if r['out'].strip() else str(r['rc']) for r in nres], notes=cx.notes,
                            explanation=P.get('explanation', '')))
    evs = sum(int(m.group(1)) for r in nres for m in [re.search(r'accepted=(\d+)', r['out'])] if m)
    ev['coverage']['evaluations'] = evs
    lines = []
    for i, v in enumerate(sorted(viol, key=lambda v: v['kind'] != 'input')):
        if hard and v['kind'] != 'input': continue
        f = '%s/%s.%d.replay' % (rep, v['h'], i)
        with open(f, 'w') as o:
            o.write('property %s\nharness %s\nwhat %s\n' % (pid, v['h'], v['what']))
            if v['kind'] == 'input':
                if v.get('file') and os.path.exists(v['file']): o.write(open(v['file']).read())
                o.write('\n--- log\n' + v.get('log', ''))
            else:
                o.write('failed obligation: %s\nlocation: %s\nverifier counterexample (inputs in call order): %s\n%s\n' % (v['what'], json.dumps(v.get('loc')), v['vals'], v.get('out', '')))
        l = 'VIOLATION property=%s replay=%s' % (pid, f)
        if v['kind'] != 'input': l += ' no-failing-input-found'
        lines.append((l, v['what'])); 
        if i >= 4: break
    for kf in known:
        if cx.exe:
            r = native_run(cx, kf['h'], 3, 1)
            if r['rc'] == 3: print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
            else: cx.notes.append('known finding no longer reproduces: ' + kf['what'])
    ev['violations'] = len(lines); ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % pid, 'w') as o: json.dump(ev, o, indent=1)
    print('%s: proof obligations %d/%d discharged, bounded %d/%d, native runs %d, %.0fs' % (pid, dis, obl, bdis, bobl, evs, time.time() - t0))
    for u in undecided: print('UNDECIDED ' + u[:600])
    for n in cx.notes: print('NOTE ' + n[:1500])
    for l, w in lines: print('  failed: ' + w[:300])
    for l, w in lines: print(l)
    return 1 if lines else 0

def TRUST(jobs):
    t = ['harness text (contracts) in /verif/harness', 'rt/vrt.h']
    e = set(j['engine'] for j in jobs)
    if 'cbmc' in e: t += ['CBMC 6.11 (goto-cc, cbmc, built-in SAT back end), its C library models and C-mode parse of the .cpp files']
    if 'dv' in e: t += ['tools/dv (VC generator over LLVM IR), clang 18 front end and mem2reg/inline passes, z3']
    return t

def job_dispatch(cx, j):
    try:
        if j['engine'] == 'cbmc': return cbmc_job(cx, j)
        if j['engine'] == 'dv':
            import dvjob
            return dvjob.run(cx, j, sh, REPO, V, INC, TIER)
    except Exception as e:
        import traceback
        return dict(job=j, status='error', why='exception ' + traceback.format_exc()[-900:], t=0, obl=[])

def load_known(pid):
    out = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) harness=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append(dict(h=m.group(2), what=m.group(3)))
    return out

if __name__ == '__main__': main()
