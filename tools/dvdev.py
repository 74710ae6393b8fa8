"""developer aid: dvdev.py <harness.c> <H> src.. [-D..] [key=val]"""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import dvjob, run_check as rc, glob
if os.path.exists('/tmp/dvlibcache/dvlib/lib.bc') and not any(os.path.getmtime(f) > os.path.getmtime('/tmp/dvlibcache/dvlib/lib.bc') for f in glob.glob(rc.REPO + '/DevIL/src-IL*/*/*')): dvjob._lib['/tmp/dvlibcache'] = ('/tmp/dvlibcache/dvlib/lib.bc', [])
a = sys.argv[1:]; defs = [x[2:] for x in a if x.startswith('-D')]; kv = dict(x.split('=', 1) for x in a if '=' in x and not x.startswith('-')); pos = [x for x in a if '=' not in x and not x.startswith('-')]
j = dict(harness=[pos[0]], h=pos[1], srcs=pos[2:], inline=kv.get('inline', '').split(','))
w = '/tmp/dvdev_%d' % os.getpid()
ll, why = dvjob.build('/tmp/dvlibcache', w, j, rc.sh, rc.REPO, V, rc.INC, defs)
if not ll: print(why); sys.exit(1)
opts = dict(budget=float(kv.get('budget', 120)), trace=1, dump=int(kv.get('dump', 0)), alloc_fail=bool(int(kv.get('af', 1))), pure=kv.get('pure', '').split(','), qto=int(kv.get('qto', 6000)), nomodel=kv.get('nomodel', '').split(','), **({'max_unroll': int(kv['mu'])} if 'mu' in kv else {}), bytecopy=bool(int(kv.get('bc', 0))), stubs=dict(x.split(':') for x in kv['stubs'].split(',')) if 'stubs' in kv else {})
json.dump(dict(ll=ll, h=j['h'], opts=opts), open(w + '/c.json', 'w'))
subprocess.call((['python3-vt', '-m', 'cProfile', '-s', 'cumtime'] if 'prof' in kv else ['python3-vt']) + [V + '/tools/dvmain.py', w + '/c.json', w + '/o.json'])
if os.path.exists(w + '/o.json'):
    r = json.load(open(w + '/o.json'))
    from collections import Counter
    print(r['status'], r['why'], 'paths', r['paths'], 't %.1f' % r['t'], 'queries', r['queries'], 'solver %.1f' % r['solver'], Counter((o[1], o[3]) for o in r['obls']), r['covers'])
if 'keep' not in kv: subprocess.call(['rm', '-rf', w])
else: print(w)
