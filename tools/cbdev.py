"""developer aid: cbdev.py <P> <H> [timeout] [-DX..] [flag..]: one CBMC job"""
import sys, os, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import run_check as rc
a = sys.argv[1:]; P = rc.load_prop(a[0]); to = int(a[2]) if len(a) > 2 and a[2].isdigit() else 120
cx = rc.Ctx(); cx.P = P; cx.notes = []; cx.work = tempfile.mkdtemp()
j = dict([j for j in P['jobs'] if j['h'] == a[1] and j['engine'] == 'cbmc'][0]); nd = [x[2:].split('=')[0] for x in a if x.startswith('-D')]; j['defs'] = [x for x in j.get('defs', []) if x.split('=')[0] not in nd]; j['timeout'] = to
j['defs'] = list(j.get('defs', [])) + [x[2:] for x in a if x.startswith('-D')]; j['flags'] = j.get('flags', []) + [x for x in a[2:] if x.startswith('--') or x.startswith('+')]
j['flags'] = [x.lstrip('+') for x in j['flags']]
r = rc.cbmc_job(cx, j)
print(r['status'], r.get('why'), 't=%.1f' % r['t'], len(r['obl']), [o for o in r['obl'] if o[1] != 'SUCCESS'][:8], r.get('covers'), r.get('uncovered'))
for f in r.get('fails', [])[:3]: print(f)
shutil.rmtree(cx.work)
