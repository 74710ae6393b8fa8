"""developer aid: natdev.py <secs> <P> [H...]: build natively and search the harnesses"""
import sys, os, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import run_check as rc
secs = float(sys.argv[1]); 
pid = sys.argv[2]; hs = sys.argv[3:]
cx = rc.Ctx(); cx.notes = []; cx.P = rc.load_prop(pid) if not pid.endswith('.c') else dict(harness=[pid])
cx.work = tempfile.mkdtemp(); cx.scratch = cx.work + '/s'; os.makedirs(cx.scratch)
cx.exe = rc.native_build(cx)
for n in cx.notes: print(n)
if cx.exe:
    for h in hs or cx.P['native']:
        r = rc.native_run(cx, h, secs, int(os.environ.get('VERIF_SEED', '1')))
        print(r['rc'], r['out'].strip()[-1500:]);
        if r['rc']: print(r['err'][:2500]); print(open(r['file']).read()[:1500] if r['file'] else '')
shutil.rmtree(cx.work)
