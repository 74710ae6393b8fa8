import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import ir, exec as ex
def main():
    cfg = json.load(open(sys.argv[1])); M = ir.parse(open(cfg['ll']).read())
    r = ex.run_harness(M, cfg['h'], cfg['opts'])
    json.dump(r, open(sys.argv[2], 'w'))
main()
