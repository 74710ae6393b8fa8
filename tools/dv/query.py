"""Validity queries: facts |- goal, discharged by z3 on linear integer arithmetic
with uninterpreted functions; products are linearised with the lemma schema
   L<=0, R>=0  |-  L*R<=0      (L a literal of the query, R a monomial)."""
import z3, time
from .term import *
from . import term as T

class Stats: pass
ST = Stats(); ST.q = 0; ST.t = 0.0; ST.cvc = 0

class Q:
    """one query under construction"""
    def __init__(self, memax=None, hints=(), splits=()):
        self.fs = []; self.memax = memax; self.hints = hints; self.splits = list(splits)

    def solve(self, formulas, timeout=8000, want_model=False):
        t0 = time.time(); ST.q += 1
        fs = [f for f in formulas if f != TRUE]
        if any(f == FALSE for f in fs): return 'unsat', None
        # --- close under atom axioms
        todo = list(fs); allf = []; seen = set(); seenf = set(); rng = []
        extra_pairs = set()
        while todo:
            f = todo.pop()
            if f in seenf or f == TRUE: continue
            if f == FALSE: 
                return 'unsat', None
            seenf.add(f); allf.append(f)
            for i in fatoms(f):
                if i in seen: continue
                seen.add(i); a = T._alist[i]; ap = A(a)
                if a.lo is not None: rng.append(('le', sub(C(a.lo), ap)))
                if a.hi is not None: rng.append(('le', sub(ap, C(a.hi))))
                if a.kind == 'div':
                    x, d = a.args; r = sub(x, mul(d, ap))
                    # 0 <= x - d*q <= d-1   (d >= 1)
                    todo.append(('le', scale(r, -1))); todo.append(('le', add(sub(r, d), ONE)))
                elif a.kind == 'mod':
                    x, d = a.args; q = div_raw(x, d)
                    todo.append(('eq', sub(sub(x, mul(d, q)), ap))); todo.append(('le', add(sub(ap, d), ONE)))
                elif a.kind == 'ite':
                    f0, x, y = a.args
                    todo.append(disj([neg(f0), ('eq', sub(ap, x))])); todo.append(disj([f0, ('eq', sub(ap, y))]))
                elif a.kind == 'bit':
                    for g in bit_axioms(a): todo.append(g)
                elif a.kind == 'mem' and self.memax is not None:
                    for g in self.memax(a, self): todo.append(g)
                elif a.kind == 'app' and a.extra is not None and self.memax is not None:
                    for g in a.extra(a, self): todo.append(g)
            if self.memax is not None and len(allf) > 4000: break
        allf += rng
        # --- linearisation lemmas
        lits = []; ls = set()
        mons = set()
        for f in allf:
            for p in fpolys(f, []):
                if p not in ls: ls.add(p); lits.append(p)
                for m in p.t:
                    if len(m) > 1: mons.add(m)
        argmons = set()
        for i in seen:
            for x in T._alist[i].args:
                if isinstance(x, Poly):
                    for m in x.t:
                        if len(m) > 1: mons.add(m)
        lem = []
        if mons:
            nn = lambda m: all(T._alist[i].lo is not None and T._alist[i].lo >= 0 for i in m)
            mult = {}
            for m in mons:
                for j in range(len(m)):
                    R = m[:j] + m[j+1:]
                    mult.setdefault(R, set()).add(m[j])
            allm = set(mons)
            sp = set()
            # split literals between atoms sharing a cofactor
            for R, ss in mult.items():
                ss = sorted(ss)
                if len(ss) > 14: ss = ss[:14]
                for x in range(len(ss)):
                    for y in range(x + 1, len(ss)):
                        a, b = T._alist[ss[x]], T._alist[ss[y]]
                        sp.add(sub(A(a), A(b)))
            for p in self.splits: sp.add(p)
            cand = [(p, False) for p in lits] + [(p, True) for p in sp if p not in ls]
            nl = 0
            for R, ss in mult.items():
                if not nn(R): continue
                Rp = Poly({R: 1})
                for p, isp in cand:
                    if len(p.t) > 12: continue
                    # relevant: p contains an atom s with s*R a known monomial
                    hit = False
                    for m in p.t:
                        if len(m) == 1 and m[0] in ss: hit = True; break
                        if len(m) > 1 and tuple(sorted(m + R)) in allm: hit = True; break
                    if not hit: continue
                    pr = mul(p, Rp)
                    new = sum(1 for m in pr.t if len(m) > 1 and m not in allm)
                    if new > (1 if not isp else 0) : continue
                    # p<=0 -> pR<=0 ; p>=1 -> pR>=R ; p<=-1 -> pR<=-R ; p>=0 -> pR>=0
                    lem.append((p, pr, Rp)); nl += 1
                    if nl > 6000: break
            for m in mons:
                if nn(m): lem.append((None, Poly({m: 1}), None))
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('timeout', timeout)
        cv = Conv()
        for f in allf: s.add(cv.f(f))
        for p, pr, R in lem:
            if p is None: s.add(cv.p(pr) >= 0); continue
            zp, zr, zR = cv.p(p), cv.p(pr), cv.p(R)
            s.add(z3.Implies(zp <= 0, zr <= 0)); s.add(z3.Implies(zp >= 0, zr >= 0))
            s.add(z3.Implies(zp >= 1, zr >= zR)); s.add(z3.Implies(zp <= -1, zr <= -zR))
        r = s.check()
        ST.t += time.time() - t0
        model = None
        if r == z3.sat and want_model:
            m = s.model(); model = {}
            for i in seen:
                a = T._alist[i]
                if a.kind == 'sym':
                    v = m.eval(cv.atom(i), model_completion=True)
                    try: model[a.name] = v.as_long()
                    except Exception: pass
        return str(r), model

def div_raw(x, d):
    lo, hi = bounds(x); cd = d.const()
    return A(atom('div', 'div', (x, d), None if lo is None or not cd else lo // cd, None if hi is None or not cd else hi // cd))

def bit_axioms(a):
    x, y = a.args; v = A(a); o = []
    if a.name.startswith('and'): o += [le(v, x), le(v, y)]
    elif a.name.startswith('or'): o += [le(x, v), le(y, v), le(v, add(x, y))]
    elif a.name.startswith('xor'): o += [le(v, add(x, y))]
    return o

class Conv:
    def __init__(s): s.ac = {}; s.mc = {}; s.pc = {}
    def atom(s, i):
        z = s.ac.get(i)
        if z is None:
            a = T._alist[i]
            ia = [x for x in a.args if isinstance(x, Poly)]
            if a.kind in ('sym', 'div', 'mod', 'ite') or not ia: z = z3.Int('a%d' % i)
            else:
                nm = a.name + ('|' + '|'.join(str(x) for x in a.args if not isinstance(x, (Poly, tuple))) if len(ia) != len(a.args) else '')
                fn = z3.Function('f_' + nm, *([z3.IntSort()] * (len(ia) + 1)))
                z = fn(*[s.p(x) for x in ia])
            s.ac[i] = z
        return z
    def p(s, p):
        z = s.pc.get(p)
        if z is None:
            ts = []
            for m, c in p.t.items():
                if not m: ts.append(z3.IntVal(c)); continue
                if len(m) == 1: v = s.atom(m[0])
                else:
                    v = s.mc.get(m)
                    if v is None: v = s.mc[m] = z3.Int('m_' + '_'.join(map(str, m)))
                ts.append(v if c == 1 else c * v)
            z = z3.IntVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
            s.pc[p] = z
        return z
    def f(s, f):
        k = f[0]
        if k == 't': return z3.BoolVal(True)
        if k == 'f': return z3.BoolVal(False)
        if k == 'and': return z3.And([s.f(x) for x in f[1]])
        if k == 'or': return z3.Or([s.f(x) for x in f[1]])
        neg_ = {m: -c for m, c in f[1].t.items() if c < 0}; pos = {m: c for m, c in f[1].t.items() if c > 0}
        a, b = s.p(Poly(pos)), s.p(Poly(neg_))
        return a <= b if k == 'le' else a == b if k == 'eq' else a != b
