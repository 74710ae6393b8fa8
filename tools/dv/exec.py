"""Symbolic executor / VC generator for one harness over LLVM IR."""
import sys, time
from .term import *
from . import term as T, ir
from .query import Q, ST

import struct
def fold_val(t, u): return struct.unpack('<f', struct.pack('<I', u))[0] if t == 'float' else struct.unpack('<d', struct.pack('<Q', u))[0]
def fold_bits(t, v):
    try: return struct.unpack('<I', struct.pack('<f', v))[0] if t == 'float' else struct.unpack('<Q', struct.pack('<d', v))[0]
    except OverflowError: return None
def fpfold(op, t, a, b):
    """IEEE arithmetic on constants (double rounding through double is exact for float + - * /)"""
    if t not in ('float', 'double'): return None
    x, y = fold_val(t, a), fold_val(t, b)
    if x != x or y != y or abs(x) == float('inf') or abs(y) == float('inf'): return None
    try: r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y if op == 'fdiv' else None
    except (ZeroDivisionError, OverflowError): return None
    if r is None or abs(r) == float('inf'): return None
    return fold_bits(t, r)
def fpcmp(p, t, a, b):
    if a is None or b is None or t not in ('float', 'double'): return None
    x, y = fold_val(t, a), fold_val(t, b); un = x != x or y != y
    f = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y and not un}
    if p == 'ord': return not un
    if p == 'uno': return un
    if p[0] == 'o' and p[1:] in f: return f[p[1:]] and not un
    if p[0] == 'u' and p[1:] in f: return f[p[1:]] or un
    return None

class Unsupported(Exception): pass

class Obj:
    n = 0
    def __init__(s, name, size, kind, data=None, ty=None):
        Obj.n += 1; s.id = Obj.n; s.name = name; s.size = size; s.kind = kind; s.data = data; s.ty = ty; s.fn = None; s.heap = False
    def __repr__(s): return 'obj%d:%s' % (s.id, s.name)
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off))
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
NULL = Ptr(None, ZERO)
class Poison:
    def __init__(s, why): s.why = why
    def __repr__(s): return 'Poison(%s)' % s.why
class Agg:
    def __init__(s, vs): s.vs = list(vs)

class Ver:
    def __init__(s, obj, params, parent, entry):
        s.id = len(VERS); VERS.append(s); s.obj = obj; s.params = params; s.parent = parent; s.entry = entry
VERS = []

class State:
    def __init__(s): s.facts = []; s.mem = {}; s.dead = set(); s.params = (); s.reads = []; s.known = set(); s.own = set()
    def copy(s):
        n = State(); n.facts = list(s.facts); n.mem = {k: (v.copy() if isinstance(v, dict) else v) for k, v in s.mem.items()}
        n.dead = set(s.dead); n.params = s.params; n.reads = list(s.reads); n.known = set(s.known); n.own = set(s.own); return n

def wbits(ty):
    return {'i': lambda: ty[1], 'float': lambda: 32, 'double': lambda: 64, 'half': lambda: 16}[ty[0]]()

class Ctx:
    def __init__(self, M, opts):
        self.M = M; self.o = opts; self.lenient = False; self.quiet = 0; self.obls = []; self.globals = {}; self.hints = []; self.nd = []
        self.cnt = 0; self.covers = {}; self.depth = 0; self.stubs = opts.get('stubs', {}); self.t_end = time.time() + opts.get('budget', 300)
        self.cache = {}; self.trace = opts.get('trace'); self.fns_used = set(); self.paths = 0
        self.qto = opts.get('qto', 6000); self.errcount = 0
        self.splits = []

    # ------------------------------------------------------------ basics
    def fresh(self, name, st, lo=None, hi=None):
        self.cnt += 1
        if st.params: return app('%s!%d' % (name, self.cnt), [A(T._alist[i]) for i in st.params], lo, hi)
        return sym('%s!%d' % (name, self.cnt), lo, hi)
    def prove(self, facts, goal, memax=False, timeout=None, model=False):
        if goal == TRUE: return ('unsat', None) if model else True
        if time.time() > self.t_end: raise Unsupported('time budget exhausted')
        key = None
        if not memax and not model:
            key = (goal, frozenset(facts)); r = self.cache.get(key)
            if r is not None: return r
        q = Q(self.memax if memax else None, self.hints, self.splits)
        r, m = q.solve(facts + [neg(goal)], timeout or self.qto, model)
        if model: return r, m
        ok = r == 'unsat'
        if key is not None: self.cache[key] = ok
        return ok
    def implied(self, st, f):
        if f == TRUE: return True
        if f == FALSE: return False
        if f in st.known: return True
        if f in st.facts: return True
        r = self.prove(st.facts, f, timeout=2500)
        if r: st.known.add(f)
        return r
    def feasible(self, st, f):
        if f == FALSE: return False
        if f == TRUE: return True
        if neg(f) in st.facts: return False
        if f in st.facts: return True
        return not self.prove(st.facts, neg(f), timeout=2500)
    def oblig(self, st, goal, name, kind, loc, assume=True):
        if goal == TRUE:
            if not self.quiet: self.obls.append((name, kind, loc, 'SUCCESS', None))
            return
        if self.quiet:
            if assume: st.facts.append(goal)
            return
        if goal in st.known or goal in st.facts: self.obls.append((name, kind, loc, 'SUCCESS', None)); return
        mm = kind == 'check' or any(T._alist[i].kind == 'mem' for i in fatoms(goal))
        if kind != 'check' and mm:
            ok = self.prove(st.facts, goal)
            if not ok: ok = self.prove(st.facts, goal, memax=True)
        else:
            ok = self.prove(st.facts, goal, timeout=2000) or (mm and self.prove_split(st.facts, goal)) or (not mm and self.prove(st.facts, goal))
            if not ok and mm and self.o.get('memax'): ok = self.prove(st.facts, goal, memax=mm, timeout=self.qto * 3)
        res = 'SUCCESS' if ok else None; model = None
        if not ok:
            r, model = self.prove(st.facts, goal, memax=mm, timeout=self.qto * 2, model=True)
            res = 'SUCCESS' if r == 'unsat' else 'FAILURE' if r == 'sat' else 'UNKNOWN'
            if self.trace and res != 'SUCCESS':
                print('  FAILED', name, loc, fshow(goal)[:400], r, model)
                if self.o.get('dump'):
                    for f in st.facts: print('     fact', fshow(f)[:300])
        self.obls.append((name, kind, loc, res, model))
        if assume: st.facts.append(goal); st.known.add(goal)

    # ------------------------------------------------------------ arithmetic
    def wrap(self, p, n, st):
        lo, hi = bounds(p); M_ = 1 << n
        if lo is not None and hi is not None and lo >= 0 and hi < M_: return p
        c = p.const()
        if c is not None: return C(c % M_)
        if self.lenient: return p
        gl = [] 
        if lo is None or lo < 0: gl.append(le(ZERO, p))
        if hi is None or hi >= M_: gl.append(lt(p, C(M_)))
        if all(self.implied(st, g) for g in gl): return p
        h = M_ // 2
        sl = [] if lo is not None and lo >= -h else [le(C(-h), p)]
        sl += [] if hi is not None and hi < h else [lt(p, C(h))]
        if all(self.implied(st, g) for g in sl):
            if self.implied(st, lt(p, ZERO)): return add(p, C(M_))
            return self.canon(p, n)
        r = mod(p, C(M_))
        return r
    def canon(self, s_, n):
        """canonical unsigned n-bit value of a signed value in range"""
        return add(s_, scale(ite(lt(s_, ZERO), ONE, ZERO), 1 << n))
    def uncanon(self, p, n):
        for i in atoms_of(p):
            a = T._alist[i]
            if a.kind == 'ite' and p.t.get((i,)) == 1 << n:
                s_ = sub(p, scale(A(a), 1 << n))
                if a.args[0] == lt(s_, ZERO): return s_
        return None
    def simpite(self, p, st):
        """drop conditionals the path has decided"""
        if not isinstance(p, Poly) or self.lenient: return p
        m = {}
        for i in atoms_of(p):
            a = T._alist[i]
            if a.kind == 'ite':
                if self.implied(st, a.args[0]): m[i] = a.args[1]
                elif self.implied(st, neg(a.args[0])): m[i] = a.args[2]
        return self.simpite(subst1(p, m), st) if m else p
    def sgn(self, p, n, st):
        h = 1 << (n - 1); lo, hi = bounds(p)
        if hi is not None and hi < h and lo is not None and lo >= 0: return p
        if lo is not None and lo >= h: return sub(p, C(1 << n))
        u = self.uncanon(p, n)
        if u is not None: return u
        if self.lenient and hi is None: return p
        if self.implied(st, lt(p, C(h))): return p
        if self.implied(st, le(C(h), p)): return sub(p, C(1 << n))
        return sub(p, scale(ite(le(C(h), p), ONE, ZERO), 1 << n))
    def usgn(self, p, n, st):
        """mathematical signed value -> canonical unsigned"""
        return self.wrap(p, n, st)

    # ------------------------------------------------------------ memory
    def entry(self, st, obj):
        e = st.mem.get(obj.id)
        if e is None: e = st.mem[obj.id] = {}
        return e
    def vref(self, ver): return (ver, tuple(A(T._alist[i]) for i in ver.params))
    def to_version(self, st, obj):
        e = self.entry(st, obj)
        if not isinstance(e, dict): return e
        b = getattr(obj, 'basever', None)
        if b is None: b = obj.basever = Ver(obj, obj.params, None, ('base',))
        ref = (b, tuple(A(T._alist[i]) for i in b.params))
        for off, (w, v) in sorted(e.items()):
            if isinstance(v, (Ptr, Poison)): raise Unsupported('symbolic offset into object holding pointers: %s' % obj)
            if v is None: continue
            ref = self.push(st, obj, ref, ('pt', C(off), w, v))
        st.mem[obj.id] = ref
        return ref
    def push(self, st, obj, ref, entry):
        v = Ver(obj, st.params, ref, entry); return self.vref(v)
    def memterm(self, ref, addr, w):
        v, args = ref
        if v.entry[0] == 'base':
            if v.obj.kind == 'zero': return ZERO
            if v.obj.kind == 'const':
                c = addr.const()
                if c is not None and 0 <= c and c + w <= len(v.obj.data): return C(int.from_bytes(v.obj.data[c:c+w], 'little'))
        return app('M', (v.id, w) + tuple(args) + (addr,), 0, (1 << (8 * w)) - 1, kind='mem')
    def inst(self, v, args):
        return {p: a for p, a in zip(v.params, args) if not (len(a.t) == 1 and a.t.get((p,)) == 1)}
    def sref(self, ref, s):
        if not s: return ref
        return (ref[0], tuple(subst(a, s) for a in ref[1]))
    def resolve(self, st, ref, addr, w):
        """read w bytes at addr from version ref; returns (value, rooted) ;
        rooted: the value may come from below the versions pushed since st.root"""
        for _ in range(200):
            v, args = ref; e = v.entry; k = e[0]
            if k == 'base': return self.memterm(ref, addr, w)
            s = self.inst(v, args)
            if k == 'pt':
                a2 = subst(e[1], s)
                if a2 == addr and e[2] == w: return subst(e[3], s) if isinstance(e[3], Poly) else e[3]
                d = self.disjoint(st, addr, C(w), a2, C(e[2]))
                if not d and e[2] == w and self.implied(st, eq(a2, addr)): return subst(e[3], s)
            elif k in ('set', 'copy'):
                dst, ln = subst(e[1], s), subst(e[2], s)
                if self.inside(st, addr, C(w), dst, ln):
                    if k == 'set':
                        b = subst(e[3], s).const()
                        if b is None: return self.memterm(ref, addr, w) if w > 1 else subst(e[3], s)
                        return C(int.from_bytes(bytes([b]) * w, 'little'))
                    ref2 = self.sref(e[3], s); addr = add(sub(addr, dst), subst(e[4], s)); ref = ref2; continue
                d = self.disjoint(st, addr, C(w), dst, ln)
            else: return self.memterm(ref, addr, w)
            if not d: return self.memterm(ref, addr, w)
            ref = self.sref(v.parent, s)
        return self.memterm(ref, addr, w)
    # --- case-splitting resolution used for goals
    def fimp(self, facts, f, timeout=3000):
        if f == TRUE: return True
        if f == FALSE: return False
        if f in facts: return True
        return self.prove(facts, f, timeout=timeout)
    def resolve2(self, facts, ref, addr, w, stuck):
        for _ in range(200):
            v, args = ref; e = v.entry; k = e[0]
            if k == 'base': return self.memterm(ref, addr, w)
            s = self.inst(v, args)
            if k == 'pt':
                a2 = subst(e[1], s); w2 = e[2]; d = sub(addr, a2).const()
                if d is not None:
                    if d == 0 and w == w2: return self.vsub(e[3], s)
                    if 0 <= d and d + w <= w2: return mod(div(self.vsub(e[3], s), C(256 ** d)), C(256 ** w))
                    if not (d >= w2 or d + w <= 0):
                        r = ZERO
                        for i in range(w): r = add(r, scale(self.resolve2(facts, ref, add(addr, C(i)), 1, stuck), 256 ** i))
                        return r
                else:
                    if w2 == w:
                        c = eq(addr, a2)
                        if self.fimp(facts, c): return self.vsub(e[3], s)
                    dj = disj([le(add(addr, C(w)), a2), le(add(a2, C(w2)), addr)])
                    if not self.fimp(facts, dj):
                        if w2 == w and not self.fimp(facts, neg(c)): stuck.append(c)
                        elif w == 1 and w2 <= 8:
                            for i in range(w2):
                                c = eq(addr, add(a2, C(i)))
                                if self.fimp(facts, c): return mod(div(self.vsub(e[3], s), C(256 ** i)), C(256))
                                if not self.fimp(facts, neg(c)): stuck.append(c); break
                        return self.memterm(ref, addr, w)
            elif k in ('set', 'copy'):
                dst, ln = subst(e[1], s), subst(e[2], s); ins = conj([le(dst, addr), le(add(addr, C(w)), add(dst, ln))])
                if self.fimp(facts, ins):
                    if k == 'set':
                        bb = subst(e[3], s)
                        r = ZERO
                        for i in range(w): r = add(r, scale(bb, 256 ** i))
                        return r
                    ref2 = self.sref(e[3], s); addr = add(sub(addr, dst), subst(e[4], s)); ref = ref2; continue
                if not self.fimp(facts, disj([le(add(addr, C(w)), dst), le(add(dst, ln), addr)])):
                    if not self.fimp(facts, neg(ins)): stuck.append(ins)
                    return self.memterm(ref, addr, w)
            elif k == 'loop':
                _, kid, N, alts, pre = e
                N = subst(N, s); done = False
                def untouched(extra):
                    """no iteration satisfying extra(k) writes any byte of addr..addr+w"""
                    for guard, fref, touches in alts:
                        for binders, g, ta, tl in touches:
                            self.cnt += 1; sk = sym('s!%d' % self.cnt, 0); s3 = dict(s); s3[kid] = sk; cs = [lt(sk, N)] + extra(sk); spl = [sub(sk, h) for h in self.hints]
                            for bk, bn in binders:
                                self.cnt += 1; x = sym('s!%d' % self.cnt, 0); s3[bk] = x; cs.append(lt(x, subst(bn, s3))); spl += [sub(x, h) for h in self.hints]
                            x1, l1 = subst(ta, s3), subst(tl, s3)
                            cs += [fsubst(guard, s3), fsubst(g, s3), lt(x1, add(addr, C(w))), lt(addr, add(x1, l1)), le(ONE, l1)]
                            fs = list(facts) + [y for x in cs for y in (x[1] if x[0] == 'and' else (x,))]
                            if FALSE in fs: continue
                            q = Q(None, self.hints, spl)
                            if time.time() > self.t_end: raise Unsupported('time budget exhausted')
                            r, m = q.solve(fs, self.qto)
                            if r != 'unsat':
                                if self.o.get('dump'): print('    untouched? ', r, 'addr', addr, '\n       touch', x1, 'len', l1, '\n      ', [fshow(y)[:300] for y in fs])
                                return False
                    return True
                key = ('unt', v.id, tuple(args), addr, w, frozenset(facts)); nxt = None
                if key not in self.cache: self.cache[key] = untouched(lambda sk: [])
                if self.cache[key]: ref = self.sref(v.parent, s); continue
                cand = []; pend = []
                for guard, fref, touches in alts:
                    for binders, g, ta, tl in touches: self.auto_hints(addr, subst(ta, s), kid, cand)
                cand += [h for h in self.hints if h not in cand]
                for h in cand:
                    rng = conj([le(ZERO, h), lt(h, N)])
                    if rng == FALSE or self.fimp(facts, neg(rng)): continue
                    key = ('unh', v.id, tuple(args), addr, w, h, frozenset(facts))
                    if key not in self.cache: self.cache[key] = untouched(lambda sk: [('ne', norm_eq(sub(sk, h)))] if eq(sk, h) not in (TRUE, FALSE) else [neg(eq(sk, h))])
                    if not self.cache[key]:
                        if not self.fimp(facts, rng): pend.append(rng)
                        continue
                    if not self.fimp(facts, rng): stuck.append(rng); return self.memterm(ref, addr, w)
                    s2 = dict(s); s2[kid] = h; und = None
                    for guard, fref, touches in alts:
                        g = fsubst(guard, s2)
                        if self.fimp(facts, g): nxt = self.sref(fref, s2); break
                        if not self.fimp(facts, neg(g)): und = und or g
                    if nxt is None and und is not None: stuck.append(und); return self.memterm(ref, addr, w)
                    if nxt is not None: break
                if nxt is None:
                    stuck += pend
                    return self.memterm(ref, addr, w)
                ref = nxt; continue
            else: return self.memterm(ref, addr, w)
            ref = self.sref(v.parent, s)
        return self.memterm(ref, addr, w)
    def auto_hints(self, addr, ta, kid, out):
        """iteration numbers at which a0 + a1*k can meet addr"""
        a1 = {}; a0 = {}
        for m, c in ta.t.items():
            n = m.count(kid)
            if n == 0: a0[m] = c
            elif n == 1:
                r = list(m); r.remove(kid); a1[tuple(r)] = c
            else: return
        a1 = Poly(a1)
        if len(a1.t) != 1 or kid in deep_atoms(Poly(a0)): return
        (mm, cc), = a1.t.items()
        def put(x):
            if x not in out and len(out) < 12: out.append(x)
        # drop inner-loop contributions (atoms that are loop counters) from the base
        b0 = Poly({m: c for m, c in a0.items() if not any(T._alist[i].name.startswith(('k!', 'b!')) for i in m)})
        for base in ((b0,) if b0 == ZERO else (b0, ZERO)):
            d = sub(addr, base); q = {}; r = {}
            for m, c in d.t.items():
                l = list(m); ok = c % cc == 0 or mm
                for x in mm:
                    if x in l: l.remove(x)
                    else: ok = False; break
                if ok and c % cc == 0: q[tuple(l)] = c // cc
                else: r[m] = c
            q = Poly(q); r = Poly(r)
            if r != ZERO and not mm:
                put(add(q, div(r, C(abs(cc))) if cc > 0 else scale(div(r, C(-cc)), -1)))
            put(q)
            if r != ZERO and (q.t or mm): put(sub(q, ONE))
    def rwp(self, p, facts, stuck, memo):
        if not isinstance(p, Poly): return p
        m = {}
        for i in atoms_of(p):
            r = memo.get(i)
            if r is None:
                a = T._alist[i]
                if not a.args: r = A(a)
                else:
                    na = tuple(self.rwp(x, facts, stuck, memo) if isinstance(x, Poly) else self.rwf(x, facts, stuck, memo) if isinstance(x, tuple) else x for x in a.args)
                    if a.kind == 'mem': r = self.resolve2(facts, (VERS[na[0]], tuple(na[2:-1])), na[-1], na[1], stuck); r2 = A(a) if r is None else r; r = r2
                    elif na == a.args: r = A(a)
                    else: r = T.rebuild(a, na)
                    if r != A(a) and a.kind == 'mem' and isinstance(r, Poly) and any(T._alist[x].kind in ('mem', 'ite') for x in deep_atoms(r)): r = self.rwp(r, facts, stuck, memo)
                memo[i] = r
            if r != A(T._alist[i]): m[i] = r
        return subst1(p, m)
    def rwf(self, f, facts, stuck, memo):
        k = f[0]
        if k in 'tf': return f
        if k == 'le': return le0(self.rwp(f[1], facts, stuck, memo))
        if k == 'eq': return eq(self.rwp(f[1], facts, stuck, memo), ZERO)
        if k == 'ne': return neg(eq(self.rwp(f[1], facts, stuck, memo), ZERO))
        if k == 'and': return conj([self.rwf(x, facts, stuck, memo) for x in f[1]])
        return disj([self.rwf(x, facts, stuck, memo) for x in f[1]])
    def prove_split(self, facts, goal, depth=0):
        """goal over memory terms: resolve reads, splitting cases where a read is not decided"""
        if goal == TRUE: return True
        if depth > 0 and self.prove(facts, FALSE, timeout=2000): return True
        stuck = []; memo = {}
        g = self.rwf(goal, facts, stuck, memo)
        if g == TRUE: return True
        if any(T._alist[i].kind == 'ite' for i in fatoms(g)): pass
        mf = [i for i, f in enumerate(facts) if any(T._alist[x].kind == 'mem' for x in fatoms(f))]
        if not stuck or depth > 12:
            if self.prove(facts, g, timeout=self.qto): return True
            if mf:
                f2 = list(facts); st2 = []
                for i in mf: f2[i] = self.rwf(facts[i], facts, st2, memo)
                if FALSE in f2 or self.prove(f2, g, timeout=self.qto): return True
                stuck += st2
            # split on an undecided ite condition
            for i in fatoms(g):
                a = T._alist[i]
                if a.kind == 'ite':
                    c = a.args[0]
                    if self.fimp(facts, c) or self.fimp(facts, neg(c)): continue
                    stuck.append(c); break
        if depth > 12 or not stuck:
            if self.trace: print('   stuck at', fshow(g)[:300], 'depth', depth, [fshow(f)[:100] for f in facts[-6:]])
            return False
        c = stuck[0]
        if c[0] == 'and':   # split literal by literal
            for x in c[1]:
                if not self.fimp(facts, x): c = x; break
        for x in (c, neg(c)):
            f2 = list(facts) + list(x[1] if x[0] == 'and' else (x,))
            # known ite conditions are simplified by substitution
            if not self.prove_split(f2, self.simp(g, x), depth + 1): return False
        return True
    def simp(self, g, c):
        """replace ite(c,..) atoms once c is assumed"""
        m = {}
        n = neg(c)
        for i in fatoms(g):
            a = T._alist[i]
            if a.kind == 'ite':
                if a.args[0] == c: m[i] = a.args[1]
                elif a.args[0] == n: m[i] = a.args[2]
        return fsubst(g, m) if m else g
    def disjoint(self, st, a, la, b, lb):
        return self.implied(st, disj([le(add(a, la), b), le(add(b, lb), a)]))
    def inside(self, st, a, la, b, lb):
        return self.implied(st, conj([le(b, a), le(add(a, la), add(b, lb))]))

    def memax(self, a, q):
        vid, w = a.args[0], a.args[1]; args = a.args[2:-1]; addr = a.args[-1]; v = VERS[vid]; t = A(a); e = v.entry; k = e[0]
        if k == 'base':
            if v.obj.kind == 'const':
                d = v.obj.data; n = len(d) // w
                if n <= 1024: return [disj([conj([eq(addr, C(i * w)), eq(t, C(int.from_bytes(d[i*w:i*w+w], 'little')))]) for i in range(n)] + [lt(addr, ZERO), le(C(n * w), addr), neg(eq(mod(addr, C(w)), ZERO))])]
            return []
        s = self.inst(v, args); W = C(w)
        par = lambda: self.memterm(self.sref(v.parent, s), addr, w)
        if k == 'pt':
            a2 = subst(e[1], s); w2 = e[2]; val = subst(e[3], s); o = []
            if w == w2: o.append(disj([neg(eq(addr, a2)), eq(t, val)]))
            elif w == 1:
                for i in range(w2): o.append(disj([neg(eq(addr, add(a2, C(i)))), eq(t, mod(div(val, C(256 ** i)), C(256)))]))
            o.append(disj([conj([lt(sub(a2, W), addr), lt(addr, add(a2, C(w2)))]), eq(t, par())]))
            return o
        if k in ('set', 'copy'):
            dst, ln = subst(e[1], s), subst(e[2], s); ins = conj([le(dst, addr), le(add(addr, W), add(dst, ln))])
            o = []
            if k == 'set':
                b = subst(e[3], s); bc = b.const()
                if bc is not None: o.append(disj([neg(ins), eq(t, C(int.from_bytes(bytes([bc]) * w, 'little')))]))
                elif w == 1: o.append(disj([neg(ins), eq(t, b)]))
            else:
                o.append(disj([neg(ins), eq(t, self.memterm(self.sref(e[3], s), add(sub(addr, dst), subst(e[4], s)), w))]))
            o.append(disj([conj([lt(sub(dst, W), addr), lt(addr, add(dst, ln)), le(ONE, ln)]), eq(t, par())]))
            return o
        if k == 'loop':
            _, kid, N, alts, pre = e
            N = subst(N, s)
            sk = sym('sk%d' % a.id, 0)
            q.splits.extend(sub(sk, h) for h in self.hints)
            pos = []
            s2 = dict(s); s2[kid] = sk
            for guard, fref, touches in alts:
                tt = []
                for ti, (binders, g, ta, tl) in enumerate(touches):
                    s3 = dict(s2); cs = []
                    for bi, (bk, bn) in enumerate(binders):
                        x = sym('sk%d_%d_%d' % (a.id, ti, bi), 0); s3[bk] = x; cs.append(lt(x, subst(bn, s3)))
                        q.splits.extend(sub(x, h) for h in self.hints)
                    x1, l1 = subst(ta, s3), subst(tl, s3)
                    tt.append(conj(cs + [fsubst(g, s3), lt(sub(x1, W), addr), lt(addr, add(x1, l1)), le(ONE, l1)]))
                pos.append(conj([fsubst(guard, s2), disj(tt), eq(t, self.memterm(self.sref(fref, s2), addr, w))]))
            P = conj([lt(sk, N), disj(pos)])
            # untouched: at every hinted index no entry covers addr
            ng = [eq(t, self.memterm(self.sref(v.parent, s), addr, w))]
            hs = self.hints
            for h in hs:
                s2 = dict(s); s2[kid] = h; rng = [le(ZERO, h), lt(h, N)]
                for guard, fref, touches in alts:
                    g0 = fsubst(guard, s2)
                    if g0 == FALSE: continue
                    for binders, g, ta, tl in touches:
                        combos = [dict(s2)]; 
                        conds = [[]]
                        for bk, bn in binders:
                            nc = []; ncs = []
                            for sd, cd in zip(combos, conds):
                                for h2 in hs:
                                    s4 = dict(sd); s4[bk] = h2; nc.append(s4); ncs.append(cd + [le(ZERO, h2), lt(h2, subst(bn, s4))])
                            combos, conds = nc, ncs
                            if len(combos) > 400: break
                        for sd, cd in zip(combos, conds):
                            x1, l1 = subst(ta, sd), subst(tl, sd)
                            ng.append(neg(conj(rng + [g0] + cd + [fsubst(g, sd), lt(sub(x1, W), addr), lt(addr, add(x1, l1)), le(ONE, l1)])))
            return [disj([P, conj(ng)])]
        return []

    def access(self, st, p, size, what, loc):
        if isinstance(p, Poison): raise Unsupported('poison pointer %s' % p.why)
        if p.obj is None:
            self.oblig(st, FALSE, what + ' through NULL', 'mem', loc); raise PathEnd()
        if p.obj == 'undef': raise Unsupported('undefined pointer')
        if p.obj.id in st.dead: self.oblig(st, FALSE, what + ' after free', 'mem', loc); raise PathEnd()
        if p.obj.fn: raise Unsupported('access to function')
        sz = size if isinstance(size, Poly) else C(size)
        if not self.lenient:
            g = conj([le(ZERO, p.off), le(add(p.off, sz), p.obj.size)])
            self.oblig(st, g, what + ' in bounds of ' + p.obj.name, 'mem', loc)

    def load(self, st, p, ty, loc):
        w = self.M.size(ty)
        self.access(st, p, w, 'read', loc)
        o = p.obj; e = self.entry(st, o); c = p.off.const()
        if isinstance(e, dict):
            if c is not None: return self.cell_load(st, o, e, c, w, ty)
            e = self.to_version(st, o)
        if ty[0] == 'ptr': raise Unsupported('pointer load from symbolic memory %s' % o)
        v = self.resolve(st, e, p.off, w)
        self.note_read(st, o, p.off, C(w), v)
        return self.totype(v, ty)
    def totype(self, v, ty):
        if ty == ('i', 1): return neg(eq(v, ZERO))
        return v
    def note_read(self, st, o, off, ln, v=None):
        if st.params and o.id not in st.own:
            if v is not None and isinstance(v, Poly) and not any(T._alist[i].kind == 'mem' for i in deep_atoms(v)): return
            st.reads.append((o.id, len(st.facts), tuple(st.facts), (), off, ln))
    def cell_load(self, st, o, e, c, w, ty):
        x = e.get(c)
        if x is not None and x[0] == w:
            v = x[1]
            if v is None: v = self.base_cell(st, o, c, w, ty); e[c] = (w, v)
            if ty[0] == 'ptr' and isinstance(v, Poly):
                if v.const() == 0: return NULL
                raise Unsupported('integer read as pointer')
            if ty[0] != 'ptr' and isinstance(v, Ptr): raise Unsupported('pointer read as integer')
            return v if isinstance(v, (Ptr, Poison, Agg)) else self.totype(v, ty)
        ov = [(k, x) for k, x in e.items() if k < c + w and c < k + x[0]]
        if not ov:
            v = self.base_cell(st, o, c, w, ty)
            e[c] = (w, v)
            return v if isinstance(v, (Ptr, Poison)) else self.totype(v, ty)
        if len(ov) == 1 and ov[0][0] <= c and c + w <= ov[0][0] + ov[0][1][0] and isinstance(ov[0][1][1], Poly):
            k, (w2, v) = ov[0]
            return self.totype(mod(div(v, C(256 ** (c - k))), C(256 ** w)), ty)
        # compose from narrower cells
        if ty[0] != 'ptr' and all(isinstance(x[1], Poly) and k >= c and k + x[0] <= c + w for k, x in ov):
            r = ZERO; pos = c
            for k, (w2, v) in sorted(ov):
                while pos < k: r = add(r, scale(self.base_cell(st, o, pos, 1, ('i', 8)), 256 ** (pos - c))); pos += 1
                r = add(r, scale(v, 256 ** (k - c))); pos = k + w2
            while pos < c + w: r = add(r, scale(self.base_cell(st, o, pos, 1, ('i', 8)), 256 ** (pos - c))); pos += 1
            return self.totype(r, ty)
        if ty[0] == 'ptr' and all(isinstance(x[1], Poly) and x[1].const() == 0 for k, x in ov): return NULL
        raise Unsupported('mixed-width cell read of %s at %d' % (o, c))
    def base_cell(self, st, o, c, w, ty):
        if o.kind == 'zero': return NULL if ty[0] == 'ptr' else ZERO
        if o.kind == 'const':
            if ty[0] == 'ptr': return NULL
            return C(int.from_bytes(o.data[c:c+w], 'little'))
        if ty[0] == 'ptr': return Poison('uninitialised/unknown pointer in %s+%d' % (o.name, c))
        b = getattr(o, 'basever', None)
        if b is None: b = o.basever = Ver(o, o.params, None, ('base',))
        return self.memterm((b, tuple(A(T._alist[i]) for i in b.params)), C(c), w)
    def store(self, st, p, v, ty, loc):
        w = self.M.size(ty)
        self.access(st, p, w, 'write', loc)
        o = p.obj
        if o.kind == 'const': self.oblig(st, FALSE, 'write to constant', 'mem', loc); return
        if isinstance(v, tuple): v = ite(v, ONE, ZERO)
        e = self.entry(st, o); c = p.off.const()
        if isinstance(v, Ptr) and v.obj is None and v.off == ZERO and not isinstance(e, dict): v = ZERO
        if isinstance(e, dict):
            if c is not None:
                for k in [k for k, x in e.items() if k != c and k < c + w and c < k + x[0]] + ([c] if c in e and e[c][0] > w else []):
                    w2, v2 = e[k]
                    if k >= c and k + w2 <= c + w: del e[k]; continue
                    if isinstance(v2, Poly):   # split into bytes
                        del e[k]
                        for i in range(w2): e[k + i] = (1, mod(div(v2, C(256 ** i)), C(256)))
                    elif v2 is None: raise Unsupported('overlap store')
                    else: raise Unsupported('overlapping pointer store')
                for i in range(c, c + w): e.pop(i, None)
                e[c] = (w, v); return
            e = self.to_version(st, o)
        if isinstance(v, (Ptr, Poison, Agg)): raise Unsupported('pointer store to symbolic memory %s' % o)
        st.mem[o.id] = self.push(st, o, e, ('pt', p.off, w, v))

    def memcpy(self, st, d, s, ln, loc):
        if ln == ZERO: return
        if ln.const() is None:
            # zero-length copies touch nothing
            if not self.implied(st, le(ONE, ln)):
                z = st.copy(); z.facts.append(eq(ln, ZERO))
                if self.implied(st, le(ln, ZERO)): return
                if self.feasible(st, eq(ln, ZERO)):
                    raise ForkOn(le(ONE, ln))
        self.access(st, s, ln, 'memcpy read', loc); self.access(st, d, ln, 'memcpy write', loc)
        n = ln.const(); es = self.entry(st, s.obj); ed = self.entry(st, d.obj)
        if n is not None and n <= 4096 and isinstance(ed, dict) and d.off.const() is not None and (isinstance(es, dict) and s.off.const() is not None):
            so, do = s.off.const(), d.off.const()
            for k in [k for k, x in ed.items() if k < do + n and do < k + x[0]]:
                w2, v2 = ed[k]
                if k < do or k + w2 > do + n: raise Unsupported('partial cell memcpy')
                del ed[k]
            src = {k: x for k, x in es.items() if k < so + n and so < k + x[0]}
            if any(k < so or k + x[0] > so + n for k, x in src.items()): raise Unsupported('partial cell memcpy')
            pos = so; done = {}
            for k in sorted(src):
                self.fillbase(st, s.obj, pos, k, done, so, do); done[k - so + do] = src[k]; pos = k + src[k][0]
            self.fillbase(st, s.obj, pos, so + n, done, so, do)
            ed.update(done); return
        # a whole fresh buffer keeps its bytes apart; anything else of a machine size is one value
        if n in (1, 2, 4, 8) and not self.o.get('bytecopy') and not (isinstance(ed, dict) and not ed and n > 1 and not isinstance(es, dict) and d.obj.size == ln):
            t = ('i', 8 * n)
            self.store(st, d, self.load(st, s, t, loc), t, loc); return
        rs = self.to_version(st, s.obj); rd = self.to_version(st, d.obj)
        rs, so = self.resolve_region(st, rs, s.off, ln)
        self.note_read(st, s.obj if rs[0].obj is s.obj else rs[0].obj, so, ln)
        st.mem[d.obj.id] = self.push(st, d.obj, rd, ('copy', d.off, ln, rs, so))
    def fillbase(self, st, o, a, b, done, so, do):
        """cells not present in the source come from its base content"""
        if a >= b: return
        if o.kind in ('zero',):
            p = a
            while p < b:
                w = 8 if p % 8 == 0 and p + 8 <= b else 4 if p % 4 == 0 and p + 4 <= b else 1
                done[p - so + do] = (w, ZERO); p += w
        elif o.kind == 'const':
            for p in range(a, b): done[p - so + do] = (1, C(o.data[p]))
        else:
            bv = getattr(o, 'basever', None)
            if bv is None: bv = o.basever = Ver(o, o.params, None, ('base',))
            for p in range(a, b): done[p - so + do] = (1, self.base_cell(st, o, p, 1, ('i', 8)))
    def resolve_region(self, st, ref, off, ln):
        for _ in range(100):
            v, args = ref; e = v.entry
            if e[0] not in ('pt', 'copy', 'set'): return ref, off
            s = self.inst(v, args); a = subst(e[1], s); l = C(e[2]) if e[0] == 'pt' else subst(e[2], s)
            if e[0] == 'copy' and self.inside(st, off, ln, a, l):
                off = add(sub(off, a), subst(e[4], s)); ref = self.sref(e[3], s); continue
            if self.disjoint(st, off, ln, a, l): ref = self.sref(v.parent, s); continue
            return ref, off
        return ref, off
    def memset(self, st, d, b, ln, loc):
        if ln == ZERO: return
        if ln.const() is None and not self.implied(st, le(ONE, ln)):
            if self.implied(st, le(ln, ZERO)): return
            if self.feasible(st, eq(ln, ZERO)): raise ForkOn(le(ONE, ln))
        self.access(st, d, ln, 'memset', loc)
        n = ln.const(); e = self.entry(st, d.obj)
        if n is not None and n <= 8192 and isinstance(e, dict) and d.off.const() is not None and b.const() is not None:
            do = d.off.const()
            for k in [k for k, x in e.items() if k < do + n and do < k + x[0]]:
                w2, v2 = e[k]
                if k < do or k + w2 > do + n: raise Unsupported('partial cell memset')
                del e[k]
            p = do
            while p < do + n:
                w = 8 if p % 8 == 0 and p + 8 <= do + n else 4 if p % 4 == 0 and p + 4 <= do + n else 1
                e[p] = (w, C(int.from_bytes(bytes([b.const()]) * w, 'little'))); p += w
            return
        r = self.to_version(st, d.obj)
        st.mem[d.obj.id] = self.push(st, d.obj, r, ('set', d.off, ln, b))

    def new_obj(self, st, name, size, kind, data=None):
        o = Obj(name, size, kind, data); o.params = st.params; st.mem[o.id] = {}; st.own.add(o.id); return o

    # ------------------------------------------------------------ globals / constants
    def gobj(self, name):
        o = self.globals.get(name)
        if o: return o
        if name in self.M.fns or name in self.M.decls:
            o = Obj(name, ONE, 'fn'); o.fn = name; o.params = (); self.globals[name] = o; return o
        g = self.M.globals.get(name)
        if g is None or g[0] is None: raise Unsupported('global %s' % name)
        ty, init, const, note = g
        o = Obj(name, C(self.M.size(ty)), 'free'); o.params = (); o.ty = ty; self.globals[name] = o
        data, ptrs = self.initbytes(ty, init) if init is not None else (None, None)
        if const and data is not None and not ptrs: o.kind = 'const'; o.data = bytes(data)
        elif const and data is not None:
            o.kind = 'const'; o.data = bytes(data); o.ptrs = ptrs
        else:
            o.init = (data, ptrs)
            if self.o.get('init_globals') or name in self.o.get('init_names', ()): 
                o.kind = 'const0' 
        return o
    def initbytes(self, ty, v):
        n = self.M.size(ty); b = bytearray(n); ptrs = {}
        def rec(ty, v, o):
            ty = self.M.resolve(ty); k = v[0]
            if k in ('zero', 'undef', 'null'): return
            if k == 'int':
                w = self.M.size(ty); b[o:o+w] = (v[1] % (1 << (8 * w))).to_bytes(w, 'little')
            elif k == 'str': b[o:o+len(v[1])] = v[1]
            elif k == 'fp':
                w = self.M.size(ty); b[o:o+w] = fpbits(v[1], ty).to_bytes(w, 'little')
            elif k == 'agg':
                if ty[0] == 'arr':
                    z = self.M.size(ty[2])
                    for i, (t2, x) in enumerate(v[1]): rec(ty[2], x, o + i * z)
                else:
                    offs = self.M.layout(ty)[2]
                    for i, (t2, x) in enumerate(v[1]): rec(ty[1][i], x, o + offs[i])
            elif k in ('glob', 'gep'): ptrs[o] = v
            else: raise Unsupported('initialiser ' + k)
        rec(ty, v, 0)
        return b, ptrs
    def ginit(self, st, o):
        """first touch of a global in a state"""
        if o.id in st.mem or o.fn: return
        e = {}
        pt = getattr(o, 'ptrs', None)
        if o.kind == 'const0' or (o.kind == 'free' and getattr(o, 'init', (None,))[0] is not None and self.o.get('init_globals')):
            pass
        if pt:
            for off, v in pt.items(): e[off] = (8, self.const(st, ('ptr',), v))
        if o.kind == 'const0':
            d, ptrs = o.init
            for i in range(0, len(d)): 
                pass
            p = 0
            while p < len(d):
                if p in ptrs: e[p] = (8, self.const(st, ('ptr',), ptrs[p])); p += 8; continue
                w = 8 if p % 8 == 0 and p + 8 <= len(d) and not any(q in ptrs for q in range(p, p + 8)) and not any(d[p:p+8]) else 1
                e[p] = (w, C(int.from_bytes(d[p:p+w], 'little'))); p += w
        st.mem[o.id] = e

    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty == ('i', 1): return TRUE if v[1] else FALSE
            return C(v[1] % (1 << wbits(ty)))
        if k == 'null': return NULL
        if k == 'zero':
            return NULL if ty[0] == 'ptr' else ZERO if ty[0] in ('i', 'float', 'double') else Agg([])
        if k == 'undef':
            if ty[0] == 'ptr': return Poison('undef')
            if ty == ('i', 1): return eq(self.fresh('undef', st, 0, 1), ONE)
            if ty[0] in ('struct', 'named', 'arr'): return Agg([None] * 16)
            return self.fresh('undef', st, 0, (1 << wbits(ty)) - 1)
        if k == 'fp': return C(fpbits(v[1], ty))
        if k == 'glob':
            o = self.gobj(v[1]); self.ginit(st, o); return Ptr(o, ZERO)
        if k == 'gep':
            b = self.const(st, ('ptr',), v[2][0][1]); return self.gep(st, v[1], b, [(t, self.const(st, t, x)) for t, x in v[2][1:]])
        if k == 'cast' and v[1] == 'ptrtoint': return self.const(st, ('ptr',), v[3])
        raise Unsupported('constant %s' % (v,))
    def val(self, st, env, ty, v):
        if v[0] == 'loc':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined SSA value %' + v[1])
        return self.const(st, ty, v)
    def gep(self, st, bt, base, idx):
        if isinstance(base, Poison): return base
        off = base.off; ty = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0: off = add(off, self.idx(st, it, iv, self.M.size(ty)))
            else:
                ty = self.M.resolve(ty)
                if ty[0] in ('struct', 'pstruct'):
                    c = iv.const(); off = add(off, C(self.M.layout(ty)[2][c])); ty = ty[1][c]
                elif ty[0] in ('arr', 'vec'): ty = ty[2]; off = add(off, self.idx(st, it, iv, self.M.size(ty)))
                else: raise Unsupported('gep into %s' % (ty,))
        return Ptr(base.obj, off)
    def idx(self, st, it, iv, size):
        if isinstance(iv, tuple): iv = ite(iv, ONE, ZERO)
        n = wbits(it); c = iv.const()
        if c is not None: return C((c - (1 << n) if c >> (n - 1) else c) * size)
        return scale(self.sgn(iv, n, st), size)

    # ------------------------------------------------------------ execution
    def call_fn(self, name, st, args):
        f = self.M.fns[name]; ir.prepare(self.M, f); ir.find_loops(f)
        self.depth += 1; self.fns_used.add(name)
        if self.depth > 60: raise Unsupported('recursion too deep in ' + name)
        env = {}
        for (ty, nm), a in zip(f.params, args): env[nm] = a
        outs = self.run(f, st, env, f.order[0], None, None)
        self.depth -= 1
        return [(o[1], o[2]) for o in outs]

    def run(self, f, st, env, block, prev, region):
        outs = []; work = [(st, env, block, prev, True)]
        while work:
            st, env, b, prev, start = work.pop()
            if time.time() > self.t_end: raise Unsupported('time budget exhausted')
            if region is not None and not start and (b not in region[1] or b == region[0]):
                outs.append(('edge', st, env, b, prev)); continue
            if b in f.loops and not (start and region is not None and b == region[0]):
                r = self.try_loop(f, st, env, b, prev)
                if r is not None:
                    for o in r:
                        if o[0] == 'ret': outs.append(o)
                        else: work.append((o[1], o[2], o[3], o[4], False))
                    continue
            for o in self.block(f, st, env, b, prev):
                if o[0] == 'ret': outs.append(o)
                else: work.append((o[1], o[2], o[3], o[4], False))
        return outs

    def block(self, f, st, env, b, prev):
        insts = f.blocks[b]; i = 0
        # phis
        new = {}
        while i < len(insts) and insts[i].op == 'phi':
            if insts[i].res in env.get('!phi', ()): pass
            x = insts[i]
            for v, pb in x.a:
                if pb == prev: new[x.res] = self.val(st, env, x.ty, v); break
            i += 1
        if '!skipphi' in env: env = dict(env); del env['!skipphi']
        else:
            env = dict(env); env.update(new)
        outs = []; work = [(st, env, i)]
        while work:
            st, env, i = work.pop()
            try:
                while True:
                    x = insts[i]
                    if x.op == 'br': outs.append(('edge', st, env, x.a, b)); break
                    if x.op == 'ret':
                        outs.append(('ret', st, None if x.a is None else self.val(st, env, x.ty, x.a))); self.paths += 1; break
                    if x.op == 'cbr':
                        c = self.val(st, env, ('i', 1), x.a[0])
                        for s2, tgt in self.fork(st, c, x.a[1], x.a[2]): outs.append(('edge', s2, dict(env), tgt, b))
                        break
                    if x.op == 'switch':
                        v = self.val(st, env, x.ty, x.a[0])
                        if isinstance(v, Poison): raise Unsupported(v.why)
                        n = wbits(x.ty); rest = []; tg = {}
                        for cv, t in x.a[2]:
                            c = eq(v, C(cv % (1 << n))); tg.setdefault(t, []).append(c); rest.append(neg(c))
                        tg.setdefault(x.a[1], []).append(conj(rest))
                        for t, cs in tg.items():
                            c = disj(cs)
                            if c == FALSE: continue
                            if c == TRUE: outs.append(('edge', st, env, t, b)); break
                            if self.feasible(st, c):
                                s2 = st.copy(); s2.facts.append(c); outs.append(('edge', s2, dict(env), t, b))
                        break
                    if x.op == 'unreachable': break
                    if x.op == 'call':
                        r = self.call(f, st, env, x)
                        if r is not None:
                            for s2, v in r:
                                e2 = dict(env)
                                if x.res is not None: e2[x.res] = v
                                work.append((s2, e2, i + 1))
                            break
                        i += 1; continue
                    if x.op == 'select':
                        c = self.val(st, env, ('i', 1), x.a[0]); va, vb = self.val(st, env, x.ty, x.a[1]), self.val(st, env, x.ty, x.a[2])
                        if c == TRUE or va == vb: env[x.res] = va
                        elif c == FALSE: env[x.res] = vb
                        elif x.ty == ('i', 1): env[x.res] = disj([conj([c, va]), conj([neg(c), vb])])
                        else:
                            fk = self.fork(st, c, True, False)
                            for s2, t in fk:
                                e2 = dict(env); e2[x.res] = va if t else vb; work.append((s2, e2, i + 1))
                            break
                        i += 1; continue
                    self.inst1(f, st, env, x)
                    i += 1
            except ForkOn as fo:
                for s2, t in self.fork(st, fo.c, True, False): work.append((s2, dict(env), i))
            except PathEnd: pass
        return outs

    def fork(self, st, c, a, b):
        if isinstance(c, Poly): c = neg(eq(c, ZERO))
        if c == TRUE: return [(st, a)]
        if c == FALSE: return [(st, b)]
        n = neg(c)
        fa = self.feasible(st, c)
        if not fa: return [(st, b)]
        if not self.feasible(st, n): return [(st, a)]
        s2 = st.copy(); s2.facts.append(n); st.facts.append(c)
        return [(st, a), (s2, b)]

    def inst1(self, f, st, env, x):
        op = x.op
        if op == 'bin': env[x.res] = self.binop(st, x.ty, x.a[0], self.val(st, env, x.ty, x.a[1]), self.val(st, env, x.ty, x.a[2]), self.loc(f, x))
        elif op == 'load': env[x.res] = self.load(st, self.val(st, env, ('ptr',), x.a), x.ty, self.loc(f, x))
        elif op == 'store': self.store(st, self.val(st, env, ('ptr',), x.a[1]), self.val(st, env, x.ty, x.a[0]), x.ty, self.loc(f, x))
        elif op == 'gep':
            env[x.res] = self.gep(st, x.ty, self.val(st, env, ('ptr',), x.a[0][1]), [(t, self.val(st, env, t, v)) for t, v in x.a[1:]])
        elif op == 'icmp': env[x.res] = self.icmp(st, x.a[0], x.ty, self.val(st, env, x.ty, x.a[1]), self.val(st, env, x.ty, x.a[2]))
        elif op == 'fcmp':
            a, b = self.val(st, env, x.ty, x.a[1]), self.val(st, env, x.ty, x.a[2])
            r = fpcmp(x.a[0], x.ty[0], a.const(), b.const()) if isinstance(a, Poly) and isinstance(b, Poly) else None
            env[x.res] = (TRUE if r else FALSE) if r is not None else eq(app('fcmp_%s_%s' % (x.a[0], x.ty[0]), [a, b], 0, 1), ONE)
        elif op == 'cast': env[x.res] = self.cast(st, x, self.val(st, env, x.a[1], x.a[2]))
        elif op == 'alloca':
            n = self.val(st, env, ('i', 64), x.a); o = self.new_obj(st, f.name + ':' + str(x.res), scale(n, self.M.size(x.ty)) if isinstance(n, Poly) else ZERO, 'undef')
            env[x.res] = Ptr(o, ZERO)
        elif op == 'freeze': env[x.res] = self.val(st, env, x.ty, x.a)
        elif op == 'fneg': env[x.res] = app('fneg_' + x.ty[0], [self.val(st, env, x.ty, x.a)], 0, (1 << wbits(x.ty)) - 1)
        elif op == 'extractvalue': env[x.res] = self.val(st, env, x.ty, x.a[0]).vs[x.a[1]]
        elif op == 'insertvalue':
            a = self.val(st, env, x.ty, x.a[0]); v = Agg(a.vs); 
            while len(v.vs) <= x.a[2]: v.vs.append(None)
            v.vs[x.a[2]] = self.val(st, env, None, x.a[1]); env[x.res] = v
        else: raise Unsupported('instruction %s' % (x.a if op == 'unsupported' else op))
    def loc(self, f, x): return '%s:%s' % (f.name, self.M.md.get(x.dbg, '?'))

    def binop(self, st, ty, op, a, b, loc):
        if isinstance(a, Poison) or isinstance(b, Poison): return Poison('arith')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return self.wrap(sub(a.off, b.off), 64, st)
            raise Unsupported('pointer arithmetic ' + op)
        if ty == ('i', 1):
            fa = a if isinstance(a, tuple) else neg(eq(a, ZERO)); fb = b if isinstance(b, tuple) else neg(eq(b, ZERO))
            if op == 'and': return conj([fa, fb])
            if op == 'or': return disj([fa, fb])
            if op == 'xor': return disj([conj([fa, neg(fb)]), conj([neg(fa), fb])])
            raise Unsupported('i1 ' + op)
        n = wbits(ty); a = self.simpite(a, st); b = self.simpite(b, st)
        if op[0] == 'f':
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                r = fpfold(op, ty[0], ca, cb)
                if r is not None: return C(r)
            return app('%s_%s' % (op, ty[0]), [a, b], 0, (1 << n) - 1)
        M_ = 1 << n
        if op == 'add': 
            # adding a "negative" constant is a subtraction
            cb = b.const()
            if cb is not None and cb >= M_ // 2: return self.wrap(sub(a, C(M_ - cb)), n, st)
            return self.wrap(add(a, b), n, st)
        if op == 'sub': return self.wrap(sub(a, b), n, st)
        if op == 'mul': return self.wrap(mul(a, b), n, st)
        ca, cb = a.const(), b.const()
        if op in ('udiv', 'urem'):
            if cb is None: self.oblig(st, le(ONE, b), 'division by zero', 'div', loc)
            elif cb == 0: self.oblig(st, FALSE, 'division by zero', 'div', loc); raise PathEnd()
            return div(a, b) if op == 'udiv' else mod(a, b)
        if op in ('sdiv', 'srem'):
            if cb == 0: self.oblig(st, FALSE, 'division by zero', 'div', loc); raise PathEnd()
            sa, sb = self.sgn(a, n, st), self.sgn(b, n, st)
            if cb is None: self.oblig(st, neg(eq(b, ZERO)), 'division by zero', 'div', loc)
            if self.implied(st, conj([le(ZERO, sa), le(ONE, sb)])): return div(sa, sb) if op == 'sdiv' else mod(sa, sb)
            return app(op, [a, b], 0, M_ - 1)
        if op == 'shl':
            if cb is not None: return self.wrap(scale(a, 1 << cb), n, st) if cb < n else ZERO
            if ca is not None and bounds(b)[1] is not None and bounds(b)[1] < 65: 
                l, h = bounds(b); r = C(0)
                for i in range(l, h + 1): r = ite(eq(b, C(i)), C((ca << i) % M_), r)
                return r
            return app('shl', [a, b], 0, M_ - 1)
        if op == 'lshr':
            if cb is not None: return div(a, C(1 << cb)) if cb < n else ZERO
            return app('lshr', [a, b], 0, bounds(a)[1])
        if op == 'ashr':
            if cb is not None:
                if cb >= n: cb = n - 1
                s_ = self.sgn(a, n, st)
                return self.wrap(div(s_, C(1 << cb)), n, st)
            return app('ashr', [a, b], 0, M_ - 1)
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if ca is not None and cb is not None: return C(ca & cb)
            if cb is not None:
                if cb == 0: return ZERO
                if cb & (cb + 1) == 0: return mod(a, C(cb + 1))
                lo0 = cb & -cb; hi0 = cb // lo0
                if hi0 & (hi0 + 1) == 0:   # contiguous mask
                    q = mod(div(a, C(lo0)), C(hi0 + 1)); return scale(q, lo0)
                return self.bits(st, 'and', a, b, n)
            if a == b: return a
            return self.bits(st, 'and', a, b, n)
        if op == 'or':
            if ca is not None and cb is not None: return C(ca | cb)
            if ca == 0: return b
            if cb == 0: return a
            if a == b: return a
            for p, q in ((a, b), (b, a)):
                l, h = bounds(q)
                if l is not None and h is not None and l >= 0:
                    k = 1
                    while k <= h: k <<= 1
                    if all(c % k == 0 for c in p.t.values()): return add(p, q)
            return self.bits(st, 'or', a, b, n)
        if op == 'xor':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if ca is not None and cb is not None: return C(ca ^ cb)
            if cb == 0: return a
            if cb == M_ - 1: return sub(C(M_ - 1), a)
            if a == b: return ZERO
            if cb is not None:
                h = bounds(a)[1]
                if h is not None and cb & (cb + 1) == 0 and h <= cb: return sub(C(cb), a)
            return self.bits(st, 'xor', a, b, n)
        raise Unsupported(op)
    def bits(self, st, op, a, b, n):
        if str(a) > str(b): a, b = b, a
        return app('%s%d' % (op, n), [a, b], 0, (1 << n) - 1, kind='bit')

    def icmp(self, st, pr, ty, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('compare poison: %s %s' % (a, b))
        if ty[0] == 'ptr':
            if isinstance(a, Poly) or isinstance(b, Poly): raise Unsupported('ptr/int compare')
            if a.obj is not b.obj:
                if pr == 'eq': return FALSE
                if pr == 'ne': return TRUE
                raise Unsupported('ordering pointers of different objects')
            x, y = a.off, b.off
            if pr in ('eq', 'ne'): r = eq(x, y); return r if pr == 'eq' else neg(r)
            return {'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x), 'slt': lt(x, y), 'sle': le(x, y), 'sgt': lt(y, x), 'sge': le(y, x)}[pr]
        if ty == ('i', 1):
            a = a if isinstance(a, tuple) else neg(eq(a, ZERO)); b = b if isinstance(b, tuple) else neg(eq(b, ZERO))
            same = disj([conj([a, b]), conj([neg(a), neg(b)])])
            if pr == 'eq': return same
            if pr == 'ne': return neg(same)
            raise Unsupported('i1 compare')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # pointers loaded as integers can be compared with each other and with zero
            a = NULL if a == ZERO else a; b = NULL if b == ZERO else b
            if ty == ('i', 64) and isinstance(a, Ptr) and isinstance(b, Ptr): return self.icmp(st, pr, ('ptr',), a, b)
            raise Unsupported('ptr as int compare')
        if pr == 'eq': return eq(a, b)
        if pr == 'ne': return neg(eq(a, b))
        if pr[0] == 's':
            n = wbits(ty); a, b = self.sgn(a, n, st), self.sgn(b, n, st)
        r = {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[pr[1:]]
        return r
    def cast(self, st, x, v):
        op, ty, _ = x.a; t2 = x.ty
        if isinstance(v, Poison): return v
        if op == 'bitcast': return v
        if op in ('ptrtoint', 'inttoptr'):
            return v
        v = self.simpite(v, st)
        if op == 'zext':
            if isinstance(v, tuple): return ite(v, ONE, ZERO)
            return v
        if op == 'sext':
            if isinstance(v, tuple): return ite(v, C((1 << wbits(t2)) - 1), ZERO)
            return self.wrap(self.sgn(v, wbits(ty), st), wbits(t2), st) if not self.neg_const(v, ty) else C(v.const() - (1 << wbits(ty)) + (1 << wbits(t2)))
        if op == 'trunc':
            if isinstance(v, Ptr): raise Unsupported('trunc pointer')
            if t2 == ('i', 1): return eq(mod(v, C(2)), ONE)
            n = wbits(t2)
            lo, hi = bounds(v)
            if hi is not None and hi < (1 << n) and lo is not None and lo >= 0: return v
            if self.implied(st, lt(v, C(1 << n))) : return v
            return mod(v, C(1 << n))
        if isinstance(v, tuple): v = ite(v, ONE, ZERO)
        n = wbits(t2)
        return app('%s_%s%s_%s%s' % (op, ty[0], ty[1] if len(ty) > 1 else '', t2[0], t2[1] if len(t2) > 1 else ''), [v], 0, (1 << n) - 1)
    def neg_const(self, v, ty):
        c = v.const(); return c is not None and c >> (wbits(ty) - 1)

    # ------------------------------------------------------------ calls
    def cname(self, st, p):
        """C string behind a constant pointer"""
        try: return p.obj.data[p.off.const():].split(b'\0')[0].decode()
        except Exception: return '?'
    def call(self, f, st, env, x):
        fv, args = x.a; loc = self.loc(f, x)
        if fv[0] == 'glob': name = fv[1]
        else:
            p = self.val(st, env, ('ptr',), fv)
            if isinstance(p, Poison) or not isinstance(p, Ptr) or p.obj is None or not p.obj.fn: raise Unsupported('indirect call in %s: %s' % (loc, p))
            name = p.obj.fn
        a = [None if v is None else self.val(st, env, t, v) for t, v in args]
        name = self.stubs.get(demangle(name), name)
        m = MODELS.get(name) or MODELS.get(demangle(name))
        if m and not (name in self.o.get('nomodel', ())):
            return m(self, st, a, x, loc)
        if demangle(name) in self.o.get('pure', ()) and all(isinstance(v, Poly) for v in a):
            return [(st, app('pure:' + demangle(name), a, 0, (1 << wbits(x.ty)) - 1))]
        if name in self.M.fns:
            return self.call_fn(name, st, a)
        if name.startswith('llvm.'):
            return self.intrinsic(name, st, a, x, loc)
        raise Unsupported('call to external %s at %s' % (name, loc))
    def intrinsic(self, name, st, a, x, loc):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): self.memcpy(st, a[0], a[1], a[2], loc); return [(st, None)]
        if name.startswith('llvm.memset'): self.memset(st, a[0], a[1], a[2], loc); return [(st, None)]
        if name.startswith('llvm.assume'):
            return [(st, None)]
        if name.startswith('llvm.umin'): return [(st, ite(le(a[0], a[1]), a[0], a[1]))]
        if name.startswith('llvm.umax'): return [(st, ite(le(a[0], a[1]), a[1], a[0]))]
        n = wbits(x.ty) if x.ty[0] != 'void' else 0
        if name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            sa, sb = self.sgn(a[0], n, st), self.sgn(a[1], n, st); c = le(sa, sb)
            return [(st, ite(c, a[0], a[1]) if 'smin' in name else ite(c, a[1], a[0]))]
        if name.startswith('llvm.fabs') or name.startswith('llvm.fmuladd') or name.startswith('llvm.floor') or name.startswith('llvm.sqrt'):
            return [(st, app(name, a, 0, (1 << n) - 1))]
        if name.startswith('llvm.abs'):
            s_ = self.sgn(a[0], n, st); return [(st, ite(le(ZERO, s_), s_, scale(s_, -1)))]
        if name.startswith('llvm.fshl') and a[2].const() is not None:   # funnel shift by a constant
            k = a[2].const() % n
            if k == 0: return [(st, a[0])]
            return [(st, add(scale(mod(a[0], C(1 << (n - k))), 1 << k), div(a[1], C(1 << (n - k)))))]
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    def try_loop(self, f, st, env, h, prev):
        blocks = f.loops[h]
        if self.unrollable(f, st, env, h, prev, blocks): return None
        return self.loop(f, st, env, h, prev, blocks)
    def unrollable(self, f, st, env, h, prev, blocks):
        insts = f.blocks[h]; t = insts[-1]
        cnt = env.get('!unroll_' + h, 0)
        if cnt > 600: raise Unsupported('unroll limit in %s' % f.name)
        e2 = dict(env); s2 = None
        if t.op == 'cbr' and ((t.a[1] in blocks) != (t.a[2] in blocks)) and not any(x.op == 'call' for x in insts):
            s2 = st.copy(); self.quiet += 1; lz = self.lenient
            try:
                outs = self.block(f, s2, e2, h, prev)
                ok = len(outs) == 1
                if ok:
                    c = None
                    # concrete only if decided without facts about symbols
                    for x in insts:
                        if x.op == 'phi':
                            v = [self.val(st, env, x.ty, v) for v, pb in x.a if pb == prev][0]
                    cv = outs[0][2].get(t.a[0][1]) if t.a[0][0] == 'loc' else None
                    ok = cv in (TRUE, FALSE) or t.a[0][0] != 'loc'
                    if ok and cv == TRUE and t.a[0][0] == 'loc':
                        # only iterations whose exit test is concrete are unrolled
                        for x in insts:
                            if x.res == t.a[0][1] and x.op == 'icmp' and x.ty[0] == 'i':
                                vs = [self.val(outs[0][1], outs[0][2], x.ty, y) for y in x.a[1:]]
                                if any(not isinstance(y, Poly) or y.const() is None for y in vs): ok = False
                                elif 'max_unroll' in self.o and any(y.const() > self.o['max_unroll'] for y in vs): ok = False
                    if not ok and outs[0][3] not in blocks: ok = True   # leaves immediately on this path
            except (ForkOn, PathEnd, Unsupported): ok = False
            finally: self.quiet -= 1
            if ok: env['!unroll_' + h] = cnt + 1
            return ok
        # exit test not in the header: unroll when the header phis are concrete
        allc = True; anyint = False
        for x in insts:
            if x.op != 'phi': break
            v = [self.val(st, env, x.ty, v) for v, pb in x.a if pb == prev][0]
            if isinstance(v, Poly):
                anyint = True
                if v.const() is None: allc = False
        if allc and anyint and cnt < 80:
            env['!unroll_' + h] = cnt + 1; return True
        return False

    def phi_init(self, f, st, env, h, prev):
        r = []
        for x in f.blocks[h]:
            if x.op != 'phi': break
            v = [self.val(st, env, x.ty, v) for v, pb in x.a if pb == prev][0]
            r.append((x.res, x.ty, v, [(v2, pb) for v2, pb in x.a]))
        return r

    def loop(self, f, st0, env0, h, prev, blocks):
        phis = self.phi_init(f, st0, env0, h, prev)
        modes = {p[0]: ('unk',) for p in phis}          # phi -> mode
        cmodes = {}                                     # (objid, off) -> (w, mode, init)
        env0 = {k: v for k, v in env0.items() if not k.startswith('!unroll_')}
        save_len = self.lenient
        forced = set(); early = set()
        for attempt in range(16):
            disc = not any(m[0] == 'final' for m in ()) 
            # ---- discovery until stable
            stable = False
            for _ in range(6):
                self.lenient = True; self.quiet += 1
                try: K, base, outs, init, refs = self.loop_body(f, st0, env0, h, prev, blocks, phis, modes, cmodes)
                finally: self.lenient = save_len; self.quiet -= 1
                ch = self.loop_update(f, st0, h, phis, modes, cmodes, K, base, outs, init, forced)
                if not ch: stable = True; break
            if not stable: raise Unsupported('loop discovery does not stabilise in %s' % f.name)
            # counters compared as signed numbers are signed from the start
            sg = self.signed_phis(f, blocks)
            for b in list(modes):
                if modes[b][0] == 'iv' and b in sg and b not in forced and isinstance(init[b][0], Poly):
                    modes[b] = ('siv', modes[b][1]); forced.add(b); early.add(b)
            # ---- strict pass
            nob = len(self.obls)
            K, base, outs, init, refs = self.loop_body(f, st0, env0, h, prev, blocks, phis, modes, cmodes)
            bad = self.loop_verify(f, st0, h, phis, modes, cmodes, K, base, outs, init)
            if not bad: break
            del self.obls[nob:]
            for b in bad: forced.add(b)
            for b in bad:
                m = modes[b] if isinstance(b, str) else cmodes[b][1]
                v0 = init[b][0]
                if b in early: early.discard(b); nm = ('iv', m[1])
                else: nm = ('siv', m[1]) if m[0] == 'iv' and isinstance(v0, Poly) and b not in sg else ('hav',)
                if isinstance(b, str): modes[b] = nm
                else: cmodes[b] = (cmodes[b][0], nm, cmodes[b][2])
        else: raise Unsupported('loop invariants not inductive in %s' % f.name)
        return self.loop_finish(f, st0, env0, h, phis, modes, cmodes, K, base, outs, refs, init)

    def signed_phis(self, f, blocks):
        r = f.__dict__.setdefault('_sgnuse', {}); key = frozenset(blocks)
        if key in r: return r[key]
        u = set(); add_ = {}
        for b in blocks:
            for x in f.blocks[b]:
                if x.op == 'icmp' and x.a[0] in ('slt', 'sgt', 'sle', 'sge'):
                    for y in x.a[1:]:
                        if y[0] == 'loc': u.add(y[1])
                if x.res and x.op in ('add', 'sub', 'binop', 'zext', 'sext', 'trunc'): add_[x.res] = x
        r[key] = u; return u
    def at(self, mode, init, k, name, w, ty):
        """value at iteration k"""
        if mode[0] == 'iv':
            if isinstance(init, Ptr): return Ptr(init.obj, add(init.off, mul(k, mode[1])))
            return add(init, mul(k, mode[1]))
        if mode[0] == 'siv':
            n = 8 * w if w else wbits(ty); c = init.const(); h = 1 << (n - 1)
            i0 = self.uncanon(init, n)
            if i0 is None: i0 = init if c is None else C(c - (1 << n) if c >= h else c)
            return self.canon(add(i0, mul(k, mode[1])), n)
        if mode[0] == 'inv': return init
        return None

    def loop_body(self, f, st0, env0, h, prev, blocks, phis, modes, cmodes):
        st = st0.copy(); st.reads = []; st.own = set()
        self.cnt += 1; ka = atom('sym', 'k!%d' % self.cnt, (), 0, None); K = ka.id; k = A(ka)
        st.params = st0.params + (K,)
        env = dict(env0); init = {}
        base_n = len(st.facts)
        for name, ty, v, _ in phis:
            m = modes[name]; nv = self.at(m, v, k, name, None, ty)
            if nv is None:
                nv = self.havoc(st, 'ph_' + name, ty, v)
            elif m[0] == 'iv' and isinstance(nv, Poly) and not self.lenient:
                st.facts.append(le(ZERO, nv)); st.facts.append(le(nv, C((1 << wbits(ty)) - 1)))
            elif m[0] == 'siv' and not self.lenient: self.sfacts(st, nv, wbits(ty))
            env[name] = nv; init[name] = (v, nv)
        for (oid, off), (w, m, v) in cmodes.items():
            e = st.mem[oid]
            if not isinstance(e, dict): continue
            nv = self.at(m, v, k, None, w, None)
            if nv is None: nv = self.havoc(st, 'cell', ('ptr',) if isinstance(v, (Ptr, Poison)) else ('i', 8 * w), v)
            elif m[0] == 'iv' and isinstance(nv, Poly) and not self.lenient:
                st.facts.append(le(ZERO, nv)); st.facts.append(le(nv, C((1 << (8 * w)) - 1)))
            elif m[0] == 'siv' and not self.lenient: self.sfacts(st, nv, 8 * w)
            e[off] = (w, nv); init[(oid, off)] = (v, nv)
        base = len(st.facts)
        refs = {o: (v if not isinstance(v, dict) else None) for o, v in st0.mem.items()}
        env['!skipphi'] = True
        # st.own tracks objects created in this iteration
        outs = self.run(f, st, env, h, prev, (h, blocks))
        return K, base, outs, init, refs
    def sfacts(self, st, nv, n):
        u = self.uncanon(nv, n)
        if u is None and bounds(nv)[0] is not None and bounds(nv)[0] >= 0: u = nv
        if u is None: return
        st.facts.append(le(C(-(1 << (n - 1))), u)); st.facts.append(lt(u, C(1 << (n - 1))))
    def srange(self, want, n):
        u = self.uncanon(want, n)
        if u is None and bounds(want)[0] is not None and bounds(want)[0] >= 0: u = want
        return TRUE if u is None else conj([le(C(-(1 << (n - 1))), u), lt(u, C(1 << (n - 1)))])
    def havoc(self, st, nm, ty, v):
        if ty[0] == 'ptr':
            if isinstance(v, Ptr) and v.obj is not None: return Ptr(v.obj, self.fresh(nm, st))
            return Poison('loop-carried pointer')
        if ty == ('i', 1): return eq(self.fresh(nm, st, 0, 1), ONE)
        return self.fresh(nm, st, 0, (1 << wbits(ty)) - 1)

    def kfree(self, p, K, bad):
        d = deep_atoms(p)
        return K not in d and not (d & bad)

    def loop_update(self, f, st0, h, phis, modes, cmodes, K, base, outs, init, forced):
        ch = False
        backs = [o for o in outs if o[0] == 'edge' and o[3] == h]
        # memory cells modified in the loop
        for o in outs:
            s = o[1]
            for oid, e in s.mem.items():
                if oid not in st0.mem: continue
                e0 = st0.mem[oid]
                if isinstance(e0, dict) and not isinstance(e, dict):
                    ob = e[0].obj; self.to_version(st0, ob); ch = True
                    for kk in [kk for kk in cmodes if kk[0] == oid]: del cmodes[kk]
                    return True
                if isinstance(e, dict):
                    for off, (w, v) in e.items():
                        x = e0.get(off); key = (oid, off)
                        if x is not None and x[0] == w and (x[1] == v): continue
                        if key in cmodes:
                            if cmodes[key][0] != w: raise Unsupported('mixed-width loop cell')
                            continue
                        if x is None:
                            # first touch: base content
                            ob = self.objof(oid)
                            bv = self.base_cell(st0, ob, off, w, ('ptr',) if isinstance(v, (Ptr, Poison)) else ('i', 8 * w))
                            if bv == v: continue
                            if any(k2 != off and k2 < off + w and off < k2 + x2[0] for k2, x2 in e0.items()): raise Unsupported('mixed-width loop cell')
                            if o not in backs and not isinstance(v, Poly): pass
                            e0[off] = (w, bv)
                        elif x[0] != w: raise Unsupported('mixed-width loop cell')
                        if o in backs or True:
                            cmodes[key] = (w, ('unk',), e0[off][1]); ch = True
        if ch: return True
        # fresh atoms standing for unknown loop-carried values
        bad = set()
        for nm, (v, nv) in init.items():
            m = modes.get(nm) if isinstance(nm, str) else cmodes[nm][1]
            if m[0] in ('unk', 'hav'):
                p = nv.off if isinstance(nv, Ptr) else nv
                if isinstance(p, Poly): bad |= set(i for i in atoms_of(p) if K in deep_atoms(A(T._alist[i])))
                elif isinstance(p, tuple): bad |= fatoms(p)
        def newmode(nm, v0, cur, nexts, oldm):
            if oldm[0] != 'unk' or nm in forced: return oldm
            st_ = None
            for nx in nexts:
                if isinstance(nx, Poison) or isinstance(cur, Poison): 
                    return ('hav',)
                if isinstance(cur, Ptr):
                    if not isinstance(nx, Ptr) or nx.obj is not cur.obj: return ('hav',)
                    d = sub(nx.off, cur.off)
                elif isinstance(cur, tuple): return ('inv',) if nx == cur else ('hav',)
                else:
                    if not isinstance(nx, Poly): return ('hav',)
                    d = sub(nx, cur)
                if not self.kfree(d, K, bad): return ('hav',)
                if st_ is not None and st_ != d: return ('hav',)
                st_ = d
            if st_ is None or st_ == ZERO: return ('inv',)
            return ('iv', st_)
        upd = {}
        for name, ty, v, inc in phis:
            nexts = []
            for o in backs:
                nv = [self.val(o[1], o[2], ty, v2) for v2, pb in inc if pb == o[4]][0]; nexts.append(nv)
            upd[name] = newmode(name, v, init[name][1], nexts, modes[name])
        for key, (w, m, v) in cmodes.items():
            nexts = []
            for o in backs:
                e = o[1].mem.get(key[0]); x = e.get(key[1])
                nexts.append(x[1] if x and x[0] == w else Poison('cell'))
            upd[key] = newmode(key, v, init[key][1], nexts, m)
        # accept IVs first; only give up ('hav') when no new IV was found
        prog = False
        for nm, m in upd.items():
            old = modes[nm] if isinstance(nm, str) else cmodes[nm][1]
            if old[0] == 'unk' and m[0] in ('iv', 'inv'):
                prog = True
                if isinstance(nm, str): modes[nm] = m
                else: cmodes[nm] = (cmodes[nm][0], m, cmodes[nm][2])
        if prog: return True
        for nm, m in upd.items():
            old = modes[nm] if isinstance(nm, str) else cmodes[nm][1]
            if old[0] == 'unk':
                prog = True
                if isinstance(nm, str): modes[nm] = m
                else: cmodes[nm] = (cmodes[nm][0], m, cmodes[nm][2])
        return prog
    def objof(self, oid): return OBJS[oid]

    def loop_verify(self, f, st0, h, phis, modes, cmodes, K, base, outs, init):
        bad = []
        k1 = add(A(T._alist[K]), ONE)
        for name, ty, v, inc in phis:
            if modes[name][0] == 'siv' and not self.implied(st0, self.srange(self.at(modes[name], v, ZERO, name, None, ty), wbits(ty))): bad.append(name)
        for key, (w, m, v) in cmodes.items():
            if m[0] == 'siv' and not self.implied(st0, self.srange(self.at(m, v, ZERO, None, w, None), 8 * w)): bad.append(key)
        if bad: return bad
        for o in outs:
            if not (o[0] == 'edge' and o[3] == h): continue
            for name, ty, v, inc in phis:
                m = modes[name]
                if m[0] not in ('iv', 'siv', 'inv'): continue
                nx = [self.val(o[1], o[2], ty, v2) for v2, pb in inc if pb == o[4]][0]
                want = self.at(m, v, k1, name, None, ty)
                if not self.same(o[1], nx, want): bad.append(name); continue
                if isinstance(want, Poly) and m[0] == 'iv' and not self.lenient:
                    if not self.implied(o[1], conj([le(ZERO, want), le(want, C((1 << wbits(ty)) - 1))])): bad.append(name)
                if m[0] == 'siv' and not self.lenient and not self.implied(o[1], self.srange(want, wbits(ty))): bad.append(name)
            for key, (w, m, v) in cmodes.items():
                if m[0] not in ('iv', 'siv', 'inv'): continue
                x = o[1].mem[key[0]].get(key[1])
                want = self.at(m, v, k1, None, w, None)
                if x is None or x[0] != w or not self.same(o[1], x[1], want): bad.append(key)
                elif m[0] == 'siv' and not self.implied(o[1], self.srange(want, 8 * w)): bad.append(key)
        return list(set(bad))
    def same(self, st, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): return False
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj is not b.obj: return False
            return a.off == b.off or self.implied(st, eq(a.off, b.off))
        if isinstance(a, tuple) or isinstance(b, tuple): return a == b
        return a == b or self.implied(st, eq(a, b))

    def touches(self, ref, stop):
        """all writes between ref and the version stop (exclusive)"""
        out = []
        while ref != stop:
            v, args = ref
            if v.parent is None: return None
            s = self.inst(v, args); e = v.entry
            if e[0] == 'pt': out.append(((), TRUE, subst(e[1], s), C(e[2])))
            elif e[0] in ('set', 'copy'): out.append(((), TRUE, subst(e[1], s), subst(e[2], s)))
            elif e[0] == 'loop':
                _, kid, N, alts, pre = e
                # rename the bound counter
                self.cnt += 1; ka = atom('sym', 'b!%d' % self.cnt, (), 0, None); s2 = dict(s); s2[kid] = A(ka)
                for guard, fref, ts in alts:
                    for b, g, a, l in ts:
                        out.append((((ka.id, subst(N, s)),) + tuple((bk, subst(bn, s2)) for bk, bn in b), conj([fsubst(guard, s2), fsubst(g, s2)]), subst(a, s2), subst(l, s2)))
            ref = self.sref(v.parent, s)
        return out
    def rebase(self, ref, stop, new, sK, st):
        """copy of the chain ref..stop on top of new, under substitution sK"""
        if ref == stop: return new
        v, args = ref; s = self.inst(v, args)
        par = self.rebase(self.sref(v.parent, s), stop, new, sK, st)
        s2 = dict(s); 
        e = v.entry
        S = lambda x: subst(subst(x, s), sK)
        if e[0] == 'pt': ne = ('pt', S(e[1]), e[2], S(e[3]))
        elif e[0] == 'set': ne = ('set', S(e[1]), S(e[2]), S(e[3]))
        elif e[0] == 'copy': ne = ('copy', S(e[1]), S(e[2]), self.sref(self.sref(e[3], s), sK), S(e[4]))
        else:
            _, kid, N, alts, pre = e
            F = lambda x: fsubst(fsubst(x, s), sK)
            ne = ('loop', kid, S(N), [(F(g), self.sref(self.sref(fr, s), sK), [(tuple((bk, S(bn)) for bk, bn in b), F(gg), S(a), S(l)) for b, gg, a, l in ts]) for g, fr, ts in alts], None)
        nv = Ver(v.obj, st.params, par, ne)
        return self.vref(nv)

    def loop_finish(self, f, st0, env0, h, phis, modes, cmodes, K, base, outs, refs, init):
        kA = A(T._alist[K])
        backs = [o for o in outs if o[0] == 'edge' and o[3] == h]
        exits = [o for o in outs if not (o[0] == 'edge' and o[3] == h)]
        pre = len(st0.facts)
        rangef = None
        res = []
        # --- trip count
        if not exits: return []      # infinite loop: nothing follows (termination is not claimed)
        N = None; closed = None
        if not backs: N = ZERO
        elif len(exits) == 1:
            lits = [x for x in exits[0][1].facts[base:]]
            kl = [x for x in lits if K in fatoms(x)]
            if len(lits) == 1 and len(kl) == 1: closed = self.closed_form(kl[0], K)
        variants = []
        if N is not None: variants.append((N, []))
        elif closed is not None:
            Qp, cond = closed
            # cond >= 1 -> N = Qp ; cond <= 0 -> N = 0
            pos = le(ONE, cond)
            if self.feasible(st0, pos): variants.append((Qp, [pos]))
            if self.feasible(st0, neg(pos)): variants.append((ZERO, [neg(pos)]))
        else:
            Nn = self.fresh('N', st0, 0)
            variants.append((Nn, []))
        # --- memory written by the loop
        mod = {}
        for o in backs:
            for oid, e in o[1].mem.items():
                if oid in refs and refs[oid] is not None and e != refs[oid]: mod[oid] = True
            for d in o[1].dead - st0.dead:
                if d in st0.mem: raise Unsupported('free inside loop')
        alts = {}
        for oid in mod:
            al = []
            for o in backs:
                e = o[1].mem[oid]
                g = conj(o[1].facts[pre:])
                ts = self.touches(e, refs[oid])
                if ts is None: raise Unsupported('loop memory chain')
                al.append((g, e, ts))
            alts[oid] = al
        # --- reads must not see earlier iterations' writes
        if not self.lenient:
            for oid in mod:
                rd = []
                for o in outs:
                    for (ro, nf, facts, binders, off, ln) in o[1].reads:
                        if ro == oid: rd.append((facts, binders, off, ln))
                rd = list(dict.fromkeys(rd))
                self.rw_check(f, st0, h, oid, alts[oid], rd, K, pre)
        # --- reads of the loop, for an enclosing loop
        for N_, extra in variants:
            last = len(variants) == 1 or (N_, extra) is variants[-1]
            for o in exits:
                s = o[1]
                sK = {K: N_}
                ns = st0.copy()
                ns.facts += extra
                ns.facts += [x for x in (fsubst(x, sK) for x in s.facts[pre:]) if x != TRUE]
                if FALSE in ns.facts: continue
                if N_ != ZERO and N is None and closed is None:
                    sk1 = {K: sub(N_, ONE)}
                    ns.facts.append(disj([eq(N_, ZERO)] + [conj([fsubst(x, sk1) for x in b[1].facts[pre:]]) for b in backs]))
                ns.known = set(st0.known); ns.dead = set(s.dead)
                # memory
                for oid, e in s.mem.items():
                    if oid not in st0.mem:
                        # object created on the exit path
                        ns.mem[oid] = self.msub(e, sK, ns); continue
                    if isinstance(e, dict):
                        ns.mem[oid] = self.msub(e, sK, ns); continue
                    r0 = refs[oid]
                    if oid in alts and N_ != ZERO:
                        v = Ver(r0[0].obj, st0.params, r0, ('loop', K, N_, alts[oid], r0)); nr = self.vref(v)
                    else: nr = r0
                    ns.mem[oid] = self.rebase(e, r0, nr, sK, ns) if e != r0 else nr
                ns.own = set(st0.own) | (set(s.mem) - set(st0.mem))
                # reads
                if st0.params:
                    for (ro, nf, facts, binders, off, ln) in s.reads:
                        ns.reads.append((ro, 0, tuple(fsubst(x, sK) for x in facts), binders, subst(off, sK), subst(ln, sK)))
                    for b in backs:
                        for (ro, nf, facts, binders, off, ln) in b[1].reads:
                            if ro in (set(b[1].mem) - set(st0.mem)): continue
                            ns.reads.append((ro, 0, tuple(facts) + tuple(extra), ((K, N_),) + binders, off, ln))
                if o[0] == 'ret': res.append(('ret', ns, self.vsub(o[2], sK)))
                else:
                    env = {n: (self.vsub(v, sK) if not n.startswith('!') else v) for n, v in o[2].items()}
                    res.append(('edge', ns, env, o[3], o[4]))
        return res
    def vsub(self, v, s):
        if isinstance(v, Poly): return subst(v, s)
        if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, s))
        if isinstance(v, tuple): return fsubst(v, s)
        if isinstance(v, Agg): return Agg([self.vsub(x, s) if x is not None else None for x in v.vs])
        return v
    def msub(self, e, s, st):
        if isinstance(e, dict): return {k: (w, self.vsub(v, s) if v is not None else None) for k, (w, v) in e.items()}
        return self.sref(e, s)
    def closed_form(self, lit, K):
        """exit literal e0 + e1*k <= 0 (or == 0): k-th iteration exits; returns (N, cond) with
        N valid when cond >= 1, else 0 iterations"""
        if lit[0] not in ('le', 'eq'): return None
        p = lit[1]; e1 = {}; e0 = {}
        for m, c in p.t.items():
            n = m.count(K)
            if n == 0: e0[m] = c
            elif n == 1:
                r = list(m); r.remove(K); e1[tuple(r)] = c
            else: return None
        e0, e1 = Poly(e0), Poly(e1)
        if K in deep_atoms(e0) or K in deep_atoms(e1): return None
        if lit[0] == 'eq':
            c = e1.const()
            if c is None or c == 0:
                if c is None:
                    q = divexact(scale(e0, -1), e1)
                    if q is not None: return q, q
                return None
            q = divexact(scale(e0, -1), C(c)) if c > 0 else divexact(e0, C(-c))
            return (q, q) if q is not None else None
        d = scale(e1, -1); lo, hi = bounds(d)
        if lo is None or lo < 1: return None
        q = divexact(e0, d)
        if q is not None: return q, q
        c = d.const()
        if c is not None: return div(add(e0, C(c - 1)), C(c)), e0
        return None
    def rw_check(self, f, st0, h, oid, alts, reads, K, pre):
        j = None
        self.cnt += 1; ja = atom('sym', 'j!%d' % self.cnt, (), 0, None); sJ = {K: A(ja)}; kA = A(T._alist[K])
        for guard, fref, ts in alts:
            for b, g, a, l in ts:
                s = dict(sJ); cs = []
                for bk, bn in b:
                    self.cnt += 1; x = sym('q!%d' % self.cnt, 0); s[bk] = x; cs.append(lt(x, subst(bn, s)))
                a1, l1 = subst(a, s), subst(l, s); gg = [fsubst(guard, s), fsubst(g, s)]
                for facts, rb, off, ln in reads:
                    s2 = {}; cs2 = []
                    for bk, bn in rb:
                        self.cnt += 1; x = sym('q!%d' % self.cnt, 0); s2[bk] = x; cs2.append(lt(x, subst(bn, s2)))
                    fs = list(st0.facts) + cs + gg + cs2 + [fsubst(x, s2) for x in facts[pre:]] + [lt(A(ja), kA)]
                    o2, l2 = subst(off, s2), subst(ln, s2)
                    goal = disj([le(add(a1, l1), o2), le(add(o2, l2), a1), le(l1, ZERO), le(l2, ZERO)])
                    fs2 = [x for f_ in fs for x in (f_[1] if f_[0] == 'and' else (f_,))]
                    if not self.prove(fs2, goal):
                        r, m = self.prove(fs2, goal, timeout=self.qto * 2, model=True)
                        if r != 'unsat':
                            if self.trace: print('  loop dependence', f.name, h, OBJS[oid], 'write', a1, l1, 'read', o2, l2, r, m)
                            raise Unsupported('loop in %s carries a memory dependence through %s' % (f.name, OBJS[oid].name))

class ObjTable:
    pass
OBJS = {}
_oi = Obj.__init__
def _obj_init(s, *a, **k): _oi(s, *a, **k); OBJS[s.id] = s
Obj.__init__ = _obj_init

def subst1(p, m):
    """simultaneous replacement of top-level atoms"""
    if not m: return p
    o = ZERO
    for mon, c in p.t.items():
        q = C(c)
        for i in mon: q = mul(q, m[i] if i in m else Poly({(i,): 1}))
        o = add(o, q)
    return o
class PathEnd(Exception): pass
class ForkOn(Exception):
    def __init__(s, c): s.c = c

def demangle(n):
    import re
    m = re.match(r'_Z(\d+)', n)
    if m:
        k = int(m.group(1)); i = m.end(); return n[i:i+k]
    return n

import struct
def fpbits(t, ty):
    if t.startswith('0x'):
        v = int(t[2:], 16)
        if ty[0] == 'float': return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', v))[0]))[0]
        return v
    return struct.unpack('<I', struct.pack('<f', float(t)))[0] if ty[0] == 'float' else struct.unpack('<Q', struct.pack('<d', float(t)))[0]

# ---------------------------------------------------------------- models
MODELS = {}
def model(*names):
    def d(fn):
        for n in names: MODELS[n] = fn
        return fn
    return d
def ndsym(cx, st, nm, lo, hi):
    n = '%s#%d' % (nm, sum(1 for x in cx.nd if x[0] == nm)); 
    p = sym(n, lo, hi); cx.nd.append((nm, n)); cx.hints.append(p); return p
@model('nd_u32', 'nd_u8', 'nd_u16', 'nd_u64', 'nd_f32', 'nd_f64')
def _nd(cx, st, a, x, loc):
    w = {'nd_u8': 8, 'nd_u16': 16, 'nd_u32': 32, 'nd_u64': 64, 'nd_f32': 32, 'nd_f64': 64}[x.a[0][1]]
    nm = cx.cname(st, a[0]); n = '%s#%d' % (nm, sum(1 for y in cx.nd if y[0] == nm)); cx.nd.append((nm, n))
    return [(st, sym(n, 0, (1 << w) - 1))]
@model('nd_i32')
def _ndi(cx, st, a, x, loc):
    return _irng(cx, st, cx.cname(st, a[0]), -(1 << 31), (1 << 31) - 1)
def _irng(cx, st, nm, lo, hi):
    # two cases by sign, values canonical unsigned 32-bit
    n = '%s#%d' % (nm, sum(1 for y in cx.nd if y[0] == nm)); cx.nd.append((nm, n))
    r = []
    if hi >= 0:
        s2 = st.copy(); p = sym(n + '+', max(lo, 0), hi); cx.hints.append(p); r.append((s2, p))
    if lo < 0:
        s2 = st.copy(); p = sym(n + '-', 1, -lo) if hi >= 0 else sym(n + '-', -hi, -lo); cx.hints.append(scale(p, -1)); r.append((s2, sub(C(1 << 32), p)))
    return r
@model('nd_irng')
def _ndir(cx, st, a, x, loc):
    f = lambda p: p.const() - (1 << 32) if p.const() >> 31 else p.const()
    return _irng(cx, st, cx.cname(st, a[0]), f(a[1]), f(a[2]))
@model('nd_rng')
def _ndr(cx, st, a, x, loc):
    lo, hi = a[1].const(), a[2].const()
    p = ndsym(cx, st, cx.cname(st, a[0]), lo if lo is not None else 0, hi if hi is not None else (1 << 32) - 1)
    if lo is None: st.facts.append(le(a[1], p))
    if hi is None: st.facts.append(le(p, a[2]))
    return [(st, p)]
@model('nd_len')
def _ndl(cx, st, a, x, loc): return [(st, ndsym(cx, st, cx.cname(st, a[0]), 0, (1 << 31) - 1))]
@model('nd_dim')
def _ndd(cx, st, a, x, loc):
    nm = cx.cname(st, a[0]); n = '%s#%d' % (nm, sum(1 for y in cx.nd if y[0] == nm)); cx.nd.append((nm, n))
    return [(st, sym(n, 1, (1 << 31) - 1))]
@model('nd_buf')
def _ndb(cx, st, a, x, loc):
    o = cx.new_obj(st, cx.cname(st, a[0]), a[1], 'free'); o.heap = True
    return [(st, Ptr(o, ZERO))]
@model('vrt_assume')
def _as(cx, st, a, x, loc):
    c = neg(eq(a[0], ZERO))
    if c == FALSE: return []
    for g in (c[1] if c[0] == 'and' else (c,)): st.facts.append(g)
    if c != TRUE and cx.prove(st.facts[:-1], neg(c), timeout=2500): return []
    return [(st, None)]
@model('vrt_check')
def _ck(cx, st, a, x, loc):
    c = neg(eq(a[0], ZERO)); cx.oblig(st, c, cx.cname(st, a[1]), 'check', loc, assume=False); return [(st, None)]
@model('vrt_cover')
def _cv(cx, st, a, x, loc):
    nm = cx.cname(st, a[0])
    if not cx.covers.get(nm) and not cx.quiet:
        r, m = Q().solve(st.facts, 3000, False)
        cx.covers[nm] = r != 'unsat'
    return [(st, None)]
@model('vrt_hint')
def _h(cx, st, a, x, loc): cx.hints.append(a[0]); return [(st, None)]
def heap(cx, st, size, zero, loc, may_fail):
    r = []
    if may_fail: r.append((st.copy(), NULL))
    s2 = st.copy() if may_fail else st
    o = cx.new_obj(s2, 'heap@' + loc, size, 'zero' if zero else 'free'); o.heap = True
    r.append((s2, Ptr(o, ZERO))); return r
@model('ialloc')
def _ia(cx, st, a, x, loc): return heap(cx, st, a[0], False, loc, cx.o.get('alloc_fail', True))
@model('malloc')
def _ma(cx, st, a, x, loc): return heap(cx, st, a[0], False, loc, cx.o.get('alloc_fail', True))
@model('icalloc', 'calloc')
def _ica(cx, st, a, x, loc): return heap(cx, st, cx.wrap(mul(a[0], a[1]), 64, st), True, loc, cx.o.get('alloc_fail', True))
@model('ifree', 'free')
def _fr(cx, st, a, x, loc):
    p = a[0]
    if isinstance(p, Poison): raise Unsupported('free of unknown pointer ' + p.why)
    if p.obj is None: return [(st, None)]
    if p.obj.id in st.dead: cx.oblig(st, FALSE, 'double free', 'mem', loc); return []
    if not p.obj.heap or p.off != ZERO: cx.oblig(st, FALSE, 'free of non-heap pointer', 'mem', loc); return []
    st.dead.add(p.obj.id); return [(st, None)]
@model('ilSetError')
def _se(cx, st, a, x, loc): return [(st, None)]
@model('memcpy', 'memmove')
def _mc(cx, st, a, x, loc): cx.memcpy(st, a[0], a[1], a[2], loc); return [(st, a[0])]
@model('memset')
def _ms(cx, st, a, x, loc): cx.memset(st, a[0], a[1] if a[1].const() is None else C(a[1].const() % 256), a[2], loc); return [(st, a[0])]

def run_harness(M, name, opts):
    """returns dict(obls, covers, status, why, ...)"""
    T.reset(); VERS.clear(); OBJS.clear(); Obj.n = 0; ST.q = 0; ST.t = 0.0
    cx = Ctx(M, opts); t0 = time.time(); status = 'ok'; why = ''
    sys.setrecursionlimit(20000)
    try: cx.call_fn(name, State(), [])
    except Unsupported as e: status = 'unsupported'; why = str(e)
    return dict(obls=cx.obls, covers=cx.covers, status=status, why=why, t=time.time() - t0, queries=ST.q, solver=ST.t, fns=sorted(cx.fns_used), nd=cx.nd, paths=cx.paths)
