"""Terms: polynomials with integer coefficients over interned atoms, and
quantifier-free formulas over them."""
import itertools
_atoms = {}; _alist = []

class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'extra')
    def __repr__(self): return show_atom(self)

def atom(kind, name, args=(), lo=None, hi=None, extra=None):
    key = (kind, name, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(_alist); a.kind = kind; a.name = name; a.args = args; a.lo = lo; a.hi = hi; a.extra = extra
        _atoms[key] = a; _alist.append(a)
    return a

def reset():
    _atoms.clear(); _alist.clear()

class Poly:
    __slots__ = ('t', 'h')
    def __init__(s, t): s.t = t; s.h = None
    def __hash__(s):
        if s.h is None: s.h = hash(frozenset(s.t.items()))
        return s.h
    def __eq__(s, o): return isinstance(o, Poly) and s.t == o.t
    def __repr__(s): return show(s)
    def const(s):
        if not s.t: return 0
        if len(s.t) == 1 and () in s.t: return s.t[()]
        return None

def C(n): return Poly({(): n} if n else {})
ZERO = C(0); ONE = C(1)
def A(a): return Poly({(a.id,): 1})
def sym(name, lo=None, hi=None): return A(atom('sym', name, (), lo, hi))
def app(name, args, lo=None, hi=None, kind='app', extra=None): return A(atom(kind, name, tuple(args), lo, hi, extra))

def add(a, b):
    if not b.t: return a
    if not a.t: return b
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n: t[m] = n
        else: t.pop(m, None)
    return Poly(t)
def scale(a, k):
    if k == 0: return ZERO
    if k == 1: return a
    return Poly({m: c * k for m, c in a.t.items()})
def sub(a, b): return add(a, scale(b, -1))
def mul(a, b):
    ca = a.const(); cb = b.const()
    if ca is not None: return scale(b, ca)
    if cb is not None: return scale(a, cb)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n)); v = t.get(k, 0) + c * d
            if v: t[k] = v
            else: t.pop(k, None)
    return Poly(t)

def bounds(p):
    """interval (lo,hi) from atom ranges, None = unbounded"""
    lo = hi = 0
    for m, c in p.t.items():
        l, h = 1, 1
        for i in m:
            a = _alist[i]
            if a.lo is None or a.lo < 0:
                if a.lo is None or a.hi is None: l = h = None; break
                cs = [l * a.lo, l * a.hi, h * a.lo, h * a.hi] if h is not None else None
                if cs is None: l = h = None; break
                l, h = min(cs), max(cs)
            else:
                if l is not None and l >= 0:
                    l = l * a.lo; h = None if h is None or a.hi is None else h * a.hi
                else:
                    if a.hi is None or h is None: l = h = None; break
                    cs = [l * a.lo, l * a.hi, h * a.lo, h * a.hi]; l, h = min(cs), max(cs)
        if c < 0: l, h = (None if h is None else c * h), (None if l is None else c * l)
        else: l, h = (None if l is None else c * l), (None if h is None else c * h)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi

def divexact(p, q):
    """p / q as polynomial when q is a single monomial dividing p, else None"""
    if len(q.t) != 1: 
        return ONE if p == q else None
    (qm, qc), = q.t.items()
    t = {}
    for m, c in p.t.items():
        if c % qc: return None
        r = list(m)
        for x in qm:
            if x in r: r.remove(x)
            else: return None
        t[tuple(r)] = c // qc
    return Poly(t)

def atoms_of(p):
    return set(i for m in p.t for i in m)

_substc = {}
def subst(p, s):
    """s: dict atom-id -> Poly. Recurses into application arguments."""
    if not s: return p
    out = None
    for m, c in p.t.items():
        hit = False
        fac = []
        for i in m:
            r = subst_atom(i, s)
            fac.append(r)
            if r is not None: hit = True
        if hit:
            if out is None:
                out = ZERO
                for m2, c2 in p.t.items():
                    if m2 is m: break
                    out = add(out, Poly({m2: c2}))
            q = C(c)
            for i, r in zip(m, fac): q = mul(q, r if r is not None else Poly({(i,): 1}))
            out = add(out, q)
        elif out is not None: out = add(out, Poly({m: c}))
    return p if out is None else out

def subst_atom(i, s):
    if i in s: return s[i]
    a = _alist[i]
    if not a.args: return None
    ch = False; na = []
    for x in a.args:
        y = subst(x, s) if isinstance(x, Poly) else fsubst(x, s) if isinstance(x, tuple) else x
        if y is not x and y != x: ch = True
        na.append(y)
    if not ch: return None
    return rebuild(a, tuple(na))

def rebuild(a, na):
    if a.kind == 'div': return div(na[0], na[1])
    if a.kind == 'mod': return mod(na[0], na[1])
    if a.kind == 'ite': return ite(na[0], na[1], na[2])
    return A(atom(a.kind, a.name, na, a.lo, a.hi, a.extra))

def div(p, d):
    """floor division, d > 0 assumed by the caller"""
    cp, cd = p.const(), d.const()
    if cp is not None and cd: return C(cp // cd)
    if cd == 1: return p
    e = divexact(p, d)
    if e is not None: return e
    if cd:   # split off the divisible part
        q = {m: c // cd for m, c in p.t.items() if c % cd == 0}; r = {m: c for m, c in p.t.items() if c % cd}
        if q:
            rp = Poly(r); lo, hi = bounds(rp)
            if lo is not None and hi is not None and lo // cd == hi // cd: return add(Poly(q), C(lo // cd))
            return add(Poly(q), div(rp, d))
        lo, hi = bounds(p)
        if lo is not None and hi is not None and lo // cd == hi // cd: return C(lo // cd)
        return A(atom('div', 'div', (p, d), None if lo is None else lo // cd, None if hi is None else hi // cd))
    lo, hi = bounds(p)
    return A(atom('div', 'div', (p, d), 0 if lo is not None and lo >= 0 else None, hi if hi is not None and hi >= 0 else None))
def mod(p, d):
    cp, cd = p.const(), d.const()
    if cp is not None and cd: return C(cp % cd)
    if cd:
        p2 = Poly({m: c % cd for m, c in p.t.items() if c % cd})
        lo, hi = bounds(p2)
        if lo is not None and hi is not None and lo >= 0 and hi < cd: return p2
        p3 = Poly({m: (c % cd if c % cd <= cd // 2 else c % cd - cd) for m, c in p.t.items() if c % cd})
        lo, hi = bounds(p3)
        if lo is not None and hi is not None and lo // cd == hi // cd: return sub(p3, C((lo // cd) * cd))
        return A(atom('mod', 'mod', (p3, d), 0, cd - 1))
    if divexact(p, d) is not None: return ZERO
    return A(atom('mod', 'mod', (p, d), 0, None))
def ite(f, a, b):
    if f == TRUE: return a
    if f == FALSE: return b
    if a == b: return a
    la, ha = bounds(a); lb, hb = bounds(b)
    return A(atom('ite', 'ite', (f, a, b), None if la is None or lb is None else min(la, lb), None if ha is None or hb is None else max(ha, hb)))

# ------------------------------------------------------------ formulas
TRUE = ('t',); FALSE = ('f',)
def le0(p):
    lo, hi = bounds(p)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    return ('le', p)
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), ONE))
def norm_eq(p):
    # sign-normalise
    if p.t:
        m = min(p.t, key=lambda m: (len(m), m))
        if p.t[m] < 0: p = scale(p, -1)
    return p
def eq(a, b):
    p = sub(a, b); c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    # ite(f,c1,c2) == const
    if len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and abs(p.t[ms[0]]) == 1:
            at = _alist[ms[0][0]]
            if at.kind == 'ite':
                k = -p.t.get((), 0) * p.t[ms[0]]
                x, y = at.args[1].const(), at.args[2].const()
                if x is not None and y is not None:
                    if x == k and y != k: return at.args[0]
                    if y == k and x != k: return neg(at.args[0])
                    if x != k and y != k: return FALSE
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    return ('eq', norm_eq(p))
def neg(f):
    k = f[0]
    if k == 't': return FALSE
    if k == 'f': return TRUE
    if k == 'le': return le0(sub(ONE, f[1]))
    if k == 'eq': return ('ne', f[1])
    if k == 'ne': return ('eq', f[1])
    if k == 'and': return disj([neg(x) for x in f[1]])
    if k == 'or': return conj([neg(x) for x in f[1]])
    raise Exception(k)
def conj(fs):
    o = []; seen = set()
    for f in fs:
        if f == FALSE: return FALSE
        if f == TRUE: continue
        for g in (f[1] if f[0] == 'and' else (f,)):
            if g not in seen: seen.add(g); o.append(g)
    return TRUE if not o else o[0] if len(o) == 1 else ('and', tuple(o))
def disj(fs):
    o = []; seen = set()
    for f in fs:
        if f == TRUE: return TRUE
        if f == FALSE: continue
        for g in (f[1] if f[0] == 'or' else (f,)):
            if g not in seen: seen.add(g); o.append(g)
    return FALSE if not o else o[0] if len(o) == 1 else ('or', tuple(o))
def fsubst(f, s):
    k = f[0]
    if k in 'tf': return f
    if k == 'le': return le0(subst(f[1], s))
    if k == 'eq': return eq(subst(f[1], s), ZERO)
    if k == 'ne': return neg(eq(subst(f[1], s), ZERO))
    if k == 'and': return conj([fsubst(x, s) for x in f[1]])
    if k == 'or': return disj([fsubst(x, s) for x in f[1]])
def fpolys(f, out):
    k = f[0]
    if k in ('le', 'eq', 'ne'): out.append(f[1])
    elif k in ('and', 'or'):
        for x in f[1]: fpolys(x, out)
    return out
def fatoms(f):
    s = set()
    for p in fpolys(f, []): s |= deep_atoms(p)
    return s
_deepc = {}
def deep_atoms(p):
    s = set(); st = list(atoms_of(p))
    while st:
        i = st.pop()
        if i in s: continue
        s.add(i)
        for x in _alist[i].args:
            if isinstance(x, Poly): st.extend(atoms_of(x))
            elif isinstance(x, tuple):
                for q in fpolys(x, []): st.extend(atoms_of(q))
    return s

def show_atom(a):
    if a.kind == 'sym': return a.name
    if a.kind == 'ite': return 'ite(%s,%s,%s)' % (fshow(a.args[0]), show(a.args[1]), show(a.args[2]))
    return '%s(%s)' % (a.name, ','.join(show(x) if isinstance(x, Poly) else str(x) for x in a.args))
def show(p):
    if not p.t: return '0'
    o = []
    for m, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0])):
        s = '*'.join(show_atom(_alist[i]) for i in m)
        o.append(str(c) if not s else s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
    return '+'.join(o).replace('+-', '-')
def fshow(f):
    k = f[0]
    if k == 't': return 'true'
    if k == 'f': return 'false'
    if k in ('le', 'eq', 'ne'): return show(f[1]) + {'le': '<=0', 'eq': '==0', 'ne': '!=0'}[k]
    return '(' + (' & ' if k == 'and' else ' | ').join(fshow(x) for x in f[1]) + ')'
