def dv(h, case='', defs=(), **k): return dict(dict(h=h, engine='dv', case=case, defs=list(defs)), **k)
def cases(h, pcs, **k): return [dv(h, '_p%dc%d' % (b, c), ['BPP=%d' % b, 'BPC=%d' % c], **k) for b, c in pcs]
ALLPC = [(b, c) for b in (1, 2, 3, 4) for c in (1, 2, 4, 8)]
# state-stack levels: the quick tier takes four of the 32, the thorough tier all (complete case split)
def levels(h, S, f, lo=0, hi=31, **k):
    q = set([lo, lo + 1, 17, hi])
    return [dict(dict(h=h, engine='cbmc', srcs=S, unwind=36, funcs=f, case='_l%d' % l, defs=['LEVEL=%d' % l], thorough=l not in q), **k) for l in range(lo, hi + 1)]
