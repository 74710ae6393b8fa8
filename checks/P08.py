def dv(h, case='', defs=(), **k): return dict(dict(h=h, engine='dv', case=case, defs=list(defs)), **k)
P = dict(level='proof', harness=['P08.c'], native=['H_flipbuf', 'H_flipnew', 'H_flipimg', 'H_mirror'],
  jobs=[dv('H_flipbuf', opts=dict(alloc_fail=False), funcs=['iFlipBuffer', 'iMemSwap'], cost=5), dv('H_flipnew', funcs=['iFlipNewBuffer'])]
   + [dv('H_flipimg', '_c%d' % c, ['BPC=%d' % c, 'BPP=%d' % b], opts=dict(alloc_fail=False), funcs=['iluFlipImage', 'iFlipBuffer', 'iMemSwap'], cost=5) for c, b in ((1, 3), (8, 4))]
   + [dv('H_mirror', '_p%dc%d' % (b, c), ['BPC=%d' % c, 'BPP=%d' % b], funcs=['iluMirror', 'iMirror']) for c in (1, 2, 4, 8) for b in (1, 2, 3, 4)],
  assumptions=['total image size below 2 GiB', 'scratch allocation of 4096 bytes in iMemSwap succeeds'])
