from common import *
F = ['ilSetPixels', 'ilSetPixels1D', 'ilSetPixels2D', 'ilSetPixels3D', 'iClipBlock']
def sgn(h, b, c, n, **k): return [dv(h, '_p%dc%d_s%d' % (b, c, s), ['BPP=%d' % b, 'BPC=%d' % c, 'SX=%d' % (s & 1), 'SY=%d' % (s >> 1 & 1), 'SZ=%d' % (s >> 2)], **k) for s in range(1 << n)]
P = dict(level='proof', harness=['P07.c'], native=['H_row', 'H_plane', 'H_box'],
  jobs=cases('H_row', [(3, 1), (1, 1), (4, 2), (3, 4)], funcs=F[:2] + F[4:]) + sgn('H_plane', 3, 1, 2, funcs=F[:3] + F[4:], cost=3)
   + sum([sgn('H_plane', b, c, 2, funcs=F[:3] + F[4:], cost=3, thorough=True) for b, c in ((1, 1), (4, 2), (2, 4))], [])
   + sum([sgn('H_box', b, c, 3, funcs=F, cost=9, thorough=True) for b, c in ((3, 1), (1, 2), (4, 4))], []),
  assumptions=['image and block each below 2 GiB', 'origin forcing (IL_ORIGIN_SET) disabled', 'image layout consistent (P01)'])
