from common import *
F = ['ilCopyPixels', 'ilCopyPixels1D', 'ilCopyPixels2D', 'ilCopyPixels3D']
P = dict(level='proof', harness=['P06.c'], native=['H_row', 'H_plane', 'H_box'],
  jobs=cases('H_row', [(3, 1), (1, 1), (4, 2), (3, 4), (2, 8)], funcs=F[:2]) + cases('H_plane', [(3, 1), (4, 2)], funcs=F[:3], cost=3) + cases('H_box', [(3, 1)], funcs=F, cost=9)
   + cases('H_row', [x for x in ALLPC if x not in [(3, 1), (1, 1), (4, 2), (3, 4), (2, 8)]], funcs=F[:2], thorough=True) + cases('H_plane', [x for x in ALLPC if x not in [(3, 1), (4, 2)]], funcs=F[:3], cost=3, thorough=True) + cases('H_box', [x for x in ALLPC if x != (3, 1)], funcs=F, cost=9, thorough=True),
  assumptions=['image and block each below 2 GiB', 'origin forcing (IL_ORIGIN_SET) disabled', 'image layout consistent (P01)'])
