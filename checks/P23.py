from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
F = ['iluCrop', 'iluCrop2D', 'iluCrop3D', 'iTakePixels', 'ilNewImageFull', 'ilInitImage', 'ilCloseImage', 'ilGetCurImage', 'ilSetCurImage']
O = dict(nomodel=['ilSetError'])
J = []
for s in range(7):
    for t in range(9):
        q = (s, t) in ((0, 0), (1, 1), (2, 4), (4, 3), (5, 8))
        J.append(dv('H_crop', '_%d%s_slices' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t, 'ZO=0'], funcs=F, opts=O, thorough=not q, cost=4))
        q = (s, t) in ((0, 1), (1, 0), (3, 2), (6, 6))
        J.append(dv('H_crop', '_%d%s_box' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t, 'ZHI'], funcs=F, opts=O, thorough=not q, cost=4))
J.append(dv('H_crop', '_0ub_slices1', ['SF=0', 'TYP=0', 'ZO=1'], funcs=F, opts=O, cost=4))
P = dict(level='proof', harness=['P23.c'], native=['H_crop', 'H_index'], jobs=J,
  assumptions=['images below 2 GiB', 'a refusal or failure records an error: in native search for failing allocations', 'colour-index images and their palettes: native search only (bounded)'])
