from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
F = ['iluEnlargeCanvas', 'iluImageParameter', 'iTakePixels', 'ilNewImageFull', 'ilInitImage', 'ilClearImage_', 'ilGetClear', 'ilCloseImage', 'ilGetCurImage', 'ilSetCurImage']
O = dict(nomodel=['ilSetError'], pure=['ilFloatToHalf'])
J = []
for s in range(7):
    for t in range(9):
        for p in range(5):
            for u in (0, 1):
                n = s * 9 + t
                if (n + p + u) % 5: continue   # every placement and origin with every format and with every type
                q = (s, t) in ((0, 0), (2, 3), (4, 1), (5, 4)) and p not in (1, 4) or (s, t, p) in ((1, 8, 3), (4, 1, 4))
                J.append(dv('H_canvas', '_%d%s_p%d_o%d' % (s, TN[t], p, u), ['SF=%d' % s, 'TYP=%d' % t, 'PLC=%d' % p, 'ORG=%d' % u], funcs=F, opts=O, thorough=not q, cost=6))
P = dict(level='proof', harness=['P24.c'], native=['H_canvas', 'H_index'], jobs=J,
  assumptions=['images and canvases below 2 GiB', 'the placement was set by iluImageParameter', 'colour-index images and their palettes: native search only (bounded)', 'a selection of the combinations of format, type, placement and origin that has every pair of them except format and type x placement'])
