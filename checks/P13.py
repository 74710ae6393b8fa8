from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
PURE = dict(pure=['ilHalfToFloat', 'ilFloatToHalf'])
def q(s, t): return t in (0, 1 + (s + 1) % 4) or (t == 8 and s == 1)
J = [dv('H_get', '_%d_%s_%s' % (s, TN[t], TN[t]), ['SF=%d' % s, 'TYP=%d' % t, 'DTY=%d' % t], opts=PURE, funcs=['ilGetAlpha'], thorough=not q(s, t)) for s in range(7) for t in range(9)]
J += [dv('H_get', '_%d_%s_%s' % (s, TN[t], TN[d]), ['SF=%d' % s, 'TYP=%d' % t, 'DTY=%d' % d], opts=PURE, funcs=['ilGetAlpha', 'iConvertImage', 'ilConvertBuffer', 'iSwitchTypes'], thorough=not ((s in (1, 5, 6) and d == (t + 1 + s) % 5) or (s == 0 and t == 0))) for s in (0, 1, 4, 5, 6) for t in range(5) for d in range(9) if t != d]
J += [dv('H_set', '_%d_%s' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t], opts=PURE, funcs=['ilSetAlpha', 'ilConvertImage', 'iConvertImage', 'ilConvertBuffer'], cost=3, thorough=not q(s, t)) for s in range(7) for t in range(9) if t < 8 or s in (1, 3, 5, 6)]
P = dict(level='proof', harness=['P13.c'], native=['H_get', 'H_set'], jobs=J,
  assumptions=['images below 2 GiB in the widest sample type', 'palette images: not covered by the statement', 'the value of ilHalfToFloat and ilFloatToHalf depends only on their argument (their values: P19)',
   'adding an alpha channel to a half image: native search only (bounded)', 'colour key disabled (IL_USE_KEY_COLOUR)'])
