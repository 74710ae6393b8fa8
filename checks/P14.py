from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
F = ['ilClearImage', 'ilClearImage_', 'ilGetClear', 'ilClearColour']
J = [dv('H_clear', '_%d_%s' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t], funcs=F, opts=dict(pure=['ilFloatToHalf']), thorough=not (t in (0, 8) or s == t - 1)) for s in range(7) for t in range(9)]
J += [dv('H_index', '', [], funcs=F)]
CH = [3, 4, 3, 4, 1, 2, 1]
J += [dict(h='H_value', engine='cbmc', case='_%d_%s_%d' % (s, TN[t], c), defs=['SF=%d' % s, 'TYP=%d' % t, 'CH=%d' % c], srcs=['il_devil.cpp', 'il_utility.cpp', 'il_manip.cpp', 'il_internal.cpp', 'il_alloc.cpp', 'il_error.cpp'], unwind=42, funcs=['ilGetClear', 'ilClearColour'], thorough=not (t == 3 or (c == (s + t) % CH[s] and t in (0, 8))))
      for s in range(7) for t in (0, 1, 3, 4, 8) for c in range(CH[s]) if t == 3 or not (s in (4, 5) and c == 0)]
J += [dv('H_agree', '_%d_%s' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t], funcs=['ilGetClear'], opts=dict(pure=['ilFloatToHalf'])) for s in range(7) for t in range(9)]
P = dict(level='proof', harness=['P14.c'], native=['H_clear', 'H_index', 'H_value', 'H_agree'], jobs=J,
  assumptions=['clear colours are not NaN', 'images below 2 GiB', 'the luminance of a clear colour that is not a grey: native search only (bounded, tolerance 2e-5)', 'a component may be rounded either way when expressed as an integer'])
