from common import *
N = ['ub', 'us', 'ui', 'f', 'd', 'h', 'b', 's', 'i']
S = ['il_convbuff.cpp', 'il_manip.cpp', 'il_internal.cpp', 'il_error.cpp', 'il_alloc.cpp', 'il_utility.cpp']
FH = ['iSwitchTypes', 'ilHalfToFloat', 'ilFloatToHalf']
def cb(h, s, d, **k): return dict(dict(h=h, engine='cbmc', srcs=S, unwind=13, funcs=FH, case='_%s_%s' % (N[s], N[d]), defs=['ST=%d' % s, 'DT=%d' % d], timeout=400), **k)
HARD = [(3, 1), (3, 2), (4, 1), (4, 2)]
P = dict(level='proof', harness=['P10.c'], native=['H_each', 'H_ends', 'H_mono', 'H_narrow', 'H_run'],
  jobs=[dv('H_each', '_%s_%s' % (N[s], N[d]), ['ST=%d' % s, 'DT=%d' % d], opts=dict(pure=['ilHalfToFloat', 'ilFloatToHalf']), funcs=['iSwitchTypes']) for s in range(9) for d in range(9) if s != d]
   + [cb('H_ends', s, d) for s in range(6) for d in range(6)]
   + [cb('H_mono', s, d, cost=4 if s > 2 or d > 2 else 2) for s in range(6) for d in range(6) if s != d and (s, d) not in HARD + [(2, 4)]]
   + [cb('H_step', 2, 4, thorough=True, flags=[])]
   + [cb('H_narrow', s, d) for s in range(3) for d in range(s)],
  assumptions=['the value of ilHalfToFloat and ilFloatToHalf depends only on their argument (H_each treats them as uninterpreted functions; the value obligations execute them)',
   'H_ends, H_mono and H_narrow are decided on one-sample buffers for every sample value; H_each proves for every length that each sample is converted like a lone one',
   'order for float and double to 16- and 32-bit integers: out of the solver\'s reach, searched natively over runs of consecutive values (H_run), not counted as proved; 32-bit integer to double by induction over neighbours in the thorough tier',
   'infinities and NaN excluded from the order property'])
