from common import *
TN = ['ub', 'us', 'ui', 'f', 'd']
F = ['ilConvertBuffer']
IO = dict(H_fast=['iFastConvert'], H_swap=['ilSwapColours', 'iFastConvert'], H_add=['ilAddAlpha'], H_rem=['ilRemoveAlpha'])
def prs(): return [(s, d) for s in range(7) for d in range(7) if not (s == 6 and d == 4)]
J = [dv('H_buf', '_s%dd%d_%s' % (s, d, TN[t]), ['SF=%d' % s, 'DF=%d' % d, 'TYP=%d' % t], funcs=F, thorough=t not in (0, (s + d) % 4 + 1)) for s, d in prs() for t in range(5)]
for h in ('H_fast', 'H_swap'):
    J += [dv(h, '_a%db%d_t%d' % (a, b, t), ['TYP=%d' % t, 'AL=%d' % a, 'BG=%d' % b], funcs=IO[h], thorough=not (t in (0, 3) or (a + 2 * b) == t % 4)) for a in (0, 1) for b in (0, 1) for t in range(9)]
for h in ('H_add', 'H_rem'):
    J += [dv(h, '_b%d_t%d' % (b, t), ['TYP=%d' % t, 'BG=%d' % b], funcs=IO[h], thorough=t > 4) for b in (0, 1) for t in range(9)]
P = dict(level='proof', harness=['P09.c'], native=['H_buf', 'H_fast', 'H_swap', 'H_add', 'H_rem'], jobs=J,
  assumptions=['buffers below 2 GiB', 'float arithmetic is uninterpreted in the verification conditions: the luminance obligation is equality with the weighted sum accumulated in the order of the code; a differently accumulated sum is decided by the native search against a tolerance',
   'signed samples are treated as the unsigned bit patterns they share', 'half samples: native search only (bounded, not counted as proved)'])
