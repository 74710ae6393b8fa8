from common import *
S = ['il_register.cpp', 'il_devil.cpp', 'il_internal.cpp', 'il_alloc.cpp', 'il_error.cpp', 'il_utility.cpp', 'il_states.cpp', 'il_stack.cpp']
N = ['Load', 'Save']
def c(h, k, funcs, **o): return dict(dict(h=h, engine='cbmc', srcs=S, case='_' + N[k], defs=['KIND=%d' % k], unwind=10, timeout=300, level='bounded', bound='2 registered extensions of 3 characters, 3 of 2', replay='H_hist', malloc_fail=True, funcs=funcs), **o)
def reg(k, n): j = c('H_register', k, ['ilRegister' + N[k], 'ilStrDup', 'iStrCmp'], cost=50); j['case'] += '_n%d' % n; j['defs'].append('NN=%d' % n); j['defs'] += ['XL=2'] * (n == 3); return j
J = [reg(k, n) for k in (0, 1) for n in range(4)] + [c('H_remove', k, ['ilRemove' + N[k]]) for k in (0, 1)] + [c('H_use', k, ['iRegister' + N[k], 'iGetExtension']) for k in (0, 1)]
P = dict(level='model_checking', harness=['P22.c'], native=['H_hist'], jobs=J,
  assumptions=['bounded: at most 3 extensions of at most 3 (with three of them: 2) ASCII characters are registered; one operation from an arbitrary state, histories by induction', 'strcasecmp by its definition for ASCII', 'handlers record that they are called and touch nothing else', 'the way from ilLoad and ilSave to the handlers: native search over histories (bounded)'],
  note='one-step induction over the map operations from every list of at most 3 extensions (CBMC); bounded in the number and length of extensions, not a proof for more')
