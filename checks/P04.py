from common import *
S = ['il_devil.cpp', 'il_internal.cpp', 'il_alloc.cpp', 'il_error.cpp', 'il_utility.cpp', 'il_states.cpp']
NM = ['ilActiveImage', 'ilActiveFace', 'ilActiveLayer', 'ilActiveMipmap']
def c(h, case='', defs=(), **k): return dict(dict(h=h, engine='cbmc', srcs=S, case=case, defs=list(defs), unwind=6, timeout=300, level='bounded', bound='chains of at most 3 sub-images', replay='H_walk',
    subst=[('il_stack.cpp', r'#define I_STACK_INCREMENT 1024', '#define I_STACK_INCREMENT 8')]), **k)
P = dict(level='model_checking', harness=['P04.c'], native=['H_walk', 'H_make', 'H_reg'],
  jobs=[c('H_select', '_%d' % i, ['CH_=%d' % i], funcs=[NM[i], 'iGetIntegervImage', 'iGetActiveNum', 'iGetBaseImage']) for i in range(4)]
   + [c('H_sub', '_%d%d' % (s, i), ['CH_=%d' % i, 'SUB_=%d' % s], funcs=[NM[i], 'iGetIntegervImage'], thorough=(s != (i + 1) % 4)) for i in range(4) for s in range(4)]
   + [c('H_none', '_%d' % i, ['CH_=%d' % i], funcs=[NM[i]], thorough=i > 0) for i in range(4)]
   + [c('H_create', '_%d' % i, ['CH_=%d' % i], funcs=['ilCreateSubImage'], malloc_fail=True, unwindset=['ilCloseImage:5'], replay='H_make') for i in (0, 2, 3)],
  assumptions=['bounded: each of the four chains has at most 3 sub-images; every 32-bit selector'],
  note='every selector on every image with at most 3 frames, faces, layers and mipmaps (CBMC, complete within that bound); bounded in the chain length, not a proof for longer chains')
