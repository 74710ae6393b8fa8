from common import *
S = ['il_states.cpp', 'il_utility.cpp', 'il_stack.cpp', 'il_error.cpp', 'il_alloc.cpp', 'il_internal.cpp']
P = dict(level='proof', harness=['P16.c'], native=['H_push', 'H_full', 'H_empty', 'H_frame', 'H_nest'],
  jobs=levels('H_push', S, ['ilPushAttrib', 'ilPopAttrib', 'ilDefaultStates'], hi=30) + levels('H_full', S, ['ilPushAttrib'], lo=31) + levels('H_empty', S, ['ilPopAttrib'], hi=0)
   + [dict(h='H_frame', engine='cbmc', srcs=S, unwind=36, cost=30, timeout=400, case='_l%do%d' % (l, o), defs=['LEVEL=%d' % l, 'OP=%d' % o, 'ANY_STRINGS=0'], thorough=l != 1,
        funcs=[['ilSetInteger'], ['ilEnable'], ['ilDisable'], ['ilOriginFunc', 'ilFormatFunc', 'ilTypeFunc', 'ilCompressFunc'], ['ilHint'], ['ilSetString', 'iSetString'], ['ilPushAttrib']][o]) for l in (1, 2, 9, 17, 31) for o in range(7)],
  assumptions=['strdup succeeds', 'string settings of at most one character in the proof of ilPushAttrib (copied whole by strdup)', 'one push is proved from an arbitrary level; nesting follows by induction from H_push and H_frame (H_frame: the level below the current one is untouched by every setter; proved at level 1 in the quick tier, at five levels in the thorough tier)', 'levels are split into cases: the quick tier proves four of them, the thorough tier all'])
