from common import *
S = ['il_states.cpp', 'il_utility.cpp', 'il_stack.cpp', 'il_error.cpp', 'il_alloc.cpp', 'il_internal.cpp']
P = dict(level='proof', harness=['P15.c'], native=['H_integer', 'H_switch', 'H_func', 'H_hint', 'H_string', 'H_clip'],
  jobs=levels('H_integer', S, ['ilSetInteger', 'ilGetInteger', 'ilGetIntegerv', 'ilFormatFunc', 'ilOriginFunc', 'ilTypeFunc', 'iGetIntegervImage'], cost=3) + levels('H_switch', S, ['ilEnable', 'ilDisable', 'ilAble', 'ilIsEnabled', 'ilIsDisabled', 'ilGetBoolean', 'ilGetBooleanv'])
   + levels('H_func', S, ['ilOriginFunc', 'ilFormatFunc', 'ilTypeFunc', 'ilCompressFunc']) + levels('H_hint', S, ['ilHint', 'iGetHint'])
   + levels('H_string', S, ['ilSetString', 'ilGetString'], level='bounded', bound='strings of up to 5 characters') + levels('H_clip', S, ['iClipString'], hi=0, level='bounded', bound='strings of up to 5 characters, limits up to 7', malloc_fail=True),
  assumptions=['strdup succeeds', 'the 32 levels of the state stack are split into cases: the quick tier proves levels 0, 1, 17 and 31, the thorough tier all 32'])
