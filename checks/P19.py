def c(h, f): return dict(h=h, engine='cbmc', srcs=['il_manip.cpp', 'il_internal.cpp', 'il_error.cpp', 'il_alloc.cpp', 'il_states.cpp'], unwind=13, funcs=f)
P = dict(level='proof', harness=['P19.c'], native=['H_h2f', 'H_roundtrip', 'H_f2h', 'H_order', 'H_near'],
  jobs=[c('H_h2f', ['ilHalfToFloat']), c('H_roundtrip', ['ilHalfToFloat', 'ilFloatToHalf']), c('H_f2h', ['ilFloatToHalf', 'ilFloatToHalfOverflow']), c('H_order', ['ilFloatToHalf'])], native_secs=4,
  assumptions=['the renormalisation loop runs at most 10 times and the overflow loop 10 times: unwound with unwinding assertions, so complete'])
