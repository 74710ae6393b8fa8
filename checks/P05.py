P = dict(level='proof', harness=['P05.c'], native=['H_one_more', 'H_interleave'],
  jobs=[dict(h='H_one_more', thorough=True, engine='cbmc', srcs=['il_error.cpp'], unwind=40, funcs=['ilSetError', 'ilGetError']),
        dict(h='H_step_set', engine='cbmc', srcs=['il_error.cpp'], unwind=40, funcs=['ilSetError'], replay='H_one_more'),
        dict(h='H_step_get', engine='cbmc', srcs=['il_error.cpp'], unwind=40, funcs=['ilGetError'], replay='H_interleave'),
        dict(h='H_initial', engine='cbmc', srcs=['il_error.cpp'], unwind=40, funcs=['ilGetError'], replay='H_interleave')],
  assumptions=['queue states are those reachable by draining and recording errors; IL_NO_ERROR itself is never recorded'])
