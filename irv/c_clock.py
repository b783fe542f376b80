"""Contracts of the clock functions (libcperciva/util/monoclock.c): the readings behind the CPU-time limit."""
from .tasks import *
from .views import *
from .fp import FP, dbl
from .env import errno_obj
from . import env
K64 = lambda v: const(v, 64)
C32 = lambda v: const(v, 32)
Z32 = C32(0)
REALTIME, MONOTONIC, CPUTIME = 0, 1, 2
EINVAL, ENOSYS = 22, 38

@task('monoclock', 'C10', 'C17')
def t_clock(c):
    """monoclock_get, monoclock_getres, monoclock_get_cputime: the reading of the right clock, -1 exactly when no clock can be read"""
    for name, call, chain in (('monoclock_get', 'clock_gettime', (MONOTONIC, REALTIME)), ('monoclock_getres', 'clock_getres', (MONOTONIC, REALTIME)),
                              ('monoclock_get_cputime', 'clock_gettime', (CPUTIME, MONOTONIC, REALTIME))):
        ex = c.ex(['libcperciva/util/monoclock.c']); ex.fp = FP(); st = State(); e = errno_obj(ex, st)
        f = next((f for m in ex.modules for k, f in m.funcs.items() if k.lstrip('@') in (name, 'libcperciva_' + name) and getattr(f, 'blocks', None)), None)
        if f is None: raise Unsupported('no function ' + name)
        out = ex.new_obj(st, 'result', 16, 'arg', 8); st.assume(ne(out.addr, K64(0)))
        def ck(which):
            def g(ex, s, a):
                s2 = s.clone(); v = fresh('errno', 32); env.set_errno(ex, s2, v); s2.event('noclock', which, a[0], v)
                sec, ns = fresh('sec', 64), fresh('nsec', 64)
                s.assume(ult(sec, K64(1 << 62))); s.assume(ult(ns, K64(10 ** 9)))
                ex.store(s, a[1], sec); ex.store(s, add(a[1], K64(8)), ns)
                s.event('clock', which, a[0], sec, ns)
                return [(s, Z32), (s2, C32(0xffffffff))]
            return g
        for k in ('clock_gettime', 'clock_getres'): ex.externals[k] = ck(k)
        def warn(ex, s, a): env.set_errno(ex, s)
        ex.externals.update(libcperciva_warn=warn, libcperciva_warnx=warn)
        outs = ex.run_function(st, f, [out.addr]); c.covered(outs, 1 + len(chain))
        good = 0
        for s in outs:
            ev = [x for x in s.trace if x[0] in ('clock', 'noclock')]
            c.lemma('C10: %s asks the clocks in the documented order' % name, all(x[1] == call and x[2].op == 'c' and x[2].v == w for x, w in zip(ev, chain)) and 1 <= len(ev) <= len(chain), str(ev), name)
            soft = lambda v: Or(eq(v, C32(ENOSYS)), eq(v, C32(EINVAL)))
            for x in ev[:-1]: ex.oblige(s.clone(), soft(x[3]), 'C10: %s falls back only when the clock is not supported' % name)
            if ev[-1][0] == 'noclock':
                ex.oblige(s.clone(), eq(s.ret, C32(0xffffffff)), 'C10: %s fails when no clock can be read' % name)
                if len(ev) < len(chain): ex.oblige(s.clone(), Not(soft(ev[-1][3])), 'C10: %s fails only when no clock can be read' % name)
                continue
            good += 1
            sec, ns = ev[-1][3:]
            ex.oblige(s.clone(), eq(s.ret, Z32), 'C10: %s succeeds when a clock was read' % name)
            if name == 'monoclock_getres':
                want = ex.fp.op(ex, s, 'fadd', ex.fp.cast(ex, s, 'sitofp', sec, 64), ex.fp.op(ex, s, 'fmul', ex.fp.cast(ex, s, 'sitofp', ns, 64), dbl(0.000000001)))
                ex.oblige(s.clone(), eq(ex.load(s, out.addr, 8), want), 'C10: %s delivers the resolution of the clock in seconds' % name)
            else:
                ex.oblige(s.clone(), eq(ex.load(s, out.addr, 8), sec), 'C10: %s delivers the seconds of the clock' % name)
                us = ex.load(s, add(out.addr, K64(8)), 8)
                ex.oblige(s.clone(), eq(us, tm.udiv(ns, K64(1000))), 'C10: %s delivers the microseconds of the clock, rounded down' % name)
        c.lemma('vacuity guard: %s reads each clock' % name, good >= len(chain), str(good))
