"""Parameter limits, display and info mode, usable memory, CPU speed (lib/scryptenc/*, lib-platform/util/memlimit.c)."""
from .c_scryptenc import *
from . import c_scryptenc as S
from .fp import real_prove

@task('scryptenc.limits', 'C10')
def t_limits(c):
    """lemma: the memory test on shifted limits is  memlimit < 128*N*r  over the integers, for every log2 N"""
    ex = c.ex([])
    L, r = var('L', 64), var('r', 32)
    for n in range(1, 64):
        big = ult(tm.zext(L, 160), tm.shl(tm.mulc(tm.zext(r, 160), 128), const(n, 160)))
        st = State()
        ex.oblige(st, eq(toobig(L, const(n, 32), r), big), 'C10: memory test is memlimit < 128*N*r (log2 N = %d)' % n)

# ------------------------------------------------------------------ display
def shown(s):
    """everything printed: text with one marker per conversion, and the (conversion, argument) list"""
    txt, args = b'', []
    for e in s.trace:
        if e[0] != 'printf': continue
        n = 0
        for q in env.fmt_specs(e[1]):
            if isinstance(q, bytes): txt += q
            else: txt += b'\x01'; args.append((q, e[2][n])); n += 1
    return txt, args
def sat_mem(logN, r):
    """128*N*r, saturating at 2^64-1"""
    big = tm.shl(tm.mulc(tm.zext(r, 128), 128), tm.zext(logN, 128))
    return ite(ult(const((1 << 64) - 1, 128), big), const((1 << 64) - 1, 64), tm.trunc(big, 64))

def check_shown(c, x, s, logN, r, p, fn):
    ex = x.ex
    txt, args = shown(s)
    import re
    pos = [i for i, ch in enumerate(txt) if ch == 1]
    def arg_after(lit):
        i = txt.find(lit)
        if i < 0 or i + len(lit) not in pos: return None
        return args[pos.index(i + len(lit))]
    for lit, want, w in ((b'N = ', tm.shl(const(1, 64), tm.zext(logN, 64)), 64), (b'r = ', r, 32), (b'p = ', p, 32)):
        a = arg_after(lit)
        if a is None or a[0][1] != 'u' or a[1].w != w: c.lemma('C16: %s prints %s as an unsigned number' % (fn, lit.decode()), False, repr(txt), fn); continue
        ex.oblige(s.clone(), eq(a[1], want), 'C16: %s prints the exact value of %s' % (fn, lit.decode()[0]))
    a = arg_after(b'at least ')
    hs = {e[1]: e[2] for e in s.trace if e[0] == 'humansize'}
    failed = any(e[0] == 'fail' and e[1] == 'humansize' for e in s.trace)
    if a is None or a[0][1] != 's' or (a[1] not in hs and not failed): c.lemma('C16: %s prints the memory needed' % fn, False, repr((txt, a)), fn)
    elif a[1] in hs:
        for n in range(1, 64):
            s2 = s.clone(); s2.assume(eq(logN, C32(n)))
            if not ex.feasible(s2, TRUE): continue
            ex.oblige(s2, eq(tm.subst(hs[a[1]], {logN: C32(n)}) if logN.op == 'v' else hs[a[1]], sat_mem(C32(n), r)), 'C16: %s prints the memory needed, 128*N*r (saturating)' % fn)
    return hs, arg_after

@task('scryptenc.display', 'C16', 'C17', 'C18', weight=2)
def t_display(c):
    """display_params prints exactly N, r, p and the memory needed for every valid parameter set; no undefined arithmetic; strings released"""
    x = prep(c, explicit=True); ex, st, m = x.ex, x.st, x.m
    f = m.funcs.get('@display_params')
    if f is None or len(f.params) != 6:
        c.note('display_params has no separate body of the expected shape: verified in place within its callers'); c.lemma('no separate display_params', True); return
    ex.contracts.pop('display_params', None)
    logN, r, p = x.logN, x.r, x.p
    st.assume(valid_params(logN, r, p))
    L, opps = var('memlimit', 64), var('opps', 64)
    ex.fp.pos.add(opps)
    outs = ex.run_function(st, f, [logN, r, p, L, opps, x.maxtime])
    c.covered(outs, 3)
    for s in outs:
        c.lemma('resource: display_params releases everything it acquired', not live_heap(s), str(live_heap(s)), 'display_params')
        q = check_shown(c, x, s, logN, r, p, 'display_params')
        if q:
            hs, aa = q
            i = [e for e in s.trace if e[0] == 'printf' and b'available' in e[1]]
            for e in i: ex.oblige(s.clone(), eq(hs.get(e[2][-1], fresh('none', 64)), L), 'C16: display_params prints the memory available')

@task('scryptenc.printparams', 'C16', 'C17', 'C18')
def t_printparams(c):
    """scryptdec_file_printparams: prints the values of the header, or rejects truncated / wrong magic / wrong version / invalid parameters"""
    x = prep(c, infile=True); ex, st, m = x.ex, x.st, x.m
    f = m.funcs.get('@display_params')
    sep = f is not None and len(f.params) == 6
    outs = ex.run_function(st, m.funcs['@scryptdec_file_printparams'], [x.inf.addr])
    c.covered(outs, 6)
    ok = 0
    inp = uf_base('INPUT')
    for s in outs:
        c.lemma('resource: scryptdec_file_printparams releases everything it acquired', not live_heap(s), str(live_heap(s)), 'scryptdec_file_printparams')
        d = dec_conditions(x, s, inp, x.total)
        rd = ne(fld(ex, s, x.inf, c_stdio.ERR, 1), const(0, 8))
        e = ite(Or(ult(x.total, const(7, 64)), Not(d.magic)), C32(EINVAL), ite(Not(d.version), C32(EVERSION),
            ite(ult(x.total, const(96, 64)), C32(EINVAL), ite(Not(d.valid), C32(EINVAL), C32(0)))))
        ex.oblige(s.clone(), ite(rd, Or(eq(s.ret, C32(ERDFILE)), And(eq(s.ret, e), ne(e, C32(0)))), eq(s.ret, e)), 'C15,C16: scryptdec_file_printparams returns the code of the first defect of the header, 0 exactly for a well-formed one')
        s2 = s.clone(); s2.assume(eq(s.ret, C32(0)))
        if not ex.feasible(s2, eq(s.ret, C32(0))):
            c.lemma('C16: nothing is displayed for a rejected header', not any(q[0] in ('printf', 'display') for q in s.trace), str(s.trace), 'scryptdec_file_printparams'); continue
        ok += 1
        if sep:
            ds = [q for q in s2.trace if q[0] == 'display']
            c.lemma('C16: scryptdec_file_printparams displays the parameters once', len(ds) == 1, str(ds), 'scryptdec_file_printparams')
            if len(ds) == 1: ex.oblige(s2, And(eq(ds[0][1], d.logN), eq(ds[0][2], d.r), eq(ds[0][3], d.p)), 'C16: scryptdec_file_printparams displays the values of the header')
        else: check_shown(c, x, s2, d.logN, d.r, d.p, 'scryptdec_file_printparams')
    c.lemma('vacuity guard: a header is displayed', ok > 0)

# ------------------------------------------------------------------ usable memory
@task('memlimit.memtouse', 'C10', 'C17')
def t_memtouse(c):
    """memtouse: never above maxmem, nor above the fraction of any limit the system reports, except for the 1 MiB floor"""
    m = build.module('lib-platform/util/memlimit.c')
    ex = c.ex([m]); ex.fp = FP()
    ex.prove_hooks = tuple(ex.prove_hooks) + (real_hook,)
    st = State(); env.errno_obj(ex, st)
    out = ex.new_obj(st, 'memlimit', 8, 'arg', 8)
    maxmem, frac = var('maxmem', 64), var('maxmemfrac', 64)
    st.assume(fless(dbl(0), frac)); st.assume(Not(fless(dbl(1), frac)))
    U = const((1 << 64) - 1, 64)
    def failing(name, ok):
        def f(ex, st, a):
            s2 = st.clone(); set_errno(ex, s2); s2.event('fail', name)
            ok(ex, st, a)
            return [(st, C32(0)), (s2, C32(-1 & 0xffffffff))]
        return f
    def sysinfo(ex, st, a):
        ex.havoc(st, a[0], const(112, 64), 'sysinfo')
        t, u = fresh('totalram', 64), fresh('memunit', 32)
        # struct sysinfo: totalram at 32, mem_unit at 104
        ex.store(st, add(a[0], const(32, 64)), t); ex.store(st, add(a[0], const(104, 64)), u)
        # the kernel keeps totalram*mem_unit within 64 bits
        st.event('limit', 'sysinfo', tm.mul(t, tm.zext(u, 64)))
    def getrlimit(ex, st, a):
        v = fresh('rlim', 64)
        ex.havoc(st, a[1], const(16, 64), 'rlimit'); ex.store(st, a[1], v)
        st.event('limit', 'rlimit', v)            # RLIM_INFINITY is 2^64-1
    def sysconf(ex, st, a):
        s2 = st.clone(); s2.event('sysconf-1'); set_errno(ex, s2)   # -1 with errno unchanged (no limit) or set
        s3 = st.clone(); s3.event('sysconf-1')
        v = fresh('sysconf', 64); st.assume(Not(tm.signbit(v)))
        st.ghost['sc'] = st.ghost.get('sc', ()) + (v,)
        return [(st, v), (s2, const(-1 & ((1 << 64) - 1), 64)), (s3, const(-1 & ((1 << 64) - 1), 64))]
    ex.externals.update({'sysinfo': failing('sysinfo', sysinfo), 'getrlimit': failing('getrlimit', getrlimit), 'getrlimit64': failing('getrlimit', getrlimit), 'sysconf': sysconf})
    outs = ex.run_function(st, m.funcs['@memtouse'], [maxmem, frac, out.addr])
    c.covered(outs, 4)
    good = 0
    MiB = const(1 << 20, 64)
    for s in outs:
        if fails(s):
            ex.oblige(s, eq(s.ret, C32(1)), 'C10: memtouse fails when a limit cannot be obtained (%s)' % fails(s)[0][1]); continue
        s2 = s.clone(); s2.assume(eq(s.ret, C32(0)))
        if not ex.feasible(s2, eq(s.ret, C32(0))):
            c.lemma('C10: memtouse fails only when a limit cannot be obtained', ('sysconf-1',) in s.trace, str(s.trace), 'memtouse'); continue
        good += 1
        L = ex.load(s2, out.addr, 8)
        ex.oblige(s2.clone(), ule(MiB, L), 'C10: memtouse ensures at least 1 MiB')
        s3 = s2.clone(); s3.assume(ult(MiB, L))
        if not ex.feasible(s3, TRUE): continue
        ex.oblige(s3.clone(), Or(eq(maxmem, Z64), ule(L, maxmem)), 'C10: memtouse ensures the maximum given (above the 1 MiB floor)')
        lims = [e[2] for e in s.trace if e[0] == 'limit']
        c.lemma('C10: memtouse consults the system limits', len(set(e[1] for e in s.trace if e[0] == 'limit')) == 2, str(s.trace), 'memtouse')
        if ('sysconf-1',) not in s.trace and len(s.ghost.get('sc', ())) == 2: lims.append(tm.mul(*s.ghost['sc']))
        for M in lims:
            ex.oblige(s3.clone(), Not(fless(fmul(frac, u2f(M)), u2f(L))), 'C10: memtouse ensures at most the given fraction of every system limit (above the 1 MiB floor)')
    c.lemma('vacuity guard: a limit is computed', good > 0)

# ------------------------------------------------------------------ CPU speed
@task('scryptenc.cpuperf', 'C10', 'C15', 'C17')
def t_cpuperf(c):
    """scryptenc_cpuperf: a positive number of operations per second, or the code of the operation that failed"""
    m = build.module('lib/scryptenc/scryptenc_cpuperf.c')
    ex = c.ex([m]); ex.fp = FP()
    ex.prove_hooks = tuple(ex.prove_hooks) + (real_hook,)
    st = State(); env.errno_obj(ex, st)
    out = ex.new_obj(st, 'opps', 8, 'arg', 8)
    ex.store(st, out.addr, fresh('unset', 64))
    def two(name, ok):
        def f(ex, st, a):
            s2 = st.clone(); set_errno(ex, s2); s2.event('fail', name)
            ok(ex, st, a); return [(st, C32(0)), (s2, C32(-1 & 0xffffffff))]
        return f
    def res(ex, st, a):
        v = fresh('resd', 64); st.assume(fless(dbl(0), v)); ex.store(st, a[0], v)
    work = ex.new_obj(st, 'ghost: salsa20/8 cores done', 8, 'arg', 8); ex.store(st, work.addr, var('work before', 64))
    def get(ex, st, a):
        sec, us = fresh('sec', 64), fresh('usec', 64)
        st.assume(ult(sec, const(1 << 62, 64))); st.assume(ult(us, const(1000000, 64)))
        ex.store(st, a[0], sec); ex.store(st, add(a[0], const(8, 64)), us)
        st.event('tick', sec, us, ex.load(st, work.addr, 8))
    def scrypt(ex, st, a):
        if not all(a[i].op == 'c' and a[i].v == 0 for i in (1, 3, 8)): raise Unsupported('benchmark call with data')
        N, r, p = a[4:7]
        s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'crypto_scrypt')
        ex.store(st, work.addr, add(ex.load(st, work.addr, 8), tm.mulc(tm.mul(tm.mul(N, tm.zext(r, 64)), tm.zext(p, 64)), 4)))
        return [(st, C32(0)), (s2, C32(-1 & 0xffffffff))]
    ex.externals.update({'libcperciva_monoclock_getres': two('clock', res), 'libcperciva_monoclock_get': two('clock', get), 'monoclock_getres': two('clock', res), 'monoclock_get': two('clock', get), 'crypto_scrypt': scrypt})
    ex.loop_specs['*'] = lambda ex, st, h, b: Inv(at=lambda n: dict(axioms=[ult(n, const(1 << 50, 64))]), name='timing loop')
    outs = ex.run_function(st, m.funcs['@scryptenc_cpuperf'], [out.addr])
    c.covered(outs, 6)
    c.note('the clock ticks before the benchmark has run 2^50 times')
    good = 0
    for s in outs:
        f = fails(s)
        if f: ex.oblige(s, eq(s.ret, C32(ECLOCK if f[-1][1] == 'clock' else EKEY)), 'C10,C15: scryptenc_cpuperf returns the error code of what failed (%s)' % f[-1][1]); continue
        ex.oblige(s.clone(), eq(s.ret, C32(0)), 'C10,C15: scryptenc_cpuperf succeeds when no operation failed')
        v = ex.load(s, out.addr, 8)
        ex.oblige(s.clone(), fless(dbl(0), v), 'C10: scryptenc_cpuperf ensures a positive speed')
        # the result is (work between two readings of the clock) / (time between them)
        T = [e for e in s.trace if e[0] == 'tick']
        def diff(x, y): return ex.fp.op(ex, s, 'fadd', ex.fp.cast(ex, s, 'sitofp', sub(y[1], x[1]), 64), ex.fp.op(ex, s, 'fmul', ex.fp.cast(ex, s, 'sitofp', sub(y[2], x[2]), 64), dbl(0.000001)))
        def speed(x, y):
            w, d = sub(y[3], x[3]), diff(x, y)
            return And(ne(w, Z64), eq(v, ex.fp.op(ex, s, 'fdiv', u2f(w), d)))
        ex.oblige(s.clone(), Or(*[speed(x, y) for i, x in enumerate(T) for y in T[i + 1:]]), 'C10: the CPU speed is the number of salsa20/8 cores computed between two clock readings divided by the time between them')
        good += 1
    c.lemma('vacuity guard: a speed is computed', good > 0)
