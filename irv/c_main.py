"""Contracts for the command-line tool: main.c with parsenum.h (C15; C08, C11, C17, C18)."""
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero, set_errno, cstring
from . import env, c_stdio
from .c_aes import live_heap
from .fp import dbl, undbl
from .c_scryptenc import x_fprintf

MAIN = 'main.c'
K64 = lambda v: const(v, 64)
C32 = lambda v: const(v, 32)
Z8 = const(0, 8)

# ------------------------------------------------------------------ IEEE 754 binary64 comparisons, exact on bit patterns
EXPM, ABSM = 0x7ff0000000000000, (1 << 63) - 1
def isnan(t): return ult(K64(EXPM), tm.band(t, K64(ABSM)))
def iszero(t): return eq(tm.band(t, K64(ABSM)), Z64)
def fkey(t): return ite(tm.signbit(t), tm.bnot(t), tm.bor(t, K64(1 << 63)))
def flt(a, b): return And(Not(isnan(a)), Not(isnan(b)), Not(And(iszero(a), iszero(b))), ult(fkey(a), fkey(b)))
def feq(a, b): return And(Not(isnan(a)), Not(isnan(b)), Or(eq(a, b), And(iszero(a), iszero(b))))
def fle(a, b): return Or(flt(a, b), feq(a, b))
class IEEE:
    """comparisons are exact; arithmetic only on constants, conversions of variables opaque"""
    pos = set()
    def op(self, ex, st, op, *a):
        if all(x.op == 'c' for x in a):
            v = [undbl(x) for x in a]
            if op == 'fneg': return dbl(-v[0])
            if op in ('fadd', 'fsub', 'fmul') or op == 'fdiv' and v[1] != 0: return dbl({'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y}[op](*v))
        return tm.uf(op, a[0].w, *a)
    def cmp(self, ex, st, pr, a, b):
        un = Or(isnan(a), isnan(b))
        if pr == 'uno': return un
        if pr == 'ord': return Not(un)
        r = {'lt': lambda: flt(a, b), 'gt': lambda: flt(b, a), 'le': lambda: fle(a, b), 'ge': lambda: fle(b, a), 'eq': lambda: feq(a, b), 'ne': lambda: And(Not(un), Not(feq(a, b)))}[pr[1:]]()
        return Or(un, r) if pr[0] == 'u' else r
    def cast(self, ex, st, op, a, w):
        if op == 'uitofp' and a.op == 'c': return dbl(a.v)
        if op == 'sitofp' and a.op == 'c': return dbl(tm.tosigned(a.v, a.w))
        if op in ('fptoui', 'fptosi') and a.op == 'c' and abs(undbl(a)) < 2.0 ** (w - 1): return const(int(undbl(a)) & ((1 << w) - 1), w)
        return tm.uf((op, w), w, a)

# ------------------------------------------------------------------ the meaning of option arguments (p: address of the argument string)
A = lambda p: tm.uf('mem', 8, var('ARGS', 64), p)      # character at an address inside the argument strings
def U(p): return tm.uf('strtoumax', 64, p), tm.uf('strtoumax.len', 64, p), tm.uf('strtoumax.err', 1, p)
def S(p): return tm.uf('strtoimax', 64, p), tm.uf('strtoimax.len', 64, p), tm.uf('strtoimax.err', 1, p)
def D(p): return tm.uf('strtod', 64, p), tm.uf('strtod.len', 64, p), tm.uf('strtod.err', 1, p)
def SPN(p): return tm.uf('strspn', 64, p)
def neg(p): return eq(A(add(p, SPN(p))), const(45, 8))
def whole(p, v): return And(ne(v[1], Z64), eq(A(add(p, v[1])), Z8), Not(v[2]))
def legal_u(lo, hi):
    return lambda p: And(whole(p, U(p)), ule(K64(lo), U(p)[0]), ule(U(p)[0], K64(hi)), Or(eq(U(p)[0], Z64), Not(neg(p))))
def legal_s(lo, hi):
    return lambda p: And(whole(p, S(p)), tm.sle(K64(lo), S(p)[0]), tm.sle(S(p)[0], K64(hi)))
def legal_d(lo, hi):
    return lambda p: And(whole(p, D(p)), fle(dbl(lo), D(p)[0]), fle(D(p)[0], dbl(hi)))
HS = lambda p: (tm.uf('humansize.ok', 1, p), tm.uf('humansize', 64, p))
PP = lambda p: (tm.uf('pp.ok', 1, p), tm.uf('pp.method', 32, p), tm.uf('pp.arg', 64, p))
OPTS = ['-f', '--logN', '-M', '-m', '-p', '--passphrase', '-r', '-t', '-v', '-P']
HASARG = {'--logN', '-M', '-m', '-p', '--passphrase', '-r', '-t'}
# command-line ghost object
FOUND, SEEN, ARG, CSIZE = 0, 16, 32, 128
LOGN_U = [False]
def legal(o, p, seen):
    if o == '--logN': return Or(legal_s(10, 40)(p), FALSE) if not LOGN_U[0] else legal_u(10, 40)(p)
    if o == '-r': return legal_u(1, 32)(p)
    if o == '-p': return legal_u(1, 2048)(p)
    if o == '-m': return legal_d(0.0, 0.5)(p)
    if o == '-t': return legal_d(0.0, float('inf'))(p)
    if o == '-M': return HS(p)[0]
    if o == '--passphrase': return And(PP(p)[0], Not(seen('-P')), Not(seen('--passphrase')))
    if o == '-P': return And(Not(seen('-P')), Not(seen('--passphrase')))
    return TRUE
def optval(o, p):
    return {'--logN': lambda: tm.trunc((U if LOGN_U[0] else S)(p)[0], 32), '-r': lambda: tm.trunc(U(p)[0], 32), '-p': lambda: tm.trunc(U(p)[0], 32),
            '-m': lambda: D(p)[0], '-t': lambda: D(p)[0], '-M': lambda: HS(p)[1]}[o]()

def mk_main(mode):
  def t_main(c):
    """exit status 0 only after complete success; options validated; values and defaults passed on unchanged; output opened only after verification"""
    m = build.module(MAIN)
    ex = c.ex([m]); ex.fp = IEEE(); ex.contracts['insecure_memzero'] = c_insecure_memzero
    ex.merge_ifs = False
    ERANGE, = build.consts('#include <errno.h>', ['ERANGE'])
    MV = build.consts('#include "passphrase_entry.h"', ['PASSPHRASE_' + x for x in ('UNSET', 'TTY_STDIN', 'STDIN_ONCE', 'TTY_ONCE', 'ENV', 'FILE')])
    st = State(); errno = env.errno_obj(ex, st)
    LOGN_U[0] = False
    stdin = c_stdio.new_file(ex, st, 'stdin'); stdout = c_stdio.new_file(ex, st, 'stdout', out=True)
    stderr = ex.new_obj(st, 'stderr', 64, 'os', 16)
    for n, o_ in (('@stdin', stdin), ('@stdout', stdout), ('@stderr', stderr)): ex.global_init[n] = (lambda q: lambda ex, s, o: bytes_content(le_bytes(q.addr)))(o_)
    argc = var('argc', 32)
    st.assume(tm.slt(Z64 and C32(0), argc))
    argv = ex.new_obj(st, 'argv', tm.mulc(add(tm.sext(argc, 64), K64(1)), 8), 'arg', 8, content=Content(uf_base('ARGV')), ro=True)
    args = ex.new_obj(st, 'argument strings', K64(1 << 40), 'arg', 1, ro=True)
    st.mem[args] = Content(lambda k, dec=None: A(add(args.addr, k)))
    cmd = ex.new_obj(st, 'command line', CSIZE, 'os', 16)
    ex.store_bytes(st, cmd.addr, [Z8] * CSIZE)
    gi = ex.global_obj(st, m, '@getopt_initialized'); ex.store(st, gi.addr, C32(0))
    cb = lambda s, off, n: s.mem[cmd].read_bytes(K64(off), n, ex.dec(s))
    ix = OPTS.index
    seen = lambda s: lambda o: ne(cb(s, SEEN + ix(o), 1)[0], Z8)
    arg = lambda s, o: le(cb(s, ARG + 8 * ix(o), 8))
    def streq(p, lit): return tm.uf('streq:' + lit, 1, p)
    LITS = ['enc', 'dec', 'info', '--version', '-', '']
    def x_strcmp(ex, s, a):
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            t = cstring(ex, s, q)
            if t is None: continue
            lit = t.decode('latin1')
            if lit not in LITS: LITS.append(lit)
            r = fresh('strcmp', 32); e = streq(p, lit)
            s.assume(eq(eq(r, C32(0)), e))
            for l2 in LITS:
                if l2 != lit: s.assume(Not(And(e, streq(p, l2))))
            return r
        raise Unsupported('strcmp of two variable strings')
    # -- getopt.c
    def pending(s):
        ev = [e for e in s.trace if e[0] in ('opt', 'optdone')]
        return ev[-1] if ev and ev[-1][0] == 'opt' else None
    def seen_before(s, e):
        return lambda o: e[3][ix(o)]
    def legal_now(s, e): return legal(e[1], e[2], seen_before(s, e))
    def x_getopt(ex, s, a):
        reg = dict(s.ghost.get('reg', ()))
        iv = ex.load(s, gi.addr, 4)
        if ex.prove(s, eq(iv, C32(0)))[0]:
            ex.oblige(s.clone(), And(eq(a[0], sub(argc, C32(1))), eq(a[1], add(argv.addr, K64(8)))), 'C15: options are looked for after the mode argument')
            return dummy.addr
        ex.oblige(s.clone(), ne(iv, C32(0)), 'C15: option parsing proceeds only after all options are registered')
        e = pending(s)
        if e is not None:
            if e[1] == '?': ex.fail(s, 'C15: an unknown option or a missing argument ends the program')
            else: ex.oblige(s.clone(), legal_now(s, e), 'C15: an invalid value of %s ends the program' % e[1])
            s.event('optdone')
        outs = []
        fresh_opt(s)
        n = s.clone(); n.event('optend')
        outs.append((n, Z64))
        for (name, (ln, ha)) in sorted(reg.items()):
            if name not in OPTS: continue
            t = s.clone()
            ao = fresh('argoff', 64); t.assume(ult(ao, K64(1 << 30)))
            p = add(args.addr, ao)
            sb = [seen(t)(o) for o in OPTS]
            t.event('opt', name, p, sb)
            ex.store(t, optarg.addr, p if ha else Z64)
            ex.store(t, add(cmd.addr, K64(FOUND)), K64(ln))
            ex.store(t, add(cmd.addr, K64(SEEN + ix(name))), const(1, 8))
            if ha: ex.store(t, add(cmd.addr, K64(ARG + 8 * ix(name))), p)
            outs.append((t, K64(0x5000000 + 64 * ix(name)) if False else optstr.addr))
        for what in ('missing', 'default'):
            t = s.clone(); t.event('opt', '?', Z64, None)
            v = s.ghost.get('missing') if what == 'missing' else None
            if what == 'missing' and v is None: continue
            ex.store(t, optarg.addr, Z64)
            ex.store(t, add(cmd.addr, K64(FOUND)), K64(v if v is not None else s.ghost.get('range', 0) + 1))
            outs.append((t, optstr.addr))
        return outs
    dummy = ex.new_obj(st, '(dummy)', 8, 'os'); optstr = ex.new_obj(st, 'option string', 64, 'os')
    optarg = ex.global_obj(st, m, '@libcperciva_optarg'); optind = ex.global_obj(st, m, '@libcperciva_optind')
    ex.store(st, optarg.addr, Z64); ex.store(st, optind.addr, C32(1))
    def fresh_opt(s):
        i = fresh('optind', 32)
        s.assume(tm.sle(C32(1), i)); s.assume(Or(tm.sle(i, sub(argc, C32(1))), eq(i, C32(1))))
        ex.store(s, optind.addr, i); ex.store(s, optarg.addr, Z64)
        for d in (1, 2):       # argv[0 .. argc-1] are strings
            o8 = add(tm.mulc(tm.sext(i, 64), 8), K64(8 * d))
            s.assume(Or(tm.sle(sub(argc, C32(d)), i), ne(le([tm.uf('mem', 8, var('ARGV', 64), add(o8, K64(j))) for j in range(8)]), Z64)))
    def x_lookup(ex, s, a): return le(cb(s, FOUND, 8))
    def x_reg(ex, s, a):
        nm = cstring(ex, s, a[0]).decode('latin1')
        if a[1].op != 'c' or a[2].op != 'c': raise Unsupported('variable option registration')
        reg = dict(s.ghost.get('reg', ()))
        if 'range' not in s.ghost or a[1].v >= s.ghost['range'] or nm in reg or a[1].v in [v[0] for v in reg.values()]: ex.fail(s, 'C15: options are registered once, inside the range', nm)
        reg[nm] = (a[1].v, a[2].v != 0)
        s.ghost['reg'] = tuple(sorted(reg.items()))
    def x_missing(ex, s, a): s.ghost['missing'] = a[0].v
    def x_range(ex, s, a): s.ghost['range'] = a[0].v; s.ghost.pop('reg', None)
    # -- number parsing
    def mkparse(F, nm):
        def f(ex, s, a):
            r = ex.resolve(s, a[0])
            if r is None or r[0] is not args: raise Unsupported('%s of something that is not an option argument' % nm)
            if len(a) > 2 and not (a[2].op == 'c' and a[2].v in (0, 10)): raise Unsupported('number base')
            if len(a) > 2 and a[2].v != 0: ex.fail(s, 'C15: numbers are read in the documented base')
            v, l, e = F(a[0])
            if nm != 'strtod' and not LOGN_U[0]:
                pe = pending(s)
                if pe is not None and pe[1] == '--logN' and nm == 'strtoumax': LOGN_U[0] = True
            s.assume(ult(l, K64(1 << 30)))
            ex.store(s, a[1], add(a[0], l))
            cur = ex.load(s, errno.addr, 4)
            ex.store(s, errno.addr, ite(e, C32(ERANGE), cur))
            return v
        return f
    def x_strspn(ex, s, a):
        s.assume(ult(SPN(a[0]), K64(1 << 30))); return SPN(a[0])
    def x_hparse(ex, s, a):
        ok, v = HS(a[0]); s2 = s.clone(); s.assume(ok); s2.assume(Not(ok)); set_errno(ex, s2)
        ex.store(s, a[1], v)
        return [(s, C32(0)), (s2, C32(-1))]
    def x_ppparse(ex, s, a):
        ok, mt, pa = PP(a[0]); s2 = s.clone(); s.assume(ok); s2.assume(Not(ok)); set_errno(ex, s2)
        s.assume(Or(*[eq(mt, C32(v)) for v in MV[1:]]))
        ex.store(s, a[1], mt); ex.store(s, a[2], pa)
        return [(s, C32(0)), (s2, C32(-1))]
    # -- streams
    def x_fopen(ex, s, a):
        md = cstring(ex, s, a[1])
        if md is None: raise Unsupported('fopen mode')
        e = ('open', md[:1], a[0])
        s2 = s.clone(); set_errno(ex, s2); s2.event('fail', 'fopen'); 
        if md[:1] != b'r':
            ok = [x for x in s.trace if x[0] == 'prep']
            if not any(x[0] == 'pw' for x in s.trace): ex.fail(s, 'C08: the output file is not created before the passphrase is known')
            if mode == 'dec': ex.oblige(s.clone(), TRUE if ok and ok[-1][1] else FALSE, 'C08: the output file is opened only after the header is verified under the passphrase')
            s2.event('created')
        o = c_stdio.new_file(ex, s, 'file%d' % len([x for x in s.trace if x[0] == 'open']), out=md[:1] != b'r')
        s.event(*(e + (o,)))
        return [(s, o.addr), (s2, Z64)]
    def x_fclose(ex, s, a):
        f = c_stdio.file_of(ex, s, a[0], 'fclose')
        s.status[f] = 'dead'; s2 = s.clone(); set_errno(ex, s2); s2.event('cfail', f); s.event('closed', f)
        return [(s, C32(0)), (s2, C32(-1))]
    def x_fflush(ex, s, a):
        s2 = s.clone(); s2.event('fail', 'fflush'); set_errno(ex, s2); s.event('flushed', a[0])
        return [(s, C32(0)), (s2, C32(-1))]
    def x_print(ex, s, a):
        r = ex.resolve(s, a[0])
        if r is not None and r[0] is stdout: s.event('printed', fr_ := fresh('printed', 32)); return fr_
        return x_fprintf(ex, s, a)
    # -- libraries
    def x_pw(ex, s, a):
        s.event('pwargs', tuple(a[1:]))
        s2 = s.clone(); s2.event('fail', 'passphrase'); set_errno(ex, s2)
        n = fresh('pwlen', 64); s.assume(ult(n, K64(1 << 60)))
        v = fresh('pw', 64)
        o = ex.new_obj(s, 'passphrase', add(n, K64(1)), 'heap', 16, content=Content(lambda k, dec=None: tm.uf('TEXT', 8, v, k)))
        ex.store(s, add(o.addr, n), Z8); o.data['pwlen'] = n
        ex.store(s, a[0], o.addr); s.event('pw', o)
        return [(s, C32(0)), (s2, C32(-1))]
    def x_strlen(ex, s, a):
        r = ex.resolve(s, a[0])
        if r is not None and r[0].data.get('pwlen') is not None and r[1] is Z64 and s.status[r[0]] == 'live': return r[0].data['pwlen']
        if r is not None and r[0] is args: 
            l = tm.uf('strlen', 64, a[0]); s.assume(ult(l, K64(1 << 30))); return l
        raise Unsupported('strlen')
    def pbytes(s, p): return ex.load_bytes(s, p, 40)
    def library(s, what, a, infile, pw, ln, params, verb, force):
        o = [e[1] for e in s.trace if e[0] == 'pw']
        ex.oblige(s.clone(), And(eq(pw, o[-1].addr), eq(ln, o[-1].data['pwlen'])) if o else FALSE, 'C15: %s gets the passphrase that was entered' % what)
        bs = pbytes(s, params)
        sn = seen(s)
        g = lambda a_, b_: le(bs[a_:b_])
        dv = dict(frac=0.125 if mode == 'enc' else 0.5, time=5.0 if mode == 'enc' else 300.0)
        want = [('-M', 'maximum memory', g(0, 8), Z64), ('-m', 'memory fraction', g(8, 16), dbl(dv['frac'])), ('-t', 'time limit', g(16, 24), dbl(dv['time'])),
                ('--logN', 'logN', g(24, 28), C32(0)), ('-r', 'r', g(28, 32), C32(0)), ('-p', 'p', g(32, 36), C32(0))]
        for o_, nm, v, d in want:
            ex.oblige(s.clone(), eq(v, ite(sn(o_), optval(o_, arg(s, o_)), d)), 'C15: the %s given with %s, or its documented default, reaches the library unchanged' % (nm, o_))
            if o_ in HASARG:
                ex.oblige(s.clone(), tm.Implies(sn(o_), legal(o_, arg(s, o_), lambda x: FALSE)), 'C15: only a valid %s reaches the library' % nm)
        ex.oblige(s.clone(), eq(ne(verb, C32(0)), sn('-v')), 'C15: verbose output exactly with -v')
        ex.oblige(s.clone(), eq(ne(force, C32(0)), sn('-f')), 'C15: resource limits are overridden exactly with -f')
        L, R, P = g(24, 28), g(28, 32), g(32, 36)
        z = lambda t: eq(t, C32(0))
        ex.oblige(s.clone(), And(eq(z(L), z(R)), eq(z(L), z(P))), 'C15: explicit parameters are used all together or not at all')
        if mode == 'dec': ex.oblige(s.clone(), z(L), 'C15: explicit parameters are refused when decrypting')
        ex.oblige(s.clone(), flt(dbl(0), g(8, 16)), 'C10,C15: the memory fraction is positive')
        pa = [e[1] for e in s.trace if e[0] == 'pwargs']
        me = ite(sn('-P'), C32(MV[2]), ite(sn('--passphrase'), PP(arg(s, '--passphrase'))[1], C32(MV[1])))
        if len(pa) == 1:
            ex.oblige(s.clone(), eq(pa[0][0], me), 'C15: the passphrase comes from the source selected')
            ex.oblige(s.clone(), tm.Implies(And(sn('--passphrase'), Not(sn('-P'))), eq(pa[0][1], PP(arg(s, '--passphrase'))[2])), 'C15: the passphrase source gets its argument')
            ex.oblige(s.clone(), eq(eq(pa[0][4], C32(0)), TRUE if mode == 'enc' else FALSE), 'C13,C15: a passphrase is confirmed exactly when encrypting')
        else: ex.fail(s, 'C15: the passphrase is entered once')
        f = c_stdio.file_of(ex, s, infile, what)
        i0 = infile_name(s)
        opened = [e for e in s.trace if e[0] == 'open' and e[3] is f]
        if f is stdin:
            ex.oblige(s.clone(), streq(i0, '-'), 'C15: standard input is used exactly for "-"')
            ex.oblige(s.clone(), ne(pa[0][0], C32(MV[2])) if pa else TRUE, 'C15: passphrase and data are not both read from standard input')
        elif opened: ex.oblige(s.clone(), And(eq(opened[0][2], i0), Not(streq(i0, '-'))), 'C15: the input file is the one named')
        else: ex.fail(s, 'C15: the input is the file named')
    def outfile(s, p, what):
        f = c_stdio.file_of(ex, s, p, what)
        opened = [e for e in s.trace if e[0] == 'open' and e[3] is f]
        two = eq(nargs(s), C32(2))
        if f is stdout: ex.oblige(s.clone(), Not(two), 'C15: standard output is used exactly when no output file is named')
        elif opened:
            nm = argn(s, 2)
            ex.oblige(s.clone(), And(two, eq(opened[0][2], nm)), 'C15: the output file is the one named')
        else: ex.fail(s, 'C15: the output is the file named')
    def nargs(s): return sub(sub(argc, C32(1)), ex.load(s, optind.addr, 4))
    def argn(s, d):
        o8 = add(tm.mulc(tm.sext(ex.load(s, optind.addr, 4), 64), 8), K64(8 * d))
        return le([tm.uf('mem', 8, var('ARGV', 64), add(o8, K64(j))) for j in range(8)])
    def infile_name(s): return argn(s, 1)
    def nonzero(s):
        rc = fresh('rc', 32); s.assume(ne(rc, C32(0))); return rc
    def x_prep(ex, s, a):
        library(s, 'decryption', a, a[0], a[1], a[2], a[3], a[4], a[5])
        s2 = s.clone(); s2.event('prep', False); s2.event('fail', 'prep')
        o = ex.new_obj(s, 'cookie', 64, 'heap', 16); ex.store(s, a[6], o.addr); s.event('prep', True, o)
        return [(s, C32(0)), (s2, nonzero(s2))]
    def x_copy(ex, s, a):
        pr = [e for e in s.trace if e[0] == 'prep' and e[1]]
        ex.oblige(s.clone(), eq(a[0], pr[-1][2].addr) if pr and s.status[pr[-1][2]] == 'live' else FALSE, 'C08: output is produced only after the header is verified')
        outfile(s, a[1], 'decryption')
        s2 = s.clone(); s2.event('fail', 'copy'); s.event('complete', a[1])
        return [(s, C32(0)), (s2, nonzero(s2))]
    def x_free_cookie(ex, s, a):
        if a[0].op == 'c' and a[0].v == 0: return None
        env.m_free(ex, s, a)
    def x_enc(ex, s, a):
        library(s, 'encryption', a, a[0], a[2], a[3], a[4], a[5], a[6])
        outfile(s, a[1], 'encryption')
        s2 = s.clone(); s2.event('fail', 'enc'); s.event('complete', a[1])
        return [(s, C32(0)), (s2, nonzero(s2))]
    def x_info(ex, s, a):
        f = c_stdio.file_of(ex, s, a[0], 'info'); i0 = infile_name(s)
        opened = [e for e in s.trace if e[0] == 'open' and e[3] is f]
        ex.oblige(s.clone(), streq(i0, '-') if f is stdin else And(eq(opened[0][2], i0), Not(streq(i0, '-'))) if opened else FALSE, 'C15: the input file is the one named')
        s2 = s.clone(); s2.event('fail', 'info'); s.event('complete', stdout.addr)
        return [(s, C32(0)), (s2, nonzero(s2))]
    def on_free(ex, s, o):
        if o.data.get('pwlen') is None: return
        k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, o.data['pwlen']))
        if not ex.feasible(s2, ult(k, o.data['pwlen'])): return
        ex.oblige(s2, eq(s2.mem[o].read_bytes(k, 1, ex.dec(s2))[0], Z8), 'erase: the passphrase is overwritten before it is released')
    ex.on_free = list(ex.on_free) + [on_free]
    ex.externals.update({'strcmp': x_strcmp, 'strtoumax': mkparse(U, 'strtoumax'), 'strtoimax': mkparse(S, 'strtoimax'), 'strtod': mkparse(D, 'strtod'), 'strspn': x_strspn,
        'fopen': x_fopen, 'fopen64': x_fopen, 'fclose': x_fclose, 'fflush': x_fflush, 'fprintf': x_print, 'strlen': x_strlen})
    ex.contracts.update({'libcperciva_getopt': x_getopt, 'getopt_lookup': x_lookup, 'getopt_register_opt': x_reg, 'getopt_register_missing': x_missing, 'getopt_setrange': x_range,
        'humansize_parse': x_hparse, 'passphrase_entry_parse': x_ppparse, 'passphrase_entry_readpass': x_pw, 'scryptdec_file_prep': x_prep, 'scryptdec_file_copy': x_copy,
        'scryptdec_file_cookie_free': x_free_cookie, 'scryptenc_file': x_enc, 'scryptdec_file_printparams': x_info,
        'scryptenc_print_error': lambda ex, s, a: (set_errno(ex, s), s.event('errmsg', a[0]), None)[2], 'warnp_setprogname': lambda ex, s, a: None})
    def sp(ex, s, header, blocks):
        f = s.frames[-1].fn
        if not any(i.op == 'call' and i.x[0] == ('glb', '@libcperciva_getopt') for b in blocks for i in f.blocks[b]): return 'unroll'
        snap = s
        al = [(o, k, w) for o in s.frames[-1].allocas if o.size.op == 'c' and o.size.v <= 64 for w in (4, 8) for k in range(0, o.size.v - w + 1, w)]
        def val(s, o_, w, cur, init):
            sn = seen(s)
            if o_ in ('-f', '-v'): return eq(ne(cur, const(0, cur.w)), sn(o_)) if w == 4 else None
            if o_ == 'pp': return eq(cur, ite(sn('-P'), C32(MV[2]), ite(sn('--passphrase'), PP(arg(s, '--passphrase'))[1], C32(MV[0])))) if w == 4 else None
            if o_ == 'pa': return tm.Implies(And(sn('--passphrase'), Not(sn('-P'))), eq(cur, PP(arg(s, '--passphrase'))[2])) if w == 8 else None
            v = optval(o_, arg(s, o_))
            return eq(cur, ite(sn(o_), v, init)) if v.w == 8 * w else None
        iv = {}
        def soft(i, vals, s):
            fs = [ne(ex.load(s, gi.addr, 4), C32(0)), tm.Implies(seen(s)('--passphrase'), PP(arg(s, '--passphrase'))[0])]
            fs += [tm.Implies(seen(s)(o_), legal(o_, arg(s, o_), lambda x: FALSE)) for o_ in OPTS if o_ in HASARG]
            fs += [tm.Implies(seen(s)('--passphrase'), Or(*[eq(PP(arg(s, '--passphrase'))[1], C32(v)) for v in MV[1:]])), Not(And(seen(s)('-P'), seen(s)('--passphrase')))]
            kinds = ['-f', '-v', 'pp', 'pa', '--logN', '-M', '-m', '-p', '-r', '-t']
            for o, k, w in al:
                cur = le(s.mem[o].read_bytes(K64(k), w, ex.dec(s)))
                if (o, k, w) not in iv: iv[(o, k, w)] = cur
                for o_ in kinds:
                    g = val(s, o_, w, cur, iv[(o, k, w)]); fs.append(g if g is not None else FALSE)
            for r in sorted(vals):
                cur = vals[r]
                if r not in iv: iv[r] = cur
                for o_ in kinds:
                    g = val(s, o_, cur.w // 8, cur, iv[r]) if cur.w in (32, 64) else None; fs.append(g if g is not None else FALSE)
            return fs
        inv = Inv(None, 'options parsed so far', soft=soft)
        inv.peel = 1
        return inv
    ex.loop_specs['*'] = sp
    # the mode argument
    a1 = ex.load(st, add(argv.addr, K64(8)), 8)
    if mode == 'other': st.assume(Or(tm.slt(argc, C32(2)), Not(Or(*[streq(a1, x) for x in ('enc', 'dec', 'info')]))))
    else:
        st.assume(tm.sle(C32(2), argc)); st.assume(streq(a1, mode))
    outs = ex.run_function(st, m.funcs['@main'], [argc, argv.addr])
    c.covered(outs, 3 if mode == 'other' else 12)
    ok = 0
    for s in outs:
        if s.done is not None and s.done not in ('exit', 'ret'): continue
        code = s.ret
        fl = [e for e in s.trace if e[0] == 'fail']
        comp = [e for e in s.trace if e[0] == 'complete']
        z = eq(tm.band(code, C32(255)), C32(0))
        cf = [e[1] for e in s.trace if e[0] == 'cfail']
        if not ex.prove(s, Not(z))[0]:
            g = s.clone(); g.assume(z)
            if not ex.feasible(g, z): continue
            if mode == 'other':
                pr = [e[1] for e in s.trace if e[0] == 'printed']
                fin = streq(a1, '--version') if pr and not fl and [e for e in s.trace if e[0] == 'flushed'] else FALSE
                ex.oblige(g.clone(), And(fin, *[tm.sle(C32(0), p) for p in pr]), 'C15: exit status 0 only if the version was printed')
            else:
                if not comp or fl: ex.fail(g, 'C15: exit status 0 only if the operation completed', '%s %s' % (fl, len(comp))); continue
                f = c_stdio.file_of(ex, g, comp[0][1], 'output') if comp[0][1] is stdout.addr else ex.resolve(g, comp[0][1])[0]
                if f is not stdout: c.lemma('C15: exit status 0 only if the output file was closed successfully', [e for e in s.trace if e[0] == 'closed' and e[1] is f] != [], func='main')
            ok += 1
        else:
            e = pending(s)
            cause = bool(fl) or bool([f for f in cf if f.data.get('out') or True])
            if not cause:
                if e is not None:
                    if e[1] != '?': ex.oblige(s.clone(), Not(legal_now(s, e)), 'C15: a valid %s is accepted' % e[1])
                elif mode == 'other': ex.oblige(s.clone(), Not(And(tm.sle(C32(2), argc), streq(a1, '--version'))) if not [x for x in s.trace if x[0] == 'printed'] else Or(*[tm.slt(x[1], C32(0)) for x in s.trace if x[0] == 'printed']), 'C15: --version is accepted')
                else:
                    sn = seen(s); n = nargs(s)
                    z_ = lambda o: eq(ite(sn(o), optval(o, arg(s, o)), C32(0)), C32(0))
                    me = ite(sn('-P'), C32(MV[2]), ite(sn('--passphrase'), PP(arg(s, '--passphrase'))[1], C32(MV[1])))
                    bad = [Not(Or(eq(n, C32(1)), eq(n, C32(2)))), ne(z_('--logN'), z_('-r')) if False else Not(eq(z_('--logN'), z_('-r'))), Not(eq(z_('--logN'), z_('-p'))),
                           And(sn('-m'), iszero(D(arg(s, '-m'))[0])), And(eq(me, C32(MV[2])), streq(infile_name(s) if True else Z64, '-'))]
                    if mode == 'dec': bad.append(Not(z_('--logN')))
                    ex.oblige(s.clone(), Or(*bad), 'C15: the program fails only for a cause')
        ok_heap = [o for o in live_heap(s)]
        ret = s.done != 'exit'
        for o in ok_heap:
            if o.data.get('pwlen') is not None:
                k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, o.data['pwlen']))
                ex.oblige(s2, eq(s2.mem[o].read_bytes(k, 1, ex.dec(s2))[0], Z8), 'erase: the passphrase is overwritten before the program ends')
        c.lemma('resource: main releases its blocks before it ends', not ok_heap, str(ok_heap), 'main')
        for e in s.trace:
            if e[0] == 'open': c.lemma('C18: main closes the files it opened', s.status[e[3]] == 'dead', func='main')
    c.lemma('vacuity guard: success reached', ok >= 1, str(ok))
    if mode != 'other': 
        regs = set(x for s in outs for x in (s.ghost.get('reg', ()),) if x)
        c.lemma('C15: exactly the documented options are registered', all({n: v[1] for n, v in r} == {o: o in HASARG for o in OPTS} for r in regs) and regs, str(regs), 'main')
  return t_main
for _m in ('enc', 'dec', 'info', 'other'): task('main.' + _m, 'C15', 'C08', 'C11', 'C13', 'C17', 'C18', weight=2)(mk_main(_m))
