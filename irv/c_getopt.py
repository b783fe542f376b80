"""Contract of the option parser (libcperciva/util/getopt.c) for the tool's option table, for every argument vector."""
from .tasks import *
from .views import *
from .c_main import A, OPTS, HASARG
from .c_str import cstring
from .mem import le_bytes, Content
from . import env
from .loops import Inv
from .execu import Abort

K64 = lambda v: const(v, 64)
K32 = lambda v: const(v, 32)
Z64, Z32, Z8 = K64(0), K32(0), const(0, 8)
MOD = 'libcperciva/util/getopt.c'
N, MISSING = 30, 27
SLOT = {o: 1 + 2 * i for i, o in enumerate(OPTS)}

def strs(ex, s, p, n):
    """n characters at p: in the arguments or in a small object"""
    return ex.load_bytes(s, p, n)

@task('getopt', 'C15', 'C17', weight=2)
def t_getopt(c):
    """getopt: every call returns the next option of the argument vector as documented (packed, long, =value), or the end, or an error; lookup finds the registered option"""
    ex = c.ex([MOD]); m = ex.modules[0]; ex.merge_ifs = False
    st = State()
    argc = var('argc', 32); st.assume(tm.slt(Z32, argc)); st.assume(tm.slt(argc, K32(1 << 30)))
    args = ex.new_obj(st, 'argument strings', K64(1 << 40), 'arg', 1, ro=True)
    argv = ex.new_obj(st, 'argv', tm.mulc(add(tm.sext(argc, 64), K64(1)), 8), 'arg', 8, ro=True)
    S = lambda i: add(args.addr, tm.uf('ARGOFF', 64, i))       # the string argv[i] (i: 64 bit)
    norm = lambda i: tm.lshr(tm.mulc(i, 8), K64(3))
    SN = lambda i: S(norm(i))
    def argvc(k, dec=None):
        i, j = tm.lshr(k, K64(3)), k
        a = S(i); sh = tm.mulc(tm.band(k, K64(7)), 8)
        return tm.trunc(tm.lshr(a, sh), 8)
    st.mem[argv] = Content(argvc)
    st.mem[args] = Content(lambda k, dec=None: A(add(args.addr, k)))
    def inrange(s, i): s.assume(ult(tm.uf('ARGOFF', 64, i), K64(1 << 39)))
    inrange(st, Z64)
    L = var('length of the program name', 64); st.assume(ult(L, K64(1 << 38))); st.assume(eq(A(add(S(Z64), L)), Z8))
    def sp(ex, s, header, blocks):
        f = s.frames[-1].fn
        if any(i.op == 'call' and i.x[0] == ('glb', '@strncmp') for b in blocks for i in f.blocks[b]): return None
        def soft(i, vals, s):
            return [ule(v, add(S(Z64), L)) for r, v in sorted(vals.items()) if v.w == 64] + [ule(sub(v, S(Z64)), L) for r, v in sorted(vals.items()) if v.w == 64] + [ule(v, L) for r, v in sorted(vals.items()) if v.w == 64]
        return Inv(None, 'inside the program name', soft=soft, auto=True)
    ex.loop_specs['*'] = sp
    def m_strncmp(ex, s, a):
        lit = cstring(ex, s, a[0])
        if lit is None or a[2].op != 'c': raise Unsupported('strncmp form')
        n = a[2].v
        if n > len(lit): raise Unsupported('strncmp length')
        r = fresh('strncmp', 32); cond = TRUE
        q = ex.resolve(s, a[1])
        room = q[0].size.v - q[1].v if q and q[0].size.op == 'c' and q[1].op == 'c' and q[0] is not args else n
        bs = ex.load_bytes(s, a[1], min(n, room))
        for k in range(min(n, room)): cond = And(cond, eq(bs[k], const(lit[k], 8)))
        if n > room:
            d = ex.prove(s, Not(cond))[0]
            if not d: ex.fail(s, 'strncmp stays inside its arguments'); raise Abort('strncmp')
            cond = FALSE
        s.assume(eq(eq(r, Z32), cond)); return r
    def m_strcmp(ex, s, a):
        x, y = cstring(ex, s, a[0]), cstring(ex, s, a[1])
        if x is None or y is None: raise Unsupported('strcmp form')
        return K32(0 if x == y else 1)
    def m_strlen(ex, s, a):
        x = cstring(ex, s, a[0])
        if x is None: raise Unsupported('strlen form')
        return K64(len(x))
    def m_abort(ex, s, a):
        if not any(e[0] == 'fail' for e in s.trace): ex.fail(s, 'C15: the option parser does not abort')
        raise Abort('abort')
    stderr = ex.new_obj(st, 'stderr', 64, 'os', 16)
    ex.global_init['@stderr'] = lambda ex, s, o: bytes_content(le_bytes(stderr.addr))
    ex.externals.update(strncmp=m_strncmp, strcmp=m_strcmp, strlen=m_strlen, abort=m_abort, atexit=lambda ex, s, a: Z32, fprintf=lambda ex, s, a: fresh('fprintf', 32), fputc=lambda ex, s, a: fresh('fputc', 32), fputs=lambda ex, s, a: fresh('fputs', 32), fwrite=lambda ex, s, a: fresh('fwrite', 64))
    F = lambda n: next((f for k, f in m.funcs.items() if k.lstrip('@') in (n, 'libcperciva_' + n)), None)
    def g(n):
        for k in ('@' + n, '@libcperciva_' + n):
            if k in m.globals: return ex.global_obj(cur[0], m, k)
        raise Unsupported('no variable %s' % n)
    cur = [st]
    def G(s, n, w): return ex.load(s, g(n).addr, w)
    # -- initialisation
    outs = ex.run_function(st, F('getopt'), [argc, argv.addr]); c.covered(outs, 1)
    nxt = []
    for s in outs:
        cur[0] = s
        ex.oblige(s, And(eq(s.ret, G(s, 'getopt_dummy', 8)), eq(G(s, 'optind', 4), K32(1)), eq(G(s, 'getopt_initialized', 4), Z32)), 'C15: the first call starts over at the first argument')
        ex.oblige(s, eq(G(s, 'packedopts', 8), Z64), 'C15: parsing starts between arguments')
        nxt.append(s)
    s = nxt[0]
    if len(nxt) > 1: c.note = 'several initial states'
    lits = {o: ex.new_obj(s, 'lit' + o, len(o) + 1, 'const', 1) for o in OPTS}
    cur[0] = s
    for q in list(lits.values()) + [g('popt')]: s.assume(ne(q.addr, Z64))
    s.assume(ule(K64(4096), args.addr)); s.assume(ult(args.addr, K64(1 << 47)))
    for o, q in lits.items(): ex.store_bytes(s, q.addr, [const(b, 8) for b in o.encode() + b'\0'])
    def call(ss, f, a, n=1):
        out = []
        for x in ss:
            cur[0] = x; r = [y for y in ex.run_function(x, F(f), a)]; out += r
        return out
    final = []
    for s0 in nxt:
        ss = call([s0], 'getopt_setrange', [K64(N)])
        for o in OPTS: ss = call(ss, 'getopt_register_opt', [lits[o].addr, K64(SLOT[o]), K32(1 if o in HASARG else 0)])
        ss = call(ss, 'getopt_register_missing', [K64(MISSING)])
        final += ss
    c.covered(final, 1)
    # -- one step from any state between calls
    total = 0
    for base in final[:1]:
        for mode in ('fresh', 'packed'):
            s = base.clone(); cur[0] = s
            ex.store(s, g('getopt_initialized').addr, K32(1))
            i = var('optind', 32); I = tm.sext(i, 64)
            s.assume(tm.sle(K32(1), i)); s.assume(tm.sle(i, argc))
            for d in (0, 1): inrange(s, norm(tm.sext(add(i, K32(d)), 64)))
            ex.store(s, g('optind').addr, i); ex.store(s, g('optarg').addr, var('old optarg', 64)); ex.store(s, g('opt_found').addr, var('old found', 64))
            ex.store_bytes(s, g('popt').addr, [var('old popt%d' % k, 8) for k in range(3)])
            arg = SN(I); nxtarg = SN(tm.sext(add(i, K32(1)), 64))
            if mode == 'packed':
                off = var('packed offset', 64); s.assume(ult(off, K64(1 << 38))); s.assume(ule(K64(2), off))
                P = add(arg, off); s.assume(tm.slt(i, argc)); s.assume(ne(A(P), Z8)); ex.store(s, g('packedopts').addr, P)
            else: ex.store(s, g('packedopts').addr, Z64)
            outs = ex.run_function(s, F('getopt'), [argc, argv.addr]); c.covered(outs, 20)
            i1, i2 = add(i, K32(1)), add(i, K32(2)); more = tm.slt(i1, argc)
            cases = []      # (condition, what, optarg, optind, packed)
            D = const(45, 8)
            def shorts(cond, ch, rest):
                nul = eq(A(rest), Z8); ii, pk = ite(nul, i1, i), ite(nul, Z64, rest); none = cond
                for o in OPTS:
                    if len(o) != 2: continue
                    e = And(cond, eq(ch, const(ord(o[1]), 8))); none = And(none, ne(ch, const(ord(o[1]), 8)))
                    if o in HASARG:
                        cases.append((And(e, Not(nul)), o, rest, i1, Z64))
                        cases.append((And(e, nul, more), o, nxtarg, i2, Z64))
                        cases.append((And(e, nul, Not(more)), 'missing', Z64, i1, Z64))
                    else: cases.append((e, o, Z64, ii, pk))
                cases.append((none, 'default', Z64, ii, pk))
            if mode == 'packed': shorts(TRUE, A(P), add(P, K64(1)))
            else:
                at = lambda k: A(add(arg, K64(k)))
                end = Not(tm.slt(i, argc)); live = Not(end)
                cases.append((end, None, Z64, i, Z64))
                dash = And(live, eq(at(0), D))
                shorts(And(dash, ne(at(1), D), ne(at(1), Z8)), at(1), add(arg, K64(2)))
                dd = And(dash, eq(at(1), D))
                cases.append((And(live, Not(And(eq(at(0), D), ne(at(1), Z8)))), None, Z64, i, Z64))
                cases.append((And(dd, eq(at(2), Z8)), None, Z64, i1, Z64))
                lg = And(dd, ne(at(2), Z8)); none = lg
                for o in OPTS:
                    if len(o) == 2: continue
                    M = And(*[eq(at(k), const(ord(ch), 8)) for k, ch in enumerate(o)]); aft = at(len(o))
                    z, q = eq(aft, Z8), eq(aft, const(61, 8))
                    none = And(none, Not(And(M, Or(z, q))))
                    if o in HASARG:
                        cases.append((And(lg, M, q), o, add(arg, K64(len(o) + 1)), i1, Z64))
                        cases.append((And(lg, M, z, more), o, nxtarg, i2, Z64))
                        cases.append((And(lg, M, z, Not(more)), 'missing', Z64, i1, Z64))
                    else:
                        cases.append((And(lg, M, z), o, Z64, i1, Z64)); cases.append((And(lg, M, q), 'default', Z64, i1, Z64))
                cases.append((none, 'default', Z64, i1, Z64))
            seen = set()
            for o in outs:
                cur[0] = o
                r = o.ret; oa, oi, pk = G(o, 'optarg', 8), G(o, 'optind', 4), G(o, 'packedopts', 8)
                if ex.prove(o, eq(r, Z64))[0]: fnd = None
                else:
                    o2 = o.clone(); rs = ex.run_function(o2, F('getopt_lookup'), [r])
                    if not rs: continue
                    if len(rs) != 1: raise Unsupported('getopt_lookup branches')
                    fnd = rs[0].ret
                alts = []; held = None
                for cond, what, xa, xi, xp in cases:
                    if cond is FALSE: continue
                    ok = [cond]
                    if what is None: ok += [eq(r, Z64)]
                    else:
                        if fnd is None: continue
                        ok += [ne(r, Z64), eq(fnd, K64({'missing': MISSING, 'default': N + 1}.get(what, SLOT.get(what))))]
                        if what not in ('missing', 'default'): ok += [eq(r, lits[what].addr), eq(oa, xa)]
                    ok += [eq(oi, xi), eq(pk, xp)]
                    if And(*ok) is FALSE: continue
                    alts.append(And(*ok))
                    if not held and all(ex.prove(o, q)[0] for q in ok): held = ok
                ex.oblige(o, TRUE if held else Or(*alts) if alts else FALSE, 'C15: getopt returns the next option and its argument as documented')
                total += 1
                ex.oblige(o, And(tm.sle(K32(1), oi), tm.sle(oi, argc)), 'C15: optind stays within the argument vector')
                ex.oblige(o, Or(eq(pk, Z64), And(tm.slt(oi, argc), ne(A(pk), Z8))), 'C15: packed options continue inside the current argument')
    c.lemma('vacuity guard: option outcomes checked', total >= 30, str(total))
