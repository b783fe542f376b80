"""Contracts for libcperciva/util/{humansize,asprintf,insecure_memzero}.c and crypto_verify_bytes.c"""
from .tasks import *
from .loops import Inv
from .env import c_insecure_memzero, FMT, fmt_specs
from . import env, solver

# ------------------------------------------------------------------ crypto_verify_bytes
def tainted(t, srcs, memo={}):
    """does the term depend on the content of one of the named regions?"""
    for x in tm.nodes([t]):
        if x.op == 'uf' and x.v == 'mem' and x.a[0].op == 'v' and x.a[0].v in srcs: return True
    return False

def watch_data(ex, srcs, seen):
    """record branch conditions and addresses that depend on secret content"""
    oc, oa = ex.cond_branch, ex.access
    def cb(st, cases):
        for c, t in cases:
            if tainted(c, srcs): seen.append(('branch', st.frames[-1].fn.name, tm.show(c, 5)))
        return oc(st, cases)
    def ac(st, p, n, what):
        nt = n if isinstance(n, tm.T) else const(n, 64)
        if tainted(p, srcs) or tainted(nt, srcs): seen.append(('address', st.frames[-1].fn.name, tm.show(p, 5)))
        return oa(st, p, n, what)
    ex.cond_branch, ex.access = cb, ac
    def memcmp(ex, st, a):
        for p in a[:2]:
            r = ex.resolve(st, p)
            if r is not None and r[0].name in srcs: seen.append(('library comparison', st.frames[-1].fn.name, 'memcmp'))
        return env.EXT['memcmp'](ex, st, a)
    ex.externals['memcmp'] = ex.externals['bcmp'] = ex.externals['strncmp'] = memcmp

@task('verify_bytes', 'C19', 'C07')
def t_verify(c):
    """crypto_verify_bytes(a, b, len) == 0  <=>  for all k < len: a[k] == b[k]; data-independent control flow and addresses"""
    m = build.module('libcperciva/crypto/crypto_verify_bytes.c', (), 'sroa')
    n = var('len', 64)
    A = lambda k: tm.uf('mem', 8, var('A', 64), k); B = lambda k: tm.uf('mem', 8, var('B', 64), k)
    AE = lambda x: tm.uf('AllEq', 1, x)
    one, zero = const(1, 64), const(0, 64)
    def run(order):
        ex = c.ex([m])
        st = State()
        st.assume(ult(n, const(1 << 62, 64)))
        a = ex.new_obj(st, 'A', n, 'arg', content=Content(uf_base('A')), ro=True)
        b = ex.new_obj(st, 'B', n, 'arg', content=Content(uf_base('B')), ro=True)
        idx = (lambda k: k) if order == 'fwd' else (lambda k: sub(sub(n, one), k))
        ax = lambda k: [AE(zero), eq(AE(add(k, one)), And(AE(k), eq(A(idx(k)), B(idx(k)))))]
        def sp(ex, st, header, blocks):
            def soft(k, vals, s):
                out = [ule(k, n)]
                for r in sorted(vals):
                    v = vals[r]
                    out.append(eq(eq(v, const(0, v.w)), AE(k)))
                return out
            return Inv(lambda k: {'axioms': ax(k)}, 'acc == 0 <=> compared prefix equal', soft=soft)
        ex.loop_specs['*'] = sp
        seen = []
        watch_data(ex, ('A', 'B'), seen)
        outs = ex.run_function(st, m.funcs['@crypto_verify_bytes'], [a.addr, b.addr, n])
        for s in outs:
            for f in ax(zero): s.assume(f)
            # after n elements, AllEq(n) is equality of the whole ranges (definition)
            ex.oblige(s, eq(eq(s.ret, const(0, s.ret.w)), AE(n)), 'crypto_verify_bytes ensures result == 0 <=> buffers equal')
        return ex, outs, seen
    ex, outs, seen = run('fwd')
    if any(not o.ok for o in ex.obls):
        c.exs.pop()
        e2, o2, s2 = run('bwd')
        if all(o.ok for o in e2.obls): ex, outs, seen = e2, o2, s2
        else:
            c.exs.pop(); c.exs.append(ex)
    c.covered(outs, 1)
    seen = sorted(set(seen))
    c.lemma('data-independence: no branch condition or address in crypto_verify_bytes depends on the compared bytes', not seen, str(seen)[:800], 'crypto_verify_bytes')

# ------------------------------------------------------------------ insecure_memzero
@task('insecure_memzero', 'C11')
def t_memzero(c):
    """insecure_memzero(buf, len): buf[0..len) == 0, nothing else written"""
    ex = c.ex(['libcperciva/util/insecure_memzero.c', 'libcperciva/alg/sha256.c'])
    f = [m.funcs['@insecure_memzero'] for m in ex.modules if '@insecure_memzero' in m.funcs][0]
    st = State()
    n = var('len', 64); st.assume(ult(n, const(1 << 62, 64)))
    o = ex.new_obj(st, 'buf', n, 'arg', content=Content(uf_base('buf')))
    outs = ex.run_function(st, f, [o.addr, n])
    c.covered(outs)
    for s in outs:
        k = fresh('k', 64); s.assume(ult(k, n))
        if ex.feasible(s, TRUE):
            ex.oblige(s, eq(s.mem[o].read_bytes(k, 1, ex.dec(s))[0], const(0, 8)), 'insecure_memzero ensures every byte is zero')
    # the store is volatile in the source, so it cannot be removed by the compiler
    for f in ex.modules[0].funcs.values():
        for b in f.blocks.values():
            for i in b:
                if i.op == 'store' and f.name == '@insecure_memzero_func' and i.ty == ('i', 8):
                    c.lemma('insecure_memzero stores through a volatile lvalue', 'volatile' in i.text, i.text, 'insecure_memzero_func')

# ------------------------------------------------------------------ humansize
PFX = {b' ': 0, b'k': 1, b'M': 2, b'G': 3, b'T': 4, b'P': 5, b'E': 6}
def text_parts(tid):
    fmt, args = FMT[tid]
    out = []; n = 0
    for s in fmt_specs(fmt):
        if isinstance(s, bytes):
            for ch in s: out.append(('lit', bytes([ch])))
        else:
            out.append((s[1], args[n], s[0])); n += 1
    return out

def div_axioms(t):
    out = []
    for x in tm.nodes([t]):
        if x.op in ('udiv',) and x.a[1].op == 'c' and x.a[1].v:
            d = x.a[1].v; w = x.w
            q = tm.zext(x, w + 64); a = tm.zext(x.a[0], w + 64)
            out += [ule(tm.mulc(q, d), a), ult(a, add(tm.mulc(q, d), const(d, w + 64)))]
    return out

@task('humansize.print', 'C14', 'C17', weight=2)
def t_humansize(c):
    """humansize(size): '<N> B' exactly for size < 1000; otherwise the largest value of the printed shape <= size"""
    ex = c.ex(['libcperciva/util/humansize.c', 'libcperciva/util/asprintf.c'])
    st = State()
    size = var('size', 64)
    ex.loop_specs['*'] = lambda ex, st, h, b: 'unroll'
    ex.unroll_limit = 12
    outs = ex.run_function(st, ex.modules[0].funcs['@humansize'], [size])
    c.covered(outs, 4)
    W = 128
    S = tm.zext(size, W)
    ok_paths = 0
    for s in outs:
        live = [o for o in s.mem if o.kind == 'heap' and s.status[o] == 'live']
        if s.ret.op == 'c' and s.ret.v == 0:
            c.lemma('resource: humansize failure leaves nothing allocated', not live, str(live), 'humansize')
            fails = [e for e in s.trace if e[0] == 'fail']
            c.lemma('humansize returns NULL only if memory or formatting fails', bool(fails), str(s.trace), 'humansize')
            continue
        r = ex.resolve(s, s.ret)
        good = r is not None and s.status[r[0]] == 'live' and r[1] is Z64 and ('text', r[0]) in s.ghost
        c.lemma('humansize ensures the result is a fresh heap string', good, tm.show(s.ret), 'humansize')
        c.lemma('resource: humansize allocates only its result', live == [r[0]] if good else False, str(live), 'humansize')
        if not good: continue
        ok_paths += 1
        tid, ln = s.ghost[('text', r[0])]
        ex.oblige(s, eq(ln, env.text_len(tid)), 'humansize ensures the text is not truncated')
        parts = text_parts(tid)
        shape = ''.join(p[1].decode() if p[0] == 'lit' else '%' + p[0] for p in parts)
        import re
        args = [p for p in parts if p[0] != 'lit']
        plain = all(not p[2] or p[2] in ('l', 'll', 'j', 'z') for p in args)
        sgn = lambda p: (tm.sext if p[0] in 'di' else tm.zext)(p[1], W)
        if not plain or not re.fullmatch(r'%[diu](\.%[diu])? (%c|[kMGTPE])?B', shape):
            c.lemma('humansize output has a documented shape', False, shape, 'humansize'); continue
        for p in list(s.pc):
            for f in div_axioms(p): s.assume(f)
        for p in args:
            for f in div_axioms(p[1]): s.assume(f)
        ints = [sgn(p) for p in args if p[0] in 'diu']
        pc_ = [p for p in args if p[0] == 'c']
        k = None
        if pc_:
            ch = tm.trunc(pc_[0][1], 8)
            if ch.op == 'c': k = PFX.get(bytes([ch.v]))
            if k == 0: k = None
        else:
            mm = re.search(r' ([kMGTPE])B$', shape)
            k = PFX[mm.group(1).encode()] if mm else 0
        if k is None:
            c.lemma('humansize prefix is one of k M G T P E', False, shape + ' ' + str([tm.show(p[1]) for p in args]), 'humansize'); continue
        for x in ints: ex.oblige(s, ult(x, const(1000, W)), 'humansize printed integers are within 0..999')
        if len(ints) == 2:
            ex.oblige(s, ult(ints[1], const(10, W)), 'humansize decimal digit is one digit')
            ex.oblige(s, And(ule(const(1, W), ints[0]), ule(ints[0], const(9, W))), 'humansize uses one decimal only for 1.0 .. 9.9')
            v10 = add(tm.mulc(ints[0], 10), ints[1]); unit10 = 1
        else:
            v10 = tm.mulc(ints[0], 10); unit10 = 10
            if k: ex.oblige(s, ule(const(10, W), ints[0]), 'humansize uses no decimal only for 10 .. 999')
        # value*10 = v10 * 1000^k
        m = 1000 ** k
        ex.oblige(s, ule(tm.mulc(v10, m), tm.mulc(S, 10)), 'humansize never overstates the size')
        ex.oblige(s, ult(tm.mulc(S, 10), tm.mulc(add(v10, const(unit10, W)), m)), 'humansize is within one unit of the last printed digit')
    c.lemma('vacuity guard: printing paths explored', ok_paths >= 3, str(ok_paths))

# ------------------------------------------------------------------ humansize_parse
def hp_spec(n_name='q'):
    S = lambda k: tm.uf('mem', 8, var('str', 64), k)
    Q = lambda k: tm.uf('Q', 8, k); V = lambda k: tm.uf('V', 64, k); M = lambda k: tm.uf('Mx', 64, k)
    REJ = const(255, 8)
    pf = [(b'k', 1), (b'M', 2), (b'G', 3), (b'T', 4), (b'P', 5), (b'E', 6)]
    def step(q, v, mx, ch):
        """regular expression [0-9]+ ?[kMGTPE]?B?  -> (q', v', mx')"""
        dig = And(ule(const(48, 8), ch), ule(ch, const(57, 8)))
        d = tm.zext(sub(ch, const(48, 8)), 80)
        nv = add(tm.mulc(tm.zext(v, 80), 10), d)
        fits = ule(nv, const(2**64 - 1, 80))
        isp = FALSE; pm = const(1, 64)
        for b, e in pf:
            h = eq(ch, const(b[0], 8)); isp = Or(isp, h); pm = ite(h, const(1000 ** e, 64), pm)
        isB = eq(ch, const(ord('B'), 8)); sp = eq(ch, const(32, 8))
        Q_ = lambda i: const(i, 8)
        afterdig = ite(sp, Q_(2), ite(isp, Q_(3), ite(isB, Q_(4), REJ)))
        q0 = ite(dig, Q_(1), REJ)
        q1 = ite(dig, ite(fits, Q_(1), REJ), afterdig)
        q2 = ite(isp, Q_(3), ite(isB, Q_(4), REJ))
        q3 = ite(isB, Q_(4), REJ)
        nq = ite(eq(q, Q_(0)), q0, ite(eq(q, Q_(1)), q1, ite(eq(q, Q_(2)), q2, ite(eq(q, Q_(3)), q3, REJ))))
        takes = And(dig, Or(eq(q, Q_(0)), eq(q, Q_(1))))
        v2 = ite(takes, ite(eq(q, Q_(0)), tm.trunc(d, 64), tm.trunc(nv, 64)), v)
        m2 = ite(And(isp, Or(eq(q, Q_(1)), eq(q, Q_(2)))), pm, mx)
        return nq, v2, m2
    return S, Q, V, M, REJ, step

@task('humansize.parse', 'C14', 'C15', 'C17', weight=3)
def t_hparse(c):
    """humansize_parse(s, size) == 0 <=> s matches [0-9]+ ?[kMGTPE]?B? with value <= 2^64-1, and then *size is the value"""
    ex = c.ex(['libcperciva/util/humansize.c'])
    S, Q, V, M, REJ, step = hp_spec()
    st = State()
    L = var('len', 64); st.assume(ult(L, const(1 << 60, 64)))
    o = ex.new_obj(st, 's', add(L, const(1, 64)), 'arg', content=Content(uf_base('str')), ro=True)
    sz = ex.new_obj(st, 'size', 8, 'arg', content=Content(uf_base('size0')))
    one, zero = const(1, 64), const(0, 64)
    def ax(k):
        nq, nv, nm = step(Q(k), V(k), M(k), S(k))
        k1 = add(k, one)
        r = [eq(Q(zero), const(0, 8)), eq(V(zero), zero), eq(M(zero), one), eq(S(L), const(0, 8)),
             eq(Q(k1), nq), eq(V(k1), nv), eq(M(k1), nm)]
        for x in (k, k1): r.append(Or(Not(ult(x, L)), ne(S(x), const(0, 8))))
        # rejection is absorbing (induction over the specification automaton)
        r.append(Or(Not(And(eq(Q(k1), REJ), ule(k1, L))), eq(Q(L), REJ)))
        return r
    # learn candidate (automaton state -> scalar value) pairs from concrete runs of the same code; they are then proved
    table = {}
    for txt in (b'5', b'51', b'5 ', b'5 k', b'5k', b'5kB', b'5B', b'5 B', b'x', b'5x', b'5 x', b'5kx', b'5BB', b'7P', b'12 E', b'5 kB'):
        e2 = Exec(ex.modules); e2.externals.update(env.EXT)
        s0 = State()
        so = e2.new_obj(s0, 's', len(txt) + 1, 'arg', content=bytes_content(txt + b'\0'))
        zo = e2.new_obj(s0, 'size', 8, 'arg', content=Content(zero_base))
        its = {}
        og = e2.goto
        def goto(st_, target):
            fr = st_.frames[-1]; prev = fr.block
            og(st_, target)
            lp = fr.fn.loops().get(target)
            if lp is None: return
            n = 0
            if prev in lp: n = its.get(target, 0) + 1
            its[target] = n
            q, v, mx = 0, 0, 1
            for ch in txt[:n]:
                q_, v_, m_ = step(const(q, 8), const(v, 64), const(mx, 64), const(ch, 8)); q, v, mx = q_.v, v_.v, m_.v
            for ins in fr.fn.blocks[target]:
                if ins.op != 'phi': break
                x = e2.value(fr.fn.mod, fr.regs, ins.ty, ins.x[0][fr.prev], st_)
                if x.op == 'c' and x.w in (8, 32): table.setdefault((target, ins.res, q), set()).add(x.v)
        e2.goto = goto
        e2.loop_specs['*'] = lambda *a: 'unroll'
        e2.run_function(s0, ex.modules[0].funcs['@humansize_parse'], [so.addr, zo.addr])
    def sp(ex, st, header, blocks):
        def soft(k, vals, s):
            out = [ule(k, L), ult(k, L), ule(Q(k), const(4, 8)), ne(Q(k), REJ),
                   Or(ule(const(1, 8), Q(k)), eq(k, zero))]
            size = ex.load(s, sz.addr, 8)
            out += [Or(eq(k, zero), eq(size, V(k))), eq(size, V(k)), eq(M(k), one), Or(*[eq(M(k), const(1000 ** i, 64)) for i in range(7)])]
            out.append(Or(eq(Q(k), const(3, 8)), eq(Q(k), const(4, 8)), eq(M(k), one)))
            for r in sorted(vals):
                v = vals[r]
                if v.w == 64 and ex.resolve(s, v) is None:
                    out += [eq(v, M(k)), eq(v, V(k)), Or(eq(k, zero), eq(v, V(k)))]
                elif v.w in (8, 32):
                    for (h, rr, q), xs in sorted(table.items()):
                        if h == header and rr == r and len(xs) == 1:
                            out.append(Or(ne(Q(k), const(q, 8)), eq(v, const(list(xs)[0], v.w))))
            return out
        f = st.frames[-1].fn
        own = len(st.frames) > 1 or any(h != header and header in b for h, b in f.loops().items())     # helper or inner loop: unrolled if it can be
        return Inv(lambda k: {'axioms': ax(k)}, 'scanner state == specification automaton', soft=soft, auto=own)
    ex.loop_specs['*'] = sp
    outs = ex.run_function(st, ex.modules[0].funcs['@humansize_parse'], [o.addr, sz.addr])
    done = 0
    for s in outs:
        for f in ax(zero): s.assume(f)
        mults = [1000 ** i for i in range(7)]
        s.assume(Or(*[eq(M(L), const(m, 64)) for m in mults]))       # automaton lemma: multiplier is a power of 1000
        acc = And(ule(const(1, 8), Q(L)), ule(Q(L), const(4, 8)))
        val = ex.load(s, sz.addr, 8)
        ex.oblige(s, Or(eq(s.ret, const(0, 32)), eq(s.ret, const(-1, 32))), 'humansize_parse returns 0 or -1')
        nl = nonlinear(s.pc + [val, s.ret])
        lin_ = [p for p in s.pc if not nonlinear([p])]
        z0 = eq(s.ret, const(0, 32))
        for m, zz in [(m, zz) for m in mults for zz in (z0, Not(z0))]:
            # case split over the multiplier and the result; the code's own variables are replaced by the
            # specification terms they are proved equal to, so that the products coincide syntactically
            base = lin_ + [eq(M(L), const(m, 64)), zz]
            if solver.check_sat(base, 10).status == 'unsat': continue
            if zz is not z0:
                base.append(acc)         # rejecting a string outside the language is right
                if solver.check_sat(base, 20).status == 'unsat':
                    c.lemma('humansize_parse rejects only malformed or too large sizes', True); continue
            sm = {M(L): const(m, 64)}
            for x in nl:
                for v in x.a:
                    if v.op != 'v' or v in sm: continue
                    for t in (const(m, v.w), tm.zext(V(L), v.w) if v.w >= 64 else tm.trunc(V(L), v.w)):
                        if solver.prove(base, eq(v, t), 8)[0]: sm[v] = t; break
            nlpc = [tm.subst(p, sm) for p in s.pc if p not in lin_]
            ret, vv = tm.subst(s.ret, sm), tm.subst(val, sm)
            fm = tm.mulc(tm.zext(V(L), 128), m)
            def ob(g, label):
                s3 = s.clone(); s3.pc = list(nlpc)
                if solver.prove(nlpc, g, 8)[0]: return ex.oblige(s3, g, label)
                s3.pc = [tm.subst(p, sm) for p in base] + nlpc
                return ex.oblige(s3, g, label)
            if zz is z0:
                done += 1
                ob(acc, 'humansize_parse accepts only well-formed sizes')
                ob(ule(fm, const(2**64 - 1, 128)), 'humansize_parse accepts only sizes that fit 64 bits')
                ob(eq(tm.zext(vv, 128), fm), 'humansize_parse ensures *size == exact value')
            else:
                ob(ult(const(2**64 - 1, 128), fm), 'humansize_parse rejects only malformed or too large sizes')
    c.lemma('vacuity guard: accepting final states explored', done >= 2, str(done))

def nonlinear(ts):
    return [x for x in tm.nodes(list(ts)) if (x.op == '*' and sum(1 for y in x.a if y.op != 'c') > 1) or (x.op in ('udiv', 'urem') and x.a[1].op != 'c')]
