"""Contracts for the scrypt KDF (RFC 7914): salsa20/8, BlockMix, ROMix (portable and SSE2), crypto_scrypt.

Bytes of intermediate blocks are specification functions defined by the recursion of RFC 7914:
  SS(0) = B_{2r-1},  SS(k+1) = Salsa20/8(SS(k) xor B_k)            (BlockMix)
  XI(0) = B,         XI(i+1) = BlockMix(XI(i))                      (ROMix, V_i = XI(i))
  ZI(0) = XI(N),     ZI(m+1) = BlockMix(ZI(m) xor XI(Integerify(ZI(m)) mod N)),   result ZI(N)
The SSE2 code keeps each 64-byte block permuted (word i of memory is word 5i mod 16): pm() maps memory offsets to RFC offsets."""
from . import sweep, solver
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero

PORT, SSE, TOP = 'lib/crypto/crypto_scrypt_smix.c', 'lib/crypto/crypto_scrypt_smix_sse2.c', 'lib-platform/crypto/crypto_scrypt.c'
K64 = lambda v: const(v, 64)
Z64 = K64(0)
OFS = 5                                  # memory word i holds RFC word 5i mod 16
WMAP = [i * OFS % 16 for i in range(16)]

def ident(o): return o
def sse_pm(o):
    """offset in the permuted layout -> RFC offset"""
    c, m = tm.lin(o)
    if all(k % 64 == 0 for k in m.values()):
        lo = c % 64
        return add(o, K64(4 * WMAP[lo // 4] + lo % 4 - lo))
    w = tm.band(tm.mulc(tm.lshr(o, K64(2)), OFS), K64(15))
    return tm.bor(tm.bor(tm.band(o, K64((1 << 64) - 64)), tm.shl(w, K64(2))), tm.band(o, K64(3)))
VAR = {'port': (PORT, ident, 'crypto_scrypt_smix'), 'sse': (SSE, sse_pm, 'crypto_scrypt_smix_sse2')}

# ------------------------------------------------------------------ salsa20/8
def rotl32(x, k): return tm.bor(tm.shl(x, const(k, 32)), tm.lshr(x, const(32 - k, 32)))
def salsa_spec(b):
    x = list(b)
    def qr(a, b_, c, d):
        for t, p, q, k in ((b_, a, d, 7), (c, b_, a, 9), (d, c, b_, 13), (a, d, c, 18)):
            x[t] = tm.bxor(x[t], rotl32(add(x[p], x[q]), k))
    for _ in range(4):
        qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11)
        qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14)
    return [add(p, q) for p, q in zip(x, b)]

def mk_salsa(v):
    def t(c):
        """salsa20_8 computes the Salsa20/8 core of RFC 7914 section 3 (on its memory layout)"""
        mod, pm, _ = VAR[v]
        ex = c.ex([mod]); f = ex.modules[0].funcs.get('@salsa20_8')
        if f is None: raise Unsupported('no function salsa20_8 (contract used by BlockMix)')
        w = [var('w%d' % i, 32) for i in range(16)]
        st = State()
        lay = WMAP if v == 'sse' else list(range(16))
        o = ex.new_obj(st, 'B', 64, 'arg', 16, content=bytes_content(sum([le_bytes(w[lay[i]]) for i in range(16)], [])))
        want = salsa_spec(w)
        outs = ex.run_function(st, f, [o.addr]); c.covered(outs)
        for s in outs:
            sp = sweep.Sweep()
            for i in range(16):
                ok, cex = sp.equal(ex.load(s, add(o.addr, K64(4 * i)), 4), want[lay[i]])
                c.lemma('%s salsa20_8 ensures word %d is that of Salsa20/8' % (v, lay[i]), ok, func='salsa20_8')
    return t
for _v in VAR: task('scrypt.salsa.' + _v, 'C02', 'C17', weight=2)(mk_salsa(_v))

# ------------------------------------------------------------------ block copy and xor
def k_blkcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2])
def k_blkxor(ex, st, a):
    if a[2].op == 'c':
        x, y = ex.load_bytes(st, a[0], a[2].v), ex.load_bytes(st, a[1], a[2].v)
        ex.store_bytes(st, a[0], [tm.bxor(p, q) for p, q in zip(x, y)]); return
    f, g = ex.region_fn(st, a[0], a[2]), ex.region_fn(st, a[1], a[2])
    ex.write_region(st, a[0], a[2], lambda k, dec=None: tm.bxor(f(k, dec), g(k, dec)), bulk=True)

def mk_blk(v):
    def t(c):
        """blkcpy / blkxor copy / xor len bytes (len a multiple of 64)"""
        mod = VAR[v][0]
        for nm in ('blkcpy', 'blkxor'):
            ex = c.ex([mod]); f = ex.modules[0].funcs.get('@' + nm)
            if f is None: c.lemma('%s: no helper %s (its uses are verified in place)' % (v, nm), True); continue
            st = State()
            q = var('blocks', 64); ln = tm.mulc(q, 64)
            st.assume(ule(q, K64(1 << 50)))
            D = ex.new_obj(st, 'dest', ln, 'arg', 16, content=Content(uf_base('dst')))
            S = ex.new_obj(st, 'src', ln, 'arg', 16, content=Content(uf_base('src')), ro=True)
            outs = ex.run_function(st, f, [D.addr, S.addr, ln]); c.covered(outs)
            for s in outs:
                k = fresh('k', 64); s.assume(ult(k, ln))
                d0, s0 = tm.uf('mem', 8, var('dst', 64), k), tm.uf('mem', 8, var('src', 64), k)
                for s2, h in ex.cases(s, lambda d: s.mem[D].read_bytes(k, 1, d)[0]):
                    ex.oblige(s2, eq(h, s0 if nm == 'blkcpy' else tm.bxor(d0, s0)), '%s %s ensures every byte is %s' % (v, nm, 'copied' if nm == 'blkcpy' else 'xored'))
    return t
for _v in VAR: task('scrypt.blocks.' + _v, 'C02', 'C03', 'C17')(mk_blk(_v))

# ------------------------------------------------------------------ BlockMix
def BI(o): return tm.uf('blk.in', 8, o)
def mk_blockmix(v):
    def t(c):
        """blockmix_salsa8 computes BlockMix_{salsa20/8, r} (RFC 7914 section 4) for every r"""
        mod, pm, _ = VAR[v]
        ex = c.ex([mod]); f = ex.modules[0].funcs.get('@blockmix_salsa8')
        if f is None: raise Unsupported('no function blockmix_salsa8 (contract used by ROMix)')
        r = var('r', 64); S = tm.mulc(r, 128)
        st = State(); st.assume(ne(r, Z64)); st.assume(ult(r, K64(1 << 30)))
        Bin = ex.new_obj(st, 'Bin', S, 'arg', 64, content=Content(lambda o, dec=None: BI(pm(o))), ro=True)
        Bout = ex.new_obj(st, 'Bout', S, 'arg', 64); X = ex.new_obj(st, 'X', 64, 'arg', 64)
        def SS(k, b):            # byte b (RFC order) of state k
            if k.op == 'c' and k.v == 0: return BI(add(tm.mulc(r, 128), K64(-64 & (2**64 - 1)), b))
            return tm.uf('blk.S', 8, k, b)
        def salsa(ex, st, a):
            bs = ex.load_bytes(st, a[0], 64)
            for t in bs[0].a if bs[0].op == '^' else ():
                if t.op == 'uf' and t.v == 'blk.in':
                    k64 = t.a[0]                      # byte 0 of block k
                    other = [x for x in bs[0].a if x is not t]
                    o = other[0] if len(other) == 1 else None
                    if o is None: continue
                    if o.op == 'uf' and o.v == 'blk.S': k = o.a[0]
                    elif o.op == 'uf' and o.v == 'blk.in': k = Z64; k64 = Z64
                    else: continue
                    g = [eq(bs[b], tm.bxor(SS(k, pm(K64(b))), BI(add(tm.mulc(k, 64), pm(K64(b)))))) for b in range(64)]
                    if all(x is tm.TRUE for x in g) or ex.prove(st, And(*g))[0]:
                        ex.store_bytes(st, a[0], [SS(add(k, K64(1)), pm(K64(b))) for b in range(64)])
                        return None
            ws = [le(bs[4 * i:4 * i + 4]) for i in range(16)]
            ex.store_bytes(st, a[0], sum([le_bytes(tm.uf(('blk.H', i), 32, *ws)) for i in range(16)], []))
        ex.contracts.update(blkcpy=k_blkcpy, blkxor=k_blkxor, salsa20_8=salsa)
        q64 = lambda o: tm.lshr(o, K64(6))
        def even(o): p = pm(o); return SS(add(tm.mulc(q64(p), 2), K64(1)), tm.band(p, K64(63)))
        def odd(o): p = pm(o); return SS(add(tm.mulc(q64(p), 2), K64(2)), tm.band(p, K64(63)))
        def at(n):
            def mkfn(g):
                fn = lambda k, dec=None: g(k)
                fn.grow = (tm.mulc(sub(n, K64(1)), 64), 64); return fn
            e = mkfn(even); o = mkfn(odd)
            xs = lambda k, dec=None: SS(tm.mulc(n, 2), pm(k))
            return dict(mem=[(X.addr, 64, xs), (p0, tm.mulc(n, 64), e), (p1, tm.mulc(n, 64), o)], facts=[ule(n, r)])
        p0, p1 = Bout.addr, add(Bout.addr, tm.mulc(r, 64))
        def spec(ex, st, header, blocks): return None if len(st.loops) else Inv(at, 'BlockMix')
        ex.loop_specs['blockmix_salsa8'] = spec
        outs = ex.run_function(st, f, [Bin.addr, Bout.addr, X.addr, r]); c.covered(outs)
        for s in outs:
            k = fresh('k', 64)
            for nm, base, g in (('first', Z64, even), ('second', tm.mulc(r, 64), odd)):
                s1 = s.clone(); s1.assume(ult(k, tm.mulc(r, 64)))
                for s2, h in ex.cases(s1, lambda d: s1.mem[Bout].read_bytes(add(base, k), 1, d)[0]):
                    ex.oblige(s2, eq(h, g(k)), '%s blockmix_salsa8 ensures the %s half of the output is that of BlockMix' % (v, nm))
    return t
for _v in VAR: task('scrypt.blockmix.' + _v, 'C02', 'C17', weight=2)(mk_blockmix(_v))

# ------------------------------------------------------------------ products of parameters
CAP = (1 << 57) - 1                      # SIZE_MAX / 128
def product_lemma(A, r, guard):
    """instances of: guard => A*r does not overflow and t < A => t*r + r <= A*r  (integers; guard bounds the product)"""
    AR = tm.mul(A, r)
    def f(ts):
        out = [Or(Not(guard), ule(AR, K64(CAP))), Or(Not(guard), ule(A, AR))]
        for t in ts:
            if t.op != '*' or r not in t.a or len(t.a) != 2 or t is AR: continue
            a = [x for x in t.a if x is not r] or [r]; a = a[0]
            for x in (a, tm.mulc(a, 2), add(tm.mulc(a, 2), K64(1)), add(tm.mulc(a, 2), K64(2)), add(a, K64(1))):
                if x is A: continue
                small = ule(a, K64(1 << 61)); xr = tm.mul(x, r)
                out.append(Or(Not(guard), Not(small), Not(ult(x, A)), And(ule(add(xr, r), AR), ule(xr, AR))))
                out.append(Or(Not(small), Not(eq(x, A)), eq(xr, AR)))
        for t in ts:
            if t.op == 'udiv' and t.a[0].op == 'c':
                M = t.a[0].v; cc, m = tm.lin(t.a[1])
                if cc == 0 and len(m) == 1:
                    (y, k), = m.items()
                    if k > 1: out.append(Or(Not(ult(y, K64(1 << 32))), eq(t, tm.udiv(K64(M // k), y))))
                    if k == 1 and y is A: out.append(Or(eq(A, Z64), Not(ule(AR, K64(CAP))), Not(ult(r, K64(1 << 32))), Not(ult(A, K64(1 << 32))), eq(ule(AR, K64(M)), ule(r, t))))
        return out
    return f
def product_lemmas_hold(c):
    """the product lemmas, over the integers"""
    import z3
    def pr(label, f):
        s = z3.Solver(); s.set('timeout', 20000); s.add(z3.Not(f)); c.lemma('arithmetic lemma: ' + label, s.check() == z3.unsat)
    t, A, r, C, M, k, y = z3.Ints('t A r C M k y')
    pr('t < A and r >= 1 imply t*r + r <= A*r', z3.Implies(z3.And(t >= 0, t + 1 <= A, r >= 1), z3.And(t * r + r <= A * r, t * r <= A * r)))
    q = z3.Int('q')
    pr('A <= C div r implies A*r <= C', z3.Implies(z3.And(r >= 1, A >= 0, q * r <= C, A <= q), A * r <= C))
    pr('r*A <= M iff r <= M div A', z3.Implies(z3.And(A >= 1, r >= 0, q >= 0, q * A <= M, M < q * A + A), (r * A <= M) == (r <= q)))
    pr('r >= 1 implies A <= A*r', z3.Implies(z3.And(r >= 1, A >= 0), A <= A * r))
    u, v = z3.Ints('u v')
    pr('M div (k*y) = (M div k) div y', z3.Implies(z3.And(k >= 1, y >= 1, u >= 0, u * k <= M, M < u * k + k, v >= 0, v * y <= u, u < v * y + y, q >= 0, q * (k * y) <= M, M < q * (k * y) + k * y), q == v))
def abstract_products(*ls):
    solver.ABSTRACT = True; solver.LEMMAS[:] = list(ls)

# ------------------------------------------------------------------ ROMix
def mk_smix(v):
    def t(c):
        """crypto_scrypt_smix computes scryptROMix (RFC 7914 section 5) for every r and N, within its buffers"""
        mod, pm, fname = VAR[v]
        ex = c.ex([mod]); f = ex.modules[0].funcs['@' + fname]
        product_lemmas_hold(c)
        r, N = var('r', 64), var('N', 64); S = tm.mulc(r, 128)
        st = State()
        for g in (ne(r, Z64), ult(r, K64(1 << 30)), ule(K64(2), N), eq(tm.band(N, sub(N, K64(1))), Z64), ule(N, tm.udiv(K64(CAP), r))): st.assume(g)
        abstract_products(product_lemma(N, r, And(ne(r, Z64), ule(N, tm.udiv(K64(CAP), r)))))
        B = ex.new_obj(st, 'B', S, 'arg', 64, content=Content(lambda o, dec=None: tm.uf('mix.B', 8, o)))
        V = ex.new_obj(st, 'V', tm.mulc(tm.mul(N, r), 128), 'arg', 64); XY = ex.new_obj(st, 'XY', add(tm.mulc(r, 256), K64(64)), 'arg', 64)
        B0 = lambda o: tm.uf('mix.B', 8, o)
        def XI(i, o): return B0(pm(o)) if i is Z64 else tm.uf('mix.X', 8, i, pm(o))
        def ZI(m, o): return XI(N, o) if m is Z64 else tm.uf('mix.Z', 8, m, pm(o))
        def J(m):
            base = sub(S, K64(64))
            w = le([ (tm.uf('mix.X', 8, N, add(base, K64(b))) if m is Z64 else tm.uf('mix.Z', 8, m, add(base, K64(b)))) for b in range(8)])
            return tm.band(w, sub(N, K64(1)))
        def VV(off, dec=None):
            cc, m = tm.lin(off); a = Z64; rest = {}
            for x, k in m.items():
                if x is r: a = add(a, K64(k // 128)); k %= 128; y = r
                elif x.op == '*' and r in x.a and len(x.a) == 2 and k % 128 == 0:
                    y = [z for z in x.a if z is not r]; a = add(a, tm.mulc(y[0] if y else r, k // 128)); k = 0
                if k: rest[x] = k
            o = tm.from_lin(cc, rest, 64)
            if dec is not None and a is not Z64 and dec(ult(o, S)) is True: return XI(a, o)
            if dec is not None and a is Z64 and dec(ult(o, S)) is True: return XI(Z64, o)
            return tm.uf('mix.V', 8, off)
        def one(x, names):
            return x if x.op == 'uf' and x.v in names else None
        def blockmix(ex, st, a):
            bi, bo, x, rr = a
            ex.oblige(st, eq(rr, r), 'precondition: BlockMix is applied with the block size parameter r')
            fin = ex.region_fn(st, bi, S)
            ex.access(st, x, 64, 'write')
            o = fresh('o', 64); s2 = st.clone(); s2.assume(ult(o, S))
            fn = None
            h = fin(o, ex.dec(s2))
            if h.op == 'uf' and h.v in ('mix.B', 'mix.X'):
                i = Z64 if h.v == 'mix.B' else h.a[0]
                if ex.prove(s2, eq(h, XI(i, o)))[0]:
                    i1 = add(i, K64(1)); fn = lambda k, dec=None: XI(i1, k)
                    if i1 is N: fn = None
            elif h.op == '^' and len(h.a) == 2:
                for p, q in (h.a, h.a[::-1]):
                    if p.op != 'uf' or q.op != 'uf' or q.v not in ('mix.X', 'mix.B'): continue
                    m = p.a[0] if p.v == 'mix.Z' else Z64 if p.v == 'mix.X' and p.a[0] is N else None
                    j = q.a[0] if q.v == 'mix.X' else Z64
                    if m is None or not ex.prove(s2, And(eq(j, J(m)), eq(p, ZI(m, o))))[0]: continue
                    if q.v == 'mix.X' and not ex.prove(s2, eq(q, XI(j, o)))[0]: continue
                    m1 = add(m, K64(1)); fn = lambda k, dec=None: ZI(m1, k); break
            if fn is None:
                u = fresh('bm', 64); fn = lambda k, dec=None: tm.uf('mem', 8, u, k)
            ex.write_region(st, bo, S, fn, bulk=True)
            ex.havoc(st, x, K64(64), 'Z')
        ex.contracts.update(blkcpy=k_blkcpy, blkxor=k_blkxor, blockmix_salsa8=blockmix)
        X = XY.addr; half = tm.mulc(N, 0)
        def load_inv(stride):
            def at(n):
                fn = lambda k, dec=None: XI(Z64, k)
                fn.grow = (tm.mulc(sub(n, K64(1)), stride), stride)
                return dict(mem=[(X, tm.mulc(n, stride), fn)], facts=[ule(tm.mulc(n, stride), S), ule(n, tm.mulc(r, 32))])
            return Inv(at, 'X <- B')
        def fill_at(n):
            x = lambda k, dec=None: XI(tm.mulc(n, 2), k)
            b = tm.mulc(tm.mul(tm.mulc(sub(n, K64(1)), 2), r), 128)
            vv = lambda k, dec=None: VV(k, dec)
            vv.segs = [(b, S), (add(b, S), S)]
            return dict(mem=[(X, S, x), (V.addr, tm.mulc(tm.mul(tm.mulc(n, 2), r), 128), vv)], facts=[ule(tm.mulc(n, 2), N), ule(n, N)])
        def mix_at(n): return dict(mem=[(X, S, lambda k, dec=None: ZI(tm.mulc(n, 2), k))], facts=[ule(tm.mulc(n, 2), N), ule(n, N)])
        def out_inv(stride):
            def at(n):
                fn = lambda k, dec=None: ZI2(k)
                fn.grow = (tm.mulc(sub(n, K64(1)), stride), stride)
                return dict(mem=[(B.addr, tm.mulc(n, stride), fn)], facts=[ule(tm.mulc(n, stride), S), ule(n, tm.mulc(r, 32))])
            return Inv(at, 'B <- X')
        STR = (64, 4) if v == 'sse' else (4, 64)
        ZI2 = lambda k: tm.uf('mix.Z', 8, N, k)
        phases = [lambda: [load_inv(x) for x in STR], lambda: Inv(fill_at, 'V_i'), lambda: Inv(mix_at, 'mixing'), lambda: [out_inv(x) for x in STR]]
        def spec(ex, st, header, blocks):
            if st.loops: return None
            p = st.ghost.get('phase', 0)
            st.ghost['phase'] = p + 1
            return phases[p]() if p < 4 else None
        ex.loop_specs[fname] = spec
        outs = ex.run_function(st, f, [B.addr, r, N, V.addr, XY.addr]); c.covered(outs)
        for s in outs:
            k = fresh('k', 64); s.assume(ult(k, S))
            for s2, h in ex.cases(s, lambda d: s.mem[B].read_bytes(k, 1, d)[0]):
                ex.oblige(s2, eq(h, ZI2(k)), '%s ensures B is scryptROMix_r(B, N)' % fname)
    return t
for _v in VAR: task('scrypt.romix.' + _v, 'C02', 'C03', 'C17', weight=3)(mk_smix(_v))

# ------------------------------------------------------------------ crypto_scrypt
from . import c_hash
SMIX = {'crypto_scrypt_smix': 'portable', 'crypto_scrypt_smix_sse2': 'SSE2'}
def faddr(ex, name):
    m = ex.modules[0]
    return ex.func_addr(m, '@' + name)
EINVAL, EFBIG, ENOMEM = 22, 27, 12
def errno_of(ex, s): return le(s.mem[env.errno_obj(ex, s)].read_bytes(Z64, 4, ex.dec(s)))

def mk_internal(which):
    def t(c):
        """crypto_scrypt: parameter checks and error codes, allocation sizes, releases, and the RFC 7914 composition"""
        ex = c.ex([TOP]); m = ex.modules[0]; f = m.funcs['@crypto_scrypt']
        product_lemmas_hold(c)
        r32, p32, N = var('r', 32), var('p', 32), var('N', 64)
        r, p = tm.zext(r32, 64), tm.zext(p32, 64); S = tm.mulc(r, 128)
        abstract_products(product_lemma(N, r, And(ne(r, Z64), ule(N, tm.udiv(K64(CAP), r)))), product_lemma(p, r, And(ne(r, Z64), ne(p, Z64), ult(tm.mul(p, r), K64(1 << 30)))), product_lemma(r, p, And(ne(r, Z64), ne(p, Z64), ult(tm.mul(p, r), K64(1 << 30)))), small_products)
        st = State()
        pl, sl, bl = var('passwdlen', 64), var('saltlen', 64), var('buflen', 64)
        for x in (pl, sl, bl): st.assume(ult(x, K64(1 << 60)))
        PW = ex.new_obj(st, 'passwd', pl, 'arg', content=Content(uf_base('passwd')), ro=True)
        SA = ex.new_obj(st, 'salt', sl, 'arg', content=Content(uf_base('salt')), ro=True)
        BUF = ex.new_obj(st, 'buf', bl, 'arg')
        ex.global_init['@smix_func'] = lambda ex, st, o: bytes_content(le_bytes(Z64 if which == 'first' else faddr(ex, which)))
        def select(ex, st, a):
            """selectsmix: one of the two implementations is selected (task scrypt.select)"""
            g = ex.global_obj(st, m, '@smix_func'); out = []
            for n in SMIX:
                s = st.clone(); ex.store(s, g.addr, faddr(ex, n)); out.append((s, None))
            return out
        if which == 'first': ex.contracts['selectsmix'] = select
        one = const(1, 64)
        pid = intern('key', (seg_fn(tm.uf('mem', 8, var('passwd', 64), K), pl),)); sid = intern('msg', (seg_fn(tm.uf('mem', 8, var('salt', 64), K), sl),))
        P0 = lambda o: c_hash.PBK(pid, sid, one, o)
        def MFB(off, dec=None):
            cc, mm = tm.lin(off); a = Z64; rest = {}
            for x, k in mm.items():
                if k % 128 == 0 and x is r: a = add(a, K64(k // 128)); k = 0
                elif k % 128 == 0 and x.op == '*' and r in x.a and len(x.a) == 2:
                    y = [z for z in x.a if z is not r]; a = add(a, tm.mulc(y[0] if y else r, k // 128)); k = 0
                if k: rest[x] = k
            o = tm.from_lin(cc, rest, 64)
            if dec is not None and dec(ult(o, S)) is True: return tm.uf('MF', 8, pid, sid, a, o)
            return tm.uf('MFB', 8, pid, sid, off)
        def k_smix(ex, st, a):
            """smix(B, r, N, V, XY): B becomes ROMix(B); contract proved by scrypt.romix.*"""
            b, rr, nn, v, xy = a
            ex.oblige(st, And(eq(rr, r), eq(nn, N)), 'smix is called with the caller\'s r and N')
            ex.oblige(st, And(ne(r, Z64), ult(r, K64(1 << 30)), ule(K64(2), N), eq(tm.band(N, sub(N, one)), Z64), ule(N, tm.udiv(K64(CAP), r))), 'C02,C03,C17: smix is called within its precondition (N a power of two above 1, sizes representable)')
            objs = []
            for nm, q, ln in (('B', b, S), ('V', v, tm.mulc(tm.mul(N, r), 128)), ('XY', xy, add(tm.mulc(r, 256), K64(64)))):
                x = ex.access(st, q, ln, 'write'); objs.append(x)
                if x is None or x[0].align < 16 or not all(k % 16 == 0 for k in tm.lin(x[1])[1].values()) or tm.lin(x[1])[0] % 16: ex.fail(st, 'smix buffer %s is aligned' % nm)
            if len({x[0] for x in objs if x}) != 3: ex.fail(st, 'smix buffers are distinct')
            o = fresh('o', 64); s2 = st.clone(); s2.assume(ult(o, S))
            off = objs[0][1]
            h = st.mem[objs[0][0]].read_bytes(add(off, o), 1, ex.dec(s2))[0]
            cc, mm = tm.lin(off); idx = None
            if not off.op == 'c':
                idx = Z64
                for x, k in mm.items():
                    y = [z for z in x.a if z is not r] if x.op == '*' and r in x.a and len(x.a) == 2 else None
                    if x is r: idx = add(idx, K64(k // 128))
                    elif y is not None and k % 128 == 0: idx = add(idx, tm.mulc(y[0] if y else r, k // 128))
                    else: idx = None; break
                if cc: idx = None
            elif off is Z64: idx = Z64
            if idx is not None and ex.prove(s2, eq(h, P0(add(off, o))))[0]: fn = lambda k, dec=None: tm.uf('MF', 8, pid, sid, idx, k)
            else:
                u = fresh('mf', 64); fn = lambda k, dec=None: tm.uf('mem', 8, u, k)
            ex.write_region(st, b, S, fn, bulk=True)
            ex.havoc(st, v, tm.mulc(tm.mul(N, r), 128), 'V'); ex.havoc(st, xy, add(tm.mulc(r, 256), K64(64)), 'XY')
        for n in SMIX: ex.contracts[n] = k_smix
        ex.contracts['PBKDF2_SHA256'] = c_hash.k_pbkdf2
        ex.contracts.update({'warn0': lambda *a: None, 'libcperciva_warn': lambda *a: None, 'libcperciva_warnx': lambda *a: None})
        def spec(ex, st, header, blocks):
            if st.loops: return None
            fr = st.frames[-1]
            bo = [o for o in st.mem if o.kind == 'heap' and st.status.get(o) == 'live' and o.size is tm.mulc(tm.mul(r, p), 128)]
            if len(bo) != 1: return None
            B = bo[0].addr
            def at(n):
                fn = lambda k, dec=None: MFB(k, dec)
                n1 = sub(n, one)
                fn.segs = [(tm.mulc(tm.mul(n1, r), 128), S)]
                done = tm.mulc(tm.mul(n, r), 128)
                return dict(mem=[(B, done, fn), (add(B, done), sub(bo[0].size, done), lambda k, dec=None: P0(add(done, k)))], facts=[ule(n, p)])
            return Inv(at, 'blocks mixed')
        for fn_ in m.funcs.values():
            if fn_.name.lstrip('@') != 'testsmix': ex.loop_specs[fn_.name.lstrip('@')] = spec
        outs = ex.run_function(st, f, [PW.addr, pl, SA.addr, sl, N, r32, p32, BUF.addr, bl]); c.covered(outs, 6)
        c1 = Or(eq(r, Z64), eq(p, Z64)); c2 = ult(K64((2**32 - 1) * 32), bl); c3 = ule(K64(1 << 30), tm.mul(r, p))
        c4 = Or(ne(tm.band(N, sub(N, one)), Z64), ult(N, K64(2))); c5 = ult(tm.udiv(K64(CAP), r), N)
        bad = Or(c1, c2, c3, c4, c5)
        nok = 0
        for s in outs:
            fails = [e[1] for e in s.trace if e[0] == 'fail']
            ok = eq(s.ret, const(0, 32))
            s0, s1 = s.clone(), s.clone(); s0.assume(ok); s1.assume(Not(ok))
            for o in s.status:
                if o.kind == 'heap': ex.obls.append(execu.Obligation('resource: %s is released when crypto_scrypt returns' % o.name, s.status[o] != 'live', 'crypto_scrypt'))
            if ex.feasible(s0, ok):
                nok += 1
                ex.oblige(s0, Not(bad), 'C02,C03: crypto_scrypt succeeds only for valid parameters')
                if fails: ex.fail(s0, 'C03: crypto_scrypt reports %s' % fails)
                k = fresh('k', 64); s0.assume(ult(k, bl))
                want = c_hash.PBK(pid, intern('msg', (seg_fn(tm.uf('MFB', 8, pid, sid, K), tm.mulc(tm.mul(r, p), 128)),)), one, k)
                for s2, h in ex.cases(s0, lambda d: s0.mem[BUF].read_bytes(k, 1, d)[0]):
                    ex.oblige(s2, eq(h, want), 'C02: crypto_scrypt ensures buf = PBKDF2(P, ROMix(B_0) || ... || ROMix(B_{p-1}), 1, dkLen) with B = PBKDF2(P, S, 1, 128rp)')
            if ex.feasible(s1, Not(ok)):
                ex.oblige(s1, eq(s1.ret, const(-1, 32)), 'C03: crypto_scrypt returns 0 or -1')
                if fails == ['munmap']: pass
                elif fails: ex.oblige(s1, eq(errno_of(ex, s1), const(ENOMEM, 32)), 'C03: failure to obtain memory is reported as ENOMEM')
                else:
                    e = errno_of(ex, s1)
                    E = lambda v: eq(e, const(v, 32))
                    ex.oblige(s1, bad, 'C03: crypto_scrypt fails only for invalid parameters or when memory cannot be obtained')
                    ex.oblige(s1, Or(And(E(EINVAL), Or(c1, c4)), And(E(EFBIG), Or(c2, c3)), And(E(ENOMEM), c5)), 'C03: crypto_scrypt sets errno to the documented error')
        c.lemma('vacuity guard: a successful path exists', nok >= 1)
    return t
def small_products(ts):
    """no lemma: 32-bit factors cannot overflow 64 bits (used with product_lemma guards)"""
    out = []
    for t in ts:
        if t.op == '*' and len(t.a) == 2 and all(tm.ub(x) < 1 << 32 for x in t.a):
            a, b = t.a
            out.append(Or(eq(a, Z64), ule(b, t))); out.append(Or(eq(b, Z64), ule(a, t)))
            out.append(Or(ne(a, Z64), eq(t, Z64))); out.append(Or(ne(b, Z64), eq(t, Z64)))
    return out
for _w in ('first', 'crypto_scrypt_smix', 'crypto_scrypt_smix_sse2'): task('scrypt.kdf.' + _w, 'C02', 'C03', 'C17', 'C18', weight=2)(mk_internal(_w))
