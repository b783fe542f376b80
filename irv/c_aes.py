"""Contracts for libcperciva/crypto/crypto_aes*.c (FIPS 197) and crypto_aesctr*.c (CTR mode)."""
from . import spec, intrin
from .tasks import *
from .loops import Inv
from .views import *
from .execu import Exec
from .env import c_insecure_memzero, set_errno
from . import env

AESNI = 'libcperciva/crypto/crypto_aes_aesni.c'
AES = 'libcperciva/crypto/crypto_aes.c'
CTR = 'libcperciva/crypto/crypto_aesctr.c'
CTRNI = 'libcperciva/crypto/crypto_aesctr_aesni.c'
KEYSIZE = 244            # sizeof(AES_KEY); only used for the abstract key object handed to callers

def E(kid, blk, j): return tm.uf('AES', 8, kid, blk, const(j, 64) if isinstance(j, int) else j)
def blk_of(bs): return le(bs)

def aes128_key_expansion(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [spec.sub8(x) for x in t[1:] + t[:1]]
            t[0] = tm.bxor(t[0], const(rc, 8))
            rc = (rc << 1) ^ (0x11b if rc & 0x80 else 0)
        w.append([tm.bxor(a, b) for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]

def cipher(rk, blk):
    """FIPS 197 5.1; one inner round is SubBytes, ShiftRows, MixColumns, AddRoundKey (= AESENC), the last omits MixColumns"""
    s = tm.bxor(blk, le(rk[0]))
    for k in rk[1:-1]: s = tm.mkuf('AESENC', 128, (s, le(k)))
    return tm.mkuf('AESENCLAST', 128, (s, le(rk[-1])))

def live_heap(s): return [o for o in s.status if o.kind == 'heap' and s.status[o] == 'live']

def erase_hook(c, ex, what):
    """a heap object must be all zero when it is released"""
    def h(ex, st, o):
        k = fresh('k', 64)
        s2 = st.clone(); s2.assume(ult(k, o.size))
        if not ex.feasible(s2, TRUE): return
        b = s2.mem[o].read_bytes(k, 1, ex.dec(s2))[0]
        if all(v is k or str(v.v).startswith('undef:') for v in tm.fvars(b)): b = const(0, 8)      # never written
        ex.oblige(s2, eq(b, const(0, 8)), 'erase: %s is zero when released' % what)
    ex.on_free.append(h)

@task('aes.aesni', 'C04', 'C11', 'C17', 'C18', weight=2)
def t_aesni(c):
    """crypto_aes_aesni.c: key expansion and block encryption == FIPS 197 (AES-256, AES-128); release erases"""
    m = build.module(AESNI)
    for n in (32, 16, None):
        ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
        st = State()
        ln = const(n, 64) if n else var('len', 64)
        key = [var('key%d' % i, 8) for i in range(n or 64)]
        if not n:
            st.assume(ne(ln, const(16, 64))); st.assume(ne(ln, const(32, 64)))
        ko = ex.new_obj(st, 'key', n or 64, 'arg', content=bytes_content(key), ro=True)
        outs = ex.run_function(st, m.funcs['@crypto_aes_key_expand_aesni'], [ko.addr, ln])
        c.covered(outs, 1 if not n else 2)
        good = 0
        for s in outs:
            if s.ret.op == 'c' and s.ret.v == 0:
                c.lemma('resource: crypto_aes_key_expand_aesni failure leaves nothing allocated', not live_heap(s), str(live_heap(s)), 'crypto_aes_key_expand_aesni')
                c.lemma('crypto_aes_key_expand_aesni fails only if memory is exhausted or the length is invalid', n is None or any(e[0] == 'fail' for e in s.trace), str(s.trace))
                continue
            c.lemma('crypto_aes_key_expand_aesni accepts only 16 and 32 byte keys', n is not None)
            if n is None: continue
            good += 1
            r = ex.resolve(s, s.ret)
            c.lemma('crypto_aes_key_expand_aesni ensures result is a fresh object', r is not None and r[0].kind == 'heap' and r[1] is Z64 and live_heap(s) == [r[0]], tm.show(s.ret))
            rk = (spec.aes256_key_expansion if n == 32 else aes128_key_expansion)(key)
            pin = [var('in%d' % i, 8) for i in range(16)]
            want = le_bytes(cipher(rk, le(pin)))
            for inplace in (False, True):
                s2 = s.clone()
                i = ex.new_obj(s2, 'in', 16, 'arg', content=bytes_content(pin), ro=not inplace)
                o = i if inplace else ex.new_obj(s2, 'out', 16, 'arg')
                for s3 in ex.run_function(s2, m.funcs['@crypto_aes_encrypt_block_aesni'], [i.addr, o.addr, s.ret]):
                    ex.oblige(s3, And(*[eq(a, b) for a, b in zip(ex.load_bytes(s3, o.addr, 16), want)]), 'crypto_aes_encrypt_block_aesni ensures out == AES-%d(key, in) (FIPS 197)' % (8 * n))
                    c.lemma('crypto_aes_encrypt_block_aesni neither allocates nor releases', live_heap(s3) == live_heap(s), '')
            s2 = s.clone()
            for s3 in ex.run_function(s2, m.funcs['@crypto_aes_encrypt_block_aesni_m128i'], [le(pin), s.ret]):
                ex.oblige(s3, eq(s3.ret, le(want)), 'crypto_aes_encrypt_block_aesni_m128i ensures result == AES-%d(key, in)' % (8 * n))
            s2 = s.clone()
            ex.on_free = []
            erase_hook(c, ex, 'expanded AES key')
            for s3 in ex.run_function(s2, m.funcs['@crypto_aes_key_free_aesni'], [s.ret]):
                c.lemma('resource: crypto_aes_key_free_aesni releases the key', not live_heap(s3), str(live_heap(s3)), 'crypto_aes_key_free_aesni')
        if n: c.lemma('vacuity guard: key expansion succeeds', good == 1)
    ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
    outs = ex.run_function(State(), m.funcs['@crypto_aes_key_free_aesni'], [const(0, 64)])
    c.covered(outs)

# ------------------------------------------------------------------ caller-level contracts (abstract key)
def new_key(ex, st, kid, name):
    o = ex.new_obj(st, name, KEYSIZE, 'heap', 16)
    new_blob(ex, st, o.addr, KEYSIZE, ('aeskey', kid), 'aeskey')
    o.data['aeskey'] = name
    return o

def key_of(ex, st, p):
    v, view = get_blob(ex, st, p, KEYSIZE, 'aeskey')
    return view[1]

def k_expand(name):
    def con(ex, st, a):
        kid = intern('key', (region_seg(ex, st, a[0], a[1]),))
        ex.oblige(st, Or(eq(a[1], const(16, 64)), eq(a[1], const(32, 64))), 'precondition: AES key length is 16 or 32')
        s2 = st.clone(); set_errno(ex, s2); s2.event('fail', name)
        o = new_key(ex, st, kid, name)
        return [(st, o.addr), (s2, const(0, 64))]
    return con

def k_encrypt(name):
    def con(ex, st, a):
        kid = key_of(ex, st, a[2])
        blk = le(ex.load_bytes(st, a[0], 16))
        ex.write_region(st, a[1], const(16, 64), lambda k, dec=None: E(kid, blk, k), bulk=True)
        r = ex.resolve(st, a[2])
        if r[0].data.get('aeskey') != name: ex.fail(st, 'precondition: expanded key belongs to the same implementation (%s)' % name)
        return None
    return con
def k_encrypt_m128i(ex, st, a):
    kid = key_of(ex, st, a[1])
    return le([E(kid, a[0], j) for j in range(16)])

def k_free(name):
    def con(ex, st, a):
        if a[0].op == 'c' and a[0].v == 0: return None
        r = ex.resolve(st, a[0])
        if r is None or r[1] is not Z64 or r[0].data.get('aeskey') != name or st.status.get(r[0]) != 'live':
            ex.fail(st, 'precondition: key being freed is a live key of the same implementation (%s)' % name); raise Abort('key free')
        st.status[r[0]] = 'dead'
        st.event('keyfree', r[0])
        return None
    return con

NI = {'crypto_aes_key_expand_aesni': k_expand('aesni'), 'crypto_aes_encrypt_block_aesni': k_encrypt('aesni'),
      'crypto_aes_encrypt_block_aesni_m128i': k_encrypt_m128i, 'crypto_aes_key_free_aesni': k_free('aesni')}
PUBLIC = {'crypto_aes_key_expand': k_expand('aes'), 'crypto_aes_encrypt_block': k_encrypt('aes'), 'crypto_aes_key_free': k_free('aes')}

# OpenSSL (trusted): AES_set_encrypt_key returns 0 and expands for 128/256-bit keys, AES_encrypt is FIPS 197
def x_set_key(ex, st, a):
    bits = a[1]
    n = bits.v // 8 if bits.op == 'c' else None
    if n not in (16, 32): raise Unsupported('AES_set_encrypt_key bits')
    kid = intern('key', (region_seg(ex, st, a[0], const(n, 64)),))
    s2 = st.clone(); s2.event('fail', 'AES_set_encrypt_key')
    new_blob(ex, st, a[2], KEYSIZE, ('aeskey', kid), 'aeskey')
    return [(st, const(0, 32)), (s2, const(-1, 32))]
def x_encrypt(ex, st, a):
    kid = key_of(ex, st, a[2])
    blk = le(ex.load_bytes(st, a[0], 16))
    ex.store_bytes(st, a[1], [E(kid, blk, j) for j in range(16)])
    return None
OPENSSL = {'AES_set_encrypt_key': x_set_key, 'AES_encrypt': x_encrypt}

def enum_values(m, glob):
    """(initial value of a static selector variable)"""
    g = m.globals.get(glob)
    return g[1][1] if g and g[1] and g[1][0] == 'int' else 0

def select_contract(glob, values):
    """hwaccel_init: afterwards the selector is one of the usable implementations, and it never changes once set"""
    def con(ex, st, a):
        mod = [m for m in ex.modules if glob in m.globals][0]
        o = ex.global_obj(st, mod, glob)
        init = const(enum_values(mod, glob), 32)
        cur = ex.load(st, o.addr, 4)
        if cur is init:
            v = fresh('hwaccel', 32)
            st.assume(Or(*[eq(v, const(x, 32)) for x in values]))
            ex.store(st, o.addr, v)
        return None
    return con

@task('aes.dispatch', 'C04', 'C11', 'C17', 'C18', 'C20')
def t_dispatch(c):
    """crypto_aes_key_expand / encrypt_block / key_free: same function whichever implementation was selected"""
    m = build.module(AES)
    for n in (32, 16):
        ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
        ex.contracts.update(NI); ex.externals.update(OPENSSL)
        ex.contracts['hwaccel_init'] = select_contract('@hwaccel', (0, 1))
        erase_hook(c, ex, 'expanded AES key')
        st = State()
        key = [var('key%d' % i, 8) for i in range(n)]
        ko = ex.new_obj(st, 'key', n, 'arg', content=bytes_content(key), ro=True)
        kid = intern('key', (seg_bytes(key),))
        outs = ex.run_function(st, m.funcs['@crypto_aes_key_expand'], [ko.addr, const(n, 64)])
        good = 0
        for s in outs:
            if s.ret.op == 'c' and s.ret.v == 0:
                c.lemma('resource: crypto_aes_key_expand failure leaves nothing allocated', not live_heap(s), str(live_heap(s)), 'crypto_aes_key_expand')
                c.lemma('crypto_aes_key_expand fails only on an allocation or library failure', any(e[0] == 'fail' for e in s.trace), str(s.trace))
                continue
            good += 1
            for inplace in (False, True):
                s2 = s.clone()
                pin = [var('in%d' % i, 8) for i in range(16)]
                i = ex.new_obj(s2, 'in', 16, 'arg', content=bytes_content(pin), ro=not inplace)
                o = i if inplace else ex.new_obj(s2, 'out', 16, 'arg')
                for s3 in ex.run_function(s2, m.funcs['@crypto_aes_encrypt_block'], [i.addr, o.addr, s.ret]):
                    ex.oblige(s3, And(*[eq(a, E(kid, le(pin), j)) for j, a in enumerate(ex.load_bytes(s3, o.addr, 16))]), 'crypto_aes_encrypt_block ensures out == AES(key, in) on the selected implementation')
            for s3 in ex.run_function(s.clone(), m.funcs['@crypto_aes_key_free'], [s.ret]):
                c.lemma('resource: crypto_aes_key_free releases the key', not live_heap(s3), str(live_heap(s3)), 'crypto_aes_key_free')
            for s3 in ex.run_function(s.clone(), m.funcs['@crypto_aes_key_free'], [const(0, 64)]):
                c.lemma('crypto_aes_key_free(NULL) does nothing', live_heap(s3) == live_heap(s))
        c.covered(outs, 3)
        c.lemma('vacuity guard: both implementations reached', good == 2, str(good))

# ------------------------------------------------------------------ CTR mode
BT, BUF, PB = 8, 16, 32           # struct crypto_aesctr: key, bytectr, buf[16], pblk[16]
SIZE = 48

def ctr_blk(nonce, q): return le(be_bytes(nonce) + be_bytes(q))
def KS(kid, nonce, k):
    """keystream byte k: byte k mod 16 of AES_K(be64(nonce) || be64(k / 16))"""
    return E(kid, ctr_blk(nonce, tm.lshr(k, const(4, 64))), tm.band(k, const(15, 64)))

def rep_facts(ex, st, so, kid, nonce, B):
    d = ex.dec(st)
    rd = lambda o, n: st.mem[so].read_bytes(const(o, 64), n, d)
    q = tm.lshr(B, const(4, 64))
    part = ne(tm.band(B, const(15, 64)), Z64)
    last = ite(part, q, sub(q, const(1, 64)))
    f = [eq(le(rd(BT, 8)), B), eq(le(rd(PB, 8)), le(be_bytes(nonce))),
         Or(eq(rd(PB + 15, 1)[0], const(0xff, 8)), eq(le(rd(PB + 8, 8)), le(be_bytes(last))))]
    buf = rd(BUF, 16)
    f += [tm.Implies(part, eq(b, E(kid, ctr_blk(nonce, q), j))) for j, b in enumerate(buf)]
    return f

def fresh_rep(ex, st, so, key, kid, nonce, q60, m):
    """an arbitrary stream object satisfying the representation invariant at position B = 16 q + m"""
    q = tm.zext(q60, 64)
    m4 = const(m, 4) if m == 0 else var('m', 4)
    st.assume(eq(eq(m4, const(0, 4)), TRUE if m == 0 else FALSE))
    B = add(tm.cat(q60, const(0, 4)), tm.zext(m4, 64))
    ex.store(st, so.addr, key.addr)
    ex.store(st, add(so.addr, const(BT, 64)), B)
    ex.store_bytes(st, add(so.addr, const(PB, 64)), be_bytes(nonce))
    ctr = var('pblkctr', 64)
    ex.store_bytes(st, add(so.addr, const(PB + 8, 64)), be_bytes(ctr))
    st.assume(Or(eq(tm.trunc(ctr, 8), const(0xff, 8)), eq(ctr, q if m else sub(q, const(1, 64)))))
    if m: ex.write_region(st, add(so.addr, const(BUF, 64)), const(16, 64), lambda k, dec=None: E(kid, ctr_blk(nonce, q), k), bulk=True)
    for f in rep_facts(ex, st, so, kid, nonce, B): st.assume(f)
    return B

def ctr_soft(so, kid, nonce):
    def soft(n, vals, st):
        ex = soft.ex
        d = ex.dec(st)
        rd = lambda o, n: st.mem[so].read_bytes(const(o, 64), n, d)
        bt = le(rd(BT, 8))
        q = tm.lshr(bt, const(4, 64))
        f = [eq(le(rd(PB, 8)), le(be_bytes(nonce))),
             Or(eq(rd(PB + 15, 1)[0], const(0xff, 8)), eq(le(rd(PB + 8, 8)), le(be_bytes(sub(q, const(1, 64))))))]
        return f
    return soft

USE = 'crypto_aesctr_stream_cipherblock_use'
def con_use(ex, st, a):
    """consume nbytes of the current cipherblock from offset bytemod: out[i] = in[i] ^ buf[bytemod + i]; advance everything"""
    so, pin, pout, plen, n, bm = a
    inp, outp, ln = ex.load(st, pin, 8), ex.load(st, pout, 8), ex.load(st, plen, 8)
    ex.oblige(st, And(ule(n, const(16, 64)), ule(bm, sub(const(16, 64), n))), 'precondition: bytes used lie within the cipherblock')
    ex.oblige(st, ule(n, ln), 'precondition: bytes used do not exceed the buffer length')
    fi = ex.region_fn(st, inp, n)
    fb = ex.region_fn(st, add(so, const(BUF, 64)), const(16, 64))
    ex.write_region(st, outp, n, lambda k, dec=None: tm.bxor(fi(k, dec), fb(add(bm, k), dec)), bulk=True)
    pb = add(so, const(BT, 64))
    ex.store(st, pb, add(ex.load(st, pb, 8), n))
    ex.store(st, pin, add(inp, n)); ex.store(st, pout, add(outp, n)); ex.store(st, plen, sub(ln, n))
    return None

def use_ok(c, m, inplace):
    """does the helper (if the code has it) satisfy con_use?  If not, it is simply executed in place."""
    f = m.funcs.get('@' + USE)
    if f is None or len(f.params) != 6: return False
    ex = Exec([m]); ex.externals.update(env.EXT); ex.prove_hooks = (id_hook,)
    st = State()
    n, bm, ln, N, pos = (var(x, 64) for x in ('nbytes', 'bytemod', 'len', 'N', 'pos'))
    for x in (ln, N, pos): st.assume(ult(x, const(1 << 62, 64)))
    st.assume(ule(n, const(16, 64))); st.assume(ule(bm, sub(const(16, 64), n))); st.assume(ule(n, ln))
    st.assume(ule(n, N)); st.assume(ule(pos, sub(N, n)))
    so = ex.new_obj(st, 'stream', SIZE, 'arg', 8)
    i = ex.new_obj(st, 'in', N, 'arg', content=Content(uf_base('INPUT')), ro=not inplace)
    o = i if inplace else ex.new_obj(st, 'out', N, 'arg', content=Content(uf_base('OUT')))
    ps = [ex.new_obj(st, x, 8, 'arg', 8) for x in ('inbuf', 'outbuf', 'buflen')]
    for p, v in zip(ps, (add(i.addr, pos), add(o.addr, pos), ln)): ex.store(st, p.addr, v)
    args = [so.addr] + [p.addr for p in ps] + [n, bm]
    want = st.clone(); con_use(ex, want, args)
    try: outs = ex.run_function(st, f, args)
    except Exception: return False
    if not outs: return False
    for s in outs:
        for ob in (so, o, *ps):
            k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, ob.size))
            d = ex.dec(s2)
            ex.oblige(s2, eq(s2.mem[ob].read_bytes(k, 1, d)[0], want.mem[ob].read_bytes(k, 1, d)[0]), USE + ' ensures its contract (%s)' % ob.name)
        for ob, cc in s.mem.items():
            if ob.kind == 'arg' and ob not in (so, o, *ps) and cc is not st.mem.get(ob) and False: return False
    if all(x.ok for x in ex.obls):
        c.exs.append(ex)
        return True
    return False

def ctr_task(ni, inplace, ms):
    def t(c):
        mods = [build.module(CTR), build.module(CTRNI)]
        use = use_ok(c, mods[ni], inplace)
        for m in ms: ctr_case(c, mods, ni, inplace, m, use)
    t.__doc__ = 'crypto_aesctr_stream: out == in xor CTR keystream at any position and any length (%s, %s)' % ('AESNI' if ni else 'software', 'in place' if inplace else 'separate buffers')
    return t

def ctr_case(c, mods, ni, inplace, m, use):
        ex = c.ex(mods); ex.contracts['insecure_memzero'] = c_insecure_memzero
        ex.contracts.update(PUBLIC); ex.contracts['crypto_aes_encrypt_block_aesni_m128i'] = k_encrypt_m128i
        if use: ex.contracts[USE] = con_use
        st = State()
        kid, nonce, q60, n = var('kid', 64), var('nonce', 64), var('q', 60), var('buflen', 64)
        key = ex.new_obj(st, 'key', KEYSIZE, 'arg', 16, ro=False)
        new_blob(ex, st, key.addr, KEYSIZE, ('aeskey', kid), 'aeskey'); key.data['aeskey'] = 'aes'
        so = ex.new_obj(st, 'stream', SIZE, 'arg', 8)
        st.assume(ult(n, const(1 << 62, 64))); st.assume(ult(q60, const(1 << 58, 60)))
        B = fresh_rep(ex, st, so, key, kid, nonce, q60, m)
        i = ex.new_obj(st, 'in', n, 'arg', content=Content(uf_base('INPUT')), ro=not inplace)
        o = i if inplace else ex.new_obj(st, 'out', n, 'arg', content=Content(uf_base('OUT')))
        hw = ex.global_obj(st, mods[0], '@hwaccel'); ex.store(st, hw.addr, const(ni, 32))
        soft = ctr_soft(so, kid, nonce); soft.ex = ex
        ex.loop_specs['*'] = lambda ex, st, h, b: Inv(name='CTR counter block', soft=soft, auto=True, hints={o: lambda k, dec=None: tm.bxor(uf_base('INPUT')(k), KS(kid, nonce, add(B, k)))})
        outs = ex.run_function(st, mods[0].funcs['@crypto_aesctr_stream'], [so.addr, i.addr, o.addr, n])
        c.covered(outs, 2)
        inp = uf_base('INPUT')
        for s in outs:
            s2 = s.clone()
            k = fresh('k', 64); s2.assume(ult(k, n))
            if ex.feasible(s2, TRUE):
                for s3, b in ex.cases(s2, lambda d: s2.mem[o].read_bytes(k, 1, d)[0]):
                  ex.oblige(s3, eq(b, tm.bxor(inp(k), KS(kid, nonce, add(B, k)))), 'crypto_aesctr_stream ensures out[k] == in[k] ^ AES_K(nonce || block counter)[(B + k) mod 16]')
            if not inplace:
                s2 = s.clone(); s2.assume(ult(k, n))
                if ex.feasible(s2, TRUE):
                    ex.oblige(s2, eq(s2.mem[i].read_bytes(k, 1, ex.dec(s2))[0], inp(k)), 'crypto_aesctr_stream leaves the input unchanged')
            lab = 'crypto_aesctr_stream ensures the stream object represents position B + buflen'
            B2 = add(B, n)
            for f in rep_facts(ex, s, so, kid, nonce, B2)[:3]: ex.oblige(s.clone(), f, lab)
            s2 = s.clone(); s2.assume(ne(tm.trunc(B2, 4), const(0, 4)))
            if ex.feasible(s2, TRUE):
                for j, b in enumerate(s2.mem[so].read_bytes(const(BUF, 64), 16, ex.dec(s2))):
                    ex.oblige(s2.clone(), eq(b, E(kid, ctr_blk(nonce, tm.lshr(B2, const(4, 64))), j)), lab)
            ex.oblige(s, eq(ex.load(s, so.addr, 8), key.addr), 'crypto_aesctr_stream keeps the key')
for _ni in (0, 1):
    for _ip in (0, 1):
        for _m in (0, 1):
            task('aesctr.stream.%s.%s.%s' % ('ni' if _ni else 'sw', 'inplace' if _ip else 'sep', 'mid' if _m else 'start'), 'C04', 'C17')(ctr_task(_ni, _ip, (_m,)))

# ---- life cycle
def aeskey_obj(ex, st, kid, name='aes'):
    key = ex.new_obj(st, 'key', KEYSIZE, 'arg', 16, ro=False)
    new_blob(ex, st, key.addr, KEYSIZE, ('aeskey', kid), 'aeskey'); key.data['aeskey'] = name
    return key

@task('aesctr.lifecycle', 'C04', 'C11', 'C17', 'C18', 'C20')
def t_ctr_life(c):
    """crypto_aesctr_alloc/init/init2/free/buf: position 0 of the keystream for (key, nonce); release erases; hwaccel consistent with crypto_aes"""
    m = build.module(CTR)
    kid, nonce = var('kid', 64), var('nonce', 64)
    def mk():
        ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero; ex.contracts.update(PUBLIC)
        ex.contracts['hwaccel_init'] = select_contract('@hwaccel', (0, 1))
        st = State()
        return ex, st, aeskey_obj(ex, st, kid)
    # hwaccel selection
    ex = c.ex([m])
    def can_use(ex, st, a):
        r = fresh('intrinsics', 32); st.assume(Or(eq(r, const(0, 32)), eq(r, const(1, 32)))); st.ghost['can'] = r; return r
    ex.contracts['crypto_aes_can_use_intrinsics'] = can_use
    init = enum_values(m, '@hwaccel')
    if '@hwaccel_init' in m.funcs:
        for start in (init, 0, 1):
            st = State(); o = ex.global_obj(st, m, '@hwaccel'); ex.store(st, o.addr, const(start, 32))
            outs = ex.run_function(st, m.funcs['@hwaccel_init'], [])
            c.covered(outs)
            for s in outs:
                v = ex.load(s, o.addr, 4)
                if start == init:
                    ex.oblige(s, Or(eq(v, const(0, 32)), And(eq(v, const(1, 32)), eq(s.ghost.get('can', const(0, 32)), const(1, 32)))), 'hwaccel_init (AES-CTR) ensures AESNI code is selected only when crypto_aes uses AESNI keys')
                    ex.oblige(s, ne(v, const(init, 32)), 'hwaccel_init (AES-CTR) ensures a selection was made')
                else: ex.oblige(s, eq(v, const(start, 32)), 'hwaccel_init (AES-CTR) keeps an earlier selection')
    else: c.lemma('AES-CTR implementation selection (hwaccel_init) present', False)
    # init2, with and without a new key
    for newkey in (True, False):
        ex, st, key = mk()
        so = ex.new_obj(st, 'stream', SIZE, 'arg', 8)
        if not newkey: ex.store(st, so.addr, key.addr)
        outs = ex.run_function(st, m.funcs['@crypto_aesctr_init2'], [so.addr, key.addr if newkey else const(0, 64), nonce])
        c.covered(outs)
        for s in outs:
            for f in rep_facts(ex, s, so, kid, nonce, const(0, 64)): ex.oblige(s, f, 'crypto_aesctr_init2 ensures the stream is at position 0 for (key, nonce)')
            ex.oblige(s, eq(ex.load(s, so.addr, 8), key.addr), 'crypto_aesctr_init2 ensures the key is the given (or retained) one')
    # init / alloc / free
    ex, st, key = mk()
    outs = ex.run_function(st, m.funcs['@crypto_aesctr_init'], [key.addr, nonce])
    c.covered(outs, 2)
    for s in outs:
        if s.ret.op == 'c' and s.ret.v == 0:
            c.lemma('resource: crypto_aesctr_init failure leaves nothing allocated', not live_heap(s), str(live_heap(s)), 'crypto_aesctr_init')
            c.lemma('crypto_aesctr_init fails only if memory is exhausted', any(e[0] == 'fail' for e in s.trace))
            continue
        r = ex.resolve(s, s.ret)
        if r is None or r[0].kind != 'heap': c.lemma('crypto_aesctr_init ensures a fresh object', False); continue
        for f in rep_facts(ex, s, r[0], kid, nonce, const(0, 64)): ex.oblige(s, f, 'crypto_aesctr_init ensures the stream is at position 0 for (key, nonce)')
        ex.oblige(s, eq(ex.load(s, r[0].addr, 8), key.addr), 'crypto_aesctr_init ensures the key is the given one')
        s2 = s.clone(); ex.havoc(s2, r[0].addr, r[0].size)
        erase_hook(c, ex, 'AES-CTR stream')
        for s3 in ex.run_function(s2, m.funcs['@crypto_aesctr_free'], [r[0].addr]):
            c.lemma('resource: crypto_aesctr_free releases the stream', not live_heap(s3), '', 'crypto_aesctr_free')
    ex, st, key = mk()
    c.covered(ex.run_function(st, m.funcs['@crypto_aesctr_free'], [const(0, 64)]))
    # buf
    for inplace in (False, True):
        ex, st, key = mk()
        ex.contracts.update({k: v for k, v in CTR_PUBLIC.items() if k in ('crypto_aesctr_init2', 'crypto_aesctr_stream')})
        n = var('buflen', 64)
        i = ex.new_obj(st, 'in', n, 'arg', content=Content(uf_base('INPUT')), ro=not inplace)
        o = i if inplace else ex.new_obj(st, 'out', n, 'arg')
        st.assume(ult(n, const(1 << 62, 64)))
        def exit_hook(ex, st, fr):
            for ob in fr.allocas:
                if ob.size is const(SIZE, 64):
                    bs = st.mem[ob].read_bytes(Z64, SIZE, ex.dec(st))
                    ex.oblige(st, And(*[eq(b, const(0, 8)) for b in bs]), 'erase: local AES-CTR stream is zero when its function returns')
        ex.frame_exit_hook = exit_hook
        outs = ex.run_function(st, m.funcs['@crypto_aesctr_buf'], [key.addr, nonce, i.addr, o.addr, n])
        c.covered(outs)
        for s in outs:
            k = fresh('k', 64); s.assume(ult(k, n))
            if not ex.feasible(s, TRUE): continue
            ex.oblige(s, eq(s.mem[o].read_bytes(k, 1, ex.dec(s))[0], tm.bxor(tm.uf('mem', 8, var('INPUT', 64), k), CTRS(kid, nonce, k))), 'crypto_aesctr_buf ensures out == in ^ keystream(key, nonce) from position 0')

# caller-level contracts: the stream is an abstract object (key, nonce, position)
def CTRS(kid, nonce, k): return tm.uf('CTR', 8, kid, nonce, k)
def k_init2(ex, st, a):
    so, key, nonce = a
    if key.op == 'c' and key.v == 0:
        kid = get_blob(ex, st, so, SIZE, 'aesctr')[1][1]
    else: kid = key_of(ex, st, key)
    new_blob(ex, st, so, SIZE, ('aesctr', kid, nonce, const(0, 64)), 'aesctr')
    return None
def k_ctr_init(ex, st, a):
    kid = key_of(ex, st, a[0])
    s2 = st.clone(); set_errno(ex, s2, const(12, 32)); s2.event('fail', 'crypto_aesctr_init')
    o = ex.new_obj(st, 'aesctr', SIZE, 'heap', 16)
    new_blob(ex, st, o.addr, SIZE, ('aesctr', kid, a[1], const(0, 64)), 'aesctr')
    o.data['aesctr'] = True
    return [(st, o.addr), (s2, const(0, 64))]
def k_stream(ex, st, a):
    so, pin, pout, n = a
    v, (_, kid, nonce, B) = get_blob(ex, st, so, SIZE, 'aesctr')
    ri, ro = ex.resolve(st, pin), ex.resolve(st, pout)
    if ri and ro and ri[0] is ro[0]:
        ex.oblige(st, Or(eq(pin, pout), eq(n, Z64), ule(n, sub(pin, pout)) if False else And(ule(n, sub(pin, pout)), ule(n, sub(pout, pin)))), 'precondition: AES-CTR input and output are identical or disjoint')
    f = ex.region_fn(st, pin, n)
    ex.write_region(st, pout, n, lambda k, dec=None: tm.bxor(f(k, dec), CTRS(kid, nonce, add(B, k))))
    new_blob(ex, st, so, SIZE, ('aesctr', kid, nonce, add(B, n)), 'aesctr')
    return None
def k_ctr_free(ex, st, a):
    if a[0].op == 'c' and a[0].v == 0: return None
    r = ex.resolve(st, a[0])
    if r is None or r[1] is not Z64 or not r[0].data.get('aesctr') or st.status.get(r[0]) != 'live':
        ex.fail(st, 'precondition: AES-CTR stream being freed is live'); raise Abort('aesctr free')
    st.status[r[0]] = 'dead'
    return None
def k_ctr_buf(ex, st, a):
    kid = key_of(ex, st, a[0])
    f = ex.region_fn(st, a[2], a[4])
    ex.write_region(st, a[3], a[4], lambda k, dec=None: tm.bxor(f(k, dec), CTRS(kid, a[1], k)))
    return None
CTR_PUBLIC = {'crypto_aesctr_init2': k_init2, 'crypto_aesctr_init': k_ctr_init, 'crypto_aesctr_stream': k_stream, 'crypto_aesctr_free': k_ctr_free, 'crypto_aesctr_buf': k_ctr_buf}
