"""Contracts for libcperciva/alg/sha256*.c : SHA-256, HMAC, PBKDF2 (FIPS 180-4, RFC 2104, RFC 8018)."""
from . import spec, sweep
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero

MODS = ['libcperciva/alg/sha256.c', 'libcperciva/alg/sha256_sse2.c', 'libcperciva/alg/sha256_shani.c']
P = 'libcperciva_'
LIM = const(1 << 61, 64)

# ------------------------------------------------------------------ compression function
def words_be(bs): return [be(bs[4 * i:4 * i + 4]) for i in range(len(bs) // 4)]
def words_le(bs): return [le(bs[4 * i:4 * i + 4]) for i in range(len(bs) // 4)]

@task('sha256.transform', 'C01', 'C20', 'C17', weight=3)
def t_transform(c):
    """SHA256_Transform (portable, SSE2, SHA-NI dispatch) == FIPS 180-4 6.2.2"""
    ex = c.ex(MODS)
    m = ex.modules[0]
    st = State()
    sw = [var('h%d' % i, 32) for i in range(8)]; bw = [var('m%d' % i, 32) for i in range(16)]
    s = ex.new_obj(st, 'state', 32, 'arg', content=bytes_content(sum([le_bytes(x) for x in sw], [])))
    b = ex.new_obj(st, 'block', 64, 'arg', content=bytes_content(sum([be_bytes(x) for x in bw], [])), ro=True)
    W = ex.new_obj(st, 'W', 256, 'arg'); S = ex.new_obj(st, 'S', 32, 'arg')
    ex.global_init['@hwaccel'] = lambda ex, st, o: bytes_content(le_bytes(var('hwaccel', 32)))
    outs = ex.run_function(st, m.funcs['@SHA256_Transform'], [s.addr, b.addr, W.addr, S.addr])
    c.covered(outs, 1)
    want = spec.sha256_compress(sw, bw)
    for o in outs:
        sp = sweep.Sweep()
        for i in range(8):
            ok, cex = sp.equal(ex.load(o, add(s.addr, const(4 * i, 64)), 4), want[i])
            c.lemma('SHA256_Transform ensures state[%d] == FIPS 180-4 compression (path %s)' % (i, '; '.join(tm.show(p, 3) for p in o.pc)), ok, func='SHA256_Transform')

def transform_contract(Tf=None, F=None):
    """Transform(state, block, W, S).  If the state is fold(T, x) and the block is T[64x..], the result is fold(T, x+1)
    (the recursive definition of the fold); otherwise the compression function applied."""
    def con(ex, st, a):
        sb = ex.load_bytes(st, a[0], 32); bb = ex.load_bytes(st, a[1], 64)
        ws = words_le(sb)
        x = None
        if F is not None and all(w.op == 'uf' and w.v == (F, i) and w.a[0] is ws[0].a[0] for i, w in enumerate(ws)):
            x = ws[0].a[0]
            d = ex.dec(st)
            g = And(*[eq(bb[j], Tf(add(tm.mulc(x, 64), const(j, 64)), d)) for j in range(64)])
            if ex.prove(st, g)[0]:
                ex.obls and None
                if not ex.quiet: ex.oblige(st, g, 'Transform is applied to the next 64-byte block of the message')
                out = [tm.uf((F, i), 32, add(x, const(1, 64))) for i in range(8)]
            else: x = None
        if x is None:
            out = [tm.uf(('C', i), 32, *(ws + words_be(bb))) for i in range(8)]
        ex.store_bytes(st, a[0], sum([le_bytes(w) for w in out], []))
        if len(a) > 2: ex.havoc(st, a[2], const(256, 64), 'W')
        if len(a) > 3: ex.havoc(st, a[3], const(32, 64), 'S')
        return None
    return con

def base_ex(c):
    ex = c.ex(MODS)
    ex.contracts['insecure_memzero'] = c_insecure_memzero
    ex.contracts['hwaccel_init'] = lambda ex, st, a: None
    return ex

def erase_locals(ex, st, fr):
    """every local array is erased (constant), or was never written, when its function returns"""
    if ex.quiet: return
    for o in fr.allocas:
        if o.size.op != 'c' or not 16 <= o.size.v <= 8192: continue
        bs = st.mem[o].read_bytes(const(0, 64), o.size.v, ex.dec(st))
        ok = all(b.op == 'c' or all(isinstance(v.v, str) and v.v.startswith('undef:') for v in tm.fvars(b)) for b in bs)
        if ok: ex.obls.append(execu.Obligation('erase: %s is erased when %s returns' % (o.name, fr.fn.name.lstrip('@')), True, fr.fn.name))
        else: ex.oblige(st.clone(), And(*[eq(b, const(0, 8)) for b in bs]), 'erase: %s is erased when %s returns' % (o.name, fr.fn.name.lstrip('@')))

def rep_ctx(ex, st, name, Tf, F, L):
    """concrete representation of a SHA256_CTX that has absorbed T[0..L)"""
    o = ex.new_obj(st, name, 104, 'arg')
    d = ex.dec(st)
    q = tm.lshr(L, const(6, 64))
    r = tm.band(L, const(63, 64))
    bs = sum([le_bytes(tm.uf((F, i), 32, q)) for i in range(8)], [])
    bs += le_bytes(tm.shl(L, const(3, 64)))
    for j in range(64):
        bs.append(ite(ult(const(j, 64), r), Tf(add(tm.mulc(q, 64), const(j, 64)), d), var('%s.junk%d' % (name, j), 8)))
    st.mem[o] = bytes_content(bs)
    return o

def check_rep(c, ex, st, ptr, Tf, F, L, what):
    """postcondition: *ptr represents T[0..L)"""
    bs = ex.load_bytes(st, ptr, 104)
    q = tm.lshr(L, const(6, 64))
    r = tm.band(L, const(63, 64))
    ws = words_le(bs[:32])
    ex.oblige(st, And(*[eq(ws[i], tm.uf((F, i), 32, q)) for i in range(8)]), '%s ensures chaining state == fold of the complete blocks' % what)
    ex.oblige(st, eq(le(bs[32:40]), tm.shl(L, const(3, 64))), '%s ensures bit count == 8 * length' % what)
    j = fresh('j', 64)
    s2 = st.clone(); s2.assume(ult(j, r))
    if ex.feasible(s2, TRUE):
        d = ex.dec(s2)
        ob, off = ex.resolve(s2, ptr)
        have = s2.mem[ob].read_bytes(add(off, add(const(40, 64), j)), 1, d)[0]
        ex.oblige(s2, eq(have, Tf(add(tm.mulc(q, 64), j), d)), '%s ensures buffered bytes == message tail' % what)

def foldinv(ex, ctxptr, F):
    """loop specification: the chaining state advances by one block per iteration"""
    def sp(ex, st, header, blocks):
        f = st.frames[-1].fn
        calls = any(i.op == 'call' and not (i.x[0][0] == 'glb' and i.x[0][1].startswith('@llvm.')) for b in blocks for i in f.blocks[b])
        if not calls: return None
        ws = words_le(ex.load_bytes(st, ctxptr, 32))
        if not all(w.op == 'uf' and w.v == (F, i) for i, w in enumerate(ws)): return None
        x0 = ws[0].a[0]
        def at(n):
            x = add(x0, n)
            def fn(k, dec=None):
                assert k.op == 'c'
                return le_bytes(tm.uf((F, k.v // 4), 32, x))[k.v % 4]
            return {'mem': [(ctxptr, 32, fn)]}
        return Inv(at, 'state == fold(T, q+n)')
    return sp

@task('sha256.update', 'C01', 'C17')
def t_update(c):
    """SHA256_Update_internal: rep(T, L) and in == T[L..L+len)  ==>  rep(T, L+len)"""
    ex = base_ex(c)
    Tf = lambda k, d=None: tm.uf('T', 8, k)
    ex.contracts['SHA256_Transform'] = transform_contract(Tf, 'F')
    st = State()
    L, n = var('L', 64), var('len', 64)
    st.assume(ult(L, LIM)); st.assume(ult(n, LIM)); st.assume(ult(add(L, n), LIM))
    o = rep_ctx(ex, st, 'ctx', Tf, 'F', L)
    i = ex.new_obj(st, 'in', n, 'arg', content=Content(lambda k, d=None: Tf(add(L, k))), ro=True)
    t = ex.new_obj(st, 'tmp32', 288, 'arg')
    ex.loop_specs['*'] = foldinv(ex, o.addr, 'F')
    outs = ex.run_function(st, ex.modules[0].funcs['@SHA256_Update_internal'], [o.addr, i.addr, n, t.addr])
    c.covered(outs, 3)
    for s in outs: check_rep(c, ex, s, o.addr, Tf, 'F', add(L, n), 'SHA256_Update_internal')

def padded(M, L):
    nb = tm.lshr(add(L, const(72, 64)), const(6, 64))
    end = sub(tm.mulc(nb, 64), const(8, 64))
    bc = be_bytes(tm.shl(L, const(3, 64)))
    def Tf(k, d=None):
        r = bc[7]
        for i in range(6, -1, -1): r = ite(eq(k, add(end, const(i, 64))), bc[i], r)
        return ite(ult(k, L), M(k, d), ite(eq(k, L), const(0x80, 8), ite(ult(k, end), const(0, 8), r)))
    return Tf, nb

@task('sha256.final', 'C01', 'C17')
def t_final(c):
    """SHA256_Final_internal: digest == fold over the padded message (FIPS 180-4 5.1.1, 6.2.2)"""
    ex = base_ex(c)
    st = State()
    L = var('L', 64)
    st.assume(ult(L, LIM))
    M = lambda k, d=None: tm.uf('T', 8, k)
    Tf, nb = padded(M, L)
    ex.contracts['SHA256_Transform'] = transform_contract(Tf, 'F')
    o = rep_ctx(ex, st, 'ctx', M, 'F', L)
    dg = ex.new_obj(st, 'digest', 32, 'arg'); t = ex.new_obj(st, 'tmp32', 288, 'arg')
    outs = ex.run_function(st, ex.modules[0].funcs['@SHA256_Final_internal'], [dg.addr, o.addr, t.addr])
    c.covered(outs, 2)
    for s in outs:
        ws = words_be(ex.load_bytes(s, dg.addr, 32))
        for i in range(8):
            ex.oblige(s, eq(ws[i], tm.uf(('F', i), 32, nb)), 'SHA256_Final_internal ensures digest word %d == fold over all padded blocks' % i)

@task('sha256.init', 'C01')
def t_init(c):
    ex = base_ex(c)
    st = State()
    o = ex.new_obj(st, 'ctx', 104, 'arg')
    outs = ex.run_function(st, ex.modules[0].funcs['@' + P + 'SHA256_Init'], [o.addr])
    c.covered(outs)
    for s in outs:
        bs = ex.load_bytes(s, o.addr, 40)
        ws = words_le(bs[:32])
        for i in range(8): ex.oblige(s, eq(ws[i], const(spec.SHA_IV[i], 32)), 'SHA256_Init ensures state[%d] == H(0) of FIPS 180-4' % i)
        ex.oblige(s, eq(le(bs[32:40]), const(0, 64)), 'SHA256_Init ensures count == 0')

# ------------------------------------------------------------------ caller-level contracts over ropes
def H(rid, i): return tm.uf(('H', i), 8, rid)
def HM(kid, mid, i): return tm.uf(('HM', i), 8, kid, mid)
def PBK(pid, sid, c, k): return tm.uf('PBKDF2', 8, pid, sid, c, k)

def disjoint(ex, st, p, n, q, m, what):
    """precondition: [p,p+n) and [q,q+m) do not overlap"""
    a, b = ex.resolve(st, p), ex.resolve(st, q)
    if a is None or b is None or a[0] is not b[0]: return
    N = const(n, 64) if isinstance(n, int) else n
    M = const(m, 64) if isinstance(m, int) else m
    ex.oblige(st, Or(ule(add(a[1], N), b[1]), ule(add(b[1], M), a[1])), 'precondition: %s' % what)

def append(ex, st, rid, kind, ptr, n):
    segs = ROPES[rid][1] + (region_seg(ex, st, ptr, n),)
    return intern(kind, segs)

def maybe_havoc(ex, st, a, i, n):
    if len(a) > i and a[i].w == 64 and not (a[i].op == 'c'):
        ex.havoc(st, a[i], const(n, 64), 'tmp')

def k_sha_init(ex, st, a):
    new_blob(ex, st, a[0], 104, ('sha', intern('msg', ())), 'sha'); return None
def k_sha_update(ex, st, a):
    v, view = get_blob(ex, st, a[0], 104, 'sha')
    disjoint(ex, st, a[0], 104, a[1], a[2], 'hash input does not overlap the context')
    new_blob(ex, st, a[0], 104, ('sha', append(ex, st, view[1], 'msg', a[1], a[2])), 'sha')
    maybe_havoc(ex, st, a, 3, 288)
    return None
def k_sha_final(ex, st, a):
    v, view = get_blob(ex, st, a[1], 104, 'sha')
    disjoint(ex, st, a[1], 104, a[0], 32, 'digest does not overlap the context')
    ex.havoc(st, a[1], const(104, 64), 'ctx')
    maybe_havoc(ex, st, a, 2, 288)
    ex.store_bytes(st, a[0], [H(view[1], i) for i in range(32)])
    return None
def k_sha_final_pub(ex, st, a):
    k_sha_final(ex, st, a)
    c_insecure_memzero(ex, st, [a[1], const(104, 64)])
def k_sha_buf(ex, st, a):
    rid = intern('msg', (region_seg(ex, st, a[0], a[1]),))
    ex.store_bytes(st, a[2], [H(rid, i) for i in range(32)])

def k_hmac_init(ex, st, a):
    kid = intern('key', (region_seg(ex, st, a[1], a[2]),))
    new_blob(ex, st, a[0], 208, ('hmac', kid, intern('msg', ())), 'hmac')
    maybe_havoc(ex, st, a, 3, 288); maybe_havoc(ex, st, a, 4, 64); maybe_havoc(ex, st, a, 5, 32)
def k_hmac_update(ex, st, a):
    v, view = get_blob(ex, st, a[0], 208, 'hmac')
    disjoint(ex, st, a[0], 208, a[1], a[2], 'HMAC input does not overlap the context')
    new_blob(ex, st, a[0], 208, ('hmac', view[1], append(ex, st, view[2], 'msg', a[1], a[2])), 'hmac')
    maybe_havoc(ex, st, a, 3, 288)
def k_hmac_final(ex, st, a):
    v, view = get_blob(ex, st, a[1], 208, 'hmac')
    disjoint(ex, st, a[1], 208, a[0], 32, 'digest does not overlap the context')
    ex.havoc(st, a[1], const(208, 64), 'ctx')
    maybe_havoc(ex, st, a, 2, 288); maybe_havoc(ex, st, a, 3, 32)
    ex.store_bytes(st, a[0], [HM(view[1], view[2], i) for i in range(32)])
def k_hmac_final_pub(ex, st, a):
    k_hmac_final(ex, st, a)
    c_insecure_memzero(ex, st, [a[1], const(208, 64)])
def k_hmac_buf(ex, st, a):
    kid = intern('key', (region_seg(ex, st, a[0], a[1]),))
    mid = intern('msg', (region_seg(ex, st, a[2], a[3]),))
    ex.store_bytes(st, a[4], [HM(kid, mid, i) for i in range(32)])
def k_pbkdf2(ex, st, a):
    pid = intern('key', (region_seg(ex, st, a[0], a[1]),))
    sid = intern('msg', (region_seg(ex, st, a[2], a[3]),))
    ex.oblige(st, ule(a[6], const(32 * (2**32 - 1), 64)), 'precondition: PBKDF2 output length <= 32*(2^32-1)')
    ex.oblige(st, ne(a[4], const(0, 64)), 'precondition: PBKDF2 iteration count >= 1')
    ex.write_region(st, a[5], a[6], lambda k, dec=None: PBK(pid, sid, a[4], k))

SHA_IN = {'SHA256_Update_internal': k_sha_update, 'SHA256_Final_internal': k_sha_final, P + 'SHA256_Init': k_sha_init}
HMAC_IN = {'HMAC_SHA256_Init_internal': k_hmac_init, 'HMAC_SHA256_Update_internal': k_hmac_update, 'HMAC_SHA256_Final_internal': k_hmac_final}
PUBLIC = {P + 'SHA256_Init': k_sha_init, P + 'SHA256_Update': k_sha_update, P + 'SHA256_Final': k_sha_final_pub, P + 'SHA256_Buf': k_sha_buf,
          P + 'HMAC_SHA256_Init': k_hmac_init, P + 'HMAC_SHA256_Update': k_hmac_update, P + 'HMAC_SHA256_Final': k_hmac_final_pub,
          P + 'HMAC_SHA256_Buf': k_hmac_buf, 'PBKDF2_SHA256': k_pbkdf2}

def secret_free(c, ex, outs_hook=True):
    pass

# ------------------------------------------------------------------ wrappers
@task('sha256.public', 'C01', 'C11', 'C17')
def t_sha_public(c):
    """SHA256_Update / Final / Buf against the rope-level contract"""
    n = var('len', 64)
    for which in ('Update', 'Final', 'Buf'):
        ex = base_ex(c); ex.frame_exit_hook = erase_locals
        ex.contracts.update(SHA_IN)
        fn = ex.modules[0].funcs['@' + P + 'SHA256_' + which]
        st = State()
        i = ex.new_obj(st, 'in', n, 'arg', content=Content(uf_base('in')), ro=True)
        seg = seg_fn(tm.uf('mem', 8, var('in', 64), K), n)
        dg = ex.new_obj(st, 'digest', 32, 'arg')
        ctx = ex.new_obj(st, 'ctx', 104, 'arg')
        m0 = intern('msg', (seg_fn(tm.uf('mem', 8, var('M0', 64), K), var('L', 64)),))
        new_blob(ex, st, ctx.addr, 104, ('sha', m0), 'sha')
        args = {'Update': [ctx.addr, i.addr, n], 'Final': [dg.addr, ctx.addr], 'Buf': [i.addr, n, dg.addr]}[which]
        outs = ex.run_function(st, fn, args)
        c.covered(outs)
        for s in outs:
            if which == 'Update':
                v, view = get_blob(ex, s, ctx.addr, 104, 'sha')
                want = intern('msg', ROPES[m0][1] + (seg,))
                c.lemma('SHA256_Update ensures message view == old message ++ input', ropes_equal(ex, s, view[1], want), func='SHA256_Update')
            else:
                m = m0 if which == 'Final' else intern('msg', (seg,))
                have = ex.load_bytes(s, dg.addr, 32)
                ex.oblige(s, And(*[eq(have[k], H(m, k)) for k in range(32)]), 'SHA256_%s ensures digest == SHA-256(message)' % which)
                if which == 'Final':
                    z = ex.load_bytes(s, ctx.addr, 104)
                    ex.oblige(s, And(*[eq(x, const(0, 8)) for x in z]), 'SHA256_Final ensures context cleared')

def k0_bytes(kid, Kf, Klen):
    """K0 of RFC 2104 for a key of symbolic length"""
    out = []
    for j in range(64):
        long_ = H(kid, j) if j < 32 else const(0, 8)
        out.append(ite(ult(const(64, 64), Klen), long_, ite(ult(const(j, 64), Klen), Kf(const(j, 64)), const(0, 8))))
    return out

@task('hmac.functions', 'C01', 'C11', 'C17')
def t_hmac(c):
    n = var('len', 64); kl = var('Klen', 64); L = var('L', 64)
    Kf = lambda k, d=None: tm.uf('mem', 8, var('Key', 64), k)
    inseg = seg_fn(tm.uf('mem', 8, var('in', 64), K), n)
    kmsg = intern('msg', (seg_fn(Kf(K), kl),))      # the key hashed as a message
    k0 = k0_bytes(kmsg, Kf, kl)
    ip = tuple(tm.bxor(b, const(0x36, 8)) for b in k0); op = tuple(tm.bxor(b, const(0x5c, 8)) for b in k0)
    m0 = (seg_fn(tm.uf('mem', 8, var('M0', 64), K), L),)
    def view_pair(ex, st, ptr):
        return get_blob(ex, st, ptr, 104, 'sha')[1][1], get_blob(ex, st, add(ptr, const(104, 64)), 104, 'sha')[1][1]
    def want_digest(msgsegs):
        inner = intern('msg', (('b', ip),) + tuple(msgsegs))
        return intern('msg', (('b', op), ('b', tuple(H(inner, i) for i in range(32)))))
    for which in ('Init_internal', 'Update_internal', 'Final_internal', 'Init', 'Update', 'Final', 'Buf'):
        ex = base_ex(c); ex.frame_exit_hook = erase_locals
        ex.contracts.update(SHA_IN)
        fn = ex.modules[0].funcs.get('@HMAC_SHA256_' + which) or ex.modules[0].funcs.get('@' + P + 'HMAC_SHA256_' + which)
        if fn is None: c.note('no function HMAC_SHA256_' + which); continue
        st = State()
        st.assume(ult(kl, LIM))
        i = ex.new_obj(st, 'in', n, 'arg', content=Content(uf_base('in')), ro=True)
        k = ex.new_obj(st, 'K', kl, 'arg', content=Content(uf_base('Key')), ro=True)
        dg = ex.new_obj(st, 'digest', 32, 'arg'); ctx = ex.new_obj(st, 'ctx', 208, 'arg')
        t = ex.new_obj(st, 'tmp32', 288, 'arg'); pad = ex.new_obj(st, 'pad', 64, 'arg'); kh = ex.new_obj(st, 'khash', 32, 'arg')
        new_blob(ex, st, ctx.addr, 104, ('sha', intern('msg', (('b', ip),) + m0)), 'sha')
        new_blob(ex, st, add(ctx.addr, const(104, 64)), 104, ('sha', intern('msg', (('b', op),))), 'sha')
        scr = {'Init': [t.addr, pad.addr, kh.addr], 'Update': [t.addr], 'Final': [t.addr, kh.addr], 'Buf': []}
        w = which.split('_')[0]
        args = {'Init': [ctx.addr, k.addr, kl], 'Update': [ctx.addr, i.addr, n], 'Final': [dg.addr, ctx.addr], 'Buf': [k.addr, kl, i.addr, n, dg.addr]}[w]
        if which.endswith('_internal'): args = args + scr[w]
        outs = ex.run_function(st, fn, args)
        c.covered(outs)
        for s in outs:
            if w == 'Init':
                a, b = view_pair(ex, s, ctx.addr)
                c.lemma('HMAC_%s ensures inner view == (K0 xor ipad)' % which, ropes_equal(ex, s, a, intern('msg', (('b', ip),))), func='HMAC_SHA256_' + which)
                c.lemma('HMAC_%s ensures outer view == (K0 xor opad)' % which, ropes_equal(ex, s, b, intern('msg', (('b', op),))), func='HMAC_SHA256_' + which)
            elif w == 'Update':
                a, b = view_pair(ex, s, ctx.addr)
                c.lemma('HMAC_%s ensures message view extended by the input' % which, ropes_equal(ex, s, a, intern('msg', (('b', ip),) + m0 + (inseg,))), func='HMAC_SHA256_' + which)
                c.lemma('HMAC_%s ensures key view unchanged' % which, ropes_equal(ex, s, b, intern('msg', (('b', op),))), func='HMAC_SHA256_' + which)
            else:
                rid = want_digest(m0 if w == 'Final' else (inseg,))
                have = ex.load_bytes(s, dg.addr, 32)
                ex.oblige(s, And(*[eq(have[x], H(rid, x)) for x in range(32)]), 'HMAC_%s ensures digest == HMAC-SHA-256(K, message)' % which)
                if which == 'Final':
                    ex.oblige(s, And(*[eq(x, const(0, 8)) for x in ex.load_bytes(s, ctx.addr, 208)]), 'HMAC_SHA256_Final ensures context cleared')

@task('pbkdf2', 'C01', 'C02', 'C11', 'C17', weight=2)
def t_pbkdf2(c):
    ex = base_ex(c); ex.frame_exit_hook = erase_locals
    ex.contracts.update(SHA_IN); ex.contracts.update(HMAC_IN)
    st = State()
    pl, sl, cc, dk = var('passwdlen', 64), var('saltlen', 64), var('c', 64), var('dkLen', 64)
    st.assume(ult(pl, LIM)); st.assume(ult(sl, LIM))
    st.assume(ule(dk, const(32 * (2**32 - 1), 64)))
    st.assume(ne(cc, const(0, 64))); st.assume(ne(cc, const(-1, 64)))
    p = ex.new_obj(st, 'passwd', pl, 'arg', content=Content(uf_base('P')), ro=True)
    s = ex.new_obj(st, 'salt', sl, 'arg', content=Content(uf_base('S')), ro=True)
    buf = ex.new_obj(st, 'buf', dk, 'arg')
    pid = intern('key', (seg_fn(tm.uf('mem', 8, var('P', 64), K), pl),))
    sseg = seg_fn(tm.uf('mem', 8, var('S', 64), K), sl)
    # U(i, j)[k], T(i, j)[k]  (RFC 8018 5.2), i counted from 0
    Uf = lambda i, j, k: tm.uf(('U', k), 8, i, j)
    Tf = lambda i, j, k: tm.uf(('T', k), 8, i, j)
    one = const(1, 64)
    def U1(i):
        m = intern('msg', (sseg, ('b', tuple(be_bytes(tm.trunc(add(i, one), 32))))))
        return [HM(pid, m, k) for k in range(32)]
    def Unext(i, j):
        m = intern('msg', (('b', tuple(Uf(i, j, k) for k in range(32))),))
        return [HM(pid, m, k) for k in range(32)]
    def ax1(i): return [eq(Uf(i, one, k), u) for k, u in enumerate(U1(i))] + [eq(Tf(i, one, k), Uf(i, one, k)) for k in range(32)]
    def axn(i, j): return [eq(Uf(i, add(j, one), k), u) for k, u in enumerate(Unext(i, j))] + [eq(Tf(i, add(j, one), k), tm.bxor(Tf(i, j, k), Uf(i, add(j, one), k))) for k in range(32)]
    def PB(k, dec=None):
        q = tm.lshr(k, const(5, 64)); r = tm.band(k, const(31, 64))
        if r.op == 'c': return Tf(q, cc, r.v)
        t = Tf(q, cc, 31)
        for x in range(30, -1, -1): t = ite(eq(r, const(x, 64)), Tf(q, cc, x), t)
        return t
    def sp(ex, st, header, blocks):
        f = st.frames[-1].fn
        calls = any(i.op == 'call' and not (i.x[0][0] == 'glb' and i.x[0][1].startswith('@llvm.')) for b in blocks for i in f.blocks[b])
        if not calls: return None
        nested = any(l['uid'].startswith('inv') for l in st.loops)
        if not nested:
            def at(n):
                done = ite(ult(tm.mulc(n, 32), dk), tm.mulc(n, 32), dk)
                return {'mem': [(buf.addr, done, PB)], 'facts': [ule(n, tm.lshr(add(dk, const(31, 64)), const(5, 64)))], 'axioms': ax1(n)}
            return Inv(at, 'buf[0..32n) == T_1..T_n')
        # inner loop: i is the outer counter
        outer = [l for l in st.loops if l['uid'].startswith('inv')][-1]
        i = outer['n']
        d = ex.dec(st)
        objs = []
        for fr in st.frames:
            for o in fr.allocas:
                if o.size.op == 'c' and o.size.v == 32 and st.status[o] == 'live': objs.append(o)
        # order: a plausible pair first
        def ok(o, bs): return ex.prove(st, And(*[eq(x, y) for x, y in zip(ex.load_bytes(st, o.addr, 32), bs)]))[0]
        good = [o for o in objs if ok(o, [Uf(i, one, k) for k in range(32)])]
        pairs = [(a, b) for a in good for b in good if a is not b]
        out = []
        for a, b in pairs:
            def at(n, a=a, b=b):
                j = add(n, one)
                return {'mem': [(a.addr, 32, lambda k, dec=None: Uf(i, j, k.v)), (b.addr, 32, lambda k, dec=None: Tf(i, j, k.v))], 'axioms': axn(i, j)}
            out.append(Inv(at, 'U == U_j, T == U_1 ^ ... ^ U_j'))
        return out or None
    ex.loop_specs['*'] = sp
    outs = ex.run_function(st, ex.modules[0].funcs['@PBKDF2_SHA256'], [p.addr, pl, s.addr, sl, cc, buf.addr, dk])
    c.covered(outs)
    for s_ in outs:
        k = fresh('k', 64)
        s2 = s_.clone(); s2.assume(ult(k, dk))
        if not ex.feasible(s2, TRUE): continue
        d = ex.dec(s2)
        have = s2.mem[buf].read_bytes(k, 1, d)[0]
        ex.oblige(s2, eq(have, PB(k)), 'PBKDF2_SHA256 ensures buf[k] == T_(k/32+1)[k mod 32]')
