"""Contracts for libcperciva/util/entropy.c and libcperciva/crypto/crypto_entropy*.c: HMAC_DRBG of SP 800-90A 10.1.2 (C12)."""
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero, set_errno, cstring
from . import env, c_hash, intrin
from .c_hash import HM, erase_locals, P
from .c_aes import live_heap

EN, CE, RD = 'libcperciva/util/entropy.c', 'libcperciva/crypto/crypto_entropy.c', 'libcperciva/crypto/crypto_entropy_rdrand.c'
C32 = lambda v: const(v, 32)
M1 = const(-1, 32)
K64 = lambda v: const(v, 64)

# ------------------------------------------------------------------ file descriptors
def ENT(k): return tm.uf('mem', 8, var('ENTROPY', 64), k)
def x_open(ex, st, a):
    p = cstring(ex, st, a[0])
    ex.oblige(st.clone(), TRUE if p in (b'/dev/urandom', b'/dev/random') else FALSE, 'C12: entropy is read from the operating system\'s random device')
    ex.oblige(st.clone(), eq(tm.band(a[1], C32(3)), C32(0)), 'C12: the random device is opened for reading')
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'open')
    fd = fresh('fd', 32); st.assume(tm.sle(C32(0), fd))
    o = ex.new_obj(st, 'device', 16, 'dev', 8)
    p0 = fresh('devpos', 64); st.assume(ult(p0, K64(1 << 62)))
    ex.store(st, o.addr, p0)
    o.data['fd'] = fd; o.data['p0'] = p0
    return [(st, fd), (s2, M1)]
def dev(ex, st, fd, what):
    for o in st.status:
        if o.kind == 'dev' and st.status[o] == 'live' and (o.data['fd'] is fd or ex.prove(st, eq(o.data['fd'], fd))[0]): return o
    ex.fail(st, 'memory-safety: %s on an open descriptor' % what, tm.show(fd)); raise Abort('fd')
def x_read(ex, st, a):
    fd, p, n = a
    o = dev(ex, st, fd, 'read')
    if ex.access(st, p, n, 'write') is None: return Z64
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'read')
    s3 = st.clone(); s3.event('fail', 'eof')
    got = fresh('got', 64); st.assume(ule(got, n)); st.assume(ne(got, Z64))
    pos = le(st.mem[o].read_bytes(Z64, 8, ex.dec(st)))
    ex.write_region(st, p, got, lambda k, dec=None: ENT(add(pos, k)), bulk=True)
    ex.store(st, o.addr, add(pos, got))
    return [(st, got), (s2, const(-1, 64)), (s3, Z64)]
def x_close(ex, st, a):
    o = dev(ex, st, a[0], 'close')
    s2 = st.clone(); s2.event('fail', 'close'); set_errno(ex, s2); s2.status[o] = 'dead'
    s3 = st.clone(); set_errno(ex, s3, C32(4))       # EINTR: still open
    st.status[o] = 'dead'
    e = ex.load(s2, env.errno_obj(ex, s2).addr, 4); s2.assume(ne(e, C32(4)))
    return [(st, C32(0)), (s2, M1), (s3, M1)]
FDS = {'open': x_open, 'read': x_read, 'close': x_close}

@task('entropy.read', 'C12', 'C17', 'C18')
def t_entropy_read(c):
    """entropy_read: 0 only if every byte of the buffer was read from the random device, for any sequence of short reads; descriptor and memory released"""
    m = build.module(EN)
    ex = c.ex([m]); ex.externals.update(FDS); ex.contracts['insecure_memzero'] = c_insecure_memzero
    st = State(); env.errno_obj(ex, st)
    n = var('buflen', 64); st.assume(ule(n, K64((1 << 63) - 1)))
    buf = ex.new_obj(st, 'buf', n, 'arg')
    def sp(ex, st, header, blocks):
        ds = [o for o in st.status if o.kind == 'dev' and st.status[o] == 'live']
        f = st.frames[-1].fn
        if len(ds) != 1 or not any(i.op == 'call' and i.x[0] == ('glb', '@read') for b in blocks for i in f.blocks[b]): return None
        d = ds[0]; tag = fresh('POS', 64)
        PN = lambda n: tm.uf('hist', 64, tag, n)
        p0 = d.data['p0']
        def at(i):
            done = sub(PN(i), p0); pb = le_bytes(PN(i))
            return dict(mem=[(d.addr, 8, lambda k, dec=None: pb[k.v]), (buf.addr, done, lambda k, dec=None: ENT(add(p0, k)))], facts=[ule(done, n)])
        fr = st.frames[-1]
        v0 = {i.res: ex.value(f.mod, fr.regs, i.ty, i.x[0][fr.prev], st) for i in f.blocks[header] if i.op == 'phi'}
        def soft(i, vals, s):
            out = []
            for r, v in sorted(vals.items()):
                if v.w == 64: out += [eq(v, add(v0[r], sub(PN(i), p0))), eq(v, sub(v0[r], sub(PN(i), p0)))]
            return out
        return Inv(at, 'bytes read so far', define=lambda ex, s, i: [eq(PN(i), le(s.mem[d].read_bytes(Z64, 8, ex.dec(s))))], soft=soft)
    ex.loop_specs['*'] = sp
    outs = ex.run_function(st, m.funcs['@entropy_read'], [buf.addr, n])
    c.covered(outs, 5)
    good = 0
    for s in outs:
        c.lemma('resource: entropy_read releases its memory', not live_heap(s), str(live_heap(s)), 'entropy_read')
        c.lemma('resource: entropy_read closes the random device', not [o for o in s.status if o.kind == 'dev' and s.status[o] == 'live'], func='entropy_read')
        f = [e for e in s.trace if e[0] == 'fail']
        if f: ex.oblige(s, ne(s.ret, C32(0)), 'C12: entropy_read reports failure (%s)' % f[0][1]); continue
        ex.oblige(s.clone(), eq(s.ret, C32(0)), 'C12: entropy_read succeeds when the device delivers')
        d = [o for o in s.status if o.kind == 'dev']
        if len(d) != 1: c.lemma('C12: entropy_read opens the random device', False); continue
        k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, n))
        good += 1
        if ex.feasible(s2, TRUE): ex.oblige(s2, eq(s2.mem[buf].read_bytes(k, 1, ex.dec(s2))[0], ENT(add(d[0].data['p0'], k))), 'C12: entropy_read ensures every byte of the buffer was read from the device')
    c.lemma('vacuity guard: successful read reached', good > 0)

# ------------------------------------------------------------------ RDRAND
@task('entropy.rdrand', 'C12', 'C17', 'C20')
def t_rdrand(c):
    """generate_seed_rdrand: 0 only if every word was delivered by RDRAND"""
    m = build.module(RD)
    f = m.funcs.get('@generate_seed_rdrand')
    if f is None: c.note('RDRAND not configured'); c.lemma('RDRAND not configured', True); return
    ex = c.ex([m])
    def rr(ex, st, a):
        s2 = st.clone(); s2.event('fail', 'rdrand')
        l = [x for x in st.loops if 'n' in x]
        i = l[-1]['n'] if l else K64(len([e for e in st.trace if e[0] == 'rr']))
        st.event('rr')
        return [(st, (tm.uf('RDRAND', 32, i), C32(1))), (s2, (C32(0), C32(0)))]
    ex.externals['llvm.x86.rdrand.32'] = rr; ex.contracts['llvm.x86.rdrand.32'] = rr
    st = State()
    n = var('len', 64); st.assume(ule(n, K64(1 << 40)))
    b = ex.new_obj(st, 'buf', tm.mulc(n, 4), 'arg', 4)
    outs = ex.run_function(st, f, [b.addr, n])
    c.covered(outs, 2)
    good = 0
    for s in outs:
        if [e for e in s.trace if e[0] == 'fail']: ex.oblige(s, ne(s.ret, C32(0)), 'C12: generate_seed_rdrand reports failure'); continue
        ex.oblige(s.clone(), eq(s.ret, C32(0)), 'C12: generate_seed_rdrand succeeds when RDRAND delivers')
        good += 1
        k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, n))
        if ex.feasible(s2, TRUE): ex.oblige(s2, eq(le(s2.mem[b].read_bytes(tm.mulc(k, 4), 4, ex.dec(s2))), tm.uf('RDRAND', 32, k)), 'C12: generate_seed_rdrand ensures every word comes from RDRAND')
    c.lemma('vacuity guard: success reached', good > 0)

# ------------------------------------------------------------------ the generator
def k_entropy_os(ex, st, a):
    """entropy_read (task entropy.read): fresh bytes in the whole buffer, or -1"""
    if a[1].op != 'c': raise Unsupported('entropy_read of symbolic length')
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'entropy_read')
    u = fresh('undef:part', 64)
    ex.write_region(s2, a[0], a[1], lambda k, dec=None: tm.uf('mem', 8, u, k))
    E = fresh('SEED', 64); bs = [tm.uf('mem', 8, E, K64(i)) for i in range(a[1].v)]
    ex.store_bytes(st, a[0], bs)
    st.event('entropy', tuple(bs))
    return [(st, C32(0)), (s2, M1)]
HAVE = var('HAVE_RDRAND', 32)
def k_have(ex, st, a): return HAVE
def k_gsr(ex, st, a):
    """generate_seed_rdrand (task entropy.rdrand)"""
    ex.oblige(st.clone(), ne(HAVE, C32(0)), 'C20: RDRAND is used only if the CPU reports it')
    if a[1].op != 'c': raise Unsupported('generate_seed_rdrand of symbolic length')
    s2 = st.clone(); s2.event('nordrand')
    u = fresh('undef:part', 64)
    ex.write_region(s2, a[0], tm.mulc(a[1], 4), lambda k, dec=None: tm.uf('mem', 8, u, k))
    E = fresh('RDR', 64); bs = [tm.uf('mem', 8, E, K64(i)) for i in range(4 * a[1].v)]
    ex.store_bytes(st, a[0], bs)
    st.event('rdrand', tuple(bs))
    return [(st, C32(0)), (s2, C32(1))]

def key(b): return intern('key', (seg_bytes(b),))
def msg(b): return intern('msg', (seg_bytes(b),))
def hm(kb, m): k, i = key(kb), msg(m); return [HM(k, i, j) for j in range(32)]
def spec_update(Kb, Vb, data):
    """SP 800-90A 10.1.2.2"""
    z, o = const(0, 8), const(1, 8)
    Kb = hm(Kb, list(Vb) + [z] + list(data)); Vb = hm(Kb, Vb)
    if data: Kb = hm(Kb, list(Vb) + [o] + list(data)); Vb = hm(Kb, Vb)
    return Kb, Vb
INTERVAL, MAXREQ = 256, 65536
def VIT(kid, vid, m, i): return tm.uf(('VIT', i), 8, kid, vid, m)
def VITk(kid, vid, k):
    m = add(tm.lshr(k, K64(5)), K64(1)); r = tm.band(k, K64(31))
    if r.op == 'c': return VIT(kid, vid, m, r.v)
    t = VIT(kid, vid, m, 31)
    for x in range(30, -1, -1): t = ite(eq(r, K64(x)), VIT(kid, vid, m, x), t)
    return t

def drbg(c, fresh_, have):
    """crypto_entropy_read: output and state follow SP 800-90A HMAC_DRBG for every request length and history; failure exactly when entropy is unavailable"""
    m = build.module(CE)
    ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
    ex.contracts.update(c_hash.PUBLIC); ex.externals.update(c_hash.PUBLIC)
    for n_, f_ in (('entropy_read', k_entropy_os), ('generate_seed_rdrand', k_gsr), ('cpusupport_x86_rdrand', k_have)):
        ex.contracts[n_] = f_; ex.externals[n_] = f_
    ex.frame_exit_hook = erase_locals
    st = State(); env.errno_obj(ex, st)
    g = ex.global_obj(st, m, '@drbg'); gi = ex.global_obj(st, m, '@instantiated')
    c.lemma('state layout: Key, V and reseed counter', g.size is K64(68), func='crypto_entropy_read')
    st.mem[g] = Content(uf_base('STATE0')); st.mem[gi] = Content(uf_base('INST0'))
    K0 = [tm.uf('mem', 8, var('STATE0', 64), K64(i)) for i in range(32)]; V0 = [tm.uf('mem', 8, var('STATE0', 64), K64(32 + i)) for i in range(32)]
    c0 = ex.load(st, add(g.addr, K64(64)), 4); inst0 = ex.load(st, gi.addr, 4)
    rng = lambda x: And(ule(C32(1), x), ule(x, C32(INTERVAL + 1)))
    st.assume(eq(inst0, C32(0)) if fresh_ else And(ne(inst0, C32(0)), rng(c0)))
    st.assume((ne if have else eq)(HAVE, C32(0)))
    n = var('buflen', 64); st.assume(ult(n, K64(1 << 62)))
    buf = ex.new_obj(st, 'buf', n, 'arg')
    rd = lambda ex, s: s.mem[g].read_bytes(Z64, 68, ex.dec(s))
    def state_is(ex, s, Kb, Vb, ctr, label):
        b = rd(ex, s)
        for nm, have, want in (('Key', b[:32], Kb), ('V', b[32:64], Vb)):
            ex.oblige(s.clone(), And(*[eq(x, y) for x, y in zip(have, want)]), '%s: %s' % (label, nm))
        ex.oblige(s.clone(), eq(le(b[64:68]), ctr), '%s: reseed counter' % label)
    def mixed(ex, s, evs, Kb, Vb, size, what):
        """update with the entropy obtained, then with the RDRAND output if any"""
        e = [x for x in evs if x[0] == 'entropy']; r = [x for x in evs if x[0] == 'rdrand']
        if len(e) != 1 or len(e[0][1]) != size or len(r) > 1:
            ex.fail(s, 'C12: %s draws %d bytes of fresh entropy once' % (what, size), str([(x[0], len(x[1])) for x in e + r])); return None
        Kb, Vb = spec_update(Kb, Vb, e[0][1])
        if r: Kb, Vb = spec_update(Kb, Vb, r[0][1])
        return Kb, Vb
    tag, tk, tv = fresh('DRBG', 64), fresh('KID', 64), fresh('VID', 64)
    HS = lambda i: tm.uf('hist', 64, tag, i)
    HB = lambda i: [tm.uf('mem', 8, HS(i), K64(j)) for j in range(68)]
    KID = lambda i: tm.uf('hist', 64, tk, i)
    VID = lambda i: tm.uf('hist', 64, tv, i)
    head = {}
    def sp(ex, s, header, blocks):
        outer = [l for l in s.loops if l['uid'].startswith('inv')]
        if not outer:
            b = rd(ex, s)
            if not ex.quiet:
                ev = [e for e in s.trace if e[0] in ('entropy', 'rdrand')]
                un = s.clone(); un.assume(eq(inst0, C32(0)))
                if ev:
                    ex.oblige(s.clone(), eq(inst0, C32(0)), 'C12: the generator is instantiated only once')
                    r = mixed(ex, s, ev, [const(0, 8)] * 32, [const(1, 8)] * 32, 48, 'instantiation')
                    if r: state_is(ex, s, r[0], r[1], C32(1), 'C12: instantiation is HMAC_DRBG_Instantiate of SP 800-90A')
                else:
                    ex.oblige(s.clone(), ne(inst0, C32(0)), 'C12: the generator is instantiated from fresh entropy before use')
                    state_is(ex, s, K0, V0, c0, 'C12: an instantiated generator is not changed before a request')
                ex.oblige(s.clone(), ne(ex.load(s, gi.addr, 4), C32(0)), 'C12: the generator is marked instantiated')
            mark = len(s.trace)
            def at(i):
                hb = HB(i)
                done = ite(ult(i, K64(1 << 46)), ite(ult(tm.shl(i, K64(16)), n), tm.shl(i, K64(16)), n), n)
                def byte(k, dec=None):
                    q = tm.lshr(k, K64(16))
                    return VITk(KID(q), VID(q), tm.band(k, K64(0xffff)))
                return dict(mem=[(g.addr, 68, lambda k, dec=None: hb[k.v]), (buf.addr, done, byte)],
                            facts=[rng(le(hb[64:68])), ule(i, tm.lshr(add(n, K64(0xffff)), K64(16)))])
            def define(ex, s, i):
                ax = [eq(x, y) for x, y in zip(HB(i), rd(ex, s))]
                ev = [e for e in s.trace[mark:] if e[0] == 'gen']
                if ev: ax += [eq(KID(ev[-1][3]), ev[-1][1]), eq(VID(ev[-1][3]), ev[-1][2])]
                return ax
            def soft(i, vals, s):
                done = at(i)['mem'][1][1]
                out = []
                for r, v in sorted(vals.items()):
                    if v.w == 64: out += [eq(v, add(v0[r], done)), eq(v, sub(v0[r], done))]
                return out
            fr = s.frames[-1]; f = fr.fn
            v0 = {i.res: ex.value(f.mod, fr.regs, i.ty, i.x[0][fr.prev], s) for i in f.blocks[header] if i.op == 'phi'}
            def step(ex, s, i):
                """one request of at most 65536 bytes: reseed if due, generate, update, count"""
                hb = HB(i); Kb, Vb, ctr = hb[:32], hb[32:64], le(hb[64:68])
                ev = s.trace[mark:]
                gen = [e for e in ev if e[0] == 'gen']
                if len(gen) != 1: ex.fail(s, 'C12: each request is generated once', str([e[0] for e in ev])); return
                pre = ev[:ev.index(gen[0])]
                if [e for e in ev[ev.index(gen[0]):] if e[0] in ('entropy', 'rdrand')]: ex.fail(s, 'C12: entropy is mixed in only before generation'); return
                if [e for e in pre if e[0] in ('entropy', 'rdrand')]:
                    r = mixed(ex, s, pre, Kb, Vb, 32, 'reseeding')
                    if r is None: return
                    Kb, Vb = r; ctr = C32(1)
                else: ex.oblige(s.clone(), ule(ctr, C32(INTERVAL)), 'C12: the generator is reseeded before more than 256 requests')
                ex.oblige(s.clone(), And(eq(gen[0][1], key(Kb)), eq(gen[0][2], msg(Vb))), 'C12: generation starts from the current Key and V')
                L = sub(n, tm.shl(i, K64(16))); L = ite(ult(L, K64(MAXREQ)), L, K64(MAXREQ))
                M = tm.lshr(add(L, K64(31)), K64(5))
                V1 = [VIT(gen[0][1], gen[0][2], M, j) for j in range(32)]
                used = [t for b in rd(ex, s) for t in ids_in(b, gen[0][1])]
                if used:
                    mm = used[0]
                    ex.oblige(s.clone(), eq(mm, M), 'C12: V is advanced once per 32 bytes of output')
                    V1 = [VIT(gen[0][1], gen[0][2], mm, j) for j in range(32)]
                K2, V2 = spec_update(Kb, V1, ())
                state_is(ex, s, K2, V2, add(ctr, C32(1)), 'C12: a request ends with HMAC_DRBG_Update and counts')
            inv = Inv(at, 'generator state and bytes delivered', define=define, soft=soft)
            inv.step = step
            return inv
        i = outer[-1]['n']
        b = rd(ex, s)
        kid, vid = key(b[:32]), msg(b[32:64])
        s.event('gen', kid, vid, i)
        Vb = b[32:64]
        start = add(buf.addr, tm.shl(i, K64(16)))
        L = sub(n, tm.shl(i, K64(16))); L = ite(ult(L, K64(MAXREQ)), L, K64(MAXREQ))
        def known(t):
            """a program value equal to t, if there is one (the code's own expression of it keeps the arithmetic simple)"""
            seen = set()
            for fr in reversed(s.frames):
                for v in fr.regs.values():
                    if getattr(v, 'w', 0) != 64 or v in seen or v.op == 'c': continue
                    seen.add(v)
                    if v is t: return v
                    if any(x in tm.fvars(v) for x in ptrs) and ex.prove(s, eq(v, t))[0]: return v
            return t
        ptrs = [v for fr in s.frames for v in fr.regs.values() if getattr(v, 'op', '') == 'v' and str(v.v).startswith('phi')]
        ptrs += [v for fr in s.frames for t in fr.regs.values() if hasattr(t, 'w') for v in tm.fvars(t) if str(v.v).startswith('phi')]
        start, L = known(start), known(L)
        def at(m):
            V = lambda x: [VIT(kid, vid, x, j) for j in range(32)]
            nx = add(m, K64(1)); mid = msg(V(m))
            vm = V(m)
            done = ite(ult(tm.shl(m, K64(5)), L), tm.shl(m, K64(5)), L)
            def out(k, dec=None): return VITk(kid, vid, k)
            out.grow = (tm.mulc(sub(m, K64(1)), 32), 32)
            return dict(mem=[(add(g.addr, K64(32)), 32, lambda k, dec=None: vm[k.v]), (start, done, out)],
                        facts=[ule(m, K64(2048)), ule(m, tm.lshr(add(L, K64(31)), K64(5)))],
                        axioms=[eq(VIT(kid, vid, Z64, j), Vb[j]) for j in range(32)] + [eq(VIT(kid, vid, nx, j), HM(kid, mid, j)) for j in range(32)])
        fr = s.frames[-1]; f = fr.fn
        p0 = {x.res: ex.value(f.mod, fr.regs, x.ty, x.x[0][fr.prev], s) for x in f.blocks[header] if x.op == 'phi'}
        def soft(m, vals, s):
            done = ite(ult(tm.shl(m, K64(5)), L), tm.shl(m, K64(5)), L)
            return [y for r, v in sorted(vals.items()) if v.w == 64 for y in (eq(v, add(p0[r], done)), eq(v, sub(p0[r], done)))]
        return Inv(at, 'V == V_m, output == V_1 || ... || V_m', soft=soft)
    ex.loop_specs['*'] = sp
    outs = ex.run_function(st, m.funcs['@crypto_entropy_read'], [buf.addr, n])
    c.covered(outs, 2)
    good = 0
    for s in outs:
        f = [e for e in s.trace if e[0] == 'fail']
        inst, ctr = ex.load(s, gi.addr, 4), ex.load(s, add(g.addr, K64(64)), 4)
        ex.oblige(s.clone(), Or(eq(inst, C32(0)), rng(ctr)), 'C12: the generator is left uninstantiated or with a reseed counter in range')
        if f:
            ex.oblige(s.clone(), ne(s.ret, C32(0)), 'C12: an entropy failure is reported'); continue
        ex.oblige(s.clone(), eq(s.ret, C32(0)), 'C12: a request succeeds when entropy is available')
        ex.oblige(s.clone(), ne(inst, C32(0)), 'C12: the generator stays instantiated')
        good += 1
        k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, n))
        if ex.feasible(s2, TRUE):
            q = tm.lshr(k, K64(16))
            ex.oblige(s2, eq(s2.mem[buf].read_bytes(k, 1, ex.dec(s2))[0], VITk(KID(q), VID(q), tm.band(k, K64(0xffff)))), 'C12: byte k of the output is byte k mod 65536 of request k / 65536')
    c.lemma('vacuity guard: success reached', good > 0)

for fr_ in (False, True):
    for hv_ in (False, True):
        def t_(c, fr_=fr_, hv_=hv_): return drbg(c, fr_, hv_)
        t_.__doc__ = drbg.__doc__ + (' (first use' if fr_ else ' (later use') + (', RDRAND present)' if hv_ else ', no RDRAND)')
        task('entropy.drbg.%s.%s' % ('first' if fr_ else 'later', 'rdrand' if hv_ else 'plain'), 'C12', 'C11', 'C17', 'C20', weight=3)(t_)

def ids_in(t, kid):
    """iteration index of V_m occurring (possibly inside abstract byte strings) in a term"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        for y in tm.nodes([x]):
            if y in seen: continue
            seen.add(y)
            if y.op == 'uf' and isinstance(y.v, tuple) and y.v[0] == 'VIT' and y.a[0] is kid: return [y.a[2]]
            if y.op == 'v' and y in ROPES:
                for sg in ROPES[y][1]:
                    if sg[0] == 'b': work.extend(sg[1])
    return []
