"""Contracts for CPU feature detection and for the selection of accelerated implementations."""
import hashlib
from .tasks import *
from .views import *
from .env import c_insecure_memzero
from .mem import le_bytes
from .execu import Abort
from . import c_str

K64 = lambda v: const(v, 64)
K32 = lambda v: const(v, 32)
Z64 = K64(0)
Z32 = K32(0)
def cpuid(reg, leaf, sub=0): return tm.uf('cpuid.%s.%d' % (reg, sub), 32, K32(leaf))
# Intel SDM vol. 2A, CPUID: feature -> (leaf, register, bit)
FEAT = {'aesni': (1, 'c', 25), 'rdrand': (1, 'c', 30), 'sse2': (1, 'd', 26), 'ssse3': (1, 'c', 9), 'shani': (7, 'b', 29)}
def has(f):
    leaf, reg, bit = FEAT[f]
    return And(ule(K32(leaf), cpuid('a', 0)), eq(tm.ext(cpuid(reg, leaf), bit, bit), const(1, 1)))
def m_cpuid(ex, st, a):
    leaf = a[0]
    if leaf.op != 'c': raise Unsupported('CPUID leaf not constant')
    sub = a[1].v if len(a) > 1 and a[1].op == 'c' else 0 if leaf.v in (0, 1) else fresh('ecx', 32).v
    return tuple(tm.uf('cpuid.%s.%s' % (r, sub), 32, leaf) for r in 'abcd')

def mk_detect(f):
    def t(c):
        """run-time detection reports a feature exactly when CPUID does (Intel SDM)"""
        mod = 'libcperciva/cpusupport/cpusupport_x86_%s.c' % f
        ex = c.ex([mod]); m = ex.modules[0]
        ex.externals['asm.cpuid'] = m_cpuid
        fn = [g for g in m.funcs.values() if g.name.endswith('_detect_1')]
        if len(fn) != 1: raise Unsupported('detection function of %s' % f)
        st = State()
        outs = ex.run_function(st, fn[0], []); c.covered(outs, 2)
        for s in outs:
            ex.oblige(s, eq(eq(s.ret, Z32), Not(has(f))), 'C20: %s is reported present exactly when CPUID reports it' % f)
    return t
for _f in FEAT: task('hw.detect.' + _f, 'C20')(mk_detect(_f))

# ------------------------------------------------------------------ selection
def features(ex, m, st):
    """cached detection results: arbitrary but consistent with the CPU; detection functions by contract"""
    for f in FEAT:
        def det(ex, st, a, f=f): return ite(has(f), K32(1), Z32)
        ex.contracts['cpusupport_x86_%s_detect_1' % f] = det
        if '@cpusupport_x86_%s_present_1' % f in m.globals:
            pv, iv = var('present.' + f, 32), var('init.' + f, 32)
            ex.global_init['@cpusupport_x86_%s_present_1' % f] = lambda ex, st, o, v=pv: bytes_content(le_bytes(v))
            ex.global_init['@cpusupport_x86_%s_init_1' % f] = lambda ex, st, o, v=iv: bytes_content(le_bytes(v))
            st.assume(Or(eq(pv, Z32), has(f))); st.assume(Or(eq(iv, Z32), ne(pv, Z32), Not(has(f))))
    ex.externals['abort'] = m_abort_ok
    for n in ('warn0', 'libcperciva_warn', 'libcperciva_warnx'):
        ex.contracts[n] = lambda ex, st, a: None

def reads(ex, st, p, n): return ex.load_bytes(st, p, n)
def hwvar(ex, st, m, v):
    o = ex.global_obj(st, m, '@hwaccel'); ex.store(st, o.addr, v); return o
def m_abort_ok(ex, st, a):
    'the program stops: nothing is computed with an implementation that failed its self-test'
    raise Abort('abort')
def enum_init(m): 
    from .c_aes import enum_values
    return enum_values(m, '@hwaccel')

@task('hw.sha256', 'C20', 'C17', 'C01')
def t_sha(c):
    """hwaccel_init (SHA-256): an accelerated transform is selected only if the CPU has it and it agrees with the portable one on the test block"""
    from . import c_hash
    SHANI, SSE2 = 1, 2
    for start in ('unset', 0, 1, 2):
        ex = c.ex(['libcperciva/alg/sha256.c']); m = ex.modules[0]
        init = enum_init(m); st = State(); features(ex, m, st)
        if '@hwaccel_init' not in m.funcs: raise Unsupported('no hwaccel_init')
        o = hwvar(ex, st, m, K32(init if start == 'unset' else start))
        tests = []
        def impl(tag):
            def k(ex, st, a):
                sb, bb = ex.load_bytes(st, a[0], 32), ex.load_bytes(st, a[1], 64)
                if tag == 'portable':
                    ex.oblige(st, eq(ex.load(st, o.addr, 4), Z32), 'C20: the reference result of the self-test is that of the portable code')
                else:
                    ex.oblige(st, has('shani') if tag == 'shani' else has('sse2'), 'C20: %s code runs only on a CPU that reports it' % tag)
                    if tag == 'shani': ex.oblige(st, has('ssse3'), 'C20: shani code runs only on a CPU that reports SSSE3')
                ws = [le(x[4 * i:4 * i + 4]) for x, n in ((sb, 8), (bb, 16)) for i in range(n)]
                tests.append((tag, tuple(ws)))
                ex.store_bytes(st, a[0], sum([le_bytes(tm.uf(('T.' + tag, i), 32, *ws)) for i in range(8)], []))
                if len(a) > 2: ex.havoc(st, a[2], K64(256), 'W')
                if len(a) > 3: ex.havoc(st, a[3], K64(32), 'S')
            return k
        ex.contracts['SHA256_Transform'] = impl('portable')
        for n in ('SHA256_Transform_shani_with_W_S', 'SHA256_Transform_shani'): ex.contracts[n] = impl('shani')
        ex.contracts['SHA256_Transform_sse2'] = impl('sse2')
        outs = ex.run_function(st, m.funcs['@hwaccel_init'], [])
        c.covered(outs, 1 if start != 'unset' else 3)
        for s in outs:
            v = ex.load(s, o.addr, 4)
            if start != 'unset': ex.oblige(s, eq(v, K32(start)), 'C20: an earlier selection is kept'); continue
            ex.oblige(s, ule(v, K32(2)), 'C20: a selection was made')
            for tag, num in (('shani', SHANI), ('sse2', SSE2)):
                s2 = s.clone(); s2.assume(eq(v, K32(num)))
                if not ex.feasible(s2, eq(v, K32(num))): continue
                ex.oblige(s2, has('shani') if tag == 'shani' else has('sse2'), 'C20: %s is selected only on a CPU that reports it' % tag)
                if tag == 'shani': ex.oblige(s2, has('ssse3'), 'C20: SHA-NI is selected only on a CPU that reports SSSE3')
                agree = []
                for t, ws in set(tests):
                    if t == tag: agree.append(And(*[eq(tm.uf(('T.' + tag, i), 32, *ws), tm.uf(('T.portable', i), 32, *ws)) for i in range(8)]))
                ex.oblige(s2, Or(*agree) if agree else FALSE, 'C20: %s is selected only if its self-test agreed with the portable code' % tag)
        if start == 'unset':
            c.lemma('vacuity guard: every selection is reachable', all(any(ex.feasible(s, eq(ex.load(s, o.addr, 4), K32(n))) for s in outs) for n in (0, 1, 2)))
    # use sites: the dispatcher runs accelerated code only when it is selected
    ex = c.ex(['libcperciva/alg/sha256.c']); m = ex.modules[0]; st = State()
    hv = var('hwaccel', 32); ex.global_init['@hwaccel'] = lambda ex, st, o: bytes_content(le_bytes(hv))
    st.assume(ule(hv, K32(2)))
    def use(n):
        def k(ex, st, a): ex.oblige(st, eq(hv, K32(n)), 'C20: SHA256_Transform runs accelerated code only if it is the selected one'); ex.havoc(st, a[0], K64(32), 'st'); st.ghost['ran'] = 1
        return k
    ex.contracts['SHA256_Transform_shani'] = ex.contracts['SHA256_Transform_shani_with_W_S'] = use(1); ex.contracts['SHA256_Transform_sse2'] = use(2)
    A = lambda n, z, **k: ex.new_obj(st, n, z, 'arg', 16, **k)
    outs = ex.run_function(st, m.funcs['@SHA256_Transform'], [A('state', 32).addr, A('block', 64, ro=True).addr, A('W', 256).addr, A('S', 32).addr])
    c.covered(outs, 3)

@task('hw.aes', 'C20', 'C17', 'C04')
def t_aes(c):
    """hwaccel_init (AES): AES-NI is selected only if the CPU has it and it gives the FIPS 197 vectors; otherwise libcrypto, tested too"""
    mod = 'libcperciva/crypto/crypto_aes.c'
    def bx(ex, st, p, n): return tuple(ex.load_bytes(st, p, n))
    def eo(ex, st): pass
    KEYS = [(list(range(16)), bytes.fromhex('69c4e0d86a7b0430d8cdb78070b4c55a')), (list(range(32)), bytes.fromhex('8ea2b7ca516745bfeafc49904b496089'))]
    PT = [0x11 * i for i in range(16)]
    R = lambda tag, k, p, j: tm.uf('aes.' + tag, 8, intern('key', (seg_bytes(k),)), le(p), K64(j))
    for start in ('unset', 0, 1):
        ex = c.ex([mod]); m = ex.modules[0]; init = enum_init(m); st = State(); features(ex, m, st)
        ex.contracts['insecure_memzero'] = c_insecure_memzero
        o = hwvar(ex, st, m, K32(init if start == 'unset' else start))
        def exp_ni(ex, st, a):
            ex.oblige(st, has('aesni'), 'C20: AES-NI code runs only on a CPU that reports it')
            if a[1].op != 'c': raise Unsupported('key length')
            k = bx(ex, st, a[0], a[1].v); s2 = st.clone(); s2.event('fail', 'crypto_aes_key_expand_aesni')
            h = ex.new_obj(st, 'kexp', 240, 'heap', 16); h.data['key'] = k
            return [(st, h.addr), (s2, Z64)]
        def enc_ni(ex, st, a):
            q = ex.resolve(st, a[2])
            if q is None or 'key' not in q[0].data or st.status[q[0]] != 'live': ex.fail(st, 'AES-NI encryption uses an expanded key'); return
            p = bx(ex, st, a[0], 16); ex.store_bytes(st, a[1], [R('ni', q[0].data['key'], p, j) for j in range(16)])
        def free_ni(ex, st, a):
            if a[0] is Z64: return
            q = ex.resolve(st, a[0])
            if q is None or st.status[q[0]] != 'live': ex.fail(st, 'expanded key is released once'); return
            st.status[q[0]] = 'dead'
        ex.contracts.update(crypto_aes_key_expand_aesni=exp_ni, crypto_aes_encrypt_block_aesni=enc_ni, crypto_aes_key_free_aesni=free_ni)
        cur = {}
        def setk(ex, st, a):
            n = a[1].v // 8; k = bx(ex, st, a[0], n); s2 = st.clone()
            ex.store_bytes(st, a[2], [tm.uf('aes.sched', 8, intern('key', (seg_bytes(k),)), K64(i)) for i in range(244)]); st.ghost['osslkey'] = k
            s2.event('fail', 'AES_set_encrypt_key'); return [(st, Z32), (s2, K32(-1))]
        def encs(ex, st, a): p = bx(ex, st, a[0], 16); ex.store_bytes(st, a[1], [R('ossl', st.ghost['osslkey'], p, j) for j in range(16)])
        ex.externals.update(AES_set_encrypt_key=setk, AES_encrypt=encs)
        good = lambda tag: And(*[eq(R(tag, tuple(const(x, 8) for x in k), [const(x, 8) for x in PT], j), const(ct[j], 8)) for k, ct in KEYS for j in range(16)])
        outs = ex.run_function(st, m.funcs['@hwaccel_init'], [])
        live = [s for s in outs if s.done != 'noreturn']
        c.covered(live, 1 if start != 'unset' else 2)
        for s in live:
            c.lemma('resource: the self-test leaves nothing allocated', not [x for x in s.status if x.kind == 'heap' and s.status[x] == 'live'])
            v = ex.load(s, o.addr, 4)
            if start != 'unset': ex.oblige(s, eq(v, K32(start)), 'C20: an earlier selection is kept'); continue
            ex.oblige(s, ule(v, K32(1)), 'C20: a selection was made')
            for tag, num in (('ni', 1), ('ossl', 0)):
                s2 = s.clone(); s2.assume(eq(v, K32(num)))
                if not ex.feasible(s2, eq(v, K32(num))): continue
                if num: ex.oblige(s2, has('aesni'), 'C20: AES-NI is selected only on a CPU that reports it')
                ex.oblige(s2, good(tag), 'C20: %s is selected only if it gives the FIPS 197 example vectors' % ('AES-NI' if num else 'libcrypto'))
    # use sites
    hv = var('hwaccel', 32)
    for fn, args in (('crypto_aes_key_expand', 'key'), ('crypto_aes_encrypt_block', 'enc'), ('crypto_aes_key_free', 'free'), ('crypto_aes_can_use_intrinsics', None)):
        ex = c.ex([mod]); m = ex.modules[0]; st = State()
        if '@' + fn not in m.funcs: continue
        ex.contracts['insecure_memzero'] = c_insecure_memzero; ex.contracts['hwaccel_init'] = lambda ex, st, a: None
        ex.global_init['@hwaccel'] = lambda ex, st, o: bytes_content(le_bytes(hv)); st.assume(ule(hv, K32(1)))
        def use(ret):
            def k(ex, st, a):
                ex.oblige(st, eq(hv, K32(1)), 'C20: %s runs AES-NI code only if it is selected' % fn)
                return ret(ex, st, a)
            return k
        ex.contracts.update(crypto_aes_key_expand_aesni=use(lambda ex, st, a: Z64), crypto_aes_encrypt_block_aesni=use(lambda ex, st, a: ex.havoc(st, a[1], K64(16), 'ct')), crypto_aes_key_free_aesni=use(lambda ex, st, a: None))
        ex.externals.update(AES_set_encrypt_key=lambda ex, st, a: [(st, Z32)], AES_encrypt=lambda ex, st, a: ex.havoc(st, a[1], K64(16), 'ct'))
        N = lambda n, z, kind='arg', **k: ex.new_obj(st, n, z, kind, 16, **k).addr
        av = {'key': lambda: [N('key', 32, ro=True), K64(32)], 'enc': lambda: [N('in', 16, ro=True), N('out', 16), N('kexp', 244)], 'free': lambda: [N('kexp', 244, 'heap')], None: lambda: []}[args]()
        outs = ex.run_function(st, m.funcs['@' + fn], av); c.covered(outs, 1)
        if args is None:
            for s in outs: ex.oblige(s, Or(ne(s.ret, K32(1)), eq(hv, K32(1))), 'C20: AES-NI streaming is offered only if AES-NI is selected')

@task('hw.smix', 'C20', 'C02')
def t_smix(c):
    """selectsmix: the SSE2 mixing function is selected only if the CPU has SSE2 and it gives the RFC 7914 test result; otherwise the portable one, tested too"""
    SM = {'crypto_scrypt_smix': None, 'crypto_scrypt_smix_sse2': 'sse2'}
    mod = 'lib-platform/crypto/crypto_scrypt.c'
    ex = c.ex([mod]); m = ex.modules[0]; st = State(); features(ex, m, st)
    if '@selectsmix' not in m.funcs or '@crypto_scrypt_internal' not in m.funcs: raise Unsupported('selectsmix / crypto_scrypt_internal not found')
    calls = set()
    def internal(ex, st, a):
        tgt = ex.funcaddr.get(a[9]); nm = tgt if isinstance(tgt, str) else tgt.name
        nm = nm.lstrip('@')
        if SM.get(nm): ex.oblige(st, has(SM[nm]), 'C20: SSE2 mixing runs only on a CPU that reports SSE2')
        g = lambda x: x.v if x.op == 'c' else None
        if any(g(a[i]) is None for i in (1, 3, 4, 5, 6, 8)): raise Unsupported('self-test arguments')
        pb = bytes(b.v for b in ex.load_bytes(st, a[0], a[1].v)); sb = bytes(b.v for b in ex.load_bytes(st, a[2], a[3].v))
        key = (nm, pb, sb, a[4].v, a[5].v, a[6].v, a[8].v); calls.add(key)
        s2 = st.clone(); s2.event('fail', 'crypto_scrypt_internal')
        st.trace.append(('ran', key))
        ex.store_bytes(st, a[7], [tm.uf('kdf:%s:%s:%s:%d:%d:%d' % (nm, pb.hex(), sb.hex(), a[4].v, a[5].v, a[6].v), 8, K64(i)) for i in range(a[8].v)])
        return [(st, Z32), (s2, K32(-1))]
    ex.contracts['crypto_scrypt_internal'] = internal; ex.externals['strlen'] = c_str.x_strlen
    g = ex.global_obj(st, m, '@smix_func')
    outs = [s for s in ex.run_function(st, m.funcs['@selectsmix'], []) if s.done != 'noreturn']
    c.covered(outs, 2)
    seen = set()
    for s in outs:
        v = ex.load(s, g.addr, 8); tgt = ex.funcaddr.get(v); nm = (tgt if isinstance(tgt, str) or tgt is None else tgt.name)
        nm = nm.lstrip('@') if nm else None
        if nm not in SM: ex.fail(s, 'C20: selectsmix selects an implementation'); continue
        seen.add(nm)
        if SM[nm]: ex.oblige(s, has(SM[nm]), 'C20: SSE2 mixing is selected only on a CPU that reports SSE2')
        ok = False
        for e in s.trace:
            if e[0] != 'ran' or e[1][0] != nm: continue
            _, pb, sb, N, r, p, n = e[1]
            want = hashlib.scrypt(pb, salt=sb, n=N, r=r, p=p, dklen=n)
            if n >= 16 and ex.prove(s, And(*[eq(tm.uf('kdf:%s:%s:%s:%d:%d:%d' % (nm, pb.hex(), sb.hex(), N, r, p), 8, K64(i)), const(want[i], 8)) for i in range(n)]))[0]: ok = True
        if ok: ex.oblige(s, TRUE, 'C20: an implementation is selected only if its self-test gave the scrypt value')
        else: ex.fail(s, 'C20: an implementation is selected only if its self-test gave the scrypt value')
    c.lemma('vacuity guard: both mixing functions can be selected', seen == set(SM), str(seen))
