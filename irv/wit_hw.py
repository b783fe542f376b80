"""Replay on the real code: CPU detection replaced by scripted answers, accelerated functions observed (and broken on request)."""
import ctypes, hashlib, itertools, random, time
from . import native, wit_aes
FEATS = ['aesni', 'rdrand', 'sse2', 'ssse3', 'shani']
DRV = r'''
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <cpuid.h>
int h_mask; int h_broken, h_brbyte, h_scripted; unsigned h_calls[8]; int h_illegal; static const char * which = "";
const char * h_which(void) { return which; }
enum { AESNI = 1, RDRAND = 2, SSE2 = 4, SSSE3 = 8, SHANI = 16 };
#define D(f, bit) extern int __real_cpusupport_x86_##f##_detect_1(void) __attribute__((weak)); \
int __wrap_cpusupport_x86_##f##_detect_1(void) { return h_scripted ? (h_mask & bit) != 0 : __real_cpusupport_x86_##f##_detect_1(); } \
int h_real_##f(void) { return __real_cpusupport_x86_##f##_detect_1 ? __real_cpusupport_x86_##f##_detect_1() : -1; }
D(aesni, AESNI) D(rdrand, RDRAND) D(sse2, SSE2) D(ssse3, SSSE3) D(shani, SHANI)
int h_cpu(int f) {
	unsigned a, b, c, d, m = __get_cpuid_max(0, 0); if (m < 1) return 0;
	__cpuid(1, a, b, c, d);
	switch (f) { case 0: return c >> 25 & 1; case 1: return c >> 30 & 1; case 2: return d >> 26 & 1; case 3: return c >> 9 & 1; }
	if (m < 7) return 0;
	__cpuid_count(7, 0, a, b, c, d); return b >> 29 & 1; }
static void need(int m, int i, const char * n) { h_calls[i]++; if (h_scripted && (h_mask & m) != m) { h_illegal = 1; which = n; } }
#define R(n) __real_##n
void R(SHA256_Transform_shani)(uint32_t *, const uint8_t *) __attribute__((weak));
void __wrap_SHA256_Transform_shani(uint32_t * s, const uint8_t * b) { need(SHANI | SSSE3, 0, "SHA256_Transform_shani"); R(SHA256_Transform_shani)(s, b); if (h_broken & 1) s[h_brbyte % 8] ^= 1u << (h_brbyte % 32); }
void R(SHA256_Transform_sse2)(uint32_t *, const uint8_t *, uint32_t *, uint32_t *) __attribute__((weak));
void __wrap_SHA256_Transform_sse2(uint32_t * s, const uint8_t * b, uint32_t * W, uint32_t * S) { need(SSE2, 1, "SHA256_Transform_sse2"); R(SHA256_Transform_sse2)(s, b, W, S); if (h_broken & 2) s[h_brbyte % 8] ^= 1u << (h_brbyte % 32); }
void * R(crypto_aes_key_expand_aesni)(const uint8_t *, size_t) __attribute__((weak));
static size_t klen;
void * __wrap_crypto_aes_key_expand_aesni(const uint8_t * k, size_t n) { need(AESNI, 2, "crypto_aes_key_expand_aesni"); klen = n; if (h_broken & 32) return 0; return R(crypto_aes_key_expand_aesni)(k, n); }
void R(crypto_aes_encrypt_block_aesni)(const uint8_t *, uint8_t *, const void *) __attribute__((weak));
void __wrap_crypto_aes_encrypt_block_aesni(const uint8_t * i, uint8_t * o, const void * k) { need(AESNI, 3, "crypto_aes_encrypt_block_aesni"); R(crypto_aes_encrypt_block_aesni)(i, o, k); if (((h_broken & 4) && klen == 16) || ((h_broken & 8) && klen == 32)) o[h_brbyte % 16] ^= 4; }
struct crypto_aesctr;
void R(crypto_aesctr_aesni_stream)(struct crypto_aesctr *, const uint8_t *, uint8_t *, size_t) __attribute__((weak));
void __wrap_crypto_aesctr_aesni_stream(struct crypto_aesctr * s, const uint8_t * i, uint8_t * o, size_t n) { need(AESNI, 4, "crypto_aesctr_aesni_stream"); R(crypto_aesctr_aesni_stream)(s, i, o, n); if (h_broken & 12) o[0] ^= 1; }
void R(crypto_scrypt_smix_sse2)(uint8_t *, size_t, uint64_t, void *, void *) __attribute__((weak));
void __wrap_crypto_scrypt_smix_sse2(uint8_t * B, size_t r, uint64_t N, void * V, void * XY) { need(SSE2, 5, "crypto_scrypt_smix_sse2"); R(crypto_scrypt_smix_sse2)(B, r, N, V, XY); if (h_broken & 16) B[h_brbyte % 64] ^= 1; }
int R(generate_seed_rdrand)(unsigned int *, size_t) __attribute__((weak));
int __wrap_generate_seed_rdrand(unsigned int * b, size_t n) { need(RDRAND, 6, "generate_seed_rdrand"); return R(generate_seed_rdrand)(b, n); }
'''
LD = ['-Wl,' + ','.join('--wrap=' + f for f in ['cpusupport_x86_%s_detect_1' % x for x in FEATS] + ['SHA256_Transform_shani', 'SHA256_Transform_sse2', 'crypto_aes_key_expand_aesni', 'crypto_aes_encrypt_block_aesni', 'crypto_aesctr_aesni_stream', 'crypto_scrypt_smix_sse2', 'generate_seed_rdrand'])]
BR = {0: 'nothing', 1: 'SHA-NI transform', 2: 'SSE2 SHA-256 transform', 4: 'AES-NI with 128-bit keys', 8: 'AES-NI with 256-bit keys', 16: 'SSE2 scrypt mixing', 3: 'both SHA-256 accelerations', 31: 'every acceleration'}

def one(path, mask, broken, brb, seed):
    L = ctypes.CDLL(path); L.h_which.restype = ctypes.c_char_p; rng = random.Random(seed)
    g = lambda n: ctypes.c_int.in_dll(L, n)
    g('h_mask').value, g('h_broken').value, g('h_brbyte').value, g('h_scripted').value = mask, broken, brb, 1
    d = dict(cpu_reports=[f for i, f in enumerate(FEATS) if mask >> i & 1], broken_by_the_driver=BR.get(broken, broken))
    bad = lambda **k: dict(d, **k)
    crypto = ctypes.CDLL('libcrypto.so.3'); V, S, U = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint64
    order = [0, 1, 2, 3]; rng.shuffle(order)
    for what in order + order[:2]:
        if what == 0:
            m = rng.randbytes(rng.randrange(0, 300)); o = ctypes.create_string_buffer(32)
            L.libcperciva_SHA256_Buf(m, S(len(m)), o)
            if o.raw != hashlib.sha256(m).digest(): return bad(function='SHA256_Buf', message=m.hex(), got=o.raw.hex())
        elif what == 1:
            for kl in (16, 32, 16):
                key = rng.randbytes(kl); exp = L.crypto_aes_key_expand; exp.restype = V; k = exp(key, S(kl))
                if not k: return bad(function='crypto_aes_key_expand', got='NULL')
                b = rng.randbytes(16); o = ctypes.create_string_buffer(16); L.crypto_aes_encrypt_block(b, o, V(k))
                w = wit_aes.blocks(crypto, key, [b])[0]
                if o.raw != w: return bad(function='crypto_aes_encrypt_block', key=key.hex(), block=b.hex(), got=o.raw.hex(), want=w.hex())
                m = rng.randbytes(77); o = ctypes.create_string_buffer(77); L.crypto_aesctr_buf(V(k), U(9), m, o, S(77))
                w = bytes(x ^ y for x, y in zip(m, wit_aes.keystream(crypto, key, 9, 77)))
                if o.raw != w: return bad(function='crypto_aesctr_buf', key=key.hex(), got=o.raw.hex(), want=w.hex())
                L.crypto_aes_key_free(V(k))
        elif what == 2:
            o = ctypes.create_string_buffer(40); r = L.crypto_scrypt(b'pw', S(2), b'na', S(2), U(8), 3, 2, o, S(40)); w = hashlib.scrypt(b'pw', salt=b'na', n=8, r=3, p=2, dklen=40)
            if r or o.raw != w: return bad(function='crypto_scrypt', N=8, r=3, p=2, returned=r, got=o.raw.hex(), want=w.hex())
        else:
            o = ctypes.create_string_buffer(40)
            if L.crypto_entropy_read(o, S(40)): return bad(function='crypto_entropy_read', got='-1')
        if g('h_illegal').value: return bad(got='runs %s on a CPU that does not report the instructions it needs' % L.h_which().decode())
    c = (ctypes.c_uint * 8).in_dll(L, 'h_calls')
    return None

SHIM = r'''
#ifndef W_SHIM
#define W_SHIM
#include <cpuid.h>
#include <immintrin.h>
int w_get(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *); void w_cpuid(unsigned, unsigned, unsigned *, unsigned *, unsigned *, unsigned *);
unsigned w_max(unsigned, unsigned *); int w_rdrand(unsigned *);
#define __get_cpuid(l, a, b, c, d) w_get(l, 0, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) w_get(l, s, a, b, c, d)
#define __get_cpuid_max(e, s) w_max(e, s)
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) w_cpuid(l, 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) w_cpuid(l, s, &(a), &(b), &(c), &(d))
#define _rdrand32_step(p) w_rdrand(p)
#endif
'''
SDRV = r'''
#include <stddef.h>
unsigned w_maxleaf, w_leaf1[4], w_leaf7[4]; int w_failfrom = -1, w_failto = -1, w_nrd;
void w_cpuid(unsigned l, unsigned s, unsigned * a, unsigned * b, unsigned * c, unsigned * d) {
	unsigned * r;
	static unsigned ones[4] = {~0u, ~0u, ~0u, ~0u}, none[4] = {0, 0, 0, 0}, l0[4] = {0, 0x756e6547, 0x6c65746e, 0x49656e69};
	if (l == 0) { l0[0] = w_maxleaf; r = l0; } else if (l > w_maxleaf) r = ones; /* beyond the highest leaf a CPU answers with unrelated data */
	else if (l == 1) r = w_leaf1; else if (l == 7 && s == 0) r = w_leaf7; else r = none;
	*a = r[0]; *b = r[1]; *c = r[2]; *d = r[3];
}
unsigned w_max(unsigned e, unsigned * s) { if (s) *s = 0x756e6547; return e ? 0 : w_maxleaf; }
int w_get(unsigned l, unsigned s, unsigned * a, unsigned * b, unsigned * c, unsigned * d) { if ((l & 0x80000000) || w_maxleaf == 0 || l > w_maxleaf) return 0; w_cpuid(l, s, a, b, c, d); return 1; }
int w_rdrand(unsigned * p) { int k = w_nrd++; if (k >= w_failfrom && k < w_failto) { *p = 0; return 0; } *p = 0xA0000000u + (unsigned)k; return 1; }
#define D(f) extern int cpusupport_x86_##f##_detect_1(void) __attribute__((weak)); int w_det_##f(void) { return cpusupport_x86_##f##_detect_1 ? cpusupport_x86_##f##_detect_1() != 0 : -1; }
D(aesni) D(rdrand) D(sse2) D(ssse3) D(shani)
extern int generate_seed_rdrand(unsigned *, size_t) __attribute__((weak));
int w_seed(unsigned * b, size_t n) { return generate_seed_rdrand ? generate_seed_rdrand(b, n) : -99; }
'''
def shimmed():
    import os
    h = os.path.join(native.build.tmpdir(), 'w_shim.h')
    if not os.path.exists(h): open(h, 'w').write(SHIM)
    try: return native.so('all', extra=('-include', h), csrc=SDRV)
    except native.build.CompileError: return None
def cpuid(path, seed):
    L = ctypes.CDLL(path); rng = random.Random(seed)
    l1, l7 = (ctypes.c_uint * 4).in_dll(L, 'w_leaf1'), (ctypes.c_uint * 4).in_dll(L, 'w_leaf7')
    where = dict(aesni=(l1, 2, 25), rdrand=(l1, 2, 30), sse2=(l1, 3, 26), ssse3=(l1, 2, 9), shani=(l7, 1, 29))
    for it in range(4000):
        mx = rng.choice([0, 1, 1, 2, 4, 5, 6, 7, 7, 7, 8, 13, 31]); ctypes.c_uint.in_dll(L, 'w_maxleaf').value = mx
        base = rng.choice([0, 0xffffffff, None, None])
        for r in (l1, l7):
            for i in range(4): r[i] = rng.getrandbits(32) if base is None else base
        for f in FEATS:
            r, i, b = where[f]
            if rng.random() < .5: r[i] ^= 1 << b
        for f in FEATS:
            r, i, b = where[f]; want = int(mx >= (7 if r is l7 else 1) and bool(r[i] >> b & 1)); got = getattr(L, 'w_det_' + f)()
            if got != -1 and got != want: return dict(function='cpusupport_x86_%s_detect_1' % f, cpuid=dict(highest_leaf=mx, leaf1=[hex(x) for x in l1], leaf7=[hex(x) for x in l7]), got=got, want=want, note='leaves above the highest one answer with unrelated bits (all ones here)')
def rdrand(path):
    for n in (1, 2, 3, 7, 8, 9, 16):
        for a in range(-1, n + 1):
            for b in ([0] if a < 0 else [a + 1, a + 2, 10 ** 6]):
                L = ctypes.CDLL(path)
                g = lambda x: ctypes.c_int.in_dll(L, x)
                g('w_nrd').value, g('w_failfrom').value, g('w_failto').value = 0, a, b
                o = (ctypes.c_uint * (n + 2))(*([0x5a5a5a5a] * (n + 2)))
                rc = L.w_seed(ctypes.byref(o, 4), ctypes.c_size_t(n))
                if rc == -99: return None
                d = dict(function='generate_seed_rdrand', words=n, rdrand_fails_at=list(range(max(a, 0), min(b, a + 5))), returned=rc, got=[hex(x) for x in o])
                if o[0] != 0x5a5a5a5a or o[n + 1] != 0x5a5a5a5a: return dict(d, what='wrote outside the buffer')
                if rc == 0 and len({x for x in o[1:n + 1] if 0xA0000000 <= x < 0xA0000000 + g('w_nrd').value}) != n: return dict(d, what='success although a word was not delivered by RDRAND')
                if a < 0 and rc: return dict(d, what='failure although every RDRAND succeeded')
    return None

def search(seed, deadline, failed):
    p = shimmed()
    if p:
        for f in (lambda: cpuid(p, seed), lambda: rdrand(p)):
            r = native.in_child(f, 30)
            if r[0] == 'ok' and r[1]: return r[1]
            if r[0] == 'exc' and __import__('os').environ.get('WITDEBUG'): print(r)
    path = native.so('all', csrc=DRV, ldflags=LD); rng = random.Random(seed)
    def det():
        L = ctypes.CDLL(path)
        for i, f in enumerate(FEATS):
            got, want = getattr(L, 'h_real_' + f)(), L.h_cpu(i)
            if got != -1 and bool(got) != bool(want): return dict(function='cpusupport_x86_%s_detect_1' % f, got=got, want='CPUID says %d' % want)
    r = native.in_child(det, 20)
    if r[0] == 'ok' and r[1]: return r[1]
    L = native.in_child(lambda: sum(bool(ctypes.CDLL(path).h_cpu(i)) << i for i in range(5)), 20)
    here = L[1] if L[0] == 'ok' else 4
    sc = [(m, b) for m in range(32) if m & ~here == 0 or True for b in (0, 1, 2, 4, 8, 16, 3, 31)]
    rng.shuffle(sc); sc.sort(key=lambda x: x[1] not in (0, 4, 8) or 0)
    def many(lst):
        import os
        for m, b in lst:
            # instructions this machine lacks are never reported present
            r = native.in_child(lambda: one(path, m & here, b, rng.randrange(256), rng.randrange(1 << 30)), 20)
            if r[0] == 'ok' and r[1]: return r[1]
            if r[0] in ('signal', 'timeout'): return dict(cpu_reports=[f for i, f in enumerate(FEATS) if (m & here) >> i & 1], broken_by_the_driver=BR.get(b, b), crash=str(r))
        return None
    t = time.time()
    while sc and time.time() < deadline and time.time() - t < 60:
        x = many(sc[:8]); sc = sc[8:]
        if x: return x
    return None
