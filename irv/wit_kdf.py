"""Replay of failed KDF obligations on the real compiled code: values against hashlib.scrypt, error codes, buffer sizes and releases under a recording allocator."""
import ctypes, errno, hashlib, random, time
from . import native
DRV = r'''
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>
struct blk { unsigned char * p, * base; size_t n; int live, kind; };
extern int __real_posix_memalign(void **, size_t, size_t); extern void * __real_malloc(size_t); extern void __real_free(void *);
extern void * __real_mmap(void *, size_t, int, int, int, off_t); extern int __real_munmap(void *, size_t);
static struct blk b[64]; static int nb;
int t_on, t_failat, t_bad, t_live, t_n, t_big;
static size_t t_cap = (size_t)1 << 26;
static const char * what = "";
const char * t_what(void) { return what; }
#define PAD 256
static int get(void ** out, size_t n, int kind) {
	if (++t_n == t_failat || nb == 64) return ENOMEM;
	if (n > t_cap && !t_big) return ENOMEM;
	struct blk * x = &b[nb];
	if (t_big) {
		void * q = __real_mmap(NULL, n + 2 * PAD, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
		if (q == MAP_FAILED) return ENOMEM;
		x->base = q;
	} else {
		if (__real_posix_memalign((void **)&x->base, 4096, n + 2 * PAD)) return ENOMEM;
		memset(x->base, 0xA5, n + 2 * PAD);
	}
	x->p = x->base + PAD; x->n = n; x->live = 1; x->kind = kind; nb++; t_live++;
	*out = x->p; return 0;
}
static void chk(struct blk * x) { for (int i = 0; i < PAD; i++) if (x->base[i] != 0xA5 || x->p[x->n + i] != 0xA5) { t_bad = 1; what = "wrote outside a buffer it allocated"; } }
static int put(void * p, int kind) {
	for (int i = 0; i < nb; i++) if (b[i].p == p && b[i].live) {
		if (b[i].kind != kind) { t_bad = 1; what = "released with the wrong function"; return -1; }
		b[i].live = 0; t_live--;
		if (t_big) __real_munmap(b[i].base, b[i].n + 2 * PAD); else { chk(&b[i]); __real_free(b[i].base); }
		return 0;
	}
	t_bad = 1; what = "released memory that is not live"; return -1;
}
int __wrap_posix_memalign(void ** o, size_t a, size_t n) { return t_on ? get(o, n, 0) : __real_posix_memalign(o, a, n); }
void * __wrap_mmap(void * a, size_t n, int p, int f, int fd, off_t o) { void * r; if (!t_on) return __real_mmap(a, n, p, f, fd, o); if (get(&r, n, 1)) { errno = ENOMEM; return MAP_FAILED; } if (!t_big) memset(r, 0, n); return r; }
void * __wrap_malloc(size_t n) { void * r; if (!t_on) return __real_malloc(n); if (get(&r, n, 0)) { errno = ENOMEM; return NULL; } return r; }
void __wrap_free(void * p) { if (!t_on) { __real_free(p); return; } if (p) put(p, 0); }
int __wrap_munmap(void * p, size_t n) { return t_on ? put(p, 1) : __real_munmap(p, n); }
static size_t room(void * q) { for (int i = 0; i < nb; i++) if (b[i].live && (unsigned char *)q >= b[i].p && (unsigned char *)q < b[i].p + b[i].n) return b[i].n - (size_t)((unsigned char *)q - b[i].p); return 0; }
void __real_PBKDF2_SHA256(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint8_t *, size_t);
void __real_crypto_scrypt_smix(uint8_t *, size_t, uint64_t, void *, void *);
static int stub; static uint32_t stub_p; static uint8_t * Bp; static size_t Bn; static uint64_t calls, expected; static uint8_t * seen;
void __wrap_PBKDF2_SHA256(const uint8_t * a, size_t al, const uint8_t * s, size_t sl, uint64_t c, uint8_t * o, size_t n) {
	if (!stub) { __real_PBKDF2_SHA256(a, al, s, sl, c, o, n); return; }
	if (stub == 1) { Bp = o; Bn = n; stub = 2; if (room(o) < n) { t_bad = 1; what = "writes the first PBKDF2 output into a smaller buffer"; } }
}
static void st(uint8_t * p, size_t r, uint64_t N, void * V, void * XY) {
	if (calls == 0 && !t_bad) { if (room(p) / 128 < r) { t_bad = 1; what = "gives the mixing function a block buffer smaller than 128*r bytes"; } else if (room(V) / 128 / r < N) { t_bad = 1; what = "gives the mixing function a table smaller than 128*r*N bytes"; } else if (room(XY) < 256 * r + 64) { t_bad = 1; what = "gives the mixing function scratch space smaller than 256*r+64 bytes"; } }
	if (calls == 0 && !t_bad && Bn != 128 * r * (size_t)stub_p) { t_bad = 1; what = "does not fill B with 128*r*p bytes"; }
 size_t off = (size_t)(p - Bp); calls++;
	if (off % (128 * r) || off >= Bn || seen[off / (128 * r)]++) { if (!t_bad) { t_bad = 1; what = "mixes a block twice or outside B, so another block is never mixed"; } } }
#define W(f) extern void __real_##f(uint8_t *, size_t, uint64_t, void *, void *) __attribute__((weak)); \
void __wrap_##f(uint8_t * B, size_t r, uint64_t N, void * V, void * XY) { if (stub) { st(B, r, N, V, XY); return; } __real_##f(B, r, N, V, XY); }
W(crypto_scrypt_smix)
W(crypto_scrypt_smix_sse2)
extern int crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int t_run(const uint8_t * p, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t q, uint8_t * o, size_t n, int failat, int * err) {
	int rc; nb = 0; t_bad = 0; t_live = 0; t_n = 0; t_failat = failat; t_on = 1; errno = 0;
	rc = crypto_scrypt(p, pl, s, sl, N, r, q, o, n); *err = errno; t_on = 0;
	if (t_live && !t_bad) { t_bad = 1; what = "does not release a buffer"; }
	return rc; }
int t_large(uint32_t r, uint32_t p) {
	uint8_t o[64]; int e, rc; calls = 0; stub_p = p; seen = __real_mmap(NULL, (size_t)p + 1, PROT_READ | PROT_WRITE, MAP_ANON | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	if (seen == MAP_FAILED) return 0;
	stub = 1; t_big = 1; rc = t_run((uint8_t *)"", 0, (uint8_t *)"", 0, 2, r, p, o, 64, 0, &e); t_big = 0; stub = 0;
	__real_munmap(seen, (size_t)p + 1);
	if (rc) return 0;
	if (!t_bad && calls != p) { t_bad = 1; what = "does not mix every block"; }
	return t_bad; }
int t_direct(int sse, uint8_t * B, size_t r, uint64_t N, void * V, void * XY) {
	if (sse) { if (!__real_crypto_scrypt_smix_sse2) return -1; __real_crypto_scrypt_smix_sse2(B, r, N, V, XY); } else __real_crypto_scrypt_smix(B, r, N, V, XY); return 0; }
int t_isbad(void) { return t_bad; }
int t_fail1(int n) { return t_n >= n; }
'''
LD = ['-Wl,' + ','.join('--wrap=' + f for f in ('posix_memalign', 'malloc', 'free', 'mmap', 'munmap', 'PBKDF2_SHA256', 'libcperciva_PBKDF2_SHA256', 'crypto_scrypt_smix', 'crypto_scrypt_smix_sse2'))]
DRVS = DRV

def expect(N, r, p, n):
    if r == 0 or p == 0: bad = {errno.EINVAL}
    else: bad = set()
    if n > (2**32 - 1) * 32: bad.add(errno.EFBIG)
    if r and p and r * p >= 1 << 30: bad.add(errno.EFBIG)
    if N < 2 or N & (N - 1): bad.add(errno.EINVAL)
    if r and (128 * r * N >= 2**64): bad.add(errno.ENOMEM)
    return bad

def search(seed, deadline, failed):
    for v in ('all', 'sse2', 'soft'):
        if time.time() > deadline: return None
        path = native.so(v, csrc=DRVS, ldflags=LD)
        def go():
            L = ctypes.CDLL(path); rng = random.Random(seed); run = L.t_run; L.t_what.restype = ctypes.c_char_p
            S, U = ctypes.c_size_t, ctypes.c_uint64; t0 = time.time(); err = ctypes.c_int()
            smixref(L, rng)
            def call(pw, sa, N, r, p, n, fail=0, size=None):
                size = n if size is None else size
                o = ctypes.create_string_buffer(b'\x5a' * (size + 64), size + 64)
                rc = run(pw, S(len(pw)), sa, S(len(sa)), U(N), ctypes.c_uint32(r), ctypes.c_uint32(p), o, S(n), fail, ctypes.byref(err))
                d = dict(passwd=pw.hex(), salt=sa.hex(), N=N, r=r, p=p, dkLen=n, allocation_made_to_fail=fail or None)
                if L.t_isbad(): return rc, d, dict(d, got=L.t_what().decode())
                if o.raw[size:] != b'\x5a' * 64: return rc, d, dict(d, got='wrote past the output buffer')
                return rc, d, o.raw[:size]
            # values
            i = 0
            while i < 150 and time.time() - t0 < 12 or i < 20:
                N = 2 ** rng.randrange(1, 9); r = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 32]); p = rng.choice([1, 1, 2, 3, 4, 5, 8, 17])
                pw, sa, n = rng.randbytes(rng.choice([0, 1, 16, 63, 64, 65, 100])), rng.randbytes(rng.choice([0, 1, 32, 64, 77])), rng.choice([1, 16, 31, 32, 33, 64, 65, 100, 200])
                rc, d, got = call(pw, sa, N, r, p, n); i += 1
                if isinstance(got, dict): return got
                if rc: return dict(d, got='returns %d, errno %d' % (rc, err.value), want='0')
                want = hashlib.scrypt(pw, salt=sa, n=N, r=r, p=p, dklen=n, maxmem=1 << 30)
                if got != want: return dict(d, got=got.hex(), want=want.hex())
            for N, r, p, n in ((2, 8, 2100, 64), (2, 1, 1, 2200000), (2, 300, 2, 64), (4096, 1, 1, 64), (2, 1, 70000, 33), (2, 70000, 1, 32), (1 << 16, 1, 1, 32), (1 << 18, 1, 1, 32), (1 << 16, 5, 1, 32), (1 << 13, 40, 2, 32)):
                rc, d, got = call(b'pw', b'salt', N, r, p, n)
                if isinstance(got, dict): return got
                want = hashlib.scrypt(b'pw', salt=b'salt', n=N, r=r, p=p, dklen=n, maxmem=1 << 30)
                if rc or got != want: return dict(d, returned=rc, got=got[-64:].hex(), want=want[-64:].hex(), shown='last 64 bytes')
            # every allocation failing in turn
            for f in range(1, 8):
                rc, d, got = call(b'p', b's', 4, 2, 2, 32, f)
                if isinstance(got, dict): return got
                if L.t_fail1(f) and (rc != -1 or err.value != errno.ENOMEM): return dict(d, got='returns %d, errno %d' % (rc, err.value), want='-1, ENOMEM')
                if not L.t_fail1(f) and rc: return dict(d, got='returns %d' % rc, want='0')
            # invalid and unsatisfiable parameters
            V32 = [0, 1, 2, 3, 8, 1 << 15, 1 << 16, (1 << 16) + 1, 1 << 25, (1 << 29), (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 1 << 31, (1 << 32) - 1]
            VN = [0, 1, 2, 3, 4, 6, 15, 16, 17, 1 << 31, 1 << 32, 3 << 32, (1 << 32) + 1, 1 << 40, 1 << 56, 1 << 57, (1 << 57) + 2, 1 << 58, 1 << 62, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2]
            VL = [1, 32, 64, (2**32 - 1) * 32, (2**32 - 1) * 32 + 1, 2**37 + 1, 2**40, 2**63]
            for j in range(6000):
                if time.time() - t0 > 22: break
                N, r, p, n = rng.choice(VN), rng.choice(V32), rng.choice(V32), rng.choice(VL) if rng.random() < .5 else 32
                e = expect(N, r, p, n)
                if not e:
                    if n > 64 or max(128 * r * p, 128 * r * N, 256 * r) <= 1 << 26: continue
                    e = {errno.ENOMEM}
                rc, d, got = call(b'', b'', N, r, p, n, size=64)
                if isinstance(got, dict): return got
                if rc != -1 or err.value not in e: return dict(d, got='returns %d, errno %d' % (rc, err.value), want='-1, errno in %s' % sorted(e), memory='requests above 64 MiB are refused')
            # large p: which blocks are mixed (stubbed PBKDF2 and mixing)
            for r, p in ((1, (1 << 25) + 1), (2, (1 << 24) + 3), (1, 1 << 16), (3, 70001), ((1 << 15) + 1, (1 << 14) + 5), (1 << 24, 1), ((1 << 24) + 1, 1), (1 << 25, 2), (1 << 29, 1), ((1 << 30) - 1, 1), ((1 << 28) + 1, 3)):
                if L.t_large(ctypes.c_uint32(r), ctypes.c_uint32(p)): return dict(N=2, r=r, p=p, got=L.t_what().decode(), how='PBKDF2 and the mixing function replaced by recording stand-ins')
            return None
        def smixref(L, rng): pass
        r = native.in_child(go, 90)
        if r[0] == 'ok' and r[1]: return dict(variant=v, function='crypto_scrypt', **r[1])
        if r[0] in ('signal', 'timeout'): return dict(variant=v, crash=str(r), seed=seed, what='crypto_scrypt crashes or hangs', function='crypto_scrypt')
        r = native.in_child(lambda: direct(path, seed), 60)
        if r[0] == 'ok' and r[1]: return dict(variant=v, **r[1])
        if r[0] in ('signal', 'timeout'): return dict(variant=v, crash=str(r), seed=seed, what='mixing function crashes or hangs')
    for v in ('all', 'soft'):
        r = native.in_child(lambda: big(native.so(v)), max(5, min(120, deadline - time.time())))
        if r[0] == 'ok' and r[1]: return dict(variant=v, **r[1])
    return None
def big(path):
    """one computation with more than 4 GiB of working memory, against libcrypto"""
    avail = [int(l.split()[1]) for l in open('/proc/meminfo') if l.startswith('MemAvailable')][0] >> 20
    if avail < 10: return None
    L = ctypes.CDLL(path); C = ctypes.CDLL('libcrypto.so.3'); S, U = ctypes.c_size_t, ctypes.c_uint64
    a, b = ctypes.create_string_buffer(64), ctypes.create_string_buffer(64); N, r, p = 1 << 20, 33, 1
    C.EVP_PBE_scrypt.argtypes = [ctypes.c_char_p, S, ctypes.c_char_p, S, U, U, U, U, ctypes.c_void_p, S]
    if C.EVP_PBE_scrypt(b'pw', 2, b'salt', 4, N, r, p, 6 << 30, b, 64) != 1: return None
    rc = L.crypto_scrypt(b'pw', S(2), b'salt', S(4), U(N), ctypes.c_uint32(r), ctypes.c_uint32(p), a, S(64))
    if rc == 0 and a.raw != b.raw: return dict(function='crypto_scrypt', passwd='pw', salt='salt', N=N, r=r, p=p, dkLen=64, got=a.raw.hex(), want=b.raw.hex())

def salsa8(B):
    x = list(B); M = 0xffffffff
    def q(a, b, c, n): v = (x[b] + x[c]) & M; x[a] ^= ((v << n) | (v >> (32 - n))) & M
    for _ in range(4):
        for a, b, c, d in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            q(b, a, d, 7); q(c, b, a, 9); q(d, c, b, 13); q(a, d, c, 18)
    return [(a + b) & M for a, b in zip(x, B)]
def bmix(B, r):
    X = B[-16:]; Y = []
    for i in range(2 * r): X = salsa8([a ^ b for a, b in zip(X, B[16 * i:16 * i + 16])]); Y.append(X)
    return sum(Y[0::2], []) + sum(Y[1::2], [])
def romix(b, r, N):
    n = 32 * r; X = [int.from_bytes(b[4 * i:4 * i + 4], 'little') for i in range(n)]; V = []
    for i in range(N): V.append(X); X = bmix(X, r)
    for i in range(N):
        j = (X[-16] | X[-15] << 32) % N; X = bmix([a ^ c for a, c in zip(X, V[j])], r)
    return b''.join(w.to_bytes(4, 'little') for w in X)
def direct(path, seed):
    """both mixing functions on random blocks, against RFC 7914 ROMix"""
    L = ctypes.CDLL(path); rng = random.Random(seed); al = lambda n: ctypes.create_string_buffer(b'\xa5' * (n + 192), n + 192)
    at = lambda b: (ctypes.addressof(b) + 127) & ~63
    for i in range(24):
        r, N = rng.choice([1, 1, 2, 3, 4]), 2 ** rng.randrange(1, 5); blk = rng.randbytes(128 * r); want = romix(blk, r, N)
        for sse in (0, 1):
            B, V, XY = al(128 * r), al(128 * r * N), al(256 * r + 64); ctypes.memmove(at(B), blk, 128 * r)
            if L.t_direct(sse, ctypes.c_void_p(at(B)), ctypes.c_size_t(r), ctypes.c_uint64(N), ctypes.c_void_p(at(V)), ctypes.c_void_p(at(XY))): continue
            d = dict(function='crypto_scrypt_smix_sse2' if sse else 'crypto_scrypt_smix', r=r, N=N, B=blk.hex())
            got = ctypes.string_at(at(B), 128 * r)
            if got != want: return dict(d, got=got.hex(), want=want.hex())
            for nm, buf, n in (('B', B, 128 * r), ('V', V, 128 * r * N), ('XY', XY, 256 * r + 64)):
                o = at(buf) - ctypes.addressof(buf)
                if set(buf.raw[:o] + buf.raw[o + n:]) != {0xa5, }: 
                    x = buf.raw[:o] + buf.raw[o + n:]
                    if x.strip(b'\xa5').strip(b'\0'): return dict(d, got='wrote outside %s' % nm)
    return None
