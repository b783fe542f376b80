"""Replay on the real compiled code of failed obligations of lib/scryptenc: a Python reference of the documented format
(hashlib.scrypt, hmac, libcrypto AES), with interposed allocation, stdio, limits and KDF to reach every failure path."""
import ctypes, hashlib, hmac, os, random, struct, time, re, tempfile
from . import native
CODES = 'OK ELIMIT ECLOCK EKEY ESALT EOPENSSL ENOMEM EINVAL EVERSION ETOOBIG ETOOSLOW EPASS EWRFILE ERDFILE EPARAM EBIGSLOW'.split()
RC = {n: i for i, n in enumerate(CODES)}
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'mmap', 'munmap', 'fread', 'fwrite', 'fflush', 'memtouse', 'scryptenc_cpuperf', 'crypto_scrypt', 'crypto_entropy_read']
DRV = r'''
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <ucontext.h>
#include "scryptenc.h"
/* ---- control */
int w_on, w_fail_at = -1, w_count, w_leak, w_bad, w_lim = 0, w_kdfs, w_secret_hits;
char w_where[128];
uint64_t w_memlimit, w_N; double w_opps; uint32_t w_r, w_p; size_t w_maxmem; double w_frac; int w_kdf_fake;
int w_order; int w_kdf_order, w_lim_order;
uint8_t w_sec[256]; int w_seclen;
#define MAXB 4096
static void * blk[MAXB]; static size_t bsz[MAXB]; static int nb;
static void scan(const void * p, size_t n, const char * what) {
	const uint8_t * q = p; size_t i; int j;
	if (!w_seclen) return;
	for (i = 0; i + 8 <= n; i++) for (j = 0; j + 8 <= w_seclen; j += 8) if (memcmp(q + i, w_sec + j, 8) == 0) { w_secret_hits++; snprintf(w_where, sizeof(w_where), "%s, offset %zu of %zu", what, i, n); return; }
}
static void reg(void * p, size_t n) { if (!p) return; for (int i = 0; i < nb; i++) if (!blk[i]) { blk[i] = p; bsz[i] = n; w_leak++; return; } blk[nb] = p; bsz[nb++] = n; w_leak++; }
static size_t unreg(void * p) { for (int i = 0; i < nb; i++) if (blk[i] == p) { blk[i] = 0; w_leak--; return bsz[i]; } w_bad++; return 0; }
static int failing(void) { return w_on && w_count++ == w_fail_at; }
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t); void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t);
void * __real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void * __wrap_malloc(size_t n) { void * p; if (!w_on) return __real_malloc(n); if (failing()) { errno = ENOMEM; return 0; } p = __real_malloc(n); if (p) { memset(p, 0xA7, n); reg(p, n); } return p; }
void * __wrap_calloc(size_t a, size_t b) { void * p; if (!w_on) return __real_calloc(a, b); if (failing()) { errno = ENOMEM; return 0; } p = __real_calloc(a, b); reg(p, a * b); return p; }
void * __wrap_realloc(void * q, size_t n) { void * p; if (!w_on) return __real_realloc(q, n); if (failing()) { errno = ENOMEM; return 0; } if (q) unreg(q); p = __real_realloc(q, n); reg(p, n); return p; }
void __wrap_free(void * p) { size_t n; if (w_on && p) { n = unreg(p); scan(p, n, "heap block at free"); if (n == 0 && w_bad) return; } __real_free(p); }
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int r; if (!w_on) return __real_posix_memalign(p, a, n); if (failing()) return ENOMEM; r = __real_posix_memalign(p, a, n); if (!r) reg(*p, n); return r; }
void * __wrap_mmap(void * a, size_t n, int pr, int fl, int fd, off_t o) { void * p; if (w_on && failing()) { errno = ENOMEM; return MAP_FAILED; } p = __real_mmap(a, n, pr, fl, fd, o); if (w_on && p != MAP_FAILED) reg(p, n); return p; }
int __wrap_munmap(void * p, size_t n) { if (w_on) { size_t m = unreg(p); if (m != n) w_bad++; } return __real_munmap(p, n); }
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fflush(FILE *);
size_t w_written; 
size_t __wrap_fread(void * p, size_t a, size_t b, FILE * f) { return __real_fread(p, a, b, f); }
size_t __wrap_fwrite(const void * p, size_t a, size_t b, FILE * f) { if (f != stderr) w_written += a * b; return __real_fwrite(p, a, b, f); }
int __wrap_fflush(FILE * f) { return __real_fflush(f); }
int __real_memtouse(size_t, double, size_t *); int __real_scryptenc_cpuperf(double *);
int __wrap_memtouse(size_t m, double fr, size_t * l) { w_order++; w_lim_order = w_order; w_maxmem = m; w_frac = fr; if (!w_lim) return __real_memtouse(m, fr, l); if (w_lim & 2) return 1; *l = w_memlimit; return 0; }
int __wrap_scryptenc_cpuperf(double * o) { w_order++; if (!w_lim) return __real_scryptenc_cpuperf(o); if (w_lim & 4) return SCRYPT_ECLOCK; *o = w_opps; return 0; }
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * pw, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t * b, size_t n) {
	w_kdfs++; w_N = N; w_r = r; w_p = p; w_kdf_order = ++w_order;
	if (w_kdf_fake == 2) return -1;
	if (w_kdf_fake && ((double)N * r * p > 4096.0)) {	/* stand-in for derivations too large to run: fails for odd salts */
		uint64_t h = 14695981039346656037ull; size_t i; uint8_t q[16];
		if (sl && (s[0] & 1)) return -1;
		for (i = 0; i < 8; i++) q[i] = (uint8_t)(N >> (8 * i)); for (i = 0; i < 4; i++) { q[8 + i] = (uint8_t)(r >> (8 * i)); q[12 + i] = (uint8_t)(p >> (8 * i)); }
		for (i = 0; i < pl; i++) h = (h ^ pw[i]) * 1099511628211ull; for (i = 0; i < sl; i++) h = (h ^ s[i]) * 1099511628211ull; for (i = 0; i < 16; i++) h = (h ^ q[i]) * 1099511628211ull;
		for (i = 0; i < n; i++) { h = (h ^ i) * 1099511628211ull; b[i] = (uint8_t)(h >> 56); }
		if (n <= 128 && n) { memcpy(w_sec, b, n); w_seclen = n; }
		return 0;
	}
	int rc = __real_crypto_scrypt(pw, pl, s, sl, N, r, p, b, n);
	if (rc == 0 && n <= 128 && n) { memcpy(w_sec, b, n); w_seclen = n; }
	return rc;
}
int __real_crypto_entropy_read(uint8_t *, size_t);
int w_ent_fail;
int __wrap_crypto_entropy_read(uint8_t * b, size_t n) { return w_ent_fail ? -1 : __real_crypto_entropy_read(b, n); }
/* ---- streams with chosen failures */
struct ck { const uint8_t * in; size_t n, pos, errat; size_t step; uint8_t * out; size_t cap, len, werrat; };
static ssize_t rd(void * c, char * b, size_t n) { struct ck * k = c; if (k->pos >= k->errat) { errno = EIO; return -1; } if (n > k->n - k->pos) n = k->n - k->pos; if (k->step && n > k->step) n = k->step; if (n > k->errat - k->pos) n = k->errat - k->pos; memcpy(b, k->in + k->pos, n); k->pos += n; return n; }
static ssize_t wr(void * c, const char * b, size_t n) { struct ck * k = c; if (k->len + n > k->werrat) { errno = ENOSPC; return 0; } if (k->len + n > k->cap) abort(); memcpy(k->out + k->len, b, n); k->len += n; return n; }
size_t w_outlen;
static uint8_t * stk;
#define STK (1 << 20)
struct call { int op; const uint8_t * in; size_t n; uint8_t * out; size_t * ol; const uint8_t * pw; size_t pl; struct scryptenc_params * P; int verbose, force; size_t errat, werrat, step, buf; int rc, rc2; };
static struct call C;
static ucontext_t u0, u1; static FILE * Fi, * Fo; static struct ck ki, ko;
static void body(void) {
	struct call * c = &C;
	ki = (struct ck){ c->in, c->n, 0, c->errat, c->step, 0, 0, 0, 0 }; ko = (struct ck){ 0, 0, 0, 0, 0, c->out, c->n + 256, 0, c->werrat };
	FILE * fi = 0, * fo = 0;
	cookie_io_functions_t ri = { rd, 0, 0, 0 }, wo = { 0, wr, 0, 0 };
	struct scryptdec_file_cookie * K = 0;
	int s = w_on; w_on = 0;
	if (c->op >= 2) { fi = fopencookie(&ki, "r", ri); fo = fopencookie(&ko, "w", wo); setvbuf(fi, 0, _IOFBF, 4096); setvbuf(fo, 0, c->buf ? _IOFBF : _IONBF, c->buf ? c->buf : 0); }
	w_on = s;
	w_written = 0;
	switch (c->op) {
	case 0: c->rc = scryptenc_buf(c->in, c->n, c->out, c->pw, c->pl, c->P, c->verbose, c->force); break;
	case 1: c->rc = scryptdec_buf(c->in, c->n, c->out, c->ol, c->pw, c->pl, c->P, c->verbose, c->force); break;
	case 2: c->rc = scryptenc_file(fi, fo, c->pw, c->pl, c->P, c->verbose, c->force); break;
	case 3: c->rc = scryptdec_file(fi, fo, c->pw, c->pl, c->P, c->verbose, c->force); break;
	case 4: c->rc = scryptdec_file_prep(fi, c->pw, c->pl, c->P, c->verbose, c->force, &K); if (c->rc == 0) { c->rc2 = w_written ? 999 : 0; c->rc = scryptdec_file_copy(K, fo); scryptdec_file_cookie_free(K); } else if (w_written) c->rc2 = 998; break;
	case 5: c->rc = scryptdec_file_printparams(fi); break;
	}
	w_outlen = ko.len;          /* what had reached the output when the function returned */
	w_on = 0; Fi = fi; Fo = fo;
}
int drv_call(int op, const uint8_t * in, size_t n, uint8_t * out, size_t * ol, const uint8_t * pw, size_t pl, struct scryptenc_params * P, int verbose, int force, size_t errat, size_t werrat, size_t step, size_t buf, int * rc2) {
	struct call c = { op, in, n, out, ol, pw, pl, P, verbose, force, errat, werrat, step, buf, -1, 0 };
	if (!stk) stk = __real_mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memset(stk, 0, STK);
	nb = 0; w_leak = w_bad = w_count = w_kdfs = w_secret_hits = w_order = w_kdf_order = w_lim_order = 0; w_seclen = 0; w_where[0] = 0;
	C = c;
	getcontext(&u1); u1.uc_stack.ss_sp = stk; u1.uc_stack.ss_size = STK; u1.uc_link = &u0;
	makecontext(&u1, body, 0);
	w_on = 1;
	swapcontext(&u0, &u1);
	w_on = 0;
	scan(stk, STK, "stack after return");
	if (Fi) { fclose(Fi); fclose(Fo); Fi = Fo = 0; }
	*rc2 = C.rc2;
	return C.rc;
}
'''
class PP(ctypes.Structure):
    _fields_ = [('maxmem', ctypes.c_size_t), ('frac', ctypes.c_double), ('maxtime', ctypes.c_double), ('logN', ctypes.c_int), ('r', ctypes.c_uint32), ('p', ctypes.c_uint32)]

# ---------------------------------------------------------------- reference
def aes_ctr(key, data):
    if not data: return b''
    import ctypes.util
    L = ctypes.CDLL(ctypes.util.find_library('crypto') or 'libcrypto.so.3')
    for f in ('EVP_CIPHER_CTX_new', 'EVP_aes_256_ctr'): getattr(L, f).restype = ctypes.c_void_p
    c = ctypes.c_void_p(L.EVP_CIPHER_CTX_new())
    out = ctypes.create_string_buffer(len(data) + 32); n = ctypes.c_int()
    L.EVP_EncryptInit_ex(c, ctypes.c_void_p(L.EVP_aes_256_ctr()), None, key, bytes(16))
    L.EVP_EncryptUpdate(c, out, ctypes.byref(n), data, len(data))
    L.EVP_CIPHER_CTX_free(c)
    return out.raw[:len(data)]
_kc = {}
def kdf(pw, salt, logN, r, p):
    k = (pw, salt, logN, r, p)
    if not small(logN, r, p):       # the interposed stand-in
        h = 14695981039346656037; M = (1 << 64) - 1; out = bytearray()
        for c in pw + salt + struct.pack('<QII', 1 << logN, r, p): h = (h ^ c) * 1099511628211 & M
        for i in range(64): h = (h ^ i) * 1099511628211 & M; out.append(h >> 56)
        return bytes(out)
    if k not in _kc: _kc[k] = hashlib.scrypt(pw, salt=salt, n=1 << logN, r=r, p=p, dklen=64, maxmem=1 << 30)
    return _kc[k]
def header(pw, logN, r, p, salt, small=True):
    h = b'scrypt\0' + bytes([logN]) + struct.pack('>II', r, p) + salt
    h += hashlib.sha256(h).digest()[:16]
    if not small: return h + bytes(32)
    return h + hmac.new(kdf(pw, salt, logN, r, p)[32:], h, hashlib.sha256).digest()
def encrypt(pw, logN, r, p, salt, pt):
    dk = kdf(pw, salt, logN, r, p)
    b = header(pw, logN, r, p, salt) + aes_ctr(dk[:32], pt)
    return b + hmac.new(dk[32:], b, hashlib.sha256).digest()
def valid(logN, r, p): return 1 <= logN <= 63 and r and p and r * p < 1 << 30
def small(logN, r, p): return (1 << logN) * r * p <= 4096
def decrypt(pw, b, file, lim, head_only=False):
    """-> (set of acceptable codes, plaintext or None).  lim: None (forced) or (memlimit, opps, maxtime)"""
    if len(b) < 7 or b[:6] != b'scrypt': return {RC['EINVAL']}, None
    if b[6]: return {RC['EVERSION']}, None
    if len(b) < (96 if file else 128): return {RC['EINVAL']}, None
    if hashlib.sha256(b[:48]).digest()[:16] != b[48:64]: return {RC['EINVAL']}, None
    logN = b[7]; r, p = struct.unpack('>II', b[8:16]); salt = b[16:48]
    if not valid(logN, r, p): return {RC['EINVAL']}, None
    if lim:
        big = 128 * (1 << logN) * r > lim[0]; slow = 4 * (1 << logN) * r * p > lim[1] * lim[2]
        if big or slow: return {RC['EBIGSLOW' if big and slow else 'ETOOBIG' if big else 'ETOOSLOW']}, None
    if not small(logN, r, p) and salt[0] & 1: return {RC['EKEY']}, None     # interposed: these fail
    dk = kdf(pw, salt, logN, r, p)
    if hmac.new(dk[32:], b[:64], hashlib.sha256).digest() != b[64:96]: return {RC['EPASS']}, None
    if len(b) < 128 or hmac.new(dk[32:], b[:-32], hashlib.sha256).digest() != b[-32:]: return {RC['EINVAL']}, None
    return {0}, aes_ctr(dk[:32], b[96:-32])

class L_:
    def __init__(self, path):
        self.l = ctypes.CDLL(path); self.v = lambda n, t=ctypes.c_int: t.in_dll(self.l, n)
    def call(self, op, data, pw, P, force=1, verbose=0, errat=1 << 62, werrat=1 << 62, step=0, buf=4096, lim=None, fail_at=-1, fake=1, limfail=0, ent=0):
        inb = ctypes.create_string_buffer(data, len(data) or 1)
        out = ctypes.create_string_buffer(len(data) + 256 + 64)
        base = ctypes.addressof(out)
        ol = ctypes.c_size_t(0xdead); rc2 = ctypes.c_int(0)
        self.v('w_fail_at').value = fail_at; self.v('w_kdf_fake').value = fake; self.v('w_ent_fail').value = ent
        self.v('w_lim').value = (1 if lim else 0) | limfail
        if lim: self.v('w_memlimit', ctypes.c_uint64).value = lim[0]; self.v('w_opps', ctypes.c_double).value = lim[1]
        pwb = ctypes.create_string_buffer(pw, len(pw) or 1)
        S = ctypes.c_size_t
        rc = self.l.drv_call(op, inb, S(len(data)), ctypes.c_void_p(base), ctypes.byref(ol), pwb, S(len(pw)), ctypes.byref(P), verbose, force, S(errat), S(werrat), S(step), S(buf), ctypes.byref(rc2))
        n = self.v('w_outlen', ctypes.c_size_t).value
        r = dict(rc=rc, rc2=rc2.value, out=out.raw, n=n, ol=ol.value, count=self.v('w_count').value, leak=self.v('w_leak').value, bad=self.v('w_bad').value,
                 kdfs=self.v('w_kdfs').value, hits=self.v('w_secret_hits').value, where=self.v('w_where', ctypes.c_char * 128).value.decode(),
                 N=self.v('w_N', ctypes.c_uint64).value, r=self.v('w_r', ctypes.c_uint32).value, p=self.v('w_p', ctypes.c_uint32).value,
                 maxmem=self.v('w_maxmem', ctypes.c_size_t).value, frac=self.v('w_frac', ctypes.c_double).value,
                 data_same=inb.raw[:len(data)] == data)
        return r
OPS = ['scryptenc_buf', 'scryptdec_buf', 'scryptenc_file', 'scryptdec_file', 'scryptdec_file_prep/copy', 'scryptdec_file_printparams']
def mkP(logN=0, r=0, p=0, maxtime=1.0, maxmem=0, frac=0.5): return PP(maxmem, frac, maxtime, logN, r, p)
def info(op, data, pw, P, r, why, **kw):
    d = dict(function=OPS[op], what=why, input=data[:512].hex(), input_len=len(data), passphrase=pw.decode('latin1'), params=[P.maxmem, P.frac, P.maxtime, P.logN, P.r, P.p], rc=CODES[r['rc']] if 0 <= r['rc'] < 16 else r['rc'])
    d.update(kw); return d
SIZES = [0, 1, 15, 16, 17, 31, 32, 33, 100, 4096, 65535, 65536, 65537, 65536 - 32, 65536 - 31, 65568, 131072, 131073, 131104, 131072 - 32, 200000]

def t_enc(L, rng, props):
    """format of what is produced, explicit and automatic parameters"""
    for n in SIZES + [rng.randrange(0, 70000) for _ in range(6)]:
        for op in (0, 2):
            for auto in (0, 1):
                pw, pt = rng.randbytes(rng.choice([0, 1, 8, 70])), rng.randbytes(n)
                P = mkP(*( (0, 0, 0) if auto else (rng.choice([1, 2, 3, 5]), rng.choice([1, 3, 8]), rng.choice([1, 2, 5]))), maxtime=1.0)
                q = mkP(P.logN, P.r, P.p, maxtime=1.0)
                kw = dict(step=rng.choice([0, 1000, 4096, 7]), buf=rng.choice([0, 4096, 512]))
                r = L.call(op, pt, pw, q, lim=(1 << 20, 100.0) , fake=1, **kw)
                if r['rc']:
                    if auto and r['rc'] == RC['EKEY'] and not small(max(1, q.logN), q.r, q.p): continue
                    return info(op, pt, pw, P, r, 'encryption failed')
                b = r['out'][:n + 128] if op == 0 else r['out'][:r['n']]
                if op == 2 and r['n'] != n + 128: return info(op, pt, pw, P, r, 'output is %d bytes, not %d' % (r['n'], n + 128), **kw)
                logN, (rr, pp), salt = b[7], struct.unpack('>II', b[8:16]), b[16:48]
                if not valid(logN, rr, pp) or (P.logN and (logN, rr, pp) != (P.logN, P.r, P.p)): return info(op, pt, pw, P, r, 'parameters in the header are not those requested', header=b[:96].hex())
                w = encrypt(pw, logN, rr, pp, salt, pt)
                if w != b:
                    i = next(i for i in range(len(w)) if w[i] != b[i])
                    return info(op, pt, pw, P, r, 'output differs from the documented format at offset %d' % i, got=b[i:i + 32].hex(), want=w[i:i + 32].hex(), **kw)
                if op == 0 and any(r['out'][n + 128:n + 300]): return info(op, pt, pw, P, r, 'wrote past the n+128 output bytes')
                if (q.logN, q.r, q.p) != (logN, rr, pp): return info(op, pt, pw, P, r, 'parameters returned differ from the header')
    # large explicit parameters
    big = [(1, 1, 65537), (1, 1, 65536), (2, 300, 257), (1, 65537, 1), (20, 8, 1), (33, 8, 1), (63, 1, 1), (40, 1 << 29, 1), (31, 1, (1 << 30) - 1), (32, (1 << 15) - 1, 1 << 15), (12, 255, 65535), (17, 1 << 24, 3), (10, 3, 1 << 24)]
    for logN, rr, pp in big + [(rng.randrange(1, 64), rng.randrange(1, 1 << 15), rng.randrange(1, 1 << 15)) for _ in range(6)]:
        for op in (0, 2):
            pt = rng.randbytes(rng.choice([0, 5, 100])); pw = rng.randbytes(9); P = mkP(logN, rr, pp)
            for _ in range(12):
                r = L.call(op, pt, pw, mkP(logN, rr, pp))
                if r['rc'] != RC['EKEY']: break
            else: continue
            if r['rc']: return info(op, pt, pw, P, r, 'encryption failed')
            b = r['out'][:len(pt) + 128] if op == 0 else r['out'][:r['n']]
            if (r['N'], ) != (1 << logN, ) or encrypt(pw, logN, rr, pp, b[16:48], pt) != b: return info(op, pt, pw, P, r, 'output differs from the documented format', got=b[:96].hex(), want=encrypt(pw, logN, rr, pp, b[16:48], pt)[:96].hex())
    # explicit invalid parameters
    for logN, rr, pp in ((64, 8, 1), (1, 1 << 15, 1 << 15), (2, 1 << 29, 2), (-1, 1, 1), (1, 0xffffffff, 0xffffffff)):
        for op in (0, 2):
            P = mkP(logN, rr, pp)
            r = L.call(op, b'x', b'pw', P)
            if r['rc'] != RC['EPARAM'] or r['kdfs']: return info(op, b'x', b'pw', P, r, 'invalid explicit parameters not rejected as such')
    for op in (0, 2):
        P = mkP(2, 1, 1); r = L.call(op, b'x', b'pw', P, ent=1)
        if r['rc'] != RC['ESALT']: return info(op, b'x', b'pw', P, r, 'entropy failure not reported as a salt failure')

def mutate(rng, b):
    b = bytearray(b)
    k = rng.random()
    if k < 0.5 and b:
        i = rng.randrange(min(len(b), 140)) if rng.random() < 0.7 else rng.randrange(max(0, len(b) - 40), len(b))
        b[i] ^= rng.choice([1, 2, 0x80, 0xff, rng.randrange(1, 256)])
    elif k < 0.75: b = b[:rng.randrange(0, len(b) + 1)]
    else: b += rng.randbytes(rng.randrange(1, 40))
    return bytes(b)
def fix(pw, b):
    """recompute checksum and, for small parameters, the header HMAC"""
    b = bytearray(b); b[48:64] = hashlib.sha256(bytes(b[:48])).digest()[:16]
    logN = b[7]; r, p = struct.unpack('>II', bytes(b[8:16]))
    if valid(logN, r, p):
        dk = kdf(pw, bytes(b[16:48]), logN, r, p)
        b[64:96] = hmac.new(dk[32:], bytes(b[:64]), hashlib.sha256).digest()
        b[-32:] = hmac.new(dk[32:], bytes(b[:-32]), hashlib.sha256).digest()
    return bytes(b)
EDGE = [0, 1, 2, 8, 1 << 14, 1 << 15, (1 << 15) + 1, 1 << 16, 1 << 20, 1 << 24, 1 << 25, 1 << 29, (1 << 30) - 1, 1 << 30, 1 << 31, (1 << 32) - 1, 0xffff]
def dec_one(L, op, b, pw, rng, lim, **kw):
    force = 0 if lim else 1
    P = mkP(maxtime=lim[2] if lim else 1.0, maxmem=rng.choice([0, 12345]), frac=rng.choice([0.5, 0.125]))
    q = mkP(maxtime=P.maxtime, maxmem=P.maxmem, frac=P.frac)
    r = L.call(op, b, pw, q, force=force, lim=lim[:2] if lim else (1 << 40, 1e9), **kw)
    codes, pt = decrypt(pw, b, op != 1, lim)
    x = dict(memlimit_opps_maxtime=lim)
    if r['rc'] not in codes: return info(op, b, pw, P, r, 'expected %s' % '/'.join(CODES[c] for c in codes), **x)
    if lim and r['kdfs'] and (r['maxmem'], r['frac']) != (P.maxmem, P.frac): return info(op, b, pw, P, r, 'memory limit computed from other settings than the caller gave', **x)
    if r['kdfs'] and not (valid(b[7], *struct.unpack('>II', b[8:16]))): return info(op, b, pw, P, r, 'key derived for invalid parameters', **x)
    if codes <= {RC[k] for k in ('EINVAL', 'EVERSION', 'ETOOBIG', 'ETOOSLOW', 'EBIGSLOW', 'EPASS')} and r['rc'] != RC['EINVAL'] and r['n']: return info(op, b, pw, P, r, 'output written although the header was not verified', **x)
    if r['rc2']: return info(op, b, pw, P, r, 'output written before the passphrase was verified', **x)
    if pt is not None:
        got = r['out'][:r['ol']] if op == 1 else r['out'][:r['n']]
        if op == 1 and r['ol'] != len(pt): return info(op, b, pw, P, r, 'length %d returned, want %d' % (r['ol'], len(pt)), **x)
        if got != pt: return info(op, b, pw, P, r, 'plaintext differs', **x)
        if (q.logN, q.r, q.p) != (b[7],) + struct.unpack('>II', b[8:16]): return info(op, b, pw, P, r, 'parameters returned differ from the header', **x)
    elif codes == {RC['EPASS']} and r['n']: return info(op, b, pw, P, r, 'output written under a wrong passphrase', **x)
    if not r['data_same']: return info(op, b, pw, P, r, 'input modified', **x)
    return None
def limits(rng, b):
    """limits around the needs of the header"""
    if len(b) < 16 or rng.random() < 0.4: return None
    logN = b[7] & 63; r, p = struct.unpack('>II', b[8:16])
    need, ops = 128 * (1 << logN) * r, 4 * (1 << logN) * r * p
    m = min((1 << 64) - 1, max(1 << 20, rng.choice([need, need - 1, need + 1, need // 2, need * 2, 1 << 62, need + 127, need - 128])))
    t = rng.choice([1.0, 2.0, 0.5])
    o = float(max(1, rng.choice([ops, ops // 2, ops * 2, 1 << 52, 1 << 45]))) / t
    return (m, o, t)
def t_dec(L, rng, props, secs):
    t0 = time.time(); i = 0
    while time.time() - t0 < secs:
        i += 1
        pw = rng.randbytes(rng.choice([0, 3, 65]))
        n = rng.choice(SIZES[:12]) if rng.random() < 0.8 else rng.choice(SIZES)
        b = encrypt(pw, rng.choice([1, 2, 4]), rng.choice([1, 2, 8]), rng.choice([1, 3]), rng.randbytes(32), rng.randbytes(n))
        k = rng.random()
        op = rng.choice([1, 1, 3, 4])
        if k < 0.15: pass
        elif k < 0.3:   # parameter extremes, well formed otherwise
            h = bytearray(b); h[7] = rng.choice([0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255])
            h[8:16] = struct.pack('>II', rng.choice(EDGE), rng.choice(EDGE)); b = fix(pw, h)
        elif k < 0.45:  # valid and large
            h = bytearray(b); h[7] = rng.randrange(1, 64)
            r = rng.choice([1, 8, 1 << 10, 1 << 20, 1 << 25, (1 << 30) - 1]); p = rng.choice([x for x in (1, 2, 8, 1000, (1 << 30) - 1) if r * x < 1 << 30])
            b = encrypt(pw, h[7], r, p, rng.randbytes(32), rng.randbytes(n))
        elif k < 0.55: pw2 = pw + b'x'; r = dec_one(L, op, b, pw2, rng, None); 
        elif k < 0.65: b = bytearray(b); b[rng.randrange(96)] ^= 1 << rng.randrange(8); b = bytes(b)
        elif k < 0.75: b = bytearray(mutate(rng, b)); b = fix(pw, b) if len(b) >= 128 else bytes(b)
        else: b = mutate(rng, b)
        r = dec_one(L, op, b, pw if not 0.45 <= k < 0.55 else pw + b'x', rng, limits(rng, b), step=rng.choice([0, 0, 1, 95, 96, 97, 4096]) if len(b) < 5000 else rng.choice([0, 4096, 5000]), buf=rng.choice([0, 4096]))
        if r: return r
        if i < 4 * len(SIZES):
            b = encrypt(b'pw', 1, 1, 1, rng.randbytes(32), rng.randbytes(SIZES[i % len(SIZES)]))
            if rng.random() < 0.5: b = b[:-rng.choice([1, 31, 32, 33, 64])] if len(b) > 200 else b
            r = dec_one(L, 3 + i % 2, b, b'pw', rng, None, step=rng.choice([0, 4096, 1000, 33]))
            if r: return r

def t_io(L, rng, props, secs):
    """read, write and flush errors at every kind of position"""
    t0 = time.time()
    while time.time() - t0 < secs:
        n = rng.choice(SIZES)
        pw = b'pw'; pt = rng.randbytes(n)
        for op in (2, 3, 4, 5):
            data = pt if op == 2 else encrypt(pw, 1, 1, 1, rng.randbytes(32), pt)
            P = mkP(1, 1, 1) if op == 2 else mkP()
            total = n + 128 if op == 2 else n
            e = rng.choice([0, 1, 7, 50, 95, 96, 97, len(data) - 1, len(data), len(data) // 2, max(0, len(data) - 32)])
            e = min(max(0, e), len(data)); q = mkP(P.logN, P.r, P.p); r = L.call(op, data, pw, q, errat=e, step=rng.choice([0, 1000]))
            if r['rc'] == 0 and not (op == 5 and e >= 96): return info(op, data, pw, P, r, 'a read error after %d bytes is reported as success' % e)
            if op != 5 and r['rc'] != RC['ERDFILE'] and not (e < len(data) and op != 2 and r['rc'] in (RC['ERDFILE'],)): return info(op, data, pw, P, r, 'a read error after %d bytes is not reported as such' % e)
            if op == 5 or not total: continue
            w = rng.choice([0, 1, 95, 96, 97, total - 1, total // 2, max(0, total - 32), max(0, total - 5000)])
            if w >= total: continue
            buf = rng.choice([0, 4096, 1 << 17, 1 << 20])
            q = mkP(P.logN, P.r, P.p); r = L.call(op, data, pw, q, werrat=w, buf=buf)
            if r['rc'] != RC['EWRFILE']: return info(op, data, pw, P, r, 'output cannot take more than %d bytes (stream buffer %d); not reported as a write error' % (w, buf))

def t_res(L, rng, props, what):
    """every allocation failure; leaks, double release, secrets left behind"""
    for op in (0, 1, 2, 3, 4, 5):
        for n in (0, 100, 70000):
            pw = b'correct horse battery'; pt = rng.randbytes(n)
            good = encrypt(pw, 2, 8, 1, rng.randbytes(32), pt)
            cases = [pt] if op in (0, 2) else [good, good[:-1] + bytes([good[-1] ^ 1]), good[:64] + bytes([good[64] ^ 1]) + good[65:], good[:96], good[:127], good[:60]]
            for data in cases:
                for kw in (dict(), dict(errat=60), dict(errat=len(data)), dict(werrat=10), dict(werrat=0, buf=0), dict(werrat=96, buf=0), dict(werrat=97 if n else 95, buf=0), dict(werrat=n + 96, buf=0), dict(werrat=n + 127, buf=0), dict(werrat=max(n - 1, 0), buf=0), dict(werrat=max(n - 1, 0), buf=1 << 18), dict(werrat=n + 127, buf=1 << 18), dict(ent=1), dict(fake=2), dict(limfail=2, lim=(1 << 30, 1e9)), dict(limfail=4, lim=(1 << 30, 1e9))):
                    if op < 2 and ('errat' in kw or 'werrat' in kw): continue
                    cnt = 1 << 30; k = -1
                    while k < min(cnt, 40):
                        P = mkP(2, 8, 1) if op in (0, 2) else mkP()
                        r = L.call(op, data, pw, P, force=0 if 'limfail' in kw else 1, fail_at=k, verbose=1 if op != 5 and k % 2 else 0, **kw)
                        if k < 0: cnt = r['count']
                        P0 = mkP(2, 8, 1) if op in (0, 2) else mkP()
                        x = dict(failing_allocation=k, **{a: str(b) for a, b in kw.items()})
                        if what == 'res' and (r['leak'] or r['bad']): return info(op, data, pw, P0, r, '%d blocks not released, %d invalid releases' % (r['leak'], r['bad']), **x)
                        if what == 'sec' and r['hits']: return info(op, data, pw, P0, r, 'derived key found in %s' % r['where'], **x)
                        k += 1
                    if kw and n > 100: break

def t_pick(L, rng, props):
    for i in range(3000):
        m = max(1 << 20, rng.randrange(1 << 20, 1 << rng.randrange(21, 65))); 
        if i % 5 == 0: m = max(1 << 20, min((1 << 64) - 1, (1 << rng.randrange(20, 65)) + rng.choice([-1, 0, 1])))
        t = rng.choice([1.0, 0.5, 300.0, 5.0]); o = rng.choice([1.0, 2.0 ** rng.randrange(0, 60), rng.random() * 2.0 ** rng.randrange(1, 60), m / 32 / t, 32768 / t])
        P = mkP(maxtime=t, maxmem=77, frac=0.25)
        r = L.call(0, b'abc', b'pw', P, lim=(m, o), fake=2)
        x = dict(memlimit=m, opps=o, chosen=[P.logN, P.r, P.p])
        P0 = mkP(maxtime=t)
        if (r['maxmem'], r['frac']) != (77, 0.25): return info(0, b'abc', b'pw', P0, r, 'memory limit computed from other settings than the caller gave', **x)
        if not valid(P.logN, P.r, P.p): return info(0, b'abc', b'pw', P0, r, 'automatic parameters are invalid', **x)
        if r['N'] != 1 << P.logN: return info(0, b'abc', b'pw', P0, r, 'key derived with other parameters', **x)
        if 128 * P.r << P.logN > m * 1.000001: return info(0, b'abc', b'pw', P0, r, 'automatic parameters exceed the memory limit', **x)
        if (4 * P.r * P.p << P.logN) > max(32768.0, o * t) * 1.000001: return info(0, b'abc', b'pw', P0, r, 'automatic parameters exceed the CPU limit', **x)

def t_memtouse(L, rng, props):
    f = L.l['__real_memtouse'] if hasattr(L.l, '__real_memtouse') else L.l['memtouse']
    pages = os.sysconf('SC_PAGE_SIZE') * os.sysconf('SC_PHYS_PAGES')
    import resource
    for i in range(400):
        if i == 200: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
        frac = rng.choice([0.125, 0.5, 1.0, rng.random() * 0.9 + 0.01, 1e-9, 1e-4]); mm = rng.choice([0, 1, 1 << 19, (1 << 20) + 1, 5 << 20, 1 << 40, rng.randrange(1 << 34)])
        rss = rng.choice([resource.RLIM_INFINITY, 3 << 20, 50 << 20, 1 << 30])
        resource.setrlimit(resource.RLIMIT_RSS, (rss, resource.getrlimit(resource.RLIMIT_RSS)[1]))
        out = ctypes.c_size_t(0)
        rc = f(ctypes.c_size_t(mm), ctypes.c_double(frac), ctypes.byref(out))
        cap = min([pages] + ([rss] if rss != resource.RLIM_INFINITY else []))
        lim = max(1 << 20, min(int(frac * cap), mm or 1 << 63))
        if rc or out.value > lim or out.value < 1 << 20: return dict(function='memtouse', maxmem=mm, maxmemfrac=frac, rlimit_rss=rss, physical=pages, rc=rc, got=out.value, want='1 MiB .. %d' % lim)

def human(v):
    return None
def t_disp(L, rng, props):
    from .wit_util import print_ok
    for i in range(1500):
        logN = rng.randrange(1, 64); r = rng.choice([1, 8, 255, 256, 1 << 20, 1 << 25, (1 << 25) + 1, (1 << 30) - 1, rng.randrange(1, 1 << 30)])
        p = rng.choice([x for x in (1, 2, 3, 255, 256, 65536, (1 << 30) - 1) if r * x < 1 << 30])
        b = header(b'pw', logN, r, p, rng.randbytes(32), small=False)
        bad = None
        if i % 4 == 3:
            b = mutate(rng, b)[:128]
        for op in (5,) + ((1,) if i % 3 == 0 and i % 4 != 3 else ()):
            data = b if op == 5 else b + bytes(32)
            with tempfile.TemporaryFile() as f:
                save = os.dup(2); os.dup2(f.fileno(), 2)
                P = mkP()
                try: rr = L.call(op, data, b'pw', P, verbose=1, force=1, errat=1 << 62)
                finally: os.dup2(save, 2); os.close(save)
                f.seek(0); txt = f.read().decode('latin1')
            if op == 5:
                w = RC['EINVAL'] if len(data) < 7 or data[:6] != b'scrypt' else RC['EVERSION'] if data[6] else RC['EINVAL'] if len(data) < 96 or not valid(data[7], *struct.unpack('>II', data[8:16])) else 0
                if rr['rc'] != w: return info(op, data, b'', P, rr, 'expected %s' % CODES[w])
                if w:
                    if 'N =' in txt: return info(op, data, b'', P, rr, 'parameters shown for a rejected header', shown=txt)
                    continue
            elif 'N =' not in txt: 
                if data[:7] == b'scrypt\0': return info(op, data, b'', P, rr, 'verbose output lacks the parameters', shown=txt)
                continue
            n, (r1, p1) = data[7], struct.unpack('>II', data[8:16])
            m = re.search(r'N = (\d+); r = (\d+); p = (\d+);', txt); h = re.search(r'at least (.*?) of memory', txt)
            mem = min((1 << 64) - 1, 128 * r1 << n)
            if not m or tuple(map(int, m.groups())) != (1 << n, r1, p1) or not h or not print_ok(mem, h.group(1)):
                return info(op, data, b'', P, rr, 'N=%d r=%d p=%d memory=%d shown otherwise' % (1 << n, r1, p1, mem), shown=txt)

ASAN = r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "scryptenc.h"
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * pw, size_t pl, const uint8_t * s, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t * b, size_t n) {
	if ((double)N * r * p > 4096.0) return -1;
	return __real_crypto_scrypt(pw, pl, s, sl, N, r, p, b, n); }
int __wrap_memtouse(size_t a, double b, size_t * l) { *l = 1ULL << 40; return 0; }
int __wrap_scryptenc_cpuperf(double * o) { *o = 1e6; return 0; }
int main(int argc, char ** argv) {
	FILE * f = fopen(argv[1], "rb"); uint32_t h[3]; int i = 0;
	while (fread(h, 12, 1, f) == 1) {
		uint8_t * d = malloc(h[1] ? h[1] : 1), * o = malloc(h[1] ? h[1] : 1); size_t ol; struct scryptenc_params P = { 0, 0.5, 300.0, 0, 0, 0 };
		if (h[1] && fread(d, h[1], 1, f) != 1) return 3;
		fprintf(stdout, "%d\n", i++); fflush(stdout);
		if (h[0] == 1) scryptdec_buf(d, h[1], o, &ol, (uint8_t *)"pw", 2, &P, h[2] & 1, h[2] >> 1 & 1);
		else { FILE * in = fmemopen(d, h[1] ? h[1] : 1, "rb"), * ou = fopen("/dev/null", "wb"); if (!h[1]) fgetc(in);
			if (h[0] == 5) scryptdec_file_printparams(in); else if (h[0] == 3) scryptdec_file(in, ou, (uint8_t *)"pw", 2, &P, h[2] & 1, h[2] >> 1 & 1);
			fclose(in); fclose(ou); }
		free(d); free(o);
	}
	return 0;
}
'''
def t_asan(rng, secs):
    import subprocess
    from . import build
    exe = native.binary('scryptasan', ASAN, variant='all+asan', ldflags=['-Wl,--wrap=crypto_scrypt,--wrap=memtouse,--wrap=scryptenc_cpuperf'])
    t0 = time.time()
    while time.time() - t0 < secs:
        items = []
        for i in range(400):
            n = rng.choice([0, 1, 32, 100, 5000, 65536, 65537, 70000]) if rng.random() < 0.5 else 5
            b = encrypt(b'pw', 1, 1, 1, bytes(32), bytes(n))
            k = rng.random()
            if k < 0.4:
                h = bytearray(b); h[7] = rng.choice([0, 1, 31, 32, 62, 63, 64, 65, 127, 255]); h[8:16] = struct.pack('>II', rng.choice(EDGE), rng.choice(EDGE)); b = fix(b'pw', h)
            elif k < 0.7: b = b[:rng.randrange(len(b) + 1)] if rng.random() < 0.5 else b[:rng.choice([0, 1, 6, 7, 8, 47, 48, 63, 64, 95, 96, 97, 127, 128, 129])]
            else: b = mutate(rng, b)
            items.append((rng.choice([1, 3, 5]), b, rng.randrange(4)))
        p = os.path.join(build.tmpdir(), 'asan.in')
        with open(p, 'wb') as f:
            for o, b, fl in items: f.write(struct.pack('<III', o, len(b), fl) + b)
        q = subprocess.run([exe, p], capture_output=True, text=True, errors='replace', timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=99'))
        if q.returncode:
            i = int(q.stdout.strip().split('\n')[-1] or 0) if q.stdout.strip() else 0
            o, b, fl = items[min(i, len(items) - 1)]
            m = re.search(r'(runtime error.*|ERROR: AddressSanitizer.*|Assertion.*)', q.stderr)
            return dict(function=OPS[o], input=b[:512].hex(), input_len=len(b), what='sanitizer: ' + (m.group(1) if m else q.stderr[-300:]))

def search_prop(prop, seed, deadline, failed):
    if prop == 'C17':
        try: r = t_asan(random.Random(seed), min(60, deadline - time.time() - 20))
        except native.build.CompileError: raise
        if r: return r
    path = native.so('all', csrc=DRV, ldflags=['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)])
    rng = random.Random(seed)
    T = dict(enc=lambda L: t_enc(L, rng, prop), dec=lambda L: t_dec(L, rng, prop, 40), io=lambda L: t_io(L, rng, prop, 15), res=lambda L: t_res(L, rng, prop, 'res'),
             sec=lambda L: t_res(L, rng, prop, 'sec'), pick=lambda L: t_pick(L, rng, prop), mem=lambda L: t_memtouse(L, rng, prop), disp=lambda L: t_disp(L, rng, prop))
    plan = {'C05': ['enc'], 'C06': ['enc', 'dec'], 'C07': ['dec'], 'C08': ['dec', 'io'], 'C09': ['io', 'enc', 'dec'], 'C10': ['pick', 'dec', 'mem'], 'C11': ['sec'],
            'C12': ['enc'], 'C15': ['dec', 'io', 'enc'], 'C16': ['disp', 'dec'], 'C17': ['dec', 'enc', 'disp'], 'C18': ['res']}[prop]
    for t in plan:
        if time.time() > deadline - 5: return None
        def go():
            save = os.dup(2); nul = os.open('/dev/null', os.O_WRONLY); os.dup2(nul, 2)
            return T[t](L_(path))
        r = native.in_child(go, min(90, max(5, deadline - time.time())))
        if r[0] == 'ok' and r[1]: return r[1]
        if r[0] in ('signal', 'timeout'): return dict(test=t, crash=str(r), seed=seed, what='crash or hang of the real code')
        if r[0] == 'exc': raise RuntimeError(r[1])
    return None
