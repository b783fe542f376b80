"""Replay on the real code: entropy_read against a scripted random device, crypto_entropy_read against SP 800-90A HMAC_DRBG."""
import ctypes, hashlib, hmac, json, random, time
from . import native
DRV = native.STACK + r'''
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
uint64_t w_pos; int w_open, w_lastfd, w_nopen, w_nread, w_badread, w_nclose; int w_failopen = -1, w_failread = -1, w_eof = -1, w_eintr, w_failclose = -1; uint32_t w_short = 0; char w_path[64];
uint8_t w_rr[64][4096]; int w_rrlen[64]; int w_nrr; int w_failrr;
uint64_t w_rrpos[64];
int w_live; void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void __real_free(void *); int w_nm, w_failm = -1;
void * __wrap_malloc(size_t n) { void * p; if (w_nm++ == w_failm) { errno = ENOMEM; return 0; } p = __real_malloc(n); if (p) w_live++; return p; }
void * __wrap_calloc(size_t a, size_t b) { void * p; if (w_nm++ == w_failm) { errno = ENOMEM; return 0; } p = __real_calloc(a, b); if (p) w_live++; return p; }
void __wrap_free(void * p) { if (p) w_live--; __real_free(p); }
static uint8_t ent(uint64_t p) { uint64_t x = p * 0x9E3779B97F4A7C15ull + 0x1234567; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 47); }
uint8_t w_ent(uint64_t p) { return ent(p); }
int __wrap_open(const char * p, int fl, ...) { strncpy(w_path, p, 63); if (w_nopen++ == w_failopen) { errno = EMFILE; return -1; } w_open++; return w_lastfd = 1000 + w_nopen; }
int __wrap_open64(const char * p, int fl, ...) { return __wrap_open(p, fl); }
ssize_t __wrap_read(int fd, void * b, size_t n) {
	if (fd != w_lastfd || w_open < 1) { w_badread = 1; errno = EBADF; return -1; }
	if (w_nread++ == w_failread) { errno = EIO; return -1; }
	if (w_nread - 1 == w_eof) return 0;
	if (w_short && n > w_short) n = 1 + (w_pos * 7 + w_nread) % w_short;
	for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = ent(w_pos++);
	return (ssize_t)n;
}
int __wrap_close(int fd) { if (w_nclose++ == w_failclose) { w_open--; errno = EIO; return -1; } if (w_eintr > 0) { w_eintr--; errno = EINTR; return -1; } w_open--; return 0; }
int __real_generate_seed_rdrand(unsigned int *, size_t);
int __wrap_generate_seed_rdrand(unsigned int * b, size_t n) {
	if (w_failrr > 0) { w_failrr--; return 1; }
	for (size_t i = 0; i < n; i++) b[i] = 0x01010101u * (unsigned)(i + 3) + 77 * w_nrr;
	if (w_nrr < 64) { memcpy(w_rr[w_nrr], b, 4 * n > 4096 ? 4096 : 4 * n); w_rrlen[w_nrr] = 4 * n; w_rrpos[w_nrr] = w_pos; }
	w_nrr++; return 0;
}
int crypto_entropy_read(uint8_t *, size_t);
static uint8_t * w_b; static size_t w_n; static int w_rc;
static void w_body(void) { w_rc = crypto_entropy_read(w_b, w_n); }
int w_cer(uint8_t * b, size_t n) { w_b = b; w_n = n; w_run(w_body); return w_rc; }
'''
def H(k, m): return hmac.new(k, m, hashlib.sha256).digest()
class Ref:
    def __init__(s): s.inst = False
    def upd(s, d):
        s.K = H(s.K, s.V + b'\0' + d); s.V = H(s.K, s.V)
        if d: s.K = H(s.K, s.V + b'\1' + d); s.V = H(s.K, s.V)
    def mix(s, take, n, rr):
        e = take(n)
        if e is None: return False
        s.upd(e)
        r = rr()
        if r: s.upd(r)
        return True
    def read(s, n, take, rr):
        if not s.inst:
            s2 = Ref(); s2.K, s2.V = b'\0' * 32, b'\1' * 32
            if not s2.mix(take, 48, rr): return None
            s.K, s.V, s.c, s.inst = s2.K, s2.V, 1, True
        out = b''
        while n > 0:
            q = min(n, 65536)
            if s.c > 256:
                if not s.mix(take, 32, rr): return None
                s.c = 1
            o = b''
            while len(o) < q: s.V = H(s.K, s.V); o += s.V
            out += o[:q]; s.upd(b''); s.c += 1; n -= q
        return out

def history(path, reqs, scan=0, short=0, failopen=-1, failread=-1, eof=-1, eintr=0, failclose=-1, failrr=0):
    """run one history on a fresh instance of the library; None if it agrees with the reference"""
    info = dict(function='crypto_entropy_read', requests=reqs[:40], nreqs=len(reqs), short=short, failopen=failopen, failread=failread, eof=eof, failclose=failclose, eintr=eintr, failrr=failrr)
    L = ctypes.CDLL(path)
    I = lambda n: ctypes.c_int.in_dll(L, n)
    for k, v in (('w_failopen', failopen), ('w_failread', failread), ('w_eof', eof), ('w_eintr', eintr), ('w_failclose', failclose), ('w_failrr', failrr)): I(k).value = v
    ctypes.c_uint32.in_dll(L, 'w_short').value = short
    ent = L.w_ent; ent.restype = ctypes.c_uint8; ent.argtypes = [ctypes.c_uint64]
    pos = ctypes.c_uint64.in_dll(L, 'w_pos'); nrr = I('w_nrr')
    rrb = ((ctypes.c_uint8 * 4096) * 64).in_dll(L, 'w_rr'); rrl = (ctypes.c_int * 64).in_dll(L, 'w_rrlen')
    rrp = (ctypes.c_uint64 * 64).in_dll(L, 'w_rrpos')
    f = L.w_cer if scan else L.crypto_entropy_read; f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    ref = Ref(); used = 0; rri = 0; budget = None
    I('w_live').value = 0
    for i, n in enumerate(reqs):
        b = ctypes.create_string_buffer(b'\xa5' * (n + 32), n + 32)
        p0, o0 = pos.value, I('w_nopen').value
        rc = f(ctypes.addressof(b) + 16, n)
        p1 = pos.value
        injected = []
        for nm, ctr in (('w_failopen', 'w_nopen'), ('w_failread', 'w_nread'), ('w_eof', 'w_nread'), ('w_failclose', 'w_nclose')):
            if 0 <= I(nm).value < I(ctr).value: injected.append(nm); I(nm).value = -1
        st = dict(p=p0, rr=rri)
        def take(q):
            if st['p'] + q > p1 or (injected and st['p'] + q >= p1 and st.get('last')): return None
            d = bytes(ent(st['p'] + j) for j in range(q)); st['p'] += q
            return d
        def rr():
            if st['rr'] < nrr.value and st['rr'] < 64 and rrp[st['rr']] == st['p']:
                d = bytes(rrb[st['rr']][:rrl[st['rr']]]); st['rr'] += 1
                return d
            return None
        if I('w_live').value: return dict(info, request=i, got='%d memory blocks not released' % I('w_live').value)
        if I('w_open').value: return dict(info, request=i, got='device left open')
        if injected:
            if rc == 0: return dict(info, request=i, injected=injected, got='success although the device failed')
            if b.raw[:16] != b'\xa5' * 16 or b.raw[16 + n:] != b'\xa5' * 16: return dict(info, request=i, got='wrote outside the buffer')
            # a failed instantiation leaves the generator uninstantiated; after a failed reseed the state is not compared
            if ref.inst or I('w_nopen').value > 1: return None
            rri = nrr.value
            continue
        want = ref.read(n, take, rr)
        rri = st['rr']
        if want is None: return dict(info, request=i, got='return %d after drawing %d bytes' % (rc, p1 - p0), want='more entropy drawn')
        if st['p'] != p1: return dict(info, request=i, got='%d bytes of entropy drawn' % (p1 - p0), want='%d' % (st['p'] - p0))
        if nrr.value != rri: return dict(info, request=i, got='unexpected use of RDRAND')
        if rc != 0: return dict(info, request=i, got='failure without a cause')
        if b.raw[16:16 + n] != want:
            at = next(j for j in range(n) if b.raw[16 + j] != want[j])
            return dict(info, request=i, length=n, first_wrong_byte=at, got=b.raw[16 + at:48 + at].hex()[:64], want=want[at:at + 32].hex())
        if b.raw[:16] != b'\xa5' * 16 or b.raw[16 + n:] != b'\xa5' * 16: return dict(info, request=i, got='wrote outside the buffer')
        if I('w_open').value: return dict(info, request=i, got='device left open')
        if scan:
            secrets = [('entropy input', bytes(ent(j) for j in range(p0, p1))), ('generator key', ref.K), ('generator V', ref.V)] + [('RDRAND seed', bytes(rrb[j][:rrl[j]])) for j in range(min(64, rri))]
            for what, sec in secrets:
                for o in range(0, len(sec) - 23, 8):
                    if L.w_has(sec[o:o + 24], ctypes.c_size_t(24)): return dict(info, request=i, length=n, what=what + ' left on the stack after crypto_entropy_read', found=sec[o:o + 24].hex())
    return None

def plain(path, n, short, **kw):
    info = dict(function='entropy_read', length=n, short=short, **kw)
    L = ctypes.CDLL(path); I = lambda n: ctypes.c_int.in_dll(L, n)
    for k, v in kw.items(): I('w_' + k).value = v
    ctypes.c_uint32.in_dll(L, 'w_short').value = short
    pos = ctypes.c_uint64.in_dll(L, 'w_pos')
    ent = L.w_ent; ent.restype = ctypes.c_uint8; ent.argtypes = [ctypes.c_uint64]
    b = ctypes.create_string_buffer(b'\xa5' * (n + 32), n + 32)
    f = L.entropy_read; f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    rc = f(ctypes.addressof(b) + 16, n)
    if I('w_live').value: return dict(info, got='%d memory blocks not released' % I('w_live').value)
    if I('w_open').value: return dict(info, got='device left open')
    bad = any(0 <= I(a).value < I(c).value for a, c in (('w_failopen', 'w_nopen'), ('w_failread', 'w_nread'), ('w_eof', 'w_nread'), ('w_failclose', 'w_nclose'), ('w_failm', 'w_nm')))
    if b.raw[:16] != b'\xa5' * 16 or b.raw[16 + n:] != b'\xa5' * 16: return dict(info, got='wrote outside the buffer')
    if bad: return dict(info, got='success although the device failed') if rc == 0 else None
    if rc: return dict(info, got='failure without a cause')
    if b.raw[16:16 + n] != bytes(ent(i) for i in range(n)): return dict(info, got='bytes that the device did not deliver')
    p = (ctypes.c_char * 64).in_dll(L, 'w_path').value
    if p not in (b'/dev/urandom', b'/dev/random'): return dict(info, got='read from %r' % p)
    return None

def search_prop(prop, seed, deadline, failed):
    if prop == 'C12':
        from . import wit_hw
        p = wit_hw.shimmed()
        r = native.in_child(lambda: wit_hw.rdrand(p), 30) if p else ('ok', None)
        if r[0] == 'ok' and r[1]: return r[1]
    rng = random.Random(seed)
    wraps = ['open', 'open64', 'read', 'close', 'malloc', 'calloc', 'free', 'generate_seed_rdrand']
    try: path = native.so('all', csrc=DRV, ldflags=['-Wl,' + ','.join('--wrap=' + w for w in wraps)])
    except native.build.CompileError:
        path = native.so('all', csrc=DRV.replace('int __real_generate_seed_rdrand(unsigned int *, size_t);', ''), ldflags=['-Wl,' + ','.join('--wrap=' + w for w in wraps[:-1])])
    jobs = []
    for n in (0, 1, 2, 32, 48, 1000, 4096):
        for short in (0, 1, 3, 7, 100): jobs.append((plain, (n, short), {}))
    for k in ('failopen', 'failclose', 'failm'): jobs.append((plain, (48, 0), {k: 0}))
    for k in ('failread', 'eof'):
        for i in range(4): jobs.append((plain, (48, 13), {k: i}))
    jobs += [(plain, (48, 0), dict(eintr=1)), (plain, (48, 0), dict(eintr=3))]
    R = lambda *a, **k: jobs.append((history, (list(a),), k))
    R(32, 1, 0, 31, 33, 64, 100, 0, 32); R(65536, 1); R(65537, 65535, 1); R(131072 + 5, 7); R(65536 * 2, 65536 * 3, 40); R(0, 0, 5); R(200000, 31)
    R(*([1] * 300)); R(*([33] * 255 + [40, 1, 1, 2])); R(*([16] * 530)); R(*([70000] * 135)); R(65536 * 256, 1, 65537); R(65536 * 258 + 3, 5); R(8, *([0] * 600), 8)
    R(32, 32, short=5); R(*([5] * 260), short=9); R(32, 32, 7, failrr=1); R(*([5] * 600), failrr=2); R(*([5] * 260), failrr=5)
    for k in ('failopen', 'failread', 'eof', 'failclose'):
        R(32, 32, 32, **{k: 0}); R(*([4] * 262), **{k: 1}); R(32, 64, short=20, **{k: 2}); R(65536 * 257, 4, **{k: 1}); R(65536 * 300, **{k: 1})
    for _ in range(30): R(*[rng.choice([0, 1, 16, 31, 32, 33, 63, 64, 65, rng.randrange(0, 400), rng.randrange(0, 70000)]) for _ in range(rng.randrange(1, 60))], short=rng.choice([0, 0, 3, 40]), failrr=rng.choice([0, 0, 1]))
    if prop == 'C11':
        jobs[:0] = [(history, ([0, 32], 1), {}), (history, ([32, 1, 0, 65, 4096] + [7] * 260, 1), {}), (history, ([32, 1, 0, 65] + [7] * 260, 1), dict(short=5))] + [(history, ([65536 * 257 + 3, 1], 1), {})]
    for f, a, k in jobs:
        left = deadline - time.time()
        if left < 5: return None
        r = native.in_child(lambda: f(path, *a, **k), min(60, left))
        if r[0] == 'ok':
            if r[1]: return r[1]
        elif r[0] == 'exc': return None
        else: return dict(function=f.__name__, args=str(a)[:300], options=k, crash=str(r))
    return None
