"""Replay on the real code: the system calls behind the resource limits (clocks, memory limits) replaced by scripted answers."""
import ctypes, random, time, json
from . import native
DRV = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/sysinfo.h>
int h_on; int64_t h_now, h_step[8], h_res; uint64_t h_work; unsigned h_nstep, h_nget, h_failget, h_nscr, h_failscr, h_failres; int h_unsup[4], h_err;
#define NLOG 100000
int64_t h_t[NLOG]; uint64_t h_w[NLOG]; unsigned h_log;
int __real_clock_gettime(clockid_t, struct timespec *); int __real_clock_getres(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * t) { if (!h_on) return __real_clock_gettime(c, t);
	if (c < 0 || c > 3 || h_unsup[c]) { errno = h_err; return -1; }
	h_nget++; if (h_nget == h_failget) { errno = EIO; return -1; }
	t->tv_sec = h_now / 1000000000; t->tv_nsec = h_now % 1000000000;
	if (h_log < NLOG) { h_t[h_log] = h_now; h_w[h_log] = h_work; h_log++; } return 0; }
int __wrap_clock_getres(clockid_t c, struct timespec * t) { if (!h_on) return __real_clock_getres(c, t);
	if (c < 0 || c > 3 || h_unsup[c]) { errno = h_err; return -1; } if (h_failres) { errno = EIO; return -1; }
	t->tv_sec = h_res / 1000000000; t->tv_nsec = h_res % 1000000000; return 0; }
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * a, size_t b, const uint8_t * c, size_t d, uint64_t N, uint32_t r, uint32_t p, uint8_t * o, size_t n) {
	if (!h_on) return __real_crypto_scrypt(a, b, c, d, N, r, p, o, n);
	h_nscr++; if (h_nscr == h_failscr) return -1;
	h_work += 4 * N * r * p; h_now += h_step[h_nstep++ % 8] * (int64_t)N; return 0; }
int m_on, m_fail; uint64_t m_as, m_rss, m_ram, m_unit; long m_pages, m_psize;
int __real_getrlimit(int, struct rlimit *); int __real_sysinfo(struct sysinfo *); long __real_sysconf(int);
int __wrap_getrlimit(int r, struct rlimit * l) { if (!m_on) return __real_getrlimit(r, l); if (m_fail == 1 && r == RLIMIT_AS || m_fail == 2 && r == RLIMIT_RSS) { errno = EIO; return -1; }
	l->rlim_cur = r == RLIMIT_AS ? m_as : r == RLIMIT_RSS ? m_rss : RLIM_INFINITY; l->rlim_max = RLIM_INFINITY; return 0; }
int __wrap_sysinfo(struct sysinfo * i) { if (!m_on) return __real_sysinfo(i); if (m_fail == 3) { errno = EIO; return -1; } i->totalram = m_ram; i->mem_unit = m_unit; return 0; }
long __wrap_sysconf(int n) { if (!m_on) return __real_sysconf(n); errno = 0; if (n == _SC_PAGE_SIZE) return m_psize; if (n == _SC_PHYS_PAGES) return m_pages; return __real_sysconf(n); }
void __wrap_libcperciva_warn(const char * f, ...) { (void)f; }
void __wrap_libcperciva_warnx(const char * f, ...) { (void)f; }
'''
WR = ['clock_gettime', 'clock_getres', 'crypto_scrypt', 'getrlimit', 'sysinfo', 'sysconf', 'libcperciva_warn', 'libcperciva_warnx']

def t_perf(L, rng, n):
    g = lambda t, k: t.in_dll(L, k)
    I64, U = ctypes.c_int64, ctypes.c_uint
    f = L.scryptenc_cpuperf; f.restype = ctypes.c_int
    for i in range(n):
        st = [rng.choice([0, 0, 1, 900, 4000, 12345, 1000000, 9000000]) for _ in range(8)]
        if not any(st): st[3] = 777
        now = rng.choice([0, 5 * 10 ** 9, 7 * 10 ** 9 - 1, 7 * 10 ** 9 - 3000, rng.randrange(1 << 60)]); res = rng.choice([1, 1000, 10 ** 6, 4 * 10 ** 6])
        fg, fs, fr = (rng.choice([0, 0, 0, 1, 2, 3, 4, 5]) for _ in range(3))
        if rng.random() < 0.5: fg = fs = fr = 0
        fr = int(fr == 1)
        uns = rng.choice([0, 0, 2])
        for k, v in (('h_on', 1), ('h_err', rng.choice([22, 38]))): g(ctypes.c_int, k).value = v
        (ctypes.c_int * 4).in_dll(L, 'h_unsup')[:] = [0, uns, 0, 0]
        (I64 * 8).in_dll(L, 'h_step')[:] = st
        g(I64, 'h_now').value = now; g(I64, 'h_res').value = res; g(ctypes.c_uint64, 'h_work').value = 0
        for k, v in (('h_nstep', 0), ('h_nget', 0), ('h_failget', fg), ('h_nscr', 0), ('h_failscr', fs), ('h_failres', fr), ('h_log', 0)): g(U, k).value = v
        o = ctypes.c_double(-1)
        rc = f(ctypes.byref(o)); g(ctypes.c_int, 'h_on').value = 0
        x = dict(function='scryptenc_cpuperf', scripted_clock=dict(start_ns=now, ns_per_unit_of_work=st, resolution_ns=res, monotonic_clock_missing=bool(uns), failing_reading=fg, failing_kdf_call=fs, failing_resolution=fr))
        hit_g = fg and g(U, 'h_nget').value >= fg; hit_s = fs and g(U, 'h_nscr').value >= fs
        want = 2 if fr or hit_g else 3 if hit_s else 0
        if rc != want: return dict(got=rc, want=want, **x)
        if rc: continue
        nl = g(U, 'h_log').value; T = (I64 * 100000).in_dll(L, 'h_t'); W = (ctypes.c_uint64 * 100000).in_dll(L, 'h_w')
        if nl >= 100000: continue
        us = lambda t: t // 1000
        ok = False
        for b in range(nl - 1, 0, -1):
            for a in range(b):
                d = (us(T[b]) - us(T[a])) / 1e6
                if d > 0 and W[b] > W[a] and abs(o.value * d - (W[b] - W[a])) < 1e-6 * (W[b] - W[a]): ok = True; break
            if ok or b < nl - 3: break
        if not ok: return dict(got=o.value, want='work / time between two readings, e.g. %r' % ((W[nl - 1] - W[0]) / max(1e-9, (T[nl - 1] - T[0]) / 1e9)), **x)
    return None

def t_clock(L, rng, n):
    g = lambda t, k: t.in_dll(L, k)
    I64 = ctypes.c_int64
    for i in range(n):
        now = rng.choice([0, 999, 10 ** 9 - 1, 3 * 10 ** 9 + 999999999, 1500, rng.randrange(1 << 60)]); res = rng.choice([1, 1000, 10 ** 9, 4 * 10 ** 6])
        un = [rng.choice([0, 0, 1]) for _ in range(4)]; err = rng.choice([22, 38, 5, 13])
        (ctypes.c_int * 4).in_dll(L, 'h_unsup')[:] = un; g(ctypes.c_int, 'h_err').value = err; g(ctypes.c_int, 'h_on').value = 1
        g(I64, 'h_now').value = now; g(I64, 'h_res').value = res
        for k in ('h_failget', 'h_failres', 'h_log'): g(ctypes.c_uint, k).value = 0
        x = dict(clock_ns=now, resolution_ns=res, missing_clocks=un, errno=err)
        def order(ch):
            for c in ch:
                if not un[c]: return 0
                if err not in (22, 38): return -1
            return -1
        tv = (I64 * 2)(-1, -1); d = ctypes.c_double(-1)
        for name, ch in (('monoclock_get', (1, 0)), ('monoclock_get_cputime', (2, 1, 0)), ('monoclock_getres', (1, 0))):
            f = getattr(L, 'libcperciva_' + name, None) if hasattr(L, 'libcperciva_' + name) else getattr(L, name, None)
            if f is None: continue
            tv[0] = tv[1] = -1; d.value = -1
            rc = f(ctypes.byref(d) if name.endswith('res') else tv)
            want = order(ch); val = (d.value,) if name.endswith('res') else (tv[0], tv[1])
            exp = (res / 1e9,) if name.endswith('res') else (now // 10 ** 9, now % 10 ** 9 // 1000)
            if rc != want or rc == 0 and any(abs(p - q) > 1e-12 * max(1, abs(q)) for p, q in zip(val, exp)):
                g(ctypes.c_int, 'h_on').value = 0
                return dict(function=name, got=(rc,) + val, want=(want,) + exp, **x)
        g(ctypes.c_int, 'h_on').value = 0
    return None

def t_mem(L, rng, n):
    g = lambda t, k: t.in_dll(L, k); U64 = ctypes.c_uint64; INF = (1 << 64) - 1
    f = L.memtouse; f.restype = ctypes.c_int
    for i in range(n):
        big = lambda: rng.choice([1, 4096, 1 << 20, 3 << 20, 1 << 30, 1 << 33, 1 << 45, rng.randrange(1, 1 << 40)])
        As, rss = rng.choice([INF, big()]), rng.choice([INF, big()]); unit = rng.choice([1, 1, 4096, 1 << 20]); ram = max(1, big() // unit)
        pages, ps = rng.choice([(-1, 4096), (max(1, big() // 4096), 4096), (max(1, big() // 65536), 65536), (1 << 20, -1)]); fail = rng.choice([0, 0, 0, 0, 1, 2, 3])
        mm = rng.choice([0, 1, 1 << 19, (1 << 20) + 1, 5 << 20, 1 << 40, rng.randrange(1 << 34)]); frac = rng.choice([0.125, 0.5, 1.0, rng.random() * 0.9 + 0.01, 1e-9, 1e-4])
        for k, v in (('m_as', As), ('m_rss', rss), ('m_ram', ram), ('m_unit', unit)): g(U64, k).value = v
        for k, v in (('m_pages', pages), ('m_psize', ps)): g(ctypes.c_long, k).value = v
        g(ctypes.c_int, 'm_fail').value = fail; g(ctypes.c_int, 'm_on').value = 1
        o = ctypes.c_size_t(0); rc = f(ctypes.c_size_t(mm), ctypes.c_double(frac), ctypes.byref(o)); g(ctypes.c_int, 'm_on').value = 0
        cap = min([ram * unit, As, rss] + ([pages * ps] if pages > 0 and ps > 0 else []))
        lim = max(1 << 20, min(frac * cap * (1 + 1e-9), mm or INF))
        x = dict(function='memtouse', maxmem=mm, maxmemfrac=frac, rlimit_as=As, rlimit_rss=rss, totalram=ram, mem_unit=unit, pages=pages, pagesize=ps, failing_call=fail)
        if bool(rc) != bool(fail) or rc not in (0, 1): return dict(got=rc, want=int(bool(fail)), **x)
        if rc == 0 and (o.value > lim or o.value < 1 << 20): return dict(got=o.value, want='1 MiB .. %d' % lim, **x)
    return None

def search(seed, deadline, failed):
    path = native.so('all', csrc=DRV, ldflags=['-Wl,' + ','.join('--wrap=' + w for w in WR)])
    for fn, n in ((t_clock, 3000), (t_perf, 600), (t_mem, 4000)):
        r = native.in_child(lambda: fn(ctypes.CDLL(path), random.Random(seed), n), 40)
        if r[0] == 'ok' and r[1]: return r[1]
        if r[0] in ('signal', 'timeout'): return dict(test=fn.__name__, crash=str(r), seed=seed)
        if r[0] == 'exc': raise RuntimeError(r[1])
    return None
