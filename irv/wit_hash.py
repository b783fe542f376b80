"""Replay of failed obligations of the hash layer on the real compiled code, against hashlib."""
import ctypes, hashlib, hmac, random, os, time
from . import native
P = 'libcperciva_'
DRV = r'''
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "sha256.h"
size_t drv_ctxsize(void) { return sizeof(SHA256_CTX) > sizeof(HMAC_SHA256_CTX) ? sizeof(SHA256_CTX) : sizeof(HMAC_SHA256_CTX); }
'''
VARS = ['soft', 'sse2', 'all']

def lens(rng, big=False):
    c = rng.random()
    if c < 0.4: return rng.choice([0, 1, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 95, 96, 118, 119, 120, 121, 127, 128, 129, 191, 192, 255, 256, 257])
    if c < 0.9: return rng.randrange(0, 400)
    return rng.randrange(0, 200000 if big else 5000)

def split(rng, n):
    out = []
    while n:
        k = rng.choice([0, 1, rng.randrange(1, n + 1), min(n, 64), min(n, 55), min(n, 63), min(n, 128), n])
        out.append(k); n -= k
        if len(out) > 300: out.append(n); break
    return out

def one(lib, rng, i):
    """returns None or a description"""
    which = ['sha', 'shabuf', 'hmac', 'hmacbuf', 'pbkdf2'][i % 5]
    pad = 64
    def guarded(n):
        b = ctypes.create_string_buffer(bytes([0xA5]) * (n + 2 * pad), n + 2 * pad)
        return b, ctypes.addressof(b) + pad
    def guards_ok(b, n): return b.raw[:pad] == b'\xa5' * pad and b.raw[pad + n:] == b'\xa5' * pad
    m = rng.randbytes(lens(rng, True))
    V, S, U = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint64
    if which in ('sha', 'hmac'):
        k = rng.randbytes(lens(rng))
        ctx, cp = guarded(lib.drv_ctxsize())
        out, op = guarded(32)
        mb = ctypes.create_string_buffer(m, len(m) or 1)
        parts = split(rng, len(m))
        if which == 'sha':
            f = lib[P + 'SHA256_Init'], lib[P + 'SHA256_Update'], lib[P + 'SHA256_Final']
            f[0](V(cp)); want = hashlib.sha256(m).digest()
        else:
            f = lib[P + 'HMAC_SHA256_Init'], lib[P + 'HMAC_SHA256_Update'], lib[P + 'HMAC_SHA256_Final']
            f[0](V(cp), k, S(len(k))); want = hmac.new(k, m, hashlib.sha256).digest()
        o = 0
        for p in parts:
            f[1](V(cp), V(ctypes.addressof(mb) + o), S(p)); o += p
        f[2](V(op), V(cp))
        got = out.raw[pad:pad + 32]
        info = dict(function=which, key=k.hex() if which == 'hmac' else None, message=m.hex(), parts=parts)
        if got != want: return dict(info, got=got.hex(), want=want.hex())
        if not guards_ok(out, 32) or not guards_ok(ctx, lib.drv_ctxsize()): return dict(info, got='wrote outside the output')
        if len(m) and mb.raw[:len(m)] != m: return dict(info, got='modified its input')
        return None
    if which == 'shabuf':
        out, op = guarded(32)
        lib[P + 'SHA256_Buf'](m, S(len(m)), V(op))
        got, want = out.raw[pad:pad + 32], hashlib.sha256(m).digest()
        ok = guards_ok(out, 32)
        info = dict(function='SHA256_Buf', message=m.hex())
    elif which == 'hmacbuf':
        k = rng.randbytes(lens(rng))
        out, op = guarded(32)
        lib[P + 'HMAC_SHA256_Buf'](k, S(len(k)), m, S(len(m)), V(op))
        got, want = out.raw[pad:pad + 32], hmac.new(k, m, hashlib.sha256).digest()
        ok = guards_ok(out, 32)
        info = dict(function='HMAC_SHA256_Buf', key=k.hex(), message=m.hex())
    else:
        k, s = rng.randbytes(lens(rng)), rng.randbytes(lens(rng))
        c = rng.choice([1, 1, 2, 3, 5]); n = rng.choice([1, 20, 31, 32, 33, 63, 64, 65, 100, 256 * 32, 257 * 32 + 5, 9000, 65537 * 32 if rng.random() < 0.05 else 7])
        out, op = guarded(n)
        lib.PBKDF2_SHA256(k, S(len(k)), s, S(len(s)), U(c), V(op), S(n))
        got, want = out.raw[pad:pad + n], hashlib.pbkdf2_hmac('sha256', k, s, c, n)
        ok = guards_ok(out, n)
        info = dict(function='PBKDF2_SHA256', passwd=k.hex(), salt=s.hex(), c=c, dkLen=n)
    if got != want: return dict(info, got=got.hex()[:400], want=want.hex()[:400])
    if not ok: return dict(info, got='wrote outside the output')
    return None

def search(seed, deadline, failed):
    for rnd in range(1000):
        for v in VARS:
            if time.time() > deadline: return None
            path = native.so(v, csrc=DRV)
            def go():
                lib = ctypes.CDLL(path)
                rng = random.Random(seed * 1000003 + rnd)
                t = time.time()
                for i in range(2000):
                    r = one(lib, rng, i)
                    if r: return r
                    if time.time() - t > 8: break
                return None
            r = native.in_child(go, 40)
            if r[0] == 'ok' and r[1]: return dict(variant=v, **r[1])
            if r[0] in ('signal', 'timeout'): return dict(variant=v, crash=str(r), seed=seed * 1000003 + rnd, what='hash functions crash or hang on random inputs')
        if rnd >= 2: break
    def long():
        lib = ctypes.CDLL(native.so('all', csrc=DRV))
        for n in ((1 << 29) + 100, (1 << 32) + 100):
            if time.time() + 30 > deadline: return None
            m = ctypes.create_string_buffer(n)
            ctx = ctypes.create_string_buffer(lib.drv_ctxsize()); out = ctypes.create_string_buffer(32)
            lib[P + 'SHA256_Init'](ctx); lib[P + 'SHA256_Update'](ctx, m, ctypes.c_size_t(n)); lib[P + 'SHA256_Final'](out, ctx)
            h = hashlib.sha256(); z = bytes(1 << 20)
            for i in range(n >> 20): h.update(z)
            h.update(z[:n & ((1 << 20) - 1)])
            if h.digest() != out.raw: return dict(function='SHA256_Update', message='%d zero bytes in one call' % n, got=out.raw.hex(), want=h.hexdigest())
        return None
    r = native.in_child(long, 150)
    return r[1] if r[0] == 'ok' else None
