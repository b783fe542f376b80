"""Specification functions written from the standards (not from the code under verification)."""
from . import term as tm
from .term import const, add, bxor, band, bnot, rotr, rotl, lshr, ext, cat
from .mem import le, be, le_bytes, be_bytes
from .intrin import SBOX

# ---- FIPS 180-4
def _primes(n):
    p = []; c = 2
    while len(p) < n:
        if all(c % x for x in p): p.append(c)
        c += 1
    return p
def _frac_root(p, k):
    # first 32 bits of fractional part of p^(1/k), by integer root
    n = p << (32 * k)
    lo, hi = 0, 1 << 40
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo & 0xffffffff
SHA_K = [_frac_root(p, 3) for p in _primes(64)]
SHA_IV = [_frac_root(p, 2) for p in _primes(8)]

def Ch(x, y, z): return bxor(band(x, y), band(bnot(x), z))
def Maj(x, y, z): return bxor(band(x, y), band(x, z), band(y, z))
def S0(x): return bxor(rotr(x, 2), rotr(x, 13), rotr(x, 22))
def S1(x): return bxor(rotr(x, 6), rotr(x, 11), rotr(x, 25))
def s0(x): return bxor(rotr(x, 7), rotr(x, 18), lshr(x, const(3, 32)))
def s1(x): return bxor(rotr(x, 17), rotr(x, 19), lshr(x, const(10, 32)))

def sha256_compress(H, M):
    """H: 8 words, M: 16 words -> 8 words"""
    W = list(M)
    for t in range(16, 64):
        W.append(add(s1(W[t - 2]), W[t - 7], s0(W[t - 15]), W[t - 16]))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        T1 = add(h, S1(e), Ch(e, f, g), const(SHA_K[t], 32), W[t])
        T2 = add(S0(a), Maj(a, b, c))
        h, g, f, e, d, c, b, a = g, f, e, add(d, T1), c, b, a, add(T1, T2)
    return [add(x, y) for x, y in zip((a, b, c, d, e, f, g, h), H)]

# ---- RFC 7914 Salsa20/8
def salsa20_8(B):
    x = list(B)
    def R(a, b): return rotl(a, b)
    def qr(x, a, b, c, d):
        x[b] = bxor(x[b], R(add(x[a], x[d]), 7))
        x[c] = bxor(x[c], R(add(x[b], x[a]), 9))
        x[d] = bxor(x[d], R(add(x[c], x[b]), 13))
        x[a] = bxor(x[a], R(add(x[d], x[c]), 18))
    for i in range(0, 8, 2):
        qr(x, 0, 4, 8, 12); qr(x, 5, 9, 13, 1); qr(x, 10, 14, 2, 6); qr(x, 15, 3, 7, 11)
        qr(x, 0, 1, 2, 3); qr(x, 5, 6, 7, 4); qr(x, 10, 11, 8, 9); qr(x, 15, 12, 13, 14)
    return [add(x[i], B[i]) for i in range(16)]

# ---- AES key expansion (FIPS 197), 256-bit key, over the S-box as uninterpreted function
def sub8(b):
    if b.op == 'c': return const(SBOX[b.v], 8)
    return tm.mkuf('SBOX', 8, (b,))
def aes256_key_expansion(key):
    """key: 32 byte terms -> 15 round keys of 16 bytes"""
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = t[1:] + t[:1]
            t = [sub8(x) for x in t]
            t[0] = bxor(t[0], const(rc, 8))
            rc <<= 1
        elif i % 8 == 4:
            t = [sub8(x) for x in t]
        w.append([bxor(a, b) for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]
