"""LLVM intrinsics used by this code base."""
from . import term as tm
from .term import const, cat, ext, uf
from .mem import Unsupported

TABLE = {}
def i(name):
    def d(f): TABLE[name] = f; return f
    return d

@i('llvm.memcpy.p0.p0.i64')
def _(ex, st, a, ins): ex.memcpy(st, a[0], a[1], a[2])
@i('llvm.memmove.p0.p0.i64')
def _(ex, st, a, ins): ex.memcpy(st, a[0], a[1], a[2])
@i('llvm.memset.p0.i64')
def _(ex, st, a, ins):
    v = a[1]
    if a[2].op == 'c' and a[2].v == 0: return
    ex.write_region(st, a[0], a[2], lambda k, dec=None: v)
def _va_start(ex, st, a, ins):
    r = ex.resolve(st, a[0])
    st.ghost[('va', r[0])] = tuple(st.frames[-1].va)
    return None
TABLE['llvm.va_start'] = TABLE['llvm.va_start.p0'] = _va_start
@i('llvm.va_end')
def _(ex, st, a, ins): return None
@i('llvm.va_end.p0')
def _(ex, st, a, ins): return None
@i('llvm.fmuladd.f64')
def _(ex, st, a, ins):
    return ex.fpop(st, 'fadd', ex.fpop(st, 'fmul', a[0], a[1]), a[2])

def lanes(v, w): return [ext(v, j + w - 1, j) for j in range(0, v.w, w)]
def unl(ls): return cat(*reversed(ls))

def vshift(w, f):
    def g(ex, st, a, ins):
        s = a[1]
        if s.op != 'c': raise Unsupported('variable vector shift')
        return unl([f(x, const(s.v, w)) if s.v < w else const(0, w) for x in lanes(a[0], w)])
    return g
TABLE['llvm.x86.sse2.pslli.d'] = vshift(32, tm.shl)
TABLE['llvm.x86.sse2.psrli.d'] = vshift(32, tm.lshr)
TABLE['llvm.x86.sse2.pslli.w'] = vshift(16, tm.shl)
TABLE['llvm.x86.sse2.psrli.w'] = vshift(16, tm.lshr)
TABLE['llvm.x86.sse2.psrli.q'] = vshift(64, tm.lshr)
TABLE['llvm.x86.sse2.pslli.q'] = vshift(64, tm.shl)

@i('llvm.x86.ssse3.pshuf.b.128')
def _(ex, st, a, ins):
    d = lanes(a[0], 8); m = lanes(a[1], 8)
    out = []
    for x in m:
        if x.op != 'c': raise Unsupported('variable pshufb')
        out.append(const(0, 8) if x.v & 0x80 else d[x.v & 15])
    return unl(out)

# --- AES-NI: Intel SDM definitions over uninterpreted/defined AES round operations
def _aesenc(ex, st, a, ins): return tm.mkuf('AESENC', 128, (a[0], a[1]))
def _aesenclast(ex, st, a, ins): return tm.mkuf('AESENCLAST', 128, (a[0], a[1]))
TABLE['llvm.x86.aesni.aesenc'] = _aesenc
TABLE['llvm.x86.aesni.aesenclast'] = _aesenclast

def subword(x):
    if x.op == 'c': return const(int.from_bytes(bytes(SBOX[b] for b in x.v.to_bytes(4, 'little')), 'little'), 32)
    return cat(*[tm.mkuf('SBOX', 8, (ext(x, j + 7, j),)) for j in (24, 16, 8, 0)])
@i('llvm.x86.aesni.aeskeygenassist')
def _(ex, st, a, ins):
    X = lanes(a[0], 32)
    rc = tm.zext(tm.trunc(a[1], 8), 32)
    rotword = lambda w: tm.rotr(w, 8)
    s1, s3 = subword(X[1]), subword(X[3])
    return unl([s1, tm.bxor(rotword(s1), rc), s3, tm.bxor(rotword(s3), rc)])

# --- SHA-NI (Intel SDM, Vol. 2B)
def _s(x, *r):
    return r
def Ch(e, f, g): return tm.bxor(tm.band(e, f), tm.band(tm.bnot(e), g))
def Maj(a, b, c): return tm.bxor(tm.band(a, b), tm.band(a, c), tm.band(b, c))
def S0(a): return tm.bxor(tm.rotr(a, 2), tm.rotr(a, 13), tm.rotr(a, 22))
def S1(e): return tm.bxor(tm.rotr(e, 6), tm.rotr(e, 11), tm.rotr(e, 25))
def s0(w): return tm.bxor(tm.rotr(w, 7), tm.rotr(w, 18), tm.lshr(w, const(3, 32)))
def s1(w): return tm.bxor(tm.rotr(w, 17), tm.rotr(w, 19), tm.lshr(w, const(10, 32)))
@i('llvm.x86.sha256msg1')
def _(ex, st, a, ins):
    w0, w1, w2, w3 = lanes(a[0], 32)
    w4 = ext(a[1], 31, 0)
    return unl([tm.add(w0, s0(w1)), tm.add(w1, s0(w2)), tm.add(w2, s0(w3)), tm.add(w3, s0(w4))])
@i('llvm.x86.sha256msg2')
def _(ex, st, a, ins):
    x = lanes(a[0], 32)
    w14, w15 = ext(a[1], 95, 64), ext(a[1], 127, 96)
    w16 = tm.add(x[0], s1(w14)); w17 = tm.add(x[1], s1(w15))
    w18 = tm.add(x[2], s1(w16)); w19 = tm.add(x[3], s1(w17))
    return unl([w16, w17, w18, w19])
@i('llvm.x86.sha256rnds2')
def _(ex, st, a, ins):
    h, g, d, c = lanes(a[0], 32)   # src1: c d g h from high to low
    f, e, b, a_ = lanes(a[1], 32)[0], lanes(a[1], 32)[1], lanes(a[1], 32)[2], lanes(a[1], 32)[3]
    wk = lanes(a[2], 32)
    A, B, C, D, E, F, G, H = a_, b, c, d, e, f, g, h
    for j in range(2):
        t1 = tm.add(Ch(E, F, G), S1(E), wk[j], H)
        nA = tm.add(t1, Maj(A, B, C), S0(A))
        nE = tm.add(t1, D)
        A, B, C, D, E, F, G, H = nA, A, B, C, nE, E, F, G
    return unl([F, E, B, A])

SBOX = None
def _mksbox():
    global SBOX
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= (q << 1) & 0xff; q ^= (q << 2) & 0xff; q ^= (q << 4) & 0xff
        if q & 0x80: q ^= 0x09
        x = q ^ (((q << 1) | (q >> 7)) & 0xff) ^ (((q << 2) | (q >> 6)) & 0xff) ^ (((q << 3) | (q >> 5)) & 0xff) ^ (((q << 4) | (q >> 4)) & 0xff)
        s[p] = x ^ 0x63
        if p == 1: break
    s[0] = 0x63
    SBOX = s
_mksbox()
