"""Replay on the real code: humansize / humansize_parse / crypto_verify_bytes against a Python oracle."""
import ctypes, random, re, time, itertools
from . import native
PFX = ' kMGTPE'
PF = {'k': 1, 'M': 2, 'G': 3, 'T': 4, 'P': 5, 'E': 6}

def parse_oracle(s):
    m = re.fullmatch(rb'([0-9]+) ?([kMGTPE]?)B?', s)
    if not m: return None
    v = int(m.group(1)) * 1000 ** PF.get(m.group(2).decode(), 0)
    return v if v < 1 << 64 and int(m.group(1)) < 1 << 64 else None

def print_ok(size, txt):
    if size < 1000: return txt == '%d B' % size
    m = re.fullmatch(r'([0-9]+)(\.[0-9])? ([kMGTPE])B', txt)
    if not m: return False
    k = 1000 ** PF[m.group(3)]
    if m.group(2):
        if not 1 <= int(m.group(1)) <= 9: return False
        v10, u = int(m.group(1)) * 10 + int(m.group(2)[1]), 1
    else:
        if not 10 <= int(m.group(1)) <= 999: return False
        v10, u = int(m.group(1)) * 10, 10
    return v10 * k <= size * 10 < (v10 + u) * k

def sizes(rng):
    for e in range(7):
        for m in (1, 5, 9, 10, 11, 99, 100, 101, 500, 999, 1000):
            for d in range(-3, 4): yield m * 1000 ** e + d
            for d in (50, 99, 100): yield m * 1000 ** e - d * 1000 ** max(0, e - 1); yield m * 1000 ** e - d * 1000 ** max(0, e - 1) - 1
    for d in range(50): yield (1 << 64) - 1 - d
    while True:
        yield rng.randrange(0, 1 << rng.randrange(1, 65))
        e = rng.randrange(0, 7); yield rng.randrange(0, 10000) * 1000 ** e // 10 + rng.randrange(-2, 3)

def texts(rng):
    al = [b'0', b'1', b'5', b'9', b' ', b'k', b'M', b'G', b'T', b'P', b'E', b'B', b'b', b'K', b'x', b'-', b'\x80', b'\xff', b'/', b':', b'.']
    for n in range(0, 4):
        for t in itertools.product(al, repeat=n): yield b''.join(t)
    for d in range(-40, 40): yield b'%d' % ((1 << 64) + d)
    for e, p in enumerate(b'kMGTPE'):
        q = ((1 << 64) - 1) // 1000 ** (e + 1)
        for d in range(-3, 4):
            if q + d >= 0: yield b'%d%c' % (q + d, p); yield b'%d %cB' % (q + d, p)
    while True:
        v = rng.randrange(0, 1 << rng.randrange(1, 72))
        s = b'%d' % v + rng.choice([b'', b' ', b'  ']) + rng.choice([b'', b'k', b'M', b'G', b'T', b'P', b'E', b'kk', b'Ek']) + rng.choice([b'', b'B', b'BB', b'b', b' '])
        if rng.random() < 0.3: s = bytes(rng.choice(b'0123456789 kMGTPEB') for _ in range(rng.randrange(0, 24)))
        yield s

def go_humansize(lib, seed, secs):
    libc = ctypes.CDLL(None); libc.free.argtypes = [ctypes.c_void_p]
    f = lib.humansize; f.restype = ctypes.c_void_p; f.argtypes = [ctypes.c_uint64]
    g = lib.humansize_parse; g.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_uint64)]
    rng = random.Random(seed); t0 = time.time()
    for a, b in zip(sizes(rng), texts(rng)):
        if time.time() - t0 > secs: return None
        a &= (1 << 64) - 1
        p = f(a)
        if not p: return dict(function='humansize', size=a, got='NULL')
        txt = ctypes.string_at(p).decode('latin1'); libc.free(p)
        if not print_ok(a, txt): return dict(function='humansize', size=a, got=txt)
        if b'\0' in b: continue
        v = ctypes.c_uint64(0xDEAD); r = g(b, ctypes.byref(v)); w = parse_oracle(b)
        if (r == 0) != (w is not None) or (r not in (0, -1)) or (r == 0 and v.value != w):
            return dict(function='humansize_parse', text=b.decode('latin1'), got=[r, v.value], want=w)
    return None

def go_verify(lib, seed, secs):
    f = lib['crypto_verify_bytes'] if hasattr(lib, 'crypto_verify_bytes') else lib['libcperciva_crypto_verify_bytes']
    f.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]; f.restype = ctypes.c_uint8
    rng = random.Random(seed); t0 = time.time()
    def run(a, b):
        A = ctypes.create_string_buffer(a, len(a) or 1); B = ctypes.create_string_buffer(b, len(b) or 1)
        r = f(A, B, len(a))
        if (r == 0) != (a == b): return dict(function='crypto_verify_bytes', a=a.hex(), b=b.hex(), got=r, want='0 iff equal')
    # every single-byte difference and pairs of differences (cancellation)
    for n in (0, 1, 2, 16, 32):
        a = rng.randbytes(n)
        r = run(a, a)
        if r: return r
        for i in range(n):
            for d in range(1, 256):
                b = bytearray(a); b[i] ^= d
                r = run(a, bytes(b))
                if r: return r
                if n > 1:
                    j = rng.randrange(n)
                    if j != i:
                        for d2 in (d, 256 - d):
                            b2 = bytearray(b); b2[j] ^= d2 & 255
                            r = run(a, bytes(b2))
                            if r: return r
                            b3 = bytearray(b); b3[j] = (a[j] - (b[i] - a[i])) & 255
                            r = run(a, bytes(b3))
                            if r: return r
    while time.time() - t0 < secs:
        n = rng.randrange(0, 400)
        a = rng.randbytes(n); b = bytearray(a)
        for _ in range(rng.randrange(0, 3)):
            if n: b[rng.randrange(n)] = rng.randrange(256)
        r = run(a, bytes(b))
        if r: return r
        if n:
            b = bytes((x ^ 0x80) for x in a)
            r = run(a, b)
            if r: return r
    return None

def search_prop(prop, seed, deadline, failed):
    path = native.so('all')
    for fn in ((go_verify,) if prop in ('C19', 'C07') else (go_humansize,)):
        r = native.in_child(lambda: fn(ctypes.CDLL(path), seed, min(40, deadline - time.time() - 5)), 60)
        if r[0] == 'ok' and r[1]: return r[1]
        if r[0] in ('signal', 'timeout'): return dict(crash=str(r), what='crashes or hangs')
    return None
