"""Replay on the real code: AES-256/128 block encryption and AES-CTR streams, against libcrypto's AES block function."""
import ctypes, random, time, struct
from . import native
P = 'libcperciva_'
V, S, U = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint64

def sym(lib, n):
    try: f = lib[n]
    except AttributeError: f = lib[P + n]
    f.restype = V
    return f

def blocks(crypto, key, blks):
    ks = ctypes.create_string_buffer(512)
    crypto.AES_set_encrypt_key(key, len(key) * 8, ks)
    o = ctypes.create_string_buffer(16); out = []
    for b in blks:
        crypto.AES_encrypt(b, o, ks); out.append(o.raw)
    return out

def keystream(crypto, key, nonce, n):
    return b''.join(blocks(crypto, key, [struct.pack('>QQ', nonce, i) for i in range((n + 15) // 16)]))[:n]

def run(path, seed, secs):
    lib = ctypes.CDLL(path); crypto = ctypes.CDLL('libcrypto.so.3')
    exp, encb, kfree = sym(lib, 'crypto_aes_key_expand'), sym(lib, 'crypto_aes_encrypt_block'), sym(lib, 'crypto_aes_key_free')
    init, stream, free, bufc = (sym(lib, 'crypto_aesctr_' + x) for x in ('init', 'stream', 'free', 'buf'))
    rng = random.Random(seed); t0 = time.time(); it = 0
    while time.time() - t0 < secs:
        it += 1
        key = rng.choice([rng.randbytes(32), rng.randbytes(32), rng.randbytes(16), bytes(32)])
        k = exp(key, S(len(key)))
        if not k: return dict(function='crypto_aes_key_expand', key=key.hex(), got='NULL')
        b = rng.randbytes(16); o = ctypes.create_string_buffer(b'\xa5' * 48, 48)
        encb(b, V(ctypes.addressof(o) + 16), V(k))
        w = blocks(crypto, key, [b])[0]
        if o.raw != b'\xa5' * 16 + w + b'\xa5' * 16: return dict(function='crypto_aes_encrypt_block', key=key.hex(), block=b.hex(), got=o.raw[16:32].hex(), want=w.hex())
        nonce = rng.choice([0, 1, rng.getrandbits(64), (1 << 64) - 1, 1 << 32, 0x0102030405060708])
        n = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 257, rng.randrange(0, 600), rng.randrange(0, 600), 4096 + 5, 4200, 70000 if it % 20 == 1 else 1000, (1 << 20) + 40 if it == 3 else 100])
        m = rng.randbytes(n); ks = keystream(crypto, key, nonce, n)
        want = bytes(x ^ y for x, y in zip(m, ks))
        parts = []; left = n
        while left:
            q = min(left, rng.choice([0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 48, 64, rng.randrange(1, 100), left]))
            if n > 5000 and len(parts) > 40: q = left
            parts.append(q); left -= q
        inpl = rng.random() < 0.5
        ib = ctypes.create_string_buffer(b'\xa5' * 16 + m + b'\xa5' * 16, n + 32); ob = ib if inpl else ctypes.create_string_buffer(b'\xa5' * (n + 32), n + 32)
        info = dict(function='crypto_aesctr_stream', key=key.hex(), nonce=nonce, length=n, parts=parts[:60], inplace=inpl)
        one = rng.random() < 0.15
        if one:
            bufc(V(k), U(nonce), V(ctypes.addressof(ib) + 16), V(ctypes.addressof(ob) + 16), S(n)); info['function'] = 'crypto_aesctr_buf'
        else:
            st = init(V(k), U(nonce)); o = 16
            if not st: return dict(info, got='NULL')
            for q in parts:
                stream(V(st), V(ctypes.addressof(ib) + o), V(ctypes.addressof(ob) + o), S(q)); o += q
            free(V(st))
        got = ob.raw[16:16 + n]
        if got != want:
            at = next(i for i in range(n) if got[i] != want[i])
            return dict(info, first_wrong_byte=at, got=got[at:at + 16].hex(), want=want[at:at + 16].hex())
        if ob.raw[:16] != b'\xa5' * 16 or ob.raw[16 + n:] != b'\xa5' * 16: return dict(info, got='wrote outside the output')
        if not inpl and ib.raw[16:16 + n] != m: return dict(info, got='modified the input')
        kfree(V(k))
    # small requests far into the stream
    key = rng.randbytes(32); k = exp(key, S(32)); big = ctypes.create_string_buffer(1 << 24)
    for P in (4096, 65536, 65535, 1 << 17, 999999, (1 << 20) - 5, 1 << 20, (1 << 24) - 1) * 2:
        nonce = rng.getrandbits(64); st = init(V(k), U(nonce)); P -= rng.choice([0, 0, 1, 3, 16, 40])
        stream(V(st), big, big, S(P)); pos = P; parts = [P]
        for _ in range(40):
            q = rng.choice([1, 15, 16, 17, 32, 5, (16 - pos % 16), (16 - pos % 16), (16 - pos % 16) + 16, (16 - pos % 16) + 1, rng.randrange(0, 70)]); b = ctypes.create_string_buffer(q + 1)
            stream(V(st), b, b, S(q)); parts.append(q)
            c0 = pos // 16; ks = b''.join(blocks(crypto, key, [struct.pack('>QQ', nonce, i) for i in range(c0, (pos + q + 15) // 16 + 1)]))[pos % 16:][:q]
            if b.raw[:q] != ks: return dict(function='crypto_aesctr_stream', key=key.hex(), nonce=nonce, data='zero bytes', parts=parts, got=b.raw[:q].hex(), want=ks.hex())
            pos += q
        free(V(st))
    # long run: counters beyond 2^16 and 2^20 blocks
    key = bytes(range(32)); n = 40 << 20
    k = exp(key, S(32)); m = ctypes.create_string_buffer(n)
    bufc(V(k), U(5), m, m, S(n))
    for i in (1, 255, 256, 257, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 21) + 3):
        w = blocks(crypto, key, [struct.pack('>QQ', 5, i)])[0]
        if m.raw[16 * i:16 * i + 16] != w: return dict(function='crypto_aesctr_buf', block=i, key=key.hex(), nonce=5, want=w.hex())
    return None

DRV = native.STACK + r'''
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
struct crypto_aes_key; struct crypto_aesctr;
void crypto_aes_key_free(struct crypto_aes_key *); void crypto_aesctr_free(struct crypto_aesctr *);
void crypto_aesctr_buf(const struct crypto_aes_key *, uint64_t, const uint8_t *, uint8_t *, size_t);
void * crypto_aes_key_expand(const uint8_t *, size_t);
static void * w_p; uint8_t w_blk[4096]; size_t w_blkn;
void __real_free(void *);
/* what the tracked block still holds when it is handed back to the allocator */
void __wrap_free(void * p) { if (p && p == w_p) { w_blkn = malloc_usable_size(p); if (w_blkn > 4096) w_blkn = 4096; memcpy(w_blk, p, w_blkn); w_p = NULL; } __real_free(p); }
void w_kfree(void * k) { w_blkn = 0; w_p = k; crypto_aes_key_free(k); w_p = NULL; }
void w_sfree(void * k) { w_blkn = 0; w_p = k; crypto_aesctr_free(k); w_p = NULL; }
static const void * w_k; static const uint8_t * w_i; static uint8_t * w_o; static size_t w_n; static uint64_t w_no;
static void w_body(void) { crypto_aesctr_buf(w_k, w_no, w_i, w_o, w_n); }
void w_bufc(const void * k, uint64_t no, const uint8_t * i, uint8_t * o, size_t n) { w_k = k; w_no = no; w_i = i; w_o = o; w_n = n; w_run(w_body); }
'''
def erase(path, seed):
    L = ctypes.CDLL(path); crypto = ctypes.CDLL('libcrypto.so.3')
    exp, init, stream = sym(L, 'crypto_aes_key_expand'), sym(L, 'crypto_aesctr_init'), sym(L, 'crypto_aesctr_stream')
    rng = random.Random(seed)
    blk = lambda: bytes((ctypes.c_uint8 * 4096).in_dll(L, 'w_blk')[:S.in_dll(L, 'w_blkn').value])
    def at_free(secrets, info):
        b = blk()
        for what, x in secrets:
            if any(x) and x in b: return dict(info, what=what + ' still in the block when it is freed', offset=b.index(x), found=x.hex())
    for it in range(60):
        key = rng.randbytes(rng.choice([16, 32]))
        k = exp(key, S(len(key)))
        if not k: return None
        nonce = rng.getrandbits(64); n = rng.choice([1, 5, 15, 17, 31, 33, 100, 1000, 4097]) + 64 * (it // 20)
        info = dict(key=key.hex(), nonce=nonce, length=n)
        ks = keystream(crypto, key, nonce, n + 16); last = ks[n // 16 * 16:][:16]
        m = ctypes.create_string_buffer(n)
        st = init(V(k), U(nonce)); stream(V(st), m, m, S(n)); L.w_sfree(V(st))
        if n % 16:
            r = at_free([('key stream block', last)], dict(info, function='crypto_aesctr_free'))
            if r: return r
            L.w_bufc(V(k), U(nonce), m, m, S(n))
            x = struct.pack('<Q', n) + last
            if L.w_has(x, S(24)): return dict(info, function='crypto_aesctr_buf', what='stream state left on the stack', found=x.hex())
        sch = ctypes.create_string_buffer(244); crypto.AES_set_encrypt_key(key, len(key) * 8, sch)
        a = sch.raw[:(len(key) // 4 + 7) * 16]; b = struct.pack('<%dI' % (len(a) // 4), *struct.unpack('>%dI' % (len(a) // 4), a))
        L.w_kfree(V(k))
        r = at_free([('round key', y[i:i + 16]) for y in (a, b) for i in range(0, len(a), 16)], dict(info, function='crypto_aes_key_free'))
        if r: return r
    return None

def search_prop(prop, seed, deadline, failed):
    if prop == 'C11':
        for v in ('all', 'soft'):
            path = native.so(v, csrc=DRV, ldflags=['-Wl,--wrap=free'])
            r = native.in_child(lambda: erase(path, seed), max(5, min(60, deadline - time.time())))
            if r[0] == 'ok' and r[1]: return dict(variant=v, **r[1])
            if r[0] == 'exc' and __import__('os').environ.get('WITDEBUG'): print(r)
    for v in ('all', 'soft'):
        path = native.so(v)
        left = deadline - time.time()
        if left < 5: return None
        r = native.in_child(lambda: run(path, seed, min(25, left - 4)), min(90, left))
        if r[0] == 'ok' and r[1]: return dict(variant=v, **r[1])
        if r[0] in ('signal', 'timeout'): return dict(variant=v, crash=str(r), what='crashes or hangs on random inputs')
    return None
