"""Contracts for lib/scryptenc/scryptenc.c: format, round trip, authentication, streaming, limits, erasure, release."""
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero, set_errno, fmt_check, cstring
from . import env, c_hash, c_aes, c_stdio
from .c_aes import CTRS, live_heap
from .c_hash import H, HM
from .c_stdio import fld, new_file
from .fp import FP, u2f, fmul, finv, fless, dbl, real_hook

SE = 'lib/scryptenc/scryptenc.c'
OK, ELIMIT, ECLOCK, EKEY, ESALT, EOPENSSL, ENOMEM, EINVAL, EVERSION, ETOOBIG, ETOOSLOW, EPASS, EWRFILE, ERDFILE, EPARAM, EBIGSLOW = range(16)
C32 = lambda v: const(v, 32)

def KDF(pid, sid, N, r, p, dk, i): return tm.uf('KDF', 8, pid, sid, N, r, p, dk, i)
SECRET = ('KDF', 'KDFX')

# ------------------------------------------------------------------ contracts of the functions called
def k_scrypt(ex, st, a):
    """crypto_scrypt: 0 and the derived key, or -1 (invalid parameters, memory) with the output unspecified"""
    pw, pl, sa, sl, N, r, p, buf, n = a
    pid = intern('key', (region_seg(ex, st, pw, pl),)); sid = intern('msg', (region_seg(ex, st, sa, sl),))
    for h in getattr(ex, 'on_kdf', ()): h(ex, st, N, r, p)
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'crypto_scrypt')
    ex.write_region(s2, buf, n, (lambda v: lambda k, dec=None: tm.uf('KDFX', 8, v, k))(fresh('kdfx', 64)), bulk=True)
    ex.write_region(st, buf, n, lambda k, dec=None: KDF(pid, sid, N, r, p, n, k), bulk=True)
    st.event('kdf', pid, sid, N, r, p, n)
    return [(st, C32(0)), (s2, C32(-1 & 0xffffffff))]

def k_verify(ex, st, a):
    """crypto_verify_bytes: zero exactly when all bytes are equal (proved: C19)"""
    x, y, n = a
    if n.op != 'c': raise Unsupported('crypto_verify_bytes with symbolic length')
    p, q = ex.load_bytes(st, x, n.v), ex.load_bytes(st, y, n.v)
    e = And(*[eq(b, d) for b, d in zip(p, q)])
    r = fresh('verify', 8)
    s2 = st.clone(); s2.assume(Not(e)); s2.assume(ne(r, const(0, 8)))
    st.assume(e)
    return [(st, const(0, 8)), (s2, r)]

def k_entropy(ex, st, a):
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'crypto_entropy_read')
    h = fresh('SALT', 64)
    ex.havoc(s2, a[0], a[1], 'partial')
    ex.write_region(st, a[0], a[1], lambda k, dec=None: tm.uf('mem', 8, h, k), bulk=True)
    return [(st, C32(0)), (s2, C32(-1 & 0xffffffff))]

def k_memtouse(ex, st, a):
    """memtouse: 0 and a limit of at least 1 MiB, or 1"""
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'memtouse')
    L = fresh('memlimit', 64); st.assume(ule(const(1 << 20, 64), L))
    ex.store(st, a[2], L)
    st.ghost['limit'] = (a[0], a[1], L)
    return [(st, C32(0)), (s2, C32(1))]

def k_cpuperf(ex, st, a):
    outs = []
    s1 = st.clone(); s1.event('fail', 'cpuperf', ECLOCK); set_errno(ex, s1)
    s2 = st.clone(); s2.event('fail', 'cpuperf', EKEY); set_errno(ex, s2)
    v = fresh('opps', 64)
    if ex.fp is not None: ex.fp.pos.add(v)
    ex.store(st, a[0], v)
    st.ghost['opps'] = v
    return [(st, C32(0)), (s1, C32(ECLOCK)), (s2, C32(EKEY))]

def k_noop(ret=None):
    def con(ex, st, a): return ret
    return con
def k_display(ex, st, a):
    """display_params only prints (proved in task scryptenc.display)"""
    st.event('display', *a); set_errno(ex, st); return None
def x_fprintf(ex, st, a):
    fmt = cstring(ex, st, a[1])
    if fmt is None: raise Unsupported('fprintf with unknown format')
    fmt_check(ex, st, fmt, a[2:], 'fprintf')
    st.event('printf', fmt, tuple(a[2:])); set_errno(ex, st)
    return fresh('printed', 32)
def k_humansize(ex, st, a):
    """humansize: a new string describing the size (proved: C14), or NULL"""
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', 'humansize')
    o = ex.new_obj(st, 'human', const(16, 64), 'heap', 16, content=Content(uf_base('&human')))
    st.ghost[('human', o)] = a[0]
    st.event('humansize', o.addr, a[0])
    return [(st, o.addr), (s2, Z64)]

DIRECT = {'crypto_scrypt': k_scrypt, 'crypto_verify_bytes': k_verify, 'crypto_entropy_read': k_entropy, 'memtouse': k_memtouse,
          'scryptenc_cpuperf': k_cpuperf, 'humansize': k_humansize, 'insecure_memzero': c_insecure_memzero}

# ------------------------------------------------------------------ erasure
def is_secret(t):
    for x in tm.nodes([t]):
        if x.op == 'uf':
            if x.v in SECRET: return True
            if x.v == 'mem' and x.a[0].op == 'v' and x.a[0].v == 'PASSWD': return True
    return False
def holds_secret(ex, st, o):
    c = st.mem[o]
    if o.size.op == 'c' and o.size.v <= 1024:
        for b in c.read_bytes(Z64, o.size.v, ex.dec(st)):
            if is_secret(b): return True
        return False
    k = fresh('k', 64); s2 = st.clone(); s2.assume(ult(k, o.size))
    return is_secret(s2.mem[o].read_bytes(k, 1, ex.dec(s2))[0])
def erase_exit(ex, st, fr):
    if ex.quiet: return
    for o in fr.allocas:
        if holds_secret(ex, st, o):
            ex.oblige(st.clone(), FALSE, 'erase: %s holds no key material when %s returns' % (o.name, fr.fn.name.lstrip('@')))
        else: ex.obls.append(execu.Obligation('erase: %s holds no key material when %s returns' % (o.name, fr.fn.name.lstrip('@')), True, fr.fn.name))
def erase_free(ex, st, o):
    ok = not holds_secret(ex, st, o)
    ex.oblige(st.clone(), TRUE if ok else FALSE, 'erase: heap block %s holds no key material when released' % o.name)

# ------------------------------------------------------------------ the stream invariant
def streams(o): return o.kind == 'file'
def loop_inv(ex, st, header, blocks, infile, outfile, ct):
    """between iterations everything read has been absorbed: the output text, the MAC input and the cipher position agree
    with the number of bytes consumed; a decryptor additionally holds back the last min(32, c) bytes in its buffer.
    ct: encrypting (MAC over what is written) or decrypting (MAC over what is read)"""
    if infile is None: return None
    tag = fresh('POS', 64)
    PN = lambda n: tm.uf('hist', 64, tag, n)
    p0 = fld(ex, st, infile, c_stdio.POS)
    inb = infile.data['byte']
    hm = ctr = None
    for o in list(st.mem):
        if st.status.get(o) != 'live' or o.size.op != 'c' or o.kind in ('global', 'file'): continue
        sz = o.size.v
        if sz in (208, 48):
            b0 = st.mem[o].read_bytes(Z64, 1, ex.dec(st))[0]
            if b0.op == 'uf' and b0.v == 'mem' and b0.a[0] in BLOBS:
                v = BLOBS[b0.a[0]]
                if v[0] == 'hmac' and sz == 208: hm = (o, v)
                if v[0] == 'aesctr' and sz == 48: ctr = (o, v)
    if hm is None or ctr is None: return None
    hold = 0 if ct else 32
    out0 = ROPES[fld(ex, st, outfile, c_stdio.OUT)][1]
    kid, nonce, B0 = ctr[1][1:]
    mid0 = ROPES[hm[1][2]][1]
    plain = lambda k: inb(add(p0, k))
    cipher = lambda k: tm.bxor(inb(add(p0, k)), CTRS(kid, nonce, add(B0, k)))
    def parts(n):
        c = sub(PN(n), p0)
        h = ite(ult(c, const(hold, 64)), c, const(hold, 64)) if hold else Z64
        return c, h, sub(c, h)
    def at(bufo):
        def f(n):
            c, h, d = parts(n)
            oid = intern('out', out0 + (seg_fn(cipher(K), d),))
            mid = intern('msg', mid0 + (seg_fn((cipher if ct else plain)(K), d),))
            hb = blob_bytes(blob_id(('hmac', hm[1][1], mid)), 208)
            cb = blob_bytes(blob_id(('aesctr', kid, nonce, add(B0, d))), 48)
            pb, ob = le_bytes(PN(n)), le_bytes(oid)
            mem = [(add(infile.addr, const(c_stdio.POS, 64)), 8, lambda k, dec=None: pb[k.v]),
                   (add(outfile.addr, const(c_stdio.OUT, 64)), 8, lambda k, dec=None: ob[k.v]),
                   (hm[0].addr, 208, lambda k, dec=None: hb[k.v]), (ctr[0].addr, 48, lambda k, dec=None: cb[k.v])]
            if bufo is not None:
                held = lambda k, dec=None: inb(add(sub(PN(n), h), k))
                held.maxlen = 32
                mem.append((bufo.addr, h, held))
            return dict(mem=mem, facts=[ule(p0, PN(n)), ule(PN(n), infile.data['total'])])
        return f
    def define(ex, s, n): return [eq(PN(n), fld(ex, s, infile, c_stdio.POS))]
    def soft(n, vals, s):
        return [eq(v, parts(n)[1]) for r, v in sorted(vals.items()) if v.w == 64]
    if not hold: return Inv(at(None), 'stream position', auto=True, define=define)
    bufs = [o for o in st.mem if st.status.get(o) == 'live' and o.kind == 'stack' and o.size.op == 'c' and o.size.v > 4096]
    if not bufs: return None
    return [Inv(at(b), 'stream position', auto=True, define=define, soft=soft) for b in bufs]

# ------------------------------------------------------------------ set up
class Ctx: pass
def prep(c, infile=False, outfile=False, force=None, verbose=None, explicit=None, params_zero=False):
    m = build.module(SE)
    ex = c.ex([m])
    ex.contracts.update(DIRECT); ex.contracts.update(c_hash.PUBLIC); ex.contracts.update(c_aes.PUBLIC); ex.contracts.update(c_aes.CTR_PUBLIC)
    ex.externals.update({k: v for k, v in ex.contracts.items()})
    ex.externals.update(c_stdio.STDIO); ex.externals['fprintf'] = x_fprintf
    f = m.funcs.get('@display_params')
    if f is not None and len(f.params) == 6: ex.contracts['display_params'] = k_display
    ex.fp = FP()
    st = State()
    env.errno_obj(ex, st)
    x = Ctx(); x.ex, x.st, x.m = ex, st, m
    x.plen = var('passwdlen', 64); st.assume(ult(x.plen, const(1 << 61, 64)))
    x.pw = ex.new_obj(st, 'passwd', x.plen, 'arg', content=Content(uf_base('PASSWD')), ro=True)
    x.pid = intern('key', (canon_seg(ex, st, uf_base('PASSWD'), x.plen),))
    x.P = ex.new_obj(st, 'P', 40, 'arg', 8)
    x.maxmem, x.frac, x.maxtime = var('maxmem', 64), var('maxmemfrac', 64), var('maxtime', 64)
    ex.store(st, x.P.addr, x.maxmem); ex.store(st, add(x.P.addr, const(8, 64)), x.frac); ex.store(st, add(x.P.addr, const(16, 64)), x.maxtime)
    if explicit:
        x.logN, x.r, x.p = var('logN', 32), var('r', 32), var('p', 32)
        for v in (x.logN, x.r, x.p): st.assume(ne(v, C32(0)))
    else: x.logN, x.r, x.p = C32(0), C32(0), C32(0)
    for i, v in enumerate((x.logN, x.r, x.p)): ex.store(st, add(x.P.addr, const(24 + 4 * i, 64)), v)
    x.verbose = var('verbose', 32); x.force = var('force', 32)
    x.total = var('total', 64); st.assume(ult(x.total, const(1 << 60, 64)))
    x.inf = x.outf = None
    if infile: x.inf = new_file(ex, st, 'infile', x.total)
    if outfile: x.outf = new_file(ex, st, 'outfile')
    ex.frame_exit_hook = erase_exit
    ex.on_free.append(erase_free)
    return x
def getP(x, s):
    ld = lambda o: x.ex.load(s, add(x.P.addr, const(o, 64)), 4)
    return ld(24), ld(28), ld(32)
def fails(s): return [e for e in s.trace if e[0] == 'fail']
CODES = {'memtouse': (ELIMIT,), 'crypto_entropy_read': (ESALT,), 'crypto_scrypt': (EKEY,), 'crypto_aes_key_expand': (EOPENSSL,), 'aes': (EOPENSSL,),
         'crypto_aesctr_init': (ENOMEM,), 'fwrite': (EWRFILE,), 'fflush': (EWRFILE,), 'malloc': (ENOMEM,)}
def code_for(e):
    if e[1] == 'cpuperf': return (e[2],)
    return CODES.get(e[1], ())
def N_of(logN): return tm.shl(const(1, 64), tm.zext(logN, 64))
def valid_params(logN, r, p):
    """logN in 1..63, r, p nonzero, r*p < 2^30"""
    return And(ule(C32(1), logN), ule(logN, C32(63)), ne(r, C32(0)), ne(p, C32(0)), ult(tm.mul(tm.zext(r, 64), tm.zext(p, 64)), const(1 << 30, 64)))
def toobig(L, logN, r):
    """memlimit < 128 * N * r, written without overflow (lemma scryptenc.limits)"""
    return ult(tm.lshr(L, tm.zext(logN, 64)), tm.mulc(tm.zext(r, 64), 128))
def tooslow(opps, maxtime, logN, r, p):
    """opps * maxtime < 4 * N * r * p over the reals"""
    return fless(fmul(opps, maxtime), fmul(fmul(fmul(dbl(4), u2f(N_of(logN))), u2f(r)), u2f(p)))

def spec_header(x, s, logN, r, p, salt):
    ex = x.ex
    h48 = [const(b, 8) for b in b'scrypt'] + [const(0, 8), tm.trunc(logN, 8)] + be_bytes(r) + be_bytes(p) + salt
    chk = [H(intern('msg', (seg_bytes(h48),)), i) for i in range(16)]
    return h48 + chk
def dkey(x, s, N, r, p, salt):
    sid = intern('msg', (seg_bytes(salt),))
    return [KDF(x.pid, sid, N, r, p, const(64, 64), const(i, 64)) for i in range(64)]
def spec_keys(dk):
    return intern('key', (seg_bytes(dk[:32]),)), intern('key', (seg_bytes(dk[32:]),))

def kdf_events(s): return [e for e in s.trace if e[0] == 'kdf']

def eqs(c, x, s, have, want, label):
    for a, b in zip(have, want): 
        if not x.ex.oblige(s, eq(a, b), label): return

# ------------------------------------------------------------------ encryption
def enc_common(c, x, s, explicit, fn):
    """return code and parameter obligations; returns None unless the call succeeded"""
    ex = x.ex
    f = fails(s)
    rc = s.ret
    lab = 'C05,C09,C10,C12: %s ' % fn
    logN, r, p = getP(x, s)
    rderr = fld(ex, s, x.inf, c_stdio.ERR, 1) if x.inf is not None else const(0, 8)
    if f:
        codes = [k for e in f for k in code_for(e)]
        ex.oblige(s.clone(), ne(rc, C32(0)), 'C05,C09,C12,C15: %s reports a failed operation (%s)' % (fn, ', '.join(e[1] for e in f)))
        ex.oblige(s.clone(), Or(*[eq(rc, C32(k)) for k in codes] + [And(ne(rderr, const(0, 8)), eq(rc, C32(ERDFILE)))]), 'C09,C12,C15: %s returns the error code of what failed (%s)' % (fn, ', '.join(e[1] for e in f)))
        return None
    bad = Not(valid_params(x.logN, x.r, x.p)) if explicit else FALSE
    rd = ne(rderr, const(0, 8))
    want = ite(bad, C32(EPARAM), ite(rd, C32(ERDFILE), C32(0)))
    ex.oblige(s.clone(), eq(rc, want), 'C05,C09,C10,C15: %s succeeds exactly when parameters are valid and input could be read' % fn)
    s2 = s.clone(); s2.assume(eq(rc, C32(0)))
    if not ex.feasible(s2, eq(rc, C32(0))): return None
    return s2

def enc_spec(c, x, s, fn, explicit):
    """-> (96-byte header, kid_enc, kid_mac) per FORMAT, with obligations on parameters and salt"""
    ex = x.ex
    logN, r, p = getP(x, s)
    if explicit:
        ex.oblige(s, And(eq(logN, x.logN), eq(r, x.r), eq(p, x.p)), 'C05,C10,C15: %s uses the explicit parameters' % fn)
    ex.oblige(s, valid_params(logN, r, p), 'C05,C06,C10: %s returns valid parameters' % fn)
    ev = kdf_events(s)
    if len(ev) != 1:
        c.lemma('C05,C12: %s derives the key once' % fn, False, str(ev), fn); return None
    return logN, r, p, ev[0]

def salt_of(ev): 
    segs = ROPES[ev[2]][1]
    return list(segs[0][1]) if len(segs) == 1 and segs[0][0] == 'b' else None

def is_fresh_salt(bs):
    return bs is not None and len(bs) == 32 and all(b.op == 'uf' and b.v == 'mem' and str(b.a[0].v).startswith('SALT!') and b.a[1] is const(i, 64) for i, b in enumerate(bs)) and len(set(b.a[0] for b in bs)) == 1

def enc_expected(c, x, s, fn, explicit):
    ex = x.ex
    r4 = enc_spec(c, x, s, fn, explicit)
    if r4 is None: return None
    logN, r, p, ev = r4
    salt = salt_of(ev)
    c.lemma('C05,C12: %s uses 32 bytes of fresh entropy as the salt' % fn, is_fresh_salt(salt), str(salt)[:200], fn)
    if not is_fresh_salt(salt): return None
    h64 = spec_header(x, s, logN, r, p, salt)
    dk = dkey(x, s, N_of(logN), r, p, salt)
    ke, km = spec_keys(dk)
    hdr = h64 + [HM(km, intern('msg', (seg_bytes(h64),)), i) for i in range(32)]
    ct = lambda k: tm.bxor(tm.uf('mem', 8, var('INPUT', 64), k), CTRS(ke, Z64, k))
    def body(n): return (seg_bytes(hdr), seg_fn(ct(K), n))
    return hdr, ct, body, km

def enc_setup_contracts(c, x, explicit):
    ex = x.ex
    f = x.m.funcs.get('@pickparams')
    if f is not None and len(f.params) == 7: ex.contracts['pickparams'] = k_pickparams

def k_pickparams(ex, st, a):
    """pickparams (proved in task scryptenc.pickparams): valid parameters within the limits, or a limit/clock error"""
    outs = []
    for what, code in (('memtouse', ELIMIT), ('cpuperf', ECLOCK), ('cpuperf', EKEY)):
        s = st.clone(); s.event('fail', what, code); set_errno(ex, s)
        for q in a[3:6]: ex.store(s, q, fresh('partial', 32))
        outs.append((s, C32(code)))
    logN, r, p = fresh('logN', 32), fresh('r', 32), fresh('p', 32)
    st.assume(valid_params(logN, r, p))
    for q, v in zip(a[3:6], (logN, r, p)): ex.store(st, q, v)
    st.event('picked', a[0], a[1], a[2]); set_errno(ex, st)
    return [(st, C32(0))] + outs

def enc_buf(explicit):
    def t(c):
        x = prep(c, explicit=explicit); ex, st = x.ex, x.st
        enc_setup_contracts(c, x, explicit)
        n = var('inbuflen', 64); st.assume(ult(n, const(1 << 60, 64)))
        inb = ex.new_obj(st, 'inbuf', n, 'arg', content=Content(uf_base('INPUT')), ro=True)
        outb = ex.new_obj(st, 'outbuf', add(n, const(128, 64)), 'arg')
        outs = ex.run_function(st, x.m.funcs['@scryptenc_buf'], [inb.addr, n, outb.addr, x.pw.addr, x.plen, x.P.addr, x.verbose, x.force])
        c.covered(outs, 6)
        good = 0
        for s in outs:
            c.lemma('resource: scryptenc_buf releases everything it acquired', not live_heap(s), str(live_heap(s)), 'scryptenc_buf')
            s2 = enc_common(c, x, s, explicit, 'scryptenc_buf')
            if s2 is None: continue
            r = enc_expected(c, x, s2, 'scryptenc_buf', explicit)
            if r is None: continue
            good += 1
            hdr, ct, body, km = r
            eqs(c, x, s2.clone(), ex.load_bytes(s2, outb.addr, 96), hdr, 'C05,C06: scryptenc_buf ensures the 96-byte header is as documented')
            k = fresh('k', 64); s3 = s2.clone(); s3.assume(ult(k, n))
            if ex.feasible(s3, TRUE):
                ex.oblige(s3, eq(s3.mem[outb].read_bytes(add(k, const(96, 64)), 1, ex.dec(s3))[0], ct(k)), 'C05,C06: scryptenc_buf ensures byte 96+k is the AES-256-CTR encryption of plaintext byte k')
            mid = intern('msg', body(n))
            eqs(c, x, s2.clone(), ex.load_bytes(s2, add(outb.addr, add(n, const(96, 64))), 32), [HM(km, mid, i) for i in range(32)], 'C05,C06: scryptenc_buf ensures the last 32 bytes are the HMAC of everything before them')
        c.lemma('vacuity guard: successful encryption reached', good > 0)
    t.__doc__ = 'scryptenc_buf with %s parameters: documented format, error codes, erasure, release' % ('explicit' if explicit else 'automatic')
    return t
for _e in (True, False): task('scryptenc.enc_buf.%s' % ('explicit' if _e else 'auto'), 'C05', 'C06', 'C10', 'C11', 'C12', 'C17', 'C18', weight=2)(enc_buf(_e))

def use_loops(x, ct):
    x.ex.loop_specs['*'] = lambda ex, st, h, b: loop_inv(ex, st, h, b, x.inf, x.outf, ct)

def enc_file(explicit):
    def t(c):
        x = prep(c, infile=True, outfile=True, explicit=explicit); ex, st = x.ex, x.st
        enc_setup_contracts(c, x, explicit)
        use_loops(x, True)
        outs = ex.run_function(st, x.m.funcs['@scryptenc_file'], [x.inf.addr, x.outf.addr, x.pw.addr, x.plen, x.P.addr, x.verbose, x.force])
        c.covered(outs, 8)
        good = 0
        for s in outs:
            c.lemma('resource: scryptenc_file releases everything it acquired', not live_heap(s), str(live_heap(s)), 'scryptenc_file')
            c.lemma('resource: scryptenc_file leaves the streams open', s.status[x.inf] == 'live' and s.status[x.outf] == 'live')
            s2 = enc_common(c, x, s, explicit, 'scryptenc_file')
            if s2 is None: continue
            r = enc_expected(c, x, s2, 'scryptenc_file', explicit)
            if r is None: continue
            good += 1
            hdr, ct, body, km = r
            ex.oblige(s2.clone(), eq(fld(ex, s2, x.outf, c_stdio.DIRTY, 1), const(0, 8)), 'C09: scryptenc_file ensures buffered output was flushed before success is reported')
            ex.oblige(s2.clone(), eq(fld(ex, s2, x.outf, c_stdio.WERR, 1), const(0, 8)), 'C09: scryptenc_file ensures no write failed when success is reported')
            ex.oblige(s2.clone(), eq(fld(ex, s2, x.inf, c_stdio.POS), x.total), 'C05,C09: scryptenc_file ensures the whole input was consumed')
            mid = intern('msg', body(x.total))
            want = intern('out', body(x.total) + (seg_bytes([HM(km, mid, i) for i in range(32)]),))
            have = fld(ex, s2, x.outf, c_stdio.OUT)
            ok = ropes_equal(ex, s2, have, want)
            c.lemma('C05,C06,C09: scryptenc_file ensures the output is header, AES-256-CTR ciphertext and HMAC as documented', ok, 'have %r\nwant %r' % (rshow(have), rshow(want)), 'scryptenc_file')
        c.lemma('vacuity guard: successful encryption reached', good > 0)
    t.__doc__ = 'scryptenc_file with %s parameters: documented format for any read pattern, every I/O error reported, erasure, release' % ('explicit' if explicit else 'automatic')
    return t
def rshow(v):
    if v not in ROPES: return tm.show(v)
    return [('b', len(s[1]), [tm.show(b, 3) for b in s[1][:4]]) if s[0] == 'b' else ('f', tm.show(s[1], 6), tm.show(s[2], 5)) for s in ROPES[v][1]]
for _e in (True, False): task('scryptenc.enc_file.%s' % ('explicit' if _e else 'auto'), 'C05', 'C06', 'C09', 'C10', 'C11', 'C12', 'C17', 'C18', weight=3)(enc_file(_e))

# ------------------------------------------------------------------ decryption
def dec_conditions(x, s, inp, total):
    """the conditions of the documented format on the input, as terms over its bytes"""
    by = lambda i: inp(const(i, 64))
    d = Ctx()
    hdr = [by(i) for i in range(96)]
    d.magic = And(*[eq(hdr[i], const(b, 8)) for i, b in enumerate(b'scrypt')])
    d.version = eq(hdr[6], const(0, 8))
    d.logN, d.r, d.p, d.salt = tm.zext(hdr[7], 32), be(hdr[8:12]), be(hdr[12:16]), hdr[16:48]
    chk = intern('msg', (seg_bytes(hdr[:48]),))
    d.checksum = And(*[eq(hdr[48 + i], H(chk, i)) for i in range(16)])
    d.valid = valid_params(d.logN, d.r, d.p)
    d.dk = dkey(x, s, N_of(d.logN), d.r, d.p, d.salt)
    d.ke, d.km = spec_keys(d.dk)
    hm = intern('msg', (seg_bytes(hdr[:64]),))
    d.hmac = And(*[eq(hdr[64 + i], HM(d.km, hm, i)) for i in range(32)])
    body = intern('msg', (seg_bytes(hdr), seg_fn(inp(add(K, const(96, 64))), sub(total, const(128, 64)))))
    d.ids = [body]
    d.mac = And(*[eq(inp(add(sub(total, const(32, 64)), const(i, 64))), HM(d.km, body, i)) for i in range(32)])
    d.pt = lambda k: tm.bxor(inp(add(k, const(96, 64))), CTRS(d.ke, Z64, k))
    return d

def unify(ex, s, ids):
    """identify abstract byte strings of the path with those of the specification (each equality is proved)"""
    have = set()
    for p in s.pc:
        for t in tm.nodes([p]):
            if t.op == 'uf': have.update(v for v in t.a if v in ROPES)
    for h in sorted(have, key=lambda v: v.id):
        for w in ids:
            if h is not w and ROPES[h][0] == ROPES[w][0] and eq(h, w) not in s.pcset and ropes_equal(ex, s, w, h): s.assume(eq(w, h))

def unify_index(ex, s, total):
    """positions of the trailing HMAC bytes compared by the path, expressed from the end of the input (each equality is proved)"""
    for p in list(s.pc):
        for t in tm.nodes([p]):
            if t.op != 'eq': continue
            for a, b in (t.a, t.a[::-1]):
                if a.op == 'uf' and a.v == 'mem' and a.a[0] is var('INPUT', 64) and a.a[1].op != 'c' and b.op == 'uf' and isinstance(b.v, tuple) and b.v[0] == 'HM':
                    g = eq(a.a[1], add(sub(total, const(32, 64)), const(b.v[1], 64)))
                    if g is TRUE or g in s.pcset: continue
                    if not ex.prove(s, g)[0]: return
                    s.assume(g)

def summary(fn, drop, post=None):
    """contract for a function under proof: executed once from a generalised state (facts mentioning `drop` forgotten,
    callers' frames removed); every later call must match that state and gets the same outcomes"""
    memo = {}
    def con(ex, st, a):
        if ex.quiet: raise Unsupported('summary of %s inside a loop' % fn.name)
        key = tuple(a)
        if key not in memo:
            G = State()
            for p in st.pc:
                if not any(isinstance(v.v, str) and v.v.split('!')[0] in drop for v in tm.fvars(p)): G.assume(p)
            for o, cnt in st.mem.items():
                cnt.freeze(); G.mem[o] = cnt
            G.status = dict(st.status); G.ghost = dict(st.ghost); G.trace = list(st.trace)
            set_errno(ex, G)
            G0 = G.clone()
            outs = ex.run_function(G, fn, a)
            if post is not None:
                for o in outs: post(ex, o)
            memo[key] = (G0, outs)
        G, outs = memo[key]
        for p in G.pc:
            if p not in st.pcset and not ex.prove(st, p)[0]: raise Unsupported('call of %s in a state its summary does not cover' % fn.name)
        for o in G.mem:
            if o.kind == 'stack' or G.status.get(o) != 'live' or o.name == 'errno': continue
            if st.status.get(o) != 'live': raise Unsupported('call of %s in a state its summary does not cover' % fn.name)
            x, y = G.mem[o], st.mem[o]
            if x is y: continue
            if o.size.op != 'c' or x.read_bytes(Z64, o.size.v, ex.dec(G)) != y.read_bytes(Z64, o.size.v, ex.dec(st)): 
                raise Unsupported('call of %s in a state its summary does not cover' % fn.name)
        res = []
        for o in outs:
            s = st.clone()
            for b, cnt in o.mem.items():
                if cnt is not G.mem.get(b): cnt.freeze(); s.mem[b] = cnt
            for b, v in o.status.items():
                if G.status.get(b) != v: s.status[b] = v
            for p in o.pc: s.assume(p)
            s.trace += o.trace[len(G.trace):]
            for k, v in o.ghost.items():
                if G.ghost.get(k) is not v: s.ghost[k] = v
            res.append((s, o.ret))
        return res
    return con

def copy_summary(x, inp):
    def post(ex, s):
        d = dec_conditions(x, s, inp, x.total)
        unify(ex, s, d.ids)
        unify_index(ex, s, x.total)
    f = x.m.funcs['@scryptdec_file_copy']
    con = summary(f, ('force', 'verbose', 'maxtime', 'memlimit', 'opps', 'maxmem', 'maxmemfrac'), post)
    def c(ex, st, a):
        ex.contracts.pop('scryptdec_file_copy', None)
        try: return con(ex, st, a)
        finally: ex.contracts['scryptdec_file_copy'] = c
    return c

def dec_limits(x, s, d):
    """(exceeds memory, exceeds time) for this run's limits; forced runs have none"""
    if 'opps' not in s.ghost or 'limit' not in s.ghost: return FALSE, FALSE
    mm, fr, L = s.ghost['limit']
    return toobig(L, d.logN, d.r), tooslow(s.ghost['opps'], x.maxtime, d.logN, d.r, d.p)

def on_kdf_dec(c, x, inp):
    """no key derivation unless the parameters are valid and (unless forced) within the limits obtained from the caller's settings"""
    def h(ex, st, N, r, p):
        d = dec_conditions(x, st, inp, x.total)
        if ex.quiet: return
        ex.oblige(st.clone(), d.valid, 'C07,C10,C17: decryption derives a key only for valid parameters')
        ex.oblige(st.clone(), And(eq(N, N_of(d.logN)), eq(r, d.r), eq(p, d.p)), 'C06,C07,C10: decryption derives the key with the parameters of the header')
        unf = st.clone(); unf.assume(eq(x.force, C32(0)))
        if ex.feasible(unf, eq(x.force, C32(0))):
            if 'limit' not in unf.ghost or 'opps' not in unf.ghost:
                ex.fail(unf, 'C10: decryption checks memory and time limits before deriving a key unless forced'); return
            mm, fr, L = unf.ghost['limit']
            ex.oblige(unf, And(eq(mm, x.maxmem), eq(fr, x.frac)), 'C10: the memory limit is obtained from the caller\'s settings')
            big, slow = dec_limits(x, unf, d)
            ex.oblige(unf, And(Not(big), Not(slow)), 'C10: decryption derives a key only within the memory and time limits unless forced')
    return h

def expected(x, s, d, total, file, upto_header=False):
    """return code by the order of the documented checks (no operation failed)"""
    big, slow = dec_limits(x, s, d)
    lim = ite(And(big, slow), C32(EBIGSLOW), ite(big, C32(ETOOBIG), C32(ETOOSLOW)))
    over = And(eq(x.force, C32(0)), Or(big, slow))
    tail = C32(0) if upto_header else ite(d.mac, C32(0), C32(EINVAL))
    if file and not upto_header: tail = ite(ult(total, const(128, 64)), C32(EINVAL), tail)
    e = ite(Not(d.checksum), C32(EINVAL), ite(Not(d.valid), C32(EINVAL), ite(over, lim, ite(Not(d.hmac), C32(EPASS), tail))))
    e = ite(ult(total, const(96 if file else 128, 64)), C32(EINVAL), e)
    e = ite(Not(d.version), C32(EVERSION), e)
    return ite(Or(ult(total, const(7, 64)), Not(d.magic)), C32(EINVAL), e)

def dec_rc(c, x, s, d, fn, file, upto_header=False):
    """obligations on the return code; returns the state restricted to success, or None"""
    ex = x.ex
    rc = s.ret; f = fails(s)
    rderr = ne(fld(ex, s, x.inf, c_stdio.ERR, 1), const(0, 8)) if x.inf is not None else FALSE
    if f:
        codes = [k for e in f for k in code_for(e)]
        ex.oblige(s.clone(), ne(rc, C32(0)), 'C07,C09,C15: %s reports a failed operation (%s)' % (fn, ', '.join(e[1] for e in f)))
        ok = Or(*[eq(rc, C32(k)) for k in codes] + [And(rderr, eq(rc, C32(ERDFILE)))])
        if f[0][1] in ('crypto_aes_key_expand', 'aes', 'crypto_aesctr_init', 'malloc', 'crypto_scrypt', 'memtouse', 'cpuperf', 'fwrite', 'fflush'):
            ex.oblige(s.clone(), ok, 'C09,C15: %s returns the error code of what failed (%s)' % (fn, ', '.join(e[1] for e in f)))
        return None
    want = expected(x, s, d, x.total, file, upto_header)
    s1 = s.clone(); s1.assume(rderr)
    if x.inf is not None and ex.feasible(s1, rderr):
        ex.oblige(s1.clone(), ne(rc, C32(0)), 'C07,C09,C15: %s reports a read error' % fn)
        s1.assume(Not(eq(rc, C32(ERDFILE))))
        if ex.feasible(s1, TRUE): ex.oblige(s1, eq(rc, want), 'C09,C15: %s returns the read-error code on a read error' % fn)
    s = s.clone(); s.assume(Not(rderr))
    if not ex.feasible(s, Not(rderr)): return None
    s1 = s.clone(); s1.assume(eq(rc, C32(0)))
    if ex.feasible(s1, eq(rc, C32(0))):
        for nm, g in (('the magic matches', And(d.magic, d.version)), ('the input is long enough', ule(const(96 if upto_header else 128, 64), x.total)), ('the header checksum matches', d.checksum),
                      ('the parameters are valid', d.valid), ('the header HMAC matches', d.hmac)) + ((() if upto_header else (('the trailing HMAC matches', d.mac),))):
            ex.oblige(s1.clone(), g, 'C07: %s succeeds only if %s' % (fn, nm))
    ex.oblige(s.clone(), eq(rc, want), 'C06,C07,C10,C15: %s accepts exactly well-authenticated input within limits and returns the documented code otherwise' % fn)
    return s1 if ex.feasible(s1, eq(rc, C32(0))) else None

def outP(c, x, s, d, fn):
    logN, r, p = getP(x, s)
    x.ex.oblige(s.clone(), And(eq(logN, d.logN), eq(r, d.r), eq(p, d.p)), 'C15,C16: %s returns the parameters of the header' % fn)

@task('scryptenc.dec_buf', 'C06', 'C07', 'C10', 'C11', 'C17', 'C18', weight=2)
def t_dec_buf(c):
    """scryptdec_buf: accepts exactly authenticated input, returns the plaintext and its length, documented error codes, erasure, release"""
    x = prep(c); ex, st = x.ex, x.st
    n = x.total
    inb = ex.new_obj(st, 'inbuf', n, 'arg', content=Content(uf_base('INPUT')), ro=True)
    outb = ex.new_obj(st, 'outbuf', n, 'arg')
    ol = ex.new_obj(st, 'outlen', 8, 'arg', 8)
    inp = uf_base('INPUT')
    ex.on_kdf = [on_kdf_dec(c, x, inp)]
    outs = ex.run_function(st, x.m.funcs['@scryptdec_buf'], [inb.addr, n, outb.addr, ol.addr, x.pw.addr, x.plen, x.P.addr, x.verbose, x.force])
    c.covered(outs, 12)
    good = 0
    for s in outs:
        c.lemma('resource: scryptdec_buf releases everything it acquired', not live_heap(s), str(live_heap(s)), 'scryptdec_buf')
        d = dec_conditions(x, s, inp, n)
        s2 = dec_rc(c, x, s, d, 'scryptdec_buf', False)
        if s2 is None: continue
        good += 1
        ex.oblige(s2.clone(), eq(ex.load(s2, ol.addr, 8), sub(n, const(128, 64))), 'C06,C07: scryptdec_buf returns the plaintext length')
        k = fresh('k', 64); s3 = s2.clone(); s3.assume(ult(k, sub(n, const(128, 64))))
        if ex.feasible(s3, TRUE): ex.oblige(s3, eq(s3.mem[outb].read_bytes(k, 1, ex.dec(s3))[0], d.pt(k)), 'C06,C07: scryptdec_buf returns the AES-256-CTR decryption of the body')
        outP(c, x, s2, d, 'scryptdec_buf')
    c.lemma('vacuity guard: successful decryption reached', good > 0)

def dec_file_checks(c, x, s, d, fn, good):
    ex = x.ex
    s2 = dec_rc(c, x, s, d, fn, True)
    if s2 is None: return
    good.append(1)
    ex.oblige(s2.clone(), eq(fld(ex, s2, x.outf, c_stdio.DIRTY, 1), const(0, 8)), 'C09: %s ensures buffered output was flushed before success is reported' % fn)
    ex.oblige(s2.clone(), eq(fld(ex, s2, x.outf, c_stdio.WERR, 1), const(0, 8)), 'C09: %s ensures no write failed when success is reported' % fn)
    ex.oblige(s2.clone(), eq(fld(ex, s2, x.inf, c_stdio.POS), x.total), 'C07,C09: %s ensures the whole input was consumed' % fn)
    want = intern('out', (seg_fn(d.pt(K), sub(x.total, const(128, 64))),))
    have = fld(ex, s2, x.outf, c_stdio.OUT)
    c.lemma('C06,C07,C09: %s ensures the output is exactly the AES-256-CTR decryption of the body' % fn, ropes_equal(ex, s2, have, want), 'have %r\nwant %r' % (rshow(have), rshow(want)), fn)

def on_write_dec(c, x, inp):
    def h(ex, st, f, T):
        d = dec_conditions(x, st, inp, x.total)
        if ex.quiet or f is not x.outf: return
        ex.oblige(st.clone(), And(ule(const(96, 64), x.total), d.magic, d.version, d.checksum, d.valid, d.hmac), 'C08: no output is written before the header is completely read and verified under the passphrase')
    return h

@task('scryptenc.dec_file', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C17', 'C18', weight=3)
def t_dec_file(c):
    """scryptdec_file: same acceptance as the buffer interface for any read pattern, every I/O error reported, nothing written before the passphrase is verified"""
    x = prep(c, infile=True, outfile=True); ex, st = x.ex, x.st
    inp = uf_base('INPUT')
    use_loops(x, False)
    ex.on_kdf = [on_kdf_dec(c, x, inp)]; ex.on_write = [on_write_dec(c, x, inp)]
    ex.contracts['scryptdec_file_copy'] = copy_summary(x, inp)
    outs = ex.run_function(st, x.m.funcs['@scryptdec_file'], [x.inf.addr, x.outf.addr, x.pw.addr, x.plen, x.P.addr, x.verbose, x.force])
    c.covered(outs, 16)
    good = []
    for s in outs:
        c.lemma('resource: scryptdec_file releases everything it acquired', not live_heap(s), str(live_heap(s)), 'scryptdec_file')
        c.lemma('resource: scryptdec_file leaves the streams open', s.status[x.inf] == 'live' and s.status[x.outf] == 'live')
        d = dec_conditions(x, s, inp, x.total)
        dec_file_checks(c, x, s, d, 'scryptdec_file', good)
        if good and s.ret is C32(0): outP(c, x, s, d, 'scryptdec_file')
    c.lemma('vacuity guard: successful decryption reached', len(good) > 0)

@task('scryptenc.dec_steps', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C17', 'C18', weight=3)
def t_dec_steps(c):
    """scryptdec_file_prep, then scryptdec_file_copy and scryptdec_file_cookie_free, as the command line tool calls them"""
    x = prep(c, infile=True, outfile=True); ex, st = x.ex, x.st
    inp = uf_base('INPUT')
    use_loops(x, False)
    ex.on_kdf = [on_kdf_dec(c, x, inp)]; ex.on_write = [on_write_dec(c, x, inp)]
    ck = ex.new_obj(st, 'cookie', 8, 'arg', 8)
    outs = ex.run_function(st, x.m.funcs['@scryptdec_file_prep'], [x.inf.addr, x.pw.addr, x.plen, x.P.addr, x.verbose, x.force, ck.addr])
    c.covered(outs, 10)
    good = []
    copy = copy_summary(x, inp)
    for s in outs:
        d = dec_conditions(x, s, inp, x.total)
        s2 = dec_rc(c, x, s, d, 'scryptdec_file_prep', True, True)
        if s2 is None:
            c.lemma('resource: scryptdec_file_prep failure leaves nothing allocated', not live_heap(s), str(live_heap(s)), 'scryptdec_file_prep')
            continue
        ckp = ex.load(s2, ck.addr, 8)
        r = ex.resolve(s2, ckp)
        c.lemma('resource: scryptdec_file_prep hands over exactly the cookie', r is not None and r[1] is Z64 and live_heap(s2) == [r[0]], str(live_heap(s2)), 'scryptdec_file_prep')
        if r is None: continue
        outP(c, x, s2, d, 'scryptdec_file_prep')
        s2.ret = None; s2.done = None
        for s3, rv in copy(ex, s2.clone(), [ckp, x.outf.addr]):
            s3.ret = rv
            c.lemma('resource: scryptdec_file_copy releases everything it acquired', live_heap(s3) == [r[0]], str(live_heap(s3)), 'scryptdec_file_copy')
            d3 = dec_conditions(x, s3, inp, x.total)
            dec_file_checks(c, x, s3, d3, 'scryptdec_file_copy', good)
            s4 = s3.clone(); s4.ret = None; s4.done = None
            if good and s3.ret is C32(0):
                for s5 in ex.run_function(s4, x.m.funcs['@scryptdec_file_cookie_free'], [ckp]):
                    c.lemma('resource: scryptdec_file_cookie_free releases the cookie', not live_heap(s5), str(live_heap(s5)), 'scryptdec_file_cookie_free')
    c.lemma('vacuity guard: successful decryption reached', len(good) > 0)
    s = State()
    ex.run_function(s, x.m.funcs['@scryptdec_file_cookie_free'], [Z64])

# ------------------------------------------------------------------ parameter selection
def within_limits(L, opps, maxtime, logN, r, p):
    """128*N*r <= memory limit and 4*N*r*p <= max(32768, opps*maxtime)"""
    need = fmul(fmul(fmul(dbl(4), u2f(N_of(logN))), u2f(r)), u2f(p))
    ops = fmul(opps, maxtime)
    return And(Not(toobig(L, logN, r)), Or(Not(fless(ops, need)), Not(fless(dbl(32768), need))))

@task('scryptenc.pickparams', 'C05', 'C06', 'C10', 'C16', 'C17', weight=2)
def t_pickparams(c):
    """pickparams: parameters it returns are valid, 128*N*r fits the memory limit and 4*N*r*p the CPU limit; shown as chosen"""
    x = prep(c, explicit=True); ex, st, m = x.ex, x.st, x.m
    f = m.funcs.get('@pickparams')
    if f is None or len(f.params) != 7:
        c.note('pickparams has no separate body of the expected shape: verified in place within scryptenc.enc_*.auto'); c.lemma('no separate pickparams: executed in place by its callers', True); return
    ex.prove_hooks = tuple(ex.prove_hooks) + (real_hook,)
    outs = []
    o = [ex.new_obj(st, nm, 4, 'arg', 4) for nm in ('logN', 'r', 'p')]
    outs = ex.run_function(st, f, [x.maxmem, x.frac, x.maxtime] + [q.addr for q in o] + [x.verbose])
    c.lemma('vacuity guard: parameter choices reached', len(outs) >= 60, str(len(outs)))
    for s in outs:
        ff = fails(s)
        if ff:
            ex.oblige(s, Or(*[eq(s.ret, C32(k)) for e in ff for k in code_for(e)]), 'C10,C15: pickparams returns the error code of what failed (%s)' % ff[0][1]); continue
        ex.oblige(s.clone(), eq(s.ret, C32(0)), 'C10,C15: pickparams succeeds when limits and CPU speed are known')
        logN, r, p = [ex.load(s, q.addr, 4) for q in o]
        mm, fr, L = s.ghost['limit']
        ex.oblige(s.clone(), And(eq(mm, x.maxmem), eq(fr, x.frac)), 'C10: the memory limit is obtained from the caller\'s settings')
        ex.oblige(s.clone(), valid_params(logN, r, p), 'C05,C06,C10,C15: pickparams ensures valid parameters')
        for g in split(within_limits(L, s.ghost['opps'], x.maxtime, logN, r, p)):
            ex.oblige(s.clone(), g, 'C10: pickparams ensures 128Nr within the memory limit and 4Nrp within the CPU limit')
        for e in s.trace:
            if e[0] == 'display': ex.oblige(s.clone(), And(eq(e[1], logN), eq(e[2], r), eq(e[3], p)), 'C16: the parameters displayed are those chosen')
def split(g): return list(g.a) if g.op == '&' and g.w == 1 else [g]

# ------------------------------------------------------------------ round trip
@task('scryptenc.roundtrip', 'C06')
def t_roundtrip(c):
    """lemma over the encryption and decryption contracts: what encryption ensures as its output satisfies every acceptance
    condition of decryption under the same passphrase, and the plaintext decryption then ensures is the encryptor's"""
    x = prep(c, explicit=True); ex, s = x.ex, x.st
    n = var('inbuflen', 64); s.assume(ult(n, const(1 << 60, 64)))
    logN, r, p = x.logN, x.r, x.p
    s.assume(valid_params(logN, r, p))
    h = fresh('SALT', 64)
    salt = [tm.uf('mem', 8, h, const(i, 64)) for i in range(32)]
    h64 = spec_header(x, s, logN, r, p, salt)
    ke, km = spec_keys(dkey(x, s, N_of(logN), r, p, salt))
    hdr = h64 + [HM(km, intern('msg', (seg_bytes(h64),)), i) for i in range(32)]
    plain = lambda k: tm.uf('mem', 8, var('INPUT', 64), k)
    ct = lambda k: tm.bxor(plain(k), CTRS(ke, Z64, k))
    mid = intern('msg', (seg_bytes(hdr), seg_fn(ct(K), n)))
    mac = [HM(km, mid, i) for i in range(32)]
    end = add(n, const(96, 64)); total = add(n, const(128, 64))
    def inp(i):
        if i.op == 'c' and i.v < 96: return hdr[i.v]
        d = sub(i, end)
        if d.op == 'c' and d.v < 32: return mac[d.v]
        t = const(0, 8)
        for j in range(32): t = ite(eq(d, const(j, 64)), mac[j], t)
        t = ite(ult(i, end), ct(sub(i, const(96, 64))), t)
        for j in range(96): t = ite(eq(i, const(j, 64)), hdr[j], t) if i.op == 'c' else t
        return t
    d = dec_conditions(x, s, inp, total)
    want = intern('msg', (seg_bytes(hdr), seg_fn(ct(K), n)))
    for i in d.ids:
        ok = ropes_equal(ex, s, i, want)
        c.lemma('C06: the authenticated text of the decryptor is that of the encryptor', ok)
        if ok and i is not want: s.assume(eq(i, want))
    for nm, g in (('length', And(ule(const(128, 64), total))), ('magic', d.magic), ('version', d.version), ('parameters equal', And(eq(d.logN, logN), eq(d.r, r), eq(d.p, p))), ('parameters valid', d.valid)):
        ex.oblige(s.clone(), g, 'C06: encryption output satisfies the decryption condition: %s' % nm)
    for a, b in ((d.logN, logN), (d.r, r), (d.p, p)):
        if a is not b: s.assume(eq(a, b))
    for nm, g in (('checksum', d.checksum), ('header HMAC', d.hmac), ('trailing HMAC', d.mac)):
        ex.oblige(s.clone(), g, 'C06: encryption output satisfies the decryption condition: %s' % nm)
    k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, n))
    ex.oblige(s2, eq(d.pt(k), plain(k)), 'C06: the plaintext returned by decryption is the plaintext encrypted')
    ex.oblige(s.clone(), eq(sub(total, const(128, 64)), n), 'C06: the plaintext length returned by decryption is that of the plaintext encrypted')
