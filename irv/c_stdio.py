"""Models of stdio streams (assumed contracts of the C library) used by the file interfaces and input readers.
A FILE is an object whose cells are: input position, input error and end-of-file flags, output text, write-error and unflushed flags."""
from .tasks import *
from .views import *
from . import env
from .env import set_errno

SIZE = 64
POS, ERR, EOF, OUT, WERR, DIRTY, NR = 0, 8, 9, 16, 24, 25, 32

def new_file(ex, st, name, total=None, byte=None, out=False):
    o = ex.new_obj(st, name, SIZE, 'file', 16)
    ex.store(st, o.addr, Z64)
    ex.store(st, add(o.addr, const(ERR, 64)), const(0, 8)); ex.store(st, add(o.addr, const(EOF, 64)), const(0, 8))
    ex.store(st, add(o.addr, const(OUT, 64)), intern('out', ()))
    ex.store(st, add(o.addr, const(WERR, 64)), const(0, 8)); ex.store(st, add(o.addr, const(DIRTY, 64)), const(0, 8))
    o.data['total'] = total; o.data['byte'] = byte or uf_base('INPUT')
    return o
def fld(ex, st, o, f, n=8): return le(st.mem[o].read_bytes(const(f, 64), n, ex.dec(st)))
def setf(ex, st, o, f, v): ex.store(st, add(o.addr, const(f, 64)), v)
def file_of(ex, st, p, what):
    r = ex.resolve(st, p)
    if r is None or r[0].kind != 'file' or r[1] is not Z64 or st.status.get(r[0]) != 'live':
        ex.fail(st, 'memory-safety: %s on an open stream' % what, tm.show(p)); raise Abort('stream')
    return r[0]
def count(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.v * b.v, 64)
    if a.op == 'c' and a.v == 1: return b
    if b.op == 'c' and b.v == 1: return a
    return tm.mul(a, b)
def items(T, got, size, nmemb):
    """number of complete items transferred"""
    if size.op == 'c' and size.v == 1: return got
    if nmemb.op == 'c' and nmemb.v == 1: return ite(eq(got, T), const(1, 64), Z64)
    return tm.udiv(got, size)

def m_fread(ex, st, a):
    p, size, nmemb, fp = a
    f = file_of(ex, st, fp, 'fread')
    T = count(size, nmemb)
    if T.op == 'c' and T.v == 0: return Z64
    if ex.access(st, p, T, 'write') is None: return Z64
    pos, total = fld(ex, st, f, POS), f.data['total']
    err, eof = fld(ex, st, f, ERR, 1), fld(ex, st, f, EOF, 1)
    outs = []
    full = st.clone() if T.op == 'c' and T.v <= 512 else None
    by = f.data['byte']
    def rd(k, dec=None): return by(add(pos, k), dec)
    if full is not None:
        full.assume(ule(T, sub(total, pos))); full.assume(ule(pos, total))
        if ex.feasible(full, ule(T, sub(total, pos))):
            ex.store_bytes(full, p, [rd(const(i, 64), None) for i in range(T.v)])
            setf(ex, full, f, POS, add(pos, T))
            outs.append((full, items(T, T, size, nmemb)))
    got = fresh('got', 64)
    st.assume(ule(got, T)); st.assume(ule(got, sub(total, pos)))
    if full is not None: st.assume(ult(got, T))
    e, z = fresh('rderr', 1), fresh('ateof', 1)
    st.assume(eq(Or(e, z), ult(got, T)))
    st.assume(tm.Implies(z, eq(add(pos, got), total)))
    if full is not None and T.v <= 512:
        ex.write_region(st, p, T, lambda k, dec=None: ite(ult(k, got), rd(k, dec), tm.uf('rdpart', 8, got, k)), bulk=True)
    else: ex.write_region(st, p, got, rd, bulk=True)
    setf(ex, st, f, POS, add(pos, got))
    setf(ex, st, f, ERR, tm.bor(err, tm.zext(e, 8))); setf(ex, st, f, EOF, tm.bor(eof, tm.zext(z, 8)))
    set_errno(ex, st)
    outs.append((st, items(T, got, size, nmemb)))
    return outs

def m_fwrite(ex, st, a):
    p, size, nmemb, fp = a
    f = file_of(ex, st, fp, 'fwrite')
    T = count(size, nmemb)
    for h in getattr(ex, 'on_write', ()): h(ex, st, f, T)
    if T.op == 'c' and T.v == 0: return Z64
    if ex.access(st, p, T, 'read') is None: return Z64
    s2 = st.clone()
    ex.access(s2, p, T, 'read')
    n2 = fresh('wrote', 64); s2.assume(ult(n2, nmemb)); set_errno(ex, s2)
    setf(ex, s2, f, WERR, const(1, 8)); s2.event('fail', 'fwrite')
    rid = fld(ex, st, f, OUT)
    k, segs = ROPES[rid]
    setf(ex, st, f, OUT, intern('out', segs + (region_seg(ex, st, p, T),)))
    setf(ex, st, f, DIRTY, const(1, 8))
    out = [(st, nmemb if not (size.op == 'c' and size.v == 0) else Z64)]
    if ex.feasible(s2, ult(n2, nmemb)): out.append((s2, n2))
    return out

def flush(ex, st, f, name):
    s2 = st.clone(); set_errno(ex, s2); s2.event('fail', name)
    setf(ex, s2, f, WERR, const(1, 8))
    setf(ex, st, f, DIRTY, const(0, 8))
    return [(st, const(0, 32)), (s2, const(-1, 32))]
def m_fflush(ex, st, a):
    return flush(ex, st, file_of(ex, st, a[0], 'fflush'), 'fflush')
def m_fclose(ex, st, a):
    f = file_of(ex, st, a[0], 'fclose')
    outs = flush(ex, st, f, 'fclose')
    for s, v in outs: s.status[f] = 'dead'; s.event('fclose', f)
    return outs
def m_ferror(ex, st, a):
    f = file_of(ex, st, a[0], 'ferror')
    return tm.zext(tm.bor(fld(ex, st, f, ERR, 1), fld(ex, st, f, WERR, 1)), 32)
def m_feof(ex, st, a):
    return tm.zext(fld(ex, st, file_of(ex, st, a[0], 'feof'), EOF, 1), 32)
STDIO = {'fread': m_fread, 'fwrite': m_fwrite, 'fflush': m_fflush, 'fclose': m_fclose, 'ferror': m_ferror, 'feof': m_feof}
