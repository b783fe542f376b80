"""Models of external (libc / OS) functions: assumed contracts, listed in the evidence."""
from . import term as tm
from .term import const, var, fresh, add, sub, eq, ne, ult, ule, ite, And, Or, Not, TRUE, FALSE
from .mem import *
from .execu import Abort, Dec

EXT = {}
def ext_model(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d

@ext_model('__assert_fail')
def m_assert(ex, st, a):
    msg = ''
    try:
        o, off = ex.resolve(st, a[0])
        c = st.mem[o]
        bs = c.read_bytes(off, 120, ex.dec(st)) if False else [c.read_bytes(const(i, 64), 1, ex.dec(st))[0] for i in range(min(100, o.size.v))]
        msg = bytes(b.v for b in bs).split(b'\0')[0].decode()
    except Exception: pass
    ex.oblige(st, FALSE, 'assertion holds: ' + msg)
    raise Abort('assert')

@ext_model('abort')
def m_abort(ex, st, a):
    ex.oblige(st, FALSE, 'abort() is not reached')
    raise Abort('abort')

@ext_model('exit', '_exit')
def m_exit(ex, st, a):
    st.done = 'exit'; st.ret = a[0]
    st.event('exit', a[0])
    return [(st, None)]

def errno_obj(ex, st):
    o = st.ghost.get('errno')
    if o is None:
        o = ex.new_obj(st, 'errno', 4, 'global')
        st.ghost['errno'] = o
    return o

@ext_model('__errno_location')
def m_errno(ex, st, a):
    return errno_obj(ex, st).addr

def set_errno(ex, st, v=None):
    o = errno_obj(ex, st)
    ex._mut(st, o).write_bytes(const(0, 64), le_bytes(v if v is not None else fresh('errno', 32)))
    if st.wlog is not None: st.wlog.append((o, const(0, 64), 4, None))

# ---- heap
def alloc(ex, st, size, name, align=16):
    o = ex.new_obj(st, name, size, 'heap', align)
    return o

def _malloc(ex, st, size, tag='malloc', zero=False, align=16):
    s_fail = st.clone()
    set_errno(ex, s_fail, const(12, 32))
    o = alloc(ex, st, size, tag, align)
    if zero: st.mem[o] = Content(zero_base)
    # a successful allocation has a representable size
    st.assume(ule(size, const((1 << 63) - 1, 64)))
    s_fail.event('fail', tag)
    return [(st, o.addr), (s_fail, const(0, 64))]

@ext_model('malloc')
def m_malloc(ex, st, a): return _malloc(ex, st, a[0])
@ext_model('calloc')
def m_calloc(ex, st, a): return _malloc(ex, st, tm.mul(a[0], a[1]), 'calloc', True)
@ext_model('posix_memalign')
def m_pma(ex, st, a):
    s_fail = st.clone()
    o = alloc(ex, st, a[2], 'memalign', a[1].v if a[1].op == 'c' else 16)
    st.assume(ule(a[2], const((1 << 63) - 1, 64)))
    ex.store(st, a[0], o.addr)
    s_fail.event('fail', 'posix_memalign')
    return [(st, const(0, 32)), (s_fail, const(12, 32))]
@ext_model('mmap')
def m_mmap(ex, st, a):
    s_fail = st.clone()
    set_errno(ex, s_fail, const(12, 32))
    o = alloc(ex, st, a[1], 'mmap', 4096)
    o.data['mmap'] = True; st.assume(ne(o.addr, const(-1, 64)))
    st.mem[o] = Content(zero_base)
    st.assume(ule(a[1], const((1 << 63) - 1, 64)))
    s_fail.event('fail', 'mmap')
    return [(st, o.addr), (s_fail, const(-1, 64))]
@ext_model('munmap')
def m_munmap(ex, st, a):
    r = ex.resolve(st, a[0])
    if r is None or not r[0].data.get('mmap') or r[1] is not Z64:
        ex.fail(st, 'munmap of a mapped region'); raise Abort('munmap')
    o = r[0]
    if st.status[o] != 'live': ex.fail(st, 'munmap of a live region (double release)'); raise Abort('munmap')
    ex.oblige(st, eq(a[1], o.size), 'munmap length equals mapped length')
    s2 = st.clone()
    for h in ex.on_free: h(ex, st, o)
    st.status[o] = 'dead'
    # failure leaves the mapping
    st2 = s2
    set_errno(ex, st2); st2.event('fail', 'munmap'); st2.status[o] = 'dead'
    return [(st, const(0, 32)), (st2, const(-1, 32))]
@ext_model('free')
def m_free(ex, st, a):
    p = a[0]
    if p.op == 'c' and p.v == 0: return None
    r = ex.resolve(st, p)
    if r is None or r[0].kind != 'heap' or r[1] is not Z64 or r[0].data.get('mmap'):
        ex.fail(st, 'free of an allocated pointer', tm.show(p)); raise Abort('free')
    o = r[0]
    if st.status[o] != 'live':
        ex.fail(st, 'no double free'); raise Abort('double free')
    for h in ex.on_free: h(ex, st, o)
    st.status[o] = 'dead'
    return None

@ext_model('memcmp', 'bcmp')
def m_memcmp(ex, st, a):
    n = a[2]
    if n.op != 'c': raise Unsupported('memcmp symbolic')
    x = ex.load_bytes(st, a[0], n.v); y = ex.load_bytes(st, a[1], n.v)
    e = And(*[eq(p, q) for p, q in zip(x, y)]) if n.v else TRUE
    r = fresh('memcmp', 32)
    st.assume(eq(eq(r, const(0, 32)), e))
    if e is TRUE: return const(0, 32)
    return r
@ext_model('memcpy', 'memmove')
def m_memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2]); return a[0]
@ext_model('memset')
def m_memset(ex, st, a):
    v = tm.trunc(a[1], 8)
    ex.write_region(st, a[0], a[2], lambda k, dec=None: v); return a[0]

# warnings: no effect on program state (errno may change)
@ext_model('libcperciva_warn', 'libcperciva_warnx')
def m_warn(ex, st, a):
    st.event('warn')
    set_errno(ex, st)
    return None

def c_insecure_memzero(ex, st, a):
    z = const(0, 8)
    ex.write_region(st, a[0], a[1], lambda k, dec=None: z)
    return None

# ---- formatted text: an abstract string identified by its format and arguments
FMT = {}      # id var -> (format bytes, args)
_fmti = {}
def cstring(ex, st, p, maxlen=400):
    """constant C string at p, or None"""
    r = ex.resolve(st, p)
    if r is None: return None
    o, off = r
    if off.op != 'c' or o.size.op != 'c': return None
    out = []
    d = ex.dec(st)
    for i in range(off.v, min(o.size.v, off.v + maxlen)):
        b = st.mem[o].read_bytes(const(i, 64), 1, d)[0]
        if b.op != 'c': return None
        if b.v == 0: return bytes(out)
        out.append(b.v)
    return None
def fmt_id(fmt, args):
    key = (fmt, tuple(args))
    v = _fmti.get(key)
    if v is None:
        v = _fmti[key] = fresh('text', 64)
        FMT[v] = key
    return v
def fmt_specs(fmt):
    """list of literal bytes / (flags, conv) """
    import re
    out = []
    pos = 0
    for m in re.finditer(rb'%([-+ #0]*[0-9]*(?:\.[0-9]+)?(?:hh|h|ll|l|z|j)?)([diuxXcsp%fgeE])', fmt):
        if m.start() > pos: out.append(fmt[pos:m.start()])
        if m.group(2) == b'%': out.append(b'%')
        else: out.append((m.group(1).decode(), m.group(2).decode()))
        pos = m.end()
    if pos < len(fmt): out.append(fmt[pos:])
    return out
def fmt_check(ex, st, fmt, args, what):
    """the format's conversions match the arguments (count and width); %s arguments are readable strings"""
    n = 0
    for s in fmt_specs(fmt):
        if isinstance(s, bytes): continue
        if n >= len(args):
            ex.fail(st, 'memory-safety: %s has an argument for every conversion' % what); return
        fl, cv = s
        a = args[n]; n += 1
        if cv in 'diuxXc':
            w = 64 if ('l' in fl or 'z' in fl or 'j' in fl) else 32
            if a.w != w: ex.fail(st, 'memory-safety: %s conversion %%%s%s matches its argument type' % (what, fl, cv))
        elif cv == 's':
            r = ex.resolve(st, a)
            if r is None or st.status.get(r[0]) != 'live':
                for c, p in ex.ptr_cases(st, a):
                    if ex.resolve(st, p) is None and ex.feasible(st, c):
                        ex.fail(st, 'memory-safety: %s %%s argument is a valid string' % what); break
def text_len(tid): return tm.uf('textlen', 64, tid)
def va_of(ex, st, p):
    r = ex.resolve(st, p)
    if r is None: return None
    return st.ghost.get(('va', r[0]))
@ext_model('vsnprintf')
def m_vsnprintf(ex, st, a):
    fmt = cstring(ex, st, a[2]); args = va_of(ex, st, a[3])
    if fmt is None or args is None: raise Unsupported('vsnprintf with unknown format')
    fmt_check(ex, st, fmt, args, 'vsnprintf')
    return _snprintf(ex, st, a[0], a[1], fmt, args)
@ext_model('snprintf')
def m_snprintf(ex, st, a):
    fmt = cstring(ex, st, a[2])
    if fmt is None: raise Unsupported('snprintf with unknown format')
    fmt_check(ex, st, fmt, a[3:], 'snprintf')
    return _snprintf(ex, st, a[0], a[1], fmt, a[3:])
def _snprintf(ex, st, p, n, fmt, args):
    tid = fmt_id(fmt, args)
    L = text_len(tid)
    st.assume(ult(L, const((1 << 31) - 1, 64)))
    s_fail = st.clone()
    set_errno(ex, s_fail)
    s_fail.event('fail', 'vsnprintf')
    if not (n.op == 'c' and n.v == 0):
        one = const(1, 64)
        k = ite(ult(L, n), L, sub(n, one))
        ex.access(st, p, n, 'write') if n.op != 'c' or n.v else None
        ex.write_region(st, p, add(k, one), lambda i, dec=None: ite(eq(i, k), const(0, 8), tm.uf('fmt', 8, tid, i)))
        r = ex.resolve(st, p)
        st.ghost[('text', r[0])] = (tid, k)
    r = fresh('errn', 32); s_fail.assume(tm.slt(r, const(0, 32)))
    return [(st, tm.trunc(L, 32)), (s_fail, r)]
