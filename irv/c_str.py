"""C strings and line-oriented input: assumed contracts of the C library (strlen, strcspn, strcmp, strdup, fgets, fgetc, getenv ...).
Scan results are fresh indices; 'no earlier character matches' is a quantified fact, instantiated on demand (sat())."""
from .tasks import *
from .views import *
from . import env
from .env import set_errno, cstring
from .c_stdio import new_file, fld, setf, file_of, POS, ERR, EOF as EOFF

K64 = lambda v: const(v, 64)
C32 = lambda v: const(v, 32)
Z8 = const(0, 8)

def qf(ex, c, f): ex.__dict__.setdefault('qfacts', {}).setdefault(c, []).append(f)
def sat(ex, st, idxs):
    """instantiate the quantified facts about every scan result occurring on this path at the given indices"""
    live = set()
    for p in st.pc: live |= tm.fvars(p)
    for c, fs in list(ex.__dict__.get('qfacts', {}).items()):
        if c not in live: continue
        for f in fs:
            for i in idxs: st.assume(f(i))
def inside_strings(ex, st, header, blocks):
    """loop specification for open-coded scans: indices and pointers stay at or before the end of the strings they run over"""
    from .loops import Inv
    ends = [(e[1], e[2]) for e in st.trace if e[0] == 'nul'] + [(o, o.data['nul']) for o in st.mem if o.data.get('nul') is not None]
    if not ends: return None
    def soft(i, vals, s):
        q = [v for r, v in sorted(vals.items()) if v.w == 64]
        return [f for v in q for o, e in ends for f in (ule(sub(v, o.addr), e), ule(v, e))]
    return Inv(None, 'indices stay inside the string', soft=soft, auto=True)
def snap(st, o, off):
    s0 = st.clone()
    def rd(i, st2=None):
        return s0.mem[o].read_bytes(add(off, i), 1, Dec_(s0))[0]
    return rd
class Dec_:
    """never decides by solver: the bytes of a snapshot are read as if-then-else terms"""
    def __init__(self, st): self.st = st
    def __call__(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.st.pcset: return True
        if Not(c) in self.st.pcset: return False
        return None
    def value(self, t): return t.v if t.op == 'c' else None

def hint_nul(st, o, off): st.trace.append(('nul', o, off))
def string_at(ex, st, p, what, need=True):
    """(object, offset, end): the C string at p ends no later than index end of the object"""
    r = ex.resolve(st, p)
    if r is None or st.status.get(r[0]) != 'live':
        ex.fail(st, 'memory-safety: %s argument is a valid string' % what, tm.show(p)); raise Abort('string')
    o, off = r
    ends = [e[2] for e in st.trace if e[0] == 'nul' and e[1] is o]
    if o.data.get('nul') is not None: ends.append(o.data['nul'])
    for e in reversed(ends):
        g = And(ule(off, e), ult(e, o.size), eq(st.mem[o].read_bytes(e, 1, ex.dec(st))[0], Z8))
        if g is not FALSE and ex.prove(st, g)[0]: return o, off, e
    if o.size.op == 'c' and off.op == 'c' and o.size.v <= 4200:
        bs = st.mem[o].read_bytes(off, o.size.v - off.v, ex.dec(st))
        for i, b in enumerate(bs):
            if b is Z8: return o, off, add(off, K64(i))
    if not need: return None
    ex.fail(st, 'memory-safety: %s argument is terminated within its object' % what, '%s+%s' % (o.name, tm.show(off))); raise Abort('string')

def scan(ex, st, p, chars, what):
    """least index c with s[c] in chars or s[c] == 0"""
    o, off, end = string_at(ex, st, p, what)
    rd = snap(st, o, off)
    k = 0
    while k < 400:       # constant prefix
        b = rd(K64(k))
        if b.op != 'c': break
        if b.v == 0 or b.v in chars: return K64(k), o, off, rd
        k += 1
    key = (o, off, id(st.mem[o]), tuple(sorted(chars)))
    c = fresh('scan', 64)
    inset = lambda b: Or(eq(b, Z8), *[eq(b, const(x, 8)) for x in chars])
    st.assume(ule(c, sub(end, off)))
    st.assume(ule(K64(k), c))
    st.assume(inset(rd(c)))
    qf(ex, c, lambda i: tm.Implies(ult(i, c), Not(inset(rd(i)))))
    hint_nul(st, o, add(off, c)) if not chars else None
    return c, o, off, rd
def x_strlen(ex, st, a): return scan(ex, st, a[0], (), 'strlen')[0]
def x_strcspn(ex, st, a):
    t = cstring(ex, st, a[1])
    if t is None: raise Unsupported('strcspn with a variable set')
    return scan(ex, st, a[0], tuple(t), 'strcspn')[0]
def x_strpbrk(ex, st, a):
    t = cstring(ex, st, a[1])
    if t is None: raise Unsupported('strpbrk with a variable set')
    return first(ex, st, a[0], tuple(t), 'strpbrk')
def x_strchr(ex, st, a):
    if a[1].op != 'c' or a[1].v & 255 == 0: raise Unsupported('strchr of a variable character')
    return first(ex, st, a[0], (a[1].v & 255,), 'strchr')
def first(ex, st, p, chars, what):
    c, o, off, rd = scan(ex, st, p, chars, what)
    b = rd(c)
    no = eq(b, Z8)
    if no is TRUE: return Z64
    if no is FALSE: return add(p, c)
    s2 = st.clone(); s2.assume(no); st.assume(Not(no))
    return [(s, v) for s, v, g in ((st, add(p, c), Not(no)), (s2, Z64, no)) if ex.feasible(s, g)]
def x_strcmp(ex, st, a, n=None):
    ka, kb = cstring(ex, st, a[0]), cstring(ex, st, a[1])
    if ka is not None and kb is not None and n is None: return C32(0 if ka == kb else 1 if ka > kb else -1)
    r = fresh('strcmp', 32)
    z = eq(r, C32(0))
    if (kb is not None or ka is not None) and (n is None or isinstance(n, int)):
        p, t = (a[0], kb) if kb is not None else (a[1], ka)
        t = t + b'\0'
        if n is not None: t = t[:n]
        rr = ex.resolve(st, p)
        if rr is None: ex.fail(st, 'memory-safety: strcmp argument is a valid string'); raise Abort('string')
        string_at(ex, st, p, 'strcmp')
        rd = snap(st, *rr)
        st.assume(eq(z, And(*[eq(rd(K64(i)), const(t[i], 8)) for i in range(len(t))])))
        return r
    la, oa, fa, ra = scan(ex, st, a[0], (), 'strcmp')
    lb, ob, fb, rb = scan(ex, st, a[1], (), 'strcmp')
    nt = None if n is None else K64(n) if isinstance(n, int) else n
    st.assume(tm.Implies(z, eq(la, lb) if nt is None else Or(eq(la, lb), And(ule(nt, la), ule(nt, lb)))))
    inn = lambda i: TRUE if nt is None else ult(i, nt)
    qf(ex, la, lambda i: tm.Implies(And(z, ule(i, la), inn(i)), eq(ra(i), rb(i))))
    w = fresh('differ', 64)
    st.assume(Or(z, And(ule(w, la), ule(w, lb), inn(w), ne(ra(w), rb(w)))))
    return r
def x_strncmp(ex, st, a):
    return x_strcmp(ex, st, a[:2], a[2].v if a[2].op == 'c' else a[2])
def x_strdup(ex, st, a):
    l, o, off, rd = scan(ex, st, a[0], (), 'strdup')
    s2 = st.clone(); set_errno(ex, s2, C32(12)); s2.event('fail', 'strdup')
    d = ex.new_obj(st, 'strdup', add(l, K64(1)), 'heap', 16)
    ex.write_region(st, d.addr, add(l, K64(1)), lambda k, dec=None: rd(k), bulk=True)
    d.data['nul'] = l
    return [(st, d.addr), (s2, Z64)]
def x_strcpy(ex, st, a):
    l, o, off, rd = scan(ex, st, a[1], (), 'strcpy')
    if ex.access(st, a[0], add(l, K64(1)), 'write') is None: raise Abort('null')
    ex.write_region(st, a[0], add(l, K64(1)), lambda k, dec=None: rd(k), bulk=True)
    q = ex.resolve(st, a[0]); hint_nul(st, q[0], add(q[1], l))
    return a[0]
STR = {'strlen': x_strlen, 'strcspn': x_strcspn, 'strpbrk': x_strpbrk, 'strchr': x_strchr, 'strcmp': x_strcmp, 'strncmp': x_strncmp, 'strdup': x_strdup, 'strcpy': x_strcpy}

# ------------------------------------------------------------------ text input
def in_file(ex, st, name):
    """an input stream with arbitrary text (no NUL characters): byte k is TEXT(k), k < total"""
    t = fresh('total', 64); st.assume(ule(t, K64(1 << 60)))
    v = var('TEXT:' + name, 64)
    o = new_file(ex, st, name, total=t, byte=lambda k, dec=None: tm.uf('TEXT', 8, v, k))
    return o
def x_fgets(ex, st, a):
    p, n, fp = a
    f = file_of(ex, st, fp, 'fgets')
    if n.op != 'c' or n.v < 2: raise Unsupported('fgets of variable size')
    N = K64(n.v)
    if ex.access(st, p, N, 'write') is None: raise Abort('null')
    for h in getattr(ex, 'on_block', ()): h(ex, st, f)
    pos, total, by = fld(ex, st, f, POS), f.data['total'], f.data['byte']
    s1 = st.clone(); s1.event('fail', 'fgets'); setf(ex, s1, f, ERR, const(1, 8)); set_errno(ex, s1)
    u = fresh('part', 64)
    ex.write_region(s1, p, N, lambda k, dec=None: tm.uf('TEXT', 8, u, k), bulk=True)
    s1p = fresh('pos', 64); s1.assume(ule(pos, s1p)); s1.assume(ule(s1p, total)); setf(ex, s1, f, POS, s1p)
    s2 = st.clone(); s2.assume(eq(pos, total)); s2.event('ateof', f); setf(ex, s2, f, EOFF, const(1, 8))
    outs = [(s1, Z64)]
    if ex.feasible(s2, eq(pos, total)): outs.append((s2, Z64))
    L = fresh('len', 64); NL = const(10, 8)
    st.assume(ult(pos, total)); st.assume(ne(L, Z64)); st.assume(ult(L, N)); st.assume(ule(L, sub(total, pos)))
    last = by(add(pos, sub(L, K64(1))))
    st.assume(Or(eq(last, NL), eq(L, K64(n.v - 1)), eq(add(pos, L), total)))
    qf(ex, L, lambda i: tm.Implies(ult(add(i, K64(1)), L), ne(by(add(pos, i)), NL)))
    qf(ex, L, lambda i: tm.Implies(ult(i, L), ne(by(add(pos, i)), Z8)))
    ex.write_region(st, p, add(L, K64(1)), lambda k, dec=None: ite(eq(k, L), Z8, by(add(pos, k))), bulk=True)
    r = ex.resolve(st, p); hint_nul(st, r[0], add(r[1], L))
    eofhit = fresh('eof', 8); st.assume(Or(eq(eofhit, Z8), eq(add(pos, L), total)))
    setf(ex, st, f, POS, add(pos, L)); setf(ex, st, f, EOFF, eofhit)
    st.event('line', f, pos, L)
    if ex.feasible(st, ult(pos, total)): outs.append((st, p))
    return outs
def x_fgetc(ex, st, a):
    f = file_of(ex, st, a[0], 'fgetc')
    for h in getattr(ex, 'on_block', ()): h(ex, st, f)
    pos, total, by = fld(ex, st, f, POS), f.data['total'], f.data['byte']
    s1 = st.clone(); s1.event('fail', 'fgetc'); setf(ex, s1, f, ERR, const(1, 8)); set_errno(ex, s1)
    s2 = st.clone(); s2.assume(eq(pos, total)); setf(ex, s2, f, EOFF, const(1, 8))
    st.assume(ult(pos, total)); setf(ex, st, f, POS, add(pos, K64(1)))
    return [(s, v) for s, v, g in ((st, tm.zext(by(pos), 32), ult(pos, total)), (s2, C32(-1), eq(pos, total)), (s1, C32(-1), TRUE)) if ex.feasible(s, g)]
INPUT = {'fgets': x_fgets, 'fgetc': x_fgetc, 'getc': x_fgetc}
