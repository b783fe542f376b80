"""Hash-consed bit-vector terms with canonicalising constructors.

Width-1 terms double as booleans.  Floating point values are opaque 64-bit terms
built from uninterpreted applications ('fp.*'); fpreal.py interprets them.
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'w', 'a', 'v', 'id', '_z', '_lin', '_vars', '_ub', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}
_ctr = [0]

def mk(op, w, a=(), v=None):
    key = (op, w, a, v)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.v = op, w, a, v
        t._z = t._lin = t._vars = t._ub = None
        _ctr[0] += 1
        t.id = _ctr[0]
        _tab[key] = t
    return t

def _id(t): return t.id

def const(v, w):
    return mk('c', w, (), v & ((1 << w) - 1))

def var(name, w):
    return mk('v', w, (), name)

TRUE = const(1, 1)
FALSE = const(0, 1)
_fresh = [0]

def fresh(pfx, w):
    _fresh[0] += 1
    return var('%s!%d' % (pfx, _fresh[0]), w)

def is_c(t): return t.op == 'c'

# ---------------------------------------------------------------- linear forms
def lin(t):
    """(const, {atom: coeff}) with t = const + sum coeff*atom mod 2^w"""
    r = t._lin
    if r is not None:
        return r
    op = t.op
    if op == 'c':
        r = (t.v, {})
    elif op == '+':
        r = (t.v[0], dict(zip(t.a, t.v[1])))
    elif op == 'cat':
        lo = t.a[-1]
        if lo.op == 'c' and lo.v == 0:
            k = lo.w
            hi = t.a[:-1]
            hi0 = hi[0]
            if len(hi) == 1 and hi0.op == 'ext' and hi0.v[1] == 0 and hi0.a[0].w == t.w:
                c, m = lin(hi0.a[0])
            elif len(hi) == 1 and hi0.op == '+' :
                c, m = lin(zext(hi0, t.w))
            else:
                c, m = lin(cat(const(0, k), *hi))
            M = (1 << t.w) - 1
            r = ((c << k) & M, {x: (y << k) & M for x, y in m.items() if (y << k) & M})
        else:
            r = (0, {t: 1})
    else:
        r = (0, {t: 1})
    t._lin = r
    return r

def from_lin(c, m, w):
    M = (1 << w) - 1
    c &= M
    items = [(x, y & M) for x, y in m.items() if y & M]
    if not items:
        return const(c, w)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('+', w, tuple(x for x, _ in items), (c, tuple(y for _, y in items)))

def add(*ts):
    w = ts[0].w
    if w == 1:
        r = ts[0]
        for t in ts[1:]: r = bxor(r, t)
        return r
    c = 0
    m = {}
    for t in ts:
        tc, tm = lin(t)
        c += tc
        for x, y in tm.items():
            m[x] = m.get(x, 0) + y
    return from_lin(c, m, w)

def neg(t):
    c, m = lin(t)
    return from_lin(-c, {x: -y for x, y in m.items()}, t.w)

def sub(a, b):
    if a is b: return const(0, a.w)
    if a.w == 1: return bxor(a, b)
    return add(a, neg(b))

def mulc(t, k):
    c, m = lin(t)
    return from_lin(c * k, {x: y * k for x, y in m.items()}, t.w)

def _mono(x):
    return x.a if x.op == '*' else (x,)

def mul(a, b):
    w = a.w
    if a.op == 'c': return mulc(b, a.v)
    if b.op == 'c': return mulc(a, b.v)
    if w == 1: return band(a, b)
    ca, ma = lin(a)
    cb, mb = lin(b)
    if (len(ma) + 1) * (len(mb) + 1) > 64:
        m = tuple(sorted((a, b), key=_id))
        return mk('*', w, m)
    m = {}
    for x, y in ma.items():
        m[x] = m.get(x, 0) + y * cb
    for x, y in mb.items():
        m[x] = m.get(x, 0) + y * ca
    for x, y in ma.items():
        for x2, y2 in mb.items():
            mon = tuple(sorted(_mono(x) + _mono(x2), key=_id))
            t = mk('*', w, mon)
            m[t] = m.get(t, 0) + y * y2
    return from_lin(ca * cb, m, w)

# ---------------------------------------------------------------- concat/extract
def cat(*ts):
    out = []
    for t in ts:
        if t.op == 'cat':
            out.extend(t.a)
        else:
            out.append(t)
    res = []
    for t in out:
        if res:
            p = res[-1]
            if p.op == 'c' and t.op == 'c':
                res[-1] = const((p.v << t.w) | t.v, p.w + t.w)
                continue
            # adjacent extracts of one term
            if t.op == 'ext' or p.op == 'ext':
                pb, ph, pl = (p.a[0], p.v[0], p.v[1]) if p.op == 'ext' else (p, p.w - 1, 0)
                tb, th, tl = (t.a[0], t.v[0], t.v[1]) if t.op == 'ext' else (t, t.w - 1, 0)
                if pb is tb and pl == th + 1:
                    res[-1] = ext(pb, ph, tl)
                    continue
            # byte-wise if-then-else merging
            if p.op == 'ite' and t.op == 'ite' and p.a[0] is t.a[0]:
                res[-1] = ite(p.a[0], cat(p.a[1], t.a[1]), cat(p.a[2], t.a[2]))
                continue
            if p.op in _BIT and t.op == p.op and len(t.a) == len(p.a) and len(p.a) <= 4 and p.w + t.w <= 128:
                m = _merge_bitwise(p, t)
                if m is not None:
                    res[-1] = m
                    continue
        res.append(t)
    if len(res) == 1:
        return res[0]
    return mk('cat', sum(t.w for t in res), tuple(res))

_BIT = ('&', '|', '^')

def _merge_bitwise(p, t):
    """op(extracts of x,y hi) . op(extracts lo) -> op over merged operands if all merge"""
    used = []
    rest = list(t.a)
    out = []
    for x in p.a:
        hit = None
        for y in rest:
            if x.op == 'c' and y.op == 'c':
                hit = y; break
            xb, xh, xl = (x.a[0], x.v[0], x.v[1]) if x.op == 'ext' else (x, x.w - 1, 0)
            yb, yh, yl = (y.a[0], y.v[0], y.v[1]) if y.op == 'ext' else (y, y.w - 1, 0)
            if xb is yb and xl == yh + 1:
                hit = y; break
        if hit is None:
            return None
        rest.remove(hit)
        out.append(cat(x, hit))
    f = {'&': band, '|': bor, '^': bxor}[p.op]
    return f(*out)

ALIGNED = {}         # address variable -> number of known-zero low bits
def ext(t, hi, lo):
    w = hi - lo + 1
    if w == t.w: return t
    op = t.op
    if op == 'v' and ALIGNED and hi < ALIGNED.get(t, 0): return const(0, w)
    if op == '+' and ALIGNED and lo == 0:
        kp = {x: y for x, y in zip(t.a, t.v[1]) if not (hi < ALIGNED.get(x, 0) or y % (1 << (hi + 1)) == 0)}
        if len(kp) < len(t.a): return ext(from_lin(t.v[0], kp, t.w), hi, lo)
    if op == 'c':
        return const(t.v >> lo, w)
    if op == 'ext':
        return ext(t.a[0], hi + t.v[1], lo + t.v[1])
    if op == 'cat':
        pos = t.w
        parts = []
        for x in t.a:
            top = pos - 1
            bot = pos - x.w
            pos = bot
            if bot > hi: continue
            if top < lo: break
            parts.append(ext(x, min(hi, top) - bot, max(lo, bot) - bot))
        return cat(*parts)
    if op in _BIT:
        f = {'&': band, '|': bor, '^': bxor}[op]
        return f(*[ext(x, hi, lo) for x in t.a])
    if op == 'ite':
        return ite(t.a[0], ext(t.a[1], hi, lo), ext(t.a[2], hi, lo))
    if op == '+':
        # common power of two divisor
        z = t.w
        for y in t.v[1]:
            z = min(z, (y & -y).bit_length() - 1)
        if z > 0:
            c0 = t.v[0]
            if hi < z:
                return const((c0 >> lo), w)
            if lo >= z:
                # (2^z * s + c_lo) >> z  ==  s  mod 2^(w-z): no carry from c_lo
                W = t.w - z
                parts = [const(c0 >> z, W)]
                for x, y in zip(t.a, t.v[1]):
                    parts.append(mulc(ext(x, W - 1, 0), y >> z))
                return ext(add(*parts), hi - z, lo - z)
            return cat(ext(t, hi, z), const(c0 >> lo, z - lo))
        if lo == 0 and hi < t.w - 1 and w >= 8 and all(x.op == 'cat' and x.a[0].op == 'c' and x.a[0].v == 0 and x.w - x.a[0].w <= w for x in t.a):
            # truncation back of zero-extended operands
            return add(const(t.v[0], w), *[mulc(ext(x, hi, 0), y) for x, y in zip(t.a, t.v[1])])
    if op == 'sext':
        x = t.a[0]
        if hi < x.w: return ext(x, hi, lo)
        if lo < x.w: return sext(ext(x, x.w - 1, lo), w)
    return mk('ext', w, (t,), (hi, lo))

def zext(t, w):
    if w == t.w: return t
    return cat(const(0, w - t.w), t)

def trunc(t, w):
    return ext(t, w - 1, 0)

def sext(t, w):
    if w == t.w: return t
    if t.op == 'c':
        v = t.v
        if v >> (t.w - 1): v -= 1 << t.w
        return const(v, w)
    if t.op == 'cat' and t.a[0].op == 'c' and not (t.a[0].v >> (t.a[0].w - 1)):
        return zext(t, w)
    if t.op == 'sext':
        return sext(t.a[0], w)
    if t.op == 'ite' and (t.a[1].op == 'c' or t.a[2].op == 'c'):
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    return mk('sext', w, (t,))

# ---------------------------------------------------------------- bitwise
def _segments(ts):
    """cut positions (from low) induced by cat operands with constant pieces"""
    cuts = set()
    for t in ts:
        if t.op == 'cat':
            pos = 0
            for x in reversed(t.a):
                cuts.add(pos)
                pos += x.w
                cuts.add(pos)
    return cuts

def _has_const_piece(t):
    return t.op == 'cat' and any(x.op == 'c' for x in t.a)

def _bitnary(op, ts):
    w = ts[0].w
    M = (1 << w) - 1
    flat = []
    for t in ts:
        if t.op == op: flat.extend(t.a)
        else: flat.append(t)
    if op == '&':
        c = M
        s = set()
        for t in flat:
            if t.op == 'c': c &= t.v
            else: s.add(t)
        if c == 0: return const(0, w)
        unit = M
    elif op == '|':
        c = 0
        s = set()
        for t in flat:
            if t.op == 'c': c |= t.v
            else: s.add(t)
        if c == M: return const(M, w)
        unit = 0
    else:
        c = 0
        s = set()
        for t in flat:
            if t.op == 'c': c ^= t.v
            elif t in s: s.discard(t)
            else: s.add(t)
        unit = 0
    if not s: return const(c, w)
    items = sorted(s, key=_id)
    if c != unit:
        if w > 1 and (any(_has_const_piece(t) for t in items) or _runs(c, w) <= 3) and not (op == '^' and c == M):
            return _bitsplit(op, items + [const(c, w)], w)
        items.append(const(c, w))
    if len(items) == 1: return items[0]
    if w == 1 and op in '&|':
        # x & !x
        for t in items:
            n = bnot(t)
            if n in s:
                return FALSE if op == '&' else TRUE
        if op == '&' and len(items) <= 16:
            pass
    if w > 1 and any(_has_const_piece(t) for t in items):
        r = _bitsplit_clean(op, items, w)
        if r is not None: return r
    return mk(op, w, tuple(items))

def _runs(c, w):
    n = 0
    prev = None
    for i in range(w):
        b = (c >> i) & 1
        if b != prev:
            n += 1
            prev = b
    return n

def _bitsplit(op, items, w):
    cuts = _segments([t for t in items if _has_const_piece(t)])
    for t in items:
        if t.op == 'c':
            prev = None
            for i in range(w):
                b = (t.v >> i) & 1
                if b != prev:
                    cuts.add(i)
                    prev = b
    cuts |= {0, w}
    cs = sorted(cuts)
    if len(cs) > 2 and len(cs) <= 20:
        parts = []
        f = lambda xs: _bitnary(op, xs)
        for lo, hi in zip(cs, cs[1:]):
            parts.append(f([ext(t, hi - 1, lo) for t in items]))
        parts.reverse()
        return cat(*parts)
    return mk(op, w, tuple(sorted(items, key=_id)))

def _bitsplit_clean(op, items, w):
    cs = sorted(_segments([t for t in items if _has_const_piece(t)]) | {0, w})
    if len(cs) > 20: return None
    parts = []
    for lo, hi in zip(cs, cs[1:]):
        nz = []
        M = (1 << (hi - lo)) - 1
        dead = None
        for t in items:
            x = ext(t, hi - 1, lo)
            if x.op == 'c':
                if op == '&':
                    if x.v == 0: dead = x
                    elif x.v != M: nz.append(x)
                elif op == '|':
                    if x.v == M: dead = x
                    elif x.v: nz.append(x)
                elif x.v: nz.append(x)
            else:
                nz.append(x)
        if dead is not None: parts.append(dead)
        elif not nz: parts.append(const(M if op == '&' else 0, hi - lo))
        elif len(nz) == 1: parts.append(nz[0])
        else: return None
    parts.reverse()
    return cat(*parts)

def band(*ts): return _bitnary('&', ts)
def bor(*ts): return _bitnary('|', ts)
def bxor(*ts): return _bitnary('^', ts)

def bnot(t):
    if t.w == 1:
        op = t.op
        if op == 'c': return FALSE if t.v else TRUE
        if op == '^' and t.a[-1] is TRUE:
            r = t.a[:-1]
            return r[0] if len(r) == 1 else mk('^', 1, r)
        if op == '^' and TRUE in t.a:
            return bxor(*[x for x in t.a if x is not TRUE])
    return bxor(t, const(-1, t.w))

# boolean aliases
def And(*ts):
    if not ts: return TRUE
    return band(*ts)
def Or(*ts):
    if not ts: return FALSE
    return bor(*ts)
def Not(t): return bnot(t)
def Implies(a, b): return bor(bnot(a), b)

# ---------------------------------------------------------------- shifts
def shl(t, s):
    w = t.w
    if s.op == 'c':
        k = s.v
        if k >= w: return const(0, w)
        if k == 0: return t
        return cat(ext(t, w - 1 - k, 0), const(0, k))
    return mk('shl', w, (t, s))

def lshr(t, s):
    w = t.w
    if s.op == 'c':
        k = s.v
        if k >= w: return const(0, w)
        if k == 0: return t
        return cat(const(0, k), ext(t, w - 1, k))
    return mk('lshr', w, (t, s))

def ashr(t, s):
    w = t.w
    if s.op == 'c':
        k = min(s.v, w - 1)
        if k == 0: return t
        return sext(ext(t, w - 1, k), w)
    return mk('ashr', w, (t, s))

def rotl(t, k):
    k %= t.w
    if k == 0: return t
    return cat(ext(t, t.w - 1 - k, 0), ext(t, t.w - 1, t.w - k))

def rotr(t, k): return rotl(t, t.w - k)

# ---------------------------------------------------------------- division
def udiv(a, b):
    w = a.w
    if b.op == 'c' and b.v:
        if a.op == 'c': return const(a.v // b.v, w)
        if b.v == 1: return a
        if b.v & (b.v - 1) == 0:
            return lshr(a, const(b.v.bit_length() - 1, w))
        if ub(a) < b.v: return const(0, w)
        if a.op == 'udiv' and a.a[1].op == 'c' and a.a[1].v and a.a[1].v * b.v < (1 << w):
            return udiv(a.a[0], const(a.a[1].v * b.v, w))
    return mk('udiv', w, (a, b))

def urem(a, b):
    w = a.w
    if b.op == 'c' and b.v:
        if a.op == 'c': return const(a.v % b.v, w)
        if b.v == 1: return const(0, w)
        if b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            return zext(ext(a, k - 1, 0), w)
        if ub(a) < b.v: return a
    return mk('urem', w, (a, b))

def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def sdiv(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = tosigned(a.v, w), tosigned(b.v, w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, w)
    if b.op == 'c' and 0 < tosigned(b.v, w) and ub(a) < (1 << (w - 1)):
        return udiv(a, b)
    return mk('sdiv', w, (a, b))

def srem(a, b):
    w = a.w
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = tosigned(a.v, w), tosigned(b.v, w)
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, w)
    if b.op == 'c' and 0 < tosigned(b.v, w) and ub(a) < (1 << (w - 1)):
        return urem(a, b)
    return mk('srem', w, (a, b))

# ---------------------------------------------------------------- bounds
def ub(t):
    """cheap unsigned upper bound"""
    r = t._ub
    if r is not None: return r
    M = (1 << t.w) - 1
    op = t.op
    if op == 'c': r = t.v
    elif op == 'cat':
        r = 0
        for x in t.a: r = (r << x.w) | ub(x)
    elif op == 'ite': r = max(ub(t.a[1]), ub(t.a[2]))
    elif op == '&': r = min(ub(x) for x in t.a)
    elif op in '|^':
        r = (1 << max(ub(x).bit_length() for x in t.a)) - 1
    elif op == 'udiv': r = ub(t.a[0])
    elif op == 'urem':
        r = ub(t.a[0])
        if t.a[1].op == 'c' and t.a[1].v: r = min(r, t.a[1].v - 1)
    elif op == '+':
        s = t.v[0] + sum(y * ub(x) for x, y in zip(t.a, t.v[1]))
        r = s if s <= M else M
    elif op == '*':
        s = 1
        for x in t.a: s *= ub(x)
        r = s if s <= M else M
    elif op == 'lshr': r = ub(t.a[0])
    elif op == 'ext':
        r = min(M, ub(t.a[0]) >> t.v[1])
    else: r = M
    t._ub = r
    return r

# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.w == 1:
        return bnot(bxor(a, b))
    if a.op == 'c' and b.op == 'c': return FALSE
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if b.v > ub(a): return FALSE
        if a.op == 'cat':
            pos = a.w
            cs = []
            for x in a.a:
                pos -= x.w
                cs.append(eq(x, const(b.v >> pos, x.w)))
            return band(*cs)
        if a.op == 'ite':
            if a.a[1].op == 'c' or a.a[2].op == 'c':
                return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op == '^' and a.a[-1].op == 'c':
            return eq(bxor(a, a.a[-1]), bxor(b, a.a[-1]))
        if a.op == 'sext' and True:
            x = a.a[0]
            s = tosigned(b.v, b.w)
            if -(1 << (x.w - 1)) <= s < (1 << (x.w - 1)):
                return eq(x, const(s, x.w))
            return FALSE
    if a.op == '^' and b.op == '^':
        com = [x for x in a.a if any(x is y for y in b.a)]
        if com:
            return eq(bxor(a, *com), bxor(b, *com))
    ca, ma = lin(a)
    cb, mb = lin(b)
    if ma or mb:
        # canonical difference
        m = dict(ma)
        for x, y in mb.items():
            m[x] = m.get(x, 0) - y
        M = (1 << a.w) - 1
        m = {x: y & M for x, y in m.items() if y & M}
        c = (cb - ca) & M
        if not m:
            return TRUE if c == 0 else FALSE
        # divisibility
        z = min((y & -y).bit_length() - 1 for y in m.values())
        if z and c & ((1 << z) - 1): return FALSE
        if len(m) == 1:
            (x, y), = m.items()
            if y == 1:
                if x.op in ('cat', 'ite', 'sext') and x is not a:
                    return eq(x, const(c, a.w))
                return mk('eq', 1, (x, const(c, a.w)))
            if y == M:
                return eq(x, const(-c, a.w))
        elif len(ma) + len(mb) > 2 or ca or cb:
            # normalise sign: make lowest-id atom's coeff <= M/2
            its = sorted(m.items(), key=lambda p: p[0].id)
            if its[0][1] > M >> 1:
                its = [(x, -y & M) for x, y in its]
                c = -c & M
            pos = {x: y for x, y in its if y <= M >> 1}
            ngt = {x: -y & M for x, y in its if y > M >> 1}
            l = from_lin(0, pos, a.w)
            r = from_lin(c, ngt, a.w)
            if l is r: return TRUE
            if l.op == 'c' and r.op == 'c': return TRUE if l.v == r.v else FALSE
            if r.op != 'c' and l.id > r.id: l, r = r, l
            return mk('eq', 1, (l, r))
    if a.op == 'cat' and b.op == 'cat' and len(a.a) == len(b.a) and all(x.w == y.w for x, y in zip(a.a, b.a)):
        if any(x.op == 'c' or x is y for x, y in zip(a.a, b.a)):
            return band(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, (a, b))

def ne(a, b): return bnot(eq(a, b))

def ult(a, b):
    if a is b: return FALSE
    if b.op == 'c':
        if b.v == 0: return FALSE
        if ub(a) < b.v: return TRUE
        if b.v == 1: return eq(a, const(0, a.w))
        if a.op == 'c': return TRUE if a.v < b.v else FALSE
        if b.v == (1 << a.w) - 1: return ne(a, b)
        # floor(x / y) < c  <=>  x < c*y   (also for y = 0, where x / 0 is all ones), when c*y does not wrap
        if a.op == 'udiv' and b.v * ub(a.a[1]) < (1 << a.w): return ult(a.a[0], mulc(a.a[1], b.v))
    if a.op == 'c':
        if a.v >= ub(b): return FALSE
        if a.v == 0: return ne(b, const(0, b.w))
    if a.w == 1: return band(bnot(a), b)
    # floor(x / y) < c  <=>  x < c*y  (for y = 0: x / 0 is all ones, and both sides are false)
    if a.op == 'udiv' and a.a[1].op != 'c' and b.op != 'c':
        x, y = a.a; w = a.w
        if ub(b) * ub(y) < (1 << w): return ult(x, mul(b, y))
        if w <= 32: return ult(zext(x, 2 * w), mul(zext(b, 2 * w), zext(y, 2 * w)))
    # c < floor(x / y)  <=>  (c + 1)*y <= x  (for y = 0: both true when c is not all ones)
    if b.op == 'udiv' and b.a[1].op != 'c' and a.op != 'c':
        x, y = b.a; w = b.w
        if (ub(a) + 1) * ub(y) < (1 << w): return bnot(ult(x, mul(add(a, const(1, w)), y)))
    # strip common zero-extension
    if a.op == 'cat' and a.a[0].op == 'c' and a.a[0].v == 0:
        za = a.a[0].w
        if b.op == 'cat' and b.a[0].op == 'c' and b.a[0].v == 0:
            z = min(za, b.a[0].w)
            return ult(ext(a, a.w - z - 1, 0), ext(b, a.w - z - 1, 0))
        if b.op == 'c':
            return ult(ext(a, a.w - za - 1, 0), ext(b, a.w - za - 1, 0))  # ub(a) >= b.v here
    elif a.op == 'c' and b.op == 'cat' and b.a[0].op == 'c' and b.a[0].v == 0:
        z = b.a[0].w
        return ult(ext(a, a.w - z - 1, 0), ext(b, a.w - z - 1, 0))
    return mk('ult', 1, (a, b))

def ule(a, b): return bnot(ult(b, a))
def ugt(a, b): return ult(b, a)
def uge(a, b): return bnot(ult(a, b))

def slt(a, b):
    if a is b: return FALSE
    h = 1 << (a.w - 1)
    if a.op == 'c' and b.op == 'c':
        return TRUE if tosigned(a.v, a.w) < tosigned(b.v, b.w) else FALSE
    if ub(a) < h and ub(b) < h: return ult(a, b)
    if b.op == 'c' and b.v == 0:
        return signbit(a)
    if a.op == 'c' and a.v == (1 << a.w) - 1:   # -1 < b
        return bnot(signbit(b))
    if a.op == 'ite' and b.op == 'c' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    return mk('slt', 1, (a, b))

def signbit(a):
    return ext(a, a.w - 1, a.w - 1)

def sle(a, b): return bnot(slt(b, a))

def ite(c, a, b):
    if c.op == 'c': return a if c.v else b
    if a is b: return a
    if a.w == 1:
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
        if b is FALSE: return band(c, a)
        if a.op == 'c' and b.op == 'c': return c
    if c.op == '^' and c.a[-1] is TRUE:
        return ite(bnot(c), b, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk('ite', a.w, (c, a, b))

def uf(name, w, *args):
    return mk('uf', w, tuple(args), name)

# ---------------------------------------------------------------- traversal
def rebuild(t, a):
    op = t.op
    if op == '+':
        return add(const(t.v[0], t.w), *[mulc(x, y) for x, y in zip(a, t.v[1])])
    if op == '*':
        r = a[0]
        for x in a[1:]: r = mul(r, x)
        return r
    return _RB[op](t, a)

_RB = {
 'cat': lambda t, a: cat(*a), 'ext': lambda t, a: ext(a[0], *t.v),
 '&': lambda t, a: band(*a), '|': lambda t, a: bor(*a), '^': lambda t, a: bxor(*a),
 'shl': lambda t, a: shl(*a), 'lshr': lambda t, a: lshr(*a), 'ashr': lambda t, a: ashr(*a),
 'udiv': lambda t, a: udiv(*a), 'urem': lambda t, a: urem(*a),
 'sdiv': lambda t, a: sdiv(*a), 'srem': lambda t, a: srem(*a),
 'eq': lambda t, a: eq(*a), 'ult': lambda t, a: ult(*a), 'slt': lambda t, a: slt(*a),
 'ite': lambda t, a: ite(*a), 'sext': lambda t, a: sext(a[0], t.w),
 'uf': lambda t, a: mkuf(t.v, t.w, a),
}
UF_SIMP = {}
def mkuf(name, w, a):
    f = UF_SIMP.get(name if isinstance(name, str) else name[0])
    if f is not None:
        r = f(name, w, a)
        if r is not None: return r
    return mk('uf', w, tuple(a), name)

def subst(t, m, memo=None):
    """simultaneous substitution of terms (dict T->T)"""
    if memo is None: memo = {}
    return _subst(t, m, memo)

def _subst(root, m, memo):
    stack = [root]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop(); continue
        r = m.get(t)
        if r is not None:
            memo[t] = r; stack.pop(); continue
        if not t.a:
            memo[t] = t; stack.pop(); continue
        pend = [x for x in t.a if x not in memo]
        if pend:
            stack.extend(pend); continue
        na = tuple(memo[x] for x in t.a)
        memo[t] = t if na == t.a else rebuild(t, na)
        stack.pop()
    return memo[root]

def fvars(t):
    """frozenset of leaf variables"""
    r = t._vars
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop(); continue
        if x.op == 'v':
            x._vars = frozenset((x,)); stack.pop(); continue
        pend = [y for y in x.a if y._vars is None]
        if pend:
            stack.extend(pend); continue
        s = frozenset()
        for y in x.a:
            if not y._vars <= s:
                s = s | y._vars
        x._vars = s
        stack.pop()
    return t._vars

_heavy = {}
def heavy(t):
    """does t mention hash values or abstract byte strings?"""
    r = _heavy.get(t)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _heavy: stack.pop(); continue
        if (x.op == 'uf' and isinstance(x.v, tuple)) or (x.op == 'v' and isinstance(x.v, str) and x.v.startswith('rope')):
            _heavy[x] = True; stack.pop(); continue
        pend = [y for y in x.a if y not in _heavy]
        if pend: stack.extend(pend); continue
        _heavy[x] = any(_heavy[y] for y in x.a)
        stack.pop()
    return _heavy[t]

def nodes(roots):
    seen = set()
    order = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t); continue
        if t in seen: continue
        seen.add(t)
        stack.append((t, True))
        for x in t.a:
            if x not in seen: stack.append((x, False))
    return order

def size(t): return len(nodes([t]))

# ---------------------------------------------------------------- evaluation
def evaluate(root, env, ufenv=None, memo=None):
    """env: dict T(var)->int ; ufenv: callable(name, w, args)->int"""
    if memo is None: memo = {}
    for t in nodes([root]) if root not in memo else ():
        if t in memo: continue
        memo[t] = eval1(t, memo, env, ufenv)
    return memo[root]

def eval1(t, memo, env, ufenv):
    op = t.op
    M = (1 << t.w) - 1
    a = t.a
    if op == 'c': return t.v
    if op == 'v':
        r = env.get(t) if not callable(env) else env(t)
        if r is None: raise KeyError(t.v)
        return r & M
    if op == '+':
        r = t.v[0]
        for x, y in zip(a, t.v[1]): r += memo[x] * y
        return r & M
    if op == '*':
        r = 1
        for x in a: r *= memo[x]
        return r & M
    if op == '&':
        r = M
        for x in a: r &= memo[x]
        return r
    if op == '|':
        r = 0
        for x in a: r |= memo[x]
        return r
    if op == '^':
        r = 0
        for x in a: r ^= memo[x]
        return r
    if op == 'cat':
        r = 0
        for x in a: r = (r << x.w) | memo[x]
        return r
    if op == 'ext': return (memo[a[0]] >> t.v[1]) & M
    if op == 'sext': return tosigned(memo[a[0]], a[0].w) & M
    if op == 'shl':
        s = memo[a[1]]
        return (memo[a[0]] << s) & M if s < t.w else 0
    if op == 'lshr':
        s = memo[a[1]]
        return memo[a[0]] >> s if s < t.w else 0
    if op == 'ashr':
        s = min(memo[a[1]], t.w - 1)
        return (tosigned(memo[a[0]], t.w) >> s) & M
    if op == 'udiv': return memo[a[0]] // memo[a[1]] if memo[a[1]] else M
    if op == 'urem': return memo[a[0]] % memo[a[1]] if memo[a[1]] else memo[a[0]]
    if op == 'sdiv':
        x, y = tosigned(memo[a[0]], t.w), tosigned(memo[a[1]], t.w)
        if y == 0: return M
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M
    if op == 'srem':
        x, y = tosigned(memo[a[0]], t.w), tosigned(memo[a[1]], t.w)
        if y == 0: return x & M
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & M
    if op == 'eq': return int(memo[a[0]] == memo[a[1]])
    if op == 'ult': return int(memo[a[0]] < memo[a[1]])
    if op == 'slt': return int(tosigned(memo[a[0]], a[0].w) < tosigned(memo[a[1]], a[1].w))
    if op == 'ite': return memo[a[1]] if memo[a[0]] else memo[a[2]]
    if op == 'uf':
        if ufenv is None:
            return hash_uf(t.v, t.w, tuple(memo[x] for x in a))
        return ufenv(t.v, t.w, tuple(memo[x] for x in a)) & M
    raise NotImplementedError(op)

import hashlib
def hash_uf(name, w, args):
    h = hashlib.sha256(repr((name, w, args)).encode()).digest()
    return int.from_bytes((h * ((w + 255) // 256))[: (w + 7) // 8], 'big') & ((1 << w) - 1)

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if t.op == 'c':
        return ('0x%x' % t.v if t.v > 9 else str(t.v)) + ('' if t.w == 64 else ':%d' % t.w)
    if t.op == 'v': return str(t.v)
    if depth == 0: return '#%d' % t.id
    d = depth - 1
    if t.op == '+':
        s = []
        for x, y in zip(t.a, t.v[1]):
            ys = tosigned(y, t.w)
            s.append(show(x, d) if ys == 1 else '%d*%s' % (ys, show(x, d)))
        if t.v[0]: s.append(str(tosigned(t.v[0], t.w)))
        return '(' + ' + '.join(s) + ')'
    if t.op in '*&|^': return '(' + (' %s ' % t.op).join(show(x, d) for x in t.a) + ')'
    if t.op == 'ext': return '%s[%d:%d]' % (show(t.a[0], d), t.v[0], t.v[1])
    n = t.v if t.op == 'uf' else t.op
    return '%s(%s)' % (n, ', '.join(show(x, d) for x in t.a))
