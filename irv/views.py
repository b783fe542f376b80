"""Abstract values: ropes (byte sequences) interned as ids, and opaque 'blob' representations of
abstract objects (hash contexts, keys, streams) held in memory."""
from . import term as tm
from . import solver
from .term import const, var, fresh, add, sub, eq, ult, ule, ite, And, Or, Not, TRUE, FALSE
from .mem import *

K = var('%K', 64)        # bound index variable used in canonical element functions

ROPES = {}               # id var -> (kind, segs)
_intern = {}

def seg_bytes(bs): return ('b', tuple(bs))
def seg_fn(canon, ln): return ('f', canon, ln)

def rope_len(segs):
    r = const(0, 64)
    for s in segs: r = add(r, const(len(s[1]), 64) if s[0] == 'b' else s[2])
    return r

def norm(segs):
    out = []
    flat = []
    for s in segs: flat += list(s[1]) if s[0] == 'cat' else [s]
    for s in flat:
        if s[0] == 'f' and s[2].op == 'c' and s[2].v <= 4096:
            s = ('b', tuple(tm.subst(s[1], {K: const(i, 64)}) for i in range(s[2].v)))
        if s[0] == 'b':
            if not s[1]: continue
            if out and out[-1][0] == 'b':
                out[-1] = ('b', out[-1][1] + s[1]); continue
        out.append(s)
    # merge  f[0,l1) ++ f'[0,l2) when f'(k) == f(k+l1)
    res = []
    for s in out:
        if res and res[-1][0] == 'f' and s[0] == 'f':
            p = res[-1]
            if tm.subst(p[1], {K: add(K, p[2])}) is s[1]:
                res[-1] = ('f', p[1], add(p[2], s[2])); continue
        res.append(s)
    return tuple(res)

def rope_byte(segs, k):
    """byte k of the rope as nested ite"""
    pos = const(0, 64)
    parts = []
    for s in segs:
        ln = const(len(s[1]), 64) if s[0] == 'b' else s[2]
        parts.append((pos, ln, s))
        pos = add(pos, ln)
    r = const(0, 8)
    for pos, ln, s in reversed(parts):
        rel = sub(k, pos)
        if s[0] == 'b':
            if rel.op == 'c':
                v = s[1][rel.v] if rel.v < len(s[1]) else const(0, 8)
            else:
                v = s[1][-1]
                for i in range(len(s[1]) - 2, -1, -1):
                    v = ite(eq(rel, const(i, 64)), s[1][i], v)
        else:
            v = tm.subst(s[1], {K: rel})
        r = ite(ult(rel, ln), v, r) if r is not None else v
    return r

def intern(kind, segs):
    segs = norm(segs)
    key = (kind, segs)
    v = _intern.get(key)
    if v is None:
        v = fresh('rope', 64)
        _intern[key] = v
        ROPES[v] = (kind, segs)
    return v

def canon_seg(ex, st, fn, ln):
    """turn an element function valid on this path into a canonical segment"""
    if ln.op == 'c' and ln.v <= 4096:
        d = ex.dec(st)
        return seg_bytes([fn(const(i, 64), d) for i in range(ln.v)])
    s2 = st.clone()
    s2.assume(ult(K, ln))
    return seg_fn(fn(K, ex.dec(s2)), ln)

def region_seg(ex, st, ptr, ln):
    if ln.op == 'c' and ln.v == 0: return seg_bytes([])
    if ln.op == 'c' and ln.v <= 4096:
        return seg_bytes(ex.load_bytes(st, ptr, ln.v))
    r = pieces(ex, st, ptr, ln)
    if r is not None: return ('cat', tuple(r))
    return canon_seg(ex, st, ex.region_fn(st, ptr, ln), ln)

def pieces(ex, st, ptr, ln):
    """split a region of symbolic length at the boundaries of the writes that produced it (None: boundaries not ordered)"""
    q = ex.access(st, ptr, ln, 'read')
    if q is None: return None
    o, off = q
    cont = st.mem[o].freeze()
    bs = set()
    for L in cont.layers:
        if L[0] == 'cells':
            d = sub(L[1], off)
            if not L[2]: continue
            ks = sorted(L[2]); 
            if ks[-1] - ks[0] + 1 != len(ks): return None
            bs.add(add(d, const(ks[0], 64))); bs.add(add(d, const(ks[-1] + 1, 64)))
        else:
            d = sub(L[1], off); bs.add(d); bs.add(add(d, L[2]))
    dec = ex.dec(st)
    half = const(1 << 63, 64)
    cur = [const(0, 64)]
    todo = []
    for b in bs:
        if b is const(0, 64) or b is ln: continue
        # outside the region (before its start or at/after its end)?
        r = dec(ule(b, ln))
        if r is True: todo.append(b)
        elif r is None: return None
    if not todo or len(todo) > 10: return None
    order = []
    for b in todo:
        i = 0
        for i in range(len(order) + 1):
            if i == len(order): break
            r = dec(ule(b, order[i]))
            if r is True: break
            if r is None: return None
        order.insert(i, b)
    order = [const(0, 64)] + order + [ln]
    out = []
    for a, b in zip(order, order[1:]):
        n = sub(b, a)
        if n is const(0, 64) or n.op != 'c' and dec(eq(n, const(0, 64))) is True: continue
        if n.op == 'c' and n.v <= 4096: out.append(seg_bytes(cont.read_bytes(add(off, a), n.v, dec)))
        else:
            s2 = st.clone(); s2.assume(ult(K, n))
            out.append(seg_fn(cont.read_bytes(add(off, add(a, K)), 1, ex.dec(s2))[0], n))
    return out

# ------------------------------------------------------------------ rope equality
_eqcache = {}
def ropes_equal(ex, st, a, b, depth=0):
    """prove two interned ropes equal under st's path condition"""
    if a is b: return True
    ka, sa = ROPES[a]; kb, sb = ROPES[b]
    if ka != kb: return False
    key = (a, b, len(st.pc), st.pc[-1] if st.pc else None)
    r = _eqcache.get(key)
    if r is not None: return r
    _eqcache[key] = False
    r = _ropes_equal(ex, st, sa, sb, depth)
    _eqcache[key] = r
    return r

def _pv(ex, st, g, depth):
    if g is TRUE: return True
    if g is FALSE: return False
    ok, _ = solver.prove(st.pc, g, ex.timeout)
    if ok: return True
    return id_hook(ex, st, g, (), depth + 1)

def _ropes_equal(ex, st, sa, sb, depth):
    if depth > 6: return False
    la, lb = rope_len(sa), rope_len(sb)
    if not _pv(ex, st, eq(la, lb), depth): return False
    r = _align(ex, st, list(sa), list(sb), depth)
    if r is not None: return r
    # general: skolem index
    s2 = st.clone()
    s2.assume(ult(K, la))
    return _pv(ex, s2, eq(rope_byte(sa, K), rope_byte(sb, K)), depth)

def _align(ex, st, sa, sb, depth):
    """compare segment by segment, splitting at common boundaries; None: boundaries not comparable"""
    zero = const(0, 64)
    def le_(x, y):
        if x is y: return True
        g = ule(x, y)
        if g is TRUE: return True
        if g is FALSE: return False
        return solver.prove(st.pc, g, 5)[0]
    ln = lambda s: const(len(s[1]), 64) if s[0] == 'b' else s[2]
    def cut(s, n):
        if s[0] == 'b': return ('b', s[1][:n.v]), ('b', s[1][n.v:])
        head = ('b', tuple(tm.subst(s[1], {K: const(i, 64)}) for i in range(n.v))) if n.op == 'c' and n.v <= 4096 else ('f', s[1], n)
        return head, ('f', tm.subst(s[1], {K: add(K, n)}), sub(s[2], n))
    steps = 0
    while sa and sb:
        steps += 1
        if steps > 60: return None
        x, y = sa[0], sb[0]
        if x == y: sa.pop(0); sb.pop(0); continue
        lx, ly = ln(x), ln(y)
        if lx is zero: sa.pop(0); continue
        if ly is zero: sb.pop(0); continue
        rx = ry = None
        if lx is ly or (lx.op != 'c' or ly.op != 'c') and solver.prove(st.pc, eq(lx, ly), 5)[0]: n = lx if lx.op == 'c' else ly
        elif le_(lx, ly) and (ly.op != 'c' or lx.op == 'c'):
            y, ry = cut(y, lx); n = lx
        elif le_(ly, lx) and (lx.op != 'c' or ly.op == 'c'):
            x, rx = cut(x, ly); n = ly
        else: return None
        if n.op == 'c':
            if x[0] != 'b': x = cut(x, n)[0]
            if y[0] != 'b': y = cut(y, n)[0]
            if x[0] != 'b' or y[0] != 'b': return None
            g = [eq(p, q) for p, q in zip(x[1], y[1])]
            if any(e is FALSE for e in g): return False
            if not _pv(ex, st, And(*g), depth): return False
        elif x[0] == 'f' and y[0] == 'f':
            if x[1] is not y[1]:
                s2 = st.clone(); s2.assume(ult(K, n))
                if ex.feasible(s2, TRUE) and not _pv(ex, s2, eq(x[1], y[1]), depth): return False
        else: return None
        sa.pop(0); sb.pop(0)
        if rx is not None: sa.insert(0, rx)
        if ry is not None: sb.insert(0, ry)
    rest = sa or sb
    return True if all(_pv(ex, st, eq(ln(s), zero), depth) for s in rest) else None

def ids_in(t):
    return [v for v in tm.fvars(t) if v in ROPES]

def id_hook(ex, st, goal, axioms=(), depth=0):
    """try to identify rope ids occurring in the goal and re-prove"""
    if depth > 6: return False
    g = goal
    # unfold applications through registered definitions first
    vs = ids_in(g)
    extra = set(vs)
    for p in solver.relevant(st.pc, g):
        extra.update(ids_in(p))
    # argument positions: only compare ids that occur as the same argument of the same function
    groups = {}
    for t in tm.nodes([g] + [p for p in st.pc if ids_in(p)]):
        if t.op == 'uf':
            for i, a in enumerate(t.a):
                if a in ROPES: groups.setdefault((t.v, i), set()).add(a)
        elif t.op == 'eq' and t.a[0] in ROPES and t.a[1] in ROPES: groups.setdefault(('eq', t.id), set()).update(t.a)
    m = {}
    for key, s in groups.items():
        s = sorted(s, key=lambda v: v.id)
        for i, b in enumerate(s):
            if b in m: continue
            for a in s[:i]:
                a = m.get(a, a)
                if a is b: continue
                if ROPES[a][0] != ROPES[b][0]: continue
                if not (b in extra or a in extra): continue
                if ropes_equal(ex, st, a, b, depth):
                    m[b] = a; break
    if not m: return False
    memo = {}
    g2 = tm.subst(g, m, memo)
    pc2 = [tm.subst(p, m, memo) for p in st.pc]
    ok, _ = solver.prove(pc2 + [tm.subst(a, m, memo) for a in axioms], g2, ex.timeout)
    return ok

# ------------------------------------------------------------------ blobs
BLOBS = {}               # id var -> view (tuple)

def new_blob(ex, st, ptr, size, view, tag='obj'):
    v = blob_id(view)
    ex.store_bytes(st, ptr, blob_bytes(v, size))
    return v

def blob_id(view):
    """canonical: equal views have equal representations (the representation is abstract to callers)"""
    v = tm.uf(('blob', view[0]), 64, *view[1:])
    BLOBS[v] = view
    return v

def blob_bytes(v, size):
    return [tm.uf('mem', 8, v, const(i, 64)) for i in range(size)]

def get_blob(ex, st, ptr, size, kind):
    """the abstract value whose representation occupies [ptr, ptr+size), or None"""
    bs = ex.load_bytes(st, ptr, size)
    v = None
    for i, b in enumerate(bs):
        if b.op != 'uf' or b.v != 'mem' or b.a[1] is not const(i, 64): v = None; break
        if v is None: v = b.a[0]
        elif v is not b.a[0]: v = None; break
    if v is None or v not in BLOBS or BLOBS[v][0] != kind:
        ex.fail(st, 'precondition: object at argument is a valid %s' % kind)
        from .execu import Abort
        raise Abort('not a %s' % kind)
    return v, BLOBS[v]
