"""Floating point as exact nonnegative real arithmetic (a stated assumption): products and quotients are kept as
monomials over atoms, comparisons are brought to the form  A < (num/den) * B  with A, B products of atoms.
Rounding, overflow to infinity and NaN are outside (the callers exclude NaN and negative limits)."""
import struct
from fractions import Fraction
from . import term as tm
from .term import const, var, fresh, add, sub, eq, ne, ult, ule, And, Or, Not, TRUE, FALSE

def dbl(x):
    return const(struct.unpack('<Q', struct.pack('<d', float(x)))[0], 64)
def undbl(t):
    return struct.unpack('<d', struct.pack('<Q', t.v))[0]

def u2f(x):
    """the real value of an unsigned integer term"""
    if x.op == 'c': return dbl(x.v)
    if x.op == 'cat' and x.a[0].op == 'c' and x.a[0].v == 0: return u2f(tm.ext(x, x.w - x.a[0].w - 1, 0))
    return tm.uf(('u2f', x.w), 64, x)

def mono(t):
    """t -> (coefficient, {atom: exponent})"""
    if t.op == 'c':
        v = undbl(t)
        if v != v or v in (float('inf'), float('-inf')): return None
        return Fraction(v), {}
    if t.op == 'uf' and isinstance(t.v, tuple) and t.v[0] == 'fmono':
        return Fraction(t.v[1], t.v[2]), dict(zip(t.a, t.v[3]))
    return Fraction(1), {t: 1}
def mk(c, m):
    m = {a: e for a, e in m.items() if e}
    if c == 0: return dbl(0)
    if not m:
        f = float(c)
        if Fraction(f) == c: return dbl(f)
    if c == 1 and len(m) == 1 and list(m.values()) == [1]: return list(m)[0]
    at = sorted(m, key=lambda a: a.id)
    return tm.uf(('fmono', c.numerator, c.denominator, tuple(m[a] for a in at)), 64, *at)
def fmul(a, b):
    x, y = mono(a), mono(b)
    m = dict(x[1])
    for k, e in y[1].items(): m[k] = m.get(k, 0) + e
    return mk(x[0] * y[0], m)
def finv(b):
    y = mono(b)
    return mk(1 / y[0], {k: -e for k, e in y[1].items()})
def fless(a, b, pos=lambda t: False):
    """a < b over the reals; atoms with negative exponents are nonzero"""
    x, y = mono(a), mono(b)
    if y[0] == 0: return FALSE if x[0] >= 0 else TRUE
    L, R = {}, {}
    for k in set(x[1]) | set(y[1]):
        e, f = x[1].get(k, 0), y[1].get(k, 0)
        if e < 0 or f < 0:                # known nonzero: multiply through
            d = -min(e, f); e += d; f += d
        if e and f and pos(k):
            d = min(e, f); e -= d; f -= d
        if e: L[k] = e
        if f: R[k] = f
    if x[0] == 0: 
        L = {}; q = Fraction(y[0]); p = Fraction(0)
        if not R: return TRUE
    else:
        p = Fraction(1); q = y[0] / x[0]
        if not L and not R: return TRUE if p < q else FALSE
    # a single integer against a constant: exact integer comparison
    def int1(d):
        if len(d) == 1:
            (k, e), = d.items()
            if e == 1 and k.op == 'uf' and isinstance(k.v, tuple) and k.v[0] == 'u2f': return k.a[0]
        return None
    if not R and L and p == 1 and int1(L) is not None:       # x < q
        v = int1(L); b = -((-q.numerator) // q.denominator)
        return FALSE if b <= 0 else TRUE if b >= 1 << v.w else ult(v, const(b, v.w))
    if not L and R and int1(R) is not None and q > 0:         # p < q*x
        v = int1(R); b = (p / q); b = b.numerator // b.denominator
        return TRUE if b < 0 else FALSE if b >= (1 << v.w) - 1 else ult(const(b, v.w), v)
    la = sorted(L, key=lambda a: a.id); ra = sorted(R, key=lambda a: a.id)
    return tm.uf(('fless', int(p), q.numerator, q.denominator, tuple(L[a] for a in la), tuple(R[a] for a in ra)), 1, *(la + ra))

class FP:
    def __init__(self): self.pos = set(); self.hook = None
    def ispos(self, ex, st, t):
        if t in self.pos: return True
        if t.op == 'uf' and isinstance(t.v, tuple) and t.v[0] == 'u2f':
            return ex.decide(st, ne(t.a[0], const(0, t.a[0].w))) is True
        return False
    def op(self, ex, st, op, a, b):
        if op == 'fmul' and mono(a) and mono(b): return fmul(a, b)
        if op == 'fdiv' and mono(a) and mono(b) and mono(b)[0] != 0 and all(self.ispos(ex, st, k) for k in mono(b)[1]):
            return fmul(a, finv(b))
        if op == 'fadd' and a.id > b.id: a, b = b, a
        return tm.uf(op, a.w, a, b)
    def cmp(self, ex, st, pr, a, b):
        p = pr[1:]
        pos = lambda t: self.ispos(ex, st, t)
        if p == 'lt': return fless(a, b, pos)
        if p == 'gt': return fless(b, a, pos)
        if p == 'le': return Not(fless(b, a, pos))
        if p == 'ge': return Not(fless(a, b, pos))
        if p in ('eq', 'ne'):
            r = And(Not(fless(a, b, pos)), Not(fless(b, a, pos)))
            return r if p == 'eq' else Not(r)
        if pr == 'uno': return FALSE
        if pr == 'ord': return TRUE
        raise tm.Unsupported if hasattr(tm, 'Unsupported') else NotImplementedError(pr)
    def cast(self, ex, st, op, a, w):
        if op == 'uitofp': return u2f(a)
        if op == 'sitofp':
            if tm.ub(a) < 1 << (a.w - 1) or ex.decide(st, Not(tm.signbit(a))) is True: return u2f(a)
            return tm.uf('s2f', w, a)
        if op == 'fptoui':
            if a.op == 'c': return const(int(undbl(a)), w)
            ex.oblige(st, fless(a, dbl(2.0 ** w)), 'floating-point value fits the integer type it is converted to')
            return tm.uf('f2u', w, a)
        return tm.uf(op, w, a)

# ------------------------------------------------------------------ real/integer back end
import z3
def real_prove(st_pc, goal, timeout=20.0):
    """prove pc => goal over integers and reals; bit-vector terms are translated only where the translation is exact"""
    memo = {}; side = []
    def I(t):
        k = ('i', t)
        if k in memo: return memo[k]
        r = None
        M = 1 << t.w
        if t.op == 'c': r = z3.IntVal(t.v)
        elif t.op == 'cat' and t.a[0].op == 'c' and t.a[0].v == 0: r = I(tm.ext(t, t.w - t.a[0].w - 1, 0))
        elif t.op == 'cat':
            r = z3.IntVal(0)
            for x in t.a: r = r * (1 << x.w) + I(x)
        elif t.op == 'ext':
            r = (I(t.a[0]) / (1 << t.v[1])) % M
        elif t.op == 'udiv' and t.a[1].op == 'c' and t.a[1].v: r = I(t.a[0]) / t.a[1].v
        elif t.op == 'udiv':
            x, y = I(t.a[0]), I(t.a[1])
            r = z3.If(y == 0, z3.IntVal(M - 1), x / y)
        elif t.op == 'lshr' and t.a[1].op == 'c': r = I(t.a[0]) / (1 << t.a[1].v)
        elif t.op == '+':
            r = z3.IntVal(t.v[0])
            for x, y in zip(t.a, t.v[1]): r = r + (y if y < M // 2 else y - M) * I(x)
            r = r % M
        elif t.op == '*':
            r = z3.IntVal(1)
            for x in t.a: r = r * I(x)
            r = r % M
        elif t.op == 'ite': r = z3.If(B(t.a[0]), I(t.a[1]), I(t.a[2]))
        elif t.op == 'uf' and t.v == 'f2u':
            x = R(t.a[0]); r = z3.Int('f2u!%d' % t.id)
            side.append(z3.Implies(z3.And(x >= 0, x < M), z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))
            side.append(z3.And(r >= 0, r < M))
        if r is None:
            r = z3.Int('t!%d' % t.id)
            side.append(z3.And(r >= 0, r < M))
        memo[k] = r
        return r
    def R(t):
        k = ('r', t)
        if k in memo: return memo[k]
        if t.op == 'c': r = z3.RealVal(str(Fraction(undbl(t))))
        elif t.op == 'uf' and isinstance(t.v, tuple) and t.v[0] == 'u2f': r = z3.ToReal(I(t.a[0]))
        elif t.op == 'uf' and isinstance(t.v, tuple) and t.v[0] == 'fmono':
            r = z3.RealVal(str(Fraction(t.v[1], t.v[2])))
            for a, e in zip(t.a, t.v[3]):
                for _ in range(abs(e)): r = r * R(a) if e > 0 else r / R(a)
        elif t.op == 'ite': r = z3.If(B(t.a[0]), R(t.a[1]), R(t.a[2]))
        elif t.op == 'uf' and t.v in ('fadd', 'fsub'): r = R(t.a[0]) + R(t.a[1]) if t.v == 'fadd' else R(t.a[0]) - R(t.a[1])
        elif t.op == 'uf' and t.v == 'fdiv':
            x, y = R(t.a[0]), R(t.a[1]); r = z3.Real('q!%d' % t.id)
            side.append(z3.Implies(y != 0, r * y == x))
        elif t.op == 'uf' and t.v == 's2f':
            y = I(t.a[0]); r = z3.ToReal(z3.If(y >= 1 << (t.a[0].w - 1), y - (1 << t.a[0].w), y))
        else:
            r = z3.Real('f!%d' % t.id)
            if t.op == 'v': side.append(r >= 0)
        memo[k] = r
        return r
    def B(t):
        k = ('b', t)
        if k in memo: return memo[k]
        if t.op == 'c': r = z3.BoolVal(bool(t.v))
        elif t.op == '&': r = z3.And(*[B(x) for x in t.a])
        elif t.op == '|': r = z3.Or(*[B(x) for x in t.a])
        elif t.op == '^':
            r = B(t.a[0])
            for x in t.a[1:]: r = z3.Xor(r, B(x))
        elif t.op == 'ite': r = z3.If(B(t.a[0]), B(t.a[1]), B(t.a[2]))
        elif t.op == 'eq' and t.a[0].w > 1: r = I(t.a[0]) == I(t.a[1])
        elif t.op == 'eq': r = B(t.a[0]) == B(t.a[1])
        elif t.op == 'ult': r = I(t.a[0]) < I(t.a[1])
        elif t.op == 'uf' and isinstance(t.v, tuple) and t.v[0] == 'fless':
            _, p, qn, qd, le_, re_ = t.v
            L = z3.RealVal(p); Rr = z3.RealVal(str(Fraction(qn, qd)))
            for a, e in zip(t.a[:len(le_)], le_):
                for _ in range(e): L = L * R(a)
            for a, e in zip(t.a[len(le_):], re_):
                for _ in range(e): Rr = Rr * R(a)
            r = L < Rr
        elif t.op == 'slt':
            def S(x):
                y = I(x); return z3.If(y >= 1 << (x.w - 1), y - (1 << x.w), y)
            r = S(t.a[0]) < S(t.a[1])
        else: r = z3.Bool('b!%d' % t.id)
        memo[k] = r
        return r
    from . import solver
    rel = solver.relevant(st_pc, goal) if tm.fvars(goal) else list(st_pc)
    zs = [B(p) for p in rel]; g = B(goal)
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    s.add(*side); s.add(*zs); s.add(z3.Not(g))
    import time
    t0 = time.time()
    r = s.check()
    solver.STATS['z3_queries'] += 1; solver.STATS['z3_time'] += time.time() - t0
    return r == z3.unsat
def real_hook(ex, st, goal, axioms=()):
    return real_prove(list(st.pc) + list(axioms), goal)
