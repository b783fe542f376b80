"""SMT back ends: z3 (API) first, cvc5 (SMT-LIB) second."""
import time, subprocess, os, tempfile, shutil
import z3
from . import term as tm
from .term import T

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0, 'syntactic': 0, 'unknown': 0, 'max': 0.0}
CVC5 = shutil.which('cvc5') or '/opt/veriftools/bin/cvc5'
_ufs = {}
ABSTRACT = False      # products and quotients of two variables as uninterpreted functions, with LEMMAS instantiated per query
LEMMAS = []           # fn(set of terms) -> valid formulas about them

def lemma_instances(asserts):
    out, todo, seen = [], list(asserts), set()
    ts = set()
    for t in tm.nodes(list(asserts)):
        if t.op == '*' or t.op == 'udiv' and t.a[1].op != 'c': ts.add(t)
    for f in LEMMAS:
        for g in f(ts):
            if g is not tm.TRUE and g not in seen: seen.add(g); out.append(g)
    return out

def _uf(name, ws, w):
    key = (name, ws, w)
    f = _ufs.get(key)
    if f is None:
        doms = [z3.BoolSort() if x == 1 else z3.BitVecSort(x) for x in ws]
        rng = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        nm = name if isinstance(name, str) else '.'.join(map(str, name))
        f = z3.Function('%s/%s' % (nm, '_'.join(map(str, ws + (w,)))), *doms, rng)
        _ufs[key] = f
    return f

def to_z3(root):
    if root._z is not None: return root._z
    for t in tm.nodes([root]):
        if t._z is None:
            t._z = _conv(t)
    return root._z

def _nary(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

def _conv(t):
    op = t.op; w = t.w
    a = [x._z for x in t.a]
    if w == 1:
        if op == 'c': return z3.BoolVal(bool(t.v))
        if op == 'v': return z3.Bool(str(t.v))
        if op == '&': return z3.And(*a)
        if op == '|': return z3.Or(*a)
        if op == '^': return _nary(z3.Xor, a) if t.a[-1] is not tm.TRUE else z3.Not(_nary(z3.Xor, a[:-1]) if len(a) > 2 else a[0])
        if op == 'eq': return a[0] == a[1]
        if op == 'ult': return z3.ULT(a[0], a[1])
        if op == 'slt': return a[0] < a[1]
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'uf':
            return _uf(t.v, tuple(x.w for x in t.a), 1)(*a) if a else z3.Bool(str(t.v))
        if op == 'ext': return z3.Extract(t.v[0], t.v[1], a[0]) == z3.BitVecVal(1, 1)
        raise NotImplementedError(op)
    # bools used inside wider terms
    def bv(i):
        return z3.If(a[i], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if t.a[i].w == 1 else a[i]
    if op == 'c': return z3.BitVecVal(t.v, w)
    if op == 'v': return z3.BitVec(str(t.v), w)
    if op == '+':
        r = None
        M = (1 << w)
        for x, y in zip(a, t.v[1]):
            if y == 1: q = x
            elif y == M - 1: q = -x
            elif y & (y - 1) == 0: q = x << (y.bit_length() - 1)
            elif (M - y) & (M - y - 1) == 0: q = -(x << ((M - y).bit_length() - 1))
            else: q = x * z3.BitVecVal(y, w)
            r = q if r is None else r + q
        if t.v[0]: r = r + z3.BitVecVal(t.v[0], w)
        return r
    if op == '*':
        if ABSTRACT: return _uf('bvmul', tuple(x.w for x in t.a), w)(*a)      # weaker than multiplication: sound for proofs
        return _nary(lambda x, y: x * y, a)
    if op == '&': return _nary(lambda x, y: x & y, a)
    if op == '|': return _nary(lambda x, y: x | y, a)
    if op == '^': return _nary(lambda x, y: x ^ y, a)
    if op == 'cat': return z3.Concat(*[bv(i) for i in range(len(a))])
    if op == 'ext': return z3.Extract(t.v[0], t.v[1], a[0])
    if op == 'sext': return z3.SignExt(w - t.a[0].w, bv(0))
    if op == 'shl': return a[0] << a[1]
    if op == 'lshr': return z3.LShR(a[0], a[1])
    if op == 'ashr': return a[0] >> a[1]
    if op == 'udiv':
        if ABSTRACT and t.a[1].op != 'c': return _uf('bvudiv', (w, w), w)(*a)
        return z3.UDiv(a[0], a[1])
    if op == 'urem': return z3.URem(a[0], a[1])
    if op == 'sdiv': return a[0] / a[1]
    if op == 'srem': return z3.SRem(a[0], a[1])
    if op == 'ite': return z3.If(a[0], a[1], a[2])
    if op == 'uf':
        if not a: return z3.BitVec(str(t.v), w)
        return _uf(t.v, tuple(x.w for x in t.a), w)(*a)
    raise NotImplementedError(op)

def relevant(pc, goal):
    """cone of influence of goal's variables and uninterpreted heads"""
    want = set(tm.fvars(goal))
    out = []
    rest = [(p, tm.fvars(p)) for p in pc]
    ch = True
    while ch:
        ch = False
        nr = []
        for p, fv in rest:
            if not fv or fv & want:
                out.append(p)
                if not fv <= want:
                    want |= fv; ch = True
            else: nr.append((p, fv))
        rest = nr
    return out

class Result:
    def __init__(self, status, model=None, text=''):
        self.status, self.model, self.text = status, model, text

_cache = {}
SLOW = float(os.environ.get('IRV_SLOW', '1'))      # factor on every time limit

def check_sat(asserts, timeout=10.0, want_model=False, cvc5=True):
    """-> 'sat' | 'unsat' | 'unknown'"""
    key = frozenset(asserts)
    for a in asserts:
        if a is tm.FALSE: return Result('unsat')
    if not want_model and key in _cache: return _cache[key]
    if any(tm.bnot(a) in key for a in asserts):
        STATS['syntactic'] += 1
        return Result('unsat')
    timeout *= SLOW
    zs = [to_z3(a) for a in asserts if a is not tm.TRUE]
    if ABSTRACT: zs += [to_z3(a) for a in lemma_instances(asserts)]
    t0 = time.time()
    for mk, tl in ((z3.SimpleSolver, min(timeout, 0.3 * SLOW)), (z3.Solver, timeout)):
        s = mk()
        s.set('timeout', int(tl * 1000))
        s.add(*zs)
        r = s.check()
        if r != z3.unknown: break
    dt = time.time() - t0
    STATS['z3_queries'] += 1
    STATS['z3_time'] += dt
    STATS['max'] = max(STATS['max'], dt)
    res = Result(str(r))
    if r == z3.sat and want_model: res.model = s.model()
    if r == z3.unknown and not cvc5:
        _cache[key] = res
        return res
    if r == z3.unknown:
        c = cvc5_check(s, timeout)
        if c: res.status = c
        else: STATS['unknown'] += 1
    _cache[key] = Result(res.status)
    return res

def cvc5_check(s, timeout):
    if not os.path.exists(CVC5): return None
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % int(timeout * 2000)], input=txt, capture_output=True, text=True, timeout=timeout * 2 + 5)
        out = p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = ''
    STATS['cvc5_queries'] += 1
    STATS['cvc5_time'] += time.time() - t0
    return out if out in ('sat', 'unsat') else None

def prove(pc, goal, timeout=10.0):
    """True iff pc => goal is valid.  Returns (bool, Result)"""
    if goal is tm.TRUE:
        STATS['syntactic'] += 1
        return True, Result('unsat')
    if goal in pc:
        STATS['syntactic'] += 1
        return True, Result('unsat')
    ng = tm.bnot(goal)
    rel = relevant(pc, goal) if tm.fvars(goal) else list(pc)
    r = check_sat(rel + [ng], timeout)
    if r.status == 'unsat': return True, r
    return False, r
