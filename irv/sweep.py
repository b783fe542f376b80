"""Word-level SAT sweeping: prove equality of two large term DAGs via internal equivalences."""
import random
import z3
from . import term as tm, solver
from .term import eq, fresh, const

BITW = ('cat', 'ext', '&', '|', '^')

class Sweep:
    def __init__(self, seed=1, nvec=12, timeout=5.0):
        self.rng = random.Random(seed)
        self.nvec = nvec
        self.env = [dict() for _ in range(nvec)]
        self.memo = [dict() for _ in range(nvec)]
        self.rep = {}
        self.sig = {}
        self.timeout = timeout
        self.stats = {'nodes': 0, 'merged': 0, 'queries': 0, 'structural': 0}
    def val(self, i, root):
        memo = self.memo[i]
        if root in memo: return memo[root]
        env = self.env[i]
        stack = [root]
        while stack:
            t = stack[-1]
            if t in memo: stack.pop(); continue
            if t.op == 'v':
                if t not in env:
                    x = self.rng.getrandbits(t.w)
                    if i == 1: x = 0
                    if i == 2: x = (1 << t.w) - 1
                    env[t] = x
                memo[t] = env[t]; stack.pop(); continue
            pend = [x for x in t.a if x not in memo]
            if pend: stack.extend(pend); continue
            memo[t] = tm.eval1(t, memo, env, None)
            stack.pop()
        return memo[root]
    def signature(self, t):
        return (t.w,) + tuple(self.val(i, t) for i in range(self.nvec))
    def cut_query(self, a, b, depth):
        """prove a==b with sub-terms below `depth` (levels counted at word nodes) replaced by variables"""
        memo = {}
        memo2 = {}
        def cutat(t, d):
            if not t.a: return t
            if (t.op not in BITW) if depth == 'bit' else (d == 0 and t.op not in ('cat', 'ext')):
                r = memo.get(t)
                if r is None:
                    r = memo[t] = fresh('cut', t.w)
                return r
            r = memo2.get((t, d))
            if r is None:
                nd = d if t.op in ('cat', 'ext') or depth == 'bit' else d - 1
                r = memo2[(t, d)] = tm.rebuild(t, tuple(cutat(x, nd) for x in t.a))
            return r
        x, y = cutat(a, depth), cutat(b, depth)
        self.stats['queries'] += 1
        g = eq(x, y)
        if g is tm.TRUE: return True
        s = z3.Solver(); s.set('timeout', int(self.timeout * 1000))
        s.add(z3.Not(solver.to_z3(g)))
        import time
        t0 = time.time()
        r = s.check()
        solver.STATS['z3_queries'] += 1; solver.STATS['z3_time'] += time.time() - t0
        return r == z3.unsat
    def process(self, root):
        """returns the representative of root"""
        for t in tm.nodes([root]):
            if t in self.rep: continue
            self.stats['nodes'] += 1
            na = tuple(self.rep[x] for x in t.a)
            r = t if na == t.a else tm.rebuild(t, na)
            if r is not t and r in self.rep: r = self.rep[r]
            elif r.a and r.w > 1:
                sg = self.signature(r)
                c = self.sig.get(sg)
                if c is None: self.sig[sg] = r
                elif c is not r:
                    ok = False
                    for d in ('bit', 2, 4, 7):
                        if self.cut_query(r, c, d): ok = True; break
                    if ok:
                        self.stats['merged'] += 1
                        r = c
            self.rep[t] = r
            if r not in self.rep: self.rep[r] = r
        return self.rep[root]
    def equal(self, a, b):
        """True / False(counterexample env) / None"""
        if a is b: self.stats['structural'] += 1; return True, None
        ra = self.process(a); rb = self.process(b)
        if ra is rb: return True, None
        for i in range(self.nvec):
            if self.val(i, a) != self.val(i, b): return False, self.env[i]
        for d in (9, 14):
            if self.cut_query(ra, rb, d): return True, None
        return None, None
