"""Loop handling by inductive invariants.

The invariant at iteration n is: header phis and memory cells have closed forms in n
(inferred: affine scalars, elementwise writes; or supplied by the contract), everything else that
the body may write is unknown.  Whatever produced the closed forms, they are *checked*:
at entry (n=0) and over every back edge (n -> n+1), and every write of the body must be covered.
"""
from . import term as tm
from .term import const, var, fresh, add, sub, eq, ult, ule, And, Or, Not, TRUE, FALSE, ite
from .mem import *
from . import solver

class Inv:
    """contract-supplied invariant.  at(n) -> dict with optional keys
       mem: [(ptr, len, fn(k, dec)->byte)], facts: [T] (checked), axioms: [T] (assumed definitions), ghost: {k: v}, phis"""
    def __init__(self, at=None, name='inv', ghost_eq=None, soft=None, pre=None, auto=False, hints=None, define=None):
        # define(ex, st, n) -> axioms defining history variables (fresh uninterpreted functions of the iteration number)
        # from the state st at the head of iteration n; they occur nowhere else, so the definitions are conservative
        self.define = define
        self.hints = hints or {}     # object -> fn(absolute offset, dec): candidate element function for elementwise writes
        self.auto = auto        # use only when the trip count is not a constant
        self.at, self.name, self.ghost_eq, self.soft = at or (lambda n: {}), name, ghost_eq, soft
        # soft(n, vals) -> list of candidate facts over the header scalars (kept only if inductive)

def fresh_no(v):
    s = v.v
    if isinstance(s, str):
        i = s.rfind('!')
        if i >= 0 and s[i + 1:].isdigit(): return int(s[i + 1:])
    return 0

class LoopRun:
    def __init__(self, ex, snap, header, blocks, depth, inv):
        self.ex, self.snap, self.header, self.blocks, self.depth, self.inv = ex, snap, header, blocks, depth, inv
        fr = snap.frames[-1]
        self.fn = fr.fn
        self.mod = fr.fn.mod
        self.phis = []
        for ins in fr.fn.blocks[header]:
            if ins.op != 'phi': break
            self.phis.append(ins)
        self.p0 = {}
        for ins in self.phis:
            self.p0[ins.res] = ex.value(self.mod, fr.regs, ins.ty, ins.x[0][fr.prev], snap)
        for c in snap.mem.values(): c.freeze()
        self.mark = tm._fresh[0]
        self.n = fresh('n', 64)
        self.phi_cf = {}            # res -> step term d (affine)  (p0 + n*d)
        self.phi_hv = {i.res: fresh('phi', self.p0[i.res].w) for i in self.phis}
        self.ptrphi = {}
        for r, p in self.p0.items():
            if p.w == 64:
                q = ex.resolve(snap, p)
                if q is not None:
                    self.phi_hv[r] = add(q[0].addr, fresh('phioff', 64)); self.ptrphi[r] = q[0]
        self.cells = {}             # (obj, off, size) -> dict(var=, cf=step or None, v0=)
        self.growing = set()        # indices of specified regions written just past their current end
        self.whole = {}             # obj -> fresh id
        self.maps = {}              # obj -> dict(A=, D=, fn=, unknown=)
        self.nomap = set()
        self.ghost_mod = set()
        self.facts = []             # functions n -> T, Houdini-verified
        self.rel = None             # indices of surviving soft candidates
        self.nsoft = 0
        self.guard = None           # T over n
        self.soft = set(); self.softdone = set()

    def variant(self, t):
        return any(fresh_no(v) > self.mark for v in tm.fvars(t))

    def phi_at(self, r, n):
        d = self.phi_cf.get(r)
        if d is None: return self.phi_hv[r]
        p0 = self.p0[r]
        nn = n if p0.w == 64 else (tm.trunc(n, p0.w) if p0.w < 64 else tm.zext(n, p0.w))
        return add(p0, tm.mul(nn, d))

    def cell_at(self, key, n):
        c = self.cells[key]
        d = c['cf']
        if d is None: return c['var']
        w = c['v0'].w
        nn = n if w == 64 else (tm.trunc(n, w) if w < 64 else tm.zext(n, w))
        return add(c['v0'], tm.mul(nn, d))

    def definitions(self, st, n):
        if self.inv is not None and self.inv.define is not None:
            for a in self.inv.define(self.ex, st, n): st.assume(a)

    def inv_at(self, n):
        if self.inv is None: return {}
        return self.inv.at(n) or {}

    def header_state(self, n, probing):
        ex = self.ex
        st = self.snap.clone()
        fr = st.frames[-1]
        for ins in self.phis: fr.regs[ins.res] = self.phi_at(ins.res, n)
        iv = self.inv_at(n)
        for r, t in iv.get('phis', {}).items(): fr.regs[r] = t
        fr.idx = len(self.phis)
        # memory
        for o, h in self.whole.items():
            c = ex._mut(st, o)
            c.write_bulk(const(0, 64), o.size, (lambda h: lambda k, dec=None: tm.uf('mem', 8, h, k))(h))
        for key in self.cells:
            o, off, size = key
            if o in self.whole: continue
            c = ex._mut(st, o)
            if isinstance(size, int):
                c.write_bytes(off, le_bytes(self.cell_at(key, n)) if size <= 16 else [tm.uf('mem', 8, self.cells[key]['var'], const(i, 64)) for i in range(size)])
            else:
                h = self.cells[key]['var']
                c.write_bulk(off, size, (lambda h: lambda k, dec=None: tm.uf('mem', 8, h, k))(h))
        for o, m in self.maps.items():
            c = ex._mut(st, o)
            c.write_bulk(m['A'], tm.mulc(n, m['D']), m['fn'] or m['unk'])
        for p, ln, fn in iv.get('mem', []):
            o, off = ex.resolve(st, p)
            c = ex._mut(st, o)
            if isinstance(ln, int) and ln <= 512:
                d = ex.dec(st)
                c.write_bytes(off, [fn(const(i, 64), d) for i in range(ln)])
            else:
                c.write_bulk(off, const(ln, 64) if isinstance(ln, int) else ln, fn)
        for k, v in iv.get('ghost', {}).items(): st.ghost[k] = v
        for k in self.ghost_mod:
            if k not in iv.get('ghost', {}):
                raise Unsupported('ghost state %r modified in loop of %s without invariant' % (k, self.fn.name))
        for f in iv.get('facts', []): st.assume(f)
        for f in iv.get('axioms', []): st.assume(f)
        for f in self.facts: st.assume(f(n))
        if self.rel:
            fs = self.inv.soft(n, {i.res: fr.regs[i.res] for i in self.phis}, st)
            for i in self.rel: st.assume(fs[i])
        if self.guard is not None:
            st.assume(Or(eq(n, const(0, 64)), tm.subst(self.guard, {self.n: sub(n, const(1, 64))})))
            if n is self.n:     # the guard holds at every completed iteration: a quantified fact, instantiated on demand (c_str.sat)
                self.ex.__dict__.setdefault('qfacts', {})[n] = [lambda i, g=self.guard, n=n: tm.Implies(ult(i, n), tm.subst(g, {n: i}))]
        ctx = {'depth': self.depth, 'header': self.header, 'blocks': self.blocks, 'const_exit': False, 'iters': 0,
               'force': True, 'uid': 'inv%d' % self.mark, 'f': self.fn, 'n': n}
        st.loops = [c for c in st.loops] + [ctx]
        if probing or True: st.wlog = []
        return st

    def run_body(self, st):
        ex = self.ex
        npc = len(st.pc)
        backs, exits = [], []
        for s in ex.explore([st], self.depth - 1, (self.depth, self.blocks, self.header)):
            if s.done is None and len(s.frames) == self.depth and s.frames[-1].block == self.header and s.frames[-1].prev in self.blocks and s.frames[-1].idx == 0:
                for y in self.split_status(s):
                    x = self.leaves_now(y)
                    if x is not None: exits.append(x)
                    else: backs.append(y)
            else: exits.append(s)
        return backs, exits, npc

    def split_status(self, s):
        """a loop-carried value selected between a constant (a status code) that ends the loop and something else: two back edges"""
        fr = s.frames[-1]
        for i in self.phis:
            v = i.x[0][fr.prev]
            t = self.ex.value(self.mod, fr.regs, i.ty, v, s)
            if t.op != 'ite' or not (t.a[1].op == 'c' or t.a[2].op == 'c') or v[0] != 'loc': continue
            out = []
            for c, arm in ((t.a[0], t.a[1]), (Not(t.a[0]), t.a[2])):
                y = s.clone(); y.assume(c); y.frames[-1].regs[v[1]] = arm
                out.append((y, arm, c))
            if any(arm.op == 'c' and self.leaves_now(y) is not None for y, arm, c in out): return [y for y, arm, c in out if self.ex.feasible(s, c)]
        return [s]

    PURE = {'phi', 'icmp', 'zext', 'sext', 'trunc', 'br', 'select', 'and', 'or', 'xor', 'add', 'sub', 'freeze'}
    def leaves_now(self, s):
        """a back edge on which the loop condition is already known to be false: evaluate the condition and leave the loop"""
        t = None
        fr = s.frames[-1]
        if not any(i.op == 'phi' and self.ex.value(self.mod, fr.regs, i.ty, i.x[0][fr.prev], s).op == 'c' for i in self.phis): return None
        t = s.clone()
        for _ in range(80):
            fr = t.frames[-1]
            if fr.block not in self.blocks: return t
            if _ and fr.block == self.header and fr.idx == 0: return None
            ins = fr.fn.blocks[fr.block][fr.idx]
            if ins.op not in self.PURE: return None
            if ins.op == 'br' and len(ins.x) > 1:
                c = self.ex.value(self.mod, fr.regs, ('i', 1), ins.x[0], t)
                if c.op != 'c' and c not in t.pcset and Not(c) not in t.pcset: return None
            r = self.ex.step(t)
            if r is not None and not (len(r) == 1 and r[0] is t): return None
        return None

    def spec_covers(self, o, off, n, st):
        if isinstance(n, int):        # the piece appended by this iteration, at a constant displacement
            for i, (p, ln, fn) in enumerate(self.inv_at(add(self.n, const(1, 64))).get('mem', [])):
                g = getattr(fn, 'grow', None)
                if g is None or isinstance(ln, int) or ln is not add(g[0], const(g[1], 64)): continue
                r = self.ex.resolve(st, p)
                if r is None or r[0] is not o: continue
                d = sub(off, add(r[1], g[0]))
                if d.op == 'c' and d.v + n <= g[1]:
                    m0 = self.inv_at(self.n).get('mem', [])
                    if i < len(m0) and m0[i][0] is p: self.growing.add(i); return True
        for p, ln, fn in self.inv_at(self.n).get('mem', []):
            r = self.ex.resolve(st, p)
            if r is None or r[0] is not o: continue
            if self.within(st, off, n, r[1], ln): return True
        # a region with fixed start may grow over this iteration (monotone: see final)
        m0, m1 = self.inv_at(self.n).get('mem', []), self.inv_at(add(self.n, const(1, 64))).get('mem', [])
        for i, (p, ln, fn) in enumerate(m1):
            if i >= len(m0) or m0[i][0] is not p or isinstance(ln, int): continue
            r = self.ex.resolve(st, p)
            if r is None or r[0] is not o: continue
            if self.within(st, off, n, r[1], ln):
                self.growing.add(i)
                return True
        return False

    def within(self, st, off, n, a, ln):
        nt = const(n, 64) if isinstance(n, int) else n
        lt = const(ln, 64) if isinstance(ln, int) else ln
        rel = sub(off, a)
        g = And(ule(nt, lt), ule(rel, sub(lt, nt)))
        if g is TRUE: return True
        if g is FALSE: return False
        return self.ex.prove(st, g)[0]

    def back_value(self, s, ins):
        fr = s.frames[-1]
        return self.ex.value(self.mod, fr.regs, ins.ty, ins.x[0][fr.prev], s)

    def probe(self):
        """one discovery round; returns True if anything changed"""
        ex = self.ex
        st = self.header_state(self.n, True)
        g0 = dict(st.ghost)
        backs, exits, npc = self.run_body(st)
        changed = False
        # ghost
        for s in backs:
            for k in s.ghost:
                if s.ghost[k] is not g0.get(k) and s.ghost[k] != g0.get(k) and k not in self.ghost_mod:
                    self.ghost_mod.add(k); changed = True
        # writes
        for s in backs:
            for (o, off, n, val) in s.wlog:
                if o not in self.snap.mem or o in self.whole: continue
                if self.spec_covers(o, off, n, s): continue
                if o in self.maps and self.map_covers(o, off, n, s): continue
                nn = n if isinstance(n, int) else (n.v if n.op == 'c' else None)
                if not self.variant(off) and (nn is not None or not self.variant(n)):
                    key = (o, off, nn if nn is not None else n)
                    if key in self.cells: continue
                    if any(k[0] is o and k[1] is off for k in self.cells if k != key and not isinstance(k[2], int)): 
                        self.set_whole(o); changed = True; continue
                    # covered by an existing larger cell?
                    if any(k[0] is o and self.within(s, off, n, k[1], k[2]) for k in self.cells): continue
                    w = 8 * nn if nn is not None and nn <= 16 else 64
                    v0 = None
                    if nn is not None and nn <= 16:
                        v0 = le(self.snap.mem[o].read_bytes(off, nn, ex.dec(self.snap)))
                    cv = fresh('cell', w)
                    q = ex.resolve(self.snap, v0) if nn == 8 else None
                    if q is not None: cv = add(q[0].addr, cv)
                    self.cells[key] = {'var': cv, 'cf': None, 'v0': v0, 'size': nn, 'obj': q and q[0]}
                    changed = True
                else:
                    if o in self.nomap or any(k[0] is o for k in self.cells) and False:
                        self.set_whole(o); changed = True
                    else:
                        self.try_map(o, s)
                        changed = True
        if changed: return True
        # affine scalars
        for ins in self.phis:
            r = ins.res
            if r in self.phi_cf: continue
            ds = set()
            for s in backs:
                v = self.back_value(s, ins)
                ds.add(sub(v, self.phi_hv[r]))
            if len(ds) == 1:
                d = ds.pop()
                if not self.variant(d):
                    self.phi_cf[r] = d
                    changed = True
        for key, c in self.cells.items():
            if c['cf'] is not None or c['v0'] is None or key[0] in self.whole: continue
            ds = set()
            for s in backs:
                v = le(s.mem[key[0]].read_bytes(key[1], key[2], ex.dec(s)))
                ds.add(sub(v, c['var']))
            if len(ds) == 1:
                d = ds.pop()
                if not self.variant(d):
                    c['cf'] = d
                    changed = True
        if changed: return True
        # maps: fix the element function once scalars are closed
        for o, m in self.maps.items():
            if m['fn'] is None:
                fn = None
                hint = None
                if self.inv is not None and o in self.inv.hints and len(backs) == 1 and m['D'] <= 64:
                    hint = (lambda h, A: lambda k, dec=None: h(add(A, k), dec))(self.inv.hints[o], m['A'])
                    s = backs[0]; d = ex.dec(s); rel = tm.mulc(self.n, m['D'])
                    bs = s.mem[o].read_bytes(add(m['A'], rel), m['D'], d)
                    for j, b in enumerate(bs):
                        if not ex.prove(s, eq(b, hint(add(rel, const(j, 64)), d)))[0]: hint = None; break
                fn = hint or self.map_fn(o, m, backs)
                if fn is None and self.inv is not None and o in self.inv.hints:
                    fn = (lambda h, A: lambda k, dec=None: h(add(A, k), dec))(self.inv.hints[o], m['A'])
                if fn is None:
                    self.nomap.add(o)
                    self.set_whole(o)
                    return True
                m['fn'] = fn
                changed = True
        if changed: return True
        # guard facts
        if self.guard is None:
            alts = []
            for s in backs:
                keep = []
                for p in s.pc[npc:]:
                    if all(v is self.n or fresh_no(v) <= self.mark for v in tm.fvars(p)): keep.append(p)
                alts.append(And(*keep))
            self.guard = Or(*alts) if alts else FALSE
            self.houdini(npc)
            return True
        if self.inv is not None and self.inv.soft is not None:
            if self.rel is None:
                fs = self.inv.soft(const(0, 64), dict(self.p0), self.snap)
                s0 = self.snap.clone()
                self.definitions(s0, const(0, 64))
                for f in self.inv_at(const(0, 64)).get('axioms', []): s0.assume(f)
                self.rel = [i for i, f in enumerate(fs) if ex.prove(s0, f)[0]]
                self.nsoft = len(fs)
                return True
            keep = set(self.rel)
            n1 = add(self.n, const(1, 64))
            for s in backs:
                vals = {i.res: self.back_value(s, i) for i in self.phis}
                fs = self.inv.soft(n1, vals, s)
                self.definitions(s, n1)
                for f in self.inv_at(n1).get('axioms', []): s.assume(f)
                for i in list(keep):
                    if not ex.prove(s, fs[i])[0]: keep.discard(i)
            if len(keep) != len(self.rel):
                self.rel = [i for i in self.rel if i in keep]
                return True
        return False

    def houdini(self, npc):
        ex = self.ex
        cands = []
        def cand_for(p0, d):
            w = p0.w
            if d.op != 'c' or d.v == 0: return
            M = (1 << w) - 1
            sd = tm.tosigned(d.v, w)
            up = lambda t: tm.zext(t, 64) if w < 64 else t
            if w > 64: return
            if sd > 0:
                b1 = tm.udiv(sub(const(M, w), p0), const(sd, w))
                cands.append(lambda n, b=up(b1): ule(n, b))
                if w < 64:
                    b2 = tm.udiv(sub(const(M >> 1, w), p0), const(sd, w))
                    cands.append(lambda n, b=up(b2), q=p0, w=w: And(ule(q, const((1 << (w - 1)) - 1, w)), ule(n, b)))
            else:
                b1 = tm.udiv(p0, const(-sd, w))
                cands.append(lambda n, b=up(b1): ule(n, b))
        for r, d in self.phi_cf.items(): cand_for(self.p0[r], d)
        for key, c in self.cells.items():
            if c['cf'] is not None: cand_for(c['v0'], c['cf'])
        st0 = self.snap
        # base case n = 0
        cands = [c for c in cands if ex.prove(st0, c(const(0, 64)))[0]]
        while True:
            st = self.header_state(self.n, True)
            pc = list(st.pc) + [c(self.n) for c in cands] + [self.guard]
            keep = []
            n1 = add(self.n, const(1, 64))
            for c in cands:
                ok, _ = solver.prove(pc, And(c(n1), Not(eq(n1, const(0, 64)))), 10)
                if ok: keep.append(c)
            if len(keep) == len(cands): break
            cands = keep
        self.facts = cands
        if cands:
            # implied: n+1 does not wrap
            pass

    def set_whole(self, o):
        self.whole[o] = fresh('hv', 64)
        self.maps.pop(o, None)

    # ---- elementwise maps
    def try_map(self, o, s):
        """offsets of the form A + n*D once the scalars are closed; otherwise postpone / give up"""
        n = self.n
        writes = [(off, k, v) for (oo, off, k, v) in s.wlog if oo is o and isinstance(k, int)]
        if len([1 for (oo, off, k, v) in s.wlog if oo is o]) != len(writes):
            self.set_whole(o); return
        # are scalars still being inferred?
        A = D = None
        for off, k, v in writes:
            if not self.variant(off): continue
            c, m = tm.lin(off)
            d = m.get(n, 0)
            rest = {x: y for x, y in m.items() if x is not n}
            a = tm.from_lin(c, rest, 64)
            if self.variant(a) or d == 0:
                self.set_whole_soft(o); return
            if D is None: A, D = a, d
            elif D != d: self.set_whole(o); return
            else:
                df = sub(a, A)
                if df.op != 'c': self.set_whole(o); return
                if tm.tosigned(df.v, 64) < 0: A = a
        if D is None or tm.tosigned(D, 64) <= 0:
            self.set_whole(o); return
        span = 0
        for off, k, v in writes:
            df = sub(sub(off, tm.mulc(n, D)), A)
            if df.op != 'c': self.set_whole(o); return
            span = max(span, df.v + k)
        if span > D: self.set_whole(o); return
        self.whole.pop(o, None)
        for k in [k for k in self.cells if k[0] is o]: del self.cells[k]     # from rounds when the pointer was not yet closed; re-added if still written
        u = fresh('map', 64)
        self.maps[o] = {'A': A, 'D': D, 'fn': None, 'unk': (lambda u: lambda k, dec=None: tm.uf('mem', 8, u, k))(u), 'span': span}

    def set_whole_soft(self, o):
        # temporarily unknown while scalars are inferred; will be retried by retry_soft()
        self.whole[o] = fresh('hv', 64)
        if o in self.softdone: return
        self.softdone.add(o)
        self.soft.add(o)

    def retry_soft(self):
        if not self.soft: return False
        for o in list(self.soft):
            self.whole.pop(o, None)
        self.soft = set()
        return True

    def map_covers(self, o, off, n, s):
        m = self.maps[o]
        a = add(m['A'], tm.mulc(self.n, m['D']))
        return self.within(s, off, n, a, m['D'])

    def map_fn(self, o, m, backs):
        ex = self.ex
        D = m['D']
        n = self.n
        if len(backs) != 1: return None
        s = backs[0]
        base = add(m['A'], tm.mulc(n, D))
        bs = s.mem[o].read_bytes(base, D, ex.dec(s)) if D <= 4096 else None
        if bs is None: return None
        for b in bs:
            for v in tm.fvars(b):
                if v is not n and fresh_no(v) > self.mark: return None
        snapc = self.snap.mem[o]
        def fn(k, dec=None):
            q = tm.udiv(k, const(D, 64)); r = tm.urem(k, const(D, 64))
            if r.op == 'c': return tm.subst(bs[r.v], {n: q})
            t = tm.subst(bs[D - 1], {n: q})
            for i in range(D - 2, -1, -1):
                t = ite(eq(r, const(i, 64)), tm.subst(bs[i], {n: q}), t)
            return t
        return fn

    def infer(self):
        ex = self.ex
        ex.quiet += 1
        try:
            rounds = 0
            while self.probe() or self.retry_soft():
                rounds += 1
                if rounds > 40:
                    raise Unsupported('loop inference does not converge in %s' % self.fn.name)
                if rounds > 12: self.soft = set()
        finally:
            ex.quiet -= 1
        if os_debug:
            print('LOOP', self.fn.name, self.header, self.inv and self.inv.name, 'phis', {k: tm.show(v) for k, v in self.phi_cf.items()}, 'cells', [(k, c['cf']) for k, c in self.cells.items()], 'maps', list(self.maps), 'whole', list(self.whole), 'facts', len(self.facts), 'rel', self.rel, 'guard', self.guard)
    # ---- final checked run
    def check_entry(self):
        """n = 0 holds in the entry state"""
        ex = self.ex
        st = self.snap
        z = const(0, 64)
        self.definitions(st, z)
        iv = self.inv_at(z)
        ok = True
        for f in iv.get('axioms', []): st.assume(f)
        for p, ln, fn in iv.get('mem', []):
            ok &= self.equal_region(st, p, ln, fn, 'loop invariant holds on entry (%s)' % (self.inv.name,))
        for f in iv.get('facts', []):
            ok &= ex.oblige(st, f, 'loop invariant fact on entry (%s)' % (self.inv.name,))
        for r, t in iv.get('phis', {}).items():
            ok &= ex.oblige(st, eq(self.p0[r], t), 'loop invariant phi on entry (%s)' % (self.inv.name,))
        for k, v in iv.get('ghost', {}).items():
            g = self.ghost_equal(st, k, st.ghost.get(k), v)
            ok &= ex.oblige(st, g, 'loop invariant ghost %s on entry (%s)' % (k, self.inv.name))
        return ok

    def ghost_equal(self, st, k, a, b):
        if a is b: return TRUE
        if isinstance(a, tm.T) and isinstance(b, tm.T): return eq(a, b)
        if self.inv is not None and self.inv.ghost_eq is not None:
            return self.inv.ghost_eq(self.ex, st, k, a, b)
        return TRUE if a == b else FALSE

    def equal_region(self, st, p, ln, fn, label):
        ex = self.ex
        o, off = ex.resolve(st, p)
        d = ex.dec(st)
        if isinstance(ln, int) and ln <= 512:
            bs = st.mem[o].read_bytes(off, ln, d)
            want = [fn(const(i, 64), d) for i in range(ln)]
            pr = whole_ids(bs, want)
            if pr is not None:
                if pr[0] is pr[1] or ex.prove(st, eq(*pr))[0]: return ex.oblige(st, eq(*pr), label)
            return ex.oblige(st, eq(le(bs), le(want)) if ln and ln <= 8 else eq_bytes(bs, want), label)
        lt = const(ln, 64) if isinstance(ln, int) else ln
        mx = getattr(fn, 'maxlen', None)
        if mx is not None and ex.prove(st, ule(lt, const(mx, 64)))[0]:
            ok = True
            for i in range(mx):
                s2 = st.clone(); s2.assume(ult(const(i, 64), lt))
                if not ex.feasible(s2, TRUE): break
                d = ex.dec(s2)
                ok &= ex.oblige(s2, eq(st.mem[o].read_bytes(add(off, const(i, 64)), 1, d)[0], fn(const(i, 64), d)), label)
            return ok
        k = fresh('k', 64)
        s2 = st.clone()
        s2.assume(ult(k, lt))
        if not ex.feasible(s2, TRUE): return True
        ok = True
        segs = getattr(fn, 'segs', None)          # the last step extended the region by these segments (start, length)
        if segs is not None:
            for a, l in segs:
                s3 = st.clone(); kk = fresh('k', 64); s3.assume(ult(kk, l)); s3.assume(ult(add(a, kk), lt))
                if not ex.feasible(s3, TRUE): continue
                for s4, (have, want) in ex.cases(s3, lambda d2: (s3.mem[o].read_bytes(add(off, a, kk), 1, d2)[0], fn(add(a, kk), d2))):
                    ok &= ex.oblige(s4, eq(have, want), label)
                s2.assume(Or(ult(k, a), ule(add(a, l), k)))
            if not ex.feasible(s2, TRUE): return ok
        grow = getattr(fn, 'grow', None)          # (base, max): the last step extended the region from base by at most max bytes
        if grow is not None and ex.prove(st, And(ule(grow[0], lt), ule(sub(lt, grow[0]), const(grow[1], 64))))[0]:
            base, mx = grow
            for i in range(mx):
                s3 = st.clone(); s3.assume(ult(const(i, 64), sub(lt, base)))
                if not ex.feasible(s3, TRUE): break
                d = ex.dec(s3)
                ok &= ex.oblige(s3, eq(st.mem[o].read_bytes(add(off, base, const(i, 64)), 1, d)[0], fn(add(base, const(i, 64)), d)), label)
            s2.assume(ult(k, base))
            if not ex.feasible(s2, TRUE): return ok
        for s3, (have, want) in ex.cases(s2, lambda d2: (s2.mem[o].read_bytes(add(off, k), 1, d2)[0], fn(k, d2))):
            ok &= ex.oblige(s3, eq(have, want), label)
        return ok

    def final(self):
        ex = self.ex
        st = self.header_state(self.n, False)
        outer_wlog = self.snap.wlog
        g0 = dict(st.ghost)
        backs, exits, npc = self.run_body(st)
        n1 = add(self.n, const(1, 64))
        if not ex.quiet:
            for s in backs:
                for w in s.wlog:
                    if w[0] in self.snap.mem and w[0] not in self.whole: self.spec_covers(w[0], w[1], w[2], s)
        for s in ([] if ex.quiet else backs):        # obligations are not recorded while probing
            self.definitions(s, n1)
            iv = self.inv_at(n1)
            for f in iv.get('axioms', []): s.assume(f)
            for ins in self.phis:
                r = ins.res
                if r in self.phi_cf:
                    ex.oblige(s, eq(self.back_value(s, ins), self.phi_at(r, n1)), 'loop scalar closed form is inductive')
                elif r in self.ptrphi and r not in iv.get('phis', {}):
                    q = [ex.resolve(s, v) for c, v in ex.ptr_cases(s, self.back_value(s, ins)) if not ex.decide(s, Not(c))]
                    if any(x is None or x[0] is not self.ptrphi[r] for x in q): ex.fail(s, 'loop pointer stays within its object')
            for r, t in iv.get('phis', {}).items():
                ins = [i for i in self.phis if i.res == r][0]
                ex.oblige(s, eq(self.back_value(s, ins), t), 'loop invariant preserved: scalar')
            for key, c in self.cells.items():
                if c['cf'] is not None and key[0] not in self.whole:
                    v = le(s.mem[key[0]].read_bytes(key[1], key[2], ex.dec(s)))
                    ex.oblige(s, eq(v, self.cell_at(key, n1)), 'loop memory scalar closed form is inductive')
                elif c.get('obj') is not None and key[0] not in self.whole:
                    q = ex.resolve(s, le(s.mem[key[0]].read_bytes(key[1], key[2], ex.dec(s))))
                    if q is None or q[0] is not c['obj']: ex.fail(s, 'loop pointer stays within its object')
            for o, m in self.maps.items():
                s.mem[o].freeze()
                self.equal_region(s, add(o.addr, m['A']), tm.mulc(n1, m['D']), m['fn'], 'elementwise loop summary is inductive')
            for p, ln, fn in iv.get('mem', []):
                self.equal_region(s, p, ln, fn, 'loop invariant preserved (%s)' % self.inv.name)
            for f in iv.get('facts', []):
                ex.oblige(s, f, 'loop invariant fact preserved (%s)' % self.inv.name)
            for k, v in iv.get('ghost', {}).items():
                ex.oblige(s, self.ghost_equal(s, k, s.ghost.get(k), v), 'loop invariant ghost %s preserved (%s)' % (k, self.inv.name))
            for k in s.ghost:
                if k not in iv.get('ghost', {}) and s.ghost[k] is not g0.get(k) and s.ghost[k] != g0.get(k):
                    ex.fail(s, 'loop modifies ghost state %s without invariant' % (k,))
            if getattr(self.inv, 'step', None) is not None: self.inv.step(ex, s, self.n)
            for f in self.facts:
                ex.oblige(s, f(n1), 'loop bound fact is inductive')
            if self.rel:
                fs = self.inv.soft(n1, {i.res: self.back_value(s, i) for i in self.phis}, s)
                for i in self.rel: ex.oblige(s, fs[i], 'loop relation is inductive (%s)' % self.inv.name)
            # coverage of writes
            m0, m1 = self.inv_at(self.n).get('mem', []), iv.get('mem', [])
            for i in sorted(self.growing): ex.oblige(s, ule(m0[i][1], m1[i][1]), 'loop region only grows (%s)' % self.inv.name)
            for (o, off, n, val) in s.wlog:
                if o not in self.snap.mem or o in self.whole: continue
                if self.spec_covers(o, off, n, s): continue
                if o in self.maps and self.map_covers(o, off, n, s): continue
                if any(k[0] is o and (k[1] is off and (k[2] == n if isinstance(k[2], int) else k[2] is n) or self.within(s, off, n, k[1], k[2])) for k in self.cells): continue
                ex.fail(s, 'loop write not covered by the invariant', '%r %s' % (o, tm.show(off)))
            # frame: objects released / allocated and left over inside the body
            for o, stt in s.status.items():
                if o in self.snap.status:
                    if self.snap.status[o] != stt: ex.fail(s, 'loop body changes object lifetime', repr(o))
                elif o.kind == 'heap' and stt == 'live':
                    ex.fail(s, 'resource: object allocated in loop iteration is leaked', repr(o))
        res = []
        for s in exits:
            s.loops = [c for c in s.loops if c['uid'] != 'inv%d' % self.mark]
            if outer_wlog is None: s.wlog = None
            else:
                body = s.wlog
                s.wlog = list(outer_wlog) + self.summary_writes() + body
            res.append(s)
        return res

    def summary_writes(self):
        out = []
        for o in self.whole: out.append((o, const(0, 64), o.size, None))
        for k in self.cells:
            if k[0] not in self.whole: out.append((k[0], k[1], k[2], None))
        for o, m in self.maps.items(): out.append((o, m['A'], tm.mulc(self.n, m['D']), None))
        for p, ln, fn in self.inv_at(self.n).get('mem', []):
            o, off = self.ex.resolve(self.snap, p)
            out.append((o, off, ln, None))
        return out

def whole_ids(bs, want):
    """both sides are entire canonical blobs: equality of the ids suffices"""
    def one(xs):
        if len(xs) <= 8: return None
        h = xs[0].a[0] if xs[0].op == 'uf' and xs[0].v == 'mem' else None
        if h is None: return None
        for i, x in enumerate(xs):
            if not (x.op == 'uf' and x.v == 'mem' and x.a[0] is h and x.a[1] is const(i, 64)): return None
        return h
    a = one(bs)
    b = a is not None and one(want)
    return (a, b) if a is not None and b is not None else None

def eq_bytes(a, b):
    return And(*[eq(x, y) for x, y in zip(a, b)]) if a else TRUE

def run_with_invariant(ex, st, header, blocks, depth, spec):
    cands = [None]
    if spec is not None:
        r = spec(ex, st, header, blocks)
        if isinstance(r, Inv): cands = [r]
        elif isinstance(r, list): cands = list(r)
    best = None
    if len(cands) > 1:
        for i, inv in enumerate(cands):
            ob = len(ex.obls)
            q, ex.quiet = ex.quiet, 0
            try:
                if inv is not None and not LoopRun(ex, st.clone(), header, blocks, depth, inv).check_entry(): continue
                run = LoopRun(ex, st.clone(), header, blocks, depth, inv)
                run.infer()
                run.final()
                if all(o.ok for o in ex.obls[ob:]):
                    best = inv; break
            except (Unsupported, NeedInvariant) as e:
                continue
            finally:
                ex.quiet = q
                del ex.obls[ob:]
        else: best = cands[0]
    else: best = cands[0]
    run = LoopRun(ex, st, header, blocks, depth, best)
    run.check_entry()
    run.infer()
    return run.final()

class NeedInvariant(Exception): pass
import os
os_debug = bool(os.environ.get('LOOPDEBUG'))
