"""Symbolic executor / VC generator for LLVM IR with contracts and loop invariants."""
import re, struct, time
from . import term as tm
from . import solver
from . import llparse
from .mem import *
from .term import const, var, fresh, add, sub, mul, eq, ne, ult, ule, ite, And, Or, Not, TRUE, FALSE

class Violation(Exception): pass
class NeedInv(Exception):
    def __init__(self, ctx): self.ctx = ctx
class Abort(Exception): pass

class Obj:
    __slots__ = ('name', 'size', 'align', 'kind', 'addr', 'ro', 'stride', 'data')
    def __init__(self, name, size, kind, align=1, ro=False):
        self.name, self.size, self.kind, self.align, self.ro = name, size, kind, align, ro
        self.addr = None; self.stride = None; self.data = {}
    def __repr__(self): return '<%s %s>' % (self.kind, self.name)

class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'res', 'allocas', 'va')
    def clone(self):
        f = Frame()
        f.fn, f.block, f.idx, f.prev, f.res, f.va = self.fn, self.block, self.idx, self.prev, self.res, self.va
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f

class Dec:
    def __init__(self, ex, st): self.ex, self.st = ex, st
    def __call__(self, c):
        return self.ex.decide(self.st, c)
    def value(self, t):
        if t.op == 'c': return t.v
        return None

class Fork(Exception):
    def __init__(self, c): self.c = c

class ForkDec:
    """like Dec, but an undecided question is answered by a case split"""
    def __init__(self, ex, st): self.ex, self.st = ex, st
    def __call__(self, c):
        r = self.ex.decide(self.st, c)
        if r is None: raise Fork(c)
        return r
    def value(self, t):
        if t.op == 'c': return t.v
        return None

class State:
    def __init__(self):
        self.pc = []
        self.pcset = set()
        self.mem = {}        # Obj -> Content
        self.status = {}     # Obj -> 'live' | 'dead'
        self.frames = []
        self.ghost = {}
        self.trace = []      # human readable events
        self.dcache = {}
        self.loops = []      # active loop contexts (unrolling)
        self.wlog = None     # write log while probing a loop
        self.ret = None
        self.done = None     # 'ret' | 'noreturn:<fn>'
    def clone(self):
        s = State()
        s.pc = list(self.pc); s.pcset = set(self.pcset)
        for o, c in self.mem.items():
            c.freeze()
        s.mem = dict(self.mem)
        s.status = dict(self.status)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.dcache = dict(self.dcache)
        s.loops = [l for l in self.loops]
        s.wlog = None if self.wlog is None else list(self.wlog)
        s.ret = self.ret; s.done = self.done
        return s
    def assume(self, c):
        if c.op == '&' and c.w == 1:
            for x in c.a: self.assume(x)
            return
        if c is TRUE or c in self.pcset: return
        self.pc.append(c); self.pcset.add(c)
    def event(self, *e): self.trace.append(e)

class Obligation:
    __slots__ = ('label', 'ok', 'detail', 'func', 'loc', 'dt')
    def __init__(self, label, ok, func, detail='', loc='', dt=0.0):
        self.label, self.ok, self.func, self.detail, self.loc, self.dt = label, ok, func, detail, loc, dt

PTR = ('ptr',)

class Exec:
    def __init__(self, modules):
        self.modules = modules
        self.global_funcs = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.internal: self.global_funcs[f.name] = f
        self.objs = {}           # addr var -> Obj
        self.globobj = {}        # (mod or None, name) -> Obj
        self.funcaddr = {}       # addr var -> Func / external name
        self.contracts = {}      # function name (without @) -> contract
        self.externals = {}
        self.loop_specs = {}     # (func name) -> list of callables
        self.obls = []
        self.quiet = 0           # >0: probing, obligations not recorded
        self.target = None
        self.steps = 0
        self.max_steps = 20_000_000
        self.timeout = 20.0
        self.nsw = True
        self.failfast = False
        self.inlined = set()
        self.used_contracts = set()
        self.used_externals = set()
        self.unroll_limit = 5000
        self.stop_noreturn = {'abort', 'exit', '_exit', '__assert_fail'}
        self.global_init = {}    # name -> callable(ex, st, obj) overriding initial content
        self.on_free = []
        self.fp = None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, axioms=()):
        """record obligation pc => goal; on failure the path continues under the assumption of goal"""
        if self.quiet:
            st.assume(goal)
            return True
        t0 = time.time()
        ok, r = self.prove(st, goal, axioms)
        fn = st.frames[-1].fn.name if st.frames else (self.target or '?')
        loc = ''
        if st.frames:
            f = st.frames[-1]
            loc = '%s:%s#%d' % (f.fn.name, f.block, f.idx)
        d = ''
        if not ok:
            d = 'status=%s goal=%s' % (r.status, tm.show(goal, 5)) + '\n  path: ' + '; '.join(tm.show(p, 4) for p in st.pc[-12:])
        self.obls.append(Obligation(label, ok, fn, d, loc, time.time() - t0))
        if not ok and self.failfast: raise Violation(label)
        st.assume(goal)
        return ok

    def fail(self, st, label, detail=''):
        if self.quiet: return
        f = st.frames[-1] if st.frames else None
        self.obls.append(Obligation(label, False, f.fn.name if f else (self.target or '?'),
            detail + '\n  path: ' + '; '.join(tm.show(p, 4) for p in st.pc[-12:]),
            '%s:%s#%d' % (f.fn.name, f.block, f.idx) if f else ''))
        if self.failfast: raise Violation(label)

    prove_hooks = ()
    def index_subst(self, st, goal):
        """use equations  k == e  of the path condition to eliminate skolem indices k from the goal"""
        fv = tm.fvars(goal)
        ks = [v for v in fv if v.w == 64 and isinstance(v.v, str) and v.v.startswith('k!')]
        if not ks: return None
        for p in st.pc:
            if p.op != 'eq' or p.a[0].w != 64: continue
            c, m = tm.lin(sub(p.a[0], p.a[1]))
            for k in ks:
                y = m.get(k)
                if y is None or y not in (1, (1 << 64) - 1): continue
                rest = tm.from_lin(c, {x: z for x, z in m.items() if x is not k}, 64)
                if k in tm.fvars(rest): continue
                return tm.subst(goal, {k: sub(const(0, 64), rest) if y == 1 else rest})
        return None
    def prove(self, st, goal, axioms=()):
        if goal is TRUE: return True, solver.Result('unsat')
        g2 = self.index_subst(st, goal)
        if g2 is not None and g2 is not goal: return self.prove(st, g2, axioms)
        if goal.op == '&' and goal.w == 1 and len(goal.a) > 3:
            r = solver.Result('unsat')
            for g in goal.a:
                ok, r = self.prove(st, g, axioms)
                if not ok: return ok, r
            return True, r
        if goal.op == 'eq' and goal.a[0].op == 'uf' and goal.a[1].op == 'uf' and goal.a[0].v == goal.a[1].v and len(goal.a[0].a) == len(goal.a[1].a):
            # congruence first
            r = solver.Result('unsat')
            if goal in st.pcset: return True, r
            good = True
            for x, y in zip(goal.a[0].a, goal.a[1].a):
                if x is y: continue
                g = eq(x, y)
                if g is FALSE or not solver.prove(st.pc + list(axioms), g, min(self.timeout, 10))[0]: good = False; break
            if good: return True, r
        ok, r = solver.prove(st.pc + list(axioms), goal, self.timeout)
        if ok: return ok, r
        for h in self.prove_hooks:
            r2 = h(self, st, goal, axioms)
            if r2: return True, solver.Result('unsat')
        return ok, r

    def decide(self, st, c, timeout=5.0):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pcset: return True
        nc = Not(c)
        if nc in st.pcset: return False
        r = st.dcache.get(c)
        if r is not None:
            if r[0] is not None: return r[0]
            if r[1] == len(st.pc): return None
        rel = solver.relevant(st.pc, c)
        res = None
        if not tm.heavy(c):
            # index arithmetic: facts about abstract byte strings and hash values cannot matter
            lt = [p for p in rel if not tm.heavy(p)]
            if len(lt) < len(rel):
                if solver.check_sat(lt + [c], min(timeout, 1.0), cvc5=False).status == 'unsat': res = False
                elif solver.check_sat(lt + [nc], min(timeout, 1.0), cvc5=False).status == 'unsat': res = True
                st.dcache[c] = (res, len(st.pc))
                return res
        if solver.check_sat(rel + [c], timeout, cvc5=False).status == "unsat": res = False
        elif solver.check_sat(rel + [nc], timeout, cvc5=False).status == "unsat": res = True
        else:
            for h in self.prove_hooks:
                if h(self, st, c, ()): res = True; break
                if h(self, st, nc, ()): res = False; break
        st.dcache[c] = (res, len(st.pc))
        return res

    def feasible(self, st, c, timeout=5.0):
        if c is TRUE: return True
        if c is FALSE or Not(c) in st.pcset: return False
        r = st.dcache.get(c)
        if r is not None and r[0] is not None: return r[0]
        if c is TRUE and st.pc: c = st.pc[-1]
        rel = solver.relevant(st.pc, c)
        res = None
        if c is not TRUE and not tm.heavy(c):
            lt = [p for p in rel if not tm.heavy(p)]
            if len(lt) < len(rel): res = solver.check_sat(lt + [c], min(timeout, 1.0), cvc5=False).status
        if res is None: res = solver.check_sat(rel + [c], timeout, cvc5=False).status
        if res == 'unsat':
            if c not in st.pcset: st.dcache[c] = (False, 0)
            return False
        return True

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind, align=1, content=None, ro=False):
        if isinstance(size, int): size = const(size, 64)
        o = Obj(name, size, kind, align, ro)
        o.addr = fresh('&' + name, 64)
        if align > 1: tm.ALIGNED[o.addr] = align.bit_length() - 1
        self.objs[o.addr] = o
        if content is None:
            content = Content(uf_base('undef:%s' % o.addr.v))
        st.mem[o] = content
        st.status[o] = 'live'
        return o

    def global_obj(self, st, mod, name):
        internal = name in mod.globals and mod.globals[name][3]
        key = (mod if internal else None, name)
        o = self.globobj.get(key)
        if o is None:
            g = mod.globals.get(name)
            gm = mod
            if g is None or g[1] is None:
                for m in self.modules:
                    g2 = m.globals.get(name)
                    if g2 is not None and g2[1] is not None and not g2[3]:
                        g = g2; gm = m; break
            ty = g[0]
            o = Obj(name, const(self.sizeof(gm, ty), 64), 'global', g[4], g[2])
            o.addr = var('&%s%s' % (name, '' if key[0] is None else '.%s' % mod.path.rsplit('/', 1)[-1]), 64)
            o.data['init'] = (gm, ty, g[1])
            self.objs[o.addr] = o
            self.globobj[key] = o
        if o not in st.mem:
            gm, ty, init = o.data['init']
            if o.name in self.global_init:
                st.mem[o] = self.global_init[o.name](self, st, o)
            elif init is not None:
                st.mem[o] = bytes_content(self.const_bytes(gm, ty, init, st))
            else:
                st.mem[o] = Content(uf_base('glob:%s' % name))
            st.status[o] = 'live'
        return o

    def func_addr(self, mod, name):
        f = mod.funcs.get(name)
        if f is None:
            f = self.global_funcs.get(name)
        if f is not None and f.internal:
            v = var('&fn:%s:%s' % (mod.path.rsplit('/', 1)[-1], name), 64)
        else:
            v = var('&fn:%s' % name, 64)
        self.funcaddr[v] = f if f is not None else name
        return v

    # ------------------------------------------------------------ types
    def resolve_ty(self, mod, ty):
        while ty[0] == 'named': ty = mod.types[ty[1]]
        return ty
    def sizeof(self, mod, ty):
        ty = self.resolve_ty(mod, ty)
        k = ty[0]
        if k == 'i': return (ty[1] + 7) // 8 if ty[1] <= 8 else 1 << ((ty[1] + 7) // 8 - 1).bit_length()
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'arr': return ty[1] * self.sizeof(mod, ty[2])
        if k == 'vec': return ty[1] * self.sizeof(mod, ty[2])
        if k == 'st': return self.layout(mod, ty)[1]
        if k == 'x86_fp80': return 16
        raise Unsupported('sizeof %r' % (ty,))
    def alignof(self, mod, ty):
        ty = self.resolve_ty(mod, ty)
        k = ty[0]
        if k in ('i', 'ptr', 'double', 'float', 'vec', 'x86_fp80'): return min(16, self.sizeof(mod, ty))
        if k == 'arr': return self.alignof(mod, ty[2])
        if k == 'st':
            if ty[2]: return 1
            return max([self.alignof(mod, t) for t in ty[1]] + [1])
        raise Unsupported('alignof %r' % (ty,))
    def layout(self, mod, ty):
        offs = []; o = 0; al = 1
        for t in ty[1]:
            a = 1 if ty[2] else self.alignof(mod, t)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.sizeof(mod, t)
        return offs, (o + al - 1) // al * al
    def bits(self, mod, ty):
        ty = self.resolve_ty(mod, ty)
        k = ty[0]
        if k == 'i': return ty[1]
        if k in ('ptr', 'double'): return 64
        if k == 'float': return 32
        if k == 'vec': return ty[1] * self.bits(mod, ty[2])
        if k == 'x86_fp80': return 80
        raise Unsupported('bits %r' % (ty,))

    # ------------------------------------------------------------ constants
    def fpconst(self, s, ty):
        if ty[0] == 'double':
            if s.startswith('0x'): return const(int(s, 16), 64)
            return const(struct.unpack('<Q', struct.pack('<d', float(s)))[0], 64)
        raise Unsupported('fp const %r' % (ty,))

    def const_bytes(self, mod, ty, v, st):
        ty = self.resolve_ty(mod, ty)
        k = ty[0]
        n = self.sizeof(mod, ty)
        if v[0] == 'zero': return [const(0, 8)] * n
        if v[0] in ('undef', 'poison'): return [const(0, 8)] * n
        if k == 'arr':
            if v[0] == 'str': return [const(b, 8) for b in v[1]]
            r = []
            for (t, x) in v[1]: r += self.const_bytes(mod, t, x, st)
            return r
        if k == 'st':
            offs, size = self.layout(mod, ty)
            r = [const(0, 8)] * size
            for o, (t, x) in zip(offs, v[1]):
                b = self.const_bytes(mod, t, x, st)
                r[o:o + len(b)] = b
            return r
        t = self.value(mod, None, ty, v, st)
        if t.w % 8: t = tm.zext(t, n * 8)
        return le_bytes(t)

    def value(self, mod, regs, ty, v, st):
        k = v[0]
        if k == 'loc': return regs[v[1]]
        if k == 'int': return const(v[1], self.bits(mod, ty))
        if k == 'null': return const(0, 64)
        if k == 'zero': return const(0, self.bits(mod, ty))
        if k in ('undef', 'poison'): return fresh(k, self.bits(mod, ty)) if self.resolve_ty(mod, ty)[0] != 'vec' else const(0, self.bits(mod, ty))
        if k == 'fp': return self.fpconst(v[1], ty)
        if k == 'glb':
            name = v[1]
            if name in mod.funcs or name in mod.decls: return self.func_addr(mod, name)
            return self.global_obj(st, mod, name).addr
        if k == 'agg':
            t = self.resolve_ty(mod, ty)
            if t[0] == 'vec':
                return tm.cat(*reversed([self.value(mod, regs, et, x, st) for et, x in v[1]]))
        if k == 'ce':
            if v[1] == 'gep':
                base = self.value(mod, regs, *v[3][0], st)
                return self.gep(mod, v[2], base, [(t, self.value(mod, regs, t, x, st)) for t, x in v[3][1:]])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.value(mod, regs, v[2], v[3], st)
            if v[1] in ('sub', 'add'):
                a = self.value(mod, regs, v[2], v[3], st); b = self.value(mod, regs, v[2], v[4], st)
                return sub(a, b) if v[1] == 'sub' else add(a, b)
            if v[1] == 'trunc': return tm.trunc(self.value(mod, regs, v[2], v[3], st), self.bits(mod, v[4]))
        if k == 'ba': return var('&blk:%s:%s' % (v[1], v[2]), 64)
        raise Unsupported('value %r' % (v,))

    def gep(self, mod, bt, base, idx):
        t = bt
        off = base
        first = True
        for ty, ix in idx:
            ix = tm.sext(ix, 64) if ix.w < 64 else ix
            if first:
                off = add(off, tm.mulc(ix, self.sizeof(mod, t)))
                first = False
                continue
            t = self.resolve_ty(mod, t)
            if t[0] in ('arr', 'vec'):
                t = t[2]
                off = add(off, tm.mulc(ix, self.sizeof(mod, t)))
            elif t[0] == 'st':
                offs, _ = self.layout(mod, t)
                off = add(off, const(offs[ix.v], 64))
                t = t[1][ix.v]
            else: raise Unsupported('gep into %r' % (t,))
        return off

    # ------------------------------------------------------------ pointers
    def resolve(self, st, p):
        """-> (obj, offset term) or raises"""
        c, m = tm.lin(p)
        hit = None
        for x, k in m.items():
            if k == 1 and x in self.objs:
                if hit is not None: hit = None; break
                hit = x
        if hit is None: return None
        return self.objs[hit], sub(p, hit)

    def ptr_cases(self, st, p):
        """split a pointer term containing ite over objects: -> list of (cond, ptr)"""
        r = self.resolve(st, p)
        if r is not None: return [(TRUE, p)]
        for t in tm.nodes([p]):
            if t.op == 'ite' and t.w == 64:
                c = t.a[0]
                return [(And(c, c1), p1) for c1, p1 in self.ptr_cases(st, tm.subst(p, {t: t.a[1]}))] + \
                       [(And(Not(c), c1), p1) for c1, p1 in self.ptr_cases(st, tm.subst(p, {t: t.a[2]}))]
        return [(TRUE, p)]

    def access(self, st, p, n, what):
        """check an access of n (int or term) bytes at p; returns (obj, off)"""
        r = self.resolve(st, p)
        nt = const(n, 64) if isinstance(n, int) else n
        if r is None:
            if nt.op == 'c' and nt.v == 0: return None
            self.fail(st, 'memory-safety: %s through invalid pointer' % what, 'pointer %s' % tm.show(p))
            raise Abort('invalid pointer %s' % tm.show(p))
        o, off = r
        if nt.op == 'c' and nt.v == 0: return o, off
        if st.status.get(o) != 'live':
            self.fail(st, 'memory-safety: %s of released object %s' % (what, o.name))
            raise Abort('dead object')
        if what == 'write' and o.ro:
            self.fail(st, 'memory-safety: write to constant %s' % o.name)
            raise Abort('const write')
        self.oblige(st, self.inbounds(o, off, nt), 'memory-safety: %s in bounds of %s' % (what, o.name))
        return o, off

    def inbounds(self, o, off, n):
        if o.stride is not None:
            return o.stride.inbounds(o, off, n)
        return And(ule(n, o.size), ule(off, sub(o.size, n)))

    def dec(self, st): return Dec(self, st)
    def cases(self, st, f, limit=40):
        """evaluate f(dec) (a memory read) under a complete case split: list of (state, value)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                if len(out) + len(work) > limit: out.append((s, f(Dec(self, s))))
                else: out.append((s, f(ForkDec(self, s))))
            except Fork as e:
                for c in (e.c, Not(e.c)):
                    s2 = s.clone(); s2.assume(c)
                    if self.feasible(s2, c): work.append(s2)
        return out

    def load_bytes(self, st, p, n):
        o, off = self.access(st, p, n, 'read')
        return st.mem[o].read_bytes(off, n, Dec(self, st))

    def load(self, st, p, n):
        return le(self.load_bytes(st, p, n))

    def _mut(self, st, o):
        c = st.mem[o].mutable()
        st.mem[o] = c
        return c

    def store_bytes(self, st, p, bs):
        o, off = self.access(st, p, len(bs), 'write')
        self._mut(st, o).write_bytes(off, bs)
        if st.wlog is not None: st.wlog.append((o, off, len(bs), list(bs)))

    def store(self, st, p, t):
        self.store_bytes(st, p, le_bytes(t))

    def region_fn(self, st, p, n):
        """snapshot of n bytes at p as a function k->byte (checked readable)"""
        r = self.access(st, p, n, 'read')
        if r is None: return lambda k, dec=None: const(0, 8)
        o, off = r
        c = st.mem[o].freeze()
        d0 = Dec(self, st)
        def fn(k, dec=None):
            return c.read_bytes(add(off, k), 1, dec or d0)[0]
        fn.src = (c, off)
        return fn

    def write_region(self, st, p, n, fn, bulk=False):
        r = self.access(st, p, n, 'write')
        if r is None: return
        o, off = r
        nt = const(n, 64) if isinstance(n, int) else n
        d = Dec(self, st)
        c = self._mut(st, o)
        if nt.op == 'c' and nt.v <= 512 and o.stride is None and not bulk:
            bs = [fn(const(i, 64), d) for i in range(nt.v)]
            c.write_bytes(off, bs)
        else:
            c.write_bulk(off, nt, fn)
        if st.wlog is not None: st.wlog.append((o, off, nt.v if nt.op == 'c' else nt, fn))

    def memcpy(self, st, dst, src, n):
        if n.op == 'c' and n.v <= 512:
            if n.v == 0: return
            bs = self.load_bytes(st, src, n.v)
            self.store_bytes(st, dst, bs)
            return
        fn = self.region_fn(st, src, n)
        self.write_region(st, dst, n, fn)

    def havoc(self, st, p, n, tag='havoc'):
        h = fresh(tag, 64)
        self.write_region(st, p, n, lambda k, dec=None: tm.uf('mem', 8, h, k))

    # ------------------------------------------------------------ running
    def start(self, st, f, args):
        fr = Frame()
        fr.fn = f; fr.block = f.order[0]; fr.idx = 0; fr.prev = None; fr.res = None; fr.allocas = []; fr.va = []
        fr.regs = {}
        for (t, n), a in zip(f.params, args): fr.regs[n] = a
        st.frames.append(fr)

    def run_function(self, st, f, args):
        """execute to completion; returns list of final states (ret in st.ret)"""
        base = len(st.frames)
        if not base: st.done = None; st.ret = None
        self.start(st, f, args[:len(f.params)])
        st.frames[-1].va = list(args[len(f.params):])
        return self.explore([st], base, None)

    def explore(self, states, base, loop):
        """run until frame depth <= base (returned) or, with loop=(depth, blocks), the frame leaves the loop.
        Returns the list of stopped states."""
        out = []
        work = list(states)
        while work:
            st = work.pop()
            while True:
                if st.done is not None and st.done != 'ret' or len(st.frames) <= base:
                    out.append(st); break
                fr = st.frames[-1]
                if loop is not None and len(st.frames) == loop[0] and fr.block not in loop[1]:
                    out.append(st); break
                if loop is not None and loop[2] is not None and len(st.frames) == loop[0] and fr.idx == 0 and fr.block == loop[2] and fr.prev in loop[1]:
                    out.append(st); break
                # entering a (different) loop?
                if fr.idx == 0:
                    lp = fr.fn.loops().get(fr.block)
                    if lp is not None and fr.prev not in lp and not (st.loops and any(
                            c['depth'] == len(st.frames) and c['header'] == fr.block for c in st.loops)):
                        try:
                            res = self.enter_loop(st, fr.block, lp, base)
                        except Abort as e:
                            break
                        work.extend(res)
                        break
                try:
                    nxt = self.step(st)
                except Abort as e:
                    break
                if nxt is None: continue
                if len(nxt) == 1 and nxt[0] is st: continue
                work.extend(reversed(nxt))
                break
        return out

    def find_loop_spec(self, st, header):
        f = st.frames[-1].fn
        return self.loop_specs.get(f.name.lstrip('@')) or self.loop_specs.get('*')

    def enter_loop(self, st, header, blocks, base):
        depth = len(st.frames)
        mode = inv = None
        spec = self.find_loop_spec(st, header)
        if spec is not None:
            inv = spec(self, st, header, blocks)
            if inv == 'unroll': mode = 'unroll'
            elif inv is not None and not getattr(inv, 'auto', False): mode = 'inv'
        if mode != 'inv':
            snap = st.clone()
            ctx = {'depth': depth, 'header': header, 'blocks': blocks, 'const_exit': False, 'iters': 0, 'force': mode == 'unroll', 'uid': fresh('L', 1).v, 'f': st.frames[-1].fn}
            st.loops.append(ctx)
            nob = len(self.obls)
            try:
                res = self.explore([st], depth - 1, (depth, blocks, None))
                for s in res:
                    s.loops = [c for c in s.loops if c['uid'] != ctx['uid']]
                return res
            except NeedInv as e:
                if e.ctx['uid'] != ctx['uid']: raise
                del self.obls[nob:]
                st = snap
        from . import loops
        given = spec if inv is None or isinstance(inv, str) else lambda *a: inv
        peel = getattr(inv, 'peel', 0) if inv is not None and not isinstance(inv, str) else 0
        if not peel: return loops.run_with_invariant(self, st, header, blocks, depth, given)
        # the first `peel` iterations are executed as they are; the invariant covers the rest
        heads, res = [st], []
        for _ in range(peel):
            nxt = []
            for h in heads:
                ctx = {'depth': depth, 'header': header, 'blocks': blocks, 'const_exit': False, 'iters': 0, 'force': True, 'uid': fresh('L', 1).v, 'f': h.frames[-1].fn}
                h.loops = h.loops + [ctx]
                if h.frames[-1].prev in blocks:       # a later iteration: step over the stop condition at the header
                    while h.frames[-1].fn.blocks[header][h.frames[-1].idx].op == 'phi': self.step(h)
                    if h.frames[-1].idx == 0: self.step(h)
                for s in self.explore([h], depth - 1, (depth, blocks, header)):
                    s.loops = [c for c in s.loops if c['uid'] != ctx['uid']]
                    at = s.done is None and len(s.frames) == depth and s.frames[-1].block == header and s.frames[-1].prev in blocks
                    (nxt if at else res).append(s)
            heads = nxt
        for h in heads: res += loops.run_with_invariant(self, h, header, blocks, depth, given)
        return res

    def branch_exits(self, st, targets):
        """called with a symbolic branch; decides whether the innermost loop needs an invariant"""
        pass

    def goto(self, st, target):
        fr = st.frames[-1]
        fr.prev = fr.block
        fr.block = target
        fr.idx = 0
        for ctx in st.loops:
            if ctx['depth'] == len(st.frames) and ctx['header'] == target and fr.prev in ctx['blocks']:
                ni = dict(ctx); ni['iters'] += 1
                if not ctx['force']: ni['const_exit'] = False
                if not ctx['force'] and ctx.get('forks', 0) > 12 and ni['iters'] > 8: raise NeedInv(ctx)
                if ni['iters'] > self.unroll_limit: raise Unsupported('unroll limit in %s' % fr.fn.name)
                st.loops = [ni if c is ctx else c for c in st.loops]
                break

    def cond_branch(self, st, cases):
        """cases: list of (cond, target).  Returns successor states"""
        fr = st.frames[-1]
        live = []
        for c, t in cases:
            if c is FALSE: continue
            live.append((c, t))
        if len(live) > 1:
            live = [(c, t) for c, t in live if self.feasible(st, c)]
        ctx = None
        for cx in reversed(st.loops):
            if cx['depth'] == len(st.frames) and fr.block in cx['blocks']:
                ctx = cx; break
        if ctx is not None:
            exits = [t for c, t in cases if t not in ctx['blocks']]
            stays = [t for c, t in cases if t in ctx['blocks']]
            if exits and stays:
                kinds = set(t in ctx['blocks'] for c, t in live)
                if len(kinds) == 1:
                    if not ctx['const_exit']:
                        n = dict(ctx); n['const_exit'] = True
                        st.loops = [n if c is ctx else c for c in st.loops]
                elif not ctx['const_exit'] and not ctx['force']:
                    raise NeedInv(ctx)
                elif not ctx['force']:
                    n = dict(ctx); n['sym'] = n.get('sym', 0) + 1
                    if n['sym'] > 80: raise NeedInv(ctx)
                    st.loops = [n if c is ctx else c for c in st.loops]
        if not live: return []
        out = []
        if len(live) == 2 and self.merge_ifs and live[0][1] != live[1][1]:
            m = self.merged_if(st, live)
            if m is not None: return [m]
        if len(live) == 1:
            st.assume(live[0][0])
            self.goto(st, live[0][1])
            return [st]
        for i, (c, t) in enumerate(live):
            s = st.clone() if i < len(live) - 1 else st
            s.assume(c)
            self.goto(s, t)
            out.append(s)
        return out

    merge_ifs = False
    def merged_if(self, st, live):
        """if (c) { B }  with a small B: one successor state whose memory and phis are if-then-else terms (None: not of this shape)"""
        fr = st.frames[-1]; fn = fr.fn; loops = fn.loops()
        def simple(b):
            t = fn.blocks[b][-1]
            return t.x[0] if t.op == 'br' and len(t.x) == 1 and b not in loops and self.preds(fn, b) == 1 else None
        (c0, b0), (c1, b1) = live
        if simple(b0) == b1: arms, join = [(c0, b0), (c1, None)], b1
        elif simple(b1) == b0: arms, join = [(c1, b1), (c0, None)], b0
        elif simple(b0) is not None and simple(b0) == simple(b1): arms, join = [(c0, b0), (c1, b1)], simple(b0)
        else: return None
        if join in loops: return None
        base, depth = st.clone(), len(st.frames)
        res = []
        nob = len(self.obls)
        for c, b in arms:
            s = base.clone(); s.assume(c); s.wlog = []
            if b is not None:
                self.goto(s, b)
                outs = self.explore([s], depth - 1, (depth, {b}, None))
                if len(outs) != 1 or outs[0].done is not None or len(outs[0].frames) != depth or outs[0].frames[-1].block != join:
                    del self.obls[nob:]; return None
                s = outs[0]
            else: self.goto(s, join)
            res.append(s)
        cond = arms[0][0]
        r = self.merge_states(base, cond, res[0], res[1])
        if r is None: del self.obls[nob:]
        return r
    def preds(self, fn, b):
        pr = getattr(fn, '_preds', None)
        if pr is None:
            pr = fn._preds = {}
            for x in fn.order:
                for t in set(fn.succs(x)): pr[t] = pr.get(t, 0) + 1
        return pr.get(b, 0)
    def merge_states(self, base, cond, x, y):
        """the state that is x if cond holds and y otherwise; x and y extend base by writes (x.wlog, y.wlog since base) only"""
        if x.trace != y.trace or x.ghost != y.ghost or set(x.mem) != set(y.mem) or x.status != y.status: return None
        if any(not isinstance(w[2], int) for w in x.wlog + y.wlog): return None
        fx, fy = x.frames[-1], y.frames[-1]
        blk = fx.fn.blocks[fx.block]
        regs = dict(fy.regs); regs.update(fx.regs)
        i = 0
        while blk[i].op == 'phi':
            ins = blk[i]
            a = self.value(fx.fn.mod, fx.regs, ins.ty, ins.x[0][fx.prev], x); b = self.value(fx.fn.mod, fy.regs, ins.ty, ins.x[0][fy.prev], y)
            if a is not b and not (hasattr(a, 'w') and hasattr(b, 'w')): return None
            regs[ins.res] = a if a is b else ite(cond, a, b)
            i += 1
        m = base.clone()
        f = m.frames[-1]
        f.regs, f.block, f.prev, f.idx = regs, fx.block, fx.prev, i
        m.mem = dict(x.mem); m.status = dict(x.status); m.trace = list(x.trace); m.ghost = dict(x.ghost)
        for o in base.mem: m.mem[o] = base.mem[o]
        n0 = len(base.pc)
        for s, c in ((x, cond), (y, Not(cond))):
            for p in s.pc[n0:]:
                if p is not c: m.assume(Or(Not(c), p))
        done = set()
        for (o, off, n, v) in x.wlog + y.wlog:
            if (o, off, n) in done: continue
            done.add((o, off, n))
            if o not in base.mem: continue
            bx, by = x.mem[o].read_bytes(off, n, self.dec(x)), y.mem[o].read_bytes(off, n, self.dec(y))
            self._mut(m, o).write_bytes(off, [p if p is q else ite(cond, p, q) for p, q in zip(bx, by)])
        if m.wlog is not None: m.wlog += x.wlog + y.wlog
        return m

    def step(self, st):
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported('step limit')
        fr = st.frames[-1]
        mod = fr.fn.mod
        ins = fr.fn.blocks[fr.block][fr.idx]
        op = ins.op
        V = lambda ty, v: self.value(mod, fr.regs, ty, v, st)
        if op == 'phi':
            vals = []
            blk = fr.fn.blocks[fr.block]
            i = fr.idx
            while blk[i].op == 'phi':
                vals.append((blk[i].res, V(blk[i].ty, blk[i].x[0][fr.prev])))
                i += 1
            for r, v in vals: fr.regs[r] = v
            fr.idx = i
            return None
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instruction %s' % ins.text)
        return h(st, fr, mod, ins, V)

    def i_extractvalue(self, st, fr, mod, ins, V):
        v = V(ins.ty, ins.x[0])
        for i in ins.x[1]:
            if not isinstance(v, tuple): raise Unsupported('instruction %s' % ins.text)
            v = v[i]
        fr.regs[ins.res] = v
        fr.idx += 1
        return None

    # -- terminators
    def i_br(self, st, fr, mod, ins, V):
        if len(ins.x) == 1:
            self.goto(st, ins.x[0]); return None
        c = V(('i', 1), ins.x[0])
        if ins.x[1] == ins.x[2]:
            self.goto(st, ins.x[1]); return None
        return self.cond_branch(st, [(c, ins.x[1]), (Not(c), ins.x[2])])
    def i_switch(self, st, fr, mod, ins, V):
        v = V(ins.ty, ins.x[0])
        by = {}
        dflt = TRUE
        for k, t in ins.x[2]:
            c = eq(v, const(k, v.w))
            by[t] = Or(by.get(t, FALSE), c)
            dflt = And(dflt, Not(c))
        by[ins.x[1]] = Or(by.get(ins.x[1], FALSE), dflt)
        return self.cond_branch(st, [(c, t) for t, c in by.items()])
    def i_indirectbr(self, st, fr, mod, ins, V):
        v = V(('ptr',), ins.x[0])
        cases = []
        for b in ins.x[1]:
            cases.append((eq(v, var('&blk:%s:%s' % (fr.fn.name, b), 64)), b))
        # block addresses are distinct constants
        if v.op == 'v':
            for c, b in cases:
                if c is TRUE:
                    self.goto(st, b); return None
        raise Unsupported('symbolic indirectbr')
    def i_unreachable(self, st, fr, mod, ins, V):
        self.oblige(st, FALSE, 'unreachable code not reached')
        return []
    def i_ret(self, st, fr, mod, ins, V):
        v = None
        if ins.ty[0] != 'void': v = V(ins.ty, ins.x[0])
        self.do_return(st, v)
        return None
    def do_return(self, st, v):
        fr = st.frames.pop()
        st.loops = [c for c in st.loops if c['depth'] <= len(st.frames)]
        hook = getattr(self, 'frame_exit_hook', None)
        if hook: hook(self, st, fr)
        for o in fr.allocas:
            st.status[o] = 'dead'
        if not st.frames:
            st.ret = v; st.done = 'ret'
        else:
            st.ret = v
            if fr.res is not None: st.frames[-1].regs[fr.res] = v

    # -- memory
    def i_alloca(self, st, fr, mod, ins, V):
        n = 1
        if ins.x[0] is not None:
            nv = V(*ins.x[0]); n = nv.v
        o = self.new_obj(st, '%s.%s' % (fr.fn.name.lstrip('@'), ins.res.lstrip('%')), self.sizeof(mod, ins.ty) * n, 'stack', ins.x[1])
        o.data['ty'] = ins.ty
        fr.allocas.append(o)
        fr.regs[ins.res] = o.addr
        fr.idx += 1
    def split_ptr(self, st, ptr):
        """if the pointer is an ite over objects, fork; returns list of states or None"""
        if self.resolve(st, ptr) is not None: return None
        cs = self.ptr_cases(st, ptr)
        if len(cs) == 1: return None
        out = []
        for c, p in cs:
            if not self.feasible(st, c): continue
            s = st.clone(); s.assume(c)
            fr = s.frames[-1]
            for k, v in list(fr.regs.items()):
                if v is ptr: fr.regs[k] = p
            out.append(s)
        return out
    def i_load(self, st, fr, mod, ins, V):
        p = V(PTR, ins.x[0])
        r = self.split_ptr(st, p)
        if r is not None: return r
        n = self.sizeof(mod, ins.ty)
        t = self.load(st, p, n)
        b = self.bits(mod, ins.ty)
        if b < t.w: t = tm.trunc(t, b)
        fr.regs[ins.res] = t
        fr.idx += 1
    def i_store(self, st, fr, mod, ins, V):
        v = V(ins.ty, ins.x[0]); p = V(PTR, ins.x[1])
        r = self.split_ptr(st, p)
        if r is not None: return r
        n = self.sizeof(mod, ins.ty)
        if v.w < 8 * n: v = tm.zext(v, 8 * n)
        self.store(st, p, v)
        fr.idx += 1
    def i_getelementptr(self, st, fr, mod, ins, V):
        bt, ops = ins.x
        base = V(*ops[0])
        fr.regs[ins.res] = self.gep(mod, bt, base, [(t, V(t, x)) for t, x in ops[1:]])
        fr.idx += 1

    # -- arithmetic
    def lanes(self, mod, ty):
        ty = self.resolve_ty(mod, ty)
        if ty[0] == 'vec': return ty[1], self.bits(mod, ty[2]), ty[2]
        return 1, self.bits(mod, ty), ty
    def binop(self, st, op, a, b, flags):
        w = a.w
        if op == 'add':
            r = add(a, b)
            if 'nsw' in flags and self.nsw and not (a.op == 'c' and b.op == 'c'):
                s = add(tm.sext(a, w + 1), tm.sext(b, w + 1))
                self.oblige(st, eq(s, tm.sext(r, w + 1)), 'no signed overflow (add)')
            return r
        if op == 'sub':
            r = sub(a, b)
            if 'nsw' in flags and self.nsw and not (a.op == 'c' and b.op == 'c'):
                s = sub(tm.sext(a, w + 1), tm.sext(b, w + 1))
                self.oblige(st, eq(s, tm.sext(r, w + 1)), 'no signed overflow (sub)')
            return r
        if op == 'mul':
            r = mul(a, b)
            if 'nsw' in flags and self.nsw and not (a.op == 'c' and b.op == 'c'):
                s = mul(tm.sext(a, 2 * w), tm.sext(b, 2 * w))
                self.oblige(st, eq(s, tm.sext(r, 2 * w)), 'no signed overflow (mul)')
            return r
        if op in ('shl', 'lshr', 'ashr'):
            if b.op != 'c': self.oblige(st, ult(b, const(w, w)), 'shift amount in range')
            elif b.v >= w: self.fail(st, 'shift amount in range')
            if op == 'shl' and 'nsw' in flags and self.nsw and not (a.op == 'c' and b.op == 'c'):
                r = tm.shl(a, b)
                self.oblige(st, eq(tm.ashr(r, b), a), 'no signed overflow (shl)')
                return r
            return {'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}[op](a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b.op != 'c' or b.v == 0:
                self.oblige(st, ne(b, const(0, w)), 'no division by zero')
            if op[0] == 's' and not (b.op == 'c' and b.v not in ((1 << w) - 1,)):
                self.oblige(st, Not(And(eq(b, const(-1, w)), eq(a, const(1 << (w - 1), w)))), 'no signed overflow (division)')
            if op == 'udiv' and b.op == 'shl' and b.a[0].op == 'c' and b.a[0].v == 1 and self.decide(st, ult(b.a[1], const(w, w))): return tm.lshr(a, b.a[1])
            return getattr(tm, op)(a, b)
        if op == 'and': return tm.band(a, b)
        if op == 'or': return tm.bor(a, b)
        if op == 'xor': return tm.bxor(a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return self.fpop(st, op, a, b)
        raise Unsupported(op)
    def fpop(self, st, op, *a):
        if self.fp is not None: return self.fp.op(self, st, op, *a)
        return tm.uf(op, a[0].w, *a)
    def _bin(self, st, fr, mod, ins, V):
        a = V(ins.ty, ins.x[0]); b = V(ins.ty, ins.x[1])
        n, w, et = self.lanes(mod, ins.ty)
        if n == 1: r = self.binop(st, ins.op, a, b, ins.flags)
        elif ins.op in ('and', 'or', 'xor'): r = self.binop(st, ins.op, a, b, ins.flags)
        else:
            r = tm.cat(*reversed([self.binop(st, ins.op, tm.ext(a, i * w + w - 1, i * w), tm.ext(b, i * w + w - 1, i * w), ins.flags) for i in range(n)]))
        fr.regs[ins.res] = r
        fr.idx += 1
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = _bin
    def i_fneg(self, st, fr, mod, ins, V):
        a = V(ins.ty, ins.x[0])
        fr.regs[ins.res] = tm.bxor(a, const(1 << (a.w - 1), a.w)); fr.idx += 1
    def i_freeze(self, st, fr, mod, ins, V):
        fr.regs[ins.res] = V(ins.ty, ins.x[0]); fr.idx += 1
    def i_icmp(self, st, fr, mod, ins, V):
        pr, a, b = ins.x
        a = V(ins.ty, a); b = V(ins.ty, b)
        n, w, et = self.lanes(mod, ins.ty)
        def c(a, b):
            if pr == 'eq': return eq(a, b)
            if pr == 'ne': return ne(a, b)
            if pr == 'ult': return ult(a, b)
            if pr == 'ule': return ule(a, b)
            if pr == 'ugt': return ult(b, a)
            if pr == 'uge': return ule(b, a)
            if pr == 'slt': return tm.slt(a, b)
            if pr == 'sle': return tm.sle(a, b)
            if pr == 'sgt': return tm.slt(b, a)
            if pr == 'sge': return tm.sle(b, a)
        if n > 1:
            r = tm.cat(*reversed([c(tm.ext(a, i * w + w - 1, i * w), tm.ext(b, i * w + w - 1, i * w)) for i in range(n)]))
        else:
            if self.resolve_ty(mod, ins.ty)[0] == 'ptr' and pr in ('eq', 'ne'):
                r = self.ptr_eq(st, a, b)
                if pr == 'ne': r = Not(r)
            else: r = c(a, b)
        fr.regs[ins.res] = r
        fr.idx += 1
    def ptr_eq(self, st, a, b):
        if a is b: return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                return ite(x.a[0], self.ptr_eq(st, x.a[1], y), self.ptr_eq(st, x.a[2], y))
        fa, fb = a in self.funcaddr, b in self.funcaddr
        if fa and fb: return FALSE     # distinct functions
        if (fa and b.op == 'c') or (fb and a.op == 'c'): return FALSE
        ra, rb = self.resolve(st, a), self.resolve(st, b)
        if ra and rb and ra[0] is not rb[0]: return FALSE   # distinct objects (in-bounds pointers)
        if ra and b.op == 'c' and b.v == 0: return FALSE
        if rb and a.op == 'c' and a.v == 0: return FALSE
        return eq(a, b)
    def i_fcmp(self, st, fr, mod, ins, V):
        pr, a, b = ins.x
        a = V(ins.ty, a); b = V(ins.ty, b)
        if self.fp is not None: r = self.fp.cmp(self, st, pr, a, b)
        else: r = tm.uf('fcmp_' + pr, 1, a, b)
        fr.regs[ins.res] = r; fr.idx += 1
    def i_select(self, st, fr, mod, ins, V):
        c = V(ins.x[3], ins.x[0]); a = V(ins.ty, ins.x[1]); b = V(ins.ty, ins.x[2])
        if c.w != 1: raise Unsupported('vector select')
        fr.regs[ins.res] = ite(c, a, b); fr.idx += 1
    def _cast(self, st, fr, mod, ins, V):
        t0, v = ins.x
        a = V(t0, v)
        op = ins.op
        n, w, et = self.lanes(mod, ins.ty)
        if op in ('bitcast', 'ptrtoint', 'inttoptr'): r = a if a.w == n * w else tm.zext(a, n * w) if a.w < n * w else tm.trunc(a, n * w)
        elif n > 1: raise Unsupported('vector cast')
        elif op == 'trunc': r = tm.trunc(a, w)
        elif op == 'zext': r = tm.zext(a, w)
        elif op == 'sext': r = tm.sext(a, w)
        else:
            if self.fp is not None: r = self.fp.cast(self, st, op, a, w)
            else: r = tm.uf(op, w, a)
        fr.regs[ins.res] = r; fr.idx += 1
    i_bitcast = i_trunc = i_zext = i_sext = i_ptrtoint = i_inttoptr = i_uitofp = i_sitofp = i_fptoui = i_fptosi = i_fpext = i_fptrunc = _cast
    def i_extractelement(self, st, fr, mod, ins, V):
        n, w, et = self.lanes(mod, ins.ty)
        v = V(ins.ty, ins.x[0]); ix = V(('i', 32), ins.x[1])
        fr.regs[ins.res] = tm.ext(v, ix.v * w + w - 1, ix.v * w); fr.idx += 1
    def i_insertelement(self, st, fr, mod, ins, V):
        n, w, et = self.lanes(mod, ins.ty)
        v = V(ins.ty, ins.x[0]); e = V(et, ins.x[1]); ix = V(('i', 32), ins.x[2])
        parts = [tm.ext(v, i * w + w - 1, i * w) for i in range(n)]
        parts[ix.v] = e
        fr.regs[ins.res] = tm.cat(*reversed(parts)); fr.idx += 1
    def i_shufflevector(self, st, fr, mod, ins, V):
        n, w, et = self.lanes(mod, ins.ty)
        a = V(ins.ty, ins.x[0]); b = V(ins.ty, ins.x[1])
        mt, mv = ins.x[2], ins.x[3]
        if mv[0] == 'zero': ixs = [0] * mt[1]
        elif mv[0] in ('undef', 'poison'): ixs = [0] * mt[1]
        else: ixs = [x[1][1] if x[1][0] == 'int' else 0 for x in mv[1]]
        ab = tm.cat(b, a)
        fr.regs[ins.res] = tm.cat(*reversed([tm.ext(ab, i * w + w - 1, i * w) for i in ixs])); fr.idx += 1

    # -- calls
    def i_call(self, st, fr, mod, ins, V):
        callee, args = ins.x
        if callee[0] == 'glb':
            name = callee[1]
            f = mod.funcs.get(name) or self.global_funcs.get(name)
            tgt = f if f is not None else name
        else:
            p = V(PTR, callee)
            if p.op == 'ite':
                out = []
                for c, q in ((p.a[0], p.a[1]), (Not(p.a[0]), p.a[2])):
                    if not self.feasible(st, c): continue
                    s = st.clone(); s.assume(c)
                    for k, v in list(s.frames[-1].regs.items()):
                        if v is p: s.frames[-1].regs[k] = q
                    out.append(s)
                return out
            tgt = self.funcaddr.get(p)
            if tgt is None:
                self.fail(st, 'memory-safety: call through invalid function pointer', tm.show(p))
                raise Abort('bad fptr')
            name = tgt if isinstance(tgt, str) else tgt.name
        nm = name.lstrip('@')
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime'):
            fr.idx += 1; return None
        av = [V(t, x) for t, x in args]
        return self.call(st, fr, ins, tgt, nm, av, mod)

    def call(self, st, fr, ins, tgt, nm, av, mod):
        # pointer arguments that are ite's: fork first
        from . import intrin
        if nm in intrin.TABLE:
            r = intrin.TABLE[nm](self, st, av, ins)
            if ins.res is not None: fr.regs[ins.res] = r
            fr.idx += 1
            return None
        c = self.contracts.get(nm)
        if c is not None and nm != self.target:
            self.used_contracts.add(nm)
        elif isinstance(tgt, llparse.Func):
            c = None
        else:
            c = self.externals.get(nm)
            if c is None: raise Unsupported('external function %s has no model' % nm)
            self.used_externals.add(nm)
        if c is None:
            if len(st.frames) > 40: raise Unsupported('recursion')
            self.inlined.add(nm)
            fr.idx += 1
            self.start(st, tgt, av)
            st.frames[-1].res = ins.res
            st.frames[-1].va = av[len(tgt.params):]
            return None
        for a in av:
            if a.w == 64 and a.op == 'ite':
                r = self.split_ptr(st, a)
                if r is not None: return r
        outs = c(self, st, av)
        if not isinstance(outs, list): outs = [(st, outs)]
        if len(outs) > 1:
            for s, v in outs:       # a loop around a call with several outcomes must not be unrolled for ever
                if s.loops: s.loops = [dict(c, forks=c.get('forks', 0) + 1) if not c['force'] else c for c in s.loops]
        res = []
        for s, v in outs:
            if s.done is not None:
                res.append(s); continue
            f2 = s.frames[-1]
            if ins.res is not None: f2.regs[ins.res] = v
            f2.idx += 1
            res.append(s)
        return res
