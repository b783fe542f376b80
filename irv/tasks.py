"""Verification tasks: one function (or lemma) per task; a check runs the tasks of its property."""
import os, sys, time, traceback, multiprocessing, threading, signal
from . import term as tm, solver, build, execu, mem, env, views
from .term import *
from .mem import *
from .execu import Exec, State, Abort, Violation, NeedInv

REG = {}      # name -> (fn, props)
TIER = os.environ.get('VERIF_TIER', 'quick')

def task(name, *props, weight=1):
    def d(f):
        REG[name] = (f, props, weight)
        return f
    return d

class T_:
    """context handed to a task"""
    def __init__(self, name):
        self.name = name
        self.exs = []
        self.notes = []
        self.lemmas = []
        self.reach = 0
    def ex(self, mods, **kw):
        ms = [build.module(m, *((x,) if False else ())) if isinstance(m, str) else m for m in mods]
        e = Exec(ms)
        e.externals.update(env.EXT)
        e.prove_hooks = (views.id_hook,)
        for k, v in kw.items(): setattr(e, k, v)
        self.exs.append(e)
        return e
    def lemma(self, label, ok, detail='', func='', cat=None):
        self.lemmas.append((label, bool(ok), func, detail, '', 0.0))
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def covered(self, outs, need=1):
        """vacuity guard: final states must be reachable"""
        n = 0
        for s in outs:
            r = solver.check_sat(s.pc, 20)
            if r.status != 'unsat': n += 1
        self.reach += n
        self.lemma('vacuity guard: %d reachable final states (>= %d)' % (n, need), n >= need, 'infeasible')
        return n

def run_task(name):
    fn, props, w = REG[name]
    t0 = time.time()
    c = T_(name)
    err = None
    try:
        fn(c)
    except (Unsupported, NeedInv, build.CompileError, Abort, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError, Violation) as e:
        err = '%s: %s' % (type(e).__name__, e)
        tb = traceback.format_exc()
        err += '\n' + tb[-1500:]
    obls = []
    inl, con, ext = set(), set(), set()
    for e in c.exs:
        for o in e.obls: obls.append((o.label, o.ok, o.func, o.detail, o.loc, o.dt))
        inl |= e.inlined; con |= e.used_contracts; ext |= e.used_externals
    obls += c.lemmas
    return dict(name=name, obls=obls, inlined=sorted(inl), contracts=sorted(con), externals=sorted(ext), notes=c.notes,
                stats=dict(solver.STATS), err=err, wall=time.time() - t0, props=props)

def _worker(name, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(100000)
    for k in solver.STATS: solver.STATS[k] = type(solver.STATS[k])(0)
    box = []
    th = threading.Thread(target=lambda: box.append(run_task(name)))
    threading.stack_size(512 << 20)
    th = threading.Thread(target=lambda: box.append(run_task(name)))
    th.start(); th.join()
    try: conn.send(box[0] if box else dict(name=name, obls=[], inlined=[], contracts=[], externals=[], notes=[], stats={}, err='worker crashed', wall=0.0, props=REG[name][1]))
    finally: conn.close()

def run_tasks(names, jobs=8, budget=600.0, per_task=400.0):
    ctx = multiprocessing.get_context('fork')
    pend = sorted(names, key=lambda n: -REG[n][2])
    run = {}
    out = {}
    t0 = time.time()
    while pend or run:
        while pend and len(run) < jobs:
            n = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(n, b))
            p.start(); b.close()
            run[n] = (p, a, time.time())
        done = []
        for n, (p, a, ts) in run.items():
            if a.poll(0.02):
                try: out[n] = a.recv()
                except EOFError: out[n] = dict(name=n, obls=[], inlined=[], contracts=[], externals=[], notes=[], stats={}, err='worker died', wall=time.time() - ts, props=REG[n][1])
                p.join(5); done.append(n)
            elif time.time() - ts > per_task or time.time() - t0 > budget:
                p.kill(); p.join()
                out[n] = dict(name=n, obls=[], inlined=[], contracts=[], externals=[], notes=[], stats={}, err='time limit', wall=time.time() - ts, props=REG[n][1])
                done.append(n)
        for n in done: run.pop(n)
    return out
