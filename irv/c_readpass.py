"""Contracts for passphrase entry: readpass.c, readpass_file.c, passphrase_entry.c (C13, C21; C11, C17, C18)."""
from .tasks import *
from .loops import Inv
from .views import *
from .env import c_insecure_memzero, set_errno, cstring
from . import env, c_stdio
from .c_str import *
from .c_aes import live_heap
from .c_scryptenc import x_fprintf

RP, RF, PE = 'libcperciva/util/readpass.c', 'libcperciva/util/readpass_file.c', 'lib/util/passphrase_entry.c'
SIGS = (1, 2, 3, 13, 14, 15, 20, 21, 22)      # HUP INT QUIT PIPE ALRM TERM TSTP TTIN TTOU
SA = 152
# kernel state object
DISP, RECV, RAISED, TERM, TFD, KSIZE = 0, 10000, 10100, 10200, 10264, 10272
ECHO = 8

def reaches(f, blocks, name, seen=None):
    """the blocks call the named function, directly or through functions of the module"""
    seen = set() if seen is None else seen
    for b in blocks:
        for i in f.blocks[b]:
            if i.op != 'call' or i.x[0][0] != 'glb': continue
            n = i.x[0][1]
            if n == name: return True
            g = f.mod.funcs.get(n)
            if g is not None and getattr(g, 'blocks', None) and n not in seen:
                seen.add(n)
                if reaches(g, list(g.blocks), name, seen): return True
    return False
def secret(t): return any(x.op == 'uf' and x.v == 'TEXT' for x in tm.nodes([t]))
def erase_exit(ex, st, fr):
    """no local array holds passphrase text when its function returns"""
    if ex.quiet: return
    for o in fr.allocas:
        if o.size.op != 'c' or o.size.v < 16: continue
        lab = 'erase: %s holds no passphrase text when %s returns' % (o.name, fr.fn.name.lstrip('@'))
        if not any(L[0] == 'bulk' or any(secret(b) for b in L[2].values()) for L in st.mem[o].layers):
            ex.obls.append(execu.Obligation(lab, True, fr.fn.name)); continue
        k = fresh('k', 64); s2 = st.clone(); s2.assume(ult(k, o.size))
        b = s2.mem[o].read_bytes(k, 1, Dec_(s2))[0]
        if not secret(b): ex.obls.append(execu.Obligation(lab, True, fr.fn.name)); continue
        ex.oblige(s2, eq(b, Z8), lab)

def is_tail(ex, st, f, pos, L):
    """the line ends in a newline or at the end of the input"""
    by = f.data['byte']
    return Or(eq(by(add(pos, sub(L, K64(1)))), const(10, 8)), eq(add(pos, L), f.data['total']))
def term_of(ex, st, f, pos, L):
    """index of the first line terminator of a line (its length if there is none)"""
    by = f.data['byte']; t = fresh('term', 64)
    isn = lambda b: Or(eq(b, const(10, 8)), eq(b, const(13, 8)))
    st.assume(ule(t, L)); st.assume(Or(eq(t, L), isn(by(add(pos, t)))))
    qf(ex, t, lambda i: tm.Implies(ult(i, t), Not(isn(by(add(pos, i))))))
    return t
def scans(ex, st):
    live = set()
    for p in st.pc: live |= tm.fvars(p)
    return [c for c in ex.__dict__.get('qfacts', {}) if c in live]
def delivered(c, ex, s, pw, f, pos, t, what):
    """*pw is the text [pos, pos+t) as a C string"""
    p = ex.load(s, pw, 8); r = ex.resolve(s, p)
    if r is None or r[0].kind != 'heap' or r[1] is not Z64 or s.status[r[0]] != 'live':
        ex.fail(s, 'C13: %s returns the passphrase in a new string' % what, tm.show(p)); return None
    P = r[0]
    ell = sub(P.size, K64(1))
    idx = list(dict.fromkeys([ell, t] + scans(ex, s)))
    sat(ex, s, idx)
    by = (lambda k: f.data['byte'](add(pos, k))) if f is not None else (lambda k: Z8)
    ex.oblige(s, And(ult(t, P.size), eq(s.mem[P].read_bytes(t, 1, ex.dec(s))[0], Z8)), 'C13: %s: the passphrase ends where the supplied text ends' % what)
    k = fresh('k', 64); s2 = s.clone(); s2.assume(ult(k, t)); sat(ex, s2, [k])
    if ex.feasible(s2, ult(k, t)): ex.oblige(s2, eq(s2.mem[P].read_bytes(k, 1, ex.dec(s2))[0], by(k)), 'C13: %s: every character of the passphrase is the supplied one' % what)
    ex.oblige(s, And(*[tm.Implies(ult(i, t), ne(by(i), Z8)) for i in idx]), 'C13: %s: supplied text contains no terminator earlier' % what)
    return P

# ------------------------------------------------------------------ readpass
def mk_readpass(confirm):
    def t(c):
        """readpass: exact passphrase, terminal settings and signal handlers restored, signals redelivered, file closed"""
        m = build.module(RP)
        ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
        ex.merge_ifs = True
        st = State(); env.errno_obj(ex, st)
        kern = ex.new_obj(st, 'kernel', KSIZE, 'os', 16, content=Content(uf_base('KERN0')))
        kb = lambda s, off, n: s.mem[kern].read_bytes(K64(off), n, ex.dec(s))
        K0 = lambda off, n: [tm.uf('mem', 8, var('KERN0', 64), K64(off + i)) for i in range(n)]
        def kset(s, off, bs): ex.store_bytes(s, add(kern.addr, K64(off)), bs)
        kset(st, RECV, [Z8] * 65); kset(st, RAISED, [Z8] * 65)
        stdin = in_file(ex, st, 'stdin')
        stderr = ex.new_obj(st, 'stderr', 64, 'os', 16)
        ex.global_init['@stdin'] = lambda ex, s, o: bytes_content(le_bytes(stdin.addr))
        ex.global_init['@stderr'] = lambda ex, s, o: bytes_content(le_bytes(stderr.addr))
        def handler(s, sig):
            p = le(kb(s, DISP + SA * sig, 8))
            f = ex.funcaddr.get(p)
            return f if f is not None and not isinstance(f, str) else None
        def deliver(s, sigs):
            """any of these signals, if caught by the program, may arrive now"""
            for sig in sigs:
                h = handler(s, sig)
                if h is None: continue
                base, d = s.clone(), fresh('sig%d' % sig, 1)
                x = base.clone(); x.assume(d); x.wlog = []
                kset(x, RECV + sig, [const(1, 8)])
                outs = ex.run_function(x, h, [C32(sig)])
                if len(outs) != 1: raise Unsupported('signal handler with several outcomes')
                x = outs[0]
                y = base.clone(); y.assume(Not(d)); y.wlog = []
                mm = merge_here(ex, base, d, x, y)
                s.mem, s.pc, s.pcset, s.wlog = mm.mem, mm.pc, mm.pcset, mm.wlog
        def x_sigaction(ex, s, a):
            if a[0].op != 'c' or not 1 <= a[0].v <= 64: raise Unsupported('sigaction of a variable signal')
            sig = a[0].v
            new = None
            if not (a[1].op == 'c' and a[1].v == 0): new = ex.load_bytes(s, a[1], SA)
            if not (a[2].op == 'c' and a[2].v == 0): ex.store_bytes(s, a[2], kb(s, DISP + SA * sig, SA))
            if new is not None: kset(s, DISP + SA * sig, new)
            deliver(s, [sig])
            return C32(0)
        def x_raise(ex, s, a):
            if a[0].op != 'c': raise Unsupported('raise of a variable signal')
            sig = a[0].v
            ex.oblige(s.clone(), same(s, DISP + SA * sig, SA), 'C21: a signal is re-delivered only after its handler is restored')
            ex.oblige(s.clone(), same(s, TERM, 60), 'C21: a signal is re-delivered only after the terminal is restored')
            ex.oblige(s.clone(), ne(kb(s, RECV + sig, 1)[0], Z8), 'C21: only a signal that was received is re-delivered')
            kset(s, RAISED + sig, [const(1, 8)])
            return C32(0)
        def same(s, off, n): return And(*[eq(x, y) for x, y in zip(kb(s, off, n), K0(off, n))])
        def fd_of(o): return tm.uf('fileno', 32, o.addr)
        def x_fileno(ex, s, a): return fd_of(file_of(ex, s, a[0], 'fileno'))
        def x_isatty(ex, s, a):
            set_errno(ex, s); r = fresh('isatty', 32); s.event('isatty', a[0], r); return r
        def open_fd(s, fd, what):
            for o in s.status:
                if o.kind == 'file' and (fd is fd_of(o) or ex.prove(s, eq(fd, fd_of(o)))[0]):
                    if s.status[o] == 'live': return o
            ex.fail(s, 'C21: %s on an open descriptor' % what, tm.show(fd)); raise Abort('fd')
        def x_tcgetattr(ex, s, a):
            o = open_fd(s, a[0], 'tcgetattr')
            s2 = s.clone(); s2.event('fail', 'tcgetattr'); set_errno(ex, s2)
            ex.store_bytes(s, a[1], kb(s, TERM, 60))
            return [(s, C32(0)), (s2, C32(-1))]
        def x_tcsetattr(ex, s, a):
            o = open_fd(s, a[0], 'tcsetattr')
            if a[1].op != 'c' or a[1].v not in (0, 1, 2): ex.fail(s, 'C21: tcsetattr with a valid action')
            bs = ex.load_bytes(s, a[2], 60)
            restoring = And(*[eq(x, y) for x, y in zip(bs, K0(TERM, 60))])
            rest = ex.prove(s, restoring)[0]
            if not rest:
                for sig in SIGS:
                    ex.oblige(s.clone(), TRUE if handler(s, sig) is not None else FALSE, 'C21: signal %d is caught while terminal settings are changed' % sig)
            deliver(s, SIGS)
            # failure: settings unchanged; a failing attempt to restore cannot be helped
            s2 = s.clone(); set_errno(ex, s2); s2.event('rfail' if rest else 'fail', 'tcsetattr')
            if rest: kset(s2, TERM, bs)
            kset(s, TERM, bs); s.event('tcset', o)
            return [(s, C32(0)), (s2, C32(-1))]
        def on_block(ex, s, f):
            t = [e for e in s.trace if e[0] == 'isatty']
            tty = [e for e in t if e[1] is fd_of(f)]
            if not tty: ex.fail(s, 'C21: the program finds out whether the input is a terminal before reading'); return
            lf = le(kb(s, TERM + 12, 4))
            ex.oblige(s.clone(), Or(eq(tty[-1][2], C32(0)), eq(tm.band(lf, C32(ECHO)), C32(0))), 'C21: echo is off while a passphrase is read from a terminal')
            ex.oblige(s.clone(), Or(eq(tty[-1][2], C32(0)), And(*[eq(x, y) for i, (x, y) in enumerate(zip(kb(s, TERM, 60), K0(TERM, 60))) if not 12 <= i < 16])), 'C21: only local modes of the terminal are changed')
            for sig in SIGS: ex.oblige(s.clone(), TRUE if handler(s, sig) is not None else FALSE, 'C21: signal %d is caught during entry' % sig)
            deliver(s, SIGS)
        ex.on_block = (on_block,)
        def x_fopen(ex, s, a):
            nm = cstring(ex, s, a[0])
            ex.oblige(s.clone(), TRUE if nm == b'/dev/tty' else FALSE, 'C13: the only file opened for terminal entry is /dev/tty')
            s2 = s.clone(); set_errno(ex, s2); s2.event('notty')
            o = in_file(ex, s, 'tty'); s.event('tty', o)
            return [(s, o.addr), (s2, Z64)]
        def x_fclose(ex, s, a):
            f = file_of(ex, s, a[0], 'fclose'); deliver(s, SIGS)
            s.status[f] = 'dead'; s2 = s.clone(); set_errno(ex, s2); s2.event('cfail')
            return [(s, C32(0)), (s2, C32(-1))]
        def x_sigemptyset(ex, s, a):
            ex.store_bytes(s, a[0], [Z8] * 128); return C32(0)
        E = dict(STR); E.update(INPUT)
        E.update(sigaction=x_sigaction, fileno=x_fileno, isatty=x_isatty, tcgetattr=x_tcgetattr, tcsetattr=x_tcsetattr, fopen=x_fopen, fclose=x_fclose,
                 sigemptyset=x_sigemptyset, fprintf=x_fprintf, feof=c_stdio.m_feof, ferror=c_stdio.m_ferror)
        E['raise'] = x_raise
        E['sigfillset'] = lambda ex, s, a: (ex.store_bytes(s, a[0], [const(255, 8)] * 128), C32(0))[1]
        ex.externals.update(E)
        ex.frame_exit_hook = erase_exit
        pr = ex.new_obj(st, 'prompt', var('plen', 64), 'arg', content=Content(uf_base('PROMPT')))
        st.assume(ult(var('plen', 64), K64(1 << 60))); st.assume(ne(var('plen', 64), Z64))
        out = ex.new_obj(st, 'passwd', 8, 'arg', 8)
        dev = var('devtty', 32)
        def sp(ex, s, header, blocks):
            f = s.frames[-1].fn
            if not reaches(f, blocks, '@fgets'): return inside_strings(ex, s, header, blocks)
            gs = [o for k, o in ex.globobj.items() if k[0] is not None and not o.ro and o.size.op == 'c' and o.size.v % 4 == 0 and o.size.v <= 1024]
            def soft(i, vals, s):
                fs = []
                for g in gs:
                    for n, sig in enumerate(SIGS):
                        for ix in {sig, n}:
                            if 4 * ix + 4 > g.size.v: continue
                            v = le(s.mem[g].read_bytes(K64(4 * ix), 4, ex.dec(s)))
                            fs.append(eq(ne(v, C32(0)), ne(s.mem[kern].read_bytes(K64(RECV + sig), 1, ex.dec(s))[0], Z8)))
                p = fld(ex, s, stdin, POS); fs.append(ule(p, stdin.data['total']))
                for e in s.trace:
                    if e[0] == 'tty': fs.append(ule(fld(ex, s, e[1], POS), e[1].data['total']))
                return fs
            return Inv(None, 'signals received are remembered', soft=soft)
        ex.loop_specs['*'] = sp
        outs = ex.run_function(st, m.funcs['@libcperciva_readpass'], [out.addr, pr.addr, pr.addr if confirm else Z64, dev])
        c.covered(outs, 6)
        good = 0
        for s in outs:
            fl = [e for e in s.trace if e[0] == 'fail']
            for sig in SIGS:
                ex.oblige(s.clone(), same(s, DISP + SA * sig, SA), 'C21: the disposition of signal %d is restored' % sig)
                ex.oblige(s.clone(), eq(eq(kb(s, RECV + sig, 1)[0], Z8), eq(kb(s, RAISED + sig, 1)[0], Z8)), 'C21: a received signal %d is re-delivered' % sig)
            others = [x for x in range(1, 65) if x not in SIGS]
            ex.oblige(s.clone(), And(*[same(s, DISP + SA * x, 8) for x in others]), 'C21: other signal dispositions are untouched')
            ex.oblige(s.clone(), same(s, TERM, 60), 'C21: terminal settings are restored')
            tty = [e[1] for e in s.trace if e[0] == 'tty']
            for o in tty: c.lemma('C18,C21: the terminal opened for entry is closed', s.status[o] == 'dead', func='readpass')
            c.lemma('C18,C21: standard input stays open', s.status[stdin] == 'live', func='readpass')
            okret = eq(s.ret, C32(0))
            if ex.feasible(s.clone(), okret) and not ex.prove(s, Not(okret))[0]:
                g = s.clone(); g.assume(okret)
                lines = [e for e in g.trace if e[0] == 'line']
                n = 2 if confirm else 1
                if fl or len(lines) != n: ex.fail(g, 'C13: readpass succeeds only after %d complete line%s' % (n, 's' * (n > 1)), str(fl) + str(len(lines))); continue
                src = lines[0][1]
                if src is stdin:
                    ex.oblige(g.clone(), Or(eq(dev, C32(0)), And(eq(dev, C32(1)), TRUE if [e for e in g.trace if e[0] == 'notty'] else FALSE)), 'C13: standard input is read only when asked for, or when there is no terminal')
                else: ex.oblige(g.clone(), Or(eq(dev, C32(1)), eq(dev, C32(2))), 'C13: the terminal is read only when asked for')
                c.lemma('C13: both entries come from the same stream', all(e[1] is src for e in lines), func='readpass')
                t = term_of(ex, g, src, lines[0][2], lines[0][3])
                sat(ex, g, [lines[0][3], sub(lines[0][3], K64(1)), t] + scans(ex, g))
                ex.oblige(g.clone(), is_tail(ex, g, src, lines[0][2], lines[0][3]), 'C13: the whole line was read')
                delivered(c, ex, g, out.addr, src, lines[0][2], t, 'readpass')
                if confirm:
                    t2 = term_of(ex, g, src, lines[1][2], lines[1][3])
                    sat(ex, g, [t, t2, lines[0][3], lines[1][3]] + scans(ex, g))
                    ex.oblige(g.clone(), eq(t, t2), 'C13: both entries have the same length')
                    k = fresh('k', 64); g2 = g.clone(); g2.assume(ult(k, t)); sat(ex, g2, [k])
                    by = src.data['byte']
                    ex.oblige(g2, eq(by(add(lines[0][2], k)), by(add(lines[1][2], k))), 'C13: both entries are equal')
                P = ex.resolve(g, ex.load(g, out.addr, 8))
                c.lemma('resource: readpass hands over exactly one block', P is not None and live_heap(g) == [P[0]], str(live_heap(g)), 'readpass')
                good += 1
            else:
                c.lemma('resource: a failing readpass keeps no memory', not live_heap(s), str(live_heap(s)), 'readpass')
                lines = [e for e in s.trace if e[0] == 'line']
                if not fl and not [e for e in s.trace if e[0] == 'ateof']:
                    long_ = [Not(is_tail(ex, s, e[1], e[2], e[3])) for e in lines] + [eq(e[3], K64(2047)) for e in lines]
                    ex.oblige(s.clone(), Or(Not(Or(*[eq(dev, C32(x)) for x in (0, 1, 2)])), And(eq(dev, C32(2)), TRUE if [e for e in s.trace if e[0] == 'notty'] else FALSE), *long_), 'C13: readpass fails only if something failed or the line is too long')
        c.lemma('vacuity guard: success reached', good >= 2, str(good))
    return t
def merge_here(ex, base, cond, x, y):
    """merge after a completed call: frames are unchanged"""
    if x.trace != y.trace or x.ghost != y.ghost or x.status != y.status or any(not isinstance(w[2], int) for w in x.wlog): raise Unsupported('signal handler with effects beyond memory')
    m = base.clone()
    for p in x.pc[len(base.pc):]:
        if p is not cond: m.assume(Or(Not(cond), p))
    for (o, off, n, v) in x.wlog:
        if o not in base.mem: continue
        bx, by = x.mem[o].read_bytes(off, n, ex.dec(x)), base.mem[o].read_bytes(off, n, ex.dec(base))
        ex._mut(m, o).write_bytes(off, [p if p is q else ite(cond, p, q) for p, q in zip(bx, by)])
    if m.wlog is not None: m.wlog += x.wlog
    return m
for _c in (False, True): task('readpass.%s' % ('confirm' if _c else 'once'), 'C13', 'C21', 'C11', 'C17', 'C18', weight=2)(mk_readpass(_c))

# ------------------------------------------------------------------ readpass_file
@task('readpass_file', 'C13', 'C11', 'C17', 'C18')
def t_file(c):
    """readpass_file: the text of a one-line file, or failure"""
    m = build.module(RF)
    ex = c.ex([m]); ex.contracts['insecure_memzero'] = c_insecure_memzero
    st = State(); env.errno_obj(ex, st)
    ex.frame_exit_hook = erase_exit
    pn = var('fnlen', 64); st.assume(ult(pn, K64(1 << 60))); st.assume(ne(pn, Z64))
    name = ex.new_obj(st, 'filename', pn, 'arg', content=Content(uf_base('FILENAME')))
    out = ex.new_obj(st, 'passwd', 8, 'arg', 8)
    files = []
    def x_fopen(ex, s, a):
        ex.oblige(s.clone(), eq(a[0], name.addr), 'C13: the passphrase is read from the named file')
        s2 = s.clone(); set_errno(ex, s2); s2.event('fail', 'fopen')
        o = in_file(ex, s, 'pwfile'); s.event('opened', o); files.append(o)
        return [(s, o.addr), (s2, Z64)]
    def x_fclose(ex, s, a):
        f = file_of(ex, s, a[0], 'fclose')
        s.status[f] = 'dead'; s2 = s.clone(); set_errno(ex, s2); s2.event('fail', 'fclose')
        return [(s, C32(0)), (s2, C32(-1))]
    E = dict(STR); E.update(INPUT)
    E.update(fopen=x_fopen, fclose=x_fclose, fprintf=x_fprintf, feof=c_stdio.m_feof, ferror=c_stdio.m_ferror)
    ex.externals.update(E)
    ex.loop_specs['*'] = inside_strings
    outs = ex.run_function(st, m.funcs['@readpass_file'], [out.addr, name.addr])
    c.covered(outs, 5)
    good = 0
    for s in outs:
        fl = [e for e in s.trace if e[0] == 'fail']
        op = [e[1] for e in s.trace if e[0] == 'opened']
        for o in op: c.lemma('C18: the passphrase file is closed', s.status[o] == 'dead', func='readpass_file')
        lines = [e for e in s.trace if e[0] == 'line']
        okret = eq(s.ret, C32(0))
        if ex.prove(s, Not(okret))[0]:
            c.lemma('resource: a failing readpass_file keeps no memory', not live_heap(s), str(live_heap(s)), 'readpass_file')
            if not fl and op:
                f = op[0]; L = lines[0][3] if lines else Z64
                ex.oblige(s.clone(), ult(L, f.data['total']), 'C13: readpass_file fails only if something failed, or there is more than one line, or the line is too long')
            elif not fl: ex.fail(s, 'C13: readpass_file opens the file')
            continue
        g = s.clone(); g.assume(okret)
        if fl or len(op) != 1 or len(lines) > 1: ex.fail(g, 'C13: readpass_file succeeds only if every operation on the file does', str(fl)); continue
        f = op[0]
        if not lines:
            ex.oblige(g.clone(), eq(f.data['total'], Z64), 'C13: an empty passphrase comes from an empty file')
            t, pos, src = Z64, Z64, None
        else:
            src, pos, L = lines[0][1], lines[0][2], lines[0][3]
            ex.oblige(g.clone(), And(eq(pos, Z64), eq(L, f.data['total'])), 'C13: the file consists of the single line that was read')
            t = term_of(ex, g, src, pos, L); sat(ex, g, [L, sub(L, K64(1)), t] + scans(ex, g))
        delivered(c, ex, g, out.addr, src, pos, t, 'readpass_file')
        P = ex.resolve(g, ex.load(g, out.addr, 8))
        c.lemma('resource: readpass_file hands over exactly one block', P is not None and live_heap(g) == [P[0]], str(live_heap(g)), 'readpass_file')
        good += 1
    c.lemma('vacuity guard: success reached', good >= 2, str(good))

# ------------------------------------------------------------------ passphrase_entry
METHODS = ('UNSET', 'TTY_STDIN', 'STDIN_ONCE', 'TTY_ONCE', 'ENV', 'FILE')
def methods():
    return build.consts('#include "passphrase_entry.h"', ['PASSPHRASE_' + x for x in METHODS])
def x_readpass(ex, s, a):
    """contract of readpass (proved by readpass.once / readpass.confirm)"""
    s2 = s.clone(); s2.event('rpfail', 'readpass'); set_errno(ex, s2)
    n = fresh('pwlen', 64); s.assume(ult(n, K64(1 << 60)))
    v = fresh('pw', 64)
    o = ex.new_obj(s, 'passwd', add(n, K64(1)), 'heap', 16, content=Content(lambda k, dec=None: tm.uf('TEXT', 8, v, k)))
    ex.store(s, add(o.addr, n), Z8); o.data['nul'] = n
    ex.store(s, a[0], o.addr)
    if ex.quiet is False or True: s.event('readpass', a[1], a[2], a[3], o)
    return [(s, C32(0)), (s2, C32(-1))]
def x_readpass_file(ex, s, a):
    """contract of readpass_file (proved by readpass_file)"""
    rs = x_readpass(ex, s, [a[0], a[1], Z64, Z64])
    s.trace = [e if e[0] != 'readpass' else ('readfile', e[1], e[4]) for e in s.trace]
    return rs
def pe_setup(c):
    m = build.module(PE)
    ex = c.ex([m]); st = State(); env.errno_obj(ex, st)
    ex.externals.update(STR); ex.externals.update(fprintf=x_fprintf)
    return m, ex, st
@task('passphrase_entry_readpass', 'C13', 'C11', 'C17', 'C18')
def t_entry(c):
    """each method delivers its source's text; confirmation exactly when asked for on a terminal"""
    m, ex, st = pe_setup(c)
    MV = methods()
    al = var('arglen', 64); st.assume(ult(al, K64(1 << 60)))
    arg = ex.new_obj(st, 'arg', add(al, K64(1)), 'arg', content=Content(uf_base('ARG'))); ex.store(st, add(arg.addr, al), Z8); arg.data['nul'] = al
    el = var('envlen', 64); st.assume(ult(el, K64(1 << 60)))
    envs = ex.new_obj(st, 'environment', add(el, K64(1)), 'arg', content=Content(lambda k, dec=None: tm.uf('TEXT', 8, var('TEXT:env', 64), k)), ro=True)
    st.mem[envs] = Content(lambda k, dec=None: ite(eq(k, el), Z8, tm.uf('TEXT', 8, var('TEXT:env', 64), k)))
    envs.data['nul'] = el; envs.data['byte'] = lambda k, dec=None: tm.uf('TEXT', 8, var('TEXT:env', 64), k)
    qf(ex, el, lambda i: tm.Implies(ult(i, el), ne(tm.uf('TEXT', 8, var('TEXT:env', 64), i), Z8)))
    p1 = ex.new_obj(st, 'prompt', 64, 'arg'); p2 = ex.new_obj(st, 'confirmprompt', 64, 'arg')
    out = ex.new_obj(st, 'passwd', 8, 'arg', 8)
    once, meth = var('once', 32), var('method', 32)
    st.assume(Or(*[eq(meth, C32(v)) for v in MV]))
    def x_getenv(ex, s, a):
        ex.oblige(s.clone(), eq(a[0], arg.addr), 'C13: the variable read is the one named')
        s2 = s.clone(); s2.event('unset')
        s.event('env')
        return [(s, envs.addr), (s2, Z64)]
    ex.externals.update(getenv=x_getenv)
    ex.contracts.update({'libcperciva_readpass': x_readpass, 'readpass_file': x_readpass_file})
    outs = ex.run_function(st, m.funcs['@passphrase_entry_readpass'], [out.addr, meth, arg.addr, p1.addr, p2.addr, once])
    c.covered(outs, 10)
    seen = set()
    for s in outs:
        rp = [e for e in s.trace if e[0] in ('readpass', 'readfile', 'env')]
        bad = [e for e in s.trace if e[0] in ('rpfail', 'fail', 'unset')]
        okret = eq(s.ret, C32(0))
        if ex.prove(s, Not(okret))[0]:
            c.lemma('resource: a failing passphrase entry keeps no memory', not live_heap(s), str(live_heap(s)), 'passphrase_entry_readpass')
            if not bad: ex.oblige(s.clone(), eq(meth, C32(MV[0])), 'C13: passphrase entry fails only if its source does')
            continue
        g = s.clone(); g.assume(okret)
        if bad or len(rp) != 1: ex.fail(g, 'C13: passphrase entry succeeds only if its source does', str(bad)); continue
        e = rp[0]
        if e[0] == 'readpass':
            ex.oblige(g.clone(), Or(*[And(eq(meth, C32(MV[i])), eq(e[3], C32(d))) for i, d in ((1, 1), (2, 0), (3, 2))]), 'C13: the source read is the one selected')
            ex.oblige(g.clone(), eq(e[1], p1.addr), 'C13: the prompt is the one given')
            ex.oblige(g.clone(), eq(e[2], ite(And(eq(meth, C32(MV[1])), eq(once, C32(0))), p2.addr, Z64)), 'C13: a second entry is required exactly for a new passphrase typed on a terminal')
            o = e[4]; seen.add('rp')
        elif e[0] == 'readfile':
            ex.oblige(g.clone(), And(eq(meth, C32(MV[5])), eq(e[1], arg.addr)), 'C13: the source read is the one selected'); o = e[2]; seen.add('file')
        else:
            ex.oblige(g.clone(), eq(meth, C32(MV[4])), 'C13: the source read is the one selected'); seen.add('env')
            o = delivered(c, ex, g, out.addr, envs, Z64, el, 'passphrase_entry_readpass')
            if o is None: continue
        ex.oblige(g.clone(), eq(ex.load(g, out.addr, 8), o.addr), 'C13: the passphrase delivered is the one read')
        c.lemma('resource: passphrase entry hands over exactly one block', live_heap(g) == [o], str(live_heap(g)), 'passphrase_entry_readpass')
    c.lemma('vacuity guard: every source succeeds', seen == {'rp', 'file', 'env'}, str(seen))
@task('passphrase_entry_parse', 'C13', 'C15', 'C17')
def t_parse(c):
    """METHOD:ARG selects the method named and the text after the colon, for every string"""
    m, ex, st = pe_setup(c)
    MV = methods()
    al = var('arglen', 64); st.assume(ult(al, K64(1 << 60)))
    A = lambda k: tm.uf('mem', 8, var('ARG', 64), k)
    arg = ex.new_obj(st, 'arg', add(al, K64(1)), 'arg', content=Content(lambda k, dec=None: ite(eq(k, al), Z8, A(k))))
    arg.data['nul'] = al
    qf(ex, al, lambda i: tm.Implies(ult(i, al), ne(A(i), Z8)))
    chk = [K64(i) for i in range(20)]
    sat(ex, st, chk)
    om = ex.new_obj(st, 'method', 4, 'arg', 4); oa = ex.new_obj(st, 'argp', 8, 'arg', 8)
    outs = ex.run_function(st, m.funcs['@passphrase_entry_parse'], [arg.addr, om.addr, oa.addr])
    def isx(t, whole):
        t = t.encode(); n = len(t)
        f = [eq(A(K64(i)), const(t[i], 8)) for i in range(n)] + [ule(K64(n), al)]
        return And(*f, *([eq(al, K64(n))] if whole else []))
    want = [(isx('dev:tty-stdin', 1), 1), (isx('dev:stdin-once', 1), 2), (isx('dev:tty-once', 1), 3), (isx('env:', 0), 4), (isx('file:', 0), 5)]
    c.covered(outs, 6)
    good = 0
    for s in outs:
        sat(ex, s, chk + scans(ex, s))
        okret = eq(s.ret, C32(0))
        if ex.prove(s, Not(okret))[0]:
            ex.oblige(s.clone(), Not(Or(*[w for w, _ in want])), 'C13,C15: a valid METHOD:ARG is accepted'); continue
        good += 1
        ex.oblige(s.clone(), okret, 'C13,C15: passphrase_entry_parse returns 0 or failure')
        mv = ex.load(s, om.addr, 4)
        ex.oblige(s.clone(), Or(*[And(w, eq(mv, C32(MV[i]))) for w, i in want]), 'C13,C15: the method is the one named')
        n = ite(eq(mv, C32(MV[5])), K64(5), K64(4))
        ex.oblige(s.clone(), eq(ex.load(s, oa.addr, 8), add(arg.addr, n)), 'C13,C15: the argument is the text after the colon')
    c.lemma('vacuity guard: every method parsed', good >= 5, str(good))
