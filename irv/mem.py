"""Functional memory contents: layers over a base function.

An object's content maps a 64-bit offset term to a byte term.  Layers (old to new):
  ('cells', S, {const: byte})   bytes at S+const, S a constant-free linear term
  ('bulk', start, len, fn)      bytes start..start+len-1 are fn(offset-start)
Decisions about aliasing are made by the solver under the path condition (`dec`).
"""
from . import term as tm
from .term import const, add, sub, ult, ule, eq, ite, cat, ext

Z64 = const(0, 64)

def split(off):
    c, m = tm.lin(off)
    if not m: return Z64, c
    return tm.from_lin(0, m, 64), c

class Content:
    __slots__ = ('base', 'layers', 'shared')
    def __init__(self, base, layers=None):
        self.base = base          # fn(offset term, dec) -> byte
        self.layers = layers if layers is not None else []
        self.shared = False
    def freeze(self):
        self.shared = True
        return self
    def mutable(self):
        if not self.shared: return self
        ls = list(self.layers)
        if ls and ls[-1][0] == 'cells':
            ls[-1] = ('cells', ls[-1][1], dict(ls[-1][2]))
        return Content(self.base, ls)

    # -- writing (on a mutable content)
    def write_bytes(self, off, bs):
        S, c = split(off)
        if self.layers and self.layers[-1][0] == 'cells' and self.layers[-1][1] is S:
            d = self.layers[-1][2]
        else:
            d = {}
            self.layers.append(('cells', S, d))
        for i, b in enumerate(bs):
            d[(c + i) & (2**64 - 1)] = b
    def write_bulk(self, off, ln, fn):
        if ln.op == 'c' and ln.v == 0: return
        self.layers.append(('bulk', off, ln, fn))

    # -- reading
    def read_bytes(self, off, n, dec):
        S, c = split(off)
        out = [None] * n
        pend = list(range(n))
        self._read(len(self.layers) - 1, S, c, out, pend, dec)
        return out

    def _read(self, li, S, c, out, pend, dec):
        M = 2**64 - 1
        while pend and li >= 0:
            L = self.layers[li]
            if L[0] == 'cells':
                S2, d = L[1], L[2]
                if S2 is S:
                    np_ = []
                    for i in pend:
                        b = d.get((c + i) & M)
                        if b is None: np_.append(i)
                        else: out[i] = b
                    pend = np_
                elif d:
                    lo, hi = min(d), max(d)
                    delta = sub(S, S2)
                    # first..last of pending vs [lo,hi]
                    f, l = pend[0], pend[-1]
                    span = hi - lo + (l - f)
                    # hits possible iff  delta + c + l - lo  in [0, span]
                    if tm.ub(const(0, 64)) == 0 and dec(ult(const(span, 64), add(delta, const(c + l - lo, 64)))) is not True:
                        # maybe the displacement is determined
                        k = dec.value(delta)
                        if k is not None:
                            np_ = []
                            for i in pend:
                                b = d.get((c + i + k) & M)
                                if b is None: np_.append(i)
                                else: out[i] = b
                            pend = np_
                        else:
                            keys = sorted(d)
                            if len(keys) * len(pend) > 4096:
                                raise Unsupported('ambiguous alias over %d cells' % len(keys))
                            sub_out = list(out)
                            self._read(li - 1, S, c, sub_out, pend, dec)
                            for i in pend:
                                v = sub_out[i]
                                p = add(delta, const(c + i, 64))
                                for kk in keys:
                                    e = eq(p, const(kk, 64))
                                    r = dec(e)
                                    if r is True:
                                        v = d[kk]; break
                                    if r is False: continue
                                    v = ite(e, d[kk], v)
                                out[i] = v
                            return
            else:
                _, st, ln, fn = L
                rel0 = sub(add(S, const(c, 64)), st)
                f, l = pend[0], pend[-1]
                rl = add(rel0, const(f, 64))
                n = l - f + 1
                whole = None
                c0 = ult(rl, ln)
                if n == 1:
                    whole = dec(c0)
                else:
                    cl = ult(add(rel0, const(l, 64)), ln)
                    r0, r1 = dec(c0), dec(cl)
                    if r0 is True and r1 is True:
                        # contiguous: need no wrap inside
                        whole = True if dec(ule(rl, add(rel0, const(l, 64)))) is True else None
                    elif r0 is False and r1 is False:
                        if dec(ule(ln, sub(const(0, 64), const(n, 64)))) is not False and \
                           dec(tm.Or(ule(rl, add(rel0, const(l, 64))), eq(ln, Z64))) is True:
                            whole = False
                if whole is True:
                    for i in pend: out[i] = fn(add(rel0, const(i, 64)), dec)
                    return
                if whole is None:
                    und = []
                    np_ = []
                    for i in pend:
                        r = add(rel0, const(i, 64))
                        q = dec(ult(r, ln))
                        if q is True: out[i] = fn(r, dec)
                        elif q is False: np_.append(i)
                        else: und.append((i, r))
                    if und:
                        sub_out = list(out)
                        idx = sorted([i for i, _ in und] + np_)
                        self._read(li - 1, S, c, sub_out, idx, dec)
                        for i in np_: out[i] = sub_out[i]
                        for i, r in und:
                            out[i] = ite(ult(r, ln), fn(r, dec), sub_out[i])
                        return
                    pend = np_
            li -= 1
        for i in pend:
            out[i] = self.base(add(S, const(c + i, 64)), dec)

class Unsupported(Exception):
    pass

def uf_base(name):
    def base(off, dec=None):
        return tm.uf('mem', 8, tm.var(name, 64), off)
    return base

def zero_base(off, dec=None):
    return const(0, 8)

def bytes_content(bs):
    d = {i: (b if isinstance(b, tm.T) else const(b, 8)) for i, b in enumerate(bs)}
    return Content(zero_base, [('cells', Z64, d)])

def le(bs):
    return cat(*reversed(bs))
def be(bs):
    return cat(*bs)
def le_bytes(t):
    return [ext(t, 8 * i + 7, 8 * i) for i in range(t.w // 8)]
def be_bytes(t):
    return le_bytes(t)[::-1]
