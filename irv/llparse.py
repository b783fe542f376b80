"""Parser for the textual LLVM-18 IR that clang emits for this code base."""
import re

# types: ('i',n) ('ptr',) ('double',) ('float',) ('void',) ('arr',n,t) ('vec',n,t) ('st',[..],packed) ('label',) ('meta',) ('named',name) ('x86_fp80',)
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[0-9A-Fa-fHKLM]+|-?[0-9]+)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i:].strip() == '' or s[i] == ';': break
        m = TOK.match(s, i)
        if not m:
            if s[i:].lstrip().startswith(';'): break
            raise SyntaxError('token: %r' % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None
    def next(self):
        r = self.t[self.i][1]; self.i += 1; return r
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def need(self, x):
        if self.peek() != x: raise SyntaxError('expected %r got %r in %r' % (x, self.peek(), self.t))
        self.i += 1
    def type(self):
        x = self.next()
        if re.fullmatch(r'i[0-9]+', x): t = ('i', int(x[1:]))
        elif x in ('ptr', 'double', 'float', 'void', 'label', 'x86_fp80'): t = (x,)
        elif x == 'metadata': t = ('meta',)
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = ('st', self._elts('}'), True); self.need('>')
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>'); t = ('vec', n, e)
        elif x == '{':
            t = ('st', self._elts('}'), False)
        elif x[0] == '%': t = ('named', x)
        else: raise SyntaxError('type %r in %r' % (x, self.t))
        if self.peek() == '(' :  # function type
            depth = 0
            while True:
                y = self.next()
                if y == '(': depth += 1
                elif y == ')':
                    depth -= 1
                    if depth == 0: break
            t = ('fn', t)
        return t
    def _elts(self, end):
        r = []
        if self.eat(end): return tuple(r)
        while True:
            r.append(self.type())
            if self.eat(end): return tuple(r)
            self.need(',')
    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg', 'returned', 'readnone', 'inreg', 'noreturn'}
    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS: self.next()
            elif x == 'align':
                self.next(); self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'allocsize', 'memory', 'alignstack'):
                self.next(); self.need('(')
                d = 1
                while d:
                    y = self.next()
                    d += (y == '(') - (y == ')')
                self.eat('')
            elif self.kind() == 'attr': self.next()
            else: return
    def value(self, ty):
        """operand: ('loc',name) ('glb',name) ('int',v) ('null',) ('undef',) ('poison',) ('zero',) ('agg',[..]) ('str',bytes) ('fp',text) ('ce',op,...)"""
        k = self.kind(); x = self.next()
        if k == 'loc': return ('loc', x)
        if k == 'glb': return ('glb', x)
        if k == 'num':
            if ty[0] in ('double', 'float', 'x86_fp80'): return ('fp', x)
            return ('int', int(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return (x,)
        if x == 'zeroinitializer': return ('zero',)
        if k == 'str': return ('str', unescape(x[2:-1]))
        if x == '<' and self.peek() == '{':
            self.next(); r = self._vals('}'); self.need('>'); return ('agg', r)
        if x == '<': return ('agg', self._vals('>'))
        if x == '[': return ('agg', self._vals(']'))
        if x == '{': return ('agg', self._vals('}'))
        if x == 'getelementptr':
            self.eat('inbounds'); self.need('(')
            bt = self.type(); ops = []
            while self.eat(','):
                t = self.type(); ops.append((t, self.value(t)))
            self.need(')')
            return ('ce', 'gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('ce', x, t, v, t2)
        if x in ('sub', 'add', 'mul'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.need('('); t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('ce', x, t, a, b)
        if x == 'blockaddress':
            self.need('('); f = self.next(); self.need(','); b = self.next(); self.need(')')
            return ('ba', f, b)
        raise SyntaxError('value %r in %r' % (x, self.t))
    def _vals(self, end):
        r = []
        if self.eat(end): return r
        while True:
            t = self.type(); r.append((t, self.value(t)))
            if self.eat(end): return r
            self.need(',')
    def tv(self):
        t = self.type(); self.skip_attrs(); return t, self.value(t)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'x', 'flags', 'text')
    def __init__(self, op, res, ty, x, flags=(), text=''):
        self.op, self.res, self.ty, self.x, self.flags, self.text = op, res, ty, x, flags, text

class Func:
    def __init__(self, name, ret, params, mod, internal, vararg):
        self.name, self.ret, self.params, self.mod, self.internal, self.vararg = name, ret, params, mod, internal, vararg
        self.blocks = {}
        self.order = []
        self._loops = None
    def succs(self, b):
        i = self.blocks[b][-1]
        if i.op == 'br': return list(i.x[1:]) if len(i.x) > 1 else [i.x[0]]
        if i.op == 'switch': return [i.x[1]] + [d for _, d in i.x[2]]
        if i.op == 'indirectbr': return list(i.x[1])
        return []
    def loops(self):
        """header -> set(blocks)"""
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops

def find_loops(f):
    order = []
    seen = set()
    def dfs(root):
        st = [(root, iter(f.succs(root)))]
        seen.add(root)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.succs(s)))); break
            else:
                order.append(b); st.pop()
    dfs(f.order[0])
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.succs(b): preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == rpo[0]: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.succs(b):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
    return loops

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}     # name -> (type, init value or None, const, internal, align)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}

LINK = {'private', 'internal', 'external', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'linkonce_odr', 'weak', 'available_externally', 'hidden', 'thread_local', 'dllimport', 'alwaysinline'}

def parse(path):
    mod = Module(path)
    lines = open(path).read().split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            n, _, d = l.partition(' = type ')
            if d.strip() == 'opaque': mod.types[n] = ('st', (), False)
            else: mod.types[n] = P(tokenize(d), mod).type()
        elif l.startswith('@'):
            p = P(tokenize(l), mod)
            name = p.next(); p.need('=')
            flags = set()
            while p.peek() in LINK: flags.add(p.next())
            c = p.next()
            if c not in ('constant', 'global'): raise SyntaxError(l)
            ty = p.type()
            init = None
            if 'external' not in flags: init = p.value(ty)
            al = 1
            for k in range(p.i, len(p.t) - 1):
                if p.t[k][1] == 'align': al = int(p.t[k + 1][1])
            mod.globals[name] = (ty, init, c == 'constant', bool(flags & {'private', 'internal'}), al)
        elif l.startswith('define'):
            p = P(tokenize(l), mod)
            p.next()
            flags = set()
            while p.peek() in LINK: flags.add(p.next())
            p.skip_attrs()
            while p.peek() in LINK or p.peek() in P.ATTRS: flags.add(p.next())
            ret = p.type(); name = p.next(); p.need('(')
            params = []; va = False
            while not p.eat(')'):
                if p.peek() == '...':
                    p.next(); va = True; continue
                t = p.type(); p.skip_attrs()
                params.append((t, p.next()))
                p.eat(',')
            f = Func(name, ret, params, mod, 'internal' in flags, va)
            mod.funcs[name] = f
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                if not s.strip() or s.lstrip().startswith(';'):
                    i += 1; continue
                if not s.startswith(' '):
                    m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                    cur = '%' + m.group(1)
                    f.blocks[cur] = []; f.order.append(cur)
                else:
                    while '[' in s and s.rstrip().endswith('['):
                        i += 1
                        while True:
                            s += ' ' + lines[i].strip()
                            if lines[i].strip().startswith(']'): break
                            i += 1
                    f.blocks[cur].append(parse_instr(s, mod))
                i += 1
        elif l.startswith('declare'):
            p = P(tokenize(l), mod)
            p.next()
            p.skip_attrs()
            while p.peek() in LINK or p.peek() in P.ATTRS: p.next()
            p.skip_attrs()
            ret = p.type(); name = p.next()
            mod.decls[name] = ret
        i += 1
    return mod

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'bitcast', 'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'volatile', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    flags = set()
    while p.peek() in FLAGS: flags.add(p.next())
    I = lambda ty, *x: Instr(op, res, ty, x, flags, s.strip())
    if op in BIN:
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return I(t, a, b)
    if op in CAST:
        t = p.type(); a = p.value(t); p.need('to'); t2 = p.type()
        return I(t2, t, a)
    if op == 'fneg' or op == 'freeze':
        t = p.type(); return I(t, p.value(t))
    if op in ('icmp', 'fcmp'):
        pr = p.next()
        while p.peek() in FLAGS: pr = p.next()
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return I(t, pr, a, b)
    if op == 'load':
        t = p.type(); p.need(','); pt, v = p.tv(); return I(t, v)
    if op == 'store':
        t, v = p.tv(); p.need(','); pt, a = p.tv(); return I(t, v, a)
    if op == 'getelementptr':
        bt = p.type(); ops = []
        while p.eat(','):
            ops.append(p.tv())
        return I(('ptr',), bt, ops)
    if op == 'alloca':
        t = p.type(); n = None; al = 1
        while p.eat(','):
            if p.peek() == 'align':
                p.next(); al = int(p.next())
            else: n = p.tv()
        return I(t, n, al)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return I(None, p.next())
        t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
        return I(None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.next(); p.need('[')
        cs = []
        while not p.eat(']'):
            t2 = p.type(); cv = p.value(t2); p.need(','); p.need('label'); cs.append((cv[1], p.next()))
        return I(t, v, d, cs)
    if op == 'indirectbr':
        t = p.type(); v = p.value(t); p.need(','); p.need('[')
        ls = []
        while not p.eat(']'):
            p.need('label'); ls.append(p.next()); p.eat(',')
        return I(None, v, ls)
    if op == 'ret':
        if p.peek() == 'void': return I(('void',), None)
        t, v = p.tv(); return I(t, v)
    if op == 'unreachable': return I(None)
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.need('['); v = p.value(t); p.need(','); inc.append((p.next(), v)); p.need(']')
            if not p.eat(','): break
        return I(t, dict(inc))
    if op == 'select':
        t0, c = p.tv(); p.need(','); t1, a = p.tv(); p.need(','); t2, b = p.tv()
        return I(t1, c, a, b, t0)
    if op == 'call':
        p.skip_attrs()
        while p.peek() in P.ATTRS: p.next()
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'fn': rt = rt[1]
        if p.peek() == 'asm':
            toks = []
            while p.peek() != '(': toks.append(p.next())
            txt = ' '.join(toks)
            callee = ('glb', '@asm.cpuid' if re.search(r'(^|[^a-z])cpuid', txt.replace('\\0A', ' ')) and '={ax},=r,={cx},={dx}' in txt else '@asm.unknown')
        else: callee = p.value(('ptr',))
        p.need('(')
        args = []
        while not p.eat(')'):
            t = p.type(); p.skip_attrs()
            if t[0] == 'meta':
                d = 0
                p.next()
            else: args.append((t, p.value(t)))
            p.eat(',')
        return I(rt, callee, args)
    if op == 'extractelement':
        t, v = p.tv(); p.need(','); t2, ix = p.tv(); return I(t, v, ix)
    if op == 'insertelement':
        t, v = p.tv(); p.need(','); t2, e = p.tv(); p.need(','); t3, ix = p.tv(); return I(t, v, e, ix)
    if op == 'shufflevector':
        t, a = p.tv(); p.need(','); t2, b = p.tv(); p.need(','); t3, m = p.tv(); return I(t, a, b, t3, m)
    if op == 'extractvalue':
        t, v = p.tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return I(t, v, ix)
    if op == 'insertvalue':
        t, v = p.tv(); p.need(','); t2, e = p.tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return I(t, v, (t2, e), ix)
    raise SyntaxError('instr %r' % s)
