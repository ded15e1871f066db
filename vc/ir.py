"""Parser for textual LLVM 18 IR (the subset clang emits for the code under verification)."""
import re, subprocess

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elem', 'fields', 'packed', 'name', '_lay')
    def __init__(self, k, n=0, elem=None, fields=None, packed=False, name=None):
        self.k = k; self.n = n; self.elem = elem; self.fields = fields
        self.packed = packed; self.name = name; self._lay = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'named': return '%' + self.name
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.fields))
        return self.k

PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
FLOAT = Ty('float'); DOUBLE = Ty('double'); X86FP = Ty('x86_fp80'); OPAQUE = Ty('opaque')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?|-?[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
  | (?P<p>[(){}\[\]<>,=*:|])
)''', re.X)

class Lex:
    __slots__ = ('t', 'i', 's')
    def __init__(self, s):
        self.s = s; self.t = []; self.i = 0
        pos = 0; L = len(s)
        while pos < L:
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '': break
                if s[pos:].lstrip().startswith(';'): break
                raise SyntaxError('lex: %r' % s[pos:pos+60])
            self.t.append(m.group(m.lastgroup)); pos = m.end()
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        if not self.eat(x): raise SyntaxError('expected %r got %r in %s' % (x, self.peek(), self.s[:200]))

def unq(n):
    n = n[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'flags', 'uid', 'text')
    def __init__(self, op): self.op = op; self.res = None; self.ty = None; self.a = None; self.line = 0; self.flags = (); self.text = ''

class Func:
    def __init__(self):
        self.name = None; self.ret = None; self.params = []; self.vararg = False
        self.blocks = {}; self.entry = None; self.defined = False; self.order = []
        self.dem = None; self._loops = None; self.file = None

class Global:
    def __init__(self, name): self.name = name; self.ty = None; self.init = None; self.const = False; self.external = False

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.aliases = {}; self.meta = {}

    # ---- layout
    def resolve(self, t):
        while t.k == 'named': t = self.types[t.name]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            return 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr' or t.k == 'vec': return self.align(t.elem)
        if t.k == 'struct':
            if t.packed: return 1
            return max([self.align(f) for f in t.fields] or [1])
        raise ValueError('align %r' % t)
    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int': return {1: 1}.get(t.n, (t.n + 7) // 8) if t.n <= 8 else (2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16)
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr' or t.k == 'vec': return t.n * self.size(t.elem)
        if t.k == 'struct': return self.layout(t)[1]
        if t.k in ('void', 'opaque'): return 0
        raise ValueError('size %r' % t)
    def layout(self, t):
        t = self.resolve(t)
        if t._lay: return t._lay
        offs = []; o = 0; al = 1
        for f in t.fields:
            a = 1 if t.packed else self.align(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o); o += self.size(f)
        o = (o + al - 1) // al * al
        t._lay = (offs, o)
        return t._lay

PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'memory', 'elementtype', 'nofpclass', 'allocsize'}
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
               'returned', 'immarg', 'inreg', 'nest', 'noreturn', 'nounwind', 'nobuiltin', 'allocptr', 'allocalign', 'inalloca', 'captures',
               'swiftself', 'willreturn', 'writable', 'dead_on_unwind', 'nofree', 'cold', 'builtin'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc'}

class Parser:
    def __init__(self, text):
        self.m = Module()
        self.dbg = {}
        self.parse(text)

    # ---- types
    def ty(self, L):
        t = self.ty0(L)
        while True:
            if L.peek() == '*': L.next(); t = PTR
            elif L.peek() == '(' :
                # function type
                L.next(); 
                while not L.eat(')'):
                    if L.eat('...'): pass
                    else: self.ty(L); self.pattrs(L)
                    L.eat(',')
                t = Ty('func', elem=t)
            else: return t
    def ty0(self, L):
        x = L.next()
        if x[0] == 'i' and x[1:].isdigit(): return INT(int(x[1:]))
        if x == 'ptr': return PTR
        if x == 'void': return VOID
        if x == 'label': return LABEL
        if x == 'metadata': return META
        if x == 'float': return FLOAT
        if x == 'double': return DOUBLE
        if x == 'x86_fp80': return X86FP
        if x == 'opaque': return OPAQUE
        if x[0] == '%': return Ty('named', name=unq(x))
        if x == '[':
            n = int(L.next()); assert L.next() == 'x'
            e = self.ty(L); L.expect(']')
            return Ty('arr', n=n, elem=e)
        if x == '{':
            f = []
            while not L.eat('}'):
                f.append(self.ty(L)); L.eat(',')
            return Ty('struct', fields=f)
        if x == '<':
            if L.peek() == '{':
                L.next(); f = []
                while not L.eat('}'):
                    f.append(self.ty(L)); L.eat(',')
                L.expect('>')
                return Ty('struct', fields=f, packed=True)
            n = int(L.next()); assert L.next() == 'x'
            e = self.ty(L); L.expect('>')
            return Ty('vec', n=n, elem=e)
        raise SyntaxError('type %r in %s' % (x, L.s[:200]))

    def pattrs(self, L):
        while True:
            x = L.peek()
            if x in PARAM_ATTR_PAREN:
                L.next()
                if L.peek() == '(':
                    d = 0
                    while True:
                        y = L.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
                elif x == 'align': L.next()
            elif x in PARAM_ATTRS: L.next()
            elif x is not None and x[0] == '#': L.next()
            elif x is not None and x[0] == '"' : 
                L.next()
                if L.eat('='): L.next()
            else: return

    # ---- values:  ('c', int) ('l', name) ('g', name) ('null',) ('undef',) ('zero',) ('agg', [(ty,val)]) ('str', bytes) ('gep',...) ('f', float)
    def val(self, L, t):
        x = L.next()
        c0 = x[0]
        if c0 == '%': return ('l', unq(x))
        if c0 == '@': return ('g', unq(x))
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'none': return ('undef',)
        if c0.isdigit() or c0 == '-':
            rt = t.k
            if rt in ('float', 'double', 'x86_fp80'): return ('f', x)
            return ('c', int(x, 0))
        if x.startswith('c"'):
            s = x[2:-1]; out = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(s[i+1:i+3], 16)); i += 3
                else: out.append(ord(s[i])); i += 1
            return ('str', bytes(out))
        if x == '{' or x == '[' or x == '<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and L.peek() == '{':
                L.next(); r = self.aggs(L, '}'); L.expect('>'); return r
            return self.aggs(L, close)
        if x == 'getelementptr':
            while L.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'): L.next()
            if L.peek() == 'inrange': L.next()
            L.expect('(')
            bt = self.ty(L); L.expect(',')
            ops = self.typed_list(L, ')')
            return ('gep', bt, ops)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            L.expect('('); ft = self.ty(L); v = self.val(L, ft)
            assert L.next() == 'to'; tt = self.ty(L); L.expect(')')
            return ('cast', x, ft, v, tt)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while L.peek() in ('nuw', 'nsw'): L.next()
            L.expect('('); ops = self.typed_list(L, ')')
            return ('cbin', x, ops)
        if x == 'blockaddress' or x == 'asm': raise SyntaxError('unsupported const ' + x)
        if x == 'dso_local_equivalent' or x == 'no_cfi': return self.val(L, t)
        raise SyntaxError('value %r in %s' % (x, L.s[:200]))
    def aggs(self, L, close):
        r = []
        while not L.eat(close):
            t = self.ty(L); r.append((t, self.val(L, t))); L.eat(',')
        return ('agg', r)
    def typed_list(self, L, close):
        r = []
        while not L.eat(close):
            L.eat('inrange')
            t = self.ty(L); self.pattrs(L); r.append((t, self.val(L, t))); L.eat(',')
        return r

    # ---- top level
    def parse(self, text):
        lines = text.split('\n'); i = 0; n = len(lines)
        m = self.m
        while i < n:
            s = lines[i]
            if not s or s[0] == ';': i += 1; continue
            if s[0] == '%':
                k, rest = s.split(' = type ', 1)
                L = Lex(rest); m.types[unq(k)] = self.ty(L); i += 1; continue
            if s[0] == '@':
                self.glob(s); i += 1; continue
            if s.startswith('declare'):
                self.fhead(s, False); i += 1; continue
            if s.startswith('define'):
                f = self.fhead(s, True)
                i += 1; body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.body = body
                i += 1; continue
            if s[0] == '!':
                self.metaline(s); i += 1; continue
            i += 1

    def metaline(self, s):
        mm = re.match(r'!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock|DILexicalBlockFile)\((.*)\)$', s)
        if mm:
            d = {}
            for k, v in re.findall(r'(\w+): ("(?:[^"])*"|[^,]+)', mm.group(3)): d[k] = v
            self.dbg[int(mm.group(1))] = (mm.group(2), d)
    def lineof(self, dbg):
        if dbg is None: return 0
        e = self.dbg.get(dbg)
        return int(e[1].get('line', 0)) if e else 0

    def glob(self, s):
        L = Lex(s)
        g = Global(unq(L.next())); L.expect('=')
        while True:
            x = L.peek()
            if x in LINKAGE:
                if x in ('external', 'extern_weak'): g.external = True
                L.next()
                if x == 'thread_local' and L.peek() == '(':
                    while L.next() != ')': pass
            elif x == 'addrspace': L.next(); L.next(); L.next(); L.next()
            else: break
        x = L.next()
        if x == 'alias':
            t = self.ty(L); L.expect(','); t2 = self.ty(L); v = self.val(L, t2)
            self.m.aliases[g.name] = v; return
        g.const = (x == 'constant')
        g.ty = self.ty(L)
        if not g.external and L.peek() is not None and L.peek() not in (',',):
            g.init = self.val(L, g.ty)
        self.m.globals[g.name] = g

    def fhead(self, s, defined):
        i = s.index('@')
        pre = s[:i]; 
        L = Lex(s); L.next()
        f = Func(); f.defined = defined
        while True:
            x = L.peek()
            if x in LINKAGE or x in PARAM_ATTRS: L.next()
            elif x in PARAM_ATTR_PAREN: self.pattrs(L)
            else: break
        f.ret = self.ty0(L)
        self.pattrs(L)
        f.name = unq(L.next()); L.expect('(')
        while not L.eat(')'):
            if L.eat('...'): f.vararg = True; continue
            t = self.ty(L); 
            byval = None
            j = L.i
            self.pattrs(L)
            if 'byval' in L.t[j:L.i]: byval = True
            nm = None
            if L.peek() and L.peek()[0] == '%': nm = unq(L.next())
            f.params.append((t, nm, byval)); L.eat(',')
        mm = re.search(r'!dbg !(\d+)', s)
        f.dbg = int(mm.group(1)) if mm else None
        old = self.m.funcs.get(f.name)
        if not (old and old.defined): self.m.funcs[f.name] = f
        return f

    def body(self, f):
        """Lazily parse a function body."""
        if f.blocks: return
        cur = None; blk = None
        # name unnamed params/first block
        cnt = 0
        ps = []
        for (t, nm, bv) in f.params:
            if nm is None: nm = str(cnt); cnt += 1
            ps.append((t, nm, bv))
        f.params = ps
        lines = f.body
        # join multi-line instructions (switch, landingpad clauses, invoke 'to label')
        j = 0; out = []
        while j < len(lines):
            s = lines[j]
            if re.match(r'^\s+switch .*\[$', s):
                while lines[j].strip() != ']' and not lines[j].strip().startswith(']'):
                    j += 1; s += ' ' + lines[j].strip()
            elif out and (s.startswith('          to label') or s.startswith('          catch') or s.startswith('          cleanup') or s.startswith('          filter')):
                out[-1] += ' ' + s.strip(); j += 1; continue
            out.append(s); j += 1
        for s in out:
            if not s.strip() or s.lstrip().startswith(';'): continue
            if not s.startswith(' '):
                lab = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s).group(1)
                if lab.startswith('"'): lab = lab[1:-1]
                blk = []; f.blocks[lab] = blk; f.order.append(lab)
                if f.entry is None: f.entry = lab
                continue
            if blk is None:
                lab = str(cnt); blk = []; f.blocks[lab] = blk; f.order.append(lab); f.entry = lab
            dbg = None
            mm = re.search(r', !dbg !(\d+)', s)
            if mm: dbg = int(mm.group(1))
            k = s.find(', !')
            if k >= 0: s = s[:k]
            if 'call void @llvm.dbg.' in s: continue
            ins = self.instr(s.strip())
            ins.line = self.lineof(dbg)
            ins.text = s.strip()
            blk.append(ins)
        if f.dbg is not None and f.dbg in self.dbg:
            f.line = int(self.dbg[f.dbg][1].get('line', 0))
            fl = self.dbg[f.dbg][1].get('file', '')
            mm = re.match(r'!(\d+)', fl)
            if mm and int(mm.group(1)) in self.dbg:
                f.file = self.dbg[int(mm.group(1))][1].get('filename', '').strip('"')

    def instr(self, s):
        L = Lex(s)
        res = None
        if L.peek(1) == '=' : res = unq(L.next()); L.next()
        op = L.next()
        if op in ('tail', 'musttail', 'notail'): op = L.next()
        I = Instr(op); I.res = res
        fl = []
        def flags(*ok):
            while L.peek() in ok: fl.append(L.next())
        FM = ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc')
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags('nuw', 'nsw', 'exact', 'disjoint', *FM)
            I.ty = self.ty(L); a = self.val(L, I.ty); L.expect(','); b = self.val(L, I.ty); I.a = (a, b)
        elif op in ('icmp', 'fcmp'):
            flags(*FM)
            pred = L.next(); I.ty = self.ty(L); a = self.val(L, I.ty); L.expect(','); b = self.val(L, I.ty); I.a = (pred, a, b)
        elif op == 'fneg':
            flags(*FM); I.ty = self.ty(L); I.a = (self.val(L, I.ty),)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            flags('nneg', 'nuw', 'nsw', *FM)
            ft = self.ty(L); v = self.val(L, ft); assert L.next() == 'to'; I.ty = self.ty(L); I.a = (ft, v)
        elif op == 'freeze':
            I.ty = self.ty(L); I.a = (self.val(L, I.ty),)
        elif op == 'alloca':
            L.eat('inalloca'); I.ty = self.ty(L); cntv = None
            if L.eat(','):
                if L.peek() != 'align':
                    t = self.ty(L); cntv = (t, self.val(L, t))
            I.a = (cntv,)
        elif op == 'load':
            flags('volatile', 'atomic')
            I.ty = self.ty(L); L.expect(','); t = self.ty(L); I.a = (self.val(L, t),)
        elif op == 'store':
            flags('volatile', 'atomic')
            I.ty = self.ty(L); v = self.val(L, I.ty); L.expect(','); t = self.ty(L); I.a = (v, self.val(L, t))
        elif op == 'getelementptr':
            flags('inbounds', 'nuw', 'nusw')
            bt = self.ty(L); L.expect(',')
            ops = []
            while True:
                t = self.ty(L); ops.append((t, self.val(L, t)))
                if not L.eat(','): break
            I.ty = PTR; I.a = (bt, ops)
        elif op == 'phi':
            flags(*FM)
            I.ty = self.ty(L); inc = {}
            while True:
                L.expect('['); v = self.val(L, I.ty); L.expect(','); b = unq(L.next()); L.expect(']')
                inc[b] = v
                if not L.eat(','): break
            I.a = inc
        elif op == 'select':
            flags(*FM)
            t = self.ty(L); c = self.val(L, t); L.expect(',')
            I.ty = self.ty(L); a = self.val(L, I.ty); L.expect(','); t2 = self.ty(L); b = self.val(L, t2); I.a = (c, a, b)
        elif op == 'br':
            t = self.ty(L)
            if t is LABEL: I.a = (None, unq(L.next()), None)
            else:
                c = self.val(L, t); L.expect(','); L.next(); a = unq(L.next()); L.expect(','); L.next(); b = unq(L.next()); I.a = (c, a, b)
        elif op == 'switch':
            I.ty = self.ty(L); v = self.val(L, I.ty); L.expect(','); L.next(); d = unq(L.next()); L.expect('[')
            cs = []
            while not L.eat(']'):
                t = self.ty(L); c = self.val(L, t); L.expect(','); L.next(); cs.append((c[1], unq(L.next())))
            I.a = (v, d, cs)
        elif op == 'ret':
            I.ty = self.ty(L); I.a = (None if I.ty is VOID else self.val(L, I.ty),)
        elif op in ('call', 'invoke'):
            while L.peek() in FM or L.peek() in ('fastcc', 'ccc', 'coldcc'): L.next()
            self.pattrs(L)
            I.ty = self.ty0(L)
            if L.peek() == '(':   # explicit function type
                d = 0
                while True:
                    y = L.next()
                    if y == '(': d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0: break
            if L.peek() == 'asm':
                I.a = (('asm', s), [], None, None); I.flags = (); return I
            callee = self.val(L, PTR)
            L.expect('(')
            args = []
            while not L.eat(')'):
                t = self.ty(L); 
                j = L.i; self.pattrs(L); bv = 'byval' in L.t[j:L.i]
                if t is META:
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and L.peek() in (',', ')')):
                        y = L.next()
                        if y == '(': d += 1
                        if y == ')': d -= 1
                    args.append((t, ('undef',), False)); L.eat(','); continue
                args.append((t, self.val(L, t), bv)); L.eat(',')
            nrm = unw = None
            if op == 'invoke':
                while L.peek() != 'to': L.next()
                L.next(); L.next(); nrm = unq(L.next()); assert L.next() == 'unwind'; L.next(); unw = unq(L.next())
            I.a = (callee, args, nrm, unw)
        elif op == 'extractvalue':
            t = self.ty(L); v = self.val(L, t); idx = []
            while L.eat(','): idx.append(int(L.next()))
            I.a = (t, v, idx)
        elif op == 'insertvalue':
            t = self.ty(L); v = self.val(L, t); L.expect(','); t2 = self.ty(L); v2 = self.val(L, t2); idx = []
            while L.eat(','): idx.append(int(L.next()))
            I.ty = t; I.a = (v, t2, v2, idx)
        elif op == 'landingpad':
            I.ty = self.ty(L); cl = []; cleanup = False
            while L.peek() is not None:
                x = L.next()
                if x == 'cleanup': cleanup = True
                elif x == 'catch': t = self.ty(L); cl.append(self.val(L, t))
                elif x == 'filter': cleanup = True; break
            I.a = (cl, cleanup)
        elif op == 'resume':
            I.ty = self.ty(L); I.a = (self.val(L, I.ty),)
        elif op == 'unreachable':
            pass
        elif op == 'atomicrmw':
            flags('volatile')
            o = L.next(); t = self.ty(L); p = self.val(L, t); L.expect(','); I.ty = self.ty(L); I.a = (o, p, self.val(L, I.ty))
        elif op == 'cmpxchg':
            flags('weak', 'volatile')
            t = self.ty(L); p = self.val(L, t); L.expect(','); t2 = self.ty(L); c = self.val(L, t2); L.expect(','); t3 = self.ty(L); n = self.val(L, t3)
            I.ty = t2; I.a = (p, c, n)
        elif op == 'fence': pass
        elif op == 'va_arg':
            I.a = ()
        else:
            raise SyntaxError('instr %s' % s)
        I.flags = tuple(fl)
        return I

def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    if p.returncode != 0:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')

def load(path):
    p = Parser(open(path).read())
    names = list(p.m.funcs)
    for nm, d in zip(names, demangle(names)): p.m.funcs[nm].dem = d
    p.m.parser = p
    return p.m

# ---------------------------------------------------------------- CFG
def succs(ins):
    if ins.op == 'br': return [x for x in ins.a[1:] if x]
    if ins.op == 'switch': return [ins.a[1]] + [b for _, b in ins.a[2]]
    if ins.op == 'invoke': return [ins.a[2], ins.a[3]]
    return []

def loops(f):
    """header -> set of blocks (natural loops merged per header)."""
    if f._loops is not None: return f._loops
    order = []; seen = set()
    st = [(f.entry, iter(succs(f.blocks[f.entry][-1])))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succs(f.blocks[s][-1])))); break
        else:
            order.append(b); st.pop()
    order.reverse(); idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f.blocks[b][-1]): preds[s].append(b)
    idom = {f.entry: f.entry}; ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    L = {}
    for b in order:
        for s in succs(f.blocks[b][-1]):
            if dom(s, b):
                body = L.setdefault(s, {s}); w = [b]
                while w:
                    x = w.pop()
                    if x not in body: body.add(x); w.extend(preds[x])
    # irreducible check: a retreating edge whose target does not dominate the source
    for b in order:
        for s in succs(f.blocks[b][-1]):
            if idx[s] <= idx[b] and not dom(s, b): raise NotImplementedError('irreducible CFG in ' + f.name)
    f._loops = L; f._preds = preds
    return L
