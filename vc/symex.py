import subprocess
import os
"""Deductive verifier over LLVM IR: symbolic execution with contracts at calls, loops cut by
inductive invariants (Houdini-filtered templates plus harness-supplied candidates), and every
obligation decided by z3."""
import z3, sys, time, re
import ir as I
import lia

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(self, conds): self.conds = conds
class Kill(Exception): pass           # path infeasible / ended

BV64 = z3.BitVecSort(64)
def isc(x): return isinstance(x, int)
_bvcache = {}
def bv(x, w):
    if isinstance(x, int):
        k = (x, w); r = _bvcache.get(k)
        if r is None: r = _bvcache[k] = z3.BitVecVal(x, w)
        return r
    return x
def mask(w): return (1 << w) - 1
def tosigned(x, w): return x - (1 << w) if x >> (w - 1) else x

TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def asbool(x):
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return TRUE if x else FALSE
    if z3.is_bool(x): return x
    return x != bv(0, x.size())
def fold(e):
    """simplify; return python int for constants (bools -> 0/1)"""
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

class Ptr:
    __slots__ = ('obj', 'base', 'off', 'sub')
    def __init__(self, obj, base=0, off=0, sub=None): self.obj = obj; self.base = base; self.off = off; self.sub = sub
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.obj.name if self.obj else None, self.base, self.off)
NULL = Ptr(None, 0, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name
class OPtr:
    """pointer of unknown provenance: only comparable and copyable"""
    __slots__ = ('bv',)
    def __init__(self, b): self.bv = b
class PtrInt:
    """an integer holding a pointer value (from integer-typed copies of pointer cells)"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'addr', 'const')
    n = 0
    def __init__(self, name, size, kind, const=False):
        Obj.n += 1; self.id = Obj.n; self.name = name; self.size = size; self.kind = kind; self.const = const
        self.addr = None
    def address(self):
        if self.addr is None: self.addr = z3.BitVec('addr!%d!%s' % (self.id, self.name), 64)
        return self.addr

NULLTERM = object()   # value of a pointer-offset term whose pointer is null
# memory chain: tuples (prev, kind, ...)  root: (None,'init',array token) / (None,'zero') / (None,'bytes',bytes) / (None,'cells',dict)
class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'idx', 'retto', 'allocas', 'unwind', 'kind', 'counts', 'exc')
    def __init__(self, fn):
        self.fn = fn; self.env = {}; self.block = fn.entry; self.prev = None; self.idx = 0; self.retto = None
        self.allocas = []; self.unwind = None; self.kind = None; self.counts = None; self.exc = None
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.env = dict(self.env); f.block = self.block; f.prev = self.prev; f.idx = self.idx
        f.retto = self.retto; f.allocas = list(self.allocas); f.unwind = self.unwind; f.kind = self.kind
        f.counts = dict(self.counts) if self.counts else None; f.exc = self.exc
        return f

class State:
    __slots__ = ('frames', 'mem', 'pcs', 'freed', 'model', 'ctxs', 'invs', 'invts', 'ranks', 'measures', 'unroll', 'frame', 'anys',
                 'facts', 'exc', 'trace', 'noterm', 'opts', 'factseen', 'contract_depth', 'deltas')
    def __init__(self):
        self.frames = []; self.mem = {}; self.pcs = []; self.freed = frozenset(); self.model = None; self.ctxs = []
        self.invs = (); self.invts = (); self.ranks = (); self.measures = (); self.unroll = 0; self.frame = None; self.anys = ()
        self.facts = (); self.exc = None; self.trace = (); self.noterm = False; self.opts = {}; self.factseen = frozenset()
        self.contract_depth = 0; self.deltas = {}
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]; s.mem = dict(self.mem); s.pcs = list(self.pcs); s.freed = self.freed
        s.model = self.model; s.ctxs = list(self.ctxs); s.invs = self.invs; s.invts = self.invts; s.ranks = self.ranks; s.measures = self.measures
        s.unroll = self.unroll; s.frame = self.frame; s.anys = self.anys; s.facts = self.facts; s.exc = self.exc
        s.trace = self.trace; s.noterm = self.noterm; s.opts = self.opts; s.factseen = self.factseen
        s.contract_depth = self.contract_depth; s.deltas = dict(self.deltas)
        return s

class LoopCtx:
    def __init__(self, depth, header, blocks, mode, data):
        self.depth = depth; self.header = header; self.blocks = blocks; self.mode = mode; self.data = data; self.rank0 = {}

class Ob:
    """aggregated obligation: one per (kind, function, line, text)"""
    def __init__(self, name): self.name = name; self.checks = 0; self.failed = 0; self.unknown = 0; self.cex = None; self.time = 0.0

_splitcache = {}
def split(e):
    """offset -> (core or None, const)"""
    if isinstance(e, int): return (None, e)
    k = e.get_id()
    r = _splitcache.get(k)
    if r is not None and r[2] is e: return r[0], r[1]
    s = z3.simplify(e)
    if z3.is_bv_value(s): out = (None, s.as_long())
    elif s.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(s.arg(0)):
        c = s.arg(0).as_long()
        rest = s.arg(1) if s.num_args() == 2 else None
        if rest is None:
            rest = s.arg(1)
            for j in range(2, s.num_args()): rest = rest + s.arg(j)
        out = (rest, c)
    else: out = (s, 0)
    _splitcache[k] = (out[0], out[1], e)
    return out

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod; self.P = mod.parser
        self.o = dict(timeout=20000, maxpaths=20000, deadline=None)
        if opts: self.o.update(opts)
        self.solver = z3.Solver(); self.solver.set('timeout', self.o['timeout'])
        self.synced = []; self.lsolver = z3.Solver(); self.lsynced = []; self.lia = lia.Lia(); self.bvslow = 0
        self.obs = {}; self.recording = True
        self.gobjs = {}; self.fresh_n = 0
        self.stats = dict(queries=0, qtime=0.0, paths=0, forks=0, instrs=0, fastq=0, loops=0, houdini_dropped=0, contract_calls=0, ends=0)
        self.contracts = []     # (regex, stubname, provedby)
        self.skip_contracts = set(); self.merges = []; self.joins = set()
        self.used_contracts = {}; self.inlined = {}; self.externs = {}
        self.keepalive = []
        self.stubs = {n[8:]: n for n in mod.funcs if n.startswith('vcstub__')}
        self.pagesobj = None
        self.purecache = {}
        self.tids = {}
        self.loopinfo = []
        self.verbose = self.o.get('verbose', 0)
        self.nonpure = {}
        self.harness = None
        self.base_mem = {}

    # ------------------------------------------------------------ solver
    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)
    def freshbool(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))
    def freshptr(self, name): return OPtr(self.fresh(name, 64))
    def fresharr(self, name):
        self.fresh_n += 1
        return z3.Array('%s!%d' % (name, self.fresh_n), BV64, z3.BitVecSort(8))
    def sync(self, pcs):
        sy = self.synced; n = min(len(sy), len(pcs)); k = 0
        while k < n and sy[k] is pcs[k]: k += 1
        if k < len(sy):
            self.solver.pop(len(sy) - k); del sy[k:]
        for p in pcs[k:]:
            self.solver.push(); self.solver.add(p[0]); sy.append(p)
    def check(self, st, cond, want_model=False):
        """sat/unsat/unknown of pcs & cond"""
        if self.o['deadline'] and time.time() > self.o['deadline']: raise TimeoutError('engine deadline')
        t = time.time()
        self.sync(st.pcs)
        r = z3.unknown; m = None
        if self.bvslow < 8:
            self.solver.set('timeout', 250)
            self.solver.push(); self.solver.add(cond)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if r == z3.unknown: self.bvslow += 2
            elif self.bvslow: self.bvslow -= 1
        else: self.bvslow -= 3
        if r == z3.unknown:
            r, m = self.check_lia(st, cond)
        if r == z3.unknown and self.bvslow <= 1000000:
            s2 = z3.SolverFor('QF_AUFBV'); s2.set('timeout', self.o['timeout'])
            for p in st.pcs: s2.add(p[0])
            s2.add(cond); r = s2.check()
            if r == z3.sat: m = s2.model()
            self.stats['bvslow'] = self.stats.get('bvslow', 0) + 1
        dt = time.time() - t
        self.stats['queries'] += 1; self.stats['qtime'] += dt
        if dt > 1.0 and self.o.get('dump'):
            s2 = z3.Solver()
            for p in st.pcs: s2.add(p[0])
            s2.add(cond)
            self.dumpn = getattr(self, 'dumpn', 0) + 1
            open('%s/q%d_%s_%.1f.smt2' % (self.o['dump'], self.dumpn, r, dt), 'w').write('(set-logic ALL)\n' + s2.to_smt2())
        return r, m
    def check_hard(self, st, cond):
        """an undecided obligation: fresh solvers, other seeds, more time"""
        t = time.time()
        for seed, tmo in ((0, 30000), (7, 30000), (42, 60000)):
            s = z3.Solver(); s.set('timeout', tmo); s.set('random_seed', seed); s.set('smt.arith.random_initial_value', seed > 0)
            exact = True
            try:
                for p in st.pcs:
                    try: g, e = self.lia.tr(p[0])
                    except lia.NoLia: exact = False; continue
                    s.add(g); exact = exact and e
                g, e = self.lia.tr(cond); s.add(g); exact = exact and e
            except lia.NoLia: break
            r = s.check()
            if r == z3.unsat or (r == z3.sat and exact):
                self.stats['hard'] = self.stats.get('hard', 0) + 1; self.stats['qtime'] += time.time() - t
                return r, (self.bvmodel(s.model()) if r == z3.sat else None)
            if r == z3.sat: break
        self.stats['qtime'] += time.time() - t
        return z3.unknown, None
    def check_lia(self, st, cond):
        self.stats['lia'] = self.stats.get('lia', 0) + 1
        sy = self.lsynced; n = min(len(sy), len(st.pcs)); k = 0
        while k < n and sy[k][0] is st.pcs[k]: k += 1
        if k < len(sy):
            self.lsolver.pop(len(sy) - k); del sy[k:]
        try:
            for p in st.pcs[k:]:
                try: g, e = self.lia.tr(p[0])
                except lia.NoLia: g, e = True, False      # left out: weaker hypotheses
                self.lsolver.push(); self.lsolver.add(g); sy.append((p, e))
            g, e = self.lia.tr(cond)
        except lia.NoLia: return z3.unknown, None
        self.lsolver.set('timeout', 1000 if self.bvslow > 1000000 else 6000)
        self.lsolver.push(); self.lsolver.add(g)
        if os.environ.get('VC_LQ'): open(os.environ['VC_LQ'], 'w').write(self.lsolver.to_smt2())
        r = self.lsolver.check(); m = None
        if r == z3.unknown and self.bvslow > 1000000:
            r = self.cvc5(self.lsolver.to_smt2())
            if r == z3.sat: self.lsolver.set('timeout', 15000); r = self.lsolver.check()
        if r == z3.sat:
            if not (e and all(x[1] for x in sy)): r = z3.unknown
            else: m = self.bvmodel(self.lsolver.model())
        self.lsolver.pop()
        if r == z3.unknown: self.stats['lia_unknown'] = self.stats.get('lia_unknown', 0) + 1
        return r, m
    def cvc5(self, smt):
        self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
        smt = '(set-logic ALL)\n' + re.sub(r'\(\+ (\?x\d+|[\w!$.]+)\)', r'\1', smt)
        try: p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000', '-'], input=smt, capture_output=True, text=True, timeout=30)
        except Exception: return z3.unknown
        o = p.stdout.strip().split('\n')[-1] if p.stdout else ''
        return z3.unsat if o == 'unsat' else z3.sat if o == 'sat' else z3.unknown
    def bvmodel(self, lm):
        m = z3.Model()
        try:
            for d in lm.decls():
                nm = d.name()
                v = self.lia.vars.get(nm)
                if v is not None and d.arity() == 0:
                    m.update_value(v, z3.BitVecVal(lm[d].as_long(), v.size()))
                elif d.arity() == 1 and nm in self.lia.ufname:
                    arr = self.lia.ufname[nm]; fi = lm[d]; ds = arr.sort().domain().size(); rs = arr.sort().range().size()
                    ev = fi.else_value(); ev = ev.as_long() if ev is not None and z3.is_int_value(ev) else 0
                    a = z3.K(arr.sort().domain(), z3.BitVecVal(ev, rs))
                    for i in range(fi.num_entries()):
                        en = fi.entry(i); a = z3.Store(a, z3.BitVecVal(en.arg_value(0).as_long(), ds), z3.BitVecVal(en.value().as_long(), rs))
                    m.update_value(arr, z3.simplify(a))
                elif d.arity() == 0 and d.range() == z3.BoolSort(): m.update_value(d(), lm[d])
        except Exception: return None
        return m
    def meval(self, st, cond):
        if st.model is None: return None
        try: v = st.model.eval(cond, model_completion=True)
        except z3.Z3Exception: return None
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None
    def must(self, st, cond):
        cond = fold(asbool(cond))
        if isc(cond): return bool(cond)
        if self.meval(st, cond) is False:
            self.stats['fastq'] += 1; return False
        r, m = self.check(st, z3.Not(cond))
        return r == z3.unsat
    def may(self, st, cond):
        cond = fold(asbool(cond))
        if isc(cond): return bool(cond)
        if self.meval(st, cond) is True:
            self.stats['fastq'] += 1; return True
        r, m = self.check(st, cond)
        return r != z3.unsat
    def add(self, st, cond, fact=False):
        """assume; kills the path if infeasible"""
        cond = fold(asbool(cond))
        if isc(cond):
            if not cond: raise Kill()
            return
        v = self.meval(st, cond)
        if v is not True:
            r, m = self.check(st, cond)
            if r == z3.unsat: raise Kill()
            st.model = m if r == z3.sat else None
        st.pcs.append((cond, fact))
    def add_nocheck(self, st, cond, fact=True):
        cond = fold(asbool(cond))
        if isc(cond) and cond: return
        cond = asbool(cond)
        if self.meval(st, cond) is not True: st.model = None
        st.pcs.append((cond, fact))
    def branch(self, st, cond):
        """decide cond on st: returns True/False, or raises Fork"""
        cond = fold(asbool(cond))
        if isc(cond): return bool(cond)
        v = self.meval(st, cond)
        if v is True or v is False:
            other = z3.Not(cond) if v else cond
            r, m = self.check(st, other)
            if r == z3.unsat:
                self.stats['fastq'] += 1
                return v
        else:
            r, m = self.check(st, cond)
            if r == z3.unsat:
                r2, m2 = self.check(st, z3.Not(cond))
                if r2 == z3.unsat: raise Kill()
                st.model = m2; return False
            r2, m2 = self.check(st, z3.Not(cond))
            if r2 == z3.unsat: st.model = m; return True
        raise Fork([cond, z3.Not(cond)])

    # ------------------------------------------------------------ obligations
    def where(self, st):
        for f in reversed(st.frames):
            if f.kind in ('stub', 'contract', 'spec'): continue
            blk = f.fn.blocks.get(f.block)
            ln = blk[f.idx].line if blk and f.idx < len(blk) else 0
            return self.short(f.fn), ln
        return '?', 0
    def short(self, fn):
        d = fn.dem or fn.name
        d = re.sub(r'<[^<>]*>', '', d); 
        while True:
            d2 = re.sub(r'<[^<>]*>', '', d)
            if d2 == d: break
            d = d2
        k = d.find('(')
        if k > 0: d = d[:k]
        return d.split(' ')[-1]
    def oblige(self, st, cond, kind, text=''):
        """record obligation pcs => cond; afterwards assume it"""
        cond = fold(asbool(cond))
        if not self.recording:
            if isc(cond):
                if not cond: raise Kill()
                return
            self.add(st, cond, True); return
        fn, ln = self.where(st)
        name = '%s@%s%s' % (kind, fn, (': ' + text) if text else '')
        ob = self.obs.get(name)
        if ob is None: ob = self.obs[name] = Ob(name)
        ob.checks += 1
        if isc(cond) and cond: return
        t = time.time()
        ok = None; m = None
        if isc(cond): ok = False
        elif self.meval(st, cond) is False: ok = False
        if ok is False and st.model is not None: m = st.model
        if ok is None or (ok is False and m is None):
            r, m = self.check(st, z3.Not(asbool(cond)))
            if r == z3.unknown: r, m = self.check_hard(st, z3.Not(asbool(cond)))
            ok = True if r == z3.unsat else False if r == z3.sat else None
            if r == z3.unsat and isc(cond): raise Kill()
        ob.time += time.time() - t
        if ok is None:
            ob.unknown += 1
            if ob.cex is None: ob.cex = dict(line=ln, kind=kind, unknown=True, bytes=None, trace=list(st.trace[-12:]))
        elif ok is False:
            ob.failed += 1
            if ob.cex is None or ob.cex.get('unknown') or ob.cex.get('abstract'):
                ob.cex = self.make_cex(st, cond, m, kind, ln)
            if self.o.get('stop_on_fail') : raise StopIteration()
        if isc(cond): raise Kill()
        self.add(st, cond, True)

    def make_cex(self, st, cond, m, kind, ln):
        # try for a small model: prefer small sizes
        neg = z3.Not(asbool(cond))
        best = m
        sizes = [a[2] for a in st.anys if a[0] == 'int' and not isc(a[2]) and a[2].size() >= 32]
        for lim in (16, 64, 300, 5000):
            extra = [z3.ULE(s, bv(lim, s.size())) for s in sizes]
            r, m2 = self.check(st, z3.And([neg] + extra) if extra else neg)
            if r == z3.sat: best = m2; break
        data = bytearray(); desc = []
        if best is not None:
            try:
                for a in st.anys:
                    if a[0] == 'int':
                        v = a[2] if isc(a[2]) else best.eval(a[2], model_completion=True).as_long()
                        w = a[3]
                        data += int(v).to_bytes(w, 'little'); desc.append('%s=%d' % (a[1], v))
                    elif a[0] == 'mem':
                        n = a[3] if isc(a[3]) else best.eval(a[3], model_completion=True).as_long()
                        n = min(n, 1 << 16)
                        bs = bytes(best.eval(z3.Select(a[2], bv(k, 64)), model_completion=True).as_long() for k in range(n))
                        data += bs; desc.append('%s[%d]=%r' % (a[1], n, bs[:64]))
            except Exception as e:
                desc.append('cex extraction: %r' % e)
        abstract = any(c.mode == 'final' for c in st.ctxs) or any(l == 'loop' or l == 'contract' for l in st.trace)
        return dict(line=ln, kind=kind, bytes=bytes(data), desc=desc, abstract=abstract,
                    trace=[str(x) for x in st.trace[-30:]])

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, size, kind, root=None, const=False):
        o = Obj(name, size, kind, const)
        st.mem[o.id] = root if root is not None else (None, 'init', self.fresharr('m_' + name), (0, o))
        return o
    def gobj(self, name):
        o = self.gobjs.get(name)
        if o is not None: return o
        if name in self.m.aliases:
            raise Unsupported('alias ' + name)
        g = self.m.globals[name]
        size = self.m.size(g.ty) if self.m.resolve(g.ty).k != 'opaque' else 8
        o = Obj('@' + name, size, 'global', g.const)
        self.gobjs[name] = o
        cells = {}
        if g.init is not None:
            root = None
            if g.init[0] == 'str': root = (None, 'bytes', g.init[1])
            elif g.init[0] == 'zero': root = (None, 'zero')
            else:
                self.base_mem[o.id] = (None, 'zero')
                self.const_cells(g.ty, g.init, 0, cells)
                root = (None, 'cells', cells, (None, 'zero'))
        else:
            root = (None, 'init', self.fresharr('g_' + name), (0, o))
        self.base_mem[o.id] = root
        return o
    def const_cells(self, t, v, off, cells):
        t = self.m.resolve(t)
        if v[0] in ('zero', 'undef'): return
        if v[0] == 'agg' or v[0] == 'str':
            if v[0] == 'str':
                for i, b in enumerate(v[1]): cells[off + i] = (1, b)
                return
            if t.k == 'struct':
                offs, _ = self.m.layout(t)
                for (ft, fv), o in zip(v[1], offs): self.const_cells(ft, fv, off + o, cells)
            else:
                es = self.m.size(t.elem)
                for i, (et, ev) in enumerate(v[1]): self.const_cells(et, ev, off + i * es, cells)
            return
        x = self.const(t, v)
        if isinstance(x, FpV): x = x.bits()
        cells[off] = (self.m.size(t), x)

    def chain(self, st, obj):
        c = st.mem.get(obj.id)
        if c is None: c = self.base_mem[obj.id]
        return c

    def extract(self, val, vn, k, n):
        """bytes [k,k+n) of a vn-byte value"""
        if k == 0 and n == vn: return val
        if isinstance(val, (Ptr, FnPtr)) :
            if isinstance(val, Ptr) and val.obj is None: return 0 if not val.off else (val.off >> (8*k)) & mask(8*n)
            return self.fresh('ptrbits', 8 * n)
        if isinstance(val, OPtr): val = val.bv
        if isinstance(val, PtrInt): return self.fresh('ptrbits', 8 * n)
        if isinstance(val, int): return (val >> (8 * k)) & mask(8 * n)
        return z3.Extract(8 * (k + n) - 1, 8 * k, val)
    def concat(self, parts):
        """parts: list of (n, value) little endian"""
        if len(parts) == 1: return parts[0][1]
        if all(isc(v) for _, v in parts):
            r = 0; s = 0
            for n, v in parts: r |= v << s; s += 8 * n
            return r
        return z3.Concat(*[bv(v, 8 * n) for n, v in reversed(parts)])
    def toint(self, v, n):
        if isinstance(v, PtrInt): v = v.p
        if isinstance(v, (Ptr, FnPtr, OPtr)): return self.ptrtoint(v)
        return v

    def read(self, st, obj, base, off, n):
        return self.readc(st, self.chain(st, obj), obj, base, off, n)

    def rel_const(self, o1, n1, o2, n2):
        d = o1 - o2
        if d >= n2 or d + n1 <= 0: return 'disj'
        return d
    def key_eq(self, b1, b2):
        """1/0/expr whether two bases are equal"""
        if isc(b1) and isc(b2): return 1 if b1 == b2 else 0
        return fold(bv(b1, 64) == bv(b2, 64))

    def delta(self, st, a, b):
        """the constant by which two offsets differ on this path, or None"""
        k = (a.get_id(), b.get_id())
        hit = st.deltas.get(k)
        if hit is not None: return hit[0]
        out = None
        if st.model is None:
            r, m = self.check(st, z3.BoolVal(True))
            if r == z3.sat: st.model = m
        if st.model is not None:
            x = st.model.eval(a - b, model_completion=True)
            if z3.is_bv_value(x) and self.check(st, a - b != x)[0] == z3.unsat: out = x.as_long()
        st.deltas[k] = (out, a, b)
        return out
    def readc(self, st, c, obj, base, off, n):
        core, k0 = split(off)
        while True:
            kind = c[1]
            if kind == 'store':
                _, _, sbase, soff, sn, sval = c[:6]
                if core is None and len(c) > 6 and (k0 >= c[6][1] or k0 + n <= c[6][0]): c = c[0]; continue
                score, sk = split(soff)
                be = 1 if sbase is base else self.key_eq(sbase, base)
                if isc(be) and be == 0: c = c[0]; continue
                same = (core is None and score is None) or (core is not None and score is not None and (core is score or core.eq(score)))
                dl = 0
                if not same and core is not None and score is not None and sbase is base:
                    dl = self.delta(st, core, score); same = dl is not None
                if same:
                    d = (k0 - sk + dl) & mask(64)
                    d = tosigned(d, 64)
                    if d >= sn or d + n <= 0: c = c[0]; continue
                    if be == 1:
                        if 0 <= d and d + n <= sn: return self.extract(sval, sn, d, n)
                        # partial overlap: bytes
                        return self.read_split(st, c, obj, base, off, n)
                # symbolic relation
                a, b = bv(off, 64), bv(soff, 64)
                beq = asbool(be)
                overlap = z3.And(beq, z3.ULT(a, b + sn), z3.ULT(b, a + n))
                if same:   # bases may be equal, const relation d
                    if 0 <= d and d + n <= sn:
                        inside = beq
                        if self.must(st, z3.Not(beq)): c = c[0]; continue
                        if self.must(st, beq): return self.extract(sval, sn, d, n)
                        return self.mix(st, beq, self.extract(sval, sn, d, n), lambda: self.readc(st, c[0], obj, base, off, n), n)
                    if not self.may(st, overlap): c = c[0]; continue
                    return self.read_split(st, c, obj, base, off, n)
                if not self.may(st, overlap): c = c[0]; continue
                eq = z3.And(beq, a == b)
                if n == sn:
                    if self.must(st, eq): return sval
                    if not self.may(st, z3.And(overlap, a != b)):
                        return self.mix(st, eq, sval, lambda: self.readc(st, c[0], obj, base, off, n), n)
                elif n < sn:
                    # aligned containment at each possible delta
                    ds = [d for d in range(0, sn - n + 1, n)]
                    inside = z3.Or([z3.And(beq, a == b + d) for d in ds])
                    if not self.may(st, z3.And(overlap, z3.Not(inside))):
                        r = None
                        def rest(): return self.readc(st, c[0], obj, base, off, n)
                        val = None
                        if not self.must(st, inside): val = rest()
                        for d in ds:
                            e = self.extract(sval, sn, d, n)
                            val = e if val is None else z3.If(z3.And(beq, a == b + d), bv(e, 8*n), bv(val, 8*n))
                        return val
                if n > 1: return self.read_split(st, c, obj, base, off, n)
                # n == 1, sn > 1
                val = self.readc(st, c[0], obj, base, off, n)
                for d in range(sn):
                    e = self.extract(sval, sn, d, 1)
                    val = z3.If(z3.And(beq, a == b + d), bv(e, 8), bv(val, 8))
                return val
            if kind in ('copy', 'havoc', 'set'):
                sbase, soff, slen = c[2], c[3], c[4]
                if core is None and len(c) > 9 and (k0 >= c[9][1] or k0 + n <= c[9][0]): c = c[0]; continue
                if sbase is None: inside = 1
                else:
                    be = 1 if sbase is base else self.key_eq(sbase, base)
                    if isc(be) and be == 0: c = c[0]; continue
                    rel = fold(z3.And(asbool(be), z3.UGE(bv(off, 64), bv(soff, 64)), z3.ULE(bv(off, 64) + n, bv(soff, 64) + bv(slen, 64))))
                    if isc(rel) and rel: inside = 1
                    else:
                        overlap = fold(z3.And(asbool(be), z3.ULT(bv(off, 64), bv(soff, 64) + bv(slen, 64)), z3.ULT(bv(soff, 64), bv(off, 64) + n)))
                        if (isc(overlap) and not overlap) or not self.may(st, asbool(overlap)): c = c[0]; continue
                        if isc(rel): inside = 0
                        elif self.must(st, rel): inside = 1
                        else: inside = rel
                        if inside == 0 if isc(inside) else False:
                            if n == 1: c = c[0]; continue
                            return self.read_split(st, c, obj, base, off, n)
                        if not isc(inside) and n > 1 and self.may(st, z3.And(asbool(overlap), z3.Not(rel))):
                            return self.read_split(st, c, obj, base, off, n)
                def inner():
                    if kind == 'havoc': return self.read_arr(st, c[5], obj, base, off, n)
                    if kind == 'set':
                        b = c[5]
                        return self.concat([(1, b)] * n)
                    _, _, _, _, _, sobj, schain, srcbase, srcoff = c[:9]
                    so = fold(bv(off, 64) - bv(soff, 64) + bv(srcoff, 64)) if not (isc(off) and isc(soff) and isc(srcoff)) else (off - soff + srcoff) & mask(64)
                    return self.readc(st, schain, sobj, srcbase, so, n)
                if isc(inside): return inner()
                return self.mix(st, inside, inner(), lambda: self.readc(st, c[0], obj, base, off, n), n)
            if kind == 'init': return self.read_arr(st, c[2], obj, base, off, n, c)
            if kind == 'zero': return 0
            if kind == 'bytes':
                if core is None:
                    bs = c[2][k0:k0+n]
                    return int.from_bytes(bs, 'little')
                # symbolic index into constant bytes
                val = self.fresh('oob', 8 * n)
                for i in range(len(c[2]) - n + 1):
                    val = z3.If(bv(off, 64) == i, bv(int.from_bytes(c[2][i:i+n], 'little'), 8 * n), val)
                return val
            if kind == 'cells':
                if core is None:
                    hit = c[2].get(k0)
                    if hit and hit[0] == n: return hit[1]
                    if hit and hit[0] > n: return self.extract(hit[1], hit[0], 0, n)
                    for o2, (m2, v2) in c[2].items():
                        if o2 < k0 + n and k0 < o2 + m2:
                            if o2 <= k0 and k0 + n <= o2 + m2: return self.extract(v2, m2, k0 - o2, n)
                            return self.read_split(st, c, obj, base, off, n)
                    return 0
                # symbolic index into constant table: enumerate
                items = sorted(c[2].items())
                conds = []
                if any(isinstance(v, (Ptr, FnPtr)) for _, (_, v) in items):
                    for o2, (m2, v2) in items:
                        e = bv(off, 64) == o2
                        if m2 == n and self.may(st, e):
                            if self.branch(st, e): return v2
                    return 0
                val = bv(0, 8 * n)
                for o2, (m2, v2) in items:
                    if m2 == n: val = z3.If(bv(off, 64) == o2, bv(self.toint(v2, n), 8 * n), val)
                    elif m2 > n:
                        for d in range(0, m2 - n + 1): val = z3.If(bv(off, 64) == o2 + d, bv(self.extract(v2, m2, d, n), 8 * n), val)
                    else: raise Unsupported('symbolic read of const table')
                return val
            raise Unsupported('chain ' + kind)

    def read_split(self, st, c, obj, base, off, n):
        h = n // 2 if n % 2 == 0 else 1
        o2 = (off + h) if isc(off) else fold(bv(off, 64) + h)
        lo = self.toint(self.readc(st, c, obj, base, off, h), h)
        hi = self.toint(self.readc(st, c, obj, base, o2, n - h), n - h)
        return self.concat([(h, lo), (n - h, hi)])
    def mix(self, st, cond, v1, v2f, n):
        if isinstance(v1, (Ptr, FnPtr, OPtr, PtrInt)):
            return v1 if self.branch(st, cond) else v2f()
        v2 = v2f()
        if isinstance(v2, (Ptr, FnPtr, OPtr, PtrInt)):
            return v1 if self.branch(st, cond) else v2
        if isc(v1) and isc(v2) and v1 == v2: return v1
        return fold(z3.If(cond, bv(v1, 8 * n), bv(v2, 8 * n)))
    def idx(self, obj, base, off):
        if isc(base) and base == 0: return bv(off, 64)
        return (bv(base, 64) << 12) + bv(off, 64)
    def read_arr(self, st, arr, obj, base, off, n, root=None):
        i = self.idx(obj, base, off)
        parts = []
        for k in range(n):
            ik = z3.simplify(i + k) if k else z3.simplify(i)
            b = z3.Select(arr, ik)
            parts.append((1, b))
            if st.facts:
                self.inst_facts(st, arr, ik, b)
        return self.concat(parts)
    def inst_facts(self, st, arr, ik, b):
        if getattr(self, 'infact', 0) >= 3: return
        self.infact = getattr(self, 'infact', 0) + 1
        try: self.inst_facts2(st, arr, ik, b)
        finally: self.infact -= 1
    def inst_facts2(self, st, arr, ik, b):
        for f in st.facts:
            if f[0] is not arr: continue
            key = (f[5], ik.get_id())
            if key in st.factseen: continue
            st.factseen = st.factseen | {key}; self.keepalive.append(ik)
            _, lo, n, fnp, ctx, fid = f
            cond = fold(z3.And(z3.UGE(ik, bv(lo, 64)), z3.ULT(ik - bv(lo, 64), bv(n, 64))))
            if isc(cond) and not cond: continue
            if fnp is None:      # relabelled bytes: equal to the content before
                obj, chain, base, off = ctx
                v = b == bv(self.toint(self.readc(st, chain, obj, base, fold(bv(off, 64) + (ik - bv(lo, 64))), 1), 1), 8)
            elif isinstance(ctx, tuple): v = self.eval_pure(st, fnp, [ctx[0], ctx[1], ik - bv(lo, 64), b])
            else: v = self.eval_pure(st, fnp, [ctx, ik - bv(lo, 64), b])
            self.add_nocheck(st, z3.Implies(asbool(cond), asbool(v)))

    def learn(self, st, p, n, fn, ctx):
        c = self.chain(st, p.obj); off = p.off
        if c[1] == 'init': arr = c[2]
        elif c[1] == 'havoc' and c[2] is None: arr = c[5]
        elif c[1] == 'havoc' and isc(c[3]) and isc(off) and isc(c[2]) and c[3] <= off and isc(n) and isc(c[4]) and off + n <= c[3] + c[4]: arr = c[5]
        else:
            if p.obj.kind == 'pages': return
            # give the (unchanged) bytes a name of their own, so that the fact can speak about them
            arr = self.fresharr('learn'); lo = self.idx(p.obj, p.base, off)
            st.facts = st.facts + ((arr, lo, n, None, (p.obj, c, p.base, off), len(st.facts)),)
            st.mem[p.obj.id] = (c, 'havoc', p.base, off, n, arr)
        st.facts = st.facts + ((arr, self.idx(p.obj, p.base, off), n, fn, ctx, len(st.facts)),)
    def in_bounds(self, p, n):
        """Bool: [p, p+n) inside object"""
        size = p.obj.size
        if isc(p.off) and isc(size) and isc(n): return 1 if 0 <= p.off and p.off + n <= size else 0
        off, size, n = bv(p.off, 64), bv(size, 64), bv(n, 64)
        return fold(z3.And(z3.ULE(n, size), z3.ULE(off, size - n)))
    def sub_bounds(self, p, n):
        if p.sub is None: return 1
        lo, hi = p.sub
        off = p.off
        if isc(off) and isc(lo) and isc(n): return 1 if lo <= off and off + n <= hi else 0
        return fold(z3.And(z3.ULE(bv(n, 64), bv(hi, 64) - bv(lo, 64)), z3.ULE(bv(off, 64) - bv(lo, 64), bv(hi, 64) - bv(lo, 64) - bv(n, 64))))
    def access(self, st, p, n, what):
        if isinstance(p, PtrInt): p = p.p
        if not isinstance(p, Ptr) or p.obj is None:
            if isinstance(p, OPtr):
                self.oblige(st, 0, 'memory', what + ' through unknown pointer')
            self.oblige(st, 0, 'memory', what + ' through null')
            raise Kill()
        if not self.recording and what == 'read' and any(f.kind == 'spec' for f in st.frames):
            return p   # specifications are total: reading outside an object yields an unknown value, never an assumption
        if p.obj.id in st.freed:
            self.oblige(st, 0, 'memory', what + ' of dead object')
        self.oblige(st, self.in_bounds(p, n), 'memory', what + ' in bounds')
        if what == 'write' and p.sub is None and not isc(p.off):
            r = st.opts.get(('region', p.obj.id))
            if r is not None: p = Ptr(p.obj, p.base, p.off, r)
        if p.sub is not None: self.oblige(st, self.sub_bounds(p, n), 'memory', what + ' within its array')
        return p
    def load(self, st, p, n):
        p = self.access(st, p, n, 'read')
        if p.obj.kind == 'pages': self.page_access(st, p)
        return self.read(st, p.obj, p.base, p.off, n)
    def page_access(self, st, p):
        h = self.m.funcs.get('vc_page_access')
        if h is None or not h.defined: return
        if any(f.kind in ('stub', 'contract', 'spec') for f in st.frames): return
        v = self.eval_pure(st, FnPtr('vc_page_access'), [p.base])
        self.oblige(st, asbool(v), 'page-lock', 'page accessed while locked')
    def store(self, st, p, n, v):
        p = self.access(st, p, n, 'write')
        if p.obj.kind == 'pages': self.page_access(st, p)
        if p.obj.const: self.oblige(st, 0, 'memory', 'write to constant')
        self.check_frame(st, p, n)
        self.put(st, p, n, v)
    def put(self, st, p, n, v):
        c = self.chain(st, p.obj)
        self.note_write(st, p, n, v)
        # drop a directly shadowed previous store
        if c[1] == 'store' and c[4] == n and c[2] is p.base or (c[1] == 'store' and isc(c[2]) and isc(p.base) and c[2] == p.base and c[4] == n):
            if (isc(c[3]) and isc(p.off) and c[3] == p.off) or (not isc(c[3]) and not isc(p.off) and c[3].eq(p.off)): c = c[0]
        st.mem[p.obj.id] = (c, 'store', p.base, p.off, n, v) + self.subtag(p)
    def note_write(self, st, p, n, v=None):
        for cx in st.ctxs:
            if p.obj.id in cx.data['preobjs'] or p.obj.kind == 'global':
                cx.data['writes'](p, n, v)
    def check_frame(self, st, p, n):
        fr = st.frame
        if fr is None or len(st.frames) <= fr[2]: return
        pre, regs, _d = fr
        if p.obj.id not in pre or p.obj.kind == 'ghost': return
        if any(f.kind in ('stub', 'contract', 'spec') for f in st.frames) and p.obj.kind == 'global': return
        conds = []
        for (o, b, lo, ln) in regs:
            if o is not p.obj: continue
            be = self.key_eq(b, p.base) if b is not None else 1
            if isc(lo) and isc(p.off) and isc(ln) and isc(n):
                c = lo <= p.off and p.off + n <= lo + ln
                conds.append(z3.And(asbool(be), asbool(c)))
            else:
                conds.append(z3.And(asbool(be), z3.ULE(bv(lo, 64), bv(p.off, 64)), z3.ULE(bv(n, 64), bv(ln, 64)), z3.ULE(bv(p.off, 64) - bv(lo, 64), bv(ln, 64) - bv(n, 64))))
        self.oblige(st, z3.Or(conds) if conds else FALSE, 'frame', 'writes only what the contract assigns (%s)' % re.sub(r'![0-9]+', '', p.obj.name))

    def memcopy(self, st, d, s, n):
        if isc(n) and n == 0: return
        ok = lambda p: isinstance(p, Ptr) and p.obj is not None and p.obj.id not in st.freed
        if not isc(n) and not (ok(d) and ok(s)):
            z = fold(bv(n, 64) == 0)
            if isc(z):
                if z: return
            elif self.branch(st, z): return
        d = self.access(st, d, n, 'write'); s = self.access(st, s, n, 'read')
        if d.obj.kind == 'pages': self.page_access(st, d)
        if s.obj.kind == 'pages': self.page_access(st, s)
        if d.obj.const: self.oblige(st, 0, 'memory', 'write to constant')
        self.check_frame(st, d, n)
        sc = self.chain(st, s.obj)
        self.note_write(st, d, n)
        st.mem[d.obj.id] = (self.chain(st, d.obj), 'copy', d.base, d.off, n, s.obj, sc, s.base, s.off) + self.subtag(d)
    def subtag(self, p):
        """constant range of its object that a write is obliged to stay in"""
        if isc(p.off) or p.sub is None or not isc(p.sub[0]) or not isc(p.sub[1]): return ()
        return ((p.sub[0], p.sub[1]),)
    def memset(self, st, d, b, n):
        if isc(n) and n == 0: return
        z = fold(bv(n, 64) == 0) if not isc(n) else 0
        if not isc(z):
            if self.branch(st, z): return
        d = self.access(st, d, n, 'write')
        if d.obj.kind == 'pages': self.page_access(st, d)
        self.check_frame(st, d, n)
        self.note_write(st, d, n)
        if not isc(b): b = fold(z3.Extract(7, 0, bv(b, 32)) if b.size() > 8 else b)
        else: b &= 255
        st.mem[d.obj.id] = (self.chain(st, d.obj), 'set', d.base, d.off, n, b)
    def havoc(self, st, d, n, name='havoc', arr=None):
        self.note_write(st, d, n)
        if arr is None: arr = self.fresharr(name)
        st.mem[d.obj.id] = (self.chain(st, d.obj), 'havoc', d.base, d.off, n, arr)
        return arr

    # ------------------------------------------------------------ values
    def ptrtoint(self, p):
        if isinstance(p, PtrInt): p = p.p
        if isinstance(p, Ptr):
            if p.obj is None: return p.off
            a = p.obj.address()
            if not (isc(p.base) and p.base == 0): a = a + (bv(p.base, 64) << 12)
            return fold(a + bv(p.off, 64))
        if isinstance(p, FnPtr): return z3.BitVec('fn!' + p.name, 64)
        if isinstance(p, OPtr): return p.bv
        return p
    def const(self, t, v):
        k = v[0]
        t = self.m.resolve(t) if t.k == 'named' else t
        if k == 'c': return v[1] & mask(t.n)
        if k == 'null': return NULL
        if k == 'g':
            if v[1] in self.m.funcs: return FnPtr(v[1])
            if v[1] in self.m.aliases:
                a = self.m.aliases[v[1]]; return self.const(I.PTR, a)
            return Ptr(self.gobj(v[1]))
        if k == 'undef':
            if t.k == 'int': return self.fresh('undef', t.n) if t.n > 1 else self.freshbool('undef')
            if t.k == 'ptr': return self.freshptr('undef')
            if t.k == 'struct': return tuple(self.const(f, ('undef',)) for f in t.fields)
            if t.k in ('double', 'float'): return FpV.fresh(self, t.k)
            raise Unsupported('undef %r' % t)
        if k == 'zero':
            if t.k == 'struct': return tuple(self.const(f, ('zero',)) for f in t.fields)
            if t.k == 'arr': return tuple(self.const(t.elem, ('zero',)) for _ in range(t.n))
            if t.k == 'int': return 0
            if t.k == 'ptr': return NULL
            if t.k in ('double', 'float'): return FpV.const(0.0, t.k)
        if k == 'agg': return tuple(self.const(tt, vv) for tt, vv in v[1])
        if k == 'f': return FpV.parse(v[1], t.k)
        if k == 'gep': return self.gep(None, None, v[1], [(tt, self.const(tt, vv)) for tt, vv in v[2]])
        if k == 'cast':
            x = self.const(v[2], v[3])
            if v[1] == 'ptrtoint': return self.ptrtoint(x)
            if v[1] == 'inttoptr': return self.inttoptr(x)
            if v[1] == 'bitcast': return x
            if v[1] == 'trunc': return fold(z3.Extract(v[4].n - 1, 0, bv(x, v[2].n)))
        if k == 'cbin':
            a = self.const(*v[2][0]); b = self.const(*v[2][1]); w = v[2][0][0].n
            r = {'add': lambda: bv(a, w) + bv(b, w), 'sub': lambda: bv(a, w) - bv(b, w), 'mul': lambda: bv(a, w) * bv(b, w)}[v[1]]()
            return fold(r)
        raise Unsupported('const %r' % (v,))
    def inttoptr(self, x):
        if isinstance(x, PtrInt): return x.p
        if isc(x): return Ptr(None, 0, x) if x else NULL
        return OPtr(x)
    def v(self, f, t, v):
        if v[0] == 'l': return f.env[v[1]]
        if v[0] == 'c' and t.k == 'int': return v[1] & mask(t.n)
        return self.const(t, v)

    def gep(self, st, f, bt, ops):
        p = ops[0][1]
        if isinstance(p, PtrInt): p = p.p
        if isinstance(p, OPtr) or isinstance(p, FnPtr):
            # address arithmetic on an unknown pointer
            b = self.ptrtoint(p); q = Ptr(None, 0, 0)
        q = p if isinstance(p, Ptr) else Ptr(None, 0, 0)
        off = q.off; cur = bt; sub = q.sub
        for j, (t, x) in enumerate(ops[1:]):
            if j == 0: es = self.m.size(cur)
            else:
                r = self.m.resolve(cur)
                if r.k == 'struct':
                    assert isc(x)
                    fo = self.m.layout(r)[0][x]; cur = r.fields[x]
                    off = (off + fo) & mask(64) if isc(off) else bv(off, 64) + fo
                    fr = self.m.resolve(cur)
                    if fr.k == 'arr' and fr.n > 1: sub = (off, (off + self.m.size(fr)) if isc(off) else fold(off + self.m.size(fr)))
                    continue
                es = self.m.size(r.elem); cur = r.elem
            if isinstance(x, PtrInt): x = self.ptrtoint(x.p)
            if isc(x):
                w = t.n; sx = tosigned(x, w)
                if sx:
                    off = (off + sx * es) & mask(64) if isc(off) else bv(off, 64) + ((sx * es) & mask(64))
            else:
                x64 = x if t.n == 64 else z3.SignExt(64 - t.n, x)
                off = bv(off, 64) + (x64 * es if es != 1 else x64)
        if not isc(off): off = fold(off)
        if not isinstance(p, Ptr): return OPtr(fold(bv(self.ptrtoint(p), 64) + bv(off, 64)))
        return Ptr(q.obj, q.base, off, sub)

    # loads and stores of typed values
    def tload(self, st, t, p):
        t = self.m.resolve(t)
        if t.k == 'struct':
            offs, _ = self.m.layout(t)
            return tuple(self.tload(st, ft, self.padd(p, o)) for ft, o in zip(t.fields, offs))
        if t.k == 'arr':
            es = self.m.size(t.elem)
            return tuple(self.tload(st, t.elem, self.padd(p, i * es)) for i in range(t.n))
        n = self.m.size(t)
        x = self.load(st, p, n)
        return self.typed(st, t, x, n)
    def typed(self, st, t, x, n):
        if t.k == 'ptr':
            if isinstance(x, (Ptr, FnPtr, OPtr)): return x
            if isinstance(x, PtrInt): return x.p
            if isc(x): return NULL if x == 0 else Ptr(None, 0, x)
            return OPtr(x)
        if t.k == 'int':
            if isinstance(x, (Ptr, FnPtr, OPtr)):
                return PtrInt(x) if not (isinstance(x, Ptr) and x.obj is None) else x.off
            if isinstance(x, PtrInt): return x
            if t.n < 8 * n:
                if t.n == 1: return fold(z3.Extract(0, 0, bv(x, 8 * n)) == 1)
                return fold(z3.Extract(t.n - 1, 0, bv(x, 8 * n)))
            return x
        if t.k in ('double', 'float'): return FpV.frombits(x, t.k)
        raise Unsupported('load type %r' % t)
    def tstore(self, st, t, v, p):
        t = self.m.resolve(t)
        if t.k == 'struct':
            offs, _ = self.m.layout(t)
            for ft, o, x in zip(t.fields, offs, v): self.tstore(st, ft, x, self.padd(p, o))
            return
        if t.k == 'arr':
            es = self.m.size(t.elem)
            for i, x in enumerate(v): self.tstore(st, t.elem, x, self.padd(p, i * es))
            return
        n = self.m.size(t)
        self.store(st, p, n, self.untyped(t, v, n))
    def untyped(self, t, v, n):
        if t.k == 'int':
            if isinstance(v, PtrInt): return v.p
            if t.n < 8 * n:
                if t.n == 1: v = z3.If(asbool(v), bv(1, 8), bv(0, 8)) if not isc(v) else v
                else: v = z3.ZeroExt(8 * n - t.n, v) if not isc(v) else v
            return v
        if isinstance(v, FpV): return v.bits()
        if isinstance(v, OPtr): return v.bv if False else v
        return v
    def padd(self, p, k):
        if k == 0: return p
        return Ptr(p.obj, p.base, (p.off + k) & mask(64) if isc(p.off) else fold(bv(p.off, 64) + k), p.sub) if isinstance(p, Ptr) else OPtr(self.ptrtoint(p) + k)

    # ------------------------------------------------------------ comparing
    def icmp(self, st, pred, t, a, b):
        if t.k == 'ptr' or isinstance(a, PtrInt) or isinstance(b, PtrInt) or isinstance(a, (Ptr, FnPtr, OPtr)):
            if isinstance(a, PtrInt): a = a.p
            if isinstance(b, PtrInt): b = b.p
            if pred in ('eq', 'ne'):
                r = self.ptreq(a, b)
                return r if pred == 'eq' else fold(z3.Not(asbool(r)))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
                if a.obj.kind != 'pages' or (isc(self.key_eq(a.base, b.base)) and self.key_eq(a.base, b.base)):
                    return self.icmp(st, pred, I.INT(64), a.off, b.off)
            if isinstance(a, Ptr) and a.obj is not None and a.obj.addr is None: a.obj.address()
            return self.icmp(st, pred, I.INT(64), self.ptrtoint(a), self.ptrtoint(b))
        w = t.n
        if isc(a) and isc(b):
            if pred[0] == 's': a = tosigned(a, w); b = tosigned(b, w)
            p = pred[-2:] if len(pred) == 3 else pred
            return 1 if {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p] else 0
        if w == 1:
            a, b = asbool(a), asbool(b)
            if pred == 'eq': return fold(a == b)
            if pred == 'ne': return fold(a != b)
            a = z3.If(a, bv(1, 1), bv(0, 1)); b = z3.If(b, bv(1, 1), bv(0, 1))
        a, b = bv(a, w), bv(b, w)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]
        return fold(f())
    def ptreq(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                if a.obj is None: return fold(bv(a.off, 64) == bv(b.off, 64)) if not (isc(a.off) and isc(b.off)) else int(a.off == b.off)
                be = self.key_eq(a.base, b.base)
                oe = int(a.off == b.off) if isc(a.off) and isc(b.off) else fold(bv(a.off, 64) == bv(b.off, 64))
                return fold(z3.And(asbool(be), asbool(oe)))
            return 0
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return int(a.name == b.name)
        if isinstance(a, FnPtr) and isinstance(b, Ptr) or isinstance(b, FnPtr) and isinstance(a, Ptr): return 0
        return fold(bv(self.ptrtoint(a), 64) == bv(self.ptrtoint(b), 64))

    # ------------------------------------------------------------ exploring
    def run(self, fname, args=()):
        """verify harness fname"""
        fn = self.m.funcs[fname]; self.P.body(fn)
        st = State()
        s = z3.Solver(); s.check(); st.model = s.model()
        fr = Frame(fn)
        for (t, n, _), a in zip(fn.params, args): fr.env[n] = a
        fr.kind = 'harness'
        st.frames.append(fr)
        self.t0 = time.time()
        self.explore([st], self.harness_end)
    def harness_end(self, st, ret, exc):
        self.stats['ends'] += 1
        if exc is not None:
            self.oblige_end(st, exc)
    def oblige_end(self, st, exc):
        try:
            fr = Frame(self.m.funcs[self.harness]); st.frames.append(fr)
            self.oblige(st, 0, 'exception', 'no uncaught exception (%s)' % exc)
        except Kill: pass

    def explore(self, work, on_end):
        while work:
            st = work.pop()
            try:
                while True:
                    r = self.step(st, work, on_end)
                    if r is not None: break
            except Kill:
                self.stats['paths'] += 1
                continue
            self.stats['paths'] += 1
            if self.stats['paths'] > self.o['maxpaths']: raise Unsupported('path limit')

    def step(self, st, work, on_end):
        """run one instruction; None = continue; True = path over"""
        f = st.frames[-1]
        ins = f.fn.blocks[f.block][f.idx]
        self.stats['instrs'] += 1
        try:
            return self.exec(st, f, ins, work, on_end)
        except Fork as fk:
            self.stats['forks'] += 1
            for c in fk.conds[1:]:
                s2 = st.clone()
                try:
                    self.add(s2, c); work.append(s2)
                except Kill: pass
            self.add(st, fk.conds[0])
            return None

    def jump(self, st, f, to, work, on_end):
        """transfer control inside frame f"""
        depth = len(st.frames) - 1
        frm = f.block
        loops = I.loops(f.fn)
        # leaving loops
        while st.ctxs:
            cx = st.ctxs[-1]
            if cx.depth != depth: break
            if to not in cx.blocks:
                if cx.mode == 'join':
                    self.goto(st, f, to); cx.out.append(st); return True
                if cx.mode != 'final': return True
                st.ctxs.pop(); continue
            break
        if to in loops:
            back = frm in loops[to]
            if back:
                cx = st.ctxs[-1] if st.ctxs else None
                if cx is not None and cx.depth == depth and cx.header == to and cx.mode != 'join':
                    self.back_edge(st, f, to, cx)
                    return True
                # unrolling
                f.counts = f.counts or {}
                f.counts[to] = f.counts.get(to, 0) + 1
                if f.counts[to] > (st.unroll or 300):
                    if in_spec(st): raise Unsupported('specification loop exceeds %d iterations' % (st.unroll or 300))
                    self.oblige(st, 0, 'unwind', 'loop ends within %d iterations' % st.unroll)
            else:
                if f.counts and to in f.counts: del f.counts[to]
                if not st.unroll and not in_spec(st):
                    states = self.enter_loop(st, f, to, loops[to])
                    for s in states[1:]: work.append(s)
                    if not states: return True
                    s0 = states[0]
                    if s0 is not st:
                        work.append(s0)
                        return True
                    return None
                if st.unroll and 'vc_join' in self.joins and not in_spec(st):
                    work.extend(self.join_loop(st, f, to, loops[to]))
                    return True
        self.goto(st, f, to)
        return None
    def join_loop(self, st, f, to, blocks):
        """unroll a loop and merge the states that leave it at the same place"""
        depth = len(st.frames) - 1; n0 = len(st.pcs); ctxs = list(st.ctxs)
        s = st.clone(); out = []
        cx = LoopCtx(depth, to, blocks, 'join', dict(preobjs=(), writes=lambda p, n, v: None)); cx.out = out; s.ctxs.append(cx)
        self.goto(s, s.frames[-1], to)
        def end(s2, val, exc): raise Unsupported('a joined loop does not come to its end')
        self.explore([s], end)
        groups = []
        for s2 in out:
            s2.ctxs = list(ctxs); g = s2.frames[-1]; g.counts = dict(f.counts) if f.counts else None
            for G in groups:
                if self.join_key(G[0]) == self.join_key(s2) and self.joinable(G[0], s2): G.append(s2); break
            else: groups.append([s2])
        return [G[0] if len(G) == 1 else self.join_states(st, n0, G) for G in groups]
    def join_key(self, s): g = s.frames[-1]; return (len(s.frames), g.block, g.idx, s.exc, s.invs, s.invts, s.ranks, s.measures, s.unroll, s.noterm, s.frame, s.contract_depth)
    def joinable(self, a, b):
        for x, y in zip(a.frames, b.frames):
            for k, v in x.env.items():
                w = y.env.get(k, v)
                if v is w: continue
                if self.plain(v) and self.plain(w): continue
                if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj is w.obj and v.base is w.base and isc(v.off) and v.off == w.off and isc(v.base) or type(v) is type(w) and v == w: continue
                if k in getattr(x, 'env') and x is not a.frames[-1]: return False
                if not isinstance(v, Ptr) or not isinstance(w, Ptr): return False
                if isc(v.base) and isc(w.base) and v.base == w.base and isc(v.off) and isc(w.off) and v.off == w.off and v.obj is w.obj: continue
                return False
        return all(a.mem.get(k) is b.mem.get(k) or self.joinobj(a, b, k) is not None for k in set(a.mem) | set(b.mem))
    def plain(self, v): return isc(v) or isinstance(v, z3.ExprRef)
    def joinobj(self, a, b, k):
        """an object whose contents may be forgotten: a small local that differs"""
        if k in a.freed or k in b.freed: return 0
        for s in (a, b):
            for fr in s.frames:
                if k in fr.allocas:
                    for v in fr.env.values():
                        if isinstance(v, Ptr) and v.obj is not None and v.obj.id == k and isc(v.obj.size) and v.obj.size <= 16: return v.obj
        return None
    def join_states(self, st, n0, G):
        a = G[0]; conds = []; facts = []
        for s in G:
            c = []
            for e, fact in s.pcs[n0:]:
                if fact: facts.append(z3.Implies(z3.And(c), e) if c else e)
                else: c.append(e)
            conds.append(z3.And(c) if c else TRUE)
        m = a.clone(); m.pcs = list(st.pcs)
        for e in facts: m.pcs.append((e, True))
        m.pcs.append((z3.simplify(z3.Or(conds)), False))
        m.facts = st.facts; m.factseen = st.factseen; m.anys = st.anys; m.deltas = dict(st.deltas); m.model = None
        m.freed = frozenset().union(*[s.freed for s in G])
        for i, x in enumerate(m.frames):
            for k in list(x.env):
                vs = [s.frames[i].env.get(k) for s in G]
                if any(v is None for v in vs): del x.env[k]; continue      # not defined on every way here, so not used from here on
                if all(v is vs[0] for v in vs): continue
                if all(isc(v) for v in vs) and len(set(vs)) == 1: continue
                if not all(self.plain(v) for v in vs): continue      # pointers that are equal (joinable)
                es = [v for v in vs if not isc(v)]
                w = next((e.size() for e in es if z3.is_bv(e)), None)
                isb = w is None and bool(es)
                if w is None and not isb:
                    t = self.envwidth(x.fn, k); w = t; isb = t == 1
                r = vs[-1]; conv = (lambda v: asbool(v)) if isb else (lambda v: bv(v, w))
                for v, c in list(zip(vs, conds))[-2::-1]: r = z3.If(c, conv(v), conv(r))
                x.env[k] = fold(r)
        for k in set().union(*[set(s.mem) for s in G]):
            cs = [s.mem.get(k) for s in G]
            if all(c is cs[0] for c in cs): continue
            if any(k in s.freed for s in G): continue
            o = None
            for s in G[1:]:
                if G[0].mem.get(k) is not s.mem.get(k): o = self.joinobj(G[0], s, k)
            if o:
                if k not in m.mem: m.mem[k] = [c for c in cs if c is not None][0]
                self.havoc(m, Ptr(o, 0, 0), o.size, 'joined')
        self.stats['joins'] = self.stats.get('joins', 0) + 1
        return m
    def envwidth(self, fn, k):
        for b in fn.blocks.values():
            for ins in b:
                if ins.res == k and ins.ty is not None and ins.ty.k == 'int': return ins.ty.n
        for t, n, _ in fn.params:
            if n == k: return t.n
        raise Unsupported('width of a joined value')
    def goto(self, st, f, to, vals=None):
        frm = f.block
        blk = f.fn.blocks[to]; i = 0
        new = {}
        while blk[i].op == 'phi':
            ins = blk[i]
            if vals is not None: new[ins.res] = vals[ins.res]
            else: new[ins.res] = self.v(f, ins.ty, ins.a[frm])
            i += 1
        f.env.update(new); f.prev = frm; f.block = to; f.idx = i

    def do_return(self, st, val, work, on_end):
        f = st.frames.pop()
        if f.allocas: st.freed = st.freed | frozenset(f.allocas)
        depth = len(st.frames)
        while st.ctxs and st.ctxs[-1].depth >= depth:
            cx = st.ctxs[-1]
            if cx.mode == 'join': raise Unsupported('return inside of a joined loop')
            if cx.mode != 'final': return True
            st.ctxs.pop()
        if f.kind in ('stub', 'contract') and f.exc == 'cd': st.contract_depth -= 1
        if not st.frames:
            on_end(st, val, None); return True
        if f.retto == 'stop':
            on_end(st, val, None); return True
        c = st.frames[-1]
        ins = c.fn.blocks[c.block][c.idx]
        if ins.res is not None: c.env[ins.res] = val
        if ins.op == 'invoke': return self.jump(st, c, ins.a[2], work, on_end)
        c.idx += 1
        return None
    def do_throw(self, st, excobj, tname, work, on_end):
        """unwind from the current instruction of the top frame"""
        first = True
        while True:
            depth = len(st.frames) - 1
            if depth < 0: on_end(st, None, tname); return True
            f = st.frames[-1]
            ins = f.fn.blocks[f.block][f.idx] if f.block else None
            if ins is not None and ins.op == 'invoke':
                lp = f.fn.blocks[ins.a[3]]
                k = 0
                while lp[k].op == 'phi': k += 1
                clauses, cleanup = lp[k].a
                sel = None
                for c in clauses:
                    if c[0] == 'null': sel = self.tid(None); break
                    if c[0] == 'g' and self.derives(tname, c[1]): sel = self.tid(c[1]); break
                if sel is None and cleanup: sel = 0
                if sel is not None:
                    f.exc = (excobj, tname)
                    f.env['$lp'] = (excobj, sel)
                    return self.jump(st, f, ins.a[3], work, on_end)
            st.frames.pop()
            if f.allocas: st.freed = st.freed | frozenset(f.allocas)
            if f.kind in ('stub', 'contract') and f.exc == 'cd': st.contract_depth -= 1
            d2 = len(st.frames)
            while st.ctxs and st.ctxs[-1].depth >= d2:
                cx = st.ctxs[-1]
                if cx.mode == 'join': raise Unsupported('exception leaves a joined loop')
                if cx.mode != 'final': return True
                st.ctxs.pop()
            if f.retto == 'stop' or not st.frames:
                on_end(st, None, tname); return True
    def tid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]
    def derives(self, t, base):
        if t == base: return True
        g = self.m.globals.get(t)
        if g is None or g.init is None or g.init[0] != 'agg': return False
        for tt, vv in g.init[1][2:]:
            if vv[0] == 'g' and self.derives(vv[1], base): return True
        return False

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, f, H, blocks):
        self.stats['loops'] += 1
        depth = len(st.frames) - 1
        fn = f.fn
        phis = [x for x in fn.blocks[H] if x.op == 'phi']
        entry = {p.res: self.v(f, p.ty, p.a[f.block]) for p in phis}
        preobjs = set(st.mem) | set(self.base_mem)
        mods = {}        # (objid, base?, off, n) -> ('int'| set of ptr targets)
        ranges = {}      # objid -> list of (obj, base|None, lo, ln)
        phiobjs = {p.res: self.ptrclass(entry[p.res]) for p in phis if p.ty.k == 'ptr'}
        changed = [True]
        def writes(p, n, v):
            if not self.collecting: return
            o = p.obj
            if isc(p.off) and isc(n) and isc(p.base) and n <= 16 and v is not None:
                key = (o.id, p.off, n)
                cls = self.ptrclass(v) if isinstance(v, (Ptr, FnPtr, OPtr, PtrInt)) else frozenset()
                if any(self.covers(r, p.off, n) for r in ranges.get(o.id, ())): return
                old = mods.get(key)
                if old is None:
                    e0 = self.entry_class(st, o, p.off, n)
                    if cls and e0 is None: cls |= {('unk',)}
                    elif e0 and not cls and any(c[0] != 'null' for c in e0): cls = self.pjoin(e0, self.intclass(v))
                    elif e0 and cls: cls = self.pjoin(cls, e0)
                    mods[key] = (o, cls); changed[0] = True
                else:
                    if bool(cls) != bool(old[1]): cls = (cls or self.intclass(v)) | (frozenset() if old[1] else frozenset([('unk',)]))
                    j = self.pjoin(old[1], cls)
                    if j != old[1]: mods[key] = (o, j); changed[0] = True
                return
            if isc(p.off) and isc(n) and isc(p.base) and p.base == 0: reg = (o, 0, p.off, n)
            elif p.sub is not None and isc(p.base) and isc(p.sub[0]): reg = (o, 0, p.sub[0], p.sub[1] - p.sub[0])
            else: reg = (o, None, 0, None)
            L = ranges.setdefault(o.id, [])
            if any(r[1] is None for r in L) or any(r[1:] == reg[1:] for r in L): return
            if reg[1] is None: L[:] = []
            L.append(reg); changed[0] = True
        def mk(mode, cands):
            """fresh header states"""
            s = st.clone(); fr = s.frames[-1]
            data = dict(preobjs=preobjs, writes=writes, phis=phis, cands=cands, snap=None)
            states = [(s, {})]
            # havoc memory
            for oid, L in ranges.items():
                for (o, b, lo, ln) in L:
                    for s_, _ in states:
                        if b is None:
                            arr = self.fresharr('lh_' + o.name)
                            self.nw(s_, Ptr(o, 0, 0), None)
                            s_.mem[oid] = (self.chain(s_, o), 'havoc', None, 0, 0, arr)
                        else:
                            arr = self.fresharr('lh_' + o.name)
                            s_.mem[oid] = (self.chain(s_, o), 'havoc', 0, lo, ln, arr)
            cellv = {}
            for key, (o, cls) in mods.items():
                oid, off, n = key
                ns = []
                for s_, vv in states:
                    for alt in self.alts(cls, 'c_%s_%d' % (o.name, off), 8 * n):
                        s2 = s_ if len(cls) <= 1 else s_.clone()
                        s2.mem[oid] = (self.chain(s2, o), 'store', 0, off, n, alt)
                        v2 = dict(vv); ns.append((s2, v2))
                states = ns
            for p in phis:
                ns = []
                for s_, vv in states:
                    if p.ty.k == 'ptr': al = self.alts(phiobjs[p.res], p.res, 64, True)
                    elif p.ty.k == 'int': al = [self.fresh('phi_' + p.res, p.ty.n) if p.ty.n > 1 else self.freshbool('phi_' + p.res)]
                    elif p.ty.k in ('double', 'float'): al = [FpV.fresh(self, p.ty.k)]
                    else: raise Unsupported('phi type %r' % p.ty)
                    for alt in al:
                        s2 = s_ if len(al) == 1 else s_.clone()
                        v2 = dict(vv); v2[p.res] = alt; ns.append((s2, v2))
                states = ns
            out = []
            for s_, vv in states:
                s_.ctxs.append(LoopCtx(depth, H, blocks, mode, data))
                self.goto(s_, s_.frames[-1], H, vv)
                s_.trace = s_.trace + ('loop',)
                s_.model = st.model
                out.append(s_)
            return out, data
        rec = self.recording; self.recording = False
        oc = getattr(self, 'collecting', False)
        self.loop_results = None
        try:
            # --- discover what the loop modifies
            for _ in range(30):
                changed[0] = False; self.collecting = True
                ss, data = mk('discover', [])
                newp = [False]
                def on_back(s2, vals):
                    for p in phis:
                        if p.ty.k == 'ptr':
                            c = self.ptrclass(vals[p.res])
                            j = self.pjoin(phiobjs[p.res], c)
                            if j != phiobjs[p.res]: phiobjs[p.res] = j; newp[0] = True
                data['on_back'] = on_back
                self.explore(ss, lambda *a: None)
                if not changed[0] and not newp[0]: break
            else: raise Unsupported('loop modset does not stabilise')
            self.collecting = oc
            # --- candidates
            terms = self.loop_terms(st, f, phis, entry, mods, fn, blocks)
            cands = self.make_cands(st, terms)
            cands += [('inv', i) for i in range(len(st.invs))]
            # initial filter
            vals0 = self.term_vals(st, terms, entry)
            keep = []
            for c in cands:
                e = self.cand_expr(st, c, vals0, terms)
                if e is None: continue
                e = fold(asbool(e))
                if isc(e):
                    if e: keep.append(c)
                else: keep.append((c, e))
            keep = self.filter_pairs(st, keep)
            # --- Houdini
            nd = 0
            rounds = 0
            while True:
                rounds += 1
                if rounds > 60: raise Unsupported('houdini does not converge')
                ss, data = mk('houdini', keep)
                dropped = set()
                ranks = None
                alive_ranks = [None]
                def on_back(s2, vals):
                    tv = self.term_vals(s2, terms, vals)
                    pend = []
                    for i, c in enumerate(keep):
                        if i in dropped: continue
                        e = self.cand_expr(s2, c, tv, terms)
                        if e is None: dropped.add(i); continue
                        e = fold(asbool(e))
                        if isc(e):
                            if not e: dropped.add(i)
                        else: pend.append((i, e))
                    good = {id(x) for x in self.filter_exprs(s2, pend)}
                    for x in pend:
                        if id(x) not in good: dropped.add(x[0])
                    self.rank_step(s2, terms, tv, alive_ranks)
                data['on_back'] = on_back
                ok = []
                for s_ in ss:
                    if self.assume_cands(s_, terms, keep): ok.append(s_)
                self.explore(ok, lambda *a: None)
                if not dropped: break
                nd += len(dropped)
                keep = [c for i, c in enumerate(keep) if i not in dropped]
            self.stats['houdini_dropped'] += nd
        finally:
            self.recording = rec; self.collecting = oc
        ranks = alive_ranks[0]
        term_ok = ranks is None or len(ranks) > 0
        if rec:
            inv_txt = [self.cand_text(c, terms) for c in keep]
            self.loopinfo.append(dict(fn=self.short(fn), line=fn.blocks[H][0].line or 0, kept=len(keep), dropped=nd,
                                      modset=len(mods) + len(ranges), ranks=(None if ranks is None else len(ranks)), sample=inv_txt[:40]))
            if self.verbose > 1:
                print('LOOP', self.short(fn), H, 'kept', len(keep), 'ranks', ranks and [self.rank_text(r, terms) for r in list(ranks)[:4]])
                for t in inv_txt: print('    inv', t)
            # count the invariant obligations (initiation + preservation are checked above)
            nm = 'invariant@%s: loop invariants hold on entry and are preserved' % self.short(fn)
            ob = self.obs.setdefault(nm, Ob(nm)); ob.checks += 1
            if not st.noterm:
                s3 = st.clone()
                f3 = s3.frames[-1]; f3.block = H; f3.idx = 0
                try: self.oblige(s3, 1 if term_ok else 0, 'termination', 'loop makes progress in every iteration')
                except Kill: pass
        ss, data = mk('final', keep)
        out = []
        def on_back_final(s2, vals): pass
        data['on_back'] = on_back_final
        for s_ in ss:
            if self.assume_cands(s_, terms, keep): out.append(s_)
        return out
    def nw(self, st, p, n):
        pass
    def covers(self, r, off, n):
        return r[1] is None or (r[2] <= off and off + n <= r[2] + r[3])
    def ptrclass(self, v):
        if isinstance(v, PtrInt): v = v.p
        if isinstance(v, Ptr):
            if v.obj is None: return frozenset([('null',)])
            if v.obj.kind == 'pages': return frozenset([('pg', v.obj)])
            return frozenset([('obj', v.obj, v.off if isc(v.off) and isc(v.base) and v.base == 0 else None)])
        if isinstance(v, FnPtr): return frozenset([('fn', v.name)])
        if isinstance(v, OPtr): return frozenset([('unk',)])
        return frozenset()
    def intclass(self, v): return frozenset([('null',)]) if isc(v) and v == 0 else frozenset([('unk',)])
    def entry_class(self, st, o, off, n):
        """class of the pointer a cell holds when the loop is entered; empty when it does not matter, None when unknown"""
        if n != 8: return frozenset()
        c = self.chain(st, o)
        v = self.readc(st, c, o, 0, off, n)
        if isinstance(v, (Ptr, FnPtr, OPtr, PtrInt)): return self.ptrclass(v)
        if isc(v) and v == 0: return frozenset([('null',)])
        if not isc(v):
            r = c
            while r[1] == 'store' and isc(r[3]) and (r[3] + r[4] <= off or off + n <= r[3]): r = r[0]
            if r[1] == 'init' and o.kind == 'stack': return frozenset()    # not written yet
        return None
    def pjoin(self, a, b):
        """union of two pointer classes; different places in one object become any place in it"""
        if b <= a: return a
        out = {}
        for c in list(a) + list(b):
            if c[0] != 'obj': out[c] = c; continue
            k = c[:2]
            out[k] = c if k not in out or out[k] == c else ('obj', c[1], None)
        return frozenset(out.values())
    def alts(self, cls, name, w, isptr=False):
        if not cls: return [self.fresh(name, w)]
        out = []
        for c in sorted(cls, key=lambda c: (c[0], getattr(c[1], 'id', 0) if len(c) > 1 else 0)):
            if c[0] == 'null': out.append(NULL)
            elif c[0] == 'obj': out.append(Ptr(c[1], 0, self.fresh('off_' + name, 64) if c[2] is None else c[2]))
            elif c[0] == 'pg': out.append(Ptr(c[1], self.fresh('pg_' + name, 64), self.fresh('off_' + name, 64)))
            elif c[0] == 'fn': out.append(FnPtr(c[1]))
            else: out.append(self.freshptr(name))
        return out

    def back_edge(self, st, f, H, cx):
        cb = cx.data.get('on_back')
        vals = {}
        for p in cx.data['phis']: vals[p.res] = self.v(f, p.ty, p.a[f.block])
        if cb: cb(st, vals)

    def loop_terms(self, st, f, phis, entry, mods, fn, blocks):
        """list of (kind, key, width, entryvalue)"""
        T = []
        for p in phis:
            if p.ty.k == 'int': T.append(('phi', p.res, p.ty.n))
            elif p.ty.k == 'ptr': T.append(('phioff', p.res, 64))
        for key, (o, cls) in mods.items():
            if cls:
                if key[2] == 8: T.append(('celloff', (o, key[1], key[2]), 64))
            elif key[2] in (1, 2, 4, 8): T.append(('cell', (o, key[1], key[2]), 8 * key[2]))
        # unchanged context
        seen = set()
        C = []
        def addc(x, w):
            if isinstance(x, (PtrInt,)): return
            k = x if isc(x) else x.get_id()
            if (k, w) in seen: return
            seen.add((k, w)); C.append(('const', x, w))
        for m in st.measures: addc(m, 64)
        used = set()
        defd = {i.res for b in blocks for i in fn.blocks[b] if i.res}
        for b in blocks:
            for i in fn.blocks[b]:
                for nm in re.findall(r'%("[^"]*"|[-a-zA-Z$._0-9]+)', i.text):
                    nm = nm.strip('"')
                    if nm in f.env and nm not in defd: used.add(nm)
        for nm in sorted(used):
            x = f.env[nm]
            if isinstance(x, int) and not isinstance(x, bool): addc(x, 64)
            elif z3.is_bv(x): addc(x, x.size())
            elif isinstance(x, Ptr) and x.obj is not None and not (isc(x.off) and x.off == 0): addc(x.off, 64)
        for p in phis:
            if p.ty.k == 'int' and not isinstance(entry[p.res], PtrInt) and not z3.is_bool(entry[p.res]): addc(entry[p.res], p.ty.n)
        ent = self.term_vals(st, T, entry)
        return dict(T=T, C=C, ent=ent)
    def term_vals(self, st, terms, vals):
        T = terms['T'] if isinstance(terms, dict) else terms
        out = []
        for t in T:
            if t[0] == 'phi':
                x = vals[t[1]]
                out.append(self.toint(x, 8) if isinstance(x, PtrInt) else x)
            elif t[0] == 'phioff':
                x = vals[t[1]]
                out.append((x.off if x.obj is not None else NULLTERM if isc(x.off) and x.off == 0 else None) if isinstance(x, Ptr) else None)
            elif t[0] == 'cell':
                o, off, n = t[1]
                x = self.read(st, o, 0, off, n)
                out.append(None if isinstance(x, (Ptr, FnPtr, OPtr, PtrInt)) else x)
            elif t[0] == 'celloff':
                o, off, n = t[1]
                x = self.read(st, o, 0, off, n)
                out.append((x.off if x.obj is not None else NULLTERM if isc(x.off) and x.off == 0 else None) if isinstance(x, Ptr) else None)
        return out
    def ext(self, x, w):
        if x is None: return None
        if z3.is_bool(x): return z3.If(x, bv(1, 64), bv(0, 64))
        if isc(x): return bv(x & mask(w), 64)
        return z3.ZeroExt(64 - w, x) if w < 64 else x
    def make_cands(self, st, terms):
        T, C = terms['T'], terms['C']; c = []
        n = len(T)
        for i in range(n):
            c.append(('same', i)); c.append(('ge0', i)); c.append(('le0', i)); 
            if T[i][2] in (32,): c.append(('snn', i))
            for j in range(len(C)):
                if C[j][2] != T[i][2] and not (isc(C[j][1]) and T[i][2] < 64): continue
                for op in ('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'sum0'): c.append((op, i, j))
        for i in range(n):
            for j in range(n):
                if i != j and T[i][2] == T[j][2]:
                    c.append(('dle', i, j)); c.append(('le2', i, j))
                    if i < j: c.append(('deq', i, j)); c.append(('dsum', i, j)); c.append(('eq2', i, j))
                    if len(C) <= 14 and T[i][2] == 64 and T[j][2] == 64:
                        for k in range(len(C)):
                            if C[k][2] == 64: c.append(('eqc', i, j, k))
        for r in range(len(st.invts)):
            for i in range(n):
                if T[i][2] != 64: continue
                if st.invts[r][2] == 1: c.append(('invt', r, i))
                elif st.invts[r][2] == 3: c.append(('invq', r, i))
                else:
                    for j in range(n):
                        if i != j and T[j][2] == 64: c.append(('invt', r, i, j))
        return c
    def cand_expr(self, st, c, tv, terms):
        k = c[0]
        if k == 'inv': return self.eval_pure(st, st.invs[c[1]][0], [st.invs[c[1]][1]])
        T, C, E = terms['T'], terms['C'], terms['ent']
        if k == 'invt':
            xs = [tv[j] for j in c[2:]]
            xs = [(1 << 64) - 1 if x is NULLTERM else x for x in xs]     # a null pointer shows up as all ones
            if any(x is None or isinstance(x, (Ptr, PtrInt, FnPtr, OPtr)) for x in xs): return None
            return self.eval_pure(st, st.invts[c[1]][0], [st.invts[c[1]][1]] + xs)
        if k == 'invq':
            x = tv[c[2]]
            if x is NULLTERM: x = (1 << 64) - 1
            if x is None or isinstance(x, (Ptr, PtrInt, FnPtr, OPtr)): return None
            fn, ctx, _, p, n = st.invts[c[1]]
            i = self.fresh('q', 64)
            if p.obj.id in st.freed: return None
            b = self.toint(self.read(st, p.obj, p.base, fold(bv(p.off, 64) + i), 1), 1)
            return z3.Implies(z3.ULT(i, bv(n, 64)), asbool(self.eval_pure(st, fn, [ctx, x, i, b])))
        i = c[1]
        if E[i] is NULLTERM: return None
        if tv[i] is NULLTERM: return 1     # a pointer term: the candidate speaks about the non-null case
        x = self.ext(tv[i], T[i][2])
        if x is None: return None
        if k in ('same', 'ge0', 'le0'):
            e0 = self.ext(E[i], T[i][2])
            if e0 is None: return None
            return x == e0 if k == 'same' else z3.UGE(x, e0) if k == 'ge0' else z3.ULE(x, e0)
        if k == 'snn': return z3.Extract(31, 31, x) == bv(0, 1)
        if k in ('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'sum0'):
            m = self.ext(C[c[2]][1], C[c[2]][2])
            if k == 'le': return z3.ULE(x, m)
            if k == 'lt': return z3.ULT(x, m)
            if k == 'ge': return z3.UGE(x, m)
            if k == 'gt': return z3.UGT(x, m)
            if k == 'eq': return x == m
            if k == 'ne': return x != m
            return None
        j = c[2]
        if E[j] is NULLTERM: return None
        if tv[j] is NULLTERM: return 1
        y = self.ext(tv[j], T[j][2])
        if y is None: return None
        if k == 'le2': return z3.ULE(x, y)
        if k == 'eq2': return x == y
        if k == 'eqc': return x == y + self.ext(C[c[3]][1], C[c[3]][2])
        x0 = self.ext(E[i], T[i][2]); y0 = self.ext(E[j], T[j][2])
        if x0 is None or y0 is None: return None
        if k == 'deq': return x - x0 == y - y0
        if k == 'dle': return z3.ULE(x - x0, y - y0)
        if k == 'dsum': return x - x0 == y0 - y
        return None
    def rank_exprs(self, st, terms, tv):
        T, C = terms['T'], terms['C']
        out = {}
        for i in range(len(T)):
            if tv[i] is NULLTERM:
                out[('dn', i)] = bv(0, 64)
                for j in range(len(C)): out[('up', i, j)] = bv(0, 64); out[('us', i, j)] = bv(0, 64)
                continue
            x = self.ext(tv[i], T[i][2])
            if x is None: continue
            out[('dn', i)] = x
            for j in range(len(C)): out[('up', i, j)] = self.ext(C[j][1], C[j][2]) - x
            if T[i][2] == 64:       # steps that may overshoot the bound
                for j in range(len(C)):
                    m = self.ext(C[j][1], C[j][2]); out[('us', i, j)] = z3.If(z3.ULE(x, m), m - x, bv(0, 64))
        for r in range(len(st.ranks)): out[('r', r)] = self.ext(self.eval_pure(st, st.ranks[r][0], [st.ranks[r][1]]), 64)
        return out
    def rank_step(self, s2, terms, tv, alive):
        """keep the ranking candidates that strictly decrease on this back edge"""
        h = s2.ctxs[-1].rank0
        now = self.rank_exprs(s2, terms, tv)
        keys = alive[0] if alive[0] is not None else list(now)
        pend = []
        for k in keys:
            if k not in now or k not in h: continue
            e = fold(z3.ULT(now[k], h[k]))
            if isc(e):
                if e: pend.append((k, TRUE))
            else: pend.append((k, e))
        alive[0] = [k for k, _ in self.filter_exprs(s2, pend, limit=6)]
    def rank_text(self, r, terms): return str(r)
    def assume_cands(self, s, terms, keep):
        """assume the invariants at the loop head of s"""
        try:
            f = s.frames[-1]; cx = s.ctxs[-1]
            vals = {p.res: f.env[p.res] for p in cx.data['phis']}
            tv = self.term_vals(s, terms, vals)
            es = []
            for c in keep:
                if c[0] == 'invq':
                    x = tv[c[2]]
                    if x is NULLTERM: x = (1 << 64) - 1
                    fn, ctx, _, p, n = s.invts[c[1]]
                    self.learn(s, p, n, fn, (ctx, x))
            for c in keep:
                if c[0] == 'invq': continue
                e = self.cand_expr(s, c, tv, terms)
                if e is None: continue
                e = fold(asbool(e))
                if isc(e):
                    if not e: return False
                else: es.append(e)
            if es: self.add(s, z3.And(es))
            cx.rank0 = self.rank_exprs(s, terms, tv)
            return True
        except Kill: return False
    def filter_exprs(self, st, pend, limit=None):
        """pend: list of (tag, expr); the sublist entailed by the path condition"""
        pend = [p for p in pend if self.meval(st, p[1]) is not False]
        good = []
        # batch
        while pend:
            if len(pend) == 1 or True:
                r, m = self.check(st, z3.Or([z3.Not(p[1]) for p in pend]))
                if r == z3.unsat: return good + pend
                if r == z3.sat:
                    n = []
                    for p in pend:
                        if not z3.is_false(m.eval(p[1], model_completion=True)): n.append(p)
                    if len(n) == len(pend): return good      # no progress: give up (sound: drops candidates)
                    pend = n; continue
                # unknown: test one by one
                ok = []
                for p in pend:
                    r, m = self.check(st, z3.Not(p[1]))
                    if r == z3.unsat: ok.append(p)
                return good + ok
        return good
    def filter_pairs(self, st, keep):
        pend = [k for k in keep if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple)]
        done = [k for k in keep if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple))]
        return done + [c for c, _ in self.filter_exprs(st, pend)]
    def cand_text(self, c, terms):
        if c[0] == 'inv': return 'harness invariant #%d' % c[1]
        T, C = terms['T'], terms['C']
        if c[0] in ('invt', 'invq'): return 'harness invariant template #%d(%s)' % (c[1], ', '.join(str(T[j][1])[:40] for j in c[2:]))
        nm = lambda i: '%s' % (T[i][1] if isinstance(T[i][1], str) else '%s+%d' % (T[i][1][0].name, T[i][1][1]))
        cn = lambda j: str(C[j][1])[:60]
        k = c[0]
        if len(c) == 2: return '%s(%s)' % (k, nm(c[1]))
        if k in ('le', 'lt', 'ge', 'gt', 'eq', 'ne', 'sum0'): return '%s %s %s' % (nm(c[1]), k, cn(c[2]))
        if k == 'eqc': return '%s == %s + %s' % (nm(c[1]), nm(c[2]), cn(c[3]))
        return '%s %s %s' % (nm(c[1]), k, nm(c[2]))


    # ------------------------------------------------------------ pure evaluation (specifications, read-only functions)
    def eval_pure(self, st, fnp, args, record=False, kind='spec', unroll=0):
        """evaluate a side-effect free function on all paths, merged to one value"""
        if isinstance(fnp, PtrInt): fnp = fnp.p
        fn = self.m.funcs[fnp.name]; self.P.body(fn)
        s = st.clone(); s.ctxs = []; s.frame = None
        if not record: s.unroll = max(s.unroll, 300)
        if unroll: s.unroll = unroll
        fr = Frame(fn); fr.kind = kind
        for (t, n, _), a in zip(fn.params, args): fr.env[n] = a
        base = len(s.frames)
        fr.retto = 'stop'
        s.frames.append(fr)
        n0 = len(s.pcs); out = []
        rec = self.recording; self.recording = rec and record
        tr = len(s.trace)
        def end(s2, val, exc):
            if exc is not None: return
            out.append((s2, val))
        try: self.explore([s], end)
        finally: self.recording = rec
        if not out: raise Kill()
        res = None
        first = True
        for s2, val in out:
            conds = []
            for (e, fact) in s2.pcs[n0:]:
                if fact:
                    g = z3.Implies(z3.And(conds), e) if conds else e
                    st.pcs.append((g, True))
                    if st.model is not None and self.meval(st, g) is not True: st.model = None
                else: conds.append(e)
            if isinstance(val, PtrInt): val = self.toint(val, 8)
            if isinstance(val, (Ptr, FnPtr, OPtr)) or isinstance(val, tuple) or isinstance(val, FpV):
                if len(out) == 1: res = val
                else: raise Unsupported('pure function with several pointer results')
                continue
            if first: res = val; first = False
            else:
                c = z3.And(conds) if conds else TRUE
                if (z3.is_bool(val) or z3.is_bool(res)):
                    res = z3.If(c, asbool(val), asbool(res))
                elif isc(val) and isc(res):
                    if val != res: res = z3.If(c, bv(val, self.rw(fn)), bv(res, self.rw(fn))) if self.rw(fn) > 1 else z3.If(c, asbool(val), asbool(res))
                else: res = z3.If(c, bv(val, self.rw(fn)), bv(res, self.rw(fn)))
        if len(out) == 1:
            # a single feasible path: its conditions are implied
            pass
        return fold(res) if res is not None and not isinstance(res, (Ptr, FnPtr, OPtr, tuple, FpV)) else res
    def rw(self, fn): return fn.ret.n
    PURE_OK = ('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.assume', 'llvm.expect')
    def readonly(self, fn, depth=0):
        """loop-free, returns an integer, writes only its own locals, calls only read-only functions"""
        k = fn.name
        r = self.purecache.get(k)
        if r is not None: return r
        self.purecache[k] = False
        if not fn.defined or fn.ret.k != 'int' or fn.vararg or depth > 12: return False
        if k.startswith('vc'): 
            if not k.startswith('vcstub__'): return False
        self.P.body(fn)
        if I.loops(fn): return False
        if len(fn.order) > 60: return False
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.op in ('resume', 'landingpad', 'atomicrmw', 'cmpxchg', 'alloca', 'store', 'unreachable'): return False
                if i.op in ('call', 'invoke'):
                    cal = i.a[0]
                    if cal[0] != 'g': return False
                    n = cal[1]
                    if n.startswith(self.PURE_OK): continue
                    n = self.stubs.get(n, n)
                    f2 = self.m.funcs.get(n)
                    if f2 is None or self.contract_for(f2) or not self.readonly(f2, depth + 1): return False
        self.purecache[k] = True
        return True
    def contract_for(self, fn):
        for (rx, name) in self.contracts:
            if name in self.skip_contracts: continue
            if rx.search(fn.dem or fn.name): return name
        return None

    # ------------------------------------------------------------ instructions
    def exec(self, st, f, ins, work, on_end):
        op = ins.op
        if op == 'br':
            c, a, b = ins.a
            if c is None: return self.jump(st, f, a, work, on_end)
            cv = self.v(f, I.INT(1), c)
            if a == b: return self.jump(st, f, a, work, on_end)
            return self.jump(st, f, a if self.branch(st, asbool(cv)) else b, work, on_end)
        if op in ('call', 'invoke'): return self.call(st, f, ins, work, on_end)
        if op == 'ret':
            v = None if ins.a[0] is None else self.v(f, ins.ty, ins.a[0])
            return self.do_return(st, v, work, on_end)
        if op == 'switch':
            v, d, cs = ins.a
            x = self.v(f, ins.ty, v); w = ins.ty.n
            if isc(x):
                for c, b in cs:
                    if c & mask(w) == x: return self.jump(st, f, b, work, on_end)
                return self.jump(st, f, d, work, on_end)
            for c, b in cs:
                if self.branch(st, x == bv(c & mask(w), w)): return self.jump(st, f, b, work, on_end)
            return self.jump(st, f, d, work, on_end)
        if op == 'unreachable':
            self.oblige(st, 0, 'unreachable', 'unreachable code'); raise Kill()
        if op == 'resume':
            v = self.v(f, ins.ty, ins.a[0])
            exc = st.exc
            return self.do_throw(st, exc[0], exc[1], work, on_end)
        # plain value instructions
        r = self.value(st, f, ins)
        if ins.res is not None: f.env[ins.res] = r
        f.idx += 1
        return None

    def value(self, st, f, ins):
        op = ins.op
        if op == 'load': return self.tload(st, ins.ty, self.v(f, I.PTR, ins.a[0]))
        if op == 'store':
            self.tstore(st, ins.ty, self.v(f, ins.ty, ins.a[0]), self.v(f, I.PTR, ins.a[1])); return None
        if op == 'getelementptr':
            bt, ops = ins.a
            return self.gep(st, f, bt, [(t, self.v(f, t, x)) for t, x in ops])
        if op == 'icmp':
            pred, a, b = ins.a
            t = self.m.resolve(ins.ty)
            return self.icmp(st, pred, t, self.v(f, t, a), self.v(f, t, b))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.binop(st, ins, self.v(f, ins.ty, ins.a[0]), self.v(f, ins.ty, ins.a[1]))
        if op in ('zext', 'sext', 'trunc'):
            ft, v = ins.a; x = self.v(f, ft, v); w0 = ft.n; w = ins.ty.n
            if isinstance(x, PtrInt): x = self.ptrtoint(x.p)
            if isc(x):
                if op == 'sext': return tosigned(x, w0) & mask(w)
                return x & mask(w)
            if z3.is_bool(x):
                if op == 'zext': return z3.If(x, bv(1, w), bv(0, w))
                if op == 'sext': return z3.If(x, bv(mask(w), w), bv(0, w))
            if op == 'zext': return z3.ZeroExt(w - w0, x)
            if op == 'sext': return z3.SignExt(w - w0, x)
            if w == 1: return fold(z3.Extract(0, 0, x) == 1)
            return fold(z3.Extract(w - 1, 0, x))
        if op == 'select':
            c, a, b = ins.a
            cv = self.v(f, I.INT(1), c)
            if isc(cv): return self.v(f, ins.ty, a if cv else b)
            t = self.m.resolve(ins.ty)
            av = self.v(f, t, a); bv_ = self.v(f, t, b)
            if t.k == 'int' and not isinstance(av, PtrInt) and not isinstance(bv_, PtrInt):
                if t.n == 1: return fold(z3.If(cv, asbool(av), asbool(bv_)))
                return fold(z3.If(cv, bv(av, t.n), bv(bv_, t.n)))
            if isinstance(av, FpV): return FpV(z3.If(cv, av.e, bv_.e), av.k)
            return av if self.branch(st, cv) else bv_
        if op == 'alloca':
            n = self.m.size(ins.ty)
            if ins.a[0] is not None:
                c = self.v(f, *ins.a[0])
                n = n * c if isc(c) else bv(n, 64) * (z3.ZeroExt(64 - c.size(), c) if c.size() < 64 else c)
            o = self.new_obj(st, ins.res or 'tmp', n, 'stack')
            f.allocas.append(o.id)
            return Ptr(o)
        if op == 'phi': raise Unsupported('phi in middle')
        if op == 'extractvalue':
            t, v, idx = ins.a; x = self.v(f, t, v)
            for i in idx: x = x[i]
            return x
        if op == 'insertvalue':
            v, t2, v2, idx = ins.a
            x = self.v(f, ins.ty, v); y = self.v(f, t2, v2)
            def put(x, idx):
                x = list(x); x[idx[0]] = y if len(idx) == 1 else put(x[idx[0]], idx[1:]); return tuple(x)
            return put(x, idx)
        if op == 'landingpad':
            e, sel = f.env['$lp']; st.exc = f.exc
            return (e, sel)
        if op == 'ptrtoint':
            ft, v = ins.a; x = self.v(f, I.PTR, v)
            if isinstance(x, Ptr) and x.obj is None: return x.off
            return PtrInt(x) if not isinstance(x, PtrInt) else x
        if op == 'inttoptr': return self.inttoptr(self.v(f, ins.a[0], ins.a[1]))
        if op == 'bitcast':
            ft, v = ins.a; x = self.v(f, ft, v)
            if isinstance(x, FpV) and ins.ty.k == 'int': return x.bits()
            if ins.ty.k in ('double', 'float'): return FpV.frombits(x, ins.ty.k)
            return x
        if op == 'freeze': return self.v(f, ins.ty, ins.a[0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.v(f, ins.ty, ins.a[0]); b = self.v(f, ins.ty, ins.a[1])
            g = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return FpV(z3.simplify(g(RM, a.e, b.e)), a.k)
        if op == 'fneg':
            a = self.v(f, ins.ty, ins.a[0]); return FpV(z3.fpNeg(a.e), a.k)
        if op == 'fcmp':
            pred, a, b = ins.a; a = self.v(f, ins.ty, a); b = self.v(f, ins.ty, b)
            o = z3.Or(z3.fpIsNaN(a.e), z3.fpIsNaN(b.e))
            base = {'eq': z3.fpEQ(a.e, b.e), 'ne': z3.Not(z3.fpEQ(a.e, b.e)), 'lt': z3.fpLT(a.e, b.e), 'le': z3.fpLEQ(a.e, b.e),
                    'gt': z3.fpGT(a.e, b.e), 'ge': z3.fpGEQ(a.e, b.e), 'rd': TRUE, 'no': TRUE}
            if pred == 'ord': return fold(z3.Not(o))
            if pred == 'uno': return fold(o)
            if pred == 'true': return 1
            if pred == 'false': return 0
            r = base[pred[1:]]
            return fold(z3.Or(o, r) if pred[0] == 'u' else z3.And(z3.Not(o), r))
        if op in ('uitofp', 'sitofp'):
            x = bv(self.v(f, ins.a[0], ins.a[1]), ins.a[0].n)
            if z3.is_bool(x): x = z3.If(x, bv(1, 32), bv(0, 32))
            return FpV(z3.simplify((z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP)(RM, x, FpV.sort(ins.ty.k))), ins.ty.k)
        if op in ('fptoui', 'fptosi'):
            x = self.v(f, ins.a[0], ins.a[1]); w = ins.ty.n
            lo, hi = (-1.0, float(2 ** w)) if op == 'fptoui' else (-float(2 ** (w - 1)) - (1.0 if w < 53 else 0.0), float(2 ** (w - 1)))
            lob = z3.fpGT(x.e, z3.FPVal(lo, x.e.sort())) if not (op == 'fptosi' and w >= 53) else z3.fpGEQ(x.e, z3.FPVal(lo, x.e.sort()))
            self.oblige(st, z3.And(z3.Not(z3.fpIsNaN(x.e)), lob, z3.fpLT(x.e, z3.FPVal(hi, x.e.sort()))), 'arith', 'float to integer in range')
            return fold((z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(z3.RTZ(), x.e, z3.BitVecSort(w)))
        if op in ('fpext', 'fptrunc'):
            x = self.v(f, ins.a[0], ins.a[1])
            return FpV(z3.simplify(z3.fpFPToFP(RM, x.e, FpV.sort(ins.ty.k))), ins.ty.k)
        if op == 'fence': return None
        if op == 'atomicrmw':
            o, p, v = ins.a; p = self.v(f, I.PTR, p); x = self.v(f, ins.ty, v)
            old = self.tload(st, ins.ty, p); w = ins.ty.n
            if o == 'xchg': new = x
            elif o == 'add': new = fold(bv(old, w) + bv(x, w))
            elif o == 'sub': new = fold(bv(old, w) - bv(x, w))
            else: raise Unsupported('atomicrmw ' + o)
            self.tstore(st, ins.ty, new, p); return old
        raise Unsupported('instruction ' + ins.text)

    def binop(self, st, ins, a, b):
        op = ins.op; w = ins.ty.n
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.obj is b.p.obj:
                be = self.key_eq(a.p.base, b.p.base)
                if isc(be) and be:
                    x, y = a.p.off, b.p.off
                    return (x - y) & mask(64) if isc(x) and isc(y) else fold(bv(x, 64) - bv(y, 64))
            if op in ('add', 'sub') and isinstance(a, PtrInt) and isinstance(a.p, Ptr) and not isinstance(b, PtrInt):
                x = a.p.off; d = b
                off = ((x + d) if op == 'add' else (x - d)) & mask(64) if isc(x) and isc(d) else fold(bv(x, 64) + bv(d, 64) if op == 'add' else bv(x, 64) - bv(d, 64))
                return PtrInt(Ptr(a.p.obj, a.p.base, off, a.p.sub))
            a = self.ptrtoint(a); b = self.ptrtoint(b)
        if w == 1:
            if isc(a) and isc(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            A, B = asbool(a), asbool(b)
            return fold({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](A, B))
        nsw = 'nsw' in ins.flags
        if isc(a) and isc(b):
            sa, sb = tosigned(a, w), tosigned(b, w)
            if op in ('add', 'sub', 'mul'):
                g = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
                if nsw and not (-(1 << (w-1)) <= g(sa, sb) < (1 << (w-1))): self.oblige(st, 0, 'arith', 'no signed overflow')
                return g(a, b) & mask(w)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: self.oblige(st, 0, 'arith', 'divisor is not zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q
                return (q if op == 'sdiv' else sa - q * sb) & mask(w)
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w: self.oblige(st, 0, 'arith', 'shift in range')
                return (a << b) & mask(w) if op == 'shl' else a >> b if op == 'lshr' else (sa >> b) & mask(w)
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        if op in ('and', 'or', 'xor') or op in ('add', 'sub', 'shl', 'lshr', 'ashr'):
            if isc(b) and b == 0 and op != 'and': return a
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            if nsw: self.oblige(st, z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), 'arith', 'no signed overflow')
            r = A + B
        elif op == 'sub':
            if nsw: self.oblige(st, z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)), 'arith', 'no signed overflow')
            r = A - B
        elif op == 'mul':
            if nsw:
                ra, rb = self.srange(A, w), self.srange(B, w)
                ok = ra and rb and all(-(1 << (w-1)) <= x * y < (1 << (w-1)) for x in ra for y in rb)
                sa_, sb_ = (A, b) if isc(b) else (B, a) if isc(a) else (None, None)
                if not ok and sa_ is not None and 0 < sb_ < (1 << (w-1)):
                    self.oblige(st, z3.And(sa_ <= bv(((1 << (w-1)) - 1) // sb_, w), sa_ >= bv((-((1 << (w-1)) // sb_)) & mask(w), w)), 'arith', 'no signed overflow')
                elif not ok: self.oblige(st, z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)), 'arith', 'no signed overflow')
            r = A * B
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, B != 0, 'arith', 'divisor is not zero')
            if op[0] == 's': self.oblige(st, z3.Not(z3.And(A == bv(1 << (w-1), w), B == bv(mask(w), w))), 'arith', 'no signed division overflow')
            if op[0] == 's' and isc(b) and 0 < b < (1 << (w - 1)) and self.must(st, A >= 0): op = 'u' + op[1:]
            for h in (st.opts.get('hints', ()) if isc(b) and op[0] == 'u' and not isc(a) else ()):       # a quotient that is already known by another name
                H = bv(h & mask(w), w) if isc(h) else z3.Extract(w - 1, 0, bv(h, 64)) if w < 64 else bv(h, 64)
                if self.must(st, z3.UDiv(A, B) == H): return fold(H if op == 'udiv' else A - H * B)
            r = {'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        elif op in ('shl', 'lshr', 'ashr'):
            if not isc(b) or b >= w: self.oblige(st, z3.ULT(B, bv(w, w)), 'arith', 'shift in range')
            r = A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B
        else:
            r = A & B if op == 'and' else A | B if op == 'or' else A ^ B
        return fold(r)
    def srange(self, e, w):
        """cheap signed range of a term, or None"""
        if z3.is_bv_value(e): x = tosigned(e.as_long(), w); return (x, x)
        k = e.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT: return (0, (1 << e.arg(0).size()) - 1)
        if k == z3.Z3_OP_SIGN_EXT: n = e.arg(0).size(); return (-(1 << (n-1)), (1 << (n-1)) - 1)
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0: return (0, (1 << (w - e.arg(0).size())) - 1)
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, f, ins, work, on_end):
        callee, args, nrm, unw = ins.a
        if callee[0] == 'asm':
            f.idx += 1; return None
        fp = self.v(f, I.PTR, callee)
        if isinstance(fp, PtrInt): fp = fp.p
        if not isinstance(fp, FnPtr):
            self.oblige(st, 0, 'memory', 'call through invalid function pointer'); raise Kill()
        name = fp.name
        if name.startswith('llvm.'):
            return self.finish(st, f, ins, self.intrinsic(st, f, name, ins), work, on_end)
        av = [(None if t is I.META else self.v(f, t, x)) for t, x, _ in args]
        return self.invoke_fn(st, f, ins, name, av, [b for _, _, b in args], work, on_end)
    def finish(self, st, f, ins, r, work, on_end):
        if ins.res is not None: f.env[ins.res] = r
        if ins.op == 'invoke': return self.jump(st, f, ins.a[2], work, on_end)
        f.idx += 1
        return None
    def invoke_fn(self, st, f, ins, name, av, byval, work, on_end):
        b = BUILTINS.get(name)
        if b is not None and name not in self.stubs:
            r = b(self, st, f, ins, av)
            if r is THROW: return self.do_throw(st, st.exc[0], st.exc[1], work, on_end)
            return self.finish(st, f, ins, r, work, on_end)
        fn = self.m.funcs.get(name)
        kind = None
        stub = self.stubs.get(name)
        if stub is not None:
            fn = self.m.funcs[stub]; kind = 'stub'
            self.externs[name] = self.externs.get(name, 0) + 1
        elif fn is not None:
            cn = self.contract_for(fn)
            if cn is not None and not any(x.kind == 'spec' for x in st.frames):
                self.used_contracts[cn] = self.used_contracts.get(cn, 0) + 1
                self.stats['contract_calls'] += 1
                fn = self.m.funcs['vccontract__' + cn]; kind = 'contract'
                st.trace = st.trace + ('contract',)
        if fn is None or not fn.defined:
            raise Unsupported('call to undefined function %s (%s)' % (name, fn.dem if fn else '?'))
        self.P.body(fn)
        if kind is None and self.merges:
            mg = [u for rx, u in self.merges if rx.search(fn.dem or fn.name)]
            if mg:
                if not any(x.kind in ('stub', 'contract', 'spec') for x in st.frames): self.inlined[name] = self.inlined.get(name, 0) + 1
                if not any(x.kind == 'spec' for x in st.frames):
                    r = self.eval_pure(st, FnPtr(fn.name), av, record=True, kind=None, unroll=mg[0])
                    return self.finish(st, f, ins, r, work, on_end)
        if kind != 'contract' and self.readonly(fn):
            if kind is None and not any(x.kind in ('stub', 'contract', 'spec') for x in st.frames): self.inlined[name] = self.inlined.get(name, 0) + 1
            r = self.eval_pure(st, FnPtr(fn.name), av, record=True, kind=kind)
            return self.finish(st, f, ins, r, work, on_end)
        if kind is None: self.inlined[name] = self.inlined.get(name, 0) + 1
        if len(st.frames) > 60: raise Unsupported('call depth')
        fr = Frame(fn); fr.kind = kind
        for j, (t, n, bvl) in enumerate(fn.params):
            if j >= len(av): raise Unsupported('%s takes more arguments than the call of %s passes' % (fn.name, name))
            a = av[j]
            if bvl or (j < len(byval) and byval[j]):
                pass
            fr.env[n] = a
        st.frames.append(fr)
        return None

    def intrinsic(self, st, f, name, ins):
        A = ins.a[1]
        def arg(k): return self.v(f, A[k][0], A[k][1])
        p = name.split('.')[1]
        if p in ('memcpy', 'memmove'): self.memcopy(st, arg(0), arg(1), self.toint(arg(2), 8)); return None
        if p == 'memset': self.memset(st, arg(0), arg(1), self.toint(arg(2), 8)); return None
        if p in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental', 'va_start', 'va_end', 'va_copy', 'stacksave', 'stackrestore', 'prefetch'): return NULL if p == 'stacksave' else None
        if p in ('umin', 'umax', 'smin', 'smax'):
            w = A[0][0].n; a, b = bv(arg(0), w), bv(arg(1), w)
            c = {'umin': lambda: z3.ULT(a, b), 'umax': lambda: z3.UGT(a, b), 'smin': lambda: a < b, 'smax': lambda: a > b}[p]()
            return fold(z3.If(c, a, b))
        if p == 'abs':
            w = A[0][0].n; a = bv(arg(0), w); return fold(z3.If(a < 0, -a, a))
        if p == 'expect': return arg(0)
        if p == 'bswap':
            w = A[0][0].n; a = bv(arg(0), w)
            return fold(z3.Concat(*[z3.Extract(8*k+7, 8*k, a) for k in range(w//8)]))
        if p == 'fshl':
            w = A[0][0].n; a, b, c = bv(arg(0), w), bv(arg(1), w), bv(arg(2), w)
            return fold(z3.Extract(2*w-1, w, z3.Concat(a, b) << z3.ZeroExt(w, z3.URem(c, bv(w, w)))))
        if p == 'trap': self.oblige(st, 0, 'trap', 'trap'); raise Kill()
        if p == 'eh': return self.tid(A[0][1][1] if A[0][1][0] == 'g' else None)
        if p in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            w = A[0][0].n; a, b = bv(arg(0), w), bv(arg(1), w)
            sg = p[0] == 's'
            if p[1:] == 'add': return (fold(a + b), fold(z3.Not(z3.And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b) if sg else TRUE))))
            if p[1:] == 'sub': return (fold(a - b), fold(z3.Not(z3.And(z3.BVSubNoUnderflow(a, b, sg), z3.BVSubNoOverflow(a, b) if sg else TRUE))))
            return (fold(a * b), fold(z3.Not(z3.And(z3.BVMulNoOverflow(a, b, sg), z3.BVMulNoUnderflow(a, b) if sg else TRUE))))
        if p == 'fabs':
            x = arg(0); return FpV(z3.fpAbs(x.e), x.k)
        if p == 'is': return None
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ helpers for builtins
    def cstr(self, st, p):
        """concrete C string at p, or None"""
        if isinstance(p, PtrInt): p = p.p
        if not isinstance(p, Ptr) or p.obj is None or not isc(p.off): return None
        out = bytearray(); k = p.off
        while True:
            if isc(p.obj.size) and k >= p.obj.size: return None
            b = self.read(st, p.obj, p.base, k, 1)
            if not isc(b): return None
            if b == 0: return bytes(out)
            out.append(b); k += 1
            if len(out) > 5000: return None


THROW = object()
BUILTINS = {}
def builtin(*names):
    def d(fn):
        for n in names: BUILTINS[n] = fn
        return fn
    return d
def in_spec(st): return any(x.kind in ('stub', 'contract', 'spec') for x in st.frames)

def _any(w):
    def g(E, st, f, ins, a):
        nm = E.cstr(st, a[0]) if a else None
        nm = nm.decode() if nm else 'any'
        x = E.fresh(nm, w)
        if not in_spec(st): st.anys = st.anys + (('int', nm, x, w // 8),)
        return x
    return g
for _w, _n in ((64, 'vc_u64'), (32, 'vc_u32'), (16, 'vc_u16'), (8, 'vc_u8')): BUILTINS[_n] = _any(_w)

@builtin('vc_assume')
def _(E, st, f, ins, a):
    E.add(st, asbool(a[0])); return None
@builtin('vc_assert')
def _(E, st, f, ins, a):
    t = E.cstr(st, a[1]); E.oblige(st, asbool(a[0]), 'requires' if in_spec(st) else 'ensures', t.decode() if t else ''); return None
@builtin('vc_cover')
def _(E, st, f, ins, a):
    t = E.cstr(st, a[0]).decode(); E.covers_hit = getattr(E, 'covers_hit', {}); E.covers_hit[t] = E.covers_hit.get(t, 0) + 1; return None
@builtin('vc_alloc')
def _(E, st, f, ins, a):
    nm = (E.cstr(st, a[1]) or b'obj').decode()
    n = E.toint(a[0], 8)
    arr = E.fresharr(nm)
    o = Obj(nm, n, 'heap'); st.mem[o.id] = (None, 'init', arr, (0, o))
    if not isc(n): E.add(st, z3.ULE(n, bv(1 << 40, 64)))
    if not in_spec(st): st.anys = st.anys + (('mem', nm, arr, n),)
    return Ptr(o)
@builtin('vc_ghost_alloc')
def _(E, st, f, ins, a):
    n = E.toint(a[0], 8)
    nm = (E.cstr(st, a[1]) or b'ghost').decode()
    o = Obj(nm, n, 'ghost'); st.mem[o.id] = (None, 'init', E.fresharr(nm), (0, o))
    return Ptr(o)
@builtin('vc_havoc')
def _(E, st, f, ins, a):
    p = a[0]; n = E.toint(a[1], 8)
    if isc(n) and n == 0: return None
    if not isc(n) and E.branch(st, n == 0): return None
    p = E.access(st, p, n, 'write'); E.check_frame(st, p, n); E.havoc(st, p, n); return None
@builtin('vc_copy')
def _(E, st, f, ins, a):
    E.memcopy(st, a[0], a[1], E.toint(a[2], 8)); return None
@builtin('vc_snapshot')
def _(E, st, f, ins, a):
    p = a[0]; n = E.toint(a[1], 8)
    o = Obj('snap', n, 'ghost')
    st.mem[o.id] = ((None, 'zero'), 'copy', None, 0, 0, p.obj, E.chain(st, p.obj), p.base, p.off)
    # whole-object copy: offset o maps to p.off + o
    st.mem[o.id] = ((None, 'zero'), 'copy', 0, 0, n, p.obj, E.chain(st, p.obj), p.base, p.off)
    return Ptr(o)
@builtin('vc_register_inv')
def _(E, st, f, ins, a):
    st.invs = st.invs + ((a[0], a[1]),); return None
@builtin('vc_register_invt')
def _(E, st, f, ins, a):
    st.invts = st.invts + ((a[0], a[1], 1),); return None
@builtin('vc_register_invt2')
def _(E, st, f, ins, a):
    st.invts = st.invts + ((a[0], a[1], 2),); return None
@builtin('vc_register_invq')
def _(E, st, f, ins, a):
    st.invts = st.invts + ((a[0], a[1], 3, a[2], E.toint(a[3], 8)),); return None
@builtin('vc_register_rank')
def _(E, st, f, ins, a):
    st.ranks = st.ranks + ((a[0], a[1]),); return None
@builtin('vc_measure')
def _(E, st, f, ins, a):
    st.measures = st.measures + (E.toint(a[0], 8),); return None
@builtin('vc_clear_inv')
def _(E, st, f, ins, a):
    st.invs = (); st.invts = (); st.ranks = (); st.measures = (); return None
@builtin('vc_unroll')
def _(E, st, f, ins, a):
    st.unroll = a[0]; return None
@builtin('vc_region')
def b_region(eng, st, f, ins, av):
    p, n = av
    if isinstance(p, Ptr) and p.obj is not None and isc(p.off) and isc(n) and isc(p.base): st.opts = dict(st.opts); st.opts[('region', p.obj.id)] = (p.off, p.off + n)
    return None
@builtin('vc_hint')
def _(E, st, f, ins, a):
    st.opts = dict(st.opts); st.opts['hints'] = st.opts.get('hints', ()) + (E.toint(a[0], 8),); return None
@builtin('vc_join')
def _(E, st, f, ins, a): E.joins.add('vc_join')
@builtin('vc_lia')
def _(E, st, f, ins, a):
    E.bvslow = 1 << 40; return None
@builtin('vc_noterm')
def _(E, st, f, ins, a):
    st.noterm = True; return None
@builtin('vc_eval_pred', 'vc_eval_u64')
def _(E, st, f, ins, a): return E.eval_pure(st, a[0], [a[1]])
@builtin('vc_is_symbolic')
def _(E, st, f, ins, a): return 1
@builtin('vc_in_loop')
def _(E, st, f, ins, a): return 0
@builtin('vc_valid')
def _(E, st, f, ins, a):
    p = a[0]; n = E.toint(a[1], 8)
    if isinstance(p, PtrInt): p = p.p
    if not isinstance(p, Ptr) or p.obj is None or p.obj.id in st.freed:
        return fold(bv(n, 64) == 0)
    b = E.in_bounds(p, n)
    if p.sub is not None: b = fold(z3.And(asbool(b), asbool(E.sub_bounds(p, n))))
    return fold(z3.Or(asbool(b), bv(n, 64) == 0))
@builtin('vc_learn')
def _(E, st, f, ins, a):
    # forall i < n: pred(ctx, i, p[i]); only for bytes still at their arbitrary initial content
    p, n, fn, ctx = a[0], E.toint(a[1], 8), a[2], a[3]
    E.learn(st, p, n, fn, ctx)
    return None
@builtin('vc_frame_begin')
def _(E, st, f, ins, a):
    st.frame = (frozenset(st.mem) | frozenset(E.base_mem), (), len(st.frames)); return None
@builtin('vc_assigns')
def _(E, st, f, ins, a):
    p = a[0]; n = E.toint(a[1], 8)
    if isinstance(p, Ptr) and p.obj is not None: st.frame = (st.frame[0], st.frame[1] + ((p.obj, p.base, p.off, n),), st.frame[2])
    return None
@builtin('vc_frame_end')
def _(E, st, f, ins, a):
    st.frame = None; return None
@builtin('vc_pages')
def _(E, st, f, ins, a):
    if E.pagesobj is None:
        o = Obj('pages', 4096, 'pages'); E.pagesobj = o
        E.base_mem[o.id] = (None, 'init', E.fresharr('pages'), (0, o))
    b = E.toint(a[0], 8)
    return Ptr(E.pagesobj, b, 0)
@builtin('vc_page_of')
def _(E, st, f, ins, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'pages': return p.base
    return mask(64)
@builtin('vc_page_off')
def _(E, st, f, ins, a):
    p = a[0]
    return p.off if isinstance(p, Ptr) else 0
@builtin('vc_is_page')
def _(E, st, f, ins, a):
    p = a[0]
    return 1 if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'pages' else 0
@builtin('vc_throw')
def _(E, st, f, ins, a):
    st.exc = (NULL, '_ZTISt13runtime_error'); return THROW
@builtin('vc_dead_path')
def _(E, st, f, ins, a): raise Kill()
@builtin('vc_free')
def _(E, st, f, ins, a):
    if isinstance(a[0], Ptr) and a[0].obj is not None: st.freed = st.freed | {a[0].obj.id}
    return None
@builtin('vc_same_obj')
def _(E, st, f, ins, a):
    return 1 if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj is a[1].obj else 0
@builtin('vc_size_of_obj')
def _(E, st, f, ins, a): return a[0].obj.size if isinstance(a[0], Ptr) and a[0].obj is not None else 0

@builtin('vc_const_len')
def _(E, st, f, ins, a):
    # length of a string constant, or all ones
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None and p.obj.const:
        t = E.cstr(st, p)
        if t is not None: return len(t)
    return (1 << 64) - 1

@builtin('memcpy', 'memmove')
def _(E, st, f, ins, a):
    E.memcopy(st, a[0], a[1], E.toint(a[2], 8)); return a[0]
@builtin('memset')
def _(E, st, f, ins, a):
    E.memset(st, a[0], a[1], E.toint(a[2], 8)); return a[0]
@builtin('_Znwm', '_Znam', 'malloc')
def _(E, st, f, ins, a):
    o = E.new_obj(st, 'new', E.toint(a[0], 8), 'heap'); return Ptr(o)
@builtin('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free')
def _(E, st, f, ins, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None: return None
    if not isinstance(p, Ptr): E.oblige(st, 0, 'memory', 'free of an unknown pointer'); raise Kill()
    if p.obj.id in st.freed: E.oblige(st, 0, 'memory', 'double free'); raise Kill()
    st.freed = st.freed | {p.obj.id}; return None
@builtin('__cxa_allocate_exception')
def _(E, st, f, ins, a):
    o = E.new_obj(st, 'exc', E.toint(a[0], 8), 'heap'); return Ptr(o)
@builtin('__cxa_free_exception', '__cxa_end_catch')
def _(E, st, f, ins, a): return None
@builtin('__cxa_begin_catch')
def _(E, st, f, ins, a): return a[0]
@builtin('__cxa_throw')
def _(E, st, f, ins, a):
    g = ins.a[1][1][1]
    st.exc = (a[0], g[1] if g[0] == 'g' else '?'); return THROW
@builtin('__cxa_rethrow')
def _(E, st, f, ins, a): return THROW
@builtin('__clang_call_terminate', '_ZSt9terminatev', 'abort')
def _(E, st, f, ins, a):
    E.oblige(st, 0, 'exception', 'terminate is not reached'); raise Kill()
@builtin('__cxa_guard_acquire')
def _(E, st, f, ins, a): return 1
@builtin('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort')
def _(E, st, f, ins, a): return 0 if ins.res else None
@builtin('_ZNSt11logic_errorC2EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt11logic_errorD1Ev',
         '_ZNSt13runtime_errorD1Ev', '_ZNSt11logic_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc')
def _(E, st, f, ins, a): return None


class FpV:
    """floating value: kept as z3 FP expression"""
    __slots__ = ('e', 'k', 'b')
    def __init__(self, e, k, b=None): self.e = e; self.k = k; self.b = b    # b: the bit pattern it was loaded from
    @staticmethod
    def sort(k): return z3.Float64() if k == 'double' else z3.Float32()
    @staticmethod
    def fresh(eng, k):
        eng.fresh_n += 1
        return FpV(z3.FP('fp!%d' % eng.fresh_n, FpV.sort(k)), k)
    @staticmethod
    def const(x, k): return FpV(z3.FPVal(x, FpV.sort(k)), k)
    @staticmethod
    def parse(s, k):
        if s.startswith('0x'):
            import struct
            d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            return FpV.const(d, k)
        return FpV.const(float(s), k)
    @staticmethod
    def frombits(x, k):
        w = 64 if k == 'double' else 32
        return FpV(z3.simplify(z3.fpBVToFP(bv(x, w), FpV.sort(k))), k, x)
    def bits(self): return self.b if self.b is not None else fold(z3.fpToIEEEBV(self.e))
RM = z3.RNE()
