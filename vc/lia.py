"""Exact translation of quantifier-free bit-vector formulas (over select-only byte arrays) into linear integer
arithmetic with uninterpreted functions.  Used as a second decision procedure next to bit blasting.
`unsat` of the translation is `unsat` of the original; where an operation is over-approximated the result is marked
inexact and a `sat` answer is ignored."""
import z3
K = z3
class NoLia(Exception): pass

class Lia:
    def __init__(self):
        self.cache = {}      # ast id -> (ast, value)
        self.bcache = {}
        self.n = 0
        self.uf = {}; self.vars = {}; self.ufname = {}
        self.side = None     # list collecting side constraints of the formula being translated
        self.inexact = False
    def fresh(self, nm='k'):
        self.n += 1
        return z3.Int('%s$%d' % (nm, self.n))
    # ---- public
    def tr(self, f):
        """returns (formula, exact)"""
        k = f.get_id()
        r = self.bcache.get(('top', k))
        if r is not None: return r[1], r[2]
        b, side, ex = self.boolean(f)
        out = z3.And(list(side.values()) + [b]) if side else b
        self.bcache[('top', k)] = (f, out, ex)
        return out, ex
    # ---- booleans: (expr, side dict, exact)
    def boolean(self, e):
        k = e.get_id(); r = self.bcache.get(k)
        if r is not None: return r[1]
        v = self._boolean(e)
        self.bcache[k] = (e, v)
        return v
    def _boolean(self, e):
        d = e.decl().kind()
        if d == z3.Z3_OP_TRUE or d == z3.Z3_OP_FALSE: return (e, {}, True)
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (d == z3.Z3_OP_ITE) or (d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and z3.is_bool(e.arg(0))):
            cs = [self.boolean(c) for c in e.children()]
            side = {}
            for c in cs: side.update(c[1])
            ex = all(c[2] for c in cs)
            a = [c[0] for c in cs]
            if d == z3.Z3_OP_AND: v = z3.And(a)
            elif d == z3.Z3_OP_OR: v = z3.Or(a)
            elif d == z3.Z3_OP_NOT: v = z3.Not(a[0])
            elif d == z3.Z3_OP_IMPLIES: v = z3.Implies(a[0], a[1])
            elif d == z3.Z3_OP_XOR: v = z3.Xor(a[0], a[1])
            elif d == z3.Z3_OP_ITE: v = z3.If(a[0], a[1], a[2])
            elif d == z3.Z3_OP_DISTINCT: v = z3.Not(a[0] == a[1])
            else: v = a[0] == a[1]
            return (v, side, ex)
        if d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0: return (e, {}, True)
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(e.arg(0)):
            x, y = e.arg(0), e.arg(1)
            if e.num_args() != 2: raise NoLia('distinct')
            a, b = self.red(x), self.red(y)
            v = a[0] == b[0]
            return (z3.Not(v) if d == z3.Z3_OP_DISTINCT else v, self.merge(a, b), a[4] and b[4])
        U = {z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_ULT: '<', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_UGT: '>'}
        S = {z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SLT: '<', z3.Z3_OP_SGEQ: '>=', z3.Z3_OP_SGT: '>'}
        if d in U or d in S:
            f = self.red if d in U else self.signed
            a, b = f(e.arg(0)), f(e.arg(1)); o = U.get(d) or S.get(d)
            v = {'<=': lambda: a[0] <= b[0], '<': lambda: a[0] < b[0], '>=': lambda: a[0] >= b[0], '>': lambda: a[0] > b[0]}[o]()
            if not z3.is_expr(v): v = z3.BoolVal(v)
            return (v, self.merge(a, b), a[4] and b[4])
        raise NoLia('bool op ' + e.decl().name())
    def merge(self, *vs):
        s = {}
        for v in vs: s.update(v[3])
        return s
    # ---- terms: (intexpr, lo, hi, side, exact)
    def lin(self, e):
        """integer congruent to e modulo 2^w"""
        k = ('l', e.get_id()); r = self.cache.get(k)
        if r is not None: return r[1]
        v = self._lin(e)
        self.cache[k] = (e, v)
        return v
    def red(self, e):
        """integer equal to the unsigned value of e"""
        k = ('r', e.get_id()); r = self.cache.get(k)
        if r is not None: return r[1]
        v = self._norm(self.lin(e), e.size())
        self.cache[k] = (e, v)
        return v
    def _norm(self, v, w):
        x, lo, hi, s, ex = v; M = 1 << w
        if 0 <= lo and hi < M: return v
        k = self.fresh('k'); s = dict(s)
        a, b = lo // M, hi // M
        if a == b: return (x - a * M, lo - a * M, hi - a * M, s, ex)
        r = x - M * k
        s[k.get_id()] = z3.And(r >= 0, r < M, k >= a, k <= b)
        return (r, 0, M - 1, s, ex)
    def signed(self, e):
        k = ('s', e.get_id()); r = self.cache.get(k)
        if r is not None: return r[1]
        v = self._sgn(self.red(e), e.size())
        self.cache[k] = (e, v)
        return v
    def _sgn(self, v, w):
        x, lo, hi, s, ex = v; H = 1 << (w - 1)
        if hi < H: return v
        if lo >= H: return (x - 2 * H, lo - 2 * H, hi - 2 * H, s, ex)
        return (z3.If(x >= H, x - 2 * H, x), -H, H - 1, s, ex)
    def _lin(self, e):
        w = e.size(); M = 1 << w
        if z3.is_bv_value(e):
            c = e.as_long(); return (z3.IntVal(c), c, c, {}, True)
        d = e.decl().kind(); n = e.num_args()
        if d == z3.Z3_OP_UNINTERPRETED and n == 0:
            v = z3.Int('i_' + e.decl().name() + '_%d' % w); self.vars[v.decl().name()] = e
            return (v, 0, M - 1, {v.get_id(): z3.And(v >= 0, v < M)}, True)
        if d == z3.Z3_OP_BADD:
            vs = [self.slin(c) for c in e.children()]
            return (z3.Sum([v[0] for v in vs]), sum(v[1] for v in vs), sum(v[2] for v in vs), self.merge(*vs), all(v[4] for v in vs))
        if d == z3.Z3_OP_BSUB:
            a, b = self.slin(e.arg(0)), self.slin(e.arg(1))
            return (a[0] - b[0], a[1] - b[2], a[2] - b[1], self.merge(a, b), a[4] and b[4])
        if d == z3.Z3_OP_BNEG:
            a = self.slin(e.arg(0)); return (-a[0], -a[2], -a[1], a[3], a[4])
        if d == z3.Z3_OP_BMUL:
            cs = e.children(); c = 1; rest = []
            for x in cs:
                if z3.is_bv_value(x): c = c * x.as_long() % M
                else: rest.append(x)
            if c >= M // 2: c -= M
            if not rest: return (z3.IntVal(c % M), c % M, c % M, {}, True)
            a = self.slin(rest[0])
            if len(rest) > 1:
                a = self.red(rest[0]); 
                for x in rest[1:]:
                    b = self.red(x)
                    a = (a[0] * b[0], a[1] * b[1], a[2] * b[2], self.merge(a, b), a[4] and b[4])
            lo, hi = a[1] * c, a[2] * c
            return (a[0] * c, min(lo, hi), max(lo, hi), a[3], a[4])
        if d == z3.Z3_OP_CONCAT:
            x = z3.IntVal(0); lo = hi = 0; s = {}; ex = True; sh = 0; terms = []
            for c in reversed(e.children()):
                v = self.red(c)
                if not (v[1] == v[2] == 0): terms.append((1 << sh) * v[0] if sh else v[0])
                lo += v[1] << sh; hi += v[2] << sh; s.update(v[3]); ex = ex and v[4]; sh += c.size()
            return (z3.Sum(terms) if terms else z3.IntVal(0), lo, hi, s, ex)
        if d == z3.Z3_OP_EXTRACT:
            h, l = e.params(); x = e.arg(0)
            if l == 0:
                # low bits: congruence is preserved
                v = self.lin(x)
                return v
            v = self.red(x)
            q = self.divc(v, 1 << l)
            return q
        if d == z3.Z3_OP_ZERO_EXT:
            return self.red(e.arg(0))
        if d == z3.Z3_OP_SIGN_EXT: return self.signed(e.arg(0))
        if d == z3.Z3_OP_BNOT:
            a = self.slin(e.arg(0)); return (-1 - a[0], -1 - a[2], -1 - a[1], a[3], a[4])
        if d == z3.Z3_OP_ITE:
            c = self.boolean(e.arg(0)); a = self.red(e.arg(1)); b = self.red(e.arg(2))
            s = self.merge(a, b); s.update(c[1])
            return (z3.If(c[0], a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), s, a[4] and b[4] and c[2])
        if d == z3.Z3_OP_SELECT:
            arr = e.arg(0)
            if arr.decl().kind() != z3.Z3_OP_UNINTERPRETED: raise NoLia('array term')
            f = self.uf.get(arr.get_id())
            if f is None:
                f = self.uf[arr.get_id()] = (arr, z3.Function('f_' + arr.decl().name(), z3.IntSort(), z3.IntSort())); self.ufname['f_' + arr.decl().name()] = arr
            i = self.red(e.arg(1)); v = f[1](i[0]); s = dict(i[3]); s[v.get_id()] = z3.And(v >= 0, v < M)
            return (v, 0, M - 1, s, i[4])
        if d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(e.arg(1)):
            k = e.arg(1).as_long()
            if k >= w:
                if d != z3.Z3_OP_BASHR: return (z3.IntVal(0), 0, 0, {}, True)
                k = w - 1
            if d == z3.Z3_OP_BSHL:
                a = self.slin(e.arg(0)); return (a[0] * (1 << k), a[1] << k, a[2] << k, a[3], a[4])
            a = self.red(e.arg(0)) if d == z3.Z3_OP_BLSHR else self.signed(e.arg(0))
            return self.divc(a, 1 << k)
        UD = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I); UR = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
        SD = (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I); SR = (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)
        if d in UD + UR + SD + SR and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() != 0:
            c = e.arg(1).as_long()
            if d in UD + UR:
                a = self.red(e.arg(0)); q = self.divc(a, c)
                if d in UD: return q
                return (a[0] - c * q[0], 0, min(c - 1, a[2]), self.merge(a, q), a[4])
            if c >= M // 2: c -= M
            if c < 0: raise NoLia('negative divisor')
            a = self.signed(e.arg(0))
            neg = (-a[0], -a[2], -a[1], a[3], a[4])
            qp = self.divc(a, c); qn = self.divc(neg, c)
            q = (z3.If(a[0] >= 0, qp[0], -qn[0]), -((-a[1]) // c) if a[1] < 0 else a[1] // c, a[2] // c if a[2] >= 0 else -((-a[2]) // c), self.merge(qp, qn), a[4])
            if d in SD: return q
            return (a[0] - c * q[0], -(c - 1), c - 1, self.merge(a, q), a[4])
        if d in UD + UR:
            a, b = self.red(e.arg(0)), self.red(e.arg(1))
            q = self.fresh('q'); r = self.fresh('rem'); s = self.merge(a, b)
            s[q.get_id()] = z3.Implies(b[0] > 0, z3.And(q >= 0, q <= a[0], r >= 0, r < b[0], r <= a[0], a[0] == q * b[0] + r))
            s[r.get_id()] = z3.And(z3.Implies(b[0] == 0, z3.And(q == M - 1, r == a[0])))
            return ((q if d in UD else r), 0, M - 1, s, a[4] and b[4])
        if d == z3.Z3_OP_BAND:
            cs = e.children(); m = None; rest = []
            for x in cs:
                if z3.is_bv_value(x): m = x.as_long() if m is None else m & x.as_long()
                else: rest.append(x)
            if m is not None and len(rest) == 1 and m & (m + 1) == 0:
                k = m.bit_length(); v = self.lin(rest[0])
                return self._norm(v, k)
            if m is not None and len(rest) == 1 and m:
                # contiguous runs of ones
                x = rest[0]; tot = None; k = 0; mm = m
                while mm:
                    while not mm & 1: mm >>= 1; k += 1
                    j = k
                    while mm & 1: mm >>= 1; j += 1
                    piece = self._norm(self.divc(self.red(x), 1 << k) if k else self.lin(x), j - k)
                    piece = (piece[0] * (1 << k), piece[1] << k, piece[2] << k, piece[3], piece[4])
                    tot = piece if tot is None else (tot[0] + piece[0], tot[1] + piece[1], tot[2] + piece[2], self.merge(tot, piece), tot[4] and piece[4])
                    k = j
                return tot
            vs = [self.red(x) for x in rest] + ([(z3.IntVal(m), m, m, {}, True)] if m is not None else [])
            v = self.fresh('and'); s = self.merge(*vs)
            s[v.get_id()] = z3.And([v >= 0] + [v <= x[0] for x in vs])
            return (v, 0, min(x[2] for x in vs), s, False)
        if d == z3.Z3_OP_BOR:
            vs = [self.red(x) for x in e.children()]
            v = self.fresh('or'); s = self.merge(*vs)
            s[v.get_id()] = z3.And([v < M, v <= z3.Sum([x[0] for x in vs])] + [v >= x[0] for x in vs])
            return (v, 0, M - 1, s, False)
        if d in (z3.Z3_OP_BXOR, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) + SD + SR:
            v = self.fresh('abs'); s = {}
            s[v.get_id()] = z3.And(v >= 0, v < M)
            return (v, 0, M - 1, s, False)
        raise NoLia('bv op ' + e.decl().name())
    def slin(self, e):
        """like lin, but a constant near 2^w counts as negative (keeps intervals small)"""
        if z3.is_bv_value(e):
            c = e.as_long(); w = e.size()
            if c >= 1 << (w - 1): c -= 1 << w
            return (z3.IntVal(c), c, c, {}, True)
        return self.lin(e)
    def divc(self, v, c):
        x, lo, hi, s, ex = v
        if c == 1: return v
        a, b = lo // c, hi // c
        if a == b: return (z3.IntVal(a), a, a, s, ex)
        q = self.fresh('d'); s = dict(s)
        s[q.get_id()] = z3.And(x - c * q >= 0, x - c * q < c, q >= a, q <= b)
        return (q, a, b, s, ex)
