"""Bit-vector query -> linear integer arithmetic.

Every bit-vector term is mapped to an integer term equal to its unsigned value.  Sums and multiples
are encoded exactly (S - 2^w*q with 0 <= . < 2^w); operations outside linear arithmetic become fresh
integers in range, so the translation over-approximates: `unsat` carries over, `sat` does not."""
import z3

_D = z3


class Lia(object):
    def __init__(self):
        self.c = {}
        self.defs = []
        self.n = 0
        self.cut = False
        self.cur = None

    def name(self, p):
        # auxiliary variables are named after the term they define, so that separate translations agree
        self.n += 1
        return '%s!%d!%d' % (p, self.cur, self.n)

    def fresh(self, lo, hi):
        v = z3.Int(self.name('i'))
        self.defs.append(v >= lo)
        self.defs.append(v <= hi)
        return v

    def wrap(self, S, lo, hi, w):
        M = 1 << w
        if lo >= 0 and hi < M:
            return (S, lo, hi)
        q = z3.Int(self.name('q'))
        ql, qh = lo // M, hi // M
        self.defs += [q >= ql, q <= qh, S - M * q >= 0, S - M * q < M]
        return (S - M * q, 0, M - 1)

    def bv(self, t):
        k = t.get_id()
        r = self.c.get(k)
        if r is None:
            sv = self.cur, self.n
            self.cur, self.n = k, 0
            r = self.bv_(t)
            self.cur, self.n = sv
            self.c[k] = (r, t)
            return r
        return r[0]

    def opaque(self, w, t=None):
        self.cut = True
        self.why = t
        hi = (1 << w) - 1
        return (self.fresh(0, hi), 0, hi)

    def bv_(self, t):
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            v = t.as_long()
            return (z3.IntVal(v), v, v)
        kd = t.decl().kind()
        ch = t.children()
        if not ch:
            return (self.fresh(0, M - 1), 0, M - 1)
        if kd == z3.Z3_OP_ZERO_EXT:
            return self.bv(ch[0])
        if kd == z3.Z3_OP_SIGN_EXT:
            x, lo, hi = self.bv(ch[0])
            h = 1 << (ch[0].size() - 1)
            if hi < h:
                return (x, lo, hi)
            return (z3.If(x >= h, x + (M - 2 * h), x), 0, M - 1)
        if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            lf = self.linear(t, M)
            if lf is not None:
                terms, lo, hi = [], 0, 0
                for cc, a in lf:
                    if cc >= M // 2:
                        cc -= M
                    if a is None:
                        terms.append(z3.IntVal(cc))
                        lo += cc
                        hi += cc
                        continue
                    x, l, h = self.bv(a)
                    terms.append(cc * x)
                    if cc >= 0:
                        lo += cc * l
                        hi += cc * h
                    else:
                        lo += cc * h
                        hi += cc * l
                if not terms:
                    return (z3.IntVal(0), 0, 0)
                return self.wrap(z3.Sum(terms) if len(terms) > 1 else terms[0], lo, hi, w)
            return self.opaque(w, t)
        if kd == z3.Z3_OP_CONCAT:
            off = w
            terms = []
            for c in ch:
                off -= c.size()
                terms.append((1 << off) * self.bv(c)[0])
            lo = hi = 0
            off = w
            for c in ch:
                off -= c.size()
                _, l, h = self.bv(c)
                lo += l << off
                hi += h << off
            return (z3.Sum(terms), lo, hi)
        if kd == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            x, lo, hi = self.bv(ch[0])
            if hi < (1 << (h + 1)):
                if l == 0:
                    return (x, lo, hi)
                v = self.fresh(0, hi >> l)
                r = self.fresh(0, (1 << l) - 1)
                self.defs.append(x == v * (1 << l) + r)
                return (v, lo >> l, hi >> l)
            v = self.fresh(0, (1 << (h - l + 1)) - 1)
            a = self.fresh(0, hi >> (h + 1))
            s = a * (1 << (h + 1)) + v * (1 << l)
            if l:
                s = s + self.fresh(0, (1 << l) - 1)
            self.defs.append(x == s)
            return (v, 0, (1 << (h - l + 1)) - 1)
        if kd == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            x, lo, hi = self.bv(ch[0])
            if n >= w:
                return (z3.IntVal(0), 0, 0)
            v = self.fresh(0, hi >> n)
            r = self.fresh(0, (1 << n) - 1)
            self.defs.append(x == v * (1 << n) + r)
            return (v, lo >> n, hi >> n)
        if kd in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            n = ch[1].as_long()
            x, lo, hi = self.bv(ch[0])
            v = self.fresh(0, hi // n)
            r = self.fresh(0, n - 1)
            self.defs.append(x == v * n + r)
            if kd in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return (v, lo // n, hi // n)
            return (r, 0, n - 1)
        if kd == z3.Z3_OP_ITE:
            a, l1, h1 = self.bv(ch[1])
            b, l2, h2 = self.bv(ch[2])
            return (z3.If(self.b(ch[0]), a, b), min(l1, l2), max(h1, h2))
        if kd == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in ch):
            nm = 'u!%s!%d' % (t.decl().name(), w)
            f = z3.Function(nm, *([z3.IntSort()] * (len(ch) + 1)))
            v = f(*[self.bv(c)[0] for c in ch])
            self.defs += [v >= 0, v <= M - 1]
            return (v, 0, M - 1)
        return self.opaque(w, t)

    def linear(self, t, M):
        """[(coef, atom)] or None"""
        acc = {}

        def go(x, m):
            kd = x.decl().kind()
            if z3.is_bv_value(x):
                add(None, m * x.as_long())
            elif kd == z3.Z3_OP_BADD:
                for c in x.children():
                    go(c, m)
            elif kd == z3.Z3_OP_BSUB:
                cs = x.children()
                go(cs[0], m)
                for c in cs[1:]:
                    go(c, -m)
            elif kd == z3.Z3_OP_BNEG:
                go(x.arg(0), -m)
            elif kd == z3.Z3_OP_BMUL:
                cs = x.children()
                k = m
                rest = []
                for c in cs:
                    if z3.is_bv_value(c):
                        k *= c.as_long()
                    else:
                        rest.append(c)
                if not rest:
                    add(None, k)
                elif len(rest) == 1:
                    go(rest[0], k)
                else:
                    add(x, m)
            else:
                add(x, m)

        def add(a, m):
            i = None if a is None else a.get_id()
            c0 = acc.get(i, (0, a))[0]
            acc[i] = (c0 + m, a)
        go(t, 1)
        out = []
        for i, (c, a) in acc.items():
            c %= M
            if c:
                if a is not None and a.eq(t):
                    return None
                out.append((c, a))
        # products of two unknowns are atoms
        return [(c, a) for c, a in out]

    def sgn(self, t):
        x, lo, hi = self.bv(t)
        h = 1 << (t.size() - 1)
        if hi < h:
            return x
        return z3.If(x >= h, x - 2 * h, x)

    def b(self, t):
        k = t.get_id()
        r = self.c.get(('b', k))
        if r is None:
            sv = self.cur, self.n
            self.cur, self.n = k, 0
            r = self.b_(t)
            self.cur, self.n = sv
            self.c[('b', k)] = (r, t)
            return r
        return r[0]

    def b_(self, t):
        kd = t.decl().kind()
        ch = t.children()
        if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return t
        if kd == z3.Z3_OP_AND:
            return z3.And([self.b(c) for c in ch])
        if kd == z3.Z3_OP_OR:
            return z3.Or([self.b(c) for c in ch])
        if kd == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if kd == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if kd == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                e = self.bv(ch[0])[0] == self.bv(ch[1])[0]
                return e if kd == z3.Z3_OP_EQ else z3.Not(e)
            if z3.is_bool(ch[0]):
                e = self.b(ch[0]) == self.b(ch[1])
                return e if kd == z3.Z3_OP_EQ else z3.Not(e)
        if kd in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.bv(ch[0])[0], self.bv(ch[1])[0]
            return {z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[kd]
        if kd in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.sgn(ch[0]), self.sgn(ch[1])
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[kd]
        if kd == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            f = z3.Function('p!%s' % t.decl().name(), *([z3.IntSort()] * len(ch) + [z3.BoolSort()]))
            return f(*[self.bv(c)[0] for c in ch])
        if not (kd == z3.Z3_OP_UNINTERPRETED and not ch):
            self.cut = True
            self.why = t
        return z3.Bool(self.name('o'))


CACHE = {}


def check(assertions, timeout):
    """'unsat', 'sat' (only when the translation was exact) or 'unknown'"""
    s = z3.Solver()
    s.set('timeout', timeout)
    cut = False
    for a in assertions:
        if not z3.is_bool(a):
            continue
        c = CACHE.get(a.get_id())
        if c is None:
            L = Lia()
            f = L.b(a)
            c = (a, z3.And(f, *L.defs) if L.defs else f, L.cut, L.c)
            CACHE[a.get_id()] = c
        s.add(c[1])
        cut = cut or c[2]
    r = s.check()
    if r == z3.unsat:
        return 'unsat'
    if r == z3.sat and not cut:
        return 'sat'
    return 'unknown'


def refuted(assertions, timeout):
    return check(assertions, timeout) == 'unsat'
