"""Layout contracts: one specification per box builds, side by side, the public parameter record a
user passes in and the bit sequence the standard prescribes for it.  The same specification text is
evaluated symbolically (Sym: proof obligations) and concretely (Conc: replay of a counterexample)."""
import z3
from .vals import *
from .streams import *

BX = 'shiguredo::mp4::box::'


class SpecError(Exception):
    pass


class Sym(object):
    """symbolic evaluation of a layout"""
    concrete = False

    def __init__(self, ex, ptype, prefix, args=(), top=None):
        self.ex, self.ptype, self.prefix, self.args = ex, ptype, prefix, list(args)
        self.f = {}
        self.toks = []
        self.labels = []      # (index of first token, name)
        self.top = top or self
        if isinstance(ptype, list):
            self.decl = {n: (t, None) for n, t in ptype}
        else:
            self.decl = {n: (t, i) for (n, t, i, o) in ex.all_fields(ptype)} if ptype else {}

    # --- parameter bookkeeping
    def ty(self, name):
        if name not in self.decl:
            raise SpecError('parameter %s.%s does not exist' % (self.ptype, name))
        x = self.decl[name][0]
        return self.ex.T(x) if isinstance(x, str) else x

    def tt(self, x):
        return self.ex.T(x) if isinstance(x, str) else x

    def setp(self, name, v):
        if self.ptype is None:
            return
        t = self.ty(name)
        if name in self.f:
            raise SpecError('parameter %s set twice' % name)
        if t.k == 'ref':
            v = PtrV(self.ex.new_cell(v))
        self.f[name] = v

    def emit(self, w, v, name=None):
        self.toks.append(Tok(w, v))
        self.labels.append(name)

    # --- scalars
    def s(self, name, w):
        return uf('%s.%s' % (self.prefix, name), self.args, z3.BitVecSort(w))

    def val(self, name, w, signed=False):
        """a parameter whose value fits w bits; not emitted"""
        t = self.ty(name)
        while t.k == 'ref':
            t = t.to
        x = self.s(name, w)
        tw = t.w if t.k == 'int' else 1
        if t.k == 'bool':
            self.setp(name, conc(self.s(name, 1) == 1))
            return self.s(name, 1)
        if w > tw:
            raise SpecError('%s: %d bits do not fit the parameter' % (name, w))
        self.setp(name, convert(x, w, signed, tw))
        return x

    def u(self, name, w):
        x = self.val(name, w)
        self.emit(w, x, name)
        return x

    def i(self, name, w):
        x = self.val(name, w, True)
        self.emit(w, x, name)
        return x

    def flag(self, name):
        return self.u(name, 1)

    def fix(self, name, v):
        t = self.ty(name)
        self.setp(name, bool(v) if t.k == 'bool' else v)

    def un(self, name):
        """a parameter that has no representation in this case: any value, not encoded"""
        t = self.ty(name)
        self.setp(name, self.ex.sym(t, 'unenc!%s.%s' % (self.prefix, name), self.args))

    def fixed_un(self, name, v):
        """a parameter with this value, not encoded"""
        self.un(name)
        x = self.f[name]
        self.ex.assume(x if z3.is_bool(x) else EQ(x, v))

    def under_wave(self):
        """the box is read below a wave box, and knows that it is"""
        self.top.state = {'m_under_wave': True}

    state = {}

    def const(self, w, v):
        self.emit(w, v, 'const')

    def put(self, w, v, name=None):
        """the low w bits of the 64-bit number v"""
        self.emit(w, conc(z3.Extract(w - 1, 0, bv(v, 64))) if not isinstance(v, int) else v & ((1 << w) - 1), name or 'expr')

    def wide(self, v):
        """a value as a 64-bit number"""
        if isinstance(v, int):
            return v
        return conc(z3.ZeroExt(64 - v.size(), v)) if v.size() < 64 else v

    # --- conditions
    def eq(self, v, c):
        if isinstance(v, int):
            return v == c
        return conc(v == z3.BitVecVal(c, v.size()))

    def has(self, v, mask):
        if isinstance(v, int):
            return (v & mask) != 0
        return conc((v & z3.BitVecVal(mask, v.size())) != 0)

    def ule(self, a, c):
        return ULE(self.wide(a), c)

    def test(self, c):
        return self.ex.decide(c) if not isinstance(c, bool) else c

    def require(self, c):
        self.ex.assume(c)

    def any(self, *cs):
        return OR(*cs)

    def all(self, *cs):
        return AND(*cs)

    def no(self, c):
        return NOT(c)

    # --- sequences
    def arr(self, name, n, w, signed=False):
        t = self.ty(name)
        if t.k != 'arr' or t.n != n:
            raise SpecError('%s is not an array of %d' % (name, n))
        items = []
        for j in range(n):
            x = uf('%s.%s.%d' % (self.prefix, name, j), self.args, z3.BitVecSort(w))
            self.emit(w, x, name)
            items.append(convert(x, w, signed, t.to.w))
        self.setp(name, ArrV(t.to, items))
        return [self.top_sym(x) for x in items]

    def top_sym(self, x):
        return x

    def carr(self, name, data):
        """array parameter with a fixed content, emitted"""
        t = self.ty(name)
        self.setp(name, ArrV(t.to, list(data)))
        for x in data:
            self.emit(t.to.w, x, name)

    def set_type(self, name, data):
        """a BoxType parameter with a fixed value; not emitted (it is in the header)"""
        t = self.ty(name)
        fs = [(n, self.tt(ft)) for (n, ft, i, o) in self.ex.all_fields(t.name)]
        arrs = [(n, ft) for n, ft in fs if ft.k == 'arr']
        r = self.ex.sym(t, '%s.%s' % (self.prefix, name), self.args)
        self.setp(name, r.with_(arrs[0][0], ArrV(arrs[0][1].to, list(data))))

    def choose(self, n, label):
        return self.ex.choose(n, label)

    def empty(self, name):
        self.setp(name, VecV(self.ty(name).to, ()))

    def expr(self, v, w):
        """the low w bits of a number, as a parameter value"""
        return conc(z3.Extract(w - 1, 0, bv(v, 64))) if not isinstance(v, int) else v & ((1 << w) - 1)

    def min(self, a, b):
        return conc(z3.If(z3.ULE(bv(a, 64), bv(b, 64)), bv(a, 64), bv(b, 64)))

    def offset_chars(self, name, n, w, off):
        t = self.ty(name)
        items = []
        for j in range(n):
            x = uf('%s.%s.%d' % (self.prefix, name, j), self.args, z3.BitVecSort(w))
            self.emit(w, x, name)
            items.append(conc(convert(x, w, False, t.to.w) + off))
        self.setp(name, ArrV(t.to, items))

    def arr_list(self, name, n, m, w):
        t = self.ty(name)
        base = '%s.%s[]' % (self.prefix, name)
        args = list(self.args)

        def at(i):
            return [uf('%s.%d' % (base, j), args + [bv(i, 64)], z3.BitVecSort(w)) for j in range(m)]
        k = fresh_k()
        self.toks.extend(mkseg(n, k, tuple(Tok(w, x) for x in at(k))))
        self.setp(name, VecV(t.to, None, n, lambda i: ArrV(t.to.to, at(i)), ('sym', base)))

    def un_vec(self, name, n):
        t = self.ty(name)
        v = self.ex.sym(t, 'unenc!%s.%s' % (self.prefix, name), self.args)
        self.setp(name, VecV(t.to, None, n, v.get, ('sym', 'unenc!' + name)))

    def write_only(self):
        """this case cannot be read back (by the standard's own definition)"""
        self.top.wonly = True

    wonly = False

    def len(self, name, maxn, minn=0):
        """number of elements of sequence parameter `name`"""
        base = '%s.%s.len' % (self.prefix, name)
        if (maxn & (maxn + 1)) == 0:
            m = maxn.bit_length()
            n = conc(z3.ZeroExt(64 - m, uf(base, self.args, z3.BitVecSort(m))))
        elif self.args:
            raise SpecError('%s: length bound of a nested sequence' % name)
        else:
            n = uf(base, self.args, z3.BitVecSort(64))
            self.ex.assume(ULE(n, maxn))
        if minn:
            if self.args:
                raise SpecError('%s: length bound of a nested sequence' % name)
            self.ex.assume(ULE(minn, n))
        return n

    def vec(self, name, n, w, fn=None):
        """vector of n integers of w bits each"""
        t = self.ty(name)
        while t.k == 'ref':
            t = t.to
        base = '%s.%s[]' % (self.prefix, name)
        args = list(self.args)

        def at(i):
            return uf(base, args + [bv(i, 64)], z3.BitVecSort(w))
        k = fresh_k()
        self.toks.extend(mkseg(n, k, (Tok(w, at(k)),)))
        self.setp(name, VecV(t.to, None, n, lambda i: convert(at(i), w, False, t.to.w), ('sym', base)))

    def cstr(self, name, term=True):
        """zero-terminated string (its characters are not zero)"""
        n = self.len(name, (1 << 40) - 1)
        t = self.ty(name)
        base = '%s.%s[]' % (self.prefix, name)
        args = list(self.args)

        def at(i):
            x = uf(base, args + [bv(i, 64)], z3.BitVecSort(8))
            return conc(z3.If(x == 0, z3.BitVecVal(1, 8), x))
        k = fresh_k()
        self.toks.extend(mkseg(n, k, (Tok(8, at(k)),)))
        if term:
            self.emit(8, 0, name)
        self.setp(name, VecV(t.to, None, n, lambda i: at(i), ('sym', base)))
        return n

    def list(self, name, n, cls, ptype, fn):
        """vector of n records of class cls, each constructed from a ptype by the code's own
        constructor; fn(e) lays out one element"""
        k = fresh_k()
        e = Sym(self.ex, ptype if isinstance(ptype, list) else BX + ptype, '%s.%s[]' % (self.prefix, name), self.args + [k], self.top)
        fn(e)
        tmpl = e.build(BX + cls)
        t = self.ty(name) if self.ptype else None
        if e.toks:
            self.toks.extend(mkseg(n, k, flat(e.toks)))
        v = VecV(Ty('rec', name=BX + cls), None, n, lambda i: vsubst(tmpl, [(k, bv(i, 64))]), ('sym', self.prefix + name))
        self.setp(name, v)
        return v

    def sub(self, name, cls, ptype, fn):
        """record parameter of class cls"""
        e = Sym(self.ex, BX + ptype, '%s.%s' % (self.prefix, name), self.args, self.top)
        fn(e)
        self.toks.extend(e.toks)
        self.setp(name, e.build(BX + cls))
        return e

    # --- construction
    def params(self):
        for n, (t, i) in self.decl.items():
            if n not in self.f:
                if i is None:
                    raise SpecError('parameter %s.%s not described' % (self.ptype, n))
        lv = self.ex.new_cell(RecV(self.ptype, {}))
        out = {}
        blank = self.ex.blank(self.ptype)
        lv = self.ex.new_cell(RecV(self.ptype, {n: self.f.get(n, blank.f.get(n)) for n in self.decl}))
        for n, (t, i) in self.decl.items():
            if n not in self.f:
                self.ex.init_field(self.ptype, lv, n, i)
        return self.ex.load(lv)

    def build(self, cls):
        from .std import make_rec_v
        if isinstance(self.ptype, list):
            return self.ex.load(make_rec_v(self.ex, cls, [self.f[n] for n, _ in self.ptype], [self.ex.T(t) for _, t in self.ptype], None))
        return self.ex.load(make_rec_v(self.ex, cls, [self.params()], [Ty('rec', name=self.ptype)], None))


# ------------------------------------------------------------------ comparison of bit sequences
def nonempty(toks):
    return [t for t in toks if not (isinstance(t, Seg) and not nonempty(t.toks))]


def compare(ex, got, want, label, node=None, depth=0):
    """one obligation per run of fixed tokens / per segment: the two bit sequences are equal"""
    got, want = nonempty(got), nonempty(want)
    eqs = []

    def flush():
        if eqs:
            g = AND(*eqs)
            del eqs[:]
            return ex.prove(g, label, node)
        return True
    ok = True
    while got or want:
        a = got[0] if got else None
        b = want[0] if want else None
        if isinstance(a, Tok) and isinstance(b, Tok):
            w = min(a.w, b.w)
            av, bvv = a.v, b.v
            if isinstance(av, bool) or (is_sym(av) and z3.is_bool(av)):
                av = conc(z3.If(zb(av), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
            x = low_or_hi(av, a.w, w)
            y = low_or_hi(bvv, b.w, w)
            eqs.append(EQ(x, y, w))
            got[0:1] = [Tok(a.w - w, rest_of(av, a.w, w))] if a.w > w else []
            want[0:1] = [Tok(b.w - w, rest_of(bvv, b.w, w))] if b.w > w else []
            continue
        if isinstance(a, Seg) and isinstance(b, Seg):
            ok = flush() and ok
            if ex.entails(EQ(a.n, b.n)) or seg_eq_ok(ex, a, b, label, node):
                k = fresh_k()
                ba = tsubst(a.toks, [(a.k, k)])
                bb = tsubst(b.toks, [(b.k, k)])

                def thunk():
                    return compare(ex, ba, bb, label, node, depth + 1)
                for o in ex.explore(thunk, assumptions=[ULT(k, a.n)]):
                    if o.kind == 'ret':
                        ok = ok and o.val
                got.pop(0)
                want.pop(0)
                continue
            return False
        # a segment against something else: it is empty, or its first element can be peeled off
        done = False
        for l in (got, want):
            if l and isinstance(l[0], Seg):
                ok = flush() and ok
                if ex.decide(EQ(l[0].n, 0)):
                    l.pop(0)
                else:
                    s = l.pop(0)
                    k = fresh_k()
                    l[0:0] = list(s.at(0)) + [Seg(sub(s.n, 1), k, tsubst(s.toks, [(s.k, add(k, 1))]))]
                    if depth > 40:
                        raise Unsupported('comparison of unbounded bit sequences of different shape')
                    depth += 1
                done = True
                break
        if done:
            continue
        ok = flush() and ok
        if got or want:
            ex.prove(False, label + ': length', node, assume_after=False)
            return False
    return flush() and ok


def seg_eq_ok(ex, a, b, label, node):
    return ex.prove(EQ(a.n, b.n), label + ': element count', node)


def low_or_hi(v, wv, w):
    """the first w of wv bits"""
    if wv == w:
        return v
    return _e(v, wv, wv - 1, wv - w)


def rest_of(v, wv, w):
    return _e(v, wv, wv - w - 1, 0)


def _e(v, wv, hi, lo):
    if isinstance(v, (int, bool)):
        return (int(v) >> lo) & ((1 << (hi - lo + 1)) - 1)
    return conc(z3.Extract(hi, lo, bv(v, wv)))
