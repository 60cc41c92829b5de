"""Ghost model of byte/bit streams: token lists with repeated segments, and symbolic sums."""
import z3
from .vals import *


class Tok(object):
    """`w` bits holding the unsigned value v (MSB first)"""
    __slots__ = ('w', 'v')

    def __init__(self, w, v):
        self.w = w
        self.v = v

    def __repr__(self):
        return '%s:%d' % (self.v, self.w)


class Seg(object):
    """n repetitions; the k-th one is the token list toks (k is a z3 constant bound here)"""
    __slots__ = ('n', 'k', 'toks')

    def __init__(self, n, k, toks):
        self.n, self.k, self.toks = n, k, tuple(toks)

    def __repr__(self):
        return 'Seg(%s,%s->%r)' % (self.n, self.k, self.toks)

    def at(self, i):
        return tsubst(self.toks, [(self.k, bv(i, 64))])


class Base(object):
    """what a stream held before the generic iteration / call"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Base(%s)' % self.name


def tsubst(toks, m):
    out = []
    for t in toks:
        if isinstance(t, Tok):
            out.append(Tok(t.w, vsubst(t.v, m)))
        elif isinstance(t, Seg):
            k2 = fresh_k()
            body = tsubst(t.toks, [(t.k, k2)] + [x for x in m if not x[0].eq(t.k)])
            out.append(mkseg(vsubst(t.n, m), k2, body))
        else:
            out.append(t)
    r = []
    for t in out:
        if isinstance(t, tuple):
            r.extend(t)
        else:
            r.append(t)
    return tuple(r)


_kc = [0]


def fresh_k():
    _kc[0] += 1
    return z3.BitVec('k!s%d' % _kc[0], 64)


def mkseg(n, k, toks):
    """Seg, expanded when n is a small literal"""
    n = conc(n)
    if isinstance(n, int) and n <= 64:
        r = []
        for i in range(n):
            r.extend(tsubst(toks, [(k, z3.BitVecVal(i, 64))]))
        return tuple(r)
    return (Seg(n, k, tuple(toks)),)


def flat(ts):
    r = []
    for t in ts:
        if isinstance(t, (tuple, list)):
            r.extend(flat(t))
        else:
            r.append(t)
    return tuple(r)


def is_k(nm):
    return nm.startswith('k!')


# -------------------------------------------------------------- sums
class Sums(object):
    """Sum_{j<n} body(j) over Z/2^64, kept linear: constants and j-independent atoms are pulled
    out, every remaining atom gets one uninterpreted symbol keyed by its canonical form."""

    def __init__(self):
        self.tab = {}
        self.info = {}
        self.abounds = {}     # canonical atom -> bound that holds in every completed iteration

    def akey(self, atom, k):
        fr = free_consts(atom, is_k)
        fr.pop(k.decl().name(), None)
        sub = [(k, z3.BitVec('K!', 64))] + [(fr[x], z3.BitVec('G!%d' % i, 64)) for i, x in enumerate(sorted(fr))]
        return z3.simplify(z3.substitute(atom, *sub)).sexpr()

    def linear(self, e, acc=None, coef=1):
        if acc is None:
            acc = {}
        if isinstance(e, int):
            acc[None] = (acc.get(None, (0, None))[0] + coef * e) & M64, None
            return acc
        k = e.decl().kind()
        ch = e.children()
        if z3.is_bv_value(e):
            return self.linear(e.as_long(), acc, coef)
        if k == z3.Z3_OP_BADD:
            for c in ch:
                self.linear(c, acc, coef)
            return acc
        if k == z3.Z3_OP_BSUB:
            self.linear(ch[0], acc, coef)
            for c in ch[1:]:
                self.linear(c, acc, -coef & M64)
            return acc
        if k == z3.Z3_OP_BNEG:
            return self.linear(ch[0], acc, -coef & M64)
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(a):
                    return self.linear(b, acc, coef * a.as_long() & M64)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            return self.linear(ch[0], acc, coef << ch[1].as_long() & M64)
        if k == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0:
            x = ch[0]
            if x.decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = x.decl().params()
                if lo == 0 and x.children()[0].size() == e.size():
                    return self.linear(x.children()[0], acc, coef << ch[1].size() & M64)
        i = e.get_id()
        c0 = acc.get(i, (0, e))[0]
        acc[i] = ((c0 + coef) & M64, e)
        return acc

    def sum(self, n, k, body):
        body = conc(body)
        n = conc(n)
        if isinstance(n, int) and n <= 64:
            r = 0
            for i in range(n):
                r = add(r, vsubst(body, [(k, z3.BitVecVal(i, 64))]))
            return r
        acc = self.linear(body)
        r = 0
        for i, (c, atom) in acc.items():
            if c == 0:
                continue
            if atom is None:
                r = add(r, mul(c, n))
            elif k.decl().name() not in free_consts(atom, is_k):
                r = add(r, mul(mul(c, atom), n))
            else:
                r = add(r, mul(c, self.atom(n, k, atom)))
        return r

    def atom(self, n, k, atom):
        nn = bv(n, 64)
        fr = free_consts(atom, is_k)
        fr.pop(k.decl().name(), None)
        free_consts(nn, is_k, fr, set())
        names = sorted(fr)
        sub = [(k, z3.BitVec('K!', 64))] + [(fr[x], z3.BitVec('G!%d' % i, 64)) for i, x in enumerate(names)]
        key = (z3.simplify(z3.substitute(atom, *sub)).sexpr(), z3.simplify(z3.substitute(nn, *sub)).sexpr(), len(names))
        nm = self.tab.get(key)
        if nm is None:
            nm = 'S!%d' % len(self.tab)
            self.tab[key] = nm
        t = uf(nm, [fr[x] for x in names], z3.BitVecSort(64))
        self.info[t.get_id()] = (t, nn, k, atom)
        return t

    def symbols(self, e):
        st, seen, r = [e], set(), []
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.info and self.info[i][0].eq(x):
                r.append(i)
            st.extend(x.children())
        return r

    def facts(self, exprs):
        """facts about the sum symbols occurring in exprs (n = 0 gives 0)"""
        out = []
        ids = {}
        memo = self.__dict__.setdefault('memo', {})
        for e in exprs:
            if not isinstance(e, z3.ExprRef):
                continue
            r = memo.get(e.get_id())
            if r is None:
                if len(memo) > 200000:
                    memo.clear()
                r = memo[e.get_id()] = (e, self.symbols(e))
            for i in r[1]:
                ids[i] = self.info[i]
        for t, n, k, atom in ids.values():
            out.append(z3.Implies(n == 0, t == 0))
            b, m = ub(atom), ub(n)
            if b * m >= 1 << 62 and self.abounds:
                b = min(b, self.abounds.get(self.akey(atom, k), b))
            if b * m < 1 << 62:
                out.append(z3.ULE(t, n * z3.BitVecVal(b, 64)))
        return out, list(ids.values())


SUMS = Sums()


def ub(e, d=0):
    """an upper bound of an unsigned bit-vector term"""
    if isinstance(e, int):
        return e
    top = (1 << e.size()) - 1
    if z3.is_bv_value(e):
        return e.as_long()
    if d > 12:
        return top
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ZERO_EXT:
        return ub(ch[0], d + 1)
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c in ch:
            r = (r << c.size()) + ub(c, d + 1)
        return r
    if k == z3.Z3_OP_ITE:
        return max(ub(ch[1], d + 1), ub(ch[2], d + 1))
    if k == z3.Z3_OP_BADD:
        return min(top, sum(ub(c, d + 1) for c in ch)) if sum(ub(c, d + 1) for c in ch) <= top else top
    if k == z3.Z3_OP_BMUL:
        r = 1
        for c in ch:
            r *= ub(c, d + 1)
        return r if r <= top else top
    return top


def bits_of(toks):
    r = 0
    for t in toks:
        if isinstance(t, Tok):
            r = add(r, t.w)
        elif isinstance(t, Seg):
            r = add(r, SUMS.sum(t.n, t.k, bits_of(t.toks)))
        elif isinstance(t, Base):
            pass
        else:
            raise Unsupported('bits_of %r' % (t,))
    return r


def bytes_of(toks):
    """byte count of a byte-granular token list as a linear expression, or None"""
    acc = SUMS.linear(bits_of(toks))
    r = 0
    for i, (c, atom) in acc.items():
        if c % 8:
            return None
        r = add(r, c // 8 if atom is None else mul(c // 8, atom))
    return r


class OutS(object):
    """output stream: everything emitted so far (bit view), error flag, put position"""
    __slots__ = ('toks', 'bad', 'pos', 'failed', 'chunks')

    def __init__(self, toks=(), bad=False, pos=0, failed=False, chunks=()):
        self.toks = tuple(toks)
        self.bad = bad
        self.pos = pos           # byte offset of the first token
        self.chunks = chunks     # (offset, tokens) of everything written before the last reposition, in order
        self.failed = failed     # ghost: some write on this stream did not take effect

    def repl(self, **kw):
        d = dict(toks=self.toks, bad=self.bad, pos=self.pos, failed=self.failed, chunks=self.chunks)
        d.update(kw)
        return OutS(**d)

    def __repr__(self):
        return 'OutS%r' % (self.toks,)


class InS(object):
    """input stream whose remaining content is a known token list"""
    __slots__ = ('toks', 'pos', 'bad')

    def __init__(self, toks, pos=0, bad=False):
        self.toks = tuple(toks)
        self.pos = pos      # bits consumed
        self.bad = bad

    def repl(self, **kw):
        d = dict(toks=self.toks, pos=self.pos, bad=self.bad)
        d.update(kw)
        return InS(**d)

    def __repr__(self):
        return 'InS%r' % (self.toks,)


class HostS(object):
    """input stream of `total` arbitrary bytes (nothing is known about their values)"""
    # bpos: get position in bytes; pend: bits of the byte before it not yet delivered (0..7, literal)
    # src: the name of the function from positions to bytes, for streams whose content is spoken of
    __slots__ = ('bpos', 'total', 'bad', 'pend', 'src')

    def __init__(self, bpos, total, bad=False, pend=0, src=None):
        self.bpos, self.total, self.bad, self.pend, self.src = bpos, total, bad, pend, src

    @property
    def pos(self):
        return sub(mul(self.bpos, 8), self.pend)

    def vsub(self, m):
        return HostS(vsubst(self.bpos, m), vsubst(self.total, m), vsubst(self.bad, m), self.pend, self.src)

    def repl(self, **kw):
        d = dict(bpos=self.bpos, total=self.total, bad=self.bad, pend=self.pend, src=self.src)
        d.update(kw)
        return HostS(**d)


class Barrier(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Barrier'


def take(toks, w):
    """take w bits off the front; returns (value, rest) or None when the head is not fixed-width"""
    parts = []
    need = w
    toks = list(toks)
    i = 0
    while need > 0:
        if i >= len(toks):
            return 'eof'
        t = toks[i]
        if not isinstance(t, Tok):
            return None
        if t.w <= need:
            parts.append((t.w, t.v))
            need -= t.w
            i += 1
        else:
            hi = _ext(t.v, t.w, t.w - 1, t.w - need)
            parts.append((need, hi))
            toks[i] = Tok(t.w - need, _ext(t.v, t.w, t.w - need - 1, 0))
            need = 0
    return cat(parts), tuple(toks[i:])


def _ext(v, w, hi, lo):
    if isinstance(v, (int, bool)):
        return (int(v) >> lo) & ((1 << (hi - lo + 1)) - 1)
    return conc(z3.Extract(hi, lo, bv(v, w)))


def cat(parts):
    if len(parts) == 1:
        w, v = parts[0]
        return int(v) if isinstance(v, bool) else v
    if all(isinstance(v, (int, bool)) for _, v in parts):
        r = 0
        for w, v in parts:
            r = (r << w) | int(v)
        return r
    return conc(z3.Concat(*[bv(v, w) for w, v in parts]))


def low_bits(v, wv, w):
    """the low w bits of a wv-bit value, zero-extended when w > wv"""
    if w == wv:
        return v
    return convert(v, wv, False, w)
