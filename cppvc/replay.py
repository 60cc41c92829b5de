"""Concrete side of the layout contracts: the same specification text evaluated on concrete values gives a
C++ expression that builds the box through its public constructor and the bytes the standard prescribes.
Used to confirm a failed obligation by running the real code (and as the bounded stand-in when an obligation
could not be decided)."""
import random
import z3
from .vals import *
from .layout import BX, SpecError

NS = 'shiguredo::mp4::'


class Reject(Exception):
    """the sample does not satisfy the contract's precondition"""


def cint(t):
    return 'std::%sint%d_t' % ('' if t.s else 'u', t.w)


def ilit(v, t):
    v &= (1 << t.w) - 1
    return 'static_cast<%s>(0x%xULL)' % (cint(t), v)


def sbytes(data):
    return '"%s"' % ''.join('\\%03o' % (x & 255) for x in data)


class RandomSource(object):
    """edge-biased values"""

    def __init__(self, seed, big=0):
        self.r = random.Random(seed)
        self.mode = self.r.randrange(4)
        self.big = big

    def bits(self, name, args, w):
        r = self.r
        m = (1 << w) - 1
        k = r.randrange(12)
        last = name.rsplit('.', 1)[-1]
        if last in ('version', 'pre_defined', 'entry_version') and r.randrange(8):
            return r.randrange(3) & (1 if last == 'version' else 3 if last == 'entry_version' else 0)
        if last == 'profile' and r.randrange(2):
            return r.choice((66, 77, 88, 100, 110, 122, 144)) & m
        if last == 'flags':
            return r.choice((r.getrandbits(24), r.getrandbits(12), 0, 1, 1 << r.randrange(24)))
        if self.mode == 0 and k < 6:
            return m
        if k == 0:
            return 0
        if k == 1:
            return m
        if k == 2:
            return 1 & m
        if k == 3:
            return 1 << (w - 1)
        if k == 4:
            return m >> 1
        if k == 5:
            return r.getrandbits(w) & 3
        return r.getrandbits(w)

    def length(self, name, args, maxn):
        r = self.r
        if self.big and not args:
            return min(maxn, self.big)
        k = r.randrange(10)
        n = (0, 1, 1, 2, 2, 3, 5, 7, 16, 40)[k] if not args else (0, 1, 2, 3, 1, 2, 0, 4, 5, 9)[k]
        return min(n, maxn)

    def pick(self, label, n):
        return self.r.randrange(n)

    def flags(self):
        return self.r.getrandbits(24)


class ModelSource(RandomSource):
    """the values of a solver model; undetermined ones are random"""

    def __init__(self, model, seed=0, cap=3000):
        RandomSource.__init__(self, seed)
        self.m = model
        self.cap = cap
        self.names = {d.name(): d for d in model.decls()}
        self.nchoice = {}

    def bits(self, name, args, w):
        if name not in self.names:
            return RandomSource.bits(self, name, args, w)
        d = self.names[name]
        if d.range() != z3.BitVecSort(w):
            return RandomSource.bits(self, name, args, w)
        e = d(*[z3.BitVecVal(a, 64) for a in args]) if d.arity() else d()
        return self.m.eval(e, model_completion=True).as_long()

    def length(self, name, args, maxn):
        for w in ((maxn.bit_length(), 64) if maxn & (maxn + 1) == 0 else (64,)):
            if name in self.names and self.names[name].range() == z3.BitVecSort(w):
                n = self.bits(name, args, w)
                if n > self.cap:
                    raise Reject('sequence of %d elements' % n)
                return n
        return RandomSource.length(self, name, args, maxn)

    def pick(self, label, n):
        """follow the path's ghost choices"""
        for i in range(n - 1):
            pre = 'choice!' + label
            ks = sorted(k for k in self.names if k.startswith(pre) and k not in self.nchoice)
            if not ks:
                return RandomSource.pick(self, label, n)
            self.nchoice[ks[0]] = 1
            if z3.is_true(self.m.eval(self.names[ks[0]](), model_completion=True)):
                return i
        return n - 1


class Conc(object):
    concrete = True
    wonly = False

    def __init__(self, ex, ptype, prefix, src, args=(), top=None):
        self.ex, self.ptype, self.prefix, self.src, self.args = ex, ptype, prefix, src, list(args)
        self.f = {}
        self.bits = []
        self.top = top or self
        self.budget = [20000]
        if isinstance(ptype, list):
            self.decl = {n: (t, None) for n, t in ptype}
        else:
            self.decl = {n: (t, i) for (n, t, i, o) in ex.all_fields(ptype)} if ptype else {}

    def ty(self, name):
        x = self.decl[name][0]
        t = self.ex.T(x) if isinstance(x, str) else x
        while t.k == 'ref':
            t = t.to
        return t

    def tt(self, x):
        return self.ex.T(x) if isinstance(x, str) else x

    def text(self, t, v):
        if isinstance(v, str):
            return v
        if t.k == 'bool':
            return 'true' if v else 'false'
        if t.k == 'int':
            return ilit(int(v), t)
        if t.k == 'flt':
            return '%r' % v
        if t.k == 'str':
            return 'std::string(%s, %d)' % (sbytes(v), len(v))
        if t.k == 'arr':
            return '%s{%s}' % (self.cxx(t), ', '.join(self.text(t.to, x) for x in v))
        if t.k == 'vec':
            if not v:
                return '{}'
            return '%s{%s}' % (self.cxx(t), ', '.join(self.text(t.to, x) for x in v))
        if t.k == 'rec' and t.name and t.name.endswith('BoxType'):
            return '%sBoxType(%s{%s})' % (NS, 'std::array<std::uint8_t, 4>', ', '.join('%d' % (x & 255) for x in v))
        raise Reject('no text for %r' % t)

    def cxx(self, t):
        if t.k == 'int':
            return cint(t)
        if t.k == 'bool':
            return 'bool'
        if t.k == 'vec':
            return 'std::vector<%s>' % self.cxx(t.to)
        if t.k == 'arr':
            return 'std::array<%s, %d>' % (self.cxx(t.to), t.n)
        if t.k == 'str':
            return 'std::string'
        if t.k == 'rec':
            return t.name
        raise Reject('no type for %r' % t)

    def setp(self, name, v):
        if self.ptype is None:
            return
        t = self.ty(name)
        self.f[name] = self.text(t, v)
        if t.k == 'int' and isinstance(self.ptype, str) and not isinstance(v, str):
            self.f[name] = 'static_cast<std::remove_cvref_t<decltype(%s::%s)>>(0x%xULL)' % (self.ptype, name, int(v) & ((1 << t.w) - 1))

    def emit(self, w, v, name=None):
        self.top.budget[0] -= 1
        if self.top.budget[0] < 0:
            raise Reject('sample too large')
        self.bits.append((w, int(v) & ((1 << w) - 1)))

    def s(self, name, w):
        return self.src.bits('%s.%s' % (self.prefix, name), self.args, w)

    def val(self, name, w, signed=False):
        t = self.ty(name)
        x = self.s(name, w)
        if t.k == 'bool':
            self.setp(name, x & 1)
            return x & 1
        if signed and x >> (w - 1):
            self.setp(name, x - (1 << w))
        else:
            self.setp(name, x)
        return x

    def u(self, name, w):
        x = self.val(name, w)
        self.emit(w, x)
        return x

    def i(self, name, w):
        x = self.val(name, w, True)
        self.emit(w, x)
        return x

    def flag(self, name):
        return self.u(name, 1)

    def fix(self, name, v):
        self.setp(name, v)

    def un(self, name):
        t = self.ty(name)
        self.f[name] = self.text(t, self.any_value(t, name))

    def fixed_un(self, name, v):
        self.f[name] = self.text(self.ty(name), v)

    def under_wave(self):
        pass

    def any_value(self, t, name):
        b = lambda w: self.src.bits('unenc!%s.%s' % (self.prefix, name), self.args, w)
        if t.k == 'bool':
            return b(1)
        if t.k == 'int':
            return b(t.w)
        if t.k in ('vec', 'str'):
            if t.k == 'vec' and t.to.k == 'rec':
                return []
            return [self.any_value(t.to, name) for _ in range(2)]
        if t.k == 'arr':
            return [self.any_value(t.to, name) for _ in range(t.n)]
        if t.k == 'rec' and t.name.endswith('BoxType'):
            return [0x61 + j for j in range(4)]
        if t.k == 'rec':
            return '{}'
        raise Reject('any_value %r' % t)

    def const(self, w, v):
        self.emit(w, v)

    def put(self, w, v, name=None):
        self.emit(w, v)

    def wide(self, v):
        return v

    def eq(self, v, c):
        return v == c

    def has(self, v, mask):
        return (v & mask) != 0

    def ule(self, a, c):
        return a <= c

    def test(self, c):
        return bool(c)

    def require(self, c):
        if not c:
            raise Reject()

    def any(self, *cs):
        return any(cs)

    def all(self, *cs):
        return all(cs)

    def no(self, c):
        return not c

    def arr(self, name, n, w, signed=False):
        t = self.ty(name)
        out = []
        for j in range(n):
            x = self.src.bits('%s.%s.%d' % (self.prefix, name, j), self.args, w)
            self.emit(w, x)
            out.append(x - (1 << w) if signed and x >> (w - 1) else x)
        self.setp(name, out)
        return out

    def carr(self, name, data):
        self.setp(name, list(data))
        t = self.ty(name)
        for x in data:
            self.emit(t.to.w, x)

    def set_type(self, name, data):
        self.setp(name, list(data))

    def choose(self, n, label):
        return self.src.pick(label, n)

    def empty(self, name):
        self.setp(name, [])

    def expr(self, v, w):
        return v & ((1 << w) - 1)

    def min(self, a, b):
        return min(a, b)

    def offset_chars(self, name, n, w, off):
        out = []
        for j in range(n):
            x = self.src.bits('%s.%s.%d' % (self.prefix, name, j), self.args, w)
            self.emit(w, x)
            out.append(x + off)
        self.setp(name, out)

    def arr_list(self, name, n, m, w):
        t = self.ty(name)
        base = '%s.%s[]' % (self.prefix, name)
        out = []
        for i in range(n):
            row = [self.src.bits('%s.%d' % (base, j), self.args + [i], w) for j in range(m)]
            for x in row:
                self.emit(w, x)
            out.append(row)
        self.setp(name, out)

    def un_vec(self, name, n):
        t = self.ty(name)
        self.setp(name, [self.any_value(t.to, name) for _ in range(n)])

    def write_only(self):
        self.top.wonly = True

    def len(self, name, maxn, minn=0):
        n = self.src.length('%s.%s.len' % (self.prefix, name), self.args, maxn)
        if n > maxn or n < minn:
            raise Reject()
        return n

    def vec(self, name, n, w, fn=None):
        t = self.ty(name)
        base = '%s.%s[]' % (self.prefix, name)
        out = []
        for i in range(n):
            x = self.src.bits(base, self.args + [i], w)
            self.emit(w, x)
            out.append(x)
        self.setp(name, out)

    def cstr(self, name, term=True):
        n = self.len(name, (1 << 40) - 1)
        base = '%s.%s[]' % (self.prefix, name)
        out = []
        for i in range(n):
            x = self.src.bits(base, self.args + [i], 8) or 1
            self.emit(8, x)
            out.append(x)
        if term:
            self.emit(8, 0)
        self.setp(name, out)
        return n

    def list(self, name, n, cls, ptype, fn):
        out = []
        pt = ptype if isinstance(ptype, list) else BX + ptype
        for i in range(n):
            e = Conc(self.ex, pt, '%s.%s[]' % (self.prefix, name), self.src, self.args + [i], self.top)
            fn(e)
            self.bits.extend(e.bits)
            out.append(e.build(BX + cls))
        self.f[name] = '{%s}' % ', '.join(out)
        if len(out) == 1:
            self.f[name] = 'std::vector<%s>{%s}' % (BX + cls, out[0])

    def sub(self, name, cls, ptype, fn):
        e = Conc(self.ex, BX + ptype, '%s.%s' % (self.prefix, name), self.src, self.args, self.top)
        fn(e)
        self.bits.extend(e.bits)
        self.f[name] = e.build(BX + cls)
        return e

    def build(self, cls):
        if self.ptype is None:
            return '%s()' % cls
        if isinstance(self.ptype, list):
            return '%s(%s)' % (cls, ', '.join(self.f[n] for n, _ in self.ptype))
        return '%s(%s{%s})' % (cls, self.ptype, ', '.join('.%s = %s' % (n, self.f[n]) for n in self.decl if n in self.f))

    def payload(self):
        acc = n = 0
        for w, v in self.bits:
            acc = (acc << w) | v
            n += w
        if n % 8:
            raise Reject('not whole bytes')
        return acc.to_bytes(n // 8, 'big')


def sample(ex, cls, spec, src):
    """(C++ expression, payload, readable) or Reject"""
    ptype, fn = spec
    p = Conc(ex, BX + ptype if ptype else None, cls, src)
    fn(p)
    return p.build(BX + cls), p.payload(), not p.wonly


def samples(ex, cls, spec, n, seed, models=()):
    out = []
    seen = set()

    def tryit(src):
        try:
            s = sample(ex, cls, spec, src)
        except Reject:
            return
        if s[0] not in seen:
            seen.add(s[0])
            out.append(s)
    for m in models:
        for k in range(2):
            tryit(ModelSource(m, seed + k))
    k = 0
    while len(out) < n and k < 40 * n:
        tryit(RandomSource(seed * 7919 + k, big=300 if k % 13 == 12 else 0))
        k += 1
    return out
