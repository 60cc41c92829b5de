"""Types, terms and values of the symbolic C++ executor."""
import re
import z3

M64 = (1 << 64) - 1
FSort = z3.DeclareSort('Float')


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is undecided."""


# ---------------------------------------------------------------- types
class Ty(object):
    __slots__ = ('k', 'w', 's', 'to', 'name', 'n', 'args')

    def __init__(self, k, w=0, s=False, to=None, name=None, n=None, args=()):
        self.k, self.w, self.s, self.to, self.name, self.n, self.args = k, w, s, to, name, n, args

    def __repr__(self):
        if self.k == 'int':
            return '%s%d' % ('i' if self.s else 'u', self.w)
        if self.k in ('ptr', 'ref'):
            return '%r%s' % (self.to, '*' if self.k == 'ptr' else '&')
        if self.k == 'vec':
            return 'vec<%r>' % self.to
        if self.k == 'arr':
            return 'arr<%r,%s>' % (self.to, self.n)
        return self.name or self.k

    def key(self):
        return repr(self)


def tint(w, s):
    return Ty('int', w, s)


U8, U16, U32, U64 = (tint(w, False) for w in (8, 16, 32, 64))
I8, I16, I32, I64 = (tint(w, True) for w in (8, 16, 32, 64))
BOOL = Ty('bool', 8)
VOID = Ty('void')
STR = Ty('str', to=I8)
FLT = Ty('flt', 32, name='float')
DBL = Ty('flt', 64, name='double')

BUILTIN = {
    'char': I8, 'signed char': I8, 'unsigned char': U8, 'short': I16, 'unsigned short': U16, 'int': I32,
    'unsigned int': U32, 'unsigned': U32, 'long': I64, 'unsigned long': U64, 'long long': I64, 'unsigned long long': U64,
    'bool': BOOL, 'void': VOID, 'float': FLT, 'double': DBL, 'long double': Ty('flt', 80, name='long double'),
    'std::uint8_t': U8, 'std::uint16_t': U16, 'std::uint32_t': U32, 'std::uint64_t': U64, 'uint8_t': U8,
    'uint16_t': U16, 'uint32_t': U32, 'uint64_t': U64, 'int8_t': I8, 'int16_t': I16, 'int32_t': I32, 'int64_t': I64,
    'std::int8_t': I8, 'std::int16_t': I16, 'std::int32_t': I32, 'std::int64_t': I64, 'std::size_t': U64, 'size_t': U64,
    'std::streamsize': I64, 'std::streamoff': I64, 'std::ptrdiff_t': I64, 'ptrdiff_t': I64, 'wchar_t': I32, 'char8_t': U8,
    'std::nullptr_t': Ty('null'), 'nullptr_t': Ty('null'), '__uint8_t': U8, '__uint32_t': U32, '__uint64_t': U64,
    'size_type': U64, 'difference_type': I64, 'std::time_t': I64, 'time_t': I64,
}


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tcache = {}


class TypeParser(object):
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def parse(self, s):
        t = self.cache.get(s)
        if t is None:
            t = self._parse(s)
            self.cache[s] = t
        return t

    def _strip(self, s):
        s = s.strip()
        ch = True
        while ch:
            ch = False
            for q in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename '):
                if s.startswith(q):
                    s = s[len(q):].strip()
                    ch = True
            for q in (' const', ' volatile', '*const', '* const'):
                if s.endswith(q):
                    s = (s[:-len(q)] + ('*' if '*' in q else '')).strip()
                    ch = True
        return s

    def _parse(self, s):
        if s is None:
            return Ty('opaque', name='?')
        s0 = s
        s = self._strip(s)
        if s in BUILTIN:
            return BUILTIN[s]
        if s.endswith('&&'):
            return Ty('ref', to=self.parse(s[:-2]))
        if s.endswith('&'):
            return Ty('ref', to=self.parse(s[:-1]))
        if s.endswith('*'):
            return Ty('ptr', to=self.parse(s[:-1]))
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m:
            return Ty('arr', to=self.parse(m.group(1)), n=int(m.group(2)) if m.group(2) else None)
        if s.endswith(')') and '(lambda at' not in s:
            return Ty('fn', name=s)
        if s.startswith('(lambda at'):
            return Ty('lambda', name=s)
        m = re.match(r'^([\w:]+)<(.*)>(::[\w:]+)?$', s)
        if m:
            base, args, tail = m.group(1), split_targs(m.group(2)), m.group(3)
            b = base.replace('__cxx11::', '').replace('std::__1::', 'std::')
            if not tail:
                if b in ('std::vector', 'vector'):
                    return Ty('vec', to=self.parse(args[0]))
                if b in ('std::initializer_list', 'initializer_list'):
                    return Ty('vec', to=self.parse(args[0]), name='il')
                if b in ('std::array', 'array'):
                    n = args[1].rstrip('ULul')
                    return Ty('arr', to=self.parse(args[0]), n=int(n))
                if b in ('std::basic_string', 'basic_string'):
                    return STR
                if b in ('std::shared_ptr', 'std::unique_ptr', 'shared_ptr', 'unique_ptr', 'std::__shared_ptr'):
                    return Ty('ptr', to=self.parse(args[0]), name='smart')
                if b.endswith('__normal_iterator'):
                    return Ty('ptr', to=self.parse(args[0].rstrip().rstrip('*')), name='iter')
                if b in ('std::back_insert_iterator',):
                    return Ty('backins', to=self.parse(args[0]))
                if b in ('std::map', 'map'):
                    return Ty('map', args=tuple(self.parse(a) for a in args[:2]))
                if b in ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_ios', 'std::basic_iostream', 'std::basic_ostringstream', 'std::basic_istringstream'):
                    return Ty('stream', name=b)
                if b == 'std::fpos':
                    return I64
                if b == 'boost::function':
                    return Ty('fnobj', name=s)
            else:
                if tail in ('::size_type', '::difference_type'):
                    return U64 if tail == '::size_type' else I64
                if tail in ('::iterator', '::const_iterator', '::pointer', '::const_pointer') and b in ('std::vector', 'vector', 'std::array', 'array'):
                    return Ty('ptr', to=self.parse(args[0]), name='iter')
                if tail in ('::value_type', '::reference', '::const_reference') and b in ('std::vector', 'std::array', 'vector', 'array'):
                    t = self.parse(args[0])
                    return t if tail == '::value_type' else Ty('ref', to=t)
            return Ty('opaque', name=s)
        if s in ('std::string', 'string', 'std::string_view'):
            return STR
        if s in ('std::ostream', 'std::istream', 'std::stringstream', 'ostream', 'istream', 'stringstream', 'std::ostringstream', 'std::istringstream', 'std::iostream'):
            return Ty('stream', name=s)
        if s in ('std::streampos',):
            return I64
        P = self.prog
        for pre in ('', 'shiguredo::mp4::', 'shiguredo::mp4::box::', 'shiguredo::mp4::track::', 'shiguredo::mp4::writer::', 'shiguredo::mp4::bitio::', 'shiguredo::mp4::reader::'):
            q = pre + s
            if q in P.records:
                return Ty('rec', name=q)
            if q in P.enums:
                u = self.parse(P.enums[q]['underlying'])
                return Ty('int', u.w, u.s, name=None)
            if q in P.aliases and P.aliases[q] != s:
                return self.parse(P.aliases[q])
        c = P.short.get(s.split('::')[-1])
        if c and len(c) == 1 and (c[0].endswith('::' + s)):
            return Ty('rec', name=c[0])
        for q in P.enums:
            if q.endswith('::' + s):
                u = self.parse(P.enums[q]['underlying'])
                return Ty('int', u.w, u.s)
        for q in P.aliases:
            if q.endswith('::' + s) and P.aliases[q] != s:
                return self.parse(P.aliases[q])
        return Ty('opaque', name=s)


# ---------------------------------------------------------------- terms
def is_sym(x):
    return isinstance(x, z3.ExprRef)


def conc(x):
    """simplify; return python int/bool when the term is a literal"""
    if not isinstance(x, z3.ExprRef):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def bv(x, w):
    if isinstance(x, bool):
        return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if x.size() != w:
        raise Unsupported('width mismatch %d %d: %s' % (x.size(), w, x))
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def convert(x, wf, sf, wt):
    """integer conversion from (wf, signed sf) to width wt"""
    if isinstance(x, bool):
        return 1 if x else 0
    if isinstance(x, int):
        if sf:
            x = sgn(x, wf)
        return x & ((1 << wt) - 1)
    if z3.is_bool(x):
        return conc(z3.If(x, z3.BitVecVal(1, wt), z3.BitVecVal(0, wt)))
    if wt == wf:
        return x
    if wt < wf:
        return conc(z3.Extract(wt - 1, 0, x))
    return conc(z3.SignExt(wt - wf, x) if sf else z3.ZeroExt(wt - wf, x))


def NOT(a):
    if isinstance(a, bool):
        return not a
    return conc(z3.Not(a))


def AND(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return conc(z3.And(*r)) if len(r) > 1 else r[0]


def OR(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return conc(z3.Or(*r)) if len(r) > 1 else r[0]


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b, w=64):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return int(a) == int(b)
    if isinstance(a, bool) or (is_sym(a) and z3.is_bool(a)):
        if isinstance(b, int) and not isinstance(b, bool):
            b = bool(b)
        return conc(zb(a) == zb(b))
    if is_sym(a):
        if a.sort() == FSort:
            return conc(a == b)
        w = a.size()
    elif is_sym(b):
        if z3.is_bool(b):
            return conc(zb(bool(a)) == b)
        w = b.size()
    return conc(bv(a, w) == bv(b, w))


def ITE(c, a, b, w=None):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        return conc(z3.If(c, zb(a), zb(b)))
    if is_sym(a) and a.sort() == FSort:
        return z3.If(c, a, b)
    if w is None:
        w = a.size() if is_sym(a) else (b.size() if is_sym(b) else None)
        if w is None:
            raise Unsupported('ITE of untyped constants')
    return conc(z3.If(c, bv(a, w), bv(b, w)))


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return conc(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << w) - 1)
    if isinstance(b, int) and b == 0:
        return a
    return conc(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & ((1 << w) - 1)
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
        return 0
    return conc(bv(a, w) * bv(b, w))


def ULT(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return conc(z3.ULT(bv(a, w), bv(b, w)))


def ULE(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return conc(z3.ULE(bv(a, w), bv(b, w)))


# ---------------------------------------------------------------- values
class Uninit(object):
    __slots__ = ()

    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Opaque(object):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class RecV(object):
    __slots__ = ('q', 'f')

    def __init__(self, q, f):
        self.q = q
        self.f = f

    def with_(self, name, v):
        g = dict(self.f)
        g[name] = v
        return RecV(self.q, g)

    def __repr__(self):
        return '%s%r' % (self.q.split('::')[-1], self.f)


class ArrV(object):
    """std::array / C array with concrete length"""
    __slots__ = ('to', 'items')

    def __init__(self, to, items):
        self.to = to
        self.items = tuple(items)

    def __repr__(self):
        return 'Arr%r' % (self.items,)


class VecV(object):
    """std::vector / std::string: either a concrete tuple of items or (n, fn)"""
    __slots__ = ('to', 'items', 'n', 'fn', 'tag')

    def __init__(self, to, items=None, n=None, fn=None, tag=None):
        self.to = to
        self.items = None if items is None else tuple(items)
        self.n = len(self.items) if items is not None else n
        self.fn = fn
        self.tag = tag

    def get(self, i):
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            if not self.items:
                raise Unsupported('symbolic index into empty vector')
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = vite(EQ(i, j), self.items[j], r, self.to)
            return r
        return self.fn(i)

    def __repr__(self):
        return 'Vec%r' % (self.items,) if self.items is not None else 'Vec(n=%s,%s)' % (self.n, self.tag)


class MapV(object):
    """std::map with concretely enumerable keys: tuple of (key, value)"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)


class LV(object):
    """lvalue: memory cell and path (field names and ('[]', index))"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def field(self, f):
        return LV(self.cell, self.path + (f,))

    def index(self, i):
        return LV(self.cell, self.path + (('[]', i),))

    def same(self, o):
        if not isinstance(o, LV) or self.cell != o.cell or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if isinstance(a, tuple):
                if a[1] is not b[1] and not (isinstance(a[1], int) and isinstance(b[1], int) and a[1] == b[1]) and not (is_sym(a[1]) and is_sym(b[1]) and a[1].eq(b[1])):
                    return False
            elif a != b:
                return False
        return True

    def __repr__(self):
        return 'LV(%s%s)' % (self.cell, ''.join('.%s' % (p,) for p in self.path))


class PtrV(object):
    """pointer: to an object (idx None) or into a container lvalue at idx"""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx=None):
        self.lv = lv
        self.idx = idx

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.lv, self.idx)


class NullV(object):
    def __repr__(self):
        return 'NULL'


NULL = NullV()


class LamV(object):
    __slots__ = ('node', 'env', 'this', 'frame')

    def __init__(self, node, env, this):
        self.node = node
        self.env = env
        self.this = this


class FnV(object):
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class BackIns(object):
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


FIELD_TY = [None]   # set by the executor: (record, field) -> Ty


def vite(c, a, b, ty=None):
    """value-level if-then-else"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, RecV) and isinstance(b, RecV) and a.q == b.q:
        return RecV(a.q, {k: vite(c, a.f[k], b.f[k], FIELD_TY[0](a.q, k) if FIELD_TY[0] else None) for k in a.f})
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.items) == len(b.items):
        return ArrV(a.to, [vite(c, x, y, a.to) for x, y in zip(a.items, b.items)])
    if isinstance(a, VecV) and isinstance(b, VecV):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return VecV(a.to, [vite(c, x, y, a.to) for x, y in zip(a.items, b.items)])
        n = ITE(c, bv(a.n, 64), bv(b.n, 64))

        def fn(i, a=a, b=b, c=c):
            if a.items is not None and not a.items:
                return b.get(i)
            if b.items is not None and not b.items:
                return a.get(i)
            return vite(c, a.get(i), b.get(i), a.to)
        return VecV(a.to, None, n, fn)
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if isinstance(a, (PtrV, NullV)) or isinstance(b, (PtrV, NullV)):
        if a is NULL and b is NULL:
            return a
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv.same(b.lv):
            if a.idx is None and b.idx is None:
                return a
            return PtrV(a.lv, ITE(c, a.idx, b.idx, 64))
        raise Unsupported('merge of distinct pointers')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('merged')
    w = ty.w if ty is not None and ty.k == 'int' else None
    if w is None and isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        raise Unsupported('ite of constants without type')
    return ITE(c, a, b, w)


def vsubst(v, m):
    """substitute z3 constants inside a value; m: list of (from, to)"""
    if isinstance(v, z3.ExprRef):
        return conc(z3.substitute(v, *m))
    if isinstance(v, RecV):
        return RecV(v.q, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV(v.to, [vsubst(x, m) for x in v.items])
    if isinstance(v, VecV):
        if v.items is not None:
            return VecV(v.to, [vsubst(x, m) for x in v.items])
        f = v.fn
        if not any(True for _ in m):
            return v
        # index terms handed to fn may themselves mention the substituted constants: rename apart
        def fn(i, f=f, m=m):
            j = z3.FreshConst(z3.BitVecSort(64), 'sub')
            r = vsubst(f(j), m)
            return vsubst(r, [(j, bv(i, 64))])
        return VecV(v.to, None, vsubst(v.n, m), fn, v.tag)
    if isinstance(v, PtrV):
        return PtrV(LV(v.lv.cell, tuple((p[0], vsubst(p[1], m)) if isinstance(p, tuple) else p for p in v.lv.path)),
                    vsubst(v.idx, m) if v.idx is not None else None)
    if hasattr(v, 'vsub'):
        return v.vsub(m)
    return v


def free_consts(e, pred, acc=None, seen=None):
    """uninterpreted 0-ary constants of a z3 term satisfying pred(name)"""
    if acc is None:
        acc = {}
        seen = set()
    if not isinstance(e, z3.ExprRef):
        return acc
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if pred(nm):
                acc[nm] = x
        else:
            st.extend(x.children())
    return acc


def consts_of_value(v, pred, acc=None):
    if acc is None:
        acc = {}
    if isinstance(v, z3.ExprRef):
        free_consts(v, pred, acc, set())
    elif isinstance(v, RecV):
        for x in v.f.values():
            consts_of_value(x, pred, acc)
    elif isinstance(v, (ArrV,)):
        for x in v.items:
            consts_of_value(x, pred, acc)
    elif isinstance(v, VecV):
        consts_of_value(v.n, pred, acc)
        if v.items is not None:
            for x in v.items:
                consts_of_value(x, pred, acc)
        else:
            j = z3.FreshConst(z3.BitVecSort(64), 'probe')
            consts_of_value(v.fn(j), pred, acc)
    return acc


_ufs = {}


def uf(name, args, rng):
    """application of a named uninterpreted function to 64-bit index arguments"""
    if not args:
        return z3.Const(name, rng)
    key = (name, len(args), str(rng))
    f = _ufs.get(key)
    if f is None:
        f = z3.Function(name, *([z3.BitVecSort(64)] * len(args) + [rng]))
        _ufs[key] = f
    return f(*[bv(a, 64) for a in args])
