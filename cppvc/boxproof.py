"""Obligations about one box class: layout, size, round trip, arbitrary input."""
import z3
from .vals import *
from .streams import *
from .layout import *
from .exec import Exec, UNINIT

HDR = 'm_header'


def method(ex, q, name):
    """the final overrider of a method, by name"""
    seen = [q]
    st = [q]
    while st:
        c = st.pop(0)
        for m in ex.P.records[c]['methods']:
            f = ex.P.functions.get(m)
            if f and f['name'] == name:
                return f
        for b in ex.bases(c):
            if b not in seen:
                seen.append(b)
                st.append(b)
    raise Unsupported('no method %s in %s' % (name, q))


def spec_obj(ex, cls, spec):
    ptype, fn = spec
    p = Sym(ex, BX + ptype if ptype else None, cls)
    fn(p)
    q = BX + cls
    if ptype:
        v = p.build(q)
    else:
        v = ex.construct_default(q)
    return p, v


def default_obj(ex, cls, built):
    """a box of the class as the reader creates it before readData"""
    from .std import make_rec_v
    q = BX + cls
    for m in ex.P.records[q]['ctors']:
        e = ex.P.functions.get(m)
        if e and not e['deleted'] and e['type'].replace(' noexcept', '') == 'void ()':
            return ex.construct_default(q)
    ct = 'shiguredo::mp4::BoxType'
    t = built.f.get('m_type')
    return ex.load(make_rec_v(ex, q, [t], [Ty('rec', name=ct)], None))


def tainted(v):
    """mentions a parameter that has no representation in the file"""
    if not is_sym(v):
        return False
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('unenc!'):
            return True
        st.extend(x.children())
    return False


def same(ex, a, b, path, node=None):
    """obligations: what was encoded in a is found again in b"""
    if isinstance(a, LV):
        a = ex.load(a)
    if isinstance(b, LV):
        b = ex.load(b)
    if a is UNINIT or b is UNINIT or isinstance(a, Opaque) or isinstance(b, Opaque):
        return True            # never read from the file, so not written to it either (see the re-encoding obligation)
    if isinstance(a, RecV) and isinstance(b, RecV):
        r = True
        for n in a.f:
            if n == HDR or n.endswith('::' + HDR):
                continue
            r = same(ex, a.f[n], b.f[n], path + '.' + n) and r
        return r
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        gs = []
        for x, y in zip(a.items, b.items):
            if isinstance(x, (RecV, ArrV, VecV)):
                same(ex, x, y, path)
            elif x is not UNINIT and y is not UNINIT and not tainted(x):
                gs.append(EQ(x, y))
        if gs:
            return ex.prove(AND(*gs), 'restored: ' + path)
        return True
    if isinstance(a, VecV) and isinstance(b, VecV):
        if a.tag and str(a.tag[1]).startswith('unenc!'):
            return True
        if tainted(a.n):
            return True
        if not ex.prove(EQ(a.n, b.n), 'restored: ' + path + '.size()'):
            return False
        if a.items is not None and not a.items:
            return True
        if b.items is not None and not b.items:
            return True
        k = fresh_k()

        def thunk():
            return same(ex, a.get(k), b.get(k), path + '[]')
        ok = True
        for o in ex.explore(thunk, assumptions=[ULT(k, a.n)]):
            ok = ok and bool(o.val)
        return ok
    if isinstance(a, (NullV, PtrV)) or isinstance(b, (NullV, PtrV)):
        return True
    if tainted(a):
        return True
    return ex.prove(EQ(a, b), 'restored: ' + path)


def write(ex, cls, this):
    os_ = ex.new_cell(OutS())
    f = method(ex, BX + cls, 'writeData')
    r = ex.call_entry(f, this, [os_], None)
    return r, ex.load(os_).toks


def o_layout(ex, cls, spec):
    """writeData emits exactly the prescribed bits and returns their number"""
    def run():
        p, v = spec_obj(ex, cls, spec)
        this = ex.new_cell(v)
        r, toks = write(ex, cls, this)
        want = flat(p.toks)
        compare(ex, toks, want, 'encoded payload is the prescribed bit sequence')
        return p
    return run


def o_size(ex, cls, spec):
    def run():
        p, v = spec_obj(ex, cls, spec)
        this = ex.new_cell(v)
        g = method(ex, BX + cls, 'getDataSize')
        sz = ex.call_entry(g, this, [], None)
        want = bits_of(flat(p.toks))
        ex.prove(EQ(mul(sz, 8), want), 'getDataSize() * 8 equals the payload length in bits')
        r, toks = write(ex, cls, this)
        ex.prove(EQ(r, bits_of(toks)), 'writeData() returns the number of bits written')
        ex.prove(EQ(mul(sz, 8), bits_of(toks)), 'getDataSize() * 8 equals the number of bits written')
        return p
    return run


def o_read(ex, cls, spec, deep=True):
    def run():
        p, v = spec_obj(ex, cls, spec)
        if p.wonly:
            raise Infeasible_()
        want = flat(p.toks)
        d = default_obj(ex, cls, v)
        for x in p.state:
            d = d.with_(x, p.state[x])
        this = ex.new_cell(d)
        is_ = ex.new_cell(InS(want))
        f = method(ex, BX + cls, 'readData')
        r = ex.call_entry(f, this, [is_], None)
        ex.prove(EQ(r, bits_of(want)), 'readData() returns the number of payload bits')
        left = ex.load(is_).toks
        ex.prove(EQ(bits_of(left), 0), 'readData() consumes the whole payload')
        back = ex.load(this)
        same(ex, v, back, cls)
        if deep:
            r2, toks = write(ex, cls, this)
            compare(ex, toks, want, 're-encoding the decoded box gives the same bits')
        return p
    return run


SPLIT = {'Tfra': 2}
# what the reader may have told the box before readData()
STATES = {'AudioSampleEntry': ('m_under_wave', True)}


def to_read(ex, cls):
    d = default_obj(ex, cls, ex.sym(Ty('rec', name=BX + cls), cls, []))
    if cls in STATES and ex.choose(2, 'state'):
        d = d.with_(*STATES[cls])
    return ex.new_cell(d)


def o_hostile(ex, cls, spec):
    def run():
        ex.split_width = SPLIT.get(cls)
        q = BX + cls
        this = to_read(ex, cls)
        T = z3.BitVec('total', 64)
        s = z3.BitVec('start', 64)
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
        is_ = ex.new_cell(HostS(s, T))
        f = method(ex, q, 'readData')
        r = ex.call_entry(f, this, [is_], None)
        h = ex.load(is_)
        used = sub(h.pos, mul(s, 8))
        ex.prove(AND(ULE(used, r), ULE(r, mul(sub(T, s), 8))), 'readData() reports at least what it consumed and at most what there is')
        ex.prove(ULE(h.bpos, T), 'readData() stays inside its input')
        return None
    return run


from .exec import Infeasible as Infeasible_
KINDS = {'layout': o_layout, 'size': o_size, 'read': o_read, 'hostile': o_hostile}
