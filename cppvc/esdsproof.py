"""Esds and its descriptors (C02-C05, C14).

The descriptors are proved one class at a time (layout, size, round trip, arbitrary input); Esds is proved over any
number of descriptors of any class, each seen through its contract: descriptor k occupies size(k) >= 2 bytes, the
first of which is its tag."""
import z3
from .vals import *
from .streams import *
from .layout import Sym, compare, BX
from .std import *
from .contracts import CODEC, fail, stream_of
from . import exec as X
from .boxproof import method, same
from .codecproof import same_lv, B as BIO

DS = BX + 'Descriptor'
POOL = BX + 'DecSpecificInfo'          # the class that stands for any descriptor in a symbolic sequence
TAGS = {'ESDescriptor': 3, 'DecoderConfigDescriptor': 4, 'DecSpecificInfo': 5, 'SLConfigDescr': 6}
LIM28 = 1 << 28
DPTR = Ty('ptr', to=Ty('rec', name=DS))


# ------------------------------------------------------------------ sub-descriptors, seen through their sizes
def full(k):
    return uf('full!desc', [bv(k, 64)], z3.BitVecSort(32))


def w64(x):
    return conc(z3.ZeroExt(32, bv(x, 32)))


def subsum(n):
    j = fresh_k()
    return SUMS.sum(n, j, add(5, w64(full(j))))


def pool(ex, n, tag):
    ex.ghost['pool'] = c = ex.new_cell(VecV(Ty('rec', name=POOL), None, n, lambda k: RecV(POOL, {'k': bv(k, 64)}), ('src', 'pool')))
    return VecV(DPTR, None, n, lambda k: PtrV(c.index(k)), ('src', tag))


def member(ex, this):
    c = ex.ghost.get('pool')
    return this.path[0][1] if c is not None and this.cell == c.cell and len(this.path) == 1 else None


def c_full(ex, e, this, args, nd):
    k = member(ex, this)
    return full(k) if k is not None else ex.call_entry(e, this, args, nd, nocontract=True)


def c_size(ex, e, this, args, nd):
    k = member(ex, this)
    if k is None:
        return ex.call_entry(e, this, args, nd, nocontract=True)
    return add(5, w64(full(k))) if ex.ghost.get('desc.leaf') else desc_size(k)


class SubSum(object):
    """the running sum of the sizes of the sub-descriptors, in a 32-bit variable"""

    @staticmethod
    def match(ex, locs, nd):
        n = ex.ghost.get('subs')
        i = [l for l in locs if l.kind == 'int' and l.w == 64]
        a = [l for l in locs if l.kind == 'int' and l.w == 32]
        return SubSum(n, i[0], a[0]) if n is not None and len(i) == 1 and len(a) == 1 and len(locs) == 2 else None

    def __init__(self, n, i, a):
        self.n, self.i, self.a = n, i, a

    def inv(self, ex):
        i = self.i.get(ex)
        return AND(ULE(i, self.n), EQ(self.a.get(ex), add(self.a.v0, conc(z3.Extract(31, 0, bv(subsum(i), 64))), 32), 32))

    def entry(self, ex, nd):
        ex.prove(EQ(self.i.get(ex), 0), 'the sum starts with the first sub-descriptor', nd)
        ex.prove(self.inv(ex), 'sum of the sub-descriptors, at entry', nd)

    def assume(self, ex):
        ex.assume(self.inv(ex))
        i = self.i.get(ex)
        ex.assume(EQ(subsum(add(i, 1)), add(subsum(i), add(5, w64(full(i))))))     # the sum, unfolded once

    after = assume

    def preserved(self, ex, nd):
        ex.prove(self.inv(ex), 'sum of the sub-descriptors, preserved', nd)

    def variant(self, ex):
        return sub(self.n, self.i.get(ex))


# ------------------------------------------------------------------ the descriptors
def uvarint(v):
    """four octets of seven bits, all but the last marked"""
    r = []
    for i in (3, 2, 1, 0):
        r += [Tok(1, 1 if i else 0), Tok(7, (v >> 7 * i) & 127 if isinstance(v, int) else conc(z3.Extract(7 * i + 6, 7 * i, v)))]
    return r


class D(object):
    """one descriptor: the object a user builds, its encoding, the size of its own fields and with sub-descriptors"""


def nested(ex, p, d):
    """sub-descriptors: announced by number of bytes, or added"""
    if p.choose(2, 'subs'):
        x = p.s('sub_descriptors_size', 28)
        p.setp('sub_descriptors_size', convert(x, 28, False, 32))
        ex.assume(x != 0)
        d.sub = conc(z3.ZeroExt(36, x))
        return None
    p.fix('sub_descriptors_size', 0)
    n = z3.BitVec('subs', 64)
    ex.assume(ULE(n, 1 << 26))
    d.sub = subsum(n)
    ex.assume(ULE(d.sub, LIM28))
    ex.ghost['subs'] = n
    return n


def describe(ex, cls):
    d = D()
    d.cls = cls
    p = d.p = Sym(ex, BX + {'SLConfigDescr': 'SLConfigDescrParameters'}.get(cls, cls + 'Parameters'), cls)
    n = None
    d.sub = 0
    if cls == 'ESDescriptor':
        n = nested(ex, p, d)
        p.u('ESID', 16)
        f = [p.flag(x) for x in ('stream_dependence_flag', 'url_flag', 'ocr_stream_flag')]
        p.i('stream_priority', 5)
        own = 3
        if p.test(p.eq(f[0], 1)):
            p.u('depends_on_esid', 16)
            own = add(own, 2)
        else:
            p.un('depends_on_esid')
        if p.test(p.eq(f[1], 1)):
            m = p.len('url_string', 255)
            p.put(8, m)
            p.vec('url_string', m, 8)
            own = add(add(own, 1), m)
        else:
            p.un('url_string')
        if p.test(p.eq(f[2], 1)):
            p.u('OCRESID', 16)
            own = add(own, 2)
        else:
            p.un('OCRESID')
    elif cls == 'DecoderConfigDescriptor':
        ex.ghost['desc.leaf'] = True
        n = nested(ex, p, d)
        p.u('object_type_indication', 8)
        p.i('stream_type', 6)
        p.flag('upstream')
        p.flag('reserved')
        p.u('buffer_size_db', 24)
        p.u('max_bitrate', 32)
        p.u('avg_bitrate', 32)
        own = 13
    else:
        m = p.len('data', LIM28 - 1)
        p.vec('data', m, 8)
        own = m
    d.own, d.size = own, add(own, d.sub)
    ex.assume(ULT(d.size, LIM28))
    sz = d.size if isinstance(d.size, int) else conc(z3.Extract(31, 0, d.size))
    d.rest = tuple(uvarint(sz)) + tuple(flat(p.toks))
    d.toks = (Tok(8, TAGS[cls]),) + d.rest
    d.val = p.build(BX + cls)
    if n is not None:
        d.val = d.val.with_('m_sub_descriptors', pool(ex, n, 'm_sub_descriptors'))
    ex.ghost['loopspec'] = [SubSum.match]
    return d


def writer(ex):
    os_ = ex.new_cell(OutS())
    w = ex.new_cell(RecV(BIO + 'Writer', {'m_os': PtrV(os_), 'm_octet': 0, 'm_width': 0}))
    return os_, w


def reader(ex, s):
    is_ = ex.new_cell(s)
    r = ex.new_cell(RecV(BIO + 'Reader', {'m_is': PtrV(is_), 'm_octet': 0, 'm_width': 0}))
    return is_, r


def call(ex, cls, name, this, args=()):
    return ex.call_entry(method(ex, BX + cls, name), this, list(args), None, nocontract=True)


def u_write(cls):
    def make(ex):
        def run():
            d = describe(ex, cls)
            this = ex.new_cell(d.val)
            os_, w = writer(ex)
            r = call(ex, cls, 'writeData', this, [PtrV(w)])
            compare(ex, ex.load(os_).toks, d.toks, 'the descriptor is encoded as prescribed: tag, size of what follows, fields')
            ex.prove(EQ(r, bits_of(d.toks)), 'writeData() returns the number of bits written')
        return run
    return make


def u_size(cls):
    def make(ex):
        def run():
            d = describe(ex, cls)
            this = ex.new_cell(d.val)
            ex.prove(EQ(mul(call(ex, cls, 'getSize', this), 8), bits_of(d.toks)), 'getSize() is the number of bytes of the encoded descriptor')
            ex.prove(EQ(w64(call(ex, cls, 'getDataSize', this)), d.own), 'getDataSize() is the size of the fields')
            ex.prove(EQ(w64(call(ex, cls, 'getDataSizeWithSubDescriptors', this)), d.size), 'getDataSizeWithSubDescriptors() is the size of the fields and the sub-descriptors')
        return run
    return make


def u_add(cls):
    def make(ex):
        def run():
            d = describe(ex, cls)
            this = ex.new_cell(d.val)
            v = d.val.f['m_sub_descriptors']
            x = ex.new_cell(RecV(POOL, {}))
            ex.call_entry(method(ex, BX + cls, 'addSubDescriptor'), this, [ex.new_cell(PtrV(x))], None)
            q = ex.load(this).f['m_sub_descriptors']
            ex.prove(EQ(q.n, add(v.n, 1)), 'addSubDescriptor() adds one')
            y = q.get(v.n)
            ex.prove(isinstance(y, PtrV) and same_lv(y.lv, x), 'addSubDescriptor() adds the descriptor')
        return run
    return make


def u_read(cls):
    def make(ex):
        def run():
            d = describe(ex, cls)
            subs = ex.ghost.get('subs')
            # what follows the descriptor in the stream is not touched
            k = fresh_k()
            tail = (Seg(z3.BitVec('tail', 64), k, (Tok(8, uf('tail!', [k], z3.BitVecSort(8))),)),)
            is_, r = reader(ex, InS(d.rest + tail, pos=8))
            this = ex.new_cell(ex.construct_default(BX + cls))
            ex.ghost['loopspec'] = []
            n = call(ex, cls, 'readData', this, [PtrV(r)])
            ex.ghost['loopspec'] = [SubSum.match]
            ex.prove(EQ(n, bits_of(d.rest)), 'readData() returns the number of bits behind the tag')
            compare(ex, ex.load(is_).toks, tail, 'readData() consumes the descriptor and nothing else')
            back = ex.load(this)
            if subs is None:
                same(ex, d.val, back, cls)
            else:
                a = RecV(d.val.q, {k: v for k, v in d.val.f.items() if k not in ('m_sub_descriptors', 'm_sub_descriptors_size')})
                same(ex, a, RecV(back.q, {k: back.f[k] for k in a.f}), cls)
            if 'm_sub_descriptors_size' in back.f:
                ex.prove(EQ(w64(back.f['m_sub_descriptors_size']), d.sub), 'restored: size of the sub-descriptors')
                ex.prove(EQ(back.f['m_sub_descriptors'].n, 0), 'the sub-descriptors follow as descriptors of their own')
            os_, w = writer(ex)
            call(ex, cls, 'writeData', this, [PtrV(w)])
            compare(ex, ex.load(os_).toks, d.toks, 're-encoding the decoded descriptor gives the same bits')
        return run
    return make


def host(ex):
    T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
    ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
    return T, s


def any_desc(ex, cls):
    """a descriptor in any state (an object that is read into a second time included)"""
    return ex.new_cell(ex.construct_default(BX + cls))


def u_hostile(cls):
    def make(ex):
        def run():
            T, s = host(ex)
            is_, r = reader(ex, HostS(s, T))
            this = any_desc(ex, cls)
            n = call(ex, cls, 'readData', this, [PtrV(r)])
            h = ex.load(is_)
            ex.prove(AND(EQ(n, mul(sub(h.bpos, s), 8)), h.pend == 0), 'readData() reports what it consumed: whole bytes')
            ex.prove(AND(ULT(s, h.bpos), ULE(h.bpos, T)), 'readData() consumes at least one byte and stays inside its input')
        return run
    return make


# ------------------------------------------------------------------ Esds over any descriptors
def dsize(k):
    """bytes of descriptor k: at most 2^28 + 4"""
    return conc(z3.ZeroExt(35, uf('size!desc', [bv(k, 64)], z3.BitVecSort(29))))


desc_size = dsize


def dbytes(k, j):
    return uf('desc!', [bv(k, 64), bv(j, 64)], z3.BitVecSort(8))


def place(i):
    j = fresh_k()
    return SUMS.sum(i, j, dsize(j))


def dtoks(k):
    j = fresh_k()
    return (Seg(dsize(k), j, (Tok(8, dbytes(k, j)),)),)


def c_desc_write(ex, e, this, args, nd):
    k = member(ex, this)
    if k is None:
        raise Unsupported('writeData of an unrelated descriptor')
    s = stream_of(ex, ex.rval(args[0]).lv, 'm_os')
    if not out_write(ex, s, dtoks(k), nd):
        fail(ex, nd)
    return mul(dsize(k), 8)


def esds(ex):
    n = z3.BitVec('descriptors', 64)
    ex.assume(ULE(n, 1 << 16))
    p = Sym(ex, BX + 'EsdsParameters', 'Esds')
    p.setp('descriptors', pool(ex, n, 'descriptors'))
    v = p.build(BX + 'Esds')
    return n, v


def want(v, n):
    k = fresh_k()
    return (Tok(8, v.f['m_version']), Tok(24, flags24(v)), Seg(n, k, dtoks(k)))


def flags24(v):
    bs = v.f['m_flags']
    return bs


WR = dict(CODEC)
WR.update({POOL + '::writeData': c_desc_write, POOL + '::getSize': c_size, POOL + '::getDataSizeWithSubDescriptors': c_full})


def u_esds_write(what):
    def make(ex):
        def run():
            n, v = esds(ex)
            this = ex.new_cell(v)
            k = fresh_k()
            w = (Tok(32, 0), Seg(n, k, dtoks(k)))
            if what == 'size':
                sz = call(ex, 'Esds', 'getDataSize', this)
                ex.prove(EQ(sz, add(4, place(n))), 'getDataSize() is four bytes and the sizes of the descriptors')
                return
            os_ = ex.new_cell(OutS())
            r = call(ex, 'Esds', 'writeData', this, [os_])
            compare(ex, ex.load(os_).toks, w, 'encoded payload: version and flags, then every descriptor in order')
            ex.prove(EQ(r, add(32, mul(place(n), 8))), 'writeData() returns the number of bits written')
        return run
    return make


def fresh_desc(ex, this, vec=None):
    """the class of a descriptor just made by readData()"""
    q = ex.load(this).q
    return q[len(BX):] if q.startswith(BX) else q


def c_host_read(ex, e, this, args, nd):
    """readData() of a descriptor on arbitrary input: contract proved per class"""
    s = stream_of(ex, ex.rval(args[0]).lv, 'm_is')
    h = ex.load(s)
    if io(ex) or ex.choose(2, 'readData'):
        fail(ex, nd)
    m = ex.fresh(U64, 'desc_len')
    ex.assume(AND(ULE(1, m), ULE(m, sub(h.total, h.bpos))))
    ex.store(s, h.repl(bpos=add(h.bpos, m)))
    return mul(m, 8)


HOST = dict(CODEC)
for _c in TAGS:
    HOST[BX + _c + '::readData'] = c_host_read


class Descr(object):
    """the descriptors read so far end where the stream stands"""

    @staticmethod
    def match(ex, locs, nd):
        st = ex.ghost.get('esds')
        h = [l for l in locs if l.kind == 'host']
        i = [l for l in locs if l.kind == 'int']
        v = [l for l in locs if l.kind == 'vec']
        return Descr(st, h[0], i[0], v[0]) if st is not None and (len(h), len(i), len(v), len(locs)) == (1, 1, 1, 3) else None

    def __init__(self, st, h, i, v):
        self.st, self.h, self.i, self.v = st, h, i, v

    def terms(self, ex):
        st = self.st
        h = self.h.get(ex)
        r = [('as many bits are reported as were consumed', EQ(self.i.get(ex), mul(sub(h.bpos, st.s), 8))),
             ('the stream is inside its data', AND(ULE(st.s, h.bpos), ULE(h.bpos, st.T)))]
        if st.own:
            m = self.v.get(ex).n
            r += [('as many descriptors as were passed', AND(ULE(m, st.n), EQ(h.bpos, st.place(m))))]
        return r

    def kinds(self, ex, nd):
        """descriptor k of the result is the one read from descriptor k of the data"""
        st = self.st
        if st.own:
            v = self.v.get(ex)
            k = fresh_k()
            ex.explore(lambda: ex.prove(read_index(ex, v.get(k), k), 'descriptor k is the one read from the k-th place', nd), assumptions=[ULT(k, v.n)])

    def entry(self, ex, nd):
        for w, t in self.terms(ex):
            ex.prove(t, 'descriptors, at entry: ' + w, nd)
        self.kinds(ex, nd)

    def assume(self, ex):
        st = self.st
        if st.own:
            v = self.v.get(ex)
            self.v.set(ex, VecV(DPTR, None, v.n, lambda k: PtrV(st.done.index(k)), ('src', 'read so far')))
        for w, t in self.terms(ex):
            ex.assume(t)
        if st.own:
            st.at(ex, self.v.get(ex).n)

    after = assume

    def preserved(self, ex, nd):
        ex.prove(self.h.get(ex).pend == 0, 'descriptors: the stream is at a byte boundary', nd)
        for w, t in self.terms(ex):
            ex.prove(t, 'descriptors, preserved: ' + w, nd)
        self.kinds(ex, nd)

    def variant(self, ex):
        return sub(self.st.T, self.h.get(ex).bpos)


def read_index(ex, p, k):
    """p points to what was read from place k"""
    if not isinstance(p, PtrV):
        return False
    r = ex.load(p.lv)
    return EQ(r.f['place'], bv(k, 64)) if isinstance(r, RecV) and 'place' in r.f else False


class State(object):
    pass


def u_esds_host(ex):
    def run():
        st = State()
        st.own = False
        st.T, st.s = host(ex)
        ex.ghost['esds'] = st
        ex.ghost['loopspec'] = [Descr.match]
        is_ = ex.new_cell(HostS(st.s, st.T))
        this = ex.new_cell(ex.construct_default(BX + 'Esds'))
        r = call(ex, 'Esds', 'readData', this, [is_])
        h = ex.load(is_)
        used = sub(h.pos, mul(st.s, 8))
        ex.prove(AND(ULE(used, r), ULE(r, mul(sub(st.T, st.s), 8))), 'readData() reports at least what it consumed and at most what there is')
        ex.prove(ULE(h.bpos, st.T), 'readData() stays inside its input')
    return run


# reading back what was written: the data are n descriptors, descriptor k at place(k), of the class its tag says
def dtag(k):
    return uf('tag!desc', [bv(k, 64)], z3.BitVecSort(8))


def c_own_tag(ex, e, this, args, nd):
    st = ex.ghost['esds']
    s = stream_of(ex, ex.rval(args[0]).lv, 'm_is')
    h = ex.load(s)
    i = st.count(ex)
    w = ex.rval(args[2]) if len(args) > 2 else None
    if not ex.prove(AND(EQ(h.bpos, st.place(i)), h.pend == 0, ULT(i, st.n)), 'the tag of the next descriptor is read', nd, 'pre'):
        raise X.Infeasible()
    if w is not None:
        ex.prove(EQ(w, 8), 'the tag has eight bits', nd, 'pre')
    ex.store(s, h.repl(bpos=add(h.bpos, 1)))
    ex.store(ex.deref(ex.rval(args[1]), nd), dtag(i))
    return 8


def c_own_read(ex, e, this, args, nd):
    st = ex.ghost['esds']
    s = stream_of(ex, ex.rval(args[0]).lv, 'm_is')
    h = ex.load(s)
    i = st.count(ex)
    cls = fresh_desc(ex, this)
    if not ex.prove(AND(EQ(dtag(i), TAGS.get(cls, 0), 8), EQ(h.bpos, add(st.place(i), 1)), h.pend == 0), 'the descriptor is read behind its tag, by the class of the tag', nd, 'pre'):
        raise X.Infeasible()
    ex.store(s, h.repl(bpos=st.place(add(i, 1))))
    ex.store(this, RecV(BX + cls, {'place': bv(i, 64)}))
    return mul(sub(dsize(i), 1), 8)


OWN = dict(CODEC)
for _c in TAGS:
    OWN[BX + _c + '::readData'] = c_own_read
OWN[BIO + 'read_int'] = c_own_tag


def u_esds_read(ex):
    def run():
        st = State()
        st.own = True
        st.n = z3.BitVec('descriptors', 64)
        ex.assume(ULE(st.n, 1 << 16))
        st.s = z3.BitVec('start', 64)
        st.place = lambda i: add(add(st.s, 4), place(i))
        st.T = st.place(st.n)
        ex.assume(AND(ULE(st.s, 1 << 46), ULE(place(st.n), 1 << 46), ULE(st.T, 1 << 47)))

        def at(ex, i):
            """descriptor i: its tag, its length; the places ascend"""
            ex.assume(z3.Or(*[dtag(i) == t for t in TAGS.values()]))
            ex.assume(AND(ULE(2, dsize(i)), EQ(place(add(i, 1)), add(place(i), dsize(i)))))
            ex.assume(z3.Implies(zb(ULT(i, st.n)), zb(ULE(add(place(i), dsize(i)), place(st.n)))))
            ex.assume(z3.Implies(zb(EQ(i, st.n)), zb(EQ(place(i), place(st.n)))))
        st.at = at
        st.done = ex.new_cell(VecV(Ty('rec', name=POOL), None, st.n, lambda k: RecV(POOL, {'place': bv(k, 64)}), ('src', 'done')))
        ex.ghost['esds'] = st
        ex.ghost['loopspec'] = [Descr.match]
        is_ = ex.new_cell(HostS(st.s, st.T))
        this = ex.new_cell(ex.construct_default(BX + 'Esds'))
        st.count = lambda ex: ex.load(this.field('m_descriptors')).n
        r = call(ex, 'Esds', 'readData', this, [is_])
        ex.prove(EQ(r, mul(sub(st.T, st.s), 8)), 'readData() reports the whole payload')
        ex.prove(EQ(ex.load(is_).bpos, st.T), 'readData() consumes the whole payload')
        v = ex.load(this.field('m_descriptors'))
        ex.prove(EQ(v.n, st.n), 'every descriptor is found again')
        k = fresh_k()
        ex.explore(lambda: ex.prove(read_index(ex, v.get(k), k), 'descriptor k is the one read from the k-th place'), assumptions=[ULT(k, st.n)])
    return run


def specs(P, what=None):
    L = list(TAGS)
    r = [('layout', c + '::writeData', u_write(c), WR, False) for c in L] + [('layout', 'Esds::writeData', u_esds_write('write'), WR, False)]
    r += [('layout', c + '::addSubDescriptor', u_add(c), WR, False) for c in L[:2]]
    r += [('size', c + ' sizes', u_size(c), WR, False) for c in L] + [('size', 'Esds::getDataSize', u_esds_write('size'), WR, False)]
    r += [('read', c + '::readData', u_read(c), WR, False) for c in L] + [('read', 'Esds::readData', u_esds_read, OWN, False)]
    r += [('hostile', c + '::readData (arbitrary input)', u_hostile(c), WR, True) for c in L] + [('hostile', 'Esds::readData (arbitrary input)', u_esds_host, HOST, True)]
    return [x[1:] for x in r if what is None or x[0] == what]
