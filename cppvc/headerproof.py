"""C06: box headers, box types, byte order helpers, stream length."""
import z3
from .vals import *
from .streams import *
from .layout import compare
from .std import *
from .exec import CppThrow, Infeasible
from .codecproof import same_lv

NS = 'shiguredo::mp4::'
HT = NS + 'BoxHeader'
BT = NS + 'BoxType'
MAX32 = (1 << 32) - 1
HF = ('m_offset', 'm_size', 'm_header_size', 'm_type', 'm_extend_to_eof')


def fn(P, q, k=None):
    r = sorted([f for f in P.functions.values() if f['qname'] == q and f.get('body') is not None], key=lambda f: f['type'])
    if k is not None:
        r = [f for f in r if len(f['params']) == k]
    if not r:
        raise Unsupported('no function ' + q)
    return r


def btype(nm='t'):
    return RecV(BT, {'m_data': ArrV(U8, [z3.BitVec('%s%d' % (nm, i), 8) for i in range(4)])})


def tval(t):
    """the four characters of a BoxType as one 32-bit term"""
    return cat([(8, x) for x in t.f['m_data'].items])


def shape(ex):
    if set(x[0] for x in ex.all_fields(HT)) != set(HF) or [x[0] for x in ex.all_fields(BT)] != ['m_data']:
        raise Unsupported('fields of BoxHeader / BoxType changed')


def header(ex):
    shape(ex)
    o, s, h = z3.BitVecs('offset size header_size', 64)
    e = z3.Bool('extend_to_eof')
    return o, s, h, e, RecV(HT, {'m_offset': o, 'm_size': s, 'm_header_size': h, 'm_type': btype(), 'm_extend_to_eof': e})


def eqh(ex, r, offset, size, hs, t, eof, what):
    ex.prove(EQ(r.f['m_offset'], offset), what + ': offset')
    ex.prove(EQ(r.f['m_size'], size), what + ': size')
    ex.prove(EQ(r.f['m_header_size'], hs), what + ': header size')
    ex.prove(EQ(tval(r.f['m_type']), tval(t), 32), what + ': type')
    ex.prove(EQ(r.f['m_extend_to_eof'], eof), what + ': end-of-file mark')


def consistent(ex, s, h, e):
    """the form of the header matches its size (what setOffsetAndDataSize, the writers and the reader produce)"""
    ex.assume(z3.Or(h == 8, h == 16))
    ex.assume(z3.UGE(s, h))
    ex.assume(z3.Implies(e, h == 8))
    ex.assume(z3.Or(e, h == 16, z3.ULE(s, MAX32)))


def form(ex, s, h, e):
    """0: to the end of the file, 1: 32-bit size, 2: 64-bit size"""
    if ex.decide(e):
        return 0
    return 1 if ex.decide(z3.And(z3.ULE(s, MAX32), h != 16)) else 2


def want_toks(k, s, t):
    tt = Tok(32, tval(t))
    if k == 0:
        return (Tok(32, 0), tt)
    if k == 1:
        return (Tok(32, z3.Extract(31, 0, s)), tt)
    return (Tok(32, 1), tt, Tok(64, s))


def u_ctor(ex):
    def run():
        o, s, h, e, v = header(ex)
        p = ex.new_cell(RecV(NS + 'BoxHeaderParameters', {'offset': o, 'size': s, 'header_size': h, 'type': v.f['m_type'], 'extend_to_eof': e}))
        lv = ex.new_cell(ex.blank(HT))
        ex.run_ctor(HT, lv, [p], None, 'void (const BoxHeaderParameters &)')
        eqh(ex, ex.load(lv), o, s, h, v.f['m_type'], e, 'BoxHeader()')
    return run


def u_get(ex):
    def run():
        o, s, h, e, v = header(ex)
        this = ex.new_cell(v)
        P = ex.P
        ex.prove(EQ(ex.call_entry(fn(P, HT + '::getOffset')[0], this, [], None), o), 'getOffset()')
        ex.prove(EQ(ex.call_entry(fn(P, HT + '::getSize')[0], this, [], None), s), 'getSize()')
        ex.prove(EQ(ex.call_entry(fn(P, HT + '::getHeaderSize')[0], this, [], None), h), 'getHeaderSize()')
        ex.prove(EQ(ex.call_entry(fn(P, HT + '::getDataSize')[0], this, [], None), s - h), 'getDataSize() is the size without the header')
        ex.prove(EQ(tval(ex.call_entry(fn(P, HT + '::getType')[0], this, [], None)), tval(v.f['m_type']), 32), 'getType()')
        eqh(ex, ex.load(this), o, s, h, v.f['m_type'], e, 'unchanged')
    return run


def u_assign(ex):
    def run():
        o, s, h, e, v = header(ex)
        this = ex.new_cell(v)
        off, d = z3.BitVecs('new_offset data_size', 64)
        ex.assume(ULE(d, M64 - 16))
        ex.call_entry(fn(ex.P, HT + '::setOffsetAndDataSize')[0], this, [off, d], None)
        hs = z3.If(z3.ULE(d, MAX32 - 8), z3.BitVecVal(8, 64), z3.BitVecVal(16, 64))
        eqh(ex, ex.load(this), off, d + hs, hs, v.f['m_type'], e, 'setOffsetAndDataSize()')
    return run


def u_write(ex):
    def run():
        o, s, h, e, v = header(ex)
        ex.assume(z3.Or(h == 8, h == 16))
        ex.assume(ULE(o, M64 >> 1))
        ex.assume(ULE(s, M64 - 16))
        this = ex.new_cell(v)
        os_ = ex.new_cell(OutS())
        r = ex.call_entry(fn(ex.P, HT + '::write')[0], this, [os_], None)
        k = form(ex, s, h, e)
        want = want_toks(k, s, v.f['m_type'])
        st = ex.load(os_)
        ex.prove(len(st.chunks) == 0, 'only the header is written')
        ex.prove(EQ(st.pos, o), 'the header is written at its offset')
        compare(ex, st.toks, want, 'the header is encoded as prescribed')
        n = 16 if k == 2 else 8
        ex.prove(EQ(r, s - h + n), 'write() returns the size of the box')
        eqh(ex, ex.load(this), o, s - h + n, n, v.f['m_type'], e, 'after write()')
    return run


def u_roundtrip(ex):
    def run():
        o, s, h, e, v = header(ex)
        consistent(ex, s, h, e)
        rest = z3.BitVec('rest', 64)
        ex.assume(AND(ULE(o, 1 << 47), ULE(rest, 1 << 47)))
        ex.assume(z3.Implies(e, s - h == rest))
        this = ex.new_cell(v)
        os_ = ex.new_cell(OutS())
        ex.call_entry(fn(ex.P, HT + '::write')[0], this, [os_], None)
        toks = ex.load(os_).toks
        src = ex.sym(Ty('vec', to=U8), 'rest_bytes', [])
        vec = VecV(U8, None, rest, src.fn, src.tag)
        is_ = ex.new_cell(InS(tuple(toks) + vec_toks(ex, vec), mul(o, 8)))
        p = ex.call_entry(fn(ex.P, NS + 'read_box_header')[0], None, [is_], None)
        r = ex.load(p.lv)
        eqh(ex, r, o, s, h, v.f['m_type'], e, 'the header that is read back')
        ex.prove(ULE(add(r.f['m_offset'], r.f['m_header_size']), add(o, add(bytes_of(toks), rest))), 'the header lies inside the stream')
    return run


def u_decode(ex):
    """every content of the first 16 bytes, and every shorter stream"""
    def run():
        n = ex.choose(17, 'available')
        o, rest = z3.BitVecs('offset rest', 64)
        ex.assume(AND(ULE(o, 1 << 47), ULE(rest, 1 << 47)))
        b = [z3.BitVec('b%d' % i, 8) for i in range(n)]
        toks = tuple(Tok(8, x) for x in b)
        if n == 16:
            src = ex.sym(Ty('vec', to=U8), 'rest_bytes', [])
            toks += vec_toks(ex, VecV(U8, None, rest, src.fn, src.tag))
        avail = add(n, rest) if n == 16 else n
        is_ = ex.new_cell(InS(toks, mul(o, 8)))
        s32 = cat([(8, x) for x in b[:4]]) if n >= 4 else None
        try:
            p = ex.call_entry(fn(ex.P, NS + 'read_box_header')[0], None, [is_], None)
        except CppThrow:
            ex.prove(OR(n < 8, AND(n < 16, EQ(s32, 1, 32) if s32 is not None else True)), 'refused only when the header is truncated')
            return
        if n < 8:
            ex.prove(False, 'a truncated header is refused')
            return
        r = ex.load(p.lv)
        t = RecV(BT, {'m_data': ArrV(U8, b[4:8])})
        if ex.decide(s32 == 0):
            eqh(ex, r, o, avail, 8, t, True, 'size 0: to the end of the stream')
        elif ex.decide(s32 == 1):
            if n < 16:
                ex.prove(False, 'a truncated 64-bit header is refused')
                return
            eqh(ex, r, o, cat([(8, x) for x in b[8:16]]), 16, t, False, 'size 1: 64-bit size')
        else:
            eqh(ex, r, o, z3.ZeroExt(32, s32), 8, t, False, '32-bit size')
    return run


def u_host(ex):
    def run():
        T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, 1 << 47)))     # the position may lie beyond the end of the file
        is_ = ex.new_cell(HostS(s, T))
        p = ex.call_entry(fn(ex.P, NS + 'read_box_header')[0], None, [is_], None)
        r = ex.load(p.lv)
        hs = bv(r.f['m_header_size'], 64)
        ex.prove(EQ(r.f['m_offset'], s), 'the header is the one at the current position')
        ex.prove(OR(EQ(hs, 8), EQ(hs, 16)), 'the header has 8 or 16 bytes')
        ex.prove(AND(ULE(s, T), ULE(add(s, hs), T)), 'the header lies inside the stream')
        ex.prove(IMP(r.f['m_extend_to_eof'], AND(EQ(hs, 8), EQ(r.f['m_size'], sub(T, s)))), 'a box to the end of the file ends there')
    return run


def u_seek(q, name, target):
    def make(ex):
        f = fn(ex.P, q + '::' + name)[0]

        def run():
            T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
            ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
            is_ = ex.new_cell(HostS(s, T))
            o, sz, h, e, v = header(ex)
            ex.assume(AND(ULE(o, 1 << 62), ULE(sz, 1 << 62), ULE(h, 16)))
            hdr = ex.new_cell(v)
            if q == HT:
                this = hdr
            else:
                this = ex.new_cell(RecV(NS + 'box::Free', dict(ex.construct_default(NS + 'box::Free').f)))
                ex.store(this.field('m_header'), PtrV(hdr))
            tgt = o + (h if target == 'data' else sz)
            try:
                ex.call_entry(f, this, [is_], None)
            except CppThrow:
                ex.prove(z3.UGT(tgt, T), '%s() fails only for a position outside the stream' % name)
                return
            ex.prove(EQ(ex.load(is_).bpos, tgt), '%s() moves to the %s of the box' % (name, target))
        return run
    return make


def u_endian(ex):
    def run():
        E = NS + 'endian::'
        P = ex.P
        x4 = [z3.BitVec('d%d' % i, 8) for i in range(4)]
        x8 = [z3.BitVec('e%d' % i, 8) for i in range(8)]
        v4, v8 = cat([(8, x) for x in x4]), cat([(8, x) for x in x8])
        arr = lambda xs: ex.new_cell(ArrV(U8, list(xs)))
        ex.prove(EQ(ex.call_entry(fn(P, E + 'be_to_uint32', 4)[0], None, x4, None), v4, 32), 'be_to_uint32(d0..d3)')
        ex.prove(EQ(ex.call_entry(fn(P, E + 'be_to_uint32', 1)[0], None, [arr(x4)], None), v4, 32), 'be_to_uint32(array)')
        ex.prove(EQ(ex.call_entry(fn(P, E + 'be_to_uint64', 8)[0], None, x8, None), v8), 'be_to_uint64(d0..d7)')
        ex.prove(EQ(ex.call_entry(fn(P, E + 'be_to_uint64', 1)[0], None, [arr(x8)], None), v8), 'be_to_uint64(array)')
        a = ex.call_entry(fn(P, E + 'uint32_to_be')[0], None, [v4], None)
        ex.prove(AND(len(a.items) == 4, EQ(cat([(8, x) for x in a.items]), v4, 32)), 'uint32_to_be()')
        a = ex.call_entry(fn(P, E + 'uint64_to_be')[0], None, [v8], None)
        ex.prove(AND(len(a.items) == 8, EQ(cat([(8, x) for x in a.items]), v8)), 'uint64_to_be()')
    return run


def u_boxtype(ex):
    def run():
        shape(ex)
        P = ex.P
        a, b = btype('a'), btype('b')
        la, lb = ex.new_cell(a), ex.new_cell(b)
        ex.prove(EQ(cat([(8, x) for x in ex.call_entry(fn(P, BT + '::getData')[0], la, [], None).items]), tval(a), 32), 'getData()')
        x = [z3.BitVec('x%d' % i, 8) for i in range(4)]
        ex.call_entry(fn(P, BT + '::setData')[0], lb, x, None)
        ex.prove(EQ(tval(ex.load(lb)), cat([(8, v) for v in x]), 32), 'setData()')
        c = ex.new_cell(ex.blank(BT))
        ex.run_ctor(BT, c, [ex.new_cell(ArrV(U8, list(x)))], None, 'void (const std::array<std::uint8_t, 4> &)')
        ex.prove(EQ(tval(ex.load(c)), cat([(8, v) for v in x]), 32), 'BoxType(array)')
        z = lambda t: EQ(tval(t), 0, 32)
        lb = ex.new_cell(b)
        m = ex.call_entry(fn(P, BT + '::matchWith')[0], la, [lb], None)
        ex.prove(EQ(m, OR(z(a), z(b), EQ(tval(a), tval(b), 32))), 'matchWith(): equal types, or one of them is the wildcard')
    return run


def u_boxtype_str(ex):
    def run():
        n = ex.choose(7, 'length')
        cs = [z3.BitVec('c%d' % i, 8) for i in range(n)]
        c = ex.new_cell(ex.blank(BT))
        try:
            ex.run_ctor(BT, c, [ex.new_cell(VecV(I8, list(cs)))], None, 'void (const std::string &)')
        except CppThrow:
            ex.prove(n != 4, 'BoxType(string) refuses only other lengths than 4')
            return
        ex.prove(n == 4, 'BoxType(string) refuses other lengths than 4')
        if n == 4:
            ex.prove(EQ(tval(ex.load(c)), cat([(8, v) for v in cs]), 32), 'BoxType(string) takes the characters in order')
    return run


def u_offset_to_end(ex):
    def run():
        T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, 1 << 47)))
        is_ = ex.new_cell(HostS(s, T))
        r = ex.call_entry(fn(ex.P, NS + 'stream::get_istream_offset_to_end')[0], None, [is_], None)
        ex.prove(EQ(r, sub(T, s)), 'get_istream_offset_to_end() is the distance to the end')
        ex.prove(EQ(ex.load(is_).bpos, s), 'the position is restored')
    return run


def specs(P):
    N = {}
    return [
        ('BoxHeader()', u_ctor, N, False),
        ('BoxHeader getters', u_get, N, False),
        ('BoxHeader::setOffsetAndDataSize', u_assign, N, False),
        ('BoxHeader::write', u_write, N, False),
        ('BoxHeader::write / read_box_header', u_roundtrip, N, False),
        ('read_box_header (any content)', u_decode, N, True),
        ('read_box_header (arbitrary stream)', u_host, N, True),
        ('BoxHeader::seekToData', u_seek(HT, 'seekToData', 'data'), N, True),
        ('BoxHeader::seekToEnd', u_seek(HT, 'seekToEnd', 'end'), N, True),
        ('Box::seekToData', u_seek(NS + 'Box', 'seekToData', 'data'), N, True),
        ('Box::seekToEnd', u_seek(NS + 'Box', 'seekToEnd', 'end'), N, True),
        ('endian', u_endian, N, False),
        ('BoxType', u_boxtype, N, False),
        ('BoxType(string)', u_boxtype_str, N, True),
        ('get_istream_offset_to_end', u_offset_to_end, N, True),
    ]
