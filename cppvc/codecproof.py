"""Layer 1: the bodies of bitio::Writer, bitio::Reader and of the codec helpers against the contracts of contracts.py.

Abstraction: a writer over a byte stream stands for the bit string  bits(bytes written) ++ the top `m_width` bits of
`m_octet`; a reader stands for  the low `m_width` bits of `m_octet` ++ bits(bytes still to be read)."""
import z3
from .vals import *
from .streams import *
from .layout import compare
from .std import *
from .contracts import CODEC, B
from .exec import Exec, UNINIT, CppThrow

WT = B + 'Writer'
RT = B + 'Reader'


def fns(P, name):
    q = B + name
    return sorted([f for f in P.functions.values() if f['qname'] == q and (f.get('body') is not None)], key=lambda f: f['type'])


def need(P, name):
    r = fns(P, name)
    if not r:
        raise Unsupported('no function ' + name)
    return r


def bits(v, hi, lo):
    return conc(z3.Extract(hi, lo, v))


def raw_writer(ex):
    """a Writer in any state that satisfies the class invariant"""
    os_ = ex.new_cell(OutS((Base('before'),)))
    w, o = z3.BitVec('m_width', 64), z3.BitVec('m_octet', 8)
    ex.assume(z3.ULT(w, 8))
    ex.assume((o & z3.LShR(z3.BitVecVal(0xff, 8), z3.Extract(7, 0, w))) == 0)
    f = {'m_os': PtrV(os_), 'm_octet': o, 'm_width': w}
    return os_, w, o, ex.new_cell(RecV(WT, f))


def shape(ex, q, f):
    have = [x[0] for x in ex.all_fields(q)]
    if set(have) != set(f):
        raise Unsupported('%s: fields %s' % (q, have))


def u_writeBit(ex):
    f = need(ex.P, 'Writer::writeBit')[0]

    def run():
        os_, w, o, this = raw_writer(ex)
        shape(ex, WT, ('m_os', 'm_octet', 'm_width'))
        b = z3.Bool('bit')
        ex.call_entry(f, this, [b], None)
        r = ex.load(this)
        s = ex.load(os_)
        w2, o2 = bv(r.f['m_width'], 64), bv(r.f['m_octet'], 8)
        ex.prove(z3.ULT(w2, 8), 'invariant: fewer than 8 bits are pending')
        ex.prove((o2 & z3.LShR(z3.BitVecVal(0xff, 8), z3.Extract(7, 0, w2))) == 0, 'invariant: unused bits of the pending octet are 0')
        b1 = z3.If(b, z3.BitVecVal(1, 16), z3.BitVecVal(0, 16))
        pend = lambda oo, ww: z3.LShR(z3.ZeroExt(8, oo), z3.ZeroExt(8, z3.Extract(7, 0, 8 - ww)))
        new = (pend(o, w) << 1) | b1
        t = s.toks
        if len(t) == 1:
            ex.prove(AND(w2 == w + 1, pend(o2, w2) == new), 'exactly the given bit is appended')
        elif len(t) == 2 and isinstance(t[1], Tok) and t[1].w == 8:
            ex.prove(AND(w == 7, w2 == 0, z3.ZeroExt(8, bv(t[1].v, 8)) == new), 'a complete octet is flushed, nothing else')
        else:
            ex.prove(False, 'at most one octet is written')
    return run


def u_ctor_writer(ex):
    def run():
        os_ = ex.new_cell(OutS())
        lv = ex.new_cell(ex.blank(WT))
        ex.run_ctor(WT, lv, [os_], None, 'void (std::ostream &)')
        r = ex.load(lv)
        m = r.f['m_os']
        if (m.lv if isinstance(m, PtrV) else m) != os_ and not same_lv(m.lv if isinstance(m, PtrV) else m, os_):
            ex.prove(False, 'the writer refers to its stream')
        ex.prove(AND(EQ(r.f['m_width'], 0), EQ(r.f['m_octet'], 0, 8)), 'no bits are pending')
        ex.prove(len(ex.load(os_).toks) == 0, 'nothing is written')
    return run


def same_lv(a, b):
    return a.cell == b.cell and a.path == b.path


def u_ctor_reader(ex):
    def run():
        is_ = ex.new_cell(InS((Tok(8, z3.BitVec('b0', 8)),)))
        lv = ex.new_cell(ex.blank(RT))
        ex.run_ctor(RT, lv, [is_], None, 'void (std::istream &)')
        r = ex.load(lv)
        m = r.f['m_is']
        ex.prove(same_lv(m.lv if isinstance(m, PtrV) else m, is_), 'the reader refers to its stream')
        ex.prove(EQ(r.f['m_width'], 0, 8), 'no bits are pending')
        ex.prove(EQ(ex.load(is_).pos, 0), 'nothing is read')
    return run


def writer(ex, base=True):
    """a Writer seen through its contracts"""
    os_ = ex.new_cell(OutS((Base('before'),) if base else ()))
    return os_, ex.new_cell(RecV(WT, {'m_os': PtrV(os_), 'm_octet': 0, 'm_width': 0}))


def emitted(ex, os_):
    t = ex.load(os_).toks
    if not t or not isinstance(t[0], Base):
        raise Unsupported('output was replaced')
    return t[1:]


def u_writeBits(ex):
    """data of m octets, 0 <= width <= 8m: the low `width` bits are appended"""
    f = need(ex.P, 'Writer::writeBits')[0]

    def run():
        m = ex.choose(8, 'm') + 1
        n = ex.choose(8 * m + 1, 'n')
        os_, this = writer(ex)
        d = [z3.BitVec('d%d' % i, 8) for i in range(m)]
        v = ex.new_cell(VecV(U8, list(d)))
        ex.call_entry(f, this, [v, n], None)
        want = (Tok(n, low_bits(cat([(8, x) for x in d]), 8 * m, n)),) if n else ()
        compare(ex, emitted(ex, os_), want, 'writeBits() appends the low `width` bits of the data')
    return run


def u_writeBits_any(ex):
    """any number of octets"""
    f = need(ex.P, 'Writer::writeBits')[0]

    def run():
        os_, this = writer(ex)
        m, n = z3.BitVec('m', 64), z3.BitVec('width', 64)
        ex.assume(AND(ULE(m, 1 << 56), ULE(n, 8 * m)))
        vec = ex.sym(Ty('vec', to=U8), 'data', [])
        v = ex.new_cell(VecV(U8, None, m, vec.fn, vec.tag))
        vv = ex.load(v)
        ex.call_entry(f, this, [v, n], None)
        k = fresh_k()
        i = sub(mul(m, 8), n) + k
        byte = bv(vv.get(z3.LShR(i, 3)), 8)
        sh = z3.Extract(7, 0, 7 - (i & 7))
        want = (Seg(n, k, (Tok(1, z3.Extract(0, 0, z3.LShR(byte, sh))),)),)
        compare(ex, emitted(ex, os_), want, 'writeBits() appends the low `width` bits of the data')
    return run


def u_Writer_write(ex):
    f = need(ex.P, 'Writer::write')[0]

    def run():
        os_, w, o, this = raw_writer(ex)
        v = ex.new_cell(ex.sym(Ty('vec', to=U8), 'data', []))
        vec = ex.load(v)
        r0 = ex.load(this)
        try:
            r = ex.call_entry(f, this, [v], None)
        except CppThrow:
            ex.prove(w != 0, 'whole octets are refused only while bits are pending')
            ex.prove(len(emitted(ex, os_)) == 0, 'nothing is written when refused')
            return
        ex.prove(w == 0, 'whole octets are refused while bits are pending')
        ex.prove(EQ(r, vec.n), 'the number of octets is returned')
        compare(ex, emitted(ex, os_), vec_toks(ex, vec), 'exactly the given octets are appended')
        r1 = ex.load(this)
        ex.prove(AND(EQ(r1.f['m_width'], r0.f['m_width']), EQ(r1.f['m_octet'], r0.f['m_octet'], 8)), 'pending bits are unchanged')
    return run


def pt(ex, f, i):
    t = ex.T(f['params'][i].ty)
    while t.k in ('ref', 'ptr'):
        t = t.to
    return t


def u_write_num(name, f):
    def make(ex):
        def run():
            T = pt(ex, f, 1)
            sg = name == 'write_int'
            n = ex.choose(T.w + (0 if sg else 1), 'size') + (1 if sg else 0)
            os_, this = writer(ex)
            v = z3.BitVec('val', T.w)
            r = ex.call_entry(f, None, [PtrV(this), v, n], None)
            ex.prove(EQ(r, n), '%s() returns the number of bits' % name)
            if sg:
                want = [Tok(1, bits(v, T.w - 1, T.w - 1))] + ([Tok(n - 1, bits(v, n - 2, 0))] if n > 1 else [])
            else:
                want = [Tok(n, bits(v, n - 1, 0))] if n else []
            compare(ex, emitted(ex, os_), tuple(want), '%s() appends the value MSB first in `size` bits' % name)
        return run
    return make


def raw_reader(ex):
    w, o, b = z3.BitVec('m_width', 8), z3.BitVec('m_octet', 8), z3.BitVec('next', 8)
    ex.assume(z3.ULT(w, 8))
    is_ = ex.new_cell(InS((Tok(8, b), Tok(8, z3.BitVec('next2', 8)))))
    return is_, w, o, b, ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': o, 'm_width': w}))


def u_readBit(ex):
    f = need(ex.P, 'Reader::readBit')[0]

    def run():
        shape(ex, RT, ('m_is', 'm_octet', 'm_width'))
        is_, w, o, b, this = raw_reader(ex)
        eof = ex.choose(2, 'eof')
        if eof:
            ex.store(is_, InS(()))
        try:
            r = ex.call_entry(f, this, [], None)
        except CppThrow:
            ex.prove(AND(w == 0, bool(eof)), 'throws only when no bit is left')
            return
        if eof:
            ex.prove(w != 0, 'throws when no bit is left')
        q = ex.load(this)
        w2, o2 = bv(q.f['m_width'], 8), bv(q.f['m_octet'], 8)
        left = len(ex.load(is_).toks)
        ex.prove(z3.ULT(w2, 8), 'invariant: fewer than 8 bits are pending')
        bit = z3.If(zb(r), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        low = lambda x, k: x & ~(z3.BitVecVal(0xff, 8) << k)
        if left == (0 if eof else 2):
            ex.prove(AND(z3.UGT(w, 0), w2 == w - 1, low(o2, w2) == low(o, w2), bit == (z3.LShR(o, w - 1) & 1)), 'the first pending bit is delivered')
        elif left == 1:
            ex.prove(AND(w == 0, w2 == 7, low(o2, w2) == low(b, w2), bit == z3.LShR(b, 7)), 'the first bit of the next octet is delivered')
        else:
            ex.prove(False, 'at most one octet is consumed')
    return run


def reader(ex, toks):
    is_ = ex.new_cell(InS(tuple(toks)))
    return is_, ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': 0, 'm_width': 0}))


def host_reader(ex):
    T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
    ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
    is_ = ex.new_cell(HostS(s, T))
    return is_, s, T, ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': 0, 'm_width': 0}))


TAIL = (Tok(8, z3.BitVec('tail', 8)),)


def u_readBits(ex):
    f = need(ex.P, 'Reader::readBits')[0]

    def run():
        ex.merge_ifs = True
        n = ex.choose(65, 'n')
        x = z3.BitVec('x', max(n, 1))
        is_, this = reader(ex, ((Tok(n, x),) if n else ()) + TAIL)
        d = ex.new_cell(VecV(U8, [z3.BitVec('old', 8)]))
        ex.call_entry(f, this, [PtrV(d), n], None)
        v = ex.load(d)
        m = (n + 7) // 8
        ex.prove(EQ(v.n, m), 'ceil(size / 8) octets')
        if m:
            ex.prove(cat([(8, v.get(i)) for i in range(m)]) == bv(convert(x, n, False, 8 * m), 8 * m), 'the bits, right aligned, MSB first')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly `size` bits are consumed')
    return run


def u_readBits_host(pend):
    """arbitrary input with `pend` bits pending: exactly `size` bits are consumed, or the stream ends first and it throws"""
    def make(ex):
        f = need(ex.P, 'Reader::readBits')[0]

        def run():
            ex.merge_ifs = True
            n = ex.choose(64, 'n') + 1
            T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
            ex.assume(AND(ULE(T, 1 << 47), ULE(s, T), ULE(1 if pend else 0, s)))
            is_ = ex.new_cell(HostS(s, T, False, pend))
            this = ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': 0, 'm_width': 0}))
            d = ex.new_cell(VecV(U8, []))
            have = add(mul(sub(T, s), 8), pend)
            try:
                ex.call_entry(f, this, [PtrV(d), n], None)
            except CppThrow:
                ex.prove(ULT(have, n), 'throws only when the stream ends first')
                return
            h = ex.load(is_)
            ex.prove(AND(ULE(n, have), EQ(h.pos, add(sub(mul(s, 8), pend), n)), h.pend < 8, ULE(h.bpos, T)), 'exactly `size` bits are consumed')
        return run
    return make


def u_read_num(name, f):
    def make(ex):
        def run():
            T = pt(ex, f, 1)
            n = ex.choose(65, 'size')
            x = z3.BitVec('x', max(n, 1))
            is_, this = reader(ex, ((Tok(n, x),) if n else ()) + TAIL)
            d = ex.new_cell(z3.BitVec('old', T.w), T)
            try:
                r = ex.call_entry(f, None, [PtrV(this), PtrV(d), n], None)
            except CppThrow:
                ex.prove(n == 0, '%s() throws only for size 0' % name)
                return
            ex.prove(AND(n != 0, EQ(r, n)), '%s() returns the number of bits' % name)
            ex.prove(EQ(ex.load(d), convert(x, n, name == 'read_int', T.w), T.w), '%s() delivers the value of the `size` bits' % name)
            compare(ex, ex.load(is_).toks, TAIL, 'exactly `size` bits are consumed')
        return run
    return make


def u_Reader_read(ex):
    f = need(ex.P, 'Reader::read')[0]

    def run():
        w = z3.BitVec('m_width', 8)
        ex.assume(z3.ULT(w, 8))
        src = ex.sym(Ty('vec', to=U8), 'content', [])
        short = ex.choose(2, 'short')
        is_ = ex.new_cell(InS(vec_toks(ex, src) + (() if short else TAIL)))
        this = ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': z3.BitVec('o', 8), 'm_width': w}))
        m = add(src.n, 1) if short else src.n
        old = ex.sym(Ty('vec', to=U8), 'old', [])
        ex.assume(ULE(src.n, 1 << 47))
        d = ex.new_cell(VecV(U8, None, m, old.fn, old.tag))
        try:
            r = ex.call_entry(f, this, [PtrV(d)], None)
        except CppThrow:
            ex.prove(OR(w != 0, bool(short)), 'refused only while bits are pending, or when the stream ends first')
            return
        ex.prove(AND(w == 0, not short), 'refused while bits are pending, or when the stream ends first')
        ex.prove(EQ(r, src.n), 'the number of octets is returned')
        v = ex.load(d)
        ex.prove(EQ(v.n, src.n), 'the vector keeps its size')
        k = fresh_k()

        def thunk():
            return ex.prove(EQ(v.get(k), src.get(k), 8), 'every octet is delivered in order')
        ex.explore(thunk, assumptions=[ULT(k, src.n)])
        compare(ex, ex.load(is_).toks, TAIL, 'exactly the octets are consumed')
        ex.prove(EQ(ex.load(this).f['m_width'], w, 8), 'no bits become pending')
    return run


def cstr(ex, name, nonzero=True):
    """a symbolic string of char"""
    s = ex.sym(ex.T('std::string'), name, [])
    return s


def str_toks(ex, s):
    k = fresh_k()
    return (Seg(s.n, k, (Tok(8, s.get(k)),)),)


def fact_nonzero(ex, s):
    q = z3.BitVec('q!' + ex.fresh_name('nz'), 64)
    ex.assume(z3.ForAll([q], z3.Implies(ULT(q, bv(s.n, 64)), zb(NOT(EQ(s.get(q), 0, 8))))))


def u_write_string(ex):
    f = need(ex.P, 'write_string')[0]

    def run():
        os_, this = writer(ex)
        s = cstr(ex, 'str')
        ex.assume(ULE(s.n, 1 << 47))
        r = ex.call_entry(f, None, [PtrV(this), ex.new_cell(s)], None)
        want = str_toks(ex, s) + (Tok(8, 0),)
        ex.prove(EQ(r, bits_of(want)), 'write_string() returns the number of bits')
        compare(ex, emitted(ex, os_), want, 'write_string() appends the characters and a terminator')
    return run


def u_write_pascal(ex):
    f = need(ex.P, 'write_pascal_string')[0]

    def run():
        os_, this = writer(ex)
        s = cstr(ex, 'str')
        try:
            r = ex.call_entry(f, None, [PtrV(this), ex.new_cell(s)], None)
        except CppThrow:
            ex.prove(z3.UGT(bv(s.n, 64), 255), 'refused only when the length does not fit')
            ex.prove(len(emitted(ex, os_)) == 0, 'nothing is written when refused')
            return
        ex.prove(ULE(s.n, 255), 'refused when the length does not fit')
        want = (Tok(8, low_bits(bv(s.n, 64), 64, 8)),) + str_toks(ex, s)
        ex.prove(EQ(r, bits_of(want)), 'write_pascal_string() returns the number of bits')
        compare(ex, emitted(ex, os_), want, 'write_pascal_string() appends the length and the characters')
    return run


def u_write_bool(ex):
    f = need(ex.P, 'write_bool')[0]

    def run():
        os_, this = writer(ex)
        b = z3.Bool('b')
        r = ex.call_entry(f, None, [PtrV(this), b], None)
        ex.prove(EQ(r, 1), 'write_bool() returns 1')
        compare(ex, emitted(ex, os_), (Tok(1, z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))),), 'write_bool() appends one bit')
    return run


def u_read_bool(ex):
    f = need(ex.P, 'read_bool')[0]

    def run():
        x = z3.BitVec('x', 1)
        is_, this = reader(ex, (Tok(1, x),) + TAIL)
        d = ex.new_cell(z3.Bool('old'), Ty('bool'))
        r = ex.call_entry(f, None, [PtrV(this), PtrV(d)], None)
        ex.prove(EQ(r, 1), 'read_bool() returns 1')
        ex.prove(zb(ex.load(d)) == (x == 1), 'read_bool() delivers the bit')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly one bit is consumed')
    return run


def u_array4(ex):
    fw, fr = need(ex.P, 'write_array_uint8_4')[0], need(ex.P, 'read_array_uint8_4')[0]

    def run():
        os_, this = writer(ex)
        d = [z3.BitVec('d%d' % i, 8) for i in range(4)]
        r = ex.call_entry(fw, None, [PtrV(this), ex.new_cell(ArrV(U8, list(d)))], None)
        want = tuple(Tok(8, x) for x in d)
        ex.prove(EQ(r, 32), 'write_array_uint8_4() returns 32')
        compare(ex, emitted(ex, os_), want, 'write_array_uint8_4() appends the octets in order')
        is_, rd = reader(ex, want + TAIL)
        a = ex.new_cell(ArrV(U8, [0] * 4))
        r = ex.call_entry(fr, None, [PtrV(rd), PtrV(a)], None)
        ex.prove(EQ(r, 32), 'read_array_uint8_4() returns 32')
        ex.prove(AND(*[EQ(x, y, 8) for x, y in zip(ex.load(a).items, d)]), 'read_array_uint8_4() delivers the octets in order')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly 32 bits are consumed')
    return run


def u_vector(fw, fr):
    def make(ex):
        def run():
            T = pt(ex, fw, 1).to
            os_, this = writer(ex)
            v = ex.sym(Ty('vec', to=T), 'v', [])
            ex.assume(ULE(v.n, (1 << 47) // (T.w // 8)))
            r = ex.call_entry(fw, None, [PtrV(this), ex.new_cell(v)], None)
            k = fresh_k()
            want = (Seg(v.n, k, (Tok(T.w, v.get(k)),)),)
            ex.prove(EQ(r, bits_of(want)), 'write_vector_uint() returns the number of bits')
            compare(ex, emitted(ex, os_), want, 'write_vector_uint() appends every element')
            is_, rd = reader(ex, want + TAIL)
            d = ex.new_cell(VecV(T, []))
            r = ex.call_entry(fr, None, [PtrV(rd), v.n, PtrV(d)], None)
            ex.prove(EQ(r, bits_of(want)), 'read_vector_uint() returns the number of bits')
            b = ex.load(d)
            ex.prove(EQ(b.n, v.n), 'read_vector_uint() delivers `size` elements')
            q = fresh_k()

            def thunk():
                return ex.prove(EQ(b.get(q), v.get(q), T.w), 'read_vector_uint() delivers the elements in order')
            ex.explore(thunk, assumptions=[ULT(q, v.n)])
            compare(ex, ex.load(is_).toks, TAIL, 'exactly the elements are consumed')
        return run
    return make


def u_read_string(ex):
    """terminated within the limit, or filling it"""
    f = need(ex.P, 'read_string')[0]

    def run():
        s = cstr(ex, 'str')
        mx = z3.BitVec('max_rbits', 64)
        ex.assume(ULE(s.n, 1 << 44))
        fact_nonzero(ex, s)
        full = ex.choose(2, 'full')
        ex.assume(ULE(mx, 1 << 50))
        if full:
            ex.assume(EQ(mx, mul(s.n, 8)))
            want = str_toks(ex, s)
        else:
            ex.assume(ULT(mul(s.n, 8), mx))
            want = str_toks(ex, s) + (Tok(8, 0),)
        is_, rd = reader(ex, want + TAIL)
        d = ex.new_cell(cstr(ex, 'old'))
        r = ex.call_entry(f, None, [PtrV(rd), PtrV(d), mx], None)
        ex.prove(EQ(r, bits_of(want)), 'read_string() returns the number of bits')
        compare_str(ex, ex.load(d), s, 'read_string()')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly the string is consumed')
    return run


def compare_str(ex, b, s, what):
    ex.prove(EQ(b.n, s.n), what + ' delivers the whole string')
    q = fresh_k()

    def thunk():
        return ex.prove(EQ(b.get(q), s.get(q), 8), what + ' delivers the characters in order')
    ex.explore(thunk, assumptions=[ULT(q, s.n)])


def u_read_pascal(ex):
    f = need(ex.P, 'read_pascal_string')[0]

    def run():
        s = cstr(ex, 'str')
        ex.assume(AND(ULE(1, s.n), ULE(s.n, 255)))
        want = (Tok(8, low_bits(bv(s.n, 64), 64, 8)),) + str_toks(ex, s)
        is_, rd = reader(ex, want + TAIL)
        d = ex.new_cell(cstr(ex, 'old'))
        r = ex.call_entry(f, None, [PtrV(rd), PtrV(d), bits_of(want)], None)
        ex.prove(EQ(r, bits_of(want)), 'read_pascal_string() returns the number of bits')
        compare_str(ex, ex.load(d), s, 'read_pascal_string()')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly the string is consumed')
    return run


def u_uvarint(ex):
    fw, fr, fz = need(ex.P, 'write_uvarint')[0], need(ex.P, 'read_uvarint')[0], need(ex.P, 'uvarint_size')[0]

    def run():
        v = z3.BitVec('v', 32)
        ex.assume(z3.ULT(v, 1 << 28))
        os_, this = writer(ex)
        r = ex.call_entry(fw, None, [PtrV(this), v], None)
        sz = ex.call_entry(fz, None, [v], None)
        ex.prove(AND(EQ(r, 32), EQ(sz, 4)), 'write_uvarint() reports 32 bits, uvarint_size() 4 octets')
        want = []
        for i in (3, 2, 1, 0):
            want += [Tok(1, 1 if i else 0), Tok(7, bits(v, 7 * i + 6, 7 * i))]
        compare(ex, emitted(ex, os_), tuple(want), 'write_uvarint() appends 7 bits per octet, the first bit set on all but the last')
        is_, rd = reader(ex, tuple(want) + TAIL)
        d = ex.new_cell(z3.BitVec('old', 32), tint(32, False))
        r = ex.call_entry(fr, None, [PtrV(rd), PtrV(d)], None)
        ex.prove(EQ(r, 32), 'read_uvarint() reports 32 bits')
        ex.prove(EQ(ex.load(d), v, 32), 'read_uvarint() delivers the value')
        compare(ex, ex.load(is_).toks, TAIL, 'exactly the value is consumed')
    return run


def u_uvarint_host(ex):
    """the contract used on arbitrary input"""
    f = need(ex.P, 'read_uvarint')[0]

    def run():
        is_, s, T, rd = host_reader(ex)
        d = ex.new_cell(z3.BitVec('old', 32), tint(32, False))
        try:
            r = ex.call_entry(f, None, [PtrV(rd), PtrV(d)], None)
        except CppThrow:
            return
        h = ex.load(is_)
        m = sub(h.bpos, s)
        ex.prove(AND(EQ(r, mul(m, 8)), ULE(1, m), ULE(h.bpos, T), h.pend == 0), 'read_uvarint() reports 8 bits per octet consumed')
    return run


def u_host(name, nargs):
    """helpers on arbitrary input"""
    def make(ex):
        f = need(ex.P, name)[0]

        def run():
            is_, s, T, rd = host_reader(ex)
            if name.endswith('string'):
                mx = z3.BitVec('max_rbits', 64)
                ex.assume(AND(ULE(mx, mul(sub(T, s), 8)), EQ(mx & 7, 0)))
                d = ex.new_cell(cstr(ex, 'old'))
                args = [PtrV(rd), PtrV(d), mx]
            else:
                raise Unsupported(name)
            try:
                r = ex.call_entry(f, None, args, None)
            except CppThrow:
                return
            h = ex.load(is_)
            ex.prove(AND(EQ(r, mul(sub(h.bpos, s), 8)), ULE(r, mx)), '%s() reports what it consumed, within its limit' % name)
        return run
    return make


def u_getIStream(ex):
    f = need(ex.P, 'Reader::getIStream')[0]

    def run():
        is_, this = reader(ex, TAIL)
        r = ex.call_entry(f, this, [], None)
        r = r.lv if isinstance(r, PtrV) else r
        ex.prove(same_lv(r, is_), 'getIStream() is the stream of the reader')
        compare(ex, ex.load(is_).toks, TAIL, 'nothing is consumed')
    return run


def u_seek(ex):
    f = need(ex.P, 'Reader::seek')[0]

    def run():
        T, s = z3.BitVec('total', 64), z3.BitVec('start', 64)
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
        is_ = ex.new_cell(HostS(s, T))
        w = z3.BitVec('m_width', 8)
        ex.assume(z3.ULT(w, 8))
        this = ex.new_cell(RecV(RT, {'m_is': PtrV(is_), 'm_octet': z3.BitVec('o', 8), 'm_width': w}))
        off = z3.BitVec('offset', 64)
        way = ex.choose(3, 'way')
        tgt = [off, s + off, T + off][way]
        try:
            r = ex.call_entry(f, this, [off, [SEEK_BEG, SEEK_CUR, SEEK_END][way]], None)
        except CppThrow:
            ex.prove(OR(z3.UGT(tgt, T), AND(way == 1, w != 0)), 'seek() throws only for targets outside the stream or relative to pending bits')
            return
        if way == 1:
            ex.prove(w == 0, 'a relative seek is refused while bits are pending')
        h = ex.load(is_)
        ex.prove(AND(EQ(h.bpos, tgt), EQ(r, tgt)), 'seek() moves to the target and returns it')
        ex.prove(EQ(ex.load(this).f['m_width'], 0, 8), 'pending bits are discarded')
    return run


def minus(*names):
    d = dict(CODEC)
    for n in names:
        d.pop(n, None)
    return d


NOTHING = {}
WB = {B + 'Writer::writeBit': CODEC[B + 'Writer::writeBit']}
WS = {B + 'Writer::writeBits': CODEC[B + 'Writer::writeBits']}
RB = {B + 'Reader::readBit': CODEC[B + 'Reader::readBit']}
RS = {B + 'Reader::readBits': CODEC[B + 'Reader::readBits'], B + 'Reader::getIStream': CODEC[B + 'Reader::getIStream']}
WN = dict(WS, **{B + 'write_uint': CODEC[B + 'write_uint'], B + 'write_int': CODEC[B + 'write_int']})
RN = dict(RS, **{B + 'read_uint': CODEC[B + 'read_uint'], B + 'read_int': CODEC[B + 'read_int']})


def specs(P):
    """(name, make, contracts, throws_ok, side) of every layer-1 unit"""
    r = [
        ('Writer::Writer', u_ctor_writer, NOTHING, False, 'w'),
        ('Writer::writeBit', u_writeBit, NOTHING, False, 'w'),
        ('Writer::writeBits', u_writeBits, WB, False, 'w'),
        ('Writer::writeBits (any length)', u_writeBits_any, WB, False, 'w'),
        ('Writer::write', u_Writer_write, NOTHING, False, 'w'),
        ('write_string', u_write_string, WN, False, 'w'),
        ('write_pascal_string', u_write_pascal, WN, False, 'w'),
        ('write_bool', u_write_bool, WN, False, 'w'),
        ('Reader::Reader', u_ctor_reader, NOTHING, False, 'r'),
        ('Reader::readBit', u_readBit, NOTHING, False, 'r'),
        ('Reader::readBits', u_readBits, RB, False, 'r'),
        ('Reader::read', u_Reader_read, NOTHING, False, 'r'),
        ('Reader::getIStream', u_getIStream, NOTHING, False, 'r'),
        ('Reader::seek', u_seek, NOTHING, False, 'r'),
        ('read_string', u_read_string, RN, False, 'r'),
        ('read_string (arbitrary input)', u_host('read_string', 3), RN, False, 'r'),
        ('read_pascal_string', u_read_pascal, RN, False, 'r'),
        ('read_pascal_string (arbitrary input)', u_host('read_pascal_string', 3), RN, False, 'r'),
        ('read_bool', u_read_bool, RN, False, 'r'),
        ('read/write_array_uint8_4', u_array4, dict(WN, **RN), False, 'wr'),
        ('read/write_uvarint', u_uvarint, dict(WN, **RN), False, 'wr'),
        ('read_uvarint (arbitrary input)', u_uvarint_host, RN, False, 'r'),
    ]
    for i in range(8):
        r.append(('Reader::readBits (arbitrary input, %d bits pending)' % i, u_readBits_host(i), RB, False, 'r'))
    for n in ('write_uint', 'write_int'):
        for f in need(P, n):
            r.append(('%s %s' % (n, tpar(f)), u_write_num(n, f), WS, False, 'w'))
    for n in ('read_uint', 'read_int'):
        for f in need(P, n):
            r.append(('%s %s' % (n, tpar(f)), u_read_num(n, f), RS, False, 'r'))
    rd = {vpar(f): f for f in need(P, 'read_vector_uint')}
    for f in need(P, 'write_vector_uint'):
        if vpar(f) in rd:
            r.append(('read/write_vector_uint %s' % vpar(f), u_vector(f, rd[vpar(f)]), dict(WN, **RN), False, 'wr'))
    return r


def tpar(f):
    return f['params'][1].ty.replace('const ', '').replace(' *', '')


def vpar(f):
    import re
    return re.search(r'vector<([^>]*)>', f['type']).group(1)
