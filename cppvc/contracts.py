"""Contracts of the bit-level codec (proved against their bodies by the layer-1 units)."""
import z3
from .vals import *
from .streams import *
from . import exec as X
from .std import *

B = 'shiguredo::mp4::bitio::'


def stream_of(ex, p, field):
    p = ex.rval(p)
    if isinstance(p, NullV):
        ex.prove(False, 'null reader/writer', None, 'ub')
        raise X.Infeasible()
    r = ex.load(p.lv) if isinstance(p, PtrV) else p
    s = r.f[field]
    return s.lv if isinstance(s, PtrV) else s


def fail(ex, node, what='std::runtime_error'):
    raise X.CppThrow(what, node)


def emit(ex, w, tok, node):
    if tok.w == 0:
        return
    if not out_write(ex, stream_of(ex, w, 'm_os'), (tok,), node):
        fail(ex, node)


def size_arg(ex, e, args, T):
    if len(args) < 3:
        return T.w
    s = ex.rval(args[2])
    s = conc(s) if is_sym(s) else s
    if is_sym(s):
        # enumerate the feasible values
        for v in range(0, 65):
            if ex.decide(EQ(s, v)):
                return v
        raise Unsupported('bit size not bounded by 64')
    return s


def pt(ex, e, i):
    t = ex.T(e['params'][i].ty)
    while t.k in ('ref', 'ptr'):
        t = t.to
    return t


def c_write_uint(ex, e, this, args, node):
    T = pt(ex, e, 1)
    n = size_arg(ex, e, args, T)
    ex.prove(n <= T.w, 'write_uint: size <= 8*sizeof(T)', node, 'pre')
    v = ex.rval(args[1])
    if v is UNINIT:
        v = ex.fresh(T, 'uninit')
    emit(ex, args[0], Tok(n, low_bits(v, T.w, n)), node)
    return n


def c_write_int(ex, e, this, args, node):
    T = pt(ex, e, 1)
    n = size_arg(ex, e, args, T)
    ex.prove(n <= T.w and n >= 1, 'write_int: 1 <= size <= 8*sizeof(T)', node, 'pre')
    v = ex.rval(args[1])
    if v is UNINIT:
        v = ex.fresh(T, 'uninit')
    if n == T.w:
        t = Tok(n, v)
    else:
        sb = 1 if isinstance(v, int) and v >> (T.w - 1) & 1 else 0
        if is_sym(v):
            sb = conc(z3.Extract(T.w - 1, T.w - 1, v))
        t = Tok(n, cat([(1, sb)] + ([(n - 1, low_bits(v, T.w, n - 1))] if n > 1 else [])))
    emit(ex, args[0], t, node)
    return n


def get_bits(ex, r, n, node):
    v = in_bits(ex, stream_of(ex, r, 'm_is'), n, node)
    if v is None:
        fail(ex, node)
    return v


def c_read_uint(ex, e, this, args, node):
    T = pt(ex, e, 1)
    n = size_arg(ex, e, args, T)
    if n == 0:
        fail(ex, node, 'std::invalid_argument')
    v = get_bits(ex, args[0], n, node)
    if n == ex.split_width and is_sym(v):
        # proof hint: case split on the value just read
        if ex.case is not None and not ex.ghost.get('cased'):
            # this unit covers one value of the first such field; the other units cover the others
            ex.assume(EQ(v, ex.case))
            ex.ghost['cased'] = True
        for x in range((1 << n) - 1):
            if ex.decide(EQ(v, x)):
                v = x
                break
        else:
            v = (1 << n) - 1
    ex.store(ex.deref(ex.rval(args[1]), node), convert(v, n, False, T.w))
    return n


def c_read_int(ex, e, this, args, node):
    T = pt(ex, e, 1)
    n = size_arg(ex, e, args, T)
    if n == 0:
        fail(ex, node, 'std::invalid_argument')
    v = get_bits(ex, args[0], n, node)
    ex.store(ex.deref(ex.rval(args[1]), node), convert(v, n, True, T.w))
    return n


def c_writeBits(ex, e, this, args, node):
    v = ex.rval(args[0])
    n = conc(ex.rval(args[1])) if is_sym(ex.rval(args[1])) else ex.rval(args[1])
    if v.items is None or not isinstance(n, int):
        raise Unsupported('writeBits of symbolic size')
    m = len(v.items)
    ex.prove(n <= 8 * m and m <= 8, 'writeBits: width <= 8*data.size() <= 64', node, 'pre')
    if n == 0:
        return
    t = Tok(n, low_bits(cat([(8, x) for x in v.items]), 8 * m, n))
    if not out_write(ex, stream_of(ex, this, 'm_os'), (t,), node):
        fail(ex, node)


def c_writeBit(ex, e, this, args, node):
    b = ex.rval(args[0])
    if not out_write(ex, stream_of(ex, this, 'm_os'), (Tok(1, convert(b, 1, False, 1)),), node):
        fail(ex, node)


def c_write(ex, e, this, args, node):
    v = ex.rval(args[0])
    slv = stream_of(ex, this, 'm_os')
    ph = bit_phase(bits_of(ex.load(slv).toks))
    if ph is None:
        raise Unsupported('Writer::write at unknown alignment')
    if ph != 0:
        fail(ex, node, 'std::invalid_argument')
    if not out_write(ex, slv, vec_toks(ex, v), node):
        fail(ex, node)
    return v.n


def c_readBits(ex, e, this, args, node):
    n = ex.rval(args[1])
    n = conc(n) if is_sym(n) else n
    if not isinstance(n, int):
        raise Unsupported('readBits of symbolic size')
    ex.prove(n <= 64, 'readBits: size <= 64', node, 'pre')
    slv = stream_of(ex, this, 'm_is')
    v = in_bits(ex, slv, n, node) if n else 0
    if v is None:
        fail(ex, node)
    m = (n + 7) // 8
    items = []
    z = convert(v, n, False, 8 * m) if n else 0
    for i in range(m):
        hi = 8 * (m - i) - 1
        items.append((z >> (hi - 7)) & 0xff if isinstance(z, int) else conc(z3.Extract(hi, hi - 7, z)))
    ex.store(ex.deref(ex.rval(args[0]), node), VecV(U8, items))


def c_readBit(ex, e, this, args, node):
    v = in_bits(ex, stream_of(ex, this, 'm_is'), 1, node)
    if v is None:
        fail(ex, node)
    return (v == 1) if isinstance(v, int) else conc(v == 1)


def phase_in(ex, s):
    if isinstance(s, HostS):
        return (8 - s.pend) % 8
    if isinstance(s, InS):
        return bit_phase(s.pos)
    raise Unsupported('alignment of input')


def c_read(ex, e, this, args, node):
    slv = stream_of(ex, this, 'm_is')
    s = ex.load(slv)
    ph = phase_in(ex, s)
    if ph is None:
        raise Unsupported('Reader::read at unknown alignment')
    if ph != 0:
        fail(ex, node, 'std::invalid_argument')
    plv = ex.deref(ex.rval(args[0]), node)
    d = ex.load(plv)
    r = in_bytes_vec(ex, slv, d.n, d.to, node)
    if r is None:
        fail(ex, node)
    ex.store(plv, r)
    return d.n


def c_ctor_reader(ex, q, lv, args, node):
    s = args[0]
    v = ex.load(s)
    if isinstance(v, HostS):
        ex.store(s, v.repl(pend=0))
    if isinstance(v, InS):
        ph = bit_phase(v.pos)
        if ph is None:
            raise Unsupported('new Reader at unknown alignment')
        if ph:
            if True:
                r = take(v.toks, 8 - ph)
                ex.store(s, v.repl(toks=r[1], pos=add(v.pos, 8 - ph)))
    ex.store(lv, RecV(q, {'m_is': PtrV(s), 'm_octet': 0, 'm_width': 0}))


def c_ctor_writer(ex, q, lv, args, node):
    s = args[0]
    v = ex.load(s)
    if isinstance(v, OutS) and bit_phase(bits_of(v.toks)) != 0:
        raise Unsupported('new Writer while bits are pending')
    ex.store(lv, RecV(q, {'m_os': PtrV(s), 'm_octet': 0, 'm_width': 0}))


def c_offset_to_end(ex, e, this, args, node):
    slv = args[0]
    s = ex.load(slv)
    if s.bad is not False and ex.decide(zb(s.bad)):
        fail(ex, node)
    if io(ex):
        ex.store(slv, s.repl(bad=True))
        fail(ex, node)
    if isinstance(s, HostS):
        return sub(s.total, s.bpos)
    if isinstance(s, InS):
        b = bytes_of(s.toks)
        if b is None or lin_bytes(s.pos) is None:
            raise Unsupported('offset_to_end at an unaligned position')
        return b
    raise Unsupported('offset_to_end')


def c_getIStream(ex, e, this, args, node):
    return stream_of(ex, this, 'm_is')


def c_read_uvarint(ex, e, this, args, node):
    slv = stream_of(ex, args[0], 'm_is')
    s = ex.load(slv)
    if not isinstance(s, HostS):
        return ex.call_entry(e, this, args, node, nocontract=True)
    # one or more bytes are consumed and 8 bits per byte reported, or an exception is thrown
    if ex.choose(2, 'uvarint') == 1:
        fail(ex, node)
    m = ex.fresh(U64, 'uvarint_len')
    ex.assume(AND(ULE(1, m), ULE(m, sub(s.total, s.bpos))))
    ex.store(slv, s.repl(bpos=add(s.bpos, m)))
    T = pt(ex, e, 1)
    ex.store(ex.deref(ex.rval(args[1]), node), ex.fresh(T, 'uvarint'))
    return mul(m, 8)


CODEC = {
    B + 'read_uvarint': c_read_uvarint,
    B + 'write_uint': c_write_uint, B + 'write_int': c_write_int, B + 'read_uint': c_read_uint, B + 'read_int': c_read_int,
    B + 'Writer::writeBits': c_writeBits, B + 'Writer::writeBit': c_writeBit, B + 'Writer::write': c_write,
    B + 'Reader::readBits': c_readBits, B + 'Reader::readBit': c_readBit, B + 'Reader::read': c_read,
    B + 'Reader::getIStream': c_getIStream,
    'ctor:' + B + 'Reader': c_ctor_reader, 'ctor:' + B + 'Writer': c_ctor_writer,
    'shiguredo::mp4::stream::get_istream_offset_to_end': c_offset_to_end,
}
