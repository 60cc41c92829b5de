"""Contracts (trusted) of the standard-library operations the repository uses.

Everything here is part of the trusted base: it states what the C++ standard
says about the operation, on the value model of vals.py / streams.py.
"""
import z3
from .vals import *
from .streams import *
from . import streams as S
from . import exec as X


# ------------------------------------------------------------------ bit streams
def lin_bytes(e):
    acc = SUMS.linear(e)
    r = 0
    for i, (c, atom) in acc.items():
        if c % 8:
            return None
        r = add(r, c // 8 if atom is None else mul(c // 8, atom))
    return r


def bit_phase(e):
    """value of e mod 8 when the linear form determines it, else None"""
    acc = SUMS.linear(e)
    r = 0
    for i, (c, atom) in acc.items():
        if atom is None:
            r += c
        elif c % 8:
            return None
    return r % 8


def io(ex):
    """ghost fault: does this stream operation fail?  (at most one fault on a path; it is recorded in a ghost cell)"""
    c = ex.ghost.get('io_cell')
    if c is None or ex.load(c) is True or ex.choose(2, 'io') == 0:
        return False
    ex.store(c, True)
    return True


def out_write(ex, slv, toks, node):
    """append tokens to an output stream; false when the stream is (or goes) bad"""
    s = ex.load(slv)
    if isinstance(s, Opaque):
        raise Unsupported('write to an opaque stream')
    if not isinstance(s, OutS):
        raise Unsupported('write to %r' % (s,))
    if not s.bad and io(ex):
        ex.store(slv, s.repl(bad=True, failed=True))
        return False
    if s.bad is not False:
        if ex.decide(zb(s.bad)):
            ex.store(slv, s.repl(failed=True))
            return False
    ex.store(slv, s.repl(toks=s.toks + tuple(toks)))
    return True


def in_bits(ex, slv, w, node):
    """read w (literal) bits; None when the stream ends first (badbit/eofbit set)"""
    s = ex.load(slv)
    if isinstance(s, HostS):
        if s.bad is not False and ex.decide(zb(s.bad)):
            return None
        if w <= s.pend:
            ex.store(slv, s.repl(pend=s.pend - w))
        else:
            if io(ex):
                ex.store(slv, s.repl(bad=True, pend=0))
                return None
            nb = (w - s.pend + 7) // 8
            np = add(s.bpos, nb)
            if not ex.decide(ULE(np, s.total)):
                ex.store(slv, s.repl(bad=True, pend=0))
                return None
            ex.store(slv, s.repl(bpos=np, pend=8 * nb - (w - s.pend)))
        return ex.fresh(tint(w, False), 'in') if w else 0
    if not isinstance(s, InS):
        raise Unsupported('read from %r' % (s,))
    if s.bad is not False and ex.decide(zb(s.bad)):
        return None
    if io(ex):
        ex.store(slv, s.repl(bad=True))
        return None
    toks = s.toks
    while True:
        r = take(toks, w)
        if r == 'eof':
            ex.store(slv, s.repl(toks=(), bad=True))
            return None
        if r is not None:
            v, rest = r
            ex.store(slv, s.repl(toks=rest, pos=add(s.pos, w)))
            return v
        toks = peel(ex, toks)


def peel(ex, toks):
    """expose the first element of the first symbolic segment"""
    out = []
    toks = list(toks)
    while toks and isinstance(toks[0], Tok):
        out.append(toks.pop(0))
    t = toks[0]
    if isinstance(t, Barrier):
        raise Unsupported('loop iteration reads beyond its segment')
    if not isinstance(t, Seg):
        raise Unsupported('read at %r' % (t,))
    if ex.decide(EQ(t.n, 0)):
        return tuple(out) + tuple(toks[1:])
    k2 = fresh_k()
    rest = mkseg(sub(t.n, 1), k2, tsubst(t.toks, [(t.k, k2 + 1)]))
    return tuple(out) + t.at(0) + rest + tuple(toks[1:])


def in_bytes_vec(ex, slv, n, to, node):
    """read n (possibly symbolic) bytes; VecV or None"""
    s = ex.load(slv)
    if isinstance(n, int) and n <= 64:
        items = []
        for _ in range(n):
            v = in_bits(ex, slv, 8, node)
            if v is None:
                return None
            items.append(v)
        return VecV(to, items)
    if isinstance(s, HostS):
        if s.bad is not False and ex.decide(zb(s.bad)):
            return None
        if s.pend:
            raise Unsupported('byte read at an unaligned position')
        if io(ex):
            ex.store(slv, s.repl(bad=True))
            return None
        if ex.decide(AND(ULE(s.bpos, s.total), ULE(n, sub(s.total, s.bpos)))):
            ex.store(slv, s.repl(bpos=add(s.bpos, n)))
            if s.src:
                return VecV(to, None, n, lambda i, p0=s.bpos, nm=s.src: uf(nm, [add(p0, i)], z3.BitVecSort(8)), ('src', s.src))
            nm = ex.fresh_name('inb')
            g = list(ex.gens)
            return VecV(to, None, n, lambda i, nm=nm, g=g, to=to: uf(nm, g + [i], z3.BitVecSort(8)), ('sym', nm))
        ex.store(slv, s.repl(bpos=s.total, bad=True))
        return None
    if not isinstance(s, InS):
        raise Unsupported('read from %r' % (s,))
    if s.bad is not False and ex.decide(zb(s.bad)):
        return None
    if io(ex):
        ex.store(slv, s.repl(bad=True))
        return None
    toks = s.toks
    left = n
    v = VecV(to, ())
    while True:
        if ex.entails(zb(EQ(left, 0))):
            break
        if not toks:
            if ex.decide(EQ(left, 0)):
                break
            ex.store(slv, s.repl(toks=(), bad=True))
            return None
        t = toks[0]
        if isinstance(t, Seg) and len(t.toks) == 1 and isinstance(t.toks[0], Tok) and t.toks[0].w == 8:
            if not ex.decide(ULE(t.n, left)):
                # ends inside the segment
                fn = (lambda i, t=t: t.at(i)[0].v)
                v = ex.vec_concat(v, VecV(to, None, left, fn))
                k2 = fresh_k()
                rest = mkseg(sub(t.n, left), k2, tsubst(t.toks, [(t.k, k2 + bv(left, 64))]))
                toks = rest + tuple(toks[1:])
                left = 0
                break
            v = ex.vec_concat(v, VecV(to, None, t.n, lambda i, t=t: t.at(i)[0].v))
            left = sub(left, t.n)
            toks = toks[1:]
            continue
        if isinstance(t, Seg):
            toks = peel(ex, toks)
            continue
        if isinstance(t, Barrier):
            raise Unsupported('loop iteration reads beyond its segment')
        if ex.decide(EQ(left, 0)):
            break
        r = take(toks, 8)
        if r == 'eof':
            ex.store(slv, s.repl(toks=(), bad=True))
            return None
        if r is None:
            toks = peel(ex, toks)
            continue
        v = ex.vec_concat(v, VecV(to, (r[0],)))
        toks = r[1]
        left = sub(left, 1)
    ex.store(slv, s.repl(toks=toks, pos=add(s.pos, mul(n, 8))))
    return v


def vec_toks(ex, v):
    if v.items is not None:
        return tuple(Tok(8, x) for x in v.items)
    k = fresh_k()
    return mkseg(v.n, k, (Tok(8, v.get(k)),))


# ------------------------------------------------------------------ helpers
def pick_ctor(ex, q, args, argtys):
    best = None
    for m in ex.P.records[q]['ctors']:
        e = ex.P.functions.get(m)
        if e is None or e['deleted'] or 'params' not in e:
            continue
        ps = e['params']
        nd = len([p for i, p in enumerate(ps) if i in e['defargs']])
        if not (len(ps) - nd <= len(args) <= len(ps)):
            continue
        sc = 0
        ok = True
        for p, t, a in zip(ps, argtys, args):
            pt = ex.T(p.ty)
            if pt.k == 'ref':
                pt = pt.to
            if t is not None and t.k == 'ref':
                t = t.to
            if t is None or repr(pt) == repr(t):
                sc += 2
            elif pt.k == t.k and pt.k in ('int', 'vec', 'ptr', 'rec', 'bool', 'flt'):
                if pt.k == 'rec':
                    if ex.is_sub(t.name, pt.name):
                        sc += 1
                    else:
                        ok = False
                else:
                    sc += 1
            elif pt.k in ('int', 'bool') and t.k in ('int', 'bool'):
                sc += 1
            else:
                ok = False
        if ok and (best is None or sc > best[0]):
            best = (sc, e)
    if best is None:
        raise Unsupported('no constructor of %s for %d arguments' % (q, len(args)))
    return best[1]


def make_rec(ex, q, argnodes, node):
    args = [ex.ev_init(a) for a in argnodes]
    tys = [ex.T(a.ty) for a in argnodes]
    return make_rec_v(ex, q, args, tys, node)


def make_rec_v(ex, q, args, tys, node):
    lv = ex.new_cell(ex.blank(q))
    if not args:
        ex.run_ctor(q, lv, [], node)
        return lv
    if len(args) == 1:
        v = ex.rval(args[0])
        if isinstance(v, RecV) and ex.is_sub(v.q, q):
            ex.store(lv, v)
            return lv
    e = pick_ctor(ex, q, args, tys)
    ex.run_ctor(q, lv, args, node, e['type'])
    return lv


def seq_of(ex, v):
    """(lvalue, value) of a container expression result"""
    if isinstance(v, LV):
        return v, ex.load(v)
    lv = ex.new_cell(v)
    return lv, v


def as_index(ex, v, t):
    if isinstance(v, int) and not isinstance(v, bool):
        return convert(v, t.w, t.s, 64)
    return convert(v, t.w, t.s, 64)


def for_each(ex, node, lo, hi, body):
    """run body(i) for i in [lo, hi) through the loop machinery"""
    cell = ex.new_cell(lo, U64)

    def bdy():
        body(ex.load(cell))

    def inc():
        ex.store(cell, add(ex.load(cell), 1))
    ex.loop(node, lambda: ULT(ex.load(cell), hi), bdy, inc)


def it_range(ex, a, b, what):
    a, b = ex.rval(a), ex.rval(b)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if not a.lv.same(b.lv):
            raise Unsupported(what + ': iterators of different containers')
        return a.lv, a.idx, b.idx
    raise Unsupported('%s over %r' % (what, a))


def check_range(ex, lv, lo, hi, node, what):
    n = ex.length(ex.load(lv))
    ex.prove(AND(ULE(lo, hi), ULE(hi, n)), what + ': range within the container', node, 'ub')


class StreamIt(object):
    def __init__(self, lv, kind):
        self.lv, self.kind = lv, kind


def assign_through(ex, it, val, node):
    """*it++ = val for an output iterator held in a cell"""
    o = ex.load(it)
    if isinstance(o, BackIns):
        c = ex.load(o.lv)
        ex.store(o.lv, ex.vec_append(c, ex.rval(val)))
        return
    if isinstance(o, PtrV):
        ex.bounds(o.lv, o.idx, node)
        ex.store(o.lv.index(o.idx), ex.rval(val))
        ex.store(it, PtrV(o.lv, add(o.idx, 1)))
        return
    if isinstance(o, StreamIt):
        out_write(ex, o.lv, (Tok(8, ex.rval(val)),), node)
        return
    raise Unsupported('output iterator %r' % (o,))


# ------------------------------------------------------------------ free functions
OPAQUE_CALLS = {'format', 'trace', 'debug', 'info', 'warn', 'error', 'join', 'to_string', 'critical', 'set_level', 'print', 'runtime_format', 'vformat', 'arg'}


def call(ex, callee, n):
    r = callee.ref
    name = r[1] if r is not None and len(r) > 1 else callee.get('name')
    argn = n.inner[1:]
    if name in OPAQUE_CALLS and name not in ex.ghost.get('extcalls', ()):
        ex.trusted.add('fmt/spdlog calls have no effect on library state')
        return Opaque(name)
    f = CALLS.get(name)
    if f is None:
        h = ex.ghost.get('extcalls')
        if h and name in h:
            return h[name](ex, n, argn)
        raise Unsupported('call to external function %s (line %d)' % (name, n.line))
    return f(ex, n, [a for a in argn if not ex.is_defarg(a)])


def c_size(ex, n, a):
    v = ex.rval(ex.ev(a[0]))
    if isinstance(v, Opaque):
        raise Unsupported('size of opaque')
    return ex.length(v)


def c_begin(ex, n, a):
    lv, v = seq_of(ex, ex.ev(a[0]))
    return PtrV(lv, 0)


def c_end(ex, n, a):
    lv, v = seq_of(ex, ex.ev(a[0]))
    return PtrV(lv, ex.length(v))


def c_empty(ex, n, a):
    v = ex.rval(ex.ev(a[0]))
    return EQ(ex.length(v), 0)


def c_data(ex, n, a):
    lv, v = seq_of(ex, ex.ev(a[0]))
    return PtrV(lv, 0)


def c_move(ex, n, a):
    return ex.ev_init(a[0])


def c_accumulate(ex, n, a):
    b, e = ex.ev(a[0]), ex.ev(a[1])
    lv, lo, hi = it_range(ex, b, e, 'accumulate')
    init = ex.rval(ex.ev_init(a[2]))
    t = ex.T(a[2].ty)
    acc = ex.new_cell(init, t)
    op = ex.rval(ex.ev(a[3])) if len(a) > 3 else None
    check_range(ex, lv, lo, hi, n, 'std::accumulate')

    def body(i):
        el = lv.index(i)
        if op is not None:
            r = ex.call_value(op, [ex.load(acc), el], n)
            rt = lam_ret(ex, op, t)
        else:
            et = ex.load(lv).to
            w = max(32, t.w, et.w)
            r = add(convert(ex.load(acc), t.w, t.s, w), convert(ex.load(el), et.w, et.s, w), w)
            rt = tint(w, False)
        r = ex.rval(r)
        if t.k == 'int' and rt.k == 'int' and rt.w != t.w:
            r = convert(r, rt.w, rt.s, t.w)
        ex.store(acc, r)
    for_each(ex, n, lo, hi, body)
    return ex.load(acc)


def lam_ret(ex, lam, dflt):
    if isinstance(lam, LamV):
        ops = lam.node.get('ops') or []
        for o in ops:
            ty = o['type']
            rt = ty[:ty.find('(')].strip()
            if '->' in ty:
                rt = ty.split('->')[-1].strip()
            if rt and rt != 'auto':
                return ex.T(rt)
    if isinstance(lam, FnV) and lam.ref[0] == 'fn':
        ty = ex.P.functions[lam.ref[1]]['type']
        return ex.T(ty[:ty.find('(')].strip())
    return dflt


def c_transform(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'transform')
    out = ex.new_cell(ex.rval(ex.ev(a[2])))
    f = ex.rval(ex.ev(a[3]))
    check_range(ex, lv, lo, hi, n, 'std::transform')

    def body(i):
        r = ex.rval(ex.call_value(f, [lv.index(i)], n))
        rt = lam_ret(ex, f, None)
        o = ex.load(out)
        et = None
        if isinstance(o, (BackIns, PtrV)):
            et = ex.load(o.lv).to
        if rt is not None and et is not None and rt.k == 'int' and et.k == 'int':
            r = convert(r, rt.w, rt.s, et.w)
        assign_through(ex, out, r, n)
    for_each(ex, n, lo, hi, body)
    return ex.load(out)


def c_copy(ex, n, a):
    b, e = ex.rval(ex.ev(a[0])), ex.rval(ex.ev(a[1]))
    o = ex.rval(ex.ev(a[2]))
    if isinstance(b, StreamIt):
        raise Unsupported('copy from stream iterator')
    lv, lo, hi = it_range(ex, b, e, 'copy')
    check_range(ex, lv, lo, hi, n, 'std::copy')
    return copy_to(ex, n, lv, lo, hi, o)


def copy_to(ex, n, lv, lo, hi, o):
    v = ex.load(lv)
    cnt = sub(hi, lo)
    if isinstance(o, StreamIt):
        # ostreambuf_iterator: a failed put marks the iterator, not the stream
        if v.__class__ is ArrV:
            v = VecV(v.to, v.items)
        if isinstance(lo, int) and isinstance(hi, int) and v.items is not None:
            toks = tuple(Tok(8, x) for x in v.items[lo:hi])
        else:
            k = fresh_k()
            toks = mkseg(cnt, k, (Tok(8, v.get(add(lo, k))),))
        s = ex.load(o.lv)
        if io(ex):
            ex.store(o.lv, s.repl(failed=True))
            return o
        if s.bad is not False and ex.decide(zb(s.bad)):
            ex.store(o.lv, s.repl(failed=True))
            return o
        ex.store(o.lv, s.repl(toks=s.toks + toks))
        return o
    if isinstance(o, BackIns):
        d = ex.load(o.lv)
        src = slice_vec(ex, v, lo, hi)
        ex.store(o.lv, ex.vec_concat(d, src))
        return o
    if isinstance(o, PtrV):
        d = ex.load(o.lv)
        ex.prove(AND(ULE(o.idx, ex.length(d)), ULE(cnt, sub(ex.length(d), o.idx))), 'std::copy: destination large enough', n, 'ub')
        src = slice_vec(ex, v, lo, hi)
        if isinstance(cnt, int) and src.items is not None:
            for j, x in enumerate(src.items):
                ex.store(o.lv.index(add(o.idx, j)), x)
        else:
            if isinstance(d, ArrV):
                raise Unsupported('symbolic copy into array')
            st = o.idx

            def fn(j, d=d, src=src, st=st, cnt=cnt):
                c = AND(ULE(st, j), ULT(sub(j, st), cnt))
                if c is True:
                    return src.get(sub(j, st))
                if c is False:
                    return d.get(j)
                return vite(c, src.get(sub(j, st)), d.get(j), d.to)
            if EQ(cnt, d.n) is True and isinstance(st, int) and st == 0:
                ex.store(o.lv, VecV(d.to, src.items, src.n, src.fn))
            else:
                ex.store(o.lv, VecV(d.to, None, d.n, fn))
        return PtrV(o.lv, add(o.idx, cnt))
    raise Unsupported('copy to %r' % (o,))


def slice_vec(ex, v, lo, hi):
    to = v.to
    if isinstance(v, ArrV):
        v = VecV(to, v.items)
    if v.items is not None and isinstance(lo, int) and isinstance(hi, int):
        return VecV(to, v.items[lo:hi])
    n = sub(hi, lo)
    if isinstance(n, int) and n <= 64:
        return VecV(to, [v.get(add(lo, j)) for j in range(n)])
    if isinstance(lo, int) and lo == 0 and EQ(hi, v.n) is True:
        return VecV(to, v.items, v.n, v.fn)
    return VecV(to, None, n, lambda i, v=v, lo=lo: v.get(add(lo, i)))


def c_copy_n(ex, n, a):
    b = ex.rval(ex.ev(a[0]))
    cnt = ex.rval(ex.ev(a[1]))
    ct = ex.T(a[1].ty)
    cnt = convert(cnt, ct.w, ct.s, 64)
    o = ex.rval(ex.ev(a[2]))
    if isinstance(b, StreamIt):
        return copy_from_stream(ex, n, b, cnt, o)
    if not isinstance(b, PtrV):
        raise Unsupported('copy_n from %r' % (b,))
    hi = add(b.idx, cnt)
    check_range(ex, b.lv, b.idx, hi, n, 'std::copy_n')
    return copy_to(ex, n, b.lv, b.idx, hi, o)


def copy_from_stream(ex, n, b, cnt, o):
    """copy_n(istreambuf_iterator, n, out): bypasses the stream state; the get position ends up
    on the last character read (libstdc++ does not advance past it)"""
    s = ex.load(b.lv)
    if not isinstance(cnt, int):
        if isinstance(o, StreamIt) or isinstance(s, (HostS, InS)):
            return copy_stream_stream(ex, n, b, cnt, o)
        raise Unsupported('copy_n of symbolic length from stream')
    for j in range(cnt):
        v = peek_byte(ex, b.lv, j, n)
        cell = ex.new_cell(o)
        assign_through(ex, cell, v, n)
        o = ex.load(cell)
    if cnt > 1:
        s = ex.load(b.lv)
        adv = cnt - 1
        if isinstance(s, HostS):
            p = add(s.bpos, adv)
            ex.store(b.lv, s.repl(bpos=ITE(ULE(p, s.total), p, s.total, 64)))
        else:
            for _ in range(adv):
                q = take(s.toks, 8)
                if q in (None, 'eof'):
                    raise Unsupported('advance of stream iterator')
                s = s.repl(toks=q[1], pos=add(s.pos, 8))
            ex.store(b.lv, s)
    return o


def peek_byte(ex, slv, j, n):
    s = ex.load(slv)
    if io(ex):
        return ex.fresh(U8, 'in')       # the iterator reads garbage, the state of the stream does not change
    if isinstance(s, HostS):
        v = ex.fresh(U8, 'in')
        inside = ULE(add(s.bpos, j + 1), s.total)
        ex.prove(inside, 'istreambuf_iterator is not dereferenced or advanced at the end of the stream', n, 'ub')
        return v
    toks = s.toks
    for _ in range(j):
        q = take(toks, 8)
        if q == 'eof':
            ex.prove(False, 'istreambuf_iterator is not dereferenced or advanced at the end of the stream', n, 'ub')
            return 0xff
        if q is None:
            raise Unsupported('peek beyond segment')
        toks = q[1]
    q = take(toks, 8)
    if q == 'eof':
        ex.prove(False, 'istreambuf_iterator is not dereferenced or advanced at the end of the stream', n, 'ub')
        return 0xff
    if q is None:
        raise Unsupported('peek at segment')
    return q[0]


def copy_stream_stream(ex, n, b, cnt, o):
    h = ex.ghost.get('copy_stream')
    if h:
        return h(ex, n, b, cnt, o)
    raise Unsupported('stream to stream copy')


def c_fill(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'fill')
    val = ex.rval(ex.ev(a[2]))
    v = ex.load(lv)
    t = v.to
    vt = ex.T(a[2].ty)
    if vt.k == 'ref':
        vt = vt.to
    if t.k == 'int' and vt.k == 'int':
        val = convert(val, vt.w, vt.s, t.w)
    check_range(ex, lv, lo, hi, n, 'std::fill')
    for_each(ex, n, lo, hi, lambda i: ex.store(lv.index(i), val))
    return None


def c_all_of(ex, n, a, any_=False):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'all_of')
    f = ex.rval(ex.ev(a[2]))
    v = ex.load(lv)
    m = conc(sub(hi, lo))
    if not isinstance(m, int):
        raise Unsupported('all_of over symbolic range')
    for j in range(m):
        r = ex.truth(ex.rval(ex.call_value(f, [lv.index(add(lo, j))], n)))
        if ex.decide(r) == any_:
            return any_
    return not any_


def c_any_of(ex, n, a):
    return c_all_of(ex, n, a, True)


def c_none_of(ex, n, a):
    return NOT(c_all_of(ex, n, a, True))


def c_back_inserter(ex, n, a):
    v = ex.ev(a[0])
    return BackIns(v)


def c_make_ptr(ex, n, a):
    t = ex.T(n.ty)
    q = t.to
    if q.k == 'rec':
        return PtrV(make_rec(ex, q.name, a, n))
    v = ex.init_value(q, a[0]) if a else ex.default_value(q)
    return PtrV(ex.new_cell(v))


def c_minmax(ex, n, a, mx):
    x, y = ex.ev_init(a[0]), ex.ev_init(a[1])
    t = ex.T(a[0].ty)
    if t.k == 'ref':
        t = t.to
    xv, yv = ex.rval(x), ex.rval(y)
    lt = ex.binop('<', xv, yv, t, t, BOOL, n)
    if mx:
        return ITE(lt, yv, xv, t.w)
    lt = ex.binop('<', yv, xv, t, t, BOOL, n)
    return ITE(lt, yv, xv, t.w)


def c_max(ex, n, a):
    if not a:
        t = ex.T(n.ty)
        return (1 << (t.w - 1)) - 1 if t.s else (1 << t.w) - 1
    return c_minmax(ex, n, a, True)


def c_min(ex, n, a):
    if not a:
        t = ex.T(n.ty)
        return 1 << (t.w - 1) if t.s else 0
    return c_minmax(ex, n, a, False)


def c_lowest(ex, n, a):
    t = ex.T(n.ty)
    return 1 << (t.w - 1) if t.s else 0


def c_swap(ex, n, a):
    x, y = ex.ev(a[0]), ex.ev(a[1])
    u, v = ex.load(x), ex.load(y)
    ex.store(x, v)
    ex.store(y, u)


def c_exchange(ex, n, a):
    x = ex.ev(a[0])
    u = ex.load(x)
    v = ex.rval(ex.ev_init(a[1]))
    tx, ty = ex.T(a[0].ty), ex.T(a[1].ty)
    if tx.k == 'int' and ty.k == 'int':
        v = convert(v, ty.w, ty.s, tx.w)
    ex.store(x, v)
    return u


def c_next(ex, n, a):
    p = ex.rval(ex.ev(a[0]))
    d = 1
    if len(a) > 1:
        t = ex.T(a[1].ty)
        d = convert(ex.rval(ex.ev(a[1])), t.w, t.s, 64)
    return PtrV(p.lv, add(p.idx, d))


def c_prev(ex, n, a):
    p = ex.rval(ex.ev(a[0]))
    d = 1
    if len(a) > 1:
        t = ex.T(a[1].ty)
        d = convert(ex.rval(ex.ev(a[1])), t.w, t.s, 64)
    return PtrV(p.lv, sub(p.idx, d))


def c_distance(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'distance')
    return sub(hi, lo)


def c_equal(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'equal')
    o = ex.rval(ex.ev(a[2]))
    x = slice_vec(ex, ex.load(lv), lo, hi)
    if len(a) > 3:
        o2 = ex.rval(ex.ev(a[3]))
        y = slice_vec(ex, ex.load(o.lv), o.idx, o2.idx)
    else:
        y = slice_vec(ex, ex.load(o.lv), o.idx, add(o.idx, sub(hi, lo)))
    return ex.veq(x, y)


def c_find_if(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'find')
    m = conc(sub(hi, lo))
    if not isinstance(m, int):
        raise Unsupported('find over symbolic range')
    f = ex.rval(ex.ev(a[2]))
    isf = isinstance(f, (LamV, FnV))
    for j in range(m):
        el = lv.index(add(lo, j))
        r = ex.truth(ex.rval(ex.call_value(f, [el], n))) if isf else ex.veq(ex.load(el), f)
        if ex.decide(r):
            return PtrV(lv, add(lo, j))
    return PtrV(lv, hi)


def c_for_each(ex, n, a):
    lv, lo, hi = it_range(ex, ex.ev(a[0]), ex.ev(a[1]), 'for_each')
    f = ex.rval(ex.ev(a[2]))
    for_each(ex, n, lo, hi, lambda i: ex.call_value(f, [lv.index(i)], n))
    return f


def c_bit_cast_like(ex, n, a):
    raise Unsupported('bit_cast')


def c_memcpy(ex, n, a):
    raise Unsupported('memcpy')


CALLS = {
    'size': c_size, 'ssize': c_size, 'begin': c_begin, 'cbegin': c_begin, 'end': c_end, 'cend': c_end, 'empty': c_empty, 'data': c_data,
    'move': c_move, 'forward': c_move, 'as_const': c_move, 'ref': c_move, 'cref': c_move, 'accumulate': c_accumulate, 'transform': c_transform,
    'copy': c_copy, 'copy_n': c_copy_n, 'fill': c_fill, 'all_of': c_all_of, 'any_of': c_any_of, 'none_of': c_none_of,
    'back_inserter': c_back_inserter, 'make_shared': c_make_ptr, 'make_unique': c_make_ptr, 'max': c_max, 'min': c_min,
    'lowest': c_lowest, 'swap': c_swap, 'exchange': c_exchange, 'next': c_next, 'prev': c_prev, 'distance': c_distance,
    'equal': c_equal, 'find_if': c_find_if, 'find': c_find_if, 'for_each': c_for_each,
}


# ------------------------------------------------------------------ member functions
def member_call(ex, callee, n):
    name = callee.get('name') or (callee.ref[1] if callee.ref and callee.ref[0] == 'stdmember' else None)
    args = [a for a in n.inner[1:] if not ex.is_defarg(a)]
    on = callee.inner[0]
    ov = ex.ev(on)
    if callee.get('isArrow'):
        lv = ex.deref(ex.rval(ov), callee)
    else:
        lv = ov
    v = ex.rval(lv)
    if name in ('operator long', 'operator bool', 'operator streamoff') and not isinstance(v, (VecV,)):
        if name == 'operator bool':
            if isinstance(v, (OutS, InS, HostS)):
                return NOT(v.bad)
            return ex.truth(v)
        return v
    if isinstance(v, (VecV, ArrV)) or (isinstance(v, Opaque) and False):
        f = VEC.get(name)
        if f is None:
            raise Unsupported('container member %s' % name)
        if not isinstance(lv, LV):
            lv = ex.new_cell(v)
        return f(ex, lv, v, n, args)
    if isinstance(v, (OutS, InS, HostS)):
        f = STREAM.get(name)
        if f is None:
            raise Unsupported('stream member ' + name)
        return f(ex, lv, v, n, args)
    h = ex.ghost.get('stream_member')
    if h is not None:
        r = h(ex, lv, v, name, n, args)
        if r is not NotImplemented:
            return r
    if isinstance(v, MapV):
        f = MAP.get(name)
        if f is None:
            raise Unsupported('map member ' + name)
        return f(ex, lv, v, n, args)
    if isinstance(v, (PtrV, NullV)):
        if name == 'get':
            return v
        if name == 'reset' and not args:
            ex.store(lv, NULL)
            return None
        if name == 'release':
            ex.store(lv, NULL)
            return v
        if name == 'operator->':
            return v
        if name == 'operator*':
            return ex.deref(v, n)
    if isinstance(v, Opaque):
        for a in args:
            try:
                ex.ev(a)
            except Unsupported:
                pass
        return Opaque('%s.%s' % (v.why, name))
    raise Unsupported('member %s of %r' % (name, v))


def idx_arg(ex, a):
    t = ex.T(a.ty)
    if t.k == 'ref':
        t = t.to
    return convert(ex.rval(ex.ev(a)), t.w, t.s, 64)


def elem_arg(ex, to, a):
    """argument converted to the element type"""
    v = ex.init_value(to, a)
    t = ex.T(a.ty)
    if t.k == 'ref':
        t = t.to
    if to is not None and to.k == 'int' and t.k == 'int':
        v = convert(v, t.w, t.s, to.w)
    return v


def v_size(ex, lv, v, n, a):
    return ex.length(v)


def v_empty(ex, lv, v, n, a):
    return EQ(ex.length(v), 0)


def v_begin(ex, lv, v, n, a):
    return PtrV(lv, 0)


def v_end(ex, lv, v, n, a):
    return PtrV(lv, ex.length(v))


def v_clear(ex, lv, v, n, a):
    ex.store(lv, VecV(v.to, ()))


def v_reserve(ex, lv, v, n, a):
    c = idx_arg(ex, a[0])
    return None


def v_push_back(ex, lv, v, n, a):
    x = elem_arg(ex, v.to, a[0])
    ex.store(lv, ex.vec_append(ex.load(lv), x))
    return lv.index(v.n)


def v_emplace_back(ex, lv, v, n, a):
    if v.to.k == 'rec':
        x = ex.load(make_rec(ex, v.to.name, a, n))
    elif a:
        x = elem_arg(ex, v.to, a[0])
    else:
        x = ex.default_value(v.to)
    ex.store(lv, ex.vec_append(ex.load(lv), x))
    return lv.index(v.n)


def v_pop_back(ex, lv, v, n, a):
    ex.prove(NOT(EQ(v.n, 0)), 'pop_back of a non-empty vector', n, 'ub')
    if v.items is not None:
        if not v.items:
            raise X.Infeasible()
        ex.store(lv, VecV(v.to, v.items[:-1]))
    else:
        ex.store(lv, VecV(v.to, None, sub(v.n, 1), v.fn))


def v_resize(ex, lv, v, n, a):
    c = idx_arg(ex, a[0])
    c = conc(c) if is_sym(c) else c
    d = elem_arg(ex, v.to, a[1]) if len(a) > 1 else None
    h = ex.ghost.get('on_resize')
    if h:
        h(ex, lv, v, c, n)
    if isinstance(c, int) and v.items is not None and c <= 4096:
        it = list(v.items[:c])
        while len(it) < c:
            it.append(d if d is not None else ex.default_value(v.to))
        ex.store(lv, VecV(v.to, it))
        return
    dv = d if d is not None else ex.default_value(v.to)
    old = v
    if v.items is not None and not v.items:
        ex.store(lv, VecV(v.to, None, c, lambda i, dv=dv: dv, ('new', 'resize')))
        return

    def fn(i, old=old, dv=dv):
        cc = ULT(i, old.n)
        if cc is True:
            return old.get(i)
        if cc is False:
            return dv
        return vite(cc, old.get(i), dv, old.to)
    ex.store(lv, VecV(v.to, None, c, fn))


def v_assign(ex, lv, v, n, a):
    t0 = ex.T(a[0].ty)
    x = ex.rval(ex.ev(a[0]))
    if isinstance(x, PtrV):
        l, lo, hi = it_range(ex, x, ex.ev(a[1]), 'assign')
        check_range(ex, l, lo, hi, n, 'assign')
        ex.store(lv, slice_vec(ex, ex.load(l), lo, hi))
        return
    c = convert(x, t0.w, t0.s, 64)
    d = elem_arg(ex, v.to, a[1])
    if isinstance(c, int) and c <= 4096:
        ex.store(lv, VecV(v.to, [d] * c))
    else:
        ex.store(lv, VecV(v.to, None, c, lambda i, d=d: d))


def v_insert(ex, lv, v, n, a):
    p = ex.rval(ex.ev(a[0]))
    if len(a) == 3:
        l, lo, hi = it_range(ex, ex.ev(a[1]), ex.ev(a[2]), 'insert')
        check_range(ex, l, lo, hi, n, 'insert')
        src = slice_vec(ex, ex.load(l), lo, hi)
    else:
        src = VecV(v.to, (elem_arg(ex, v.to, a[1]),))
    v = ex.load(lv)
    if ex.entails(zb(EQ(p.idx, v.n))):
        ex.store(lv, ex.vec_concat(v, src))
        return PtrV(lv, p.idx)
    if isinstance(p.idx, int) and v.items is not None and src.items is not None:
        ex.store(lv, VecV(v.to, v.items[:p.idx] + src.items + v.items[p.idx:]))
        return PtrV(lv, p.idx)
    if isinstance(p.idx, int) and p.idx == 0:
        ex.store(lv, ex.vec_concat(src, v))
        return PtrV(lv, 0)
    raise Unsupported('insert in the middle')


def v_erase(ex, lv, v, n, a):
    raise Unsupported('erase')


def v_at(ex, lv, v, n, a):
    i = idx_arg(ex, a[0])
    if not ex.decide(ULT(i, ex.length(v))):
        raise X.CppThrow('std::out_of_range', n)
    return lv.index(i)


def v_front(ex, lv, v, n, a):
    ex.prove(NOT(EQ(ex.length(v), 0)), 'front() of a non-empty container', n, 'ub')
    return lv.index(0)


def v_back(ex, lv, v, n, a):
    ex.prove(NOT(EQ(ex.length(v), 0)), 'back() of a non-empty container', n, 'ub')
    return lv.index(sub(ex.length(v), 1))


def v_data(ex, lv, v, n, a):
    return PtrV(lv, 0)


def v_fill(ex, lv, v, n, a):
    d = elem_arg(ex, v.to, a[0])
    if isinstance(v, ArrV):
        ex.store(lv, ArrV(v.to, [d] * len(v.items)))
    else:
        raise Unsupported('fill')


def v_opassign(ex, lv, v, n, a):
    x = ex.rval(ex.ev_init(a[0]))
    ex.store(lv, coerce_container(ex, v, x))
    return lv


def coerce_container(ex, old, x):
    if isinstance(x, Opaque):
        return x
    if isinstance(old, VecV) and isinstance(x, PtrV):
        return cstring(ex, x)
    if isinstance(old, ArrV) and isinstance(x, VecV):
        return ArrV(old.to, x.items)
    if isinstance(old, VecV) and isinstance(x, ArrV):
        return VecV(old.to, x.items)
    return x


def v_append(ex, lv, v, n, a):
    x = ex.rval(ex.ev(a[0]))
    if isinstance(x, PtrV) and len(a) == 2:
        l, lo, hi = it_range(ex, x, ex.ev(a[1]), 'append')
        x = slice_vec(ex, ex.load(l), lo, hi)
    elif isinstance(x, PtrV):
        x = cstring(ex, x)
    elif len(a) == 2:
        c = idx_arg(ex, a[0])
        d = elem_arg(ex, v.to, a[1])
        x = VecV(v.to, [d] * c) if isinstance(c, int) else VecV(v.to, None, c, lambda i, d=d: d)
    ex.store(lv, ex.vec_concat(ex.load(lv), x))
    return lv


VEC = {
    'size': v_size, 'length': v_size, 'empty': v_empty, 'begin': v_begin, 'cbegin': v_begin, 'end': v_end, 'cend': v_end, 'clear': v_clear,
    'reserve': v_reserve, 'push_back': v_push_back, 'emplace_back': v_emplace_back, 'pop_back': v_pop_back, 'resize': v_resize,
    'assign': v_assign, 'insert': v_insert, 'erase': v_erase, 'at': v_at, 'front': v_front, 'back': v_back, 'data': v_data,
    'c_str': v_data, 'fill': v_fill, 'operator=': v_opassign, 'append': v_append, 'shrink_to_fit': lambda ex, lv, v, n, a: None,
}


# ------------------------------------------------------------------ streams
SEEK_BEG, SEEK_CUR, SEEK_END = 0, 1, 2


def s_good(ex, lv, s, n, a):
    return NOT(s.bad)


def s_fail(ex, lv, s, n, a):
    return s.bad


def s_rdstate(ex, lv, s, n, a):
    return Opaque('rdstate')


def scalar_octet(ex, node, p, cnt):
    """&x with x an integer of one octet, and one octet asked for"""
    if not isinstance(p, PtrV) or p.idx is not None or not (isinstance(cnt, int) and cnt == 1):
        return False
    while node.kind in ('ImplicitCastExpr', 'ParenExpr', 'CXXReinterpretCastExpr', 'CStyleCastExpr', 'ExprWithCleanups'):
        node = node.inner[0]
    if node.kind != 'UnaryOperator' or node.get('opcode') != '&':
        return False
    t = ex.T(node.inner[0].ty)
    t = t.to if t.k == 'ref' else t
    return t.k == 'int' and t.w == 8


def s_write(ex, lv, s, n, a):
    p = ex.rval(ex.ev(a[0]))
    t = ex.T(a[1].ty)
    cnt = convert(ex.rval(ex.ev(a[1])), t.w, t.s, 64)
    if not isinstance(p, PtrV):
        if isinstance(cnt, int) and cnt == 0:
            return lv
        raise Unsupported('ostream::write of %r' % (p,))
    if scalar_octet(ex, a[0], p, cnt):
        out_write(ex, lv, (Tok(8, ex.load(p.lv)),), n)
        return lv
    i = 0 if p.idx is None else p.idx
    check_range(ex, p.lv, i, add(i, cnt), n, 'ostream::write')
    v = slice_vec(ex, ex.load(p.lv), i, add(i, cnt))
    out_write(ex, lv, vec_toks(ex, v), n)
    return lv


def s_put(ex, lv, s, n, a):
    t = ex.T(a[0].ty)
    out_write(ex, lv, (Tok(8, convert(ex.rval(ex.ev(a[0])), t.w, t.s, 8)),), n)
    return lv


def s_read(ex, lv, s, n, a):
    p = ex.rval(ex.ev(a[0]))
    t = ex.T(a[1].ty)
    cnt = convert(ex.rval(ex.ev(a[1])), t.w, t.s, 64)
    if not isinstance(p, PtrV):
        raise Unsupported('istream::read into %r' % (p,))
    if scalar_octet(ex, a[0], p, cnt):
        r = in_bytes_vec(ex, lv, cnt, U8, n)
        if r is not None:
            ex.store(p.lv, r.items[0] if r.items is not None else r.fn(0))
        return lv
    check_range(ex, p.lv, p.idx or 0, add(p.idx or 0, cnt), n, 'istream::read')
    d = ex.load(p.lv)
    r = in_bytes_vec(ex, lv, cnt, U8, n)
    if r is None:
        return lv
    if r.items is not None:
        for j, x in enumerate(r.items):
            ex.store(p.lv.index(add(p.idx or 0, j)), x)
    else:
        if not (isinstance(p.idx, int) and p.idx == 0 and ex.entails(zb(EQ(cnt, ex.length(d))))):
            raise Unsupported('partial istream::read')
        ex.store(p.lv, VecV(d.to, None, r.n, r.fn, r.tag))
    return lv


def s_tellg(ex, lv, s, n, a):
    if s.bad is not False and ex.decide(zb(s.bad)):
        return M64
    if io(ex):
        return M64      # the state of the stream does not change
    if isinstance(s, HostS):
        return s.bpos
    if isinstance(s, InS):
        b = lin_bytes(s.pos)
        if b is None:
            raise Unsupported('tellg at an unaligned position')
        if isinstance(s, InS):
            m = dict(ex.ghost.get('marks') or {})
            m[(lv.cell, lv.path)] = (m.get((lv.cell, lv.path)) or ()) + ((b, s),)
            ex.ghost['marks'] = m
        return b
    raise Unsupported('tellg')


def s_seekg(ex, lv, s, n, a):
    t = ex.T(a[0].ty)
    off = ex.rval(ex.ev(a[0]))
    if t.k == 'int' and not isinstance(off, Opaque):
        off = convert(off, t.w, t.s, 64)
    way = ex.rval(ex.ev(a[1])) if len(a) > 1 else SEEK_BEG
    way = seekdir(way)
    if s.bad is not False and ex.decide(zb(s.bad)):
        return lv
    if io(ex):
        ex.store(lv, s.repl(bad=True))
        return lv
    if isinstance(s, HostS):
        seek_host(ex, lv, s, off, way, n)
        return lv
    if isinstance(s, InS):
        cur = lin_bytes(s.pos)
        if cur is None:
            raise Unsupported('seekg at an unaligned position')
        if way == SEEK_CUR:
            off = add(cur, off)
        elif way == SEEK_END:
            off = add(add(cur, bytes_of(s.toks)), off)
        for b, st in reversed((ex.ghost.get('marks') or {}).get((lv.cell, lv.path)) or ()):
            if ex.entails(zb(EQ(b, off))):
                ex.store(lv, st)
                return lv
        # forward
        toks = s.toks
        pos = s.pos
        cur_b = cur
        while True:
            if ex.entails(zb(EQ(cur_b, off))):
                ex.store(lv, s.repl(toks=toks, pos=mul(off, 8)))
                return lv
            if not toks:
                raise Unsupported('seekg beyond the known content')
            t0 = toks[0]
            if isinstance(t0, Barrier):
                raise Unsupported('seekg across a loop iteration')
            q = take(toks, 8)
            if q is None or q == 'eof':
                if isinstance(t0, Seg):
                    nb = bytes_of((t0,))
                    if nb is None:
                        raise Unsupported('seekg over unaligned segment')
                    if isinstance(t0, Seg) and not ex.entails(ULE(add(cur_b, nb), off)):
                        one = t0.toks
                        if len(one) == 1 and isinstance(one[0], Tok) and one[0].w == 8:
                            skip = sub(off, cur_b)
                            if ex.entails(zb(ULE(skip, t0.n))):
                                k2 = fresh_k()
                                rest = mkseg(sub(t0.n, skip), k2, tsubst(one, [(t0.k, k2 + bv(skip, 64))]))
                                ex.store(lv, s.repl(toks=rest + tuple(toks[1:]), pos=mul(off, 8)))
                                return lv
                        raise Unsupported('seekg into a segment')
                    toks = toks[1:]
                    cur_b = add(cur_b, nb)
                    continue
                raise Unsupported('seekg')
            toks = q[1]
            cur_b = add(cur_b, 1)
    raise Unsupported('seekg')


def seekdir(way):
    if isinstance(way, FnV):
        nm = way.ref[1] if len(way.ref) > 1 else ''
        nm = str(way.ref)
        for x, v in (('beg', SEEK_BEG), ('cur', SEEK_CUR), ('end', SEEK_END)):
            if "'" + x + "'" in nm or '::' + x in nm:
                return v
    if isinstance(way, int):
        return way
    raise Unsupported('seek direction %r' % (way,))


def seek_host(ex, lv, s, off, way, n):
    """seekg on an arbitrary stream.  A stringbuf/filebuf seek beyond the end: stringbuf fails, filebuf
    succeeds; both outcomes are explored.  Negative targets always fail."""
    total = s.total
    if way == SEEK_CUR:
        tgt = add(s.bpos, off)
    elif way == SEEK_END:
        tgt = add(total, off)
    else:
        tgt = off
    if ex.decide(ULE(tgt, total)):
        ex.store(lv, s.repl(bpos=tgt, pend=0))
        return
    neg = conc(z3.Extract(63, 63, bv(tgt, 64)) == 1) if is_sym(tgt) else bool(tgt >> 63)
    if ex.decide(neg) or ex.choose(2, 'seek') == 0:
        ex.store(lv, s.repl(bad=True))
        return
    ex.store(lv, s.repl(bpos=tgt, pend=0))


def s_tellp(ex, lv, s, n, a):
    if not isinstance(s, OutS):
        raise Unsupported('tellp')
    if s.bad is not False and ex.decide(zb(s.bad)):
        return M64
    if io(ex):
        return M64      # the state of the stream does not change
    b = bytes_of(s.toks)
    if b is None:
        raise Unsupported('tellp at an unaligned position')
    return add(s.pos, b)


def s_seekp(ex, lv, s, n, a):
    if not isinstance(s, OutS):
        raise Unsupported('seekp')
    t = ex.T(a[0].ty)
    off = ex.rval(ex.ev(a[0]))
    if t.k == 'int' and not isinstance(off, Opaque):
        off = convert(off, t.w, t.s, 64)
    way = seekdir(ex.rval(ex.ev(a[1]))) if len(a) > 1 else SEEK_BEG
    if way != SEEK_BEG:
        raise Unsupported('relative seekp')
    s = ex.load(lv)
    if s.bad is not False and ex.decide(zb(s.bad)):
        return lv
    if io(ex):
        ex.store(lv, s.repl(bad=True, failed=True))
        return lv
    # a negative target fails
    neg = conc(z3.Extract(63, 63, bv(off, 64)) == 1) if is_sym(off) else bool(off >> 63)
    if ex.decide(neg):
        ex.store(lv, s.repl(bad=True, failed=True))
        return lv
    b = bytes_of(s.toks)
    if b is not None and ex.entails(zb(EQ(add(s.pos, b), off))):
        return lv
    if any(isinstance(t, Base) for t in s.toks):
        raise Unsupported('seekp in a stream with unknown content')
    ch = s.chunks + (((s.pos, s.toks),) if s.toks else ())
    ex.store(lv, s.repl(toks=(), pos=off, chunks=ch))
    return lv


def s_clear(ex, lv, s, n, a):
    ex.store(lv, s.repl(bad=False))


STREAM = {'good': s_good, 'fail': s_fail, 'bad': s_fail, 'rdstate': s_rdstate, 'write': s_write, 'read': s_read, 'tellg': s_tellg,
          'seekg': s_seekg, 'tellp': s_tellp, 'seekp': s_seekp, 'put': s_put, 'clear': s_clear, 'flush': lambda ex, lv, s, n, a: lv,
          'operator!': s_fail, 'eof': lambda ex, lv, s, n, a: s.bad, 'operator bool': s_good}


# ------------------------------------------------------------------ maps (finite, concrete set of keys)
def map_find(ex, v, key):
    for i, (k, x) in enumerate(v.items):
        if ex.decide(ex.veq(k, key)):
            return i
    return None


def m_find(ex, lv, v, n, a):
    i = map_find(ex, v, ex.rval(ex.ev_init(a[0])))
    return PtrV(lv, len(v.items) if i is None else i)


def m_contains(ex, lv, v, n, a):
    return map_find(ex, v, ex.rval(ex.ev_init(a[0]))) is not None


def m_end(ex, lv, v, n, a):
    return PtrV(lv, len(v.items))


def m_begin(ex, lv, v, n, a):
    return PtrV(lv, 0)


MAP = {'find': m_find, 'contains': m_contains, 'end': m_end, 'cend': m_end, 'begin': m_begin,
       'count': lambda ex, lv, v, n, a: 1 if m_contains(ex, lv, v, n, a) else 0,
       'size': lambda ex, lv, v, n, a: len(v.items)}


# ------------------------------------------------------------------ operators
def operator_call(ex, callee, n):
    name = callee.ref[1] if callee.ref else callee.get('name')
    a = n.inner[1:]
    op = name[len('operator'):] if name.startswith('operator') else name
    if op == '<<':
        t0 = ex.T(a[0].ty)
        if t0.k in ('stream', 'opaque') or t0.k == 'ref':
            return ex.ev(a[0])
    x = ex.ev(a[0])
    xv = ex.rval(x)
    h = ex.ghost.get('operator')
    if h is not None:
        r = h(ex, op, x, xv, n, a)
        if r is not NotImplemented:
            return r
    if op == '[]':
        if isinstance(xv, MapV):
            key = ex.rval(ex.ev_init(a[1]))
            i = map_find(ex, xv, key)
            if i is None:
                ex.store(x, MapV(xv.items + ((key, NULL),)))
                i = len(xv.items)
            return LV(x.cell, x.path + (('map', i),))
        if isinstance(xv, Opaque):
            raise Unsupported('index of opaque')
        lv = x if isinstance(x, LV) else ex.new_cell(xv)
        i = idx_arg(ex, a[1])
        if isinstance(xv, PtrV):
            ex.bounds(xv.lv, add(xv.idx, i), n)
            return xv.lv.index(add(xv.idx, i))
        ex.in_bounds(i, ex.length(xv), n)
        return lv.index(i)
    if op == '()':
        args = [ex.ev_init(b) for b in a[1:]]
        return ex.call_value(xv, args, n)
    if op == '*':
        if isinstance(xv, (BackIns, StreamIt)):
            return ('outit', x)
        return ex.deref(xv, n)
    if op == '->':
        return xv
    if op in ('++', '--'):
        if not isinstance(xv, PtrV):
            if isinstance(xv, (BackIns, StreamIt)):
                return x
            raise Unsupported('operator++ on %r' % (xv,))
        nv = PtrV(xv.lv, add(xv.idx, 1) if op == '++' else sub(xv.idx, 1))
        ex.store(x, nv)
        return xv if len(a) > 1 else x
    if op in ('==', '!='):
        y = ex.rval(ex.ev_init(a[1]))
        if isinstance(xv, (PtrV, NullV)) or isinstance(y, (PtrV, NullV)):
            if isinstance(xv, VecV) and isinstance(y, PtrV):
                r = ex.veq(xv, cstring(ex, y))
            else:
                r = ex.ptrop('==', xv, y, None, None, n)
        elif isinstance(xv, Opaque) or isinstance(y, Opaque):
            raise Unsupported('comparison of opaque')
        elif isinstance(xv, VecV) and isinstance(y, ArrV):
            r = ex.veq(xv, VecV(xv.to, y.items))
        else:
            r = ex.veq(xv, y)
        return r if op == '==' else NOT(r)
    if op in ('<', '>', '<=', '>=', '+', '-', '+=', '-='):
        yn = a[1]
        y = ex.rval(ex.ev_init(yn))
        ty = ex.T(yn.ty)
        if ty.k == 'ref':
            ty = ty.to
        if isinstance(xv, PtrV) and xv.idx is not None and op in ('+=', '-='):
            i = convert(y, ty.w, ty.s, 64)
            ex.store(x, PtrV(xv.lv, add(xv.idx, i) if op == '+=' else sub(xv.idx, i)))
            return x
        if isinstance(xv, VecV) and op == '+=':
            if isinstance(y, VecV):
                z = y
            elif isinstance(y, PtrV):
                z = cstring(ex, y)
            elif isinstance(y, Opaque):
                ex.store(x, Opaque('string'))
                return x
            else:
                z = None
            if z is None:
                ex.store(x, ex.vec_append(xv, convert(y, ty.w, ty.s, 8)))
            else:
                ex.store(x, ex.vec_concat(xv, z))
            return x
        if op == '+' and (isinstance(xv, (VecV, Opaque)) or isinstance(y, (VecV, Opaque))):
            if isinstance(xv, Opaque) or isinstance(y, Opaque):
                return Opaque('string')
            if isinstance(xv, PtrV):
                xv = cstring(ex, xv)
            if isinstance(y, PtrV):
                y = cstring(ex, y)
            if isinstance(y, VecV) and isinstance(xv, VecV):
                return ex.vec_concat(xv, y)
            if isinstance(xv, VecV):
                return ex.vec_append(xv, convert(y, ty.w, ty.s, 8))
            raise Unsupported('string +')
        if isinstance(xv, PtrV):
            return ex.ptrop(op, xv, y, ex.T(a[0].ty), ty, n)
        if op in ('-', '+') and (isinstance(xv, int) or is_sym(xv)):
            # fpos arithmetic
            yy = convert(y, ty.w, ty.s, 64) if ty.k == 'int' else y
            return add(xv, yy) if op == '+' else sub(xv, yy)
        if op in ('<', '>', '<=', '>=') and (isinstance(xv, int) or is_sym(xv)):
            return ex.binop(op, xv, y, I64, I64, BOOL, n)
        raise Unsupported('operator %s on %r' % (op, xv))
    if op == '=':
        y = ex.rval(ex.ev_init(a[1]))
        if isinstance(x, tuple) and x and x[0] == 'outit':
            assign_through(ex, x[1], y, n)
            return x
        if isinstance(xv, (VecV, ArrV)):
            ex.store(x, coerce_container(ex, xv, y))
        else:
            ex.store(x, y)
        return x
    if op == 'bool':
        return ex.truth(xv)
    if op == '!':
        if isinstance(xv, (OutS, InS, HostS)):
            return xv.bad
        return NOT(ex.truth(xv))
    raise Unsupported('operator %s' % name)


def cstring(ex, p):
    v = ex.load(p.lv)
    if isinstance(v, Opaque):
        return Opaque('string')
    items = v.items
    if items is None or not isinstance(p.idx, int):
        raise Unsupported('symbolic C string')
    out = []
    for x in items[p.idx:]:
        if not isinstance(x, int):
            raise Unsupported('symbolic C string')
        if x == 0:
            return VecV(I8, out)
        out.append(x)
    return VecV(I8, out)


# ------------------------------------------------------------------ constructors of library types
def construct(ex, t, n):
    args = [a for a in n.inner if not ex.is_defarg(a)]
    if t.k == 'ref':
        t = t.to
    if t.k in ('vec', 'str'):
        if not args:
            return VecV(t.to, ())
        a0 = args[0]
        v = ex.rval(ex.ev_init(a0))
        if len(args) == 1:
            if isinstance(v, (VecV, Opaque)):
                return v
            if isinstance(v, ArrV):
                return VecV(t.to, v.items)
            if isinstance(v, PtrV):
                return cstring(ex, v)
            at = ex.T(a0.ty)
            if at.k == 'int':
                c = convert(v, at.w, at.s, 64)
                d = ex.default_value(t.to)
                if isinstance(c, int) and c <= 4096:
                    return VecV(t.to, [d] * c)
                return VecV(t.to, None, c, lambda i, d=d: d, ('new', 'ctor'))
            raise Unsupported('container constructor from %r' % (v,))
        if isinstance(v, PtrV):
            w = ex.rval(ex.ev(args[1]))
            if isinstance(w, PtrV):
                lv, lo, hi = it_range(ex, v, w, 'range constructor')
                check_range(ex, lv, lo, hi, n, 'range constructor')
                return slice_vec(ex, ex.load(lv), lo, hi)
            if isinstance(w, Opaque):
                return cstring(ex, v)
            tw = ex.T(args[1].ty)
            c = convert(w, tw.w, tw.s, 64)
            check_range(ex, v.lv, v.idx, add(v.idx, c), n, 'string constructor')
            return slice_vec(ex, ex.load(v.lv), v.idx, add(v.idx, c))
        at = ex.T(a0.ty)
        if at.k == 'int' and len(args) == 2:
            c = convert(v, at.w, at.s, 64)
            d = elem_arg(ex, t.to, args[1])
            if isinstance(c, int) and c <= 4096:
                return VecV(t.to, [d] * c)
            return VecV(t.to, None, c, lambda i, d=d: d)
        raise Unsupported('container constructor')
    if t.k == 'arr':
        if not args:
            return ex.blank_ty(t)
        return ex.rval(ex.ev_init(args[0]))
    if t.k == 'ptr':
        if not args:
            return NULL
        return ex.rval(ex.ev_init(args[0]))
    if t.k == 'int' and t.name is None:
        # fpos
        if not args:
            return 0
        at = ex.T(args[0].ty)
        v = ex.rval(ex.ev(args[0]))
        return convert(v, at.w, at.s, 64) if at.k == 'int' and at.w != 64 else v
    if t.k == 'map':
        return MapV()
    if t.k == 'fnobj':
        if not args:
            return Opaque('empty function')
        return ex.rval(ex.ev_init(args[0]))
    if t.k == 'stream':
        if args:
            v = ex.rval(ex.ev_init(args[0]))
            if isinstance(v, VecV):
                return InS(vec_toks(ex, v))
        return OutS()
    if t.k == 'lambda':
        return ex.rval(ex.ev_init(args[0]))
    nm = t.name or ''
    if 'streambuf_iterator' in nm:
        if not args:
            return StreamIt(None, 'end')
        return StreamIt(ex.ev(args[0]), 'in' if 'istreambuf' in nm else 'out')
    if 'boost::factory<' in nm:
        if args:
            return ex.rval(ex.ev_init(args[0]))
        q = nm[nm.index('<') + 1:nm.rindex('>')].strip().rstrip('*').strip()
        return FnV(('factory', ex.T(q).name))
    if t.k == 'opaque':
        if len(args) == 1:
            v = ex.rval(ex.ev_init(args[0]))
            if isinstance(v, (int, BackIns, StreamIt, PtrV)) or is_sym(v):
                return v
        h = ex.ghost.get('construct')
        if h:
            r = h(ex, t, n, args)
            if r is not NotImplemented:
                return r
        return Opaque(nm)
    raise Unsupported('construction of %r' % (t,))
