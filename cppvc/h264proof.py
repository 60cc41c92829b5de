"""C10: from Annex-B byte strings to length-prefixed units.

A start code at i is 00 00 00 01 or 00 00 01 with at least one byte behind it.  The unit at a
start code s has the header byte behind the code and ends at the next start code, or with the
data.  find_next_nal_unit() is proved against that definition with a loop invariant, and
H264Track::addData() against its contract, with an invariant over the units seen so far."""
import z3
from .vals import *
from .std import *
from . import exec as X
from .exec import CppThrow, Infeasible
from .codecproof import same_lv
from .headerproof import fn, NS
from .trackproof import TR, BX, T, g, field, overload

MAXN = 1 << 47


class Data(object):
    def __init__(self, ex, name='data'):
        self.v = ex.sym(Ty('vec', to=U8), name, [])
        self.lv = ex.new_cell(self.v)
        self.n = self.v.n
        ex.assume(ULE(self.n, MAXN))

    def B(self, i):
        return self.v.fn(bv(i, 64))

    def is_(self, i, *bs):
        return AND(*[EQ(self.B(add(i, j)), b, 8) for j, b in enumerate(bs)])

    def sc4(self, i):
        return AND(ULT(i, MAXN), ULT(add(i, 4), self.n), self.is_(i, 0, 0, 0, 1))

    def sc3(self, i):
        return AND(ULT(i, MAXN), ULT(add(i, 3), self.n), self.is_(i, 0, 0, 1))

    def SC(self, i):
        return OR(self.sc4(i), self.sc3(i))

    def k(self, i):
        return ITE(self.sc4(i), 4, 3, 64)


# ---------------------------------------------------------------- the scan for the next unit
class Scan(object):
    def __init__(self, ex, idx, scs, hdr, flags):
        self.i, self.c, self.h, self.f = idx, scs, hdr, flags
        self.d, self.s = ex.ghost['nal']
        self.x = z3.BitVec('x!nal', 64)

    @staticmethod
    def match(ex, locs, node):
        if 'nal' not in ex.ghost:
            return None
        d, s = ex.ghost['nal']
        if len(locs) == 1 and locs[0].kind == 'int' and locs[0].w == 64 and is_sym(locs[0].v0) and ex.entails(zb(AND(d.SC(s), EQ(locs[0].v0, add(s, d.k(s)))))):
            return Scan(ex, locs[0], None, None, [])      # the start code was looked at before the loop
        w8 = [l for l in locs if l.kind == 'int' and l.w == 8]
        w64 = [l for l in locs if l.kind == 'int' and l.w == 64]
        fl = [l for l in locs if l.kind == 'bool']
        idx = [l for l in w64 if is_sym(l.v0) and conc(EQ(l.v0, s)) is True]
        scs = [l for l in w64 if l not in idx]
        if len(w8) != 1 or len(idx) != 1 or len(scs) != 1 or len(fl) > 1 or len(locs) != 3 + len(fl):
            return None
        return Scan(ex, idx[0], scs[0], w8[0], fl)

    def cond(self, ex):
        s, d, x = self.s, self.d, self.x
        if self.c is None:
            i, sk = self.i.get(ex), add(s, d.k(s))
            return AND(ULE(sk, i), ULE(i, d.n), IMP(AND(ULE(sk, x), ULT(x, i)), NOT(d.SC(x))))
        i, h = self.i.get(ex), self.h.get(ex)
        c = self.c.get(ex)
        found = self.f[0].get(ex) if self.f else NOT(EQ(h, 0, 8))
        first = AND(EQ(i, s), NOT(found))
        if not (is_sym(c) or isinstance(c, int)):
            later = False
        else:
            sk = add(s, d.k(s))
            later = AND(found, d.SC(s), ULE(sk, i), ULE(i, d.n), EQ(c, d.k(s)), EQ(h, d.B(sk), 8), IMP(AND(ULE(sk, x), ULT(x, i)), NOT(d.SC(x))))
        return OR(first, later)

    def entry(self, ex, node):
        ex.prove(self.cond(ex), 'loop invariant at entry', node)

    def assume(self, ex):
        ex.assume(self.cond(ex))

    def variant(self, ex):
        return sub(self.d.n, self.i.get(ex))

    def preserved(self, ex, node):
        ex.prove(self.cond(ex), 'loop invariant preserved: the first start code is known, and no other one was passed', node)

    def after(self, ex):
        pass


def u_find(ex):
    def run():
        d = Data(ex)
        s = z3.BitVec('start', 64)
        ex.assume(ULE(s, MAXN))
        ex.ghost['nal'] = (d, s)
        ex.ghost['loopspec'] = [Scan.match]
        try:
            r = ex.call_entry(fn(ex.P, TR + 'find_next_nal_unit')[0], None, [PtrV(d.lv, 0), d.n, s], None)
        except CppThrow as e:
            ex.prove(NOT(d.SC(s)), 'throws only when no unit starts there', e.node)
            ex.prove(e.ty.endswith('runtime_error'), 'class of the exception')
            raise Infeasible()
        r = ex.load(r) if isinstance(r, LV) else r
        k, st, en, h = (r.f[n] for n in ('start_code_size', 'start', 'end', 'header'))
        x = z3.BitVec('x!nal', 64)
        ex.prove(d.SC(s), 'returns only when a unit starts there')
        ex.prove(EQ(st, s), 'start of the unit')
        ex.prove(EQ(k, d.k(s)), 'size of the start code')
        ex.prove(EQ(h, d.B(add(s, d.k(s))), 8), 'header byte of the unit')
        ex.prove(AND(ULE(add(s, d.k(s)), en), ULE(en, d.n)), 'the unit lies inside the data, behind its start code')
        ex.prove(OR(EQ(en, d.n), d.SC(en)), 'the unit ends at a start code or with the data')
        ex.prove(IMP(AND(ULE(add(s, d.k(s)), x), ULT(x, en)), NOT(d.SC(x))), 'no start code inside the unit')
    return run


# ---------------------------------------------------------------- all units of an access unit
def END(s):
    return g('END!nal', s)


def POS(u):
    return g('POS!nal', u)


def CW(u):
    return g('CW!nal', u)


def CS(u):
    return g('CS!nal', u)


def CP(u):
    return g('CP!nal', u)


class Units(object):
    """u units were taken; what they left behind"""

    def __init__(self, ex):
        G = ex.ghost['units']
        self.__dict__.update(G)
        self.w = z3.BitVec('w!unit', 64)
        self.y = z3.BitVec('y!unit', 64)
        self.b = z3.BitVec('b!unit', 64)

    @staticmethod
    def match(ex, locs, node):
        G = ex.ghost.get('units')
        if G is None or G.get('used'):
            return None
        mine = {G['ucell'].cell, G['wcell'].cell}
        rest = [l for l in locs if l.cell not in mine]
        pos = [l for l in rest if l.kind == 'int' and l.w == 64 and l.cell != G['t'].this.cell]
        trk = [l for l in rest if l.cell == G['t'].this.cell]
        other = [l for l in rest if l not in pos and l not in trk]
        if len(pos) != 1 or other:
            return None
        u = Units(ex)
        u.start = pos[0]
        return u

    def typ(self, u):
        s = POS(u)
        return z3.ZeroExt(0, bv(self.d.B(add(s, self.d.k(s))), 8)) & 0x1f

    def fields(self, ex):
        f = ex.load(self.t.this).f
        return [f[self.nm[k]] for k in ('sps', 'pps', 'profile', 'compat', 'level')]

    def at(self, u):
        """definitions of the counters for the unit u"""
        t = self.typ(u)
        one = lambda c: ITE(c, bv(1, 64), bv(0, 64), 64)
        vcl = AND(z3.UGE(t, 1), z3.ULE(t, 5))
        return [EQ(CW(add(u, 1)), add(CW(u), one(vcl))), EQ(CS(add(u, 1)), add(CS(u), one(EQ(t, 7, 8)))), EQ(CP(add(u, 1)), add(CP(u), one(EQ(t, 8, 8)))),
                EQ(POS(add(u, 1)), END(POS(u)))]

    def size(self, u):
        return sub(END(POS(u)), add(POS(u), self.d.k(POS(u))))

    def psets(self, ex, v, v0, C, u, ty):
        n0 = v0.n
        r = [EQ(v.n, add(n0, C(u))), ULE(C(u), u)]
        w, y, b = self.w, self.y, self.b
        has = AND(ULT(w, u), EQ(self.typ(w), ty, 8))
        r.append(IMP(has, ULT(C(w), C(u))))
        x = ex.elem(v, add(n0, C(w))).f[self.nm['nal_unit']]
        s = POS(w)
        r.append(IMP(has, EQ(x.n, self.size(w))))
        r.append(IMP(AND(has, ULT(b, self.size(w))), EQ(x.get(b), self.d.B(add(add(s, self.d.k(s)), b)), 8)))
        o, o0 = ex.elem(v, y).f[self.nm['nal_unit']], ex.elem(v0, y).f[self.nm['nal_unit']]
        r.append(IMP(ULT(y, n0), AND(EQ(o.n, o0.n), IMP(ULT(b, o.n), EQ(o.get(b), o0.get(b), 8)))))
        return r

    def profile(self, ex, sps, p, c, l, u):
        p0, c0, l0 = self.prof0
        f = ex.elem(sps, 0).f[self.nm['nal_unit']]
        mine = AND(EQ(self.sps0.n, 0), ULT(0, CS(u)))
        fits, short = AND(mine, ULT(4, f.n)), OR(NOT(mine), ULT(f.n, 4))
        r = []
        for j, (a, a0) in enumerate(((p, p0), (c, c0), (l, l0))):
            r.append(IMP(fits, EQ(a, f.get(1 + j), 8)))
            r.append(IMP(short, EQ(a, a0, 8)))
        return r

    def cond(self, ex):
        u = ex.load(self.ucell)
        sps, pps, p, c, l = self.fields(ex)
        r = [EQ(self.start.get(ex), POS(u)), EQ(ex.load(self.wcell), CW(u)), ULE(u, self.start.get(ex)), ULT(u, MAXN)]
        r.append(OR(EQ(u, 0), self.d.SC(POS(u))))
        r += self.psets(ex, sps, self.sps0, CS, u, 7)
        r += self.psets(ex, pps, self.pps0, CP, u, 8)
        r += self.profile(ex, sps, p, c, l, u)
        return r

    def entry(self, ex, node):
        for t in self.cond(ex):
            ex.prove(t, 'loop invariant at entry', node)

    def assume(self, ex):
        for t in self.cond(ex):
            ex.assume(t)
        self.u = ex.load(self.ucell)
        for t in self.at(self.u):
            ex.assume(t)

    def variant(self, ex):
        return sub(self.d.n, self.start.get(ex))

    def preserved(self, ex, node):
        ex.prove(EQ(ex.load(self.ucell), add(self.u, 1)), 'every iteration takes one unit', node)
        for t in self.cond(ex):
            ex.prove(t, 'loop invariant preserved: what the units so far left behind', node)

    def after(self, ex):
        ex.ghost['units!at'] = self


def c_find(ex, e, this, args, node):
    G = ex.ghost['units']
    d = G['d']
    p, n, s = [ex.rval(a) for a in args]
    ex.prove(isinstance(p, PtrV) and same_lv(p.lv, d.lv) and AND(EQ(p.idx, 0), EQ(n, d.n)), 'find_next_nal_unit() gets the data', node, kind='pre')
    u = ex.load(G['ucell'])
    ex.prove(EQ(s, POS(u)), 'find_next_nal_unit() continues where the last unit ended', node, kind='pre')
    if not ex.decide(d.SC(s)):
        raise CppThrow('std::runtime_error', node)
    k = d.k(s)
    en, h = END(s), d.B(add(s, k))
    ex.assume(AND(ULE(add(s, k), en), ULE(en, d.n), OR(EQ(en, d.n), d.SC(en))))
    ex.assume(IMP(EQ(en, add(s, k)), EQ(h, 0, 8)))
    ex.store(G['ucell'], add(u, 1))
    return RecV(TR + 'NalUnit', {'start_code_size': k, 'start': s, 'end': en, 'header': h})


def c_add(ex, e, this, args, node):
    G = ex.ghost['units']
    d = G['d']
    args = [ex.rval(a) for a in args]
    if len(args) == 3:      # the overload that takes a vector passes its content on
        lv = args[1] if isinstance(args[1], LV) else ex.new_cell(args[1])
        args = [args[0], PtrV(lv, 0), ex.length(ex.load(lv)), args[2]]
    ts, p, n, key = args
    u = sub(ex.load(G['ucell']), 1)
    s = POS(u)
    at = add(s, d.k(s))
    size = sub(END(s), at)
    ex.prove(isinstance(p, PtrV), 'the sample is in memory', node)
    ex.prove(EQ(n, add(size, 4)), 'the sample is the unit and a 4-byte length', node)
    ex.prove(AND(EQ(ts, G['ts']), zb(EQ(zb(key), zb(G['key']))) if False else zb(key) == zb(G['key'])), 'time and key mark of the sample', node)
    ex.bounds(p.lv, p.idx, node)
    v = ex.load(p.lv)
    i = z3.BitVec('i!nalbyte', 64)
    for j in range(4):
        ex.prove(EQ(v.get(add(p.idx, j)), z3.Extract(31 - 8 * j, 24 - 8 * j, bv(size, 64)), 8), 'the 4-byte length', node)

    def thunk():
        ex.prove(EQ(v.get(add(p.idx, add(i, 4))), d.B(add(at, i)), 8), 'the bytes of the unit', node)
    for _ in ex.explore(thunk, assumptions=[zb(ULT(i, size))]):
        pass
    ex.prove(ULE(add(n, p.idx), v.n), 'the sample lies inside its memory', node)
    ex.store(G['wcell'], add(ex.load(G['wcell']), 1))


def u_add(ptr):
    def make(ex):
        def run():
            t = T(ex, 'H264Track')
            d = Data(ex)
            ex.assume(ULT(d.n, (1 << 32) - 8))
            u = ex.new_cell(bv(0, 64), U64)
            w = ex.new_cell(bv(0, 64), U64)
            nm = {'sps': field(ex, t.q, 'm_sequence_parameter_sets'), 'pps': field(ex, t.q, 'm_picture_parameter_sets'), 'profile': field(ex, t.q, 'm_profile'),
                  'compat': field(ex, t.q, 'm_profile_compatibility'), 'level': field(ex, t.q, 'm_level'), 'nal_unit': field(ex, BX + 'AVCParameterSet', 'm_nal_unit')}
            rec = Ty('rec', name=BX + 'AVCParameterSet')
            f = dict(ex.load(t.this).f)
            for k in ('sps', 'pps'):
                n0 = z3.BitVec('n0.' + k, 64)
                ex.assume(ULE(n0, MAXN))
                f[nm[k]] = VecV(rec, None, n0, lambda i, k=k: ex.sym(rec, k, [i]), ('src', k))
            for k in ('profile', 'compat', 'level'):
                f[nm[k]] = z3.BitVec(k + '0', 8)
            ex.store(t.this, RecV(t.q, f))
            ts, key = z3.BitVec('timestamp', 64), z3.Bool('is_key')
            G = dict(d=d, ucell=u, wcell=w, t=t, nm=nm, sps0=f[nm['sps']], pps0=f[nm['pps']], prof0=[f[nm[k]] for k in ('profile', 'compat', 'level')], ts=ts, key=key)
            ex.ghost['units'] = G
            ex.ghost['loopspec'] = [Units.match]
            ex.assume(EQ(POS(bv(0, 64)), 0))
            for C in (CW, CS, CP):
                ex.assume(EQ(C(bv(0, 64)), 0))
            v0 = ex.load(t.this)
            q = overload(ex, t.q, 'addData', 4, ptr)
            try:
                ex.call_entry(q, t.this, [ts] + ([PtrV(d.lv, 0), d.n] if ptr else [d.lv]) + [key], None, nocontract=True)
            except CppThrow as e:
                a = ex.ghost.get('units!at')
                if a is None:
                    raise Unsupported('addData: no loop invariant matched')
                ty = a.typ(a.u)
                ex.prove(OR(NOT(d.SC(POS(a.u))), EQ(ty, 0, 8), z3.UGT(ty, 8)), 'throws only for data without a start code and for units that are not slices, SEI or parameter sets', e.node)
                raise Infeasible()
            a = ex.ghost.get('units!at')
            if a is None:
                raise Unsupported('addData: no loop invariant matched')
            n = ex.load(u)
            ex.prove(AND(EQ(n, add(a.u, 1)), EQ(END(POS(a.u)), d.n)), 'the units cover the data to its end')
            ex.prove(EQ(ex.load(w), CW(n)), 'one sample for every slice')
            sps, pps, p, c, l = a.fields(ex)
            for x in a.psets(ex, sps, a.sps0, CS, n, 7):
                ex.prove(x, 'the sequence parameter sets are those of the data, in order')
            for x in a.psets(ex, pps, a.pps0, CP, n, 8):
                ex.prove(x, 'the picture parameter sets are those of the data, in order')
            for x in a.profile(ex, sps, p, c, l, n):
                ex.prove(x, 'profile, compatibility and level are those of the first sequence parameter set')
            v1 = ex.load(t.this)
            for k in v1.f:
                if k not in nm.values() and v1.f[k] is not v0.f[k]:
                    ex.prove(False, 'addData changes the track: ' + k)
        return run
    return make


def specs(P):
    con = {TR + 'find_next_nal_unit': c_find, TR + 'Track::addMdatData': c_add}
    return [('find_next_nal_unit', u_find, {}, True), ('H264Track::addData(pointer)', u_add(True), con, True), ('H264Track::addData(vector)', u_add(False), con, True)]
