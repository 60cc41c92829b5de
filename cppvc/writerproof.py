"""C11: the writers.  What BoxInfo::adjustOffsetAndSize() and write() do is the contract of C07, what the tracks do is the contract of C08 and C09:
   adjustOffsetAndSize(o): the tree is placed at o and gets its size; write(os): the tree is written at its place, over its size;
   Track::resetChunkOffsets(d): every chunk offset of the track grows by d; Track::appendTrakBoxInfo(moov): one more child below moov, with the chunk offsets as they are.

Class invariants.  SimpleWriter: the media data lies from ftyp + 16 on, `m_mdat_data_size` bytes so far, and the put position is at its end.
FaststartWriter: the intermediate file holds the `m_mdat_data_size` bytes added so far and its position is at its end."""
import z3
from .vals import *
from .streams import *
from .layout import compare as toks_same
from .std import *
from . import exec as X
from .exec import CppThrow, Infeasible
from .contracts import fail
from .codecproof import same_lv
from .headerproof import fn, NS, HT, BT, MAX32, want_toks
from .trackproof import field, node, low32, z64, TR, BX, BI, vec_same
from .trakproof import box, full_box, obj, compare, duration, fits32, ANY, Z, s4, boxtype

WN = NS + 'writer::'
SW, FW, WB = WN + 'SimpleWriter', WN + 'FaststartWriter', WN + 'Writer'
LIM = 1 << 60
EPOCH = 2082844800


def v64(n):
    return z3.BitVec(n, 64)


# ---------------------------------------------------------------- contracts
def at(ex, s, o):
    """continue at byte o of the stream"""
    st = ex.load(s)
    b = bytes_of(st.toks)
    if b is not None and ex.entails(zb(EQ(add(st.pos, b), o))):
        return
    ex.store(s, st.repl(toks=(), pos=o, chunks=st.chunks + (((st.pos, st.toks),) if st.toks else ())))


def tree_bytes(n):
    k = fresh_k()
    return (Seg(n, k, (Tok(8, uf('tree!', [k], z3.BitVecSort(8))),)),)


def c_adjust(ex, e, this, args, nd):
    """the tree is placed"""
    o = ex.rval(args[0])
    n = v64(ex.fresh_name('tree_size'))
    ex.assume(AND(ULE(8, n), ULE(n, LIM)))
    ex.ghost['placed'] = ex.ghost.get('placed', ()) + ((this, o, n),)
    sz = ex.ghost.get('moov_size')
    if sz is not None and same_lv(this, ex.ghost['moov']):
        ex.assume(ULE(n, ex.ghost['moov_max']))
        ex.store(sz, n)
        ex.store(ex.ghost['moov_at'], o)
    return n


def placed(ex, lv):
    r = [x for x in ex.ghost.get('placed', ()) if same_lv(x[0], lv)]
    if not r:
        ex.prove(False, 'a tree is written or measured only after it was placed', kind='pre')
        raise Infeasible()
    return r[-1][1], r[-1][2]


def c_size(ex, e, this, args, nd):
    if ex.ghost.get('moov') is not None and same_lv(this, ex.ghost['moov']) and ex.ghost.get('moov_size') is not None:
        return ex.load(ex.ghost['moov_size'])
    return placed(ex, this)[1]


def c_write(ex, e, this, args, nd):
    o, n = placed(ex, this)
    s = args[0] if isinstance(args[0], LV) else ex.rval(args[0]).lv
    at(ex, s, o)
    if io(ex):
        fail(ex, nd)
    st = ex.load(s)
    ex.store(s, st.repl(toks=st.toks + tree_bytes(n)))
    b = ex.load(this.field('m_box'))
    ex.ghost['wrote'] = ex.ghost.get('wrote', ()) + ((this, ex.load(b.lv), o, n),)


TREE = {BI + '::adjustOffsetAndSize': c_adjust, BI + '::write': c_write, BI + '::getSize': c_size}


def now(ex, n, a):
    return Opaque('now')


EXT = {'now': now, 'duration_cast': lambda ex, n, a: Opaque('seconds since 1970')}


def members(ex, lv, v, name, n, args):
    if isinstance(v, Opaque) and name == 'count':
        return v64('now')
    return NotImplemented


# ---------------------------------------------------------------- objects
class W(object):
    """a writer: its constructor has run; the fields that grow are arbitrary"""

    def __init__(self, ex, q, grown=True, moov=True):
        self.ex, self.q = ex, q
        self.F, self.D = v64('ftyp_size'), v64('mdat_size')
        self.id = z3.BitVec('next_track_id', 32)
        ex.assume(AND(ULE(8, self.F), ULE(self.F, 1 << 40), ULE(self.D, 1 << 59)))
        self.mvts, self.dur, self.now = z3.BitVec('mvhd_timescale', 32), z3.Const('duration', FSort), v64('now64')
        v = ex.blank(q)
        f = dict(v.f)
        k = lambda n: field(ex, q, n)
        self.os = ex.new_cell(OutS(pos=add(add(self.F, 16), self.D)))
        f[k('m_os')] = PtrV(self.os)
        f[k('m_ftyp_params')] = ex.sym(Ty('rec', name=BX + 'FtypParameters'), 'ftyp', [])
        f[k('m_mvhd_timescale')], f[k('m_duration')], f[k('m_time_from_epoch')] = self.mvts, self.dur, self.now
        f[k('m_ftyp_size')], f[k('m_mdat_data_size')], f[k('m_next_track_id')] = self.F, self.D, self.id
        self.moov = node(ex)
        mb = ex.new_cell(ex.construct_default(BX + 'Moov'))
        ex.store(self.moov.field('m_box'), PtrV(mb))
        self.mvhd = ex.new_cell(ex.sym(Ty('rec', name=BX + 'Mvhd'), 'mvhd', []))
        if moov:
            mv = ex.new_cell(RecV(BI, {'m_path': VecV(Ty('rec', name=BT), ()), 'm_box': PtrV(self.mvhd), 'm_leafs': VecV(Ty('ptr', to=Ty('rec', name=BI)), ())}))
            ex.store(self.moov.field('m_leafs'), VecV(Ty('ptr', to=Ty('rec', name=BI)), [PtrV(mv)]))
        f[k('m_moov_box_info')] = PtrV(self.moov) if moov else NULL
        f[k('m_mvhd_box')] = PtrV(self.mvhd) if moov else NULL
        self.this = ex.new_cell(RecV(q, f))
        self.v0 = f

    def get(self, n):
        return self.ex.load(self.this.field(field(self.ex, self.q, n)))

    def put(self, n, v):
        self.ex.store(self.this.field(field(self.ex, self.q, n)), v)

    def call(self, name, args=(), pick=None):
        ex = self.ex
        c, fs = self.q, []
        while True:
            fs = [f for f in ex.P.functions.values() if f['qname'] == c + '::' + name and f.get('body') is not None]
            if pick:
                fs = [f for f in fs if pick(f)]
            if fs or not ex.bases(c):
                break
            c = ex.bases(c)[0]
        if len(fs) != 1:
            raise Unsupported('%d functions %s::%s' % (len(fs), self.q, name))
        return ex.call_entry(fs[0], self.this, list(args), None, nocontract=True)

    def unchanged(self, *but):
        ex = self.ex
        f = ex.load(self.this).f
        but = [field(ex, self.q, b) for b in but]
        for n in f:
            if n not in but and f[n] is not self.v0[n]:
                a, b = f[n], self.v0[n]
                ex.prove(ex.veq(a, b) if isinstance(a, (RecV, VecV, PtrV, NullV)) else EQ(a, b), 'unchanged: ' + n)


def pieces(ex, s):
    st = ex.load(s)
    return [c for c in st.chunks if c[1]] + ([(st.pos, st.toks)] if st.toks else [])


def mvhd_want(w, nid):
    md = duration(w['ts'], w['dur'])
    v = ITE(fits32(w['now'], md), 0, 1, 8)
    return full_box('Mvhd', version=v, creation_time=w['now'], modification_time=w['now'], timescale=w['ts'], duration=md, rate=0x10000, volume=0x100, reserved=Z, reserved2=Z, reserved3=Z,
                    matrix=[0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000], pre_defined=Z, next_track_id=nid)


def u_ctor(q):
    def make(ex):
        def run():
            ex.ghost['extcalls'] = dict(EXT)
            ex.ghost['stream_member'] = members
            pq = q + 'Parameters'
            ps = ex.sym(Ty('rec', name=pq), 'p', [])
            lv = ex.new_cell(ex.blank(q))
            os_ = ex.new_cell(OutS())
            c = [x for x in (ex.P.functions[m] for m in ex.P.records[q]['ctors'] if m in ex.P.functions) if x.get('body') is not None and len(x.get('params') or ()) == 2]
            if len(c) != 1:
                raise Unsupported('constructor of ' + q)
            ex.run_ctor(q, lv, [os_, ex.new_cell(ps)], None, c[0]['type'])
            g = lambda n: ex.load(lv.field(field(ex, q, n)))
            t = add(v64('now'), EPOCH)
            ex.prove(EQ(g('m_mdat_data_size'), 0), 'no media data yet')
            ex.prove(EQ(g('m_next_track_id'), 1, 32), 'track ids start at 1')
            ex.prove(EQ(g('m_time_from_epoch'), t), 'the creation time counts from 1904')
            ex.prove(EQ(g('m_mvhd_timescale'), ps.f['mvhd_timescale'], 32), 'the movie timescale')
            ex.prove(EQ(g('m_duration'), ps.f['duration']), 'the movie duration')
            ex.prove(ex.veq(g('m_ftyp_params'), ps.f['ftyp_params']), 'the file type parameters')
            ex.prove(len(pieces(ex, os_)) == 0, 'the constructor writes nothing')
            m = g('m_moov_box_info')
            if q == SW:
                if not ex.prove(isinstance(m, PtrV), 'there is a movie box'):
                    return
                compare(ex, m.lv, box('Moov', [mvhd_want(dict(ts=ps.f['mvhd_timescale'], dur=ps.f['duration'], now=t), 1)]), 'new')
                first = ex.elem(ex.load(m.lv.field('m_leafs')), 0)
                p = g('m_mvhd_box')
                ex.prove(isinstance(p, PtrV) and same_lv(p.lv, ex.load(first.lv.field('m_box')).lv), 'the writer knows the movie header')
            else:
                ex.prove(isinstance(m, NullV), 'no movie box yet')
                fd = g('m_mdat_fd')
                ex.prove(isinstance(fd, PtrV) and same_lv(fd.lv, ex.ghost['file'].lv), 'the intermediate file is open')
        return run
    return make


# ---------------------------------------------------------------- the common part
def u_ids(ex):
    def run():
        w = W(ex, SW)
        r = w.call('getAndUpdateNextTrackID')
        ex.prove(EQ(r, w.id, 32), 'the next free track id is given out')
        ex.prove(EQ(w.get('m_next_track_id'), add(w.id, 1, 32), 32), 'and is not free any more')
        w.unchanged('m_next_track_id')
        ex.prove(EQ(w.call('getTimeFromEpoch'), w.now), 'getTimeFromEpoch()')
        ex.prove(EQ(w.call('getMvhdTimescale'), w.mvts, 32), 'getMvhdTimescale()')
        m = w.call('getMoovBoxInfo')
        ex.prove(isinstance(m, PtrV) and same_lv(m.lv, w.moov), 'getMoovBoxInfo()')
    return run


def u_udta(ex):
    def run():
        w = W(ex, SW)
        p = ex.sym(Ty('rec', name=BX + 'DataParameters'), 'data', [])
        w.call('appendUdtaBoxInfo', [ex.new_cell(p)])
        kids = ex.load(w.moov.field('m_leafs'))
        if not ex.prove(EQ(kids.n, 2), 'one box is added to the movie box'):
            return
        data = box('Data', fields={'m_' + k: v for k, v in p.f.items()})
        want = box('Udta', [full_box('Meta', [
            box('Hdlr', fields={'m_version': 0, 'm_flags': [0, 0, 0], 'm_pre_defined': 0, 'm_handler_type': s4('mdir'), 'm_manufacturer': Z, 'Hdlr::m_flags': Z, 'm_flags_mask': Z, 'm_name': [], 'm_padding': []}),
            box('Ilst', [box('IlstMeta', [data], type='\xa9too')])])])
        compare(ex, ex.elem(kids, 1).lv, want, 'moov')
        w.unchanged()
    return run


def c_pointer_add(ex, e, this, args, nd):
    ex.ghost['handed'] = ex.ghost.get('handed', ()) + ((ex.rval(args[0]), ex.rval(args[1])),)


def u_addvec(ex):
    def run():
        w = W(ex, SW)
        data = ex.new_cell(ex.sym(Ty('vec', to=U8), 'data', []))
        w.call('addMdatData', [data], lambda f: 'vector' in f['type']) if False else ex.call_entry(
            [f for f in ex.P.functions.values() if f['qname'] == WB + '::addMdatData' and f.get('body') is not None][0], w.this, [data], None, nocontract=True)
        h = ex.ghost.get('handed', ())
        ok = len(h) == 1 and isinstance(h[0][0], PtrV) and same_lv(h[0][0].lv, data)
        ex.prove(ok, 'the data is handed on once')
        if ok:
            ex.prove(AND(EQ(h[0][0].idx, 0), EQ(h[0][1], ex.load(data).n)), 'all of the data is handed on')
    return run


# ---------------------------------------------------------------- the simple writer
def ftyp_written(ex, w, what):
    wr = ex.ghost.get('wrote', ())
    if not ex.prove(len(wr) == 1 and wr[0][1].q == BX + 'Ftyp', what + ': one file type box is written'):
        return None
    _, r, o, n = wr[0]
    p = w.v0[field(ex, w.q, 'm_ftyp_params')]
    for k in p.f:
        a = r.f[field(ex, BX + 'Ftyp', 'm_' + k)]
        ex.prove(ex.veq(a, p.f[k]) if isinstance(p.f[k], (RecV, VecV, ArrV)) else EQ(a, p.f[k]), what + ': ' + k)
    ex.prove(EQ(o, 0), what + ': the file starts with it')
    ex.prove(EQ(w.get('m_ftyp_size'), n), what + ': its size is kept')
    w.unchanged('m_ftyp_size')
    return n


def u_ftyp(q):
    def make(ex):
        def run():
            w = W(ex, q)
            ex.store(w.os, OutS())
            w.call('writeFtypBox')
            n = ftyp_written(ex, w, 'writeFtypBox')
            if n is None:
                return
            ps = pieces(ex, w.os)
            ex.prove(len(ps) == 1 and ps[0][0] == 0, 'writeFtypBox: nothing else is written')
            if q == SW:
                st = ex.load(w.os)
                ex.prove(EQ(add(st.pos, bytes_of(st.toks)), add(n, 16)), 'the media data starts 16 bytes behind the file type box')
        return run
    return make


def u_sadd(ex):
    def run():
        w = W(ex, SW)
        data = ex.new_cell(ex.sym(Ty('vec', to=U8), 'data', []))
        off, n = v64('from'), v64('data_size')
        v = ex.load(data)
        ex.assume(AND(ULE(off, v.n), ULE(n, sub(v.n, off))))
        w.call('addMdatData', [PtrV(data, off), n], lambda f: 'vector' not in f['type'])
        ps = pieces(ex, w.os)
        if not ex.prove(len(ps) <= 1, 'the data is one piece'):
            return
        k = fresh_k()
        toks_same(ex, ps[0][1] if ps else (), mkseg(n, k, (Tok(8, v.get(add(off, k))),)), 'the data is added to the file')
        if ps:
            ex.prove(EQ(ps[0][0], add(add(w.F, 16), w.D)), 'behind the media data so far')
        ex.prove(EQ(w.get('m_mdat_data_size'), add(w.D, n)), 'and counted')
        w.unchanged('m_mdat_data_size')
    return run


def u_stell(ex):
    def run():
        w = W(ex, SW)
        r = w.call('tellCurrentMdatOffset')
        ex.prove(EQ(r, add(add(w.F, 16), w.D)), 'the offset of the next sample is the end of the media data')
        ex.prove(len(pieces(ex, w.os)) == 0, 'nothing is written')
        w.unchanged()
    return run


def mdat(s, hs):
    return want_toks(2 if hs == 16 else 1, s, RecV(BT, {'m_data': ArrV(U8, s4('mdat'))}))


def u_sfree(ex):
    def run():
        w = W(ex, SW)
        w.call('writeFreeBoxAndMdatHeader')
        ps = pieces(ex, w.os)
        if not ex.prove(len(ps) == 1, 'one piece is written'):
            return
        ex.prove(EQ(ps[0][0], w.F), 'it follows the file type box')
        if ex.decide(ULE(w.D, MAX32 - 8)):
            want = want_toks(1, bv(8, 64), RecV(BT, {'m_data': ArrV(U8, s4('free'))})) + mdat(add(w.D, 8), 8)
        else:
            want = mdat(add(w.D, 16), 16)
        toks_same(ex, ps[0][1], want, 'the 16 bytes before the media data are a media data box header of that size, after a free box if it is short')
        w.unchanged()
    return run


def moov_ghost(ex, w, known=True):
    ex.ghost['moov'] = w.moov
    ex.ghost['moov_size'] = ex.new_cell(v64('moov_size'), U64)
    ex.ghost['moov_at'] = ex.new_cell(v64('moov_at'), U64)
    ex.ghost['moov_max'] = v64('moov_max')
    ex.assume(AND(ULE(8, v64('moov_size')), ULE(v64('moov_size'), v64('moov_max')), ULE(v64('moov_max'), LIM)))


def moov_written(ex, w, want_at):
    wr = ex.ghost.get('wrote', ())
    if not ex.prove(len(wr) == 1 and same_lv(wr[0][0], w.moov), 'the movie box is written'):
        return
    ex.prove(EQ(wr[0][2], want_at), 'the movie box is written where it belongs')
    m = ex.load(w.mvhd)
    ex.prove(EQ(m.f[field(ex, BX + 'Mvhd', 'm_next_track_id')], w.id, 32), 'the movie header has the next free track id')
    m0 = ex.sym(Ty('rec', name=BX + 'Mvhd'), 'mvhd', [])
    for n in m.f:
        if n != field(ex, BX + 'Mvhd', 'm_next_track_id'):
            a, b = m.f[n], m0.f[n]
            if a is not b and not isinstance(a, Opaque):
                ex.prove(ex.veq(a, b) if isinstance(a, (RecV, VecV, ArrV)) else EQ(a, b), 'the rest of the movie header is unchanged: ' + n)
    w.unchanged()


def c_write_moov(ex, e, this, args, nd):
    w = ex.ghost['w']
    ex.prove(EQ(ex.load(w.mvhd).f[field(ex, BX + 'Mvhd', 'm_next_track_id')], w.id, 32), 'the next free track id is set before the movie box is written', nd, 'pre')
    return c_write(ex, e, this, args, nd)


MTREE = dict(TREE)
MTREE[BI + '::write'] = c_write_moov


def u_smoov(ex):
    def run():
        w = W(ex, SW)
        ex.ghost['w'] = w
        w.call('writeMoovBox')
        ps = pieces(ex, w.os)
        ex.prove(len(ps) == 1, 'one piece is written')
        moov_written(ex, w, add(add(w.F, 16), w.D))
    return run


# ---------------------------------------------------------------- tracks
def track_vec(ex):
    n = v64('tracks')
    ex.assume(ULE(n, 1 << 20))
    rec = Ty('rec', name=TR + 'Track')
    src = ex.new_cell(VecV(rec, None, n, lambda i: RecV(TR + 'Track', {}), ('src', 'tracks')))
    vec = ex.new_cell(VecV(Ty('ptr', to=rec), None, n, lambda i: PtrV(src.index(i)), ('src', 'track pointers')))
    # the ghost looks at one track, any one: its chunk offsets have grown by `shift`, and its box was made when they had grown by `made`
    k0 = v64('track_looked_at')
    ex.assume(ULT(k0, n))
    ex.ghost['tr'] = dict(src=src, n=n, k0=k0, shift=ex.new_cell(bv(0, 64), U64), made=ex.new_cell(v64('made0'), U64), traks=ex.new_cell(bv(0, 64), U64), udta=ex.new_cell(bv(0, 64), U64))
    return vec


def track_no(ex, this):
    t = ex.ghost['tr']
    if this.cell != t['src'].cell or len(this.path) != 1:
        raise Unsupported('unknown track')
    return t, this.path[0][1]


def c_reset(ex, e, this, args, nd):
    t, k = track_no(ex, this)
    d = ex.rval(args[0])
    s = ex.load(t['shift'])
    ex.notes.append(d)
    ex.store(t['shift'], ITE(EQ(k, t['k0']), add(s, d), s, 64))


def c_append(ex, e, this, args, nd):
    t, k = track_no(ex, this)
    m = ex.rval(args[0])
    ex.prove(isinstance(m, PtrV) and same_lv(m.lv, ex.ghost['moov']), 'the track box goes below the movie box', nd, 'pre')
    ex.prove(EQ(k, ex.load(t['traks'])), 'the track boxes are made in the order of the tracks, each once', nd, 'pre')
    ex.prove(EQ(ex.load(t['udta']), 0), 'the track boxes come before the user data', nd, 'pre')
    ex.store(t['made'], ITE(EQ(k, t['k0']), ex.load(t['shift']), ex.load(t['made']), 64))
    ex.store(t['traks'], add(ex.load(t['traks']), 1))


def c_udta(ex, e, this, args, nd):
    t = ex.ghost['tr']
    ex.prove(EQ(ex.load(t['traks']), t['n']), 'the user data comes behind every track', nd, 'pre')
    ex.store(t['udta'], add(ex.load(t['udta']), 1))


TRK = {TR + 'Track::resetChunkOffsets': c_reset, TR + 'Track::appendTrakBoxInfo': c_append, WB + '::appendUdtaBoxInfo': c_udta}


def ghost_key(c):
    return (c.cell,)


class Tracks(object):
    """for every track: the tracks before number i are done"""

    def __init__(self, ex, locs):
        self.t = ex.ghost['tr']
        idx = [l for l in locs if l.kind == 'int' and l.w == 64 and l.cell not in [self.t[k].cell for k in ('shift', 'made', 'traks', 'udta')]]
        self.locs = locs
        self.s0, self.m0 = ex.load(self.t['shift']), ex.load(self.t['made'])
        # what the body moves a track by
        self.d = locs.notes[-1] if locs.notes else 0

    @staticmethod
    def match(ex, locs, nd):
        if 'tr' not in ex.ghost:
            return None
        t = ex.ghost['tr']
        cells = [l.cell for l in locs]
        if t['traks'].cell not in cells or ('moov_size' in ex.ghost and ex.ghost['moov_size'].cell in cells):
            return None
        return Tracks(ex, locs)

    def idx(self, ex):
        return ex.load(self.t['traks'])

    def terms(self, ex):
        t = self.t
        i = ex.load(t['traks'])
        done = ULT(t['k0'], i)
        s = add(self.s0, self.d)
        r = [ULE(i, t['n']), EQ(ex.load(t['shift']), ITE(done, s, self.s0, 64)), IMP(done, EQ(ex.load(t['made']), s))]
        # every other counter of the loop runs with the number of tracks done
        for l in self.locs:
            if l.kind == 'int' and l.w == 64 and l.cell not in [t[k].cell for k in ('shift', 'made', 'traks')]:
                r.append(EQ(l.get(ex), add(l.v0, i)) if not l.path or l.path[-1] != '@idx' else EQ(l.get(ex), add(l.v0, i)))
        return r

    def entry(self, ex, nd):
        ex.prove(EQ(ex.load(self.t['traks']), 0), 'loop over the tracks: starts with the first', nd)
        for x in self.terms(ex):
            ex.prove(x, 'loop over the tracks: invariant at entry', nd)

    def assume(self, ex):
        for x in self.terms(ex):
            ex.assume(x)

    def variant(self, ex):
        return sub(self.t['n'], ex.load(self.t['traks']))

    def preserved(self, ex, nd):
        for x in self.terms(ex):
            ex.prove(x, 'loop over the tracks: the chunk offsets of the tracks done so far, and of no other, have moved', nd)

    def after(self, ex):
        pass


def u_sappend(ex):
    def run():
        w = W(ex, SW)
        vec = track_vec(ex)
        ex.ghost['moov'] = w.moov
        ex.ghost['loopspec'] = [Tracks.match]
        w.call('appendTrakAndUdtaBoxInfo', [vec])
        t = ex.ghost['tr']
        ex.prove(EQ(ex.load(t['traks']), t['n']), 'every track has its box')
        ex.prove(EQ(ex.load(t['udta']), 1), 'and the user data follows')
        ex.prove(EQ(ex.load(t['shift']), 0), 'the chunk offsets stay')
        w.unchanged()
    return run


# ---------------------------------------------------------------- the fast-start writer
def hdr_of(D):
    return ITE(ULE(D, MAX32 - 8), 8, 16, 64)


def c_recreate(ex, e, this, args, nd):
    """a new movie box with a movie header, placed behind the file type box"""
    t = ex.ghost['tr']
    w = ex.ghost['w']
    ex.store(this.field(field(ex, FW, 'm_moov_box_info')), PtrV(w.moov))
    ex.store(this.field(field(ex, FW, 'm_mvhd_box')), PtrV(w.mvhd))
    ex.store(t['traks'], bv(0, 64))
    ex.store(t['udta'], bv(0, 64))
    n = v64(ex.fresh_name('moov_size'))
    ex.assume(AND(ULE(8, n), ULE(n, ex.ghost['moov_max'])))
    ex.store(ex.ghost['moov_size'], n)
    ex.store(ex.ghost['moov_at'], w.F)
    ex.store(ex.ghost['has_moov'], bv(1, 64))


class Fix(object):
    """after each round: the boxes of all tracks were made with the chunk offsets moved by what the last round took for the start of the data"""

    def __init__(self, ex, locs):
        self.t, self.w = ex.ghost['tr'], ex.ghost['w']
        self.locs = locs
        own = set(self.t[k].cell for k in ('shift', 'made', 'traks', 'udta')) | set(ex.ghost[k].cell for k in ('moov_size', 'moov_at', 'has_moov')) | {self.w.this.cell}
        self.vars = [l for l in locs if l.cell not in own and l.kind == 'int' and l.w == 64]

    @staticmethod
    def match(ex, locs, nd):
        if 'tr' not in ex.ghost or 'w' not in ex.ghost or ex.ghost['moov_size'].cell not in [l.cell for l in locs]:
            return None
        return Fix(ex, locs)

    def start(self, ex):
        return add(add(self.w.F, ex.load(ex.ghost['moov_size'])), hdr_of(self.w.D))

    def terms(self, ex):
        t, g = self.t, ex.ghost
        r = [EQ(ex.load(t['traks']), t['n']), EQ(ex.load(t['udta']), 1), EQ(ex.load(t['made']), ex.load(t['shift'])), EQ(ex.load(g['moov_at']), self.w.F), EQ(ex.load(g['has_moov']), 1),
             ULE(8, ex.load(g['moov_size'])), ULE(ex.load(g['moov_size']), g['moov_max']), ULE(ex.load(t['shift']), self.top(ex)), ULE(ex.load(t['shift']), self.start(ex))]
        size, prev = self.roles(ex)
        r += [EQ(size.get(ex), self.start(ex)), EQ(prev.get(ex), ex.load(t['shift']))]
        return r

    def top(self, ex):
        return add(add(self.w.F, ex.ghost['moov_max']), 16)

    def roles(self, ex):
        """which of the two variables is the new start of the data, and which the one the boxes were made with"""
        v = [l for l in self.vars]
        for a in v:
            for b in v:
                if a is not b and self.size is a and self.prev is b:
                    return a, b
        raise Unsupported('loop to the fixed point: no pair of variables fits')

    def pick(self, ex):
        v = self.vars
        for a in v:
            for b in v:
                if a is not b and ex.entails(zb(EQ(a.v0, self.start(ex)))) and ex.entails(zb(EQ(b.v0, ex.load(self.t['shift'])))):
                    self.size, self.prev = a, b
                    return
        raise Unsupported('loop to the fixed point: no pair of variables fits')

    def entry(self, ex, nd):
        self.pick(ex)
        for x in self.terms(ex):
            ex.prove(x, 'fixed point: invariant after the first round', nd)

    def assume(self, ex):
        for x in self.terms(ex):
            ex.assume(x)
        ex.store(self.w.this.field(field(ex, FW, 'm_moov_box_info')), PtrV(self.w.moov))

    def variant(self, ex):
        return sub(self.top(ex), ex.load(self.t['shift']))

    def preserved(self, ex, nd):
        for x in self.terms(ex):
            ex.prove(x, 'fixed point: invariant after each round', nd)

    def after(self, ex):
        pass


def u_fappend(ex):
    def run():
        some = ex.choose(2, 'movie box made before') == 1
        w = W(ex, FW, moov=some)
        ex.ghost['w'] = w
        vec = track_vec(ex)
        moov_ghost(ex, w)
        ex.ghost['has_moov'] = ex.new_cell(bv(1 if some else 0, 64), U64)
        t = ex.ghost['tr']
        ex.ghost['loopspec'] = [Tracks.match, Fix.match]
        w.call('appendTrakAndUdtaBoxInfo', [vec])
        D = add(add(w.F, ex.load(ex.ghost['moov_size'])), hdr_of(w.D))
        ex.prove(EQ(ex.load(t['traks']), t['n']), 'every track has its box')
        ex.prove(EQ(ex.load(t['udta']), 1), 'and the user data follows')
        ex.prove(EQ(ex.load(ex.ghost['moov_at']), w.F), 'the movie box is placed behind the file type box')
        ex.prove(EQ(ex.load(t['made']), D), 'the chunk offsets in the movie box are those in the intermediate file, moved by the size of all that comes before the data')
        w.unchanged('m_moov_box_info', 'm_mvhd_box')
    return run


def u_recreate(ex):
    def run():
        some = ex.choose(2, 'movie box made before') == 1
        w = W(ex, FW, moov=some)
        w.call('recreateMoovBoxInfo')
        m = w.get('m_moov_box_info')
        if not ex.prove(isinstance(m, PtrV) and not same_lv(m.lv, w.moov), 'there is a new movie box'):
            return
        compare(ex, m.lv, box('Moov', [mvhd_want(dict(ts=w.mvts, dur=w.dur, now=w.now), w.id)]), 'new')
        first = ex.elem(ex.load(m.lv.field('m_leafs')), 0)
        p = w.get('m_mvhd_box')
        ex.prove(isinstance(p, PtrV) and same_lv(p.lv, ex.load(first.lv.field('m_box')).lv), 'the writer knows the movie header')
        ex.prove(EQ(placed(ex, m.lv)[0], w.F), 'the movie box is placed behind the file type box')
        w.unchanged('m_moov_box_info', 'm_mvhd_box')
    return run


def u_fmdat(ex):
    def run():
        w = W(ex, FW)
        moov_ghost(ex, w)
        w.call('writeMdatHeader')
        ps = pieces(ex, w.os)
        if not ex.prove(len(ps) == 1, 'one piece is written'):
            return
        ex.prove(EQ(ps[0][0], add(w.F, v64('moov_size'))), 'the media data box follows the movie box')
        large = not ex.decide(ULE(w.D, MAX32 - 8))
        toks_same(ex, ps[0][1], mdat(add(w.D, 16 if large else 8), 16 if large else 8), 'the media data box holds the data added')
        w.unchanged()
    return run


def u_fmoov(ex):
    def run():
        w = W(ex, FW)
        ex.ghost['w'] = w
        ex.ghost['placed'] = ((w.moov, w.F, v64('moov_size')),)
        ex.assume(ULE(v64('moov_size'), LIM))
        w.call('writeMoovBox')
        ps = pieces(ex, w.os)
        ex.prove(len(ps) == 1, 'one piece is written')
        moov_written(ex, w, w.F)
    return run


# ---------------------------------------------------------------- the intermediate file
def file_ghost(ex, pos, size):
    f = ex.ghost['file'] = PtrV(ex.new_cell(RecV('FILE', {})))
    ex.ghost['fpos'] = ex.new_cell(pos, U64)
    ex.ghost['fsize'] = ex.new_cell(size, U64)
    ex.ghost['feof'] = ex.new_cell(False, BOOL)
    ex.ghost['ferr'] = ex.new_cell(False, BOOL)
    ex.ghost['fwrote'] = ()
    ex.ghost['closed'] = ex.new_cell(False, BOOL)
    ex.ghost['removed'] = ex.new_cell(False, BOOL)
    return f


def fbyte(i):
    return uf('file!', [bv(i, 64)], z3.BitVecSort(8))


def the_file(ex, a, nd):
    p = ex.rval(ex.ev(a))
    ok = isinstance(p, PtrV) and same_lv(p.lv, ex.ghost['file'].lv)
    ex.prove(ok and ex.load(ex.ghost['closed']) is False, 'the operation is on the open intermediate file', nd, 'pre')


def buf(ex, n, a):
    p = ex.rval(ex.ev(a[0]))
    t = ex.T(a[2].ty)
    cnt = convert(ex.rval(ex.ev(a[2])), t.w, t.s, 64)
    one = ex.rval(ex.ev(a[1]))
    if not isinstance(one, int) or one != 1:
        raise Unsupported('items of %s bytes' % (one,))
    if not isinstance(p, PtrV):
        raise Unsupported('buffer')
    ex.prove(AND(ULE(p.idx, ex.length(ex.load(p.lv))), ULE(cnt, sub(ex.length(ex.load(p.lv)), p.idx))), 'the buffer is large enough', n, 'ub')
    return p, cnt


def ffail(ex, what):
    """does this operation of the file fail?  (counted in the single fault of C14)"""
    if ex.ghost.get('io_cell') is not None:
        return io(ex)
    return ex.choose(2, what) == 1


def no_eof(ex):
    b = z3.Bool(ex.fresh_name('eof'))
    ex.assume(z3.Not(b))
    return b


def x_fwrite(ex, n, a):
    p, cnt = buf(ex, n, a)
    the_file(ex, a[3], n)
    if ffail(ex, 'fwrite'):
        r = v64(ex.fresh_name('short'))
        ex.assume(ULT(r, cnt))
        return r
    at_ = ex.load(ex.ghost['fpos'])
    ex.ghost['fwrote'] = ex.ghost['fwrote'] + ((at_, ex.load(p.lv), p.idx, cnt),)
    ex.store(ex.ghost['fpos'], add(at_, cnt))
    return cnt


def x_ftell(ex, n, a):
    the_file(ex, a[0], n)
    if ffail(ex, 'ftell'):
        return M64
    return ex.load(ex.ghost['fpos'])


def x_fseek(ex, n, a):
    the_file(ex, a[0], n)
    t = ex.T(a[1].ty)
    off = convert(ex.rval(ex.ev(a[1])), t.w, t.s, 64)
    if ex.rval(ex.ev(a[2])) != 0:
        raise Unsupported('fseek from elsewhere than the start')
    if ffail(ex, 'fseek'):
        return 0xffffffff
    ex.store(ex.ghost['fpos'], off)
    ex.store(ex.ghost['feof'], no_eof(ex))
    return 0


def x_rewind(ex, n, a):
    the_file(ex, a[0], n)
    ex.store(ex.ghost['fpos'], 0)
    ex.store(ex.ghost['feof'], no_eof(ex))


def x_fread(ex, n, a):
    p, cnt = buf(ex, n, a)
    the_file(ex, a[3], n)
    pos, size = ex.load(ex.ghost['fpos']), ex.load(ex.ghost['fsize'])
    left = sub(size, pos)
    if ffail(ex, 'fread'):
        ex.store(ex.ghost['ferr'], True)
        left = z3.BitVec(ex.fresh_name('until_error'), 64)
        ex.assume(AND(ULE(left, sub(size, pos)), ULT(left, cnt)))
        v = ex.load(p.lv)
        ex.store(p.lv, VecV(v.to, None, ex.length(v), lambda i, pos=pos: fbyte(add(pos, i)), ('src', 'file')))
        ex.store(ex.ghost['fpos'], add(pos, left))
        return left
    short = ULT(left, cnt)
    got = ITE(short, left, cnt, 64)
    v = ex.load(p.lv)
    if p.idx != 0:
        raise Unsupported('fread into the middle of a buffer')
    # bytes that were not read keep what they held, which nobody may look at
    ex.store(p.lv, VecV(v.to, None, ex.length(v), lambda i, pos=pos: fbyte(add(pos, i)), ('src', 'file')))
    ex.prove(True, 'fread', n)
    ex.ghost['flimit'] = (p.lv, got)
    ex.store(ex.ghost['feof'], OR(ex.load(ex.ghost['feof']), short))
    ex.store(ex.ghost['fpos'], add(pos, got))
    return got


def x_feof(ex, n, a):
    the_file(ex, a[0], n)
    return ITE(ex.load(ex.ghost['feof']), 1, 0, 32)


def x_ferror(ex, n, a):
    the_file(ex, a[0], n)
    return ITE(ex.load(ex.ghost['ferr']), 1, 0, 32)


def x_fclose(ex, n, a):
    the_file(ex, a[0], n)
    if ffail(ex, 'fclose'):
        return 0xffffffff
    ex.store(ex.ghost['closed'], True)
    return 0


FILE = {'fwrite': x_fwrite, 'ftell': x_ftell, 'ftello': x_ftell, 'fseek': x_fseek, 'fseeko': x_fseek, 'rewind': x_rewind, 'fread': x_fread, 'feof': x_feof, 'fclose': x_fclose,
        'ferror': x_ferror, 'fflush': lambda ex, n, a: 0xffffffff if ffail(ex, 'fflush') else 0}


def with_file(ex, w, pos, size):
    w.v0 = dict(w.v0)
    w.v0[field(ex, FW, 'm_mdat_fd')] = file_ghost(ex, pos, size)
    ex.store(w.this.field(field(ex, FW, 'm_mdat_fd')), ex.ghost['file'])
    ex.ghost['extcalls'] = dict(FILE)


def u_fadd(ex):
    def run():
        w = W(ex, FW)
        with_file(ex, w, w.D, w.D)
        data = ex.new_cell(ex.sym(Ty('vec', to=U8), 'data', []))
        off, n = v64('from'), v64('data_size')
        v = ex.load(data)
        ex.assume(AND(ULE(off, v.n), ULE(n, sub(v.n, off))))
        w.call('addMdatData', [PtrV(data, off), n], lambda f: 'vector' not in f['type'])
        r = ex.ghost['fwrote']
        if not ex.prove(len(r) == 1, 'the data is written once'):
            return
        at_, b, idx, cnt = r[0]
        ex.prove(AND(EQ(at_, w.D), EQ(cnt, n), EQ(idx, off)), 'all of the data is added, behind the data so far')
        ex.prove(b is v, 'the data given is the data added')
        ex.prove(EQ(w.get('m_mdat_data_size'), add(w.D, n)), 'and counted')
        ex.prove(EQ(ex.load(ex.ghost['fpos']), add(w.D, n)), 'the position is at the end')
        w.unchanged('m_mdat_data_size')
    return run


def u_ftell(ex):
    def run():
        w = W(ex, FW)
        with_file(ex, w, w.D, w.D)
        r = w.call('tellCurrentMdatOffset')
        ex.prove(EQ(r, w.D), 'the offset of the next sample in the intermediate file')
        ex.prove(EQ(ex.load(ex.ghost['fpos']), w.D), 'the position stays')
        w.unchanged()
    return run


class Copy(object):
    """what was read so far is what was written so far"""

    def __init__(self, ex, locs):
        self.locs = locs
        self.out = [l for l in locs if l.kind == 'out'][0]
        self.g = ex.ghost

    @staticmethod
    def match(ex, locs, nd):
        if 'copy' not in ex.ghost or len([l for l in locs if l.kind == 'out']) != 1:
            return None
        return Copy(ex, locs)

    def want(self, a, n):
        k = fresh_k()
        return mkseg(n, k, (Tok(8, fbyte(add(a, k))),))

    def terms(self, ex):
        pos, size, eof = ex.load(self.g['fpos']), ex.load(self.g['fsize']), ex.load(self.g['feof'])
        return [ULE(pos, size), IMP(eof, EQ(pos, size))]

    def entry(self, ex, nd):
        pos = ex.load(self.g['fpos'])
        toks_same(ex, self.out.get(ex).toks, self.want(0, pos), 'copy loop at entry: the bytes read are the bytes written')
        for t in self.terms(ex):
            ex.prove(t, 'copy loop: invariant at entry', nd)

    def assume(self, ex):
        self.pos = ex.load(self.g['fpos'])
        v = self.out.v0
        self.out.set(ex, v.repl(toks=self.want(0, self.pos)))
        for t in self.terms(ex):
            ex.assume(t)
        self.base = self.out.get(ex).toks
        self.eof0 = ex.load(self.g['feof'])

    def variant(self, ex):
        """bytes left, and the end-of-file mark"""
        pos, size, eof = ex.load(self.g['fpos']), ex.load(self.g['fsize']), ex.load(self.g['feof'])
        return sub(add(size, 1), add(pos, ITE(eof, 1, 0, 64)))

    def preserved(self, ex, nd):
        st = self.out.get(ex)
        n = len(self.base)
        if not ex.prove(len(st.toks) >= n and all(a is b for a, b in zip(st.toks, self.base)), 'copy loop: what was written stays', nd):
            return
        toks_same(ex, st.toks[n:], self.want(self.pos, sub(ex.load(self.g['fpos']), self.pos)), 'copy loop: the bytes read in this round are the bytes written')
        for t in self.terms(ex):
            ex.prove(t, 'copy loop: invariant preserved', nd)

    def after(self, ex):
        pass


def x_remove(ex, n, a):
    if ffail(ex, 'remove'):
        return False
    ex.store(ex.ghost['removed'], True)
    return True


def u_fcopy(ex):
    def run():
        w = W(ex, FW)
        with_file(ex, w, w.D, w.D)
        ex.ghost['copy'] = True
        ex.ghost['loopspec'] = [Copy.match]
        ex.ghost['extcalls']['remove'] = x_remove
        P0 = v64('start_of_data')
        ex.assume(ULE(P0, LIM))
        ex.store(w.os, OutS(pos=P0))
        w.call('copyMdatData')
        ps = pieces(ex, w.os)
        if not ex.prove(len(ps) <= 1, 'one piece is written'):
            return
        at = 0
        for tk in ps[0][1] if ps else ():
            k = fresh_k()
            n = tk.n if isinstance(tk, Seg) else 1
            toks_same(ex, (tk,), mkseg(n, k, (Tok(8, fbyte(add(at, k))),)) if isinstance(tk, Seg) else (Tok(8, fbyte(at)),), 'the media data is copied, in order')
            at = add(at, n)
        ex.prove(EQ(at, w.D), 'the media data is copied in full')
        if ps:
            ex.prove(EQ(ps[0][0], P0), 'behind the header of the media data box')
        ex.prove(EQ(ex.load(ex.ghost['closed']), True), 'the intermediate file is closed')
        ex.prove(EQ(ex.load(ex.ghost['removed']), True), 'and removed')
    return run


def u_fctor(ex):
    base = u_ctor(FW)(ex)

    def run():
        f = file_ghost(ex, 0, 0)

        def x_mkstemp(ex, n, a):
            ex.ev(a[0])
            return 0xffffffff if ffail(ex, 'mkstemp') else 5

        def x_fdopen(ex, n, a):
            return NULL if ffail(ex, 'fdopen') else f
        EXT.update({'mkstemp': x_mkstemp, 'fdopen': x_fdopen, 'strdup': lambda ex, n, a: Opaque('name'), 'free': lambda ex, n, a: None})
        base()
    return run


def specs(P):
    N = {}
    AT = dict(TREE)
    AT.update(TRK)
    FA = dict(AT)
    FA[FW + '::recreateMoovBoxInfo'] = c_recreate
    PA = {SW + '::addMdatData': c_pointer_add}
    return [
        ('SimpleWriter()', u_ctor(SW), N, False),
        ('Writer: accessors and track ids', u_ids, N, False),
        ('Writer::appendUdtaBoxInfo', u_udta, N, False),
        ('Writer::addMdatData(vector)', u_addvec, PA, False),
        ('SimpleWriter::writeFtypBox', u_ftyp(SW), TREE, True),
        ('SimpleWriter::addMdatData', u_sadd, N, True),
        ('SimpleWriter::tellCurrentMdatOffset', u_stell, N, True),
        ('SimpleWriter::writeFreeBoxAndMdatHeader', u_sfree, N, True),
        ('SimpleWriter::writeMoovBox', u_smoov, MTREE, True),
        ('SimpleWriter::appendTrakAndUdtaBoxInfo', u_sappend, AT, True),
        ('FaststartWriter()', u_fctor, N, True),
        ('FaststartWriter::addMdatData', u_fadd, N, True),
        ('FaststartWriter::tellCurrentMdatOffset', u_ftell, N, True),
        ('FaststartWriter::copyMdatData', u_fcopy, N, True),
        ('FaststartWriter::writeFtypBox', u_ftyp(FW), TREE, True),
        ('FaststartWriter::recreateMoovBoxInfo', u_recreate, TREE, False),
        ('FaststartWriter::appendTrakAndUdtaBoxInfo', u_fappend, FA, True),
        ('FaststartWriter::writeMdatHeader', u_fmdat, TREE, True),
        ('FaststartWriter::writeMoovBox', u_fmoov, MTREE, True),
    ]
