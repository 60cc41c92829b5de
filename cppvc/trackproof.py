"""C08: the sample tables of a track.

Ghost state: sample i of the track has the timestamp TS(i), the size SZ(i), the file
offset OFF(i) and the key mark KEY(i); chunk c starts with sample S(c).  The class
invariant of Track says what every table holds about the first N samples; each
operation is proved to preserve it for all N."""
import z3
from .vals import *
from .streams import *
from .std import *
from . import exec as X
from .exec import CppThrow, Infeasible
from .codecproof import same_lv
from .headerproof import fn, NS
from .boxproof import method

TR = NS + 'track::'
BX = NS + 'box::'
BI = NS + 'BoxInfo'
BV64 = z3.BitVecSort(64)


def g(name, i, w=64):
    return uf(name, [bv(i, 64)], z3.BitVecSort(w) if w else z3.BoolSort())


def low32(x):
    return z3.Extract(31, 0, bv(x, 64))


def z64(x):
    return z3.ZeroExt(32, bv(x, 32))


def the(fields, *names):
    for n in names:
        if n in fields:
            return n
    raise Unsupported('no field among %s' % (names,))


# ---------------------------------------------------------------- run lengths of durations
class Runs(object):
    """entries 0..m-1 describe the durations before P(m) = i - count; the open run holds `duration`"""

    def __init__(self, ex, ents, count, dur, idx):
        self.e, self.c, self.d, self.i = ents, count, dur, idx
        self.j, self.x = z3.BitVec('j!stts', 64), z3.BitVec('x!stts', 64)
        self.D = ex.ghost['stts'][0]
        self.n = ex.ghost['stts'][1]

    @staticmethod
    def match(ex, locs, node):
        if 'stts' not in ex.ghost:
            return None
        vec = [l for l in locs if l.kind == 'vec']
        w32 = [l for l in locs if l.kind == 'int' and l.w == 32]
        w64 = [l for l in locs if l.kind == 'int' and l.w == 64]
        if len(vec) != 1 or len(w32) != 2 or len(w64) != 1 or len(locs) != 4:
            return None
        cnt = [l for l in w32 if not is_sym(l.v0)]
        dur = [l for l in w32 if is_sym(l.v0)]
        if len(cnt) != 1 or len(dur) != 1:
            return None
        return Runs(ex, vec[0], cnt[0], dur[0], w64[0])

    def state(self, ex):
        return self.e.get(ex), self.c.get(ex), self.d.get(ex), self.i.get(ex)

    def P0(self, k):
        return g('P!stts', k)

    def cond(self, ex, P, j, x):
        """what is claimed of the closed entry j and of position x"""
        e, c, d, i = self.state(ex)
        m = e.n
        pm = sub(i, z64(c))
        r = [ULE(z64(c), i), ULE(i, self.n), ULE(m, i), EQ(P(bv(0, 64)), 0), EQ(P(m), pm),
             IMP(AND(ULE(pm, x), ULT(x, i)), EQ(self.D(x), d, 32)), OR(ULT(0, z64(c)), AND(EQ(i, 0), EQ(d, self.D(bv(0, 64)), 32)))]
        j = bv(j, 64)
        if not (e.items is not None and not e.items):
            y = ex.elem(e, j)
            cj, dj = y.f[the(y.f, 'm_sample_count')], y.f[the(y.f, 'm_sample_duration')]
            r.append(IMP(ULT(j, m), AND(EQ(P(add(j, 1)), add(P(j), z64(cj))), ULT(0, z64(cj)), ULE(P(add(j, 1)), pm), ULE(P(j), P(add(j, 1))),
                                        IMP(AND(ULE(P(j), x), ULT(x, P(add(j, 1)))), EQ(self.D(x), dj, 32)))))
        return r

    def entry(self, ex, node):
        e, c, d, i = self.state(ex)
        if not (e.items is not None and not e.items):
            raise Unsupported('entries are not empty at loop entry')
        pm = sub(i, z64(c))
        ex.prove(EQ(pm, 0), 'loop invariant at entry: the open run starts at the first sample', node)
        for t in self.cond(ex, lambda k: bv(0, 64), self.j, self.x):
            ex.prove(t, 'loop invariant at entry', node)

    def assume(self, ex):
        for t in self.cond(ex, self.P0, self.j, self.x):
            ex.assume(t)
        self.at = self.state(ex)

    def variant(self, ex):
        return sub(self.n, self.i.get(ex))

    def preserved(self, ex, node):
        m0 = self.at[0].n
        e, c, d, i = self.state(ex)
        grown = conc(e.n == add(m0, 1)) is True
        P = (lambda k: z3.If(k == add(m0, 1), sub(i, z64(c)), self.P0(k))) if grown else self.P0
        for t in self.cond(ex, P, self.j, self.x):
            ex.prove(t, 'loop invariant preserved: the entries and the open run describe the durations so far', node)

    def after(self, ex):
        ex.ghost['P'] = (self, self.e.get(ex).n)


def u_stts(ex):
    def run():
        D = lambda i: g('D', i, 32)
        n = z3.BitVec('n', 64)
        ex.assume(ULE(n, 0xffffffff))
        ex.ghost['stts'] = (D, n)
        ex.ghost['loopspec'] = [Runs.match]
        vec = ex.new_cell(VecV(U32, None, n, D, ('src', 'durations')))
        rec = Ty('rec', name=BX + 'SttsEntry')
        ent = ex.new_cell(VecV(rec, None, z3.BitVec('old', 64), lambda i: ex.sym(rec, 'old', [i]), ('src', 'entries')))
        ex.call_entry(fn(ex.P, TR + 'make_stts_entries')[0], None, [PtrV(ent), vec], None)
        e = ex.load(ent)
        if ex.decide(EQ(n, 0)):
            ex.prove(EQ(e.n, 0), 'no sample: no entry')
            return
        gp = ex.ghost.get('P')
        if gp is None:
            if e.items is None or conc(n) is None:
                raise Unsupported('make_stts_entries: no loop invariant matched')
        sp, m = gp
        P = lambda k: z3.If(bv(k, 64) == e.n, n, sp.P0(k))
        ex.prove(OR(EQ(e.n, m), EQ(e.n, add(m, 1))), 'one entry for the open run')
        ex.prove(EQ(P(bv(0, 64)), 0), 'the first run starts at the first sample')
        ex.prove(EQ(P(e.n), n), 'the runs end at the last sample')
        j, x = sp.j, sp.x
        ex.assume(ULT(j, e.n))
        y = ex.elem(e, j)
        cj, dj = y.f[the(y.f, 'm_sample_count')], y.f[the(y.f, 'm_sample_duration')]
        ex.prove(EQ(P(add(j, 1)), add(P(j), z64(cj))), 'run j+1 starts where run j ends')
        ex.prove(AND(ULT(0, z64(cj)), ULE(P(j), n), ULE(z64(cj), sub(n, P(j)))), 'every run has a sample and lies inside the track')
        ex.prove(IMP(AND(ULE(P(j), x), ULT(x, P(add(j, 1)))), EQ(D(x), dj, 32)), 'run j holds the duration of each of its samples')
    return run


# ---------------------------------------------------------------- chunk map
class Chunks(object):
    """entry j: chunks first_j .. first_{j+1}-1 have samples_per_chunk_j samples"""

    def __init__(self, ex, ents, spc, chunk, idx):
        self.e, self.s, self.c, self.i = ents, spc, chunk, idx
        self.NSC, self.n = ex.ghost['stsc']
        self.j, self.x = z3.BitVec('j!stsc', 64), z3.BitVec('x!stsc', 64)

    @staticmethod
    def match(ex, locs, node):
        if 'stsc' not in ex.ghost:
            return None
        vec = [l for l in locs if l.kind == 'vec']
        w32 = [l for l in locs if l.kind == 'int' and l.w == 32]
        w64 = [l for l in locs if l.kind == 'int' and l.w == 64]
        spc = [l for l in w64 if not is_sym(l.v0) and l.v0 not in (0, 1)]
        idx = [l for l in w64 if l not in spc]
        if len(vec) != 1 or len(w32) != 1 or len(spc) != 1 or len(idx) != 1 or len(locs) != 4:
            return None
        return Chunks(ex, vec[0], spc[0], w32[0], idx[0])

    def state(self, ex):
        return self.e.get(ex), self.s.get(ex), self.c.get(ex), self.i.get(ex)

    def fields(self, ex, e, j):
        y = ex.elem(e, j)
        return y.f[the(y.f, 'm_first_chunk')], y.f[the(y.f, 'm_sample_per_chunk')], y.f[the(y.f, 'm_sample_description_index')]

    def entry_ok(self, ex, e, i, j, x):
        m = e.n
        f, s, d = self.fields(ex, e, j)
        f1 = self.fields(ex, e, add(j, 1))[0]
        nx = ITE(EQ(add(j, 1), m), add(i, 1), z64(f1), 64)
        return IMP(ULT(j, m), AND(ULT(0, z64(f)), ULE(z64(f), i), ULT(z64(f), nx), ULE(nx, add(i, 1)), EQ(d, 1, 32),
                                  IMP(AND(ULE(z64(f), add(x, 1)), ULT(add(x, 1), nx)), EQ(self.NSC(x), s, 32))))

    def cond(self, ex, j, x):
        e, s, c, i = self.state(ex)
        m = e.n
        r = [ULE(m, i), ULE(i, self.n), EQ(z64(c), add(i, 1)), zb(EQ(m, 0)) == zb(EQ(i, 0))]
        if e.items is not None and not e.items:
            r.append(EQ(s, (1 << 64) - 1))
            return r
        l = sub(m, 1)
        r += [self.entry_ok(ex, e, i, j, x), self.entry_ok(ex, e, i, l, x), 
              IMP(EQ(m, 0), EQ(s, (1 << 64) - 1)), IMP(ULT(0, m), EQ(s, z64(self.fields(ex, e, l)[1]))),
              IMP(ULT(0, m), EQ(self.fields(ex, e, 0)[0], 1, 32))]
        return r

    def entry(self, ex, node):
        e, s, c, i = self.state(ex)
        if not (e.items is not None and not e.items):
            raise Unsupported('entries are not empty at loop entry')
        for t in self.cond(ex, self.j, self.x):
            ex.prove(t, 'loop invariant at entry', node)

    def assume(self, ex):
        for t in self.cond(ex, self.j, self.x):
            ex.assume(t)

    def variant(self, ex):
        return sub(self.n, self.i.get(ex))

    def preserved(self, ex, node):
        for t in self.cond(ex, self.j, self.x):
            ex.prove(t, 'loop invariant preserved: the entries describe the chunks so far', node)

    def after(self, ex):
        ex.ghost['C'] = self


def chunk_vec(ex, n, off, num):
    rec = Ty('rec', name=TR + 'ChunkInfo')
    if set(x[0] for x in ex.all_fields(TR + 'ChunkInfo')) != {'offset', 'number_of_samples', 'initialized'}:
        raise Unsupported('fields of ChunkInfo changed')
    return VecV(rec, None, n, lambda i: RecV(TR + 'ChunkInfo', {'offset': off(i), 'number_of_samples': num(i), 'initialized': g('INI', i, 0)}), ('src', 'chunks'))


def u_stsc(ex):
    def run():
        NSC = lambda i: g('NSC', i, 32)
        n = z3.BitVec('n', 64)
        ex.assume(ULT(n, 0xffffffff))
        ex.ghost['stsc'] = (NSC, n)
        ex.ghost['loopspec'] = [Chunks.match]
        vec = ex.new_cell(chunk_vec(ex, n, lambda i: g('OFFS', i), NSC))
        rec = Ty('rec', name=BX + 'StscEntry')
        ent = ex.new_cell(VecV(rec, None, z3.BitVec('old', 64), lambda i: ex.sym(rec, 'old', [i]), ('src', 'entries')))
        ex.call_entry(fn(ex.P, TR + 'make_stsc_entries')[0], None, [PtrV(ent), vec], None)
        e = ex.load(ent)
        if ex.decide(EQ(n, 0)):
            ex.prove(EQ(e.n, 0), 'no chunk: no entry')
            return
        sp = ex.ghost.get('C')
        if sp is None:
            raise Unsupported('make_stsc_entries: no loop invariant matched')
        j, x = sp.j, sp.x
        ex.prove(ULT(0, e.n), 'there is an entry when there is a chunk')
        ex.prove(EQ(sp.fields(ex, e, 0)[0], 1, 32), 'the first entry starts at chunk 1')
        ex.assume(AND(ULT(j, e.n), ULT(x, n)))
        f, s, d = sp.fields(ex, e, j)
        nx = ITE(EQ(add(j, 1), e.n), add(n, 1), z64(sp.fields(ex, e, add(j, 1))[0]), 64)
        ex.prove(AND(ULT(z64(f), nx), ULE(nx, add(n, 1))), 'entries are in increasing order and end at the last chunk')
        ex.prove(EQ(d, 1, 32), 'sample description 1')
        ex.prove(IMP(AND(ULE(z64(f), add(x, 1)), ULT(add(x, 1), nx)), EQ(NSC(x), s, 32)), 'entry j gives the number of samples of each of its chunks')
    return run


# ---------------------------------------------------------------- the class invariant of Track
WR = NS + 'writer::SimpleWriter'
TRACKS = {'AACTrack': 'soun', 'AV1Track': 'vide', 'H264Track': 'vide', 'MP3Track': 'soun', 'OpusTrack': 'soun', 'VPXTrack': 'vide'}
TF = ('m_mdat_sample_sizes', 'm_chunk_infos', 'm_current_chunk_info', 'm_prev_timestamp', 'm_sample_durations', 'm_key_sample_numbers', 'm_finalized', 'm_writer',
      'm_handler_type')


def field(ex, q, name):
    r = [n for (n, t, i, o) in ex.all_fields(q) if n == name or n.endswith('::' + name)]
    if len(r) != 1:
        raise Unsupported('no field %s in %s' % (name, q))
    return r[0]


def handler(ex, kind):
    for q, v in ex.P.enums.items():
        if q == TR + 'HandlerType':
            return v
    return None


class T(object):
    """a track that has taken N samples in C closed chunks and an open one"""

    def __init__(self, ex, cls):
        q = self.q = TR + cls
        self.cls = cls
        self.vide = TRACKS[cls] == 'vide'
        self.N, self.C, self.K = z3.BitVecs('N C K', 64)
        self.S0 = g('S', self.C)
        ex.assume(AND(ULT(self.N, 0xffffffff), ULE(self.S0, self.N), ULE(self.C, self.N), ULE(self.K, self.N)))
        v = ex.construct_track(q) if hasattr(ex, 'construct_track') else ex.blank(q)
        self.f = {n: field(ex, q, n) for n in TF}
        self.writer = ex.new_cell(ex.blank(WR))
        ch = lambda i: self.chunk(g('OFF', g('S', i)), low32(sub(g('S', add(i, 1)), g('S', i))), g('INI', i, 0))
        self.ts_last = g('TS', sub(self.N, 1))
        d = {
            'm_mdat_sample_sizes': VecV(U32, None, self.N, lambda i: low32(g('SZ', i)), ('src', 'sizes')),
            'm_sample_durations': VecV(U32, None, ITE(EQ(self.N, 0), 0, sub(self.N, 1), 64), self.dur, ('src', 'durations')),
            'm_prev_timestamp': z3.If(self.N == 0, z3.BitVec('ts_none', 64), self.ts_last),
            'm_key_sample_numbers': VecV(U32, None, self.K, lambda i: g('KN', i, 32), ('src', 'keys')),
            'm_chunk_infos': VecV(Ty('rec', name=TR + 'ChunkInfo'), None, self.C, ch, ('src', 'chunks')),
            'm_current_chunk_info': self.chunk(z3.If(ULT(self.S0, self.N), g('OFF', self.S0), z3.BitVec('off_none', 64)), low32(sub(self.N, self.S0)), ULT(self.S0, self.N)),
            'm_finalized': False,
            'm_writer': PtrV(self.writer),
        }
        f = dict(v.f)
        for k, x in d.items():
            f[self.f[k]] = x
        f[self.f['m_handler_type']] = self.handler(ex)
        self.this = ex.new_cell(RecV(q, f))
        self.v0 = f
        ex.ghost['wpos'] = z3.BitVec('write_position', 64)
        ex.ghost['written'] = ()

    def handler(self, ex):
        """as the constructor of the class leaves it"""
        base = NS + 'track::' + ('VideTrack' if self.vide else 'SounTrack')
        lv = ex.new_cell(ex.blank(self.q))
        e = [ex.P.functions[m] for m in ex.P.records[base]['ctors'] if m in ex.P.functions and not ex.P.functions[m].get('params') and not ex.P.functions[m]['deleted'] and ex.P.functions[m].get('body') is not None]
        if not e:
            raise Unsupported('no constructor of ' + base)
        ex.run_ctor(base, lv, [], None, e[0]['type'])
        return ex.load(lv.field(self.f['m_handler_type']))

    def chunk(self, off, num, ini):
        return RecV(TR + 'ChunkInfo', {'offset': off, 'number_of_samples': num, 'initialized': ini})

    def dur(self, i):
        return low32(sub(g('TS', add(i, 1)), g('TS', i)))

    def get(self, ex, k):
        return ex.load(self.this.field(self.f[k]))

    def seq(self, ex, k, n, want, what, eq=None):
        """the vector k has n elements, element i being want(i)"""
        v = self.get(ex, k)
        ex.prove(EQ(v.n, n), what + ': number of elements')
        i = z3.BitVec('i!' + k, 64)

        def thunk():
            x = ex.elem(v, i)
            if eq:
                eq(x, i)
            else:
                ex.prove(EQ(x, want(i), 32), what + ': every element')
        if v.items is not None and not v.items:
            return
        for _ in ex.explore(thunk, assumptions=[zb(ULT(i, n))]):
            pass

    def state(self, ex, N, C, off0, K, keys, what, ndur=None, dur=None, S=None):
        """the invariant for N samples, C closed chunks of which chunk c starts with sample S(c)"""
        S = S or (lambda c: g('S', c))
        self.seq(ex, 'm_mdat_sample_sizes', N, lambda i: low32(g('SZ', i)), what + ': sample sizes')
        self.seq(ex, 'm_sample_durations', ITE(EQ(N, 0), 0, sub(N, 1), 64) if ndur is None else ndur, dur or self.dur, what + ': sample durations')
        self.seq(ex, 'm_key_sample_numbers', K, keys, what + ': key sample numbers')

        def eqc(x, i):
            ex.prove(EQ(x.f['offset'], off0(i)), what + ': offset of a closed chunk')
            ex.prove(EQ(x.f['number_of_samples'], low32(sub(S(add(i, 1)), S(i))), 32), what + ': samples of a closed chunk')
        self.seq(ex, 'm_chunk_infos', C, None, what + ': closed chunks', eqc)

    def current(self, ex, N, s0, what):
        c = self.get(ex, 'm_current_chunk_info')
        ex.prove(EQ(c.f['number_of_samples'], low32(sub(N, s0)), 32), what + ': samples of the open chunk')
        ex.prove(EQ(c.f['initialized'], ULT(s0, N)), what + ': the open chunk has an offset when it has a sample')
        ex.prove(IMP(ULT(s0, N), EQ(c.f['offset'], g('OFF', s0))), what + ': offset of the open chunk is that of its first sample')

    def unchanged(self, ex, names, what):
        f = ex.load(self.this).f
        for n in names:
            if f[self.f[n]] is not self.v0[self.f[n]]:
                a, b = f[self.f[n]], self.v0[self.f[n]]
                if isinstance(a, (RecV, VecV)):
                    ex.prove(ex.veq(a, b), what + ': unchanged ' + n)
                else:
                    ex.prove(EQ(a, b), what + ': unchanged ' + n)


def c_tell(ex, e, this, args, node):
    return ex.ghost['wpos']


def c_addmdat(ex, e, this, args, node):
    p = ex.rval(args[0])
    n = ex.rval(args[1]) if len(args) > 1 else None
    if n is None:
        raise Unsupported('Writer::addMdatData(vector)')
    ex.ghost['written'] = ex.ghost['written'] + ((p, n),)
    ex.ghost['wpos'] = add(ex.ghost['wpos'], n)


WCON = {WR + '::tellCurrentMdatOffset': c_tell, WR + '::addMdatData': c_addmdat}


def overload(ex, q, name, nargs, ptr):
    """the overload of a (possibly inherited) member taking a pointer or a vector"""
    seen, st = set(), [q]
    while st:
        c = st.pop(0)
        seen.add(c)
        for m in ex.P.records[c]['methods']:
            f = ex.P.functions.get(m)
            if f and f['name'] == name and f.get('body') is not None and ('vector' in f['type']) == (not ptr):
                return f
        st += [b for b in ex.bases(c) if b not in seen]
    raise Unsupported('no %s in %s' % (name, q))


def u_add(cls, name, ptr):
    def make(ex):
        def run():
            t = T(ex, cls)
            N = t.N
            data = ex.new_cell(ex.sym(Ty('vec', to=U8), 'data', []))
            sz = ex.load(data).n
            ex.assume(ULE(sz, 0xffffffff))
            ts = z3.BitVec('timestamp', 64)
            key = z3.Bool('is_key')
            pos = ex.ghost['wpos']
            ex.assume(AND(EQ(g('TS', N), ts), EQ(g('SZ', N), sz), EQ(g('OFF', N), pos)))
            f = overload(ex, t.q, name, 4, ptr)
            args = [ts] + ([PtrV(data, 0), sz] if ptr else [data]) + [key]
            ex.call_entry(f, t.this, args, None)
            w = ex.ghost['written']
            ok = len(w) == 1 and isinstance(w[0][0], PtrV) and same_lv(w[0][0].lv, data)
            ex.prove(ok, 'the sample is handed to the writer once')
            if ok:
                ex.prove(AND(EQ(w[0][0].idx, 0), EQ(w[0][1], sz)), 'the writer gets the whole sample')
            kk = AND(t.vide, key)
            N1 = add(N, 1)
            t.state(ex, N1, t.C, lambda i: g('OFF', g('S', i)), ITE(kk, add(t.K, 1), t.K, 64), lambda i: ITE(AND(kk, EQ(i, t.K)), low32(N1), g('KN', i, 32), 32), 'after adding a sample')
            t.current(ex, N1, t.S0, 'after adding a sample')
            ex.prove(EQ(t.get(ex, 'm_prev_timestamp'), ts), 'the last timestamp')
            t.unchanged(ex, ('m_finalized', 'm_writer', 'm_handler_type') if False else ('m_finalized', 'm_handler_type'), 'adding a sample')
        return run
    return make


def u_term(ex):
    def run():
        t = T(ex, 'OpusTrack')
        ex.call_entry(fn(ex.P, TR + 'Track::terminateCurrentChunk')[0], t.this, [], None)
        closing = ULT(t.S0, t.N)
        C1 = ITE(closing, add(t.C, 1), t.C, 64)
        ex.assume(IMP(closing, EQ(g('S', add(t.C, 1)), t.N)))
        t.state(ex, t.N, C1, lambda i: g('OFF', g('S', i)), t.K, lambda i: g('KN', i, 32), 'after terminateCurrentChunk()')
        t.current(ex, t.N, t.N, 'after terminateCurrentChunk()')
        ex.prove(IMP(ULT(0, t.N), EQ(t.get(ex, 'm_prev_timestamp'), t.ts_last)), 'the last timestamp')
    return run


def c_dur(ex, e, this, args, node):
    return z3.BitVec('track_duration', 64)


def final_state(ex, t, shift=0):
    closing = ULT(t.S0, t.N)
    C1 = ITE(closing, add(t.C, 1), t.C, 64)
    ex.assume(IMP(closing, EQ(g('S', add(t.C, 1)), t.N)))
    D = z3.BitVec('track_duration', 64)
    t.state(ex, t.N, C1, lambda i: add(g('OFF', g('S', i)), shift), t.K, lambda i: g('KN', i, 32), 'after finalize()', t.N,
            lambda i: z3.If(bv(add(i, 1), 64) == t.N, low32(sub(D, t.ts_last)), t.dur(i)))


def u_final(ex):
    def run():
        t = T(ex, 'OpusTrack')
        f = fn(ex.P, TR + 'Track::finalize')[0]
        if ex.choose(2, 'finalized') == 1:
            ex.store(t.this.field(t.f['m_finalized']), True)
            v = ex.load(t.this)
            ex.call_entry(f, t.this, [], None)
            w = ex.load(t.this)
            for n in v.f:
                if v.f[n] is not w.f[n]:
                    a, b = v.f[n], w.f[n]
                    ex.prove(ex.veq(a, b) if isinstance(a, (RecV, VecV)) else EQ(a, b), 'a second finalize() changes nothing')
            return
        ex.call_entry(f, t.this, [], None)
        final_state(ex, t)
        ex.prove(EQ(t.get(ex, 'm_finalized'), True), 'finalize() is remembered')
    return run


def u_reset(ex):
    def run():
        t = T(ex, 'OpusTrack')
        d = z3.BitVec('diff', 64)
        if ex.choose(2, 'finalized') == 1:
            ex.store(t.this.field(t.f['m_finalized']), True)
            v = ex.load(t.this)
            ex.call_entry(fn(ex.P, TR + 'Track::resetChunkOffsets')[0], t.this, [d], None)
            w = ex.load(t.this)

            def eqc(x, i):
                y = ex.elem(v.f[t.f['m_chunk_infos']], i)
                ex.prove(EQ(x.f['offset'], add(y.f['offset'], d)), 'every chunk offset grows')
                ex.prove(EQ(x.f['number_of_samples'], y.f['number_of_samples'], 32), 'the chunks keep their samples')
            t.seq(ex, 'm_chunk_infos', t.C, None, 'resetChunkOffsets() of a finalized track', eqc)
            for n in v.f:
                if v.f[n] is not w.f[n] and n != t.f['m_chunk_infos']:
                    a, b = v.f[n], w.f[n]
                    ex.prove(ex.veq(a, b) if isinstance(a, (RecV, VecV)) else EQ(a, b), 'resetChunkOffsets() changes nothing else: ' + n)
            return
        ex.call_entry(fn(ex.P, TR + 'Track::resetChunkOffsets')[0], t.this, [d], None)
        final_state(ex, t, d)
        ex.prove(EQ(t.get(ex, 'm_finalized'), True), 'the track is finalized')
    return run


# ---------------------------------------------------------------- the boxes of the tables
def node(ex):
    """a box info under which tables are put"""
    b = ex.new_cell(ex.construct_default(BX + 'Stbl'))
    return ex.new_cell(RecV(BI, {'m_path': VecV(Ty('rec', name=NS + 'BoxType'), ()), 'm_box': PtrV(b), 'm_leafs': VecV(Ty('ptr', to=Ty('rec', name=BI)), ())}))


def only_leaf(ex, stbl, cls, what):
    v = ex.load(stbl.field('m_leafs'))
    if not ex.prove(EQ(v.n, 1), what + ': one box is added'):
        return None
    p = v.get(0)
    b = ex.load(p.lv.field('m_box'))
    r = ex.load(b.lv)
    if not ex.prove(r.q in [BX + c for c in cls], what + ': class of the box'):
        return None
    return r


def c_make_entries(kind):
    def hook(ex, e, this, args, node_):
        rec = Ty('rec', name=BX + kind + 'Entry')
        src = ex.load(args[1]) if isinstance(args[1], LV) else args[1]
        ex.ghost['made'] = (kind, src)
        ent = VecV(rec, None, z3.BitVec('m_entries', 64), lambda i: ex.sym(rec, 'entry' + kind, [i]), ('src', 'made entries'))
        ex.assume(ULE(ent.n, 0xffffffff))
        p = ex.rval(args[0])
        ex.store(p.lv, ent)
    return hook


def vec_same(ex, a, b, what):
    ex.prove(EQ(a.n, b.n), what + ': number of elements')
    i = z3.BitVec('i!same', 64)

    def thunk():
        ex.prove(ex.veq(ex.elem(a, i), ex.elem(b, i)), what + ': every element')
    if a.items is not None and not a.items:
        return
    for _ in ex.explore(thunk, assumptions=[zb(ULT(i, a.n))]):
        pass


def u_table(meth, cls, fld, src):
    def make(ex):
        def run():
            t = T(ex, 'AV1Track')
            stbl = node(ex)
            v0 = ex.load(t.this)
            ex.call_entry(fn(ex.P, TR + 'Track::' + meth)[0], t.this, [PtrV(stbl)], None)
            r = only_leaf(ex, stbl, [cls], meth)
            if r is None:
                return
            if src in ('m_sample_durations', 'm_chunk_infos'):
                k, got = ex.ghost['made']
                vec_same(ex, got, v0.f[t.f[src]], meth + ': what the entries are made of')
                rec = Ty('rec', name=BX + cls + 'Entry')
                want = VecV(rec, None, z3.BitVec('m_entries', 64), lambda i: ex.sym(rec, 'entry' + cls, [i]), ('src', 'made entries'))
            else:
                want = v0.f[t.f[src]]
            vec_same(ex, r.f[field(ex, BX + cls, fld)], want, meth)
            if cls == 'Stsz':
                ex.prove(EQ(r.f[field(ex, BX + cls, 'm_sample_size')], 0, 32), 'sizes are given sample by sample')
                ex.prove(EQ(r.f[field(ex, BX + cls, 'm_sample_count')], low32(t.N), 32), 'number of samples')
            for n in v0.f:
                if ex.load(t.this).f[n] is not v0.f[n]:
                    ex.prove(False, meth + ' changes the track: ' + n)
        return run
    return make


def u_offsets(ex):
    def run():
        n = z3.BitVec('n', 64)
        ex.assume(ULE(n, 0xffffffff))
        OFF = lambda i: g('OFFS', i)
        x = z3.BitVec('x!off', 64)
        vec = chunk_vec(ex, n, OFF, lambda i: g('NSC', i, 32))
        ex.assume(IMP(ULT(x, n), ULE(OFF(x), OFF(sub(n, 1)))))
        how = ex.choose(2, 'how')
        if how == 0:
            p = ex.call_entry(fn(ex.P, TR + 'make_offset_box')[0], None, [ex.new_cell(vec)], None)
            r = ex.load(p.lv)
        else:
            t = T(ex, 'AV1Track')
            ex.store(t.this.field(t.f['m_chunk_infos']), vec)
            stbl = node(ex)
            ex.call_entry(fn(ex.P, TR + 'Track::makeOffsetBoxInfo')[0], t.this, [PtrV(stbl)], None)
            r = only_leaf(ex, stbl, ['Stco', 'Co64'], 'makeOffsetBoxInfo')
            if r is None:
                return
        c = r.q.split('::')[-1]
        if not ex.prove(c in ('Stco', 'Co64'), 'chunk offsets are in a stco or co64 box'):
            return
        v = r.f[field(ex, r.q, 'm_chunk_offsets')]
        ex.prove(EQ(v.n, n), 'one offset per chunk')
        if v.items is not None and not v.items:
            return

        def thunk():
            o = ex.elem(v, x)
            ex.prove(EQ(z64(o) if c == 'Stco' else o, OFF(x)), 'the offset of every chunk, in 64 bits when it does not fit 32 bits')
        for _ in ex.explore(thunk, assumptions=[zb(ULT(x, n))]):
            pass
    return run


MK = {TR + 'make_stts_entries': c_make_entries('Stts'), TR + 'make_stsc_entries': c_make_entries('Stsc')}


def specs(P):
    N = {}
    r = [('make_stts_entries', u_stts, N, False), ('make_stsc_entries', u_stsc, N, False)]
    for c in sorted(TRACKS):
        for ptr in (True, False):
            if c != 'H264Track':
                r.append(('%s::addData(%s)' % (c, 'pointer' if ptr else 'vector'), u_add(c, 'addData', ptr), WCON, False))
    for ptr in (True, False):
        r.append(('Track::addMdatData(%s)' % ('pointer' if ptr else 'vector'), u_add('H264Track', 'addMdatData', ptr), WCON, False))
    DC = dict(WCON)
    DC[TR + 'Track::getDurationInTimescale'] = c_dur
    r += [('Track::terminateCurrentChunk', u_term, N, False), ('Track::finalize', u_final, DC, False), ('Track::resetChunkOffsets', u_reset, DC, False),
          ('Track::makeSttsBoxInfo', u_table('makeSttsBoxInfo', 'Stts', 'm_entries', 'm_sample_durations'), MK, False),
          ('Track::makeStscBoxInfo', u_table('makeStscBoxInfo', 'Stsc', 'm_entries', 'm_chunk_infos'), MK, False),
          ('Track::makeStszBoxInfo', u_table('makeStszBoxInfo', 'Stsz', 'm_entry_sizes', 'm_mdat_sample_sizes'), N, False),
          ('Track::makeStssBoxInfo', u_table('makeStssBoxInfo', 'Stss', 'm_sample_numbers', 'm_key_sample_numbers'), N, False),
          ('make_offset_box', u_offsets, N, False)]
    return r
