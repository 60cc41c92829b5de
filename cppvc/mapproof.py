"""C13: flags and versions, box types, the type registry, epochs, languages, identifiers."""
import z3
from .vals import *
from .streams import *
from .layout import compare
from .std import *
from .exec import CppThrow, Infeasible
from .codecproof import same_lv
from .headerproof import fn, btype, tval, NS, BT
from .boxproof import method

BX = NS + 'box::'

# ---------------------------------------------------------------- the types the standards give (ISO/IEC 14496-12, -14, -15, QuickTime, VP and AV1 bindings)
TYPES = {
    'AV1CodecConfiguration': 'av1C', 'AVCDecoderConfiguration': 'avcC', 'Btrt': 'btrt', 'Co64': 'co64', 'Colr': 'colr', 'Ctts': 'ctts', 'DOps': 'dOps',
    'Data': 'data', 'Dinf': 'dinf', 'Dref': 'dref', 'Edts': 'edts', 'Elst': 'elst', 'Emsg': 'emsg', 'Esds': 'esds', 'Fiel': 'fiel', 'Free': 'free',
    'Ftyp': 'ftyp', 'Hdlr': 'hdlr', 'Ilst': 'ilst', 'Iods': 'iods', 'Mdat': 'mdat', 'Mdhd': 'mdhd', 'Mdia': 'mdia', 'Mehd': 'mehd', 'Meta': 'meta',
    'Mfhd': 'mfhd', 'Mfra': 'mfra', 'Mfro': 'mfro', 'Minf': 'minf', 'Moof': 'moof', 'Moov': 'moov', 'Mvex': 'mvex', 'Mvhd': 'mvhd',
    'PixelAspectRatio': 'pasp', 'Pssh': 'pssh', 'Sbgp': 'sbgp', 'Schi': 'schi', 'Sdtp': 'sdtp', 'Sgpd': 'sgpd', 'Sidx': 'sidx', 'Sinf': 'sinf',
    'Skip': 'skip', 'Smhd': 'smhd', 'Stbl': 'stbl', 'Stco': 'stco', 'Stsc': 'stsc', 'Stsd': 'stsd', 'Stss': 'stss', 'Stsz': 'stsz', 'Stts': 'stts',
    'Styp': 'styp', 'Tfdt': 'tfdt', 'Tfhd': 'tfhd', 'Tfra': 'tfra', 'Tkhd': 'tkhd', 'Traf': 'traf', 'Trak': 'trak', 'Trex': 'trex', 'Trun': 'trun',
    'Udta': 'udta', 'Url': 'url ', 'Urn': 'urn ', 'VPCodecConfiguration': 'vpcC', 'Vmhd': 'vmhd', 'Wave': 'wave', 'Unsupported': 'unsu',
}
ANY = ('AudioSampleEntry', 'VisualSampleEntry', 'IlstMeta')

# ---------------------------------------------------------------- the registry: type -> class, supported versions
V = {}
for _c in ('Btrt Colr Data Dinf DOps Edts Fiel Free Ftyp Ilst Mdat Mdia Mfra Minf Moof Moov Mvex Schi Sinf Skip Stbl Stco Styp Traf Trak Udta AV1CodecConfiguration').split():
    V[_c] = ()
for _c in 'Co64 Dref Esds Hdlr Iods Meta Mfhd Mfro Sdtp Smhd Stsc Stsd Stss Stsz Stts Tfhd Trex Vmhd Url Urn Wave AVCDecoderConfiguration PixelAspectRatio'.split():
    V[_c] = (0,)
for _c in 'Ctts Elst Emsg Mdhd Mehd Mvhd Pssh Sbgp Sidx Tfdt Tfra Tkhd Trun VPCodecConfiguration'.split():
    V[_c] = (0, 1)
V['Sgpd'] = (1, 2)
REG = {TYPES[c].encode('latin1'): (c, v) for c, v in V.items()}
for _t in 'avc1 encv vp08 vp09 vp10 av01'.split():
    REG[_t.encode()] = ('VisualSampleEntry', (0,))
for _t in 'mp4a enca Opus'.split():
    REG[_t.encode()] = ('AudioSampleEntry', (0,))
for _t in ('---- aART akID apID atID cmID cnID covr cpil cprt desc disk egid geID gnre pcst pgap plID purd purl rtng sfID soaa soal soar soco sonm sosn '
           'stik tmpo trkn tven tves tvnn tvsh tvsn').split() + ['\xa9' + x for x in 'ART alb cmt com day gen grp nam too wrt'.split()]:
    REG[_t.encode('latin1')] = ('IlstMeta', ())


def tconst(b):
    return RecV(BT, {'m_data': ArrV(U8, list(b))})


def tnum(b):
    return int.from_bytes(b, 'big')


def find_class(P, c):
    """the class carrying a box type, wherever it is declared"""
    if BX + c not in P.records:
        raise Unsupported('no class ' + BX + c)
    return BX + c


# ---------------------------------------------------------------- flags
FULL = 'Stss'


def flagbox(ex, q):
    v = ex.construct_default(q)
    f = dict(v.f)
    names = {k.split('::')[-1]: k for k in f}
    if 'm_version' not in names or 'm_flags' not in names:
        raise Unsupported('fields of FullBox changed')
    b = [z3.BitVec('flag%d' % i, 8) for i in range(3)]
    ver = z3.BitVec('version', 8)
    f[names['m_version']] = ver
    f[names['m_flags']] = ArrV(U8, b)
    return ex.new_cell(RecV(q, f)), ver, z3.Concat(z3.BitVecVal(0, 8), *b)


def call(ex, q, name, this, *args):
    return ex.call_entry(method(ex, q, name), this, list(args), None)


def u_flags(ex):
    def run():
        q = BX + FULL
        this, ver, s = flagbox(ex, q)
        x = z3.BitVec('x', 32)
        m = x & 0xffffff
        start = ex.load(this)

        def state(want, wver, what):
            ex.prove(EQ(call(ex, q, 'getFlags', this), want, 32), what + ': the flags')
            ex.prove(EQ(call(ex, q, 'getVersion', this), wver), what + ': the version is left alone')
        state(s, ver, 'getFlags()')
        ex.prove(EQ(call(ex, q, 'checkFlag', this, x), (s & x) != 0), 'checkFlag() is set intersection')
        for name, want in (('setFlags', m), ('addFlag', s | m), ('removeFlag', s & ~m)):
            ex.store(this, start)
            call(ex, q, name, this, x)
            state(want, ver, name + '()')
            y = z3.BitVec('y', 32)
            ex.prove(EQ(call(ex, q, 'checkFlag', this, y), (want & y) != 0), name + '() then checkFlag()')
            now = ex.load(this)
            for k in now.f:
                if k.split('::')[-1] not in ('m_version', 'm_flags', 'm_type', 'm_header') and not isinstance(now.f[k], (VecV, Opaque)) and now.f[k] is not start.f[k]:
                    ex.prove(False, name + '() changes ' + k)
        ex.store(this, start)
        w = z3.BitVec('new_version', 8)
        call(ex, q, 'setVersion', this, w)
        state(s, w, 'setVersion()')
    return run


def u_noflags(ex):
    """a plain box has no flags: version 0, flags 0, every check passes, changes are ignored"""
    def run():
        q = BX + 'Moov'
        this = ex.new_cell(ex.construct_default(q))
        x = z3.BitVec('x', 32)
        for name, a in (('setFlags', x), ('addFlag', x), ('removeFlag', x), ('setVersion', z3.BitVec('v', 8))):
            call(ex, q, name, this, a)
            ex.prove(EQ(call(ex, q, 'getFlags', this), 0, 32), 'getFlags() after ' + name)
            ex.prove(EQ(call(ex, q, 'getVersion', this), 0, 8), 'getVersion() after ' + name)
            ex.prove(EQ(call(ex, q, 'checkFlag', this, x), True), 'checkFlag() after ' + name)
    return run


# ---------------------------------------------------------------- types
def ctors(ex, q):
    short = q.split('::')[-1]
    r = []
    for m in ex.P.records[q]['ctors']:
        e = ex.P.functions.get(m)
        if e and not e['deleted'] and not any(x in e['type'] for x in (short + ' &',)):
            r.append(e)
    return sorted(r, key=lambda e: e['type'])


def u_type(cls, k):
    def make(ex):
        def run():
            q = find_class(ex.P, cls)
            cs = ctors(ex, q)
            if k == 0:
                v = ex.construct_default(q)
            else:
                cs = [c for c in cs if c['params'] and 'Parameters' in c['type'] or 'Parmeters' in c['type']]
                if not cs:
                    raise Infeasible()
                e = cs[0]
                pt = e['type'][e['type'].index('const ') + 6:e['type'].index(' &')]
                t = ex.T(pt if '::' in pt else BX + pt)
                p = ex.new_cell(ex.sym(t, 'param', []))
                lv = ex.new_cell(ex.blank(q))
                try:
                    ex.run_ctor(q, lv, [p], None, e['type'])
                except CppThrow:
                    return
                v = ex.load(lv)
            this = ex.new_cell(v)
            ex.prove(EQ(tval(call(ex, q, 'getType', this)), tnum(TYPES[cls].encode()), 32), "getType() is '%s'" % TYPES[cls])
            fnm = NS + 'Box::getType'
            ex.prove(EQ(tval(ex.call_entry(fn(ex.P, fnm)[0], this, [], None)), tnum(TYPES[cls].encode()), 32), "Box::getType() is '%s'" % TYPES[cls])
        return run
    return make


def u_anytype(cls):
    def make(ex):
        def run():
            q = find_class(ex.P, cls)
            t = btype()
            done = 0
            for e in ctors(ex, q):
                lv = ex.new_cell(ex.blank(q))
                if not e['params']:
                    if ' noexcept' in e['type']:
                        v = ex.construct_default(q)
                        lv = ex.new_cell(v)
                    else:
                        ex.run_ctor(q, lv, [], None, e['type'])
                    call(ex, q, 'setType', lv, ex.new_cell(t))
                elif 'BoxType' in e['type']:
                    ex.run_ctor(q, lv, [ex.new_cell(t)], None, e['type'])
                else:
                    pt = e['type'][e['type'].index('const ') + 6:e['type'].index(' &')]
                    p = ex.sym(ex.T(pt if '::' in pt else BX + pt), 'param', [])
                    p = RecV(p.name if hasattr(p, 'name') else p.q, dict(p.f, type=t)) if 'type' in p.f else None
                    if p is None:
                        raise Unsupported('parameters of %s have no type' % cls)
                    try:
                        ex.run_ctor(q, lv, [ex.new_cell(p)], None, e['type'])
                    except CppThrow:
                        continue
                done += 1
                ex.prove(EQ(tval(call(ex, q, 'getType', lv)), tval(t), 32), 'the type given to %s is kept' % e['type'])
                u = btype('u')
                call(ex, q, 'setType', lv, ex.new_cell(u))
                ex.prove(EQ(tval(call(ex, q, 'getType', lv)), tval(u), 32), 'setType()')
                ex.prove(EQ(tval(ex.call_entry(fn(ex.P, NS + 'Box::getType')[0], lv, [], None)), tval(u), 32), 'setType(), seen as a Box')
        return run
    return make


# ---------------------------------------------------------------- registry
MP = NS + 'BoxMap'


def registry(ex):
    lv = ex.new_cell(ex.construct_default(MP))
    ex.call_entry(fn(ex.P, NS + 'register_box_map')[0], None, [PtrV(lv)], None)
    return lv


def u_registry(lo, hi):
    """every registered type: the class, its type, its versions"""
    def make(ex):
        def run():
            P = ex.P
            m = registry(ex)
            F = lambda n, k=None: [f for f in fn(P, MP + '::' + n) if k is None or k in f['type']][0]
            for b in sorted(REG)[lo:hi]:
                cls, vers = REG[b]
                nm = b.decode('latin1')
                t = ex.new_cell(tconst(b))
                ex.prove(EQ(ex.call_entry(F('isSupported'), m, [t], None), True), "'%s' is supported" % nm)
                p = ex.call_entry(F('getBoxInstance', 'BoxType'), m, [t], None)
                if not ex.prove(isinstance(p, PtrV) and ex.load(p.lv).q == BX + cls, "'%s' creates a box of class %s" % (nm, cls)):
                    continue
                ex.prove(EQ(tval(call(ex, BX + cls, 'getType', p.lv)), tnum(b), 32), "'%s': type of the created box" % nm)
                got = ex.call_entry(F('getSupportedVersions'), m, [t], None)
                ex.prove(EQ(got.n, len(vers)), "'%s': number of supported versions" % nm)
                have = [got.get(i) for i in range(len(vers))] if conc(got.n) == len(vers) else []
                ver = z3.BitVec('version', 8)
                ex.prove(AND(*[OR(*[EQ(x, w, 8) for x in have]) for w in vers]), "'%s': supported versions" % nm)
                ex.prove(EQ(ex.call_entry(F('isSupportedVersion'), m, [t, ver], None), OR(*[EQ(ver, w, 8) for w in vers]) if vers else True), "'%s': isSupportedVersion()" % nm)
        return run
    return make


def u_unknown(ex):
    """any other type: an opaque payload box"""
    def run():
        P = ex.P
        m = registry(ex)
        F = lambda n, k=None: [f for f in fn(P, MP + '::' + n) if k is None or k in f['type']][0]
        tv = btype()
        for b in REG:
            ex.assume(NOT(EQ(tval(tv), tnum(b), 32)))
        t = ex.new_cell(tv)
        ex.prove(EQ(ex.call_entry(F('isSupported'), m, [t], None), False), 'an unknown type is not supported')
        p = ex.call_entry(F('getBoxInstance', 'BoxType'), m, [t], None)
        ex.prove(isinstance(p, PtrV) and ex.load(p.lv).q == BX + 'Unsupported', 'an unknown type creates an opaque payload box')
        ex.prove(EQ(ex.call_entry(F('isSupportedVersion'), m, [t, z3.BitVec('version', 8)], None), False), 'no version of an unknown type is supported')
        try:
            ex.call_entry(F('getSupportedVersions'), m, [t], None)
            ex.prove(False, 'getSupportedVersions() returns for an unknown type')
        except CppThrow:
            pass
    return run


def u_instance_header(ex):
    """a box created from a header carries that header"""
    def run():
        P = ex.P
        m = registry(ex)
        F = lambda n, k=None: [f for f in fn(P, MP + '::' + n) if k is None or k in f['type']][0]
        b = [b'moov', b'mp4a', b'\xa9ART', b'xxxx'][ex.choose(4, 'type')]
        h = ex.new_cell(RecV(NS + 'BoxHeader', {'m_offset': z3.BitVec('o', 64), 'm_size': z3.BitVec('s', 64), 'm_header_size': 8, 'm_type': tconst(b), 'm_extend_to_eof': False}))
        p = ex.call_entry(F('getBoxInstance', 'BoxHeader'), m, [PtrV(h)], None)
        want = BX + (REG[b][0] if b in REG else 'Unsupported')
        ex.prove(isinstance(p, PtrV) and ex.load(p.lv).q == want, 'class of the box created from a header')
        x = ex.load(p.lv.field('m_header'))
        ex.prove(isinstance(x, PtrV) and same_lv(x.lv, h), 'the box carries the header')
    return run


# ---------------------------------------------------------------- time, languages, identifiers
EPOCH = 24107 * 86400


def u_time(ex):
    def run():
        t = z3.BitVec('t', 64)
        ex.prove(EQ(ex.call_entry(fn(ex.P, NS + 'time::convert_to_epoch_19040101')[0], None, [t], None), add(t, EPOCH)), 'seconds since 1904 are seconds since 1970 plus 24107 days')
    return run


def u_language(ex):
    def run():
        P = ex.P
        enc, dec = fn(P, BX + 'encode_language')[0], fn(P, BX + 'decode_language')[0]
        l = [z3.BitVec('l%d' % i, 8) for i in range(3)]
        for c in l:
            ex.assume(AND(ULE(0x60, c, 8), ULE(c, 0x7f, 8)))
        v = ex.call_entry(enc, None, [ex.new_cell(ArrV(U8, l))], None)
        w = z3.Concat(z3.BitVecVal(0, 1), *[z3.Extract(4, 0, c - 0x60) for c in l])
        ex.prove(EQ(v, w, 16), 'a language is three 5-bit letters, each offset by 0x60')
        r = ex.call_entry(dec, None, [v], None)
        ex.prove(AND(*[EQ(a, b, 8) for a, b in zip(r.items, l)]), 'a language survives encoding')
        x = z3.BitVec('x', 16)
        ex.assume(EQ(z3.Extract(15, 15, x), z3.BitVecVal(0, 1), 1))
        r = ex.call_entry(dec, None, [x], None)
        ex.prove(EQ(ex.call_entry(enc, None, [ex.new_cell(r)], None), x, 16), 'every 15-bit code survives decoding')
    return run


def u_format(ex):
    """the text of a time is the calendar date of the same second, as seen from 1970"""
    def run():
        ex.ghost['gm'] = []
        ex.ghost['extcalls'] = {'gmtime_r': c_gmtime, 'format': lambda ex, n, a: [ex.ev(x) for x in a[1:]] and Opaque('format')}
        t = z3.BitVec('t', 64)
        r = ex.call_entry(fn(ex.P, NS + 'time::format_epoch_19040101')[0], None, [t], None)
        w = sub(t, EPOCH)
        g = ex.ghost['gm']
        if g:
            ex.prove(AND(EQ(g[-1], w), len(g) == 1), 'the calendar date is that of the time less 24107 days')
        else:
            ex.prove(w > 0xffffffff, 'only dates after 2106 are not given as a calendar date')
    return run


def c_gmtime(ex, n, a):
    p = ex.rval(ex.ev(a[0]))
    ex.ghost['gm'].append(ex.rval(ex.deref(p, n)))
    return ex.rval(ex.ev(a[1]))


def u_consts(ex):
    def run():
        for nm, t in CONSTS.items():
            v = ex.load(ex.global_var(NS + nm))
            ex.prove(EQ(cat([(8, x) for x in v.items]), tnum(t.encode()), 32), '%s is %s' % (nm, t))
    return run


CONSTS = {'BrandIsom': 'isom', 'BrandIso2': 'iso2', 'BrandMp41': 'mp41', 'BrandMp42': 'mp42', 'BrandAvc1': 'avc1',
          'GroupingTypeRoll': 'roll', 'GroupingTypeProl': 'prol', 'GroupingTypeAlst': 'alst', 'GroupingTypeRap': 'rap ', 'GroupingTypeTele': 'tele'}


def specs(P):
    N = {}
    r = [('flags of a full box', u_flags, N, False), ('flags of a plain box', u_noflags, N, False)]
    for c in sorted(TYPES):
        r.append(('type of %s' % c, u_type(c, 0), N, False))
        if any('Par' in (P.functions[m]['type']) for m in P.records.get(BX + c, {'ctors': []})['ctors'] if m in P.functions):
            r.append(('type of %s with parameters' % c, u_type(c, 1), N, False))
    for c in ANY:
        r.append(('type of %s' % c, u_anytype(c), N, False))
    for i in range(0, len(REG), 28):
        r.append(('registry, known types %d' % (i // 28), u_registry(i, i + 28), N, False))
    r += [('registry, unknown types', u_unknown, N, False), ('registry, box from a header', u_instance_header, N, False),
          ('convert_to_epoch_19040101', u_time, N, False), ('languages', u_language, N, False),
          ('format_epoch_19040101', u_format, N, False), ('brands and grouping types', u_consts, N, False)]
    return r
