"""C09: the box hierarchy of every codec track, from its constructor to appendTrakBoxInfo().

The expected tree below is written from ISO/IEC 14496-12 and the codec bindings; it names every
field of every box.  Durations are single-precision products converted to integers (uninterpreted
functions of the parameters on both sides)."""
import z3
from .vals import *
from .std import *
from . import exec as X
from .exec import CppThrow, Infeasible
from .headerproof import fn, NS
from .trackproof import TR, BX, BI, WR, TRACKS, T, field, node, vec_same, MK, WCON, low32

F32 = FSort


def duration(ts, d):
    """uint64_t(float(timescale) * duration)"""
    c = (z3.Const('flt32!%d' % ts, FSort) if isinstance(ts, int) else
         z3.Function('f!iu32to32', z3.BitVecSort(32), FSort)(bv(ts, 32)))
    a = sorted((c, d), key=lambda z: z.sexpr())
    m = z3.Function('f!*', FSort, FSort, FSort)(*a)
    return z3.Function('f!32toiu64', FSort, z3.BitVecSort(64))(m)


def fits32(*xs):
    return AND(*[ULE(x, 0xffffffff) for x in xs])


def s4(t):
    return [ord(c) for c in t]


def box(cls, kids=(), type=None, fields=None, **kw):
    f = dict(fields or {})
    f.update({'m_' + k: v for k, v in kw.items()})
    return (cls, type, f, list(kids))


ANY = object()
Z = object()  # zero, of any shape


def obj(cls, **kw):
    return ('obj', cls, {'m_' + k: v for k, v in kw.items()})


def full(version=0, flags=(0, 0, 0)):
    return {'m_version': version, 'm_flags': list(flags)}


def full_box(cls, kids=(), version=0, flags=(0, 0, 0), **kw):
    return box(cls, kids, fields=full(version, flags), **kw)


def table(cls):
    return ('table', cls)


def desc_es(track, subs):
    return obj('ESDescriptor', tag=3, ESID=track, stream_dependence_flag=False, url_flag=False, ocr_stream_flag=False, stream_priority=0, depends_on_esid=0, url_string=[], OCRESID=0,
               sub_descriptors=subs, sub_descriptors_size=ANY)


def desc_dec(oti, p, subs):
    return obj('DecoderConfigDescriptor', tag=4, object_type_indication=oti, stream_type=5, upstream=False, reserved=True, buffer_size_db=p('buffer_size_db'), max_bitrate=p('max_bitrate'),
               avg_bitrate=p('avg_bitrate'), sub_descriptors=subs, sub_descriptors_size=ANY)


def audio_entry(type, rate, kids):
    return box('AudioSampleEntry', kids, type=type, reserved=Z, data_reference_index=1, entry_version=0, reserved2=Z, channel_count=2, sample_size=16, pre_defined=0, reserved3=Z,
               sample_rate=rate, is_quick_time_compatible=False, quick_time_data=[], under_wave=False)


def visual_entry(type, p, kids):
    return box('VisualSampleEntry', kids, type=type, reserved=Z, data_reference_index=1, pre_defined=0, reserved2=Z, pre_defined2=Z, width=z3.Extract(15, 0, p('width')),
               height=z3.Extract(15, 0, p('height')), horizresolution=0x480000, vertresolution=0x480000, reserved3=Z, frame_count=1, compressorname=Z, depth=24, pre_defined3=0xffff)


def stsd(entry):
    return full_box('Stsd', [entry], entry_count=1)


def hi16(x):
    return bv(x, 32) << 16


def entry_of(cls, p, env):
    if cls == 'AACTrack':
        dsi = obj('DecSpecificInfo', tag=5, data=[0x11, 0x90])
        scd = obj('SLConfigDescr', tag=6, data=[2])
        dcd = desc_dec(0x40, p, [dsi])
        esd = desc_es(z3.Extract(15, 0, p('track_id')), [dcd, scd])
        return audio_entry('mp4a', hi16(p('timescale')), [full_box('Esds', descriptors=[esd, dcd, dsi, scd]),
                                                          box('Btrt', decoding_buffer_size=0, max_bitrate=p('max_bitrate'), avg_bitrate=p('avg_bitrate'))])
    if cls == 'MP3Track':
        scd = obj('SLConfigDescr', tag=6, data=[2])
        dcd = desc_dec(0x6b, p, [])
        return audio_entry('mp4a', hi16(p('timescale')), [full_box('Esds', descriptors=[desc_es(0, [dcd, scd]), dcd, scd])])
    if cls == 'OpusTrack':
        return audio_entry('Opus', 48000 << 16, [box('DOps', version=0, output_channel_count=2, pre_skip=z3.Extract(15, 0, p('pre_skip')), input_sample_rate=48000, output_gain=0,
                                                     channel_mapping_family=0, channel_mapping_table=ANY)])
    if cls == 'VPXTrack':
        return visual_entry('vp08' if env['vp8'] else 'vp09', p, [
            full_box('VPCodecConfiguration', version=1, profile=0, level=21, bit_depth=8, chroma_sub_sampling=1, video_full_range_flag=0, colour_primaries=2, transfer_characteristics=2,
                     matrix_coefficients=2, codec_initialization_data=[]),
            box('Fiel', field_count=1, field_ordering=0), box('PixelAspectRatio', h_spacing=1, v_spacing=1),
            box('Btrt', decoding_buffer_size=0, max_bitrate=p('max_bitrate'), avg_bitrate=p('avg_bitrate'))])
    if cls == 'AV1Track':
        return visual_entry('av01', p, [
            box('AV1CodecConfiguration', marker=1, version=1, seq_profile=p('seq_profile'), seq_level_idx_0=p('seq_level_idx_0'), seq_tier_0=p('seq_tier_0'), high_bitdepth=False, twelve_bit=False,
                monochrome=False, chroma_subsampling_x=p('chroma_subsampling_x'), chroma_subsampling_y=p('chroma_subsampling_y'), chroma_sample_position=p('chroma_sample_position'), reserved=0,
                initial_presentation_delay_present=False, initial_presentation_delay_minus_one=0, config_OBUs=env['obus'])])
    if cls == 'H264Track':
        return visual_entry('avc1', p, [
            box('AVCDecoderConfiguration', configuration_version=p('configuration_version'), profile=p('profile'), profile_compatibility=p('profile_compatibility'), level=p('level'),
                reserved=63, length_size_minus_one=3, reserved2=7, sequence_parameter_sets=env['sps'], picture_parameter_sets=env['pps'], high_profile_fields_enabled=False,
                reserved3=ANY, chroma_format=ANY, reserved4=ANY, bit_depth_luma_minus8=ANY, reserved5=ANY, bit_depth_chroma_minus8=ANY, sequence_parameter_sets_ext=[])])


def tree(cls, p, env):
    vide = TRACKS[cls] == 'vide'
    mvts, now = env['mvts'], env['now']
    ts = 48000 if cls == 'OpusTrack' else p('timescale')
    md, td = duration(mvts, p('duration')), duration(ts, p('duration'))
    v = lambda ok: ITE(ok, 0, 1, 8)
    mt = p('media_time')
    mt32 = AND(mt >= bv(-(1 << 31) & ((1 << 64) - 1), 64), mt <= bv((1 << 31) - 1, 64))
    tk = full_box('Tkhd', version=v(fits32(now, md)), flags=(0, 0, 3), creation_time=now, modification_time=now, track_id=p('track_id'), reserved=0, duration=md, reserved2=0, reserved3=0, layer=0,
                  alternate_group=0, volume=0 if vide else 0x100, reserved4=0, matrix=[0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000],
                  width=hi16(p('width')) if vide else 0, height=hi16(p('height')) if vide else 0)
    stbl = [stsd(entry_of(cls, p, env)), table('Stts')] + ([table('Stss')] if vide else []) + [table('Stsc'), table('Stsz'), table('Stco')]
    if cls in ('AACTrack', 'OpusTrack'):
        roll = p('roll_distance') if cls == 'OpusTrack' else 0xffff
        stbl += [full_box('Sgpd', version=1, grouping_type=s4('roll'), default_length=2, default_sample_description_index=0, roll_distances=[obj('RollDistance', roll_distance=roll, description_length=ANY, with_length=False)],
                          alternative_startup_entries=[], visual_random_access_entries=[], temporal_level_entries=[]),
                 full_box('Sbgp', grouping_type=s4('roll'), grouping_type_parameter=0, entries=[obj('SbgpEntry', sample_count=low32(env['N']), group_description_index=1)])]
    mh = full_box('Vmhd', flags=(0, 0, 1), graphicsmode=0, opcolor=Z) if vide else full_box('Smhd', balance=0, reserved=Z)
    return box('Trak', [
        tk,
        box('Edts', [full_box('Elst', version=v(AND(fits32(md), mt32)), entries=[obj('ElstEntry', track_duration=md, media_time=mt, media_rate=0x10000)])]),
        box('Mdia', [
            full_box('Mdhd', version=v(fits32(now, td)), creation_time=now, modification_time=now, timescale=ts, duration=td, pad=False, language=s4('und'), pre_defined=0),
            box('Hdlr', fields={'m_version': 0, 'm_flags': [0, 0, 0], 'm_pre_defined': 0, 'm_handler_type': s4(TRACKS[cls]), 'm_manufacturer': Z, 'Hdlr::m_flags': Z, 'm_flags_mask': Z, 'm_name': ANY, 'm_padding': []}),
            box('Minf', [
                mh,
                box('Dinf', [full_box('Dref', [full_box('Url', flags=(0, 0, 1), location=[])], entry_count=1)]),
                box('Stbl', stbl)])])])


# ---------------------------------------------------------------- comparison
def same(ex, got, want, what, ty=None):
    if want is ANY:
        return
    if want is Z:
        if isinstance(got, (ArrV, VecV)):
            for x in got.items or ():
                same(ex, x, 0, what)
        else:
            ex.prove(EQ(got, 0, 32) if not isinstance(got, bool) else not got, what)
        return
    if isinstance(want, tuple) and want[0] == 'obj':
        if isinstance(got, PtrV):
            got = ex.load(got.lv)
        if not ex.prove(isinstance(got, RecV) and got.q == BX + want[1], what + ': is a ' + want[1]):
            return
        fields(ex, got, want[2], what + '.' + want[1])
        return
    if isinstance(want, list):
        n = len(got.items) if isinstance(got, ArrV) else got.n
        if not ex.prove(EQ(n, len(want)), what + ': number of elements'):
            return
        for i, w in enumerate(want):
            g = got.items[i] if got.items is not None else ex.elem(got, i)
            same(ex, g, w, '%s[%d]' % (what, i))
        return
    if isinstance(want, VecV):
        vec_same(ex, got, want, what)
        return
    w = next((x.size() for x in (got, want) if is_sym(x) and z3.is_bv(x)), 64)
    if isinstance(got, int) and isinstance(want, int) and not isinstance(want, bool):
        m = (1 << 64) - 1
        ex.prove((got & m) == (want & m) or (got ^ want) & 0xffff == 0 and got < 0, what)
        return
    ex.prove(EQ(got, want, w), what)


def fields(ex, r, want, what):
    have = set(r.f) - {'m_type', 'm_header'}
    miss = have ^ set(want)
    if miss:
        raise Unsupported('%s: fields %s are not specified' % (what, sorted(miss)))
    for k in sorted(want):
        same(ex, r.f[k], want[k], '%s.%s' % (what, k))


def boxtype(ex, r):
    t = r.f['m_type'].f['m_data'].items
    return ''.join(chr(x) if isinstance(x, int) else '?' for x in t)


def compare(ex, lv, want, path):
    """the box info at lv holds the expected box and the expected children"""
    b = ex.load(lv.field('m_box'))
    r = ex.load(b.lv)
    cls = want[0] if want[0] != 'table' else want[1]
    what = path + '/' + cls
    ok = [BX + c for c in ((cls,) if cls != 'Stco' else ('Stco', 'Co64'))]
    if not ex.prove(r.q in ok, what + ': class of the box'):
        return
    kids = ex.load(lv.field('m_leafs'))
    if want[0] == 'table':
        ex.prove(EQ(kids.n, 0), what + ': no children')
        return
    cls, ty, f, ch = want
    if ty is not None:
        ex.prove(boxtype(ex, r) == ty, what + ': type of the box')
    fields(ex, r, f, what)
    if not ex.prove(EQ(kids.n, len(ch)), what + ': number of children'):
        return
    for i, c in enumerate(ch):
        k = ex.elem(kids, i)
        up = ex.load(k.lv.field('m_parent')) if ex.has_field(BI, 'm_parent') else None
        compare(ex, k.lv, c, what)


# ---------------------------------------------------------------- the units
def c_final(ex, e, this, args, nd):
    t = ex.ghost['trak']
    ex.store(this.field(t.f['m_finalized']), True)


def c_table(ex, e, this, args, nd):
    t = ex.ghost['trak']
    ex.prove(EQ(ex.load(this.field(t.f['m_finalized'])), True), 'the tables are made after the track is finalized', nd, kind='pre')
    return ex.call_entry(e, this, args, nd, nocontract=True)


CON = dict(WCON)
CON.update(MK)
CON[TR + 'Track::finalize'] = c_final
for m in ('makeSttsBoxInfo', 'makeStssBoxInfo', 'makeStscBoxInfo', 'makeStszBoxInfo', 'makeOffsetBoxInfo'):
    CON[TR + 'Track::' + m] = c_table


def params_of(ex, cls, env):
    q = TR + cls + 'Parameters'
    vals = {}
    for (n, t, i, o) in ex.all_fields(q):
        if n == 'writer':
            v = PtrV(env['writer'])
        elif n == 'codec':
            en = ex.P.enums[TR + 'VPXCodec'] if TR + 'VPXCodec' in ex.P.enums else None
            if en is None:
                raise Unsupported('no enum VPXCodec')
            d = en['vals']
            vp8 = ex.choose(2, 'codec') == 0
            env['vp8'] = vp8
            v = d['VP8' if vp8 else 'VP9']
        elif n == 'config_OBUs':
            vec = ex.sym(Ty('vec', to=U8), 'obus', [])
            env['obus'] = vec
            v = PtrV(ex.new_cell(vec))
        else:
            v = ex.sym(t, 'p.' + n, [])
        vals[n] = v
    return RecV(q, vals)


def u_track(cls):
    def make(ex):
        def run():
            env = {'now': z3.BitVec('now', 64), 'mvts': z3.BitVec('mvhd_timescale', 32)}
            t = T(ex, cls)
            ex.ghost['trak'] = t
            w = ex.load(t.writer)
            f = dict(w.f)
            f[field(ex, WR, 'm_mvhd_timescale')] = env['mvts']
            f[field(ex, WR, 'm_time_from_epoch')] = env['now']
            ex.store(t.writer, RecV(WR, f))
            env['writer'] = t.writer
            env['N'] = t.N
            pv = params_of(ex, cls, env)
            p = lambda n: pv.f[n]
            q = t.q
            ctor = [x for x in (ex.P.functions[m] for m in ex.P.records[q]['ctors'] if m in ex.P.functions) if x.get('body') is not None and len(x.get('params') or ()) == 1]
            if len(ctor) != 1:
                raise Unsupported('constructor of ' + q)
            lv = ex.new_cell(ex.blank(q))
            try:
                ex.run_ctor(q, lv, [ex.new_cell(pv)], None, ctor[0]['type'])
            except CppThrow as e:
                ex.prove(EQ(p('track_id'), 0, 32), 'the constructor throws only for track id 0', e.node)
                raise Infeasible()
            ex.prove(NOT(EQ(p('track_id'), 0, 32)), 'track id 0 is refused')
            v = ex.load(lv)
            f = dict(v.f)
            f0 = ex.load(t.this).f
            for n in ('m_mdat_sample_sizes', 'm_sample_durations', 'm_key_sample_numbers', 'm_chunk_infos'):
                ex.prove(EQ(f[t.f[n]].n, 0), 'a new track is empty')
            ex.prove(EQ(f[t.f['m_finalized']], False), 'a new track is not finalized')
            c = f[t.f['m_current_chunk_info']]
            ex.prove(AND(EQ(c.f['number_of_samples'], 0, 32), EQ(c.f['initialized'], False)), 'a new track has no open chunk')
            wp = f[t.f['m_writer']]
            ex.prove(isinstance(wp, PtrV) and wp.lv.same(t.writer), 'the track uses the given writer')
            for n in ('m_mdat_sample_sizes', 'm_sample_durations', 'm_key_sample_numbers', 'm_chunk_infos', 'm_current_chunk_info', 'm_prev_timestamp'):
                f[t.f[n]] = f0[t.f[n]]
            if cls == 'H264Track':
                rec = Ty('rec', name=BX + 'AVCParameterSet')
                for k, n in (('sps', 'm_sequence_parameter_sets'), ('pps', 'm_picture_parameter_sets')):
                    ex.prove(EQ(f[field(ex, q, n)].n, 0), 'a new track has no parameter sets')
                    n0 = z3.BitVec('n.' + k, 64)
                    ex.assume(ULE(n0, 1 << 40))
                    env[k] = VecV(rec, None, n0, lambda i, k=k: ex.sym(rec, k, [i]), ('src', k))
                    f[field(ex, q, n)] = env[k]
            ex.store(lv, RecV(q, f))
            moov = node(ex)
            ap = [x for x in ex.P.functions.values() if x['qname'] == q + '::appendTrakBoxInfo' and x.get('body') is not None]
            if len(ap) != 1:
                raise Unsupported('no appendTrakBoxInfo in ' + cls)
            before = ex.load(lv)
            ex.call_entry(ap[0], lv, [PtrV(moov)], None)
            kids = ex.load(moov.field('m_leafs'))
            if not ex.prove(EQ(kids.n, 1), 'one track box is added'):
                return
            compare(ex, ex.elem(kids, 0).lv, tree(cls, p, env), 'moov')
            after = ex.load(lv)
            for n in before.f:
                if n != t.f['m_finalized'] and before.f[n] is not after.f[n]:
                    ex.prove(False, 'appendTrakBoxInfo changes the track: ' + n)
        return run
    return make


def u_dur(meth, ts):
    def make(ex):
        def run():
            lv = ex.new_cell(ex.blank(TR + 'OpusTrack'))
            a, d = z3.BitVec('ts', 32), z3.Const('dur', FSort)
            ex.store(lv.field(field(ex, TR + 'OpusTrack', ts)), a)
            ex.store(lv.field(field(ex, TR + 'OpusTrack', 'm_duration')), d)
            r = ex.call_entry(fn(ex.P, TR + 'Track::' + meth)[0], lv, [], None)
            ex.prove(EQ(r, duration(a, d)), 'duration in the timescale')
        return run
    return make


def specs(P):
    r = [('%s: box tree' % c, u_track(c), CON, True) for c in sorted(TRACKS)]
    r += [('Track::getDurationInTimescale', u_dur('getDurationInTimescale', 'm_timescale'), {}, False),
          ('Track::getDurationInMvhdTimescale', u_dur('getDurationInMvhdTimescale', 'm_mvhd_timescale'), {}, False)]
    return r
