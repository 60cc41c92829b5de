"""Layouts of the box payloads, transcribed from ISO/IEC 14496-12, -14, -15, 23001-7, and the AV1, VP, Opus
and QuickTime bindings -- not from the code.  Every function describes one box: the order of its p.* calls is
the order of the fields in the file; p.val/p.un/p.fix set parameters that are not encoded at that place."""

U32 = (1 << 32) - 1
U16 = (1 << 16) - 1
U8 = 255
BIG = (1 << 40) - 1


def full(p, *versions):
    v = p.u('version', 8)
    p.require(p.any(*[p.eq(v, x) for x in versions]))
    f = p.u('flags', 24)
    return v, f


def full0(p):
    p.const(8, 0)
    p.const(24, 0)


def rest(p, name):
    n = p.len(name, BIG)
    p.vec(name, n, 8)


def time_width(p, v):
    return 32 if p.test(p.eq(v, 0)) else 64


def av1c(p):
    p.u('marker', 1)
    p.u('version', 7)
    p.u('seq_profile', 3)
    p.u('seq_level_idx_0', 5)
    p.u('seq_tier_0', 1)
    p.flag('high_bitdepth')
    p.flag('twelve_bit')
    p.flag('monochrome')
    p.u('chroma_subsampling_x', 1)
    p.u('chroma_subsampling_y', 1)
    p.u('chroma_sample_position', 2)
    p.const(3, 0)
    d = p.flag('initial_presentation_delay_present')
    if p.test(p.eq(d, 1)):
        p.u('initial_presentation_delay_minus_one', 4)
    else:
        p.fix('initial_presentation_delay_minus_one', 0)
        p.const(4, 0)
    rest(p, 'config_OBUs')


def btrt(p):
    p.u('decoding_buffer_size', 32)
    p.u('max_bitrate', 32)
    p.u('avg_bitrate', 32)


def co64(p):
    full(p, 0)
    n = p.len('chunk_offsets', U32)
    p.put(32, n)
    p.vec('chunk_offsets', n, 64)


def stco(p):
    full(p, 0)
    n = p.len('chunk_offsets', U32)
    p.put(32, n)
    p.vec('chunk_offsets', n, 32)


def stss(p):
    full(p, 0)
    n = p.len('sample_numbers', U32)
    p.put(32, n)
    p.vec('sample_numbers', n, 32)


def stsz(p):
    full(p, 0)
    s = p.u('sample_size', 32)
    n = p.len('entry_sizes', U32)
    p.put(32, n)               # the sample count is stored in both forms
    if p.test(p.eq(s, 0)):
        p.vec('entry_sizes', n, 32)
    else:
        p.un_vec('entry_sizes', n)


def colr(p):
    k = p.choose(4, 'colour_type')
    if k == 0:
        p.carr('colour_type', b'nclx')
        p.u('colour_primaries', 16)
        p.u('transfer_characteristics', 16)
        p.u('matrix_coefficients', 16)
        p.flag('full_range_flag')
        p.const(7, 0)
        p.un('profile')
        p.un('unknown')
        return
    for x in ('colour_primaries', 'transfer_characteristics', 'matrix_coefficients', 'full_range_flag'):
        p.un(x)
    if k in (1, 2):
        p.carr('colour_type', b'rICC' if k == 1 else b'prof')
        rest(p, 'profile')
        p.un('unknown')
    else:
        t = p.arr('colour_type', 4, 8)
        for w in (b'nclx', b'rICC', b'prof'):
            p.require(p.any(*[p.no(p.eq(t[j], w[j])) for j in range(4)]))
        rest(p, 'unknown')
        p.un('profile')


def ctts(p):
    v, f = full(p, 0, 1)
    n = p.len('entries', U32)
    p.put(32, n)
    v0 = p.test(p.eq(v, 0))

    def entry(e):
        e.u('sample_count', 32)
        if v0:                     # unsigned in version 0; the class documents a signed 32-bit quantity
            e.const(1, 0)
            e.u('sample_offset', 31)
        else:
            e.i('sample_offset', 32)
    p.list('entries', n, 'CttsEntry', [('sample_count', 'unsigned int'), ('sample_offset', 'long')], entry)


def dops(p):
    p.u('version', 8)
    ch = p.u('output_channel_count', 8)
    p.u('pre_skip', 16)
    p.u('input_sample_rate', 32)
    p.i('output_gain', 16)
    fam = p.u('channel_mapping_family', 8)
    if p.test(p.eq(fam, 0)):
        p.un('channel_mapping_table')
        return

    def table(t):
        t.u('stream_count', 8)
        t.u('coupled_count', 8)
        # one entry per output channel
        t.vec('channel_mapping', p.wide(ch), 8)
    p.sub('channel_mapping_table', 'DOpsChannelMappingTable', 'DOpsChannelMappingTableParameters', table)


def data(p):
    p.u('data_type', 32)
    p.u('data_lang', 32)
    rest(p, 'data')


def dref(p):
    full(p, 0)
    p.u('entry_count', 32)


def stsd(p):
    full(p, 0, 1)
    p.u('entry_count', 32)


def elst(p):
    v, f = full(p, 0, 1)
    n = p.len('entries', U32)
    p.put(32, n)
    w = time_width(p, v)

    def entry(e):
        e.u('track_duration', w)
        e.i('media_time', w)
        e.i('media_rate', 32)
    p.list('entries', n, 'ElstEntry', 'ElstEntryParameters', entry)


def emsg(p):
    v, f = full(p, 0, 1)
    if p.test(p.eq(v, 0)):
        p.cstr('scheme_uri')
        p.cstr('value')
        p.u('timescale', 32)
        p.u('presentation_time', 32)
        p.u('event_duration', 32)
        p.u('id', 32)
    else:
        p.u('timescale', 32)
        p.u('presentation_time', 64)
        p.u('event_duration', 32)
        p.u('id', 32)
        p.cstr('scheme_uri')
        p.cstr('value')
    rest(p, 'message_data')


def fiel(p):
    p.u('field_count', 8)
    p.u('field_ordering', 8)


def raw(p):
    rest(p, 'data')


def ftyp(p):
    p.arr('major_brand', 4, 8)
    p.u('minor_version', 32)
    n = p.len('compatible_brands', BIG)
    p.arr_list('compatible_brands', n, 4, 8)


def hdlr(p):
    full(p, 0)
    d = p.u('pre_defined', 32)
    p.require(p.eq(d, 0))
    p.arr('handler_type', 4, 8)
    p.const(32, 0)
    p.const(32, 0)
    p.const(32, 0)
    p.cstr('name')
    rest(p, 'padding')


def iods(p):
    full(p, 0)
    p.u('type_tag', 8)
    p.fix('descriptor_length', 7)
    for b in (0x80, 0x80, 0x80, 0x07):
        p.const(8, b)
    p.u('OD_ID', 16)
    for x in ('OD', 'scene', 'audio', 'video', 'graphics'):
        p.u(x + '_profile_level', 8)


def mdhd(p):
    v, f = full(p, 0, 1)
    w = time_width(p, v)
    p.u('creation_time', w)
    p.u('modification_time', w)
    p.u('timescale', 32)
    p.u('duration', w)
    p.flag('pad')
    # three letters, each stored as its difference to 0x60 in 5 bits
    p.offset_chars('language', 3, 5, 0x60)
    p.u('pre_defined', 16)


def mehd(p):
    v, f = full(p, 0, 1)
    p.u('fragment_duration', time_width(p, v))


def meta(p):
    full0(p)


def mfhd(p):
    full(p, 0)
    p.u('sequence_number', 32)


def mfro(p):
    full(p, 0)
    p.u('size', 32)


def mvhd(p):
    v, f = full(p, 0, 1)
    w = time_width(p, v)
    p.u('creation_time', w)
    p.u('modification_time', w)
    p.u('timescale', 32)
    p.u('duration', w)
    p.i('rate', 32)
    p.i('volume', 16)
    p.const(16, 0)
    p.const(32, 0)
    p.const(32, 0)
    p.arr('matrix', 9, 32, True)
    p.arr('pre_defined', 6, 32, True)
    p.u('next_track_id', 32)


def pasp(p):
    p.u('h_spacing', 32)
    p.u('v_spacing', 32)


def pssh(p):
    v, f = full(p, 0, 1)
    p.arr('system_id', 16, 8)
    if p.test(p.eq(v, 0)):
        p.un('kids')
    else:
        n = p.len('kids', U32)
        p.put(32, n)
        p.list('kids', n, 'PsshKID', 'PsshKIDParameters', lambda e: e.arr('kid', 16, 8))
    n = p.len('data', U32)
    p.put(32, n)
    p.vec('data', n, 8)


def visual(p):
    p.un('type')
    for _ in range(6):
        p.const(8, 0)
    p.u('data_reference_index', 16)
    p.u('pre_defined', 16)
    p.const(16, 0)
    p.arr('pre_defined2', 3, 32)
    p.u('width', 16)
    p.u('height', 16)
    p.u('horizresolution', 32)
    p.u('vertresolution', 32)
    p.const(32, 0)
    p.u('frame_count', 16)
    p.arr('compressorname', 32, 8)
    p.u('depth', 16)
    p.i('pre_defined3', 16)


def audio(p):
    # QuickTime sound descriptions: version 1 has 16 more bytes, version 2 has 36; below a 'wave' box there is
    # the sound data of QuickTime and nothing else
    k = p.choose(5, 'sound description')
    if k == 4:
        p.under_wave()
        p.fix('under_wave', 1)
        p.set_type('type', b'mp4a')
        for x in ('data_reference_index', 'entry_version', 'channel_count', 'sample_size', 'pre_defined', 'sample_rate'):
            p.un(x)
        p.fixed_un('is_quick_time_compatible', 1)
        p.vec('quick_time_data', p.len('quick_time_data', U32), 8)
        return
    p.fix('under_wave', 0)
    p.set_type('type', b'Opus' if k == 0 else b'mp4a')
    for _ in range(6):
        p.const(8, 0)
    p.u('data_reference_index', 16)
    ver = p.u('entry_version', 16)
    for _ in range(3):
        p.const(16, 0)
    p.u('channel_count', 16)
    p.u('sample_size', 16)
    p.u('pre_defined', 16)
    p.const(16, 0)
    p.u('sample_rate', 32)
    if k < 2:
        # the constructor refuses versions 1 and 2 without their extension
        p.require(p.no(p.any(p.eq(ver, 1), p.eq(ver, 2))))
        p.fix('is_quick_time_compatible', 0)
        p.empty('quick_time_data')
    else:
        p.require(p.eq(ver, k - 1))
        p.fix('is_quick_time_compatible', 1)
        p.vec('quick_time_data', 16 if k == 2 else 36, 8)


def sbgp(p):
    v, f = full(p, 0, 1)
    p.arr('grouping_type', 4, 8)
    if p.test(p.eq(v, 1)):
        p.u('grouping_type_parameter', 32)
    else:
        p.un('grouping_type_parameter')
    n = p.len('entries', U32)
    p.put(32, n)

    def entry(e):
        e.u('sample_count', 32)
        e.u('group_description_index', 32)
    p.list('entries', n, 'SbgpEntry', 'SbgpEntryParameters', entry)


def sdtp(p):
    full0(p)
    n = p.len('samples', BIG)

    def entry(e):
        e.u('is_leading', 2)
        e.u('sample_depends_on', 2)
        e.u('sample_is_depended_on', 2)
        e.u('sample_has_redundancy', 2)
    p.list('samples', n, 'SdtpSample', 'StdpSampleParameters', entry)


SGPD = [('roll', 'roll_distances'), ('prol', 'roll_distances'), ('alst', 'alternative_startup_entries'),
        ('rap ', 'visual_random_access_entries'), ('tele', 'temporal_level_entries')]


def sgpd(p):
    v, f = full(p, 0, 1)
    typ, name = SGPD[p.choose(len(SGPD), 'grouping')]
    p.carr('grouping_type', typ.encode())
    for nm in sorted(set(x for _, x in SGPD)):
        if nm != name:
            p.un(nm)
    v1 = p.test(p.eq(v, 1))
    # version 1 with default length 0: every entry carries its own length
    lens = v1 and p.choose(2, 'default_length') == 1
    units = None
    if v1:
        p.un('default_sample_description_index')
        if lens:
            p.fix('default_length', 0)
            p.const(32, 0)
        elif typ == 'alst':
            units = p.len('units', U16)      # 32-bit words after the first one
            p.setp('default_length', p.expr(4 + 4 * units, 32))
            p.put(32, 4 + 4 * units)
        else:
            d = p.u('default_length', 32)
            p.require(p.no(p.eq(d, 0)))
    else:
        p.un('default_length')
        p.u('default_sample_description_index', 32)
        if typ == 'alst':
            # version 0 is deprecated: the length of an 'alst' entry cannot be known without it
            p.write_only()
    n = p.len(name, U32)
    p.put(32, n)

    def dlen(e, x):
        if lens:
            e.fix('description_length', x)
            e.const(32, x)
        else:
            e.fix('description_length', 0)

    def roll(e):
        dlen(e, 2)
        e.i('roll_distance', 16)

    def rap(e):
        dlen(e, 1)
        e.flag('num_leading_samples_known')
        e.u('num_leading_samples', 7)

    def tele(e):
        dlen(e, 1)
        e.flag('level_independently_decodable')
        e.const(7, 0)

    def opt(o):
        o.u('num_output_samples', 16)
        o.u('num_total_samples', 16)

    def alst(e):
        rc = e.len('sample_offsets', U16)
        on = e.len('opts', U16)
        if units is not None:
            rc = e.min(rc, units)
            on = units - rc
        if lens:
            e.setp('description_length', e.expr(4 + 4 * rc + 4 * on, 32))
            e.put(32, 4 + 4 * rc + 4 * on)
        else:
            e.fix('description_length', 0)
        e.setp('roll_count', e.expr(rc, 16))
        e.put(16, rc)
        e.u('first_output_sample', 16)
        e.vec('sample_offsets', rc, 32)
        e.list('opts', on, 'AlternativeStartupEntryOpt', 'AlternativeStartupEntryOptParameters', opt)

    cls, pt, fn = {'roll': ('RollDistance', 'RollDistanceParameters', roll),
                   'prol': ('RollDistance', 'RollDistanceParameters', roll),
                   'rap ': ('VisualRandomAccessEntry', 'VisualRandomAccessEntryParameters', rap),
                   'tele': ('TemporalLevelEntry', 'TemporalLevelEntryParameters', tele),
                   'alst': ('AlternativeStartupEntry', 'AlternativeStartupEntryParameters', alst)}[typ]
    p.list(name, n, cls, pt, fn)


def sidx(p):
    v, f = full(p, 0, 1)
    p.u('reference_id', 32)
    p.u('timescale', 32)
    w = time_width(p, v)
    p.u('earliest_presentation_time', w)
    p.u('first_offset', w)
    p.const(16, 0)
    n = p.len('references', U16)
    p.put(16, n)

    def ref(e):
        e.flag('reference_type')
        e.u('reference_size', 31)
        e.u('subsegument_duration', 32)
        e.flag('starts_with_sap')
        e.u('sap_type', 3)
        e.u('sap_delta_time', 28)
    p.list('references', n, 'SidxReference', 'SidxReferenceParameters', ref)


def smhd(p):
    full(p, 0)
    p.i('balance', 16)
    p.const(16, 0)


def stsc(p):
    full(p, 0)
    n = p.len('entries', U32)
    p.put(32, n)

    def entry(e):
        e.u('first_chunk', 32)
        e.u('samples_per_chunk', 32)
        e.u('sample_description_index', 32)
    p.list('entries', n, 'StscEntry', 'StscEntryParameters', entry)


def stts(p):
    full(p, 0)
    n = p.len('entries', U32)
    p.put(32, n)

    def entry(e):
        e.u('sample_count', 32)
        e.u('sample_duration', 32)
    p.list('entries', n, 'SttsEntry', 'SttsEntryParameters', entry)


def tfdt(p):
    v, f = full(p, 0, 1)
    p.u('base_media_decode_time', time_width(p, v))


def tfhd(p):
    v, f = full(p, 0)
    p.u('track_id', 32)
    for bit, name, w in ((0x1, 'base_data_offset', 64), (0x2, 'sample_description_index', 32),
                         (0x8, 'default_sample_duration', 32), (0x10, 'default_sample_size', 32),
                         (0x20, 'default_sample_flags', 32)):
        if p.test(p.has(f, bit)):
            p.u(name, w)
        else:
            p.un(name)


def tfra(p):
    v, f = full(p, 0, 1)
    p.u('track_id', 32)
    p.const(26, 0)
    # the two-bit fields select 8, 16, 24 or 32 bits per number
    ws = []
    for x in ('traf', 'trun', 'sample'):
        k = p.choose(4, x)
        p.fix('length_size_of_%s_num' % x, k)
        p.const(2, k)
        ws.append(8 * (k + 1))
    n = p.len('entries', U32)
    p.put(32, n)
    w = time_width(p, v)

    def entry(e):
        e.u('time', w)
        e.u('moof_offset', w)
        e.u('traf_number', ws[0])
        e.u('trun_number', ws[1])
        e.u('sample_number', ws[2])
    p.list('entries', n, 'TfraEntry', 'TfraEntryParameters', entry)


def tkhd(p):
    v, f = full(p, 0, 1)
    w = time_width(p, v)
    p.u('creation_time', w)
    p.u('modification_time', w)
    p.u('track_id', 32)
    p.const(32, 0)
    p.u('duration', w)
    p.const(32, 0)
    p.const(32, 0)
    p.i('layer', 16)
    p.i('alternate_group', 16)
    p.i('volume', 16)
    p.const(16, 0)
    p.arr('matrix', 9, 32, True)
    p.u('width', 32)
    p.u('height', 32)


def trex(p):
    full(p, 0)
    p.u('track_id', 32)
    p.u('default_sample_description_index', 32)
    p.u('default_sample_duration', 32)
    p.u('default_sample_size', 32)
    p.u('default_sample_flags', 32)


def trun(p):
    v, f = full(p, 0, 1)
    n = p.len('entries', U32)
    p.put(32, n)
    if p.test(p.has(f, 0x1)):
        p.i('data_offset', 32)
    else:
        p.un('data_offset')
    if p.test(p.has(f, 0x4)):
        p.u('first_sample_flags', 32)
    else:
        p.un('first_sample_flags')
    has = [p.test(p.has(f, b)) for b in (0x100, 0x200, 0x400, 0x800)]
    v0 = has[3] and p.test(p.eq(v, 0))

    def entry(e):
        for h, name in zip(has, ('sample_duration', 'sample_size', 'sample_flags')):
            if h:
                e.u(name, 32)
            else:
                e.un(name)
        if not has[3]:
            e.un('sample_composition_time_offset')
        elif v0:
            e.const(1, 0)
            e.u('sample_composition_time_offset', 31)
        else:
            e.i('sample_composition_time_offset', 32)
    p.list('entries', n, 'TrunEntry', 'TrunEntryParameters', entry)


def url(p):
    v, f = full(p, 0)
    if p.test(p.has(f, 1)):
        p.un('location')
    else:
        p.cstr('location')


def urn(p):
    v, f = full(p, 0)
    if p.test(p.has(f, 1)):
        p.un('name')
        p.un('location')
    else:
        p.cstr('name')
        p.cstr('location')


def vmhd(p):
    full(p, 0)
    p.u('graphicsmode', 16)
    p.arr('opcolor', 3, 16)


def vpcc(p):
    v, f = full(p, 0, 1)
    p.u('profile', 8)
    p.u('level', 8)
    p.u('bit_depth', 4)
    p.u('chroma_sub_sampling', 3)
    p.u('video_full_range_flag', 1)
    p.u('colour_primaries', 8)
    p.u('transfer_characteristics', 8)
    p.u('matrix_coefficients', 8)
    if p.test(p.eq(v, 0)):
        p.un('codec_initialization_data')
        return
    n = p.len('codec_initialization_data', U16)
    p.put(16, n)
    p.vec('codec_initialization_data', n, 8)


HIGH = (100, 110, 122, 144)        # ISO/IEC 14496-15 5.3.3.1.2


def avcc(p):
    p.u('configuration_version', 8)
    prof = p.u('profile', 8)
    p.u('profile_compatibility', 8)
    p.u('level', 8)
    p.const(6, 63)
    p.u('length_size_minus_one', 2)
    p.const(3, 7)

    def pset(e):
        n = e.len('nal_unit', U16)
        e.put(16, n)
        e.vec('nal_unit', n, 8)
    n = p.len('sequence_parameter_sets', 31)
    p.put(5, n)
    p.list('sequence_parameter_sets', n, 'AVCParameterSet', 'AVCParameterSetParameters', pset)
    n = p.len('picture_parameter_sets', 255)
    p.put(8, n)
    p.list('picture_parameter_sets', n, 'AVCParameterSet', 'AVCParameterSetParameters', pset)
    if p.choose(2, 'high profile fields') == 0:
        p.fix('high_profile_fields_enabled', 0)
        for x in ('chroma_format', 'bit_depth_luma_minus8', 'bit_depth_chroma_minus8', 'sequence_parameter_sets_ext'):
            p.un(x)
        return
    p.require(p.any(*[p.eq(prof, x) for x in HIGH]))
    p.fix('high_profile_fields_enabled', 1)
    p.const(6, 63)
    p.u('chroma_format', 2)
    p.const(5, 31)
    p.u('bit_depth_luma_minus8', 3)
    p.const(5, 31)
    p.u('bit_depth_chroma_minus8', 3)
    n = p.len('sequence_parameter_sets_ext', 255)
    p.put(8, n)
    p.list('sequence_parameter_sets_ext', n, 'AVCParameterSet', 'AVCParameterSetParameters', pset)


def empty(p):
    pass


# class -> (parameter record or None, layout)
SPECS = {
    'AV1CodecConfiguration': ('AV1CodecConfigurationParameters', av1c),
    'AVCDecoderConfiguration': ('AVCDecoderConfigurationParameters', avcc),
    'AudioSampleEntry': ('AudioSampleEntryParameters', audio),
    'Btrt': ('BtrtParameters', btrt),
    'Co64': ('Co64Parameters', co64),
    'Colr': ('ColrParameters', colr),
    'Ctts': ('CttsParameters', ctts),
    'DOps': ('DOpsParameters', dops),
    'Data': ('DataParameters', data),
    'Dref': ('DrefParameters', dref),
    'Elst': ('ElstParameters', elst),
    'Emsg': ('EmsgParameters', emsg),
    'Fiel': ('FielParameters', fiel),
    'Free': ('FreeParameters', raw),
    'Ftyp': ('FtypParameters', ftyp),
    'Hdlr': ('HdlrParameters', hdlr),
    'IlstMeta': ('IlstMetaParameters', lambda p: p.un('type')),
    'Iods': ('IodsParameters', iods),
    'Mdat': ('MdatParameters', raw),
    'Mdhd': ('MdhdParameters', mdhd),
    'Mehd': ('MehdParameters', mehd),
    'Meta': (None, meta),
    'Mfhd': ('MfhdParameters', mfhd),
    'Mfro': ('MfroParameters', mfro),
    'Mvhd': ('MvhdParameters', mvhd),
    'PixelAspectRatio': ('PixelAspectRatioParameters', pasp),
    'Pssh': ('PsshParameters', pssh),
    'Sbgp': ('SbgpParameters', sbgp),
    'Sdtp': ('SdtpParameters', sdtp),
    'Sgpd': ('SgpdParameters', sgpd),
    'Sidx': ('SidxParameters', sidx),
    'Skip': ('SkipParameters', raw),
    'Smhd': ('SmhdParameters', smhd),
    'Stco': ('StcoParameters', stco),
    'Stsc': ('StscParameters', stsc),
    'Stsd': ('StsdParameters', stsd),
    'Stss': ('StssParmeters', stss),
    'Stsz': ('StszParameters', stsz),
    'Stts': ('SttsParameters', stts),
    'Styp': ('StypParameters', ftyp),
    'Tfdt': ('TfdtParameters', tfdt),
    'Tfhd': ('TfhdParameters', tfhd),
    'Tfra': ('TfraParameters', tfra),
    'Tkhd': ('TkhdParameters', tkhd),
    'Trex': ('TrexParameters', trex),
    'Trun': ('TrunParameters', trun),
    'Unsupported': ('UnsupportedParameters', raw),
    'Url': ('UrlParameters', url),
    'Urn': ('UrnParameters', urn),
    'VPCodecConfiguration': ('VPCodecConfigurationParameters', vpcc),
    'VisualSampleEntry': ('VisualSampleEntryParameters', visual),
    'Vmhd': ('VmhdParameters', vmhd),
}
for c in ('Dinf', 'Edts', 'Ilst', 'Mdia', 'Mfra', 'Minf', 'Moof', 'Moov', 'Mvex', 'Schi', 'Sinf', 'Stbl',
          'Traf', 'Trak', 'Udta', 'Wave'):
    SPECS[c] = (None, empty)
