"""The proof units of every property."""
from .driver import Unit, BoxReplay, NativeOracle
from .contracts import CODEC
from . import boxproof, codecproof, headerproof, treeproof, mapproof, trackproof, h264proof, trakproof, writerproof, ioproof, readerproof, esdsproof
from specs.boxes import SPECS

TRUST = [
    'clang 18 front end (AST) and the translation of that AST into verification conditions (cppvc/)',
    'z3 5.3, cvc5 1.1',
    'models of the C++ standard library containers, strings, iterators and streams (cppvc/std.py)',
]
ASSUME = [
    'machine integers are modelled exactly as bit vectors of their width; nothing is treated as mathematical',
    'stream sizes are at most 2^47 bytes; evaluation order of operands is left to right',
    'memory allocation succeeds (std::bad_alloc and std::length_error are allowed outcomes of decoding)',
    'the layouts in specs/boxes.py are the transcription of the standards',
]
BR = BoxReplay()
SLOW = {'Sgpd': 160, 'Tfra': 60, 'AVCDecoderConfiguration': 80, 'Trun': 50}


def box_units(kind, names=None):
    us = []
    for cls in names or sorted(SPECS):
        gen = boxproof.KINDS[kind]
        cases = range(4) if (kind, cls) == ('hostile', 'Tfra') else [None]
        for c in cases:
            us.append(Unit('%s.%s%s' % (cls, kind, '' if c is None else '.%d' % c), (lambda ex, gen=gen, cls=cls: gen(ex, cls, SPECS[cls])), CODEC, cls, kind,
                           timeout=420, throws_ok=(kind == 'hostile'), weight=SLOW.get(cls, 1), replay=BR, case=c))
    return us


CODEC_ORACLE = NativeOracle('codec')
HEADER_ORACLE = NativeOracle('header')


def codec_units(P, sides):
    """layer 1: the contracts that the box units use, against their bodies"""
    return [Unit('codec: ' + n, make, con, None, 'codec', timeout=300, throws_ok=tok, weight=60 if 'arbitrary input, ' in n else 5, replay=CODEC_ORACLE)
            for n, make, con, tok, side in codecproof.specs(P) if any(x in sides for x in side)]


def p_codec(P):
    return codec_units(P, 'wr'), dict(trusted=TRUST, assumptions=ASSUME)


def light(us):
    return [u for u in us if u.weight < 60]


def esds_units(P, what, oracle='esds'):
    return simple_units(P, esdsproof.specs(P, what), 'esds', NativeOracle(oracle), weight=10)


DESC = ['esds: a descriptor with sub-descriptors has a size below 2^28 in all (four octets of seven bits); the sub-descriptors of a DecoderConfigDescriptor have none of their own; stream priority and stream type lie in the signed range of their width, as the parameter types have it']


def p_layout(P):
    return box_units('layout') + esds_units(P, 'layout') + light(codec_units(P, 'w')), dict(trusted=TRUST, assumptions=ASSUME + DESC)


def p_size(P):
    return box_units('size') + esds_units(P, 'size'), dict(trusted=TRUST, assumptions=ASSUME + DESC)


def p_read(P):
    return box_units('read') + esds_units(P, 'read') + light(codec_units(P, 'wr')) + stream_units(P), dict(trusted=TRUST, assumptions=ASSUME + DESC)


def p_hostile(P):
    return box_units('hostile') + esds_units(P, 'hostile') + light(codec_units(P, 'r')) + stream_units(P), dict(trusted=TRUST, assumptions=ASSUME)


def simple_units(P, specs, prefix, oracle, weight=1, timeout=300):
    return [Unit('%s: %s' % (prefix, s[0]), s[1], s[2], None, prefix, timeout=timeout, throws_ok=s[3], weight=weight, replay=oracle) for s in specs]


def stream_units(P):
    return simple_units(P, [x for x in headerproof.specs(P) if x[0] == 'get_istream_offset_to_end'], 'header', HEADER_ORACLE)


def p_header(P):
    return simple_units(P, headerproof.specs(P), 'header', HEADER_ORACLE), dict(trusted=TRUST, assumptions=ASSUME)


def p_tree(P):
    us = simple_units(P, treeproof.specs(P), 'tree', NativeOracle('tree'))
    us += [u for u in simple_units(P, headerproof.specs(P), 'header', HEADER_ORACLE) if u.name.split(': ')[1] in ('BoxHeader::write', 'BoxHeader::setOffsetAndDataSize', 'BoxHeader getters', 'BoxHeader()')]
    return us, dict(trusted=TRUST, assumptions=ASSUME + ['box trees are trees: a box has one parent; the sizes of all boxes sum to less than 2^60'])


def p_map(P):
    return simple_units(P, mapproof.specs(P), 'map', NativeOracle('map')), dict(trusted=TRUST + ['fmt formatting and gmtime_r'], assumptions=ASSUME + [
        'the class, type and version table in cppvc/mapproof.py is the transcription of the standards'])


def p_track(P):
    return simple_units(P, trackproof.specs(P), 'track', NativeOracle('track')), dict(trusted=TRUST, assumptions=ASSUME + [
        'samples: sizes, counts and chunk counts below 2^32; nothing is added after finalize()',
        'an open chunk is contiguous: terminateCurrentChunk() is called before another track writes; chunk offsets do not decrease',
        'H264Track::addData is under contract in C10'])


def p_trak(P):
    return simple_units(P, trakproof.specs(P), 'trak', NativeOracle('trak'), weight=10), dict(trusted=TRUST, assumptions=ASSUME + [
        'the hierarchy and field values in cppvc/trakproof.py transcribe the codec bindings',
        'float arithmetic is an uninterpreted function: a duration is uint64_t(float(timescale) * duration), whatever the rounding',
        'the sample table boxes are under contract in C08; their contents are not looked at again here'])


def p_writer(P):
    us = simple_units(P, writerproof.specs(P), 'writer', NativeOracle('writer'), weight=30, timeout=400)
    us += [u for u in simple_units(P, trackproof.specs(P), 'track', NativeOracle('writer')) if 'addMdatData' in u.name or 'resetChunkOffsets' in u.name]
    us += [u for u in simple_units(P, headerproof.specs(P), 'header', NativeOracle('writer')) if u.name.endswith(('BoxHeader::write', 'setOffsetAndDataSize'))]
    return us, dict(trusted=TRUST, assumptions=ASSUME + [
        'the protocol of a writer: writeFtypBox once and first; every track of the movie listed once, in one call of appendTrakAndUdtaBoxInfo; then the remaining parts, each once',
        'the output stream is file-like: seeking past the end leaves bytes that later writes fill in',
        'the intermediate file is used by the writer alone',
        'Track::appendTrakBoxInfo is under contract in C09, BoxInfo::write and adjustOffsetAndSize in C07'])


def p_h264(P):
    us = simple_units(P, h264proof.specs(P), 'h264', NativeOracle('h264'), weight=30, timeout=600)
    us += [u for u in simple_units(P, trackproof.specs(P), 'track', NativeOracle('h264')) if 'addMdatData' in u.name]
    return us, dict(trusted=TRUST, assumptions=ASSUME + [
        'an access unit has fewer than 2^32 bytes', 'a first sequence parameter set of exactly four bytes is left open'])


def p_reader(P):
    orc = NativeOracle('reader')
    us = simple_units(P, readerproof.specs(P), 'reader', orc)
    us += [u for u in simple_units(P, headerproof.specs(P), 'header', orc) if 'read_box_header' in u.name or 'seekToData' in u.name or 'offset_to_end' in u.name]
    us += [u for u in simple_units(P, mapproof.specs(P), 'map', orc) if 'registry' in u.name]
    us += [u for u in simple_units(P, treeproof.specs(P), 'tree', orc) if 'BoxInfo(' in u.name]
    us += [u for u in box_units('read', ['Unsupported']) + box_units('hostile', [c for c in sorted(SPECS) if SLOW.get(c, 1) < 50])]
    return us, dict(trusted=TRUST, assumptions=ASSUME + [
        'the call stack suffices for the nesting of the file (every level of nesting is one call of readBox)',
        'the stream behaves like a file or a string: reading the payload of a box gives the bytes at its place, the size of the file does not change',
        'the number of bits readData() reports is a multiple of eight on a well-formed box; printing the tree is checked by the native oracle only'])


IO_SLOW = {'Sgpd.ioread': 300, 'Trun.ioread': 200, 'Tfra.iowrite': 100, 'AVCDecoderConfiguration.ioread': 160, 'Tfra.ioread': 100, 'Trun.iowrite': 60, 'Sgpd.iowrite': 60}


def p_io(P):
    orc = NativeOracle('io')
    us = []
    for kind in sorted(ioproof.KINDS):
        gen = ioproof.KINDS[kind]
        for cls in sorted(SPECS):
            n = '%s.%s' % (cls, kind)
            for c in range(4) if n == 'Tfra.ioread' else [None]:
                us.append(Unit(n + ('' if c is None else '.%d' % c), (lambda ex, gen=gen, cls=cls: gen(ex, cls, SPECS[cls])), CODEC, cls, kind,
                               timeout=420, throws_ok=True, weight=IO_SLOW.get(n, 2), replay=orc, case=c))
    us += simple_units(P, ioproof.specs(P), 'io', orc, weight=10)
    return us, dict(trusted=TRUST, assumptions=ASSUME + [
        'at most one operation of the streams and the intermediate file fails in a run',
        'a stream whose position query or read fails says so in its state or in its return value (-1); flushing and closing a stream belongs to its owner',
        'the other obligations of these functions (undefined behaviour, results) belong to the other properties and are not decided again here'])


PROPS = {'C01': p_codec, 'C02': p_layout, 'C03': p_size, 'C04': p_read, 'C05': p_hostile,
         'C06': p_header, 'C07': p_tree, 'C08': p_track, 'C09': p_trak, 'C10': p_h264, 'C11': p_writer, 'C12': p_reader, 'C13': p_map, 'C14': p_io}
