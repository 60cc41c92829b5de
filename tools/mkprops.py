#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'The bit-level writer and reader are exact, MSB-first inverses',
     'Writing an integer of the given width (signed or unsigned, 1 to 64 bits) at any bit alignment appends exactly that many bits, most significant bit first, and nothing else; '
     'reading the same widths back at the same alignment yields the same values. Every helper reports exactly the number of bits it transferred, and whole-byte transfers at an unaligned position are refused with an exception.',
     ['inputs', 'histories'], 'all values, all widths up to 64, all pending-bit states, all sequences of operations on one stream',
     'The tests use a handful of values at a few alignments; the claim is about every value, every width and every alignment and every sequence of calls.',
     ['src/bitio/bitio.cpp', 'src/bitio/reader.cpp', 'src/bitio/writer.cpp', 'include/shiguredo/mp4/bitio/bitio.hpp', 'include/shiguredo/mp4/bitio/reader.hpp', 'include/shiguredo/mp4/bitio/writer.hpp'],
     [('bit accumulation and flushing', 'src/bitio/writer.cpp'), ('bit extraction', 'src/bitio/reader.cpp'), ('integer, string, vector and array helpers', 'include/shiguredo/mp4/bitio/bitio.hpp')],
     ['bytes appended to the output stream', 'values read', 'reported bit counts'])

prop('C02', 'Every box payload is encoded exactly as the container standards prescribe',
     'For every box class and every parameter record in its documented domain, encoding the box emits exactly the bits that ISO/IEC 14496-12/-14/-15 (and the AV1, VP, Opus and QuickTime bindings) prescribe: '
     'the fields in order, each with its prescribed width, signedness and value, every optional field exactly when version, flags or type call for it, and every reserved field with its prescribed value.',
     ['inputs', 'configurations'], 'all box classes, all field values, all versions and flag combinations, all list lengths',
     'The tests encode one or two instances per box and compare bytes; conditionals on version and flags, wide values and long lists are not exercised.',
     ['src/box', 'include/shiguredo/mp4/box'],
     [('per-box encoder', 'src/box/*.cpp: writeData()'), ('element encoders', 'src/box/*.cpp: *Entry::writeData()')], ['bytes appended to the output stream'])

prop('C03', 'The announced size of a box payload equals the number of bytes encoded',
     'For every box class and every valid parameter record, the payload size that the box announces before encoding, the number of bits the encoder reports, and the number of bits actually appended to the stream all agree, and the size is a whole number of bytes. '
     'Offsets and sizes of a whole file are computed from the announced size, so any disagreement shifts everything behind the box.',
     ['inputs', 'configurations'], 'all box classes, all field values, all versions and flag combinations, all list lengths',
     'Tests compare the two for one instance per box; a size that is wrong for one flag combination, version or list length passes.',
     ['src/box', 'include/shiguredo/mp4/box', 'src/box.cpp'],
     [('announced payload size', 'src/box/*.cpp: getDataSize()'), ('reported bits', 'src/box/*.cpp: writeData()')], ['announced size', 'reported bits', 'bytes appended'])

prop('C04', 'Decoding an encoded box payload restores the box, consuming exactly the payload',
     'For every box class and every valid parameter record, decoding the encoded payload with a fresh box consumes exactly the payload, reports exactly its length in bits, restores every field that has a representation in the file, '
     'and encoding the decoded box again yields the same bits.',
     ['inputs', 'configurations'], 'all box classes, all field values, all versions and flag combinations, all list lengths and string contents',
     'Tests round-trip one or two instances per box; fields that are dropped, swapped or truncated only for other versions, flags, values or lengths are not seen.',
     ['src/box', 'include/shiguredo/mp4/box'],
     [('per-box decoder', 'src/box/*.cpp: readData()'), ('element decoders', 'src/box/*.cpp: *Entry::readData()')], ['decoded box', 'stream position', 'reported bits'])

prop('C05', 'Decoding arbitrary bytes is safe, terminates and never over-reports',
     'For every box class, decoding a payload from a stream with arbitrary content and length either throws an exception or returns; it always terminates, never reads outside its buffers, never uses an uninitialised value and has no undefined behaviour. '
     'When it returns, the number of bits it reports is at least what it consumed and at most what the stream held, so truncated input is never reported as decoded.',
     ['inputs'], 'all byte strings of all lengths and all start positions, for every box class',
     'The tests only decode well-formed payloads; malformed counts, lengths and truncations form an unbounded space.',
     ['src/box', 'src/bitio', 'src/stream/stream.cpp'],
     [('per-box decoder', 'src/box/*.cpp: readData()'), ('end-of-stream detection', 'src/bitio/reader.cpp'), ('remaining size', 'src/stream/stream.cpp')], ['outcome of decoding', 'reported bits', 'stream position'])

prop('C06', 'Box headers encode and decode exactly, in the 32-bit and the 64-bit form',
     'A header is written big-endian at its offset: with a zero 32-bit size when the box extends to the end of the file, otherwise in the 8-byte form when its total size fits 32 bits and it is not already in the 16-byte form, and in the 16-byte form otherwise. '
     'Reading a header back whose form matches its size yields the same offset, size, header size, type and end-of-file mark. Reading a header from arbitrary bytes yields exactly the encoded header, which then lies inside the stream, or throws when it is truncated; assigning offset and payload size makes size equal to header plus payload with the matching form.',
     ['inputs'], 'all sizes up to 2^64, all types, all offsets, all stream contents',
     'The tests use a few small headers; the size boundaries around 2^32 and truncated streams are not reached.',
     ['src/box_header.cpp', 'src/endian/endian.cpp', 'src/box_type.cpp'],
     [('header encoder', 'src/box_header.cpp: BoxHeader::write()'), ('header decoder', 'src/box_header.cpp: read_box_header()'), ('form selection', 'src/box_header.cpp: setOffsetAndDataSize()'), ('byte order', 'src/endian/endian.cpp')], ['bytes in the stream', 'header fields'])

prop('C07', 'A box tree is laid out contiguously; every box records its true offset and size',
     'After offsets and sizes have been assigned to a box tree, every box size is its header plus its own payload plus the sizes of its children, the first child starts where the parent payload ends, and each next child starts where the previous one ends. '
     'Writing the tree visits the boxes in that order, parents before children, so that every box lands on its recorded offset.',
     ['inputs', 'configurations'], 'all trees of any shape and depth, all payload sizes, including those that make a box cross the 32-bit size boundary',
     'The tests write a few small fixed trees; arbitrary shapes, and the change of a header form that moves all children, are not exercised.',
     ['src/box_info.cpp', 'src/box.cpp', 'src/box_header.cpp'],
     [('offset and size assignment', 'src/box_info.cpp: adjustOffsetAndSize()'), ('write order', 'src/box_info.cpp: write()')], ['recorded offsets and sizes', 'order of bytes in the file'])

prop('C08', 'The sample tables of a track describe exactly the samples that were added',
     'For every sequence of media samples added to a track, the tables it produces describe exactly that sequence: expanding the duration runs yields every duration in order, expanding the chunk map with the chunk offsets and sample sizes yields the offset and size of every sample, '
     'and the list of sync samples holds exactly the 1-based numbers of the key frames of a video track and is absent from an audio track. The duration of a sample is the time to the next sample, of the last one the time to the end of the track. Chunk offsets use 64 bits whenever one does not fit 32 bits.',
     ['inputs', 'histories'], 'all sequences of samples of any length, with any durations, sizes, offsets and key-frame patterns',
     'The tests build tables for a few fixed sequences; run-length boundaries, the last sample, single-sample chunks and large offsets are combinations no fixed test covers.',
     ['src/track/track.cpp', 'src/track', 'include/shiguredo/mp4/track'],
     [('sample bookkeeping', 'src/track/track.cpp: addMediaSample()/finalize paths'), ('table construction', 'src/track/track.cpp: make*BoxInfo()')], ['stts, stsc, stsz, stco/co64 and stss boxes of the track'])

prop('C09', 'Each codec track produces the box hierarchy its codec binding requires',
     'For every codec, the track box contains the header, media header, handler, media information, data reference and sample table boxes in the required nesting and order, with the sample description of that codec (and its configuration box) built from the given parameters, '
     'and with durations, timescale, track id, dimensions, volume and media type taken from its parameters.',
     ['inputs', 'configurations'], 'all codecs, all parameter values',
     'The tests build one track for some codecs with fixed parameters and check few of the values.',
     ['src/track', 'include/shiguredo/mp4/track'],
     [('track hierarchy', 'src/track/track.cpp'), ('sample descriptions', 'src/track/{aac,av1,h264,mp3,opus,vpx}.cpp')], ['box tree of the track'])

prop('C10', 'H.264 access units go from start codes to length prefixes without loss',
     'Splitting an Annex-B byte string into NAL units finds every unit behind a start code of three or four bytes, in order, reports its header byte and exact extent (up to the next start code or the end of the data), and never reads outside the data; data that does not begin with a start code is refused. '
     'Every slice is stored once as a sample, behind its 4-byte length and with the given time and key mark; sequence and picture parameter sets are kept in order for the decoder configuration, whose profile, compatibility and level are those of the first sequence parameter set; SEI units are dropped and other types refused.',
     ['inputs'], 'all byte strings, including empty ones, adjacent start codes, units without payload and truncated start codes',
     'The tests use one recorded stream; unusual placements of start codes, and data that ends inside one, are not reached.',
     ['src/track/h264.cpp', 'include/shiguredo/mp4/track/h264.hpp'],
     [('NAL unit scan', 'src/track/h264.cpp'), ('length prefixing', 'src/track/h264.cpp')], ['bytes of the stored sample', 'parameter sets in the codec configuration'])

prop('C11', 'Muxed files are laid out consistently: offsets, durations and media data agree',
     'Whichever writer is used and whatever samples were added, the file is the file type box, the movie box and the media data box laid out back to back (movie box last for the simple writer, first for the fast-start one), '
     'the media data box size covers exactly the bytes added, the movie box records the given duration in the movie timescale and the next free track id, and every chunk offset stored in the movie box points at the bytes that were added for it.',
     ['inputs', 'histories'], 'all sequences of added tracks and samples, all sizes including ones that change the header form or the offset width',
     'The tests do not run the writers on large or unusual inputs; agreement of offsets, reserved sizes and final sizes is a relation over the whole history.',
     ['src/writer', 'src/track/track.cpp', 'src/box_info.cpp'],
     [('simple writer', 'src/writer/simple_writer.cpp'), ('fast-start writer', 'src/writer/faststart_writer.cpp'), ('common part', 'src/writer/writer.cpp')], ['bytes of the file'])

prop('C12', 'Reading a file visits every box once, inside its parent, and terminates',
     'For every input stream the reader terminates: each step either consumes at least one byte or throws, a child box never extends beyond its parent without an error, and unknown boxes are kept as opaque payloads. '
     'On a well-formed file the resulting tree has one node per box, in file order, with the recorded offset, size and type of each box.',
     ['inputs'], 'all byte streams, all nestings',
     'The tests read a few well-formed sample files; overlapping, zero-sized, truncated and mis-nested boxes are an unbounded space.',
     ['src/reader', 'src/box_map.cpp', 'src/box_header.cpp'],
     [('box loop', 'src/reader/reader.cpp'), ('type dispatch', 'src/box_map.cpp')], ['box tree', 'outcome of reading'])

prop('C13', 'Versions, flags, types, times and identifiers are mapped exactly',
     'Setting, adding, removing and testing flags of a box behaves as set operations on a 24-bit set and leaves the version alone; every box reports the four-character type the standard gives it and the type registry creates a box of the matching class for every known type and context. '
     'Times convert between the Unix and the 1904 epochs without loss, and languages, brands and four-character codes are stored character by character.',
     ['inputs', 'configurations'], 'all flag words, all types, all times, all identifiers',
     'The tests check single examples; one wrong bit, one wrong table row or an off-by-one in an epoch escapes them.',
     ['src/box.cpp', 'src/box_map.cpp', 'src/box_type.cpp', 'src/box_types.cpp', 'src/time/time.cpp'],
     [('flag word', 'src/box.cpp: FullBox'), ('type registry', 'src/box_map.cpp'), ('epoch conversion', 'src/time/time.cpp')], ['flag word', 'created class', 'converted time'])

prop('C14', 'A failing stream is never mistaken for success',
     'Whenever the underlying stream fails during an operation of the library that returns normally, the failure was not lost: every encoder, decoder and header function that observes a failing read, write or seek throws, '
     'so that a normal return means that all bits it reports were really transferred.',
     ['fault_sequences', 'inputs'], 'a failure of the stream at any one of its operations, for every box class and every valid parameter record',
     'No test injects stream failures; the failure can strike at any of the operations of an encoder or decoder.',
     ['src/bitio', 'src/box_header.cpp', 'src/stream/stream.cpp', 'src/box'],
     [('write check', 'src/bitio/writer.cpp'), ('read check', 'src/bitio/reader.cpp'), ('seek checks', 'src/stream/stream.cpp')], ['outcome of the operation'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
