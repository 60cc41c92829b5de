NULLBUF = '''
struct Null : std::streambuf {
  std::map<std::uint64_t, std::uint8_t> at;
  std::uint64_t pos = 0;
  int_type overflow(int_type c) override { at[pos++] = static_cast<std::uint8_t>(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n < 4096) for (std::streamsize i = 0; i < n; ++i) at[pos + i] = static_cast<std::uint8_t>(s[i]);
    pos += static_cast<std::uint64_t>(n);
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    if (d == std::ios_base::beg) pos = static_cast<std::uint64_t>(o); else if (d == std::ios_base::cur) pos += static_cast<std::uint64_t>(o);
    return static_cast<off_type>(pos);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override { pos = static_cast<std::uint64_t>(off_type(p)); return p; }
  std::uint64_t be(std::uint64_t p, int n) { std::uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | at[p + i]; return v; }
};
'''

seed('c01-sign-extension', 'C01', [('include/shiguredo/mp4/bitio/bitio.hpp',
"    val = static_cast<std::uint64_t>(~0);",
"    val = static_cast<std::uint64_t>(std::uint32_t{0xffffffff});")],
'''#include "shiguredo/mp4/bitio/bitio.hpp"
using namespace shiguredo::mp4;
int main() {
  std::stringstream ss;
  bitio::Writer w(ss);
  bitio::write_int<std::int64_t>(&w, -5, 24);
  bitio::Reader r(ss);
  std::int64_t v = 0;
  bitio::read_int<std::int64_t>(&r, &v, 24);
  if (v != -5) { printf("%lld is read instead of -5\\n", (long long)v); return 1; }
}
''', 'a negative value of at most 24 bits that is read into a 64-bit variable', 'the sign is extended to 32 bits and the bytes read only')

seed('c01-unaligned-write', 'C01', [('src/bitio/writer.cpp',
'''  if (m_width != 0) {
    throw std::invalid_argument("bitio::Writer::write(): width is not 0");
  }
''',
'''  if (m_octet != 0) {
    throw std::invalid_argument("bitio::Writer::write(): width is not 0");
  }
''')],
'''#include "shiguredo/mp4/bitio/bitio.hpp"
using namespace shiguredo::mp4;
int main() {
  std::stringstream ss;
  bitio::Writer w(ss);
  bitio::write_uint<std::uint8_t>(&w, 0, 3);
  try { w.write({1, 2}); } catch (std::exception&) { return 0; }
  puts("bytes are written between the bits of an octet");
  return 1;
}
''', 'whole bytes written after pending bits that are all zero', 'the pending zero bits are put behind the bytes')

seed('c06-shrunk-header', 'C06', [('src/box_header.cpp',
"""  m_offset = t_offset;
  if (t_data_size > (std::numeric_limits<std::uint32_t>::max() - Constants::SMALL_HEADER_SIZE)) {
    m_header_size = Constants::LARGE_HEADER_SIZE;
  } else {
    m_header_size = Constants::SMALL_HEADER_SIZE;
  }
""",
"""  m_offset = t_offset;
  if (t_data_size + Constants::LARGE_HEADER_SIZE > std::numeric_limits<std::uint32_t>::max()) {
    m_header_size = Constants::LARGE_HEADER_SIZE;
  } else {
    m_header_size = Constants::SMALL_HEADER_SIZE;
  }
""")],
'''#include "shiguredo/mp4/box_header.hpp"
using namespace shiguredo::mp4;
int main() {
  BoxHeader h({.offset = 0, .type = BoxType("mdat")});
  h.setOffsetAndDataSize(0, 0xffffffffull - 8);
  if (h.getHeaderSize() != 8 || h.getSize() != 0xffffffffull) { puts("a size that fits 32 bits gets the 64-bit form"); return 1; }
}
''', 'a payload of 2^32-16 .. 2^32-9 bytes', 'a box whose size fits 32 bits gets the form of 16 bytes')

seed('c07-promoted-header', 'C07', [('src/box_info.cpp',
"""    adjustOffsetAndSize(offset);
  }
  return m_box->getSize();""",
"""    // the header has another form: the children move
    std::uint64_t leaf_offset = offset + m_box->getHeaderSize() + data_size;
    for (auto l : m_leafs) {
      l->m_box->setOffsetAndDataSize(leaf_offset, l->m_box->getSize() - l->m_box->getHeaderSize());
      leaf_offset += l->m_box->getSize();
    }
  }
  return m_box->getSize();""")],
'''#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
using namespace shiguredo::mp4;
struct Big : Box {
  std::uint64_t n;
  explicit Big(std::uint64_t t_n) : n(t_n) { m_type = BoxType("moov"); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t getDataSize() const override { return n; }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t writeData(std::ostream&) const override { return 8 * n; }
};
static std::uint64_t off(Box* b) { std::stringstream s; BoxHeader* h = nullptr; (void)h; auto t = b->toString(); return std::stoull(t.substr(t.find("Offset=") + 7)); }
int main() {
  auto top = new BoxInfo({.box = new Big(10)});
  auto mid = new BoxInfo({.parent = top, .box = new Big(20)});
  auto low = new BoxInfo({.parent = mid, .box = new Big(30)});
  new BoxInfo({.parent = top, .box = new Big(5000000000ull)});
  top->adjustOffsetAndSize(100);
  auto m = off(mid->getBox()), l = off(low->getBox());
  if (m != 100 + 16 + 10 || l != m + 8 + 20) { printf("offsets %llu %llu\\n", (unsigned long long)m, (unsigned long long)l); return 1; }
}
''', 'a container of more than 4 GiB with grandchildren', 'the grandchildren keep the offsets from before their grandparent got the 64-bit header')

seed('c08-late-last-sample', 'C08', [('src/track/track.cpp',
"""  if (!std::empty(m_mdat_sample_sizes)) {
    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
  }
}""",
"""  if (!std::empty(m_mdat_sample_sizes) && getDurationInTimescale() > m_prev_timestamp) {
    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
  }
}""")],
'''#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
using namespace shiguredo::mp4;
struct T : track::AACTrack {
  using track::AACTrack::AACTrack;
  std::size_t n() { finalize(); return m_sample_durations.size() - m_mdat_sample_sizes.size(); }
};
int main() {
  std::stringstream ss(std::string(4096, ' '));
  writer::SimpleWriter w(ss, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();
  T t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .writer = &w});
  t.addData(0, std::vector<std::uint8_t>{1, 2, 3}, true);
  t.addData(1000, std::vector<std::uint8_t>{4, 5}, true);
  if (t.n() != 0) { puts("a sample has no duration"); return 1; }
}
''', 'a last sample at (or behind) the end of the track', 'the last sample gets no entry in the duration runs')

seed('c09-wide-elst', 'C09', [('src/track/vide.cpp',
"                   .duration = getDurationInMvhdTimescale(),\n                   .volume = 0,",
"                   .duration = getDurationInMvhdTimescale() > 0xffffffff ? getDurationInTimescale() : getDurationInMvhdTimescale(),\n                   .volume = 0,")],
'''#include <fstream>
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
using namespace shiguredo::mp4;
struct T : track::VPXTrack {
  using track::VPXTrack::VPXTrack;
  std::string tkhd() { BoxInfo i({.box = new box::Trak()}); makeTkhdBoxInfo(&i); i.adjustOffsetAndSize(0); return i.toString(); }
};
int main() {
  std::stringstream ss(std::string(4096, ' '));
  writer::SimpleWriter w(ss, {.mvhd_timescale = 1000000, .duration = 8192.0f});
  T t({.timescale = 16000, .duration = 8192.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
  auto s = t.tkhd();
  if (s.find("Duration=8192000000") == std::string::npos) { puts(s.c_str()); return 1; }
}
''', 'a track whose duration in the movie timescale needs more than 32 bits', 'the track header gives the duration in the timescale of the media')

seed('c10-last-sps', 'C10', [('src/track/h264.cpp',
"        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {",
"        if (std::size(m_picture_parameter_sets) == 0 && std::size(sps_data) > 4) {")],
'''#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace shiguredo::mp4;
struct T : track::H264Track {
  using track::H264Track::H264Track;
  std::string p() { BoxInfo i({.box = new box::Moov()}); appendTrakBoxInfo(&i); i.adjustOffsetAndSize(0); return i.toString(); }
};
int main() {
  std::stringstream ss(std::string(4096, ' '));
  writer::SimpleWriter w(ss, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();
  T t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
  t.addData(0, std::vector<std::uint8_t>{0, 0, 0, 1, 0x67, 1, 2, 3, 4, 5, 0, 0, 0, 1, 0x67, 9, 8, 7, 6, 5, 0, 0, 0, 1, 0x68, 1, 2, 0, 0, 0, 1, 0x65, 9, 9, 9}, true);
  auto s = t.p();
  if (s.find("Profile=0x1 ProfileCompatibility=0x2 Level=0x3") == std::string::npos) { puts(s.c_str()); return 1; }
}
''', 'two sequence parameter sets before the first picture parameter set', 'the profile is that of the last of them')

seed('c10-short-last-unit', 'C10', [('src/track/h264.cpp',
"    if (nu.end >= data_size) {\n      return;",
"    if (nu.end + 4 >= data_size) {\n      return;")],
'''#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace shiguredo::mp4;
struct T : track::H264Track {
  using track::H264Track::H264Track;
  std::string p() { BoxInfo i({.box = new box::Moov()}); appendTrakBoxInfo(&i); i.adjustOffsetAndSize(0); return i.toString(); }
};
int main() {
  std::stringstream ss(std::string(4096, ' '));
  writer::SimpleWriter w(ss, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();
  T t({.timescale = 1000, .duration = 1.0f, .track_id = 1, .width = 64, .height = 48, .writer = &w});
  t.addData(0, std::vector<std::uint8_t>{0, 0, 0, 1, 0x65, 9, 9, 9, 0, 0, 1, 0x68}, true);
  auto s = t.p();
  if (s.find("NumOfPictureParameterSets=0x1 ") == std::string::npos) { puts(s.c_str()); return 1; }
}
''', 'a last unit of one byte behind a start code of three bytes', 'the last unit of an access unit is dropped')

seed('c11-mdat-limit', 'C11', [('src/writer/simple_writer.cpp',
"  if (m_mdat_data_size > (std::numeric_limits<std::uint32_t>::max() - 8)) {",
"  if (m_mdat_data_size > std::numeric_limits<std::uint32_t>::max()) {")],
'''#include <map>
#include "shiguredo/mp4/writer/simple_writer.hpp"
using namespace shiguredo::mp4;
''' + NULLBUF + '''
int main() {
  Null b;
  std::ostream os(&b);
  writer::SimpleWriter w(os, {.mvhd_timescale = 1000, .duration = 1.0f});
  w.writeFtypBox();
  auto start = b.pos;
  std::vector<std::uint8_t> d(1 << 28);
  for (int i = 0; i < 15; ++i) w.addMdatData(d.data(), d.size());
  w.addMdatData(d.data(), d.size() - 4);
  w.appendTrakAndUdtaBoxInfo({});
  w.writeMoovBox();
  w.writeFreeBoxAndMdatHeader();
  auto s = b.be(start - 8, 4);
  std::uint64_t n = 15ull * (1 << 28) + (1 << 28) - 4;
  bool ok = s == n + 8 || (b.be(start - 16, 4) == 1 && b.be(start - 8, 8) == n + 16);
  if (!ok) { printf("mdat size %llx\\n", (unsigned long long)s); return 1; }
}
''', 'between 2^32-8 and 2^32-1 bytes of media data', 'the media data box gets the small header and a wrong layout')

seed('c12-large-container', 'C12', [('src/reader/reader.cpp',
"  m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));",
"  const std::uint64_t data_offset = header->getOffset() + (rbytes == 0 ? Constants::SMALL_HEADER_SIZE : header->getHeaderSize());\n  m_is.seekg(static_cast<std::streamoff>(data_offset + rbytes));")],
'''#include "shiguredo/mp4/reader/reader.hpp"
int main() {
  std::string f("\\0\\0\\0\\1moov\\0\\0\\0\\0\\0\\0\\0\\x20\\0\\0\\0\\x10" "free12345678\\0\\0\\0\\x8skip", 40);
  std::istringstream is(f);
  std::ostringstream o;
  auto so = std::cout.rdbuf(o.rdbuf());
  bool ok = true;
  try { shiguredo::mp4::reader::SimpleReader r(is); r.read(); } catch (std::exception& e) { ok = false; }
  std::cout.rdbuf(so);
  ok = ok && o.str().find("[moov] Offset=0 Size=32\\n  [free] Offset=16 Size=16") != std::string::npos && o.str().find("[skip] Offset=32 Size=8") != std::string::npos;
  if (!ok) { puts(o.str().c_str()); return 1; }
}
''', 'a container with a 64-bit header', 'its children are looked for inside its header')

seed('c13-flags-wide', 'C13', [('src/box.cpp',
"  m_flags[0] = static_cast<std::uint8_t>((flag >> 16) & 0xff);",
"  m_flags[0] = static_cast<std::uint8_t>((flag >> 16) & 0x7f);")],
'''#include "shiguredo/mp4/box/trun.hpp"
using namespace shiguredo::mp4;
int main() {
  box::Trun b;
  b.setFlags(0);
  b.addFlag(0x800000);
  if (!b.checkFlag(0x800000)) { puts("a flag is lost"); return 1; }
}
''', 'the highest of the 24 flags', 'the highest flag cannot be set')

seed('c14-last-octet', 'C14', [('src/bitio/writer.cpp',
"    m_os.write(data, 1);\n    if (!m_os.good()) {",
"    m_os.write(data, 1);\n    if (m_os.rdstate() == std::ios_base::failbit) {")],
'''#include "shiguredo/mp4/bitio/bitio.hpp"
using namespace shiguredo::mp4;
struct Full : std::streambuf {
  int n = 3;
  int_type overflow(int_type c) override { return n-- > 0 ? c : traits_type::eof(); }
  std::streamsize xsputn(const char*, std::streamsize k) override { std::streamsize r = 0; while (r < k && n > 0) { --n; ++r; } return r; }
};
int main() {
  Full b;
  std::ostream os(&b);
  bitio::Writer w(os);
  try { bitio::write_uint<std::uint64_t>(&w, 1); } catch (std::exception&) { return 0; }
  puts("a full device is not reported");
  return 1;
}
''', 'a stream whose buffer refuses bytes (badbit)', 'bits are reported as written although the stream refused them')

seed('c14-end-query', 'C14', [('src/box_header.cpp',
"""    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
    if (!is.good()) {
      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
    }
    header_size = Constants::LARGE_HEADER_SIZE;""",
"""    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
    header_size = Constants::LARGE_HEADER_SIZE;""")],
'''#include "shiguredo/mp4/box_header.hpp"
using namespace shiguredo::mp4;
struct Broken : std::stringbuf {
  int reads = 0;
  Broken() : std::stringbuf(std::string("\\0\\0\\0\\1free\\0\\0\\0\\0\\0\\0\\0\\x20 0123456789abcdef", 33)) {}
  std::streamsize xsgetn(char* s, std::streamsize n) override { return ++reads == 2 ? 0 : std::stringbuf::xsgetn(s, n); }
};
int main() {
  Broken b;
  std::istream is(&b);
  try { auto h = read_box_header(is); printf("size %llx\\n", (unsigned long long)h->getSize()); } catch (std::exception&) { return 0; }
  return 1;
}
''', 'a read that fails in the second half of a 64-bit header', 'the size is made of bytes that were not read')
