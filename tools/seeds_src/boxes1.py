seed('c02-colr-prof', 'C02', [('src/box/colr.cpp',
"""    return wbits + nclxMarshal(&writer);
  }
  if (m_colour_type == std::array<std::uint8_t, 4>{'r', 'I', 'C', 'C'} ||
      m_colour_type == std::array<std::uint8_t, 4>{'p', 'r', 'o', 'f'}) {""",
"""    return wbits + nclxMarshal(&writer);
  }
  const bool icc = m_colour_type[1] == 'I' || m_colour_type[2] == 'C';
  if (icc) {""")],
'''#include "shiguredo/mp4/box/colr.hpp"
using namespace shiguredo::mp4;
int main() {
  box::Colr b({.colour_type = {'p', 'r', 'o', 'f'}, .profile = {1, 2, 3}});
  std::stringstream ss;
  b.writeData(ss);
  if (ss.str() != std::string("prof\\1\\2\\3")) { puts("an unrestricted ICC profile is not written"); return 1; }
}
''', 'colour type prof with a profile', 'the payload of unrestricted ICC profiles is dropped by the encoder')

seed('c03-tfhd-popcount', 'C03', [('src/box/tfhd.cpp',
"""  if (flags & TfhdDefaultSampleSizePresent) {
    size += 4;
  }
  if (flags & TfhdDefaultSampleFlagsPresent) {
    size += 4;
  }
  return size;""",
"""  if (flags & TfhdDefaultSampleSizePresent) {
    size += 4;
    if (flags & TfhdDefaultSampleFlagsPresent) {
      size += 4;
    }
  }
  return size;""")],
'''#include "shiguredo/mp4/box/tfhd.hpp"
using namespace shiguredo::mp4;
int main() {
  box::Tfhd b({.flags = 0x20, .track_id = 1, .default_sample_flags = 7});
  std::stringstream ss;
  auto bits = b.writeData(ss);
  if (b.getDataSize() * 8 != bits || ss.str().size() != b.getDataSize()) { puts("announced size differs from the encoded size"); return 1; }
}
''', 'a fragment header with default sample flags but without a default sample size', 'the announced size is four bytes short for that flag combination')

seed('c04-emsg-empty-message', 'C04', [('src/box/emsg.cpp',
"""    rbits += bitio::read_uint<std::uint32_t>(&reader, &m_id);
    const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
""",
"""    rbits += bitio::read_uint<std::uint32_t>(&reader, &m_id);
    // both strings are terminated, so at least one byte follows the first one
    const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is)) - 1;
""")],
'''#include "shiguredo/mp4/box/emsg.hpp"
using namespace shiguredo::mp4;
int main() {
  box::Emsg b({.version = 1, .scheme_uri = "urn:x", .value = "abc", .timescale = 1, .event_duration = 2, .id = 3});
  std::stringstream ss, s2;
  auto bits = b.writeData(ss);
  box::Emsg c;
  try {
    if (c.readData(ss) != bits) { puts("reported bits differ"); return 1; }
  } catch (std::exception& e) { printf("decoding an encoded box throws %s\\n", e.what()); return 1; }
  c.writeData(s2);
  if (s2.str() != ss.str()) { puts("decoded box differs"); return 1; }
}
''', 'an emsg box of version 1 whose message data is empty', 'the terminator of the second string is outside the announced limit when nothing follows it')

seed('c05-pssh-truncated', 'C05', [('src/box/pssh.cpp',
"""  rbits += bitio::read_vector_uint<std::uint8_t>(&reader, data_size, &m_data);
  return rbits;""",
"""  m_data.resize(data_size);
  is.read(reinterpret_cast<char*>(m_data.data()), static_cast<std::streamsize>(data_size));
  rbits += static_cast<std::uint64_t>(data_size) * 8;
  return rbits;""")],
'''#include "shiguredo/mp4/box/pssh.hpp"
using namespace shiguredo::mp4;
int main() {
  std::string s(24, 0);
  s[23] = 10;
  s += "abc";
  std::stringstream ss(s);
  box::Pssh b;
  try {
    auto bits = b.readData(ss);
    if (bits > s.size() * 8) { puts("truncated payload reported as decoded"); return 1; }
  } catch (std::exception&) {}
}
''', 'a pssh payload that ends inside its data', 'truncated data is reported as completely decoded')
