// elementary stream descriptors: random descriptors and random bytes against ISO/IEC 14496-1
#include "oracle.hpp"
#include "shiguredo/mp4/box/esds.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include <memory>
#include <spdlog/spdlog.h>
#include <sstream>
using namespace shiguredo::mp4;

static std::string be(std::uint64_t v, int n) {
  std::string r;
  for (int i = n - 1; i >= 0; --i) r += static_cast<char>((v >> (8 * i)) & 0xff);
  return r;
}
static std::string sz(std::uint64_t v) {
  std::string r;
  for (int i = 3; i >= 0; --i) r += static_cast<char>(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0));
  return r;
}
static std::vector<std::uint8_t> bytes(std::size_t n) {
  std::vector<std::uint8_t> v(n);
  for (auto& x : v) x = static_cast<std::uint8_t>(rnd(256));
  return v;
}
static std::size_t len(std::uint64_t max) {
  static const std::size_t e[] = {0, 1, 2, 127, 128, 129, 255, 256, 16383, 16384, 16385, 40000};
  std::size_t n = rnd(2) ? rnd(20) : e[rnd(12)];
  return n > max ? max : n;
}
static std::uint64_t num(int w) { return (rnd(3) ? rnd(1ull << w) : rnd(2) ? 0 : (1ull << w) - 1) & ((1ull << w) - 1); }

struct D {
  std::shared_ptr<box::Descriptor> p;
  std::string fields;      // own fields, encoded
  std::uint64_t sub = 0;
  int tag = 0;
  std::string enc() const { return be(static_cast<std::uint64_t>(tag), 1) + sz(fields.size() + sub) + fields; }
};
static std::string str(const std::vector<std::uint8_t>& v) { return std::string(v.begin(), v.end()); }

static D leaf() {
  D d;
  auto v = bytes(len(40000));
  d.fields = str(v);
  d.tag = rnd(2) ? 5 : 6;
  if (d.tag == 5)
    d.p = std::make_shared<box::DecSpecificInfo>(box::DecSpecificInfoParameters{.data = v});
  else
    d.p = std::make_shared<box::SLConfigDescr>(box::SLConfigDescrParameters{.data = v});
  return d;
}
static D config() {
  D d;
  d.tag = 4;
  auto sub = static_cast<std::uint32_t>(rnd(2) ? 0 : rnd(3) ? num(16) : num(27));
  auto oti = static_cast<std::uint8_t>(num(8));
  auto st = static_cast<int>(num(6));
  bool up = rnd(2), res = rnd(2);
  auto bs = static_cast<std::uint32_t>(num(24)), mb = static_cast<std::uint32_t>(num(32)), ab = static_cast<std::uint32_t>(num(32));
  auto p = std::make_shared<box::DecoderConfigDescriptor>(box::DecoderConfigDescriptorParameters{
      .sub_descriptors_size = sub, .object_type_indication = oti, .stream_type = static_cast<std::int8_t>(st >= 32 ? st - 64 : st), .upstream = up, .reserved = res, .buffer_size_db = bs, .max_bitrate = mb, .avg_bitrate = ab});
  d.fields = be(oti, 1) + be(static_cast<std::uint64_t>(st << 2 | (up ? 2 : 0) | (res ? 1 : 0)), 1) + be(bs, 3) + be(mb, 4) + be(ab, 4);
  d.sub = sub;
  if (!sub)
    for (auto n = rnd(4); n > 0; --n) {
      D s = leaf();
      p->addSubDescriptor(s.p);
      d.sub += s.enc().size();
    }
  d.p = p;
  return d;
}
static D es() {
  D d;
  d.tag = 3;
  auto sub = static_cast<std::uint32_t>(rnd(2) ? 0 : rnd(3) ? num(16) : num(27));
  auto id = static_cast<std::uint16_t>(num(16)), dep = static_cast<std::uint16_t>(num(16)), ocr = static_cast<std::uint16_t>(num(16));
  bool f1 = rnd(2), f2 = rnd(2), f3 = rnd(2);
  auto pr = static_cast<int>(num(5));
  auto url = bytes(f2 ? len(255) : 0);
  auto p = std::make_shared<box::ESDescriptor>(box::ESDescriptorParameters{
      .sub_descriptors_size = sub, .ESID = id, .stream_dependence_flag = f1, .url_flag = f2, .ocr_stream_flag = f3, .stream_priority = static_cast<std::int8_t>(pr >= 16 ? pr - 32 : pr), .depends_on_esid = dep, .url_string = url, .OCRESID = ocr});
  d.fields = be(id, 2) + be(static_cast<std::uint64_t>((f1 ? 128 : 0) | (f2 ? 64 : 0) | (f3 ? 32 : 0) | pr), 1);
  if (f1) d.fields += be(dep, 2);
  if (f2) d.fields += be(url.size(), 1) + str(url);
  if (f3) d.fields += be(ocr, 2);
  d.sub = sub;
  if (!sub)
    for (auto n = rnd(4); n > 0; --n) {
      D s = rnd(2) ? leaf() : config();
      p->addSubDescriptor(s.p);
      d.sub += s.fields.size() + s.sub + 5;
    }
  d.p = p;
  return d;
}

static void roundtrip() {
  std::vector<std::shared_ptr<box::Descriptor>> v;
  std::string want(4, '\0');
  std::string shown;
  for (auto n = rnd(5); n > 0; --n) {
    D d = rnd(3) == 0 ? es() : rnd(2) ? config() : leaf();
    v.push_back(d.p);
    want += d.enc();
    if (d.p->getSize() != d.fields.size() + 5) fail("getSize() of a descriptor %d: %llu, encoded in %zu bytes", d.tag, static_cast<unsigned long long>(d.p->getSize()), d.fields.size() + 5);
    if (d.p->getDataSizeWithSubDescriptors() != d.fields.size() + d.sub) fail("getDataSizeWithSubDescriptors() of a descriptor %d: %u, want %llu", d.tag, d.p->getDataSizeWithSubDescriptors(), static_cast<unsigned long long>(d.fields.size() + d.sub));
  }
  box::Esds e({.descriptors = v});
  std::stringstream os;
  auto bits = e.writeData(os);
  if (os.str() != want) fail("the encoded descriptors differ from the prescribed bytes (%zu of %zu bytes)", os.str().size(), want.size());
  if (bits != want.size() * 8) fail("writeData() reports %llu bits for %zu bytes", static_cast<unsigned long long>(bits), want.size());
  if (e.getDataSize() != want.size()) fail("getDataSize() is %llu, the payload has %zu bytes", static_cast<unsigned long long>(e.getDataSize()), want.size());
  std::stringstream is(want);
  box::Esds r;
  auto rb = r.readData(is);
  if (rb != want.size() * 8) fail("readData() reports %llu bits of a payload of %zu bytes", static_cast<unsigned long long>(rb), want.size());
  if (r.toStringOnlyData() != e.toStringOnlyData()) fail("the decoded descriptors differ: %s, want %s", r.toStringOnlyData().substr(0, 300).c_str(), e.toStringOnlyData().substr(0, 300).c_str());
  std::stringstream again;
  r.writeData(again);
  if (again.str() != want) fail("re-encoding the decoded descriptors gives different bytes (%d)", 0);
}

static void hostile() {
  std::string s(4, '\0');
  for (auto n = rnd(4); n > 0; --n) {
    D d = rnd(3) == 0 ? es() : rnd(2) ? config() : leaf();
    s += d.enc();
  }
  for (auto n = rnd(4); n > 0; --n) switch (rnd(4)) {
      case 0: if (s.size() > 4) s[4 + rnd(s.size() - 4)] = static_cast<char>(rnd(256)); break;
      case 1: s.resize(rnd(s.size() + 1)); break;
      case 2: s += static_cast<char>(rnd(9)); break;
      default: s += str(bytes(rnd(8)));
    }
  // keep the sizes asked for small: a vector of 2^32 bytes is allocated before the data turns out to be missing
  for (std::size_t i = 4; i + 4 < s.size(); ++i)
    if ((s[i] & 0x80) && (s[i + 1] & 0x80) && (s[i + 2] & 0x80)) s[i] = static_cast<char>(0x80), s[i + 1] = static_cast<char>(0x80), s[i + 2] &= static_cast<char>(0x8f);
  std::stringstream is(s);
  box::Esds r;
  try {
    auto rb = r.readData(is);
    auto used = static_cast<std::uint64_t>(is.tellg()) * 8;
    if (rb > s.size() * 8 || rb < used) fail("readData() reports %llu bits, %llu consumed of %zu", static_cast<unsigned long long>(rb), static_cast<unsigned long long>(used), s.size() * 8);
    r.toStringOnlyData();
  } catch (std::exception&) {
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  spdlog::set_level(spdlog::level::off);
  while (more()) {
    ++ncase;
    roundtrip();
    hostile();
  }
  return finish();
}
