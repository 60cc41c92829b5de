// box headers: random headers and random streams against the ISO/IEC 14496-12 definition of a box header
#include "oracle.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box/free.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
#include "shiguredo/mp4/stream/stream.hpp"
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace shiguredo::mp4;

static std::string be(std::uint64_t v, int n) {
  std::string r;
  for (int i = n - 1; i >= 0; --i) r += static_cast<char>((v >> (8 * i)) & 0xff);
  return r;
}
static std::uint64_t edge() {
  static const std::uint64_t e[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 0xfffffff6, 0xfffffff7, 0xfffffff8, 0xffffffff, 0x100000000ull, 0x100000007ull, 0x100000008ull, 0x123456789abcdefull};
  auto v = rnd(3) ? e[rnd(sizeof(e) / sizeof(e[0]))] : (rnd(1ull << 32) << 32 | rnd(1ull << 32)) >> rnd(50);
  return v;
}
static BoxType rtype() {
  return BoxType(std::array<std::uint8_t, 4>{static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256))});
}
static std::string ts(const BoxType& t) {
  auto d = t.getData();
  return std::string(d.begin(), d.end());
}
struct Want {
  bool ok = false;
  std::uint64_t size = 0, hs = 8;
  bool eof = false;
  std::string type;
};
static Want parse(const std::string& s, std::uint64_t at) {
  Want w;
  if (at > s.size() || s.size() - at < 8) return w;
  auto u = [&](std::uint64_t p) { return static_cast<std::uint64_t>(static_cast<std::uint8_t>(s[p])); };
  w.size = u(at) << 24 | u(at + 1) << 16 | u(at + 2) << 8 | u(at + 3);
  w.type = s.substr(at + 4, 4);
  if (w.size == 0) {
    w.size = s.size() - at;
    w.eof = true;
  } else if (w.size == 1) {
    if (s.size() - at < 16) return w;
    w.hs = 16;
    w.size = 0;
    for (int i = 0; i < 8; ++i) w.size = w.size << 8 | u(at + 8 + static_cast<std::uint64_t>(i));
  }
  w.ok = true;
  return w;
}
static void check_read(std::istream& is, const std::string& s, std::uint64_t at, const char* what) {
  Want w = parse(s, at);
  BoxHeader* h = nullptr;
  try {
    h = read_box_header(is);
  } catch (std::exception& e) {
    CHECK(!w.ok, "%s: read_box_header() at %llu of %zu bytes throws: %s", what, (unsigned long long)at, s.size(), e.what());
    return;
  }
  CHECK(w.ok, "%s: read_box_header() at %llu of %zu bytes is accepted", what, (unsigned long long)at, s.size());
  if (w.ok) {
    BoxType t;
    t.setData(static_cast<std::uint8_t>(w.type[0]), static_cast<std::uint8_t>(w.type[1]), static_cast<std::uint8_t>(w.type[2]), static_cast<std::uint8_t>(w.type[3]));
    BoxHeader x({.offset = at, .size = w.size, .header_size = w.hs, .type = t, .extend_to_eof = w.eof});
    CHECK(*h == x && h->getOffset() == at && h->getSize() == w.size && h->getHeaderSize() == w.hs && h->getDataSize() == w.size - w.hs && h->getType() == t && ts(h->getType()) == w.type,
          "%s: header at %llu: offset %llu size %llu header %llu type %s", what, (unsigned long long)at, (unsigned long long)h->getOffset(), (unsigned long long)h->getSize(), (unsigned long long)h->getHeaderSize(), h->getType().toString().c_str());
    is.clear();
    auto k = rnd(4);
    auto d = k == 0 || k == 2 ? at + w.hs : at + w.size;
    auto* f = new box::Free();
    f->setHeader(new BoxHeader(*h));
    bool thrown = false;
    try {
      if (k == 0) h->seekToData(is);
      else if (k == 1) h->seekToEnd(is);
      else if (k == 2) f->seekToData(is);
      else f->seekToEnd(is);
    } catch (std::exception&) { thrown = true; }
    if (d <= s.size()) {
      CHECK(!thrown, "seek %d to %llu of %zu refused", (int)k, (unsigned long long)d, s.size());
      CHECK(static_cast<std::uint64_t>(is.tellg()) == d, "seek %d goes to %ld instead of %llu", (int)k, static_cast<long>(is.tellg()), (unsigned long long)d);
    }
    delete f;
  }
  delete h;
}

int main(int argc, char** argv) {
  init(argc, argv);
  char tmp[] = "/tmp/hdrXXXXXX";
  int fd = mkstemp(tmp);
  if (fd >= 0) close(fd);
  while (more()) {
    ++ncase;
    // write and read back
    {
      auto t = rtype();
      std::uint64_t off = rnd(40), size = std::max<std::uint64_t>(edge(), 16);
      bool eof = rnd(4) == 0;
      std::uint64_t hs = !eof && (size > 0xffffffff || rnd(4) == 0) ? 16 : 8;
      if (eof) size = 8 + rnd(30);
      BoxHeader h({.offset = off, .size = size, .header_size = hs, .type = t, .extend_to_eof = eof});
      std::stringstream ss;
      ss << std::string(off, 'x');
      if (rnd(2)) ss.seekp(0);
      auto r = h.write(ss);
      std::string want = std::string(off, 'x');
      if (eof) want += be(0, 4) + ts(t);
      else if (hs == 16) want += be(1, 4) + ts(t) + be(size, 8);
      else want += be(size, 4) + ts(t);
      CHECK(ss.str() == want, "size %llu, header size %llu: written bytes differ", (unsigned long long)size, (unsigned long long)hs);
      CHECK(r == size && h.getSize() == size && h.getHeaderSize() == hs, "write() of size %llu reports %llu", (unsigned long long)size, (unsigned long long)r);
      std::string all = want + std::string(eof ? size - 8 : rnd(9), 'y');
      std::stringstream is(all);
      is.seekg(static_cast<std::streamoff>(off));
      auto* b = read_box_header(is);
      CHECK(*b == h, "size %llu, header size %llu: the header is not read back", (unsigned long long)size, (unsigned long long)hs);
      delete b;
      // form mismatch: the size is encoded as given, the header grows
      if (size > 0xffffffff) {
        BoxHeader m({.offset = 0, .size = size, .type = t});
        std::stringstream ms;
        auto q = m.write(ms);
        CHECK(ms.str() == be(1, 4) + ts(t) + be(size, 8) && q == size + 8 && m.getHeaderSize() == 16, "a 64-bit size in a default header");
      }
      BoxHeader a({.type = t});
      auto o2 = edge(), d2 = edge();
      a.setOffsetAndDataSize(o2, d2);
      std::uint64_t ah = d2 > 0xffffffffull - 8 ? 16 : 8;
      CHECK(a.getOffset() == o2 && a.getHeaderSize() == ah && a.getSize() == d2 + ah && a.getDataSize() == d2, "setOffsetAndDataSize(%llu, %llu)", (unsigned long long)o2, (unsigned long long)d2);
    }
    // arbitrary streams
    {
      std::string s;
      auto n = rnd(40);
      for (std::uint64_t i = 0; i < n; ++i) s += static_cast<char>(rnd(3) ? rnd(256) : rnd(2));
      std::uint64_t at = rnd(n + 3);
      if (n > at + 4 && rnd(2)) for (int i = 0; i < 4; ++i) s[at + static_cast<std::uint64_t>(i)] = static_cast<char>(i == 3 ? rnd(3) : 0);
      if (at <= n) {
        std::stringstream is(s);
        is.seekg(static_cast<std::streamoff>(at));
        check_read(is, s, at, "stringstream");
        std::stringstream i2(s);
        i2.seekg(static_cast<std::streamoff>(at));
        CHECK(stream::get_istream_offset_to_end(i2) == static_cast<std::streamoff>(n - at) && static_cast<std::uint64_t>(i2.tellg()) == at, "get_istream_offset_to_end");
      }
      if (ncase % 64 == 0) {
        { std::ofstream f(tmp, std::ios::binary); f << s; }
        std::ifstream is(tmp, std::ios::binary);
        is.seekg(static_cast<std::streamoff>(at + rnd(4) * 10));
        check_read(is, s, static_cast<std::uint64_t>(is.tellg()), "fstream");
      }
    }
    // byte order, types
    {
      std::uint64_t v = edge() ^ (edge() << 13);
      auto a8 = endian::uint64_to_be(v);
      CHECK(std::string(a8.begin(), a8.end()) == be(v, 8), "uint64_to_be(%llx)", (unsigned long long)v);
      CHECK(endian::be_to_uint64(a8) == v && endian::be_to_uint64(a8[0], a8[1], a8[2], a8[3], a8[4], a8[5], a8[6], a8[7]) == v, "be_to_uint64(%llx)", (unsigned long long)v);
      auto a4 = endian::uint32_to_be(static_cast<std::uint32_t>(v));
      CHECK(std::string(a4.begin(), a4.end()) == be(v & 0xffffffff, 4), "uint32_to_be(%llx)", (unsigned long long)v);
      CHECK(endian::be_to_uint32(a4) == static_cast<std::uint32_t>(v) && endian::be_to_uint32(a4[0], a4[1], a4[2], a4[3]) == static_cast<std::uint32_t>(v), "be_to_uint32(%llx)", (unsigned long long)v);
      auto t = rtype(), u = rnd(3) ? rtype() : rnd(2) ? t : box_type_any();
      CHECK(t.matchWith(u) == (ts(t) == ts(u) || ts(u) == std::string(4, '\0') || ts(t) == std::string(4, '\0')) && u.matchWith(t) == t.matchWith(u), "matchWith");
      std::string n4;
      for (auto i = rnd(7); i > 0; --i) n4 += static_cast<char>(1 + rnd(255));
      bool thrown = false;
      try { CHECK(ts(BoxType(n4)) == n4, "BoxType(string)"); } catch (std::exception&) { thrown = true; }
      CHECK(thrown == (n4.size() != 4), "BoxType(string of %zu)", n4.size());
    }
  }
  std::filesystem::remove(tmp);
  return finish();
}
