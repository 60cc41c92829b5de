// random sequences of codec operations on one stream against an independent bit string
#include "oracle.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
using namespace shiguredo::mp4::bitio;

struct Op {
  int kind, n;
  std::uint64_t v;
  std::string s;
};
static std::string bits;  // '0' / '1'
static void put(std::uint64_t v, int n) {
  for (int i = n - 1; i >= 0; --i) bits += ((v >> i) & 1) ? '1' : '0';
}
static std::string bytes() {
  std::string r;
  for (std::size_t i = 0; i + 8 <= bits.size(); i += 8) {
    int c = 0;
    for (int j = 0; j < 8; ++j) c = c * 2 + (bits[i + static_cast<std::size_t>(j)] == '1');
    r += static_cast<char>(c);
  }
  return r;
}
template <typename T>
static void wu(Writer* w, const Op& o) {
  auto r = write_uint<T>(w, static_cast<T>(o.v), static_cast<std::uint64_t>(o.n));
  CHECK(r == static_cast<std::uint64_t>(o.n), "write_uint<%zu>(%llx, %d) reports %llu bits", sizeof(T) * 8, (unsigned long long)o.v, o.n, (unsigned long long)r);
  put(static_cast<std::uint64_t>(static_cast<T>(o.v)), o.n);
}
template <typename T>
static void wi(Writer* w, const Op& o) {
  T v = static_cast<T>(o.v);
  auto r = write_int<T>(w, v, static_cast<std::uint64_t>(o.n));
  CHECK(r == static_cast<std::uint64_t>(o.n), "write_int<%zu>(%llx, %d) reports %llu bits", sizeof(T) * 8, (unsigned long long)o.v, o.n, (unsigned long long)r);
  put(v < 0 ? 1 : 0, 1);
  put(static_cast<std::uint64_t>(v), o.n - 1);
}
template <typename T>
static void ru(Reader* rd, const Op& o) {
  T x = static_cast<T>(0x55), want = static_cast<T>(o.n == 64 ? o.v : o.v & ((1ULL << o.n) - 1));
  auto r = read_uint<T>(rd, &x, static_cast<std::uint64_t>(o.n));
  CHECK(r == static_cast<std::uint64_t>(o.n) && x == want, "read_uint<%zu>(%d bits) gives %llx instead of %llx", sizeof(T) * 8, o.n, (unsigned long long)x, (unsigned long long)want);
}
template <typename T>
static void ri(Reader* rd, const Op& o) {
  // sign bit followed by the low n-1 bits
  T v = static_cast<T>(o.v), x = static_cast<T>(0x55);
  std::int64_t lo = static_cast<std::int64_t>(o.n == 1 ? 0 : static_cast<std::uint64_t>(v) & ((1ULL << (o.n - 1)) - 1));
  std::int64_t want = v < 0 ? static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) - (1ULL << (o.n - 1))) : lo;
  auto r = read_int<T>(rd, &x, static_cast<std::uint64_t>(o.n));
  CHECK(r == static_cast<std::uint64_t>(o.n) && x == static_cast<T>(want), "read_int<%zu>(%d bits) gives %lld instead of %lld", sizeof(T) * 8, o.n, (long long)x, (long long)want);
}

int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    ++ncase;
    bits.clear();
    std::vector<Op> ops;
    int n = 1 + static_cast<int>(rnd(12));
    for (int i = 0; i < n; ++i) {
      Op o{static_cast<int>(rnd(17)), 0, rval(), {}};
      int w[] = {8, 16, 32, 64, 8, 16, 32, 64};
      if (o.kind < 8) o.n = 1 + static_cast<int>(rnd(static_cast<std::uint64_t>(w[o.kind])));
      if (o.kind == 9 || o.kind == 11 || o.kind == 10 || o.kind == 14 || o.kind == 15) {
        for (auto k = rnd(rnd(4) ? 6 : 300); k > 0; --k) o.s += static_cast<char>(1 + rnd(255));
      }
      if (o.kind == 10 && o.s.empty()) o.s = "x";
      if (o.kind == 10) o.s.resize(std::min<std::size_t>(o.s.size(), 255));
      if (o.kind == 13) o.v &= 0xfffffff;
      ops.push_back(o);
    }
    std::stringstream ss;
    Writer w(ss);
    for (auto& o : ops) {
      switch (o.kind) {
        case 0: wu<std::uint8_t>(&w, o); break;
        case 1: wu<std::uint16_t>(&w, o); break;
        case 2: wu<std::uint32_t>(&w, o); break;
        case 3: wu<std::uint64_t>(&w, o); break;
        case 4: wi<std::int8_t>(&w, o); break;
        case 5: wi<std::int16_t>(&w, o); break;
        case 6: wi<std::int32_t>(&w, o); break;
        case 7: wi<std::int64_t>(&w, o); break;
        case 8: CHECK(write_bool(&w, o.v & 1) == 1, "write_bool reports other than 1"); put(o.v & 1, 1); break;
        case 9: {
          CHECK(write_string(&w, o.s) == o.s.size() * 8 + 8, "write_string: bits");
          for (unsigned char c : o.s) put(c, 8);
          put(0, 8);
          break;
        }
        case 10: {
          while (bits.size() % 8) { w.writeBit(true); put(1, 1); }
          CHECK(write_pascal_string(&w, o.s) == o.s.size() * 8 + 8, "write_pascal_string: bits");
          put(o.s.size(), 8);
          for (unsigned char c : o.s) put(c, 8);
          break;
        }
        case 11: {
          std::vector<std::uint8_t> v(o.s.begin(), o.s.end());
          bool thrown = false;
          try {
            CHECK(w.write(v) == static_cast<std::streamsize>(v.size()), "Writer::write: size");
          } catch (std::exception&) { thrown = true; }
          CHECK(thrown == (bits.size() % 8 != 0), "Writer::write with %zu bits pending %s", bits.size() % 8, thrown ? "throws" : "is accepted");
          if (!thrown) for (auto c : v) put(c, 8);
          break;
        }
        case 12: {
          CHECK(write_array_uint8_4(&w, {static_cast<std::uint8_t>(o.v), static_cast<std::uint8_t>(o.v >> 8), static_cast<std::uint8_t>(o.v >> 16), static_cast<std::uint8_t>(o.v >> 24)}) == 32, "write_array_uint8_4: bits");
          for (int i = 0; i < 4; ++i) put((o.v >> (8 * i)) & 0xff, 8);
          break;
        }
        case 13: {
          CHECK(write_uvarint<std::uint32_t>(&w, static_cast<std::uint32_t>(o.v)) == 32, "write_uvarint: bits");
          for (int i = 3; i >= 0; --i) { put(i ? 1 : 0, 1); put((o.v >> (7 * i)) & 0x7f, 7); }
          break;
        }
        case 14: {
          std::vector<std::uint8_t> v(o.s.begin(), o.s.end());
          CHECK(write_vector_uint<std::uint8_t>(&w, v) == v.size() * 8, "write_vector_uint<8>: bits");
          for (auto c : v) put(c, 8);
          break;
        }
        case 15: {
          std::vector<std::uint32_t> v(o.s.begin(), o.s.end());
          CHECK(write_vector_uint<std::uint32_t>(&w, v) == v.size() * 32, "write_vector_uint<32>: bits");
          for (auto c : v) put(c, 32);
          break;
        }
        case 16: {
          std::vector<std::uint8_t> v;
          for (int i = 0; i < 10; ++i) v.push_back(static_cast<std::uint8_t>(rnd(256)));
          o.n = static_cast<int>(rnd(81));
          w.writeBits(v, static_cast<std::uint64_t>(o.n));
          std::string all;
          std::swap(all, bits);
          for (auto c : v) put(c, 8);
          std::swap(all, bits);
          bits += all.substr(80 - static_cast<std::size_t>(o.n));
          o.s = std::string(v.begin(), v.end());
          break;
        }
      }
    }
    auto have = bits.size();
    std::string want = bytes();
    CHECK(ss.str() == want, "%d operations: wrote %s instead of %s", n, hex(ss.str()).c_str(), hex(want).c_str());
    while (bits.size() % 8) { w.writeBit(false); put(0, 1); }
    CHECK(ss.str() == bytes(), "flushing the last octet: wrote %s instead of %s", hex(ss.str()).c_str(), hex(bytes()).c_str());
    // read everything back, with a guard octet behind
    std::stringstream is(ss.str() + "\xa5");
    Reader r(is);
    std::size_t at = 0;
    try {
      for (auto& o : ops) {
        switch (o.kind) {
          case 0: ru<std::uint8_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 1: ru<std::uint16_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 2: ru<std::uint32_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 3: ru<std::uint64_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 4: ri<std::int8_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 5: ri<std::int16_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 6: ri<std::int32_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 7: ri<std::int64_t>(&r, o); at += static_cast<std::size_t>(o.n); break;
          case 8: { bool b = !(o.v & 1); CHECK(read_bool(&r, &b) == 1 && b == ((o.v & 1) != 0), "read_bool"); at += 1; break; }
          case 9: {
            std::string s = "old";
            auto b = read_string(&r, &s, o.s.size() * 8 + 8 + 8 * rnd(3));
            CHECK(b == o.s.size() * 8 + 8 && s == o.s, "read_string gives %s instead of %s, %llu bits", hex(s).c_str(), hex(o.s).c_str(), (unsigned long long)b);
            at += o.s.size() * 8 + 8;
            break;
          }
          case 10: {
            while (at % 8) { CHECK(r.readBit(), "readBit"); ++at; }
            std::string s = "old";
            auto b = read_pascal_string(&r, &s, o.s.size() * 8 + 8);
            CHECK(b == o.s.size() * 8 + 8 && s == o.s, "read_pascal_string gives %s instead of %s, %llu bits", hex(s).c_str(), hex(o.s).c_str(), (unsigned long long)b);
            at += o.s.size() * 8 + 8;
            break;
          }
          case 11: {
            std::vector<std::uint8_t> v(o.s.size());
            bool thrown = false;
            try { r.read(&v); } catch (std::exception&) { thrown = true; }
            CHECK(thrown == (at % 8 != 0), "Reader::read with %zu bits pending %s", (8 - at % 8) % 8, thrown ? "throws" : "is accepted");
            if (!thrown) { CHECK(std::string(v.begin(), v.end()) == o.s, "Reader::read"); at += o.s.size() * 8; }
            break;
          }
          case 12: {
            std::array<std::uint8_t, 4> a{};
            CHECK(read_array_uint8_4(&r, &a) == 32 && (a[0] | a[1] << 8 | a[2] << 16 | static_cast<std::uint32_t>(a[3]) << 24) == static_cast<std::uint32_t>(o.v), "read_array_uint8_4");
            at += 32;
            break;
          }
          case 13: {
            std::uint32_t x = 5;
            CHECK(read_uvarint<std::uint32_t>(&r, &x) == 32 && x == o.v, "read_uvarint gives %x instead of %llx", x, (unsigned long long)o.v);
            at += 32;
            break;
          }
          case 14: {
            std::vector<std::uint8_t> v{1};
            CHECK(read_vector_uint<std::uint8_t>(&r, o.s.size(), &v) == o.s.size() * 8 && std::string(v.begin(), v.end()) == o.s, "read_vector_uint<8>");
            at += o.s.size() * 8;
            break;
          }
          case 15: {
            std::vector<std::uint32_t> v{1}, q(o.s.begin(), o.s.end());
            CHECK(read_vector_uint<std::uint32_t>(&r, o.s.size(), &v) == o.s.size() * 32 && v == q, "read_vector_uint<32>");
            at += o.s.size() * 32;
            break;
          }
          case 16: {
            int m = std::min(o.n, 64);
            std::vector<std::uint8_t> v{9};
            if (o.n > m) { std::vector<std::uint8_t> q; r.readBits(&q, static_cast<std::uint64_t>(o.n - m)); at += static_cast<std::size_t>(o.n - m); }
            r.readBits(&v, static_cast<std::uint64_t>(m));
            std::string got;
            std::swap(got, bits);
            for (auto c : v) put(c, 8);
            std::swap(got, bits);
            std::string exp(got.size() - static_cast<std::size_t>(m), '0');
            exp += bits.substr(at, static_cast<std::size_t>(m));
            CHECK(got == exp && v.size() == static_cast<std::size_t>(m + 7) / 8, "readBits(%d) gives %s instead of %s", m, got.c_str(), exp.c_str());
            at += static_cast<std::size_t>(m);
            break;
          }
        }
      }
    } catch (std::exception& e) {
      fail("reading back %d operations throws: %s", n, e.what());
    }
    CHECK(at == have, "bookkeeping of the oracle");
    while (at % 8) { r.readBit(); ++at; }
    CHECK(static_cast<std::size_t>(is.tellg()) == at / 8, "the reader is at octet %ld instead of %zu", static_cast<long>(is.tellg()), at / 8);
    // truncated input must be refused
    {
      std::string cut = ss.str();
      if (!cut.empty()) {
        int m = 1 + static_cast<int>(rnd(64));
        cut.resize(rnd(std::min<std::size_t>(cut.size(), static_cast<std::size_t>(m + 7) / 8)));
        std::stringstream cs(cut);
        Reader cr(cs);
        std::uint64_t x;
        bool thrown = false;
        try { read_uint<std::uint64_t>(&cr, &x, static_cast<std::uint64_t>(m)); } catch (std::exception&) { thrown = true; }
        CHECK(thrown == (cut.size() * 8 < static_cast<std::size_t>(m)), "reading %d bits from %zu octets %s", m, cut.size(), thrown ? "throws" : "succeeds");
      }
    }
    // seeking
    {
      std::stringstream cs(std::string(20, 'a'));
      Reader cr(cs);
      auto p = rnd(21), q = rnd(20);
      CHECK(cr.seek(p, std::ios_base::beg) == p, "seek(beg)");
      CHECK(cr.seek(q, std::ios_base::beg) == q, "seek(beg)");
      cr.readBit();
      bool thrown = false;
      try { cr.seek(0, std::ios_base::cur); } catch (std::exception&) { thrown = true; }
      CHECK(thrown, "a relative seek with pending bits is accepted");
    }
  }
  return finish();
}
