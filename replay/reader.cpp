// random nested files, whole and damaged, against an independent parse of the same bytes
#include "oracle.hpp"
#include <csignal>
#include <unistd.h>
#include "shiguredo/mp4/reader/reader.hpp"
typedef std::uint64_t u64;
using Bytes = std::string;

static const char* CONT[] = {"moov", "trak", "mdia", "minf", "stbl", "udta", "dinf", "edts", "mvex", "moof", "traf", "mfra"};
static const char* LEAF[] = {"free", "skip", "mdat", "zzzz", "abcd"};
struct Row { u64 depth, off, size; Bytes type; };
static bool container(const Bytes& t) {
  for (auto c : CONT)
    if (t == c) return true;
  return false;
}
static bool known(const Bytes& t) {
  for (auto c : LEAF)
    if (t == c) return true;
  return container(t);
}
static u64 be(const Bytes& b, u64 p, int n) {
  u64 v = 0;
  for (int i = 0; i < n; ++i) v = v << 8 | static_cast<unsigned char>(b[p + static_cast<u64>(i)]);
  return v;
}
struct Bad {};
// the reference parse: the end of the box at p
static u64 parse(const Bytes& b, u64 p, u64 end, u64 depth, std::vector<Row>* rows) {
  u64 total = b.size();
  if (total - p < 8) throw Bad();
  u64 size = be(b, p, 4), h = 8;
  Bytes type = b.substr(p + 4, 4);
  if (size == 0) size = total - p;
  else if (size == 1) {
    if (total - p < 16) throw Bad();
    size = be(b, p + 8, 8);
    h = 16;
  }
  if (size < h || size > total - p) throw Bad();
  rows->push_back({depth, p, size, type});
  u64 q = p + h;
  if (container(type))
    while (q < p + size) q = parse(b, q, p + size, depth + 1, rows);
  else q = p + size;
  if (q > p + size || p + size > end) throw Bad();
  return p + size;
}
static Bytes enc(u64 v, int n) {
  Bytes r;
  for (int i = n - 1; i >= 0; --i) r += static_cast<char>(v >> (8 * i));
  return r;
}
static std::vector<u64> heads;   // where the headers are
static Bytes gen(int depth, bool last, u64 at) {
  bool c = depth > 0 && rnd(3) != 0;
  bool large = rnd(4) == 0;
  u64 h = large ? 16 : 8;
  Bytes body;
  heads.push_back(at);
  if (c) {
    u64 n = rnd(4);
    for (u64 i = 0; i < n; ++i) body += gen(depth - 1, last && i + 1 == n, at + h + body.size());
  } else
    for (u64 i = rnd(rnd(8) == 0 ? 3000 : 24); i > 0; --i) body += static_cast<char>(rnd(3) ? rnd(4) : rnd(256));
  Bytes type = c ? CONT[rnd(12)] : LEAF[rnd(5)];
  u64 s = body.size() + h;
  if (large) return enc(1, 4) + type + enc(s, 8) + body;
  return enc(last && rnd(3) == 0 ? 0 : s, 4) + type + body;
}
static void alarmed(int) {
  static const char m[] = "FAIL reading a file does not terminate\n";
  if (write(1, m, sizeof m - 1)) {}
  _exit(1);
}
int main(int argc, char** argv) {
  init(argc, argv);
  std::signal(SIGALRM, alarmed);
  std::streambuf* so = std::cout.rdbuf();
  while (more()) {
    ++ncase;
    Bytes f;
    heads.clear();
    u64 n = rnd(5);
    for (u64 i = 0; i < n; ++i) f += gen(static_cast<int>(rnd(5)), i + 1 == n, f.size());
    if (rnd(2) && !heads.empty()) {
      for (u64 k = 1 + rnd(2); k > 0; --k) {
        u64 p = heads[rnd(heads.size())];
        if (p + 8 > f.size()) continue;
        switch (rnd(5)) {
          case 0: {   // another size
            u64 v = be(f, p, 4);
            static const u64 d[] = {1, 2, 7, 8, 9, 16, 0x10000, 0xffffffff};
            v = rnd(3) == 0 ? rnd(20) : rnd(2) ? v + d[rnd(8)] : v - d[rnd(8)];
            f.replace(p, 4, enc(v & 0xffffffff, 4));
            break;
          }
          case 1: f.replace(p + 4, 4, rnd(2) ? CONT[rnd(12)] : LEAF[rnd(5)]); break;
          case 2: f.resize(f.size() - rnd(std::min<u64>(f.size(), 20) + 1)); break;
          case 3:
            if (be(f, p, 4) == 1 && p + 16 <= f.size()) f.replace(p + 8, 8, enc(rnd(2) ? rval() : be(f, p + 8, 8) + rnd(40) - 20, 8));
            break;
          default: for (u64 i = rnd(12); i > 0; --i) f += static_cast<char>(rnd(256)); break;
        }
      }
    }
    std::vector<Row> want;
    bool ok = true, unknown = false;
    try {
      for (u64 p = 0; p < f.size();) p = parse(f, p, f.size(), 0, &want);
    } catch (Bad&) { ok = false; }
    for (auto& r : want) unknown = unknown || !known(r.type);
    if (unknown) continue;   // damaged into a type that this oracle has no fields for
    std::ostringstream out;
    bool done = false;
    alarm(20);
    std::cout.rdbuf(out.rdbuf());
    try {
      std::istringstream is(f);
      shiguredo::mp4::reader::SimpleReader r(is);
      r.read();
      done = true;
    } catch (std::exception&) {}
    std::cout.rdbuf(so);
    alarm(0);
    CHECK(done == ok, "a file that is %s is %s: %s", ok ? "well-formed" : "damaged", done ? "read" : "refused", hex(f).c_str());
    if (!done || !ok) continue;
    std::istringstream ls(out.str());
    std::string l;
    size_t i = 0;
    while (std::getline(ls, l)) {
      if (i >= want.size()) { fail("more boxes than there are: %s", l.substr(0, 80).c_str()); break; }
      const Row& r = want[i++];
      char head[200];
      std::snprintf(head, sizeof head, "%*s[%s] Offset=%llu Size=%llu", static_cast<int>(r.depth * 2), "", r.type.c_str(), (unsigned long long)r.off, (unsigned long long)r.size);
      Bytes h = head;
      CHECK(l.substr(0, h.size()) == h && (l.size() == h.size() || l[h.size()] == ' '), "box %zu is '%s' instead of '%s': %s", i, l.substr(0, 80).c_str(), head, hex(f).c_str());
      if (r.type == "mdat" || r.type == "free" || r.type == "zzzz") {}
    }
    CHECK(i == want.size(), "%zu boxes instead of %zu: %s", i, want.size(), hex(f).c_str());
  }
  return finish();
}
