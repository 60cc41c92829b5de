// random box trees (payloads of any size, sparse output) against an independent layout
#include "oracle.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include <map>
using namespace shiguredo::mp4;
typedef std::uint64_t u64;

struct Sparse : std::streambuf {
  std::map<u64, std::uint8_t> at;
  u64 pos = 0, end = 0;
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    at[pos++] = static_cast<std::uint8_t>(c);
    end = std::max(end, pos);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; ++i) overflow(static_cast<unsigned char>(s[i]));
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    off_type b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? static_cast<off_type>(pos) : static_cast<off_type>(end);
    pos = static_cast<u64>(b + o);
    end = std::max(end, pos);
    return static_cast<off_type>(pos);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
struct Fake : Box {
  u64 n;
  explicit Fake(u64 t_n, const BoxType& t) : n(t_n) { m_type = t; }
  std::string toStringOnlyData() const override { return ""; }
  u64 getDataSize() const override { return n; }
  u64 readData(std::istream&) override { return 0; }
  u64 writeData(std::ostream& os) const override {
    if (n) {
      os.put('p');
      os.seekp(static_cast<std::streamoff>(n - 1), std::ios_base::cur);
    }
    return n * 8;
  }
};
struct Node {
  u64 data;
  BoxType type;
  std::vector<Node> kids;
  BoxInfo* info = nullptr;
  u64 hs() const { return size_nohdr() > 0xffffffffull - 8 ? 16 : 8; }
  u64 size_nohdr() const {
    u64 s = data;
    for (auto& k : kids) s += k.size();
    return s;
  }
  u64 size() const { return size_nohdr() + hs(); }
};
static u64 dsize() {
  static const u64 e[] = {0, 1, 8, 4294967280ull, 4294967287ull, 4294967288ull, 4294967279ull, 4294967271ull, 4294967296ull, 5000000000ull, 4294967263ull};
  return rnd(3) ? rnd(60) : e[rnd(11)];
}
static Node gen(int depth) {
  Node n;
  n.data = dsize();
  n.type = BoxType(std::array<std::uint8_t, 4>{static_cast<std::uint8_t>('a' + rnd(26)), static_cast<std::uint8_t>('a' + rnd(26)), static_cast<std::uint8_t>('a' + rnd(26)), static_cast<std::uint8_t>('a' + rnd(26))});
  if (rnd(9) == 0) n.type = BoxType("wave");
  if (depth > 0)
    for (auto c = rnd(4); c > 0; --c) n.kids.push_back(gen(depth - 1));
  return n;
}
static void build(Node* n, BoxInfo* parent, BoxPath path) {
  bool ase = rnd(8) == 0;
  Box* b = nullptr;
  box::AudioSampleEntry* a = nullptr;
  if (ase) {
    a = new box::AudioSampleEntry({.type = n->type});
    b = a;
    n->data = a->getDataSize();
  } else {
    b = new Fake(n->data, n->type);
  }
  if (rnd(3) == 0) b->setOffsetAndDataSize(rnd(1000), dsize());
  n->info = new BoxInfo({.parent = parent, .box = b});
  path.push_back(n->type);
  CHECK(n->info->getPath() == path, "the path of a node");
  CHECK(n->info->getBox() == b && n->info->getType() == n->type, "box / type of a node");
  for (auto& k : n->kids) build(&k, n->info, path);
}
static u64 be(Sparse* s, u64 at, int n) {
  u64 r = 0;
  for (int i = 0; i < n; ++i) r = r << 8 | s->at[at + static_cast<u64>(i)];
  return r;
}
static u64 header_offset(Box* b) {
  // the only access to the offset: "[type] Offset=N Size=M"
  auto s = b->toString();
  auto p = s.find("Offset=");
  return p == std::string::npos ? 0 : std::strtoull(s.c_str() + p + 7, nullptr, 10);
}
static void check(const Node& n, u64 o, Sparse* s, bool written) {
  auto* b = n.info->getBox();
  CHECK(header_offset(b) == o, "box %s is recorded at %llu instead of %llu", n.type.toString().c_str(), (unsigned long long)header_offset(b), (unsigned long long)o);
  CHECK(n.info->getSize() == n.size() && b->getHeaderSize() == n.hs(), "box %s: size %llu header %llu instead of %llu %llu", n.type.toString().c_str(), (unsigned long long)n.info->getSize(),
        (unsigned long long)b->getHeaderSize(), (unsigned long long)n.size(), (unsigned long long)n.hs());
  if (written) {
    auto d = n.type.getData();
    u64 t = static_cast<u64>(d[0]) << 24 | static_cast<u64>(d[1]) << 16 | static_cast<u64>(d[2]) << 8 | d[3];
    bool ok = be(s, o + 4, 4) == t && (n.hs() == 8 ? be(s, o, 4) == n.size() : be(s, o, 4) == 1 && be(s, o + 8, 8) == n.size());
    CHECK(ok, "box %s is not at %llu in the output", n.type.toString().c_str(), (unsigned long long)o);
    if (n.data && dynamic_cast<Fake*>(b)) CHECK(s->at.count(o + n.hs()) && s->at[o + n.hs()] == 'p', "the payload of %s is not behind its header", n.type.toString().c_str());
  }
  o += n.hs() + n.data;
  for (auto& k : n.kids) {
    check(k, o, s, written);
    o += k.size();
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    ++ncase;
    Node n = gen(static_cast<int>(rnd(4)));
    build(&n, nullptr, {});
    u64 o = rnd(2) ? rnd(100) : rnd(6000000000ull);
    bool thrown = false;
    if (rnd(4) == 0) {
      auto* f = new Fake(1, n.type);
      auto* i = new BoxInfo({.box = f});
      try { i->getSize(); } catch (std::exception&) { thrown = true; }
      CHECK(thrown, "the size of a box without a header");
      delete i;
    }
    if (rnd(3) == 0) n.info->adjustOffsetAndSize(rnd(5000));
    u64 r = n.info->adjustOffsetAndSize(o);
    CHECK(r == n.size(), "adjustOffsetAndSize() returns %llu instead of %llu", (unsigned long long)r, (unsigned long long)n.size());
    Sparse sb;
    check(n, o, &sb, false);
    std::ostream os(&sb);
    n.info->write(os);
    check(n, o, &sb, true);
    CHECK(sb.end == o + n.size() && sb.pos == sb.end, "the output ends at %llu instead of %llu", (unsigned long long)sb.end, (unsigned long long)(o + n.size()));
    delete n.info;
  }
  return finish();
}
