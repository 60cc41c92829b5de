// C09: the box tree of the tracks of random movies, from the file, against the codec bindings
#include "movie.hpp"

struct Want {
  const Movie& m;
  const Trk& t;
};
static void order(const Node* n, const std::vector<std::string>& want, const char* what) {
  std::string a, b;
  if (n)
    for (auto& k : n->kids) a += k.type + " ";
  for (auto& k : want) b += k + " ";
  CHECK(n && a == b, "%s: children are [%s], not [%s]", what, a.c_str(), b.c_str());
}
static void val(const Node* n, std::size_t pos, std::size_t len, u64 want, const char* what) {
  if (!n) return fail("%s: no such box", what);
  CHECK(pos + len <= n->own.size() && be(n->own, pos, len) == want, "%s: %llu at %zu of %s, not %llu", what, static_cast<unsigned long long>(be(n->own, pos, len)), pos, n->type.c_str(),
        static_cast<unsigned long long>(want));
}
static void bytes(const Node* n, const std::string& want, const char* what) {
  CHECK(n && n->own == want, "%s: payload of %s", what, n ? n->type.c_str() : "?");
}
static std::string b32(u64 x) {
  std::string s;
  for (int i = 3; i >= 0; --i) s += static_cast<char>(x >> 8 * i);
  return s;
}
static void check(const Movie& m, const Trk& t, const Node& k) {
  static const char* names[] = {"Opus", "AAC", "MP3", "VP8", "VP9", "AV1", "H264"};
  const char* w = names[t.kind];
  const bool vide = t.vide();
  const u64 md = static_cast<u64>(static_cast<float>(m.timescale) * t.duration), td = static_cast<u64>(static_cast<float>(t.timescale) * t.duration);
  const u64 max = 0xffffffffull;
  order(&k, {"tkhd", "edts", "mdia"}, w);
  order(dig(k.kids, "edts"), {"elst"}, w);
  order(dig(k.kids, "mdia"), {"mdhd", "hdlr", "minf"}, w);
  order(dig(k.kids, "mdia/minf"), {vide ? "vmhd" : "smhd", "dinf", "stbl"}, w);
  order(dig(k.kids, "mdia/minf/dinf"), {"dref"}, w);
  order(dig(k.kids, "mdia/minf/dinf/dref"), {"url "}, w);
  auto stbl = dig(k.kids, "mdia/minf/stbl");
  std::vector<std::string> st = {"stsd", "stts"};
  if (vide) st.push_back("stss");
  st.push_back("stsc");
  st.push_back("stsz");
  st.push_back(stbl && stbl->kid("co64") ? "co64" : "stco");
  if (t.kind == OPUS || t.kind == AAC) {
    st.push_back("sgpd");
    st.push_back("sbgp");
  }
  order(stbl, st, w);
  // track header
  auto tk = dig(k.kids, "tkhd");
  val(tk, 1, 3, 3, w);
  const bool v1 = tk && be(tk->own, 0, 1) == 1;
  val(tk, 0, 1, md > max ? 1 : 0, w);
  std::size_t p = v1 ? 20 : 12;
  val(tk, p, 4, t.id, w);
  val(tk, p + 8, v1 ? 8 : 4, md, w);
  p += v1 ? 16 : 12;
  val(tk, p + 12, 2, vide ? 0 : 0x100, w);
  val(tk, p + 16, 4, 0x10000, w);
  val(tk, p + 32, 4, 0x10000, w);
  val(tk, p + 48, 4, 0x40000000, w);
  val(tk, p + 52, 4, vide ? u64(t.w) << 16 : 0, w);
  val(tk, p + 56, 4, vide ? u64(t.h) << 16 : 0, w);
  CHECK(tk && tk->own.size() == p + 60, "%s: size of the track header", w);
  // edit list
  auto el = dig(k.kids, "edts/elst");
  val(el, 4, 4, 1, w);
  if (el && be(el->own, 0, 1) == 1) {
    val(el, 8, 8, md, w);
    val(el, 16, 8, static_cast<u64>(t.media_time), w);
    val(el, 24, 4, 0x10000, w);
  } else {
    CHECK(md <= max, "%s: duration of the edit does not fit", w);
    val(el, 8, 4, md, w);
    val(el, 12, 4, static_cast<u32>(t.media_time), w);
    val(el, 16, 4, 0x10000, w);
  }
  // media header
  auto mh = dig(k.kids, "mdia/mdhd");
  const bool mv1 = mh && be(mh->own, 0, 1) == 1;
  val(mh, 0, 1, td > max ? 1 : 0, w);
  p = mv1 ? 20 : 12;
  val(mh, p, 4, t.timescale, w);
  val(mh, p + 4, mv1 ? 8 : 4, td, w);
  val(mh, p + 4 + (mv1 ? 8 : 4), 2, (('u' - 0x60) << 10) | (('n' - 0x60) << 5) | ('d' - 0x60), w);
  auto hd = dig(k.kids, "mdia/hdlr");
  CHECK(hd && hd->own.size() >= 12 && hd->own.substr(8, 4) == (vide ? "vide" : "soun"), "%s: handler", w);
  bytes(dig(k.kids, vide ? "mdia/minf/vmhd" : "mdia/minf/smhd"), vide ? std::string("\0\0\0\1\0\0\0\0\0\0\0\0", 12) : std::string(8, 0), w);
  bytes(dig(k.kids, "mdia/minf/dinf/dref"), std::string("\0\0\0\0\0\0\0\1", 8), w);
  if (auto u = dig(k.kids, "mdia/minf/dinf/dref/url "); u) val(u, 0, 4, 1, w);
  // sample description
  auto sd = stbl ? stbl->kid("stsd") : nullptr;
  if (!sd) return;
  bytes(sd, std::string("\0\0\0\0\0\0\0\1", 8), w);
  static const char* entry[] = {"Opus", "mp4a", "mp4a", "vp08", "vp09", "av01", "avc1"};
  order(sd, {entry[t.kind]}, w);
  if (sd->kids.empty()) return;
  auto& e = sd->kids[0];
  val(&e, 6, 2, 1, w);
  if (vide) {
    val(&e, 24, 2, t.w & 0xffff, w);
    val(&e, 26, 2, t.h & 0xffff, w);
    val(&e, 28, 4, 0x480000, w);
    val(&e, 32, 4, 0x480000, w);
    val(&e, 40, 2, 1, w);
    val(&e, 74, 2, 24, w);
    val(&e, 76, 2, 0xffff, w);
  } else {
    val(&e, 16, 2, 2, w);
    val(&e, 18, 2, 16, w);
    val(&e, 24, 4, (u64(t.timescale) << 16) & max, w);
  }
  // one descriptor: its tag, its body after `own` bytes, and what follows it
  auto desc = [](const std::string& d, char tag, std::string* body, std::string* rest) {
    std::size_t i = 1, n = 0;
    if (d.empty() || d[0] != tag) return false;
    for (bool more = true; more; ++i) {
      if (i >= d.size() || i > 4) return false;
      n = n << 7 | (d[i] & 0x7f);
      more = d[i] & 0x80;
    }
    if (n > d.size() - i) return false;
    *body = d.substr(i, n);
    *rest = d.substr(i + n);
    return true;
  };
  auto es = [&](std::string id, char oti, bool dsi) {
    std::string d = e.kid("esds") ? e.kid("esds")->own : "", b, r, c, x, y;
    if (d.substr(0, 4) != std::string(4, 0) || !desc(d.substr(4), 3, &b, &r) || !r.empty()) return false;
    if (b.substr(0, 3) != id + std::string(1, 0) || !desc(b.substr(3), 4, &c, &r)) return false;
    if (!desc(r, 6, &x, &y) || x != "\2" || !y.empty()) return false;
    if (c.substr(0, 13) != std::string{oti, 0x15} + std::string("\0\3\0", 3) + b32(64000) + b32(64000)) return false;
    c = c.substr(13);
    return dsi ? desc(c, 5, &x, &y) && x == "\x11\x90" && y.empty() : c.empty();
  };
  switch (t.kind) {
    case OPUS:
      order(&e, {"dOps"}, w);
      val(e.kid("dOps"), 0, 2, 2, w);
      val(e.kid("dOps"), 4, 4, 48000, w);
      val(e.kid("dOps"), 8, 3, 0, w);
      break;
    case AAC:
      order(&e, {"esds", "btrt"}, w);
      CHECK(es(b32(t.id).substr(2), 0x40, true), "%s: elementary stream descriptor", w);
      val(e.kid("btrt"), 4, 4, 64000, w);
      val(e.kid("btrt"), 8, 4, 64000, w);
      break;
    case MP3:
      order(&e, {"esds"}, w);
      CHECK(es(std::string(2, 0), 0x6b, false), "%s: elementary stream descriptor", w);
      break;
    case VP8: case VP9:
      order(&e, {"vpcC", "fiel", "pasp", "btrt"}, w);
      val(e.kid("vpcC"), 0, 6, 0x010000000015ull, w);
      val(e.kid("vpcC"), 6, 6, (u64{0x82} << 40) | (u64{2} << 32) | (u64{2} << 24) | (u64{2} << 16), w);
      val(e.kid("fiel"), 0, 2, 0x100, w);
      val(e.kid("pasp"), 0, 8, 0x100000001ull, w);
      break;
    case AV1:
      order(&e, {"av1C"}, w);
      val(e.kid("av1C"), 0, 1, 0x81, w);
      CHECK(e.kid("av1C") && e.kid("av1C")->own.size() == 7 && e.kid("av1C")->own.substr(4) == "\1\2\3", "%s: configuration OBUs", w);
      break;
    default:
      order(&e, {"avcC"}, w);
      if (e.kid("avcC") && e.kid("avcC")->own.size() >= 5) {
        auto& o = e.kid("avcC")->own;
        CHECK((static_cast<u8>(o[4]) & 3) == 3, "%s: length size", w);
      }
  }
  if (t.kind == OPUS || t.kind == AAC) {
    auto sg = stbl->kid("sgpd"), sb = stbl->kid("sbgp");
    val(sg, 0, 4, 0x01000000, w);
    val(sg, 4, 4, 0x726f6c6c, w);
    val(sg, 8, 4, 2, w);
    val(sg, 12, 4, 1, w);
    if (t.kind == AAC) val(sg, 16, 2, 0xffff, w);
    val(sb, 0, 4, 0, w);
    val(sb, 4, 4, 0x726f6c6c, w);
    val(sb, 8, 4, 1, w);
    val(sb, 12, 4, t.samples.size(), w);
    val(sb, 16, 4, 1, w);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  do {
    ++ncase;
    g_duration = rnd(3) ? -1 : static_cast<float>(rnd(1 << 20));
    auto m = mkmovie(static_cast<int>(1 + rnd(4)), static_cast<int>(rnd(20)), true);
    bool ok = true;
    auto top = parse(m.file, 0, m.file.size(), &ok);
    CHECK(ok, "the file does not parse");
    auto moov = dig(top, "moov");
    if (!moov) {
      fail("no movie box");
      break;
    }
    for (std::size_t i = 0; i < m.trks.size(); ++i) {
      auto k = moov->kid("trak", i);
      if (!k) fail("no track box %zu", i);
      else check(m, m.trks[i], *k);
    }
  } while (more());
  return finish();
}
