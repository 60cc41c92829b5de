// C11: the files of random movies, and two of more than 4 GiB, against the file layout of the writers
// LINK: -Wl,--wrap=fwrite
#include <map>
#include "movie.hpp"

// while `g_sparse` is set, a large block given to fwrite() is only a hole in the file
static bool g_sparse = false;
extern "C" std::size_t __real_fwrite(const void*, std::size_t, std::size_t, std::FILE*);
extern "C" std::size_t __wrap_fwrite(const void* p, std::size_t s, std::size_t n, std::FILE* f) {
  if (!g_sparse || s * n < (1u << 20)) return __real_fwrite(p, s, n, f);
  if (fseek(f, static_cast<long>(s * n - 1), SEEK_CUR)) return 0;
  return __real_fwrite("", 1, 1, f) == 1 ? n : 0;
}
// a file whose large blocks are not kept
struct SparseBuf : std::streambuf {
  std::map<u64, u8> kept;
  u64 pos = 0, end = 0;
  void at(u64 n) {
    pos += n;
    end = std::max(end, pos);
  }
  int_type overflow(int_type c) override {
    if (c != traits_type::eof()) {
      kept[pos] = static_cast<u8>(c);
      at(1);
    }
    return 0;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n < (1 << 20))
      for (std::streamsize i = 0; i < n; ++i) kept[pos + static_cast<u64>(i)] = static_cast<u8>(s[i]);
    at(static_cast<u64>(n));
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    pos = d == std::ios_base::beg ? static_cast<u64>(o) : (d == std::ios_base::cur ? pos : end) + static_cast<u64>(o);
    return static_cast<pos_type>(static_cast<off_type>(pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override {
    pos = static_cast<u64>(static_cast<off_type>(p));
    return p;
  }
  u64 be(u64 p, int n) {
    u64 r = 0;
    for (int i = 0; i < n; ++i) r = r << 8 | (kept.count(p + static_cast<u64>(i)) ? kept[p + static_cast<u64>(i)] : 0);
    return r;
  }
  std::string str(u64 p, u64 n) {
    std::string s;
    for (u64 i = 0; i < n; ++i) s += static_cast<char>(be(p + i, 1));
    return s;
  }
};

static u64 fld(const Node* n, std::size_t p, std::size_t len) { return n && p + len <= n->own.size() ? be(n->own, p, len) : ~0ull; }

// the movie box: header values, the tracks in order, the metadata last
static void check_moov(const Node& moov, u32 timescale, float dur, std::size_t ntrk, const char* what) {
  std::string want = "mvhd ", got;
  for (std::size_t i = 0; i < ntrk; ++i) want += "trak ";
  want += "udta ";
  for (auto& k : moov.kids) got += k.type + " ";
  CHECK(got == want, "%s: moov holds [%s], not [%s]", what, got.c_str(), want.c_str());
  auto h = moov.kid("mvhd");
  const u64 d = static_cast<u64>(static_cast<float>(timescale) * dur);
  const bool v1 = d > 0xffffffffull;
  CHECK(fld(h, 0, 1) == v1, "%s: mvhd version %llu", what, static_cast<unsigned long long>(fld(h, 0, 1)));
  const std::size_t p = v1 ? 20 : 12;
  CHECK(fld(h, p, 4) == timescale, "%s: mvhd timescale", what);
  CHECK(fld(h, p + 4, v1 ? 8 : 4) == d, "%s: mvhd duration", what);
  CHECK(h && h->own.size() == (v1 ? 112u : 100u), "%s: mvhd size", what);
  CHECK(fld(h, h ? h->own.size() - 4 : 0, 4) == ntrk + 1, "%s: next track id is %llu", what, static_cast<unsigned long long>(fld(h, h ? h->own.size() - 4 : 0, 4)));
}

static void small() {
  auto m = mkmovie(static_cast<int>(rnd(5)), static_cast<int>(rnd(4) ? rnd(80) : rnd(4)), rnd(2));
  const char* w = m.fast ? "fast-start" : "simple";
  bool ok = true;
  auto top = parse(m.file, 0, m.file.size(), &ok);
  std::string order;
  for (auto& n : top) order += n.type + " ";
  CHECK(ok, "%s: the file does not parse: %s", w, order.c_str());
  CHECK(order == (m.fast ? "ftyp moov mdat " : "ftyp free mdat moov "), "%s: the file holds [%s]", w, order.c_str());
  if (nfail) return;
  static const std::string ft("isom\0\0\2\0isomiso2mp41", 20);
  CHECK(top[0].own == ft, "%s: ftyp", w);
  auto& md = *std::find_if(top.begin(), top.end(), [](auto& n) { return n.type == "mdat"; });
  CHECK(md.hs == 8 && md.size - md.hs == m.added.size(), "%s: mdat of %llu bytes for %zu bytes of media data", w, static_cast<unsigned long long>(md.size), m.added.size());
  CHECK(m.file.substr(md.off + md.hs, m.added.size()) == m.added, "%s: the payload of mdat is not the media data in the order added", w);
  if (!m.fast) CHECK(top[1].size == 8 && top[0].size + 16 == md.off + md.hs, "%s: free box", w);
  auto& moov = *std::find_if(top.begin(), top.end(), [](auto& n) { return n.type == "moov"; });
  check_moov(moov, m.timescale, m.duration, m.trks.size(), w);
  for (std::size_t i = 0; i < m.trks.size(); ++i)
    if (auto k = moov.kid("trak", i)) {
      auto t = k->kid("tkhd");
      CHECK(fld(t, fld(t, 0, 1) == 1 ? 20 : 12, 4) == m.trks[i].id, "%s: id of track %zu", w, i);
      check_tables(m, m.trks[i], *k, w);
    }
  if (m.fast)
    for (auto& e : std::filesystem::directory_iterator(scratch()))
      CHECK(e.path().filename() == "movie.mp4", "the intermediate file %s is left behind", e.path().c_str());
}

static void large(bool fast, u64 total) {
  const char* w = fast ? "fast-start, large" : "simple, large";
  SparseBuf sb;
  std::ostream os(&sb);
  std::unique_ptr<writer::Writer> wr;
  writer::SimpleWriter* sw = nullptr;
  writer::FaststartWriter* fw = nullptr;
  g_sparse = true;
  if (fast) wr.reset(fw = new writer::FaststartWriter(os, {.mvhd_timescale = 1000, .duration = 100.0f, .mdat_path_templete = scratch() + "/mdatXXXXXX"}));
  else wr.reset(sw = new writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = 100.0f}));
  wr->writeFtypBox();
  track::OpusTrack t({.pre_skip = 312, .duration = 100.0f, .media_time = 0, .track_id = wr->getAndUpdateNextTrackID(), .writer = wr.get()});
  std::vector<u8> block(1u << 24, 0);
  std::vector<u64> starts;
  u64 sum = 0, n = 0;
  for (; sum < total; ++n) {
    if (n % 8 == 0) {
      if (n) t.terminateCurrentChunk();
      starts.push_back(sum);
    }
    u64 c = std::min<u64>(block.size(), total - sum);
    if (total - sum - c && total - sum - c < (1u << 20)) c -= 1u << 20;
    t.addData(n * 960, block.data(), c, true);
    sum += c;
  }
  if (fast) {
    fw->appendTrakAndUdtaBoxInfo({&t});
    fw->writeMoovBox();
    fw->writeMdatHeader();
    fw->copyMdatData();
  } else {
    sw->appendTrakAndUdtaBoxInfo({&t});
    sw->writeFreeBoxAndMdatHeader();
    sw->writeMoovBox();
  }
  g_sparse = false;
  u64 data = 0;
  std::string order;
  Node moov;
  bool ok = true;
  for (u64 p = 0; p < sb.end;) {
    u64 s = sb.be(p, 4), hs = 8;
    if (s == 1) {
      s = sb.be(p + 8, 8);
      hs = 16;
    }
    auto ty = sb.str(p + 4, 4);
    order += ty + " ";
    if (s < hs || s > sb.end - p) {
      fail("%s: box [%s] at %llu has size %llu", w, ty.c_str(), static_cast<unsigned long long>(p), static_cast<unsigned long long>(s));
      return;
    }
    if (ty == "mdat") {
      data = p + hs;
      CHECK(s - hs == total, "%s: mdat holds %llu bytes, not %llu", w, static_cast<unsigned long long>(s - hs), static_cast<unsigned long long>(total));
    }
    if (ty == "moov") {
      auto f = sb.str(p, s);
      auto v = parse(f, 0, s, &ok);
      if (ok && v.size() == 1) moov = v[0];
    }
    p += s;
  }
  const bool big = total > 0xfffffff7ull;
  CHECK(order == (fast ? "ftyp moov mdat " : big ? "ftyp mdat moov " : "ftyp free mdat moov "), "%s: the file holds [%s]", w, order.c_str());
  if (moov.type.empty()) return fail("%s: moov does not parse", w);
  check_moov(moov, 1000, 100.0f, 1, w);
  auto stbl = dig(moov.kids, "trak/mdia/minf/stbl");
  auto c64 = stbl ? stbl->kid("co64") : nullptr;
  auto co = stbl ? (c64 ? c64 : stbl->kid("stco")) : nullptr;
  CHECK(fld(co, 4, 4) == starts.size(), "%s: number of chunks", w);
  for (std::size_t i = 0; i < starts.size(); ++i)
    CHECK(fld(co, 8 + i * (c64 ? 8 : 4), c64 ? 8 : 4) == data + starts[i], "%s: offset of chunk %zu", w, i + 1);
}

int main(int argc, char** argv) {
  init(argc, argv);
  for (int i = 0; i < 40 && !nfail; ++i) {
    ++ncase;
    small();
  }
  if (!nfail) large(false, (1ull << 32) - 8);
  if (!nfail) large(false, (1ull << 32) - 9);
  if (!nfail) large(true, (1ull << 32) - (rnd(2) ? 8 : 9));
  ncase += 3;
  while (more()) {
    ++ncase;
    small();
  }
  if (!nfail) {
    g_duration = 8e6f;  // more than 2^32 in the movie's units
    for (int i = 0; i < 10 && !nfail; ++i, ++ncase) small();
  }
  return finish();
}
