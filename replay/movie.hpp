// random movies through the public API, and an independent parser of the file they give
#pragma once
#include "oracle.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"
#include "shiguredo/mp4/writer/writer.hpp"
using namespace shiguredo::mp4;
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

struct Node {
  std::string type;
  u64 off = 0, size = 0, hs = 0;
  std::string own;  // payload before the children
  std::vector<Node> kids;
  const Node* kid(const std::string& t, std::size_t n = 0) const {
    for (auto& k : kids)
      if (k.type == t && n-- == 0) return &k;
    return nullptr;
  }
};
static u64 be(const std::string& s, std::size_t p, std::size_t n) {
  u64 r = 0;
  for (std::size_t i = 0; i < n; ++i) r = r << 8 | (p + i < s.size() ? static_cast<u8>(s[p + i]) : 0);
  return r;
}
static int own_size(const std::string& t) {
  static const std::vector<std::pair<const char*, int>> c = {
      {"moov", 0}, {"trak", 0}, {"edts", 0}, {"mdia", 0}, {"minf", 0}, {"dinf", 0}, {"stbl", 0}, {"udta", 0}, {"ilst", 0}, {"\xa9too", 0},
      {"meta", 4}, {"dref", 8}, {"stsd", 8}, {"avc1", 78}, {"vp08", 78}, {"vp09", 78}, {"av01", 78}, {"mp4a", 28}, {"Opus", 28}};
  for (auto& [n, s] : c)
    if (t == n) return s;
  return -1;
}
static std::vector<Node> parse(const std::string& f, u64 b, u64 e, bool* ok) {
  std::vector<Node> r;
  while (b < e) {
    Node n;
    n.off = b;
    n.hs = 8;
    n.size = be(f, b, 4);
    n.type = f.substr(b + 4 <= f.size() ? b + 4 : f.size(), 4);
    if (n.size == 1) {
      n.hs = 16;
      n.size = be(f, b + 8, 8);
    }
    if (n.size < n.hs || n.size > e - b) {
      *ok = false;
      return r;
    }
    int o = own_size(n.type);
    auto p = b + n.hs;
    auto q = o < 0 ? b + n.size : p + static_cast<u64>(o);
    if (q > b + n.size) {
      *ok = false;
      return r;
    }
    n.own = f.substr(p, n.type == "mdat" ? 0 : q - p);
    n.kids = parse(f, q, b + n.size, ok);
    r.push_back(n);
    b += n.size;
  }
  return r;
}

struct Sample {
  u64 ts;
  std::string data;
  bool key;
};
enum Kind { OPUS, AAC, MP3, VP8, VP9, AV1, H264, NKIND };
struct Trk {
  Kind kind;
  std::unique_ptr<track::Track> t;
  std::vector<Sample> samples;
  u32 timescale;
  float duration;
  u32 id, w = 0, h = 0;
  std::int64_t media_time;
  bool vide() const { return kind >= VP8; }
};
static std::string rbytes(std::size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = static_cast<char>(rng());
  return s;
}
static Trk mktrk(Kind k, writer::Writer* w, u32 id, float dur) {
  Trk t{.kind = k, .timescale = k == OPUS ? 48000 : static_cast<u32>(1 + rnd(100000)), .duration = dur, .id = id, .w = static_cast<u32>(rnd(65536)), .h = static_cast<u32>(rnd(65536)),
        .media_time = static_cast<std::int64_t>(rval(31)) - (1 << 20)};
  switch (k) {
    case OPUS: t.t.reset(new track::OpusTrack({.pre_skip = rval(16), .duration = dur, .media_time = t.media_time, .track_id = id, .writer = w})); break;
    case AAC: t.t.reset(new track::AACTrack({.timescale = t.timescale, .duration = dur, .media_time = t.media_time, .track_id = id, .max_bitrate = 64000, .avg_bitrate = 64000, .writer = w})); break;
    case MP3: t.t.reset(new track::MP3Track({.timescale = t.timescale, .duration = dur, .media_time = t.media_time, .track_id = id, .max_bitrate = 64000, .avg_bitrate = 64000, .writer = w})); break;
    case VP8: case VP9: t.t.reset(new track::VPXTrack({.codec = k == VP8 ? track::VPXCodec::VP8 : track::VPXCodec::VP9, .timescale = t.timescale, .media_time = t.media_time, .duration = dur, .track_id = id, .width = t.w, .height = t.h, .writer = w})); break;
    case AV1: {
      std::vector<u8> obus = {1, 2, 3};
      t.t.reset(new track::AV1Track({.timescale = t.timescale, .media_time = t.media_time, .duration = dur, .track_id = id, .width = t.w, .height = t.h, .config_OBUs = obus, .writer = w}));
      break;
    }
    default: t.t.reset(new track::H264Track({.timescale = t.timescale, .media_time = t.media_time, .duration = dur, .track_id = id, .width = t.w, .height = t.h, .writer = w}));
  }
  return t;
}
struct Movie {
  bool fast = false;
  float duration = 0;
  u32 timescale = 1000, next_id = 0;
  std::vector<Trk> trks;
  std::string file;
  std::string added;  // media bytes in the order they were added
};
// Annex-B access unit for a sample: its data is one slice
static std::string annexb(const std::string& d) { return std::string("\0\0\0\1", 4) + d; }

static std::string scratch() {
  static std::string d;
  if (d.empty()) {
    char b[] = "/tmp/oracle-movie-XXXXXX";
    d = mkdtemp(b);
    std::atexit([] { std::error_code ec; std::filesystem::remove_all(d, ec); });
  }
  return d;
}

static float g_duration = -1;  // a duration to use instead of a random one
static Movie mkmovie(int ntracks, int nsamples, bool allow_h264) {
  Movie m;
  m.fast = rnd(2);
  m.duration = g_duration >= 0 ? g_duration : static_cast<float>(rnd(1000)) / 8;
  const auto path = scratch() + "/movie.mp4";
  std::fstream os(path, std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary);
  std::unique_ptr<writer::Writer> w;
  writer::SimpleWriter* sw = nullptr;
  writer::FaststartWriter* fw = nullptr;
  m.timescale = static_cast<u32>(1 + rnd(100000));
  if (m.fast) {
    fw = new writer::FaststartWriter(os, {.mvhd_timescale = m.timescale, .duration = m.duration, .mdat_path_templete = scratch() + "/mdatXXXXXX"});
    w.reset(fw);
  } else {
    sw = new writer::SimpleWriter(os, {.mvhd_timescale = m.timescale, .duration = m.duration});
    w.reset(sw);
  }
  w->writeFtypBox();
  for (int i = 0; i < ntracks; ++i) {
    auto k = static_cast<Kind>(rnd(allow_h264 ? NKIND : H264));
    m.trks.push_back(mktrk(k, w.get(), w->getAndUpdateNextTrackID(), m.duration));
  }
  m.next_id = static_cast<u32>(ntracks + 1);
  std::vector<u64> ts(m.trks.size(), 0);
  std::size_t cur = 0;
  bool dirty = false;
  const auto style = rnd(3);
  for (int i = 0; i < nsamples && !m.trks.empty(); ++i) {
    if (!rnd(3)) {
      auto n = rnd(m.trks.size());
      if (n != cur && dirty) m.trks[cur].t->terminateCurrentChunk();
      else if (!rnd(3)) m.trks[cur].t->terminateCurrentChunk();
      cur = n;
    }
    auto& t = m.trks[cur];
    Sample s{ts[cur], rbytes(rnd(4) ? rnd(60) : rnd(5000)), rnd(style + 1) == 0};
    if (t.kind == H264) {
      s.data = std::string(1, static_cast<char>(0x61 + rnd(5))) + std::string(2 + rnd(50), static_cast<char>(0x80 + rnd(100)));
      auto a = annexb(s.data);
      t.t->addData(s.ts, reinterpret_cast<const u8*>(a.data()), a.size(), s.key);
      auto n = s.data.size();
      s.data = std::string{static_cast<char>(n >> 24), static_cast<char>(n >> 16), static_cast<char>(n >> 8), static_cast<char>(n)} + s.data;
    } else if (rnd(2)) {
      t.t->addData(s.ts, std::vector<u8>(s.data.begin(), s.data.end()), s.key);
    } else {
      t.t->addData(s.ts, reinterpret_cast<const u8*>(s.data.data()), s.data.size(), s.key);
    }
    dirty = true;
    ts[cur] += rnd(2) ? 960 : rnd(5000);
    m.added += s.data;
    t.samples.push_back(s);
  }
  std::vector<track::Track*> tp;
  for (auto& t : m.trks) tp.push_back(t.t.get());
  if (sw) {
    sw->appendTrakAndUdtaBoxInfo(tp);
    sw->writeFreeBoxAndMdatHeader();
    sw->writeMoovBox();
  } else {
    fw->appendTrakAndUdtaBoxInfo(tp);
    fw->writeMoovBox();
    fw->writeMdatHeader();
    fw->copyMdatData();
  }
  os.seekg(0);
  m.file.assign(std::istreambuf_iterator<char>(os), {});
  return m;
}
static const Node* dig(const std::vector<Node>& top, const char* path) {
  const std::vector<Node>* v = &top;
  const Node* n = nullptr;
  for (std::string p = path; !p.empty(); p = p.size() > 4 ? p.substr(5) : "") {
    n = nullptr;
    for (auto& k : *v)
      if (k.type == p.substr(0, 4)) {
        n = &k;
        break;
      }
    if (!n) return nullptr;
    v = &n->kids;
  }
  return n;
}
// the tables of a track expand to exactly its samples
static void check_tables(const Movie& m, const Trk& t, const Node& trak, const char* what) {
  const Node* stbl = dig(trak.kids, "mdia/minf/stbl");
  if (!stbl) return fail("%s: no sample table", what);
  auto box = [&](const char* n) -> const std::string& {
    static const std::string none;
    auto k = stbl->kid(n);
    return k ? k->own : none;
  };
  auto N = t.samples.size();
  // stts
  {
    const auto& s = box("stts");
    std::vector<u64> d;
    for (u64 i = 0, n = be(s, 4, 4); i < n; ++i)
      for (u64 c = be(s, 8 + 8 * i, 4); c && d.size() <= N; --c) d.push_back(be(s, 12 + 8 * i, 4));
    CHECK(d.size() == N, "%s: durations of %zu samples, %zu were added", what, d.size(), N);
    for (std::size_t i = 0; i < N && i < d.size(); ++i) {
      auto end = i + 1 < N ? t.samples[i + 1].ts : static_cast<u64>(static_cast<float>(t.timescale) * t.duration);
      CHECK(d[i] == static_cast<u32>(end - t.samples[i].ts), "%s: duration of sample %zu is %llu", what, i + 1, static_cast<unsigned long long>(d[i]));
    }
  }
  // stss
  if (auto k = stbl->kid("stss"); k || t.vide()) {
    const auto& s = box("stss");
    std::vector<u64> want, got;
    for (std::size_t i = 0; i < N; ++i)
      if (t.samples[i].key) want.push_back(i + 1);
    for (u64 i = 0, n = be(s, 4, 4); i < n; ++i) got.push_back(be(s, 8 + 4 * i, 4));
    CHECK(t.vide() && want == got, "%s: sync samples", what);
  }
  // stsz + stsc + stco / co64
  const auto &sz = box("stsz"), &sc = box("stsc");
  bool c64 = stbl->kid("co64") != nullptr;
  const auto& co = c64 ? box("co64") : box("stco");
  CHECK(be(sz, 8, 4) == N, "%s: %llu sizes", what, static_cast<unsigned long long>(be(sz, 8, 4)));
  CHECK((stbl->kid("co64") != nullptr) != (stbl->kid("stco") != nullptr), "%s: one chunk offset box", what);
  u64 nch = be(co, 4, 4), nsc = be(sc, 4, 4), smp = 0;
  for (u64 c = 0; c < nch; ++c) {
    u64 spc = 0;
    for (u64 i = 0; i < nsc; ++i)
      if (be(sc, 8 + 12 * i, 4) <= c + 1) {
        spc = be(sc, 12 + 12 * i, 4);
        CHECK(be(sc, 16 + 12 * i, 4) == 1, "%s: sample description index", what);
      }
    u64 at = c64 ? be(co, 8 + 8 * c, 8) : be(co, 8 + 4 * c, 4);
    for (u64 j = 0; j < spc; ++j, ++smp) {
      if (smp >= N) return fail("%s: the chunks hold more than the %zu samples", what, N);
      u64 n = be(sz, 12, 4) * 0 + (be(sz, 4, 4) ? be(sz, 4, 4) : be(sz, 12 + 4 * smp, 4));
      const auto& d = t.samples[smp].data;
      CHECK(n == d.size(), "%s: size of sample %llu is %llu, not %zu", what, static_cast<unsigned long long>(smp + 1), static_cast<unsigned long long>(n), d.size());
      CHECK(at <= m.file.size() && m.file.substr(at, d.size()) == d, "%s: sample %llu is not at its offset %llu", what, static_cast<unsigned long long>(smp + 1), static_cast<unsigned long long>(at));
      at += n;
    }
  }
  CHECK(smp == N, "%s: the chunks hold %llu of %zu samples", what, static_cast<unsigned long long>(smp), N);
}
