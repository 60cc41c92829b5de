// C10: Annex-B byte strings, against an independent splitter; stored samples and parameter sets
#include "movie.hpp"

struct Rec : writer::Writer {
  std::vector<std::string> got;
  Rec() {
    m_mvhd_timescale = 1000;
    m_duration = 1;
    m_time_from_epoch = 0;
    m_moov_box_info = new BoxInfo({.box = new box::Moov()});
  }
  void writeFtypBox() override {}
  void writeMoovBox() override {}
  void addMdatData(const u8* p, const std::size_t n) override { got.emplace_back(reinterpret_cast<const char*>(p), n); }
  std::uint64_t tellCurrentMdatOffset() override { return 0; }
  void appendTrakAndUdtaBoxInfo(const std::vector<track::Track*>&) override {}
  void setOffsetAndSize() override {}
};
static std::size_t code(const std::string& d, std::size_t i) {  // size of the start code at i, 0 if none
  auto at = [&](std::size_t j) { return static_cast<u8>(d[j]); };
  if (i + 4 < d.size() && !at(i) && !at(i + 1) && !at(i + 2) && at(i + 3) == 1) return 4;
  if (i + 3 < d.size() && !at(i) && !at(i + 1) && at(i + 2) == 1) return 3;
  return 0;
}
static std::size_t next(const std::string& d, std::size_t i) {
  while (i < d.size() && !code(d, i)) ++i;
  return i;
}
static std::string gen() {
  std::string d;
  auto n = rnd(7);
  if (!rnd(12)) d += rbytes(rnd(3));
  for (std::size_t i = 0; i < n; ++i) {
    d += rnd(2) ? std::string("\0\0\0\1", 4) : std::string("\0\0\1", 3);
    if (!rnd(25)) continue;
    static const int types[] = {1, 2, 3, 4, 5, 6, 7, 8};
    auto t = rnd(15) ? types[rnd(8)] : static_cast<int>(rnd(32));
    d += static_cast<char>(t | (rnd(4) << 5));
    auto len = rnd(3) ? rnd(8) : rnd(300);
    for (std::size_t j = 0; j < len; ++j) d += rnd(3) ? static_cast<char>(rng()) : static_cast<char>(rnd(2));
  }
  if (!rnd(4)) d += std::string(rnd(5), '\0');
  if (!rnd(6) && !d.empty()) d.resize(rnd(d.size()));
  return d;
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    ++ncase;
    Rec w;
    u8 prof[3] = {static_cast<u8>(rng()), static_cast<u8>(rng()), static_cast<u8>(rng())};
    track::H264Track t({.timescale = 1000, .duration = 1, .track_id = 1, .width = 2, .height = 2, .profile = prof[0], .profile_compatibility = prof[1], .level = prof[2], .writer = &w});
    std::vector<std::string> samples, sps, pps;
    bool exact4 = false;
    for (auto k = 1 + rnd(3); k > 0; --k) {
      auto d = gen();
      auto* buf = new u8[d.size()];  // exact size, so that the sanitizer sees reads beyond it
      std::memcpy(buf, d.data(), d.size());
      {
        auto s = static_cast<std::size_t>(rnd(d.size() + 3));
        bool thrown = false;
        try {
          auto u = track::find_next_nal_unit(buf, d.size(), s);
          auto c = s < d.size() ? code(d, s) : 0;
          auto e = next(d, s + c);
          CHECK(c && u.start == s && u.start_code_size == c && u.end == e && u.header == static_cast<u8>(d[s + c]), "find_next_nal_unit at %zu of %zu bytes: start %zu end %zu", s, d.size(), u.start, u.end);
        } catch (std::runtime_error&) { thrown = true; }
        CHECK(thrown == !(s < d.size() && code(d, s)), "find_next_nal_unit at %zu of %zu bytes throws", s, d.size());
      }
      bool bad = false;
      std::size_t p = 0;
      do {
        auto c = p < d.size() ? code(d, p) : 0;
        if (!c) {
          bad = true;
          break;
        }
        auto e = next(d, p + c);
        auto u = d.substr(p + c, e - p - c);
        auto ty = u.empty() ? 0 : u[0] & 0x1f;
        if (ty >= 1 && ty <= 5) {
          auto n = u.size();
          samples.push_back(std::string{static_cast<char>(n >> 24), static_cast<char>(n >> 16), static_cast<char>(n >> 8), static_cast<char>(n)} + u);
        } else if (ty == 7) {
          if (sps.empty() && u.size() > 4) std::memcpy(prof, u.data() + 1, 3);
          if (sps.empty() && u.size() == 4) exact4 = true;
          sps.push_back(u);
        } else if (ty == 8) {
          pps.push_back(u);
        } else if (ty != 6) {
          bad = true;
          break;
        }
        p = e;
      } while (p < d.size());
      bool thrown = false;
      try {
        if (rnd(2)) t.addData(k, buf, d.size(), rnd(2));
        else t.addData(k, std::vector<u8>(buf, buf + d.size()), rnd(2));
      } catch (std::runtime_error&) { thrown = true; }
      delete[] buf;
      CHECK(thrown == bad, "addData of %zu bytes %s", d.size(), thrown ? "throws" : "does not throw");
    }
    CHECK(w.got == samples, "%zu samples stored, not the %zu slices", w.got.size(), samples.size());
    if (sps.size() > 31 || pps.size() > 255 || exact4) continue;
    auto* moov = w.getMoovBoxInfo();
    t.appendTrakBoxInfo(moov);
    moov->adjustOffsetAndSize(0);
    std::stringstream ss;
    moov->write(ss);
    auto f = ss.str();
    bool ok = true;
    auto top = parse(f, 0, f.size(), &ok);
    auto* n = dig(top, "moov/trak/mdia/minf/stbl/stsd/avc1/avcC");
    if (!ok || !n) {
      fail("no decoder configuration");
      continue;
    }
    const auto& c = n->own;
    CHECK(!std::memcmp(c.data() + 1, prof, 3), "profile of the configuration");
    std::size_t q = 5;
    for (int i = 0; i < 2; ++i) {
      std::vector<std::string> got;
      auto cnt = be(c, q, 1) & (i ? 255 : 31);
      ++q;
      for (; cnt; --cnt) {
        auto l = be(c, q, 2);
        got.push_back(c.substr(std::min(q + 2, c.size()), l));
        q += 2 + l;
      }
      CHECK(got == (i ? pps : sps), "%s parameter sets of the configuration", i ? "picture" : "sequence");
    }
  }
  return finish();
}
