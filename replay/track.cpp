// C08: the tables of random tracks, expanded, against the samples that were added; and the table builders alone
#include "movie.hpp"
#include "shiguredo/mp4/box/stts.hpp"
#include "shiguredo/mp4/box/stsc.hpp"
#include "shiguredo/mp4/box.hpp"

static std::string payload(const Box& b) {
  std::stringstream ss;
  b.writeData(ss);
  return ss.str();
}
static void builders() {
  {
    std::vector<u32> d(rnd(40));
    auto style = 1 + rnd(4);
    for (auto& x : d) x = static_cast<u32>(rnd(8) ? rnd(style) : rval(32));
    std::vector<box::SttsEntry> e(rnd(3), box::SttsEntry({.sample_count = 1, .sample_duration = 1}));
    track::make_stts_entries(&e, d);
    auto s = payload(box::Stts({.entries = e}));
    std::vector<u32> back;
    for (std::size_t i = 0; i < e.size(); ++i)
      for (u64 c = be(s, 8 + 8 * i, 4); c && back.size() <= d.size(); --c) back.push_back(static_cast<u32>(be(s, 12 + 8 * i, 4)));
    CHECK(back == d, "make_stts_entries of %zu durations expands to %zu", d.size(), back.size());
    for (std::size_t i = 0; i < e.size(); ++i) CHECK(be(s, 8 + 8 * i, 4) > 0, "make_stts_entries: empty run");
  }
  std::vector<track::ChunkInfo> c(rnd(30));
  auto style = 1 + rnd(4);
  u64 at = rnd(2) ? rval(34) : 0;
  for (auto& x : c) {
    x.offset = at;
    x.number_of_samples = static_cast<u32>(rnd(8) ? rnd(style) : rval(32));
    at += rnd(3) ? rnd(100) : rnd(1ull << 31);
  }
  if (!c.empty() && !rnd(3)) c.back().offset = std::max<u64>(c.size() > 1 ? c[c.size() - 2].offset : 0, 0xffffffffull + rnd(3) - 1);
  std::vector<box::StscEntry> e(rnd(2), box::StscEntry({.first_chunk = 1, .samples_per_chunk = 2, .sample_description_index = 3}));
  track::make_stsc_entries(&e, c);
  auto s = payload(box::Stsc({.entries = e}));
  std::size_t k = 0;
  CHECK(e.empty() == c.empty(), "make_stsc_entries: %zu entries for %zu chunks", e.size(), c.size());
  for (std::size_t i = 0; i < e.size(); ++i) {
    auto f = be(s, 8 + 12 * i, 4), next = i + 1 < e.size() ? be(s, 8 + 12 * (i + 1), 4) : c.size() + 1;
    CHECK(f == k + 1 && next > f && next <= c.size() + 1, "make_stsc_entries: entry %zu covers chunks %llu to %llu", i, static_cast<unsigned long long>(f), static_cast<unsigned long long>(next));
    for (; k + 1 < next && k < c.size(); ++k) CHECK(c[k].number_of_samples == be(s, 12 + 12 * i, 4), "make_stsc_entries: chunk %zu", k + 1);
    CHECK(be(s, 16 + 12 * i, 4) == 1, "make_stsc_entries: description index");
  }
  std::unique_ptr<Box> b(track::make_offset_box(c));
  auto p = payload(*b);
  bool big = false;
  for (auto& x : c) big |= x.offset > 0xffffffffull;
  bool co64 = b->getType().toString() == "co64";
  CHECK(co64 || !big, "make_offset_box: 32-bit offsets, but one does not fit");
  CHECK(be(p, 4, 4) == c.size(), "make_offset_box: count");
  for (std::size_t i = 0; i < c.size(); ++i) CHECK((co64 ? be(p, 8 + 8 * i, 8) : be(p, 8 + 4 * i, 4)) == c[i].offset, "make_offset_box: offset %zu", i + 1);
}
int main(int argc, char** argv) {
  init(argc, argv);
  do {
    for (int i = 0; i < 30; ++i) builders();
    ++ncase;
    auto m = mkmovie(static_cast<int>(1 + rnd(3)), static_cast<int>(rnd(4) ? rnd(60) : rnd(4)), false);
    bool ok = true;
    auto top = parse(m.file, 0, m.file.size(), &ok);
    CHECK(ok, "the file does not parse");
    auto moov = dig(top, "moov");
    if (!moov) {
      fail("no movie box");
      break;
    }
    for (std::size_t i = 0; i < m.trks.size(); ++i) {
      auto k = moov->kid("trak", i);
      if (!k) fail("no track box %zu", i);
      else check_tables(m, m.trks[i], *k, m.fast ? "fast-start" : "simple");
    }
  } while (more());
  return finish();
}
