// C14: an operation of the stream (or of the intermediate file) that fails must not be followed by a normal return
// LINK: -Wl,--wrap=fwrite,--wrap=fread,--wrap=ferror,--wrap=fseek,--wrap=ftell,--wrap=fclose
#include "movie.hpp"
#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"
#include "shiguredo/mp4/stream/stream.hpp"

void* operator new(std::size_t n) {
  if (n > (1ULL << 26)) throw std::bad_alloc();
  void* p = malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }

static long g_at = -1, g_ops = 0;  // the operation that fails; the operations so far
static bool g_hit = false;
static bool fault() {
  if (g_at < -1) return false;
  if (g_ops++ != g_at) return false;
  g_hit = true;
  return true;
}
static bool g_file = false, g_err = false;
extern "C" {
std::size_t __real_fwrite(const void*, std::size_t, std::size_t, std::FILE*);
std::size_t __wrap_fwrite(const void* p, std::size_t s, std::size_t n, std::FILE* f) { return g_file && n && fault() ? 0 : __real_fwrite(p, s, n, f); }
std::size_t __real_fread(void*, std::size_t, std::size_t, std::FILE*);
std::size_t __wrap_fread(void* p, std::size_t s, std::size_t n, std::FILE* f) {
  if (g_file && fault()) {
    g_err = true;
    return 0;
  }
  if (g_err) return 0;
  return __real_fread(p, s, n, f);
}
int __real_ferror(std::FILE*);
int __wrap_ferror(std::FILE* f) { return g_err || __real_ferror(f); }
int __real_fseek(std::FILE*, long, int);
int __wrap_fseek(std::FILE* f, long o, int w) { return g_file && fault() ? -1 : __real_fseek(f, o, w); }
long __real_ftell(std::FILE*);
long __wrap_ftell(std::FILE* f) { return g_file && fault() ? -1 : __real_ftell(f); }
int __real_fclose(std::FILE*);
int __wrap_fclose(std::FILE* f) {
  int r = __real_fclose(f);
  return g_file && fault() ? EOF : r;
}
}
struct FaultBuf : std::streambuf {
  std::string s;
  std::size_t pos = 0;
  int_type overflow(int_type c) override {
    char ch = static_cast<char>(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (!n || fault()) return 0;
    if (s.size() < pos + static_cast<std::size_t>(n)) s.resize(pos + static_cast<std::size_t>(n));
    std::copy(p, p + n, s.begin() + static_cast<std::ptrdiff_t>(pos));
    pos += static_cast<std::size_t>(n);
    return n;
  }
  int_type underflow() override { return pos >= s.size() || fault() ? traits_type::eof() : traits_type::to_int_type(s[pos]); }
  int_type uflow() override { return pos >= s.size() || fault() ? traits_type::eof() : traits_type::to_int_type(s[pos++]); }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    auto k = std::min<std::size_t>(static_cast<std::size_t>(n), pos < s.size() ? s.size() - pos : 0);
    if (!k || fault()) return 0;
    std::copy_n(s.begin() + static_cast<std::ptrdiff_t>(pos), k, p);
    pos += k;
    return static_cast<std::streamsize>(k);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    off_type t = d == std::ios_base::beg ? o : (d == std::ios_base::cur ? static_cast<off_type>(pos) : static_cast<off_type>(s.size())) + o;
    if (fault() || t < 0) return pos_type(off_type(-1));
    pos = static_cast<std::size_t>(t);
    return pos_type(t);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
// run `f` with the fault at one operation after the other (a sample of them when there are many)
static void each(const char* what, const std::function<void()>& f, std::size_t most = 40) {
  auto once = [&](long at) {
    g_at = at;
    g_ops = 0;
    g_hit = g_err = false;
    try {
      f();
      if (g_hit) fail("%s: operation %ld of the stream failed, and it returned normally", what, at + 1);
    } catch (const std::exception&) {
    }
    g_at = -2;
    g_err = false;
  };
  once(-1);
  const long n = g_ops;
  ++ncase;
  for (long i = 0; i < n && !nfail; ++i) {
    if (n > static_cast<long>(most) && rnd(static_cast<u64>(n)) >= most) continue;
    once(i);
  }
}
static const BoxMap& boxmap() {
  static BoxMap* m = [] {
    auto x = new BoxMap();
    register_box_map(x);
    return x;
  }();
  return *m;
}
static std::vector<std::string> types() {
  std::vector<std::string> r;
  for (auto t : {"avc1", "avcC", "vp08", "vp09", "vpcC", "av01", "av1C", "mp4a", "Opus", "dOps", "esds", "btrt", "co64", "colr", "ctts", "dinf", "dref", "edts", "elst", "emsg", "fiel", "free", "skip", "frma", "ftyp", "hdlr", "hev1",
                 "hvcC", "ilst", "iods", "mdat", "mdhd", "mdia", "mehd", "meta", "mfhd", "mfra", "mfro", "minf", "moof", "moov", "mvex", "mvhd", "pasp", "prft", "pssh", "saio", "saiz", "sbgp", "schi", "schm", "sdtp", "sgpd", "sidx",
                 "sinf", "smhd", "stbl", "stco", "stsc", "stsd", "stss", "stsz", "styp", "tfdt", "tfhd", "tfra", "tkhd", "traf", "trak", "trep", "trex", "trun", "udta", "url ", "urn ", "vmhd", "wave", "stts", "\xa9too", "data", "mime", "????"})
    r.push_back(t);
  return r;
}
static void boxes() {
  static const auto ts = types();
  auto t = ts[rnd(ts.size())];
  auto mk = [&] { return std::unique_ptr<Box>(const_cast<BoxMap&>(boxmap()).getBoxInstance(new BoxHeader({.offset = 0, .size = 8, .header_size = 8, .type = BoxType(t)}))); };
  std::string data = rbytes(rnd(3) ? rnd(60) : rnd(300));
  for (auto& c : data)
    if (rnd(2)) c = 0;
  if (data.size() > 4 && rnd(2)) data[0] = static_cast<char>(rnd(2)), data[1] = data[2] = 0;
  if (data.size() > 8 && rnd(2)) data[4] = data[5] = data[6] = 0, data[7] = static_cast<char>(rnd(5));
  auto what = "readData() of " + t;
  bool ok = false;
  auto box = mk();
  if (!box) return;
  try {
    g_at = -2;
    g_err = false;
    std::istringstream is(data);
    box->readData(is);
    ok = true;
  } catch (const std::exception&) {
  }
  each(what.c_str(), [&] {
    FaultBuf b;
    b.s = data;
    std::istream is(&b);
    mk()->readData(is);
  });
  what = "writeData() of " + t;
  if (ok)
      each(what.c_str(), [&] {
        FaultBuf b;
        std::ostream os(&b);
        box->writeData(os);
      });
  if (ok)
    each("Box::write", [&] {
      FaultBuf b;
      std::ostream os(&b);
      box->setOffsetAndDataSize(0, box->getDataSize());
      box->write(os);
    });
}
static void headers() {
  auto h = [&] { return BoxHeader({.offset = rnd(20), .size = rnd(2) ? 8 + rnd(100) : (1ull << 32) + rnd(9), .header_size = rnd(2) ? 8u : 16u, .type = BoxType("mdat")}); };
  each("BoxHeader::write", [&] {
    FaultBuf b;
    std::ostream os(&b);
    h().write(os);
  });
  std::string d = rbytes(8 + rnd(30));
  d[0] = d[1] = d[2] = 0;
  d[3] = static_cast<char>(rnd(3));
  const auto at = rnd(3);
  auto with = [&](const char* w, const std::function<void(std::istream&)>& f) {
    each(w, [&] {
      FaultBuf b;
      b.s = d;
      b.pos = at;
      std::istream is(&b);
      f(is);
    });
  };
  with("read_box_header", [](std::istream& is) { std::unique_ptr<BoxHeader> x(read_box_header(is)); });
  with("get_istream_offset_to_end", [](std::istream& is) { stream::get_istream_offset_to_end(is); });
  with("BoxHeader::seekToData", [&](std::istream& is) { h().seekToData(is); });
  with("BoxHeader::seekToEnd", [&](std::istream& is) { h().seekToEnd(is); });
  with("Reader::seek", [&](std::istream& is) { bitio::Reader(is).seek(rnd(9), std::ios_base::beg); });
  with("Reader::read", [&](std::istream& is) {
    std::vector<u8> v(3);
    bitio::Reader(is).read(&v);
  });
  const auto max = rnd(2) ? rnd(100) : 8 + 8 * static_cast<u64>(static_cast<u8>(d[0]));
  with("read_pascal_string", [&](std::istream& is) {
    bitio::Reader r(is);
    std::string s;
    bitio::read_pascal_string(&r, &s, max);
  });
}
static void movie(bool fast) {
  const auto n = rnd(12), seed = rng();
  each(fast ? "a fast-start movie" : "a simple movie",
       [&] {
         std::mt19937_64 r(seed);
         FaultBuf b;
         std::ostream os(&b);
         std::unique_ptr<writer::Writer> w;
         writer::FaststartWriter* fw = nullptr;
         writer::SimpleWriter* sw = nullptr;
         for (auto& e : std::filesystem::directory_iterator(scratch())) std::filesystem::remove(e.path());
         g_file = true;
         struct Off {
           ~Off() { g_file = false; }
         } off;
         if (fast) w.reset(fw = new writer::FaststartWriter(os, {.mvhd_timescale = 1000, .duration = 1.0f, .mdat_path_templete = scratch() + "/mdatXXXXXX"}));
         else w.reset(sw = new writer::SimpleWriter(os, {.mvhd_timescale = 1000, .duration = 1.0f}));
         w->writeFtypBox();
         track::OpusTrack t({.pre_skip = 312, .duration = 1.0f, .media_time = 0, .track_id = w->getAndUpdateNextTrackID(), .writer = w.get()});
         for (u64 i = 0; i < n; ++i) {
           std::vector<u8> v(1 + r() % 50);
           t.addData(i * 960, v, true);
           if (r() % 3 == 0) t.terminateCurrentChunk();
         }
         w->appendTrakAndUdtaBoxInfo({&t});
         if (fast) {
           fw->writeMoovBox();
           fw->writeMdatHeader();
           fw->copyMdatData();
         } else {
           sw->writeFreeBoxAndMdatHeader();
           sw->writeMoovBox();
         }
         // the stream is flushed by its owner
       },
       25);
}
static void reading() {
  auto m = mkmovie(static_cast<int>(1 + rnd(2)), static_cast<int>(rnd(6)), false);
  std::ostringstream sink;
  auto old = std::cout.rdbuf(sink.rdbuf());
  each("SimpleReader", [&] {
    FaultBuf b;
    b.s = m.file;
    std::istream is(&b);
    reader::SimpleReader r(is);
    r.read();
  }, 15);
  std::cout.rdbuf(old);
}
int main(int argc, char** argv) {
  init(argc, argv);
  g_at = -2;
  do {
    for (int i = 0; i < 60 && !nfail; ++i) boxes();
    for (int i = 0; i < 5 && !nfail; ++i) headers();
    if (!nfail) movie(rnd(2));
    if (!nfail) reading();
  } while (more());
  return finish();
}
