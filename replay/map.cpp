// C13: the registry, flags, times, languages and identifiers, against the tables of the standards
#include "oracle.hpp"
#include <typeinfo>
#include <ctime>
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_type.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/brand.hpp"
#include "shiguredo/mp4/grouping_type.hpp"
#include "shiguredo/mp4/time/time.hpp"
using namespace shiguredo::mp4;
using T4 = std::array<std::uint8_t, 4>;
struct Row { T4 type; const std::type_info* cls; std::vector<std::uint8_t> versions; };
static const std::vector<Row> rows = {
    {T4{45, 45, 45, 45}, &typeid(box::IlstMeta), {}},
    {T4{79, 112, 117, 115}, &typeid(box::AudioSampleEntry), {0}},
    {T4{97, 65, 82, 84}, &typeid(box::IlstMeta), {}},
    {T4{97, 107, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{97, 112, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{97, 116, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{97, 118, 48, 49}, &typeid(box::VisualSampleEntry), {0}},
    {T4{97, 118, 49, 67}, &typeid(box::AV1CodecConfiguration), {}},
    {T4{97, 118, 99, 49}, &typeid(box::VisualSampleEntry), {0}},
    {T4{97, 118, 99, 67}, &typeid(box::AVCDecoderConfiguration), {0}},
    {T4{98, 116, 114, 116}, &typeid(box::Btrt), {}},
    {T4{99, 109, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{99, 110, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{99, 111, 54, 52}, &typeid(box::Co64), {0}},
    {T4{99, 111, 108, 114}, &typeid(box::Colr), {}},
    {T4{99, 111, 118, 114}, &typeid(box::IlstMeta), {}},
    {T4{99, 112, 105, 108}, &typeid(box::IlstMeta), {}},
    {T4{99, 112, 114, 116}, &typeid(box::IlstMeta), {}},
    {T4{99, 116, 116, 115}, &typeid(box::Ctts), {0, 1}},
    {T4{100, 79, 112, 115}, &typeid(box::DOps), {}},
    {T4{100, 97, 116, 97}, &typeid(box::Data), {}},
    {T4{100, 101, 115, 99}, &typeid(box::IlstMeta), {}},
    {T4{100, 105, 110, 102}, &typeid(box::Dinf), {}},
    {T4{100, 105, 115, 107}, &typeid(box::IlstMeta), {}},
    {T4{100, 114, 101, 102}, &typeid(box::Dref), {0}},
    {T4{101, 100, 116, 115}, &typeid(box::Edts), {}},
    {T4{101, 103, 105, 100}, &typeid(box::IlstMeta), {}},
    {T4{101, 108, 115, 116}, &typeid(box::Elst), {0, 1}},
    {T4{101, 109, 115, 103}, &typeid(box::Emsg), {0, 1}},
    {T4{101, 110, 99, 97}, &typeid(box::AudioSampleEntry), {0}},
    {T4{101, 110, 99, 118}, &typeid(box::VisualSampleEntry), {0}},
    {T4{101, 115, 100, 115}, &typeid(box::Esds), {0}},
    {T4{102, 105, 101, 108}, &typeid(box::Fiel), {}},
    {T4{102, 114, 101, 101}, &typeid(box::Free), {}},
    {T4{102, 116, 121, 112}, &typeid(box::Ftyp), {}},
    {T4{103, 101, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{103, 110, 114, 101}, &typeid(box::IlstMeta), {}},
    {T4{104, 100, 108, 114}, &typeid(box::Hdlr), {0}},
    {T4{105, 108, 115, 116}, &typeid(box::Ilst), {}},
    {T4{105, 111, 100, 115}, &typeid(box::Iods), {0}},
    {T4{109, 100, 97, 116}, &typeid(box::Mdat), {}},
    {T4{109, 100, 104, 100}, &typeid(box::Mdhd), {0, 1}},
    {T4{109, 100, 105, 97}, &typeid(box::Mdia), {}},
    {T4{109, 101, 104, 100}, &typeid(box::Mehd), {0, 1}},
    {T4{109, 101, 116, 97}, &typeid(box::Meta), {0}},
    {T4{109, 102, 104, 100}, &typeid(box::Mfhd), {0}},
    {T4{109, 102, 114, 97}, &typeid(box::Mfra), {}},
    {T4{109, 102, 114, 111}, &typeid(box::Mfro), {0}},
    {T4{109, 105, 110, 102}, &typeid(box::Minf), {}},
    {T4{109, 111, 111, 102}, &typeid(box::Moof), {}},
    {T4{109, 111, 111, 118}, &typeid(box::Moov), {}},
    {T4{109, 112, 52, 97}, &typeid(box::AudioSampleEntry), {0}},
    {T4{109, 118, 101, 120}, &typeid(box::Mvex), {}},
    {T4{109, 118, 104, 100}, &typeid(box::Mvhd), {0, 1}},
    {T4{112, 97, 115, 112}, &typeid(box::PixelAspectRatio), {0}},
    {T4{112, 99, 115, 116}, &typeid(box::IlstMeta), {}},
    {T4{112, 103, 97, 112}, &typeid(box::IlstMeta), {}},
    {T4{112, 108, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{112, 115, 115, 104}, &typeid(box::Pssh), {0, 1}},
    {T4{112, 117, 114, 100}, &typeid(box::IlstMeta), {}},
    {T4{112, 117, 114, 108}, &typeid(box::IlstMeta), {}},
    {T4{114, 116, 110, 103}, &typeid(box::IlstMeta), {}},
    {T4{115, 98, 103, 112}, &typeid(box::Sbgp), {0, 1}},
    {T4{115, 99, 104, 105}, &typeid(box::Schi), {}},
    {T4{115, 100, 116, 112}, &typeid(box::Sdtp), {0}},
    {T4{115, 102, 73, 68}, &typeid(box::IlstMeta), {}},
    {T4{115, 103, 112, 100}, &typeid(box::Sgpd), {1, 2}},
    {T4{115, 105, 100, 120}, &typeid(box::Sidx), {0, 1}},
    {T4{115, 105, 110, 102}, &typeid(box::Sinf), {}},
    {T4{115, 107, 105, 112}, &typeid(box::Skip), {}},
    {T4{115, 109, 104, 100}, &typeid(box::Smhd), {0}},
    {T4{115, 111, 97, 97}, &typeid(box::IlstMeta), {}},
    {T4{115, 111, 97, 108}, &typeid(box::IlstMeta), {}},
    {T4{115, 111, 97, 114}, &typeid(box::IlstMeta), {}},
    {T4{115, 111, 99, 111}, &typeid(box::IlstMeta), {}},
    {T4{115, 111, 110, 109}, &typeid(box::IlstMeta), {}},
    {T4{115, 111, 115, 110}, &typeid(box::IlstMeta), {}},
    {T4{115, 116, 98, 108}, &typeid(box::Stbl), {}},
    {T4{115, 116, 99, 111}, &typeid(box::Stco), {}},
    {T4{115, 116, 105, 107}, &typeid(box::IlstMeta), {}},
    {T4{115, 116, 115, 99}, &typeid(box::Stsc), {0}},
    {T4{115, 116, 115, 100}, &typeid(box::Stsd), {0}},
    {T4{115, 116, 115, 115}, &typeid(box::Stss), {0}},
    {T4{115, 116, 115, 122}, &typeid(box::Stsz), {0}},
    {T4{115, 116, 116, 115}, &typeid(box::Stts), {0}},
    {T4{115, 116, 121, 112}, &typeid(box::Styp), {}},
    {T4{116, 102, 100, 116}, &typeid(box::Tfdt), {0, 1}},
    {T4{116, 102, 104, 100}, &typeid(box::Tfhd), {0}},
    {T4{116, 102, 114, 97}, &typeid(box::Tfra), {0, 1}},
    {T4{116, 107, 104, 100}, &typeid(box::Tkhd), {0, 1}},
    {T4{116, 109, 112, 111}, &typeid(box::IlstMeta), {}},
    {T4{116, 114, 97, 102}, &typeid(box::Traf), {}},
    {T4{116, 114, 97, 107}, &typeid(box::Trak), {}},
    {T4{116, 114, 101, 120}, &typeid(box::Trex), {0}},
    {T4{116, 114, 107, 110}, &typeid(box::IlstMeta), {}},
    {T4{116, 114, 117, 110}, &typeid(box::Trun), {0, 1}},
    {T4{116, 118, 101, 110}, &typeid(box::IlstMeta), {}},
    {T4{116, 118, 101, 115}, &typeid(box::IlstMeta), {}},
    {T4{116, 118, 110, 110}, &typeid(box::IlstMeta), {}},
    {T4{116, 118, 115, 104}, &typeid(box::IlstMeta), {}},
    {T4{116, 118, 115, 110}, &typeid(box::IlstMeta), {}},
    {T4{117, 100, 116, 97}, &typeid(box::Udta), {}},
    {T4{117, 114, 108, 32}, &typeid(box::Url), {0}},
    {T4{117, 114, 110, 32}, &typeid(box::Urn), {0}},
    {T4{118, 109, 104, 100}, &typeid(box::Vmhd), {0}},
    {T4{118, 112, 48, 56}, &typeid(box::VisualSampleEntry), {0}},
    {T4{118, 112, 48, 57}, &typeid(box::VisualSampleEntry), {0}},
    {T4{118, 112, 49, 48}, &typeid(box::VisualSampleEntry), {0}},
    {T4{118, 112, 99, 67}, &typeid(box::VPCodecConfiguration), {0, 1}},
    {T4{119, 97, 118, 101}, &typeid(box::Wave), {0}},
    {T4{169, 65, 82, 84}, &typeid(box::IlstMeta), {}},
    {T4{169, 97, 108, 98}, &typeid(box::IlstMeta), {}},
    {T4{169, 99, 109, 116}, &typeid(box::IlstMeta), {}},
    {T4{169, 99, 111, 109}, &typeid(box::IlstMeta), {}},
    {T4{169, 100, 97, 121}, &typeid(box::IlstMeta), {}},
    {T4{169, 103, 101, 110}, &typeid(box::IlstMeta), {}},
    {T4{169, 103, 114, 112}, &typeid(box::IlstMeta), {}},
    {T4{169, 110, 97, 109}, &typeid(box::IlstMeta), {}},
    {T4{169, 116, 111, 111}, &typeid(box::IlstMeta), {}},
    {T4{169, 119, 114, 116}, &typeid(box::IlstMeta), {}},
};
template <class B> static void def(const char* t, const char* n) {
  B b;
  CHECK(b.getType() == BoxType(std::string(t)), "type of a default %s is %s", n, b.getType().toString().c_str());
  CHECK(static_cast<Box&>(b).getType() == BoxType(std::string(t)), "type of a default %s is %s", n, b.getType().toString().c_str());
}
static void types() {
  def<box::AV1CodecConfiguration>("av1C", "AV1CodecConfiguration");
  def<box::AVCDecoderConfiguration>("avcC", "AVCDecoderConfiguration");
  def<box::Btrt>("btrt", "Btrt");
  def<box::Co64>("co64", "Co64");
  def<box::Colr>("colr", "Colr");
  def<box::Ctts>("ctts", "Ctts");
  def<box::DOps>("dOps", "DOps");
  def<box::Data>("data", "Data");
  def<box::Dinf>("dinf", "Dinf");
  def<box::Dref>("dref", "Dref");
  def<box::Edts>("edts", "Edts");
  def<box::Elst>("elst", "Elst");
  def<box::Emsg>("emsg", "Emsg");
  def<box::Esds>("esds", "Esds");
  def<box::Fiel>("fiel", "Fiel");
  def<box::Free>("free", "Free");
  def<box::Ftyp>("ftyp", "Ftyp");
  def<box::Hdlr>("hdlr", "Hdlr");
  def<box::Ilst>("ilst", "Ilst");
  def<box::Iods>("iods", "Iods");
  def<box::Mdat>("mdat", "Mdat");
  def<box::Mdhd>("mdhd", "Mdhd");
  def<box::Mdia>("mdia", "Mdia");
  def<box::Mehd>("mehd", "Mehd");
  def<box::Meta>("meta", "Meta");
  def<box::Mfhd>("mfhd", "Mfhd");
  def<box::Mfra>("mfra", "Mfra");
  def<box::Mfro>("mfro", "Mfro");
  def<box::Minf>("minf", "Minf");
  def<box::Moof>("moof", "Moof");
  def<box::Moov>("moov", "Moov");
  def<box::Mvex>("mvex", "Mvex");
  def<box::Mvhd>("mvhd", "Mvhd");
  def<box::PixelAspectRatio>("pasp", "PixelAspectRatio");
  def<box::Pssh>("pssh", "Pssh");
  def<box::Sbgp>("sbgp", "Sbgp");
  def<box::Schi>("schi", "Schi");
  def<box::Sdtp>("sdtp", "Sdtp");
  def<box::Sgpd>("sgpd", "Sgpd");
  def<box::Sidx>("sidx", "Sidx");
  def<box::Sinf>("sinf", "Sinf");
  def<box::Skip>("skip", "Skip");
  def<box::Smhd>("smhd", "Smhd");
  def<box::Stbl>("stbl", "Stbl");
  def<box::Stco>("stco", "Stco");
  def<box::Stsc>("stsc", "Stsc");
  def<box::Stsd>("stsd", "Stsd");
  def<box::Stss>("stss", "Stss");
  def<box::Stsz>("stsz", "Stsz");
  def<box::Stts>("stts", "Stts");
  def<box::Styp>("styp", "Styp");
  def<box::Tfdt>("tfdt", "Tfdt");
  def<box::Tfhd>("tfhd", "Tfhd");
  def<box::Tfra>("tfra", "Tfra");
  def<box::Tkhd>("tkhd", "Tkhd");
  def<box::Traf>("traf", "Traf");
  def<box::Trak>("trak", "Trak");
  def<box::Trex>("trex", "Trex");
  def<box::Trun>("trun", "Trun");
  def<box::Udta>("udta", "Udta");
  def<box::Unsupported>("unsu", "Unsupported");
  def<box::Url>("url ", "Url");
  def<box::Urn>("urn ", "Urn");
  def<box::VPCodecConfiguration>("vpcC", "VPCodecConfiguration");
  def<box::Vmhd>("vmhd", "Vmhd");
  def<box::Wave>("wave", "Wave");
}
static T4 rt() { return {static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256)), static_cast<std::uint8_t>(rnd(256))}; }
template <class T> static bool has(const T& v, unsigned x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static void registry() {
  BoxMap m;
  register_box_map(&m);
  for (int i = 0; i < 400 && more(); ++i) {
    T4 t = rt();
    const Row* r = nullptr;
    if (rnd(3) || i < 200) t = rows[static_cast<std::size_t>(i) % rows.size()].type;
    if (!rnd(5)) t[rnd(4)] = static_cast<std::uint8_t>(rnd(256));
    for (auto& x : rows) if (x.type == t) r = &x;
    BoxType bt(t);
    auto n = bt.toString();
    ++ncase;
    CHECK(m.isSupported(bt) == (r != nullptr), "isSupported(%s)", n.c_str());
    auto* b = rnd(2) ? m.getBoxInstance(bt) : m.getBoxInstance(new BoxHeader({.type = bt}));
    std::unique_ptr<Box> own(b);
    CHECK(typeid(*b) == (r ? *r->cls : typeid(box::Unsupported)), "class created for %s: %s", n.c_str(), typeid(*b).name());
    if (r) CHECK(b->getType().getData() == t, "type of the box created for %s: %s", n.c_str(), b->getType().toString().c_str());
    auto v = static_cast<std::uint8_t>(rnd(4));
    CHECK(m.isSupportedVersion(bt, v) == (r && (r->versions.empty() || has(r->versions, v))), "isSupportedVersion(%s, %u)", n.c_str(), v);
    bool threw = false;
    try {
      auto vs = m.getSupportedVersions(bt);
      CHECK(r && std::is_permutation(vs.begin(), vs.end(), r->versions.begin(), r->versions.end()), "getSupportedVersions(%s)", n.c_str());
    } catch (std::exception&) { threw = true; }
    CHECK(threw == (r == nullptr), "getSupportedVersions(%s) throws", n.c_str());
  }
}
static void flags() {
  box::Stss b;
  box::Moov p;
  std::uint32_t s = 0;
  std::uint8_t v = b.getVersion();
  for (int i = 0; i < 200 && more(); ++i) {
    auto x = static_cast<std::uint32_t>(rval(32));
    ++ncase;
    switch (rnd(4)) {
      case 0: b.setFlags(x); s = x & 0xffffff; break;
      case 1: b.addFlag(x); s |= x & 0xffffff; break;
      case 2: b.removeFlag(x); s &= ~x; break;
      default: v = static_cast<std::uint8_t>(x); b.setVersion(v);
    }
    auto y = static_cast<std::uint32_t>(rval(32));
    CHECK(b.getFlags() == s, "flags %x, expected %x", b.getFlags(), s);
    CHECK(b.getVersion() == v, "version %u, expected %u", b.getVersion(), v);
    CHECK(b.checkFlag(y) == ((s & y) != 0), "checkFlag(%x) of %x", y, s);
    p.setFlags(x); p.addFlag(x); p.setVersion(v); p.removeFlag(y);
    CHECK(p.getFlags() == 0 && p.getVersion() == 0 && p.checkFlag(x), "a plain box has flags");
  }
}
static void times() {
  auto t = rnd(3) ? rval(64) : rval(33) + 2082844800ULL - rnd(2);
  ++ncase;
  CHECK(time::convert_to_epoch_19040101(t) == t + 24107ULL * 86400, "convert_to_epoch_19040101(%llu)", static_cast<unsigned long long>(t));
  auto w = static_cast<std::int64_t>(t - 24107ULL * 86400);
  if (t < (1ULL << 32)) {
    auto tt = static_cast<std::time_t>(w);
    std::tm tm;
    gmtime_r(&tt, &tm);
    char buf[64];
    std::strftime(buf, sizeof buf, "%Y-%m-%dT%H:%M:%SZ", &tm);
    CHECK(time::format_epoch_19040101(t) == buf, "format_epoch_19040101(%llu) is %s", static_cast<unsigned long long>(t), time::format_epoch_19040101(t).c_str());
  }
  std::array<std::uint8_t, 3> l{};
  for (auto& c : l) c = static_cast<std::uint8_t>(0x60 + rnd(32));
  auto e = box::encode_language(l);
  CHECK(e == (((l[0] - 0x60) << 10) | ((l[1] - 0x60) << 5) | (l[2] - 0x60)), "encode_language");
  CHECK(box::decode_language(e) == l, "decode_language(encode_language())");
  auto c = static_cast<std::uint16_t>(rnd(0x8000));
  CHECK(box::encode_language(box::decode_language(c)) == c, "encode_language(decode_language(%x))", c);
}
static void consts() {
  CHECK((BrandIsom == T4{105, 115, 111, 109}), "BrandIsom");
  CHECK((BrandIso2 == T4{105, 115, 111, 50}), "BrandIso2");
  CHECK((BrandMp41 == T4{109, 112, 52, 49}), "BrandMp41");
  CHECK((BrandMp42 == T4{109, 112, 52, 50}), "BrandMp42");
  CHECK((BrandAvc1 == T4{97, 118, 99, 49}), "BrandAvc1");
  CHECK((GroupingTypeRoll == T4{114, 111, 108, 108}), "GroupingTypeRoll");
  CHECK((GroupingTypeProl == T4{112, 114, 111, 108}), "GroupingTypeProl");
  CHECK((GroupingTypeAlst == T4{97, 108, 115, 116}), "GroupingTypeAlst");
  CHECK((GroupingTypeRap == T4{114, 97, 112, 32}), "GroupingTypeRap");
  CHECK((GroupingTypeTele == T4{116, 101, 108, 101}), "GroupingTypeTele");
}
int main(int argc, char** argv) {
  init(argc, argv);
  types();
  consts();
  do {
    registry();
    flags();
    for (int i = 0; i < 200; ++i) times();
  } while (more());
  return finish();
}
