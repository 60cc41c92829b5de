From b04cee867dd31794bf158f087f778980e86ac5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 01/14] fix: FullBox::removeFlag() must not set a flag that was
 not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From bf93aeb6f70721900612c45ab9afa0d7a231a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 02/14] fix: Hdlr::readData() passed a number of bits as the
 number of padding bytes

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 7959a89708c5952c423ab851280a19045c9d954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 03/14] fix: AudioSampleEntry::m_under_wave was read
 uninitialised by readData()

---
 include/shiguredo/mp4/box/sample_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..40904d6 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -108,7 +108,7 @@ class AudioSampleEntry : public SampleEntry {
   std::uint32_t m_sample_rate;
   bool m_is_quick_time_compatible;
   std::vector<std::uint8_t> m_quick_time_data;
-  bool m_under_wave;
+  bool m_under_wave = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
-- 
2.43.0


From 81e4b1557973eca8e0456bafbf9b94c8962c0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 04/14] fix: Stsz lost the sample count of constant-size
 samples when read

---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..41f3d0c 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..b101577 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From 34846b35d1409317ce36cb09d5753d7cf16afc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 05/14] fix: Iods::readData() reported a wrapped or unconsumed
 number of bits

A descriptor length below 7 wrapped around, and the bytes of a longer descriptor
were reported as read without having been consumed.
---
 src/box/iods.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..ba883be 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -74,7 +75,14 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  if (m_descriptor_length < 7) {
+    throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor length: {}", m_descriptor_length));
+  }
+  for (std::uint32_t i = 7; i < m_descriptor_length; ++i) {
+    std::uint8_t skipped;
+    rbits += bitio::read_uint<std::uint8_t>(&reader, &skipped);
+  }
+  return rbits;
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 883f7158145806dc28f0f51adc2dd55f1f0e4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 06/14] fix: Sgpd::m_default_length was read uninitialised for
 version 0 'alst' groups

---
 include/shiguredo/mp4/box/sgpd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/box/sgpd.hpp b/include/shiguredo/mp4/box/sgpd.hpp
index fff5755..1fbbb86 100644
--- a/include/shiguredo/mp4/box/sgpd.hpp
+++ b/include/shiguredo/mp4/box/sgpd.hpp
@@ -162,7 +162,7 @@ class Sgpd : public FullBox {
 
  private:
   GroupingType m_grouping_type;
-  std::uint32_t m_default_length;
+  std::uint32_t m_default_length = 0;
   std::uint32_t m_default_sample_description_index;
   std::vector<RollDistance> m_roll_distances;
   std::vector<AlternativeStartupEntry> m_alternative_startup_entries;
-- 
2.43.0


From 854f969f9a1c88f809e9bbaea34fbbb63b8c5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 07/14] fix: read_box_header() must refuse a position beyond
 the end of the stream

---
 src/box_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..e89cb71 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -28,7 +28,7 @@ BoxHeader* read_box_header(std::istream& is) {
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-  if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
+  if (offset_eof < offset || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
   }
-- 
2.43.0


From e41093e7ed72824b682e5dd4c635c1572af622d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:20 +0000
Subject: [PATCH 08/14] fix: find_next_nal_unit() finds short last units and
 units with a zero header byte

---
 src/track/h264.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..e674c55 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -163,9 +163,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   auto index = start;
   std::size_t start_code_size;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+  bool found = false;
+  while (index + 3 < data_size) {
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      if (!found) {
+        found = true;
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -175,7 +178,8 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       continue;
     }
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+      if (!found) {
+        found = true;
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -184,12 +188,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (!found) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (!found) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From 556217e3218823f86e253ab61394a5c54aa5394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:04 +0000
Subject: [PATCH 09/14] fix: durations and times that need 64 bits select
 version 1

---
 include/shiguredo/mp4/time/time.hpp |  2 ++
 src/time/time.cpp                   |  6 ++++++
 src/track/soun.cpp                  | 15 +++++++++------
 src/track/track.cpp                 | 11 +++++++++--
 src/track/vide.cpp                  |  2 ++
 src/writer/faststart_writer.cpp     |  3 ++-
 src/writer/simple_writer.cpp        |  3 ++-
 7 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/shiguredo/mp4/time/time.hpp b/include/shiguredo/mp4/time/time.hpp
index 4d27a70..5bda313 100644
--- a/include/shiguredo/mp4/time/time.hpp
+++ b/include/shiguredo/mp4/time/time.hpp
@@ -9,5 +9,7 @@ const std::uint64_t SECONDS_19040101_to_19700101 = 2082844800;  // 24107 * 86400
 
 std::string format_epoch_19040101(const std::uint64_t t);
 std::uint64_t convert_to_epoch_19040101(const std::uint64_t t);
+// 32 ビットに収まらない値があるときは, 64 ビットで保持する version 1 を返す
+std::uint8_t get_full_box_version(const std::uint64_t time_or_duration, const std::uint64_t duration = 0);
 
 }  // namespace shiguredo::mp4::time
diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..a6ce065 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -4,6 +4,7 @@
 #include <fmt/chrono.h>
 #include <fmt/core.h>
 
+#include <cstdint>
 #include <ctime>
 #include <limits>
 
@@ -24,4 +25,9 @@ std::uint64_t convert_to_epoch_19040101(const std::uint64_t t) {
   return t + SECONDS_19040101_to_19700101;
 }
 
+std::uint8_t get_full_box_version(const std::uint64_t time_or_duration, const std::uint64_t duration) {
+  const std::uint64_t max = std::numeric_limits<std::uint32_t>::max();
+  return time_or_duration > max || duration > max ? 1 : 0;
+}
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..7bcfca1 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -10,12 +11,14 @@ SounTrack::SounTrack() {
 }
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
-  new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
-                                     .creation_time = m_time_from_epoch,
-                                     .modification_time = m_time_from_epoch,
-                                     .track_id = m_track_id,
-                                     .duration = getDurationInMvhdTimescale()})});
+  new BoxInfo(
+      {.parent = trak,
+       .box = new box::Tkhd({.version = time::get_full_box_version(m_time_from_epoch, getDurationInMvhdTimescale()),
+                             .flags = 0x000003,
+                             .creation_time = m_time_from_epoch,
+                             .modification_time = m_time_from_epoch,
+                             .track_id = m_track_id,
+                             .duration = getDurationInMvhdTimescale()})});
 }
 
 void SounTrack::makeSmhdBoxInfo(BoxInfo* minf) {
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..7ce0aa2 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -9,6 +9,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 #include "shiguredo/mp4/writer/writer.hpp"
 
 namespace shiguredo::mp4::track {
@@ -172,8 +173,13 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
+  const bool is_media_time_32bit = m_media_time >= std::numeric_limits<std::int32_t>::min() &&
+                                   m_media_time <= std::numeric_limits<std::int32_t>::max();
+  const std::uint8_t version =
+      is_media_time_32bit ? time::get_full_box_version(getDurationInMvhdTimescale()) : std::uint8_t{1};
   new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
+               .box = new box::Elst({.version = version,
+                                     .entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
                                                                  .media_time = m_media_time})}})});
 }
 
@@ -183,7 +189,8 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = time::get_full_box_version(m_time_from_epoch, getDurationInTimescale()),
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
                                      .duration = getDurationInTimescale()})});
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..f560287 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -12,6 +13,7 @@ VideTrack::VideTrack() {
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = time::get_full_box_version(m_time_from_epoch, getDurationInMvhdTimescale()),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..e672e70 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -54,7 +54,8 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::get_full_box_version(m_time_from_epoch, mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..a1f6a4e 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -31,7 +31,8 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::get_full_box_version(m_time_from_epoch, mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
-- 
2.43.0


From 456b06ab1b1e049aa42351ef93617c4b160f1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 10/14] fix: failing stream writes and reads are reported

---
 src/box_header.cpp              | 16 ++++++++++++----
 src/writer/faststart_writer.cpp |  6 +++++-
 src/writer/simple_writer.cpp    |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index e89cb71..9dc6d4a 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -38,7 +38,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +60,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
@@ -105,7 +110,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write(): ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index e672e70..5606441 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -151,7 +151,11 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(fmt::format(
+          "FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
+    }
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index a1f6a4e..fdbab2f 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -93,7 +93,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From 8e1392a63c29b712acd31072fe3decaa96993b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 11/14] fix: failing position queries and reads of the reader
 are reported

---
 src/bitio/bitio.cpp          |  2 +-
 src/bitio/reader.cpp         |  6 +++++-
 src/box_header.cpp           | 10 ++++++----
 src/reader/reader.cpp        | 20 +++++++++++++++++---
 src/stream/stream.cpp        |  4 ++--
 src/writer/simple_writer.cpp |  2 +-
 6 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 697c417..762e1b7 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -69,7 +69,7 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
   std::istream& is = reader->getIStream();
 
   auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("bitio::read_pascal_string(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..331e9af 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const auto pos = m_is.tellg();
+  if (!m_is.good() || pos == std::istream::pos_type(-1)) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(pos);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/box_header.cpp b/src/box_header.cpp
index 9dc6d4a..e6f67a7 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -16,18 +16,20 @@
 namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
-  const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos = is.tellg();
+  if (!is.good() || pos == std::istream::pos_type(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const std::uint64_t offset = static_cast<std::uint64_t>(pos);
   is.seekg(0, std::ios_base::end);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
-  const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos_eof = is.tellg();
+  if (!is.good() || pos_eof == std::istream::pos_type(-1)) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const auto offset_eof = static_cast<std::uint64_t>(pos_eof);
   if (offset_eof < offset || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..47d8fdb 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -23,8 +23,17 @@ namespace shiguredo::mp4::reader {
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
-  m_total_size = static_cast<std::uint64_t>(m_is.tellg());
+  const auto end = m_is.tellg();
+  if (!m_is.good() || end == std::istream::pos_type(-1)) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::SimpleReader(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  m_total_size = static_cast<std::uint64_t>(end);
   m_is.seekg(0, std::ios_base::beg);
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::SimpleReader(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
+  }
   spdlog::debug("SimpleReader::SimpleReader(): m_total_size={}", m_total_size);
 }
 
@@ -47,14 +56,19 @@ void SimpleReader::read() {
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
-  std::stringstream ss;
   const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
   if (header->getDataSize() > remaining_size) {
     spdlog::trace("SimpleReader::readBox(): corrupt file? Header={}", header->toString());
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  std::string data(header->getDataSize(), '\0');
+  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
+  }
+  std::stringstream ss(data);
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..e20d8ed 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -8,7 +8,7 @@ namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +18,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index fdbab2f..123f6be 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -108,7 +108,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From cae6905754975ea1c699566475e6b6d23ea1af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:06 +0000
Subject: [PATCH 12/14] fix: a child box that extends beyond its parent is an
 error when reading

---
 src/reader/reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 47d8fdb..85eea9b 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -92,6 +92,11 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   while (header->getDataSize() > rbytes) {
     rbytes += readBox(info);
   }
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): corrupt file? contents of box extend beyond its end: {} bytes, Header={}",
+                    rbytes, header->toString()));
+  }
   return header->getSize();
 }
 
-- 
2.43.0


From 8c3f707e4bc9b0540be1c70c94e1cd40a5b8ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 13/14] fix: Esds::readData() counts the tag of an unknown
 descriptor once

The tag was added to the number of bits read and again as a part of the rest of
the payload, so that readData() reported eight bits more than the payload has.
---
 src/box/esds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..d9bbbf3 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,8 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        // the tag is a part of offset_to_end and has been counted already
+        return rbits + static_cast<std::uint64_t>(offset_to_end - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 745f0b900e307aacd1ff2cac558427b95bcf70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 14/14] fix: write an AudioSampleEntry below a wave box the way
 it is read

Below a wave box readData() reads nothing but the sound data of QuickTime, while
writeData() and getDataSize() included the fields of an ordinary sample entry,
which readData() had left uninitialised.
---
 src/box/sample_entry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0

