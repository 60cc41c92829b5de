T = 'src/track/track.cpp'
refac('track-add', 'C08 C14', [(T, '''  if (!m_current_chunk_info.initialized) {
    m_current_chunk_info.initialized = true;
    m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
  }
  ++m_current_chunk_info.number_of_samples;

  if (!std::empty(m_mdat_sample_sizes)) {
    spdlog::trace("Track::addMdatData(): duration: {} {}", timestamp, m_prev_timestamp);
    m_sample_durations.push_back(static_cast<std::uint32_t>(timestamp - m_prev_timestamp));
  }
  m_prev_timestamp = timestamp;

  m_writer->addMdatData(data, data_size);
  m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
  if (m_handler_type == HandlerType::vide && is_key) {
    m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
  }''', '''  ChunkInfo& chunk = m_current_chunk_info;
  if (!chunk.initialized) {
    chunk.offset = m_writer->tellCurrentMdatOffset();
    chunk.initialized = true;
  }
  chunk.number_of_samples += 1;

  const std::size_t n = std::size(m_mdat_sample_sizes);
  if (n > 0) {
    const auto duration = static_cast<std::uint32_t>(timestamp - m_prev_timestamp);
    m_sample_durations.emplace_back(duration);
  }
  m_prev_timestamp = timestamp;

  m_writer->addMdatData(data, data_size);
  m_mdat_sample_sizes.emplace_back(static_cast<std::uint32_t>(data_size));
  if (is_key && m_handler_type == HandlerType::vide) {
    m_key_sample_numbers.emplace_back(static_cast<std::uint32_t>(n + 1));
  }''')])
refac('track-finalize', 'C08 C11', [(T, '''  m_finalized = true;
  if (m_current_chunk_info.number_of_samples > 0) {
    m_chunk_infos.push_back(m_current_chunk_info);
  }

  if (!std::empty(m_mdat_sample_sizes)) {
    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
  }''', '''  if (!std::empty(m_mdat_sample_sizes)) {
    const std::uint64_t last = getDurationInTimescale() - m_prev_timestamp;
    m_sample_durations.push_back(static_cast<std::uint32_t>(last));
  }
  if (m_current_chunk_info.number_of_samples != 0) {
    m_chunk_infos.emplace_back(m_current_chunk_info);
  }
  m_finalized = true;'''), (T, '''  for (auto& co : m_chunk_infos) {
    co.offset += diff;
  }''', '''  for (std::size_t i = 0; i < std::size(m_chunk_infos); ++i) {
    m_chunk_infos[i].offset = m_chunk_infos[i].offset + diff;
  }''')])
refac('stts', 'C08', [(T, '''  entries->reserve(std::size(sample_durations));
  if (!std::empty(sample_durations)) {
    auto duration = sample_durations[0];
    std::uint32_t count = 1;
    for (std::size_t i = 1; i < std::size(sample_durations); ++i) {
      if (duration == sample_durations[i]) {
        ++count;
      } else {
        entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
        duration = sample_durations[i];
        count = 1;
      }
    }
    if (count > 0) {
      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
    }
  }''', '''  std::uint32_t count = 0;
  std::uint32_t duration = 0;
  for (const auto d : sample_durations) {
    if (count > 0 && d != duration) {
      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
      count = 0;
    }
    duration = d;
    ++count;
  }
  if (count > 0) {
    entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
  }''')])
refac('stts2', 'C08', [(T, '''  if (!std::empty(sample_durations)) {
    auto duration = sample_durations[0];
    std::uint32_t count = 1;
    for (std::size_t i = 1; i < std::size(sample_durations); ++i) {
      if (duration == sample_durations[i]) {
        ++count;
      } else {
        entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
        duration = sample_durations[i];
        count = 1;
      }
    }
    if (count > 0) {
      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
    }
  }''', '''  std::size_t begin = 0;
  while (begin < std::size(sample_durations)) {
    std::size_t end = begin + 1;
    while (end < std::size(sample_durations) && sample_durations[end] == sample_durations[begin]) {
      ++end;
    }
    entries->push_back(box::SttsEntry(
        {.sample_count = static_cast<std::uint32_t>(end - begin), .sample_duration = sample_durations[begin]}));
    begin = end;
  }''')])
refac('stts3', 'C08', [(T, '''  if (!std::empty(sample_durations)) {
    auto duration = sample_durations[0];
    std::uint32_t count = 1;
    for (std::size_t i = 1; i < std::size(sample_durations); ++i) {
      if (duration == sample_durations[i]) {
        ++count;
      } else {
        entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
        duration = sample_durations[i];
        count = 1;
      }
    }
    if (count > 0) {
      entries->push_back(box::SttsEntry({.sample_count = count, .sample_duration = duration}));
    }
  }''', '''  if (std::empty(sample_durations)) {
    return;
  }
  const auto flush = [entries](const std::uint32_t n, const std::uint32_t d) {
    entries->push_back(box::SttsEntry({.sample_count = n, .sample_duration = d}));
  };
  std::uint32_t duration = sample_durations.front();
  std::uint32_t count = 1;
  for (std::size_t i = 1; i < std::size(sample_durations); ++i) {
    const std::uint32_t next = sample_durations[i];
    if (next != duration) {
      flush(count, duration);
      duration = next;
      count = 0;
    }
    ++count;
  }
  flush(count, duration);''')])
refac('stsc', 'C08', [(T, '''  std::int64_t samples_per_chunk = -1;
  std::uint32_t chunk = 1;
  for (const auto& i : chunk_offsets) {
    if (samples_per_chunk != static_cast<std::int64_t>(i.number_of_samples)) {
      entries->push_back(box::StscEntry(
          {.first_chunk = chunk, .samples_per_chunk = i.number_of_samples, .sample_description_index = 1}));
      samples_per_chunk = static_cast<std::int64_t>(i.number_of_samples);
    }
    ++chunk;
  }''', '''  for (std::size_t i = 0; i < std::size(chunk_offsets); ++i) {
    const auto n = chunk_offsets[i].number_of_samples;
    if (i == 0 || n != chunk_offsets[i - 1].number_of_samples) {
      entries->push_back(box::StscEntry(
          {.first_chunk = static_cast<std::uint32_t>(i + 1), .samples_per_chunk = n, .sample_description_index = 1}));
    }
  }''')])
refac('stsc2', 'C08', [(T, '''  std::int64_t samples_per_chunk = -1;
  std::uint32_t chunk = 1;
  for (const auto& i : chunk_offsets) {
    if (samples_per_chunk != static_cast<std::int64_t>(i.number_of_samples)) {
      entries->push_back(box::StscEntry(
          {.first_chunk = chunk, .samples_per_chunk = i.number_of_samples, .sample_description_index = 1}));
      samples_per_chunk = static_cast<std::int64_t>(i.number_of_samples);
    }
    ++chunk;
  }''', '''  std::uint32_t chunk = 0;
  const ChunkInfo* prev = nullptr;
  for (const auto& info : chunk_offsets) {
    ++chunk;
    const bool same = prev != nullptr && prev->number_of_samples == info.number_of_samples;
    if (!same) {
      entries->push_back(box::StscEntry(
          {.first_chunk = chunk, .samples_per_chunk = info.number_of_samples, .sample_description_index = 1}));
    }
    prev = &info;
  }''')])
refac('offset-box', 'C08', [(T, '''  bool use_co64 = false;
  if (!std::empty(chunk_infos)) {
    auto last = chunk_infos.back();
    if (last.offset > (std::numeric_limits<std::uint32_t>::max())) {
      use_co64 = true;
    }
  }

  if (use_co64) {
    std::vector<std::uint64_t> chunk_offsets;
    std::transform(std::begin(chunk_infos), std::end(chunk_infos), std::back_inserter(chunk_offsets),
                   [](const auto e) { return e.offset; });
    return new box::Co64({.chunk_offsets = chunk_offsets});
  } else {
    std::vector<std::uint32_t> chunk_offsets;
    std::transform(std::begin(chunk_infos), std::end(chunk_infos), std::back_inserter(chunk_offsets),
                   [](const auto e) { return static_cast<std::uint32_t>(e.offset); });
    return new box::Stco({.chunk_offsets = chunk_offsets});
  }''', '''  const std::uint64_t max_stco_offset = std::numeric_limits<std::uint32_t>::max();
  if (std::empty(chunk_infos) || chunk_infos.back().offset <= max_stco_offset) {
    std::vector<std::uint32_t> chunk_offsets;
    chunk_offsets.reserve(std::size(chunk_infos));
    for (const auto& e : chunk_infos) {
      chunk_offsets.push_back(static_cast<std::uint32_t>(e.offset));
    }
    return new box::Stco({.chunk_offsets = chunk_offsets});
  }
  std::vector<std::uint64_t> chunk_offsets(std::size(chunk_infos));
  for (std::size_t i = 0; i < std::size(chunk_infos); ++i) {
    chunk_offsets[i] = chunk_infos[i].offset;
  }
  return new box::Co64({.chunk_offsets = chunk_offsets});''')])
refac('terminate', 'C08', [(T, '''  if (m_current_chunk_info.number_of_samples > 0) {
    m_chunk_infos.push_back(m_current_chunk_info);
    m_current_chunk_info = {.offset = 0, .number_of_samples = 0};
  }''', '''  if (m_current_chunk_info.number_of_samples == 0) {
    return;
  }
  m_chunk_infos.push_back(m_current_chunk_info);
  m_current_chunk_info = ChunkInfo{};''')])
N = 'src/track/h264.cpp'
refac('h264-find', 'C10', [(N, '''NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
''', '''static std::size_t get_start_code_size(const std::uint8_t* data, const std::size_t data_size, const std::size_t i) {
  if (i + 4 < data_size && data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 0 && data[i + 3] == 1) {
    return 4;
  }
  if (data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 1) {
    return 3;
  }
  return 0;
}

NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
'''), (N, '''    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
        data[index + 3] == 1) {
      if (!found) {
        found = true;
        start_code_size = 4;
        header = data[index + 4];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 4;
      continue;
    }
    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
      if (!found) {
        found = true;
        start_code_size = 3;
        header = data[index + 3];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 3;
      continue;
    }
    if (!found) {
      throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
    }
    ++index;''', '''    const std::size_t n = get_start_code_size(data, data_size, index);
    if (n != 0) {
      if (found) {
        return NalUnit{start_code_size, start, index, header};
      }
      found = true;
      start_code_size = n;
      header = data[index + n];
      index += n;
    } else {
      if (!found) {
        throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
      }
      ++index;
    }''')])
refac('h264-find2', 'C10', [(N, '''  auto index = start;
  std::size_t start_code_size;
  std::uint8_t header = 0;
  bool found = false;
  while (index + 3 < data_size) {
    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
        data[index + 3] == 1) {
      if (!found) {
        found = true;
        start_code_size = 4;
        header = data[index + 4];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 4;
      continue;
    }
    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
      if (!found) {
        found = true;
        start_code_size = 3;
        header = data[index + 3];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 3;
      continue;
    }
    if (!found) {
      throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
    }
    ++index;
  }
  if (!found) {
    throw std::runtime_error("nalunit not found");
  }
  return NalUnit{start_code_size, start, data_size, header};''', '''  if (start + 3 >= data_size) {
    throw std::runtime_error("nalunit not found");
  }
  const auto is_long = [&](const std::size_t i) {
    return i + 4 < data_size && data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 0 && data[i + 3] == 1;
  };
  const auto is_short = [&](const std::size_t i) { return data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 1; };

  std::size_t start_code_size = 4;
  if (!is_long(start)) {
    if (!is_short(start)) {
      throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
    }
    start_code_size = 3;
  }
  const std::uint8_t header = data[start + start_code_size];
  for (std::size_t index = start + start_code_size; index + 3 < data_size; ++index) {
    if (is_long(index) || is_short(index)) {
      return NalUnit{start_code_size, start, index, header};
    }
  }
  return NalUnit{start_code_size, start, data_size, header};''')])
refac('h264-add', 'C10', [(N, '''        video_data_size = nu.end - nu.start - nu.start_code_size;
        mdat_data = new std::uint8_t[video_data_size + 4];
        mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
        mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
        mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
        mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);

        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);

        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
        delete[] mdat_data;
        break;''', '''        mdat_data.reserve(unit_size + 4);
        for (int shift = 24; shift >= 0; shift -= 8) {
          mdat_data.push_back(static_cast<std::uint8_t>((unit_size >> shift) & 0xff));
        }
        mdat_data.insert(std::end(mdat_data), unit, unit + unit_size);
        Track::addMdatData(timestamp, mdat_data, is_key);
        break;'''), (N, '''    std::size_t video_data_size;
    std::uint8_t* mdat_data;
''', '''    std::vector<std::uint8_t> mdat_data;
    const std::uint8_t* unit = data + nu.start + nu.start_code_size;
    const std::size_t unit_size = nu.end - nu.start - nu.start_code_size;
'''), (N, '''        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
                    std::back_inserter(sps_data));
''', '''        sps_data.assign(unit, unit + unit_size);
'''), (N, '''        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
                    std::back_inserter(pps_data));
''', '''        std::copy(unit, unit + unit_size, std::back_inserter(pps_data));
'''), (N, '''    if (nu.end >= data_size) {
      return;
    }
    start = nu.end;
''', '''    start = nu.end;
    if (start >= data_size) {
      break;
    }
''')])
refac('h264-add2', 'C10', [(N, '''  std::size_t start = 0;
  while (1) {
    auto nu = find_next_nal_unit(data, data_size, start);''', '''  std::size_t start = 0;
  NalUnit nu;
  do {
    nu = find_next_nal_unit(data, data_size, start);'''), (N, '''    if (nu.end >= data_size) {
      return;
    }
    start = nu.end;
  }
}''', '''    start = nu.end;
  } while (nu.end < data_size);
}''')])
F = 'src/writer/faststart_writer.cpp'
refac('fs-copy', 'C11 C14', [(F, '''  while (!std::feof(m_mdat_fd)) {
    std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
    if (std::ferror(m_mdat_fd)) {''', '''  while (true) {
    const std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
    if (std::ferror(m_mdat_fd)) {'''), (F, '''          fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
    }
  }
''', '''          fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
    }
    if (std::feof(m_mdat_fd)) {
      break;
    }
  }
''')])
refac('fs-copy2', 'C11 C14', [(F, '''  while (!std::feof(m_mdat_fd)) {
    std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
    if (std::ferror(m_mdat_fd)) {
      throw std::runtime_error(fmt::format(
          "FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
    }
    m_os.write(buffer, static_cast<std::streamsize>(size));
    if (!m_os.good()) {
      throw std::runtime_error(
          fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
    }
  }
''', '''  std::size_t size = 0;
  while ((size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd)) > 0) {
    m_os.write(buffer, static_cast<std::streamsize>(size));
    if (!m_os.good()) {
      throw std::runtime_error(
          fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
    }
  }
  if (std::ferror(m_mdat_fd)) {
    throw std::runtime_error(fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}",
                                         m_mdat_path.string()));
  }
''')])
refac('fs-append', 'C11', [(F, '''  std::uint64_t prev_size = 0;
  std::uint64_t size = getFtypSize() + getMoovSize() + getMdatHeaderSize();
''', '''  const auto head_size = [this]() { return getFtypSize() + getMoovSize() + getMdatHeaderSize(); };
  std::uint64_t prev_size = 0;
  std::uint64_t size = head_size();
'''), (F, '''  do {
    spdlog::trace("  Fast''', '''  while (prev_size != size) {
    spdlog::trace("  Fast'''), (F, '''    size = getFtypSize() + getMoovSize() + getMdatHeaderSize();
    if (size''', '''    size = head_size();
    if (size'''), (F, '''  } while (prev_size != size);''', '''  }'''), (F, '''    for (auto t : tracks) {
      t->resetChunkOffsets(diff);
      t->appendTrakBoxInfo(getMoovBoxInfo());
    }''', '''    for (std::size_t i = 0; i < std::size(tracks); ++i) {
      auto* track = tracks[i];
      track->resetChunkOffsets(diff);
      track->appendTrakBoxInfo(m_moov_box_info);
    }''')])
refac('fs-mdat', 'C11', [(F, '''  if (m_mdat_data_size > (std::numeric_limits<std::uint32_t>::max() - 8)) {
    return Constants::LARGE_HEADER_SIZE;
  }
  return Constants::SMALL_HEADER_SIZE;''', '''  const bool small = m_mdat_data_size + Constants::SMALL_HEADER_SIZE <= std::numeric_limits<std::uint32_t>::max();
  return small ? Constants::SMALL_HEADER_SIZE : Constants::LARGE_HEADER_SIZE;'''), (F, '''  if (!m_moov_box_info) {
    return 0;
  }
  return m_moov_box_info->getSize();''', '''  return m_moov_box_info != nullptr ? m_moov_box_info->getSize() : 0;'''), (F, '''  if (m_moov_box_info) {
    delete m_moov_box_info;
  }

  m_moov''', '''  delete m_moov_box_info;

  m_moov'''), (F, '''  const auto mdat_header_size = getMdatHeaderSize();
  BoxHeader mdat({.offset = offset,
                  .size = m_mdat_data_size + mdat_header_size,
                  .header_size = mdat_header_size,
                  .type = BoxType("mdat")});
''', '''  BoxHeader mdat({.type = BoxType("mdat")});
  mdat.setOffsetAndDataSize(offset, m_mdat_data_size);
''')])
S = 'src/writer/simple_writer.cpp'
refac('sw-mdat', 'C11 C14', [(S, '''  if (m_mdat_data_size > (std::numeric_limits<std::uint32_t>::max() - 8)) {
    BoxHeader mdat({.offset = m_ftyp_size,
                    .size = m_mdat_data_size + Constants::LARGE_HEADER_SIZE,
                    .header_size = Constants::LARGE_HEADER_SIZE,
                    .type = BoxType("mdat")});
    mdat.write(m_os);
    if (!m_os.good()) {
      throw std::runtime_error(fmt::format(
          "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
    }
  } else {
    BoxInfo* free = new BoxInfo({.box = new box::Free()});
    free->adjustOffsetAndSize(m_ftyp_size);
    free->write(m_os);
    if (!m_os.good()) {
      throw std::runtime_error(fmt::format(
          "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
    }
    BoxHeader mdat({.offset = m_ftyp_size + free->getSize(),
                    .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                    .header_size = Constants::SMALL_HEADER_SIZE,
                    .type = BoxType("mdat")});
    delete free;
    mdat.write(m_os);
    if (!m_os.good()) {
      throw std::runtime_error(fmt::format(
          "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
    }
  }
''', '''  std::uint64_t offset = m_ftyp_size;
  const bool large = m_mdat_data_size > (std::numeric_limits<std::uint32_t>::max() - Constants::SMALL_HEADER_SIZE);
  if (!large) {
    auto free = std::make_unique<BoxInfo>(BoxInfoParameters{.box = new box::Free()});
    offset += free->adjustOffsetAndSize(offset);
    free->write(m_os);
  }
  const std::uint64_t header_size = large ? Constants::LARGE_HEADER_SIZE : Constants::SMALL_HEADER_SIZE;
  BoxHeader mdat({.offset = offset,
                  .size = m_mdat_data_size + header_size,
                  .header_size = header_size,
                  .type = BoxType("mdat")});
  mdat.write(m_os);
  if (!m_os.good()) {
    throw std::runtime_error(
        fmt::format("SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
  }
'''), (S, '#include <limits>\n', '#include <limits>\n#include <memory>\n')])
refac('sw-misc', 'C11 C14', [(S, '''  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});

  ftyp->adjustOffsetAndSize(0);
  ftyp->write(m_os);
  m_ftyp_size = ftyp->getSize();
  delete ftyp;
''', '''  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
  m_ftyp_size = ftyp.adjustOffsetAndSize(0);
  ftyp.write(m_os);
'''), (S, '''  const std::uint64_t offset = m_ftyp_size + Constants::LARGE_HEADER_SIZE + m_mdat_data_size;
  m_moov_box_info->adjustOffsetAndSize(offset);''', '''  const std::uint64_t mdat_end = m_mdat_data_size + m_ftyp_size + Constants::LARGE_HEADER_SIZE;
  getMoovBoxInfo()->adjustOffsetAndSize(mdat_end);'''), (S, '''  setOffsetAndSize();
  m_mvhd_box->setNextTrackID(m_next_track_id);
''', '''  m_mvhd_box->setNextTrackID(m_next_track_id);
  setOffsetAndSize();
''')])
D = 'src/reader/reader.cpp'
refac('reader', 'C12', [(D, '''  std::uint64_t rbytes = rbits / 8;
  m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));''', '''  std::uint64_t rbytes = rbits >> 3;
  const std::uint64_t data_offset = header->getOffset() + header->getHeaderSize();
  m_is.seekg(static_cast<std::streamoff>(data_offset + rbytes));'''), (D, '''  while (header->getDataSize() > rbytes) {
    rbytes += readBox(info);
  }
  if (rbytes > header->getDataSize()) {''', '''  const std::uint64_t data_size = header->getDataSize();
  for (; rbytes < data_size;) {
    const std::uint64_t leaf_size = readBox(info);
    rbytes = rbytes + leaf_size;
  }
  if (data_size < rbytes) {'''), (D, '''  std::string data(header->getDataSize(), '\\0');
  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));''', '''  std::string data;
  data.resize(header->getDataSize());
  m_is.read(&data[0], static_cast<std::streamsize>(header->getDataSize()));''')])
refac('reader2', 'C12', [(D, '''  const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
  if (header->getDataSize() > remaining_size) {''', '''  const auto data_offset = header->getOffset() + header->getHeaderSize();
  const auto remaining_size = m_total_size - data_offset;
  if (remaining_size < header->getDataSize()) {'''), (D, '''  Box* box = m_box_map.getBoxInstance(header);
  if (box == nullptr) {
    throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
  }
  BoxInfo* info = new BoxInfo({.parent = parent, .box = box});
  if (!parent) {
    m_boxes.push_back(info);
  }
''', '''  Box* box = m_box_map.getBoxInstance(header);
  if (!box) {
    throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
  }
  auto* info = new BoxInfo({.parent = parent, .box = box});
  if (parent == nullptr) {
    m_boxes.emplace_back(info);
  }
'''), (D, '''  std::uint64_t size = 0;
  while (size < m_total_size) {
    size += readBox(nullptr);
  }''', '''  for (std::uint64_t size = 0; size < m_total_size;) {
    size += readBox(nullptr);
  }''')])
M = 'src/box_map.cpp'
refac('map', 'C13', [(M, '''  auto vs = it->second->versions;
  if (std::empty(vs)) {
    return true;
  }
  return std::any_of(std::begin(vs), std::end(vs), [ver](const auto v) { return ver == v; });''', '''  const auto& vs = it->second->versions;
  return vs.empty() || std::find(vs.begin(), vs.end(), ver) != vs.end();'''), (M, '''  const auto it = m_map.find(type);
  Box* box;
  if (it == m_map.end()) {
    spdlog::debug("BoxMap::getBoxInstance(): box not found: {}", type.toString());
    box = new box::Unsupported();
  } else {
    box = it->second->factory();
    auto any_type_box = dynamic_cast<AnyTypeBox*>(box);
    if (any_type_box != nullptr) {
      any_type_box->setType(type);
    }
  }

  return box;''', '''  const auto it = m_map.find(type);
  if (it == m_map.end()) {
    spdlog::debug("BoxMap::getBoxInstance(): box not found: {}", type.toString());
    return new box::Unsupported();
  }
  Box* box = it->second->factory();
  if (auto* any_type_box = dynamic_cast<AnyTypeBox*>(box); any_type_box) {
    any_type_box->setType(type);
  }
  return box;''')])
refac('map2', 'C13', [(M, '''  auto vs = it->second->versions;
  if (std::empty(vs)) {
    return true;
  }
  return std::any_of(std::begin(vs), std::end(vs), [ver](const auto v) { return ver == v; });''', '''  const std::vector<std::uint8_t>& vs = it->second->versions;
  if (vs.size() == 0) {
    return true;
  }
  for (const auto v : vs) {
    if (v == ver) {
      return true;
    }
  }
  return false;'''), (M, 'return m_map.contains(box_type);', 'return m_map.find(box_type) != m_map.end();'), ('src/box.cpp', '''  m_flags[0] = static_cast<std::uint8_t>((flag >> 16) & 0xff);
  m_flags[1] = static_cast<std::uint8_t>((flag >> 8) & 0xff);
  m_flags[2] = static_cast<std::uint8_t>(flag & 0xff);''', '''  for (std::size_t i = 0; i < std::size(m_flags); ++i) {
    m_flags[i] = static_cast<std::uint8_t>(flag >> (8 * (2 - i)));
  }'''), ('src/box.cpp', '''  std::uint32_t flag = static_cast<std::uint32_t>(m_flags[0]) << 16;
  flag |= static_cast<std::uint32_t>(m_flags[1]) << 8;
  flag |= static_cast<std::uint32_t>(m_flags[2]);
  return flag;''', '''  std::uint32_t flag = 0;
  for (const auto f : m_flags) {
    flag = (flag << 8) | f;
  }
  return flag;'''), ('src/box_type.cpp', '''  const auto boxTypeAny = box_type_any();
  if (*this == boxTypeAny || other == boxTypeAny) {
    return true;
  }
  return *this == other;''', '''  const auto any = box_type_any();
  return *this == other || *this == any || other == any;''')])
