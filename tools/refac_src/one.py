B = 'src/bitio/bitio.cpp'
H = 'include/shiguredo/mp4/bitio/bitio.hpp'
refac('bits-reader', 'C01 C14', [('src/bitio/reader.cpp', '''  for (std::uint64_t i = 0; i < size; ++i) {
    auto bit = readBit();
    auto byte_index = (offset + i) >> 3;
    auto bit_index = 7 - (offset + i) % 8;
    if (bit) {
      (*data)[byte_index] |= (0x1 << bit_index);
    }
  }''', '''  for (std::uint64_t i = offset; i < offset + size; ++i) {
    if (readBit()) {
      std::uint8_t& octet = (*data)[i / 8];
      octet = static_cast<std::uint8_t>(octet | (0x80 >> (i % 8)));
    }
  }'''), ('src/bitio/reader.cpp', '''  data->resize(bytes);
  std::fill(std::begin(*data), std::end(*data), 0);
''', '''  data->assign(bytes, 0);
''')])
refac('bits-reader2', 'C01 C14', [('src/bitio/reader.cpp', '''  m_width--;
  return ((m_octet >> m_width) & 0x01) != 0;''', '''  --m_width;
  const std::uint8_t mask = static_cast<std::uint8_t>(1 << m_width);
  return (m_octet & mask) != 0;'''), ('src/bitio/reader.cpp', '''    char buf[1];
    m_is.read(buf, 1);
''', '''    char c = 0;
    m_is.read(&c, 1);
'''), ('src/bitio/reader.cpp', 'm_octet = static_cast<std::uint8_t>(buf[0]);', 'm_octet = static_cast<std::uint8_t>(c);')])
refac('bits-writer', 'C01 C14', [('src/bitio/writer.cpp', '''  auto length = std::size(data) * 8;
  auto offset = length - width;
  for (auto i = offset; i < length; ++i) {
    auto oi = i >> 3;
    writeBit(((data[oi] >> (7 - i % 8)) & 0x01) != 0);
  }''', '''  std::uint64_t rest = width;
  while (rest > 0) {
    const std::uint64_t i = std::size(data) * 8 - rest;
    const std::uint8_t octet = data[i / 8];
    writeBit((octet & (0x80 >> (i % 8))) != 0);
    --rest;
  }'''), ('src/bitio/writer.cpp', '''    char data[1] = {static_cast<char>(m_octet)};
    m_os.write(data, 1);
''', '''    const char c = static_cast<char>(m_octet);
    m_os.write(&c, 1);
''')])
refac('write-uint', 'C01 C14', [(H, '''  std::uint64_t wbits = 0;
  for (std::uint64_t i = 0; i < size; i += 8) {
    T v = val;
    std::uint64_t s = 8;
    if (size > i + 8) {
      v = v >> (size - (i + 8));
    } else if (size < i + 8) {
      s = size - i;
    }
    std::vector<std::uint8_t> data{static_cast<std::uint8_t>(v)};
    writer->writeBits(data, s);
    wbits += s;
  }
  return wbits;''', '''  std::uint64_t rest = size;
  while (rest > 0) {
    const std::uint64_t n = rest < 8 ? rest : 8;
    rest -= n;
    const std::uint64_t up = size - rest;
    T v = val;
    if (up % 8 == 0 && rest > 0) {
      v = static_cast<T>(v >> rest);
    }
    writer->writeBits({static_cast<std::uint8_t>(v)}, n);
  }
  return size;''')])
refac('read-uint', 'C01 C14', [(H, '''  reader->readBits(&data, size);

  std::uint64_t val = 0;
  for (auto b : data) {
    val <<= 8;
    val |= static_cast<std::uint64_t>(b);
  }
  *var = static_cast<T>(val);
  return size;
}

std::uint64_t write_string''', '''  reader->readBits(&data, size);

  std::uint64_t val = 0;
  for (std::size_t i = 0; i < data.size(); ++i) {
    val = (val << 8) + data[i];
  }
  *var = static_cast<T>(val);
  return size;
}

std::uint64_t write_string''')])
refac('strings', 'C01 C14', [(B, '''  std::uint64_t wbits = 0;
  for (auto c : str) {
    std::vector<std::uint8_t> v{static_cast<std::uint8_t>(c)};
    writer->writeBits(v, 8);
    wbits += 8;
  }
  std::vector<std::uint8_t> v{0x00};
  writer->writeBits(v, 8);
  wbits += 8;
  return wbits;''', '''  for (std::size_t i = 0; i < str.size(); ++i) {
    write_uint<std::uint8_t>(writer, static_cast<std::uint8_t>(str[i]));
  }
  write_uint<std::uint8_t>(writer, 0);
  return (str.size() + 1) * 8;'''), (B, '''  std::uint64_t rbits = 0;
  str->clear();
  while (rbits < max_rbits) {
    std::vector<std::uint8_t> v;
    reader->readBits(&v, 8);
    rbits += 8;
    if (v[0] == 0x00) {
      break;
    }
    *str += static_cast<char>(v[0]);
  }
  return rbits;''', '''  str->clear();
  std::uint64_t rbits = 0;
  bool terminated = false;
  while (!terminated && rbits < max_rbits) {
    std::uint8_t c;
    rbits += read_uint<std::uint8_t>(reader, &c);
    if (c == 0x00) {
      terminated = true;
    } else {
      str->push_back(static_cast<char>(c));
    }
  }
  return rbits;''')])
refac('pascal', 'C01 C14', [(B, '''std::uint64_t write_pascal_string(Writer* writer, const std::string& str) {
  std::size_t size = std::size(str);
  if (size > 0xff) {
    throw std::runtime_error("bitio::write_pascal_string(): size of pascal string should be equal or less than 0xff");
  }
  std::uint64_t wbits = 0;
  std::vector<std::uint8_t> v{static_cast<std::uint8_t>(size)};
  writer->writeBits(v, 8);
  wbits += 8;
  for (auto c : str) {
    std::vector<std::uint8_t> vec{static_cast<std::uint8_t>(c)};
    writer->writeBits(vec, 8);
    wbits += 8;
  }
  return wbits;
''', '''static std::uint64_t write_octet(Writer* writer, const std::uint8_t octet) {
  std::vector<std::uint8_t> v{octet};
  writer->writeBits(v, 8);
  return 8;
}

std::uint64_t write_pascal_string(Writer* writer, const std::string& str) {
  const std::size_t size = str.size();
  if (size >= 0x100) {
    throw std::runtime_error("bitio::write_pascal_string(): size of pascal string should be equal or less than 0xff");
  }
  std::uint64_t wbits = write_octet(writer, static_cast<std::uint8_t>(size));
  for (const char& c : str) {
    wbits += write_octet(writer, static_cast<std::uint8_t>(c));
  }
  return wbits;
'''), (B, '''  std::uint64_t rbits = 0;
  str->clear();
  while (rbits < v[0] * 8) {
    std::vector<std::uint8_t> vec;
    reader->readBits(&vec, 8);
    rbits += 8;
    *str += static_cast<char>(vec[0]);
  }
  return rbits + 8;''', '''  str->clear();
  const std::size_t size = v[0];
  for (std::size_t i = 0; i < size; ++i) {
    std::vector<std::uint8_t> vec;
    reader->readBits(&vec, 8);
    str->push_back(static_cast<char>(vec[0]));
  }
  return (size + 1) * 8;''')])
refac('vector-uint', 'C01 C02 C03 C04 C14', [(H, '''  for (const auto c : v) {
    wbits += write_uint<T>(writer, c);
  }''', '''  for (std::size_t i = 0; i < std::size(v); ++i) {
    wbits += write_uint<T>(writer, v[i]);
  }'''), (H, '''  v->resize(size);
  for (std::size_t i = 0; i < size; ++i) {
    rbits += read_uint<T>(reader, &((*v)[i]));
  }''', '''  v->resize(size);
  for (T& e : *v) {
    rbits += read_uint<T>(reader, &e);
  }''')])
refac('uvarint', 'C01 C02 C04 C14', [(H, '''  std::uint64_t val = static_cast<std::uint64_t>(u);
  for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
    std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
    if (i > 0) {
      data |= 0x80;
    }
    std::vector<std::uint8_t> v{data};
    writer->writeBits(v, 8);
  }
''', '''  const std::uint64_t val = static_cast<std::uint64_t>(u);
  for (std::size_t i = sizeof(u); i > 0; --i) {
    const std::uint8_t more = i > 1 ? 0x80 : 0x00;
    const std::uint8_t data = static_cast<std::uint8_t>((val >> (7 * (i - 1))) & 0x7f);
    writer->writeBits({static_cast<std::uint8_t>(data | more)}, 8);
  }
'''), (H, '''  while (true) {
    std::vector<std::uint8_t> v;
    reader->readBits(&v, 8);
    rbits += 8;
    val = (val << 7) + static_cast<T>(v[0] & 0x7f);
    if ((v[0] & 0x80) == 0) {
      *var = val;
      return rbits;
    }
  }
''', '''  std::uint8_t octet;
  do {
    rbits += read_uint<std::uint8_t>(reader, &octet);
    val = static_cast<T>(val << 7) | static_cast<T>(octet & 0x7f);
  } while ((octet & 0x80) != 0);
  *var = val;
  return rbits;
''')])
refac('header-read', 'C06 C12 C14', [('src/box_header.cpp', '''BoxHeader* read_box_header(std::istream& is) {
  const auto pos = is.tellg();
  if (!is.good() || pos == std::istream::pos_type(-1)) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
  }
  const std::uint64_t offset = static_cast<std::uint64_t>(pos);
  is.seekg(0, std::ios_base::end);
  if (!is.good()) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
  }
  const auto pos_eof = is.tellg();
  if (!is.good() || pos_eof == std::istream::pos_type(-1)) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
  }
  const auto offset_eof = static_cast<std::uint64_t>(pos_eof);
''', '''namespace {

std::uint64_t tell(std::istream& is) {
  const auto pos = is.tellg();
  if (!is.good() || pos == std::istream::pos_type(-1)) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
  }
  return static_cast<std::uint64_t>(pos);
}

void seek(std::istream& is, const std::uint64_t offset, const std::ios_base::seekdir way) {
  is.seekg(static_cast<std::streamoff>(offset), way);
  if (!is.good()) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
  }
}

void read_octets(std::istream& is, std::array<std::uint8_t, 8>* buf) {
  is.read(reinterpret_cast<char*>(buf->data()), static_cast<std::streamsize>(buf->size()));
  if (!is.good()) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
  }
}

}  // namespace

BoxHeader* read_box_header(std::istream& is) {
  const std::uint64_t offset = tell(is);
  seek(is, 0, std::ios_base::end);
  const std::uint64_t offset_eof = tell(is);
'''), ('src/box_header.cpp', '''  is.seekg(static_cast<std::streamoff>(offset), std::ios_base::beg);
  if (!is.good()) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
  }
  std::array<std::uint8_t, 8> buf;
  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
  if (!is.good()) {
    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
  }
''', '''  seek(is, offset, std::ios_base::beg);
  std::array<std::uint8_t, 8> buf;
  read_octets(is, &buf);
'''), ('src/box_header.cpp', '''    is.seekg(static_cast<std::streamoff>(offset + Constants::SMALL_HEADER_SIZE), std::ios_base::beg);
    if (!is.good()) {
      throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
    }
    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
    if (!is.good()) {
      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
    }
''', '''    seek(is, offset + Constants::SMALL_HEADER_SIZE, std::ios_base::beg);
    read_octets(is, &buf);
''')])
refac('header-write', 'C06 C14', [('src/box_header.cpp', '''    data.resize(Constants::SMALL_HEADER_SIZE);
    data[0] = 0;
    data[1] = 0;
    data[2] = 0;
    data[3] = 0;
  }''', '''    data = {0, 0, 0, 0};
  }'''), ('src/box_header.cpp', '''    data.resize(Constants::SMALL_HEADER_SIZE);
    auto a = endian::uint32_to_be(static_cast<std::uint32_t>(m_size));
    std::copy(std::begin(a), std::end(a), std::begin(data));
  } else {
    data.resize(Constants::LARGE_HEADER_SIZE);
    data[0] = 0;
    data[1] = 0;
    data[2] = 0;
    data[3] = 1;
    auto a = endian::uint64_to_be(m_size);
    std::copy(std::begin(a), std::end(a), std::begin(data) + 8);
  }
  const auto type_data = m_type.getData();
  data[4] = type_data[0];
  data[5] = type_data[1];
  data[6] = type_data[2];
  data[7] = type_data[3];
''', '''    const auto a = endian::uint32_to_be(static_cast<std::uint32_t>(m_size));
    data.assign(std::begin(a), std::end(a));
  } else {
    data = {0, 0, 0, 1};
    large = true;
  }
  for (const auto c : m_type.getData()) {
    data.push_back(c);
  }
  if (large) {
    const auto a = endian::uint64_to_be(m_size);
    data.insert(std::end(data), std::begin(a), std::end(a));
  }
'''), ('src/box_header.cpp', '  std::vector<std::uint8_t> data;\n', '  std::vector<std::uint8_t> data;\n  bool large = false;\n')])
refac('header-misc', 'C06 C07 C14', [('src/box_header.cpp', '''  m_offset = t_offset;
  if (t_data_size > (std::numeric_limits<std::uint32_t>::max() - Constants::SMALL_HEADER_SIZE)) {
    m_header_size = Constants::LARGE_HEADER_SIZE;
  } else {
    m_header_size = Constants::SMALL_HEADER_SIZE;
  }
  m_size = t_data_size + m_header_size;''', '''  const std::uint64_t limit = std::numeric_limits<std::uint32_t>::max() - Constants::SMALL_HEADER_SIZE;
  m_header_size = t_data_size <= limit ? Constants::SMALL_HEADER_SIZE : Constants::LARGE_HEADER_SIZE;
  m_size = m_header_size + t_data_size;
  m_offset = t_offset;'''), ('src/endian/endian.cpp', '''  return (static_cast<std::uint32_t>(d0) << 24) + (static_cast<std::uint32_t>(d1) << 16) +
         (static_cast<std::uint32_t>(d2) << 8) + (static_cast<std::uint32_t>(d3));''', '''  std::uint32_t val = 0;
  for (const std::uint8_t d : {d0, d1, d2, d3}) {
    val = (val << 8) | d;
  }
  return val;'''), ('src/endian/endian.cpp', '''  return std::array<std::uint8_t, 4>{static_cast<std::uint8_t>((i >> 24) & 0xff),
                                     static_cast<std::uint8_t>((i >> 16) & 0xff),
                                     static_cast<std::uint8_t>((i >> 8) & 0xff), static_cast<std::uint8_t>((i)&0xff)};''', '''  std::array<std::uint8_t, 4> a{};
  for (std::size_t n = 0; n < std::size(a); ++n) {
    a[n] = static_cast<std::uint8_t>(i >> (8 * (3 - n)));
  }
  return a;''')])
refac('tree', 'C07 C14', [('src/box_info.cpp', '''  std::uint64_t leafs_size = 0;
  const std::uint64_t header_size = m_box->getHeaderSize();
  const std::uint64_t data_size = m_box->getDataSize();
  for (auto l : m_leafs) {
    leafs_size += l->adjustOffsetAndSize(offset + header_size + data_size + leafs_size);
  }

  m_box->setOffsetAndDataSize(offset, data_size + leafs_size);
''', '''  const std::uint64_t header_size = m_box->getHeaderSize();
  const std::uint64_t begin = offset + header_size;
  std::uint64_t pos = begin + m_box->getDataSize();
  for (auto l : m_leafs) {
    pos += l->adjustOffsetAndSize(pos);
  }

  m_box->setOffsetAndDataSize(offset, pos - begin);
'''), ('src/box_info.cpp', '''  for (auto l : m_leafs) {
    l->write(os);
  }''', '''  for (std::size_t i = 0; i < std::size(m_leafs); ++i) {
    m_leafs[i]->write(os);
  }''')])
refac('tree2', 'C07 C14', [('src/box_info.cpp', '''  if (header_size != m_box->getHeaderSize()) {
    adjustOffsetAndSize(offset);
  }
  return m_box->getSize();''', '''  const bool settled = header_size == m_box->getHeaderSize();
  return settled ? m_box->getSize() : adjustOffsetAndSize(offset);'''), ('src/box_info.cpp', '''  for (auto l : m_leafs) {
    leafs_size += l->adjustOffsetAndSize(offset + header_size + data_size + leafs_size);
  }
''', '''  for (auto it = m_leafs.begin(); it != m_leafs.end(); ++it) {
    const std::uint64_t leaf_offset = offset + header_size + data_size + leafs_size;
    leafs_size += (*it)->adjustOffsetAndSize(leaf_offset);
  }
'''), ('src/box_info.cpp', '''  for (auto l : m_leafs) {
    l->write(os);
  }''', '''  std::for_each(std::begin(m_leafs), std::end(m_leafs), [&os](const BoxInfo* l) { l->write(os); });''')])
