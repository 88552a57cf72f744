"""(name, properties, is a bug, [(file, old text, new text)...])"""
PK='netcode/detail/packetizer.hh'; EN='netcode/encoder.hh'; DE='netcode/decoder.hh'; DC='netcode/detail/decoder.cc'; DH='netcode/detail/decoder.hh'
DI='netcode/dispatch.hh'; PT='netcode/detail/packet_type.hh'
MUTS = [
('c01-readsize', ['C01'], 1, [(PK, 'if (max_len < sizeof(T))', 'if (max_len + 1 < sizeof(T))')]),
('c01-src-short16', ['C01'], 1, [(PK, '''    if (max_len < symbol_size)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    return''', '''    if (static_cast<std::uint8_t>(max_len - symbol_size) > max_len)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    return''')]),
('c01-src-plus7', ['C01'], 1, [(PK, '''    if (max_len < symbol_size)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    return''', '''    if (p.size() < symbol_size)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    return''')]),
('c01-nodec', ['C01'], 1, [(PK, '    max_len -= sizeof(T);', '')]),
('c01-consumed', ['C01'], 1, [(PK, '''decoder_source{id, std::move(p), symbol_size}
                         , reinterpret_cast<std::size_t>(data) - begin)''', '''decoder_source{id, std::move(p), symbol_size}
                         , reinterpret_cast<std::size_t>(data) - begin + 1)''')]),
('c01-type-empty', ['C01','C03'], 1, [(PT, 'if (p.size() == 0)', 'if (p.size() == 0 and false)')]),
('c04-u8', ['C04'], 1, [(PK, 'write<std::uint16_t>(src.symbol().size());', 'write<std::uint16_t>(static_cast<std::uint8_t>(src.symbol().size()));')]),
('c04-ackcount', ['C04'], 1, [(PK, 'write<std::uint16_t>(a.nb_packets());', 'write<std::uint16_t>(std::min<std::uint16_t>(a.nb_packets(), 255));')]),
('c04-encsz', ['C04'], 1, [(PK, 'write<std::uint16_t>(r.encoded_size());', 'write<std::uint16_t>(r.encoded_size() & 0x7fff);')]),
('c04-native', ['C04'], 1, [(PK, 'const auto res = boost::endian::big_to_native(tmp);', 'const auto res = tmp;')]),
('c05-lim', ['C05'], 1, [(PK, 'run_length < std::numeric_limits<std::uint8_t>::max()', 'run_length <= std::numeric_limits<std::uint8_t>::max()')]),
('c05-eq', ['C05'], 1, [(PK, '*cit == *std::next(cit)', '*cit >= *std::next(cit)')]),
('c05-readj', ['C05'], 1, [(PK, 'for (auto j = 0u; j < run_length; ++j)', 'for (auto j = 0u; j < (run_length & 0x7fu); ++j)')]),
('c05-readval', ['C05'], 1, [(PK, 'const auto value = read<std::uint16_t>(data, max_len);', 'const std::uint8_t value = read<std::uint16_t>(data, max_len);')]),
('c05-noclear', ['C05'], 1, [(PK, '''    source_id_list ids;

    m_difference_buffer.clear();''', '''    source_id_list ids;
''')]),
('c05-first16', ['C05'], 1, [(PK, 'write<std::uint32_t>(*ids.begin());', 'write<std::uint32_t>(static_cast<std::uint16_t>(*ids.begin()));')]),
('c06-nbsent', ['C06'], 1, [(EN, """      ++m_nb_acks;
      const auto res""", """      ++m_nb_acks;
      const auto sent = m_nb_sent_packets;
      m_nb_sent_packets = 0;
      const auto res"""), (EN, "m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets)", "sent - res.first.nb_packets()) / static_cast<double>(sent)"), (EN, "if (m_nb_sent_packets > 0)", "if (sent > 0)"), (EN, """      m_nb_sent_packets = 0;
      m_sources""", """      m_sources""")]),
('c06-maybeack', ['C06'], 1, [(DE, """        ++m_nb_received_repairs;
        ++m_ack.nb_packets();""", """        ++m_nb_received_repairs;
        ++m_ack.nb_packets();
        maybe_ack();""")]),
('c06-catch', ['C06'], 1, [(DE, """        auto res = m_packetizer.read_source(std::move(p));""", """        m_ack_nb_packets = std::min<std::uint16_t>(m_ack_nb_packets, 100);
        auto res = m_packetizer.read_source(std::move(p));""")]),
('c03-read0', ['C03'], 1, [(PT, "    case 2:\n", "    case 2: case 130:\n")]),
('c03-disp', ['C03'], 1, [(DI, "case ntc::detail::packet_type::ack:\n    {", "case ntc::detail::packet_type::ack:\n    {\n      if (p.size() == 5) return decoder(std::move(p));")]),
# refactorings
('r-count-after', ['C06','C03','C01'], 0, [(DE, """        ++m_nb_received_repairs;
        ++m_ack.nb_packets();
        auto res = m_packetizer.read_repair(std::move(p));
""", """        auto res = m_packetizer.read_repair(std::move(p));
        m_nb_received_repairs += 1;
        ++m_ack.nb_packets();
""")]),
('r-notify-split', ['C06','C03','C01'], 0, [(DE, """        ++m_nb_received_repairs;
        ++m_ack.nb_packets();
        auto res = m_packetizer.read_repair(std::move(p));
        m_decoder(std::move(res.first));
        return res.second;
""", """        return on_repair(std::move(p));
"""), (DE, """  /// @brief Callback given""", """  std::size_t on_repair(packet&& p)
  {
    ++m_nb_received_repairs;
    ++m_ack.nb_packets();
    std::pair<detail::decoder_repair, std::size_t> res = m_packetizer.read_repair(std::move(p));
    m_decoder(std::move(res.first));
    const auto nb = res.second;
    return nb;
  }

  /// @brief Callback given""")]),
('r-read-helper', ['C01','C03','C04','C05'], 0, [(PK, '''    if (max_len < sizeof(T))
    {
      throw overflow_error{};
    }
    // A''', '''    ensure(max_len, sizeof(T));
    // A'''), (PK, '''  /// @brief Convenient method to read data and''', '''  static void ensure(std::size_t left, std::size_t wanted)
  {
    if (not (left >= wanted)) throw overflow_error{};
  }

  /// @brief Convenient method to read data and''')]),
('r-read-memcpy', ['C01','C03','C04','C05'], 0, [(PK, 'std::copy_n(data, sizeof(T), reinterpret_cast<char*>(&tmp));', 'std::memcpy(&tmp, data, sizeof(T));'), (PK, '#include <cassert>', '#include <cassert>\n#include <cstring>')]),
('r-skip-helper', ['C01','C04'], 0, [(PK, '''    if (max_len < symbol_size)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    // Read source''', '''    skip(data, max_len, symbol_size);

    // Read source'''), (PK, '''    if (max_len < symbol_size)
    {
      throw overflow_error{};
    }
    max_len -= symbol_size;
    data += symbol_size;

    return''', '''    skip(data, max_len, symbol_size);
    return'''), (PK, '''  /// @brief Convenient method to read data and''', '''  static void skip(const char*& d, std::size_t& m, std::size_t n)
  {
    if (n > m) { throw overflow_error{}; }
    d += n; m -= n;
  }

  /// @brief Convenient method to read data and''')]),
('r-consumed', ['C01','C04'], 0, [(PK, '''    return std::make_pair( decoder_source{id, std::move(p), symbol_size}
                         , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.''', '''    const std::size_t nb_read = reinterpret_cast<std::size_t>(data) - begin;
    return {decoder_source{id, std::move(p), symbol_size}, nb_read};''')]),
('r-rle-for', ['C05','C01'], 0, [(PK, '''    for (const auto& pair : m_rle_buffer)
    {''', '''    for (std::size_t i = 0; i < m_rle_buffer.size(); ++i)
    {
      const auto& pair = m_rle_buffer[i];''')]),
('r-rle-read-while', ['C05','C01'], 0, [(PK, '''      for (auto j = 0u; j < run_length; ++j)
      {
        m_difference_buffer.push_back(value);
      }''', '''      auto left = run_length;
      while (left > 0)
      {
        m_difference_buffer.push_back(value);
        --left;
      }''')]),
('r-rle-insert', ['C05','C01'], 0, [(PK, '''      for (auto j = 0u; j < run_length; ++j)
      {
        m_difference_buffer.push_back(value);
      }''', '''      m_difference_buffer.insert(m_difference_buffer.end(), run_length, value);''')]),
('r-rle-first', ['C05','C01'], 0, [(PK, '''    auto cit = std::next(m_difference_buffer.begin());
    const auto end = m_difference_buffer.end();
''', '''    auto cit = m_difference_buffer.cbegin() + 1;
    const auto end = m_difference_buffer.cend();
''')]),
('r-rle-loop', ['C05'], 0, [(PK, '''    while (cit != end)
    {
      std::uint8_t run_length = 1;
      while ( std::next(cit) != end and *cit == *std::next(cit)
              // We limit a run length to make it fit in 8 bits.
              and run_length < std::numeric_limits<std::uint8_t>::max())
      {
        ++run_length;
        ++cit;
      }
      m_rle_buffer.emplace_back(run_length, *cit);
      ++cit;
    }''', '''    for (; cit != end; ++cit)
    {
      std::uint8_t run_length = 1;
      for (auto nx = std::next(cit); nx != end and *cit == *nx and run_length < 255; ++nx)
      {
        ++run_length;
        ++cit;
      }
      m_rle_buffer.push_back(std::make_pair(run_length, static_cast<std::uint16_t>(*cit)));
    }''')]),
('r-rle-partial', ['C05','C01'], 0, [(PK, '''    std::partial_sum( m_difference_buffer.begin(), m_difference_buffer.end()
                    , std::inserter(ids, ids.end()));''', '''    std::uint32_t sum = 0;
    for (const auto diff : m_difference_buffer)
    {
      sum += diff;
      ids.insert(ids.end(), sum);
    }''')]),
('r-disp-if', ['C03','C01'], 0, [(DE, 'switch (detail::get_packet_type(p))', 'const auto ty = detail::get_packet_type(p);\n    switch (ty)')]),
('r-ack-first', ['C03','C01'], 0, [(EN, '''    if (detail::get_packet_type(p) != detail::packet_type::ack)
    {
      throw packet_type_error{p};
    }
    else
    {''', '''    const auto ty = detail::get_packet_type(p);
    if (ty == detail::packet_type::repair or ty == detail::packet_type::source)
    {
      throw packet_type_error{p};
    }
    {''')]),
]
SL='netcode/detail/source_list.hh'
MUTS += [
('c15-evict-if', ['C15'], 1, [(EN, 'while (m_sources.size() > 0 and m_sources.size() >= m_window_size)', 'if (m_sources.size() > 0 and m_sources.size() >= m_window_size)')]),
('c15-gt', ['C15'], 1, [(EN, 'm_sources.size() >= m_window_size)', 'm_sources.size() > m_window_size)')]),
('c15-early', ['C15'], 1, [(EN, 'm_sources.size() >= m_window_size)', 'm_sources.size() + 1 >= m_window_size)')]),
('c15-erase-ge', ['C15'], 0, [(SL, 'else if (source_it->id() > *id_cit)', 'else if (source_it->id() + 1 > *id_cit)')]),
('c15-erase-skip', ['C15'], 1, [(SL, """        source_it = m_sources.erase(source_it);
        ++id_cit;""", """        source_it = m_sources.erase(source_it);
        ++id_cit;
        if (id_cit != id_end) ++id_cit;""")]),
('c15-erase-upto', ['C15'], 1, [(SL, """        ++source_it;
      }""", """        source_it = m_sources.erase(source_it);
      }""")]),
('c15-erase-front', ['C15'], 1, [(SL, """        // We can safely ignore it.
        ++id_cit;""", """        // We can safely ignore it.
        ++id_cit;
        ++source_it;""")]),
('c15-ack-adaptive', ['C15'], 1, [(EN, '      m_sources.erase(begin(', '      if (not m_adaptive or res.first.nb_packets() > 0) m_sources.erase(begin(')]),
('c15-ack-pop', ['C15'], 1, [(EN, '      return res.second;\n', '      if (m_sources.size() > m_window_size) m_sources.pop_front();\n      return res.second;\n')]),
('c16-rid', ['C16'], 1, [(EN, '    m_repair.id() = m_current_repair_id;', '    if (m_repair.id() < m_current_repair_id) m_repair.id() = m_current_repair_id;')]),
('c16-late', ['C16'], 1, [(EN, """    ++m_current_repair_id;
    ++m_nb_sent_repairs;
""", """    ++m_nb_sent_repairs;
    if (m_code_type == systematic::yes or m_sources.size() > 1) ++m_current_repair_id;
""")]),
('c16-nosys', ['C16'], 1, [(EN, """    ++m_current_source_id;
  }""", """    if (m_code_type == systematic::yes) ++m_current_source_id;
  }""")]),
('c16-setcode', ['C16'], 1, [(EN, """    m_code_type = c;
    return""", """    if (m_code_type != c) m_current_repair_id = 0;
    m_code_type = c;
    return""")]),
('c16-count', ['C16'], 1, [(EN, """    ++m_current_repair_id;
    ++m_nb_sent_repairs;
""", """    m_nb_sent_repairs = ++m_current_repair_id;
""")]),
('c17-rate', ['C17'], 1, [(EN, 'if ((m_current_source_id + 1) % m_rate == 0)', 'if (m_code_type == systematic::yes and (m_current_source_id + 1) % m_rate == 0)')]),
('c17-nosent', ['C17'], 1, [(EN, 'if ((m_current_source_id + 1) % m_rate == 0)', 'if ((m_nb_sent_sources + 1) % m_rate == 0)')]),
('c17-evict', ['C17'], 1, [(EN, 'if ((m_current_source_id + 1) % m_rate == 0)', 'if ((m_current_source_id + 1) % m_rate == 0 and m_sources.size() > 1)')]),
('c18-noguard', ['C18'], 1, [(EN, 'if (m_nb_sent_packets > 0)', 'if (true)')]),
('c18-third', ['C18'], 1, [(EN, 'ceil((1/loss)/2)', 'ceil((1/loss)/3)')]),
('c18-floor', ['C18'], 1, [(EN, 'ceil((1/loss)/2)', 'floor((1/loss)/2)')]),
('c18-unsigned', ['C18'], 1, [(EN, '(m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>', 'static_cast<std::uint16_t>(m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>')]),
('c18-noreset', ['C18'], 1, [(EN, """      m_nb_sent_packets = 0;
      m_sources""", """      if (m_adaptive) m_nb_sent_packets = 0;
      m_sources""")]),
('c18-nocount', ['C18'], 1, [(EN, """    mk_repair();
    ++m_nb_sent_packets;""", """    mk_repair();
    if (m_code_type == systematic::yes) ++m_nb_sent_packets;""")]),
('c18-thresh', ['C18'], 1, [(EN, 'loss < 0.01', 'loss < 0.0')]),
('r15-helper', ['C15','C16','C17','C18'], 0, [(EN, """    while (m_sources.size() > 0 and m_sources.size() >= m_window_size)
    {
      m_sources.pop_front();
    }
""", """    make_room();
"""), (EN, """  std::size_t
  notify_impl(packet&& p)""", """  void
  make_room()
  {
    for (auto n = m_sources.size(); n >= m_window_size and n > 0; --n)
    {
      m_sources.pop_front();
    }
  }

  std::size_t
  notify_impl(packet&& p)""")]),
('r15-erase', ['C15'], 0, [(SL, """      if (source_it->id() == *id_cit)
      {
        // We found an identifier to erase.
        source_it = m_sources.erase(source_it);
        ++id_cit;
      }
      else if (source_it->id() > *id_cit)
      {
        // The current source has an identifier greater than the current id to erase.
        // This means that this id was already removed in a previous call to erase().
        // We can safely ignore it.
        ++id_cit;
      }
      else
      {
        ++source_it;
      }""", """      const auto id = source_it->id();
      if (id < *id_cit)
      {
        ++source_it;
        continue;
      }
      if (id == *id_cit)
      {
        source_it = m_sources.erase(source_it);
      }
      ++id_cit;""")]),
('r16-order', ['C15','C16','C17','C18'], 0, [(EN, """      ++m_nb_sent_sources;
      ++m_nb_sent_packets;
      // Ask packetizer to handle the bytes of the new source (will be routed to user's handler).
      m_packetizer.write_source(insertion);""", """      m_packetizer.write_source(insertion);
      ++m_nb_sent_packets;
      ++m_nb_sent_sources;"""), (EN, """    ++m_current_repair_id;
    ++m_nb_sent_repairs;
""", """    m_nb_sent_repairs += 1;
    m_current_repair_id += 1;
""")]),
('r17-due', ['C16','C17'], 0, [(EN, """    if ((m_current_source_id + 1) % m_rate == 0)
    {
      generate_repair();
    }

    ++m_current_source_id;""", """    ++m_current_source_id;
    const bool due = not (m_current_source_id % m_rate);
    if (due)
    {
      generate_repair();
    }""")]),
('r18-rate', ['C18'], 0, [(EN, """    return loss < 0.01
         ? 50
         : static_cast<std::size_t>(ceil((1/loss)/2));""", """    if (not (loss >= 0.01))
    {
      return 50;
    }
    return static_cast<std::size_t>(ceil(1.0 / (2.0 * loss)));""")]),
('r18-neg', ['C18'], 0, [(EN, """        if (m_nb_sent_packets > 0)
        {""", """        if (m_nb_sent_packets != 0)
        {"""), (EN, "(m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets)", "1.0 - static_cast<double>(res.first.nb_packets()) / m_nb_sent_packets")]),
]
EC='netcode/detail/encoder.cc'; GF='netcode/detail/galois_field.hh'; RP='netcode/detail/repair.hh'; BF='netcode/detail/buffer.hh'
MUTS += [
('c13-zero', ['C13'], 1, [(BF, 'using zero_byte_buffer = std::vector<char, boost::alignment::aligned_allocator<char, 16>>;', 'using zero_byte_buffer = std::vector<char, default_init_aligned_alloc<char, 32>>;')]),
('c13-noreset', ['C13'], 1, [(RP, '    m_sources_ids.clear();\n    m_buffer.clear();', '    m_buffer.clear();')]),
('c13-size', ['C13'], 1, [(EC, 'm_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);', 'm_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), std::min<std::size_t>(cit->size(), sources.cbegin()->size()), c);')]),
('c13-coef', ['C13'], 1, [(EC, '''    c = m_gf.coefficient(repair.id(), cit->id());

    // Add''', '''    c = m_gf.coefficient(cit->id(), repair.id());

    // Add''')]),
('c13-sizecoef', ['C13'], 1, [(EC, "(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size())", "(m_gf.multiply_size(static_cast<std::uint16_t>(repair.symbol().size()), c) ^ repair.encoded_size())")]),
('c13-resize', ['C13'], 1, [(EC, "if (cit->size() > repair.symbol().size())\n    {", "if (cit->size() != repair.symbol().size())\n    {")]),
('c13-last', ['C13'], 1, [(EC, "for (++cit; cit != src_end; ++cit)\n  {", "for (++cit; cit != src_end; ++cit)\n  {\n    if (cit->size() == 0xffff) continue;")]),
('c13-mul', ['C13'], 1, [(EC, "m_gf.multiply_add(cit->symbol()", "if (repair.symbol().size() == cit->size()) m_gf.multiply(cit->symbol().data(), repair.symbol().data(), cit->size(), c); else m_gf.multiply_add(cit->symbol()")]),
('c13-stale-resize', ['C13'], 1, [(EC, "  repair.symbol().resize(cit->size());\n\n  // Add", "  if (repair.symbol().size() < cit->size()) repair.symbol().resize(cit->size());\n\n  // Add"), (RP, "    m_sources_ids.clear();\n    m_buffer.clear();", "    m_sources_ids.clear();")]),
('c14-mod', ['C14'], 1, [(GF, "% ((1 << m_w) - 1) + 1", "% ((1 << m_w) - 1)")]),
('c14-pow', ['C14'], 1, [(GF, "% ((1 << m_w) - 1) + 1", "% (1 << m_w) + 1")]),
('c14-zero32', ['C14'], 1, [(GF, "return res == 0 ? 1 : res;", "return res;")]),
('c14-dep', ['C14'], 1, [(GF, "((repair_id + 1) + (src_id + 1)) * (repair_id + 1)) % ", "((repair_id + 1) + (repair_id + 2)) * (repair_id + 1)) % ")]),
('c14-byte', ['C14'], 1, [(GF, ", sizeof(std::uint16_t), coeff);", ", sizeof(std::uint8_t), coeff);")]),
('c14-max', ['C14'], 1, [(GF, "if (size == 0 or coeff == 0)", "if (size <= 1 or coeff == 0)")]),
('r13-loop', ['C13','C16'], 0, [(EC, open('/repo/netcode/detail/encoder.cc').read().split('  auto cit = sources.cbegin();')[1].split('/*----')[0], """
  bool first = true;
  for (auto it = sources.cbegin(), end = sources.cend(); it != end; ++it)
  {
    const auto sz = it->size();
    const auto coeff = m_gf.coefficient(repair.id(), it->id());
    if (first or sz > repair.symbol().size())
    {
      repair.symbol().resize(sz);
    }
    if (first)
    {
      m_gf.multiply(it->symbol().data(), repair.symbol().data(), sz, coeff);
      repair.encoded_size() = m_gf.multiply_size(sz, coeff);
    }
    else
    {
      m_gf.multiply_add(it->symbol().data(), repair.symbol().data(), sz, coeff);
      repair.encoded_size() = static_cast<std::uint16_t>(repair.encoded_size() ^ m_gf.multiply_size(sz, coeff));
    }
    repair.source_ids().insert(repair.source_ids().end(), it->id());
    first = false;
  }
}

"""), (EC, '  auto cit = sources.cbegin();', '')]),
('r13-addall', ['C13'], 0, [(EC, open('/repo/netcode/detail/encoder.cc').read().split('  auto cit = sources.cbegin();')[1].split('/*----')[0], """
  std::uint16_t total = 0;
  for (auto it = sources.cbegin(), end = sources.cend(); it != end; ++it)
  {
    repair.source_ids().insert(it->id());
    if (it->size() > repair.symbol().size())
    {
      repair.symbol().resize(it->size());
    }
    const auto coeff = m_gf.coefficient(repair.id(), it->id());
    m_gf.multiply_add(it->symbol().data(), repair.symbol().data(), it->size(), coeff);
    total = static_cast<std::uint16_t>(total ^ m_gf.multiply_size(it->size(), coeff));
  }
  repair.encoded_size() = total;
}

"""), (EC, '  auto cit = sources.cbegin();', '')]),
('r14-coef', ['C14','C13'], 0, [(GF, """    if (m_w == 32)
    {
      // Unsigned integer overflow is well defined: http://stackoverflow.com/q/18195715/21584
      const auto res = ((repair_id + 1) + (src_id + 1)) * (repair_id + 1);
      // But it still can be 0.
      return res == 0 ? 1 : res;
    }
    else
    {
      return (((repair_id + 1) + (src_id + 1)) * (repair_id + 1)) % ((1 << m_w) - 1) + 1;
    }""", """    const auto mix = (repair_id + 1) * (repair_id + src_id + 2);
    if (m_w < 32)
    {
      const auto order = (1u << m_w) - 1;
      return mix % order + 1;
    }
    return mix ? mix : 1;""")]),
# C19
('c19-ge', ['C19'], 1, [(DE, "if (m_ack.nb_packets() >= m_ack_nb_packets)", "if (m_ack.nb_packets() > m_ack_nb_packets)")]),
('c19-noreset', ['C19'], 1, [(DE, "    // Start a fresh new ack.\n    m_ack.reset();", "    m_ack.nb_packets() = 0;")]),
('c19-nocount', ['C19'], 1, [('netcode/detail/ack.hh', "m_nb_packets = 0;", "")]),
('c19-upto', ['C19'], 1, [(DE, "      m_ack.source_ids().insert(m_ack.source_ids().end(), id_src.first);", "      if (m_ack.source_ids().size() < 255) m_ack.source_ids().insert(m_ack.source_ids().end(), id_src.first);")]),
('c19-missing', ['C19'], 1, [(DE, "    // Ask packetizer to handle the bytes of the new ack", "    for (const auto& m : m_decoder.missing_sources()) if (m.second.empty()) m_ack.source_ids().insert(m.first);\n    // Ask packetizer to handle the bytes of the new ack")]),
('c19-date', ['C19'], 1, [(DE, "        generate_ack();\n        m_last_ack_date = now;", "        generate_ack();")]),
('c19-date2', ['C19'], 1, [(DE, "      const auto now = std::chrono::steady_clock::now();\n      if ((now - m_last_ack_date) >= m_ack_period)\n      {\n        generate_ack();\n        m_last_ack_date = now;\n      }", "      const auto now = std::chrono::steady_clock::now();\n      if ((now - m_last_ack_date) >= m_ack_period)\n      {\n        generate_ack();\n      }\n      m_last_ack_date = now;")]),
('c19-zero', ['C19'], 1, [(DE, "else if (m_ack_period != std::chrono::milliseconds{0})", "else if (m_ack_period >= std::chrono::milliseconds{0})")]),
('c19-sec', ['C19'], 1, [(DE, "if ((now - m_last_ack_date) >= m_ack_period)", "if (std::chrono::duration_cast<std::chrono::seconds>(now - m_last_ack_date) >= m_ack_period)")]),
('c19-min', ['C19'], 1, [(DE, "m_ack_nb_packets = std::min(nb, static_cast<std::uint16_t>(128));", "m_ack_nb_packets = std::min(static_cast<std::uint8_t>(nb), static_cast<std::uint8_t>(128));")]),
('c19-twice', ['C19'], 1, [(DE, "        ++m_nb_received_repairs;\n        ++m_ack.nb_packets();", "        ++m_nb_received_repairs;\n        if (m_ack.nb_packets() < m_ack_nb_packets) ++m_ack.nb_packets();")]),
('c19-size', ['C19'], 1, [(DE, "m_data_handler(src.symbol(), src.symbol_size());", "m_data_handler(src.symbol(), src.symbol_size() & 0x7fff);")]),
('r19-clear-first', ['C19','C06'], 0, [(DE, "    // Add all currently known source identifiers to the ack to be sent.\n", "    m_ack.source_ids().clear();\n"), (DE, "    // Start a fresh new ack.\n    m_ack.reset();", "    m_ack.nb_packets() = 0;")]),
('r19-maybe', ['C19','C06','C24'], 0, [(DE, "    if (m_ack.nb_packets() >= m_ack_nb_packets)\n    {\n      generate_ack();\n      m_last_ack_date = std::chrono::steady_clock::now();\n    }\n    else if (m_ack_period != std::chrono::milliseconds{0})\n    {\n      const auto now = std::chrono::steady_clock::now();\n      if ((now - m_last_ack_date) >= m_ack_period)\n      {\n        generate_ack();\n        m_last_ack_date = now;\n      }\n    }", "    const auto now = std::chrono::steady_clock::now();\n    const bool enough = not (m_ack.nb_packets() < m_ack_nb_packets);\n    const bool late = m_ack_period != std::chrono::milliseconds{0} and not (now - m_last_ack_date < m_ack_period);\n    if (enough or late)\n    {\n      generate_ack();\n      m_last_ack_date = now;\n    }")]),
('r19-iter', ['C19'], 0, [(DE, "    for (const auto& id_src : m_decoder.sources())\n    {\n      m_ack.source_ids().insert(m_ack.source_ids().end(), id_src.first);\n    }", "    auto& ids = m_ack.source_ids();\n    const auto& srcs = m_decoder.sources();\n    for (auto it = srcs.begin(); it != srcs.end(); ++it)\n    {\n      ids.insert(it->second.id());\n    }")]),
('r19-emplace', ['C19'], 0, [(DE, "      m_ack.source_ids().insert(m_ack.source_ids().end(), id_src.first);", "      m_ack.source_ids().emplace(id_src.first);")]),
('c13-first64', ['C13'], 1, [('netcode/detail/encoder.cc', "for (++cit; cit != src_end; ++cit)\n  {", "for (++cit; cit != src_end; ++cit)\n  {\n    if (repair.source_ids().size() >= 1024) break;")]),
('c13-dup1024', ['C13'], 1, [('netcode/detail/encoder.cc', "    // Finally, add the user size.", "    if (repair.source_ids().size() == 1024) m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);\n    // Finally, add the user size.")]),

# C20
('c20-codes', ['C20'], 1, [('netcode/c/detail/check_error.hh', "    error->type = ntc_no_memory;", "    error->type = ntc_unknown_error;")]),
('c20-order', ['C20'], 1, [('netcode/c/detail/check_error.hh', "  catch (const ntc::packet_type_error&)\n  {\n    error->type = ntc_packet_type_error;\n  }\n\n  catch (const ntc::overflow_error&)\n  {\n    error->type = ntc_overflow_error;\n  }", "  catch (const ntc::packet_type_error&)\n  {\n    error->type = ntc_packet_type_error;\n  }\n\n  catch (const std::exception&)\n  {\n    error->type = ntc_unknown_error;\n  }\n\n  catch (const ntc::overflow_error&)\n  {\n    error->type = ntc_overflow_error;\n  }")]),
('c20-noreset', ['C20'], 1, [('netcode/c/detail/check_error.hh', "  error->type = ntc_no_error;\n\n", "")]),
('c20-term', ['C20'], 1, [('netcode/c/detail/check_error.hh', "std::copy_n(e.what(), sz, error->message);", "std::copy_n(e.what(), sz - 1, error->message);")]),
('c20-dangling', ['C20'], 1, [('netcode/c/detail/check_error.hh', "    delete[] error->message;\n    error->message = nullptr;", "    delete[] error->message;")]),
('c20-swap', ['C20'], 1, [('netcode/c/encoder.cc', "  enc->set_window_size(size);", "  enc->set_window_size(size);\n  if (size > 4096) enc->set_rate(size);")]),
('c20-trunc', ['C20'], 1, [('netcode/c/encoder.cc', "  enc->set_rate(rate);", "  enc->set_rate(static_cast<std::uint32_t>(rate));")]),
('c20-inorder', ['C20'], 1, [('netcode/c/decoder.cc', "order == ntc_in_order_yes ? ntc::in_order::yes\n                                                                       : ntc::in_order::no", "order == ntc_in_order_yes ? ntc::in_order::no\n                                                                       : ntc::in_order::yes")]),
('c20-period', ['C20'], 1, [('netcode/c/decoder.cc', "std::chrono::milliseconds{period}", "std::chrono::seconds{period}")]),
('c20-size8', ['C20'], 1, [('netcode/c/packet.cc', "static_cast<uint16_t>(packet->size())", "static_cast<uint8_t>(packet->size())")]),
('c20-ctx', ['C20'], 1, [('netcode/c/detail/handlers.hh', "handler.read_data(handler.context, data, sz);", "if (sz != 0) handler.read_data(handler.context, data, sz);")]),
('c20-result', ['C20'], 1, [('netcode/c/decoder.cc', "return ntc::detail::check_error([&]{return (*dec)(std::move(*packet));}, error);", "const auto sz = packet->size();\n  ntc::detail::check_error([&]{(*dec)(std::move(*packet));}, error);\n  return sz;")]),
('c20-flush', ['C20'], 1, [('netcode/c/decoder.cc', "ntc::detail::check_error([&]{dec->generate_ack();}, error);", "ntc::detail::check_error([&]{dec->maybe_ack();}, error);")]),
('r20-helper', ['C20','C21'], 0, [('netcode/c/detail/check_error.hh', "    error->type = ntc_unknown_error;\n    const auto sz = std::strlen(e.what()) + 1; // with the terminating null character\n    delete[] error->message;\n    error->message = new (std::nothrow) char[sz];\n    if (error->message)\n    {\n      std::copy_n(e.what(), sz, error->message);\n    }", "    error->type = ntc_unknown_error;\n    const char* const what = e.what();\n    const auto len = std::strlen(what);\n    delete[] error->message;\n    error->message = new (std::nothrow) char[len + 1];\n    if (error->message != nullptr)\n    {\n      std::memcpy(error->message, what, len);\n      error->message[len] = '\\0';\n    }")]),
('r20-direct', ['C20','C21'], 0, [('netcode/c/encoder.cc', "  return ntc::detail::check_error([&]{return (*enc)(std::move(*packet));}, error);", "  std::size_t res = 0;\n  ntc::detail::check_error([&]{res = enc->operator()(std::move(*packet));}, error);\n  return res;")]),
('r20-type', ['C20'], 0, [('netcode/c/encoder.cc', "  enc->set_code_type(code_type == ntc_systematic_yes ? ntc::systematic::yes : ntc::systematic::no);", "  if (code_type != ntc_systematic_yes)\n  {\n    enc->set_code_type(ntc::systematic::no);\n    return;\n  }\n  enc->set_code_type(ntc::systematic::yes);")]),
('r20-copy', ['C20'], 0, [('netcode/c/encoder.cc', "ntc::detail::check_error([&]{(*enc)(std::move(*data));}, error);", "ntc::detail::check_error([&]{auto& e = *enc; ntc::data d = std::move(*data); e(std::move(d));}, error);")]),

# C22
('c22-capclear', ['C22'], 1, [('netcode/packet.hh', "    m_buffer.resize(shift);\n  }", "    m_buffer.clear();\n  }")]),
('c22-count', ['C22'], 1, [('netcode/packet.hh', "    : m_buffer(count + shift, value)", "    : m_buffer(count + alignment, value)")]),
('c22-fill', ['C22'], 1, [('netcode/packet.hh', "    std::fill(begin(), end(), value);", "    std::fill(m_buffer.begin(), m_buffer.begin() + static_cast<difference_type>(count), value);")]),
('c22-copy', ['C22'], 1, [('netcode/packet.hh', "    std::copy(std::begin(init), std::end(init), m_buffer.begin() + shift);", "    std::copy(std::begin(init), std::end(init), m_buffer.begin() + (init.size() > 1024 ? alignment : shift));")]),
('c22-resizeval', ['C22'], 1, [('netcode/packet.hh', "    m_buffer.resize(count + shift, value);", "    m_buffer.resize(count, value);\n    m_buffer.resize(count + shift);")]),
('c22-constidx', ['C22'], 1, [('netcode/packet.hh', "  const noexcept\n  {\n    return m_buffer[pos + shift];", "  const noexcept\n  {\n    return m_buffer[pos + alignment];")]),
('c22-reserve', ['C22'], 1, [('netcode/packet.hh', "    m_buffer.reserve(new_cap + shift);", "    if (new_cap < capacity()) m_buffer.resize(new_cap + shift);\n    else m_buffer.reserve(new_cap + shift);")]),
('c22-assign', ['C22'], 1, [('netcode/packet.hh', "    resize(static_cast<size_type>(std::distance(first, last)));\n    std::copy(first, last, begin());", "    const auto n = static_cast<size_type>(std::distance(first, last));\n    if (n > size()) resize(n);\n    std::copy(first, last, begin());")]),
('c22-align', ['C22'], 1, [('netcode/detail/buffer.hh', "using buffer = std::vector<T, default_init_aligned_alloc<T, 16>>;", "using buffer = std::vector<T, default_init_allocator<T>>;")]),
('r22-assign', ['C22'], 0, [('netcode/packet.hh', "    resize(static_cast<size_type>(std::distance(first, last)));\n    std::copy(first, last, begin());", "    clear();\n    resize(static_cast<size_type>(std::distance(first, last)));\n    auto out = begin();\n    for (; first != last; ++first, ++out) *out = *first;")]),
('r22-assign2', ['C22'], 0, [('netcode/packet.hh', "    resize(count);\n    std::fill(begin(), end(), value);", "    m_buffer.assign(count + shift, value);")]),
('r22-loop', ['C22'], 0, [('netcode/packet.hh', "    resize(count);\n    std::fill(begin(), end(), value);", "    resize(count);\n    for (size_type i = 0; i < count; ++i) (*this)[i] = value;")]),
('r22-size', ['C22','C01'], 0, [('netcode/packet.hh', "    return m_buffer.size() - shift;", "    return static_cast<size_type>(std::distance(begin(), end()));")]),
('r22-resize', ['C22'], 0, [('netcode/packet.hh', "    m_buffer.resize(count + shift, value);", "    const auto old = size();\n    resize(count);\n    if (count > old) std::fill(begin() + static_cast<std::ptrdiff_t>(old), end(), value);")]),
('r22-ctor', ['C22'], 0, [('netcode/packet.hh', "    : m_buffer(static_cast<size_type>(std::distance(first, last)) + shift)\n  {\n    std::copy(first, last, m_buffer.begin() + shift);\n  }", "    : m_buffer(shift)\n  {\n    assign(first, last);\n  }")]),
]
