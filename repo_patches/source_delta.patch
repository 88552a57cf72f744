From 9f44d0e9ed22c61816220635544ab211e1172039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:53 +0000
Subject: [PATCH 01/16] fix: drop a repair which encodes no source instead of
 dereferencing end()

---
 netcode/detail/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..81fa0a7 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -54,7 +54,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty())
+  {
+    // It's a repair that encodes no source, drop it.
+    return;
+  }
 
   const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
   if (m_last_id and last_id_in_source_ids < *m_last_id)
-- 
2.43.0


From 6e4ce6974ea03a242cb0cfae5c0d42de4bc5ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 02/16] fix: a late repair which encodes outdated sources must
 not move the decoder backwards

---
 netcode/detail/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 81fa0a7..07aeef1 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -60,8 +60,8 @@ decoder::operator()(decoder_repair&& incoming_r)
     return;
   }
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
+  if (m_last_id and first_id_in_source_ids < *m_last_id)
   {
     // It's a repair that provide outdated informations, drop it.
     return;
-- 
2.43.0


From ebc3df8356aa4aa5362015faef2bd4cedc003879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:24 +0000
Subject: [PATCH 03/16] fix: keep links between repairs and missing sources
 consistent when a repair directly gives a source

---
 netcode/detail/decoder.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 07aeef1..8a4ab30 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -140,8 +140,9 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
+    // Other repairs may still encode this source: only remove the link with this repair, the rest is
+    // handled when adding the source.
+    m_missing_sources.find(src.id())->second.erase(r_cit);
 
     // This repair is no longer needed.
     m_repairs.erase(r_cit);
@@ -273,7 +274,15 @@ decoder::add_source_recursive(decoder_source&& src)
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      if (r.source_ids().size() == 1)
+      {
+        // This repair only encodes the source we just got, it's no longer needed.
+        m_repairs.erase(r_cit);
+      }
+      else
+      {
+        remove_source_from_repair(src, r);
+      }
     }
 
     // It's no longer a missing source.
-- 
2.43.0


From 15e9cea47f39c23724e7da2ba7e5076a0aab5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:52 +0000
Subject: [PATCH 04/16] fix: don't use an iterator on missing sources which may
 have been erased by the recursive call

---
 netcode/detail/decoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 8a4ab30..53e0537 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -318,10 +318,13 @@ decoder::add_source_recursive(decoder_source&& src)
         m_repairs.erase(r_cit);
 
         // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+        m_missing_sources.erase(miss_cit);
 
         // This newly decoded source might trigger the decoding of other sources.
         add_source_recursive(std::move(decoded_src));
+
+        // Any missing source may have been erased, thus invalidating iterators: start over.
+        miss_cit = m_missing_sources.begin();
       }
       else
       {
-- 
2.43.0


From ec33679033277c1068b1e56a4cdbcbe83af3c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 05/16] fix: decode a missing source as soon as a repair
 encodes nothing else

---
 netcode/detail/decoder.cc | 56 +++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 53e0537..6f26a7c 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -294,48 +294,42 @@ decoder::add_source_recursive(decoder_source&& src)
   for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
       ; miss_cit != miss_end;)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
+    auto& repairs_cits = miss_cit->second;
+    // Is there a repair which encodes only this missing source?
+    const auto search_r = std::find_if( repairs_cits.begin(), repairs_cits.end()
+                                      , [](const repairs_set_type::iterator& cit)
+                                        {
+                                          return cit->second.source_ids().size() == 1;
+                                        });
+    if (search_r != repairs_cits.end())
     {
       // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
+      const auto r_cit = *search_r;
       const auto& r = r_cit->second;
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
-
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // It's no longer a missing source.
-        m_missing_sources.erase(miss_cit);
+      // We can erase this repair. Other repairs may still encode this source: they are handled when
+      // adding it.
+      repairs_cits.erase(search_r);
+      m_repairs.erase(r_cit);
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
+      // This newly decoded source might trigger the decoding of other sources.
+      add_source_recursive(std::move(decoded_src));
 
-        // Any missing source may have been erased, thus invalidating iterators: start over.
-        miss_cit = m_missing_sources.begin();
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Any missing source may have been erased, thus invalidating iterators: start over.
+      miss_cit = m_missing_sources.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
+      // All repairs encode too much sources, other sources are needed to reconstruct *miss_cit.
+      // Try next missing source.
       ++miss_cit;
     }
   }
-- 
2.43.0


From 1753a34bb70fcfce586d367b68f7097ac12e8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:19 +0000
Subject: [PATCH 06/16] fix: in order, deliver a source when all sources it
 waits for have been decoded in the meantime

---
 netcode/detail/decoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 6f26a7c..25c3f41 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -339,10 +339,12 @@ decoder::add_source_recursive(decoder_source&& src)
   const auto insertion = m_sources.emplace(src_id, std::move(src));
   assert(insertion.second && "source already added");
 
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  if (m_in_order and insertion.first->second.id() >= m_first_missing_source_in_order)
   {
-    // We can't send the current source as there are some older sources which have not been sent.
+    // We can't send the current source if there are some older sources which have not been sent.
     m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    // However, sources decoded above may have been the ones this source was waiting for.
+    flush_ordered_sources();
   }
 }
 
-- 
2.43.0


From 86b5525ac09dd39aea378140e669fb4e30822e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:53 +0000
Subject: [PATCH 07/16] fix: never read or write past a repair's symbol when
 sizes found in packets disagree

---
 netcode/detail/decoder.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 25c3f41..ab6875f 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -172,10 +172,12 @@ noexcept
   const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
 
   // The source that will be reconstructed.
-  auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
+  auto src = decoder_source{ src_id, packet( src_sz + packet::alignment
+                                           , 0 /* zero out the buffer */)
+                           , src_sz};
 
-  // Reconstruct missing source.
-  m_gf.multiply(r.symbol(), src.symbol(), src_sz, inv);
+  // Reconstruct missing source. Sizes come from the network: don't read past the repair's symbol.
+  m_gf.multiply(r.symbol(), src.symbol(), std::min(src_sz, r.symbol_size()), inv);
 
   m_nb_decoded += 1;
 
@@ -407,16 +409,15 @@ decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repai
 noexcept
 {
   assert(r.source_ids().size() > 1 && "Repair encodes only one source");
-  assert(src.symbol_size() <= r.symbol_size());
-
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
   r.encoded_size()
     = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
 
-  // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  // Remove symbol. Sizes come from the network: don't write past the repair's symbol.
+  m_gf.multiply_add( src.symbol(), r.symbol(), std::min(src.symbol_size(), r.symbol_size())
+                   , coeff);
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From ce583f52d575513546c8fa5e15c4b53da02e987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:08 +0000
Subject: [PATCH 08/16] fix: don't invert an uninitialized matrix when there
 are more repairs than missing sources

---
 netcode/detail/decoder.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index ab6875f..9b4a8ec 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -436,9 +436,6 @@ decoder::attempt_full_decoding()
     return;
   }
 
-  assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
-  assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
-
   // Build coefficient matrix.
   m_coefficients.resize(m_repairs.size());
   auto col = 0ul;
@@ -452,6 +449,10 @@ decoder::attempt_full_decoding()
                                : 0u; // repair doesn't encode the missing source.
       ++row;
     }
+    for (; row < m_coefficients.dimension(); ++row)
+    {
+      m_coefficients(row, col) = 0u; // more repairs than missing sources.
+    }
     ++col;
   }
 
-- 
2.43.0


From b60f8b09f931dd708fea36a88ffb75c2485cc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:30 +0000
Subject: [PATCH 09/16] fix: functions which allocate memory or call user's
 handlers must not be noexcept

---
 netcode/detail/decoder.cc | 2 --
 netcode/detail/decoder.hh | 6 ++----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 9b4a8ec..0d869d5 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -160,7 +160,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -354,7 +353,6 @@ decoder::add_source_recursive(decoder_source&& src)
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..9fcc1ee 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   /// @attention @p r shall encode more than one source.
@@ -120,8 +119,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From e5689b0d8771454de454104d7653fa86cb917889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:28 +0000
Subject: [PATCH 10/16] fix: respect the window size when it has been reduced
 below the current window

---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..1334cb8 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The window size may have been reduced since the last commit.
+    while (m_sources.size() > 0 and m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From 4842dbff9680007cbf5992ef9206d5f813ca8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:48 +0000
Subject: [PATCH 11/16] fix: don't encode an empty window when the generation
 of a repair is forced

---
 netcode/encoder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 1334cb8..58ad83b 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -162,6 +162,11 @@ public:
   void
   generate_repair()
   {
+    if (m_sources.size() == 0)
+    {
+      // There's nothing to encode.
+      return;
+    }
     m_repair.reset();
     mk_repair();
     ++m_nb_sent_packets;
-- 
2.43.0


From 31af4c0a907ff0ed46dab9767509d8cf3fc5f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:15 +0000
Subject: [PATCH 12/16] fix: reject empty packets instead of reading past their
 end

---
 netcode/detail/packet_type.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcode/detail/packet_type.hh b/netcode/detail/packet_type.hh
index 932691c..9670bb3 100644
--- a/netcode/detail/packet_type.hh
+++ b/netcode/detail/packet_type.hh
@@ -18,6 +18,10 @@ inline
 packet_type
 get_packet_type(const packet& p)
 {
+  if (p.empty())
+  {
+    throw packet_type_error{p};
+  }
   const auto ty = *reinterpret_cast<const std::uint8_t*>(p.data());
   switch (ty)
   {
-- 
2.43.0


From fae01fc8a2ff88204a1e4011dc76caf23646a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:39 +0000
Subject: [PATCH 13/16] fix: don't write the symbol of a repair twice

---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From f829d0e39a71816b79740dffda28aae2a85b1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:44 +0000
Subject: [PATCH 14/16] fix: read dumped packets without relying on the
 position of copied stream iterators

---
 netcode/detail/serialize_packet.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..c265841 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -29,17 +29,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0


From 5e78b9c4fdefa0ea59f097ffe1469a83638e6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:28 +0000
Subject: [PATCH 15/16] fix: error messages of the C interface are
 null-terminated and never dangling

---
 netcode/c/detail/check_error.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..b681152 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -46,8 +46,8 @@ noexcept
   catch (const std::exception& e)
   {
     error->type = ntc_unknown_error;
-    const auto sz = std::strlen(e.what());
-    delete error->message;
+    const auto sz = std::strlen(e.what()) + 1; // with the terminating null character
+    delete[] error->message;
     error->message = new (std::nothrow) char[sz];
     if (error->message)
     {
@@ -58,7 +58,8 @@ noexcept
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
+    delete[] error->message;
+    error->message = nullptr;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
-- 
2.43.0


From 0b40bb42abee2f01d50460107a4a609e62374c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:34 +0000
Subject: [PATCH 16/16] fix: constructors of the C interface return a null
 pointer instead of terminating the process

---
 netcode/c/data.cc    | 18 ++++++++++++++++--
 netcode/c/decoder.cc | 17 ++++++++++++-----
 netcode/c/encoder.cc | 11 +++++++++--
 netcode/c/packet.cc  | 18 ++++++++++++++++--
 4 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..e9df61f 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -9,7 +9,14 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  try
+  {
+    return new (std::nothrow) ntc_data_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +25,14 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  try
+  {
+    return new (std::nothrow) ntc_data_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..c4e0333 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -11,11 +11,18 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  try
+  {
+    return new (std::nothrow) ntc_decoder_t{ galois_field_size
+                                           , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                                       : ntc::in_order::no
+                                           , ntc::detail::c_packet_handler{packet_handler}
+                                           , ntc::detail::c_data_handler{data_handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..04b5d11 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -9,8 +9,15 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  try
+  {
+    return new (std::nothrow) ntc_encoder_t{ galois_field_size
+                                           , ntc::detail::c_packet_handler{handler}};
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..9528268 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -9,7 +9,14 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  try
+  {
+    return new (std::nothrow) ntc_packet_t(size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +25,14 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  try
+  {
+    return new (std::nothrow) ntc_packet_t(src, src + size);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0

