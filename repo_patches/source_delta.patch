From c7bba67757b19bdd941b2bb1487fb87b420c2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 01/66] fix: keep the invalid flag of variable length samples

SetTextValue() and SetByteArray() stored the signal data index with a
hard coded valid flag, so a sample saved as invalid was read as valid.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From 2c79a183bd289af6fd1b585c6c2b90aedf3b8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:42 +0000
Subject: [PATCH 02/66] fix: store MDF3 conversion parameters as 8-byte
 floating point numbers

The parameter list holds variants, which were dumped as they are in memory
(16 bytes each), so all but the first parameter were read back wrong.
---
 mdflib/src/cc3block.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..acd1baa 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
@@ -322,8 +322,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
-- 
2.43.0


From 591c57cf912d1f011c1280618f987ee6a8feb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:12 +0000
Subject: [PATCH 03/66] fix: read selected offsets of signal data stored in a
 header list block

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From 09f392b165a388f9b35def01d0ac832ee27a6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 04/66] fix: give the deflate output room for data that cannot
 be compressed

---
 mdflib/src/zlibutil.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..79c2364 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -112,8 +112,11 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   if (buf_in.empty()) {
     return false;
   }
-  if (buf_out.size() < 100) {
-    buf_out.resize(100, 0);
+  // Data that cannot be compressed needs more space than the input.
+  const auto max_size = static_cast<size_t>(
+      compressBound(static_cast<uLong>(buf_in.size())) );
+  if (buf_out.size() < max_size) {
+    buf_out.resize(max_size, 0);
   }
 
   z_stream s{};
-- 
2.43.0


From 6403136c1e6096b86f6b567110684bc0febad7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:09 +0000
Subject: [PATCH 05/66] fix: parse the fraction and negative zone minutes of
 ISO time texts

---
 mdflib/src/timestamp.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f2b8624..1b7dedc 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -220,7 +220,7 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::MilliSecond:
           if (input == '.') {
             state = DateState::MilliSecond;
-          } else if (std::isdigit(input) && minute.str().size() < 9) {
+          } else if (std::isdigit(input) && millisecond.str().size() < 9) {
             millisecond << input;
           } else if (input == 'Z') {
             utc = true;
@@ -296,7 +296,9 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     tz_offset = tz_hour.str().empty() ? 0 : std::stoi(tz_hour.str());
     // MDF_TRACE() << tz_hour.str() << "/" << tz_offset << std::endl;
     tz_offset *= 60;  // Now minutes
-    tz_offset += tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    const bool negative = !tz_hour.str().empty() && tz_hour.str()[0] == '-';
+    const int tz_min = tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    tz_offset += negative ? -tz_min : tz_min;
     tz_offset *= 60;  // Now in seconds
 
     // 0..59 as normal
@@ -324,14 +326,10 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
 
     utc_timestamp_ = utc_time;
     utc_timestamp_ *= 1'000'000'000;  // Now ns
-    if (millisecond.str().empty()) {
-      return;
-    } else if (millisecond.str().size() <= 3) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000'000;
-    } else if (millisecond.str().size() <= 6) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000;
-    } else {
-      utc_timestamp_ += std::stoull(millisecond.str());
+    // The fraction may have 1..9 digits
+    if (std::string fraction = millisecond.str(); !fraction.empty()) {
+      fraction.resize(9, '0');
+      utc_timestamp_ += std::stoull(fraction);
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid cast: " << err.what();
-- 
2.43.0


From dc211b30071e87c58c134e26601bdb00e1cde750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:25 +0000
Subject: [PATCH 06/66] fix: close an attached file after it is read into
 memory

---
 mdflib/src/at4block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..d3a1f4c 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -75,6 +75,7 @@ bool FileToBuffer(const std::string& filename, mdf::ByteArray& dest) {
       Platform::fileopen(&file, filename.c_str(), "rb");
       if (file != nullptr) {
         const auto nof_bytes = fread(dest.data(), 1, static_cast<size_t>(size), file);
+        fclose(file);
         if (nof_bytes < size) {
           dest.resize(nof_bytes);
         }
-- 
2.43.0


From 0b93632e745c47fb4df19387bd80ff9d0537af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:34 +0000
Subject: [PATCH 07/66] fix: store and export empty compressed attachments

---
 mdflib/src/at4block.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index d3a1f4c..1bf3c44 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -180,7 +180,9 @@ uint64_t At4Block::Write(std::streambuf& buffer) {
           flags_ |= At4Flags::kUsingMd5;
         }
         original_size_ = file_size(filename);
-        if (IsEmbedded() && IsCompressed()) {
+        if (original_size_ == 0) {
+          data_buffer_.clear(); // Nothing to embed
+        } else if (IsEmbedded() && IsCompressed()) {
           if (const bool compress = Deflate(filename_, data_buffer_); !compress) {
             MDF_ERROR() << "Compress failure. File: " << filename;
             return 0;
@@ -246,8 +248,9 @@ void At4Block::ReadData(std::streambuf& buffer,
     if (!dest.is_open()) {
       throw std::ios_base::failure("Failed to open the destination file");
     }
-    const bool error = IsCompressed() ? !Inflate(buffer, dest, nof_bytes_)
-                                      : !CopyBytes(buffer, dest, nof_bytes_);
+    const bool error = IsCompressed() && nof_bytes_ > 0
+                           ? !Inflate(buffer, dest, nof_bytes_)
+                           : !CopyBytes(buffer, dest, nof_bytes_);
     dest.close();
     if ( error ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
@@ -277,8 +280,9 @@ void At4Block::ReadData(std::streambuf& buffer,
   }
   SetFilePosition(buffer, data_position_);
   if (IsEmbedded()) {
-    const bool error = IsCompressed() ? !Inflate(buffer, dest_buffer, nof_bytes_)
-                                      : !CopyBytes(buffer, dest_buffer, nof_bytes_);
+    const bool error = IsCompressed() && nof_bytes_ > 0
+                           ? !Inflate(buffer, dest_buffer, nof_bytes_)
+                           : !CopyBytes(buffer, dest_buffer, nof_bytes_);
     if ( error ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
     }
-- 
2.43.0


From 961165d269e5c34a248d259ea3c228bb5da74b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 08/66] fix: store and read the links of hierarchy elements,
 event scopes and parent events

---
 mdflib/src/ch4block.cpp | 28 ++++++++++++++++++++++++++--
 mdflib/src/ch4block.h   |  2 ++
 mdflib/src/ev4block.cpp | 29 ++++++++++++++++++++++++++---
 mdflib/src/ev4block.h   |  4 +++-
 mdflib/src/hd4block.cpp | 12 ++++++++++++
 5 files changed, 69 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..061d859 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -100,6 +100,30 @@ uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   return bytes;
 }
 
+void Ch4Block::UpdateElementLinks(std::streambuf& buffer) {  // NOLINT
+  for (size_t index_n = 0; index_n < element_list_.size(); ++index_n) {
+    const auto index = 4 + (index_n * 3);
+    if (index + 2 >= link_list_.size()) {
+      break;
+    }
+    const auto &element = element_list_[index_n];
+    if (element.data_group != nullptr) {
+      UpdateLink(buffer, index, element.data_group->Index());
+    }
+    if (element.channel_group != nullptr) {
+      UpdateLink(buffer, index + 1, element.channel_group->Index());
+    }
+    if (element.channel != nullptr) {
+      UpdateLink(buffer, index + 2, element.channel->Index());
+    }
+  }
+  for (auto &ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateElementLinks(buffer);
+    }
+  }
+}
+
 MdfBlock *Ch4Block::Find(int64_t index) const {  // NOLINT
   for (auto &ch : ch_list_) {
     if (!ch) {
@@ -148,8 +172,8 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
-    if (index < link_list_.size()) {
+    const auto index = 4 + (index_n * 3);
+    if (index + 2 < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
       const auto *block3 = hd4.Find(Link(index + 2));
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..cf57570 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -45,6 +45,8 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint64_t Read(std::streambuf& buffer) override;
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
+  /** \brief Updates the element links when the referenced blocks are written. */
+  void UpdateElementLinks(std::streambuf& buffer);
 
   [[nodiscard]] IChannelHierarchy *CreateChannelHierarchy() override;
   [[nodiscard]] std::vector<IChannelHierarchy *> ChannelHierarchies()
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..0af5df8 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -192,8 +192,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
+    const auto *block = static_cast<const IBlock *>(scope_list_[index_m]);
+    link_list_[index] = block != nullptr ? block->Index() : 0;
   }
   for (size_t index_n = 0; index_n < length_n_; ++index_n) {
     const auto index = 5 + length_m_ + index_n;
@@ -223,6 +223,22 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Ev4Block::UpdateReferenceLinks(std::streambuf& buffer) {
+  if (parent_event_ != nullptr) {
+    UpdateLink(buffer, kIndexParent, parent_event_->Index());
+  }
+  if (range_event_ != nullptr) {
+    UpdateLink(buffer, kIndexRange, range_event_->Index());
+  }
+  for (size_t index_m = 0; index_m < scope_list_.size(); ++index_m) {
+    const auto index = 5 + index_m;
+    const auto *block = static_cast<const IBlock *>(scope_list_[index_m]);
+    if (block != nullptr && index_m < length_m_ && index < link_list_.size()) {
+      UpdateLink(buffer, index, block->Index());
+    }
+  }
+}
+
 int64_t Ev4Block::Index() const { return FilePosition(); }
 
 void Ev4Block::Name(const std::string &name) { name_ = name; }
@@ -316,7 +332,14 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      // The scope is the interface (IChannelGroup or IChannel) of the block
+      const auto *block = hd4.Find(Link(index));
+      if (const auto *group = dynamic_cast<const IChannelGroup *>(block);
+          group != nullptr) {
+        scope_list_.push_back(group);
+      } else {
+        scope_list_.push_back(dynamic_cast<const IChannel *>(block));
+      }
     }
   }
 
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 6b5867b..61e4138 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -18,6 +18,8 @@ class Ev4Block : public MdfBlock, public IEvent {
   uint64_t Read(std::streambuf& buffer) override;
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
+  /** \brief Updates the event and scope links when the blocks are written. */
+  void UpdateReferenceLinks(std::streambuf& buffer);
 
   [[nodiscard]] int64_t Index() const override;
   [[nodiscard]] std::string BlockType() const override {
@@ -80,7 +82,7 @@ class Ev4Block : public MdfBlock, public IEvent {
 
   const IEvent *parent_event_ = nullptr;
   const IEvent *range_event_ = nullptr;
-  std::vector<const void *> scope_list_;  ///< List of MdfBlock pointers
+  std::vector<const void *> scope_list_;  ///< List of CG/CN (IBlock) pointers
   std::vector<const IAttachment *> attachment_list_;
 
   std::string name_;
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..6f95b9e 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,18 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The CH and EV blocks may reference blocks that are written after them.
+  for (auto& ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateElementLinks(buffer);
+    }
+  }
+  for (auto& ev4 : ev_list_) {
+    if (ev4) {
+      ev4->UpdateReferenceLinks(buffer);
+    }
+  }
   return bytes;
 }
 
-- 
2.43.0


From c38d4af2defdb7536fcd307b3256b55260b4ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 09/66] fix: do not extend the data block of an earlier
 measurement over later blocks

---
 mdflib/src/convertersamplequeue.cpp | 5 +++++
 mdflib/src/writer4samplequeue.cpp   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..046eabe 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -33,6 +33,11 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     SaveQueueCompressed(lock);
     return;
   }
+  if (IsEmpty()) {
+    // Nothing to save to the file. Note that the DT block might not be the
+    // last block in the file, so its length shall not be changed.
+    return;
+  }
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
     return;
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..9b38b6e 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -39,6 +39,12 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
 
+  if (IsEmpty()) {
+    // Nothing to save to the file. Note that the DT block might not be the
+    // last block in the file, so its length shall not be changed.
+    return;
+  }
+
   // Save uncompressed data in last DG/DT block
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
-- 
2.43.0


From e4db0e79a188e5d25efd236b58aaeda6548e4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 10/66] fix: store names and texts that start with '<' as text
 blocks

---
 mdflib/src/md4block.cpp | 10 ++++++----
 mdflib/src/tx4block.cpp |  5 ++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/md4block.cpp b/mdflib/src/md4block.cpp
index 1c9bd0f..104f15f 100644
--- a/mdflib/src/md4block.cpp
+++ b/mdflib/src/md4block.cpp
@@ -265,10 +265,12 @@ Md4Block::Md4Block() {
 }
 
 Md4Block::Md4Block(const std::string &text) {
-  if (const bool xml = !text.empty() && text[0] == '<'; xml) {
-    block_type_ = "##MD";
-  } else {
-    block_type_ = "##TX";
+  block_type_ = "##TX";
+  if (!text.empty() && text[0] == '<') {
+    // May be an XML snippet or a plain text
+    if (auto xml = CreateXmlFile(); xml && xml->ParseString(text)) {
+      block_type_ = "##MD";
+    }
   }
   text_ = text;
 }
diff --git a/mdflib/src/tx4block.cpp b/mdflib/src/tx4block.cpp
index c1b1a8d..0493211 100644
--- a/mdflib/src/tx4block.cpp
+++ b/mdflib/src/tx4block.cpp
@@ -85,7 +85,10 @@ uint64_t Tx4Block::Write(std::streambuf& buffer) {
   if (update) {
     return block_size_;
   }
-  const bool is_xml = !text_.empty() && text_[0] == '<';
+  // Only an MD block (metadata) may be stored as XML. A name or a text may
+  // start with any character.
+  const bool is_xml =
+      block_type_ == "##MD" && !text_.empty() && text_[0] == '<';
   block_type_ = is_xml ? "##MD" : "##TX";
   block_size_ = static_cast<uint16_t>(24 + text_.size() + 1);
   link_list_.clear();
-- 
2.43.0


From 583bea60b66f530b0a033554c94ad06922209099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 11/66] fix: calculate CANopen dates without the shared
 localtime() buffer

---
 mdflib/src/mdfhelper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 963cf89..9942959 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -74,7 +74,15 @@ std::vector<uint8_t> MdfHelper::NsToCanOpenDateArray(uint64_t ns_since_1970) {
   const LittleBuffer data(ms_min);
   memcpy(date_array.data(), data.data(), data.size());
 
-  const struct tm *bt = localtime(&system_time);
+  // Samples may be stored by several threads, so the shared buffer of
+  // localtime() cannot be used.
+  struct tm local{};
+#if (_WIN32)
+  localtime_s(&local, &system_time);
+#else
+  localtime_r(&system_time, &local);
+#endif
+  const struct tm *bt = &local;
   date_array[2] = bt->tm_min;
   date_array[3] = bt->tm_hour;
   if (bt->tm_isdst) {
-- 
2.43.0


From eb04e4ba6cf70c5625bf5c797d6ab2d3936b3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 12/66] fix: show CANopen dates and times in the right unit

---
 mdflib/src/ichannel.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..b976189 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -721,11 +721,11 @@ bool IChannel::GetChannelValue(const std::vector<uint8_t> &record_buffer,
     }
 
     case ChannelDataType::CanOpenDate: {
-      uint64_t ms_since_1970 = 0;
-      valid = GetCanOpenDate(record_buffer, ms_since_1970);
+      uint64_t ns_since_1970 = 0;
+      valid = GetCanOpenDate(record_buffer, ns_since_1970);
 
-      const auto ms = ms_since_1970 % 1000;
-      const auto time = static_cast<time_t>(ms_since_1970 / 1000);
+      const auto ms = (ns_since_1970 / 1'000'000) % 1000;
+      const auto time = static_cast<time_t>(ns_since_1970 / 1'000'000'000);
       const struct tm *bt = std::localtime(&time);
 
       std::ostringstream text;
@@ -736,11 +736,11 @@ bool IChannel::GetChannelValue(const std::vector<uint8_t> &record_buffer,
     }
 
     case ChannelDataType::CanOpenTime: {
-      uint64_t ms_since_1970 = 0;
-      valid = GetCanOpenTime(record_buffer, ms_since_1970);
+      uint64_t ns_since_1970 = 0;
+      valid = GetCanOpenTime(record_buffer, ns_since_1970);
 
-      const auto ms = ms_since_1970 % 1000;
-      const auto time = static_cast<time_t>(ms_since_1970 / 1000);
+      const auto ms = (ns_since_1970 / 1'000'000) % 1000;
+      const auto time = static_cast<time_t>(ns_since_1970 / 1'000'000'000);
       const struct tm *bt = std::localtime(&time);
 
       std::ostringstream text;
-- 
2.43.0


From 9f1e53c7938040397faf38ef4333adc2b0a3c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:50 +0000
Subject: [PATCH 13/66] fix: recalculate the times of queued samples before the
 worker may save them

---
 mdflib/src/mdfwriter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..313fc0a 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,7 +277,6 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
@@ -285,6 +284,10 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
+  // The worker thread may save samples from now on, so the times of the
+  // samples in the queue have to be recalculated before.
+  write_state_ = WriteState::StartMeas;
+
   NotifySample();
 
   // Set the time in the header if this is the first DG block in the file.
@@ -298,7 +301,6 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
                    
@@ -306,6 +308,10 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
+  // The worker thread may save samples from now on, so the times of the
+  // samples in the queue have to be recalculated before.
+  write_state_ = WriteState::StartMeas;
+
   NotifySample();
 
   // Set the time in the header if this is the first DG block in the file.
-- 
2.43.0


From 120401a1467e54cd9e25c003c641cefcc4826f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 14/66] fix: do not use a sample after it is removed from the
 queue

---
 mdflib/src/samplequeue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..5dfd845 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,11 +44,10 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
+
 void SampleQueue::Reset() {
   queue_.clear();
   size_ = 0;
-- 
2.43.0


From ff6c5b3175aa4ad31002103d69619e05f52693d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 15/66] fix: print the bus channel as a number in the names of
 filtered bus groups

---
 mdflib/src/iconfigadapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/iconfigadapter.cpp b/mdflib/src/iconfigadapter.cpp
index ee262ca..b3bc549 100644
--- a/mdflib/src/iconfigadapter.cpp
+++ b/mdflib/src/iconfigadapter.cpp
@@ -339,13 +339,13 @@ std::string IConfigAdapter::MakeGroupName(
   }
   switch (filter_type_) {
     case MessageFilter::ChannelFilter:
-      name << bus_name << bus_channel_ << "_" << base_name;
+      name << bus_name << static_cast<int>(bus_channel_) << "_" << base_name;
       break;
 
     case MessageFilter::MessageIdFilter:
       name << bus_name;
       if (bus_channel_ > 0) {
-        name << bus_channel_;
+        name << static_cast<int>(bus_channel_);
       }
       name << "_" << base_name;
       name << "_" << message_id_;
-- 
2.43.0


From 66e7783452340461b285a820e6ee8a2e43aebe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 16/66] fix: store the direction of LIN messages where the Dir
 channel is defined

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From 41655b724ae16c1c39de4db87acd7f21a649f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 17/66] fix: match the LIN channels with the LIN records

---
 mdflib/src/linconfigadapter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..e39a626 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,14 +408,14 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
 }
 
 void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   IChannel* cn_frame = group.CreateChannel("LIN_TransmissionError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name: " << "LIN_TransmissionError";
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From 1702b23eec4a8b79f2efbd9b35b35f95ea856966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 18/66] fix: store the channel of FlexRay messages

---
 mdflib/src/flexraymessage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..839c535 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From 0dc2172a9974e00fc3fc78e226c5996016c2c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 19/66] fix: use the settings of the adapter in the CAN and
 Ethernet adapters

---
 mdflib/src/canconfigadapter.cpp | 8 ++++----
 mdflib/src/ethconfigadapter.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/canconfigadapter.cpp b/mdflib/src/canconfigadapter.cpp
index 690d421..7a10d6b 100644
--- a/mdflib/src/canconfigadapter.cpp
+++ b/mdflib/src/canconfigadapter.cpp
@@ -126,8 +126,8 @@ void CanConfigAdapter::CreateCanDataFrameChannel(IChannelGroup& group) const {
   switch (StorageType()) {
     // In reality,  MLSD storage should have max length equal to 8.
     case MdfStorageType::MlsdStorage:
-      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + writer_.MaxLength() :
-                                (32 - 16) + writer_.MaxLength());
+      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + MaxLength() :
+                                (32 - 16) + MaxLength());
       break;
 
     case MdfStorageType::FixedLengthStorage:
@@ -225,7 +225,7 @@ void CanConfigAdapter::CreateCanErrorFrameChannel(IChannelGroup& group) const {
   cn_error_frame->DataType(ChannelDataType::ByteArray);
 
   if (StorageType() == MdfStorageType::MlsdStorage) {
-    cn_error_frame->DataBytes((34 - 16) + writer_.MaxLength());
+    cn_error_frame->DataBytes((34 - 16) + MaxLength());
   } else {
     cn_error_frame->DataBytes(34 - 8); // Index into SD or VLSD
   }
@@ -290,7 +290,7 @@ IChannel* CanConfigAdapter::CreateDataBytesChannel(IChannel& parent_channel,
     switch(StorageType()) {
       case MdfStorageType::MlsdStorage:
         frame_bytes->Type(ChannelType::MaxLength);
-        frame_bytes->BitCount(8 * writer_.MaxLength());
+        frame_bytes->BitCount(8 * MaxLength());
         break;
 
       case MdfStorageType::VlsdStorage:
diff --git a/mdflib/src/ethconfigadapter.cpp b/mdflib/src/ethconfigadapter.cpp
index c145e36..0661ecc 100644
--- a/mdflib/src/ethconfigadapter.cpp
+++ b/mdflib/src/ethconfigadapter.cpp
@@ -167,7 +167,7 @@ void EthConfigAdapter::CreateConfig(IDataGroup& dg_block) {
 }
 
 void EthConfigAdapter::CreateFrameChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_Frame");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_Frame";
@@ -210,7 +210,7 @@ void EthConfigAdapter::CreateFrameChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateChecksumErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
 
   IChannel* cn_frame = group.CreateChannel("ETH_ChecksumError");
   if (cn_frame == nullptr) {
@@ -254,7 +254,7 @@ void EthConfigAdapter::CreateChecksumErrorChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateLengthErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_LengthError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_LengthError";
@@ -296,7 +296,7 @@ void EthConfigAdapter::CreateLengthErrorChannels(IChannelGroup& group) const {
 }
 
 void EthConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   auto* cn_frame = group.CreateChannel("ETH_ReceiveError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name :" << "ETH_ReceiveError";
-- 
2.43.0


From bcfb6bdd134c118565c56af9ccc7d434a575e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 20/66] fix: restore all members of a CAN message in the CAN
 observer

---
 mdflib/src/canbusobserver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..391c033 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,12 +80,13 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
@@ -249,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
@@ -411,7 +413,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From f22a8dadd9e76f5ffb6057882c7637b474b4496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:14 +0000
Subject: [PATCH 21/66] fix: let the FlexRay records end with the payload index

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 839c535..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
-- 
2.43.0


From 4e050d13ac8c082c431159e2108da605570b3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:05 +0000
Subject: [PATCH 22/66] fix: do not use the temporary byte order buffer outside
 its scope

---
 mdflib/src/bigbuffer.h    | 7 ++++---
 mdflib/src/littlebuffer.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..356606c 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,16 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val;
+  memcpy(&val, buffer_.data(), sizeof(T));
   if (IsLittleEndian()) { // Computer uses little endian
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
   }
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
diff --git a/mdflib/src/littlebuffer.h b/mdflib/src/littlebuffer.h
index f508318..87ccc61 100644
--- a/mdflib/src/littlebuffer.h
+++ b/mdflib/src/littlebuffer.h
@@ -76,16 +76,17 @@ size_t LittleBuffer<T>::size() const {
 
 template <typename T>
 T LittleBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val;
+  memcpy(&val, buffer_.data(), sizeof(T));
 
   if (IsBigEndian()) {
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
   } 
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From 3f166b872973e429902f7871e5bb505ee0bbae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:15 +0000
Subject: [PATCH 23/66] fix: use the length channel of texts stored as MLSD

---
 mdflib/src/cn4block.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..53557ef 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -637,13 +637,18 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
   auto offset = ByteOffset();
   size_t nof_bytes = BitCount() / 8;
 
+  bool valid = true;
   if (Type() == ChannelType::VariableLength && VlsdRecordId() > 0) {
     offset = 0;
     nof_bytes = record_buffer.size();
+  } else if (Type() == ChannelType::MaxLength && mlsd_channel_ != nullptr) {
+    // Number of bytes is on another channel
+    uint64_t length = 0;
+    valid = mlsd_channel_->GetUnsignedValue(record_buffer, length);
+    nof_bytes = static_cast<size_t>(length);
   }
 
   std::vector<uint8_t> temp;
-  bool valid = true;
   dest.clear();
   if (Type() == ChannelType::VariableLength && VlsdRecordId() == 0) {
     // Index into the local data buffer
-- 
2.43.0


From 1ef0877de767c6391e825ca0799be00030656492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:39 +0000
Subject: [PATCH 24/66] fix: report the values of channels marked as all
 invalid as not valid

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 53557ef..c9b88e4 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1182,14 +1182,14 @@ void Cn4Block::SetValid(bool valid, uint64_t array_index) {
 
 bool Cn4Block::GetValid(const std::vector<uint8_t> &record_buffer,
                         uint64_t array_index) const {
-  bool valid = true;
+  bool valid = (Flags() & CnFlag::AllValuesInvalid) == 0;
   if (Flags() & CnFlag::InvalidValid && cg_block_ != nullptr) {
     const auto invalid_pos = invalid_bit_pos_ + array_index;
     const auto byte_offset = static_cast<size_t>( cg_block_->NofDataBytes() + (invalid_pos / 8) );
     const auto bit_offset = invalid_pos % 8;
     const uint8_t mask = 0x01 << bit_offset;
     if (byte_offset < record_buffer.size()) {
-      valid = (record_buffer[byte_offset] & mask) == 0;
+      valid = valid && (record_buffer[byte_offset] & mask) == 0;
     }
   }
   return valid;
-- 
2.43.0


From 2e124314c1f57de39c89de9d8250cb452d441df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 25/66] fix: take the valid flag of VLSD group values from the
 record of the channel

---
 include/mdf/ichannel.h       |  8 ++++----
 mdflib/src/channelobserver.h | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 86b10d7..b5d83d6 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -570,6 +570,10 @@ class IChannel : public IBlock  {
   virtual void CopyFrom(const IChannel& source) = 0;
   virtual void CopyConfigFrom(const IChannel& source) = 0;
 
+  /** \brief Support function that return true if the valid bit is set.*/
+  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
+                        uint64_t array_index) const;
+
  protected:
 
 
@@ -600,10 +604,6 @@ class IChannel : public IBlock  {
   /** \brief Support function that sets the valid flag. */
   virtual void SetValid(bool valid, uint64_t array_index);
 
-  /** \brief Support function that return true if the valid bit is set.*/
-  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
-                        uint64_t array_index) const;
-
   /** \brief Support function that sets unsigned little endian values */
   void SetUnsignedValueLe(uint64_t value, bool valid, uint64_t array_index);
   /** \brief Support function that sets unsigned big endian values */
diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index a84ae7c..95ae648 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -107,7 +107,8 @@ class ChannelObserver : public IChannelObserver {
           // If variable length, the value is an index into an SD block.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             uint64_t offset = 0; // Offset into SD/CG block
-            valid = channel_.GetUnsignedValue(record, offset, array_index);
+            valid = channel_.GetUnsignedValue(record, offset, array_index) &&
+                    channel_.GetValid(record, array_index);
 
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
             if (sample_index < offset_list_.size()) {
@@ -130,16 +131,15 @@ class ChannelObserver : public IChannelObserver {
           }
         } else if (channel_.VlsdRecordId() > 0 &&
                    record_id == channel_.VlsdRecordId()) {
-          // Add the VLSD offset data to this channel
+          // Add the VLSD offset data to this channel. Note that the valid
+          // flag is set by the record with the offset. The VLSD record doesn't
+          // have any invalidation bits.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
-            valid = channel_.GetChannelValue(record, value, array_index);
+            channel_.GetChannelValue(record, value, array_index);
             if (sample_index < value_list_.size()) {
               value_list_[sample_index] = value;
             }
-            if (sample_index < valid_list_.size()) {
-              valid_list_[sample_index] = valid;
-            }
           }
         }
         break;
-- 
2.43.0


From 52af536d5a6230457446311dd990e47b0e206eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:10 +0000
Subject: [PATCH 26/66] fix: continue with the next data block after an empty
 one

---
 mdflib/src/readcache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..573b168 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -4,6 +4,7 @@
  */
 
 #include "readcache.h"
+#include <algorithm>
 #include <iostream>
 
 #include "mdf/mdflogstream.h"
@@ -42,6 +43,13 @@ ReadCache::ReadCache( MdfBlock* block, std::streambuf& buffer)
   } else if (data_block_ != nullptr) {
     block_list_.push_back(data_block_);
   }
+
+  // A data block without any bytes doesn't end the data.
+  block_list_.erase(std::remove_if(block_list_.begin(), block_list_.end(),
+                      [] (const DataBlock* data_block) {
+                        return data_block != nullptr &&
+                               data_block->DataSize() == 0;
+                      }), block_list_.end());
 }
 
 bool ReadCache::ParseRecord() {
-- 
2.43.0


From cc9a0524ab55658f8edb9bacf6cf64446b47245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:29 +0000
Subject: [PATCH 27/66] fix: convert text channel values with the conversion of
 the channel

---
 include/mdf/ichannelconversion.h | 27 +++++++++++++++++----------
 include/mdf/ichannelobserver.h   | 17 +++++++++++++----
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index eeefc27..78a95cd 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -277,13 +277,20 @@ class IChannelConversion : public IBlock {
   template <typename T = std::string, typename V = std::string>
   bool Convert(const std::string& channel_value, std::string& eng_value) const {
     if (Type() == ConversionType::TextToTranslation) {
-      ConvertTextToTranslation(channel_value, eng_value);
-    } else if (Type() == ConversionType::NoConversion) {
+      return ConvertTextToTranslation(channel_value, eng_value);
+    }
+    if (Type() == ConversionType::TextToValue) {
+      double value = 0.0;
+      const bool valid = ConvertTextToValue(channel_value, value);
+      eng_value =
+          MdfHelper::FormatDouble(value, IsDecimalUsed() ? Decimals() : 6);
+      return valid;
+    }
+    if (Type() == ConversionType::NoConversion) {
       eng_value = channel_value;
-    } else {
-      return false;
+      return true;
     }
-    return true;
+    return false;
   }
 
   virtual void CopyFrom(const IChannelConversion& source);
@@ -524,13 +531,13 @@ template <typename T, typename V>
 bool IChannelConversion::Convert(const std::string& channel_value,
     double& eng_value) const {
   if (Type() == ConversionType::TextToValue) {
-    ConvertTextToValue(channel_value, eng_value);
+    return ConvertTextToValue(channel_value, eng_value);
   } else if (Type() == ConversionType::NoConversion) {
-    eng_value = std::stod(channel_value);
-  } else {
-    return false;
+    std::istringstream s(channel_value);
+    s >> eng_value;
+    return !s.fail();
   }
-  return true;
+  return false;
 }
 
 }  // namespace mdf
diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 18c3844..2f10785 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -9,6 +9,7 @@
  */
 #pragma once
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #include "mdf/ichannel.h"
@@ -360,10 +361,18 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
     case ChannelDataType::StringUTF8: {
       std::string v;
       valid = GetSampleText(sample,  v, array_index);
-      std::string temp;
-      conversion->Convert(v, temp);
-      std::istringstream temp1(temp);
-      temp1 >> value;
+      if constexpr (std::is_same_v<V, std::string>) {
+        valid = conversion->Convert(v, value) && valid;
+      } else if (conversion->Type() == ConversionType::TextToValue) {
+        double number = 0.0;
+        valid = conversion->Convert(v, number) && valid;
+        value = static_cast<V>(number);
+      } else {
+        std::string temp;
+        valid = conversion->Convert(v, temp) && valid;
+        std::istringstream temp1(temp);
+        temp1 >> value;
+      }
       break;
     }
 
-- 
2.43.0


From 143d2ac308553c9103b77427a91e62bccebe195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 28/66] fix: give the number of a referenced conversion without
 a detour over text

---
 include/mdf/ichannelconversion.h  | 17 +++++++++++++
 mdflib/src/cc4block.cpp           | 41 ++++++++++++++++++++++---------
 mdflib/src/cc4block.h             |  5 ++++
 mdflib/src/ichannelconversion.cpp |  5 ++++
 4 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index 78a95cd..7c2f2ce 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -329,6 +329,11 @@ class IChannelConversion : public IBlock {
   virtual bool ConvertValueRangeToValue(double channel_value,
       double& eng_value) const; ///< Value range to value conversion.
 
+  /** \brief Returns the conversion which a value (range) to text conversion
+   * uses for the channel value. Returns null if it uses a text. */
+  [[nodiscard]] virtual const IChannelConversion* ReferencedConversion(
+      double channel_value) const;
+
   virtual bool ConvertValueToText(double channel_value,
       std::string& eng_value) const; ///< Value to text conversion.
   virtual bool ConvertValueRangeToText(double channel_value,
@@ -390,6 +395,12 @@ inline bool IChannelConversion::Convert(const T& channel_value,
     }
 
     case ConversionType::ValueToText: {
+      if (const auto* conversion =
+            ReferencedConversion(static_cast<double>(channel_value));
+            conversion != nullptr) {
+        valid = conversion->Convert(channel_value, eng_value);
+        break;
+      }
       std::string text;
       valid = ConvertValueToText(static_cast<double>(channel_value), text);
       std::istringstream s(text);
@@ -398,6 +409,12 @@ inline bool IChannelConversion::Convert(const T& channel_value,
     }
 
     case ConversionType::ValueRangeToText: {
+      if (const auto* conversion =
+            ReferencedConversion(static_cast<double>(channel_value));
+            conversion != nullptr) {
+        valid = conversion->Convert(channel_value, eng_value);
+        break;
+      }
       std::string text;
       valid =
           ConvertValueRangeToText(static_cast<double>(channel_value), text);
diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..41cb1f9 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -346,11 +346,7 @@ MdfBlock* Cc4Block::Find(int64_t index) const {  // NOLINT
   return MdfBlock::Find(index);
 }
 
-bool Cc4Block::ConvertValueToText(double channel_value,
-                                  std::string& eng_value) const {
-  if (ref_list_.empty()) {
-    return false;
-  }
+size_t Cc4Block::ValueReference(double channel_value) const {
   // First iterate to find the ref
   size_t ref_index = ref_list_.size() - 1;  // Default CC/TX
   for (uint16_t n = 0; n < nof_values_; ++n) {
@@ -363,6 +359,15 @@ bool Cc4Block::ConvertValueToText(double channel_value,
       break;
     }
   }
+  return ref_index;
+}
+
+bool Cc4Block::ConvertValueToText(double channel_value,
+                                  std::string& eng_value) const {
+  if (ref_list_.empty()) {
+    return false;
+  }
+  const size_t ref_index = ValueReference(channel_value);
   if (ref_index >= ref_list_.size()) {
     return false;
   }
@@ -388,12 +393,7 @@ bool Cc4Block::ConvertValueToText(double channel_value,
   return true;
 }
 
-bool Cc4Block::ConvertValueRangeToText(double channel_value,
-                                       std::string& eng_value) const {
-  if (ref_list_.empty()) {
-    return false;
-  }
-
+size_t Cc4Block::ValueRangeReference(double channel_value) const {
   // First iterate to find the ref
   size_t ref_index = ref_list_.size() - 1;  // Default CC/TX
   for (uint16_t n = 0; n < nof_values_; ++n) {
@@ -416,6 +416,16 @@ bool Cc4Block::ConvertValueRangeToText(double channel_value,
       break;
     }
   }
+  return ref_index;
+}
+
+bool Cc4Block::ConvertValueRangeToText(double channel_value,
+                                       std::string& eng_value) const {
+  if (ref_list_.empty()) {
+    return false;
+  }
+
+  const size_t ref_index = ValueRangeReference(channel_value);
   if (ref_index >= ref_list_.size()) {
     return false;
   }
@@ -441,6 +451,15 @@ bool Cc4Block::ConvertValueRangeToText(double channel_value,
   return true;
 }
 
+const IChannelConversion* Cc4Block::ReferencedConversion(
+    double channel_value) const {
+  const size_t ref_index = Type() == ConversionType::ValueRangeToText ?
+      ValueRangeReference(channel_value) : ValueReference(channel_value);
+  return ref_index < ref_list_.size() ?
+      dynamic_cast<const IChannelConversion*>(ref_list_[ref_index].get())
+      : nullptr;
+}
+
 bool Cc4Block::ConvertTextToValue(const std::string& channel_value,
                                   double& eng_value) const {
   if (value_list_.empty()) {
diff --git a/mdflib/src/cc4block.h b/mdflib/src/cc4block.h
index 67cc0c3..188baf2 100644
--- a/mdflib/src/cc4block.h
+++ b/mdflib/src/cc4block.h
@@ -81,6 +81,8 @@ class Cc4Block : public MdfBlock, public IChannelConversion {
   void CopyFrom(const IChannelConversion& source) override;
 
  protected:
+  [[nodiscard]] const IChannelConversion* ReferencedConversion(
+      double channel_value) const override;
   bool ConvertValueToText(double channel_value,
                           std::string& eng_value) const override;
   bool ConvertValueRangeToText(double channel_value,
@@ -103,6 +105,9 @@ class Cc4Block : public MdfBlock, public IChannelConversion {
   std::unique_ptr<Cc4Block> cc_block_;  ///< Inverse conversion block
   std::unique_ptr<Md4Block> unit_;
   RefList ref_list_;
+
+  [[nodiscard]] size_t ValueReference(double channel_value) const;
+  [[nodiscard]] size_t ValueRangeReference(double channel_value) const;
 };
 
 }  // namespace mdf::detail
diff --git a/mdflib/src/ichannelconversion.cpp b/mdflib/src/ichannelconversion.cpp
index 6be5e79..311bf91 100644
--- a/mdflib/src/ichannelconversion.cpp
+++ b/mdflib/src/ichannelconversion.cpp
@@ -295,6 +295,11 @@ bool IChannelConversion::ConvertTextToValue(const std::string &channel_value,
   return false;
 }
 
+const IChannelConversion* IChannelConversion::ReferencedConversion(
+    double) const {
+  return nullptr;
+}
+
 bool IChannelConversion::ConvertValueToText(double channel_value,
                                             std::string &eng_value) const {
   return false;
-- 
2.43.0


From d979519c2942ab4ca5c6a9352d6c556995a87cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:47 +0000
Subject: [PATCH 29/66] fix: bound check of big-endian unsigned array elements

---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index b976189..7e8a0cb 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From 334f034e573a6a45a2b99572e510ccca8d5a5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:47 +0000
Subject: [PATCH 30/66] fix: store the links of channel arrays to blocks
 written after them

---
 mdflib/src/ca4block.cpp | 80 +++++++++++++++++++++--------------------
 mdflib/src/ca4block.h   |  2 ++
 mdflib/src/cn4block.cpp |  1 +
 mdflib/src/hd4block.cpp | 14 ++++++++
 4 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..9014ead 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -444,6 +444,48 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
 
   link_list_.resize(nof_links, 0);
 
+  UpdateReferenceLinks(buffer);
+
+  uint64_t bytes = MdfBlock::Write(buffer);
+  bytes += WriteNumber(buffer, type_);
+  bytes += WriteNumber(buffer, storage_);
+  bytes += WriteNumber(buffer, dimensions_);
+  bytes += WriteNumber(buffer, flags_);
+  bytes += WriteNumber(buffer, byte_offset_base_);
+  bytes += WriteNumber(buffer, invalid_bit_pos_base_);
+
+  for (size_t dimension = 0; dimension < Dimensions(); ++dimension) {
+    const uint64_t dim_size = dimension < dim_size_list_.size() ?
+                                   dim_size_list_[dimension] : 0;
+    bytes += WriteNumber(buffer, dim_size);
+  }
+  if ((Flags() & CaFlag::FixedAxis) != 0) {
+    for (size_t axis = 0; axis < SumOfArray(); ++axis) {
+      const double axis_value = axis < axis_value_list_.size() ?
+                                axis_value_list_[axis] : 0.0;
+      bytes += WriteNumber(buffer, axis_value);
+    }
+  }
+
+  switch (Storage() ) {
+    case ArrayStorage::DgTemplate:
+    case ArrayStorage::CgTemplate: {
+      for (size_t cycle = 0; cycle < ProductOfArray(); ++cycle) {
+        const uint64_t count =
+            cycle < cycle_count_list_.size() ? cycle_count_list_[cycle] : 0;
+        bytes += WriteNumber(buffer, count);
+      }
+      break;
+    }
+
+    default:
+      break;
+  }
+  UpdateBlockSize(buffer, bytes);
+  return bytes;
+}
+
+void Ca4Block::UpdateReferenceLinks(std::streambuf& buffer) {
   size_t link_index = kIndexArray;
   if (Storage() == ArrayStorage::DgTemplate) {
     for (size_t index = 0; index < ProductOfArray(); ++index) {
@@ -485,44 +527,6 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
     link_index += WriteReferences(buffer, axis_list_,
                                   Dimensions(), link_index);
   }
-
-  uint64_t bytes = MdfBlock::Write(buffer);
-  bytes += WriteNumber(buffer, type_);
-  bytes += WriteNumber(buffer, storage_);
-  bytes += WriteNumber(buffer, dimensions_);
-  bytes += WriteNumber(buffer, flags_);
-  bytes += WriteNumber(buffer, byte_offset_base_);
-  bytes += WriteNumber(buffer, invalid_bit_pos_base_);
-
-  for (size_t dimension = 0; dimension < Dimensions(); ++dimension) {
-    const uint64_t dim_size = dimension < dim_size_list_.size() ?
-                                   dim_size_list_[dimension] : 0;
-    bytes += WriteNumber(buffer, dim_size);
-  }
-  if ((Flags() & CaFlag::FixedAxis) != 0) {
-    for (size_t axis = 0; axis < SumOfArray(); ++axis) {
-      const double axis_value = axis < axis_value_list_.size() ?
-                                axis_value_list_[axis] : 0.0;
-      bytes += WriteNumber(buffer, axis_value);
-    }
-  }
-
-  switch (Storage() ) {
-    case ArrayStorage::DgTemplate:
-    case ArrayStorage::CgTemplate: {
-      for (size_t cycle = 0; cycle < ProductOfArray(); ++cycle) {
-        const uint64_t count =
-            cycle < cycle_count_list_.size() ? cycle_count_list_[cycle] : 0;
-        bytes += WriteNumber(buffer, count);
-      }
-      break;
-    }
-
-    default:
-      break;
-  }
-  UpdateBlockSize(buffer, bytes);
-  return bytes;
 }
 
 int64_t Ca4Block::Index() const { return FilePosition(); }
diff --git a/mdflib/src/ca4block.h b/mdflib/src/ca4block.h
index a3aaf2d..3fc7e4d 100644
--- a/mdflib/src/ca4block.h
+++ b/mdflib/src/ca4block.h
@@ -61,6 +61,8 @@ class Ca4Block : public MdfBlock, public IChannelArray {
 
   uint64_t Read(std::streambuf& buffer) override;
   void FindAllReferences(std::streambuf& buffer);
+  /** \brief Updates the links to other blocks when these are written. */
+  void UpdateReferenceLinks(std::streambuf& buffer);
 
   uint64_t Write(std::streambuf& buffer) override;
 
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c9b88e4..4d72ee5 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1311,6 +1311,7 @@ std::vector<IChannelArray*> Cn4Block::ChannelArrays() const {
 
 IChannelArray *Cn4Block::CreateChannelArray() {
   auto temp = std::make_unique<Ca4Block>();
+  temp->Init(*this);
   temp->SetParentChannel(this);
   cx_list_.emplace_back(std::move(temp));
    return dynamic_cast<IChannelArray*>(cx_list_.back().get());
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index 6f95b9e..e880da0 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 
 #include "ixmlfile.h"
+#include "ca4block.h"
 #include "dt4block.h"
 #include "cn4block.h"
 #include "sr4block.h"
@@ -555,6 +556,19 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
       ev4->UpdateReferenceLinks(buffer);
     }
   }
+  // Same for the CA blocks.
+  for (auto& dg4 : dg_list_) {
+    for (auto& cg4 : dg4->Cg4()) {
+      for (auto& cn4 : cg4->Cn4()) {
+        for (auto& block : cn4->Cx4()) {
+          if (auto* ca4 = dynamic_cast<Ca4Block*>(block.get());
+              ca4 != nullptr) {
+            ca4->UpdateReferenceLinks(buffer);
+          }
+        }
+      }
+    }
+  }
   return bytes;
 }
 
-- 
2.43.0


From 66c36955d8a9081121b18ca344c3d1e1fdc93279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:56 +0000
Subject: [PATCH 31/66] fix: keep line ends and tabs of texts in metadata XML

---
 mdflib/src/ixmlnode.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..c3b7cbc 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -11,7 +11,7 @@
 #include "xmlnode.h"
 
 namespace {
-std::string XmlString(const std::string &text) {
+std::string XmlString(const std::string &text, bool attribute = false) {
   std::ostringstream xml_string;
   for (char in_char : text) {
     switch (in_char) {
@@ -35,6 +35,21 @@ std::string XmlString(const std::string &text) {
         xml_string << "&apos;";
         break;
 
+      case '\r':
+        // A parser normalizes the line ends
+        xml_string << "&#13;";
+        break;
+
+      case '\n':
+      case '\t':
+        // A parser normalizes white space in attributes
+        if (attribute) {
+          xml_string << "&#" << static_cast<int>(in_char) << ";";
+        } else {
+          xml_string << in_char;
+        }
+        break;
+
       default:
         xml_string << in_char;
         break;
@@ -146,7 +161,7 @@ void IXmlNode::Write(std::ostream &dest, size_t level) {  // NOLINT
   }
   dest << "<" << TagName();
   for (const auto &attr : attribute_list_) {
-    dest << " " << attr.first << "='" << XmlString(attr.second) << "'";
+    dest << " " << attr.first << "='" << XmlString(attr.second, true) << "'";
   }
   if (node_list_.empty() && value_.empty()) {
     dest << "/>" << std::endl;
-- 
2.43.0


From 6c1e9e66adc5b7722f4f3d8a14900c113bf64aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:17 +0000
Subject: [PATCH 32/66] fix: store floating point metadata with all digits

---
 mdflib/src/ixmlnode.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..24c2011 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -7,9 +7,11 @@
  */
 #pragma once
 
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 #include <vector>
 #include <map>
@@ -207,6 +209,17 @@ void IXmlNode::Value(const T &value) {
   //  value_ = std::to_string(value);
   std::ostringstream temp;
   temp << value;
+  if constexpr (std::is_floating_point_v<T>) {
+    // Use more digits if the default is not enough to restore the value
+    std::istringstream check(temp.str());
+    T restored = {};
+    check >> restored;
+    if (restored != value) {
+      temp.str("");
+      temp.precision(std::numeric_limits<T>::max_digits10);
+      temp << value;
+    }
+  }
   value_ = temp.str();
 }
 
-- 
2.43.0


From 4a444dd9a72111c6377b47a963b66825d4ab61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 33/66] fix: keep the metadata of a group or hierarchy when its
 description is set

---
 mdflib/src/cg4block.cpp | 6 ++++++
 mdflib/src/ch4block.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index d492ff1..cab6d48 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -67,6 +67,12 @@ void Cg4Block::Name(const std::string &name) { acquisition_name_ = name; }
 std::string Cg4Block::Name() const { return acquisition_name_; }
 
 void Cg4Block::Description(const std::string &description) {
+  if (auto *md4 = dynamic_cast<Md4Block *>(md_comment_.get());
+      md4 != nullptr && md4->BlockType() == "MD") {
+    // Keep the other metadata
+    md4->TxComment(description);
+    return;
+  }
   md_comment_ = std::make_unique<Md4Block>(description);
 }
 
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 061d859..40995bb 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,6 +148,12 @@ void Ch4Block::Type(ChType type) { type_ = static_cast<uint8_t>(type); }
 ChType Ch4Block::Type() const { return static_cast<ChType>(type_); }
 
 void Ch4Block::Description(const std::string &description) {
+  if (auto *md4 = dynamic_cast<Md4Block *>(md_comment_.get());
+      md4 != nullptr && md4->BlockType() == "MD") {
+    // Keep the other metadata
+    md4->TxComment(description);
+    return;
+  }
   md_comment_ = std::make_unique<Md4Block>(description);
 }
 
-- 
2.43.0


From 4a9f4ad657611243639761a9ab40286f25df04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:11 +0000
Subject: [PATCH 34/66] fix: store default x-axis links to blocks written after
 the channel

---
 mdflib/src/cn4block.cpp | 20 ++++++++++++++++++++
 mdflib/src/cn4block.h   |  3 +++
 mdflib/src/dg4block.cpp | 19 -------------------
 mdflib/src/dg4block.h   |  1 -
 mdflib/src/hd4block.cpp |  9 +++------
 5 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 4d72ee5..4c86064 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -561,6 +561,26 @@ uint64_t Cn4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Cn4Block::UpdateReferenceLinks(std::streambuf& buffer) {  // NOLINT
+  if ((flags_ & CnFlag::DefaultX) != 0 && !default_x_.IsEmpty()) {
+    const auto index = kIndexAt + nof_attachments_;
+    const auto *dg4 = default_x_.data_group;
+    const auto *cg4 = default_x_.channel_group;
+    const auto *cn4 = default_x_.channel;
+    UpdateLink(buffer, index + 0, dg4 != nullptr ? dg4->Index() : 0);
+    UpdateLink(buffer, index + 1, cg4 != nullptr ? cg4->Index() : 0);
+    UpdateLink(buffer, index + 2, cn4 != nullptr ? cn4->Index() : 0);
+  }
+  for (auto &block : cx_list_) {
+    if (auto *ca4 = dynamic_cast<Ca4Block *>(block.get()); ca4 != nullptr) {
+      ca4->UpdateReferenceLinks(buffer);
+    } else if (auto *cn4 = dynamic_cast<Cn4Block *>(block.get());
+               cn4 != nullptr) {
+      cn4->UpdateReferenceLinks(buffer);
+    }
+  }
+}
+
 MdfBlock *Cn4Block::Find(int64_t index) const {
   if (si_block_) {
     auto *p = si_block_->Find(index);
diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 559b660..442ad0d 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -79,6 +79,9 @@ class Cn4Block : public DataListBlock, public IChannel {
 
   [[nodiscard]] const Cx4List& Cx4() const { return cx_list_; }
 
+  // Updates the links to blocks that may be written after this block.
+  void UpdateReferenceLinks(std::streambuf& buffer);
+
   [[nodiscard]] const Si4Block* Si() const { return si_block_.get(); }
   void AddCc4(std::unique_ptr<Cc4Block>& cc4);
   [[nodiscard]] const Cc4Block* Cc() const { return cc_block_.get(); }
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index c5be261..29e6824 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -136,13 +136,6 @@ uint64_t Dg4Block::Write(std::streambuf& buffer) {
         continue;
       }
       UpdateVlsdChannel(buffer, *cg4);
-      const auto& cn4_list = cg4->Cn4();
-      for (const auto& channel_x : cn4_list) {
-        if (!channel_x) {
-          continue;
-        }
-        UpdateDefaultX(buffer, *channel_x);
-      }
     }
   }
   // Need to write any data block, so it is positioned last in the file
@@ -599,18 +592,6 @@ void Dg4Block::UpdateVlsdChannel(std::streambuf& buffer, const Cg4Block& cg4) co
     }
   }
 }
-void Dg4Block::UpdateDefaultX(std::streambuf& buffer, Cn4Block& cn4) {
-  if ((cn4.Flags() & CnFlag::DefaultX) != 0) {
-    const auto default_x = cn4.DefaultX();
-    const auto index = 8 + cn4.AttachmentList().size();
-    const auto *dg4_x = default_x.data_group;
-    const auto *cg4_x = default_x.channel_group;
-    const auto *cn4_x = default_x.channel;
-    cn4.UpdateLink(buffer, index + 0, dg4_x != nullptr ? dg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 1, cg4_x != nullptr ? cg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 2, cn4_x != nullptr ? cn4_x->Index() : 0);
-  }
-}
 
 Cg4Block* Dg4Block::FindCgRecordId(uint64_t record_id) const {
   if (cg_list_.size() == 1) {
diff --git a/mdflib/src/dg4block.h b/mdflib/src/dg4block.h
index de40bd7..a8bbbfe 100644
--- a/mdflib/src/dg4block.h
+++ b/mdflib/src/dg4block.h
@@ -72,7 +72,6 @@ class Dg4Block : public DataListBlock, public IDataGroup {
   uint64_t ReadRecordId(std::streambuf& buffer, uint64_t& record_id) const;
 
   void UpdateVlsdChannel(std::streambuf& buffer, const Cg4Block& cg4) const;
-  static void UpdateDefaultX(std::streambuf& buffer, Cn4Block& cn4);
 
 };
 
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index e880da0..0cdcb70 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -556,15 +556,12 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
       ev4->UpdateReferenceLinks(buffer);
     }
   }
-  // Same for the CA blocks.
+  // Same for the CN and CA blocks.
   for (auto& dg4 : dg_list_) {
     for (auto& cg4 : dg4->Cg4()) {
       for (auto& cn4 : cg4->Cn4()) {
-        for (auto& block : cn4->Cx4()) {
-          if (auto* ca4 = dynamic_cast<Ca4Block*>(block.get());
-              ca4 != nullptr) {
-            ca4->UpdateReferenceLinks(buffer);
-          }
+        if (cn4) {
+          cn4->UpdateReferenceLinks(buffer);
         }
       }
     }
-- 
2.43.0


From 237b444e6099a463e66f0c9befd3f2fe98ceeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:59 +0000
Subject: [PATCH 35/66] fix: give the text of comments stored as plain text

---
 mdflib/src/imetadata.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdflib/src/imetadata.cpp b/mdflib/src/imetadata.cpp
index b1a0706..f71a42b 100644
--- a/mdflib/src/imetadata.cpp
+++ b/mdflib/src/imetadata.cpp
@@ -4,6 +4,8 @@
  */
 
 #include "mdf/imetadata.h"
+
+#include "mdf/mdfhelper.h"
 #include "mdf/mdflogstream.h"
 
 #include "ixmlfile.h"
@@ -103,6 +105,12 @@ void IMetaData::StringProperty(const std::string& tag,
 }
 
 std::string IMetaData::StringProperty(const std::string& tag) const {
+  if (BlockType() == "TX") {
+    // The comment is a plain text without any other properties
+    std::string text = tag == "TX" ? XmlSnippet() : std::string();
+    MdfHelper::Trim(text);
+    return text;
+  }
   auto xml = CreateXmlFile();
   if (!xml) {
     return {};
-- 
2.43.0


From c225c86d2e59b1ca5560961d688958b65c05976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:51 +0000
Subject: [PATCH 36/66] fix: read the name details and all exponents of
 harmonized objects

---
 mdflib/src/hocompumethod.cpp       | 2 ++
 mdflib/src/hophysicaldimension.cpp | 6 ++++--
 mdflib/src/hounit.cpp              | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hocompumethod.cpp b/mdflib/src/hocompumethod.cpp
index a5e7f65..b213e44 100644
--- a/mdflib/src/hocompumethod.cpp
+++ b/mdflib/src/hocompumethod.cpp
@@ -140,6 +140,8 @@ void HoCompuMethod::ToXml(IXmlNode& root_node) const {
 }
 
 void HoCompuMethod::FromXml(const IXmlNode& root_node) {
+  // The name details are normally tags in this tag
+  HoNameDetails::FromXml(root_node);
   IXmlNode::ChildList node_list;
   root_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 3b80fb5..28ae711 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -104,6 +104,8 @@ void HoPhysicalDimension::ToXml(IXmlNode& root_node) const {
 }
 
 void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
+  // The name details are normally tags in this tag
+  HoNameDetails::FromXml(dim_node);
   IXmlNode::ChildList node_list;
   dim_node.GetChildList(node_list);
   identity_ = dim_node.Attribute<std::string>("ID", "");
@@ -123,9 +125,9 @@ void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
       current_exp_ = node->Value<double>();
     } else if (node->IsTagName("TEMPERATURE-EXP")) {
       temp_exp_ = node->Value<double>();
-    } else if (node->IsTagName("MOLAR-EXP")) {
+    } else if (node->IsTagName("MOLAR-AMOUNT-EXP")) {
       molar_exp_ = node->Value<double>();
-    } else if (node->IsTagName("LUMINOUS-EXP")) {
+    } else if (node->IsTagName("LUMINOUS-INTENSITY-EXP")) {
       luminous_exp_ = node->Value<double>();
     }
   }
diff --git a/mdflib/src/hounit.cpp b/mdflib/src/hounit.cpp
index bd39cd7..da56274 100644
--- a/mdflib/src/hounit.cpp
+++ b/mdflib/src/hounit.cpp
@@ -75,6 +75,8 @@ void HoUnit::ToXml(IXmlNode& units_node) const {
 void HoUnit::FromXml(const IXmlNode& unit_node) {
   identity_ = unit_node.Attribute<std::string>("ID", "");
 
+  // The name details are normally tags in this tag
+  HoNameDetails::FromXml(unit_node);
   IXmlNode::ChildList node_list;
   unit_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
-- 
2.43.0


From 430b447f3119f6cf76575ea393fccecea0cbfd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:23 +0000
Subject: [PATCH 37/66] fix: store and read the array indexes of a formula
 variable

---
 mdflib/src/mdvariable.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..9f64567 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -141,17 +141,10 @@ void MdVariable::FromXml(const IXmlNode& var_node) {
   gp_ = var_node.Attribute<std::string>("gp", "");
   const std::string idx_list = var_node.Attribute<std::string>("idx", "");
   try {
-    std::ostringstream temp;
-    for (const char input : idx_list) {
-      if (iswspace(input)) {
-        const uint64_t idx = std::stoull(temp.str());
-        AddArrayIndex(idx);
-        temp.clear();
-        temp.str("");
-      }
-    }
-    if (!temp.str().empty()) {
-      const uint64_t idx = std::stoull(temp.str());
+    std::istringstream temp(idx_list);
+    std::string index;
+    while (temp >> index) {
+      const uint64_t idx = std::stoull(index);
       AddArrayIndex(idx);
     }
   } catch (const std::exception& ) {}
-- 
2.43.0


From 3efcf825b0ec8f196b61fb8bbb5431430359650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 38/66] fix: keep all digits of numbers in structured comments

---
 include/mdf/mdnumber.h   |  2 +-
 include/mdf/mdproperty.h | 26 +++++++++++++++++++++++++-
 mdflib/src/ixmlnode.h    | 18 ++++++++++++------
 mdflib/src/mdnumber.cpp  |  2 +-
 4 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/include/mdf/mdnumber.h b/include/mdf/mdnumber.h
index f09c298..1dcc005 100644
--- a/include/mdf/mdnumber.h
+++ b/include/mdf/mdnumber.h
@@ -95,7 +95,7 @@ class MdNumber : public MdStandardAttribute {
 template <typename T>
 void MdNumber::Number(T value) {
   try {
-    number_ = std::to_string(value);
+    number_ = MdNumberToString(value);
   } catch (const std::exception&) {
     number_.clear();
     number_.shrink_to_fit();
diff --git a/include/mdf/mdproperty.h b/include/mdf/mdproperty.h
index c58d95d..5b578cd 100644
--- a/include/mdf/mdproperty.h
+++ b/include/mdf/mdproperty.h
@@ -5,10 +5,12 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <string_view>
 #include <string>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 #include "mdf/mdstandardattribute.h"
 
@@ -26,6 +28,28 @@ enum class MdDataType : uint16_t {
   MdHex, ///< Same as MdInteger but written as hex string
 };
 
+/** \brief Converts a number to a text without losing any digits.
+ * @tparam T Type of number.
+ * @param value Number to convert.
+ * @return The number as text.
+ */
+template <typename T>
+[[nodiscard]] std::string MdNumberToString(T value) {
+  std::string text = std::to_string(value);
+  if constexpr (std::is_floating_point_v<T>) {
+    T restored = {};
+    std::istringstream check(text);
+    check >> restored;
+    if (restored != value) {
+      std::ostringstream temp;
+      temp.precision(std::numeric_limits<T>::max_digits10);
+      temp << value;
+      text = temp.str();
+    }
+  }
+  return text;
+}
+
 class MdProperty;
 class IXmlNode;
 
@@ -80,7 +104,7 @@ class MdProperty : public MdStandardAttribute {
 
 template <typename T>
 void MdProperty::Value(T value) {
-  value_ = std::to_string(value);
+  value_ = MdNumberToString(value);
 }
 
 template <>
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 24c2011..9819945 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -202,11 +202,14 @@ class IXmlNode {
 
   [[nodiscard]] virtual std::unique_ptr<IXmlNode> CreateNode(
       const std::string &name) const;  ///< Create a node
+
+  template <typename T>
+  [[nodiscard]] static std::string ToText(
+      const T &value);  ///< Converts to text, keeps all digits of a number
 };
 
 template <typename T>
-void IXmlNode::Value(const T &value) {
-  //  value_ = std::to_string(value);
+std::string IXmlNode::ToText(const T &value) {
   std::ostringstream temp;
   temp << value;
   if constexpr (std::is_floating_point_v<T>) {
@@ -220,7 +223,12 @@ void IXmlNode::Value(const T &value) {
       temp << value;
     }
   }
-  value_ = temp.str();
+  return temp.str();
+}
+
+template <typename T>
+void IXmlNode::Value(const T &value) {
+  value_ = ToText(value);
 }
 
 /** \brief Adds a boolean value
@@ -282,9 +290,7 @@ inline std::string IXmlNode::Attribute(const std::string& key,
 }
 template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
-  std::ostringstream temp;
-  temp << value;
-  attribute_list_.insert({key, temp.str()});
+  attribute_list_.insert({key, ToText(value)});
 }
 
 template <typename T>
diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..719383e 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -13,7 +13,7 @@ namespace mdf {
 
 MdNumber::MdNumber(double number)
 : MdStandardAttribute(),
-  number_(std::to_string(number)),
+  number_(MdNumberToString(number)),
   data_type_(MdDataType::MdFloat) {
 }
 
-- 
2.43.0


From 3b2763223ecbdb038e3b4ffd3486a128589da472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 39/66] fix: store the default name of alternative names

---
 mdflib/src/mdalternativename.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index a46bcec..5defd66 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -13,8 +13,8 @@
 namespace mdf {
 
 bool MdAlternativeName::IsActive() const {
-  return !name_list_.empty() || !display_list_.empty() ||
-      !vendor_list_.empty() || !description_list_.empty();
+  return !default_name_.empty() || !name_list_.empty() ||
+      !display_list_.empty() || !vendor_list_.empty() || !description_list_.empty();
 }
 
 void MdAlternativeName::DefaultName(std::string name) {
-- 
2.43.0


From a51de710cd39f2919fe3d8c56f26071c014b5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:00 +0000
Subject: [PATCH 40/66] fix: look up a property by its path in the named tree

---
 mdflib/src/mdlist.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdflib/src/mdlist.cpp b/mdflib/src/mdlist.cpp
index ec479ca..79941be 100644
--- a/mdflib/src/mdlist.cpp
+++ b/mdflib/src/mdlist.cpp
@@ -159,8 +159,12 @@ const MdProperty* MdList::GetProperty(const std::string& name) const {
       }
     }
   } else {
+    const auto parent_name = name.substr(0, separator);
     const auto prop_name = name.substr(separator + 1);
     for (const auto& [tree_name, tree] : tree_list_) {
+      if (tree_name != parent_name) {
+        continue;
+      }
       if (const MdProperty* temp = tree.GetProperty(prop_name);
           temp != nullptr) {
         return temp;
@@ -168,6 +172,9 @@ const MdProperty* MdList::GetProperty(const std::string& name) const {
     }
 
     for (const auto& [list_name, list] : list_list_) {
+      if (list_name != parent_name) {
+        continue;
+      }
       if (const MdProperty* temp = list.GetProperty(prop_name);
           temp != nullptr) {
         return temp;
@@ -201,8 +208,12 @@ const MdEnumerate* MdList::GetEnumerate(const std::string& name) const {
       }
     }
   } else {
+    const auto parent_name = name.substr(0, separator);
     const auto enum_name = name.substr(separator + 1);
     for (const auto& [tree_name, tree] : tree_list_) {
+      if (tree_name != parent_name) {
+        continue;
+      }
       if (const MdEnumerate* temp = tree.GetEnumerate(enum_name);
           temp != nullptr) {
         return temp;
@@ -210,6 +221,9 @@ const MdEnumerate* MdList::GetEnumerate(const std::string& name) const {
     }
 
     for (const auto& [list_name, list] : list_list_) {
+      if (list_name != parent_name) {
+        continue;
+      }
       if (const MdEnumerate* temp = list.GetEnumerate(enum_name);
           temp != nullptr) {
         return temp;
-- 
2.43.0


From 744c2f03837b4c576a99c21c505b6acef48f4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:15 +0000
Subject: [PATCH 41/66] fix: keep all digits of floating point tag values

---
 include/mdf/etag.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mdf/etag.h b/include/mdf/etag.h
index 349742a..3231479 100644
--- a/include/mdf/etag.h
+++ b/include/mdf/etag.h
@@ -14,8 +14,10 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 namespace mdf {
 
@@ -207,6 +209,17 @@ template <typename T>
 void ETag::Value(const T& value) {
   std::ostringstream temp;
   temp << value;
+  if constexpr (std::is_floating_point_v<T>) {
+    // Use more digits if the default is not enough to restore the value
+    std::istringstream check(temp.str());
+    T restored = {};
+    check >> restored;
+    if (restored != value) {
+      temp.str("");
+      temp.precision(std::numeric_limits<T>::max_digits10);
+      temp << value;
+    }
+  }
   value_ = temp.str();
 }
 
-- 
2.43.0


From 2d8111270c465fdf513e60b4dd626e20d9603085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:17 +0000
Subject: [PATCH 42/66] fix: repair of unfinalized files counts complete
 records only and is saved when appending

---
 mdflib/src/cg4block.cpp | 18 ++++++++++--------
 mdflib/src/dg4block.cpp |  4 ++++
 mdflib/src/dt4block.cpp |  5 ++++-
 mdflib/src/mdf4file.cpp | 11 +++++++++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index cab6d48..30b54da 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -171,12 +171,17 @@ void Cg4Block::GetBlockProperty(BlockPropertyList &dest) const {
 uint64_t Cg4Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader4(buffer);
   bytes += ReadNumber(buffer, record_id_);
+  nof_samples_position_ = GetFilePosition(buffer);
   bytes += ReadNumber(buffer, nof_samples_);
   bytes += ReadNumber(buffer, flags_);
   bytes += ReadNumber(buffer, path_separator_);
   std::vector<uint8_t> reserved;
   bytes += ReadByte(buffer, reserved, 4);
+  // The size of a VLSD group may be updated later.
+  const bool vlsd = (flags_ & CgFlag::VlsdChannel) != 0;
+  nof_data_position_ = vlsd ? GetFilePosition(buffer) : 0;
   bytes += ReadNumber(buffer, nof_data_bytes_);
+  nof_invalid_position_ = vlsd ? GetFilePosition(buffer) : 0;
   bytes += ReadNumber(buffer, nof_invalid_bytes_);
 
   acquisition_name_ = ReadTx4(buffer, kIndexName);
@@ -407,18 +412,15 @@ ISourceInformation *Cg4Block::SourceInformation() const {
 }
 
 void Cg4Block::UpdateCycleCounter(uint64_t nof_samples) {
-  nof_samples_ += nof_samples;
+  // All records in the file have been counted.
+  nof_samples_ = nof_samples;
 }
 
 void Cg4Block::UpdateVlsdSize(uint64_t nof_data_bytes) {
   if (Flags() & CgFlag::VlsdChannel) {
-    uint64_t vlsd_size = nof_invalid_bytes_;
-    vlsd_size <<= 32;
-    vlsd_size += nof_data_bytes_;
-
-    vlsd_size += nof_data_bytes;
-    nof_data_bytes_ = static_cast<uint32_t>(vlsd_size & 0xFFFFFFFF);
-    nof_invalid_bytes_ = static_cast<uint32_t>(vlsd_size >> 32);
+    // All records in the file have been counted.
+    nof_data_bytes_ = static_cast<uint32_t>(nof_data_bytes & 0xFFFFFFFF);
+    nof_invalid_bytes_ = static_cast<uint32_t>(nof_data_bytes >> 32);
   }
 }
 
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 29e6824..6125ab5 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -759,6 +759,10 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
       count_bytes += StepFilePosition(buffer, record_size);
     }
+    if (count + count_bytes > dt_block->DataSize()) {
+      // The last record is incomplete.
+      break;
+    }
     ++counter.NofSamples;
     counter.NofBytes += count_bytes;
     count += count_bytes;
diff --git a/mdflib/src/dt4block.cpp b/mdflib/src/dt4block.cpp
index 1c36cda..62f048f 100644
--- a/mdflib/src/dt4block.cpp
+++ b/mdflib/src/dt4block.cpp
@@ -37,7 +37,7 @@ uint64_t Dt4Block::DataSize() const {
 void Dt4Block::UpdateDataSize(std::streambuf& buffer) {
   int64_t last_file_position = GetLastFilePosition(buffer);
   const auto data_size = last_file_position - data_position_;
-  if (data_size > 0) {
+  if (data_size >= 0) {
     block_length_ = 24 + static_cast<uint64_t>(data_size);
   }
   MDF_TRACE() << "Updated the last DT block data size. Size: " << data_size;
@@ -59,6 +59,9 @@ uint64_t Dt4Block::Write(std::streambuf& buffer) {
     data_position_ = GetFilePosition(buffer);
     bytes += WriteByte(buffer, data_);
   } else {
+    // The length may have been corrected (unfinalized file).
+    SetFilePosition(buffer, FilePosition() + 8);
+    WriteNumber(buffer, block_length_);
     bytes = block_length_;
   }
   return bytes;
diff --git a/mdflib/src/mdf4file.cpp b/mdflib/src/mdf4file.cpp
index bb61516..ad2d2ec 100644
--- a/mdflib/src/mdf4file.cpp
+++ b/mdflib/src/mdf4file.cpp
@@ -172,6 +172,17 @@ bool Mdf4File::Write(std::streambuf& buffer) {
   }
 
   try {
+    if (finalized_done_) {
+      // The file was unfinalized when it was read. Save the corrected counters
+      // and data lengths before anything is appended to the file.
+      for (const auto& dg4 : hd_block_->Dg4()) {
+        if (dg4 && dg4->FilePosition() > 0) {
+          dg4->Write(buffer);
+        }
+      }
+      id_block_->IsFinalized(true, buffer, 0, 0);
+      finalized_done_ = false;
+    }
     id_block_->Write(buffer);
     hd_block_->Write(buffer);
   } catch (const std::exception &err) {
-- 
2.43.0


From 08e2a0e180197620242c86b31099c269e40ae58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:56 +0000
Subject: [PATCH 43/66] fix: detect cyclic and self-nested block links when
 reading

---
 mdflib/src/cg3block.cpp      |  4 ++++
 mdflib/src/cn4block.cpp      |  4 ++++
 mdflib/src/datalistblock.cpp |  6 ++++++
 mdflib/src/dg3block.cpp      |  2 ++
 mdflib/src/hd3block.cpp      |  2 ++
 mdflib/src/mdfblock.cpp      | 17 +++++++++++++++++
 mdflib/src/mdfblock.h        | 18 ++++++++++++++++++
 7 files changed, 53 insertions(+)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..e05a7c1 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -185,7 +185,9 @@ uint64_t Cg3Block::Write(std::streambuf& buffer) {
 
 void Cg3Block::ReadCnList(std::streambuf& buffer) {
   if (cn_list_.empty() && Link(kIndexCn) > 0) {
+    LinkGuard guard;
     for (auto link = Link(kIndexCn); link > 0; /* No ++ here*/) {
+      guard.Visit(link);
       auto cn = std::make_unique<Cn3Block>();
       cn->Init(*this);
       SetFilePosition(buffer, link);
@@ -198,7 +200,9 @@ void Cg3Block::ReadCnList(std::streambuf& buffer) {
 
 void Cg3Block::ReadSrList(std::streambuf& buffer) {
   if (sr_list_.empty() && Link(kIndexSr) > 0) {
+    LinkGuard guard;
     for (auto link = Link(kIndexSr); link > 0; /* No ++ here*/) {
+      guard.Visit(link);
       auto sr = std::make_unique<Sr3Block>();
       sr->Init(*this);
       SetFilePosition(buffer, link);
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 4c86064..1b3d0c7 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -417,7 +417,9 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
     auto block_type = ReadBlockType(buffer);
 
     if (cx_list_.empty() && (Link(kIndexCx) > 0)) {
+      LinkGuard guard;
       for (auto link = Link(kIndexCx); link > 0; /* No ++ here*/) {
+        guard.Visit(link);
         if (block_type == "CA") {
           auto ca_block = std::make_unique<Ca4Block>();
           ca_block->Init(*this);
@@ -433,6 +435,8 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
           cn_block->Read(buffer);
           link = cn_block->Link(0);
           cx_list_.emplace_back(std::move(cn_block));
+        } else {
+          break; // Not a composition block
         }
       }
     }
diff --git a/mdflib/src/datalistblock.cpp b/mdflib/src/datalistblock.cpp
index 8dfd3f6..8400456 100644
--- a/mdflib/src/datalistblock.cpp
+++ b/mdflib/src/datalistblock.cpp
@@ -52,7 +52,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       di_block->Read(buffer);
       block_list_.emplace_back(std::move(di_block));
     } else if (block_type == "DL") {
+      LinkGuard guard;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        guard.Visit(link);
         SetFilePosition(buffer, link);
         auto dl = std::make_unique<Dl4Block>();
         dl->Init(*this);
@@ -61,7 +63,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
         block_list_.emplace_back(std::move(dl));
       }
     } else if (block_type == "LD") {
+      LinkGuard guard;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        guard.Visit(link);
         SetFilePosition(buffer, link);
         auto ld_block = std::make_unique<Ld4Block>();
         ld_block->Init(*this);
@@ -75,7 +79,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       hl->Read(buffer);
       block_list_.emplace_back(std::move(hl));
     } else if (block_type == "SR") {
+      LinkGuard guard;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        guard.Visit(link);
         SetFilePosition(buffer, link);
         auto sr = std::make_unique<Sr4Block>();
         sr->Init(*this);
diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..5da92ae 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -75,7 +75,9 @@ uint64_t Dg3Block::Read(std::streambuf& buffer) {
   }
 
   cg_list_.clear();
+  LinkGuard guard;
   for (auto link = Link(kIndexCg); link > 0; /* No ++ here*/) {
+    guard.Visit(link);
     auto cg3 = std::make_unique<Cg3Block>();
     cg3->Init(*this);
     SetFilePosition(buffer, link);
diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index fee5c39..31c3001 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -221,7 +221,9 @@ uint64_t Hd3Block::Write(std::streambuf& buffer) {
 
 void Hd3Block::ReadMeasurementInfo(std::streambuf& buffer) {
   dg_list_.clear();
+  LinkGuard guard;
   for (auto link = Link(kIndexDg); link > 0; /* No ++ here*/) {
+    guard.Visit(link);
     auto dg = std::make_unique<Dg3Block>();
     dg->Init(*this);
     SetFilePosition(buffer, link);
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index b4f086f..d8503ab 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -412,6 +412,7 @@ size_t MdfBlock::ReadHeader4(std::FILE *file) {
 
 uint64_t MdfBlock::ReadHeader3(std::streambuf& buffer) {
   file_position_ = GetFilePosition(buffer);
+  CheckNesting();
   uint64_t bytes = ReadStr(buffer, block_type_, 2);
   if (block_type_ == "##") {
     throw std::runtime_error("MDF 4 header detected. This is not an MDF 3 file.");
@@ -436,6 +437,7 @@ uint64_t MdfBlock::ReadLinks3(std::streambuf& buffer, size_t nof_links) {
 
 uint64_t MdfBlock::ReadHeader4(std::streambuf& buffer) {
   file_position_ = GetFilePosition(buffer);
+  CheckNesting();
   uint64_t bytes = ReadStr(buffer, block_type_, 4);
   uint32_t reserved = 0;
   bytes += ReadNumber(buffer, reserved);
@@ -454,6 +456,21 @@ uint64_t MdfBlock::ReadHeader4(std::streambuf& buffer) {
 }
 
 
+void MdfBlock::CheckNesting() const {
+  constexpr size_t kMaxNesting = 1000;
+  size_t nesting = 0;
+  for (const auto* parent = parent_; parent != nullptr;
+       parent = parent->parent_) {
+    if (parent->file_position_ > 0 &&
+        parent->file_position_ == file_position_) {
+      throw std::runtime_error("A block is linked as its own child.");
+    }
+    if (++nesting > kMaxNesting) {
+      throw std::runtime_error("Too many nested blocks.");
+    }
+  }
+}
+
 void MdfBlock::Init(const MdfBlock &id_block) {
   byte_order_ = id_block.byte_order_;
   version_ = id_block.version_;
diff --git a/mdflib/src/mdfblock.h b/mdflib/src/mdfblock.h
index 17f0ebc..9631ca3 100644
--- a/mdflib/src/mdfblock.h
+++ b/mdflib/src/mdfblock.h
@@ -7,7 +7,9 @@
 #include <cstdio>
 #include <iomanip>
 #include <memory>
+#include <set>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -97,6 +99,19 @@ bool OpenMdfFile(std::streambuf& buffer, const std::wstring &filename,
 //bool OpenMdfFile(std::FILE *&file, const std::string &filename,
 //                 const std::string &mode);
 
+/** \brief Detects cyclic links in a list of blocks. */
+class LinkGuard {
+ public:
+  /** \brief Throws if the link already has been visited. */
+  void Visit(int64_t link) {
+    if (!visited_.insert(link).second) {
+      throw std::runtime_error("Cyclic block list detected.");
+    }
+  }
+ private:
+  std::set<int64_t> visited_;
+};
+
 class MdfBlock {
  public:
   virtual ~MdfBlock() = default;
@@ -198,6 +213,7 @@ class MdfBlock {
   uint64_t ReadHeader3(std::streambuf& buffer);  ///< Reads a MDF3 block header.
   uint64_t ReadLinks3(std::streambuf& buffer, size_t nof_links);  ///< Reads MDF3 links into the link list.
   uint64_t ReadHeader4(std::streambuf& buffer);  ///< Read in MDF4 header and links.
+  void CheckNesting() const;  ///< Throws if the block is nested in itself.
 
   void ReadMdComment(std::streambuf& buffer, size_t index_md);
   void WriteMdComment(std::streambuf& buffer, size_t index_md);
@@ -424,8 +440,10 @@ template <typename T>
 void MdfBlock::ReadLink4List(std::streambuf& buffer,
                                    std::vector<std::unique_ptr<T>> &block_list,
                                    size_t link_index) {
+  LinkGuard guard;
   if (block_list.empty() && (Link(link_index) > 0))
     for (int64_t link = Link(link_index); link > 0; /* No ++ here*/) {
+      guard.Visit(link);
       auto block = std::make_unique<T>();
       block->Init(*this);
       SetFilePosition(buffer, link);
-- 
2.43.0


From 1cd934f322e3272e23450a8cd38f12131f2d7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:26 +0000
Subject: [PATCH 44/66] fix: do not read beyond the data, links or records of a
 damaged file

---
 mdflib/src/at4block.cpp      |   6 +-
 mdflib/src/ch4block.cpp      |   3 +-
 mdflib/src/cn4block.cpp      |  18 +++++-
 mdflib/src/datalistblock.cpp |   3 +-
 mdflib/src/dz4block.cpp      |  12 +++-
 mdflib/src/ev4block.cpp      |   3 +-
 mdflib/src/mdfblock.cpp      |   4 ++
 mdflib/src/readcache.cpp     | 109 ++++++++++++++++++-----------------
 mdflib/src/readcache.h       |   1 +
 9 files changed, 98 insertions(+), 61 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 1bf3c44..43805a1 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -48,9 +48,11 @@ std::string MakeFlagString(uint16_t flag) {
 }
 
 bool CopyBytes(std::streambuf& source, std::streambuf& dest, uint64_t nof_bytes) {
-  uint8_t temp = 0;
   for (uint64_t ii = 0; ii < nof_bytes; ++ii) {
-    temp = source.sbumpc();
+    const int temp = source.sbumpc();
+    if (temp == std::streambuf::traits_type::eof()) {
+      return false;
+    }
     dest.sputc(static_cast<char>(temp));
   }
   return true;
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 40995bb..958cc8b 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -177,7 +177,8 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
-  for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
+  for (size_t index_n = 0; index_n < nof_elements_ &&
+       4 + (index_n * 3) < link_list_.size(); ++index_n) {
     const auto index = 4 + (index_n * 3);
     if (index + 2 < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 1b3d0c7..78acc83 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -678,10 +678,13 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
     // Index into the local data buffer
     uint64_t index = 0;
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
+    if (length.value() > data_list_.size() - 4 - index) {
+      return false;
+    }
     try {
       temp.resize(length.value(), 0);
     } catch (const std::exception&) {
@@ -694,6 +697,10 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
     }
 
   } else {
+    if (offset > record_buffer.size() ||
+        nof_bytes > record_buffer.size() - offset) {
+      return false;
+    }
     try {
       temp.resize(nof_bytes);
     } catch(const std::exception&) {
@@ -803,10 +810,13 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
     // in a SD block.
     uint64_t index = 0;  // Actual offset into the data block.
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
+    if (length.value() > data_list_.size() - 4 - index) {
+      return false;
+    }
     try {
       dest.resize(length.value(), 0);
     } catch (const std::exception&) {
@@ -819,6 +829,10 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
     }
 
   } else {
+    if (offset > record_buffer.size() ||
+        nof_bytes > record_buffer.size() - offset) {
+      return false;
+    }
     try {
       dest.resize(static_cast<size_t>(nof_bytes), 0);
     } catch (const std::exception&) {
diff --git a/mdflib/src/datalistblock.cpp b/mdflib/src/datalistblock.cpp
index 8400456..a105d9d 100644
--- a/mdflib/src/datalistblock.cpp
+++ b/mdflib/src/datalistblock.cpp
@@ -116,7 +116,8 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
 void DataListBlock::ReadLinkList(std::streambuf& buffer, size_t data_index,
                                  uint32_t nof_link) {
   if (block_list_.empty()) {
-    for (uint32_t ii = 0; ii < nof_link; ++ii) {
+    for (uint32_t ii = 0;
+         ii < nof_link && data_index + ii < link_list_.size(); ++ii) {
       auto link = Link(data_index + ii);
       if (link <= 0) {
         continue;
diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..a64ff22 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -119,6 +119,10 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
     return 0;
   }
 
+  if (buffer_index > dest.size() ||
+      orig_data_length_ > dest.size() - buffer_index) {
+    throw std::runtime_error("Buffer overflow detected.");
+  }
   SetFilePosition(from_file, data_position_);
 
   uint64_t count = 0;
@@ -128,7 +132,9 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
       from_file.sgetn( reinterpret_cast<char*>(temp.data()),
                               static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to inflate a DZ block.");
+      }
       count = orig_data_length_;
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
@@ -140,7 +146,9 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
       from_file.sgetn(reinterpret_cast<char*>(temp.data()),
                       static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to inflate a DZ block.");
+      }
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index 0af5df8..c45c991 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -329,7 +329,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   parent_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexParent)));
   range_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexRange)));
   scope_list_.clear();
-  for (size_t index_m = 0; index_m < length_m_; ++index_m) {
+  for (size_t index_m = 0;
+       index_m < length_m_ && 5 + index_m < link_list_.size(); ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
       // The scope is the interface (IChannelGroup or IChannel) of the block
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index d8503ab..3b3926e 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -232,6 +232,10 @@ uint64_t ReadStr(std::streambuf& buffer, std::string &dest, uint64_t size) {
   uint64_t ii;
   for (ii = 0; ii < size; ++ii) {
     const int input = buffer.sbumpc();
+    if (input == std::streambuf::traits_type::eof()) {
+      ii = size; // No more text in the file
+      break;
+    }
     if (input == '\0') {
       ++ii;
       break;
diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 573b168..62d0297 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -98,6 +98,9 @@ bool ReadCache::ParseRecord() {
     } else {
       const size_t record_size = channel_group->NofDataBytes()
                                  + channel_group->NofInvalidBytes();
+      if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+        throw std::runtime_error("Invalid record size.");
+      }
       // Normal fixed length records
       if (record_id_list_.find(record_id) == record_id_list_.cend()) {
         SkipBytes(record_size);
@@ -183,6 +186,9 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
     } else {
       const size_t record_size = channel_group->NofDataBytes()
                                  + channel_group->NofInvalidBytes();
+      if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+        throw std::runtime_error("Invalid record size.");
+      }
       // Normal fixed length records
       if (!cg_range->IsUsed() ||
           next_sample < range.MinSample() ||
@@ -269,13 +275,12 @@ bool ReadCache::ParseSignalDataOffset(uint64_t offset) {
     return false;
   }
 
-  if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
-    SkipBytes(bytes_to_skip);
-    offset_ += bytes_to_skip;
-  }
-
-
   try {
+    if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
+      SkipBytes(bytes_to_skip);
+      offset_ += bytes_to_skip;
+    }
+
     if (data_count_ + 4 > max_data_count_ ) {
       return false;
     }
@@ -345,6 +350,9 @@ bool ReadCache::ParseVlsdCgData() {
       } else {
         const size_t record_size = channel_group->NofDataBytes()
                                    + channel_group->NofInvalidBytes();
+        if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+          throw std::runtime_error("Invalid record size.");
+        }
         SkipBytes(record_size);
         skip = true;
       }
@@ -359,6 +367,36 @@ bool ReadCache::ParseVlsdCgData() {
   return data_count_ <= max_data_count_;
 }
 
+bool ReadCache::StartBlock(const DataBlock& block) {
+  file_index_ = 0;
+  data_size_ = 0;
+  file_buffer_.clear(); // Indicate that we read from the file directly
+  if (block.BlockType() == "DZ") {
+    // Need a temp buffer in between
+    try {
+      file_buffer_.resize(static_cast<size_t>(block.DataSize()) );
+      uint64_t temp_index = 0;
+      block.CopyDataToBuffer(buffer_, file_buffer_, temp_index);
+    } catch (const std::exception& err) {
+      MDF_ERROR() << "Failed to uncompress data. Error: " << err.what();
+      file_buffer_.clear();
+      return false;
+    }
+    data_size_ = file_buffer_.size();
+  } else {
+    // Read from the file directly. The block may be truncated in the file.
+    const auto last_position = GetLastFilePosition(buffer_);
+    if (block.DataPosition() > last_position) {
+      return false;
+    }
+    const auto file_size = static_cast<uint64_t>(last_position
+                                                 - block.DataPosition());
+    data_size_ = std::min(block.DataSize(), file_size);
+    SetFilePosition(buffer_, block.DataPosition());
+  }
+  return true;
+}
+
 bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
@@ -382,22 +420,8 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   if (current_block == nullptr) {
     return false;
   }
-  file_index_ = 0;
-  data_size_ = current_block->DataSize();
-  if (current_block->BlockType() == "DZ") {
-    // Need a temp buffer in between
-    try {
-      file_buffer_.resize(static_cast<size_t>(data_size_) );
-    } catch (const std::exception&) {
-       return false;
-    }
-
-    uint64_t temp_index = 0;
-    current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-  } else {
-    // Read from the file directly
-    SetFilePosition(buffer_, current_block->DataPosition());
-    file_buffer_.clear(); // Indicate that we read from the file directly
+  if (!StartBlock(*current_block)) {
+    return false;
   }
     // Read in the data form file to
   if (file_index_ >= data_size_) {
@@ -486,7 +510,7 @@ void ReadCache::GetArray(std::vector<uint8_t> &buffer) {
 }
 
 void ReadCache::SkipBytes(size_t nof_skip) {
-  if (file_index_ + nof_skip <= data_size_) {
+  if (nof_skip <= data_size_ - file_index_) {
     if (file_buffer_.empty()) {
       const auto bytes = StepFilePosition(buffer_, nof_skip);
       if (bytes != nof_skip) {
@@ -502,34 +526,25 @@ void ReadCache::SkipBytes(size_t nof_skip) {
   nof_skip -= data_size_ - file_index_;
 
   // If a list try to skip block by block first
+  file_index_ = 0;
+  data_size_ = 0;
   while (block_index_ < block_list_.size()) {
-    file_index_ = 0;
-    data_size_ = 0;
     auto* current_block = block_list_[block_index_];
     ++block_index_;
     if (current_block == nullptr) {
       break;
     }
-    data_size_ = current_block->DataSize();
-    if (nof_skip > data_size_) {
-      nof_skip -= data_size_;
+    if (nof_skip > current_block->DataSize()) {
+      nof_skip -= static_cast<size_t>(current_block->DataSize());
       continue;
     }
     // In right block. Set up the file buffer.
-    if (current_block->BlockType() == "DZ") {
-      try {
-        file_buffer_.resize(static_cast<size_t>(data_size_) );
-        uint64_t temp_index = 0;
-        current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-      } catch (const std::exception&) {
-        break;;
-      }
-    } else {
-      file_buffer_.clear();
-      SetFilePosition(buffer_, current_block->DataPosition());
-    }
+    StartBlock(*current_block);
     break;
   }
+  if (nof_skip > data_size_) {
+    throw std::runtime_error("End of file detected.");
+  }
   // Step to the byte inside
   if (nof_skip > 0) {
     if (file_buffer_.empty()) {
@@ -567,18 +582,8 @@ bool ReadCache::SkipByte() {
   if (current_block == nullptr) {
     return false;
   }
-  data_size_ = current_block->DataSize();
-  if (current_block->BlockType() == "DZ") {
-    try {
-      file_buffer_.resize(static_cast<size_t>(data_size_) );
-      uint64_t temp_index = 0;
-      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-    } catch (const std::exception&) {
-      return false;
-    }
-  } else {
-    file_buffer_.clear();
-    SetFilePosition(buffer_, current_block->DataPosition());
+  if (!StartBlock(*current_block)) {
+    return false;
   }
 
   if (file_index_ >= data_size_) {
diff --git a/mdflib/src/readcache.h b/mdflib/src/readcache.h
index 381a8b1..e4a895c 100644
--- a/mdflib/src/readcache.h
+++ b/mdflib/src/readcache.h
@@ -83,6 +83,7 @@ class ReadCache {
   uint64_t ParseRecordId();
   bool GetNextByte(uint8_t& input);
   void GetArray(std::vector<uint8_t>& buffer);
+  bool StartBlock(const DataBlock& block); ///< Set up the next block
   void SkipBytes(size_t nof_skip);
    bool SkipByte();
 };
-- 
2.43.0


From 5259ba735db9939e466931ca248ba5f9261a9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:44 +0000
Subject: [PATCH 45/66] fix: copy the text and conversion references of a
 conversion

---
 mdflib/src/cc4block.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 41cb1f9..afd6671 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -585,9 +585,10 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
 
     for (const auto& source_ref : cc4->ref_list_) {
       if (!source_ref) {
+        ref_list_.emplace_back();  // The position of the others matters
         continue;
       }
-      if (source_ref->BlockType() != "TX") {
+      if (source_ref->BlockType() == "TX") {
         const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
         if (auto tx4_block = std::make_unique<Tx4Block>();
             tx4_block && source_tx4 != nullptr) {
-- 
2.43.0


From 2de256d75522608e5492aadd64e9a26b8a0b5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:44 +0000
Subject: [PATCH 46/66] fix: round the time stamp of a copied sample to the
 nearest nanosecond

---
 mdflib/src/samplerecordobserver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/samplerecordobserver.cpp b/mdflib/src/samplerecordobserver.cpp
index e7e7c4f..a9232a7 100644
--- a/mdflib/src/samplerecordobserver.cpp
+++ b/mdflib/src/samplerecordobserver.cpp
@@ -5,6 +5,8 @@
 
 #include "mdf/samplerecordobserver.h"
 
+#include <cmath>
+
 namespace mdf {
 
 SampleRecordObserver::SampleRecordObserver(const IDataGroup& data_group,
@@ -40,7 +42,7 @@ bool SampleRecordObserver::OnSample(uint64_t sample, uint64_t record_id,
     last_sample_.timestamp = base_time_;
     if (time_channel_ != nullptr) {
       double rel_time = time_channel_->GetTimestamp(GetSampleIndex(), record);
-      last_sample_.timestamp += static_cast<int64_t>(rel_time * 1'000'000'000);
+      last_sample_.timestamp += std::llround(rel_time * 1'000'000'000);
     }
     sample_time_ = last_sample_.timestamp;
   } else {
-- 
2.43.0


From 9b335e3ecc435ee7df1b2b55a47196534f320874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:44 +0000
Subject: [PATCH 47/66] fix: the sorting task reports that it cannot sort MDF 3
 files

---
 mdflib/src/sortingtask.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index c1ded64..ea6c13f 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -62,6 +62,10 @@ void SortingTask::SortFile() {
     if (!reader_ || !writer_) {
       throw std::runtime_error("Reader or writer is not initialized.");
     }
+    if (const MdfFile* source_file = reader_->GetFile();
+        source_file == nullptr || !source_file->IsMdf4()) {
+      throw std::runtime_error("Only MDF 4 files can be sorted.");
+    }
     writer_->CalculateBitAndByteOffsets(false);
     CopyMainConfig();
 
-- 
2.43.0


From 793dd54aec73d2b85fbd01765b28cee24f979d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 48/66] fix: MdfChannelConversionGetReference copies the
 reference, not the formula

---
 mdflibrary/src/MdfExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index 14dc970..a807a99 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -658,7 +658,7 @@ EXPORTFEATUREFUNC(void, SetRange, double min, double max) {
 }
 EXPORTFEATUREFUNC(uint16_t, GetFlags) { return conv->Flags(); }
 EXPORTFEATUREFUNC(size_t, GetReference, uint16_t index, char* reference) {
-  if (reference) strcpy(reference, conv->Formula().c_str());
+  if (reference) strcpy(reference, conv->Reference(index).c_str());
   return conv->Reference(index).size();
 }
 EXPORTFEATUREFUNC(void, SetReference, uint16_t index, const char* reference) {
-- 
2.43.0


From 8f74463b51a23fe00d16177047bc90a10e0da6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 49/66] fix: text values from MdfChannelObserver wrapper were
 never copied

---
 include/mdflibrary/MdfChannelObserver.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mdflibrary/MdfChannelObserver.h b/include/mdflibrary/MdfChannelObserver.h
index db1fd93..3922fa4 100644
--- a/include/mdflibrary/MdfChannelObserver.h
+++ b/include/mdflibrary/MdfChannelObserver.h
@@ -64,11 +64,13 @@ class MdfChannelObserver {
     return MdfChannelObserverGetChannelValueAsFloat(observer, sample, value);
   }
   bool GetChannelValue(uint64_t sample, std::string& value) const {
-    size_t size;
+    size_t size = 0;
     MdfChannelObserverGetChannelValueAsString(observer, sample, nullptr, size);
+    ++size;  // The function also needs room for the terminating zero
     value.resize(size);
     bool valid =
         MdfChannelObserverGetChannelValueAsString(observer, sample, value.data(), size);
+    value.resize(size);
     return valid;
   }
   bool GetChannelValue(uint64_t sample, std::vector<uint8_t>& value) const {
@@ -88,11 +90,13 @@ class MdfChannelObserver {
     return MdfChannelObserverGetEngValueAsFloat(observer, sample, value);
   }
   bool GetEngValue(uint64_t sample, std::string& value) const {
-    size_t size;
+    size_t size = 0;
     MdfChannelObserverGetEngValueAsString(observer, sample, nullptr, size);
+    ++size;  // The function also needs room for the terminating zero
     value.resize(size);
     bool valid =
         MdfChannelObserverGetEngValueAsString(observer, sample, value.data(), size);
+    value.resize(size);
     return valid;
   }
   bool GetEngValue(uint64_t sample, std::vector<uint8_t>& value) const {
-- 
2.43.0


From 1b07deb6ac9a29cec8d9e61ed8e7e83677c1e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 50/66] fix: GetChannelValueAsArray read outside the value

---
 mdflibrary/src/MdfExport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index a807a99..29dbf4e 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -765,7 +765,9 @@ EXPORTFEATUREFUNC(bool, GetChannelValueAsArray, uint64_t sample,
                   uint8_t value[], size_t& size) {
   std::vector<uint8_t> vec;
   bool valid = observer->GetChannelValue(sample, vec);
-  if (value != nullptr && size >= vec.size()) memcpy(value, vec.data(), size);
+  if (value != nullptr && size >= vec.size()) {
+    memcpy(value, vec.data(), vec.size());
+  }
   size = vec.size();
   return valid;
 }
-- 
2.43.0


From f75ad4176962010e3243fecec359b2aac04cce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 51/66] fix: the C interface cut the CAN error bit position to
 8 bits

---
 include/mdflibrary/CanMessage.h | 4 ++--
 include/mdflibrary/MdfExport.h  | 4 ++--
 mdflibrary/src/MdfExport.cpp    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mdflibrary/CanMessage.h b/include/mdflibrary/CanMessage.h
index 063b2d2..f751eae 100644
--- a/include/mdflibrary/CanMessage.h
+++ b/include/mdflibrary/CanMessage.h
@@ -86,8 +86,8 @@ class CanMessage {
   void SetBusChannel(const uint8_t channel) {
     CanMessageSetBusChannel(can, channel);
   };
-  uint8_t GetBitPosition() const { return CanMessageGetBitPosition(can); };
-  void SetBitPosition(const uint8_t position) {
+  uint16_t GetBitPosition() const { return CanMessageGetBitPosition(can); };
+  void SetBitPosition(const uint16_t position) {
     CanMessageSetBitPosition(can, position);
   };
   CanErrorType GetErrorType() const { return CanMessageGetErrorType(can); };
diff --git a/include/mdflibrary/MdfExport.h b/include/mdflibrary/MdfExport.h
index b7ca2fc..91262df 100644
--- a/include/mdflibrary/MdfExport.h
+++ b/include/mdflibrary/MdfExport.h
@@ -940,8 +940,8 @@ EXPORTFEATUREFUNC(bool, GetSingleWire);
 EXPORTFEATUREFUNC(void, SetSingleWire, const bool singleWire);
 EXPORTFEATUREFUNC(uint8_t, GetBusChannel);
 EXPORTFEATUREFUNC(void, SetBusChannel, const uint8_t channel);
-EXPORTFEATUREFUNC(uint8_t, GetBitPosition);
-EXPORTFEATUREFUNC(void, SetBitPosition, const uint8_t position);
+EXPORTFEATUREFUNC(uint16_t, GetBitPosition);
+EXPORTFEATUREFUNC(void, SetBitPosition, const uint16_t position);
 EXPORTFEATUREFUNC(CanErrorType, GetErrorType);
 EXPORTFEATUREFUNC(void, SetErrorType, const CanErrorType type);
 #undef EXPORTFEATUREFUNC
diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index 29dbf4e..bd4175b 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -1189,8 +1189,8 @@ EXPORTFEATUREFUNC(uint8_t, GetBusChannel) { return can->BusChannel(); }
 EXPORTFEATUREFUNC(void, SetBusChannel, const uint8_t channel) {
   can->BusChannel(channel);
 }
-EXPORTFEATUREFUNC(uint8_t, GetBitPosition) { return can->BitPosition(); }
-EXPORTFEATUREFUNC(void, SetBitPosition, const uint8_t position) {
+EXPORTFEATUREFUNC(uint16_t, GetBitPosition) { return can->BitPosition(); }
+EXPORTFEATUREFUNC(void, SetBitPosition, const uint16_t position) {
   can->BitPosition(position);
 }
 EXPORTFEATUREFUNC(CanErrorType, GetErrorType) { return can->ErrorType(); }
-- 
2.43.0


From fb714a68e666b9c399e7a6d75619b2fe56fbbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:47 +0000
Subject: [PATCH 52/66] fix: appending to a file with DV or LD blocks destroyed
 the link to their data

---
 mdflib/src/dv4block.cpp | 9 +++++++++
 mdflib/src/dv4block.h   | 1 +
 mdflib/src/ld4block.cpp | 9 +++++++++
 mdflib/src/ld4block.h   | 1 +
 4 files changed, 20 insertions(+)

diff --git a/mdflib/src/dv4block.cpp b/mdflib/src/dv4block.cpp
index fb5fece..fe1b19f 100644
--- a/mdflib/src/dv4block.cpp
+++ b/mdflib/src/dv4block.cpp
@@ -22,4 +22,13 @@ uint64_t Dv4Block::Read(std::streambuf& buffer) {
 uint64_t Dv4Block::DataSize() const {
   return block_length_ > 24 ? block_length_ - 24 : 0;
 }
+
+uint64_t Dv4Block::Write(std::streambuf& buffer) {
+  if (FilePosition() > 0) {
+    // The block is only read from existing files and cannot be changed
+    return block_length_;
+  }
+  return MdfBlock::Write(buffer);
+}
+
 }  // namespace mdf::detail
\ No newline at end of file
diff --git a/mdflib/src/dv4block.h b/mdflib/src/dv4block.h
index b866e37..55d4e38 100644
--- a/mdflib/src/dv4block.h
+++ b/mdflib/src/dv4block.h
@@ -13,6 +13,7 @@ class Dv4Block : public DataBlock {
  public:
   void GetBlockProperty(BlockPropertyList& dest) const override;
   uint64_t Read(std::streambuf& buffer) override;
+  uint64_t Write(std::streambuf& buffer) override;
   [[nodiscard]] uint64_t DataSize() const override;
 };
 
diff --git a/mdflib/src/ld4block.cpp b/mdflib/src/ld4block.cpp
index 1ce312f..ce29b83 100644
--- a/mdflib/src/ld4block.cpp
+++ b/mdflib/src/ld4block.cpp
@@ -103,4 +103,13 @@ uint64_t Ld4Block::Read(std::streambuf& buffer) {
   ReadLinkList(buffer, kIndexData, nof_blocks_);
   return bytes;
 }
+
+uint64_t Ld4Block::Write(std::streambuf& buffer) {
+  if (FilePosition() > 0) {
+    // The block is only read from existing files and cannot be changed
+    return block_length_;
+  }
+  return MdfBlock::Write(buffer);
+}
+
 }  // namespace mdf::detail
diff --git a/mdflib/src/ld4block.h b/mdflib/src/ld4block.h
index 764a5f8..d8b456e 100644
--- a/mdflib/src/ld4block.h
+++ b/mdflib/src/ld4block.h
@@ -20,6 +20,7 @@ class Ld4Block : public DataListBlock {
  public:
   void GetBlockProperty(BlockPropertyList& dest) const override;
   uint64_t Read(std::streambuf& buffer) override;
+  uint64_t Write(std::streambuf& buffer) override;
 
  private:
   uint32_t flags_ = 0;
-- 
2.43.0


From 3287460efd2c172af26f0a6a8cb226d150827198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:52 +0000
Subject: [PATCH 53/66] fix: repair of unfinalized files failed when the length
 of a VLSD record was cut

---
 mdflib/src/dg4block.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 6125ab5..f91b240 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -730,6 +730,10 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
   SetFilePosition(buffer, dt_block->DataPosition());
   uint64_t count = 0;
   while (count < dt_block->DataSize()) {
+    if (count + rec_id_size_ > dt_block->DataSize()) {
+      // The record ID of the last record is incomplete.
+      break;
+    }
     uint64_t record_id = 0;
     count += ReadRecordId(buffer,record_id);
     auto cg_find = counter_list.size() == 1 ?
@@ -741,6 +745,7 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
     auto& counter = cg_find->second;
     auto* cg_block = counter.CgBlock;
     uint64_t count_bytes = 0;
+    uint64_t step_bytes = 0;
     if (cg_block == nullptr) {
       MDF_ERROR() << "CG block pointer is null. Internal error.";
       return false;
@@ -749,20 +754,25 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       // This is normally used for string,
       // and the CG block only includes one signal
       uint32_t length = 0;
+      if (count + sizeof(length) > dt_block->DataSize()) {
+        // The length of the last record is incomplete.
+        break;
+      }
       count_bytes += ReadNumber(buffer, length);
       //std::vector<uint8_t> record(length, 0);
-      if (length > 0) {
-        count_bytes += StepFilePosition(buffer, length);
-      }
+      step_bytes = length;
     } else {
       // Normal fixed length records
       const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
-      count_bytes += StepFilePosition(buffer, record_size);
+      step_bytes = record_size;
     }
-    if (count + count_bytes > dt_block->DataSize()) {
+    if (count + count_bytes + step_bytes > dt_block->DataSize()) {
       // The last record is incomplete.
       break;
     }
+    if (step_bytes > 0) {
+      count_bytes += StepFilePosition(buffer, step_bytes);
+    }
     ++counter.NofSamples;
     counter.NofBytes += count_bytes;
     count += count_bytes;
-- 
2.43.0


From c1ef3b18a25d517902a171ee146298b128b8cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:22 +0000
Subject: [PATCH 54/66] fix: mdf2csv doubles the quotes inside a quoted CSV
 field

---
 mdf2csv/src/csvwriter.cpp | 22 ++++++++++++++++------
 mdf2csv/src/csvwriter.h   |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index bdb89af..5f1d239 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -91,11 +91,11 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       if (count > 0) {
         file_ << delimiter_;
       }
-      file_ << "\"" << channel.Name();
+      std::string header_text = channel.Name();
       if (!unit.empty()) {
-        file_ << " [" << unit << "]";
+        header_text += " [" + unit + "]";
       }
-      file_ << "\"";
+      file_ << QuoteText(header_text);
       ++count;
     }
     file_ << std::endl;
@@ -131,12 +131,22 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
   }
 }
 
+std::string CsvWriter::QuoteText(const std::string& text) {
+  std::string quoted("\"");
+  for (const char input : text) {
+    if (input == '\"') {
+      quoted += '\"'; // A quote inside a quoted field shall be doubled
+    }
+    quoted += input;
+  }
+  quoted += '\"';
+  return quoted;
+}
+
 std::string CsvWriter::CsvText(std::string& csv_text) const {
   for (char input : csv_text) {
     if (input == '\"' || input == delimiter_ || isspace(input)) {
-      std::ostringstream temp;
-      temp << "\"" << csv_text << "\"";
-      return temp.str();
+      return QuoteText(csv_text);
     }
   }
 
diff --git a/mdf2csv/src/csvwriter.h b/mdf2csv/src/csvwriter.h
index 6ac2f87..48c3d6c 100644
--- a/mdf2csv/src/csvwriter.h
+++ b/mdf2csv/src/csvwriter.h
@@ -29,6 +29,7 @@ class CsvWriter final {
   std::ofstream file_;
   char delimiter_ = ';';
 
+  [[nodiscard]] static std::string QuoteText(const std::string& text);
   std::string CsvText(std::string& csv_text) const;
 };
 
-- 
2.43.0


From 7213b11db486344c517f4b78acf151a4e4a37290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:22 +0000
Subject: [PATCH 55/66] fix: mdf2csv moves the CSV file when the temporary
 folder is on another file system

---
 mdf2csv/src/csvwriter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index 5f1d239..849f934 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -117,7 +117,15 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       file_ << std::endl;
     }
     file_.close();
-    std::filesystem::rename(temp_filename_, dest_filename_);
+
+    std::error_code rename_error;
+    std::filesystem::rename(temp_filename_, dest_filename_, rename_error);
+    if (rename_error) {
+      // The temporary folder may be on another file system
+      std::filesystem::copy_file(temp_filename_, dest_filename_,
+                                 copy_options::overwrite_existing);
+      std::filesystem::remove(temp_filename_);
+    }
   } catch (const std::exception& err) {
     MDF_ERROR() << "File save error. Error: " << err.what();
   }
-- 
2.43.0


From 552357d20eb8824a8f9edd677bec8dd9883807f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:22 +0000
Subject: [PATCH 56/66] fix: mdf2csv does not dereference an empty first
 observer

---
 mdf2csv/src/csvwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index 849f934..e7a6cb6 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -76,7 +76,7 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
     return;
   }
 
-  size_t nof_samples = observer_list[0]->NofSamples();
+  size_t nof_samples = obs_list[0]->NofSamples();
   if (nof_samples == 0) {
     return;
   }
-- 
2.43.0


From 2bd83a43891939b3af54205b6e3f93a020119749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:22 +0000
Subject: [PATCH 57/66] fix: mdf2csv puts each CSV file beside its own MDF file

---
 mdf2csv/src/createfilelist.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 3adf958..8d7192a 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -70,13 +70,14 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
   const auto& arguments = ProgramArgument::Instance();
   std::string filename;
   std::string stem;
+  std::string output_path = output_path_;
 
   try {
     path fullname(file);
     filename = fullname.filename().string();
     stem = fullname.stem().string();
-    if (output_path_.empty()) {
-      output_path_ = fullname.parent_path().string();
+    if (output_path.empty()) {
+      output_path = fullname.parent_path().string();
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid file path. Error :" << err.what();
@@ -148,7 +149,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       bool existing; // Check if CSV already exist
       std::string csv_file;
       try {
-        path fullname(output_path_);
+        path fullname(output_path);
         fullname.append(StripName(csv_name.str()));
         fullname.concat(".csv");
         csv_file = fullname.string();
-- 
2.43.0


From 98a476ccf0a0d86938089eb2014e0c7abe07b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:23 +0000
Subject: [PATCH 58/66] fix: mdf2csv gives each channel group a CSV file of its
 own

---
 mdf2csv/src/createfilelist.cpp | 8 ++++++--
 mdf2csv/src/createfilelist.h   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 8d7192a..10dddf0 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -151,8 +151,12 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       try {
         path fullname(output_path);
         fullname.append(StripName(csv_name.str()));
-        fullname.concat(".csv");
-        csv_file = fullname.string();
+        const std::string base_name = fullname.string();
+        csv_file = base_name + ".csv";
+        // Several groups may end up with the same name
+        for (size_t count = 2; !csv_list_.insert(csv_file).second; ++count) {
+          csv_file = base_name + "_" + std::to_string(count) + ".csv";
+        }
         existing = exists(csv_file);
       } catch (const std::exception& err) {
         MDF_ERROR() << "CSV path error. Error: " << err.what();
diff --git a/mdf2csv/src/createfilelist.h b/mdf2csv/src/createfilelist.h
index 5a7d9c3..a3ff498 100644
--- a/mdf2csv/src/createfilelist.h
+++ b/mdf2csv/src/createfilelist.h
@@ -4,6 +4,7 @@
  */
 
 #pragma once
+#include <set>
 #include <string>
 #include <vector>
 namespace mdf {
@@ -40,6 +41,7 @@ class CreateFileList final {
   std::vector<std::string> directories_;
   std::vector<std::string> files_;
   std::string output_path_;
+  std::set<std::string> csv_list_; ///< CSV files that are already in use
 
 
 };
-- 
2.43.0


From ba93308b75d0bb5e3d8c590e2fb96be05674b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:56 +0000
Subject: [PATCH 59/66] fix: SampleRecordObserver::GetSampleTime returned the
 base time instead of the time of the sample

---
 include/mdf/samplerecordobserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdf/samplerecordobserver.h b/include/mdf/samplerecordobserver.h
index 8d6c02e..6267e34 100644
--- a/include/mdf/samplerecordobserver.h
+++ b/include/mdf/samplerecordobserver.h
@@ -24,7 +24,7 @@ public:
   virtual void OnSampleRecord() = 0;
 
   uint64_t GetBaseTime() const { return base_time_; }
-  uint64_t GetSampleTime() const { return base_time_; }
+  uint64_t GetSampleTime() const { return sample_time_; }
   uint64_t GetSampleIndex() const;
   void GetSampleRecord(SampleRecord& sample_record);
   const IChannelGroup& GetChannelGroup() const {
-- 
2.43.0


From c60c8852bf44580e66237449fb32a58429fdf1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:07 +0000
Subject: [PATCH 60/66] fix: the pre-trigger window wrapped around when it
 began before time zero

---
 mdflib/src/samplequeue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 5dfd845..85920e2 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -70,7 +70,7 @@ void SampleQueue::TrimQueue() {
     const auto last_time = queue_.back().timestamp;
     if (start_time > 0) {
       // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
+      if (next_time + pre_trig_time >= start_time) {
         break;
       }
     } else {
-- 
2.43.0


From 144f0637bc9855f63ca7d6e9497d43fff21f7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:15 +0000
Subject: [PATCH 61/66] fix: sorting calculated the master channel again and
 changed its values

---
 mdflib/src/sortingtask.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index ea6c13f..d68ffe8 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -123,6 +123,13 @@ void SortingTask::SortFile() {
             "Failed to copy the channel group configuration. Channel Group: "
               + source_cg->Name());
         }
+        // The records are copied as they are. The master value shall not be
+        // calculated again.
+        for (IChannel* dest_cn : dest_cg->Channels()) {
+          if (dest_cn != nullptr) {
+            dest_cn->CalculateMasterTime(false);
+          }
+        }
         if (source_cg->NofSamples() > 0) {
           observer_list.push_back(std::make_unique<CopySampleObserver>(
             *source_dg, *source_cg,
-- 
2.43.0


From 6126584e012c0f93272c149be78d7c2d0dca5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:25 +0000
Subject: [PATCH 62/66] fix: the bus log configuration left out the FlexRay bus

---
 mdflib/src/mdfwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 313fc0a..13aa14d 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -15,6 +15,7 @@
 
 #include "mdf/canconfigadapter.h"
 #include "mdf/ethconfigadapter.h"
+#include "mdf/flexrayconfigadapter.h"
 #include "mdf/linconfigadapter.h"
 #include "mdf/mostconfigadapter.h"
 #include "mdfblock.h"
@@ -416,6 +417,10 @@ bool MdfWriter::CreateBusLogConfiguration() {
     MostConfigAdapter configurator(*this);
     configurator.CreateConfig(*last_dg);
   }
+  if ((bus_type_ & MdfBusType::FlexRay) != 0) {
+    FlexRayConfigAdapter configurator(*this);
+    configurator.CreateConfig(*last_dg);
+  }
   return true;
 }
 
-- 
2.43.0


From 8800e19442eb456227701ea9602004cd1780a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:46 +0000
Subject: [PATCH 63/66] fix: the minutes of a time zone without colon were read
 as hours

---
 mdflib/src/timestamp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index 1b7dedc..d594700 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -233,8 +233,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::TzHour:
           if (input == ':') {
             state = DateState::TzMinute;
-          } else if (std::isdigit(input) ) {
+          } else if (std::isdigit(input) && tz_hour.str().size() < 3) {
             tz_hour << input;
+          } else if (std::isdigit(input)) {
+            tz_minute << input;
+            state = DateState::TzMinute;
           }
           break;
 
-- 
2.43.0


From 7403d755eddb7e67402e180d4891aa463f43c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:53 +0000
Subject: [PATCH 64/66] fix: appending to a file before version 3.20 overwrote
 the block after the header

---
 mdflib/src/hd3block.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index 31c3001..a95dd24 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -171,10 +171,13 @@ uint64_t Hd3Block::Write(std::streambuf& buffer) {
   bytes += WriteStr(buffer, organisation_, 32);
   bytes += WriteStr(buffer, project_, 32);
   bytes += WriteStr(buffer, subject_, 32);
-  bytes += WriteNumber(buffer, timestamp_.local_timestamp_);
-  bytes += WriteNumber(buffer, timestamp_.utc_offset_);
-  bytes += WriteNumber(buffer, timestamp_.time_quality_);
-  bytes += WriteStr(buffer, timestamp_.timer_id_, 32);
+  // The header block in files before version 3.20 has no room for these.
+  if (!update || block_size_ >= bytes + 8 + 2 + 2 + 32) {
+    bytes += WriteNumber(buffer, timestamp_.local_timestamp_);
+    bytes += WriteNumber(buffer, timestamp_.utc_offset_);
+    bytes += WriteNumber(buffer, timestamp_.time_quality_);
+    bytes += WriteStr(buffer, timestamp_.timer_id_, 32);
+  }
 
   if (!update) {
     UpdateBlockSize(buffer, bytes);
-- 
2.43.0


From 050235ac44ec8ac06ae7c09c284cebdfb30d7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 65/66] fix: finalizing a damaged file counted records for ever

---
 mdflib/src/dg4block.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index f91b240..92c7ec2 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -727,13 +727,24 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
   }
 
 
+  // The block length may be wrong, so only count records within the file.
+  const int64_t last_position = GetLastFilePosition(buffer);
+  uint64_t data_size = dt_block->DataSize();
+  if (last_position <= dt_block->DataPosition()) {
+    data_size = 0;
+  } else {
+    data_size = std::min(data_size, static_cast<uint64_t>(
+        last_position - dt_block->DataPosition()));
+  }
+
   SetFilePosition(buffer, dt_block->DataPosition());
   uint64_t count = 0;
-  while (count < dt_block->DataSize()) {
-    if (count + rec_id_size_ > dt_block->DataSize()) {
+  while (count < data_size) {
+    if (count + rec_id_size_ > data_size) {
       // The record ID of the last record is incomplete.
       break;
     }
+    const uint64_t record_start = count;
     uint64_t record_id = 0;
     count += ReadRecordId(buffer,record_id);
     auto cg_find = counter_list.size() == 1 ?
@@ -754,7 +765,7 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       // This is normally used for string,
       // and the CG block only includes one signal
       uint32_t length = 0;
-      if (count + sizeof(length) > dt_block->DataSize()) {
+      if (count + sizeof(length) > data_size) {
         // The length of the last record is incomplete.
         break;
       }
@@ -766,13 +777,17 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
       step_bytes = record_size;
     }
-    if (count + count_bytes + step_bytes > dt_block->DataSize()) {
+    if (count + count_bytes + step_bytes > data_size) {
       // The last record is incomplete.
       break;
     }
     if (step_bytes > 0) {
       count_bytes += StepFilePosition(buffer, step_bytes);
     }
+    if (count + count_bytes == record_start) {
+      // An empty record without record ID, the records cannot be counted.
+      break;
+    }
     ++counter.NofSamples;
     counter.NofBytes += count_bytes;
     count += count_bytes;
-- 
2.43.0


From 29c96dd3beaddea0d6066fd4c4647dd944ed987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 66/66] fix: ranges of an MDF 3 group without record
 identifiers were not read

---
 mdflib/src/dg3block.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 5da92ae..78812bb 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -271,8 +271,7 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
       count += ReadNumber(buffer, record_id);
     }
     const auto *cg3 = FindCgRecordId(record_id);
-    const auto* cg_range = range.GetCgRange(record_id);
-    if (cg3 == nullptr || cg_range == nullptr) {
+    if (cg3 == nullptr || range.GetCgRange(cg3->RecordId()) == nullptr) {
       break;
     }
 
-- 
2.43.0

