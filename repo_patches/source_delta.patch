From 350e55f10deb7483bfddeb2c7a663b334f6dc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 01/26] fix: report write errors when exporting databases

---
 src/io.hh   |  2 ++
 src/kdb.cc  |  6 ++++++
 src/kdbx.cc | 16 +++++++++++++---
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/io.hh b/src/io.hh
index 103fa95..474ec70 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -49,6 +49,8 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src);
 template<typename T>
 void conserve(std::ostream& dst, const T& val) {
   dst.write(reinterpret_cast<const char*>(&val), sizeof(T));
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 template <>
diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..1e843c1 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -753,6 +753,12 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  // Closing the file writes out buffered data, only then we know that
+  // everything reached the file.
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..b4313e2 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -438,6 +438,8 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
         std::copy(binary->data()->begin(), binary->data()->end(),
                   std::ostreambuf_iterator<char>(gzip_stream));
         gzip_stream.flush();
+        if (!gzip_stream.good())
+          throw IoError("Write error.");
 
         bin_node.text().set(base64_encode(
               std::istreambuf_iterator<char>(compressed_data), 
@@ -1198,9 +1200,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Final(header_hash_.data(), &sha256);
 
   // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
@@ -1225,14 +1225,24 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
     WriteXml(gzip_stream, obfuscator, db);
     gzip_stream.flush();
+    if (!gzip_stream.good())
+      throw IoError("Write error.");
   } else {
     WriteXml(hashed_stream, obfuscator, db);
   }
 
   hashed_stream.flush();
+  if (!hashed_stream.good() || !content_stream.good())
+    throw IoError("Write error.");
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  // Closing the file writes out buffered data, only then we know that
+  // everything reached the file.
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 203c7a586182d12085aee6b44ccff13648cd61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 02/26] fix: keep KDB groups below their own parent when the
 level rises again

---
 src/kdb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1e843c1..3087594 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,13 +609,14 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = static_cast<uint32_t>(std::get<1>(group_data)) + 1;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
 
       last_group_by_level[group_level - 1]->AddGroup(group);
+      last_group_by_level.resize(group_level);
       last_group_by_level.push_back(group);
     } else {
       last_group_by_level[group_level - 1]->AddGroup(group);
-- 
2.43.0


From 625d09ed871f842eba721936ddd8763dda2ef4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/26] fix: no assertion failures on malformed group
 identifiers and times in KDB files

---
 src/kdb.cc | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3087594..7117b2b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,11 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    // Treat timestamps that denote no date as missing.
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900) {
+      return 0;
+    }
 
     std::tm time;
     time.tm_sec = second;
@@ -133,13 +132,7 @@ struct KdbTime {
     time.tm_yday = 0;   // Ignored by std::mktime().
     time.tm_isdst = -1;
 
-    std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
-      return 0;
-    }
-
-    return res;
+    return std::mktime(&time);
   }
 };
 static_assert(sizeof(KdbTime) == 5, "bad packing of time structure.");
@@ -585,8 +578,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
-    group_map[group_id] = group;
+    if (!group_map.insert(std::make_pair(group_id, group)).second)
+      throw FormatError("Duplicate group identifier in KDB.");
   }
 
   std::vector<std::tuple<std::shared_ptr<Entry>, uint32_t>> entries;
-- 
2.43.0


From e654cba068f5922b5775d8275439561a254b8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/26] fix: refuse KDB files with content beyond the counts in
 the unprotected header

---
 src/kdb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7117b2b..1346a41 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -589,6 +589,11 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
         ReadEntry(content, entry_group_id), entry_group_id));
   }
 
+  // The header is not covered by the content hash. If the counts are wrong we
+  // would lose groups or entries without noticing.
+  if (content.peek() != std::char_traits<char>::eof())
+    throw FormatError("Unexpected data after the last entry in KDB.");
+
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-- 
2.43.0


From 26987629bbf4a3aa8b181c625e5842bf0c92f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/26] fix: load compressed KDBX attachments completely, also
 with zero bytes or empty

---
 src/kdbx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b4313e2..983ca5f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -297,8 +297,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           gzip_istreambuf gzip_streambuf(raw_stream);
           std::istream gzip_stream(&gzip_streambuf);
 
+          std::vector<char> raw_data = consume<std::vector<char>>(gzip_stream);
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(raw_data.begin(), raw_data.end()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
-- 
2.43.0


From 31afb338fe55458b2479e80a40495446c0ae6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 06/26] fix: keep the content and protection of attachments
 stored inline in KDBX entries

---
 src/kdbx.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 983ca5f..d5e97ea 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -565,23 +565,25 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
+            std::vector<char> raw_data =
+                consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                std::string(raw_data.begin(), raw_data.end()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -708,8 +710,15 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      if (attachment->binary()->data().is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(
+            *attachment->binary()->data())).c_str());
+      } else {
+        val_node.text().set(base64_encode(
+            *attachment->binary()->data()).c_str());
+      }
     }
   }
 
-- 
2.43.0


From d5b29785d6b198534b3211e93d40830428577d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 07/26] fix: no null pointer access for attachments without
 data

---
 src/entry.cc | 2 +-
 src/kdb.cc   | 4 ++++
 src/kdbx.cc  | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index 1346a41..f4ae59f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -358,6 +358,10 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
           if (!attachment)
             attachment = std::make_shared<Entry::Attachment>();
           attachment->set_name(name);
+          if (!attachment->binary()) {
+            attachment->set_binary(
+                std::make_shared<Binary>(protect<std::string>()));
+          }
         break;
       }
       case KdbEntryFieldType::kAttachmentData:
diff --git a/src/kdbx.cc b/src/kdbx.cc
index d5e97ea..7e1d469 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -549,7 +549,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
   for (pugi::xml_node bin_node = entry_node.child("Binary"); bin_node;
       bin_node = bin_node.next_sibling("Binary")) {
     std::string key = bin_node.child_value("Key");
-    std::shared_ptr<Binary> binary;
+    std::shared_ptr<Binary> binary =
+        std::make_shared<Binary>(protect<std::string>());
 
     pugi::xml_node val_node = bin_node.child("Value");
     if (val_node) {
-- 
2.43.0


From 337144c5b1ba4cd03b2bc7df00488f7f8dc57a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 08/26] fix: initialize all times in the metadata

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From d3928d44ecca9d2320dfea077b57a22a4feddb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 09/26] fix: let recycle bin and templates group refer to the
 groups of the loaded tree

---
 src/kdbx.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7e1d469..3060eb6 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -237,15 +237,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -254,9 +248,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing "RecycleBinUUID", "EntryTemplatesGroup",
+  // "LastSelectedGroup" and "LastTopVisibleGroup" here. They will be parsed
+  // later by ParseXml(). The reason is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -879,6 +873,12 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
+
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-- 
2.43.0


From a2b578c837dedc36283e742d16c0d146fdd82f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 10/26] fix: no assertion failures on missing or malformed
 elements in KDBX files

---
 src/kdbx.cc | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 3060eb6..a834b64 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -144,14 +144,10 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   
   std::tm tm;
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  if (res == nullptr)
     return 0;
-  }
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
-
   return timegm(&tm);
 }
 
@@ -316,10 +312,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -474,11 +468,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
   if (entry_node.child("CustomIconUUID")) {
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
-    if (it != icon_pool_.end()) {
+    if (it != icon_pool_.end())
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
-    }
   }
  
   pugi::xml_node times_node = entry_node.child("Times");
@@ -741,11 +732,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   if (group_node.child("CustomIconUUID")) {
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
-    if (icon != icon_pool_.end()) {
+    if (icon != icon_pool_.end())
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
-    }
   }
 
   pugi::xml_node times_node = group_node.child("Times");
@@ -772,8 +760,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string last_visible_entry = group_node.child_value(
+      "LastTopVisibleEntry");
+  base64_decode(last_visible_entry, bounds_checked(uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -781,8 +770,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (!last_visible_entry.empty() && entry_uuid == uuid &&
+        group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
@@ -880,18 +869,12 @@ void KdbxFile::ParseXml(std::istream& src,
       meta_node.child_value("EntryTemplatesGroup")));
 
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
-  }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
-  }
 }
 
 #ifdef DEBUG
@@ -994,7 +977,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 6f802f4dba12aeed1a5c037bf482ba7691bab804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 11/26] fix: no leftover memory in identifiers of KDBX icons
 and groups

---
 src/kdbx.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a834b64..a783c2c 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -257,7 +257,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
-- 
2.43.0


From e9e5e665e643f5327743bde6ee3b6824ed5b7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 12/26] fix: refuse databases that cannot be stored with an
 exception

---
 src/kdb.cc  | 24 +++++++++++++++++++++---
 src/kdbx.cc | 17 ++++++++++++-----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index f4ae59f..b8885a7 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cassert>
 #include <fstream>
+#include <limits>
 #include <unordered_map>
 
 #include <openssl/sha.h>
@@ -450,7 +451,6 @@ void KdbFile::WriteEntry(std::ostream& dst,
   conserve<KdbTime>(dst, expiry_time);
 
   if (entry->HasAttachment()) {
-    assert(entry->attachments().size() == 1);
     std::shared_ptr<Entry::Attachment> attachment = entry->attachments()[0];
     if (!attachment->name().empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
@@ -645,8 +645,27 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
+  // Refuse what we can't store before touching the destination.
+  if (!db.root())
+    throw FormatError("Database has no root group.");
+  if (!db.root()->Entries().empty())
+    throw FormatError("Entries outside groups are not supported in KDB.");
+  if (db.master_seed().size() != 16)
+    throw FormatError("Master seed size is not supported in KDB.");
+  if (db.transform_rounds() > std::numeric_limits<uint32_t>::max())
+    throw FormatError("Transform round count exceeds KDB maximum.");
+  dfs<Group, &Group::Groups>(db.root(),
+                             [](const std::shared_ptr<Group>& group,
+                                std::size_t) {
+    for (const auto& entry : group->Entries()) {
+      if (entry->attachments().size() > 1)
+        throw FormatError("Multiple attachments are not supported in KDB.");
+      if (entry->HasAttachment() && !entry->attachments()[0]->binary())
+        throw FormatError("Entry attachment has no data.");
+    }
+  });
+
   // Extract database values in compatible formats.
-  assert(db.master_seed().size() == 16);
   std::array<uint8_t, 16> master_seed;
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
@@ -689,7 +708,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t level) {
     if (level > std::numeric_limits<uint16_t>::max()) {
-      assert(false);
       throw InternalError("Group hierarchy exceeds KDB maximum.");
     }
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index a783c2c..5353198 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -377,8 +377,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -685,6 +683,9 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     pugi::xml_node bin_node = entry_node.append_child("Binary");
     bin_node.append_child("Key").text().set(attachment->name().c_str());
 
+    if (!attachment->binary())
+      throw FormatError("Entry attachment has no data.");
+
     bool found_in_pool = false;
     for (auto it : binary_pool_) {
       if (it.second == attachment->binary()) {
@@ -910,7 +911,9 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   pugi::xml_node group_node =
       kpf_node.append_child("Root").append_child("Group");
 
-  WriteMeta(meta_node, obfuscator, db.meta());
+  // Databases from KDB files have no metadata.
+  WriteMeta(meta_node, obfuscator,
+            db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root());
 
   doc.save(dst);
@@ -1110,6 +1113,12 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
+  // Refuse what we can't store before touching the destination.
+  if (!db.root())
+    throw FormatError("Database has no root group.");
+  if (db.cipher() != Database::Cipher::kAes)
+    throw FormatError("Cipher is not supported in KDBX.");
+
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
@@ -1126,7 +1135,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-  assert(db.cipher() == Database::Cipher::kAes);
   std::unique_ptr<Cipher<16>> cipher(
       new AesCipher(final_key, db.init_vector()));
 
@@ -1150,7 +1158,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   if (db.master_seed().size() >
       std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
-    assert(false);
     throw InternalError("Master seed size exceeds KDBX maximum.");
   }
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
-- 
2.43.0


From 17ce226e3c1b98fea0f1996b325618734c578733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 13/26] fix: keep carriage returns in text stored in KDBX files

Carriage returns were written literally, and the end-of-line handling of
XML turned them into line feeds when the file was read back.
---
 src/pugixml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pugixml.cc b/src/pugixml.cc
index 006bbf2..2a26cf1 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -1842,7 +1842,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32 (except \t), &, <, >, "
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1851,7 +1851,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  0,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  3,  0,     // 48-63
-- 
2.43.0


From 1fef4f2e0e9bd8c7d522273e2ec77ab212c0a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 14/26] fix: store missing times in KDB files as such

A time of zero, which is what reading the "never" constant returns, was
written as a date in 1970 so that entries that never expire came out as
expired.
---
 src/kdb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index b8885a7..e39c3e8 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -77,7 +77,8 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    // Both denote a missing time, zero is also what ToTime() returns for it.
+    if (time == -1 || time == 0) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From 4858da931d26678141f7cf317118944b921dc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 15/26] fix: bound memory use by the data available when
 reading blocks and fields

A block or field whose size was wrong made the readers append up to four
gigabytes past the end of the data, and the header of a missing hashed
block was used uninitialized.
---
 src/io.cc     | 18 ++++++++++++++++++
 src/io.hh     | 10 ++++++++++
 src/kdb.cc    | 20 ++++----------------
 src/stream.cc |  8 ++++----
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 6f7e60c..b51ca56 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -75,6 +75,24 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src) {
   return unsigned_data;
 }
 
+std::vector<char> consume_exactly(std::istream& src, std::size_t size) {
+  static constexpr std::size_t kMaxChunkSize = 65536;
+
+  std::vector<char> data;
+  while (data.size() < size) {
+    std::size_t offset = data.size();
+    std::size_t chunk_size = size - offset < kMaxChunkSize ?
+        size - offset : kMaxChunkSize;
+
+    data.resize(offset + chunk_size);
+    src.read(data.data() + offset, chunk_size);
+    if (!src.good())
+      throw IoError("Read error.");
+  }
+
+  return data;
+}
+
 template <>
 void conserve<std::string>(std::ostream& dst, const std::string& val) {
   dst.write(val.c_str(), val.size() + 1);   // FIXME: Is this safe?
diff --git a/src/io.hh b/src/io.hh
index 474ec70..2c2ab03 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -46,6 +46,16 @@ std::vector<char> consume<std::vector<char>>(std::istream& src);
 template <>
 std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src);
 
+/**
+ * Reads an exact number of bytes. Memory use is bounded by what the source can
+ * provide, regardless of how many bytes are requested.
+ * @param [in] src Source stream.
+ * @param [in] size Number of bytes to read.
+ * @return Vector with exactly @a size bytes.
+ * @throw IoError If the source can't provide that many bytes.
+ */
+std::vector<char> consume_exactly(std::istream& src, std::size_t size);
+
 template<typename T>
 void conserve(std::ostream& dst, const T& val) {
   dst.write(reinterpret_cast<const char*>(&val), sizeof(T));
diff --git a/src/kdb.cc b/src/kdb.cc
index e39c3e8..224c9a8 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -185,14 +185,8 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     // This is to guard against reading outside the field as well as for making
     // sure to read the complete field regardless of how much of it that we
     // parse.
-    std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
-
-    assert(field.str().size() == field_size);
+    std::vector<char> field_data = consume_exactly(src, field_size);
+    std::stringstream field(std::string(field_data.begin(), field_data.end()));
 
     // Parse the group field.
     switch (static_cast<KdbGroupFieldType>(field_type)) {
@@ -296,14 +290,8 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     // This is to guard against reading outside the field as well as for making
     // sure to read the complete field regardless of how much of it that we
     // parse.
-    std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
-
-    assert(field.str().size() == field_size);
+    std::vector<char> field_data = consume_exactly(src, field_size);
+    std::stringstream field(std::string(field_data.begin(), field_data.end()));
 
     // Parse the entry field.
     switch (static_cast<KdbEntryFieldType>(field_type)) {
diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..e9d6368 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -24,6 +24,7 @@
 
 #include "exception.hh"
 #include "format.hh"
+#include "io.hh"
 
 namespace keepass {
 
@@ -44,15 +45,14 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Truncated block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
     block_index_++;
 
-    block_.clear();
-    std::generate_n(std::back_inserter(block_),
-                    header.block_size,
-                    [&]() { return src_.get(); });
+    block_ = consume_exactly(src_, header.block_size);
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
-- 
2.43.0


From 6cd8f550cf8ee2de2d12333620eeef79ff74e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 16/26] fix: report truncated gzip data instead of returning
 what was there

Compressed data that ended early was taken for complete, an inflate call
that produced no output ended the data early, and a failure to allocate
the zlib state aborted the process when assertions are enabled.
---
 src/stream.cc | 29 ++++++++++++++++-------------
 src/stream.hh |  2 ++
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index e9d6368..f356497 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -130,10 +130,8 @@ gzip_istreambuf::gzip_istreambuf(std::istream& src) :
   z_stream_.avail_out = output_.size();
   z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
 
-  if (inflateInit2(&z_stream_, 16 + MAX_WBITS) != Z_OK) {
-    assert(false);
+  if (inflateInit2(&z_stream_, 16 + MAX_WBITS) != Z_OK)
     throw InternalError("Failed to initialize the gzip decompressor.");
-  }
 }
 
 gzip_istreambuf::~gzip_istreambuf() {
@@ -141,19 +139,24 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
+  // Not every call to the decompressor has to produce output.
+  while (gptr() == egptr() && !done_) {
     // Check if we need to feed the z-stream more input data.
     if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
+      if (src_.good()) {
+        src_.read(input_.data(), input_.size());
 
-      src_.read(input_.data(), input_.size());
+        z_stream_.avail_in = src_.gcount();
+        z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+      }
 
-      z_stream_.avail_in = src_.gcount();
-      z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+      if (z_stream_.avail_in < 1) {
+        // No data at all is treated as the compressed form of no data.
+        if (z_stream_.total_in > 0 || src_.bad())
+          throw IoError("Truncated gzip data.");
 
-      if (z_stream_.avail_in < 1)
         return std::char_traits<char>::eof();
+      }
     }
 
     z_stream_.avail_out = output_.size();
@@ -165,6 +168,8 @@ int gzip_istreambuf::underflow() {
       throw IoError(Format() << "Gzip inflation error (" << res << ").");
     }
 
+    done_ = res == Z_STREAM_END;
+
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
   }
@@ -185,10 +190,8 @@ gzip_ostreambuf::gzip_ostreambuf(std::ostream& dst) :
   z_stream_.next_out = Z_NULL;
 
   if (deflateInit2(&z_stream_, Z_DEFAULT_COMPRESSION, Z_DEFLATED,
-                   16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY) != Z_OK) {
-    assert(false);
+                   16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY) != Z_OK)
     throw InternalError("Failed to initialize the gzip compressor.");
-  }
 }
 
 gzip_ostreambuf::~gzip_ostreambuf() {
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..3a0f41a 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -156,6 +156,8 @@ class gzip_istreambuf final :
   std::array<char, kBufferSize> input_ = { { 0 } };
   /** Output buffer for the decompressor to write to. */
   std::array<char, kBufferSize> output_ = { { 0 } };
+  /** Set when the end of the compressed data has been reached. */
+  bool done_ = false;
 
 public:
   gzip_istreambuf(std::istream& src);
-- 
2.43.0


From b345bdaebd9e590c1287ebc6c8159598fe5d0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 17/26] fix: convert times without sharing a static buffer
 between threads

Databases loaded or stored in parallel could get each other's times, and
times outside the range of the calendar dereferenced a null pointer.
---
 src/kdb.cc  | 19 +++++++++++--------
 src/kdbx.cc |  8 ++++++--
 src/util.cc | 11 +++++++----
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 224c9a8..209bb89 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -81,14 +81,17 @@ struct KdbTime {
     if (time == -1 || time == 0) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
-
-      uint32_t year = time_ptr->tm_year + 1900;
-      uint32_t month = time_ptr->tm_mon + 1;
-      uint32_t day = time_ptr->tm_mday;
-      uint32_t hour = time_ptr->tm_hour;
-      uint32_t minute = time_ptr->tm_min;
-      uint32_t second = time_ptr->tm_sec;
+      // The reentrant variant, other threads may be converting times too.
+      std::tm local_time;
+      if (localtime_r(&time, &local_time) == nullptr)
+        throw FormatError("Time can't be represented in KDB.");
+
+      uint32_t year = local_time.tm_year + 1900;
+      uint32_t month = local_time.tm_mon + 1;
+      uint32_t day = local_time.tm_mday;
+      uint32_t hour = local_time.tm_hour;
+      uint32_t minute = local_time.tm_min;
+      uint32_t second = local_time.tm_sec;
 
       packed[0] = year >> 6;
       packed[1] = ((year & 0x3f) << 2) | (month >> 2);
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 5353198..5d8acf8 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -155,9 +155,13 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  // The reentrant variant, other threads may be converting times too.
+  std::tm utc_time;
+  if (gmtime_r(&time, &utc_time) == nullptr)
+    throw FormatError("Time can't be represented in KDBX.");
+
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &utc_time);
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index 99e249f..215c6b7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -18,17 +18,20 @@
 
 #include "util.hh"
 
-#include <cassert>
 #include <random>
 
+#include "exception.hh"
+
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
-  assert(local_time != nullptr);
+  // The reentrant variant, other threads may be converting times too.
+  std::tm local_time;
+  if (localtime_r(&time, &local_time) == nullptr)
+    throw InternalError("Time can't be represented as local time.");
 
   char buffer[128];
-  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", local_time);
+  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", &local_time);
   return buffer;
 }
 
-- 
2.43.0


From 5e7fec50bead3e235d7bc9437c5c59bd877767d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 18/26] fix: keep the current key when a key file is rejected

A malformed hexadecimal key file left part of its content behind in the
key, a key file of zeros was treated like no key file, and read errors
were reported as format errors.
---
 src/key.cc | 28 +++++++++++++++++++---------
 src/key.hh |  2 ++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..4917942 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_key_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_key_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_key_) {
+      if (has_keyfile_key_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_key_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -87,13 +86,19 @@ void Key::SetKeyFile(const std::string& path) {
 
   // First, try to parse the key file as XML.
   pugi::xml_document doc;
-  if (doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata)) {
+  pugi::xml_parse_result res =
+      doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata);
+  if (res.status == pugi::status_io_error)
+    throw IoError("Read error.");
+
+  if (res) {
     std::string key_str = base64_decode(
         doc.child("KeyFile").child("Key").child_value("Data"));
     if (key_str.size() != 32)
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_key_ = true;
     return;
   }
 
@@ -107,15 +112,20 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  // Don't touch the current key until we know that the file is valid.
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
+  key_.has_keyfile_key_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..602ac4b 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,8 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_password_key_ = false;
+    bool has_keyfile_key_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From 4ae73dfb611fc25eb17749cab225f56cd57663c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 19/26] fix: use the full entropy of the random device for
 identifiers and random arrays

Both were generated from a 32-bit seed, so that identifiers of entries and
groups collided after some ten thousand objects.
---
 src/random.hh | 5 +++--
 src/util.cc   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/random.hh b/src/random.hh
index e8fd1a2..7f57fa1 100644
--- a/src/random.hh
+++ b/src/random.hh
@@ -48,15 +48,16 @@ class RandomObfuscator {
 
 template <std::size_t N>
 std::array<uint8_t, N> random_array() {
+  // Don't put an engine in between. Seeding it from a single number would
+  // leave only 2^32 different arrays.
   std::random_device rd;
-  std::mt19937 engine(rd());
 
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, N> array;
   for (std::size_t i = 0; i < N; ++i)
-    array[i] = uniform_dist(engine);
+    array[i] = uniform_dist(rd);
 
   return array;
 }
diff --git a/src/util.cc b/src/util.cc
index 215c6b7..ba3e8a3 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -36,15 +36,16 @@ std::string time_to_str(const std::time_t& time) {
 }
 
 std::array<uint8_t, 16> generate_uuid() {
+  // Don't put an engine in between. Seeding it from a single number would
+  // leave only 2^32 different identifiers.
   std::random_device rd;
-  std::mt19937 engine(rd());
 
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, 16> uuid;
   for (std::size_t i = 0; i < 16; ++i)
-    uuid[i] = uniform_dist(engine);
+    uuid[i] = uniform_dist(rd);
 
   return uuid;
 }
-- 
2.43.0


From faa8249a8b2201ad3d3d4df53d352393b0b06129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 20/26] fix: count transform rounds with the width of the round
 count

The loop counter wrapped around before reaching round counts above 2^32.
---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 4917942..b7280a6 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -134,7 +134,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 185f0d5cd950a2ca52359560f53b3970f2813c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 21/26] fix: keep the existing file when a database can't be
 exported

The destination was emptied before anything that can fail had been done.
---
 src/kdb.cc  | 20 ++++++++++++++------
 src/kdbx.cc | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 209bb89..4ef2268 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -662,10 +662,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -762,10 +758,22 @@ void KdbFile::Export(const std::string& path, const Database& db,
   header.transform_seed = db.transform_seed();
   header.transform_rounds = db.transform_rounds();
 
-  conserve<KdbHeader>(dst, header);
+  std::stringstream file_stream;
+  conserve<KdbHeader>(file_stream, header);
 
   // Encrypt the content.
-  encrypt_cbc(content, dst, *cipher);
+  encrypt_cbc(content, file_stream, *cipher);
+
+  std::string file_data = file_stream.str();
+  if (!file_stream.good())
+    throw IoError("Write error.");
+
+  // Don't open the destination until here, opening it destroys what it holds.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  dst.write(file_data.data(), file_data.size());
 
   // Closing the file writes out buffered data, only then we know that
   // everything reached the file.
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 5d8acf8..a78d6df 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1123,10 +1123,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   if (db.cipher() != Database::Cipher::kAes)
     throw FormatError("Cipher is not supported in KDBX.");
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1204,9 +1200,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, header_data.c_str(), header_data.size());
   SHA256_Final(header_hash_.data(), &sha256);
 
-  // Write header to file.
-  dst.write(header_data.data(), header_data.size());
-
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
   SHA256_Init(&sha256);
@@ -1241,7 +1234,20 @@ void KdbxFile::Export(const std::string& path, const Database& db,
     throw IoError("Write error.");
 
   // Encrypt content.
-  encrypt_cbc(content_stream, dst, *cipher);
+  std::stringstream file_stream;
+  file_stream.write(header_data.data(), header_data.size());
+  encrypt_cbc(content_stream, file_stream, *cipher);
+
+  std::string file_data = file_stream.str();
+  if (!file_stream.good())
+    throw IoError("Write error.");
+
+  // Don't open the destination until here, opening it destroys what it holds.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  dst.write(file_data.data(), file_data.size());
 
   // Closing the file writes out buffered data, only then we know that
   // everything reached the file.
-- 
2.43.0


From f51f4bfcf1c8538ae8ed209897fea6c1d913896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 22/26] fix: fail the export of KDBX databases when running out
 of memory

Elements that pugixml couldn't allocate were silently missing from the
exported file.
---
 src/kdbx.cc    |  5 +++++
 src/pugixml.cc | 18 ++++++++++++++++--
 src/pugixml.hh |  3 +++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a78d6df..578d450 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cassert>
 #include <fstream>
+#include <new>
 #include <sstream>
 #ifdef DEBUG
 #include <iostream>
@@ -920,6 +921,10 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
             db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root());
 
+  // Elements that didn't fit in memory are silently left out of the document.
+  if (doc.allocation_failed())
+    throw std::bad_alloc();
+
   doc.save(dst);
 }
 
diff --git a/src/pugixml.cc b/src/pugixml.cc
index 2a26cf1..c81d9f7 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -489,7 +489,7 @@ PUGI__NS_BEGIN
 
 	struct xml_allocator
 	{
-		xml_allocator(xml_memory_page* root): _root(root), _busy_size(root->busy_size)
+		xml_allocator(xml_memory_page* root): _root(root), _busy_size(root->busy_size), _failed(false)
 		{
 		#ifdef PUGIXML_COMPACT
 			_hash = 0;
@@ -681,6 +681,9 @@ PUGI__NS_BEGIN
 		xml_memory_page* _root;
 		size_t _busy_size;
 
+		// set once an allocation has failed
+		bool _failed;
+
 	#ifdef PUGIXML_COMPACT
 		compact_hash_table* _hash;
 	#endif
@@ -693,7 +696,11 @@ PUGI__NS_BEGIN
 		xml_memory_page* page = allocate_page(size <= large_allocation_threshold ? xml_memory_page_size : size);
 		out_page = page;
 
-		if (!page) return 0;
+		if (!page)
+		{
+			_failed = true;
+			return 0;
+		}
 
 		if (size <= large_allocation_threshold)
 		{
@@ -7041,6 +7048,13 @@ namespace pugi
 		return impl::save_file_impl(*this, file.data, indent, flags, encoding);
 	}
 
+	PUGI__FN bool xml_document::allocation_failed() const
+	{
+		assert(_root);
+
+		return static_cast<impl::xml_document_struct*>(_root)->_failed;
+	}
+
 	PUGI__FN xml_node xml_document::document_element() const
 	{
 		assert(_root);
diff --git a/src/pugixml.hh b/src/pugixml.hh
index 4100d7d..1b11db8 100644
--- a/src/pugixml.hh
+++ b/src/pugixml.hh
@@ -1037,6 +1037,9 @@ namespace pugi
 		bool save_file(const char* path, const char_t* indent = PUGIXML_TEXT("\t"), unsigned int flags = format_default, xml_encoding encoding = encoding_auto) const;
 		bool save_file(const wchar_t* path, const char_t* indent = PUGIXML_TEXT("\t"), unsigned int flags = format_default, xml_encoding encoding = encoding_auto) const;
 
+		// Check if memory allocation has failed since the document was created, in which case nodes or values may be missing
+		bool allocation_failed() const;
+
 		// Get document element
 		xml_node document_element() const;
 	};
-- 
2.43.0


From 7aa9c2492378c474655738ff71ea69a0c9c15e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 23/26] fix: spell boolean values in KDBX files the way KeePass
 does

KeePass doesn't recognize "true" and "false" and falls back to the
default of each setting.
---
 src/kdbx.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 578d450..4499d91 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -113,6 +113,14 @@ static_assert(sizeof(KdbxHeaderField) == 3,
               "bad packing of bitfield header structure.");
 #pragma pack(pop)
 
+/**
+ * Returns the spelling that KeePass uses for boolean values. Others are not
+ * recognized.
+ */
+static const char* BoolText(bool value) {
+  return value ? "True" : "False";
+}
+
 void KdbxFile::Reset() {
   binary_pool_.clear();
   icon_pool_.clear();
@@ -357,23 +365,23 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
   pugi::xml_node mp_node = meta_node.append_child("MemoryProtection");
   mp_node.append_child("ProtectTitle").text().set(
-      meta->memory_protection().title());
+      BoolText(meta->memory_protection().title()));
   mp_node.append_child("ProtectUserName").text().set(
-      meta->memory_protection().username());
+      BoolText(meta->memory_protection().username()));
   mp_node.append_child("ProtectPassword").text().set(
-      meta->memory_protection().password());
+      BoolText(meta->memory_protection().password()));
   mp_node.append_child("ProtectURL").text().set(
-      meta->memory_protection().url());
+      BoolText(meta->memory_protection().url()));
   mp_node.append_child("ProtectNotes").text().set(
-      meta->memory_protection().notes());
+      BoolText(meta->memory_protection().notes()));
 
   if (meta->recycle_bin()) {
-    meta_node.append_child("RecycleBinEnabled").text().set(true);
+    meta_node.append_child("RecycleBinEnabled").text().set(BoolText(true));
     meta_node.append_child("RecycleBinUUID").text().set(base64_encode(
         meta->recycle_bin()->uuid().begin(),
         meta->recycle_bin()->uuid().end()).c_str());
   } else {
-    meta_node.append_child("RecycleBinEnabled").text().set(false);
+    meta_node.append_child("RecycleBinEnabled").text().set(BoolText(false));
   }
   meta_node.append_child("RecycleBinChanged").text().set(WriteDateTime(
       meta->recycle_bin_changed()).c_str());
@@ -633,11 +641,11 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       entry->move_time()).c_str());
-  times_node.append_child("Expires").text().set(entry->expires());
+  times_node.append_child("Expires").text().set(BoolText(entry->expires()));
   times_node.append_child("UsageCount").text().set(entry->usage_count());
 
   pugi::xml_node autotype_node = entry_node.append_child("AutoType");
-  autotype_node.append_child("Enabled").text().set(entry->auto_type().enabled());
+  autotype_node.append_child("Enabled").text().set(BoolText(entry->auto_type().enabled()));
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
@@ -815,14 +823,14 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
       group->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       group->move_time()).c_str());
-  times_node.append_child("Expires").text().set(group->expires());
+  times_node.append_child("Expires").text().set(BoolText(group->expires()));
   times_node.append_child("UsageCount").text().set(group->usage_count());
 
-  group_node.append_child("IsExpanded").text().set(group->expanded());
+  group_node.append_child("IsExpanded").text().set(BoolText(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       group->default_autotype_sequence().c_str());
-  group_node.append_child("EnableAutoType").text().set(group->autotype());
-  group_node.append_child("EnableSearching").text().set(group->search());
+  group_node.append_child("EnableAutoType").text().set(BoolText(group->autotype()));
+  group_node.append_child("EnableSearching").text().set(BoolText(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From c21c89c7cdb5fea1c54a25489f6c39297e1caacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 24/26] fix: write KDB group flags with the size the format
 demands

---
 src/kdb.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 4ef2268..c7f0176 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -153,7 +153,7 @@ enum class KdbGroupFieldType : uint16_t {
   kExpiryTime,          ///< 5 bytes.
   kIcon,                ///< 4 bytes.
   kLevel,               ///< 2 bytes.
-  kFlags,               ///< 2 bytes.
+  kFlags,               ///< 4 bytes.
   kEnd = 0xffff         ///< 0 bytes.
 };
 
@@ -273,8 +273,8 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint16_t>(dst, level);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kFlags));
-  conserve<uint32_t>(dst, 2);
-  conserve<uint16_t>(dst, group->flags());
+  conserve<uint32_t>(dst, 4);
+  conserve<uint32_t>(dst, group->flags());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kEnd));
   conserve<uint32_t>(dst, 0);
-- 
2.43.0


From 2b1af15512860bbffbfdc2fc75c0424a14d60fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 25/26] fix: keep failing allocations from destroying the
 destination of a save

---
 src/kdb.cc  | 6 +++++-
 src/kdbx.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index c7f0176..f262f8e 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -769,7 +769,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
     throw IoError("Write error.");
 
   // Don't open the destination until here, opening it destroys what it holds.
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  // Nothing must fail for lack of memory afterwards, so give it its buffer.
+  char dst_buffer[4096];
+  std::ofstream dst;
+  dst.rdbuf()->pubsetbuf(dst_buffer, sizeof(dst_buffer));
+  dst.open(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 4499d91..7eac91a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1256,7 +1256,11 @@ void KdbxFile::Export(const std::string& path, const Database& db,
     throw IoError("Write error.");
 
   // Don't open the destination until here, opening it destroys what it holds.
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  // Nothing must fail for lack of memory afterwards, so give it its buffer.
+  char dst_buffer[4096];
+  std::ofstream dst;
+  dst.rdbuf()->pubsetbuf(dst_buffer, sizeof(dst_buffer));
+  dst.open(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
 
-- 
2.43.0


From 1c5d647611d1279dd68b10c4529c90b624d6b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 26/26] fix: refuse groups and history entries nested too deep

Groups and history entries are loaded, saved, printed and destroyed
recursively. A file with some ten thousand levels overflowed the stack.
---
 src/kdb.cc  | 10 +++++++++-
 src/kdbx.cc | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index f262f8e..1ca4c66 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -45,6 +45,9 @@ const uint32_t kKdbFlagRijndael = 0x00000002;
 //const uint32_t kKdbFlagArcFour = 0x00000004;
 const uint32_t kKdbFlagTwofish = 0x00000008;
 
+/** Deepest supported group level. Group trees are processed recursively. */
+const uint32_t kKdbMaxGroupLevel = 1000;
+
 #pragma pack(push, 1)
 struct KdbHeader {
   uint32_t signature0;
@@ -608,6 +611,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
+      if (std::get<1>(group_data) > kKdbMaxGroupLevel)
+        throw FormatError("Group tree is too deep in KDB.");
 
       last_group_by_level[group_level - 1]->AddGroup(group);
       last_group_by_level.resize(group_level);
@@ -648,7 +653,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
     throw FormatError("Transform round count exceeds KDB maximum.");
   dfs<Group, &Group::Groups>(db.root(),
                              [](const std::shared_ptr<Group>& group,
-                                std::size_t) {
+                                std::size_t level) {
+    if (level > kKdbMaxGroupLevel)
+      throw FormatError("Group hierarchy exceeds KDB maximum.");
+
     for (const auto& entry : group->Entries()) {
       if (entry->attachments().size() > 1)
         throw FormatError("Multiple attachments are not supported in KDB.");
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7eac91a..892d9e5 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -113,6 +113,21 @@ static_assert(sizeof(KdbxHeaderField) == 3,
               "bad packing of bitfield header structure.");
 #pragma pack(pop)
 
+/**
+ * Checks that the elements of a document aren't nested too deep. Groups and
+ * history entries are processed recursively, both when loading and saving.
+ */
+static bool CheckDepth(pugi::xml_document& doc) {
+  struct DepthWalker : pugi::xml_tree_walker {
+    virtual bool for_each(pugi::xml_node&) override {
+      return depth() <= 1024;
+    }
+  };
+
+  DepthWalker walker;
+  return doc.traverse(walker);
+}
+
 /**
  * Returns the spelling that KeePass uses for boolean values. Others are not
  * recognized.
@@ -854,6 +869,8 @@ void KdbxFile::ParseXml(std::istream& src,
   pugi::xml_document doc;
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
+  if (!CheckDepth(doc))
+    throw FormatError("Elements are nested too deep in KDBX.");
 
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
@@ -932,6 +949,8 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   // Elements that didn't fit in memory are silently left out of the document.
   if (doc.allocation_failed())
     throw std::bad_alloc();
+  if (!CheckDepth(doc))
+    throw FormatError("Groups or entries are nested too deep for KDBX.");
 
   doc.save(dst);
 }
-- 
2.43.0

