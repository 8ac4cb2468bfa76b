From 41b44a9a30d5b0e455ee4af3bf83dd230c9744ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 01/58] fix: rebuild the KDB group tree correctly after going
 up several levels

The list of last groups per level was never shortened when moving up in the
tree, so a later group one level down was appended behind stale entries and its
own children ended up under the wrong parent.
---
 src/kdb.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..2bd9d0f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -611,16 +611,14 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     // level zero.
     uint16_t group_level = std::get<1>(group_data) + 1;
 
-    if (group_level > last_group_level) {
-      if (group_level != last_group_level + 1)
-        throw FormatError("Malformed group tree.");
-
-      last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level.push_back(group);
-    } else {
-      last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level[group_level] = group;
-    }
+    if (group_level > last_group_level && group_level != last_group_level + 1)
+      throw FormatError("Malformed group tree.");
+
+    // Forget the groups at this level and below, they belong to a branch of the
+    // tree that is now complete.
+    last_group_by_level.resize(group_level);
+    last_group_by_level.back()->AddGroup(group);
+    last_group_by_level.push_back(group);
 
     last_group_level = group_level;
   }
-- 
2.43.0


From 36d53af449f417b6735f0e62f0c9dada4be39be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 02/58] fix: avoid wrap-around of the group level when
 importing KDB

A group at level 65535 wrapped to level zero and indexed before the start of
the list of last groups.
---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 2bd9d0f..f648715 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,7 +609,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = std::get<1>(group_data) + 1;
 
     if (group_level > last_group_level && group_level != last_group_level + 1)
       throw FormatError("Malformed group tree.");
-- 
2.43.0


From 28f42529d6df80b0b9a59ed953fbb739c5e5b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 03/58] fix: report malformed times and group ids in KDB as
 format errors

They depend on the file only, so they must not abort the program through an
assertion.
---
 src/kdb.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index f648715..c9b47c5 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,9 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900)
+      throw FormatError("Illegal time in KDB.");
 
     std::tm time;
     time.tm_sec = second;
@@ -129,15 +126,13 @@ struct KdbTime {
     time.tm_mday = day;
     time.tm_mon = month - 1;    // [0,11]
     time.tm_year = year - 1900;
-    time.tm_wday = 0;   // Ignored by std::mktime().
+    time.tm_wday = -1;  // Set by std::mktime() on success.
     time.tm_yday = 0;   // Ignored by std::mktime().
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
-      return 0;
-    }
+    if (res == -1 && time.tm_wday == -1)
+      throw FormatError("Illegal time in KDB.");
 
     return res;
   }
@@ -585,7 +580,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
+    if (group_map.count(group_id) != 0)
+      throw FormatError("Duplicate group id in KDB.");
     group_map[group_id] = group;
   }
 
-- 
2.43.0


From 7044703eed315c5b4225db76e5153a9fea106e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 04/58] fix: write the never time to KDB for times that are
 zero

The importers of both formats represent "never" as zero, but the KDB exporter
tested for -1 and so turned never-expiring entries into ones expired in 1970.
---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index c9b47c5..4d7fa2f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From dc426f9614f71c12b7850e2af9a8456f08f57e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 05/58] fix: give KDB attachments without data an empty binary

The attachment was left with a null binary, which is dereferenced when the
entry is exported or converted to JSON.
---
 src/kdb.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 4d7fa2f..96156ce 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -375,8 +375,14 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
         }
         break;
       case KdbEntryFieldType::kEnd:
-        if (attachment)
+        if (attachment) {
+          // The data field is absent for empty attachments.
+          if (!attachment->binary()) {
+            attachment->set_binary(std::make_shared<Binary>(
+                protect<std::string>(std::string(), false)));
+          }
           entry->AddAttachment(attachment);
+        }
         return entry;
       default:
         throw FormatError("Illegal entry field in KDB.");
-- 
2.43.0


From dc55e34b685854b3be3048ad8b59a15b19684d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 06/58] fix: reject KDB files with content beyond the stated
 groups and entries

The counts in the header are not authenticated. Lowered counts made the import
silently return only part of the database.
---
 src/kdb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 96156ce..7ef4cca 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -598,6 +598,10 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
         ReadEntry(content, entry_group_id), entry_group_id));
   }
 
+  // The group and entry counts are not covered by the content hash.
+  if (content.peek() != std::char_traits<char>::eof())
+    throw FormatError("Trailing data in KDB.");
+
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-- 
2.43.0


From 84384dd436c59e602ffeee6f0386fb70a7ccbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 07/58] fix: write KDB group flags as a four byte field

The format defines a 32-bit field, which is what KeePass 1.x reads and writes.
---
 src/kdb.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7ef4cca..aa0865e 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -150,7 +150,7 @@ enum class KdbGroupFieldType : uint16_t {
   kExpiryTime,          ///< 5 bytes.
   kIcon,                ///< 4 bytes.
   kLevel,               ///< 2 bytes.
-  kFlags,               ///< 2 bytes.
+  kFlags,               ///< 4 bytes.
   kEnd = 0xffff         ///< 0 bytes.
 };
 
@@ -276,8 +276,8 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint16_t>(dst, level);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kFlags));
-  conserve<uint32_t>(dst, 2);
-  conserve<uint16_t>(dst, group->flags());
+  conserve<uint32_t>(dst, 4);
+  conserve<uint32_t>(dst, group->flags());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kEnd));
   conserve<uint32_t>(dst, 0);
-- 
2.43.0


From 43ac4581c522fa4c9846c4cfebccdea8fb0ff41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 08/58] fix: stop at the end of the content when reading KDB
 fields

A bogus field size made the importer append up to four gigabytes of filler
before noticing that the content had ended.
---
 src/kdb.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index aa0865e..b85da9c 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -188,9 +188,12 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+      return c;
+    });
 
     assert(field.str().size() == field_size);
 
@@ -299,9 +302,12 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+      return c;
+    });
 
     assert(field.str().size() == field_size);
 
-- 
2.43.0


From a6011133bef93bc804c5653872247a96c23f199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 09/58] fix: leave the key untouched when a hexadecimal key
 file is invalid

The digits before the first illegal character had already replaced the previous
key file key when the exception was thrown.
---
 src/key.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..f294452 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -107,15 +107,18 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> key;
+  for (std::size_t i = 0; i < key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    key[i] = v;
   }
+
+  key_.keyfile_key_ = key;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
-- 
2.43.0


From b05d5b4e68986cbb2e0e621b704a85b90e77f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 10/58] fix: do not mistake an all-zero key file key for a
 missing key file

Such a key file was left out of the composite key, so the database could be
opened without it and was incompatible with other programs.
---
 src/key.cc | 13 +++++++------
 src/key.hh |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index f294452..e4cfe1d 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_) {
+      if (has_keyfile_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -94,6 +93,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_ = true;
     return;
   }
 
@@ -119,6 +119,7 @@ void Key::SetKeyFile(const std::string& path) {
   }
 
   key_.keyfile_key_ = key;
+  key_.has_keyfile_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..0e8b551 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,8 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_password_ = false;
+    bool has_keyfile_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From 7f0531ea6f2460345c7c32e9ba2fd91f0fbba5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 11/58] fix: terminate key transformations of 2^32 or more
 rounds

The 32-bit loop counter wrapped around before reaching the round count.
---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index e4cfe1d..c884679 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -128,7 +128,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 227bf5420a0ce4952e7bf85ddac3d22788cea3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 12/58] fix: read and write the data of inline KDBX attachments

The data and its attributes belong to the Value element but were looked up in
its parent, so attachments not stored in the binary pool came out empty. When
writing, protected data was stored in the clear and lost its protection.
---
 src/kdbx.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..2f4b240 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -562,23 +562,23 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
             prot_val = protect<std::string>(
                 consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -705,8 +705,13 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      val_node = bin_node.append_child("Value");
+      const protect<std::string>& data = attachment->binary()->data();
+      if (data.is_protected()) {
+        WriteProtectedString(val_node, data, obfuscator);
+      } else {
+        val_node.text().set(base64_encode(*data).c_str());
+      }
     }
   }
 
-- 
2.43.0


From cd2b7c6fc041f6f8968ec3cf47edd0578b4532ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 13/58] fix: import compressed KDBX binaries that are empty or
 contain zero bytes

They were read as NUL-terminated strings, which cut them off at the first zero
byte and rejected empty ones.
---
 src/kdbx.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 2f4b240..0b127b0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -297,8 +297,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           gzip_istreambuf gzip_streambuf(raw_stream);
           std::istream gzip_stream(&gzip_streambuf);
 
+          std::vector<char> raw_data = consume<std::vector<char>>(gzip_stream);
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(raw_data.begin(), raw_data.end()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
@@ -572,8 +573,10 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
+            std::vector<char> raw_data =
+                consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
+                std::string(raw_data.begin(), raw_data.end()),
                 val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-- 
2.43.0


From a0c15f86c9044ed16e70b56d4068892080d9c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 14/58] fix: do not abort on absent or malformed KDBX elements

Optional elements may be absent and references may dangle, neither of which is
a programming error. Illegal times are reported as format errors.
---
 src/kdbx.cc | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0b127b0..b3c6bfd 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -142,15 +142,18 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   if (std::string(text) == "2999-12-28T22:59:59Z")
     return 0;
   
-  std::tm tm;
-  char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  // The element is optional.
+  if (*text == '\0')
     return 0;
-  }
+
+  std::tm tm = std::tm();
+  char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
+  if (res == nullptr)
+    throw FormatError("Illegal time in KDBX.");
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
+  if (*res != 'Z' && *res != '\0')
+    throw FormatError("Illegal time in KDBX.");
 
   return timegm(&tm);
 }
@@ -322,10 +325,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -389,8 +390,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -480,8 +479,6 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
     if (it != icon_pool_.end()) {
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
     }
   }
  
@@ -744,8 +741,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
     if (icon != icon_pool_.end()) {
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
     }
   }
 
@@ -782,8 +777,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (entry_uuid == uuid && group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
@@ -877,15 +871,11 @@ void KdbxFile::ParseXml(std::istream& src,
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
   }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
   }
 }
 
-- 
2.43.0


From 2bb085820e18711100e2706368a595540078a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 15/58] fix: resolve KDBX group references after the groups are
 parsed

The recycle bin and the entry templates group were resolved first, to
placeholder groups, and references that followed resolved to those as well
instead of to the groups in the tree.
---
 src/kdbx.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b3c6bfd..a3dbd9e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -240,15 +240,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -257,9 +251,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing "RecycleBinUUID", "EntryTemplatesGroup",
+  // "LastSelectedGroup" and "LastTopVisibleGroup" here. They will be parsed
+  // later by ParseXml(). The reason is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -868,6 +862,14 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+  else
+    meta->set_recycle_bin(std::shared_ptr<Group>());
+
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
+
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-- 
2.43.0


From 7941397dfa8654e106dd0dc1a3814bb320e43072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 16/58] fix: leave the last visible entry unset when a KDBX
 group has none

---
 src/kdbx.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a3dbd9e..6953b99 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -762,8 +762,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string last_visible = group_node.child_value("LastTopVisibleEntry");
+  uuid = { { 0 } };
+  base64_decode(last_visible, bounds_checked(uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -771,7 +772,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid && group->last_visible_entry().expired()) {
+    if (!last_visible.empty() && entry_uuid == uuid &&
+        group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From 6bba9cdd0c79b327508fb62cd99ebe88cdf3fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 17/58] fix: initialize UUIDs that may be decoded from too
 short data

---
 src/kdbx.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6953b99..cfb548f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -264,7 +264,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
-- 
2.43.0


From 117b6ddcfad09397aa08f3b77e88ac01095f7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 18/58] fix: accept the comment field in the KDBX header

---
 src/kdbx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index cfb548f..87135ad 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -86,7 +86,7 @@ static_assert(sizeof(KdbxHeader) == 12,
 struct KdbxHeaderField {
   enum Id : uint8_t {
     kEndOfHeader = 0,
-    //kComment = 1,
+    kComment = 1,
     kCipherId = 2,
     kCompressionFlags = 3,
     kMasterSeed = 4,
@@ -976,6 +976,8 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
       case KdbxHeaderField::kEndOfHeader:
         done = true;
         break;
+      case KdbxHeaderField::kComment:
+        break;
       case KdbxHeaderField::kCipherId:
         if (consume<std::array<uint8_t, 16>>(field) != kKdbxCipherAes)
           throw FormatError("Unknown cipher in KDBX.");
-- 
2.43.0


From 200a39c96b0a9fe7218b7849f9beb856bd47bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 19/58] fix: reject unknown compression methods in KDBX

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 87135ad..70c4a75 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -985,7 +985,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 223dc97794d5225efe7e50eb84314750d5c5ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 20/58] fix: initialize all times of new meta data objects

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From c305461f4828ea3648f21337ce7aa078137bc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 21/58] fix: handle attachments without a binary

---
 src/entry.cc | 2 +-
 src/kdb.cc   | 2 +-
 src/kdbx.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index b85da9c..52e3269 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -469,7 +469,7 @@ void KdbFile::WriteEntry(std::ostream& dst,
       conserve<std::string>(dst, attachment->name());
     }
 
-    if (!attachment->binary()->Empty()) {
+    if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
       conserve<uint32_t>(dst, attachment->binary()->Size());
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 70c4a75..cc42617 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -698,7 +698,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       }
     }
 
-    if (!found_in_pool) {
+    if (!found_in_pool && attachment->binary()) {
       val_node = bin_node.append_child("Value");
       const protect<std::string>& data = attachment->binary()->data();
       if (data.is_protected()) {
-- 
2.43.0


From 918ab5b3b4bd9e88c41f39cfc4c414f980dbb548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 22/58] fix: deliver all gzip data and report truncated gzip
 streams

---
 src/stream.cc | 9 ++-------
 src/stream.hh | 2 ++
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..9d59562 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -141,19 +141,13 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
+  while (gptr() == egptr() && !done_) {
     // Check if we need to feed the z-stream more input data.
     if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
-
       src_.read(input_.data(), input_.size());
 
       z_stream_.avail_in = src_.gcount();
       z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
-
-      if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
     }
 
     z_stream_.avail_out = output_.size();
@@ -164,6 +158,7 @@ int gzip_istreambuf::underflow() {
     if (res < 0) {
       throw IoError(Format() << "Gzip inflation error (" << res << ").");
     }
+    done_ = res == Z_STREAM_END;
 
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..7830661 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -156,6 +156,8 @@ class gzip_istreambuf final :
   std::array<char, kBufferSize> input_ = { { 0 } };
   /** Output buffer for the decompressor to write to. */
   std::array<char, kBufferSize> output_ = { { 0 } };
+  /** true once the end of the compressed data has been reached. */
+  bool done_ = false;
 
 public:
   gzip_istreambuf(std::istream& src);
-- 
2.43.0


From edc2d8a4a80aa9b404c156be85ca71f6fafc34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 23/58] fix: report truncated hashed block streams

---
 src/stream.cc | 12 ++++++++++--
 src/stream.hh |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 9d59562..62d2ade 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -41,9 +41,11 @@ std::array<uint8_t, 32> hashed_basic_streambuf::GetBlockHash() const {
 int hashed_istreambuf::underflow() {
   static constexpr std::array<uint8_t, 32> kEmptyHash = { { 0 } };
 
-  if (gptr() == egptr()) {
+  if (gptr() == egptr() && !done_) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (src_.gcount() != static_cast<std::streamsize>(sizeof(BlockHeader)))
+      throw IoError("Truncated block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
@@ -52,12 +54,18 @@ int hashed_istreambuf::underflow() {
     block_.clear();
     std::generate_n(std::back_inserter(block_),
                     header.block_size,
-                    [&]() { return src_.get(); });
+                    [&]() {
+      int c = src_.get();
+      if (c == std::char_traits<char>::eof())
+        throw IoError("Truncated block.");
+      return std::char_traits<char>::to_char_type(c);
+    });
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
         throw IoError("Corrupt EOS block.");
 
+      done_ = true;
       return std::char_traits<char>::eof();
     }
 
diff --git a/src/stream.hh b/src/stream.hh
index 7830661..8fa00ed 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -115,6 +115,8 @@ class hashed_istreambuf final :
     public std::basic_streambuf<char, std::char_traits<char>> {
  private:
   std::istream& src_;
+  /** true once the trailing empty block has been reached. */
+  bool done_ = false;
 
 public:
   hashed_istreambuf(std::istream& src)
-- 
2.43.0


From f119c1fa050f940e62a94cac29d7d217f14d9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 24/58] fix: reject empty padding when decrypting

---
 src/cipher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..1d55b72 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -192,7 +192,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len == 0 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
-- 
2.43.0


From 0168118d77ff67912ec13e32bc3a98bf249aec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 25/58] fix: compare the sizes of lists of objects

---
 src/util.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..abe60f2 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,8 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() &&
+    std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From 896ff418869bdaf6f2a1a95990bd0af5e3a5bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 26/58] fix: draw identifiers and start bytes from the random
 device directly

---
 src/random.hh | 4 +---
 src/util.cc   | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/random.hh b/src/random.hh
index e8fd1a2..5af036e 100644
--- a/src/random.hh
+++ b/src/random.hh
@@ -49,14 +49,12 @@ class RandomObfuscator {
 template <std::size_t N>
 std::array<uint8_t, N> random_array() {
   std::random_device rd;
-  std::mt19937 engine(rd());
-
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, N> array;
   for (std::size_t i = 0; i < N; ++i)
-    array[i] = uniform_dist(engine);
+    array[i] = uniform_dist(rd);
 
   return array;
 }
diff --git a/src/util.cc b/src/util.cc
index 99e249f..f152b45 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -34,14 +34,12 @@ std::string time_to_str(const std::time_t& time) {
 
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
-  std::mt19937 engine(rd());
-
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, 16> uuid;
   for (std::size_t i = 0; i < 16; ++i)
-    uuid[i] = uniform_dist(engine);
+    uuid[i] = uniform_dist(rd);
 
   return uuid;
 }
-- 
2.43.0


From c2561ecbb292d1eb2b97b716a4596da90cd50a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 27/58] fix: make the bounds checked post-increment return the
 old position

---
 src/iterator.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterator.hh b/src/iterator.hh
index 411c8c0..14e344a 100644
--- a/src/iterator.hh
+++ b/src/iterator.hh
@@ -59,8 +59,9 @@ class bounds_checked_iterator :
   }
 
   bounds_checked_iterator operator++(int) {
+    bounds_checked_iterator prev(*this);
     ++first_;
-    return *this;
+    return prev;
   }
 };
 
-- 
2.43.0


From 7757ae0cf924008b0093618f2daf4c62b7a1cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 28/58] fix: reject misplaced base64 padding

---
 src/base64.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base64.hh b/src/base64.hh
index 4bf2e0a..1e148a2 100644
--- a/src/base64.hh
+++ b/src/base64.hh
@@ -78,6 +78,14 @@ void base64_decode(const std::string& src, OutputIterator result) {
   if (src_trimmed.size() % 4 != 0)
     throw FormatError("Base64 data must be a multiple of four in size.");
 
+  // Padding is only allowed at the end, and no more than two characters of it.
+  std::size_t pad = src_trimmed.find('=');
+  if (pad != std::string::npos &&
+      (src_trimmed.size() - pad > 2 ||
+       src_trimmed.find_first_not_of('=', pad) != std::string::npos)) {
+    throw FormatError("Illegal padding in base64 stream.");
+  }
+
   uint32_t bits24 = 0;
   std::size_t i = 0;
 
-- 
2.43.0


From f97c1257dc6f9284cce44171e2a5a84b24b822b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 29/58] fix: report errors when writing the last data of an
 exported file

---
 src/kdb.cc  | 4 ++++
 src/kdbx.cc | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 52e3269..490a87f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -763,6 +763,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index cc42617..ccd0af4 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1202,9 +1202,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Final(header_hash_.data(), &sha256);
 
   // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
@@ -1237,6 +1235,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 0fd2b5f4842b3efaea67c95554b68816a84d1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 30/58] fix: escape texts when converting to JSON

---
 src/entry.cc | 14 +++++++-------
 src/group.cc |  4 ++--
 src/util.cc  | 20 ++++++++++++++++++++
 src/util.hh  |  7 +++++++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index f5c4e9c..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
+    json << "\"name\":\"" << json_escape(name_) << "\"";
   if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index f152b45..d540fd4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -32,6 +32,26 @@ std::string time_to_str(const std::time_t& time) {
   return buffer;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char kHex[] = "0123456789abcdef";
+
+  std::string res;
+  for (char c : str) {
+    if (c == '"' || c == '\\') {
+      res += '\\';
+      res += c;
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      res += "\\u00";
+      res += kHex[c >> 4];
+      res += kHex[c & 0x0f];
+    } else {
+      res += c;
+    }
+  }
+
+  return res;
+}
+
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
diff --git a/src/util.hh b/src/util.hh
index abe60f2..9609ef7 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -102,6 +102,13 @@ inline void dfs(const std::shared_ptr<T>& current,
  */
 std::string time_to_str(const std::time_t& time);
 
+/**
+ * Escapes a string such that it can be put in a JSON string literal.
+ * @param [in] str String to escape.
+ * @return Escaped string.
+ */
+std::string json_escape(const std::string& str);
+
 std::array<uint8_t, 16> generate_uuid();
 
 }   // namespace keepass
-- 
2.43.0


From 85413d5d41e72c5cc09b4c1110d162dd0fcb296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 31/58] fix: reject empty data when decrypting

---
 src/cipher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cipher.cc b/src/cipher.cc
index 1d55b72..944916f 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -176,6 +176,10 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
 
+  // There is always at least one block of padding.
+  if (src.peek() == std::char_traits<char>::eof())
+    throw IoError("Decryption error.");
+
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
                                     std::size_t src_len,
-- 
2.43.0


From 6a6aa06fe995801cafb306c2da5d7eb75d584922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 32/58] fix: limit the nesting depth of KDBX XML

---
 src/kdbx.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index ccd0af4..32fbc63 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -50,6 +50,8 @@ constexpr uint32_t kKdbxSignature1 = 0xb54bfb67;
 constexpr uint32_t kKdbxVersionCriticalMask = 0xffff0000;
 constexpr uint32_t kKdbxVersionCriticalMin = 0x00030001;
 
+constexpr int kKdbxMaxXmlDepth = 1000;
+
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
   0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff 
@@ -843,6 +845,17 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
 
+  // Parsing is recursive, don't let malformed files exhaust the stack.
+  struct DepthWalker : pugi::xml_tree_walker {
+    virtual bool for_each(pugi::xml_node&) override {
+      return depth() < kKdbxMaxXmlDepth;
+    }
+  };
+
+  DepthWalker walker;
+  if (!doc.traverse(walker))
+    throw FormatError("Too deeply nested XML in KDBX.");
+
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
     throw FormatError("No \"KeePassFile\" element in KDBX XML.");
-- 
2.43.0


From 27785ba00ef88a8ac18a610aceb0dbbf1e35ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 33/58] fix: limit the nesting depth of KDB groups

---
 src/kdb.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 490a87f..447eda4 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -44,6 +44,8 @@ const uint32_t kKdbFlagRijndael = 0x00000002;
 //const uint32_t kKdbFlagArcFour = 0x00000004;
 const uint32_t kKdbFlagTwofish = 0x00000008;
 
+const uint32_t kKdbMaxGroupLevel = 1000;
+
 #pragma pack(push, 1)
 struct KdbHeader {
   uint32_t signature0;
@@ -626,6 +628,10 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     if (group_level > last_group_level && group_level != last_group_level + 1)
       throw FormatError("Malformed group tree.");
 
+    // Processing the tree is recursive, don't let it exhaust the stack.
+    if (group_level > kKdbMaxGroupLevel)
+      throw FormatError("Too deeply nested groups in KDB.");
+
     // Forget the groups at this level and below, they belong to a branch of the
     // tree that is now complete.
     last_group_by_level.resize(group_level);
-- 
2.43.0


From 73e0438c7d54574f8dbfbee3c10ff4a4ed25dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 34/58] fix: do not apply the global locale to numbers in JSON

---
 src/entry.cc | 3 +++
 src/group.cc | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index c290e9e..f92215b 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -18,6 +18,7 @@
 
 #include "entry.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -64,6 +65,7 @@ bool Entry::IsMetaEntry() const {
 
 std::string Entry::Attachment::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   if (!name_.empty())
@@ -79,6 +81,7 @@ std::string Entry::Attachment::ToJson() const {
 
 std::string Entry::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
diff --git a/src/group.cc b/src/group.cc
index 8ac8976..c19e1fb 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -18,6 +18,7 @@
 
 #include "group.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -53,6 +54,7 @@ bool Group::HasNonMetaEntries() const {
 
 std::string Group::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
-- 
2.43.0


From 38653d896d0655859a9af14198c63d015aece947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 35/58] fix: do not share time buffers between threads

---
 src/kdb.cc  | 5 ++++-
 src/kdbx.cc | 4 +++-
 src/util.cc | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 447eda4..c92ab33 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -81,7 +81,10 @@ struct KdbTime {
     if (time == 0) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
+      // Unlike std::localtime() this is safe to use in several threads.
+      std::tm local_time;
+      tzset();
+      std::tm* time_ptr = localtime_r(&time, &local_time);
 
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 32fbc63..22df37f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -164,9 +164,11 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  // Unlike std::gmtime() this is safe to use in several threads.
+  std::tm utc_time;
   char buffer[128];
   std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+                gmtime_r(&time, &utc_time));
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index d540fd4..24c00c9 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -24,7 +24,10 @@
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
+  // Unlike std::localtime() this is safe to use in several threads.
+  std::tm local_time_buffer;
+  tzset();
+  const std::tm* local_time = localtime_r(&time, &local_time_buffer);
   assert(local_time != nullptr);
 
   char buffer[128];
-- 
2.43.0


From 628b0ec785086ffb91e5c442b07f4af7daa0309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 36/58] fix: leave group references unset when a group has no
 identifier

---
 src/kdbx.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 22df37f..56bbd84 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -725,7 +725,11 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     const pugi::xml_node& group_node,
     RandomObfuscator& obfuscator) {
   std::shared_ptr<Group> group = std::make_shared<Group>();
-  group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
+
+  // A group without an identifier can't be referred to.
+  std::string uuid_str = group_node.child_value("UUID");
+  if (!uuid_str.empty())
+    group_pool_.insert(std::make_pair(uuid_str, group));
 
   std::array<uint8_t, 16> uuid = { 0 };
   base64_decode(group_node.child_value("UUID"), bounds_checked(uuid));
-- 
2.43.0


From 52e121306ea29d76ccf55d0ee9cdf1fa61ae430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 37/58] fix: leave icon references unset when an icon has no
 identifier

---
 src/kdbx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 56bbd84..72f1597 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -274,7 +274,10 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
       meta->AddIcon(icon);
 
-      icon_pool_.insert(std::make_pair(icon_node.child_value("UUID"), icon));
+      // An icon without an identifier can't be referred to.
+      std::string uuid_str = icon_node.child_value("UUID");
+      if (!uuid_str.empty())
+        icon_pool_.insert(std::make_pair(uuid_str, icon));
     }
   }
 
-- 
2.43.0


From 1ebc3036f7c8007c99739a085cc840d2ab52673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 38/58] fix: keep carriage returns in texts exported to KDBX

A carriage return in XML text is read as a line feed unless it is escaped, so
notes with Windows line ends came back changed.
---
 src/pugixml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pugixml.cc b/src/pugixml.cc
index 006bbf2..2a26cf1 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -1842,7 +1842,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32 (except \t), &, <, >, "
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1851,7 +1851,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  0,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  3,  0,     // 48-63
-- 
2.43.0


From e3e2c2c2110a9dca5591c3ab83d6ef2a49647843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 39/58] fix: export databases without meta data to KDBX

Databases imported from KDB have none, exporting them dereferenced a null
pointer.
---
 src/kdbx.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 72f1597..c25caf9 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -938,7 +938,12 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   pugi::xml_node group_node =
       kpf_node.append_child("Root").append_child("Group");
 
-  WriteMeta(meta_node, obfuscator, db.meta());
+  // A database imported from KDB has no meta data.
+  std::shared_ptr<Metadata> meta = db.meta();
+  if (!meta)
+    meta = std::make_shared<Metadata>();
+
+  WriteMeta(meta_node, obfuscator, meta);
   WriteGroup(group_node, obfuscator, db.root());
 
   doc.save(dst);
-- 
2.43.0


From e809825668fdb7e65ac00c231360eb9d0b8ecfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 40/58] fix: keep the value of the auto-type obfuscation option

The option is a number, but the setter took a truth value.
---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From 99c9ce86185b1585f5cc3e46429977fcc10098c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 41/58] fix: export databases to KDBX using AES whatever their
 KDB cipher was

Exporting a database imported from a Twofish encrypted KDB file aborted.
---
 src/kdbx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index c25caf9..877bf11 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1161,7 +1161,8 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-  assert(db.cipher() == Database::Cipher::kAes);
+  // AES is the only cipher of KDBX, databases imported from KDB may have used
+  // another one.
   std::unique_ptr<Cipher<16>> cipher(
       new AesCipher(final_key, db.init_vector()));
 
-- 
2.43.0


From 2b9b12babe78b53037a6ff2f4cf543f2b62078f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 42/58] fix: export databases with any master seed to KDB

Databases imported from KDBX have a seed of 32 bytes, exporting them aborted or
wrote past the end of the seed in the KDB header.
---
 src/kdb.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index c92ab33..7cad69c 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -662,10 +662,11 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
   // Extract database values in compatible formats.
-  assert(db.master_seed().size() == 16);
-  std::array<uint8_t, 16> master_seed;
-  std::copy(db.master_seed().begin(), db.master_seed().end(),
-            master_seed.begin());
+  // The master seed of databases imported from KDBX is usually longer.
+  std::array<uint8_t, 16> master_seed = { { 0 } };
+  std::copy_n(db.master_seed().begin(),
+              std::min(db.master_seed().size(), master_seed.size()),
+              master_seed.begin());
 
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
@@ -679,7 +680,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   SHA256_CTX sha256;
   SHA256_Init(&sha256);
-  SHA256_Update(&sha256, db.master_seed().data(), db.master_seed().size());
+  SHA256_Update(&sha256, master_seed.data(), master_seed.size());
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-- 
2.43.0


From 9ecbac4701c9b8fac280f70e84b3fe304d7d181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 43/58] fix: refuse to export to KDB what it can not hold

Entries of the root group and key transformation rounds beyond 32 bits were
silently lost, an entry with several attachments aborted, and deeper nested
groups than the importer accepts were written.
---
 src/kdb.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7cad69c..6b6a277 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -661,6 +661,26 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
+  // Don't write files that lack some of the entries or attachments, or that
+  // can't be opened.
+  if (!db.root()->Entries().empty())
+    throw FormatError("Entries of the root group can't be stored in KDB.");
+  if (db.transform_rounds() >
+      std::numeric_limits<decltype(KdbHeader::transform_rounds)>::max())
+    throw FormatError("Too many key transformation rounds for KDB.");
+
+  dfs<Group, &Group::Groups>(db.root(),
+                             [](const std::shared_ptr<Group>& group,
+                                std::size_t level) {
+    if (level >= kKdbMaxGroupLevel)
+      throw FormatError("Too deeply nested groups for KDB.");
+
+    for (const auto& entry : group->Entries()) {
+      if (entry->attachments().size() > 1)
+        throw FormatError("Several attachments can't be stored in KDB.");
+    }
+  });
+
   // Extract database values in compatible formats.
   // The master seed of databases imported from KDBX is usually longer.
   std::array<uint8_t, 16> master_seed = { { 0 } };
-- 
2.43.0


From 939d1c8882818a0294474f88248312c367f6f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 44/58] fix: refuse to export to KDBX what is nested too deeply
 to be imported

---
 src/kdbx.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 877bf11..b8e8f88 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -52,6 +52,12 @@ constexpr uint32_t kKdbxVersionCriticalMin = 0x00030001;
 
 constexpr int kKdbxMaxXmlDepth = 1000;
 
+struct DepthWalker : pugi::xml_tree_walker {
+  virtual bool for_each(pugi::xml_node&) override {
+    return depth() < kKdbxMaxXmlDepth;
+  }
+};
+
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
   0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff 
@@ -855,12 +861,6 @@ void KdbxFile::ParseXml(std::istream& src,
     throw FormatError("Malformed XML in KDBX.");
 
   // Parsing is recursive, don't let malformed files exhaust the stack.
-  struct DepthWalker : pugi::xml_tree_walker {
-    virtual bool for_each(pugi::xml_node&) override {
-      return depth() < kKdbxMaxXmlDepth;
-    }
-  };
-
   DepthWalker walker;
   if (!doc.traverse(walker))
     throw FormatError("Too deeply nested XML in KDBX.");
@@ -946,6 +946,11 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   WriteMeta(meta_node, obfuscator, meta);
   WriteGroup(group_node, obfuscator, db.root());
 
+  // Don't write what can't be imported.
+  DepthWalker walker;
+  if (!doc.traverse(walker))
+    throw FormatError("Too deeply nested groups or entries for KDBX.");
+
   doc.save(dst);
 }
 
-- 
2.43.0


From 1f895a9f3e9b42ee4852fd8e5a7fa939210eb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 45/58] fix: write boolean values in KDBX the way KeePass reads
 them

---
 src/kdbx.cc | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b8e8f88..4eb8b30 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -58,6 +58,11 @@ struct DepthWalker : pugi::xml_tree_walker {
   }
 };
 
+/** Keepass only understands capitalized boolean values. */
+inline const char* bool_to_str(bool val) {
+  return val ? "True" : "False";
+}
+
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
   0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff 
@@ -372,23 +377,23 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
   pugi::xml_node mp_node = meta_node.append_child("MemoryProtection");
   mp_node.append_child("ProtectTitle").text().set(
-      meta->memory_protection().title());
+      bool_to_str(meta->memory_protection().title()));
   mp_node.append_child("ProtectUserName").text().set(
-      meta->memory_protection().username());
+      bool_to_str(meta->memory_protection().username()));
   mp_node.append_child("ProtectPassword").text().set(
-      meta->memory_protection().password());
+      bool_to_str(meta->memory_protection().password()));
   mp_node.append_child("ProtectURL").text().set(
-      meta->memory_protection().url());
+      bool_to_str(meta->memory_protection().url()));
   mp_node.append_child("ProtectNotes").text().set(
-      meta->memory_protection().notes());
+      bool_to_str(meta->memory_protection().notes()));
 
   if (meta->recycle_bin()) {
-    meta_node.append_child("RecycleBinEnabled").text().set(true);
+    meta_node.append_child("RecycleBinEnabled").text().set(bool_to_str(true));
     meta_node.append_child("RecycleBinUUID").text().set(base64_encode(
         meta->recycle_bin()->uuid().begin(),
         meta->recycle_bin()->uuid().end()).c_str());
   } else {
-    meta_node.append_child("RecycleBinEnabled").text().set(false);
+    meta_node.append_child("RecycleBinEnabled").text().set(bool_to_str(false));
   }
   meta_node.append_child("RecycleBinChanged").text().set(WriteDateTime(
       meta->recycle_bin_changed()).c_str());
@@ -646,11 +651,13 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       entry->move_time()).c_str());
-  times_node.append_child("Expires").text().set(entry->expires());
+  times_node.append_child("Expires").text().set(
+      bool_to_str(entry->expires()));
   times_node.append_child("UsageCount").text().set(entry->usage_count());
 
   pugi::xml_node autotype_node = entry_node.append_child("AutoType");
-  autotype_node.append_child("Enabled").text().set(entry->auto_type().enabled());
+  autotype_node.append_child("Enabled").text().set(
+      bool_to_str(entry->auto_type().enabled()));
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
@@ -828,14 +835,18 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
       group->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       group->move_time()).c_str());
-  times_node.append_child("Expires").text().set(group->expires());
+  times_node.append_child("Expires").text().set(
+      bool_to_str(group->expires()));
   times_node.append_child("UsageCount").text().set(group->usage_count());
 
-  group_node.append_child("IsExpanded").text().set(group->expanded());
+  group_node.append_child("IsExpanded").text().set(
+      bool_to_str(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       group->default_autotype_sequence().c_str());
-  group_node.append_child("EnableAutoType").text().set(group->autotype());
-  group_node.append_child("EnableSearching").text().set(group->search());
+  group_node.append_child("EnableAutoType").text().set(
+      bool_to_str(group->autotype()));
+  group_node.append_child("EnableSearching").text().set(
+      bool_to_str(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From cc075f2b3b4744ac2cdaf01fd4a2d71ba2e30e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 46/58] fix: refuse to export times that the format has no
 representation for

---
 src/kdb.cc  |  3 +++
 src/kdbx.cc | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 6b6a277..ef7d7fb 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -85,6 +85,9 @@ struct KdbTime {
       std::tm local_time;
       tzset();
       std::tm* time_ptr = localtime_r(&time, &local_time);
+      if (time_ptr == nullptr || time_ptr->tm_year < 0 ||
+          time_ptr->tm_year > 0xfff - 1900)
+        throw FormatError("Time can't be stored in KDB.");
 
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 4eb8b30..04737f1 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
 #include <fstream>
 #include <sstream>
 #ifdef DEBUG
@@ -177,10 +178,16 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
 
   // Unlike std::gmtime() this is safe to use in several threads.
   std::tm utc_time;
+  if (gmtime_r(&time, &utc_time) == nullptr ||
+      utc_time.tm_year + 1900 < 1 || utc_time.tm_year + 1900 > 9999)
+    throw FormatError("Time can't be stored in KDBX.");
+
+  // The year always has four digits.
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                gmtime_r(&time, &utc_time));
-  return buffer;
+  std::snprintf(buffer, sizeof(buffer), "%04d", utc_time.tm_year + 1900);
+  std::string res(buffer);
+  std::strftime(buffer, sizeof(buffer), "-%m-%dT%H:%M:%SZ", &utc_time);
+  return res + buffer;
 }
 
 protect<std::string> KdbxFile::ParseProtectedString(
-- 
2.43.0


From c9d2544b42a1fc0e683b01a534c85518c46ab2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 47/58] fix: refuse to export texts with NUL characters instead
 of cutting them

---
 src/io.cc   |  4 ++++
 src/kdbx.cc | 48 ++++++++++++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 6f7e60c..6af28fa 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -77,6 +77,10 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src) {
 
 template <>
 void conserve<std::string>(std::ostream& dst, const std::string& val) {
+  // The text would end at the first NUL character when read.
+  if (val.find('\0') != std::string::npos)
+    throw FormatError("Text with a NUL character can't be stored.");
+
   dst.write(val.c_str(), val.size() + 1);   // FIXME: Is this safe?
   if (!dst.good())
     throw IoError("Write error.");
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 04737f1..1c86155 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -59,6 +59,14 @@ struct DepthWalker : pugi::xml_tree_walker {
   }
 };
 
+/** Texts end at a NUL character in XML, don't lose what comes after it. */
+inline const char* xml_text(const std::string& text) {
+  if (text.find('\0') != std::string::npos)
+    throw FormatError("Text with a NUL character can't be stored in KDBX.");
+
+  return text.c_str();
+}
+
 /** Keepass only understands capitalized boolean values. */
 inline const char* bool_to_str(bool val) {
   return val ? "True" : "False";
@@ -218,7 +226,7 @@ void KdbxFile::WriteProtectedString(pugi::xml_node& node,
     node.append_attribute("Protected").set_value("True");
     node.text().set(base64_encode(obfuscator.Process(*str)).c_str());
   } else {
-    node.text().set(str->c_str());
+    node.text().set(xml_text(str));
   }
 }
 
@@ -359,22 +367,22 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
                          std::shared_ptr<Metadata> meta) {
   meta_node.append_child("HeaderHash").text().set(base64_encode(
       header_hash_.begin(), header_hash_.end()).c_str());
-  meta_node.append_child("Generator").text().set(meta->generator().c_str());
+  meta_node.append_child("Generator").text().set(xml_text(meta->generator()));
   meta_node.append_child("DatabaseName").text().set(
-      meta->database_name()->c_str());
+      xml_text(meta->database_name()));
   meta_node.append_child("DatabaseNameChanged").text().set(WriteDateTime(
       meta->database_name().time()).c_str());
   meta_node.append_child("DatabaseDescription").text().set(
-      meta->database_desc()->c_str());
+      xml_text(meta->database_desc()));
   meta_node.append_child("DatabaseDescriptionChanged").text().set(
       WriteDateTime(meta->database_desc().time()).c_str());
   meta_node.append_child("DefaultUserName").text().set(
-      meta->default_username()->c_str());
+      xml_text(meta->default_username()));
   meta_node.append_child("DefaultUserNameChanged").text().set(WriteDateTime(
       meta->default_username().time()).c_str());
   meta_node.append_child("MaintenanceHistoryDays").text().set(
       meta->maintenance_hist_days());
-  meta_node.append_child("Color").text().set(meta->database_color().c_str());
+  meta_node.append_child("Color").text().set(xml_text(meta->database_color()));
   meta_node.append_child("MasterKeyChanged").text().set(WriteDateTime(
       meta->master_key_changed()).c_str());
   meta_node.append_child("MasterKeyChangeRec").text().set(
@@ -474,8 +482,8 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
   pugi::xml_node data_node = meta_node.append_child("CustomData");
   for (auto field : meta->fields()) {
     pugi::xml_node item_node = data_node.append_child("Item");
-    item_node.append_child("Key").text().set(field.key().c_str());
-    item_node.append_child("Value").text().set(field.value().c_str());
+    item_node.append_child("Key").text().set(xml_text(field.key()));
+    item_node.append_child("Value").text().set(xml_text(field.value()));
   }
 }
 
@@ -635,12 +643,12 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->uuid().begin(), entry->uuid().end()).c_str());
   entry_node.append_child("IconID").text().set(entry->icon());
   entry_node.append_child("ForegroundColor").text().set(
-      entry->fg_color().c_str());
+      xml_text(entry->fg_color()));
   entry_node.append_child("BackgroundColor").text().set(
-      entry->bg_color().c_str());
+      xml_text(entry->bg_color()));
   entry_node.append_child("OverrideURL").text().set(
-      entry->override_url().c_str());
-  entry_node.append_child("Tags").text().set(entry->tags().c_str());
+      xml_text(entry->override_url()));
+  entry_node.append_child("Tags").text().set(xml_text(entry->tags()));
 
   if (auto icon = entry->custom_icon().lock()) {
     entry_node.append_child("CustomIconUUID").text().set(
@@ -668,13 +676,13 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
-      entry->auto_type().sequence().c_str());
+      xml_text(entry->auto_type().sequence()));
 
   for (auto ass : entry->auto_type().associations()) {
     pugi::xml_node ass_node = autotype_node.append_child("Association");
-    ass_node.append_child("Window").text().set(ass.window().c_str());
+    ass_node.append_child("Window").text().set(xml_text(ass.window()));
     ass_node.append_child("KeystrokeSequence").text().set(
-        ass.sequence().c_str());
+        xml_text(ass.sequence()));
   }
 
   // Write string fields.
@@ -705,7 +713,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 
   for (auto field : entry->custom_fields()) {
     str_node = entry_node.append_child("String");
-    str_node.append_child("Key").text().set(field.key().c_str());
+    str_node.append_child("Key").text().set(xml_text(field.key()));
     val_node = str_node.append_child("Value");
     WriteProtectedString(val_node, field.value(), obfuscator);
   }
@@ -713,7 +721,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
   // Write binary fields.
   for (auto attachment : entry->attachments()) {
     pugi::xml_node bin_node = entry_node.append_child("Binary");
-    bin_node.append_child("Key").text().set(attachment->name().c_str());
+    bin_node.append_child("Key").text().set(xml_text(attachment->name()));
 
     bool found_in_pool = false;
     for (auto it : binary_pool_) {
@@ -822,8 +830,8 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
                           std::shared_ptr<Group> group) {
   group_node.append_child("UUID").text().set(base64_encode(
       group->uuid().begin(), group->uuid().end()).c_str());
-  group_node.append_child("Name").text().set(group->name().c_str());
-  group_node.append_child("Notes").text().set(group->notes().c_str());
+  group_node.append_child("Name").text().set(xml_text(group->name()));
+  group_node.append_child("Notes").text().set(xml_text(group->notes()));
   group_node.append_child("IconID").text().set(group->icon());
 
   if (auto icon = group->custom_icon().lock()) {
@@ -849,7 +857,7 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
   group_node.append_child("IsExpanded").text().set(
       bool_to_str(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
-      group->default_autotype_sequence().c_str());
+      xml_text(group->default_autotype_sequence()));
   group_node.append_child("EnableAutoType").text().set(
       bool_to_str(group->autotype()));
   group_node.append_child("EnableSearching").text().set(
-- 
2.43.0


From 1e66e6ff888f7dc92ef868b34c8400ef65cffeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 48/58] fix: find stored attachments on export without
 searching all of them

---
 src/kdbx.cc | 19 +++++++------------
 src/kdbx.hh |  3 +++
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 1c86155..d356388 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -136,6 +136,7 @@ static_assert(sizeof(KdbxHeaderField) == 3,
 
 void KdbxFile::Reset() {
   binary_pool_.clear();
+  binary_ids_.clear();
   icon_pool_.clear();
   group_pool_.clear();
   header_hash_ = { 0 };
@@ -474,7 +475,7 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
       }
     }
 
-    binary_pool_.insert(std::make_pair(std::to_string(binary_id), binary));
+    binary_ids_.insert(std::make_pair(binary, std::to_string(binary_id)));
 
     ++binary_id;
   }
@@ -723,17 +724,11 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     pugi::xml_node bin_node = entry_node.append_child("Binary");
     bin_node.append_child("Key").text().set(xml_text(attachment->name()));
 
-    bool found_in_pool = false;
-    for (auto it : binary_pool_) {
-      if (it.second == attachment->binary()) {
-        bin_node.append_child("Value").append_attribute("Ref").set_value(
-            it.first.c_str());
-        found_in_pool = true;
-        break;
-      }
-    }
-
-    if (!found_in_pool && attachment->binary()) {
+    auto it = binary_ids_.find(attachment->binary());
+    if (it != binary_ids_.end()) {
+      bin_node.append_child("Value").append_attribute("Ref").set_value(
+          it->second.c_str());
+    } else if (attachment->binary()) {
       val_node = bin_node.append_child("Value");
       const protect<std::string>& data = attachment->binary()->data();
       if (data.is_protected()) {
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..e32a94f 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -48,12 +48,15 @@ class KdbxFile final {
  private:
   typedef std::unordered_map<std::string, std::shared_ptr<Binary>> BinaryPool;
 
+  typedef std::unordered_map<std::shared_ptr<Binary>, std::string> BinaryIds;
+
   typedef std::unordered_map<std::string, std::weak_ptr<Icon>> IconPool;
 
   typedef std::unordered_map<std::string, std::shared_ptr<Group>> GroupPool;
 
  private:
   BinaryPool binary_pool_;
+  BinaryIds binary_ids_;
   IconPool icon_pool_;
   GroupPool group_pool_;
   std::array<uint8_t, 32> header_hash_ = { { 0 } }; 
-- 
2.43.0


From e3eee1e5c6d3cbd5b75531da14b215cda8c0721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:04 +0000
Subject: [PATCH 49/58] fix: report failures of the sample program through its
 exit status

---
 sample/sample.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/sample.cc b/sample/sample.cc
index f23b090..9016ca8 100644
--- a/sample/sample.cc
+++ b/sample/sample.cc
@@ -54,6 +54,7 @@ int main(int argc, const char * argv[]) {
     }
   } catch (std::exception& e) {
     std::cerr << "error: " << e.what() << std::endl;
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From eb57757e5ca227a054dd10291dd204fad7e4175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:28 +0000
Subject: [PATCH 50/58] fix: don't touch the destination of an export before it
 is certain that there is something to write

---
 src/kdb.cc  |  9 +++++----
 src/kdbx.cc | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index ef7d7fb..c0720b7 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -691,10 +691,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
               std::min(db.master_seed().size(), master_seed.size()),
               master_seed.begin());
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -792,6 +788,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
   header.transform_seed = db.transform_seed();
   header.transform_rounds = db.transform_rounds();
 
+  // Don't touch the file before it is certain that there is something to write.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
   conserve<KdbHeader>(dst, header);
 
   // Encrypt the content.
diff --git a/src/kdbx.cc b/src/kdbx.cc
index d356388..3109c23 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1171,10 +1171,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1255,9 +1251,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, header_data.c_str(), header_data.size());
   SHA256_Final(header_hash_.data(), &sha256);
 
-  // Write header to file.
-  dst.write(header_data.data(), header_data.size());
-
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
   SHA256_Init(&sha256);
@@ -1287,6 +1280,14 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   hashed_stream.flush();
 
+  // Don't touch the file before it is certain that there is something to write.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  // Write header to file.
+  dst.write(header_data.data(), header_data.size());
+
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
 
-- 
2.43.0


From 82eac01f7ca3f8577446280333ffde41ebbca113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 51/58] fix: report when temporary streams of imports and
 exports run out of memory

Streams swallow what their buffers throw, files were written that lack what
did not fit and decrypting without memory was reported as a wrong password.
---
 src/kdb.cc  |  4 ++++
 src/kdbx.cc | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index c0720b7..7ebf81a 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -563,9 +563,12 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
   // Decrypt the content.
   std::stringstream content;
+  content.exceptions(std::ios::badbit);
 
   try {
     decrypt_cbc(src, content, *cipher);
+  } catch (std::bad_alloc&) {
+    throw;
   } catch (std::exception& e) {
     throw PasswordError();
   }
@@ -718,6 +721,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Write unencrypted content to temporary stream.
   std::stringstream content;
+  content.exceptions(std::ios::badbit);
   decltype(KdbHeader::num_groups) num_groups = 0;
   decltype(KdbHeader::num_entries) num_entries = 0;
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 3109c23..0f80378 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -22,6 +22,7 @@
 #include <cassert>
 #include <cstdio>
 #include <fstream>
+#include <new>
 #include <sstream>
 #ifdef DEBUG
 #include <iostream>
@@ -460,9 +461,11 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
       if (binary->compress()) {
         bin_node.append_attribute("Compressed").set_value("True");
         std::stringstream compressed_data;
+        compressed_data.exceptions(std::ios::badbit);
 
         gzip_ostreambuf gzip_streambuf(compressed_data);
         std::ostream gzip_stream(&gzip_streambuf);
+        gzip_stream.exceptions(std::ios::badbit);
         std::copy(binary->data()->begin(), binary->data()->end(),
                   std::ostreambuf_iterator<char>(gzip_stream));
         gzip_stream.flush();
@@ -1124,9 +1127,12 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
 
   // Decrypt the content.
   std::stringstream content;
+  content.exceptions(std::ios::badbit);
 
   try {
     decrypt_cbc(src, content, *cipher);
+  } catch (std::bad_alloc&) {
+    throw;
   } catch (std::exception& e) {
     throw PasswordError();
   }
@@ -1195,6 +1201,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   header.version = kKdbxVersionCriticalMin;
 
   std::stringstream header_stream;
+  header_stream.exceptions(std::ios::badbit);
   conserve<KdbxHeader>(header_stream, header);
 
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
@@ -1263,14 +1270,17 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Write content to content stream.
   std::stringstream content_stream;
+  content_stream.exceptions(std::ios::badbit);
   conserve<std::array<uint8_t, 32>>(content_stream, content_start_bytes);
 
   hashed_ostreambuf hashed_streambuf(content_stream);
   std::ostream hashed_stream(&hashed_streambuf);
+  hashed_stream.exceptions(std::ios::badbit);
 
   if (db.compress()) {
     gzip_ostreambuf gzip_streambuf(hashed_stream);
     std::ostream gzip_stream(&gzip_streambuf);
+    gzip_stream.exceptions(std::ios::badbit);
 
     WriteXml(gzip_stream, obfuscator, db);
     gzip_stream.flush();
-- 
2.43.0


From 65c6ab327a5efa13dcd59a848b207a6ffd2b9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:37 +0000
Subject: [PATCH 52/58] fix: don't leave out nodes of the XML when there is no
 memory for them

---
 src/kdbx.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0f80378..72029db 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
 #include <fstream>
 #include <new>
 #include <sstream>
@@ -54,6 +55,22 @@ constexpr uint32_t kKdbxVersionCriticalMin = 0x00030001;
 
 constexpr int kKdbxMaxXmlDepth = 1000;
 
+/** Nodes would silently be missing if pugixml had to do without memory. */
+void* xml_allocate(std::size_t size) {
+  void* ptr = std::malloc(size);
+  if (!ptr)
+    throw std::bad_alloc();
+
+  return ptr;
+}
+
+void xml_deallocate(void* ptr) {
+  std::free(ptr);
+}
+
+static const bool kXmlMemoryManagement =
+    (pugi::set_memory_management_functions(xml_allocate, xml_deallocate), true);
+
 struct DepthWalker : pugi::xml_tree_walker {
   virtual bool for_each(pugi::xml_node&) override {
     return depth() < kKdbxMaxXmlDepth;
-- 
2.43.0


From 0d2620defe38cde0773f559813cab54f9b78566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:40 +0000
Subject: [PATCH 53/58] fix: don't return part of the JSON when memory runs out

---
 src/entry.cc | 2 ++
 src/group.cc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index f92215b..6df666d 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -65,6 +65,7 @@ bool Entry::IsMetaEntry() const {
 
 std::string Entry::Attachment::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios::badbit);
   json.imbue(std::locale::classic());
 
   json << "{";
@@ -81,6 +82,7 @@ std::string Entry::Attachment::ToJson() const {
 
 std::string Entry::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios::badbit);
   json.imbue(std::locale::classic());
 
   json << "{";
diff --git a/src/group.cc b/src/group.cc
index c19e1fb..95ee711 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -54,6 +54,7 @@ bool Group::HasNonMetaEntries() const {
 
 std::string Group::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios::badbit);
   json.imbue(std::locale::classic());
 
   json << "{";
-- 
2.43.0


From da9fcec31fb3b660a87c228a82c28ae9145a6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 54/58] fix: position array streams backwards, from their end
 and for writing

---
 src/stream.hh | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/stream.hh b/src/stream.hh
index 8fa00ed..87205ea 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -44,42 +44,40 @@ class array_iostreambuf :
     if (which == 0)
       return std::streampos(std::streamoff(-1));
 
-    off = clamp<std::streamoff>(0, buffer_.size(), off);
-
     std::streamoff lin_off = 0;
     switch (way) {
       case std::ios_base::beg:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), off);
+        lin_off = off;
         break;
       case std::ios_base::cur:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), (gptr() - eback()) + off);
+        lin_off = off + (which & std::ios_base::in ?
+            gptr() - eback() : pptr() - pbase());
         break;
       case std::ios_base::end:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), buffer_.size() - off);
+        lin_off = off + static_cast<std::streamoff>(buffer_.size());
         break;
       default:
         assert(false);
         break;
     };
 
-    if (which & std::ios_base::in) {
-      char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
-      setg(buffer_ptr, buffer_ptr + lin_off, buffer_ptr + buffer_.size());
-    }
-
-    return lin_off;
+    return seekpos(clamp<std::streamoff>(0, buffer_.size(), lin_off), which);
   }
 
   virtual std::streampos seekpos(std::streampos sp,
                                  std::ios_base::openmode which) override {
     if (which == 0 || sp < 0 ||
-        sp >= static_cast<std::streampos>(buffer_.size())) {
+        sp > static_cast<std::streampos>(buffer_.size())) {
       return std::streampos(std::streamoff(-1));
     }
 
-    if (which & std::ios_base::in) {
-      char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
+    char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
+    if (which & std::ios_base::in)
       setg(buffer_ptr, buffer_ptr + sp, buffer_ptr + buffer_.size());
+
+    if (which & std::ios_base::out) {
+      setp(buffer_ptr, buffer_ptr + buffer_.size());
+      pbump(static_cast<int>(sp));
     }
 
     return sp;
-- 
2.43.0


From ca347171057aeb684f3e48bf67f37a9e397889ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:40 +0000
Subject: [PATCH 55/58] fix: keep all bits of the flags of groups in KDB files

---
 src/group.hh | 6 +++---
 src/kdb.cc   | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/group.hh b/src/group.hh
index 1a896bf..c78cb22 100644
--- a/src/group.hh
+++ b/src/group.hh
@@ -39,7 +39,7 @@ class Group final {
   std::time_t access_time_ = 0;
   std::time_t expiry_time_ = 0;
   std::time_t move_time_ = 0;
-  uint16_t flags_ = 0;
+  uint32_t flags_ = 0;
   bool expires_ = false;
   bool expanded_ = false;
   uint32_t usage_count_ = 0;
@@ -86,8 +86,8 @@ class Group final {
   std::time_t move_time() const { return move_time_; }
   void set_move_time(const std::time_t& time) { move_time_ = time; }
 
-  uint16_t flags() const { return flags_; }
-  void set_flags(const uint16_t& flags) { flags_ = flags; }
+  uint32_t flags() const { return flags_; }
+  void set_flags(const uint32_t& flags) { flags_ = flags; }
 
   bool expires() const { return expires_; }
   void set_expires(bool expires) { expires_ = expires; }
diff --git a/src/kdb.cc b/src/kdb.cc
index 7ebf81a..1266690 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -234,7 +234,9 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
         level = consume<uint16_t>(field);
         break;
       case KdbGroupFieldType::kFlags:
-        group->set_flags(consume<uint16_t>(field));
+        // Earlier versions of this library have written two bytes.
+        group->set_flags(field_size == sizeof(uint16_t) ?
+            consume<uint16_t>(field) : consume<uint32_t>(field));
         break;
       case KdbGroupFieldType::kEnd:
         return group;
-- 
2.43.0


From 237b49ede3b0c6bb24397ccd276b9faa6854afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 56/58] fix: don't use the reserved group id zero in KDB files

---
 src/kdb.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1266690..b287482 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -735,19 +735,22 @@ void KdbFile::Export(const std::string& path, const Database& db,
       throw InternalError("Group hierarchy exceeds KDB maximum.");
     }
 
-    WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
-
-    if (num_groups == std::numeric_limits<decltype(num_groups)>::max()) {
+    if (num_groups == std::numeric_limits<decltype(num_groups)>::max() - 1) {
       assert(false);
       throw InternalError("Group count exceeds KDB maximum.");
     }
     ++num_groups;
+
+    // Group ids start at one, zero is reserved.
+    WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
   });
 
   num_groups = 0;
   dfs<Group, &Group::Groups>(db.root(),
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t) {
+    ++num_groups;
+
     for (const auto& entry : group->Entries()) {
       WriteEntry(content, entry, num_groups);
 
@@ -757,8 +760,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
       }
       ++num_entries;
     }
-
-    ++num_groups;
   });
 
   // Compute hash of content stream.
-- 
2.43.0


From d626545db33d0bbb50435ef0c4328b7b740a9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:49 +0000
Subject: [PATCH 57/58] fix: keep settings that KDBX groups leave to their
 parents

---
 src/group.cc |  2 ++
 src/group.hh | 26 ++++++++++++++++++++++++--
 src/kdbx.cc  | 13 +++++++++++--
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/group.cc b/src/group.cc
index 95ee711..dfaa61b 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -127,7 +127,9 @@ bool Group::operator==(const Group& other) const {
       usage_count_ == other.usage_count_ &&
       default_autotype_sequence_ == other.default_autotype_sequence_ &&
       autotype_ == other.autotype_ &&
+      autotype_inherited_ == other.autotype_inherited_ &&
       search_ == other.search_ &&
+      search_inherited_ == other.search_inherited_ &&
       last_visible_entry_.lock() == other.last_visible_entry_.lock() &&
       indirect_equal<std::shared_ptr<Group>>(groups_, other.groups_) &&
       indirect_equal<std::shared_ptr<Entry>>(entries_, other.entries_);
diff --git a/src/group.hh b/src/group.hh
index c78cb22..32f665b 100644
--- a/src/group.hh
+++ b/src/group.hh
@@ -45,7 +45,9 @@ class Group final {
   uint32_t usage_count_ = 0;
   std::string default_autotype_sequence_;
   bool autotype_ = false;
+  bool autotype_inherited_ = false;
   bool search_ = false;
+  bool search_inherited_ = false;
   std::weak_ptr<Entry> last_visible_entry_;
 
   std::vector<std::shared_ptr<Group>> groups_;
@@ -106,10 +108,30 @@ class Group final {
   }
 
   bool autotype() const { return autotype_; }
-  void set_autotype(bool autotype) { autotype_ = autotype; }
+  void set_autotype(bool autotype) {
+    autotype_ = autotype;
+    autotype_inherited_ = false;
+  }
+
+  /** Whether the parent group decides about auto-type. */
+  bool autotype_inherited() const { return autotype_inherited_; }
+  void inherit_autotype() {
+    autotype_ = false;
+    autotype_inherited_ = true;
+  }
 
   bool search() const { return search_; }
-  void set_search(bool search) { search_ = search; }
+  void set_search(bool search) {
+    search_ = search;
+    search_inherited_ = false;
+  }
+
+  /** Whether the parent group decides about searching. */
+  bool search_inherited() const { return search_inherited_; }
+  void inherit_search() {
+    search_ = false;
+    search_inherited_ = true;
+  }
 
   std::weak_ptr<Entry> last_visible_entry() const {
     return last_visible_entry_;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 72029db..fb745c6 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -90,6 +90,11 @@ inline const char* bool_to_str(bool val) {
   return val ? "True" : "False";
 }
 
+/** Groups leave some settings to their parents, or do not mention them. */
+inline bool is_inherited(const pugi::xml_node& node) {
+  return node.text().empty() || node.text().as_string() == std::string("null");
+}
+
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
   0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff 
@@ -814,7 +819,11 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_default_autotype_sequence(
       group_node.child_value("DefaultAutoTypeSequence"));
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
+  if (is_inherited(group_node.child("EnableAutoType")))
+    group->inherit_autotype();
   group->set_search(group_node.child("EnableSearching").text().as_bool());
+  if (is_inherited(group_node.child("EnableSearching")))
+    group->inherit_search();
 
   std::string last_visible = group_node.child_value("LastTopVisibleEntry");
   uuid = { { 0 } };
@@ -874,9 +883,9 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       xml_text(group->default_autotype_sequence()));
   group_node.append_child("EnableAutoType").text().set(
-      bool_to_str(group->autotype()));
+      group->autotype_inherited() ? "null" : bool_to_str(group->autotype()));
   group_node.append_child("EnableSearching").text().set(
-      bool_to_str(group->search()));
+      group->search_inherited() ? "null" : bool_to_str(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From a7d2faa9a755db1dee8f9114d8ac075de84758a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:54 +0000
Subject: [PATCH 58/58] fix: write master seeds of the size KDBX requires

---
 src/kdbx.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index fb745c6..28769b3 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -95,6 +95,9 @@ inline bool is_inherited(const pugi::xml_node& node) {
   return node.text().empty() || node.text().as_string() == std::string("null");
 }
 
+/** Size of the master seed that other programs require. */
+constexpr std::size_t kKdbxMasterSeedSize = 32;
+
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
   0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff 
@@ -1203,6 +1206,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
+  // The master seed of databases imported from KDB is shorter.
+  std::vector<uint8_t> master_seed = db.master_seed();
+  master_seed.resize(kKdbxMasterSeedSize);
+
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1211,7 +1218,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   SHA256_CTX sha256;
   SHA256_Init(&sha256);
-  SHA256_Update(&sha256, db.master_seed().data(), db.master_seed().size());
+  SHA256_Update(&sha256, master_seed.data(), master_seed.size());
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
@@ -1239,14 +1246,9 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   conserve<uint32_t>(header_stream, db.compress() ?
       static_cast<uint32_t>(kKdbxCompressionFlags::kGzip) : 0);
 
-  if (db.master_seed().size() >
-      std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
-    assert(false);
-    throw InternalError("Master seed size exceeds KDBX maximum.");
-  }
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
-      KdbxHeaderField::kMasterSeed, db.master_seed().size()));
-  conserve<std::vector<uint8_t>>(header_stream, db.master_seed());
+      KdbxHeaderField::kMasterSeed, master_seed.size()));
+  conserve<std::vector<uint8_t>>(header_stream, master_seed);
 
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
       KdbxHeaderField::kTransformSeed, 32));
-- 
2.43.0

