From f2aee9f9d009e92d7c54a69d81739cf458dad889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 01/31] fix: hard checkpoint must not erase the most recent
 soft checkpoint

The first copy of a hard checkpoint may overwrite the slot of the current
soft checkpoint. If the process was killed before writing the second copy,
then transactions of that soft checkpoint were lost.
---
 src/joedb/journal/Writable_Journal.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..fba3db5 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -142,11 +142,26 @@ namespace joedb
 
   file_buffer.flush();
 
+  const bool must_move_soft_checkpoint =
+   checkpoint_position > hard_checkpoint_position && soft_index == 0;
+  const int64_t neg = -checkpoint_position;
+
   hard_index ^= 1;
   hard_checkpoint_position = checkpoint_position = position;
 
   Head_Exclusive_Lock lock(file);
 
+  // Don't lose the current soft checkpoint when writing the first copy
+  if (must_move_soft_checkpoint)
+  {
+   file.pwrite
+   (
+    reinterpret_cast<const char *>(&neg),
+    sizeof(neg),
+    int64_t(sizeof(neg)) * (2 * hard_index + 1)
+   );
+  }
+
   file.pwrite
   (
    reinterpret_cast<const char *>(&checkpoint_position),
-- 
2.43.0


From ab81aeb1d34d529577cf23604a3ee21f6cd1bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 02/31] fix: recovery by overwriting must discard all soft
 checkpoints past the end of file

After losing the tail of a file, both soft-checkpoint slots of the header
may be larger than the file. Only one was overwritten, and only when the
checkpoint was equal to the file size. The other one made readers see
partial transactions as soon as the file grew again.
---
 src/joedb/journal/Writable_Journal.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index fba3db5..f53cb98 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,28 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite both after-the-end-of-file soft checkpoints, because they would
+  // become valid when the file grows
+  if (lock.recovery == Recovery::overwrite && lock.size > 0)
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   std::array<int64_t, 4> pos;
+   if (file.pread((char *)&pos, sizeof(pos), 0) != sizeof(pos))
+    file.reading_past_end_of_file();
+
+   bool soft_checkpoint_after_end_of_file = false;
+   for (const int64_t p: pos)
+    if (p < -lock.size)
+     soft_checkpoint_after_end_of_file = true;
+
+   if (soft_checkpoint_after_end_of_file)
+   {
+    const int64_t position = checkpoint_position;
+    for (int i = 0; i < 2; i++)
+    {
+     checkpoint_position = -1;
+     soft_checkpoint_at(position);
+    }
+   }
   }
  }
 
-- 
2.43.0


From e36665e291d7a38e5f64f77bcf4561dc48573bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 03/31] fix: a checkpoint that failed with an error must not
 look done

Retrying a checkpoint after an input/output error returned without writing
anything, because the checkpoint position was updated before writing it.
---
 src/joedb/journal/Writable_Journal.cpp | 30 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index f53cb98..243420f 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -135,19 +135,21 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
+  const int new_soft_index = soft_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
+  const int64_t neg = -position;
 
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + new_soft_index)
   );
+
+  soft_index = new_soft_index;
+  checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -163,8 +165,7 @@ namespace joedb
    checkpoint_position > hard_checkpoint_position && soft_index == 0;
   const int64_t neg = -checkpoint_position;
 
-  hard_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
+  const int new_hard_index = hard_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
@@ -175,27 +176,30 @@ namespace joedb
    (
     reinterpret_cast<const char *>(&neg),
     sizeof(neg),
-    int64_t(sizeof(neg)) * (2 * hard_index + 1)
+    int64_t(sizeof(neg)) * (2 * new_hard_index + 1)
    );
   }
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + 1)
   );
 
   file.datasync();
+
+  hard_index = new_hard_index;
+  hard_checkpoint_position = checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bc6c6c0c055e08d91d0381686127ba8ca056953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 04/31] fix: read the file size after locking when opening a
 journal

---
 .../journal/Journal_Construction_Lock.cpp     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..31ecded 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,9 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ // The size must be read after locking: another process may be writing
+ static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -21,6 +15,21 @@ namespace joedb
     file.exclusive_lock_tail();
    file.exclusive_lock_head();
   }
+
+  return file.get_size();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9ff6282e4becf3fb7afd4538d0e15dde74b40f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 05/31] fix: an aborted transaction must not be flushed to a
 shared file after unlocking

---
 src/joedb/journal/File_Buffer.h        | 7 +++++++
 src/joedb/journal/Writable_Journal.cpp | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 96ba928..fced016 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -69,6 +69,13 @@ namespace joedb
    File_Buffer(Abstract_File &file);
    void flush();
 
+   // discard data that was written to the buffer, but not flushed to the file
+   void discard() noexcept
+   {
+    if (buffer_has_write_data())
+     buffer.index = 0;
+   }
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 243420f..35e9fb5 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -534,7 +534,13 @@ namespace joedb
  /////////////////////////////////////////////////////////////////////////////
  {
   if (ahead_of_checkpoint() > 0)
+  {
    Destructor_Logger::warning("Writable_Journal: ahead of checkpoint");
+
+   // The file is not locked: flushing might overwrite another transaction
+   if (file.is_shared())
+    file_buffer.discard();
+  }
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1b71c4d2bee9f305079e06e08d2bda12ad522083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:31 +0000
Subject: [PATCH 06/31] fix: pulling must not mix unpushed local changes with
 diverging remote changes

---
 src/joedb/concurrency/Writable_Client.h | 59 +++++++++++++++++++------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..26dc3cd 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -83,15 +83,55 @@ namespace joedb
      get_writable_journal().hard_checkpoint();
    }
 
-   void start_transaction()
+   // If there are local changes that were not pushed yet, then pulling data
+   // might mix two diverging histories, so check for conflicts first.
+   void pull_connection
+   (
+    Lock_Action lock_action,
+    std::chrono::milliseconds wait = std::chrono::milliseconds(0)
+   )
    {
-    connection_checkpoint = connection.pull
+    const bool ahead = get_journal_checkpoint() > connection_checkpoint;
+
+    int64_t new_checkpoint = connection.pull
     (
-     Lock_Action::lock_before,
-     Data_Transfer::with_data,
-     get_writable_journal()
+     lock_action,
+     ahead ? Data_Transfer::without_data : Data_Transfer::with_data,
+     get_writable_journal(),
+     wait
     );
 
+    if (ahead && new_checkpoint != connection_checkpoint)
+    {
+     try
+     {
+      connection.handshake(get_writable_journal(), Content_Check::fast);
+
+      if (new_checkpoint > get_journal_checkpoint())
+      {
+       new_checkpoint = connection.pull
+       (
+        Lock_Action::no_locking,
+        Data_Transfer::with_data,
+        get_writable_journal(),
+        std::chrono::milliseconds(0)
+       );
+      }
+     }
+     catch (...)
+     {
+      if (lock_action == Lock_Action::lock_before)
+       connection.unlock();
+      throw;
+     }
+    }
+
+    connection_checkpoint = new_checkpoint;
+   }
+
+   void start_transaction()
+   {
+    pull_connection(Lock_Action::lock_before);
     read_journal();
    }
 
@@ -131,14 +171,7 @@ namespace joedb
 
     const Tail_Exclusive_Lock lock(get_writable_journal());
 
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::no_locking,
-     Data_Transfer::with_data,
-     get_writable_journal(),
-     wait
-    );
-
+    pull_connection(Lock_Action::no_locking, wait);
     read_journal();
 
     return get_journal_checkpoint() - old_checkpoint;
-- 
2.43.0


From eb0cc90763645484042a65c23167c35329490402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 07/31] fix: checking a vector of used records must not
 overflow

---
 src/joedb/Freedom_Keeper.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..caf0334 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -107,6 +107,7 @@ namespace joedb
     if
     (
      index.is_null() ||
+     index + size < index ||
      index + size > freedom_size
     )
     {
@@ -281,12 +282,12 @@ namespace joedb
 
     const Record_Id result = index - 1;
 
-    if (result == Record_Id{-1})
-     return used_list;
-
     if (result == used_size - 1)
      return free_list;
 
+    if (result == Record_Id{-1})
+     return used_list;
+
     return result;
    }
 
-- 
2.43.0


From ee7f0c05ae9fb4c610b3280f99957126f1866ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 08/31] fix: a record that reuses the id of a deleted record
 must not show its values

---
 src/joedb/interpreted/Field.h   | 13 +++++++++++++
 src/joedb/interpreted/Table.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..3f8dccc 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,19 @@ namespace joedb
     }
    }
 
+   void reset(Record_Id record_id)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::get<std::vector<cpp_type>>(column)[index(record_id)] = cpp_type();\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..4e1add6 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.reset(record_id);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,9 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  for (auto &field: fields)
+   for (size_t i = 0; i < size; i++)
+    field.second.reset(record_id + i);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From 975f64c8f041e9e3222626608cb8b61e1a9eacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 09/31] fix: reads and writes of a stream file must not rely on
 a shared position

---
 src/joedb/journal/Stream_File.cpp | 18 +++++++++++++-----
 src/joedb/journal/Stream_File.h   |  7 ++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..7a478a4 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  last_access(Access::none)
  {
   streambuf.pubseekoff
   (
@@ -26,6 +27,8 @@ namespace joedb
  int64_t Stream_File::get_size() const
  /////////////////////////////////////////////////////////////////////////////
  {
+  last_access = Access::none;
+
   pos = streambuf.pubseekoff
   (
    0,
@@ -37,17 +40,22 @@ namespace joedb
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek(int64_t offset, Access access) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  if (int64_t(pos) == offset)
+  if (access == last_access && int64_t(pos) == offset)
    return;
 
+  last_access = Access::none;
+
   if (offset >= 0)
   {
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
    if (int64_t(pos) == offset)
+   {
+    last_access = access;
     return;
+   }
   }
 
   throw Exception("seek error");
@@ -57,7 +65,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, Access::reading);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +75,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, Access::writing);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..4200343 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,12 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+
+   /// A streambuf may have different positions for reading and writing
+   enum class Access {none, reading, writing};
+   mutable Access last_access;
+
+   void seek(int64_t offset, Access access) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 99d12b8e758264c52516ceedee80b82a8740a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 10/31] fix: reading an encoded file past its end must return 0

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..ac601ae 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -54,6 +54,9 @@ namespace joedb
    }
   }
 
+  if (global_end <= offset)
+   return 0;
+
   return size_t(global_end - offset);
  }
 
-- 
2.43.0


From 20bd5b91fa236addf31570b5d13547ea1a3f173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 11/31] fix: comparing files must not read the same bytes again
 after a partial read

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From d06ef84d4a65e755bef52f02039303cd750cf25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 12/31] fix: putting back a character above 127 must not return
 end of file

---
 src/joedb/journal/filebuf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..d2b8fe9 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -205,7 +205,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From 35388aa4f8128de23669d9fca73a96b245ad9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 13/31] fix: hashing a file must not stop at a partial read

---
 src/joedb/journal/File_Hasher.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..4d1ee8f 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -1,4 +1,5 @@
 #include "joedb/journal/File_Hasher.h"
+#include "joedb/journal/Async_Reader.h"
 #include "joedb/journal/Readonly_Journal.h"
 #include "joedb/journal/Readonly_Memory_File.h"
 
@@ -20,15 +21,12 @@ namespace joedb
   constexpr uint32_t chunks = 2048;
   std::vector<char> hashing_buffer(SHA_256::chunk_size * chunks);
 
+  Async_Reader reader(file, start, start + size);
   int64_t current_size = 0;
 
   while (true)
   {
-   size_t block_size = SHA_256::chunk_size * chunks;
-   if (current_size + int64_t(block_size) > size)
-    block_size = size_t(size - current_size);
-
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = reader.read(hashing_buffer.data(), hashing_buffer.size());
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +96,14 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   Async_Reader reader
+   (
+    file,
+    buffer_position,
+    buffer_position + int64_t(buffer.size())
+   );
+
+   reader.read(buffer.data(), buffer.size());
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From 95a102fbc7ad617bf0969016e9db826d41afc28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 14/31] fix: updating a vector must check all its records

---
 src/joedb/interpreted/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..3f37d5c 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -77,8 +77,8 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    if (!freedom.is_used_vector(record_id, size))\
+     throw Exception("update: invalid record_id");\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
-- 
2.43.0


From 54213f8b881469855dc9e84654141748cd670ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 15/31] fix: seeking from the end of a stream buffer must take
 pending output into account

---
 src/joedb/journal/filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index d2b8fe9..e5a4aec 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -44,7 +44,10 @@ namespace joedb
     : out_pos + pptr() - pbase();
   }
   else if (dir == std::ios_base::end)
+  {
+   syncp();
    base = file.get_size();
+  }
 
   if (base < 0)
    return pos_type(off_type(-1));
-- 
2.43.0


From 053e67319c068f8d512feb225e089f60283220f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 16/31] fix: a refused push must not reuse the writer of a
 previous push

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..cf5d44f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From e05f87bf473a69b22a25ed08f48099aa8716cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 17/31] fix: the lock timeout must not fire after a refresh or
 after the end of a session

---
 src/joedb/concurrency/Server.cpp | 12 ++++++++++--
 src/joedb/concurrency/Server.h   |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index cf5d44f..04763f6 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -126,6 +126,7 @@ namespace joedb
 
    locking = false;
    lock_timeout_timer.cancel();
+   lock_timeout_token.reset();
 
    if (get_server().lock_waiters.empty())
    {
@@ -148,11 +149,18 @@ namespace joedb
   if (locking && get_server().lock_timeout.count() > 0)
   {
    lock_timeout_timer.expires_after(get_server().lock_timeout);
+
+   // the handler of an expired timer may already be queued: it must not run
+   // after a refresh, or after the end of this session
+   lock_timeout_token = std::make_shared<char>();
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [this, token = std::weak_ptr<char>(lock_timeout_token)]
+    (
+     std::error_code error
+    )
     {
-     if (!error)
+     if (!error && !token.expired())
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..9de6369 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     std::shared_ptr<char> lock_timeout_token;
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From e7eac4fbc403fb012882bcb15dfd54f5e00d92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 18/31] fix: start the keep-alive thread after the construction
 and handshake of its client

---
 src/joedb/concurrency/Keep_Alive_Thread.h | 9 +++++++--
 src/joedb/concurrency/Server_Client.cpp   | 5 +++--
 src/joedb/concurrency/Server_Client.h     | 5 ++++-
 src/joedb/rpc/Client.h                    | 1 +
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/joedb/concurrency/Keep_Alive_Thread.h b/src/joedb/concurrency/Keep_Alive_Thread.h
index f7db6e2..5a21c92 100644
--- a/src/joedb/concurrency/Keep_Alive_Thread.h
+++ b/src/joedb/concurrency/Keep_Alive_Thread.h
@@ -35,8 +35,8 @@ namespace joedb
 
    bool thread_must_stop;
    bool stopped;
-   std::thread thread;
    std::condition_variable condition;
+   std::thread thread;
 
    void keep_alive()
    {
@@ -66,7 +66,12 @@ namespace joedb
     thread_must_stop(false),
     stopped(true)
    {
-    if (interval.count() > 0)
+   }
+
+   /// To be called when the client is ready to ping
+   void start()
+   {
+    if (stopped && interval.count() > 0)
     {
      stopped = false;
      thread = std::thread([this](){keep_alive();});
diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..caeabce 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,13 +116,14 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
-  pullonly_server(false)
+  pullonly_server(false),
+  keep_alive(*this, keep_alive_interval)
  {
   connect();
+  keep_alive.start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..f87bc93 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -19,7 +19,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -35,6 +34,10 @@ namespace joedb
    bool pullonly_server;
    int64_t server_checkpoint;
 
+  private:
+   Keep_Alive_Thread keep_alive; // last: its thread uses the other members
+
+  protected:
    void download
    (
     Async_Writer &writer,
diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..a0853bb 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -60,6 +60,7 @@ namespace joedb::rpc
     keep_alive(*this, keep_alive_interval)
    {
     handshake();
+    keep_alive.start();
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From 9968ea41784b33011f263cf700d1c52af480a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 19/31] fix: the keep-alive thread must not overwrite the
 buffer of a server connection in use

---
 src/joedb/concurrency/Server_Connection.cpp | 38 ++++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..5b8fcb4 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +52,27 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
+  const SHA_256::Hash hash = content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  char reply;
 
   {
    Lock<Channel&> lock(channel);
+
+   buffer.index = 0;
+   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
+
    lock->write(buffer.data, buffer.index);
-   lock->read(buffer.data, 1);
+   lock->read(&reply, 1);
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + reply);
 
-  if (buffer.data[0] == 'h')
+  if (reply == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +192,17 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char c = 'M';
+
   {
    Lock<Channel&> lock(channel);
-   buffer.data[0] = 'M';
-   lock->write(buffer.data, 1);
-   lock->read(buffer.data, 1);
+   lock->write(&c, 1);
+   lock->read(&c, 1);
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + c);
 
-  if (buffer.data[0] != 'M')
+  if (c != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From 1dbfdf7481327c86610e79a60f694115e10369ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 20/31] fix: a refused insert_vector must leave the table
 unchanged

---
 src/joedb/interpreted/Table.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index 4e1add6..6a38812 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -71,11 +71,14 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_free_vector(record_id, size));
+  if (size > size_t(std::numeric_limits<underlying_type<Record_Id>::type>::max() - to_underlying(record_id)))
+   throw Exception("insert_vector: too big");
   if (record_id == freedom.get_size())
   {
-   freedom.resize(freedom.size() + size);
+   const size_t new_size = freedom.size() + size;
    for (auto &field: fields)
-    field.second.resize(freedom.size());
+    field.second.resize(new_size);
+   freedom.resize(new_size);
    freedom.use_vector(record_id, size);
   }
   else
-- 
2.43.0


From 5528c3ddafb47c7de561bc9e2ca6396ef202da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 21/31] fix: quoted and JSON strings contained invalid UTF-8

---
 src/joedb/ui/minimal_runtime_io.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index 2620485..bd18b71 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -68,6 +68,23 @@ namespace joedb
     out.put('\\').put('"');
    else if (c == '\\')
     out.put('\\').put('\\');
+   else if // overlong encodings, and characters above U+10FFFF
+   (
+    c == 0xc0 ||
+    c == 0xc1 ||
+    c > 0xf4 ||
+    (
+     i + 1 < s.size() &&
+     (
+      (c == 0xe0 && uint8_t(s[i + 1]) < 0xa0) ||
+      (c == 0xf0 && uint8_t(s[i + 1]) < 0x90) ||
+      (c == 0xf4 && uint8_t(s[i + 1]) > 0x8f)
+     )
+    )
+   )
+   {
+    write_octal_character(out, c, json);
+   }
    else if ((c & 0xe0) == 0xc0 &&
             i + 1 < s.size() &&
             (s[i + 1] & 0xc0) == 0x80)
-- 
2.43.0


From 8014e628a894088fbbab1ec1b2975eac083d292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 22/31] fix: a line break in a comment escaped from its SQL
 comment

---
 src/joedb/ui/SQL_Dump_Writable.cpp | 18 ++++++++++++++++--
 src/joedb/ui/SQL_Dump_Writable.h   |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/SQL_Dump_Writable.cpp b/src/joedb/ui/SQL_Dump_Writable.cpp
index c909a8b..dc1d7f9 100644
--- a/src/joedb/ui/SQL_Dump_Writable.cpp
+++ b/src/joedb/ui/SQL_Dump_Writable.cpp
@@ -62,6 +62,20 @@ namespace joedb
   }
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void SQL_Writable::write_comment(const std::string &comment)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  out << "-- ";
+  for (const char c: comment)
+  {
+   out.put(c);
+   if (c == '\n' || c == '\r')
+    out << "-- ";
+  }
+  out << '\n';
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::start_writing(int64_t position)
  ////////////////////////////////////////////////////////////////////////////
@@ -144,14 +158,14 @@ namespace joedb
  void SQL_Writable::custom(const std::string &name)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- custom: " << name << '\n';
+  write_comment("custom: " + name);
  }
 
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::comment(const std::string &comment)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- " << comment << '\n';
+  write_comment(comment);
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/SQL_Dump_Writable.h b/src/joedb/ui/SQL_Dump_Writable.h
index 5e030a1..a594181 100644
--- a/src/joedb/ui/SQL_Dump_Writable.h
+++ b/src/joedb/ui/SQL_Dump_Writable.h
@@ -20,6 +20,7 @@ namespace joedb
    const Abstract_File *blob_reader;
 
    void write_type(Type type);
+   void write_comment(const std::string &comment);
    void write_update(Table_Id table_id, Field_Id field_id);
    void write_where(Record_Id record_id);
 
-- 
2.43.0


From 3e07ec3059bd73371a163c2c9cd858fc369fa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 23/31] fix: a standard exception stopped the command
 interpreter

---
 src/joedb/ui/Command_Interpreter.cpp | 4 ++--
 src/joedb/ui/Command_Interpreter.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/joedb/ui/Command_Interpreter.cpp b/src/joedb/ui/Command_Interpreter.cpp
index b1714f9..a15d220 100644
--- a/src/joedb/ui/Command_Interpreter.cpp
+++ b/src/joedb/ui/Command_Interpreter.cpp
@@ -13,7 +13,7 @@ namespace joedb
   std::ostream &out,
   int64_t line_number,
   const std::string_view line,
-  const Exception *exception
+  const std::exception *exception
  ) const
  {
   if (exception)
@@ -216,7 +216,7 @@ General commands
     if (quit || abort)
      break;
    }
-   catch (const Exception &e)
+   catch (const std::exception &e)
    {
     after_command(out, line_number, line, &e);
    }
diff --git a/src/joedb/ui/Command_Interpreter.h b/src/joedb/ui/Command_Interpreter.h
index 387c1ef..8c3996a 100644
--- a/src/joedb/ui/Command_Interpreter.h
+++ b/src/joedb/ui/Command_Interpreter.h
@@ -28,7 +28,7 @@ namespace joedb
     std::ostream &out,
     int64_t line_number,
     std::string_view line,
-    const Exception *exception
+    const std::exception *exception
    ) const;
 
   protected:
-- 
2.43.0


From 088de230f1c8e9d854ebcca85215c9b10f147edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 24/31] fix: reading a truncated value used uninitialised
 variables

---
 src/joedb/ui/type_io.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..6749158 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -36,8 +36,8 @@ namespace joedb
 
     if (c == 'x')
     {
-     char c1;
-     char c0;
+     char c1 = '0';
+     char c0 = '0';
      in.get(c1).get(c0);
      const uint8_t n1 = get_hex_digit_from_char(c1);
      const uint8_t n0 = get_hex_digit_from_char(c0);
@@ -45,8 +45,8 @@ namespace joedb
     }
     else if (c >= '0' && c <= '9')
     {
-     char c1;
-     char c0;
+     char c1 = '0';
+     char c0 = '0';
      in.get(c1).get(c0);
      const uint8_t n2 = uint8_t(c  - '0');
      const uint8_t n1 = uint8_t(c1 - '0');
@@ -206,7 +206,7 @@ namespace joedb
  int8_t read_int8(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
  {
-  int result;
+  int result = 0;
   in >> result;
   return int8_t(result);
  }
-- 
2.43.0


From e1c2cc288bb37adaa669b223b632301a5bf654b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:51 +0000
Subject: [PATCH 25/31] fix: infinities and NaN written by a dump could not be
 read back

---
 src/joedb/ui/type_io.cpp | 35 +++++++++++++++++++++++++++++++++++
 src/joedb/ui/type_io.h   |  8 ++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index 6749158..48bc393 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -1,6 +1,7 @@
 #include "joedb/ui/type_io.h"
 #include "external/wide_char_display_width.h"
 
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -211,6 +212,40 @@ namespace joedb
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ // unlike operator>>, this can read inf and nan
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T read_floating_point
+ (
+  std::istream &in,
+  T (*parse)(const char *, char **)
+ )
+ {
+  std::string word;
+  in >> word;
+
+  char *end = nullptr;
+  const T value = parse(word.c_str(), &end);
+  if (end == word.c_str())
+   in.setstate(std::ios::failbit);
+
+  return value;
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ float read_float32(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_floating_point(in, std::strtof);
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ double read_float64(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_floating_point(in, std::strtod);
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  bool read_boolean(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..d5518fc 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -75,12 +75,16 @@ namespace joedb
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
  PRIMITIVE_IO(Record_Id, reference)
- PRIMITIVE_IO(float, float32)
- PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ float read_float32(std::istream &in);
+ inline void write_float32(std::ostream &out, float value) {out << value;}
+
+ double read_float64(std::istream &in);
+ inline void write_float64(std::ostream &out, double value) {out << value;}
+
  /// @}
 }
 
-- 
2.43.0


From 6de82c8df12acfaf64d0b0658088dfffd9964da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:51 +0000
Subject: [PATCH 26/31] fix: commands stored a default value, or wrote a
 partial record to the journal, when given a value that cannot be read or
 stored

---
 .../Data_Manipulation_Command_Processor.cpp   | 15 +++++++++
 .../ui/Data_Manipulation_Command_Processor.h  |  3 ++
 .../Readable_Writable_Command_Processor.cpp   |  1 +
 src/joedb/ui/type_io.cpp                      | 31 +++++++++++++++++++
 src/joedb/ui/type_io.h                        |  4 ++-
 5 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
index 25a8002..3125e7f 100644
--- a/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
+++ b/src/joedb/ui/Data_Manipulation_Command_Processor.cpp
@@ -8,6 +8,19 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ void Data_Manipulation_Command_Processor::check_parsing
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const std::istream &in,
+  Type::Type_Id type_id
+ )
+ {
+  // reading an unquoted string at the end of a line fails
+  if (in.fail() && type_id != Type::Type_Id::string)
+   throw Exception("failed parsing value");
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void Data_Manipulation_Command_Processor::update_value
  ////////////////////////////////////////////////////////////////////////////
@@ -27,6 +40,7 @@ namespace joedb
    case Type::Type_Id::type_id:\
    {\
     const type value = joedb::read_##type_id(in);\
+    check_parsing(in, Type::Type_Id::type_id);\
     writable.update_##type_id(table_id, record_id, field_id, value);\
    }\
    break;
@@ -151,6 +165,7 @@ namespace joedb
       std::vector<type> v(size);\
       for (size_t i = 0; i < size; i++)\
        v[i] = joedb::read_##type_id(parameters);\
+      check_parsing(parameters, Type::Type_Id::type_id);\
       writable.update_vector_##type_id(table_id, record_id, field_id, size, &v[0]);\
      }\
      break;
diff --git a/src/joedb/ui/Data_Manipulation_Command_Processor.h b/src/joedb/ui/Data_Manipulation_Command_Processor.h
index 46864fd..d81e3ba 100644
--- a/src/joedb/ui/Data_Manipulation_Command_Processor.h
+++ b/src/joedb/ui/Data_Manipulation_Command_Processor.h
@@ -2,6 +2,7 @@
 #define joedb_Data_Manipulation_Command_Processor_declared
 
 #include "joedb/ui/Readable_Command_Processor.h"
+#include "joedb/Type.h"
 
 namespace joedb
 {
@@ -20,6 +21,8 @@ namespace joedb
    );
 
   protected:
+   static void check_parsing(const std::istream &in, Type::Type_Id type_id);
+
    Status process_command
    (
     std::string_view command,
diff --git a/src/joedb/ui/Readable_Writable_Command_Processor.cpp b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
index 8fa4e95..800aea1 100644
--- a/src/joedb/ui/Readable_Writable_Command_Processor.cpp
+++ b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
@@ -124,6 +124,7 @@ namespace joedb
       case Type::Type_Id::type_id:\
       {\
        const type value = joedb::read_##type_id(parameters);\
+       check_parsing(parameters, Type::Type_Id::type_id);\
        for (Record_Id record_id{0}; record_id < size; ++record_id)\
         if (readable.is_used(table_id, record_id))\
          writable.update_##type_id(table_id, record_id, field_id, value);\
diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index 48bc393..20db96b 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -281,6 +281,14 @@ namespace joedb
   out << blob.get_position() << ',' << blob.get_size();
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ // Limit of the compact integers of the journal
+ /////////////////////////////////////////////////////////////////////////////
+ static bool is_storable(int64_t value)
+ {
+  return value >= 0 && value < (int64_t(1) << 61) - 1;
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  Blob read_blob(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
@@ -290,6 +298,29 @@ namespace joedb
   in >> position;
   in.ignore(1, ',');
   in >> size;
+
+  if (!is_storable(position) || !is_storable(size))
+  {
+   in.setstate(std::ios::failbit);
+   return Blob();
+  }
+
   return Blob(position, size);
  }
+
+ /////////////////////////////////////////////////////////////////////////////
+ Record_Id read_reference(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  Record_Id value = Record_Id::null;
+  in >> value;
+
+  if (value != Record_Id::null && !is_storable(to_underlying(value)))
+  {
+   in.setstate(std::ios::failbit);
+   return Record_Id::null;
+  }
+
+  return value;
+ }
 }
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index d5518fc..a922e2e 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -74,11 +74,13 @@ namespace joedb
 
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
- PRIMITIVE_IO(Record_Id, reference)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ Record_Id read_reference(std::istream &in);
+ inline void write_reference(std::ostream &out, Record_Id value) {out << value;}
+
  float read_float32(std::istream &in);
  inline void write_float32(std::ostream &out, float value) {out << value;}
 
-- 
2.43.0


From 66345c5865faa22e81e5c1a964eb155168c8040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 27/31] fix: Writable_Client keeps the lock of the connection
 when reading the journal fails

---
 src/joedb/concurrency/Writable_Client.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 26dc3cd..7145668 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -132,7 +132,16 @@ namespace joedb
    void start_transaction()
    {
     pull_connection(Lock_Action::lock_before);
-    read_journal();
+
+    try
+    {
+     read_journal();
+    }
+    catch (...)
+    {
+     connection.unlock();
+     throw;
+    }
    }
 
   public:
-- 
2.43.0


From f082d6edd472526424bc912f30761f621db29083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 28/31] fix: Writable_Journal keeps the tail lock when pulling
 fails

---
 src/joedb/journal/Writable_Journal.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 35e9fb5..beb2f99 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -505,7 +505,16 @@ namespace joedb
   if (file.is_shared())
   {
    file.exclusive_lock_tail();
-   pull_without_locking();
+
+   try
+   {
+    pull_without_locking();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
  }
 
-- 
2.43.0


From 7d8a6dc4e9317f849c66a2cedce4666f072b1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 29/31] fix: skipping to a position must forget the operation
 before the skip

---
 src/joedb/journal/Readonly_Journal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..8d0cb99 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -116,6 +116,10 @@ namespace joedb
    void skip_directly_to(int64_t position)
    {
     file_buffer.set_position(position);
+
+    // The last operation before position is unknown
+    reset_context();
+    field_of_last_update = Field_Id(-1);
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
    {
-- 
2.43.0


From 54a542314b730da657561521e15783bf5704b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 30/31] fix: rpc client must refuse a reply that is shorter
 than what it has

---
 src/joedb/rpc/Client.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index a0853bb..359f91e 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -92,8 +92,13 @@ namespace joedb::rpc
     {
      const size_t from = file.get_data().size();
      const int64_t until = buffer.read<int64_t>();
+
+     if (until < int64_t(from))
+      throw Exception("bad reply size from server");
+
      file.get_data().resize(size_t(until));
      lock->read(file.get_data().data() + from, size_t(until) - from);
+
      file.pwrite((const char *)&until, 8, 0);
      file.pwrite((const char *)&until, 8, 8);
     }
-- 
2.43.0


From 2ab96a2b9995eb7250256bd08a254aeb345f64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:12 +0000
Subject: [PATCH 31/31] fix: a failed rpc reply must not leave garbage in the
 client's message file

---
 src/joedb/rpc/Client.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 359f91e..2c3d0df 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -96,8 +96,16 @@ namespace joedb::rpc
      if (until < int64_t(from))
       throw Exception("bad reply size from server");
 
-     file.get_data().resize(size_t(until));
-     lock->read(file.get_data().data() + from, size_t(until) - from);
+     try
+     {
+      file.get_data().resize(size_t(until));
+      lock->read(file.get_data().data() + from, size_t(until) - from);
+     }
+     catch (...)
+     {
+      file.get_data().resize(from);
+      throw;
+     }
 
      file.pwrite((const char *)&until, 8, 0);
      file.pwrite((const char *)&until, 8, 8);
-- 
2.43.0

