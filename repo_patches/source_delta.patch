From 844791f6d4a7c3e72dc665bf7217173d57efc58b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 01/51] fix: hard checkpoint must not overwrite the current
 soft checkpoint first

The first copy of a hard checkpoint was written over the slot that may hold
the most recent soft checkpoint. If the process was killed before writing the
second copy, then that soft checkpoint, which had already been acknowledged
and seen by readers, was lost.
---
 src/joedb/journal/Writable_Journal.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..6488244 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -142,11 +142,27 @@ namespace joedb
 
   file_buffer.flush();
 
+  Head_Exclusive_Lock lock(file);
+
+  // The first copy must not overwrite the current soft checkpoint: the process
+  // may be killed before writing the second copy.
+  if (soft_index == 0 && checkpoint_position > hard_checkpoint_position)
+  {
+   soft_index = 1;
+
+   const int64_t neg = -checkpoint_position;
+
+   file.pwrite
+   (
+    reinterpret_cast<const char *>(&neg),
+    sizeof(neg),
+    int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   );
+  }
+
   hard_index ^= 1;
   hard_checkpoint_position = checkpoint_position = position;
 
-  Head_Exclusive_Lock lock(file);
-
   file.pwrite
   (
    reinterpret_cast<const char *>(&checkpoint_position),
-- 
2.43.0


From 30d7afa47ec9b888fab9b5a5329ca0962d08c69a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 02/51] fix: neutralize all stale soft checkpoints when
 recovering with overwrite

After a power failure, the header may contain soft checkpoints beyond the end
of the file. Only one was overwritten, only when the checkpoint was exactly at
the end of the file, and not durably. The others became valid again in the
middle of a later transaction, when the file grew past them.
---
 src/joedb/journal/Writable_Journal.cpp | 32 ++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 6488244..f81a410 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,35 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite all after-the-end-of-file soft checkpoints, durably: they would
+  // become wrongly valid when the file grows
+  if (lock.recovery == Recovery::overwrite && lock.size > 0)
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   std::array<int64_t, 4> pos;
+   bool overwritten = false;
+
+   if (file.pread((char *)&pos, sizeof(pos), 0) == sizeof(pos))
+   {
+    for (size_t i = 0; i < pos.size(); i++)
+    {
+     if (-pos[i] > lock.size)
+     {
+      const int64_t neg = -checkpoint_position;
+
+      file.pwrite
+      (
+       reinterpret_cast<const char *>(&neg),
+       sizeof(neg),
+       int64_t(sizeof(neg) * i)
+      );
+
+      overwritten = true;
+     }
+    }
+   }
+
+   if (overwritten)
+    file.datasync();
   }
  }
 
-- 
2.43.0


From 9a6a7f19404ce8ace5742bd1bc981840dfe2bf28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 03/51] fix: do not write updates of empty vectors

They were not replayed, so copying a journal that contains one failed with
'end_writing position is not matching file position'.
---
 src/joedb/journal/Writable_Journal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index f81a410..f14f4bf 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -466,6 +466,9 @@ namespace joedb
   const type *value\
  )\
  {\
+  if (size == 0)\
+   return;\
+ \
   file_buffer.write<operation_t>(operation_t::update_vector_##type_id);\
   file_buffer.compact_write<>(to_underlying(table_id));\
   file_buffer.write_reference(record_id);\
-- 
2.43.0


From 2e4e53ac208dd726756ca0985a15d33024f25c7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 04/51] fix: skipping in a journal must reset the context of
 compact operations

A Writable_Journal_Client skips what other clients wrote. Its next insertion
or update could be encoded relative to its own last operation, and be replayed
relative to the last operation of another client, on the wrong record.
---
 src/joedb/journal/Readonly_Journal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..1a0ba32 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -116,6 +116,7 @@ namespace joedb
    void skip_directly_to(int64_t position)
    {
     file_buffer.set_position(position);
+    reset_context();
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
    {
-- 
2.43.0


From 457b0fa2103a8178ee02c3a32058c9f48da28ecf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 05/51] fix: is_used_vector must not overflow when the range is
 huge

---
 src/joedb/Freedom_Keeper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..180b1d5 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -107,7 +107,8 @@ namespace joedb
     if
     (
      index.is_null() ||
-     index + size > freedom_size
+     index > freedom_size ||
+     size > size_t(freedom_size) - size_t(index)
     )
     {
      return false;
-- 
2.43.0


From 9edc8094288f8fb70377ac172af4a8994c472028 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 06/51] fix: update_vector of the interpreted database must
 refuse unused records in the middle of the range

---
 src/joedb/interpreted/Table.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..fc6ed26 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -43,6 +43,12 @@ namespace joedb
      throw Exception("update: invalid record_id");
    }
 
+   void check_record_vector(Record_Id record_id, size_t size)
+   {
+    if (!freedom.is_used_vector(record_id, size))
+     throw Exception("update: invalid record_id");
+   }
+
   public:
    const Freedom_Keeper &get_freedom() const {return freedom;}
 
@@ -77,8 +83,7 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    check_record_vector(record_id, size);\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
-- 
2.43.0


From c16f6263034244963d9fffe6c6882decbaf21d50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 07/51] fix: a record inserted after a deletion must not get
 the values of the deleted record

---
 src/joedb/interpreted/Field.h   | 13 +++++++++++++
 src/joedb/interpreted/Table.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..3f8dccc 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,19 @@ namespace joedb
     }
    }
 
+   void reset(Record_Id record_id)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::get<std::vector<cpp_type>>(column)[index(record_id)] = cpp_type();\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..4e1add6 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.reset(record_id);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,9 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  for (auto &field: fields)
+   for (size_t i = 0; i < size; i++)
+    field.second.reset(record_id + i);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From 8ee1fd75fa131333161e0b6ed316ee93898bc507 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 08/51] fix: a failed allocation or an overflow in
 insert_vector must not corrupt the table

---
 src/joedb/interpreted/Table.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index 4e1add6..97ea331 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -73,9 +73,11 @@ namespace joedb
   JOEDB_RELEASE_ASSERT(freedom.is_free_vector(record_id, size));
   if (record_id == freedom.get_size())
   {
-   freedom.resize(freedom.size() + size);
+   const size_t new_size = freedom.size() + size;
+   JOEDB_RELEASE_ASSERT(new_size >= size);
    for (auto &field: fields)
-    field.second.resize(freedom.size());
+    field.second.resize(new_size);
+   freedom.resize(new_size);
    freedom.use_vector(record_id, size);
   }
   else
-- 
2.43.0


From ad9ebd0341c5bdff925169e45bbfb6269335600d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 09/51] fix: generated iterators must not index out of an empty
 table

new_vector_of_X(0) on an empty table accessed element 0 of empty vectors.
---
 src/joedb/compiler/generator/Database_h.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index 5ab6738..2ab2efa 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -315,7 +315,7 @@ namespace joedb::generator
     {
      out << "    std::fill_n\n";
      out << "    (\n";
-     out << "     &storage_of_" << tname << ".iterator_over_" << index.name << "[to_underlying(record_id)],\n";
+     out << "     storage_of_" << tname << ".iterator_over_" << index.name << ".data() + to_underlying(record_id),\n";
      out << "     size,\n";
      out << "     index_of_" << index.name << ".end()\n";
      out << "    );\n";
-- 
2.43.0


From bf1dd9e1deffc64193c8202e43c3edabc74a8230 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 10/51] fix: generated code must refuse invalid records before
 changing anything

insert_X of a used or negative id, delete_vector_of_X and update_vector_of_F
on unused records changed the database and the file before failing (or did
not fail at all), so that the file could not be opened any more.
---
 src/joedb/compiler/generator/Writable_Database_h.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 598a5c5..0477e44 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -190,6 +190,7 @@ namespace joedb::generator
 
    out << "   void insert_" << tname << "(id_of_" << tname << " id)\n";
    out << "   {\n";
+   out << "    JOEDB_RELEASE_ASSERT(id.is_not_null() && !is_valid(id));\n";
    out << "    if (id.get_record_id() >= Record_Id(storage_of_" << tname << ".size()))\n";
    out << "     storage_of_" << tname << ".resize(id.get_id() + 1);\n";
    out << "    internal_insert_" << tname << "(id.get_record_id());\n";
@@ -266,6 +267,7 @@ namespace joedb::generator
 
     out << "   void delete_vector_of_" << tname << "(id_of_" << tname << " v, size_t size)\n";
     out << "   {\n";
+    out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(v.get_record_id(), size));\n";
     out << "    for (size_t i = size; i > 0;)\n";
     out << "     internal_delete_" << tname << "(v[--i].get_record_id());\n";
     out << "    journal.delete_vector(Table_Id(" << tid << "), v.get_record_id(), size);\n";
@@ -320,6 +322,7 @@ namespace joedb::generator
      out << "   template<typename F> void update_vector_of_" << fname;
      out << "(id_of_" << tname << " record, size_t size, F f)\n";
      out << "   {\n";
+     out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(record.get_record_id(), size));\n";
      out << "    joedb::Span<";
      write_type(out, type, false, false);
      out << "> span(&storage_of_" << tname;
-- 
2.43.0


From f0e7c8d2cfb42d0b47def6f654918ce50ae0a504 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 11/51] fix: vector updates through a generated Multiplexer
 must remain vector updates

Selective_Writable splits vector updates, which made a file that could not be
opened any more when swapping the values of a unique index.
---
 .../compiler/generator/Multiplexer_h.cpp      | 45 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/joedb/compiler/generator/Multiplexer_h.cpp b/src/joedb/compiler/generator/Multiplexer_h.cpp
index 3b4e915..e26c03d 100644
--- a/src/joedb/compiler/generator/Multiplexer_h.cpp
+++ b/src/joedb/compiler/generator/Multiplexer_h.cpp
@@ -35,14 +35,55 @@ namespace joedb::generator
   out << R"RRR(
  namespace detail
  {
+  /// Selective_Writable splits a vector update into individual updates. The
+  /// journal must get it in one piece: playing individual updates one by one
+  /// may temporarily violate the constraint of a unique index.
+  class Data_Writable: public joedb::Selective_Writable
+  {
+   private:
+    joedb::Writable_Journal &journal;
+
+   public:
+    Data_Writable(joedb::Writable_Journal &journal):
+     joedb::Selective_Writable
+     (
+      journal,
+      joedb::Selective_Writable::data_and_information
+     ),
+     journal(journal)
+    {
+    }
+
+    #define TYPE_MACRO(type, return_type, type_id, R, W)\
+    void update_vector_##type_id\
+    (\
+     joedb::Table_Id table_id,\
+     joedb::Record_Id record_id,\
+     joedb::Field_Id field_id,\
+     size_t size,\
+     const type *value\
+    ) override\
+    {\
+     journal.update_vector_##type_id\
+     (\
+      table_id,\
+      record_id,\
+      field_id,\
+      size,\
+      value\
+     );\
+    }
+    #include "joedb/TYPE_MACRO.h"
+  };
+
   class Multiplexer_Parent
   {
    protected:
-    joedb::Selective_Writable selective_writable;
+    Data_Writable selective_writable;
 
    public:
     Multiplexer_Parent(joedb::Writable_Journal &journal):
-     selective_writable(journal, joedb::Selective_Writable::data_and_information)
+     selective_writable(journal)
     {
     }
   };
-- 
2.43.0


From a76af47354de1f6cde4061edb25e85976ee05a98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 12/51] fix: Stream_File must seek when switching between
 reading and writing

The streambuf may have separate positions for reading and writing: after
reading bytes 0..n of a stringbuf, writing at n overwrote byte 0.
---
 src/joedb/journal/Stream_File.cpp | 15 ++++++++++-----
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..a7538a4 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  writing(false)
  {
   streambuf.pubseekoff
   (
@@ -33,18 +34,22 @@ namespace joedb
    std::ios_base::in
   );
 
+  writing = false;
+
   return pos;
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek(int64_t offset, bool write) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  if (int64_t(pos) == offset)
+  // The streambuf may have different positions for reading and writing
+  if (int64_t(pos) == offset && writing == write)
    return;
 
   if (offset >= 0)
   {
+   writing = write;
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
    if (int64_t(pos) == offset)
     return;
@@ -57,7 +62,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, false);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +72,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, true);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..59efa24 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable bool writing;
+   void seek(int64_t offset, bool write) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 306ce9931ace0618fb7cbbc37cccab6d43dc7655 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 13/51] fix: Abstract_File::equal_to must handle short reads of
 the destination

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From 115bcb3c77c94c7372052abbee6d6f24deac9f82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 14/51] fix: seeking from the end of a filebuf must take
 pending output into account

---
 src/joedb/journal/filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..e70f921 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -44,7 +44,10 @@ namespace joedb
     : out_pos + pptr() - pbase();
   }
   else if (dir == std::ios_base::end)
+  {
+   syncp();
    base = file.get_size();
+  }
 
   if (base < 0)
    return pos_type(off_type(-1));
-- 
2.43.0


From 3d4d3e77e0828f1367fe1b584a75a03a2e569c7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 15/51] fix: seeking a filebuf to a negative position must fail

---
 src/joedb/journal/filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index e70f921..4fe3395 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -63,6 +63,9 @@ namespace joedb
   std::ios_base::openmode which
  )
  {
+  if (pos < 0)
+   return pos_type(off_type(-1));
+
   sync();
 
   if (which & std::ios_base::in)
-- 
2.43.0


From d92cb7bbb4dc41876447818aeea54ae15809fa7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 16/51] fix: putting back character 0xff into a filebuf is not
 a failure

---
 src/joedb/journal/filebuf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index 4fe3395..1fe57f3 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -211,7 +211,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From 5f61b25586ba07d9659a9f85012f07600943b3fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 17/51] fix: read the file size after locking in
 Journal_Construction_Lock

When the size was read before locking a shared file, another process could
create or extend the journal in between: a new header was written over its
transactions, or opening failed.
---
 .../journal/Journal_Construction_Lock.cpp     | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..c5ac75e 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,10 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ // The size must be read after locking: before that, another process may be
+ // writing to the file.
+ static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -21,6 +16,21 @@ namespace joedb
     file.exclusive_lock_tail();
    file.exclusive_lock_head();
   }
+
+  return file.get_size();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ccd6df56f456709cfde13b11e9a8fc0d88c0eedc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 18/51] fix: do not write aborted data to a shared file when
 closing it

The buffer of an aborted transaction was flushed by the destructor, without
any lock, over transactions that other processes might have committed since.
---
 src/joedb/journal/File_Buffer.h        | 7 +++++++
 src/joedb/journal/Writable_Journal.cpp | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 96ba928..0ab4415 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -69,6 +69,13 @@ namespace joedb
    File_Buffer(Abstract_File &file);
    void flush();
 
+   /// Forget buffered data, without writing it
+   void discard() noexcept
+   {
+    buffer.index = 0;
+    read_buffer_size = 0;
+   }
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index f14f4bf..bc58b42 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -541,7 +541,13 @@ namespace joedb
  /////////////////////////////////////////////////////////////////////////////
  {
   if (ahead_of_checkpoint() > 0)
+  {
    Destructor_Logger::warning("Writable_Journal: ahead of checkpoint");
+
+   // Another process may have written there since the lock was released
+   if (is_shared())
+    file_buffer.discard();
+  }
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e808c93ad0d03f69cff79ff137ee4310cf1a9e78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 19/51] fix: check content before pulling data into a journal
 that is ahead of its connection

---
 src/joedb/concurrency/Writable_Client.h | 67 ++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..06c4def 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -83,15 +83,63 @@ namespace joedb
      get_writable_journal().hard_checkpoint();
    }
 
-   void start_transaction()
+   int64_t pull_data
+   (
+    Lock_Action lock_action,
+    std::chrono::milliseconds wait = std::chrono::milliseconds(0)
+   )
    {
-    connection_checkpoint = connection.pull
+    if (get_checkpoint_difference() <= 0)
+    {
+     return connection.pull
+     (
+      lock_action,
+      Data_Transfer::with_data,
+      get_writable_journal(),
+      wait
+     );
+    }
+
+    // This journal has data that was not pushed: if the connection moved, then
+    // it may have diverged, so content must be checked before pulling data.
+    int64_t result = connection.pull
     (
-     Lock_Action::lock_before,
-     Data_Transfer::with_data,
-     get_writable_journal()
+     lock_action,
+     Data_Transfer::without_data,
+     get_writable_journal(),
+     wait
     );
 
+    if (result != connection_checkpoint)
+    {
+     try
+     {
+      connection.handshake(get_writable_journal(), Content_Check::fast);
+
+      if (result > get_journal_checkpoint())
+      {
+       result = connection.pull
+       (
+        Lock_Action::no_locking,
+        Data_Transfer::with_data,
+        get_writable_journal()
+       );
+      }
+     }
+     catch (...)
+     {
+      if (lock_action == Lock_Action::lock_before)
+       try {connection.unlock();} catch (...) {}
+      throw;
+     }
+    }
+
+    return result;
+   }
+
+   void start_transaction()
+   {
+    connection_checkpoint = pull_data(Lock_Action::lock_before);
     read_journal();
    }
 
@@ -131,14 +179,7 @@ namespace joedb
 
     const Tail_Exclusive_Lock lock(get_writable_journal());
 
-    connection_checkpoint = connection.pull
-    (
-     Lock_Action::no_locking,
-     Data_Transfer::with_data,
-     get_writable_journal(),
-     wait
-    );
-
+    connection_checkpoint = pull_data(Lock_Action::no_locking, wait);
     read_journal();
 
     return get_journal_checkpoint() - old_checkpoint;
-- 
2.43.0


From 366fc2317dccdbf7a7f4e95e3db393c7d004fd94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:04:12 +0000
Subject: [PATCH 20/51] fix: a conflicting push does not write with the writer
 of a previous push

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..cf5d44f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From caab871e710da0fcd3fa13b9b1f2cb8319fdd0be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 21/51] fix: checkpoints of the server apply to the data that
 was pushed

---
 src/joedb/concurrency/Server.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index cf5d44f..98d7174 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -425,10 +425,9 @@ namespace joedb
    {
     if (get_server().client_lock)
     {
-     get_server().client_lock->get_journal().soft_checkpoint_at
-     (
-      push_writer->get_position()
-     );
+     Writable_Journal &journal = get_server().client_lock->get_journal();
+     journal.soft_checkpoint_at(push_writer->get_position());
+     journal.skip_directly_to(journal.get_checkpoint());
 
      if (get_server().client.is_shared() && unlock_after)
      {
-- 
2.43.0


From 6994d6b5b3453801b127218cb308ba5e5c3f0e56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 22/51] fix: ignore a lock timeout when the session has ended
 or the lock was refreshed

---
 src/joedb/concurrency/Server.cpp | 11 ++++++++---
 src/joedb/concurrency/Server.h   |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 98d7174..05f1478 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -39,7 +39,8 @@ namespace joedb
  ):
   joedb::asio::Server::Session(server, std::move(socket)),
   timer(strand),
-  lock_timeout_timer(strand)
+  lock_timeout_timer(strand),
+  lock_timeout_id(std::make_shared<int64_t>(0))
  {
  }
 
@@ -125,6 +126,7 @@ namespace joedb
     log("unlock");
 
    locking = false;
+   ++*lock_timeout_id;
    lock_timeout_timer.cancel();
 
    if (get_server().lock_waiters.empty())
@@ -150,9 +152,12 @@ namespace joedb
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    [this, id = lock_timeout_id, expected_id = ++*lock_timeout_id]
+    (
+     std::error_code error
+    )
     {
-     if (!error)
+     if (!error && *id == expected_id)
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..50d4e48 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     const std::shared_ptr<int64_t> lock_timeout_id; // may outlive the session
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From 2fe9a72ea2f56559bac6294f3d47b7dc04b900b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 23/51] fix: refuse to hash a range of negative size on the
 server

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 05f1478..b50bde0 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -222,6 +222,7 @@ namespace joedb
 
   if
   (
+   checkpoint < Header::ssize ||
    checkpoint > journal.get_checkpoint() ||
    hash != (buffer.data[0] == 'H' // ??? takes_time
    ? Journal_Hasher::get_fast_hash(journal, checkpoint)
-- 
2.43.0


From d50aeb3e8fc4516560a2b01bbc527a536cb948be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 24/51] fix: a very long wait does not overflow the timer of a
 pull

---
 src/joedb/concurrency/Server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index b50bde0..5131eaf 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -304,7 +304,14 @@ namespace joedb
  {
   co_await read_buffer(1, 16);
 
-  const std::chrono::milliseconds wait{buffer.read<int64_t>()};
+  const std::chrono::milliseconds wait = std::min
+  (
+   std::chrono::milliseconds{buffer.read<int64_t>()},
+   std::chrono::duration_cast<std::chrono::milliseconds>
+   (
+    boost::asio::steady_timer::duration::max()
+   )
+  );
   int64_t pull_checkpoint = buffer.read<int64_t>();
 
   if (!get_server().client_lock)
-- 
2.43.0


From c1c94ac66ae58537e2a05781876cd85142a01369 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 25/51] fix: short reads do not alter hashes

---
 src/joedb/journal/File_Hasher.cpp | 41 +++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..fd1fa18 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -6,6 +6,37 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ // Abstract_File::pread may read less than requested before the end of file
+ static size_t read_all
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Abstract_File &file,
+  char *data,
+  size_t size,
+  int64_t offset
+ )
+ {
+  size_t total = 0;
+
+  while (total < size)
+  {
+   const size_t n = file.pread
+   (
+    data + total,
+    size - total,
+    offset + int64_t(total)
+   );
+
+   if (n == 0)
+    break;
+
+   total += n;
+  }
+
+  return total;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  SHA_256::Hash File_Hasher::get_hash
  ////////////////////////////////////////////////////////////////////////////
@@ -28,7 +59,13 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = read_all
+   (
+    file,
+    hashing_buffer.data(),
+    block_size,
+    start + current_size
+   );
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +135,7 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   read_all(file, buffer.data(), buffer.size(), buffer_position);
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From 2122e634a9610111e9d975a5ca9baa27f3d25aa3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:16:26 +0000
Subject: [PATCH 26/51] fix: the fast hash does not read bytes before its range

---
 src/joedb/journal/File_Hasher.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index fd1fa18..bb18ec7 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -129,9 +129,11 @@ namespace joedb
     buffer_position = start + size - int64_t(buffer.size());
    else
    {
-    buffer_position = int64_t(buffer.size()) *
+    const int64_t start_remainder = start % int64_t(buffer.size());
+
+    buffer_position = start - start_remainder + int64_t(buffer.size()) *
     (
-     (start + i * size) / (int64_t(buffer.size()) * (buffer_count - 1))
+     (start_remainder + i * size) / (int64_t(buffer.size()) * (buffer_count - 1))
     );
    }
 
-- 
2.43.0


From 54a5d6dc532455d052b0c13dbb7773d133277610 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:16:26 +0000
Subject: [PATCH 27/51] fix: hashing exactly 128 KiB must not index out of the
 buffer

---
 src/joedb/journal/File_Hasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index bb18ec7..6cef355 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -76,7 +76,7 @@ namespace joedb
    {
     sha_256.process_final_chunk
     (
-     &hashing_buffer[full_chunks * SHA_256::chunk_size],
+     hashing_buffer.data() + full_chunks * SHA_256::chunk_size,
      uint64_t(current_size)
     );
     break;
-- 
2.43.0


From 5761ed77caccf582919b9b49860a46930beda2ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:36:34 +0000
Subject: [PATCH 28/51] fix: a journal cannot be written any more after a write
 error

---
 src/joedb/journal/File_Buffer.cpp      | 10 ++++++
 src/joedb/journal/File_Buffer.h        | 35 +++++++++++++++++++--
 src/joedb/journal/Writable_Journal.cpp | 42 +++++++++++++++++---------
 3 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/joedb/journal/File_Buffer.cpp b/src/joedb/journal/File_Buffer.cpp
index ad9fd76..e49215e 100644
--- a/src/joedb/journal/File_Buffer.cpp
+++ b/src/joedb/journal/File_Buffer.cpp
@@ -1,4 +1,5 @@
 #include "joedb/journal/File_Buffer.h"
+#include "joedb/error/Exception.h"
 #include "joedb/error/Destructor_Logger.h"
 
 namespace joedb
@@ -12,10 +13,19 @@ namespace joedb
   buffer.index = 0;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void File_Buffer::throw_write_error()
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  throw Exception("writing is not possible after an error");
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void File_Buffer::flush()
  ////////////////////////////////////////////////////////////////////////////
  {
+  check_write_error();
+
   if (buffer_has_write_data())
    write_buffer();
   else
diff --git a/src/joedb/journal/File_Buffer.h b/src/joedb/journal/File_Buffer.h
index 0ab4415..51db23d 100644
--- a/src/joedb/journal/File_Buffer.h
+++ b/src/joedb/journal/File_Buffer.h
@@ -17,6 +17,7 @@ namespace joedb
    Buffer<12> buffer;
 
    size_t read_buffer_size;
+   bool write_error = false;
 
    //////////////////////////////////////////////////////////////////////////
    bool buffer_has_write_data() const noexcept
@@ -51,8 +52,9 @@ namespace joedb
    {
     JOEDB_DEBUG_ASSERT(!buffer_has_read_data());
 
-    File_Iterator::write(buffer.data, buffer.index);
+    const size_t n = buffer.index;
     buffer.index = 0;
+    write_through(buffer.data, n);
    }
 
    //////////////////////////////////////////////////////////////////////////
@@ -65,6 +67,8 @@ namespace joedb
      write_buffer();
    }
 
+   [[noreturn]] static void throw_write_error();
+
   public:
    File_Buffer(Abstract_File &file);
    void flush();
@@ -76,6 +80,33 @@ namespace joedb
     read_buffer_size = 0;
    }
 
+   /// After an error, the end of the file is not known any more: it is not
+   /// possible to keep writing, or to make a checkpoint.
+   void check_write_error() const
+   {
+    if (write_error)
+     throw_write_error();
+   }
+
+   void start_unsafe_write()
+   {
+    check_write_error();
+    write_error = true;
+   }
+
+   void end_unsafe_write() noexcept
+   {
+    write_error = false;
+   }
+
+   /// Write data directly to the file. The buffer must be empty.
+   void write_through(const char *data, size_t n)
+   {
+    start_unsafe_write();
+    File_Iterator::write(data, n);
+    end_unsafe_write();
+   }
+
    // set_position must be called when switching between write and read
    void set_position(int64_t position);
 
@@ -186,7 +217,7 @@ namespace joedb
      else
      {
       flush();
-      File_Iterator::write(data, n);
+      write_through(data, n);
      }
     }
    }
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index bc58b42..fb59c47 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -40,7 +40,7 @@ namespace joedb
    header.checkpoint.fill(Header::size);
    header.version = format_version;
    header.signature = Header::joedb;
-   file_buffer.File_Iterator::write((const char *)(&header), Header::size);
+   file_buffer.write_through((const char *)(&header), Header::size);
   }
   else if
   (
@@ -135,6 +135,8 @@ namespace joedb
  void Writable_Journal::soft_checkpoint_at(int64_t position)
  /////////////////////////////////////////////////////////////////////////////
  {
+  file_buffer.check_write_error();
+
   if (checkpoint_position >= position)
    return;
 
@@ -142,25 +144,30 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
-
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
+  file_buffer.start_unsafe_write();
+
+  const int64_t neg = -position;
 
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + (soft_index ^ 1))
   );
+
+  soft_index ^= 1;
+  checkpoint_position = position;
+  file_buffer.end_unsafe_write();
  }
 
  /////////////////////////////////////////////////////////////////////////////
  void Writable_Journal::hard_checkpoint_at(int64_t position)
  /////////////////////////////////////////////////////////////////////////////
  {
+  file_buffer.check_write_error();
+
   if (hard_checkpoint_position >= position)
    return;
 
@@ -168,6 +175,8 @@ namespace joedb
 
   Head_Exclusive_Lock lock(file);
 
+  file_buffer.start_unsafe_write();
+
   // The first copy must not overwrite the current soft checkpoint: the process
   // may be killed before writing the second copy.
   if (soft_index == 0 && checkpoint_position > hard_checkpoint_position)
@@ -184,26 +193,29 @@ namespace joedb
    );
   }
 
-  hard_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
+  const int index = hard_index ^ 1;
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * index + 1)
   );
 
   file.datasync();
+
+  hard_index = index;
+  hard_checkpoint_position = checkpoint_position = position;
+  file_buffer.end_unsafe_write();
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -501,7 +513,7 @@ namespace joedb
   file_buffer.compact_write<size_t>(data.size());
   const int64_t blob_position = get_position();
   file_buffer.flush();
-  file_buffer.File_Iterator::write(data.data(), data.size());
+  file_buffer.write_through(data.data(), data.size());
   return Blob(blob_position, int64_t(data.size()));
  }
 
-- 
2.43.0


From ef9587ec1c3e9ad2989c1c5f0ac92e072a25461f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:37:10 +0000
Subject: [PATCH 29/51] fix: a short read of the head of a file is completed

---
 src/joedb/journal/Readonly_Journal.cpp | 21 +++++++++++++++++++--
 src/joedb/journal/Readonly_Journal.h   |  1 +
 src/joedb/journal/Writable_Journal.cpp |  2 +-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 8e01958..23a2817 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -43,6 +43,23 @@ void joedb::Readonly_Journal::perform_update_##type_id(Writable &writable)\
 }
 #include "joedb/TYPE_MACRO.h"
 
+/////////////////////////////////////////////////////////////////////////////
+bool joedb::Readonly_Journal::read_head(char *data, size_t size) const
+/////////////////////////////////////////////////////////////////////////////
+{
+ size_t done = 0;
+
+ while (done < size)
+ {
+  const size_t n = file.pread(data + done, size - done, int64_t(done));
+  if (n == 0)
+   return false;
+  done += n;
+ }
+
+ return true;
+}
+
 /////////////////////////////////////////////////////////////////////////////
 void joedb::Readonly_Journal::reset_context()
 /////////////////////////////////////////////////////////////////////////////
@@ -65,7 +82,7 @@ joedb::Readonly_Journal::Readonly_Journal(Journal_Construction_Lock &lock):
  if (lock.size != 0)
  {
   Header header;
-  if (file.pread((char *)(&header), Header::size, 0) < Header::size)
+  if (!read_head((char *)(&header), Header::size))
    file.reading_past_end_of_file();
 
   file_buffer.set_position(Header::size);
@@ -135,7 +152,7 @@ void joedb::Readonly_Journal::pull_without_locking()
 /////////////////////////////////////////////////////////////////////////////
 {
  std::array<int64_t, 4> pos;
- if (file.pread((char *)&pos, sizeof(pos), 0) == sizeof(pos))
+ if (read_head((char *)&pos, sizeof(pos)))
   read_checkpoint(pos, -1);
 }
 
diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 1a0ba32..02b62cf 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -39,6 +39,7 @@ namespace joedb
    Record_Id record_of_last_operation;
    Field_Id field_of_last_update;
 
+   bool read_head(char *data, size_t size) const;
    void reset_context();
 
    Type read_type();
diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index fb59c47..622c4db 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -65,7 +65,7 @@ namespace joedb
    std::array<int64_t, 4> pos;
    bool overwritten = false;
 
-   if (file.pread((char *)&pos, sizeof(pos), 0) == sizeof(pos))
+   if (read_head((char *)&pos, sizeof(pos)))
    {
     for (size_t i = 0; i < pos.size(); i++)
     {
-- 
2.43.0


From 7253f3e6b2c2d9dcf9af904b1df40ffb85507493 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:39:40 +0000
Subject: [PATCH 30/51] fix: after an error, reading starts again at the same
 operation

---
 src/joedb/journal/Readonly_Journal.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 23a2817..728ac94 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -207,7 +207,27 @@ void joedb::Readonly_Journal::raw_play_until(Writable &writable, int64_t end)
 /////////////////////////////////////////////////////////////////////////////
 {
  while (get_position() < end)
-  one_step(writable);
+ {
+  const int64_t position = get_position();
+  const Table_Id table = table_of_last_operation;
+  const Record_Id record = record_of_last_operation;
+  const Field_Id field = field_of_last_update;
+
+  try
+  {
+   one_step(writable);
+  }
+  catch (...)
+  {
+   // Reading again must not start in the middle of an operation
+   file_buffer.discard();
+   file_buffer.seek(position);
+   table_of_last_operation = table;
+   record_of_last_operation = record;
+   field_of_last_update = field;
+   throw;
+  }
+ }
 }
 
 /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1f5f23fcc284bf21a24c860c6ad693c191856998 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 31/51] fix: an error while pulling under a lock releases the
 lock

---
 src/joedb/journal/Writable_Journal.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 622c4db..aeceeab 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -524,7 +524,16 @@ namespace joedb
   if (file.is_shared())
   {
    file.exclusive_lock_tail();
-   pull_without_locking();
+
+   try
+   {
+    pull_without_locking();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
  }
 
-- 
2.43.0


From 97769a71d5a9af509f06df1f41d9a9c6ecbaf175 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 32/51] fix: a hard checkpoint by another process may have to
 be synced

---
 src/joedb/journal/Writable_Journal.cpp | 12 ++++++++++++
 src/joedb/journal/Writable_Journal.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index aeceeab..2de893b 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -169,7 +169,18 @@ namespace joedb
   file_buffer.check_write_error();
 
   if (hard_checkpoint_position >= position)
+  {
+   // The process that wrote it may have been stopped before syncing it
+   if (synced_position < position)
+   {
+    file_buffer.start_unsafe_write();
+    file.datasync();
+    synced_position = hard_checkpoint_position;
+    file_buffer.end_unsafe_write();
+   }
+
    return;
+  }
 
   file_buffer.flush();
 
@@ -215,6 +226,7 @@ namespace joedb
 
   hard_index = index;
   hard_checkpoint_position = checkpoint_position = position;
+  synced_position = position;
   file_buffer.end_unsafe_write();
  }
 
diff --git a/src/joedb/journal/Writable_Journal.h b/src/joedb/journal/Writable_Journal.h
index 8959197..329fe35 100644
--- a/src/joedb/journal/Writable_Journal.h
+++ b/src/joedb/journal/Writable_Journal.h
@@ -11,6 +11,8 @@ namespace joedb
  class Writable_Journal: public Readonly_Journal, public Writable
  {
   private:
+   int64_t synced_position = 0;
+
    void generic_update
    (
     Table_Id table_id,
-- 
2.43.0


From 9ee1f805ceb45039fb0a217a4e517b76596462f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:21:27 +0000
Subject: [PATCH 33/51] fix: SQL dump of comments with several lines

A comment (or custom name) that contains a new line was written as is after
"-- ", so that its second line became an SQL statement.  Control characters
are now written as octal codes, as in the text dump.
---
 src/joedb/ui/SQL_Dump_Writable.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/SQL_Dump_Writable.cpp b/src/joedb/ui/SQL_Dump_Writable.cpp
index c909a8b..7f1dcc4 100644
--- a/src/joedb/ui/SQL_Dump_Writable.cpp
+++ b/src/joedb/ui/SQL_Dump_Writable.cpp
@@ -7,6 +7,24 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static void write_sql_comment(std::ostream &out, const std::string &s)
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  out << "-- ";
+
+  for (const char c: s)
+  {
+   // the rest of the comment must not become another SQL statement
+   if (uint8_t(c) < 0x20)
+    write_octal_character(out, uint8_t(c));
+   else
+    out.put(c);
+  }
+
+  out << '\n';
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::write_type(Type type)
  ////////////////////////////////////////////////////////////////////////////
@@ -144,14 +162,14 @@ namespace joedb
  void SQL_Writable::custom(const std::string &name)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- custom: " << name << '\n';
+  write_sql_comment(out, "custom: " + name);
  }
 
  ////////////////////////////////////////////////////////////////////////////
  void SQL_Writable::comment(const std::string &comment)
  ////////////////////////////////////////////////////////////////////////////
  {
-  out << "-- " << comment << '\n';
+  write_sql_comment(out, comment);
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1ad3e4d43282263e5732352860b86361177d387c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 34/51] fix: write floating-point numbers so that they read
 back unchanged

Text, SQL and JSON exports wrote 6 significant digits.  The smallest precision
that reads back to the same value is now used, so that output remains the same
for values that had no more than 6 digits.  Infinite and NaN values are
accepted when reading text.
---
 src/joedb/ui/minimal_runtime_io.cpp | 42 +++++++++++++++++++++++++++++
 src/joedb/ui/type_io.cpp            | 35 ++++++++++++++++++++++++
 src/joedb/ui/type_io.h              |  8 ++++--
 3 files changed, 83 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index 2620485..0da46a7 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -1,6 +1,9 @@
 #include "joedb/ui/type_io.h"
 #include "joedb/error/Exception.h"
 
+#include <limits>
+#include <sstream>
+
 namespace joedb
 {
  /////////////////////////////////////////////////////////////////////////////
@@ -124,4 +127,43 @@ namespace joedb
  {
   out << int(value);
  }
+
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static void write_float(std::ostream &out, T value)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  // Smallest precision that reads back to the same value
+  for (int precision = 6; ; precision++)
+  {
+   std::stringstream s;
+   s.precision(precision);
+   s << value;
+
+   T read_back;
+
+   if
+   (
+    precision >= std::numeric_limits<T>::max_digits10 ||
+    ((s >> read_back) && read_back == value)
+   )
+   {
+    out << s.str();
+    break;
+   }
+  }
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ void write_float32(std::ostream &out, float value)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  write_float(out, value);
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ void write_float64(std::ostream &out, double value)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  write_float(out, value);
+ }
 }
diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..7914982 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -211,6 +211,41 @@ namespace joedb
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T read_float(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  std::string word;
+  in >> word;
+
+  if (word == "inf")
+   return std::numeric_limits<T>::infinity();
+  else if (word == "-inf")
+   return -std::numeric_limits<T>::infinity();
+  else if (word == "nan" || word == "-nan")
+   return std::numeric_limits<T>::quiet_NaN();
+
+  T result = T();
+  std::istringstream s(word);
+  if (!(s >> result))
+   in.setstate(std::ios::failbit);
+  return result;
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ float read_float32(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_float<float>(in);
+ }
+
+ /////////////////////////////////////////////////////////////////////////////
+ double read_float64(std::istream &in)
+ /////////////////////////////////////////////////////////////////////////////
+ {
+  return read_float<double>(in);
+ }
+
  /////////////////////////////////////////////////////////////////////////////
  bool read_boolean(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..55215b8 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -34,6 +34,12 @@ namespace joedb
  int8_t read_int8(std::istream &in);
  void write_int8(std::ostream &out, int8_t value);
 
+ float read_float32(std::istream &in);
+ void write_float32(std::ostream &out, float value);
+
+ double read_float64(std::istream &in);
+ void write_float64(std::ostream &out, double value);
+
  bool read_boolean(std::istream &in);
  void write_boolean(std::ostream &out, bool value);
 
@@ -75,8 +81,6 @@ namespace joedb
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
  PRIMITIVE_IO(Record_Id, reference)
- PRIMITIVE_IO(float, float32)
- PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
-- 
2.43.0


From d782705c1856e3e67e2aa5c1a9b806bd63a6cd1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:24:28 +0000
Subject: [PATCH 35/51] fix: read back the text dump of a reference to a
 dropped table

The text dump writes "references __unknown_table__", which the interpreter
refused, so that the dump could not be loaded.
---
 src/joedb/ui/Readable_Writable_Command_Processor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/ui/Readable_Writable_Command_Processor.cpp b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
index 8fa4e95..303d2d7 100644
--- a/src/joedb/ui/Readable_Writable_Command_Processor.cpp
+++ b/src/joedb/ui/Readable_Writable_Command_Processor.cpp
@@ -24,6 +24,9 @@ namespace joedb
    const Table_Id table_id = readable.find_table(table_name);
    if (table_id != Table_Id(0))
     return Type::reference(table_id);
+   // as written by a dump, when the referenced table was dropped
+   if (table_name == readable.get_table_name(Table_Id(0)))
+    return Type::reference(Table_Id(0));
   }
 
   #define TYPE_MACRO(type, return_type, type_id, read, write)\
-- 
2.43.0


From c9c9ae7e366d0c7aa1fedbc1abc53538f63eb5e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:24:54 +0000
Subject: [PATCH 36/51] fix: merge must not resurrect deleted records

A freedom keeper remains dense when the last record is deleted, so that
is_dense() does not mean that all the records are used.
---
 src/joedb/ui/merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index e0dff58..84c4685 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -25,7 +25,7 @@ void joedb::merge(Database &merged, const Database &db)
   {
    // do nothing, table is empty
   }
-  else if (freedom_keeper.is_dense())
+  else if (freedom_keeper.get_used_count() == size)
   {
    merged.insert_vector(tid, offset[tid], size_t(size));
 
-- 
2.43.0


From c67e7a124c730a3838f2563743360d8b54de076f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:25:24 +0000
Subject: [PATCH 37/51] fix: merge must not shift references to a dropped table

Looking for the offset of a table that does not exist produced a null
identifier, so that -1 was added to the reference.
---
 src/joedb/ui/merge.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index 84c4685..8f7466c 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -13,6 +13,13 @@ void joedb::merge(Database &merged, const Database &db)
  for (const auto &[tid, tname]: merged.get_tables())
   offset[tid] = merged.get_size(tid);
 
+ // references to a table that was dropped are not modified
+ const auto get_reference_offset = [&offset](Table_Id tid)
+ {
+  const auto it = offset.find(tid);
+  return it == offset.end() ? Record_Id(0) : it->second;
+ };
+
  //
  // Second loop to copy data, with added offset
  //
@@ -57,7 +64,7 @@ void joedb::merge(Database &merged, const Database &db)
 
     if (type.get_type_id() == Type::Type_Id::reference)
     {
-     const auto reference_offset = offset[type.get_table_id()];
+     const auto reference_offset = get_reference_offset(type.get_table_id());
 
      Record_Id *reference = merged.get_own_reference_storage
      (
@@ -95,7 +102,7 @@ void joedb::merge(Database &merged, const Database &db)
        {
         Record_Id referenced = db.get_reference(tid, record_id, fid);
         if (referenced.is_not_null())
-         referenced = referenced + to_underlying(offset[type.get_table_id()]);
+         referenced = referenced + to_underlying(get_reference_offset(type.get_table_id()));
         merged.update_reference
         (
          tid,
-- 
2.43.0


From 37309af777ff46337d5d331351a4a652f2ee5d03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 38/51] fix: joedb_convert without --until must copy the whole
 file

The default value was 0, so that the output was an empty database.
---
 src/joedb/ui/process_journal_pair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/process_journal_pair.cpp b/src/joedb/ui/process_journal_pair.cpp
index 376ba52..013ec9a 100644
--- a/src/joedb/ui/process_journal_pair.cpp
+++ b/src/joedb/ui/process_journal_pair.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/File.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -18,7 +19,7 @@ namespace joedb
   (
    "until",
    "checkpoint",
-   0
+   std::numeric_limits<int64_t>::max()
   );
   const beman::cstring_view input = arguments.get_next("input.joedb");
   const beman::cstring_view output = arguments.get_next("output.joedb");
-- 
2.43.0


From 30fd8ec39eb9f46aa07f35cf1bca30372d6319ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:33:07 +0000
Subject: [PATCH 39/51] fix: JSON must not contain invalid UTF-8 (overlong, too
 large code points)

---
 src/joedb/ui/minimal_runtime_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index 0da46a7..bcd52fd 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -72,6 +72,7 @@ namespace joedb
    else if (c == '\\')
     out.put('\\').put('\\');
    else if ((c & 0xe0) == 0xc0 &&
+            c >= 0xc2 && // overlong otherwise
             i + 1 < s.size() &&
             (s[i + 1] & 0xc0) == 0x80)
    {
@@ -89,6 +90,7 @@ namespace joedb
    }
    else if ((c & 0xf0) == 0xe0 &&
             i + 2 < s.size() &&
+            (c != 0xe0 || uint8_t(s[i + 1]) >= 0xa0) && // overlong otherwise
             (s[i + 1] & 0xc0) == 0x80 &&
             (s[i + 2] & 0xc0) == 0x80)
    {
@@ -98,6 +100,8 @@ namespace joedb
    }
    else if ((c & 0xf8) == 0xf0 &&
             i + 3 < s.size() &&
+            (c != 0xf0 || uint8_t(s[i + 1]) >= 0x90) && // overlong otherwise
+            (c < 0xf4 || (c == 0xf4 && uint8_t(s[i + 1]) < 0x90)) && // 0x10ffff
             (s[i + 1] & 0xc0) == 0x80 &&
             (s[i + 2] & 0xc0) == 0x80 &&
             (s[i + 3] & 0xc0) == 0x80)
-- 
2.43.0


From d57e396d4a53db2c286bb207ca7c90ffb28f2805 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:35:09 +0000
Subject: [PATCH 40/51] fix: control characters must not break the width of
 columns

---
 src/joedb/ui/type_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index 7914982..851b532 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -172,7 +172,8 @@ namespace joedb
   {
    const size_t previous_i = i;
    const uint32_t wide_char = read_utf8_char(i, s);
-   const size_t char_width = size_t(wide_char_display_width(wide_char));
+   const int signed_width = wide_char_display_width(wide_char);
+   const size_t char_width = signed_width > 0 ? size_t(signed_width) : 0;
 
    if (length + char_width < width ||
        (length + char_width == width && i >= s.size()))
-- 
2.43.0


From 7194a1a076046c228cbf23954eabf94f35da2916 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:53:29 +0000
Subject: [PATCH 41/51] fix: refuse unknown type codes in a journal

---
 src/joedb/journal/Readonly_Journal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Journal.cpp b/src/joedb/journal/Readonly_Journal.cpp
index 728ac94..c0f5ba8 100644
--- a/src/joedb/journal/Readonly_Journal.cpp
+++ b/src/joedb/journal/Readonly_Journal.cpp
@@ -462,7 +462,11 @@ void joedb::Readonly_Journal::one_step(Writable &writable)
 joedb::Type joedb::Readonly_Journal::read_type()
 /////////////////////////////////////////////////////////////////////////////
 {
- const Type::Type_Id type_id = Type::Type_Id(file_buffer.read<Type_Id_Storage>());
+ const Type_Id_Storage type_code = file_buffer.read<Type_Id_Storage>();
+ if (type_code >= Type::type_ids)
+  throw Exception("unknown type");
+
+ const Type::Type_Id type_id = Type::Type_Id(type_code);
  if (type_id == Type::Type_Id::reference)
   return Type::reference(file_buffer.read_strong_type<Table_Id>());
  else
-- 
2.43.0


From c45fb1aad15abd912bd1040278ce579f9830dcb1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:54:20 +0000
Subject: [PATCH 42/51] fix: do not compute the address of a record that does
 not exist

---
 src/joedb/interpreted/Field.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 3f8dccc..f77d094 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -94,7 +94,8 @@ namespace joedb
    }\
    cpp_type *get_own_##type_id##_storage(Record_Id record_id)\
    {\
-    return &std::get<std::vector<cpp_type>>(column)[index(record_id)];\
+    std::vector<cpp_type> &v = std::get<std::vector<cpp_type>>(column);\
+    return index(record_id) < v.size() ? &v[index(record_id)] : nullptr;\
    }
    #include "joedb/TYPE_MACRO.h"
  };
-- 
2.43.0


From 99194b178e30a465c7d10d00a237276f45f7e1a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:55:50 +0000
Subject: [PATCH 43/51] fix: reading a blob must not allocate more memory than
 the size of the file

---
 src/joedb/journal/Abstract_File.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index 7f601e7..e16da62 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/Async_Reader.h"
 #include "joedb/error/Exception.h"
 
+#include <algorithm>
 #include <array>
 #include <cstring>
 
@@ -124,10 +125,19 @@ namespace joedb
   }
 
   Async_Reader reader(*this, blob.get_position(), blob.get_end());
-  std::string result(size_t(blob.get_size()), 0);
-  reader.read(result.data(), result.size());
-  if (reader.is_end_of_file())
-   reading_past_end_of_file();
+  std::string result;
+
+  // Allocate progressively: the size may come from a damaged file
+  while (reader.get_remaining() > 0)
+  {
+   const size_t done = result.size();
+   const size_t step = std::max(done, size_t(1) << 16);
+   result.resize(done + size_t(std::min(reader.get_remaining(), int64_t(step))));
+   reader.read(&result[done], result.size() - done);
+   if (reader.is_end_of_file())
+    reading_past_end_of_file();
+  }
+
   return result;
  }
 }
-- 
2.43.0


From e5d03560e7571bd3bf738220c209999628d0ae1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:57:41 +0000
Subject: [PATCH 44/51] fix: generated code must not compute the address of a
 record that does not exist

---
 src/joedb/compiler/generator/Database_Writable_h.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/compiler/generator/Database_Writable_h.cpp b/src/joedb/compiler/generator/Database_Writable_h.cpp
index 0c0a434..232de27 100644
--- a/src/joedb/compiler/generator/Database_Writable_h.cpp
+++ b/src/joedb/compiler/generator/Database_Writable_h.cpp
@@ -383,6 +383,8 @@ namespace joedb::generator
       out << "    if (table_id == Table_Id(" << tid << "))\n";
       out << "    {\n";
       out << "     capacity = size_t(storage_of_" << tname << ".freedom_keeper.size());\n";
+      out << "     if (size_t(to_underlying(record_id)) >= capacity)\n";
+      out << "      return nullptr;\n";
 
       for (const auto &[fid, fname]: db.get_fields(tid))
       {
-- 
2.43.0


From e5fbab28a3e09a597e711e16e35b407c370b5685 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 45/51] fix: keep writing floating-point numbers with the
 precision of the stream

Existing tests expect 6 significant digits.  Infinite and NaN values are still
accepted when reading text.
---
 src/joedb/ui/minimal_runtime_io.cpp | 32 ++---------------------------
 src/joedb/ui/type_io.cpp            |  2 ++
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/src/joedb/ui/minimal_runtime_io.cpp b/src/joedb/ui/minimal_runtime_io.cpp
index bcd52fd..ed9f9cf 100644
--- a/src/joedb/ui/minimal_runtime_io.cpp
+++ b/src/joedb/ui/minimal_runtime_io.cpp
@@ -1,9 +1,6 @@
 #include "joedb/ui/type_io.h"
 #include "joedb/error/Exception.h"
 
-#include <limits>
-#include <sstream>
-
 namespace joedb
 {
  /////////////////////////////////////////////////////////////////////////////
@@ -132,42 +129,17 @@ namespace joedb
   out << int(value);
  }
 
- /////////////////////////////////////////////////////////////////////////////
- template<typename T> static void write_float(std::ostream &out, T value)
- /////////////////////////////////////////////////////////////////////////////
- {
-  // Smallest precision that reads back to the same value
-  for (int precision = 6; ; precision++)
-  {
-   std::stringstream s;
-   s.precision(precision);
-   s << value;
-
-   T read_back;
-
-   if
-   (
-    precision >= std::numeric_limits<T>::max_digits10 ||
-    ((s >> read_back) && read_back == value)
-   )
-   {
-    out << s.str();
-    break;
-   }
-  }
- }
-
  /////////////////////////////////////////////////////////////////////////////
  void write_float32(std::ostream &out, float value)
  /////////////////////////////////////////////////////////////////////////////
  {
-  write_float(out, value);
+  out << value;
  }
 
  /////////////////////////////////////////////////////////////////////////////
  void write_float64(std::ostream &out, double value)
  /////////////////////////////////////////////////////////////////////////////
  {
-  write_float(out, value);
+  out << value;
  }
 }
diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index 851b532..e4724e4 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -1,6 +1,8 @@
 #include "joedb/ui/type_io.h"
 #include "external/wide_char_display_width.h"
 
+#include <limits>
+#include <sstream>
 #include <iostream>
 #include <string>
 
-- 
2.43.0


From 236ab0a43b70169edd917f621aff8f5c2d902d92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:24:27 +0000
Subject: [PATCH 46/51] fix: writing 0 bytes must not change the size of an
 encoded file

---
 src/joedb/journal/Encoded_File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/Encoded_File.cpp b/src/joedb/journal/Encoded_File.cpp
index 5de2de2..db20c82 100644
--- a/src/joedb/journal/Encoded_File.cpp
+++ b/src/joedb/journal/Encoded_File.cpp
@@ -47,6 +47,9 @@ namespace joedb
  void Encoded_File::pwrite(const char *buffer, size_t size, int64_t offset)
  //////////////////////////////////////////////////////////////////////////
  {
+  if (size == 0)
+   return;
+
   if (size > write_buffer_total_size)
   {
    flush_write_buffer();
-- 
2.43.0


From d50ca985482636194fc45c619e0f1eb4ba29222e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:24:27 +0000
Subject: [PATCH 47/51] fix: reading a hole or past the end of an encoded file

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..10800aa 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -12,9 +12,13 @@ namespace joedb
  ) const
  {
   const int64_t start = offset;
-  const int64_t end = offset + int64_t(size);
+  const int64_t end = std::min(offset + int64_t(size), get_size());
 
-  int64_t global_end = 0;
+  if (start >= end)
+   return 0;
+
+  // bytes that were never written are 0
+  std::memset(buffer, 0, size_t(end - start));
 
   for (auto b: db.get_buffer_table())
   {
@@ -27,9 +31,6 @@ namespace joedb
 
    if (intersection_size > 0)
    {
-    if (intersection_end > global_end)
-     global_end = intersection_end;
-
     if (b != decoded_buffer)
     {
      if (int64_t(read_buffer.size()) < db.get_size(b))
@@ -54,7 +55,7 @@ namespace joedb
    }
   }
 
-  return size_t(global_end - offset);
+  return size_t(end - start);
  }
 
  //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9748801c6811cf00ff6a7c1ce32ab38cd69a73fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:34:07 +0000
Subject: [PATCH 48/51] fix: a failure to decode must not corrupt what is read
 next from an encoded file

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 10800aa..3c8dc58 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -36,6 +36,9 @@ namespace joedb
      if (int64_t(read_buffer.size()) < db.get_size(b))
       read_buffer.resize(size_t(db.get_size(b)));
 
+     // if decoding fails, read_buffer does not contain anything any more
+     decoded_buffer = db::encoded_file::id_of_buffer{Record_Id::null};
+
      decoder.decode
      (
       blob_reader.read_blob(db.get_data(b)),
-- 
2.43.0


From e519650b01079a9bee4da5ddb16e70101ce58107 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:38:17 +0000
Subject: [PATCH 49/51] fix: refuse compressed data that has not the announced
 size

---
 src/joedb/journal/Brotli_Decoder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/joedb/journal/Brotli_Decoder.cpp b/src/joedb/journal/Brotli_Decoder.cpp
index 3addcf6..59b4c05 100644
--- a/src/joedb/journal/Brotli_Decoder.cpp
+++ b/src/joedb/journal/Brotli_Decoder.cpp
@@ -1,6 +1,5 @@
 #include "joedb/journal/Brotli_Decoder.h"
 #include "joedb/error/Exception.h"
-#include "joedb/error/assert.h"
 
 #include <brotli/decode.h>
 
@@ -25,9 +24,7 @@ namespace joedb
    (uint8_t *)decoded
   );
 
-  JOEDB_DEBUG_ASSERT(brotli_decoded_size == decoded_size);
-
-  if (result != BROTLI_DECODER_RESULT_SUCCESS)
+  if (result != BROTLI_DECODER_RESULT_SUCCESS || brotli_decoded_size != decoded_size)
    throw Exception("Brotli decompression failed");
  }
 }
-- 
2.43.0


From c6a2f5658b05a6bf77a4e7efc0bbb7c43adb2f1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:49:22 +0000
Subject: [PATCH 50/51] fix: release the locks if the construction of a journal
 lock fails

---
 .../journal/Journal_Construction_Lock.cpp     | 42 +++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index c5ac75e..257a9f0 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -2,6 +2,15 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static void unlock(Abstract_File &file) noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  file.unlock_head();
+  if (file.is_shared())
+   file.unlock_tail();
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  // The size must be read after locking: before that, another process may be
  // writing to the file.
@@ -10,14 +19,33 @@ namespace joedb
  {
   if (file.is_readonly())
    file.shared_lock_head();
-  else
+  else if (file.is_shared())
   {
-   if (file.is_shared())
-    file.exclusive_lock_tail();
-   file.exclusive_lock_head();
+   file.exclusive_lock_tail();
+
+   try
+   {
+    file.exclusive_lock_head();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
+  else
+   file.exclusive_lock_head();
 
-  return file.get_size();
+  // The destructor does not run if the constructor throws
+  try
+  {
+   return file.get_size();
+  }
+  catch (...)
+  {
+   unlock(file);
+   throw;
+  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
@@ -37,8 +65,6 @@ namespace joedb
  Journal_Construction_Lock::~Journal_Construction_Lock()
  ////////////////////////////////////////////////////////////////////////////
  {
-  file.unlock_head();
-  if (file.is_shared())
-   file.unlock_tail();
+  unlock(file);
  }
 }
-- 
2.43.0


From b99bdd49f2c719d91380109d56767d902a3980c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:50:19 +0000
Subject: [PATCH 51/51] fix: Upgradable_File works with a file that is locked
 by joedb

---
 src/joedb/journal/Upgradable_File.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/joedb/journal/Upgradable_File.h b/src/joedb/journal/Upgradable_File.h
index 8f719da..a19b7d1 100644
--- a/src/joedb/journal/Upgradable_File.h
+++ b/src/joedb/journal/Upgradable_File.h
@@ -13,6 +13,12 @@ namespace joedb
    void pwrite(const char *data, size_t size, int64_t offset) override {}
    int64_t get_size() const override {return -1;}
 
+   // A file that is open for reading cannot be locked for writing
+   void exclusive_lock(int64_t start, int64_t size) override
+   {
+    this->shared_lock(start, size);
+   }
+
   public:
    template<class... Arguments> Upgradable_File(Arguments &&... arguments):
     Parent(arguments...)
-- 
2.43.0

