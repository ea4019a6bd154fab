From b4987c69ad88c773d62a8d2f5263fec9ff28393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 01/36] fix: pass .debug_str and .debug_str_offsets to the line
 reader from their own sections

---
 util/symbolize/addr2line_inlinestack.cc |  8 ++++----
 util/symbolize/functioninfo.cc          | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..94d752c 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..2b35386 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -257,15 +257,15 @@ void CUFunctionInfoHandler::ProcessAttributeUnsigned(uint64 offset,
     const char* str_buffer = NULL;
     uint64 str_buffer_size = 0;
     if (str_section != sections_.end()) {
-      str_buffer = line_str->second.first;
-      str_buffer_size = line_str->second.second;
+      str_buffer = str_section->second.first;
+      str_buffer_size = str_section->second.second;
     }
-    SectionMap::const_iterator str_offset = sections_.find(".debug_line_str");
+    SectionMap::const_iterator str_offset = sections_.find(".debug_str_offsets");
     const char* str_offset_buffer = NULL;
     uint64 str_offset_size = 0;
     if (str_offset != sections_.end()) {
-      str_offset_buffer = line_str->second.first;
-      str_offset_size = line_str->second.second;
+      str_offset_buffer = str_offset->second.first;
+      str_offset_size = str_offset->second.second;
     }                    
     LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                       line_str_buffer, line_str_size,
-- 
2.43.0


From 21e0d068683f16b705a364f9dfdd96e89e992c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 02/36] fix: do not build strings from the null pointer
 gcov_read_string returns

---
 profile_reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profile_reader.cc b/profile_reader.cc
index a8880d5..9678bf8 100644
--- a/profile_reader.cc
+++ b/profile_reader.cc
@@ -133,12 +133,15 @@ void AutoFDOProfileReader::ReadNameTable() {
   if (absl::GetFlag(FLAGS_gcov_version) >= 3) {
     uint32_t file_name_vector_size = gcov_read_unsigned();
     for (uint32_t i = 0; i < file_name_vector_size; i++) {
-      file_names_.push_back(gcov_read_string());
+      // An empty string record reads back as a null pointer.
+      const char *file_name = gcov_read_string();
+      file_names_.push_back(file_name ? file_name : "");
     }
   }
   uint32_t name_vector_size = gcov_read_unsigned();
   for (uint32_t i = 0; i < name_vector_size; i++) {
-   std::string name = gcov_read_string();
+    const char *raw_name = gcov_read_string();
+    std::string name = raw_name ? raw_name : "";
     uint32_t file_index =
         absl::GetFlag(FLAGS_gcov_version) >= 3 ? gcov_read_unsigned() : -1;
     names_.emplace_back(name, file_index);
-- 
2.43.0


From 40e3e3e1883dbbb82f07b2d0b43d448b30cdc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 03/36] fix: tolerate DIE references that name no known
 subprogram

---
 util/symbolize/addr2line_inlinestack.cc | 51 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 94d752c..923d6d5 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -153,20 +153,20 @@ void InlineStackHandler::CleanupUnusedSubprograms() {
     worklist.pop_back();
     uint64 specification = info->specification();
     uint64 abstract_origin = info->abstract_origin();
+    // The referenced offsets come from the file, they may not name a known
+    // subprogram.
     if (specification) {
-      SubprogramInfo *info =
-          subprograms_by_offset->find(specification)->second;
-      if (!info->used()) {
-        info->set_used();
-        worklist.push_back(info);
+      auto it = subprograms_by_offset->find(specification);
+      if (it != subprograms_by_offset->end() && !it->second->used()) {
+        it->second->set_used();
+        worklist.push_back(it->second);
       }
     }
     if (abstract_origin) {
-      SubprogramInfo *info =
-          subprograms_by_offset->find(abstract_origin)->second;
-      if (!info->used()) {
-        info->set_used();
-        worklist.push_back(info);
+      auto it = subprograms_by_offset->find(abstract_origin);
+      if (it != subprograms_by_offset->end() && !it->second->used()) {
+        it->second->set_used();
+        worklist.push_back(it->second);
       }
     }
   }
@@ -720,16 +720,17 @@ const SubprogramInfo *InlineStackHandler::GetDeclaration(
   SubprogramsByOffsetMap* subprograms_by_offset =
       subprograms_by_offset_maps_[input_file_index];
   while (declaration->name().empty() || declaration->callsite_line() == 0) {
-    uint64 specification = declaration->specification();
-    if (specification) {
-      declaration = subprograms_by_offset->find(specification)->second;
-    } else {
-      uint64 abstract_origin = declaration->abstract_origin();
-      if (abstract_origin)
-        declaration = subprograms_by_offset->find(abstract_origin)->second;
-      else
-        break;
+    uint64 reference = declaration->specification();
+    if (!reference)
+      reference = declaration->abstract_origin();
+    if (!reference)
+      break;
+    auto it = subprograms_by_offset->find(reference);
+    if (it == subprograms_by_offset->end()) {
+      LOG(WARNING) << "No subprogram at referenced offset " << reference;
+      break;
     }
+    declaration = it->second;
   }
   return declaration;
 }
@@ -740,10 +741,14 @@ const SubprogramInfo *InlineStackHandler::GetAbstractOrigin(
   CHECK(input_file_index < subprograms_by_offset_maps_.size());
   SubprogramsByOffsetMap* subprograms_by_offset =
       subprograms_by_offset_maps_[input_file_index];
-  if (subprog->abstract_origin())
-    return subprograms_by_offset->find(subprog->abstract_origin())->second;
-  else
-    return subprog;
+  if (subprog->abstract_origin()) {
+    auto it = subprograms_by_offset->find(subprog->abstract_origin());
+    if (it != subprograms_by_offset->end())
+      return it->second;
+    LOG(WARNING) << "No subprogram at abstract origin "
+                 << subprog->abstract_origin();
+  }
+  return subprog;
 }
 
 void InlineStackHandler::GetSubprogramAddresses(std::set<uint64> *addrs) {
-- 
2.43.0


From 2191482a380c7e8c06623e8a2f856d9798b2545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 04/36] fix: do not compare null section names

---
 util/symbolize/dwarf2reader.cc | 4 ++++
 util/symbolize/elf_reader.cc   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..4f7f6e4 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1157,6 +1157,10 @@ void DwpReader::ReadDebugSectionsForCU(uint64 dwo_id,
       if (shndx == 0)
         break;
       const char* section_name = elf_reader_->GetSectionName(shndx);
+      if (section_name == NULL) {
+        LOG(WARNING) << ".debug_cu_index names a nonexistent section " << shndx;
+        continue;
+      }
       size_t section_size;
       const char* section_data;
       // We're only interested in these four debug sections.
diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 9787c11..f2ed566 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -485,7 +485,7 @@ class ElfReaderImpl {
     // direction of iteration.
     for (int k = GetNumSections() - 1; k >= 0; --k) {
       const char *name = GetSectionName(section_headers_[k].sh_name);
-      if (strncmp(name, ".debug", strlen(".debug")) == 0)
+      if (name != NULL && strncmp(name, ".debug", strlen(".debug")) == 0)
         return true;
     }
     return false;
-- 
2.43.0


From 80175bdfa549368c68d3a6c65660fd6439807915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 05/36] fix: initialise every member in constructors

---
 instruction_map.h                      |  2 +-
 symbol_map.h                           | 11 ++++++++---
 util/symbolize/addr2line_inlinestack.h |  3 ++-
 util/symbolize/dwarf2reader.cc         |  6 ++++--
 util/symbolize/dwarf2reader.h          |  2 +-
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/instruction_map.h b/instruction_map.h
index 852d0fd..09242d0 100644
--- a/instruction_map.h
+++ b/instruction_map.h
@@ -30,7 +30,7 @@ class InstructionMap {
   //           according to the debug info of each instruction.
   InstructionMap(Addr2line *addr2line,
                  SymbolMap *symbol)
-      : symbol_map_(symbol), addr2line_(addr2line) {
+      : symbol_map_(symbol), addr2line_(addr2line), start_addr_(0) {
   }
 
   // This type is neither copyable nor movable.
diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..2c54af6 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -164,7 +164,8 @@ class Symbol {
         total_count_incl(src->total_count_incl),
         head_count(src->head_count),
         callsites(0),
-        pos_counts() {
+        pos_counts(),
+        timestamp(src->timestamp) {
     info.func_name = new_func_name;
   }
 
@@ -173,7 +174,8 @@ class Symbol {
         total_count_incl(0),
         head_count(0),
         callsites(0),
-        pos_counts() {}
+        pos_counts(),
+        timestamp(0) {}
 
   ~Symbol();
 
@@ -278,7 +280,10 @@ class SymbolMap {
     }
   }
 
-  SymbolMap() : count_threshold_(0), suffix_elision_policy_(ElideAll) {
+  SymbolMap()
+      : count_threshold_(0),
+        ignore_thresholds_(false),
+        suffix_elision_policy_(ElideAll) {
     initSuffixElisionPolicy();
   }
 
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..1c9c90b 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -175,9 +175,10 @@ class InlineStackHandler: public Dwarf2Handler {
         address_ranges_(address_ranges),
         subprogram_stack_(), die_stack_(),
         input_file_index_(-1), subprograms_by_offset_maps_(),
+        compilation_unit_offset_(0), compilation_unit_base_(0),
         compilation_unit_comp_dir_(), sampled_functions_(sampled_functions),
         overlap_count_(0), have_two_level_line_tables_(false),
-        subprogram_added_by_cu_(false)
+        subprogram_added_by_cu_(false), dwarf_version_(0)
   { }
 
   virtual bool StartCompilationUnit(uint64 offset, uint8 address_size,
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 4f7f6e4..0ecdd8b 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -36,7 +36,8 @@ namespace devtools_crosstool_autofdo {
 CompilationUnit::CompilationUnit(const string& path,
                                  const SectionMap& sections, uint64 offset,
                                  ByteReader* reader, Dwarf2Handler* handler)
-    : path_(path), offset_from_section_start_(offset), reader_(reader),
+    : path_(path), offset_from_section_start_(offset),
+      buffer_(NULL), buffer_length_(0), after_header_(NULL), reader_(reader),
       sections_(sections), handler_(handler), abbrevs_(NULL),
       string_buffer_(NULL), string_buffer_length_(0),
       line_str_buffer_(NULL), line_str_buffer_length_(0),
@@ -49,7 +50,8 @@ CompilationUnit::CompilationUnit(const string& path,
 CompilationUnit::CompilationUnit(const string& path, const string& dwp_path,
                                  const SectionMap& sections, uint64 offset,
                                  ByteReader* reader, Dwarf2Handler* handler)
-    : path_(path), offset_from_section_start_(offset), reader_(reader),
+    : path_(path), offset_from_section_start_(offset),
+      buffer_(NULL), buffer_length_(0), after_header_(NULL), reader_(reader),
       sections_(sections), handler_(handler), abbrevs_(),
       string_buffer_(NULL), string_buffer_length_(0),
       line_str_buffer_(NULL), line_str_buffer_length_(0),
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..6fc03ea 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -345,7 +345,7 @@ class LineInfoHandler {
 
 class Dwarf2Handler {
  public:
-  Dwarf2Handler() { }
+  Dwarf2Handler() : ranges_base_(0), addr_base_(0), str_offset_base_(0) { }
 
   virtual ~Dwarf2Handler() { }
 
-- 
2.43.0


From c751d5923649fdcfac718da318e53e577c3676ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 06/36] fix: skip DW_FORM_line_strp attributes instead of
 aborting

---
 util/symbolize/dwarf2reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 0ecdd8b..6973a69 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -271,6 +271,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
       break;
     case DW_FORM_strp:
     case DW_FORM_strp_sup:
+    case DW_FORM_line_strp:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
       break;
-- 
2.43.0


From 766bc9d927afb5ab6a0cacd8b8b054ca56e0c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 07/36] fix: advance by the encoded size of DW_FORM_addrx
 attributes and use the two-byte index

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 6973a69..06d38e0 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -810,7 +810,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -818,7 +818,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -845,7 +845,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From 8ca4ca139591d94a6d926deb2e8c2f7ec1f2cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 08/36] fix: decode DW_FORM_implicit_const values as signed
 LEB128

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 util/symbolize/dwarf2reader.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 06d38e0..3ee43ec 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -146,10 +146,10 @@ void CompilationUnit::ReadAbbrevs() {
       const enum DwarfAttribute name =
         static_cast<enum DwarfAttribute>(nametemp);
       const enum DwarfForm form = static_cast<enum DwarfForm>(formtemp);
-      uint32 value = 0;
+      int64 value = 0;
       if (form == DW_FORM_implicit_const) {
           DCHECK(abbrevptr < abbrev_start + abbrev_length);
-          value = reader_->ReadUnsignedLEB128(abbrevptr, &len);
+          value = reader_->ReadSignedLEB128(abbrevptr, &len);
           abbrevptr += len;
       }
 
@@ -609,7 +609,7 @@ uint64 CompilationUnit::Start() {
 // This is all boring data manipulation and calling of the handler.
 const char* CompilationUnit::ProcessAttribute(
     uint64 dieoffset, const char* start, enum DwarfAttribute attr,
-    enum DwarfForm form, uint32 value) {
+    enum DwarfForm form, int64 value) {
   size_t len;
 
   switch (form) {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 6fc03ea..04e9a84 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -48,7 +48,7 @@ struct AttributeSpec {
     enum DwarfAttribute name;
     enum DwarfForm form;
     // For the special case of DW_FORM_implicit_const
-    uint32 value;
+    int64 value;
 };
 
 
@@ -576,7 +576,7 @@ class CompilationUnit {
                                const char* start,
                                enum DwarfAttribute attr,
                                enum DwarfForm form,
-                               uint32 value = 0);
+                               int64 value = 0);
 
   // Called when we have an attribute with unsigned data to give to
   // our handler.  The attribute is for the DIE at OFFSET from the
-- 
2.43.0


From 7dc795e1b13a8323d4c829aec4fe219cb4bbcd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 09/36] fix: do not divide by a zero line_range

---
 util/symbolize/dwarf2reader.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 3ee43ec..d3843e1 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1884,10 +1884,11 @@ bool LineInfo::ProcessOneOpcode(
   // opcode. Most line programs consist mainly of special opcodes.
   if (opcode >= header.opcode_base) {
     opcode -= header.opcode_base;
-    const int64 advance_address = (opcode / header.line_range)
-                                  * header.min_insn_length;
-    const int64 advance_line = (opcode % header.line_range)
-                               + header.line_base;
+    // A zero line_range is invalid; do not divide by it.
+    const int64 advance_address = header.line_range == 0 ? 0
+        : (opcode / header.line_range) * header.min_insn_length;
+    const int64 advance_line = header.line_range == 0 ? header.line_base
+        : (opcode % header.line_range) + header.line_base;
 
     lsm->address += advance_address;
     lsm->line_num += advance_line;
@@ -1943,9 +1944,9 @@ bool LineInfo::ProcessOneOpcode(
     }
       break;
     case DW_LNS_const_add_pc: {
-      const int64 advance_address = header.min_insn_length
-                                    * ((255 - header.opcode_base)
-                                       / header.line_range);
+      const int64 advance_address = header.line_range == 0 ? 0
+          : header.min_insn_length
+            * ((255 - header.opcode_base) / header.line_range);
       lsm->address += advance_address;
     }
       break;
-- 
2.43.0


From 8c784389af7fd4b8ba6e1565771c24d71f88234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 10/36] fix: number DWARF 5 line table files and directories
 from 0

---
 util/symbolize/dwarf2reader.cc |  8 ++++----
 util/symbolize/functioninfo.cc | 10 +++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index d3843e1..2165484 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1619,7 +1619,7 @@ void LineInfo::ReadHeader() {
     header_.actuals_offset = 0;
   } 
   else if (header_.version == 5) {
-    // Read the DWARF-5 directory table.
+    // Read the DWARF-5 directory table. Its entries are numbered from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1636,7 +1636,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1657,7 +1657,7 @@ void LineInfo::ReadHeader() {
       }
     }
 
-    // Read the DWARF-5 filename table.
+    // Read the DWARF-5 filename table. Its entries are numbered from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1674,7 +1674,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index 2b35386..da00764 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -85,6 +85,11 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  // A DWARF 5 table defines entry 0, for which Init() left a placeholder.
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +101,10 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  // A DWARF 5 table defines entry 0, for which Init() left a placeholder.
+  if (file_num == 0) {
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 8618bceaaeba0756a097b102d732eb32fd90351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 11/36] fix: hand .debug_str_offsets to the symbolizer

---
 legacy_addr2line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..45a614d 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
-- 
2.43.0


From 56c160c1bb648ca8ddf66de68ee3da82101f7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 12/36] fix: accept MD5 columns of DWARF 5 file tables

---
 util/symbolize/dwarf2reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 2165484..19943b2 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1690,6 +1690,12 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
+          } else if (content_types[col] == DW_LNCT_MD5 &&
+                     content_forms[col] == DW_FORM_data16) {
+            // The checksum is not used.
+            if (!AdvanceLinePtr(16, &lineptr)) {
+              return;
+            }
           } else {
             malformed_ = true;
             return;
-- 
2.43.0


From c0eb855a880ec16783fbd24d8770ceb492fef9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 13/36] fix: accept calls from file 0 in DWARF 5 units

---
 util/symbolize/addr2line_inlinestack.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 923d6d5..d3524d3 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,10 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        // File 0 is the primary source file since DWARF 5, no file before.
+        if (file_names_ != NULL &&
+            ((data == 0 && dwarf_version_ < 5) ||
+             data >= file_names_->size())) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +471,10 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        // File 0 is the primary source file since DWARF 5, no file before.
+        if (file_names_ != NULL &&
+            ((data == 0 && dwarf_version_ < 5) ||
+             data >= file_names_->size())) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
-- 
2.43.0


From ac3ddc1348b0881209d48ba75f5e9b0df7b37921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 14/36] fix: do not read the file name of a call site that has
 none

---
 legacy_addr2line.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 45a614d..66c55aa 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -245,7 +245,10 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     if (start_line == 0)
       start_line = subprog->callsite_line();
 
-    dir_name = subprog->callsite_directory();
+    // A call site may come without a (valid) file.
+    const char *call_dir = subprog->callsite_directory();
+    const char *call_file = subprog->callsite_filename();
+    dir_name = call_dir != nullptr ? call_dir : "";
     if (!dir_name.is_absolute()) {
       if (subprog->comp_directory()) {
         dir_name = subprog->comp_directory() / dir_name;
@@ -257,7 +260,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     stack->push_back(SourceInfo(
         canonical_parent->name().c_str(),
         dir_name,
-        subprog->callsite_filename(),
+        call_file != nullptr ? call_file : "",
         start_line,
         subprog->callsite_line(),
         subprog->callsite_discr()));
-- 
2.43.0


From ef3e610ad119354df43dcb4dd0d827d001657598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 15/36] fix: do not take a range-list index for the unit's
 range base

---
 util/symbolize/addr2line_inlinestack.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index d3524d3..1860b4c 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -445,6 +445,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         str_offset_base_ = data;
         break;
       case DW_AT_ranges: 
+        // An index into the unit's range lists says nothing about their base.
+        if (form == DW_FORM_rnglistx)
+          break;
         CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
         FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
-- 
2.43.0


From 9112bf42aba390aa058bce8e07813b56061061f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 16/36] fix: do not add the base address to absolute range-list
 entries

---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From f9719f332a49bf71558a479bf0ae9ce2929af535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 17/36] fix: resolve address indices of range lists against the
 unit's address table

---
 util/symbolize/addr2line_inlinestack.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 1860b4c..af27212 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -354,7 +354,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
-- 
2.43.0


From a0fc57612e9bfb773f2d503984376cc442241a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 18/36] fix: keep 64-bit range-list offsets whole

---
 util/symbolize/dwarf3ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf3ranges.h b/util/symbolize/dwarf3ranges.h
index fc0299c..2c3153d 100644
--- a/util/symbolize/dwarf3ranges.h
+++ b/util/symbolize/dwarf3ranges.h
@@ -56,7 +56,7 @@ struct RngListsData {
   uint8 segment_selector_size;
   uint32 offset_entry_count;
   uint64 rnglist_base_;
-  std::vector<uint32> offset_list_;
+  std::vector<uint64> offset_list_;
 };
 
 // This class represents a DWARF3 non-contiguous address range.  The
-- 
2.43.0


From f0ff626e0e9af38176489ce1928937feee122adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 19/36] fix: record line numbers and discriminators in every
 constant form

---
 util/symbolize/addr2line_inlinestack.cc | 54 ++++++-------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index af27212..3fe46a3 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -299,15 +299,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;  
       }
       case DW_AT_call_line:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
       case DW_AT_GNU_discriminator:
-        CHECK(form == DW_FORM_data1 ||
-              form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
         subprogram_stack_.back()->set_callsite_discr(data);
         break;
       case DW_AT_abstract_origin:
@@ -470,42 +464,18 @@ void InlineStackHandler::ProcessAttributeSigned(
     enum DwarfForm form,
     int64 data) {
 
-    switch (attr) {
-      case DW_AT_call_file: {
-        CHECK(form == DW_FORM_implicit_const);
-
-        // File 0 is the primary source file since DWARF 5, no file before.
-        if (file_names_ != NULL &&
-            ((data == 0 && dwarf_version_ < 5) ||
-             data >= file_names_->size())) {
-          LOG(WARNING) << "unexpected reference to file_num " << data;
-          break;
-        }
-
-        if (file_names_ != NULL) {
-          const FileVector::value_type &file =
-              (*file_names_)[data];
-          if (directory_names_ != NULL) {
-            if (file.first < directory_names_->size()) {
-              const char *dir = (*directory_names_)[file.first];
-              subprogram_stack_.back()->set_callsite_directory(dir);
-            } else {
-              LOG(WARNING) << "unexpected reference to dir_num " << file.first;
-            }
-          }
-          subprogram_stack_.back()->set_callsite_filename(file.second);
-        }
-        break;
-      }
-      case DW_AT_call_line:
-        CHECK(form == DW_FORM_implicit_const);
-        subprogram_stack_.back()->set_callsite_line(data);
-        break;
-
-      default:
-        break;
-    }      
-
+  // Constants mean the same in a signed encoding (DW_FORM_implicit_const,
+  // DW_FORM_sdata).
+  switch (attr) {
+    case DW_AT_call_file:
+    case DW_AT_call_line:
+    case DW_AT_decl_line:
+    case DW_AT_GNU_discriminator:
+      ProcessAttributeUnsigned(offset, attr, form, data);
+      break;
+    default:
+      break;
+  }
 }
 
 void InlineStackHandler::FindBadSubprograms(
-- 
2.43.0


From 24044593d2997470acee7bddd664a2bad59d0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 20/36] fix: accept every unit-relative reference form for
 origins and specifications

---
 util/symbolize/addr2line_inlinestack.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 3fe46a3..d20de34 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -308,7 +308,6 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_abstract_origin(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
           subprogram_stack_.back()->set_abstract_origin(
             compilation_unit_offset_ + data);
         }
@@ -317,7 +316,6 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         if (form == DW_FORM_ref_addr) {
           subprogram_stack_.back()->set_specification(data);
         } else {
-          CHECK(form == DW_FORM_ref4);
           subprogram_stack_.back()->set_specification(
               compilation_unit_offset_ + data);
         }
-- 
2.43.0


From 646065df503f0876f6a58808513df4d7eb5e39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 21/36] fix: treat an indexed DW_AT_high_pc as an address

---
 util/symbolize/addr2line_inlinestack.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index d20de34..6851953 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -338,8 +338,13 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         }
         break;
       case DW_AT_high_pc:
+        // A constant is the size of the function, an address (in the section or
+        // through the address table) is its end.
         subprogram_stack_.back()->SetSingletonRangeHigh(
-            data, form != DW_FORM_addr);
+            data, !(form == DW_FORM_addr || form == DW_FORM_addrx ||
+                    form == DW_FORM_addrx1 || form == DW_FORM_addrx2 ||
+                    form == DW_FORM_addrx3 || form == DW_FORM_addrx4 ||
+                    form == DW_FORM_GNU_addr_index));
         break;
       case DW_AT_ranges: {
         CHECK_EQ(0, subprogram_stack_.back()->address_ranges()->size());
-- 
2.43.0


From 77d15609c41fa2373cbc8afd11cf4b431f5e5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 22/36] fix: accept a function size given in a signed form

---
 util/symbolize/addr2line_inlinestack.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 6851953..c851814 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -474,6 +474,7 @@ void InlineStackHandler::ProcessAttributeSigned(
     case DW_AT_call_line:
     case DW_AT_decl_line:
     case DW_AT_GNU_discriminator:
+    case DW_AT_high_pc:
       ProcessAttributeUnsigned(offset, attr, form, data);
       break;
     default:
-- 
2.43.0


From 72259d2da0d9788d1d6a7324e46423765090b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 23/36] fix: report a profile file that cannot be closed

---
 gcov.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index f16437b..c2af303 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -87,7 +87,9 @@ int gcov_close(void) {
     if (gcov_var.byte_offset && gcov_var.mode < 0) {
       gcov_write_block(gcov_var.byte_offset);
     }
-    fclose(gcov_var.file);
+    if (fclose(gcov_var.file) != 0) {
+      gcov_var.error = 1;
+    }
     gcov_var.file = 0;
     gcov_var.byte_length = 0;
   }
-- 
2.43.0


From 99dd314364ba94de215f52b6b7c5c23c19c9d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 24/36] fix: notice that a profile file cannot be opened

---
 profile_reader.cc | 3 ++-
 profile_writer.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/profile_reader.cc b/profile_reader.cc
index 9678bf8..cb0f9da 100644
--- a/profile_reader.cc
+++ b/profile_reader.cc
@@ -160,7 +160,8 @@ void AutoFDOProfileReader::ReadWorkingSet() {
 }
 
 bool AutoFDOProfileReader::ReadFromFile(const std::string &output_file) {
-  CHECK_NE(gcov_open(output_file.c_str(), 1), -1);
+  CHECK(gcov_open(output_file.c_str(), 1))
+      << "Cannot open file " << output_file;
 
   // Read tags
   CHECK_EQ(gcov_read_unsigned(), GCOV_DATA_MAGIC) << output_file;
diff --git a/profile_writer.cc b/profile_writer.cc
index 3b5323d..f7f4349 100644
--- a/profile_writer.cc
+++ b/profile_writer.cc
@@ -35,7 +35,7 @@ ABSL_FLAG(bool, debug_dump, false,
 namespace devtools_crosstool_autofdo {
 // Opens the output file, and writes the header.
 bool AutoFDOProfileWriter::WriteHeader(const std::string &output_filename) {
-  if (gcov_open(output_filename.c_str(), -1) == -1) {
+  if (!gcov_open(output_filename.c_str(), -1)) {
     LOG(FATAL) << "Cannot open file " << output_filename;
     return false;
   }
-- 
2.43.0


From 0653ccade5409261c33475c861228da63fb8c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 25/36] fix: write an absent string as a record of length zero

---
 gcov.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcov.cc b/gcov.cc
index c2af303..7e7530a 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -165,10 +165,14 @@ void gcov_write_string(const char *string) {
       buffer = gcov_write_words(1 + alloc);
       buffer[alloc] = 0;
     }
+  } else {
+    buffer = gcov_write_words(1);
   }
 
   buffer[0] = alloc;
-  memcpy(&buffer[1], string, length);
+  if (string) {
+    memcpy(&buffer[1], string, length);
+  }
 }
 
 static inline const char *gcov_read_bytes(unsigned bytes) {
-- 
2.43.0


From 4c7dfb44a3f7ae78b165bef4305971913e2b9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 26/36] fix: keep the first-execution timestamp when symbols
 are merged

---
 symbol_map.cc | 5 ++++-
 symbol_map.h  | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..428a464 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -142,6 +142,7 @@ Symbol::~Symbol() {
 void Symbol::Merge(const Symbol *other) {
   total_count += other->total_count;
   head_count += other->head_count;
+  MergeTimestamp(other->timestamp);
   if (info.file_name.empty()) {
     info.file_name = other->info.file_name;
     info.dir_name = other->info.dir_name;
@@ -209,6 +210,7 @@ void Symbol::FlatMerge(const Symbol *src) {
   }
   total_count += src_total_count;
   head_count += src->head_count;
+  MergeTimestamp(src->timestamp);
 }
 
 void SymbolMap::initSuffixElisionPolicy() {
@@ -527,7 +529,7 @@ void SymbolMap::AddSymbolEntryCount(absl::string_view symbol_name,
 
 void SymbolMap::AddSymbolTimestamp(absl::string_view symbol_name, uint64_t timestamp) {
   Symbol *symbol = map_.find(symbol_name)->second;
-  symbol->timestamp = timestamp;
+  symbol->MergeTimestamp(timestamp);
 }
 
 Symbol *SymbolMap::TraverseInlineStack(absl::string_view symbol_name,
@@ -1295,6 +1297,7 @@ void Symbol::PopulateSymbolRetainingHotInlineStacks(Symbol &other,
                                                     uint64_t &num_flattened) {
   total_count += other.total_count;
   head_count += other.head_count;
+  MergeTimestamp(other.timestamp);
   if (info.file_name.empty()) {
     info.file_name = other.info.file_name;
     info.dir_name = other.info.dir_name;
diff --git a/symbol_map.h b/symbol_map.h
index 2c54af6..eefac25 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -248,6 +248,11 @@ class Symbol {
   PositionCountMap pos_counts;
   // timestamp of first executed instruction
   uint64_t timestamp;
+
+  // Keeps the earlier of the known (nonzero) timestamps.
+  void MergeTimestamp(uint64_t other) {
+    if (other != 0 && (timestamp == 0 || other < timestamp)) timestamp = other;
+  }
 };
 
 // Vector of unique pointers to symbols.
-- 
2.43.0


From 6f06c3deade314fd52b94e573be9f60a96b3c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 27/36] fix: add up indirect call targets when several profiles
 are read

---
 symbol_map.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 428a464..384589e 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -603,8 +603,15 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // As in AddSourceCount: when reading afdo profiles, merge the counts.
+  if (data_source == PERFDATA || data_source == AFDOPROTO) {
+    target_count = count;
+  } else {
+    target_count += count;
+  }
   return true;
 }
 
-- 
2.43.0


From 7178f6a433c5a06c07ad7a793310c6680b386f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 28/36] fix: keep build ID notes within their section

---
 util/symbolize/elf_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index f2ed566..ef9687b 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -894,10 +894,12 @@ string ElfReader::GetBuildId() {
     const char *c_note_end = c_note + size;
     while (c_note + note_size < c_note_end) {
       const auto *id_note = reinterpret_cast<const BuildIdNoteSection*>(c_note);
-      if (size >= sizeof(*id_note) &&
+      const size_t remaining = c_note_end - c_note;
+      if (remaining >= sizeof(*id_note) &&
           id_note->type == NT_GNU_BUILD_ID &&
           id_note->namesz == 4 &&
           id_note->descsz <= 20 &&
+          id_note->descsz <= remaining - sizeof(*id_note) &&
           memcmp(id_note->gnu_name, "GNU\0", 4) == 0) {
         // Pre-fill with '0' so that the build ID is always 40 chars long.
         // TODO(dehao): remove [adding once quipper is fixed (see b/21597512)
-- 
2.43.0


From b917b4cd2bdb19fac5d9c859983b02cffbff09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:26 +0000
Subject: [PATCH 29/36] fix: keep the line of an address where another sequence
 ends

---
 util/symbolize/functioninfo.cc |  2 +-
 util/symbolize/functioninfo.h  | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index da00764..0a6712f 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -169,7 +169,7 @@ void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
     return;
   }
   if (end_sequence) {
-    linemap_->AddActual(address, 0);
+    linemap_->EndSequence(address);
   } else {
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index dba3248..40251e8 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -88,7 +88,7 @@ class AddressToLineMap {
 
   AddressToLineMap()
     : subprogs_(), logical_lines_(), line_map_(), logical_map_(),
-      subprog_bias_(0) { }
+      subprog_bias_(0), sequence_start_(0) { }
 
   void StartCU() {
     subprog_bias_ = subprogs_.size();
@@ -147,6 +147,15 @@ class AddressToLineMap {
     line_map_[addr] = logical_num;
   }
 
+  // Ends a sequence of lines at ADDR, unless the lines of another sequence
+  // start there.
+  void EndSequence(uint64 addr) {
+    uint32_t &logical_num = line_map_.insert(std::make_pair(addr, 0)).first->second;
+    if (logical_num > sequence_start_)
+      logical_num = 0;
+    sequence_start_ = logical_lines_.size();
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -187,6 +196,9 @@ class AddressToLineMap {
   // to keep track of the first subprogram for the current CU, and adjust
   // all references into these arrays by this amount.
   uint32 subprog_bias_;
+
+  // The number of logical lines added before the current sequence.
+  uint32 sequence_start_;
 };
 
 static int strcmp_maybe_null(const char *a, const char *b) {
-- 
2.43.0


From 4ccfa404516153297e6fc0bf060df119c4c7f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 30/36] fix: notice failures to read headers and profiles and
 to write outputs

A truncated ELF file left the section table unsized but in use, and
several tools went on as if an unreadable input had been read or a
failed write had succeeded.
---
 llvm_propeller_profile_writer.cc | 16 +++++++++++++++-
 profile_diff.cc                  |  8 ++++++--
 sample_reader.cc                 |  6 +++++-
 spe_sample_reader.cc             |  7 +++++--
 util/symbolize/elf_reader.cc     | 11 +++++++++--
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..c7c881a 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -14,6 +14,7 @@
 #include <optional>
 #include <ostream>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -35,7 +36,10 @@ namespace {
 void DumpCfgs(const PropellerProfile &profile,
               absl::string_view cfg_dump_dir_name) {
   // Create the cfg dump directory and the cfg index file.
-  llvm::sys::fs::create_directory(cfg_dump_dir_name);
+  const std::error_code create_dir_error =
+      llvm::sys::fs::create_directory(cfg_dump_dir_name);
+  CHECK(!create_dir_error) << "Failed to create " << cfg_dump_dir_name << ": "
+                           << create_dir_error.message();
   llvm::SmallString<100> cfg_index_file_vec(cfg_dump_dir_name.begin(),
                                             cfg_dump_dir_name.end());
   llvm::sys::path::append(cfg_index_file_vec, "cfg-index.txt");
@@ -82,8 +86,12 @@ void DumpCfgs(const PropellerProfile &profile,
                                    cluster.layout_index + bbi});
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
+      cfg_dump_os.close();
+      CHECK(cfg_dump_os.good()) << "Failed to write " << cfg_dump_file;
     }
   }
+  cfg_index_os.close();
+  CHECK(cfg_index_os.good()) << "Failed to write " << cfg_index_file;
 }
 
 // Dumps the intra-function edge profile of `cfg` into `out`.
@@ -255,6 +263,12 @@ void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
       }
     }
   }
+  cc_profile_os.close();
+  CHECK(options_.cluster_out_name().empty() || cc_profile_os.good())
+      << "Failed to write " << options_.cluster_out_name();
+  ld_profile_os.close();
+  CHECK(options_.symbol_order_out_name().empty() || ld_profile_os.good())
+      << "Failed to write " << options_.symbol_order_out_name();
   if (options_.has_cfg_dump_dir_name())
     DumpCfgs(profile, options_.cfg_dump_dir_name());
 }
diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..583b17d 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -34,8 +34,12 @@ int main(int argc, char **argv) {
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  if (!reader_1.ReadFromFile(argv[1])) {
+    LOG(FATAL) << "Cannot read profile " << argv[1];
+  }
+  if (!reader_2.ReadFromFile(argv[2])) {
+    LOG(FATAL) << "Cannot read profile " << argv[2];
+  }
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..6e71017 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -252,7 +252,11 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
   if (aux_info) {
     fprintf(fp, "%s", aux_info);
   }
-  fclose(fp);
+  const bool write_error = ferror(fp) != 0;
+  if (fclose(fp) != 0 || write_error) {
+    LOG(ERROR) << "Error writing to " << profile_file_;
+    return false;
+  }
   return true;
 }
 
diff --git a/spe_sample_reader.cc b/spe_sample_reader.cc
index 109aea3..704e5c5 100644
--- a/spe_sample_reader.cc
+++ b/spe_sample_reader.cc
@@ -173,8 +173,11 @@ absl::StatusOr<PerfDataReader> PerfSpeDataSampleReader::CreatePerfDataReader(
         {quipper::PERF_RECORD_SAMPLE, quipper::PERF_RECORD_FORK,
          quipper::PERF_RECORD_COMM, quipper::PERF_RECORD_AUXTRACE});
 
-    reader.ReadFromPointer(perf_data.buffer->getBufferStart(),
-                           perf_data.buffer->getBufferSize());
+    if (!reader.ReadFromPointer(perf_data.buffer->getBufferStart(),
+                                perf_data.buffer->getBufferSize())) {
+      return absl::FailedPreconditionError(absl::StrCat(
+          "Failed to read perf data file: ", perf_data.description));
+    }
     reader.GetFilenamesAsSet(&filenames);
     // Filter out filenames that don't match the regex.
     absl::c_copy_if(filenames, std::back_inserter(match_mmap_names),
diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index ef9687b..bac7c19 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -268,7 +268,14 @@ class ElfReaderImpl {
     string error;
     CHECK(IsArchElfFile(fd, &error)) << " Could not parse file: " << error;
     is_dwp_ = MyHasSuffixString(path, ".dwp");
-    ParseHeaders(fd, path);
+    if (!ParseHeaders(fd, path)) {
+      // Section and segment headers that could not be read must not be used:
+      // treat the file as having none.
+      header_.e_shnum = 0;
+      header_.e_phnum = 0;
+      header_.e_shstrndx = 0;
+      memset(&first_section_header_, 0, sizeof(first_section_header_));
+    }
   }
 
   ~ElfReaderImpl() {
@@ -621,7 +628,7 @@ class ElfReaderImpl {
     // and read them out of the file.
     const int program_headers_size =
         GetNumProgramHeaders() * sizeof(*program_headers_);
-    program_headers_ = new typename ElfArch::Phdr[GetNumProgramHeaders()];
+    program_headers_ = new typename ElfArch::Phdr[GetNumProgramHeaders()]();
     if (pread(fd, program_headers_, program_headers_size, header_.e_phoff) !=
         program_headers_size) {
       LOG(ERROR) << "Could not read program headers: " << path
-- 
2.43.0


From 56347089cb28a5245b3b39b37224705b55cbbff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 31/36] fix: keep 64-bit execution counts and addresses

Sums of branch and fallthrough counters, a function group's inclusive total
and a basic block's address were kept in 32 bits.
---
 branch_frequencies.h                  | 2 +-
 lbr_aggregation.h                     | 2 +-
 llvm_propeller_cfg.h                  | 2 +-
 llvm_propeller_program_cfg_builder.cc | 9 +++++----
 llvm_propeller_program_cfg_builder.h  | 2 +-
 symbol_map.cc                         | 2 +-
 6 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/branch_frequencies.h b/branch_frequencies.h
index 1dee479..427a2c5 100644
--- a/branch_frequencies.h
+++ b/branch_frequencies.h
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo
     int64_t GetNumberOfTakenBranchCounters() const
     {
       return absl::c_accumulate(
-          taken_branch_counters, 0,
+          taken_branch_counters, int64_t{0},
           [](int64_t cnt, const auto &v)
           { return cnt + v.second; });
     }
diff --git a/lbr_aggregation.h b/lbr_aggregation.h
index 2d58359..ac6a9b4 100644
--- a/lbr_aggregation.h
+++ b/lbr_aggregation.h
@@ -21,7 +21,7 @@ namespace devtools_crosstool_autofdo {
 struct LbrAggregation {
   int64_t GetNumberOfBranchCounters() const {
     return absl::c_accumulate(
-        branch_counters, 0,
+        branch_counters, int64_t{0},
         [](int64_t cnt, const auto &v) { return cnt + v.second; });
   }
 
diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 44fd0d5..3638312 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -114,7 +114,8 @@ absl::StatusOr<std::unique_ptr<ProgramCfg>> ProgramCfgBuilder::Build(
 void ProgramCfgBuilder::CreateFallthroughs(
     const BranchAggregation &branch_aggregation,
     const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-    absl::flat_hash_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
+    absl::flat_hash_map<std::pair<int, int>, int64_t>
+        *tmp_bb_fallthrough_counters,
     absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                         CFGEdge *> *tmp_edge_map) {
   for (auto [fallthrough, cnt] : branch_aggregation.fallthrough_counters) {
@@ -134,7 +135,7 @@ void ProgramCfgBuilder::CreateFallthroughs(
 
   for (auto &i : *tmp_bb_fallthrough_counters) {
     int fallthrough_from = i.first.first, fallthrough_to = i.first.second;
-    int weight = i.second;
+    int64_t weight = i.second;
     if (fallthrough_from == fallthrough_to ||
         !binary_address_mapper_->CanFallThrough(fallthrough_from,
                                                 fallthrough_to))
@@ -208,9 +209,9 @@ absl::Status ProgramCfgBuilder::CreateEdges(
                       CFGEdge *>
       tmp_edge_map;
 
-  absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
+  absl::flat_hash_map<std::pair<int, int>, int64_t> tmp_bb_fallthrough_counters;
 
-  int weight_on_dubious_edges = 0;
+  int64_t weight_on_dubious_edges = 0;
   int edges_recorded = 0;
   for (auto [branch, weight] : branch_aggregation.branch_counters) {
     ++edges_recorded;
diff --git a/llvm_propeller_program_cfg_builder.h b/llvm_propeller_program_cfg_builder.h
index 9c745d3..3e0a484 100644
--- a/llvm_propeller_program_cfg_builder.h
+++ b/llvm_propeller_program_cfg_builder.h
@@ -63,7 +63,7 @@ class ProgramCfgBuilder {
   void CreateFallthroughs(
       const BranchAggregation &branch_aggregation,
       const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-      absl::flat_hash_map<std::pair<int, int>, int>
+      absl::flat_hash_map<std::pair<int, int>, int64_t>
           *tmp_bb_fallthrough_counters,
       absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                           CFGEdge *> *tmp_edge_map);
diff --git a/symbol_map.cc b/symbol_map.cc
index 384589e..7dfeeec 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -970,7 +970,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From 5d3851a1513168b1a9b65e4dacfaf9e2b880effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 32/36] fix: compare lines and summaries completely

The sign of a 32-bit difference does not order lines or discriminators that
are 2^31 apart, and summaries of different lengths were compared past the end
of the shorter one.
---
 profile_writer.cc             | 3 ++-
 util/symbolize/functioninfo.h | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/profile_writer.cc b/profile_writer.cc
index f7f4349..b38cce1 100644
--- a/profile_writer.cc
+++ b/profile_writer.cc
@@ -277,7 +277,8 @@ bool ProfileSummaryInformation::operator==(
       && num_counts_ == other.num_counts_
       && num_functions_ == other.num_functions_
       && std::equal(detailed_summaries_.begin(), detailed_summaries_.end(),
-                    other.detailed_summaries_.begin());
+                    other.detailed_summaries_.begin(),
+                    other.detailed_summaries_.end());
 }
 
 bool ProfileSummaryInformation::DetailedSummary::operator==(
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index 40251e8..b8fea5b 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -235,9 +235,9 @@ struct LessThanLineIdentifier {
     if (cmp == 0) {
       cmp = strcmp_maybe_null(line_a.file.second, line_b.file.second);
       if (cmp == 0) {
-        cmp = (line_a.line - line_b.line);
-        if (cmp == 0)
-          cmp = (line_a.discriminator - line_b.discriminator);
+        if (line_a.line != line_b.line)
+          return line_a.line < line_b.line;
+        return line_a.discriminator < line_b.discriminator;
       }
     }
     return (cmp < 0);
-- 
2.43.0


From e6f9381fa2471b40177bdcbefd613f5b29b3488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:03 +0000
Subject: [PATCH 33/36] fix: symbol tables beyond 4 GiB were indexed with
 32-bit offsets

---
 util/symbolize/elf_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index bac7c19..20f007e 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -153,7 +153,7 @@ class ElfSectionReader {
   typename ElfArch::Shdr const &header() const { return header_; }
 
   // Return memory at the given offset within this section.
-  const char *GetOffset(typename ElfArch::Word bytes) const {
+  const char *GetOffset(size_t bytes) const {
     CHECK(contents_ != NULL);
     return contents_ + bytes;
   }
@@ -225,7 +225,7 @@ class SymbolIterator {
   // Return the name of the current symbol, NULL if it has none.
   // REQUIRES: !done()
   const char *GetSymbolName() const {
-    int name_offset = GetSymbol()->st_name;
+    const typename ElfArch::Word name_offset = GetSymbol()->st_name;
     if (name_offset == 0)
       return NULL;
     return string_section_->GetOffset(name_offset);
@@ -234,8 +234,8 @@ class SymbolIterator {
  private:
   const ElfSectionReader<ElfArch> *const symbol_section_;
   const ElfSectionReader<ElfArch> *string_section_;
-  int num_symbols_in_section_;
-  int symbol_within_section_;
+  size_t num_symbols_in_section_;
+  size_t symbol_within_section_;
   DISALLOW_EVIL_CONSTRUCTORS(SymbolIterator);
 };
 
-- 
2.43.0


From a97fe2bf132cffde396fdeb02b13edf6119c886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:03 +0000
Subject: [PATCH 34/36] fix: rows of a text profile were counted in 32 bits

---
 sample_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index 6e71017..41d7871 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -171,7 +171,7 @@ bool TextSampleReaderWriter::Append(const std::string &profile_file) {
     fclose(fp);
     return false;
   }
-  for (int i = 0; i < num_records; i++) {
+  for (uint64_t i = 0; i < num_records; i++) {
     uint64_t from, to, count;
     if (3 != fscanf(fp, "%" SCNx64 "-%" SCNx64 ":%" SCNu64 "\n", &from, &to,
                     &count)) {
@@ -188,7 +188,7 @@ bool TextSampleReaderWriter::Append(const std::string &profile_file) {
     fclose(fp);
     return false;
   }
-  for (int i = 0; i < num_records; i++) {
+  for (uint64_t i = 0; i < num_records; i++) {
     uint64_t addr, count;
     if (2 != fscanf(fp, "%" SCNx64 ":%" SCNu64 "\n", &addr, &count)) {
       LOG(ERROR) << "Error reading from " << profile_file;
@@ -204,7 +204,7 @@ bool TextSampleReaderWriter::Append(const std::string &profile_file) {
     fclose(fp);
     return false;
   }
-  for (int i = 0; i < num_records; i++) {
+  for (uint64_t i = 0; i < num_records; i++) {
     uint64_t from, to, count;
     if (3 != fscanf(fp, "%" SCNx64 "->%" SCNx64 ":%" SCNu64 "\n", &from, &to,
                     &count)) {
-- 
2.43.0


From dc2124453d53ab5d10fc8cf0f9387590b43dbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:03 +0000
Subject: [PATCH 35/36] fix: a truncated GCC profile was read as if zeros
 followed

---
 gcov.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gcov.cc b/gcov.cc
index 7e7530a..0465a2a 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -193,6 +193,7 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
                    1, excess_bytes, gcov_var.file);
     gcov_var.byte_length += excess_bytes;
     if (gcov_var.byte_length < bytes) {
+      gcov_var.error = 1;
       gcov_var.byte_length = 0;
       return 0;
     }
-- 
2.43.0


From e760b6abfe64136c1966709ec707846bc0f4f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:17 +0000
Subject: [PATCH 36/36] fix: prefetch hints that cannot be opened or read gave
 an empty profile instead of an error, and a long hint type overran its buffer

---
 profile_creator.cc | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..b0426e6 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,30 +68,33 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+// Returns false if the file cannot be opened or has a malformed line.
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *hints) {
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
     LOG(ERROR) << "Cannot open " << file_name << "to read";
-  } else {
-    uint64_t address = 0;
-    int64_t delta = 0;
-    char prefetch_type[5];
-    while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
-                      prefetch_type)) {
-        LOG(ERROR) << "Error reading from " << file_name;
-        break;
-      }
-      // We don't validate the type here. We'll just use it as a suffix to the
-      // "__prefetch" indirect call, and let the compiler decide if it
-      // supports it.
-      std::string type(prefetch_type);
-      hints.push_back({address, delta, type});
+    return false;
+  }
+  uint64_t address = 0;
+  int64_t delta = 0;
+  char prefetch_type[5];
+  while (true) {
+    const int num_fields = fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%4s\n", &address,
+                                  &delta, prefetch_type);
+    if (num_fields == EOF && !ferror(fp)) break;
+    if (num_fields != 3) {
+      LOG(ERROR) << "Error reading from " << file_name;
+      fclose(fp);
+      return false;
     }
-    fclose(fp);
+    // We don't validate the type here. We'll just use it as a suffix to the
+    // "__prefetch" indirect call, and let the compiler decide if it
+    // supports it.
+    std::string type(prefetch_type);
+    hints->push_back({address, delta, type});
   }
-  return hints;
+  fclose(fp);
+  return true;
 }
 }  // namespace
 
@@ -229,7 +232,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, &hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0

