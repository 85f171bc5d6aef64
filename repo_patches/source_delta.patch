From ee332b8205741273045ba4ee8a5460357e2acbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 01/43] fix: do not hand out pointers past the end of section
 raw data

---
 src/pe_lib/pe_base.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..d9cbd48 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -626,6 +626,10 @@ char* pe_base::section_data_from_rva(section& s, uint32_t rva)
         if(s.get_raw_data().empty())
             throw pe_exception("Section raw data is empty and cannot be changed", pe_exception::section_is_empty);
 
+        //RVA can be inside section, but outside of its raw data
+        if(rva - s.get_virtual_address() > s.get_raw_data().length())
+            throw pe_exception("RVA does not exist inside section raw data", pe_exception::rva_not_exists);
+
         return &s.get_raw_data()[rva - s.get_virtual_address()];
     }
 
@@ -637,7 +641,14 @@ const char* pe_base::section_data_from_rva(const section& s, uint32_t rva, secti
 {
     //Check if RVA is inside section "s"
     if(rva >= s.get_virtual_address() && rva < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
-        return (datatype == section_data_raw ? s.get_raw_data().data() : s.get_virtual_data(get_section_alignment()).c_str()) + rva - s.get_virtual_address();
+    {
+        //RVA can be inside section, but outside of its raw data
+        const std::string& data = datatype == section_data_raw ? s.get_raw_data() : s.get_virtual_data(get_section_alignment());
+        if(rva - s.get_virtual_address() > data.length())
+            throw pe_exception("RVA does not exist inside section data", pe_exception::rva_not_exists);
+
+        return data.data() + (rva - s.get_virtual_address());
+    }
 
     throw pe_exception("RVA not found inside section", pe_exception::rva_not_exists);
 }
@@ -741,6 +752,10 @@ char* pe_base::section_data_from_rva(uint32_t rva, bool include_headers)
     if(s.get_raw_data().empty())
         throw pe_exception("Section raw data is empty and cannot be changed", pe_exception::section_is_empty);
 
+    //RVA can be inside section, but outside of its raw data
+    if(rva - s.get_virtual_address() > s.get_raw_data().length())
+        throw pe_exception("RVA does not exist inside section raw data", pe_exception::rva_not_exists);
+
     return &s.get_raw_data()[rva - s.get_virtual_address()];
 }
 
@@ -752,7 +767,12 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
         return &full_headers_data_[rva];
 
     const section& s = section_from_rva(rva);
-    return (datatype == section_data_raw ? s.get_raw_data().data() : s.get_virtual_data(get_section_alignment()).c_str()) + rva - s.get_virtual_address();
+    //RVA can be inside section, but outside of its raw data
+    const std::string& data = datatype == section_data_raw ? s.get_raw_data() : s.get_virtual_data(get_section_alignment());
+    if(rva - s.get_virtual_address() > data.length())
+        throw pe_exception("RVA does not exist inside section data", pe_exception::rva_not_exists);
+
+    return data.data() + (rva - s.get_virtual_address());
 }
 
 //Reads DOS headers from istream
-- 
2.43.0


From 24065c76ab1f3a2abf06d797c3e4daa68a60a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 02/43] fix: an image with no data directories has no directory

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 8e598ab75de45a723d7943e2b157f404c402c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 03/43] fix: strip_data_directories keeps at least min_count
 entries

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index a842206..aa01242 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -127,7 +127,7 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
         if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        if(i <= static_cast<int>(min_count) - 1)
             break;
     }
 
-- 
2.43.0


From 7e8f790c5cd9576415803375f66842c5153d59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 04/43] fix: rebuilt image writes exactly SizeOfRawData bytes
 per section and nothing for sections without raw data

---
 src/pe_lib/pe_rebuilder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..6cdbb62 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_rebuilder.h"
 #include "pe_base.h"
 #include "pe_structures.h"
@@ -158,6 +159,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         const section& s = *it;
 
+        //Section without raw data has no place in file
+        if(!s.get_size_of_raw_data())
+            continue;
+
         std::streamoff wpos = out.tellp();
 
         //Fill unused overlay data between sections with null bytes
@@ -165,7 +170,12 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             out.put(0);
 
         //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        uint32_t raw_data_length = static_cast<uint32_t>(std::min<size_t>(s.get_raw_data().length(), s.get_size_of_raw_data()));
+        out.write(s.get_raw_data().data(), raw_data_length);
+
+        //SizeOfRawData can be greater than actual data length, fill the rest with null bytes
+        for(uint32_t i = raw_data_length; i < s.get_size_of_raw_data(); i++)
+            out.put(0);
     }
 }
 }
-- 
2.43.0


From e76ef11c2109a7490bf31019bc34ad5f7e475ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 05/43] fix: restore the stream after computing a checksum even
 if the end of the stream was reached

---
 src/pe_lib/pe_checksum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..1ec6f63 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -64,17 +64,17 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.exceptions(state);
         file.seekg(old_offset);
-        file.clear();
         //Rethrow
         throw;
     }
 
     //Restore istream state
+    file.clear();
     file.exceptions(state);
     file.seekg(old_offset);
-    file.clear();
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From 0ca1c9cf5fbbdff821757b110716cba75abaeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 06/43] fix: restore the stream after reading an image even if
 the end of the stream was reached

---
 src/pe_lib/pe_base.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index d9cbd48..6ca5474 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -32,17 +32,17 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.seekg(old_offset);
-        file.exceptions(state);
         file.clear();
+        file.exceptions(state);
+        file.seekg(old_offset);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.seekg(old_offset);
-    file.exceptions(state);
     file.clear();
+    file.exceptions(state);
+    file.seekg(old_offset);
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1094,17 +1094,17 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.exceptions(state);
         file.seekg(old_offset);
-        file.clear();
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
+    file.clear();
     file.exceptions(state);
     file.seekg(old_offset);
-    file.clear();
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
-- 
2.43.0


From f3980a6b74e2d588b89df6e74598ff442b7e6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 07/43] fix: refuse sections whose aligned end wraps past 4 GiB

VirtualAddress + aligned VirtualSize was compared with SizeOfImage after
wrapping to 32 bits, so a section at the very end of the address space
passed the check.
---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6ca5474..beb03ff 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -947,7 +947,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From f879268f0b709249d831e15063a27f714aec54d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 08/43] fix: overlay flag of images whose last section has no
 raw data

The end of section data was computed from the pointer of the last section
and the raw size of the last section having raw data, so an image ending
with an uninitialised section was reported to have an overlay.
---
 src/pe_lib/pe_base.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index beb03ff..76f4940 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -880,7 +880,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    //End of raw data of sections in file
+    uint32_t raw_data_end = 0;
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -907,8 +908,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         {
             //If section has raw data
 
+            raw_data_end = std::max<uint32_t>(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
+
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -974,7 +976,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(raw_data_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From bbd15aa329a101ee23e49da1ead8c8a8773b5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 09/43] fix: do not store debug data that lies outside the
 stream

When seeking to the raw data failed, the following read did nothing and the
zero filled buffer was stored as debug data.
---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 76f4940..13327c8 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1029,7 +1029,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.bad() || file.fail())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
-- 
2.43.0


From 3f038a80e002aaf9c67bf9edf7f57cc505a10295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 10/43] fix: do not read past the TLS data given or write past
 section data when rebuilding TLS

---
 src/pe_lib/pe_tls.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..a6f62c5 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
@@ -310,6 +311,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //Never read past the end of TLS data given
+        write_raw_data_size = static_cast<uint32_t>(std::min<size_t>(write_raw_data_size, info.get_raw_data().length()));
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
@@ -332,7 +336,8 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         }
 
         //Check if there's enough space to write callbacks TLS data...
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)
+        uint32_t available_raw_callback_length = pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true);
+        if(available_raw_callback_length
             < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
         
@@ -354,8 +359,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //Write callbacks TLS data (without last zero element or its part, if it is virtual only)
+        uint32_t write_callback_size = std::min(available_raw_callback_length, needed_callback_size);
+        if(write_callback_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], write_callback_size);
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From 8539193da3266533614c2b43c976805797db70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 11/43] fix: read exception directory entries only inside the
 directory

---
 src/pe_lib/pe_exception_directory.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..0fd9b28 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -130,12 +130,17 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     if(current_pos % sizeof(uint32_t))
         throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
-    //First IMAGE_RUNTIME_FUNCTION_ENTRY table
-    image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+    //Number of bytes of exception directory left
+    uint32_t bytes_left = pe.get_directory_size(image_directory_entry_exception);
 
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    while(bytes_left >= sizeof(image_runtime_function_entry))
     {
+        //IMAGE_RUNTIME_FUNCTION_ENTRY table
+        image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+        if(!exception_table.BeginAddress)
+            break;
+
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
@@ -148,7 +153,7 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
-        exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+        bytes_left -= sizeof(image_runtime_function_entry);
     }
 
     return ret;
-- 
2.43.0


From 21a451576712400ec8ff40df3dc3c3629557107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 12/43] fix: do not read past the end of the stub when looking
 for Rich data

---
 src/pe_lib/pe_rich_data.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..8705e9f 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +73,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -84,7 +84,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
 
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -93,17 +93,13 @@ const rich_data_list get_rich_data(const pe_base& pe)
             }
         }
 
-        //If second signature is found
-        if(found)
+        //If second signature is found (it is followed by three padding DWORDs)
+        if(found && static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 4)
         {
-            begin += sizeof(uint32_t) * 3;
+            begin += sizeof(uint32_t) * 4;
             //List all rich data structures
-            while(begin < end)
+            while(static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 2)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
                 //Check for rich overlay data end ("Rich" word reached)
                 if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
                     break;
@@ -114,11 +110,11 @@ const rich_data_list get_rich_data(const pe_base& pe)
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
 
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
 
+                begin += sizeof(uint32_t);
+
                 //Save rich data structure
                 ret.push_back(data);
             }
-- 
2.43.0


From 77ea11c5c66e57be4eb83b846ac5ee09ccf8b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 13/43] fix: decode debug payloads from exactly their bytes and
 entries from inside the directory

---
 src/pe_lib/pe_debug.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..b50947e 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
@@ -298,7 +301,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
@@ -677,7 +680,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + coff->LvaToFirstSymbol + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
@@ -737,11 +740,10 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                             //Save symbol info
                             coff_info.add_symbol(symbol);
-
-                            //Move to next symbol
-                            i += sym->NumberOfAuxSymbols;
-                            continue;
                         }
+
+                        //Move to next symbol
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
@@ -817,7 +819,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(misc_data->Length < sizeof(image_debug_misc)
+                        || debug_data.length() < misc_data->Length /* Total length of record */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
@@ -836,6 +839,11 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+
+        //There are no entries past the end of the directory
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+            break;
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From c59850835c4704bff3cacdabc34c8a50e37a643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 14/43] fix: read load configuration tables that reach into the
 zero-filled part of a section

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..bdc7de4 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From dd82968587dfd39765e4121f5253a7ae2ed654f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 15/43] fix: terminate rebuilt bound import directories and
 refuse those with offsets beyond 16 bits

---
 src/pe_lib/pe_bound_import.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..2fc2e18 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -226,7 +226,11 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     }
     
     needed_size += needed_size_for_strings;
-    
+
+    //Offsets of module names are 16-bit
+    if(needed_size > pe_utils::max_word)
+        throw pe_exception("Bound import directory is too large", pe_exception::insufficient_space);
+
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
     if(&imports_section != &*(pe.get_image_sections().end() - 1) && 
         (imports_section.empty() || pe_utils::align_up(imports_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + directory_pos))
@@ -273,6 +277,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From b5ab7b598a05b488019f400011de202df5be28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 16/43] fix: refuse relocation blocks of odd size or smaller
 than their header

---
 src/pe_lib/pe_relocations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..ea4577a 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -119,15 +119,16 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        //Check size of the block: it includes the header and consists of words
+        if(reloc_table.SizeOfBlock < sizeof(image_base_relocation) || reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From 55357ad292b1916d146f3ea05300453a6b2bb2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 17/43] fix: rebase relocated values by their type

---
 src/pe_lib/pe_relocations.cpp | 38 +++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index ea4577a..71b52ff 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -258,6 +258,15 @@ void rebase_image(pe_base& pe, const relocation_table_list& tables, uint64_t new
         : rebase_image_base<pe_types_class_64>(pe, tables, new_base);
 }
 
+//Adds base difference to the value of a relocated place
+template<typename T>
+static void rebase_value(pe_base& pe, uint32_t rva, T base_rel)
+{
+    T value = pe.section_data_from_rva<T>(rva, section_data_raw, true);
+    value = static_cast<T>(value + base_rel);
+    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));
+}
+
 //RELOCATIONS
 //Recalculates image base with the help of relocation tables
 //Recalculates VAs of DWORDS/QWORDS in image according to relocations
@@ -272,7 +281,7 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
     pe.get_image_base(image_base);
 
     //ImageBase difference
-    typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
+    uint64_t base_rel = new_base - image_base;
 
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
@@ -289,11 +298,32 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
             if((*rel).get_type() == pe_win::image_rel_based_absolute)
                 continue;
             
+            if(!pe_utils::is_sum_safe(base_rva, (*rel).get_rva()))
+                throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
             //Recalculate value by RVA and rewrite it
             uint32_t current_rva = base_rva + (*rel).get_rva();
-            typename PEClassType::BaseSize value = pe.section_data_from_rva<typename PEClassType::BaseSize>(current_rva, section_data_raw, true);
-            value += base_rel;
-            memcpy(pe.section_data_from_rva(current_rva, true), &value, sizeof(value));
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_high:
+                rebase_value<uint16_t>(pe, current_rva, static_cast<uint16_t>(base_rel >> 16));
+                break;
+
+            case pe_win::image_rel_based_low:
+                rebase_value<uint16_t>(pe, current_rva, static_cast<uint16_t>(base_rel));
+                break;
+
+            case pe_win::image_rel_based_highlow:
+                rebase_value<uint32_t>(pe, current_rva, static_cast<uint32_t>(base_rel));
+                break;
+
+            case pe_win::image_rel_based_dir64:
+                rebase_value<uint64_t>(pe, current_rva, base_rel);
+                break;
+
+            default:
+                throw pe_exception("Unsupported relocation type", pe_exception::cannot_rebase_relocations);
+            }
         }
     }
 
-- 
2.43.0


From c6b5ce031e738854c4c8cc3e1e6275b4d7251386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 18/43] fix: write every imported ordinal to its own slot when
 only the IAT is built

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 67b769ca5ab29955f51ec20ba349136aabb888d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 19/43] fix: keep import names when missing original IATs are
 requested but not built

---
 src/pe_lib/pe_imports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..42ed8b9 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -486,7 +486,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat()
+            && (!save_iats_for_this_descriptor || (import_settings.fill_missing_original_iats() && !(*it).get_rva_to_original_iat()));
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From 226fa5cc133163250ca36d61df6d116bbd29abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 20/43] fix: rebuilding imports does not drop section data
 behind the import directory

---
 src/pe_lib/pe_imports.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 42ed8b9..38d1a0b 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -460,6 +460,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const std::string::size_type initial_raw_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -735,7 +736,11 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Data that has been in the section before must not be lost
+    if(initial_raw_length < current_pos_for_original_iat)
+        raw_data.resize(current_pos_for_original_iat);
+    else
+        raw_data.resize(initial_raw_length);
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From f749874de7d68deb3b3584514ab84b1ee9ee5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 21/43] fix: recognise forwarded exports that have no name

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8a29fd9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 7645c0712f3651700faea17a1acbfad6ca76937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 22/43] fix: rebuild an empty list of exports as a directory
 without functions

---
 src/pe_lib/pe_exports.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8a29fd9..d1a5bd2 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,8 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +581,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From ac633d33d91309c60cb81a95115cd0beecdc33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 23/43] fix: refuse export directories with names but without
 name tables

---
 src/pe_lib/pe_exports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index d1a5bd2..1db17e3 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -312,7 +312,7 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
         //Check some export directory fields
         if((!exports.AddressOfNameOrdinals && exports.AddressOfNames) ||
             (exports.AddressOfNameOrdinals && !exports.AddressOfNames) ||
-            !exports.AddressOfFunctions
+            !exports.AddressOfFunctions || (exports.NumberOfNames && !exports.AddressOfNames)
             || exports.NumberOfFunctions >= pe_utils::max_dword / sizeof(uint32_t)
             || exports.NumberOfNames > pe_utils::max_dword / sizeof(uint32_t)
             || !pe_utils::is_sum_safe(exports.AddressOfFunctions, exports.NumberOfFunctions * sizeof(uint32_t))
-- 
2.43.0


From 4adaea169bc88b54dbe7fc17b4e7ac1ef359f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 24/43] fix: check the whole length of resource names and the
 position of resource data entries

---
 src/pe_lib/pe_resources.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..67dc0b4 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -367,7 +367,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t))
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
@@ -396,6 +396,9 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         }
         else
         {
+            if(!pe_utils::is_sum_safe(res_rva, dir_entry.DirItem.OffsetToData))
+                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
             //If directory entry has data
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
-- 
2.43.0


From b09fe7f794bb6ad8924e6301efff6b97b74e9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 25/43] fix: refuse resource directories nested too deeply
 instead of exhausting the stack

---
 src/pe_lib/pe_resources.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 67dc0b4..8edb0ec 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -321,10 +321,15 @@ void resource_directory::get_minor_version(uint16_t minor_version)
 }
 
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t level = 0)
 {
     resource_directory ret;
-    
+
+    //Directories are processed recursively: refuse to exhaust the stack
+    static const uint32_t max_directory_levels = 256;
+    if(level >= max_directory_levels)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -392,7 +397,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, level + 1));
         }
         else
         {
-- 
2.43.0


From aff20d658733c19f497eefd1cdda01dbf216824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 26/43] fix: assigning a resource directory entry or its parts
 to itself keeps the data

---
 src/pe_lib/pe_resources.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 8edb0ec..81d8862 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,6 +68,9 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
+    if(this == &other)
+        return *this;
+
     release();
 
     id_ = other.id_;
@@ -189,16 +192,20 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    //The entry may be the one that is replaced
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    //The directory may be (a part of) the one that is replaced
+    resource_directory* directory = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = directory;
     includes_data_ = false;
 }
 
-- 
2.43.0


From ab8f51109d9d4f0839043d768d0f60a685994297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 27/43] fix: replacing a resource by data of the same tree does
 not use released data

---
 src/pe_lib/pe_resource_manager.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..ea8f5a9 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,12 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //New data entry (data may belong to the resource that is replaced)
+    resource_directory_entry new_dir_data_entry;
+    resource_data_entry data_dir(data, codepage);
+    new_dir_data_entry.add_data_entry(data_dir);
+    new_dir_data_entry.set_id(language);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -220,10 +226,6 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
-    resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
-    new_dir_data_entry.add_data_entry(data_dir);
-    new_dir_data_entry.set_id(language);
     entries->push_back(new_dir_data_entry);
 }
 
-- 
2.43.0


From e9f39f819dd75288c302a5eb022970adaf26c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 28/43] fix: do not read past the end of a truncated string
 table

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 978075fa2287fa5b8c53413ee422aa78e7b99528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 29/43] fix: read message tables with a single short message
 and with the highest message ID

---
 src/pe_lib/resource_message_list_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..74625ab 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -23,7 +23,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
         || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data) - sizeof(message_resource_block))
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
@@ -90,6 +90,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
 
             //Go to next entry
             current_pos += entry->Length;
+
+            //The last ID may be the maximum one
+            if(curr_id == block->HighId)
+                break;
         }
     }
 
-- 
2.43.0


From 1d886f6a66ac5a2d526f54263f9eed31fdb9be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 30/43] fix: assigning a resource directory entry from its own
 tree does not use released data

---
 src/pe_lib/pe_resources.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 81d8862..d38f9d3 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,24 +68,13 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    if(this == &other)
-        return *this;
-
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
-
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    //Copy first: other may be this entry or belong to its directory
+    resource_directory_entry copy(other);
+    std::swap(id_, copy.id_);
+    name_.swap(copy.name_);
+    std::swap(ptr_, copy.ptr_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
 
     return *this;
 }
-- 
2.43.0


From b15786bad8b0b24fc502f1575bd6183bb8b786e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 31/43] fix: calculate the space for resource data in the order
 it is written

---
 src/pe_lib/pe_resources.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index d38f9d3..6ffa6a9 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -465,6 +465,19 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to sort entries of resource directory and all its subdirectories
+void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
@@ -475,11 +488,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -591,6 +599,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     uint32_t needed_size_for_strings = 0;
     uint32_t needed_size_for_data = 0;
 
+    //Sort first: alignment of data depends on the order of entries
+    sort_resource_directory(info);
+
     calculate_resource_data_space(info, aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
 
     {
-- 
2.43.0


From fc2689fb12b087d030551da35f9997c917ecc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 32/43] fix: check the whole length of a cursor group when
 looking for a single cursor

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..cc258bd 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 1bcf7c362bdacce8a29b96bf4acb7f87e3941e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 33/43] fix: read the height of cursors of 128 and more lines

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index cc258bd..128b789 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 2bfc8701e2f11487de3a39b67a0afe01986fab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 34/43] fix: refuse to add more icons or cursors to a group
 than it can count

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..4974ad5 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -57,6 +57,10 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         if(icon_group_data.length() < sizeof(ico_header) + info->Count * sizeof(icon_group))
             throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
 
+        //Check that icon count still fits the group header
+        if(info->Count + icon_header->Count > 0xFFFF)
+            throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
+
         icon_group_data.resize(sizeof(ico_header) + (info->Count + icon_header->Count) * sizeof(icon_group));
         info = reinterpret_cast<ico_header*>(&icon_group_data[0]); //In case if memory was reallocated
     }
@@ -213,6 +217,10 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         if(cursor_group_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
+        //Check that cursor count still fits the group header
+        if(info->Count + cur_header->Count > 0xFFFF)
+            throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
+
         cursor_group_data.resize(sizeof(cursor_header) + (info->Count + cur_header->Count) * sizeof(cursor_group));
         info = reinterpret_cast<cursor_header*>(&cursor_group_data[0]); //In case if memory was reallocated
     }
-- 
2.43.0


From 8ba31da1adf336ec0a4baf4008b31ea9e783a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 35/43] fix: do not replace existing icons or cursors when no
 resource IDs are left

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 26 +++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index 4974ad5..160b109 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -111,6 +111,7 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
 {
     //Search for available icon/cursor IDs
     std::vector<uint16_t> icon_cursor_id_list;
+    uint32_t max_id = 0;
 
     try
     {
@@ -133,19 +134,19 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                     {
                         if(*it > 1)
                         {
-                            for(uint16_t i = 1; i != *it; ++i)
+                            for(uint32_t i = 1; i < *it && i <= 0xFFFF; ++i)
                             {
-                                icon_cursor_id_list.push_back(i);
+                                icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                                 if(icon_cursor_id_list.size() == count)
                                     break;
                             }
                         }
                     }
-                    else if(*(it - 1) - *it > 1)
+                    else if(*it - *(it - 1) > 1)
                     {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
+                        for(uint32_t i = *(it - 1) + 1; i < *it && i <= 0xFFFF; ++i)
                         {
-                            icon_cursor_id_list.push_back(i);
+                            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                             if(icon_cursor_id_list.size() == count)
                                 break;
                         }
@@ -157,14 +158,19 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
             }
         }
 
-        uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
-            icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
+        max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
     }
     catch(const pe_exception&) //Entry not found
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+    }
+
+    for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
+    {
+        //Icon and cursor IDs have 16 bits
+        if(max_id >= 0xFFFF)
+            throw pe_exception("No free resource IDs left", type == pe_resource_viewer::resource_icon ? pe_exception::resource_incorrect_icon : pe_exception::resource_incorrect_cursor);
+
+        icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
     }
 
     return icon_cursor_id_list;
-- 
2.43.0


From 58499299cadf3daac7fd6260cd98f808fbd16fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 36/43] fix: write the real sizes and positions of images to
 icon and cursor files

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 68 +++++++++++++---------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 128b789..2f75f0a 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <string.h>
 #include "resource_cursor_icon_reader.h"
 #include "pe_structures.h"
 #include "pe_resource_viewer.h"
@@ -11,6 +12,23 @@ resource_cursor_icon_reader::resource_cursor_icon_reader(const pe_resource_viewe
     :res_(res)
 {}
 
+namespace
+{
+//Appends image data to icon or cursor file and sets its real size and position in directory entry of the file
+template<typename DirEntry>
+void append_image(std::string& file_data, uint16_t number, const std::string& image_data)
+{
+    //Directory entries follow the header (equal for icons and cursors)
+    const size_t entry_pos = sizeof(ico_header) + number * sizeof(DirEntry);
+    DirEntry direntry;
+    memcpy(&direntry, &file_data[entry_pos], sizeof(direntry));
+    direntry.SizeInBytes = static_cast<uint32_t>(image_data.length());
+    direntry.ImageOffset = static_cast<uint32_t>(file_data.length());
+    memcpy(&file_data[entry_pos], &direntry, sizeof(direntry));
+    file_data += image_data;
+}
+}
+
 //Helper function of creating icon headers from ICON_GROUP resource data
 //Returns icon count
 uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data, const std::string& resource_data)
@@ -30,8 +48,7 @@ uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data,
     ico_data.reserve(sizeof(ico_header) + info->Count * sizeof(icondirentry));
     ico_data.append(reinterpret_cast<const char*>(info), sizeof(ico_header));
 
-    //Iterate over all listed icons
-    uint32_t offset = sizeof(ico_header) + sizeof(icondirentry) * info->Count;
+    //Iterate over all listed icons (image sizes and offsets are set when images are added)
     for(uint16_t i = 0; i != info->Count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(resource_data.data() + sizeof(ico_header) + i * sizeof(icon_group));
@@ -43,14 +60,12 @@ uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data,
         direntry.Height = group->Height;
         direntry.Planes = group->Planes;
         direntry.Reserved = group->Reserved;
-        direntry.SizeInBytes = group->SizeInBytes;
+        direntry.SizeInBytes = 0;
         direntry.Width = group->Width;
-        direntry.ImageOffset = offset;
+        direntry.ImageOffset = 0;
 
         //Add icon header to returned value
         ico_data.append(reinterpret_cast<const char*>(&direntry), sizeof(icondirentry));
-
-        offset += group->SizeInBytes;
     }
 
     //Return icon count
@@ -63,7 +78,7 @@ const std::string resource_cursor_icon_reader::get_single_icon_by_id_lang(uint32
     //Get icon headers
     std::string icon_data(lookup_icon_group_data_by_icon(id, language));
     //Append icon data
-    icon_data.append(res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, id).get_data());
+    append_image<icondirentry>(icon_data, 0, res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, id).get_data());
     return icon_data;
 }
 
@@ -77,7 +92,7 @@ const std::string resource_cursor_icon_reader::get_single_icon_by_id(uint32_t id
     //Get icon headers
     std::string icon_data(lookup_icon_group_data_by_icon(id, languages.at(index)));
     //Append icon data
-    icon_data.append(res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, id, index).get_data());
+    append_image<icondirentry>(icon_data, 0, res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, id, index).get_data());
     return icon_data;
 }
 
@@ -96,7 +111,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data());
     }
 
     return ret;
@@ -117,7 +132,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(uint32_t languag
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, group->Number).get_data();
+        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, group->Number).get_data());
     }
 
     return ret;
@@ -138,7 +153,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id_lang(uint32_t lang
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, group->Number).get_data();
+        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(language, pe_resource_viewer::resource_icon, group->Number).get_data());
     }
 
     return ret;
@@ -159,7 +174,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data());
     }
 
     return ret;
@@ -198,9 +213,9 @@ bool resource_cursor_icon_reader::check_icon_presence(const std::string& icon_gr
             direntry.Height = group->Height;
             direntry.Planes = group->Planes;
             direntry.Reserved = group->Reserved;
-            direntry.SizeInBytes = group->SizeInBytes;
+            direntry.SizeInBytes = 0;
             direntry.Width = group->Width;
-            direntry.ImageOffset = sizeof(ico_header) + sizeof(icondirentry);
+            direntry.ImageOffset = 0;
             ico_data.append(reinterpret_cast<const char*>(&direntry), sizeof(direntry));
 
             return true;
@@ -250,7 +265,7 @@ const std::string resource_cursor_icon_reader::get_single_cursor_by_id_lang(uint
     //Get cursor headers
     std::string cursor_data(lookup_cursor_group_data_by_cursor(id, language, raw_cursor_data));
     //Append cursor data
-    cursor_data.append(raw_cursor_data.substr(sizeof(uint16_t) * 2 /* hotspot position */));
+    append_image<cursordirentry>(cursor_data, 0, raw_cursor_data.substr(sizeof(uint16_t) * 2 /* hotspot position */));
     return cursor_data;
 }
 
@@ -265,7 +280,7 @@ const std::string resource_cursor_icon_reader::get_single_cursor_by_id(uint32_t
     //Get cursor headers
     std::string cursor_data(lookup_cursor_group_data_by_cursor(id, languages.at(index), raw_cursor_data));
     //Append cursor data
-    cursor_data.append(raw_cursor_data.substr(sizeof(uint16_t) * 2 /* hotspot position */));
+    append_image<cursordirentry>(cursor_data, 0, raw_cursor_data.substr(sizeof(uint16_t) * 2 /* hotspot position */));
     return cursor_data;
 }
 
@@ -288,8 +303,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
     //Add cursor header
     cur_data.append(reinterpret_cast<const char*>(info), sizeof(cursor_header));
 
-    //Iterate over all cursors listed in cursor group
-    uint32_t offset = sizeof(cursor_header) + sizeof(cursordirentry) * info->Count;
+    //Iterate over all cursors listed in cursor group (image sizes and offsets are set when images are added)
     for(uint16_t i = 0; i != info->Count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
@@ -313,13 +327,11 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         direntry.HotspotY = *reinterpret_cast<const uint16_t*>(cursor.data() + sizeof(uint16_t));
 
         //Fill the rest data
-        direntry.SizeInBytes = group->SizeInBytes - 2 * sizeof(uint16_t);
-        direntry.ImageOffset = offset;
+        direntry.SizeInBytes = 0;
+        direntry.ImageOffset = 0;
 
         //Add cursor header
         cur_data.append(reinterpret_cast<const char*>(&direntry), sizeof(cursordirentry));
-
-        offset += direntry.SizeInBytes;
     }
 
     //Return cursor count
@@ -341,7 +353,7 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(uint32_t langu
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data().substr(2 * sizeof(uint16_t));
+        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data().substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
@@ -362,7 +374,7 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
@@ -383,7 +395,7 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id_lang(uint32_t la
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data().substr(2 * sizeof(uint16_t));
+        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data().substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
@@ -404,7 +416,7 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
@@ -452,8 +464,8 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             direntry.HotspotY = *reinterpret_cast<const uint16_t*>(raw_cursor_data.data() + sizeof(uint16_t));
 
             //Fill the rest data
-            direntry.SizeInBytes = group->SizeInBytes - 2 * sizeof(uint16_t);
-            direntry.ImageOffset = sizeof(cursor_header) + sizeof(cursordirentry);
+            direntry.SizeInBytes = 0;
+            direntry.ImageOffset = 0;
 
             //Add cursor header
             cur_header_data.append(reinterpret_cast<const char*>(&direntry), sizeof(cursordirentry));
-- 
2.43.0


From 31f10adba2c82380873fa207392c96f4cd95e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 37/43] fix: read icon and cursor groups by index with the
 images of their language

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 39 ++++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 2f75f0a..00c9583 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -27,6 +27,27 @@ void append_image(std::string& file_data, uint16_t number, const std::string& im
     memcpy(&file_data[entry_pos], &direntry, sizeof(direntry));
     file_data += image_data;
 }
+
+//Returns data of icon or cursor of a group found by index in language directory:
+//the one of the group language or (if there's none) the one with the same index
+const std::string get_image_data(const pe_resource_viewer& res, pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index)
+{
+    const pe_resource_viewer::resource_language_list languages(res.list_resource_languages(type, id));
+    return std::find(languages.begin(), languages.end(), language) != languages.end()
+        ? res.get_resource_data_by_id(language, type, id).get_data()
+        : res.get_resource_data_by_id(type, id, index).get_data();
+}
+
+//Returns language with specified index in language directory of a group
+template<typename Id>
+uint32_t get_group_language(const pe_resource_viewer& res, pe_resource_viewer::resource_type type, const Id& id, uint32_t index)
+{
+    const pe_resource_viewer::resource_language_list languages(res.list_resource_languages(type, id));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
+
+    return languages.at(index);
+}
 }
 
 //Helper function of creating icon headers from ICON_GROUP resource data
@@ -103,6 +124,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
 
     //Get resource by name and index
     const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
+    const uint32_t language = get_group_language(res_, pe_resource_viewer::resource_icon_group, name, index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -111,7 +133,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data());
+        append_image<icondirentry>(ret, i, get_image_data(res_, pe_resource_viewer::resource_icon, group->Number, language, index));
     }
 
     return ret;
@@ -166,6 +188,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
 
     //Get resource by id and index
     const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
+    const uint32_t language = get_group_language(res_, pe_resource_viewer::resource_icon_group, id, index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -174,7 +197,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        append_image<icondirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data());
+        append_image<icondirentry>(ret, i, get_image_data(res_, pe_resource_viewer::resource_icon, group->Number, language, index));
     }
 
     return ret;
@@ -318,7 +341,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         //Now read hotspot data from cursor data directory
         const std::string cursor = index == 0xFFFFFFFF
             ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+            : get_image_data(res_, pe_resource_viewer::resource_cursor, group->Number, language, index);
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -366,15 +389,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
 
     //Get resource by name and index
     const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
+    const uint32_t language = get_group_language(res_, pe_resource_viewer::resource_cursor_group, name, index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t)));
+        append_image<cursordirentry>(ret, i, get_image_data(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
@@ -408,15 +432,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
 
     //Get resource by ID and index
     const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
+    const uint32_t language = get_group_language(res_, pe_resource_viewer::resource_cursor_group, id, index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        append_image<cursordirentry>(ret, i, res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t)));
+        append_image<cursordirentry>(ret, i, get_image_data(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t)));
     }
 
     return ret;
-- 
2.43.0


From 110365d377cc84658394fc9c98b25ef0a60880b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 38/43] fix: do not read version info strings past the end of
 the resource

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..1a2f5be 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t) /* length is in characters */)
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From 73d42a483dda41e723fd63dc61653441ed3854b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 39/43] fix: do not read incomplete translations past the end
 of version info

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 1a2f5be..5a205bc 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From f72ed34da4c0c235ede1f8bb22a9e8fdb6fe7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 40/43] fix: refuse version info that is too long for its block
 lengths

---
 src/pe_lib/resource_version_info_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..0054472 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -62,6 +62,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Block lengths have 16 bits
+    if(total_version_info_length > 0xFFFF)
+        throw pe_exception("Version info is too long", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From 9fc785d2359f9df59eab26d5c983904a4c40408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 41/43] fix: remove the strings of a translation written in
 capital digits

---
 src/pe_lib/version_info_editor.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..42dd38f 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -144,7 +144,22 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        //Hexadecimal digits of existing string tables may be in any case
+        const std::wstring table_name(ss.str());
+        for(lang_string_values_map::iterator it = strings_edit_.begin(); it != strings_edit_.end();)
+        {
+            std::wstring name((*it).first);
+            for(std::wstring::iterator ch = name.begin(); ch != name.end(); ++ch)
+            {
+                if(*ch >= L'A' && *ch <= L'F')
+                    *ch = static_cast<wchar_t>(*ch - L'A' + L'a');
+            }
+
+            if(name == table_name)
+                strings_edit_.erase(it++);
+            else
+                ++it;
+        }
     }
 
     //Find and erase translation from translations table
-- 
2.43.0


From 182b4249ee7d8be3a92231e2f02ad1b792fccb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 42/43] fix: reading version info with a block length near
 65535 does not hang

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 5a205bc..60de3de 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up(static_cast<uint32_t>(string_block->Length), sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up(static_cast<uint32_t>(string_table->Length), sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -236,7 +236,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up(static_cast<uint32_t>(var_table->Length), sizeof(uint32_t));
             }
         }
         else
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up(static_cast<uint32_t>(block->Length), sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From cd0cc686bc4875aba15acaccbe41e41461d21489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 43/43] fix: image size follows the last section when its sizes
 are recalculated or realigned

---
 src/pe_lib/pe_base.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 13327c8..1cae26b 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -214,6 +214,8 @@ void pe_base::realign_section(uint32_t index)
         //We can strip ending null bytes
         s.set_size_of_raw_data(static_cast<uint32_t>(s.get_raw_data().length() - strip));
         s.get_raw_data().resize(s.get_raw_data().length() - strip, 0);
+        //Virtual size of the last section may depend on its raw size
+        update_image_size();
     }
     else
     {
@@ -1612,6 +1614,10 @@ void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
     //Can occur only for last section
     if(pe_utils::align_up(s.get_virtual_size(), get_section_alignment()) < pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()))
         set_section_virtual_size(s, pe_utils::align_up(s.get_size_of_raw_data(), get_section_alignment())); //Recalculate section virtual size
+
+    //Update image size if we're recalculating the last section of this PE
+    if(!sections_.empty() && &s == &*(sections_.end() - 1))
+        update_image_size();
 }
 
 //Returns data from the beginning of image
-- 
2.43.0

