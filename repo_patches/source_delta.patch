From 15b43c0eedcf3033bd63936ee67c5235ad28757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 01/15] fix: do not end iteration silently at an event that
 fails to parse

The legacy __getitem__ iteration protocol treats any IndexError raised while
parsing an event as the end of the sequence, so read_all_events_from_pml
returned a shortened list instead of raising.
---
 procmon_parser/logs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 113c10b..e17d4e2 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -322,6 +322,11 @@ class PMLStructReader(object):
 
         raise TypeError("Bad index")
 
+    def __iter__(self):
+        # Without this, iteration falls back to __getitem__ and takes an IndexError of a malformed event as the end.
+        for offset in self.events_offsets:
+            yield self.get_event_at_offset(offset)
+
     def _get_os_name(self):
         windows_names = {
             (6, 0): "Windows Vista",
-- 
2.43.0


From 0b181c118aeb399b567d020423f4f84d0395da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 02/15] fix: parse QueryDirectory events with an empty path

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..22957e4 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From efe3ffd61e823354a3baa0aef91a50a2ac1b018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 03/15] fix: skip the padding before FileId in
 FILE_ID_FULL_DIR_INFORMATION

FileId is 8-byte aligned in the structure (offset 72, the name is at 80), as the
FILE_ID_BOTH_DIR_INFORMATION branch already takes into account.
---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 22957e4..75ae323 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -406,6 +406,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                 continue
             if file_information_class == FileInformationClass.FileIdFullDirectoryInformation:
                 # FILE_ID_FULL_DIR_INFORMATION structure
+                extra_detail_io.seek(4, 1)  # Padding
                 file_id = read_u64(extra_detail_io)
                 event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                 continue
-- 
2.43.0


From 1da5d7c396f60b4e179c58c5e29143a547351064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 04/15] fix: keep the filter in a directory query's path when
 details are off

should_get_details only controls the Detail column, but with it off the path of
QueryDirectory events lost the directory filter that the Path column shows.
---
 procmon_parser/stream_logs_detail_format.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 75ae323..66d7e34 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -344,12 +344,20 @@ def get_filesystem_read_metadata_details(io, metadata, event, details_io, extra_
     event.category = "Read Metadata"
 
 
-def get_filesystem_query_directory_details(io, metadata, event, details_io, extra_detail_io):
-    event.category = "Read Metadata"
+def read_query_directory_name(io, event):
+    """Reads the filter of a directory query, which is a part of the event's path as well
+    """
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
         event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
+    return directory_name
+
+
+def get_filesystem_query_directory_details(io, metadata, event, details_io, extra_detail_io):
+    event.category = "Read Metadata"
+    directory_name = read_query_directory_name(io, event)
+    if directory_name:
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
@@ -638,6 +646,8 @@ def get_filesystem_event_details(io, metadata, event, extra_detail_io):
     event.path = read_detail_string(io, path_info)
     if metadata.should_get_details and event.operation in FilesystemSubOperationHandler:
         FilesystemSubOperationHandler[event.operation](io, metadata, event, details_io, extra_detail_io)
+    elif event.operation == FilesysemDirectoryControlOperation.QueryDirectory.name:
+        read_query_directory_name(io, event)  # the Path column doesn't depend on should_get_details
 
 
 def get_process_created_details(io, metadata, event, extra_detail_io):
-- 
2.43.0


From 0f6141942b72ce7743f4e8e40a0b247762bfe473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 05/15] fix: report the handle tags of RegSetInfoKey events

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 66d7e34..c27eb45 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 6bba34c273c4e46b9f305d5db22bcfbd2bc8d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 06/15] fix: parse registry queries with an unknown information
 class

---
 procmon_parser/stream_logs_detail_format.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index c27eb45..cd76549 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -141,12 +141,13 @@ def get_registry_load_or_rename_extra_details(metadata, event, extra_detail_io,
 
 def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryKey and RegEnumKey is always Read
-    key_information_class = RegistryKeyInformationClass(details_info["information_class"])
+    key_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumKey.name:
         event.details["Index"] = details_info["index"]  # Only in enum
     elif event.operation == RegistryOperation.RegQueryKey.name:
-        event.details["Query"] = key_information_class.name # Only in query
+        event.details["Query"] = get_enum_name_or(RegistryKeyInformationClass, key_information_class,
+                                                  "<Unknown: {}>".format(key_information_class))  # Only in query
 
     if not extra_detail_io:
         #  There is no extra details
@@ -200,7 +201,7 @@ def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_i
 
 def get_registry_query_or_enum_value_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryValue and RegEnumValue are always Read
-    key_value_information_class = RegistryKeyValueInformationClass(details_info["information_class"])
+    key_value_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumValue.name:
         event.details["Index"] = details_info["index"]  # Only in enum
-- 
2.43.0


From e68bddaef1c4b8590d12f70ad72edc00d5f06f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 07/15] fix: an unknown file information class does not make a
 QueryDirectory event unreadable

---
 procmon_parser/stream_logs_detail_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index cd76549..d0c7767 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -368,8 +368,8 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     if metadata.sizeof_pvoid == 8:
         details_io.seek(4, 1)  # Padding for 64 bit
 
-    file_information_class = FileInformationClass(read_u32(details_io))
-    event.details["FileInformationClass"] = file_information_class.name
+    file_information_class = read_u32(details_io)
+    event.details["FileInformationClass"] = get_enum_name_or(FileInformationClass, file_information_class, "<unknown>")
 
     if extra_detail_io and file_information_class in [FileInformationClass.FileDirectoryInformation,
                                                       FileInformationClass.FileFullDirectoryInformation,
-- 
2.43.0


From 21dba6a4e393821c7ed4f6fa25959b0d531c7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 08/15] fix: a directory entry chain that ends with the block
 does not make the event unreadable

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d0c7767..687d8ed 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -384,7 +384,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
         i = 0 if directory_name else -1
         while True:
             i += 1
-            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) > extra_detail_length:
+            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) >= extra_detail_length:
                 break  # No more structures
 
             extra_detail_io.seek(current_entry_offset + next_entry_offset, 0)
-- 
2.43.0


From b78b85091699b59e41e8aa95a5691a0d9ef616c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 09/15] fix: a SID too short for its fixed part does not make
 the event unreadable

---
 procmon_parser/stream_logs_detail_format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 687d8ed..06d6b99 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -25,6 +25,8 @@ def get_enum_name_or(enum, val, default):
 
 
 def get_sid_string(sid):
+    if len(sid) < 8:
+        return ''  # Too short for the fixed part
     revision = unpack('B', sid[0:1])[0]
     if revision != 1:
         return ''  # Not 1 doesn't exist yet
-- 
2.43.0


From 6cfd485ab906810cc0394506b84ffca2dbc7edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 10/15] fix: compute the RAM size in hundredths of a GB without
 floating-point error

---
 procmon_parser/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index e17d4e2..ebd7174 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -351,6 +351,6 @@ class PMLStructReader(object):
             "Operating System": self._get_os_name(),
             "System Root": self.header.system_root,
             "Logical Processors": self.header.number_of_logical_processors,
-            "Memory (RAM)": "{} GB".format((self.header.ram_memory_size / (1024.0 ** 3)) // 0.01 / 100),
+            "Memory (RAM)": "{} GB".format(self.header.ram_memory_size * 100 // 1024 ** 3 / 100.0),
             "System Type": "64-bit" if self.header.is_64bit else "32-bit"
         }
-- 
2.43.0


From 7253518cb1a5dc47a6683aa15dbf32338cb8d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 11/15] fix: dump rules whose value is no 32-bit decimal number

---
 procmon_parser/configuration_format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..cd876bc 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -6,6 +6,7 @@ from io import BytesIO
 
 from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
     Rebuild, Default, Pointer, StreamError
+from six import text_type
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -58,7 +59,8 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 
 def get_rule_integer_value(column, value):
-    if value.isdigit():
+    # Other digits (like superscripts) have no integer value, and the integer in the file has 32 bits.
+    if text_type(value).isdecimal() and int(value) <= 0xffffffff:
         return int(value)
 
     if column == Column.ARCHITECTURE:
-- 
2.43.0


From 1c8fe2bbe68a4af1e1588caf72a3a8c3f764040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 12/15] fix: do not drop the rest of a column list at an
 unknown column

---
 procmon_parser/construct_helper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/construct_helper.py b/procmon_parser/construct_helper.py
index 3200246..e6718c4 100644
--- a/procmon_parser/construct_helper.py
+++ b/procmon_parser/construct_helper.py
@@ -1,5 +1,5 @@
-from construct import Enum, Adapter, IfThenElse, PaddedString, CString, GreedyString, FixedSized, GreedyRange, Bytes, \
-    GreedyBytes, If, Check, CheckError
+from construct import Array, Enum, Adapter, IfThenElse, PaddedString, CString, GreedyString, FixedSized, GreedyRange, \
+    Bytes, GreedyBytes, If, Check, CheckError
 from six import text_type, string_types
 
 
@@ -61,8 +61,11 @@ def FixedUTF16CString(size_func, ctx_str_name):
 def FixedArray(size_func, subcon):
     """At parse time parses a fixed sized array, and at build time builds the array with its given size.
     """
+    # Not GreedyRange when parsing, because it takes any error of an element as the end of the array
     return ListAdapter(
-        IfThenElse(lambda this: this._parsing, FixedSized(size_func, GreedyRange(subcon)), GreedyRange(subcon)))
+        IfThenElse(lambda this: this._parsing,
+                   FixedSized(size_func, Array(lambda this: size_func(this) // subcon.sizeof(), subcon)),
+                   GreedyRange(subcon)))
 
 
 def FixedBytes(size_func):
-- 
2.43.0


From 0e17cccf44f43e8015ff44554f2048f5b2680508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 13/15] fix: refuse a log that ends inside one of its table
 strings

---
 procmon_parser/stream_logs_format.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..592470d 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -68,6 +68,15 @@ class EventOffsetsArray(list):
         self.extend(offsets)
 
 
+def read_table_string(io, size):
+    """Reads a string of one of the tables; a string that the end of the file cuts off is not a shorter string.
+    """
+    data = io.read(size)
+    if len(data) < size:
+        raise PMLError("PML is truncated and cannot be opened.")
+    return read_utf16(BytesIO(data), size)
+
+
 class StringsTable(list):
     def __init__(self, io):
         super(StringsTable, self).__init__()
@@ -80,7 +89,7 @@ class StringsTable(list):
         for i, offset in enumerate(strings_offsets_array):
             io.seek(string_table_start + offset, 0)
             string_size = read_u32(io)
-            strings[i] = read_utf16(io, string_size)
+            strings[i] = read_table_string(io, string_size)
         self.extend(strings)
 
 
@@ -159,7 +168,7 @@ class HostnamesTable(dict):
         for _ in range(number_of_hostnames):
             ip = io.read(16)
             hostname_len = read_u32(io)
-            hostname = read_utf16(io, hostname_len)
+            hostname = read_table_string(io, hostname_len)
             self[ip] = hostname
 
 
@@ -171,7 +180,7 @@ class PortsTable(dict):
             port_value = read_u16(io)
             is_tcp = bool(read_u16(io))
             port_len = read_u32(io)
-            port_name = read_utf16(io, port_len)
+            port_name = read_table_string(io, port_len)
             self[(port_value, is_tcp)] = port_name
 
 
-- 
2.43.0


From dbcf13a4b91be80cc349db6e6123bf0a8dd7c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 14/15] fix: refuse an event whose details are cut off by the
 end of the file

---
 procmon_parser/stream_logs_format.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 592470d..6b56399 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -187,6 +187,15 @@ class PortsTable(dict):
 CommonEventStruct = Struct("<IIIHHIQQIHHII")
 
 
+def read_event_block(io, size):
+    """Reads a block of an event's data; a block that the end of the file cuts off is not a shorter block.
+    """
+    data = io.read(size)
+    if len(data) < size:
+        raise PMLError("PML is truncated, the event cannot be read.")
+    return BytesIO(data)
+
+
 def read_event(io, metadata):
     """Reads the event that the stream points to.
 
@@ -213,7 +222,7 @@ def read_event(io, metadata):
     event = Event(process=process, tid=tid, event_class=event_class, operation=operation, duration=duration,
                   date_filetime=date, result=result, stacktrace=stacktrace, category='', path='', details=details)
 
-    details_stream = BytesIO(io.read(details_size))
+    details_stream = read_event_block(io, details_size)
     extra_details_stream = None
     if extra_details_offset > 0:
         # The extra details structure surprisingly can be separated from the event structure
@@ -224,7 +233,7 @@ def read_event(io, metadata):
         current_offset = io.tell()
         io.seek(extra_details_offset, 1)
         extra_details_stream_size = read_u16(io)
-        extra_details_stream = BytesIO(io.read(extra_details_stream_size))
+        extra_details_stream = read_event_block(io, extra_details_stream_size)
         io.seek(current_offset, 0)
     get_event_details(details_stream, metadata, event, extra_details_stream)
     return event
-- 
2.43.0


From cd301be176dd9efd7a87b8c3b6de7bddfc0ac39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 15/15] fix: do not allocate the event offsets array before its
 entries are read

A log whose header records a huge number of events made the reader allocate up to 32 GB instead of refusing the log.
---
 procmon_parser/stream_logs_format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 6b56399..6d15da3 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -61,9 +61,9 @@ class EventOffsetsArray(list):
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
         stream = BytesIO(io.read(total_size))
-        offsets = [0] * number_of_events
-        for i in range(number_of_events):
-            offsets[i] = read_u32(stream)
+        offsets = []
+        for _ in range(number_of_events):
+            offsets.append(read_u32(stream))
             _ = read_u8(stream)  # Unknown flags
         self.extend(offsets)
 
-- 
2.43.0

