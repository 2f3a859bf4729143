From 0024556bfa2199b50bfb2ab7645fab43a6bb0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 01/15] fix: accept data messages that include the trailing
 padding fields

---
 pyulog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..4583256 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -753,7 +753,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -761,6 +760,10 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            # padding fields at the end may or may not be logged
+            for field in self.field_data:
+                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From 75f5f9487328ffb1faf093a3e618fbd854e61737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 02/15] fix: write char fields holding non-ASCII bytes back
 unchanged

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 4583256..21d7b5e 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = struct.pack('<b', field_data)
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From ecbd958461c053a3c6a7dc801798cf3c161a7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 03/15] fix: index parameter defaults by bit number for every
 bit

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 21d7b5e..283a0ca 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -835,7 +835,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1 # bit mask -> bit index
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 803ccbb5e79a8f5ebb7408ac264f0ab2106531c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 04/15] fix: write info messages with any array type instead of
 raising KeyError

---
 pyulog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 283a0ca..b268490 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,11 +359,11 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
-            data.extend(value)
-        else:
+        elif value_type in self._UNPACK_TYPES:
             code = self._UNPACK_TYPES[value_type][0]
             data.extend(struct.pack('<' + code, value))
+        else: # array (or non-basic type), kept as raw bytes
+            data.extend(value)
 
         return data
 
-- 
2.43.0


From 56046cd2823c4ee6500aa13015c6c7cc302b8bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 05/15] fix: keep the file position in step with sync recovery

---
 pyulog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index b268490..ede74e7 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1120,6 +1120,7 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        curr_file_pos = self._file_handle.tell()
 
                 except IndexError:
                     if not self._file_corrupt:
-- 
2.43.0


From 0473e1eae772e8b0c6083459d77904b0cbf5cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 06/15] fix: an undecodable data section message must not end
 or abort the parsing

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index ede74e7..95b062a 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1122,7 +1122,7 @@ class ULog(object):
                                 self._find_sync(header.msg_size)
                         curr_file_pos = self._file_handle.tell()
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error): # undecodable message
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From c43dc202706afc2f7f0a04de2fc0797d7c526c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 07/15] fix: a time limit after the last sample must not raise
 IndexError

---
 pyulog/extract_message.py | 6 ++++--
 pyulog/ulog2csv.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..6b52714 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -38,10 +38,12 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    time_s_i = next(iter(np.where(data.data['timestamp'] >= time_s * 1e6)[0]),
+                    len(data.data['timestamp'])) \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = next(iter(np.where(data.data['timestamp'] >= time_e * 1e6)[0]),
+                    len(data.data['timestamp'])) \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..9863041 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -131,10 +131,12 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            time_s_i = next(iter(np.where(d.data['timestamp'] >= time_s * 1e6)[0]),
+                            len(d.data['timestamp'])) \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = next(iter(np.where(d.data['timestamp'] >= time_e * 1e6)[0]),
+                            len(d.data['timestamp'])) \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From ea0e708774fed8c824c5e5f1db575eb1883c5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 08/15] fix: migrate databases that already contain logs

---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..3305f5a 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # The migration files recreate referenced tables. Turning this off inside of
+        # their transactions would have no effect.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From 272cef31e9e9d47c864a8ca7a4dcd15818a3f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 09/15] fix: convert string fields with non-ASCII characters to
 CSV

---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 9863041..dc57a78 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = b''
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s += character.tobytes()
+    return s.decode('utf-8', 'replace')
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From 51eb42562a056521257520e8e13e46b37ceecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 10/15] fix: ulog_messages must not fail on an empty log
 message

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 051715a39a80363c68d84b23576b2151673fc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 11/15] fix: load a log that is cut within its first data
 section message

---
 pyulog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 95b062a..c1e5787 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -901,7 +901,7 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3: # end of the file (or it is cut)
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
@@ -924,7 +924,7 @@ class ULog(object):
                     self._add_parameter_default(msg_param)
                 elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG,
                       self.MSG_TYPE_LOGGING, self.MSG_TYPE_LOGGING_TAGGED):
-                    self._file_handle.seek(-(3+header.msg_size), 1)
+                    self._file_handle.seek(-(3+len(data)), 1)
                     break # end of section
                 elif header.msg_type == self.MSG_TYPE_FLAG_BITS:
                     # make sure this is the first message in the log
-- 
2.43.0


From ec48304709666fa7643f23f40aa0337b197ae656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 12/15] fix: set the schema version in the transaction of the
 migration

---
 pyulog/migrate_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 3305f5a..207ecfc 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,9 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # Part of the same transaction, so that the version always tells what was applied.
+    migration_lines = (migration_lines.strip()[:-len('COMMIT;')] +
+                       f'PRAGMA user_version = {migration_id};\nCOMMIT;')
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 0d6128a4d179287010ad6bfd2ca7f2f125269c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 13/15] fix: save logs with boolean, character or -inf values
 with append_json

---
 pyulog/db.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..c0791ca 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -2,6 +2,7 @@
 Module containing the DatabaseULog class.
 '''
 
+import json
 import sqlite3
 import hashlib
 import contextlib
@@ -561,16 +562,15 @@ class DatabaseULog(ULog):
                     values = dataset.data[field.field_name]
                     values_bytes = values.tobytes()
                     if append_json:
-                        # Precision is only good enough up to a few decimals,
-                        # depending on the default float formatter. The
-                        # function np.array2string was tested, but was slower.
-                        # Also note that doing the slow json.dumps is also
-                        # unnecessary since we know that the object to be
-                        # formatted is an array.
+                        # JSON has no not-a-number or infinity: these become
+                        # null. Characters are stored as text.
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
-                        values_json = str(
-                            dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        value_list = values.tolist()
+                        if values.dtype.kind == 'S':
+                            value_list = [v.decode('latin-1') for v in value_list]
+                        values_json = json.dumps(
+                            dict(zip(timestamp_list, value_list))
+                        ).replace('NaN', 'null').replace('-Infinity', 'null').replace('Infinity', 'null')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From cc3e1ebc56c4d275f449dd07580ebb4026231c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 14/15] fix: digest of an open log file covers the whole file
 and leaves it readable

---
 pyulog/db.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index c0791ca..6a90d35 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -123,11 +123,16 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            # The digest covers the whole file, and whoever opened the file can
+            # continue to read it from where it is.
+            position = open_file.tell()
+            open_file.seek(0)
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From 607d73f15714031adbe8b23437d2fa3ec42f998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 15/15] fix: migration files in a directory with braces in its
 name were not found

---
 pyulog/migrate_db.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 207ecfc..5e58a1c 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -74,8 +74,7 @@ def _read_migration_file(migration_id, sql_dir):
     Read the migration file with id "migration_id" in directory "sql_dir", and
     check that it handles transactions strictly.
     '''
-    migration_filename_format = os.path.join(sql_dir, 'pyulog.{migration_id}.sql')
-    migration_filename = migration_filename_format.format(migration_id=migration_id)
+    migration_filename = os.path.join(sql_dir, f'pyulog.{migration_id}.sql')
     if not os.path.exists(migration_filename):
         raise FileNotFoundError(f'Migration file {migration_filename} does not exist. '
                                 f'Stopped after migration {migration_id}.')
-- 
2.43.0

