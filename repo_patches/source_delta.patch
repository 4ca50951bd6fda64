From f28de0d76d93bb6d367dff1567a53c18c2bdab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:21 +0000
Subject: [PATCH 01/17] fix: do not return bytes beyond the end of a file in
 FragmentedFile.read()

---
 dfir_ntfs/MFT.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..f93fd8e 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1455,8 +1455,9 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
-			size = self.file_size - self.current_offset_in_file
+		bytes_available = self.file_size - self.current_offset_in_file
+		if size is None or size < 0 or size > bytes_available: # Do not read beyond the end of a file (a last cluster can be used partially).
+			size = bytes_available
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
 			return b''
-- 
2.43.0


From d90ba9a166a6c077df24dbc45d83ed1e2419d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:31 +0000
Subject: [PATCH 02/17] fix: do not raise AssertionError when getting the GUID
 of a third-party reparse point from a file record (bytearray value)

---
 dfir_ntfs/Attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..5322262 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -978,7 +978,7 @@ class ReparsePoint(GenericAttribute):
 		"""Get and return the reparse GUID. Third-party reparse points only!"""
 
 		if not self.is_reparse_tag_microsoft():
-			data = self.value[8 : 24]
+			data = bytes(self.value[8 : 24])
 			return uuid.UUID(bytes_le = data)
 
 	def get_reparse_buffer(self):
-- 
2.43.0


From 43a6ba42ce6ae6bec309bf4a1cfb93fa6db87254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:06 +0000
Subject: [PATCH 03/17] fix: reject a truncated restart area or client record
 with the exceptions of the module, not with struct.error

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..154672e 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -313,6 +313,9 @@ class RestartArea(object):
 	def __init__(self, restart_area_raw, system_page_size):
 		self.buf = restart_area_raw
 
+		if len(self.buf) < 44:
+			raise RestartAreaException('Truncated restart area')
+
 		client_array_offset = self.get_client_array_offset()
 		if client_array_offset == 0 or client_array_offset % 8 != 0 or client_array_offset >= len(self.buf) or client_array_offset >= system_page_size:
 			raise RestartAreaException('Invalid client array offset: {}'.format(client_array_offset))
@@ -419,6 +422,9 @@ class ClientRecord(object):
 	def __init__(self, client_record_raw):
 		self.buf = client_record_raw
 
+		if len(self.buf) < 32:
+			raise ClientRecordException('Truncated client record')
+
 		client_name_length = self.get_client_name_length()
 		if client_name_length > 128: # Do not cross the 'sizeof' boundary.
 			raise ClientRecordException('Invalid name length: {}'.format(client_name_length))
-- 
2.43.0


From 33e47887539061b3639cc30350befc7091981eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:46 +0000
Subject: [PATCH 04/17] fix: do not stop reading the log at a malformed client
 record

---
 dfir_ntfs/LogFile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 154672e..6cb7f73 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1355,18 +1355,18 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (NotImplementedError, ClientException):
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
-- 
2.43.0


From 7a42ae4ca302a85b4f8b31c4c532c16d081044e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:46 +0000
Subject: [PATCH 05/17] fix: use the sequence number of the current record when
 looking for the next one, and wrap after a record that ends in the last page

---
 dfir_ntfs/LogFile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6cb7f73..c9ad68e 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -889,7 +889,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
@@ -958,6 +958,12 @@ class LogFileParser(object):
 				candidate_offset_in_page = self.log_page_data_offset
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
+
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
 				if candidate_log_record_page is not None:
 					try:
-- 
2.43.0


From 7085635f105ba22c6d3c7e9dc9bba436b07d5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:46 +0000
Subject: [PATCH 06/17] fix: initialise use_dumps (a log without an NTFS
 restart area raised AttributeError)

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c9ad68e..c83f5c4 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -722,6 +722,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From 5a6e17c738a6b4781fdc44b497032e255b9ec4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:45 +0000
Subject: [PATCH 07/17] fix: reject mapping pairs with a negative offset (a
 data run before the volume)

---
 dfir_ntfs/MFT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index f93fd8e..5050ac5 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -160,6 +160,10 @@ def DecodeMappingPairs(MappingPairs):
 		else:
 			curr_offset += offset
 
+			if curr_offset < 0:
+				# A data run cannot start before a volume.
+				raise MappingPairsException('Invalid mapping pair: negative offset')
+
 			# According to Microsoft, "if this produces a CurrentLcn of 0, then the VCNs from CurrentVcn to NextVcn–1 are unallocated".
 			# However, this is not true for the $Boot file. So, allow the first cluster of a file to be the first cluster of a volume.
 			# ---
-- 
2.43.0


From 27e6cde15771e1564fa78d28d78c42d7aff1045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 08/17] fix: do not loop forever on cyclic chains of shadow
 blocks

---
 dfir_ntfs/ShadowCopy.py | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..34707e5 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,9 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +821,9 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +854,9 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +877,9 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +918,9 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1325,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1340,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1446,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1479,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1502,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1543,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop at the end of a chain (or when a chain is cyclic).
+			visited_offsets.add(curr_offset)
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 0a717d4b6641805c5302209fa6bb55795d1ed239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 09/17] fix: do not read beyond the end of a virtual volume of
 a shadow copy

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 34707e5..56ebce1 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1231,7 +1231,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of a virtual volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1787,7 +1787,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of a virtual volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0


From 299ca3822d9eaabac7e94f368943ba95adf76cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 10/17] fix: report an impossible FAT boot sector as a boot
 sector error

---
 dfir_ntfs/addons/FAT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..5bb07ba 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if totsec is None:
+				raise BootSectorException('Invalid number of sectors')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -139,7 +141,11 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
-	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
+	fatsz32 = BSBPB.get_bpb_fatsz32()
+	if fatsz32 is None: # There is no 16-bit number of FAT sectors, and this is not FAT32.
+		raise BootSectorException('Invalid number of FAT sectors')
+
+	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * fatsz32)
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
 	return CountofClusters
-- 
2.43.0


From 50a03a21ce19f0559fa3080bc1941c353fc73324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 11/17] fix: do not report empty orphan long names on FAT
 volumes

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5bb07ba..b02c03b 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1246,7 +1246,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1319,7 +1320,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1451,7 +1453,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None:
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 6b717791bf522304ddcb93e36403c5dea64d47bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:04 +0000
Subject: [PATCH 12/17] fix: report a truncated FSINFO sector as a file system
 information error

---
 dfir_ntfs/addons/FAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index b02c03b..1511bcc 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -873,6 +873,9 @@ class FSINFO(object):
 	def __init__(self, fsinfo_buf):
 		self.fsinfo_buf = fsinfo_buf
 
+		if len(self.fsinfo_buf) < 512:
+			raise FileSystemInfoException('Invalid FSI size')
+
 		if self.get_fsi_signatures() != (0x41615252, 0x61417272, 0xAA550000):
 			raise FileSystemInfoException('Invalid FSI signatures')
 
-- 
2.43.0


From 4795847ae923a3aa0a1bc9b48fa2eea0627d0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:54 +0000
Subject: [PATCH 13/17] fix: exFAT: reject a boot region shorter than 12
 sectors of its own size

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..791ca19 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -535,6 +535,9 @@ class BR(object):
 		if self.get_mustbezero() != b'\x00' * 53:
 			raise BootRegionException('Invalid (non-zero) null area')
 
+		if len(self.br_buf) < self.get_bytespersector() * 12:
+			raise BootRegionException('Truncated boot region')
+
 		if self.get_checksum() != self.calculate_checksum():
 			raise BootRegionChecksumException('Invalid boot region checksum')
 
-- 
2.43.0


From 6f754148bcd3fe5e014e8016b0797684424bea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:54 +0000
Subject: [PATCH 14/17] fix: exFAT: a cluster outside of a truncated allocation
 bitmap is invalid

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 791ca19..83f99bf 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1044,6 +1044,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From 5e7ff09eec1275a2122ab6a3b637329745716281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:54 +0000
Subject: [PATCH 15/17] fix: exFAT: compare invalid modification times of
 reallocated directories

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 83f99bf..1738ee5 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1253,7 +1253,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From 612d28064cc4266b963257083963e7e359ab41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:54 +0000
Subject: [PATCH 16/17] fix: exFAT: skip a directory with an invalid size
 instead of aborting the walk

---
 dfir_ntfs/addons/exFAT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 1738ee5..531ef4c 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1265,7 +1265,7 @@ class FileSystemParser(object):
 						except (FileSystemException, ValueError):
 							continue
 
-						if len(new_buf) == 0: # This directory is really empty, skip it.
+						if len(new_buf) < 512 or len(new_buf) % 512 != 0: # This directory is really empty or its size is invalid, skip it.
 							continue
 
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
@@ -1297,7 +1297,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 5f687da912c9a27336a1639f092cbe0b422b1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:29 +0000
Subject: [PATCH 17/17] fix: find a file by any of its hard links of the same
 name

---
 dfir_ntfs/MFT.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5050ac5..b9d26d6 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1080,6 +1080,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = [] # There can be many hard links with the same name.
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1089,11 +1091,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1121,13 +1123,13 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
-				if file_record.is_in_use() and parent_directory is not None:
-					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
-					else:
-						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+				for parent_directory in compare_name_against_file_record(last_path_component, file_record, case_sensitive):
+					if file_record.is_in_use():
+						if not must_be_directory:
 							candidate_parent_directories.append((parent_directory, file_record))
+						else:
+							if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+								candidate_parent_directories.append((parent_directory, file_record))
 
 			i += 1
 
@@ -1160,10 +1162,11 @@ class MasterFileTableParser(object):
 				except IndexError:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
-				if parent_directory is None:
+				parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # There are no hard links to a directory.
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0

