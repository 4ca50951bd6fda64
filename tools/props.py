"""The properties (text), in one place; tools/mkmeta.py turns them into properties.jsonl and MANIFEST.json."""
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD = ('Every obligation generated from the current source of the named functions is discharged by z3 for all inputs and all loop iterations (no bound); '
       'trusted: the pyvc translation of Python semantics (cross-checked natively on every run), z3, and the external models listed in the evidence.')
WHY = 'The tests parse a handful of fixed sample files, none of them malformed in the ways that matter; this must hold for every byte string.'
ALL = [
 dict(id='P01', title='Mapping pairs decode to exactly the data runs they encode',
  statement='For every byte string, decoding NTFS mapping pairs yields exactly the (start cluster, length) runs that the on-disk format defines: signed deltas accumulate over previous non-sparse runs, sparse runs carry no start and leave the base unchanged, decoding stops at the terminator. Every malformed encoding (truncated fields, a non-positive length, a negative resulting cluster, oversized counts) is rejected with the mapping-pairs error and with no other exception.',
  quant='all byte strings of any length', why=WHY, files=['dfir_ntfs/MFT.py'], mech=[('DecodeMappingPairs', 'dfir_ntfs/MFT.py')], note=STD),
 dict(id='P02', title='File record segments are unprotected and their headers decoded exactly',
  statement='A file record segment is accepted only if its signature, sizes, offsets and update sequence array are consistent; on acceptance the last two bytes of every protected stride are replaced by the saved ones, every other byte is unchanged, and each header field (log sequence number, sequence number, base reference, link count, flags, first-attribute offset) equals the stored little-endian value. Everything else is rejected with the file-record error and no other exception.',
  quant='all byte strings, with and without fixups, 1024- and 4096-byte segments', why=WHY, files=['dfir_ntfs/MFT.py'], mech=[('FileRecordSegment', 'dfir_ntfs/MFT.py')], note=STD),
 dict(id='P03', title='Attribute enumeration of a segment is exact, bounded and terminating',
  statement='Enumerating the attributes of a file record segment yields, in order, exactly the attribute records stored before the end marker or the used size, with their type, name, value or mapping pairs and sizes, never reads a value outside its record, and terminates; a malformed attribute record ends the enumeration with the attribute error. The slack of a segment is exactly the bytes after the end marker, and is absent when there is no end marker.',
  quant='all 1024- and 4096-byte segments', why=WHY, files=['dfir_ntfs/MFT.py'], mech=[('FileRecordSegment.attributes / get_slack', 'dfir_ntfs/MFT.py')],
  note=STD + ' The repeated-call behaviour of the slack is a bounded stand-in (generated segments).'),
 dict(id='P04', title='Update sequence arrays of index buffers and log pages are undone exactly',
  statement='For index buffers and log record pages, the multi-sector update sequence array is validated against every protected stride and then undone so that only the last two bytes of each stride change and they become the saved values. Buffers whose array is out of bounds, misaligned or does not match are rejected with the error of their parser.',
  quant='all buffers of the supported sizes', why=WHY, files=['dfir_ntfs/Attributes.py', 'dfir_ntfs/LogFile.py'], mech=[('IndexBuffer', 'dfir_ntfs/Attributes.py'), ('NTFSLogRecordPage', 'dfir_ntfs/LogFile.py')], note=STD),
 dict(id='P05', title='A fragmented file reads as one flat, bounded byte string',
  statement='Reading a non-resident file through its run list returns, for every position and length, exactly the bytes of the flat concatenation of its runs (zeros for sparse runs) clipped to the file size, and advances the position by the number of bytes returned; seeking follows the usual three origins and rejects negative results and unknown origins. Reading past the runs or a short volume raises the file-table error rather than returning wrong data.',
  quant='all run lists, cluster sizes, volume offsets, file sizes, positions and lengths', over=['inputs', 'histories'], why='Tests read a few files from start to end; every position/length/run-list combination matters to a user carving arbitrary ranges.', files=['dfir_ntfs/MFT.py'], mech=[('FragmentedFile', 'dfir_ntfs/MFT.py')], note=STD),
 dict(id='P06', title='Looking up a file record by number gives that record or an error',
  statement='For every file table, looking up a segment or file record by number returns exactly the segment stored at that number, unprotected and with its header decoded, with the child segments whose base reference is this record, in table order. A sequence number, when given, must match (allowing for the one step of a released segment), a child segment is returned only on request, and everything else (beyond the table, damaged, mismatched) is the file-table error. References split into number and sequence number and join back without loss.',
  quant='all tables of 1024- and 4096-byte segments, all numbers and sequence numbers', why=WHY, files=['dfir_ntfs/MFT.py'], mech=[('MasterFileTableParser.get_file_record_by_number, get_file_record_segment_by_number', 'dfir_ntfs/MFT.py'), ('DecodeFileRecordSegmentReference, EncodeFileRecordSegmentReference', 'dfir_ntfs/MFT.py')],
  note=STD + ' 4096-byte file records: proved for one number; the version check on opening and tables with child segments (after the first pass): bounded stand-ins on generated tables.'),
 dict(id='P07', title='The extents of one attribute join into one run list and size',
  statement='For every list of nonresident extents of an attribute (spread over a base record and its children, in any order), the data runs returned are those of the extents joined by virtual cluster number, and the size is the one of the first extent; a gap, an overlap, a missing first extent or a bad encoding is the file-table error. The attributes and slack of a file record are those of its base segment and then of its children, in order; the file table of a volume reads as exactly the joined content, attribute lists included.',
  quant='all extents (proved for one, two and three extents of any content)', why='Tests read volumes whose attributes mostly have one extent; out-of-order, missing and duplicate extents never occur in them.', files=['dfir_ntfs/MFT.py'], mech=[('FileRecord.get_data_runs, get_data_size, attributes, slack', 'dfir_ntfs/MFT.py'), ('FileSystemParser', 'dfir_ntfs/MFT.py')],
  note=STD + ' Mapping pairs are abstracted by the contract of P01. Enumerating attributes and slack over several segments and reading the table out of a volume: bounded stand-ins.'),
 dict(id='P08', title='Full paths of a file are exact, and a path finds its file',
  statement='For every file table, the full paths of a file record are exactly the chains of names from each of its names to the root directory, long names preferred for directories; a chain that meets a missing, reused, non-directory or repeated parent is marked as unknown from there, and building paths always terminates. Looking up a path returns the first in-use file record that has this path under any of its names (hard links included), honouring case sensitivity and a trailing separator, or nothing.',
  quant='all file tables with well-formed names', over=['inputs', 'histories'], why='Tests build paths on two or three sample tables; loops of directories, reused parents and hard links of equal name never occur in them.', files=['dfir_ntfs/MFT.py'], mech=[('MasterFileTableParser.build_full_paths', 'dfir_ntfs/MFT.py'), ('MasterFileTableParser.get_file_record_by_path', 'dfir_ntfs/MFT.py')],
  note=STD + ' Proved: the path of a name over any parents (of up to two names each), where looking up a parent is abstracted by the contract of P06. Several names of a file and the search by path: bounded stand-ins on generated tables. Truncated $FILE_NAME values are outside the statement.'),
 dict(id='P09', title='Enumerating a file table visits every base record once and in order',
  statement='Enumerating the file records of a table yields exactly the valid base records, in table order and each once, skips damaged segments without hiding those after them, includes released records only when asked, and terminates on every table. After the first pass every base record comes with its child segments, and the statistics count base and child segments exactly.',
  quant='all tables', why='Tests enumerate a few sample tables; damaged, released, orphaned and truncated segments occur in few of them.', files=['dfir_ntfs/MFT.py'], mech=[('MasterFileTableParser.file_records, execute_first_pass', 'dfir_ntfs/MFT.py')],
  note=STD + ' Proved for 1024-byte segments before the first pass, tables below 2**57 bytes; with child segments, and 4096-byte segments: bounded stand-ins.'),
 dict(id='P10', title='Timestamps decode to the stored instant',
  statement='Every 64-bit FILETIME, GUID timestamp and Unix time (seconds and nanoseconds) decodes to the instant it stores, to within one microsecond (plus the spacing of double-precision numbers of that magnitude), and order is preserved; a value beyond the year 9999 decodes to no timestamp (or raises the overflow error in the strict mode) and never to another instant.',
  quant='all 64-bit values', why='Tests compare a few dozen timestamps; every stored value is evidence in a timeline.', files=['dfir_ntfs/Attributes.py', 'dfir_ntfs/WSL.py'], mech=[('DecodeFiletime / DecodeGUIDTime', 'dfir_ntfs/Attributes.py'), ('DecodeUnixtime', 'dfir_ntfs/WSL.py')],
  note=STD + ' timedelta(microseconds=x/10) is modelled as correctly rounded within the double spacing.'),
 dict(id='P11', title='NTFS attribute values decode field by field, from any container',
  statement='For every value of $STANDARD_INFORMATION (full or partial), $FILE_NAME, $OBJECT_ID, $ATTRIBUTE_LIST, $VOLUME_INFORMATION, $INDEX_ROOT and $INDEX_ALLOCATION buffers and entries, $REPARSE_POINT and $EA, each field returned equals the stored little-endian value at its on-disk offset, lists are enumerated completely and in order and always terminate, and a malformed value is rejected with the attribute error. The result is the same whether the value is bytes or a bytearray.',
  quant='all byte strings, as values of each attribute type', why=WHY, files=['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py'], mech=[('the attribute classes', 'dfir_ntfs/Attributes.py')],
  note=STD + ' Timestamps are abstracted by the contract of P10. Slack entries of index buffers are a bounded stand-in.'),
 dict(id='P12', title='Change journal records decode field by field',
  statement='A change journal record of version 2, 3 or 4 is accepted exactly when its length and version are consistent with the buffer; then every field (references of 8 or 16 bytes, USN, timestamp, reason, source, security id, attributes, name, extents) equals the stored value, and nothing outside the record is read. Reason and source codes are resolved to exactly the names of the set bits, and unknown bits are kept in hexadecimal.',
  quant='all byte strings', why=WHY, files=['dfir_ntfs/USN.py'], mech=[('GetUsnRecord and the record classes', 'dfir_ntfs/USN.py')], note=STD + ' Code resolution (string building) is a bounded stand-in over all one- and two-bit values.'),
 dict(id='P13', title='The scan of a change journal finds exactly the records it holds',
  statement='Scanning a change journal of any content yields exactly the valid records met on the 8-byte grid, each once, in file order and with its stored bytes: an invalid cell advances the scan by 8 bytes, a record by its length, a sparse region is skipped without losing a record. The scan terminates on every file.',
  quant='all files of any size', why=WHY, files=['dfir_ntfs/USN.py'], mech=[('ChangeJournalParser.usn_records', 'dfir_ntfs/USN.py')], note=STD + ' That skipping an empty chunk loses no record is proved per cell and checked on whole generated journals (bounded).'),
 dict(id='P14', title='Log sequence numbers and log file positions are inverse',
  statement='For every valid log geometry, the position of a log record in the log file follows from its log sequence number alone, converting a position back with its sequence number gives the same log sequence number, and log sequence numbers are ordered by the cycle of the log first and by the position second. The page after the last page is the first record page of the log, never a restart or tail page.',
  quant='all log sequence numbers, positions and page numbers, for the geometries of the supported versions', why='Tests convert a few log sequence numbers of one sample log.', files=['dfir_ntfs/LogFile.py'], mech=[('LogFileParser.decode_lsn / create_lsn / wrap', 'dfir_ntfs/LogFile.py')], note=STD + ' The geometry is the one of a set of concrete restart pages (all sequence-number widths in use).'),
 dict(id='P15', title='Log restart pages, areas, clients and record pages decode exactly',
  statement='Restart pages, restart areas, client records, log record pages and log record headers are accepted only when consistent, and then every field equals the stored little-endian value at its on-disk offset; the log opens with the newer valid restart area of the two. A truncated or inconsistent structure is rejected with the errors of the module and no other exception, and the data of a record is collected across its pages without losing or duplicating a byte.',
  quant='all byte strings as pages of the log', why=WHY, files=['dfir_ntfs/LogFile.py'], mech=[('NTFSRestartPage, NTFSRestartArea, LogClientRecord, NTFSLogRecordPage, LogRecord', 'dfir_ntfs/LogFile.py')], note=STD + ' Opening a whole log file is proved for logs of the minimum layouts and otherwise a bounded stand-in.'),
 dict(id='P16', title='NTFS log client records decode field by field',
  statement='Every field of an NTFS log record (operations, redo and undo data, target attribute, LCNs, VCN, offsets), of an NTFS restart area and of the dumped open attribute and attribute name tables equals the stored value at its on-disk offset. Target file references and byte offsets are computed from them exactly; a malformed record is rejected with the client error and nothing outside the record is read.',
  quant='all byte strings as client data', why=WHY, files=['dfir_ntfs/LogFile.py'], mech=[('NTFSLogRecord, NTFSRestartArea, OpenAttributeEntry, the table dumps', 'dfir_ntfs/LogFile.py')], note=STD),
 dict(id='P26', title='Parsing a log reports every record since the oldest, once and in order',
  statement='Parsing a log file reports every log record from the oldest one kept to the last one written, each once, in log order and with its data, across the wrap from the last page to the first and with the tail and fast pages applied; a malformed client record does not hide the records after it. On a damaged log the parser stops or continues but never repeats a record, never loops and never fails with a foreign exception.',
  quant='all logs (bounded stand-in: generated and damaged logs of 1 to 8 record pages)', over=['inputs', 'histories'], why='Tests parse a few sample logs; wraps, tail pages, damaged pages and malformed records occur in few of them.', files=['dfir_ntfs/LogFile.py'], mech=[('LogFileParser.parse_ntfs_records, find_next_lsn', 'dfir_ntfs/LogFile.py')],
  level='exploration', technique='bounded stand-in for contract-based verification: the contract of the traversal is executed against the real code on generated and damaged logs',
  note='Bounded, not proved: the traversal is a set of mutually dependent generators over a page cache, out of reach of the verifier as one obligation; its parts are proved in P14, P15 and P16.'),
 dict(id='P17', title='Partition tables yield exactly the partitions they describe',
  statement='For every volume, the GUID partition table header is taken from the first valid location (primary, then the alternate named by the primary, then the last sector), a header or entry array with any inconsistency or checksum mismatch is rejected, and the partitions returned are exactly the used entries with their stored fields. The MBR and the chain of extended boot records yield exactly the used entries with absolute positions, and following the chain terminates even when it is cyclic.',
  quant='all volumes of any size and content', why='Tests read two or three sample tables; damaged primaries, relocated backups, cyclic chains and odd entry sizes never occur in them.', files=['dfir_ntfs/PartitionTable.py'], mech=[('GPT', 'dfir_ntfs/PartitionTable.py'), ('MBR', 'dfir_ntfs/PartitionTable.py')],
  note=STD + ' Headers: proved per location for 512- and 4096-byte sectors; extended chains: proved for two MBR entries in use; the general cases are bounded stand-ins. binascii.crc32 is uninterpreted.'),
 dict(id='P18', title='Shadow copy metadata decodes exactly and chains terminate',
  statement='Every field of the volume shadow copy header, control blocks and items, diff area tables, bitmaps, location and application information blocks equals the stored value at its on-disk offset, and a malformed block is rejected with the documented error. Enumerating a chain of blocks is complete and in order, visits no block twice and terminates even when the chain is cyclic or leaves the volume. Selecting a shadow copy, by number or against another one, pairs each store with exactly the metadata recorded for its identifier, in creation order.',
  quant='all volumes of any size and content', why='Tests read two or three sample volumes; cyclic chains, unknown items, blocks at the volume end and unmatched stores never occur in them.', files=['dfir_ntfs/ShadowCopy.py'], mech=[('ControlBlock, DiffAreaTableBlock, ...', 'dfir_ntfs/ShadowCopy.py'), ('ShadowParser.shadows, select_shadow', 'dfir_ntfs/ShadowCopy.py')],
  note=STD + ' Block decoding and each chain: proved; shadows() over several control blocks and selection: bounded stand-ins.'),
 dict(id='P19', title='A shadow copy presents exactly the volume at its creation',
  statement='For every selected shadow copy, offset and length, reading returns the bytes that each 16-KiB block had when the copy was made: the block stored by this copy or by the first newer one that holds it (with overlays and forwarders applied), zeros for blocks outside every bitmap, and the live volume otherwise. Reads of any alignment return min(length, bytes to the volume end) bytes, and seek and tell follow the standard file semantics.',
  quant='all volumes, stores, offsets and lengths', why='Tests compare digests of sample volumes; forwarders, overlays that combine, unaligned reads over block boundaries and the volume end are not sampled.', files=['dfir_ntfs/ShadowCopy.py'], mech=[('ShadowParser.read, read_block, translate', 'dfir_ntfs/ShadowCopy.py'), ('ShadowParserTwoVolumes', 'dfir_ntfs/ShadowCopy.py')],
  note=STD + ' Splitting into blocks, a block over abstract translation results, bitmaps, seek: proved; translate over whole chains of stores: bounded stand-in against an independent oracle.'),
 dict(id='P20', title='FAT chains, contents and the directory walk are complete and terminate',
  statement='For every table of 12-, 16- or 32-bit entries, reading an element, the allocation state, the dirty and error flags and a cluster chain gives what the table stores: chains stop at an end mark, a free or reserved entry or a cluster met before, report a bad cluster as such, and never loop; a chain reads as its clusters in order, cut to the requested size. The walk reports every entry of every reachable directory under its full path once per path, does not follow directory loops, recovers deleted directories only under the documented conditions, lists orphan directories, and fails only with the documented errors.',
  quant='all volumes and tables', why='Tests read a few sample images; cyclic and cross-linked chains, bad clusters, truncated volumes and loops of directories are not sampled.', files=['dfir_ntfs/addons/FAT.py'], mech=[('FAT', 'dfir_ntfs/addons/FAT.py'), ('FileSystemParser.read_chain, walk', 'dfir_ntfs/addons/FAT.py')], note=STD + ' The table and chains: proved for all tables; reading a chain: proved for four geometries; the recursive walk: bounded stand-in on generated volumes against an independent oracle.'),
 dict(id='P21', title='A FAT boot sector gives the exact volume geometry or an error',
  statement='For every boot sector, the FAT type (12/16/32), number of data clusters, cluster size, offset and size of the active FAT, start of the data area and every stored field equal what the format defines, including 256-sector clusters, small FAT32 volumes, disabled FAT mirroring and 64-bit sector counts. An impossible geometry is rejected with the boot sector error (an unknown FAT32 version with NotImplementedError) and no other exception; the file system information sector is accepted only with its three signatures.',
  quant='all byte strings and volumes', why=WHY, files=['dfir_ntfs/addons/FAT.py'], mech=[('BSBPB, GetCountOfClusters, IsFileSystem*', 'dfir_ntfs/addons/FAT.py'), ('FSINFO', 'dfir_ntfs/addons/FAT.py'), ('FileSystemParser.__init__', 'dfir_ntfs/addons/FAT.py')], note=STD),
 dict(id='P22', title='FAT directory entries keep names, times and deletion state',
  statement='For every directory buffer, each used or deleted short entry is reported once and in order with its name (case flags, the 0x05 and deletion marks, code page), attributes, size, first cluster and exact timestamps (an invalid date or time gives None); a long name is attached only to the entry whose checksum and sequence it matches, and a long name with no such entry is reported as an orphan. A buffer that is not a positive number of 512-byte sectors is rejected with the directory entries error and no other exception.',
  quant='all byte strings', why=WHY, files=['dfir_ntfs/addons/FAT.py'], mech=[('DirectoryEntries.entries', 'dfir_ntfs/addons/FAT.py'), ('ParseShortName, BuildLongName, BuildChecksum, DecodeFATDate, DecodeFATTime', 'dfir_ntfs/addons/FAT.py')], note=STD + ' Joining a path: bounded stand-in.'),
 dict(id='P23', title='exFAT volumes decode exactly; damage is confined to what it hits',
  statement='For every exFAT boot region, allocation table, bitmap and directory buffer, geometry, checksums, chains, allocation state, names, labels, timestamps with their zones, sizes and flags equal what the format stores, and only entry sets that are valid (and, when in use, match their checksum) become files, each once and in order. Opening falls back to the backup boot region, the walk reports every entry of every reachable directory under its path without following loops, and a malformed structure gives the documented file system error and never stops the rest of the walk.',
  quant='all byte strings and volumes', why='Tests read a few sample images; broken entry sets, truncated bitmaps, odd directory sizes, cyclic directories and damaged boot regions are not sampled.', files=['dfir_ntfs/addons/exFAT.py'], mech=[('BR', 'dfir_ntfs/addons/exFAT.py'), ('FAT, Bitmap, DirectoryEntries', 'dfir_ntfs/addons/exFAT.py'), ('FileSystemParser', 'dfir_ntfs/addons/exFAT.py')], note=STD + ' Boot region, table, bitmap, names, directory entries: proved for all inputs; reading a chain: proved for three geometries; opening and the recursive walk: bounded stand-ins on generated volumes against an independent oracle.'),
 dict(id='P24', title='Move table and WSL metadata decode field by field',
  statement='Every field of the tracking log header, sector footer and log entries, and of the WSL extended attributes and attribute block, equals the stored value at its on-disk offset; machine names end at their first NUL, event times are the exact bounds that the stored half timestamp allows. Enumerating sectors, entries and extended attributes is complete, in order, skips only unused entries and terminates; a malformed structure is rejected with the documented error.',
  quant='all byte strings and files', why=WHY, files=['dfir_ntfs/MoveTable.py', 'dfir_ntfs/WSL.py'], mech=[('Header, LogEntry, LogSector, MoveTableParser', 'dfir_ntfs/MoveTable.py'), ('LXXATTR, LXATTRB', 'dfir_ntfs/WSL.py')], note=STD + ' Decoding of machine names (code pages) is a bounded stand-in over all single bytes and generated strings.'),
 dict(id='P25', title='The NTFS boot sector gives the exact geometry or an error',
  statement='For every boot sector, the sector size, cluster size (including the negative power-of-two form), file record and index record sizes (signed form), cluster numbers of $MFT and $MFTMirr, total sectors and serial number equal what the on-disk format defines. An impossible value (zero, misaligned, wrong signature or size) is rejected with the boot sector error and no other exception.',
  quant='all byte strings', why=WHY, files=['dfir_ntfs/BootSector.py'], mech=[('BootSector', 'dfir_ntfs/BootSector.py')], note=STD),
]
def built(p): return os.path.exists(os.path.join(H, 'contracts', p['id'].lower() + '.py'))
PROPS = [p for p in ALL if built(p) and not p.get('reason')]
NA = [dict(p, reason=p.get('reason', 'not built yet')) for p in ALL if p not in PROPS]
