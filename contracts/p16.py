"""P16: NTFS log records, NTFS restart areas and table dumps decode field by field, with their targets."""
import struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import LogFile

bad = LogFile.ClientException

RESIDENT = (0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0B, 0x0C, 0x0D, 0x11, 0x13, 0x21, 0x23, 0x25)
NONRESIDENT = (0x08, 0x0E, 0x0F, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24)

def real_record(buf, lsn, tid):
    c = LogFile.ClientData(buf, 1, lsn, tid, 4096).data_decoded()
    return (type(c) is LogFile.NTFSLogRecord, c.lsn, c.transaction_id, c.get_redo_operation(), c.get_undo_operation(), c.get_redo_length(), c.get_undo_length(), c.get_target_attribute(), c.get_lcns_to_follow(), c.get_record_offset(),
            c.get_attribute_offset(), c.get_cluster_block_offset(), c.get_target_block_size(), c.get_target_vcn())
def spec_record(buf, lsn, tid):
    if len(buf) < 32: raise bad('short')
    return (True, lsn, tid, le(buf, 0, 2), le(buf, 2, 2), le(buf, 6, 2), le(buf, 10, 2), le(buf, 12, 2), le(buf, 14, 2), le(buf, 16, 2), le(buf, 18, 2), le(buf, 20, 2), le(buf, 22, 2), sle(buf, 24, 8))

def rec(buf, cluster=4096): return LogFile.NTFSLogRecord(buf, 1, 2, cluster)
def real_data(buf, undo):
    c = rec(buf)
    return bytes(c.get_undo_data()) if undo else bytes(c.get_redo_data())
def spec_data(buf, undo):
    if len(buf) < 32: raise bad('short')
    at = 4
    if undo: at = 8
    n = le(buf, at + 2, 2)
    if n == 0: return b''
    o = le(buf, at, 2)
    if 0 < o < 32: raise bad('offset')
    return bytes(buf[o:o + n])

def real_lcns(buf): return rec(buf).get_lcns_for_page()
def spec_lcns(buf):
    if len(buf) < 32: raise bad('short')
    out = []
    n = le(buf, 14, 2)
    k = 0
    while k < n:
        if 40 + 8 * k > len(buf): raise bad('truncated')
        out.append(sle(buf, 32 + 8 * k, 8))
        k = k + 1
    return out

def op_class(buf):
    redo = le(buf, 0, 2)
    undo = le(buf, 2, 2)
    if redo in RESIDENT or undo in RESIDENT: return 'resident'
    if redo in NONRESIDENT or undo in NONRESIDENT: return 'nonresident'
    return 'other'
def real_target(buf, cluster):
    c = rec(buf, cluster)
    return (c.calculate_mft_target_number(), c.calculate_offset_in_target())
def spec_target(buf, cluster):
    if len(buf) < 32: raise bad('short')
    k = op_class(buf)
    byte = sle(buf, 24, 8) * cluster + le(buf, 20, 2) * 512
    inner = le(buf, 16, 2) + le(buf, 18, 2)
    if k == 'resident':
        size = le(buf, 22, 2) * 512
        if size == 0: size = 1024
        return (byte // size, inner)
    if k == 'nonresident': return (None, byte + inner)
    return (None, None)

def real_restart(buf, lsn):
    c = LogFile.ClientData(buf, 2, lsn, 9, 4096).data_decoded()
    return (type(c) is LogFile.NTFSRestartArea, c.lsn, c.get_major_version(), c.get_minor_version(), c.get_start_of_checkpoint_lsn(), c.get_open_attribute_table_lsn(), c.get_attribute_names_lsn(), c.get_dirty_page_table_lsn(),
            c.get_transaction_table_lsn(), c.get_open_attribute_table_length(), c.get_attribute_names_length(), c.get_dirty_page_table_length(), c.get_transaction_table_length(), c.get_usn_journal_restart_offset(), c.get_last_lsn(),
            c.get_bytes_per_cluster(), c.get_usn_journal_reference(), c.get_usn_base(), c.get_oldest_lsn())
def spec_restart(buf, lsn):
    n = len(buf)
    if n < 64: raise bad('short')
    return (True, lsn, le(buf, 0, 4), le(buf, 4, 4), le(buf, 8, 8), le(buf, 16, 8), le(buf, 24, 8), le(buf, 32, 8), le(buf, 40, 8), le(buf, 48, 4), le(buf, 52, 4), le(buf, 56, 4), le(buf, 60, 4),
            sle(buf, 64, 8) if n >= 72 else None, le(buf, 72, 8) if n >= 80 else None, le(buf, 80, 4) if n >= 84 else None, le(buf, 88, 8) if n >= 96 else None, sle(buf, 96, 8) if n >= 104 else None, le(buf, 104, 8) if n >= 112 else None)

def real_type(buf, t):
    try: LogFile.ClientData(buf, t, 1, 2, 4096).data_decoded()
    except NotImplementedError: return 'not supported'
    return 'decoded'
def pre_type(buf, t): return len(buf) >= 64
def spec_type(buf, t): return 'decoded' if t == 1 or t == 2 else 'not supported'

def real_oat(buf, index, version): return LogFile.OpenAttributeTableDumpParser(buf, version).find_file_reference_by_index(index)
def spec_oat(buf, index, version):
    least = 40
    at = 16
    if version < 1:
        least = 44
        at = 8
    if index + least > len(buf): raise bad('index')
    return le(buf, index + at, 8)
def real_oat_entry(buf, version):
    if version >= 1:
        e = LogFile.OpenAttributeEntry1(buf)
        return (e.get_allocated_or_next_free(), e.get_bytes_per_index_buffer(), e.get_attribute_type_code(), e.get_file_reference(), e.get_lsn_of_open_record(), None)
    e = LogFile.OpenAttributeEntry0(buf)
    return (e.get_allocated_or_next_free(), e.get_bytes_per_index_buffer(), e.get_attribute_type_code(), e.get_file_reference(), e.get_lsn_of_open_record(), e.get_table_index())
def spec_oat_entry(buf, version):
    if version >= 1:
        if len(buf) < 40: raise bad('short')
        return (le(buf, 0, 4), le(buf, 4, 4), le(buf, 8, 4), le(buf, 16, 8), le(buf, 24, 8), None)
    if len(buf) < 44: raise bad('short')
    return (le(buf, 0, 4), le(buf, 40, 4), le(buf, 28, 4), le(buf, 8, 8), le(buf, 16, 8), le(buf, 4, 4))

def real_names(buf, index): return LogFile.AttributeNamesDumpParser(buf).find_name_by_index(index)
def spec_names(buf, index):
    pos = 0
    while pos < len(buf):
        if pos + 8 > len(buf): return None
        n = le(buf, pos + 2, 2)
        if le(buf, pos, 2) == index: return buf[pos + 4:pos + 4 + n].decode('utf-16le', errors='replace')
        pos = pos + 6 + n
    return None

# the target of a nonresident update: the open attribute table first, then the dumps
def real_reference(buf, ref, oat, an, have):
    c = rec(buf)
    if have: c.oat = {5: (ref, 'name')}
    if have != 2:
        c.oat_dump = LogFile.OpenAttributeTableDumpParser(oat, 1)
        c.an_dump = LogFile.AttributeNamesDumpParser(an)
    return c.calculate_mft_target_reference_and_name()
def spec_reference(buf, ref, oat, an, have):
    if len(buf) < 32: raise bad('short')
    if not have: return None
    if le(buf, 0, 2) not in NONRESIDENT and le(buf, 2, 2) not in NONRESIDENT: return None
    i = le(buf, 12, 2)
    if i == 5: return (ref, 'name')
    if have == 2 or i + 40 > len(oat): return None
    return (le(oat, i + 16, 8), spec_names(an, i))

def op(r): return r.choice([r.randrange(0, 0x28), r.randrange(0, 0x28), r.randrange(1 << 16)])
def log_record(r, redo=None, undo=None):
    a = gens.rb(r, r.choice([0, 8, 24, 40])); b = gens.rb(r, r.choice([0, 8, 16]))
    k = r.choice([0, 1, 1, 2]); o = 32 + 8 * k
    h = struct.pack('<HHHHHHHHHHHHq', redo if redo is not None else op(r), undo if undo is not None else op(r), o if a else r.choice([0, 8, 31, 32]), len(a), o + len(a) if b else r.choice([0, 1]), len(b), r.choice([0, 5, 24, 64, r.randrange(1 << 16)]), k,
                    r.choice([0, 56, 312]), r.randrange(0, 200), r.choice([0, 2, 6, r.randrange(1 << 16)]), r.choice([0, 2, 8, r.randrange(1 << 16)]), r.choice([0, 1, 100, -1, r.randrange(-(1 << 63), 1 << 63)]))
    return h + gens.rb(r, 8 * k) + a + b
def gen_record(r): return {'buf': gens.mutate(r, log_record(r), 1)[:r.choice([9999] * 9 + [31, 32, 40])], 'lsn': r.randrange(1 << 64), 'tid': r.randrange(1 << 32)}
def gen_data(r): return {'buf': gen_record(r)['buf'], 'undo': r.random() < 0.5}
def gen_buf(r): return {'buf': gen_record(r)['buf']}
def gen_target(r): return {'buf': gen_record(r)['buf'], 'cluster': r.choice([512, 1024, 4096, 65536, 0, 1 << 21])}
def gen_restart(r): return {'buf': gens.rb(r, r.choice([0, 63, 64, 71, 72, 79, 80, 83, 84, 90, 95, 96, 103, 104, 111, 112, 120])), 'lsn': r.randrange(1 << 64)}
def gen_type(r): return {'buf': gens.rb(r, 64), 't': r.choice([0, 1, 2, 3, 255])}
def gen_oat(r):
    n = r.choice([0, 24, 40, 64, 83, 84, 120, 128]); return {'buf': gens.rb(r, n), 'index': r.choice([0, 24, 40, 44, 64, n, max(0, n - 40), max(0, n - 44), max(0, n - 39), 65535]), 'version': r.choice([0, 1, 2])}
def gen_oat_entry(r): return {'buf': gens.rb(r, r.choice([39, 40, 43, 44, 50])), 'version': r.choice([0, 1, 2])}
def names(r):
    out = b''
    for _ in range(r.randrange(0, 4)):
        n = r.choice(['', '$I30', 'a', '$SDH', 'xyz']).encode('utf-16le'); out += struct.pack('<HH', r.choice([0, 24, 64, 104]), len(n) + (r.random() < 0.05)) + n + b'\0\0'
    return (out + bytes(r.choice([0, 2, 4, 4, 8])))[:r.choice([999, 999, 999, 20, 7])]
def gen_names(r): return {'buf': names(r), 'index': r.choice([0, 24, 64, 104, 5])}
def gen_reference(r): return {'buf': gen_record(r)['buf'], 'ref': r.randrange(1 << 64), 'oat': gens.rb(r, r.choice([0, 63, 64, 104, 200])), 'an': names(r), 'have': r.choice([0, 1, 1, 2])}

U64 = Int(0, (1 << 64) - 1); U32 = Int(0, (1 << 32) - 1); U16 = Int(0, 65535)
N = ['LogFile.NTFSLogRecord']
NAMES = [Loop({'pos': 'pos'}, inv=lambda pos: pos >= 0, variant=lambda pos, buf: len(buf) - pos)]
CONTRACTS = [
    Contract('log_record_fields', N + ['LogFile.ClientData'], {'buf': Bytes(), 'lsn': U64, 'tid': U32}, real_record, spec_record, gen=gen_record),
    Contract('log_record_data', N, {'buf': Bytes(), 'undo': Bool()}, real_data, spec_data, gen=gen_data),
    Contract('log_record_lcns', N, {'buf': Bytes()}, real_lcns, spec_lcns, gen=gen_buf, loops=[Loop({'k': 'i', 'out': 'lcns'}, inv=lambda k: k >= 0, variant=lambda k, n: n - k)]),
    Contract('log_record_target', N, {'buf': Bytes(), 'cluster': Int(0, 1 << 32)}, real_target, spec_target, gen=gen_target),
    Contract('log_record_reference', N, {'buf': Bytes(), 'ref': U64, 'oat': Bytes(), 'an': Bytes(), 'have': Enum(0, 1, 2)}, real_reference, spec_reference, gen=gen_reference, loops=[Loop({'pos': 'pos'}, inv=lambda pos: pos >= 0, func='spec_names')]),
    Contract('ntfs_restart_area', ['LogFile.NTFSRestartArea'], {'buf': Bytes(), 'lsn': U64}, real_restart, spec_restart, gen=gen_restart),
    Contract('client_record_type', ['LogFile.ClientData.data_decoded'], {'buf': Bytes(), 't': U32}, real_type, spec_type, pre=pre_type, gen=gen_type),
    Contract('open_attribute_table_dump', ['LogFile.OpenAttributeTableDumpParser'], {'buf': Bytes(), 'index': U16, 'version': Enum(0, 1, 2)}, real_oat, spec_oat, gen=gen_oat),
    Contract('open_attribute_entry', ['LogFile.OpenAttributeEntry1', 'LogFile.OpenAttributeEntry0'], {'buf': Bytes(), 'version': Enum(0, 1, 2)}, real_oat_entry, spec_oat_entry, gen=gen_oat_entry),
    Contract('attribute_names_dump', ['LogFile.AttributeNamesDumpParser'], {'buf': Bytes(), 'index': U16}, real_names, spec_names, gen=gen_names, loops=NAMES),
]
