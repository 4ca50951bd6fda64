"""P12: change journal records decode field by field."""
import struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import Attributes, USN

def ft(v): return Attributes.DecodeFiletime(v)
ABS = {'dfir_ntfs.Attributes.DecodeFiletime': func_of('filetime')}

def real_record(buf):
    u = USN.GetUsnRecord(buf)
    if type(u) is USN.USN_RECORD_V4:
        return (4, u.get_record_length(), u.get_major_version(), u.get_minor_version(), u.get_file_reference_number(), u.get_parent_file_reference_number(), u.get_usn(), u.get_reason(), u.get_source_info(),
                u.get_remaining_extents(), u.get_number_of_extents(), u.get_extent_size())
    return (2, u.get_record_length(), u.get_major_version(), u.get_minor_version(), u.get_file_reference_number(), u.get_parent_file_reference_number(), u.get_usn(), u.get_timestamp(), u.get_reason(), u.get_source_info(),
            u.get_security_id(), u.get_file_attributes(), u.get_file_name_length(), u.get_file_name_offset())

def record(buf):
    """The bytes of the record at the start of buf."""
    if len(buf) < 8: raise ValueError('short')
    n = le(buf, 0, 4)
    if n < 8: raise ValueError('length')
    v = le(buf, 4, 2)
    if v < 2 or v > 4: raise NotImplementedError('version')
    least = 62
    if v == 3: least = 78
    if v == 4: least = 80
    if n < least or n % 8 != 0 or n > len(buf): raise ValueError('length')
    return buf[0:n]
def spec_record(buf):
    rec = record(buf)
    v = rec[4]
    if v == 4:
        return (4, len(rec), 4, le(rec, 6, 2), le(rec, 8, 16), le(rec, 24, 16), le(rec, 40, 8), le(rec, 48, 4), le(rec, 52, 4), le(rec, 56, 4), le(rec, 60, 2), le(rec, 62, 2))
    w = 8
    if v == 3: w = 16
    d = 2 * w - 16
    return (2, len(rec), v, le(rec, 6, 2), le(rec, 8, w), le(rec, 8 + w, w), le(rec, 24 + d, 8), ft(le(rec, 32 + d, 8)), le(rec, 40 + d, 4), le(rec, 44 + d, 4), le(rec, 48 + d, 4), le(rec, 52 + d, 4),
            le(rec, 56 + d, 2), le(rec, 58 + d, 2))

def real_name(buf): return USN.GetUsnRecord(buf).get_file_name()
def spec_name(buf):
    rec = record(buf)
    d = 0
    if rec[4] == 3: d = 16
    n = le(rec, 56 + d, 2)
    o = le(rec, 58 + d, 2)
    if o + n > len(rec) and n > 0: raise ValueError('name')
    return rec[o:o + n].decode('utf-16le', errors='replace')
def pre_name(buf): return len(buf) >= 6 and le(buf, 4, 2) < 4

def real_extents(buf):
    for e in USN.GetUsnRecord(buf).extents(): yield e
def spec_extents(buf):
    rec = record(buf)
    left = le(rec, 60, 2)
    size = le(rec, 62, 2)
    at = 64
    while left > 0:
        if size > 0 and at + size > len(rec): return
        if size == 16: yield (sle(rec, at, 8), sle(rec, at + 8, 8))
        else: yield rec[at:at + size]
        at = at + size
        left = left - 1
def pre_extents(buf): return len(buf) >= 6 and le(buf, 4, 2) == 4

REASONS = ['DATA_OVERWRITE', 'DATA_EXTEND', 'DATA_TRUNCATION', None, 'NAMED_DATA_OVERWRITE', 'NAMED_DATA_EXTEND', 'NAMED_DATA_TRUNCATION', None, 'FILE_CREATE', 'FILE_DELETE', 'EA_CHANGE', 'SECURITY_CHANGE',
           'RENAME_OLD_NAME', 'RENAME_NEW_NAME', 'INDEXABLE_CHANGE', 'BASIC_INFO_CHANGE', 'HARD_LINK_CHANGE', 'COMPRESSION_CHANGE', 'ENCRYPTION_CHANGE', 'OBJECT_ID_CHANGE', 'REPARSE_POINT_CHANGE', 'STREAM_CHANGE',
           'TRANSACTED_CHANGE', 'INTEGRITY_CHANGE', None, None, None, None, None, None, None, 'CLOSE']
SOURCES = ['DATA_MANAGEMENT', 'AUXILIARY_DATA', 'REPLICATION_MANAGEMENT', 'CLIENT_REPLICATION_MANAGEMENT'] + [None] * 28
def real_codes(v): return (USN.ResolveReasonCodes(v), USN.ResolveSourceCodes(v))
def codes(v, names, prefix):
    out = []
    rest = 0
    for b in range(32):
        if v >> b & 1:
            if names[b] is not None: out.append(prefix + names[b])
            else: rest += 1 << b
    if rest: out.append(hex(rest))
    return ' | '.join(out)
def spec_codes(v): return (codes(v, REASONS, 'USN_REASON_'), codes(v, SOURCES, 'USN_SOURCE_'))

def usn_record(r, v=None):
    v = v or r.choice([2, 2, 3, 4, 4])
    ref = (lambda: r.randrange(1 << 64)) if v == 2 else None
    w = 8 if v == 2 else 16
    refs = gens.rb(r, 2 * w)
    if v < 4:
        off = 60 if v == 2 else 76; nm = gens.rb(r, r.choice([2 * r.randrange(0, 8), 2 * r.randrange(0, 8), 2 * r.randrange(0, 250), 256 - off, 512 - off]))
        body = struct.pack('<HH', r.choice([2, 3, 4]) if r.random() < 0.03 else v, r.choice([0, 1])) + refs + struct.pack('<QQLLLLHH', r.randrange(1 << 62), r.randrange(1 << 62), r.randrange(1 << 32), r.randrange(16), r.randrange(1 << 32), r.randrange(1 << 16), len(nm) + r.choice([0] * 9 + [2, 40]), off) + nm
    else:
        es = r.choice([16, 16, 16, 0, 8]); k = r.choice([1, 2, 3, 3, 12, 28, 60])
        body = struct.pack('<HH', v, 0) + refs + struct.pack('<QLLLHH', r.randrange(1 << 62), r.randrange(1 << 32), 0, r.randrange(4), k + r.choice([0, 0, 0, 1]), es) + gens.rb(r, es * k)
    n = (4 + len(body) + 7) // 8 * 8
    if v == 4: n = max(n, 80)
    n = max(n, 64) if v == 2 else max(n, 80)
    return struct.pack('<L', n if r.random() < 0.95 else r.choice([n - 8, n + 8, n + 1, 8, 0, 4])) + body.ljust(n - 4, b'\x00')
def gen_record(r):
    b = usn_record(r)
    return {'buf': gens.mutate(r, b + gens.rb(r, r.choice([0, 0, 8, 30])), 1)[:r.choice([9999, 9999, 9999, 70, 7])]}
def gen_name(r):
    while True:
        d = {'buf': usn_record(r, r.choice([2, 3])) + gens.rb(r, r.choice([0, 20]))}
        if pre_name(**d): return d
def gen_extents(r): return {'buf': usn_record(r, 4) + gens.rb(r, r.choice([0, 20]))}
def gen_codes(r): return {'v': r.choice([1 << r.randrange(32), 1 << r.randrange(32) | 1 << r.randrange(32), r.randrange(1 << 32), r.randrange(1 << 32) & r.randrange(1 << 32), 0, (1 << 32) - 1])}

G = ['USN.GetUsnRecord', 'USN.USN_RECORD_V2_OR_V3', 'USN.USN_RECORD_V4']
CONTRACTS = [
    Contract('usn_record', G, {'buf': Bytes()}, real_record, spec_record, abstracts=ABS, gen=gen_record),
    Contract('usn_file_name', G, {'buf': Bytes()}, real_name, spec_name, pre=pre_name, gen=gen_name),
    Contract('usn_extents', ['USN.USN_RECORD_V4.extents'], {'buf': Bytes()}, real_extents, spec_extents, pre=pre_extents, gen=gen_extents,
             loops=[Loop({'left': 'number_of_extents', 'at': 'pos_relative'}, inv=lambda at, left: at >= 64 and left >= 0, variant=lambda left: left)]),
    Contract('usn_codes', ['USN.ResolveReasonCodes', 'USN.ResolveSourceCodes'], {'v': Int(0, (1 << 32) - 1)}, real_codes, spec_codes, gen=gen_codes, bounded=True, fixed_cases=[{'v': 1 << a | 1 << b} for a in range(32) for b in range(32)],
             note='all values with one or two bits set, and generated 32-bit values'),
]
