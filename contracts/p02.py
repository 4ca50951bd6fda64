"""P02: file record segments: multi-sector fixups, header validation, header fields."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import MFT

def header_ok(data, uo, cnt):
    """The header of an accepted segment (after the fixups)."""
    size = le(data, 28, 4)
    if size != 1024 and size != 4096: return False
    if size > len(data): return False
    used = le(data, 24, 4)
    if used < 42 or used > size: return False
    fa = le(data, 20, 2)
    return fa >= 8 and fa % 8 == 0 and fa <= size - 24 and fa >= uo + 2 * cnt

def fields(data, uo, num):
    if uo < 48: n = num
    else: n = le(data, 42, 2) * 4294967296 + le(data, 44, 4)
    return (data[0:4] != b'FILE', le(data, 8, 8), le(data, 16, 2), le(data, 18, 2), le(data, 20, 2), le(data, 22, 2), le(data, 22, 2) % 2 == 1, le(data, 24, 4), le(data, 28, 4),
            le(data, 32, 8), le(data, 32, 8) == 0, le(data, 40, 2), n)

def real_frs(buf, fix):
    return bytes(MFT.FileRecordSegment(buf, fix).frs_data)

def real_fields(buf, num):
    f = MFT.FileRecordSegment(buf, False, num)
    return (f.is_bad(), f.get_logfile_sequence_number(), f.get_sequence_number(), f.get_reference_count(), f.get_first_attribute_offset(), f.get_flags(), f.is_in_use(),
            f.get_first_free_byte_offset(), f.get_file_record_segment_size(), f.get_base_file_record_segment(), f.is_base_file_record_segment(), f.get_next_attribute_instance(),
            f.get_master_file_table_number())

def spec_frs(buf, fix):
    n = len(buf)
    if n != 1024 and n != 4096: raise MFT.FileRecordSegmentException('size')
    sig = buf[0:4]
    if sig not in (b'FILE', b'BAAD', b'CHKD'): raise MFT.FileRecordSegmentSignatureException('signature')
    uo = le(buf, 4, 2)
    cnt = le(buf, 6, 2)
    data = bytearray(buf)
    if fix:
        if uo < 42 or uo > 506: raise MFT.FileRecordSegmentException('array offset')
        if (cnt - 1) * 512 != n: raise MFT.FileRecordSegmentException('array size')
        if uo + cnt * 2 >= n: raise MFT.FileRecordSegmentException('array bounds')
        usn = buf[uo:uo + 2]
        used = le(buf, 24, 4)
        for k in range(n // 512):
            tail = 512 * k + 510
            if data[tail:tail + 2] != usn:
                if 512 * k < used: raise MFT.FileRecordSegmentException('torn write inside the used region')
                if k > 0: break
            data[tail] = data[uo + 2 + 2 * k]
            data[tail + 1] = data[uo + 3 + 2 * k]
    if not header_ok(data, uo, cnt): raise MFT.FileRecordSegmentException('header')
    return bytes(data)

def spec_fields(buf, num):
    data = spec_frs(buf, False)
    return fields(data, le(buf, 4, 2), num)

# declarative reading of the fixup: in an accepted record every used sector carried the sequence number
def real_torn(buf, k):
    try:
        f = MFT.FileRecordSegment(buf)
    except MFT.FileRecordSegmentException:
        return True
    uo = f.usa_offset
    if 512 * k >= len(buf) or f.get_first_free_byte_offset() <= 512 * k: return True
    return buf[512 * k + 510:512 * k + 512] == buf[uo:uo + 2]
def spec_torn(buf, k):
    return True

# bytes other than the sector tails are untouched
def real_frame(buf, i):
    try:
        f = MFT.FileRecordSegment(buf)
    except MFT.FileRecordSegmentException:
        return True
    return f.frs_data[i] == buf[i] and len(f.frs_data) == len(buf)
def pre_frame(buf, i):
    return i < len(buf) and i % 512 < 510
def spec_frame(buf, i):
    return True

EDGE = list(range(0, 60)) + [510, 511, 1022, 1023]
def gen_frs(r):
    b = gens.frs(r, short=r.random() < 0.15, declared=r.choice([None, None, 1024, 4096, 512]), used=r.choice([None] * 6 + [0, 41, 42, 512, 513, 1024, 1025]))
    b = gens.mutate(r, b, 1 if r.random() < 0.5 else 3, EDGE)
    if r.random() < 0.03: b = b[:-1]
    if r.random() < 0.03: b = b[:512]
    return {'buf': b, 'fix': r.random() < 0.85}
def gen_fields(r):
    return {'buf': gen_frs(r)['buf'], 'num': r.choice([None, 0, 77])}
def gen_torn(r):
    return {'buf': gen_frs(r)['buf'], 'k': r.randrange(0, 8)}
def gen_frame(r):
    b = gen_frs(r)['buf']
    i = r.randrange(len(b)); i -= 2 if i % 512 >= 510 else 0
    return {'buf': b, 'i': i}

F = ['MFT.FileRecordSegment.__init__', 'MFT.FileRecordSegment.parse_and_validate_multi_sector_header', 'MFT.FileRecordSegment.apply_update_sequence_array',
     'MFT.FileRecordSegment.validate_file_record_segment_header']
G = ['MFT.FileRecordSegment.' + g for g in ('is_bad', 'get_logfile_sequence_number', 'get_sequence_number', 'get_reference_count', 'get_first_attribute_offset', 'get_flags', 'is_in_use',
     'get_first_free_byte_offset', 'get_file_record_segment_size', 'get_base_file_record_segment', 'is_base_file_record_segment', 'get_next_attribute_instance', 'get_master_file_table_number')]
CONTRACTS = [
    Contract('frs_accept_1024', F, {'buf': Bytes(1024), 'fix': Bool()}, real_frs, spec_frs, gen=gen_frs),
    Contract('frs_accept_4096', F, {'buf': Bytes(4096), 'fix': Bool()}, real_frs, spec_frs, weight=2),
    Contract('frs_fields', F + G, {'buf': Bytes(1024), 'num': Opt(Int())}, real_fields, spec_fields, gen=gen_fields),
    Contract('frs_fields_4096', F + G, {'buf': Bytes(4096), 'num': Opt(Int())}, real_fields, spec_fields),
    Contract('frs_other_size', F, {'buf': Bytes(), 'fix': Bool()}, real_frs, spec_frs, pre=lambda buf, fix: len(buf) != 1024 and len(buf) != 4096),
    Contract('frs_torn_write', F, {'buf': Bytes(1024), 'k': Int(0, 7)}, real_torn, spec_torn, gen=gen_torn),
    Contract('frs_torn_write_4k', F, {'buf': Bytes(4096), 'k': Int(0, 7)}, real_torn, spec_torn),
    Contract('frs_frame', F, {'buf': Bytes(1024), 'i': Int(0)}, real_frame, spec_frame, pre=pre_frame, gen=gen_frame),
    Contract('frs_frame_4k', F, {'buf': Bytes(4096), 'i': Int(0)}, real_frame, spec_frame, pre=pre_frame),
]
