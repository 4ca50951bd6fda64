"""P11: attribute values decode field by field."""
import struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of, inplace_of
from contracts.speclib import le, sle
from contracts import gens
from contracts.p04 import block
from dfir_ntfs import Attributes, MFT

def ft(v): return Attributes.DecodeFiletime(v)
ABS = {'dfir_ntfs.Attributes.DecodeFiletime': func_of('filetime'), 'dfir_ntfs.Attributes.DecodeGUIDTime': func_of('guidtime')}

def real_si(value):
    s = Attributes.StandardInformation(bytearray(value))
    return (s.get_ctime(), s.get_mtime(), s.get_etime(), s.get_atime(), s.get_file_attributes(), s.get_maximum_versions(), s.get_version_number(), s.get_extra_flags(), s.is_case_sensitive(),
            s.get_storage_reserve_id(), s.get_known_folder_information(), s.get_trust_level(), s.get_class_id(), s.get_owner_id(), s.get_security_id(), s.get_quota_charged(), s.get_usn())
def opt(b, o, n): return le(b, o, n) if len(b) >= o + n else None
def spec_si(value):
    x = le(value, 40, 4)
    return (ft(le(value, 0, 8)), ft(le(value, 8, 8)), ft(le(value, 16, 8)), ft(le(value, 24, 8)), le(value, 32, 4), le(value, 36, 4), x, x, x % 2 == 1,
            x // 256 % 16, x // 2 % 8, x // 16 % 4, le(value, 44, 4), opt(value, 48, 4), opt(value, 52, 4), opt(value, 56, 8), opt(value, 64, 8))
def pre_48(value): return len(value) >= 48

def real_sip(value, offset):
    s = Attributes.StandardInformationPartial(value, offset)
    return (s.get_ctime(), s.get_mtime(), s.get_etime(), s.get_atime())
def part(value, offset, o):
    """A timestamp is known only if all of its bytes are in the fragment, which starts at `offset`."""
    if o < offset or o + 8 > offset + len(value): return None
    return ft(le(value, o - offset, 8))
def spec_sip(value, offset):
    return (part(value, offset, 0), part(value, offset, 8), part(value, offset, 16), part(value, offset, 24))

def dup(d):
    return (d.get_ctime(), d.get_mtime(), d.get_etime(), d.get_atime(), d.get_allocated_length(), d.get_file_size(), d.get_file_attributes(), d.get_packed_ea_size(), d.get_unpacked_ea_size_difference())
def spec_dup(v, o):
    return (ft(le(v, o, 8)), ft(le(v, o + 8, 8)), ft(le(v, o + 16, 8)), ft(le(v, o + 24, 8)), sle(v, o + 32, 8), sle(v, o + 40, 8), le(v, o + 48, 4), le(v, o + 52, 2), le(v, o + 54, 2))
def real_di(value, offset):
    return dup(Attributes.DuplicatedInformation(value, offset))
def spec_di(value, offset): return spec_dup(value, offset)
def pre_di(value, offset): return len(value) >= offset + 56

def real_fn(value):
    f = Attributes.FileName(bytearray(value))
    return (f.get_parent_directory(), dup(f), f.get_file_name_length(), f.get_flags(), f.get_file_name())
def spec_fn(value):
    return (le(value, 0, 8), spec_dup(value, 8), value[64], value[65], value[66:66 + 2 * value[64]].decode('utf-16le', errors='replace'))
def pre_66(value): return len(value) >= 66

def real_oid(value):
    o = Attributes.ObjectID(bytearray(value))
    g = o.get_object_id()
    return (g.bytes_le if g is not None else None, o.get_timestamp(), bytes(o.get_extra_data()))
def spec_oid(value):
    if len(value) < 16: return (None, None, value[16:])
    t = None
    if value[8] >= 0x80 and value[8] < 0xC0 and value[7] // 16 == 1:
        t = Attributes.DecodeGUIDTime(le(value, 0, 4) + le(value, 4, 2) * 2**32 + (le(value, 6, 2) - 0x1000) * 2**48)
    return (value[0:16], t, value[16:])

def real_al(value):
    for e in Attributes.AttributeList(bytearray(value)).entries():
        yield (e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference)
def spec_al(value):
    pos = 0
    while pos + 26 <= len(value):
        length = le(value, pos + 4, 2)
        if length < 26: return
        n = value[pos + 6]
        o = value[pos + 7]
        name = None
        if n > 0:
            if o + 2 * n > length: return
            name = value[pos + o:pos + o + 2 * n].decode('utf-16le', errors='replace')
        yield (le(value, pos, 4), name, le(value, pos + 24, 2), le(value, pos + 8, 8), le(value, pos + 16, 8))
        pos = pos + (length + 7) // 8 * 8

def real_compacted(value): return Attributes.AttributeList(bytearray(value)).get_last_compacted_size()
def spec_compacted(value):
    if value[26:28] == b'DC': return le(value, 28, 4)
    return None
def pre_32(value): return len(value) >= 32

def real_misc(value):
    v = Attributes.VolumeInformation(bytearray(value))
    h = Attributes.IndexHeader(bytearray(value))
    e = Attributes.EAInformation(bytearray(value))
    r = Attributes.IndexRoot(bytearray(value))
    rh = r.get_index_header()
    b = Attributes.IndexBuffer(bytearray(value))
    bh = b.get_index_header()
    return ((v.get_major_version(), v.get_minor_version(), v.get_flags()),
            (h.get_first_index_entry(), h.get_first_free_byte(), h.get_bytes_available(), h.get_flags()),
            (e.get_packed_ea_size(), e.get_need_ea_count(), e.get_unpacked_ea_size()),
            (r.get_indexed_attribute_type_code(), r.get_collation_rule(), r.get_bytes_per_index_buffer(), r.get_blocks_per_index_buffer()),
            (rh.get_first_index_entry(), rh.get_first_free_byte(), rh.get_bytes_available(), rh.get_flags()),
            (b.get_logfile_sequence_number(), b.get_this_block()),
            (bh.get_first_index_entry(), bh.get_first_free_byte(), bh.get_bytes_available(), bh.get_flags()),
            bytes(b.get_slack()), Attributes.VolumeName(bytearray(value)).get_name())
def hdr(v, o): return (le(v, o, 4), le(v, o + 4, 4), le(v, o + 8, 4), v[o + 12])
def spec_misc(value):
    return ((value[8], value[9], le(value, 10, 2)), hdr(value, 0), (le(value, 0, 2), le(value, 2, 2), le(value, 4, 4)),
            (le(value, 0, 4), le(value, 4, 4), le(value, 8, 4), le(value, 12, 4)), hdr(value, 16), (le(value, 8, 8), le(value, 16, 8)), hdr(value, 24),
            value[24 + le(value, 28, 4):], value.decode('utf-16le', errors='replace'))
def pre_40(value): return len(value) >= 40

def iview(e):
    return (e.get_file_reference(), e.get_length(), e.get_attribute_length(), e.get_flags(), bx(e.get_attribute()), e.get_vcn())
def bx(v): return None if v is None else bytes(v)
def real_ie(value): return iview(Attributes.IndexEntry(bytearray(value)))
def spec_ie(value):
    ln = le(value, 8, 2)
    al = le(value, 10, 2)
    fl = le(value, 12, 2)
    attr = None
    if fl // 2 % 2 == 0 and al > 0: attr = value[16:16 + al]
    vcn = None
    if fl % 2 == 1 and ln > 8: vcn = le(value, ln - 8, 8)
    return (le(value, 0, 8), ln, al, fl, attr, vcn)
def pre_ie(value): return len(value) >= 16 and len(value) >= le(value, 8, 2)

# positions (and lengths) of the entries of an index root or buffer
def real_root(value):
    for e in Attributes.IndexRoot(bytearray(value)).index_entries(): yield bytes(e.index_entry_raw)
def real_buffer(value):
    for e in Attributes.IndexBuffer(bytearray(value)).index_entries(): yield bytes(e.index_entry_raw)
def spec_root(value):
    end = 16 + le(value, 20, 4)
    pos = 16 + le(value, 16, 4)
    while pos < end and pos < len(value):
        if pos + 12 > len(value):
            if pos + 10 <= len(value) and le(value, pos + 8, 2) < 16: return
            raise struct.error('truncated')
        n = le(value, pos + 8, 2)
        if n < 16 or le(value, pos + 10, 2) == 0: return
        yield value[pos:]
        pos = pos + (n + 7) // 8 * 8
def spec_buffer(value):
    end = 24 + le(value, 28, 4)
    pos = 24 + le(value, 24, 4)
    while pos < end and pos < len(value):
        if pos + 12 > len(value):
            if pos + 10 <= len(value) and le(value, pos + 8, 2) < 16: return
            raise struct.error('truncated')
        n = le(value, pos + 8, 2)
        if n < 16 or le(value, pos + 10, 2) == 0: return
        yield value[pos:]
        if pos + 14 > len(value): raise struct.error('truncated')
        if le(value, pos + 12, 2) // 2 % 2 == 1: return
        pos = pos + (n + 7) // 8 * 8

def real_ia(vol):
    a = Attributes.IndexAllocation(vol)
    yield a.index_buffer_size
    for b in a.index_buffers(): yield bytes(b.index_buffer_raw)

def unprotect(b): return Attributes.VerifyAndUnprotectIndexSectors(b)
def spec_ia_size(vol):
    vol.seek(4)
    h = vol.read(4)
    if len(h) < 4: return None
    n = (le(h, 2, 2) - 1) * 512
    if n < 1024 or n > 119808: return None
    vol.seek(0)
    b = bytearray(vol.read(n))
    if len(b) != n or unprotect(b) is None: return None
    return n
def spec_ia(vol):
    n = spec_ia_size(vol)
    yield n
    if n is None: return
    at = 0
    while True:
        vol.seek(at * n)
        b = bytearray(vol.read(n))
        if len(b) < n: return
        u = unprotect(b)
        if u is not None: yield bytes(u)
        at = at + 1
def real_ia_slack(vol):
    return [bytes(s) for s in Attributes.IndexAllocation(vol).get_slack()]
def spec_ia_slack(vol):
    out = []
    first = True
    for b in spec_ia(vol):
        if not first:
            s = b[24 + le(b, 28, 4):]
            if len(s) > 8: out.append(s)
        first = False
    return out
def gen_ia(r):
    n = r.choice([1024, 1024, 1536, 4096])
    b = b''
    for _ in range(r.randrange(0, 4)):
        x = block(r, b'INDX', n)
        b += x
    return {'vol': b + gens.rb(r, r.choice([0, 0, 7, 600]))}

def real_rp(value):
    r = Attributes.ReparsePoint(bytearray(value))
    g = r.get_reparse_guid()
    return (r.get_reparse_tag(), r.is_reparse_tag_microsoft(), r.get_reparse_data_length(), g.bytes_le if g is not None else None, bytes(r.get_reparse_buffer()))
def spec_rp(value):
    ms = value[3] >= 128
    n = le(value, 4, 2)
    if ms: return (le(value, 0, 4), True, n, None, value[8:8 + n])
    return (le(value, 0, 4), False, n, value[8:24], value[24:24 + n])
def pre_rp(value): return len(value) >= 8 and (value[3] >= 128 or len(value) >= 24)

def real_ea(value):
    for name, flags, data in Attributes.EA(bytearray(value)).data_parsed(): yield (name, flags, bytes(data))
def spec_ea(value):
    buf = value
    while len(buf) > 8:
        nx = le(buf, 0, 4)
        nl = buf[5]
        vl = le(buf, 6, 2)
        if 9 + nl + vl > len(buf) or nx > len(buf): return
        if buf[8 + nl] != 0: return
        yield (buf[8:9 + nl], buf[4], buf[9 + nl:9 + nl + vl])
        if nx == 0: return
        buf = buf[nx:]
def spec_ea_2(value):
    pos = 0
    while len(value) - pos > 8:
        nx = le(value, pos, 4)
        nl = value[pos + 5]
        vl = le(value, pos + 6, 2)
        if 9 + nl + vl > len(value) - pos or nx > len(value) - pos: return
        if value[pos + 8 + nl] != 0: return
        yield (value[pos + 8:pos + 9 + nl], value[pos + 4], value[pos + 9 + nl:pos + 9 + nl + vl])
        if nx == 0: return
        pos = pos + nx

KINDS = {0x10: Attributes.StandardInformation, 0x20: Attributes.AttributeList, 0x30: Attributes.FileName, 0x40: Attributes.ObjectID, 0x50: Attributes.SecurityDescriptor, 0x60: Attributes.VolumeName,
         0x70: Attributes.VolumeInformation, 0x80: Attributes.Data, 0x90: Attributes.IndexRoot, 0xB0: Attributes.Bitmap, 0xC0: Attributes.ReparsePoint, 0xD0: Attributes.EAInformation, 0xE0: Attributes.EA, 0x100: Attributes.LoggedUtilityStream}
def real_kind(tc, value):
    a = MFT.AttributeRecordResident(tc, None, value)
    d = a.value_decoded()
    return (type(d) is KINDS.get(tc, Attributes.GenericAttribute), d.value)
def spec_kind(tc, value): return (True, value)
def pre_kind(tc, value): return tc != 0xA0   # an index allocation is never resident
def gen_kind(r): return {'tc': r.choice([r.choice(list(KINDS)), r.randrange(0x120)]), 'value': gens.rb(r, 80)}

def gv(*sizes):
    def g(r): return {'value': gens.rb(r, r.choice(sizes))}
    return g
def gen_sip(r): return {'value': gens.rb(r, r.choice([0, 7, 8, 9, 15, 16, 24, 31, 32, 40, 72])), 'offset': r.choice([0, 1, 7, 8, 9, 16, 17, 24, 25, 32])}
def gen_di(r): 
    o = r.choice([0, 8, 3]); return {'value': gens.rb(r, o + r.choice([56, 60])), 'offset': o}
def gen_fn(r):
    n = r.choice([0, 1, 3, 255]); v = bytearray(gens.rb(r, 66 + 2 * r.choice([n, n, 1]))); v[64] = n; return {'value': bytes(v)}
def gen_oid(r):
    v = bytearray(gens.rb(r, r.choice([0, 15, 16, 17, 64])))
    if len(v) >= 16 and r.random() < 0.8: v[7] = 0x10 | v[7] & 15; v[8] = r.choice([0x80, 0xBF, 0x7F, 0xC0, v[8]])
    return {'value': bytes(v)}
def gen_al(r):
    b = b''
    for _ in range(r.randrange(0, 4)):
        n = r.choice([0, 0, 1, 4]); no = 26; ln = r.choice([26 + 2 * n, 32 + 2 * n, 26 + 2 * n, 27, 25, 40])
        b += (struct.pack('<LHBBQQH', r.choice([0x10, 0x80]), ln, n, no, r.randrange(1 << 40), r.randrange(1 << 64), r.randrange(9)) + gens.rb(r, 2 * n)).ljust((ln + 7) // 8 * 8, b'D')
    b += gens.rb(r, r.choice([0, 5, 26, 30]))
    return {'value': gens.mutate(r, b, 1)}
def gen_dc(r):
    v = bytearray(gens.rb(r, r.choice([32, 40])));
    if r.random() < 0.7: v[26:28] = b'DC'
    return {'value': bytes(v)}
def gen_misc(r):
    v = bytearray(gens.rb(r, 40 + r.choice([0, 9, 60])))
    if r.random() < 0.8: v[28:32] = struct.pack('<L', r.randrange(0, 80))
    return {'value': bytes(v)}
def entry(r, last=False):
    al = r.choice([1, 66, 80, 0x52, 7, 0]) if r.random() < 0.95 else 0
    ln = r.choice([16, 24, (16 + al + 7) // 8 * 8, (16 + al + 7) // 8 * 8, 16 + al, 15 if r.random() < 0.1 else 24])
    return struct.pack('<QHHHH', r.randrange(1 << 64), ln, al, r.choice([0, 0, 0, 1, 2, 3]), 0) + gens.rb(r, max(0, (ln + 7) // 8 * 8 - 16))
def gen_ie(r): return {'value': entry(r) + gens.rb(r, r.choice([0, 8, 30]))}
def gen_idx(hl):
    def g(r):
        es = b''.join(entry(r) for _ in range(r.randrange(0, 4)))
        fe = r.choice([16, 16, 24, 40])
        b = gens.rb(r, hl) + struct.pack('<LLLB3s', fe, r.choice([fe + len(es), fe + len(es), r.randrange(0, 400)]), 4096, 0, b'') + bytes(fe - 16) + es + gens.rb(r, r.choice([0, 0, 8, 9, 11, 13, 40]))
        return {'value': b}
    return g
def gen_rp(r):
    v = bytearray(gens.rb(r, r.choice([24, 30, 60])));  v[4:6] = struct.pack('<H', r.choice([0, 4, 20, 60])); return {'value': bytes(v)}
def gen_ea(r):
    b = b''
    k = r.randrange(0, 4)
    for i in range(k):
        nm = gens.rb(r, r.choice([0, 1, 7])); vl = r.choice([0, 1, 5, 56]); e = bytes([r.choice([0, 128]), len(nm)]) + struct.pack('<H', vl) + nm + (b'\0' if r.random() < 0.95 else b'x') + gens.rb(r, vl)
        tot = 4 + len(e) + r.choice([0, 0, 3]); b += struct.pack('<L', tot if i < k - 1 or r.random() < 0.7 else 0) + e.ljust(tot - 4, b'\0')
    return {'value': gens.mutate(r, b + gens.rb(r, r.choice([0, 0, 4, 8, 9])), 1)}

V = {'value': Bytes()}
A = 'Attributes.'
POS = [Loop({'pos': 'pos'}, inv=lambda pos: pos >= 0, variant=lambda pos, value: len(value) - pos)]
IPOS = [Loop({'pos': 'index_entry_pos'}, inv=lambda pos: pos >= 0, variant=lambda pos, value: len(value) - pos)]
CONTRACTS = [
    Contract('standard_information', [A + 'StandardInformation'], V, real_si, spec_si, pre=pre_48, abstracts=ABS, gen=gv(48, 50, 52, 56, 63, 64, 72, 80)),
    Contract('standard_information_partial', [A + 'StandardInformationPartial'], dict(V, offset=Int(0, 4096)), real_sip, spec_sip, abstracts=ABS, gen=gen_sip),
    Contract('duplicated_information', [A + 'DuplicatedInformation'], dict(V, offset=Int(0)), real_di, spec_di, pre=pre_di, abstracts=ABS, gen=gen_di),
    Contract('file_name', [A + 'FileName'], V, real_fn, spec_fn, pre=pre_66, abstracts=ABS, gen=gen_fn),
    Contract('object_id', [A + 'ObjectID'], V, real_oid, spec_oid, abstracts=ABS, gen=gen_oid),
    Contract('value_class', ['MFT.AttributeRecordResident.value_decoded'], dict(V, tc=Int(0, 0xFFFFFFFF)), real_kind, spec_kind, pre=pre_kind, gen=gen_kind),
    Contract('attribute_list', [A + 'AttributeList.entries'], V, real_al, spec_al, loops=POS, gen=gen_al),
    Contract('last_compacted_size', [A + 'AttributeList.get_last_compacted_size'], V, real_compacted, spec_compacted, pre=pre_32, gen=gen_dc),
    Contract('fixed_fields', [A + 'VolumeInformation', A + 'IndexHeader', A + 'EAInformation', A + 'IndexRoot', A + 'IndexBuffer', A + 'VolumeName'], V, real_misc, spec_misc, pre=pre_40, gen=gen_misc),
    Contract('index_entry', [A + 'IndexEntry'], V, real_ie, spec_ie, pre=pre_ie, gen=gen_ie),
    Contract('index_root_entries', [A + 'IndexRoot.index_entries'], V, real_root, spec_root, pre=pre_32, loops=IPOS, gen=gen_idx(16)),
    Contract('index_buffer_entries', [A + 'IndexBuffer.index_entries'], V, real_buffer, spec_buffer, pre=pre_40, loops=IPOS, gen=gen_idx(24)),
    Contract('index_allocation', [A + 'IndexAllocation.__init__', A + 'IndexAllocation.index_buffers'], {'vol': File()}, real_ia, spec_ia, gen=gen_ia,
             abstracts={'dfir_ntfs.Attributes.VerifyAndUnprotectIndexSectors': inplace_of('unprotect_index')},
             loops=[Loop({'at': 'i'}, inv=lambda at: at >= 0)]),
    Contract('index_allocation_slack', [A + 'IndexAllocation.get_slack', A + 'IndexBuffer.get_slack'], {'vol': File()}, real_ia_slack, spec_ia_slack, gen=gen_ia, bounded=True, note='generated index allocations of up to 3 buffers'),
    Contract('reparse_point', [A + 'ReparsePoint'], V, real_rp, spec_rp, pre=pre_rp, gen=gen_rp),
    Contract('extended_attributes', [A + 'EA.data_parsed'], V, real_ea, spec_ea, gen=gen_ea,
             loops=[Loop({'buf': 'buf'}, inv=lambda buf, value: len(buf) <= len(value), variant=lambda buf: len(buf))],
             alts=[(spec_ea_2, [Loop({'pos': 'pos'}, inv=lambda pos, value: pos >= 0 and pos <= len(value), variant=lambda pos, value: len(value) - pos)])]),
]
