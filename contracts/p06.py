"""P06: file records are looked up by number and reference."""
import io, struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from contracts.p02 import spec_frs, fields
from dfir_ntfs import MFT

# ---- references
def real_decode(v): return MFT.DecodeFileRecordSegmentReference(v)
def spec_decode(v): return (v % (1 << 48), v // (1 << 48))
def real_encode(n, s): return (MFT.EncodeFileRecordSegmentReference(n, s), MFT.DecodeFileRecordSegmentReference(MFT.EncodeFileRecordSegmentReference(n, s)))
def spec_encode(n, s): return (n + s * (1 << 48), (n, s))

# ---- the table
def table(vol):
    """Size of a segment and of the table."""
    vol.seek(0)
    if vol.read(4) != b'FILE': raise MFT.FileRecordSegmentSignatureException('signature')
    vol.seek(28)
    d = vol.read(4)
    if len(d) != 4: raise MFT.FileRecordSegmentException('truncated')
    size = le(d, 0, 4)
    if size != 1024 and size != 4096: raise MFT.FileRecordSegmentException('size')
    vol.seek(0, 2)
    return (size, vol.tell())
def record(vol, n):
    size, total = table(vol)
    if n * size > total: raise MFT.MasterFileTableException('beyond the table')
    vol.seek(n * size)
    return spec_frs(vol.read(size), True)
def generation(seq, used):
    """The sequence number that references to the (last) file of a segment carry: the number is incremented when the segment is released."""
    if used: return seq
    if seq == 0: return 0xFFFF
    if seq == 1: return 1
    return seq - 1
def seg_view(s):
    return (bytes(s.frs_data), s.get_master_file_table_number(), s.get_sequence_number(), s.is_in_use(), s.is_base_file_record_segment(), s.get_base_file_record_segment())
def seg_spec(d, n):
    f = fields(d, le(d, 4, 2), n)
    return (bytes(d), f[12], f[2], f[6], f[10], f[9])
class Open(MFT.MasterFileTableParser):
    """A table whose version is not looked at (version_check decides that)."""
    def check_ntfs_version(self): return None
def sized(head, size, rest): return io.BytesIO(head + size.to_bytes(4, 'little') + rest)
def real_segment_in(head, size, rest, n): return real_segment(sized(head, size, rest), n)
def spec_segment_in(head, size, rest, n): return spec_segment(sized(head, size, rest), n)
def real_record_in(head, size, rest, n, seq, child): return real_record(sized(head, size, rest), n, seq, child)
def spec_record_in(head, size, rest, n, seq, child): return spec_record(sized(head, size, rest), n, seq, child)
def whole2(head, size, rest, n, seq, child): return whole(head, size, rest, n)
def whole(head, size, rest, n): return 32 + len(rest) >= n * 4096 + 4096
def real_segment(vol, n): return seg_view(Open(vol, False).get_file_record_segment_by_number(n))
def spec_segment(vol, n): return seg_spec(record(vol, n), n)
def real_record(vol, n, seq, child):
    r = Open(vol, False).get_file_record_by_number(n, seq, child)
    return (r.get_master_file_table_number(), r.get_sequence_number(), r.get_flags(), r.is_in_use(), r.get_logfile_sequence_number(), len(r.child_frs_list), seg_view(r.base_frs))
def spec_record(vol, n, seq, child):
    d = record(vol, n)
    f = fields(d, le(d, 4, 2), n)
    if not f[10]: raise MFT.MasterFileTableException('not a base segment')
    if seq is not None and seq != generation(f[2], f[6]): raise MFT.MasterFileTableException('stale reference')
    return (f[12], f[2], f[5], f[6], f[1], 0, seg_spec(d, n))

# ---- generated tables
def at_slot(r, size, i, **k):
    k.setdefault('number', i if r.random() < 0.95 else r.randrange(20))
    b = bytearray(gens.frs(r, size=size, **k))
    if r.random() < 0.9: b[0:4] = b'FILE'
    return bytes(b)
VERSION = struct.pack('<QBBH', 0, 3, 1, 0)
def volume_slot(r, size, version=VERSION):
    while True:
        b = gens.frs(r, size=size, number=3, seq=3, flags=1, attrs=[gens.resident_attr(r, 0x60, 'vol'.encode('utf-16le'), ''), gens.resident_attr(r, 0x70, version, '')])
        try: spec_frs(b, True)
        except MFT.MasterFileTableException: continue
        if b[:4] == b'FILE': return b
SEQS = [0, 1, 2, 3, 0xFFFF]
def image(r, count=None, slot=None):
    size = r.choice([1024, 1024, 1024, 4096])
    n = count if count is not None else r.randrange(4, 14)
    out = []
    for i in range(n):
        if i == 3: out.append(volume_slot(r, size)); continue
        if slot is not None:
            b = slot(r, size, i)
        else:
            base = 0
            if i > 3 and r.random() < 0.4: base = r.choice([0, 4, 5, 6]) | r.choice(SEQS) << 48
            b = at_slot(r, size, i, base=base, seq=r.choice(SEQS + [r.randrange(65536)]), flags=r.choice([0, 1, 1, 1, 3, 2]), attrs=[gens.resident_attr(r) for _ in range(r.randrange(2))])
            if r.random() < 0.1: b = gens.mutate(r, b, 3, range(0, 48))
            if r.random() < 0.04: b = bytes(size)
        out.append(b)
    x = out[0]
    if r.random() < 0.97:
        while x[:4] != b'FILE' or le(x, 28, 4) != size: x = gens.frs(r, size=size, number=0, seq=1, flags=1, attrs=[])
        out[0] = x
    b = b''.join(out)
    if r.random() < 0.1: b = b[:len(b) - r.choice([1, 4, 512, size - 1, 1024, 3072])]
    if r.random() < 0.03: b = b[:r.choice([0, 3, 4, 30, 31, 32])]
    return b
def gen_ref(r): return {'v': r.choice([r.randrange(1 << 64), r.randrange(1 << 48), (1 << 48) - 1, 1 << 48, (1 << 64) - 1, 0])}
def gen_pair(r): return {'n': r.choice([0, 5, (1 << 48) - 1, r.randrange(1 << 48)]), 's': r.choice([0, 1, 0xFFFF, r.randrange(1 << 16)])}
def gen_segment(r): return {'vol': image(r, 3 + r.randrange(4)), 'n': r.choice([0, 1, 2, 3, 4, 5, 6, 7, 1 << 40])}
def gen_record(r): return {'vol': image(r, 3 + r.randrange(4)), 'n': r.choice([0, 1, 2, 3, 4, 5, 6, 7]), 'seq': r.choice([None, None] + SEQS + [r.randrange(65536)]), 'child': r.random() < 0.5}

# ---- lookup with the cache of child segments (tables as read from a disk)
def real_table(vol):
    """Everything that can be looked up in a table, by each number, with several expectations."""
    p = MFT.MasterFileTableParser(vol)
    n = len(vol.getvalue()) // p.file_record_segment_size
    out = []
    for i in range(n + 2):
        for seq in [None] + SEQS:
            for child in (True, False):
                try: x = p.get_file_record_by_number(i, seq, child)
                except MFT.MasterFileTableException: out.append((i, seq, child, 'refused')); continue
                out.append((i, seq, child, seg_view(x.base_frs)[1:], [(seg_view(c)[1:], c.suggested_mft_number) for c in x.child_frs_list]))
    return out
def version_of(vol):
    """The version check on the volume information of record 3."""
    from contracts.p03 import spec_attrs
    size, total = table(vol)
    d = record(vol, 3)
    for a in spec_attrs(bytes(d)):
        if a[0] != 'resident' or a[1] != 0x70: continue
        if a[3][8] != 3 or a[3][9] < 1: raise MFT.MasterFileTableException('version')
        return
    raise MFT.MasterFileTableException('no version')
def children(vol):
    """Numbers of the valid child segments, by the reference of their base."""
    size, total = table(vol)
    raw = vol.getvalue()
    kids = {}
    valid = 0
    kid = 0
    for i in range(total // size):
        try: d = spec_frs(raw[i * size:i * size + size], True)
        except MFT.FileRecordSegmentException: continue
        valid += 1
        if le(d, 32, 8) == 0: continue
        kid += 1
        kids.setdefault(le(d, 32, 8), []).append(i)
    return kids, valid, kid
def lookup(vol, kids, n, seq, child):
    d = record(vol, n)
    f = fields(d, le(d, 4, 2), n)
    g = generation(f[2], f[6])
    if seq is not None and seq != g: raise MFT.MasterFileTableException('stale reference')
    if f[10]:
        return (d, n, [(record(vol, c), c) for c in kids.get((g << 48) | f[12], [])])
    if child:
        for ref in kids:
            if n in kids[ref]:
                return lookup(vol, kids, ref % (1 << 48), ref >> 48, False)
    raise MFT.MasterFileTableException('not a base segment')
def spec_table(vol):
    version_of(vol)
    kids = children(vol)[0]
    size, total = table(vol)
    out = []
    for i in range(total // size + 2):
        for seq in [None] + SEQS:
            for child in (True, False):
                try: d, n, cs = lookup(vol, kids, i, seq, child)
                except MFT.MasterFileTableException: out.append((i, seq, child, 'refused')); continue
                out.append((i, seq, child, seg_spec(d, n)[1:], [(seg_spec(c, k)[1:], k) for c, k in cs]))
    return out
def gen_table(r):
    b = image(r)
    if r.random() < 0.1:
        size = 1024 if le(b, 28, 4) == 1024 else 4096
        b = b[:3 * size] + volume_slot(r, size, struct.pack('<QBBH', 0, r.choice([3, 3, 2, 1, 4]), r.choice([0, 1, 2]), 0)) + b[4 * size:]
    return {'vol': b}
def real_version(vol):
    p = MFT.MasterFileTableParser(vol, False)
    return (p.file_record_segment_size, p.file_size)
def spec_version(vol):
    version_of(vol)
    return table(vol)
def real_header(vol):
    p = Open(vol, False)
    return (p.file_record_segment_size, p.file_size)
def cut(vol, size):
    """A generated table as the parts of `sized`, or nothing."""
    b = vol.ljust(32, b'\x00')
    return {'head': b[:28], 'size': size, 'rest': b[32:]}
def gen_in(kind, size):
    def g(r):
        while True:
            x = kind(r)
            if le(x['vol'].ljust(32, b'\x00'), 28, 4) == size: break
        x.update(cut(x.pop('vol'), size))
        if size == 4096 and 'seq' in x: x['n'] = 6; x['child'] = False
        return x
    return g

O = ['MFT.MasterFileTableParser.__init__']
CONTRACTS = [
    Contract('reference_decode', ['MFT.DecodeFileRecordSegmentReference'], {'v': Int(0, (1 << 64) - 1)}, real_decode, spec_decode, gen=gen_ref),
    Contract('reference_encode', ['MFT.EncodeFileRecordSegmentReference', 'MFT.DecodeFileRecordSegmentReference'], {'n': Int(0, (1 << 48) - 1), 's': Int(0, (1 << 16) - 1)}, real_encode, spec_encode, gen=gen_pair),
    Contract('table_header', O, {'vol': File()}, real_header, table, gen=gen_table),
    *[Contract('segment_by_number_%d' % k, O + ['MFT.MasterFileTableParser.get_file_record_segment_by_number'], {'head': Bytes(28), 'size': Const(k), 'rest': Bytes(), 'n': Int(0)}, real_segment_in, spec_segment_in, pre=whole if k == 4096 else None, gen=gen_in(gen_segment, k), budget=600, note='segments of %d bytes' % k) for k in (1024, 4096)],
    *[Contract('record_by_number_%d' % k, O + ['MFT.MasterFileTableParser.get_file_record_by_number'], {'head': Bytes(28), 'size': Const(k), 'rest': Bytes(), 'n': Int(0, (1 << 48) - 1) if k == 1024 else Enum(6), 'seq': Opt(Int(0, 0xFFFF)), 'child': Bool() if k == 1024 else Enum(False)}, real_record_in, spec_record_in, pre=whole2 if k == 4096 else None, gen=gen_in(gen_record, k), note='segments of %d bytes%s' % (k, '' if k == 1024 else ', number 6, complete')) for k in (1024, 4096)],
    Contract('version_check', O + ['MFT.MasterFileTableParser.check_ntfs_version'], {'vol': File()}, real_version, spec_version, gen=gen_table, bounded=True, note='generated tables of up to 13 segments'),
    Contract('lookup_children', O + ['MFT.MasterFileTableParser.get_file_record_by_number', 'MFT.MasterFileTableParser.execute_first_pass'], {'vol': File()}, real_table, spec_table, gen=gen_table, bounded=True, weight=2,
             note='generated tables of up to 13 segments, some of them child, released, damaged or truncated; every number is looked up with six expectations'),
]
