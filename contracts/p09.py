"""P09: enumeration of a file table."""
import io
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from contracts.p02 import spec_frs, fields
from contracts.p06 import table, version_of, children, record, generation, seg_view, seg_spec, image, sized, gen_table, Open, gen_in
from dfir_ntfs import MFT

def real_walk(head, size, rest, only):
    for x in Open(sized(head, size, rest), False).file_records(only):
        yield (seg_view(x.base_frs), len(x.child_frs_list))
def spec_walk(head, size, rest, only):
    vol = sized(head, size, rest)
    seg, total = table(vol)
    pos = 0
    while pos < total:
        vol.seek(pos)
        buf = vol.read(seg)
        if len(buf) != seg: return
        n = pos // seg
        pos = pos + seg
        try: d = spec_frs(buf, True)
        except MFT.FileRecordSegmentException: continue
        x = seg_spec(d, n)
        if only and not x[3]: continue
        if x[4]: yield (x, 0)

# ---- with the child segments
def real_all(vol, only):
    p = MFT.MasterFileTableParser(vol)
    first = p.statistics
    out = [(seg_view(x.base_frs), [(seg_view(c), c.suggested_mft_number) for c in x.child_frs_list]) for x in p.file_records(only)]
    return (first, p.first_pass_done, out, [(seg_view(x.base_frs)[1]) for x in p.file_records(only)])
def spec_all(vol, only):
    version_of(vol)
    size, total = table(vol)
    kids, valid, kid = children(vol)
    raw = vol.getvalue()
    out = []
    for i in range(total // size):
        try: d = spec_frs(raw[i * size:i * size + size], True)
        except MFT.FileRecordSegmentException: continue
        f = fields(d, le(d, 4, 2), i)
        if not f[10] or only and not f[6]: continue
        out.append((seg_spec(d, i), [(seg_spec(record(vol, c), c), c) for c in kids.get((generation(f[2], f[6]) << 48) | f[12], [])]))
    return ((valid, kid), True, out, [x[0][1] for x in out])
def gen_all(r): return dict(gen_table(r), only=r.random() < 0.4)
O = ['MFT.MasterFileTableParser.__init__', 'MFT.MasterFileTableParser.file_records']
def W(k): return {'head': Bytes(28), 'size': Const(k), 'rest': Bytes(), 'only': Bool()}
def fits(head, size, rest, only): return len(rest) < 1 << 57
LOOP = [Loop({'pos': 'pos'}, inv=lambda pos, size: pos >= 0 and pos % size == 0, variant=lambda pos, total: total - pos)]
CONTRACTS = [
    *[Contract('records_%d' % k, O, W(k), real_walk, spec_walk, pre=fits, loops=LOOP, unroll=('spec_frs', 'apply_update_sequence_array'), gen=gen_in(gen_all, k), budget=500, note='segments of %d bytes, before the first pass; tables below 2**57 bytes' % k) for k in (1024,)],
    Contract('records_and_children', O + ['MFT.MasterFileTableParser.execute_first_pass'], {'vol': File(), 'only': Bool()}, real_all, spec_all, gen=gen_all, bounded=True, weight=2, note='generated tables of up to 13 segments, some of them child, released, damaged or truncated'),
]
