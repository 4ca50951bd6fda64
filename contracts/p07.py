"""P07: the attributes of a file record that is spread over several segments; data runs and sizes of split attributes."""
import io, struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from contracts.speclib import le
from contracts import gens
from contracts.p01 import spec_mp
from contracts.p02 import spec_frs
from contracts.p03 import spec_attrs, view
from dfir_ntfs import MFT, Attributes

class Segment(object):
    """A file record segment with given attributes (FileRecord uses nothing else of its segments here)."""
    def __init__(self, attrs): self.attrs = attrs
    def attributes(self):
        for a in self.attrs: yield a
NAMES = [None, 'a', 'b']
def nonresident(kind, name, mp, low, high, size): return MFT.AttributeRecordNonresident(kind, name, mp, low, high, size)
def resident(kind, name, value): return MFT.AttributeRecordResident(kind, name, value, 0)

# up to three attribute records, in up to two segments, with any types, names, cluster numbers, sizes and runs
def attrs_of(k, t0, t1, t2, n0, n1, n2, l0, l1, l2, h0, h1, h2, s0, s1, s2, m0, m1, m2):
    return [(t0, n0, m0, l0, h0, s0), (t1, n1, m1, l1, h1, s1), (t2, n2, m2, l2, h2, s2)][:k]
def file_record(k, cut, attrs):
    made = [nonresident(*a) for a in attrs]
    return MFT.FileRecord(Segment(made[:cut]), [Segment(made[cut:])])
def real_runs(k, cut, name, index, t0, t1, t2, n0, n1, n2, l0, l1, l2, s0, s1, s2, m0, m1, m2):
    a = attrs_of(k, t0, t1, t2, n0, n1, n2, l0, l1, l2, 0, 0, 0, s0, s1, s2, m0, m1, m2)
    return file_record(k, cut, a).get_data_runs(name, index)
def real_size(k, cut, name, index, t0, t1, t2, n0, n1, n2, l0, l1, l2, s0, s1, s2, m0, m1, m2):
    a = attrs_of(k, t0, t1, t2, n0, n1, n2, l0, l1, l2, 0, 0, 0, s0, s1, s2, m0, m1, m2)
    return file_record(k, cut, a).get_data_size(name, index)
def wanted(a, name, index):
    if a[0] != (0xA0 if index else 0x80): return False
    if name == '' or name is None: return a[1] is None
    return a[1] == name
def runs_of(attrs, name, index):
    """The runs of the extents in the order of their virtual clusters; each extent starts where the one before it ends."""
    found = [a for a in attrs if wanted(a, name, index)]
    if len(found) == 0: return None
    found.sort(key=lambda a: a[3])
    out = []
    at = 0
    size = None
    for a in found:
        if a[3] == 0 and size is None: size = a[5]
        if a[3] != at: raise MFT.MappingPairsException('gap')
        for run in spec_mp(a[2]):
            at = at + run[1]
            out.append(run)
    if size > 0 and len(out) == 0: raise MFT.MappingPairsException('no runs')
    return out
def spec_runs(k, cut, name, index, t0, t1, t2, n0, n1, n2, l0, l1, l2, s0, s1, s2, m0, m1, m2):
    a = attrs_of(k, t0, t1, t2, n0, n1, n2, l0, l1, l2, 0, 0, 0, s0, s1, s2, m0, m1, m2)
    for x in a: spec_mp(x[2])
    return runs_of(a, name, index)
def spec_size(k, cut, name, index, t0, t1, t2, n0, n1, n2, l0, l1, l2, s0, s1, s2, m0, m1, m2):
    a = attrs_of(k, t0, t1, t2, n0, n1, n2, l0, l1, l2, 0, 0, 0, s0, s1, s2, m0, m1, m2)
    for x in a: spec_mp(x[2])
    for x in a:
        if wanted(x, name, index) and x[3] == 0: return x[5]
    return None
T = Enum(0x80, 0xA0)
def IN(k, names, index=(False,)):
    d = {'k': Enum(k), 'cut': Enum(*range(0, k + 1)), 'name': Enum(*names), 'index': Enum(*index)}
    for f, sh in (('t', lambda: Int(0, 1 << 32)), ('n', lambda: Enum(None, 'a')), ('l', lambda: Int(0)), ('s', lambda: Int(0)), ('m', lambda: Bytes())):
        for i in range(3): d[f + str(i)] = sh() if i < k else Const({'t': 0, 'n': None, 'l': 0, 's': 0, 'm': b'\x00'}[f])
    return d

# ---- whole file records
def real_all(segs, merge):
    fr = MFT.FileRecord(MFT.FileRecordSegment(segs[0], False), [MFT.FileRecordSegment(s, False) for s in segs[1:]])
    return [view2(a) for a in fr.attributes(merge)]
def view2(a):
    if type(a) is MFT.AttributeRecordResident: return view(a)
    return ('nonresident', a.type_code, a.name, a.data_runs, a.lowest_vcn, a.highest_vcn, a.file_size)
def spec_all(segs, merge):
    got = []
    for s in segs: spec_frs(s, False)
    for s in segs:
        for a in spec_attrs(s): got.append(a)
    flat = [a if a[0] == 'resident' else a[:3] + (a[4], a[5], a[6], a[7]) for a in got]
    if not merge: return flat
    out = [a for a in flat if a[0] == 'resident']
    for a in flat:
        if a[0] == 'resident' or a[4] != 0: continue
        more = sorted([x for x in flat if x[0] != 'resident' and x[4] != 0 and x[1:3] == a[1:3]], key=lambda x: x[4])
        if more == []: out.append(a)
        else: out.append(a[:3] + (a[3] + [run for x in more for run in x[3]], 0, more[-1][5], a[6]))
    return out
def real_api(segs, name, index):
    fr = MFT.FileRecord(MFT.FileRecordSegment(segs[0], False), [MFT.FileRecordSegment(s, False) for s in segs[1:]])
    return (fr.get_data_size(name, index), fr.get_data_runs(name, index), [bytes(s.value) for s in fr.slack()])
def spec_api(segs, name, index):
    got = []
    for s in segs: spec_frs(s, False)
    size = None
    found = False
    for s in segs:
        for a in spec_attrs(s):
            if a[0] == 'resident': continue
            got.append((a[1], a[2], a[3], a[5], a[6], a[7]))
            if not found and wanted(got[-1], name, index) and a[5] == 0: size = a[7]; found = True
        if found: break      # the size is known from the first extent; the other segments are checked by get_data_runs
    got = []
    for s in segs:
        for a in spec_attrs(s):
            if a[0] != 'resident': got.append((a[1], a[2], a[3], a[5], a[6], a[7]))
    runs = runs_of(got, name, index)
    from contracts.p03 import spec_slack
    return (size, runs, [x for x in (spec_slack(s) for s in segs) if x is not None])
def clusters(mp):
    try: return sum(n for _, n in spec_mp(mp))
    except MFT.MappingPairsException: return 1
def gen_segs(r):
    name = r.choice(['', '', 'a', 'b'])
    kind = r.choice([0x80, 0x80, 0x80, 0xA0])
    parts = [gens.mapping_pairs(r, r.randrange(0, 3)) for _ in range(r.randrange(1, 5))]
    at = 0
    attrs = []
    for mp in parts:
        n = clusters(mp)
        attrs.append(gens.nonresident_attr(r, kind, name, at, max(at, at + n - 1), (1 << 40, r.choice([0, 1, 4096 * n]), 0), mp))
        at += n
        if r.random() < 0.03: at += 1
    extra = [gens.resident_attr(r, r.choice([0x10, 0x80, 0x100]), gens.rb(r, 4), r.choice(['', 'a'])) if r.random() < 0.5 else gens.nonresident_attr(r, r.choice([0x80, 0xA0, 0x20]), r.choice(['', 'a', 'b']), r.choice([0, 0, 1]), 5, (4096, 4096, 0)) for _ in range(r.randrange(0, 3))]
    for x in extra: attrs.insert(r.randrange(len(attrs) + 1), x)
    if r.random() < 0.4: r.shuffle(attrs)
    k = r.randrange(1, 4)
    segs = []
    for i in range(k):
        mine = attrs[i::k] if r.random() < 0.5 else attrs[len(attrs) * i // k:len(attrs) * (i + 1) // k]
        b = bytearray(gens.frs(r, size=1024, attrs=mine, protect=False))
        b[0:4] = b'FILE'
        segs.append(bytes(b))
    return segs, (None if name == '' else name), kind == 0xA0
def gen_all(r): return {'segs': gen_segs(r)[0], 'merge': r.random() < 0.7}
def gen_api(r):
    s, n, i = gen_segs(r)
    return {'segs': s, 'name': r.choice([n, n, n, None, '', 'a']), 'index': i if r.random() < 0.9 else not i}

def run_list(ctx, name, args):
    from pyvc.values import SList, OpaqueSeq
    n = ctx.fresh_int(name + '_n'); ctx.assume(n >= 0)
    return ctx.born(SList((), OpaqueSeq(name, n, lambda it, i: run(it.ctx, name, i))))
def run(ctx, name, i):
    n = int_fn(name + '_len', i); ctx.assume(n >= 1)
    return (int_fn(name + '_lcn', i), n)

MP = func_of('mapping_pairs', MFT.MappingPairsException, build=run_list)
ABS = {'dfir_ntfs.MFT.DecodeMappingPairs': MP, 'contracts.p01.spec_mp': MP}
LOOP = [Loop({'at': 'vcn_to_be_touched', 'out': 'data_runs', '@iter': '@iter'}, func='runs_of', inv=lambda at: at >= 0)]
# ---- the table inside a volume, read through its own (possibly split) runs
def real_volume(vol, before, table, step):
    f = MFT.FileSystemParser(vol, before)
    f.seek(0, 2)
    size = f.tell()
    f.seek(0)
    parts = []
    while True:
        d = f.read(step)
        if d == b'': break
        parts.append(d)
    p = MFT.MasterFileTableParser(f)
    return (size, b''.join(parts), [x.get_master_file_table_number() for x in p.file_records()])
def spec_volume(vol, before, table, step):
    from contracts.p06 import fields
    out = []
    for i in range(0, len(table), 1024):
        try: d = spec_frs(table[i:i + 1024], True)
        except MFT.FileRecordSegmentException: continue
        if le(d, 32, 8) == 0: out.append(fields(d, le(d, 4, 2), i // 1024)[12])
    return (len(table), table, out)
def encode(runs):
    out = b''
    prev = 0
    for lcn, n in runs:
        a = 1
        while not -(1 << (8 * a - 1)) <= n < 1 << (8 * a - 1): a += 1
        d = lcn - prev; prev = lcn
        b = 1
        while not -(1 << (8 * b - 1)) <= d < 1 << (8 * b - 1): b += 1
        out += bytes([a | b << 4]) + n.to_bytes(a, 'little', signed=True) + d.to_bytes(b, 'little', signed=True)
    return out + b'\x00'
def sound(r, **k):
    while True:
        b = gens.frs(r, size=1024, **k)
        try: d = spec_frs(b, True)
        except MFT.MasterFileTableException: continue
        if b[:4] != b'FILE': continue
        try: list(spec_attrs(d))
        except MFT.MasterFileTableException: continue
        return b
def gen_volume(r):
    cs = r.choice([512, 1024, 2048, 4096])
    ext = r.choice([1, 1, 2, 3, 4])
    lens = [r.choice([20, 24, 32])] + [r.choice([4, 8, 12]) for _ in range(ext - 1)]     # in segments
    total = sum(lens)
    cl = total * 1024 // cs
    used = set([0, 1])
    runs = []
    for n in lens:
        mine = []
        left = n * 1024 // cs
        while left:
            k = min(left, r.choice([1, 2, 5, left]))
            if not runs and not mine and k == 1: k = 2      # the first segment is contiguous
            lcn = r.choice([x for x in range(2, 2 + 3 * cl + 10) if all(x + j not in used for j in range(k))])
            used |= set(range(lcn, lcn + k))
            mine.append((lcn, k)); left -= k
        runs.append(mine)
    from contracts.p06 import volume_slot
    slots = [sound(r, number=i, seq=i or 1, attrs=[gens.resident_attr(r, 0x10, bytes(72), '')], flags=r.choice([0, 1])) for i in range(total)]
    slots[3] = volume_slot(r, 1024)
    vcn = [0]
    for m in runs: vcn.append(vcn[-1] + sum(k for _, k in m))
    tail = r.choice([0, 0, 1024]) if ext == 1 else 0
    size = total * 1024 - tail
    alloc = total * 1024
    def data(i): return gens.nonresident_attr(r, 0x80, '', vcn[i], vcn[i + 1] - 1, (alloc, size, size) if i == 0 else (0, 0, 0), encode(runs[i]))
    kids = []
    seen = lens[0]
    for i in range(1, ext):
        kids.append(r.choice([x for x in range(16, seen) if x not in kids])); seen += lens[i]
    for i in range(1, ext):
        slots[kids[i - 1]] = sound(r, number=kids[i - 1], seq=1, base=1 << 48, flags=1, attrs=[data(i)])
    attrs = [gens.resident_attr(r, 0x10, bytes(72), '')]
    if ext > 1 or r.random() < 0.2:
        ents = [(0x10, 0, 1 << 48)] + [(0x80, vcn[i], (1 << 48) | ([0] + kids)[i]) for i in range(ext)] + [(0xB0, 0, 1 << 48)]
        if r.random() < 0.2: r.shuffle(ents)
        al = b''.join(struct.pack('<LHBBQQH', t, 32, 0, 26, v, ref, 0).ljust(32, b'\x00') for t, v, ref in ents)
        if r.random() < 0.5: attrs.append(gens.resident_attr(r, 0x20, al, ''))
        else:
            n = -(-len(al) // cs)
            lcn = r.choice([x for x in range(2, 2 + 3 * cl + 40) if all(x + j not in used for j in range(n))])
            used |= set(range(lcn, lcn + n))
            attrs.append(gens.nonresident_attr(r, 0x20, '', 0, n - 1, (n * cs, len(al), len(al)), encode([(lcn, n)])))
            extra = (lcn, al)
    else: al = None
    attrs.append(data(0))
    if r.random() < 0.3: attrs.append(gens.nonresident_attr(r, 0x80, 'x', 0, 5, (4096, 100, 0), encode([(7, 1)])))
    attrs.append(gens.nonresident_attr(r, 0xB0, '', 0, 5, (4096, 100, 0), encode([(7, 1)])))
    slots[0] = sound(r, number=0, seq=1, flags=1, attrs=attrs)
    flat = b''.join(slots)
    img = bytearray(gens.rb(r, (max(used) + 2) * cs))
    at = 0
    for m in runs:
        for lcn, k in m:
            img[lcn * cs:(lcn + k) * cs] = flat[at:at + k * cs]; at += k * cs
    if len(attrs) > 1 and al is not None and attrs[1][8] == 1: img[extra[0] * cs:extra[0] * cs + len(al)] = al
    boot = bytearray(512)
    boot[0:11] = b'\xeb\x52\x90NTFS    '
    struct.pack_into('<HB', boot, 11, 512, cs // 512)
    struct.pack_into('<QQQbxxxb', boot, 40, len(img) // 512, runs[0][0][0], 1, -10, 1)
    boot[510:512] = b'\x55\xaa'
    img[0:512] = boot
    before = r.choice([0, 0, 512, 1000])
    return {'vol': bytes(gens.rb(r, before)) + bytes(img), 'before': before, 'table': flat[:size], 'step': r.choice([1024, 700, 4096, 10 ** 6])}

F = ['MFT.FileRecord.attributes', 'MFT.FileRecord.get_data_runs', 'MFT.FileRecord.get_data_size']
def gen_few(k):
    def g(r):
        d = {'k': k, 'cut': r.randrange(k + 1), 'name': r.choice([None, None, '', 'a']), 'index': r.random() < 0.2}
        at = 0
        for i in range(3):
            mp = gens.mapping_pairs(r, r.randrange(0, 3)) if i < k else b'\x00'
            d['t%d' % i] = r.choice([0x80] * 6 + [0xA0, 0x90]) if i < k else 0
            d['n%d' % i] = r.choice([None, None, None, 'a']) if i < k else None
            d['l%d' % i] = (at if r.random() < 0.8 else r.randrange(5)) if i < k else 0
            d['s%d' % i] = r.choice([0, 1, 5000]) if i < k else 0
            d['m%d' % i] = mp
            at += clusters(mp)
        if k > 1 and r.random() < 0.3:
            for f in 'tnlsm': d[f + '0'], d[f + '1'] = d[f + '1'], d[f + '0']
        return d
    return g
CONTRACTS = [
    *[Contract('runs_%d' % k, F[:2], IN(k, (None, '', 'a') if k < 3 else (None,), (False, True) if k < 3 else (False,)), real_runs, spec_runs, gen=gen_few(k), abstracts=ABS, loops=LOOP, budget=400, note='%d extents' % k) for k in (1, 2, 3)],
    *[Contract('size_%d' % k, F[::2], IN(k, (None, '', 'a') if k < 3 else (None,), (False, True) if k < 3 else (False,)), real_size, spec_size, gen=gen_few(k), abstracts=ABS, budget=400, note='%d extents' % k) for k in (1, 2, 3)],
    Contract('whole_records', ['MFT.FileRecord.attributes'], {'segs': Const(None), 'merge': Bool()}, real_all, spec_all, gen=gen_all, bounded=True, note='generated file records of up to three segments'),
    Contract('runs_and_slack', F + ['MFT.FileRecord.slack'], {'segs': Const(None), 'name': Const(None), 'index': Bool()}, real_api, spec_api, gen=gen_api, bounded=True, note='generated file records of up to three segments'),
    Contract('table_in_volume', ['MFT.FileSystemParser.__init__', 'MFT.AttributeRecordNonresident.value_decoded', 'MFT.FragmentedFile.read'], {'vol': File(), 'before': Const(0), 'table': Const(b''), 'step': Const(1)}, real_volume, spec_volume, gen=gen_volume, bounded=True, weight=2,
             note='generated volumes whose file table has up to four extents, with resident and nonresident attribute lists'),
]
