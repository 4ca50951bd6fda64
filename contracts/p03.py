"""P03: enumeration of the attribute records of a file record segment; slack space."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from contracts.speclib import le, sle
from contracts import gens
from contracts.p01 import spec_mp
from contracts.p02 import spec_frs
from dfir_ntfs import MFT

def view(a):
    if type(a) is MFT.AttributeRecordResident:
        return ('resident', a.type_code, a.name, bytes(a.value))
    return ('nonresident', a.type_code, a.name, bytes(a.mapping_pairs), a.data_runs, a.lowest_vcn, a.highest_vcn, a.file_size)

def real_attrs(buf):
    for a in MFT.FileRecordSegment(buf, False).attributes():
        yield view(a)

def bad(): return MFT.AttributeException('malformed attribute record')

def one_attr(buf, pos, used):
    """Length and content of the attribute record at pos (which is not the end marker)."""
    if pos + 16 > len(buf): raise bad()
    type_code = le(buf, pos, 4)
    length = le(buf, pos + 4, 4)
    form = buf[pos + 8]
    name_chars = buf[pos + 9]
    name_off = le(buf, pos + 10, 2)
    if length < 8 or length % 8 != 0 or pos + length > used: raise bad()
    name = None
    name_end = name_off + 2 * name_chars
    if name_chars > 0:
        if name_off % 2 != 0: raise bad()
        if form == 1 and name_off < 64: raise bad()
        if form == 0 and name_off < 24: raise bad()
        if pos + name_end > used: raise bad()
        name = buf[pos + name_off:pos + name_end].decode('utf-16le', errors='replace')
    if form == 1:
        if pos + 64 > len(buf): raise bad()
        low = le(buf, pos + 16, 8)
        high = le(buf, pos + 24, 8)
        mp_off = le(buf, pos + 32, 2)
        allocated = sle(buf, pos + 40, 8)
        size = sle(buf, pos + 48, 8)
        valid = sle(buf, pos + 56, 8)
        if low > high: raise bad()
        if mp_off >= length: raise bad()
        if name_chars == 0 and mp_off < 64: raise bad()
        if name_chars > 0 and mp_off < name_end: raise bad()
        if valid < 0 or valid > size or allocated < size: raise bad()
        mp = buf[pos + mp_off:pos + length]
        return (length, ('nonresident', type_code, name, mp, spec_mp(mp), low, high, size))
    if form == 0:
        if pos + 24 > len(buf): raise bad()
        vlen = le(buf, pos + 16, 4)
        voff = le(buf, pos + 20, 2)
        if voff < 8 or voff % 8 != 0: raise bad()
        if voff + vlen > length: raise bad()
        if name_chars == 0 and voff < 24: raise bad()
        if name_chars > 0 and voff < name_end: raise bad()
        return (length, ('resident', type_code, name, buf[pos + voff:pos + voff + vlen]))
    raise bad()

def spec_attrs(buf):
    spec_frs(buf, False)
    pos = le(buf, 20, 2)
    used = le(buf, 24, 4)
    while True:
        if pos >= used: return
        if pos + 4 > len(buf): raise bad()
        if le(buf, pos, 4) == 0xFFFFFFFF: return
        a = one_attr(buf, pos, used)
        yield a[1]
        pos = pos + a[0]

def pre_attrs(buf):
    return buf[0:4] == b'FILE'

def real_slack(buf):
    f = MFT.FileRecordSegment(buf, False)
    s = f.get_slack()
    if s is None: return None
    return bytes(s.value)

def spec_slack(buf):
    spec_frs(buf, False)
    pos = le(buf, 20, 2)
    used = le(buf, 24, 4)
    end = None
    while True:
        if pos >= used: break
        if pos + 4 > len(buf): raise bad()
        if le(buf, pos, 4) == 0xFFFFFFFF:
            end = pos + 4
            break
        pos = pos + one_attr(buf, pos, used)[0]
    if end is None: return None
    return buf[end:]

# get_slack() called after, and interleaved with, complete enumerations gives the same answer
def real_slack_twice(buf):
    f = MFT.FileRecordSegment(buf, False)
    a = f.get_slack()
    n = 0
    for _ in f.attributes(): n += 1
    b = f.get_slack()
    return (a is None) == (b is None) and (a is None or bytes(a.value) == bytes(b.value))
def spec_slack_twice(buf):
    for _ in spec_attrs(buf): pass
    return True

def gen_buf(r):
    b = gens.frs(r, protect=False, short=r.random() < 0.2)
    fa = b[20]
    return {'buf': gens.mutate(r, b, 1 if r.random() < 0.6 else 4, list(range(fa, fa + 130)) + [24, 25])}

F = ['MFT.FileRecordSegment.attributes', 'MFT.UnpackAttributeRecordPartialHeader', 'MFT.UnpackAttributeRecordRemainingHeaderResident', 'MFT.AttributeRecordResident.__init__', 'MFT.AttributeRecordNonresident.__init__']
ABS = {'dfir_ntfs.MFT.DecodeMappingPairs': func_of('mapping_pairs', MFT.MappingPairsException), 'contracts.p01.spec_mp': func_of('mapping_pairs', MFT.MappingPairsException)}
LOOP = [Loop({'pos': 'pos'}, inv=lambda pos: pos >= 8, variant=lambda pos, used: used - pos)]
SLOOP = [Loop({'pos': 'pos', 'end': 'self.frs_real_size'}, shapes={'end': lambda ctx: None}, inv=lambda pos: pos >= 8, variant=lambda pos, used: used - pos)]
CONTRACTS = [
    Contract('attributes_1024', F, {'buf': Bytes(1024)}, real_attrs, spec_attrs, pre=pre_attrs, loops=LOOP, abstracts=ABS, gen=gen_buf),
    Contract('attributes_4096', F, {'buf': Bytes(4096)}, real_attrs, spec_attrs, pre=pre_attrs, loops=LOOP, abstracts=ABS),
    Contract('slack_1024', F + ['MFT.FileRecordSegment.get_slack'], {'buf': Bytes(1024)}, real_slack, spec_slack, pre=pre_attrs, loops=SLOOP, abstracts=ABS, gen=gen_buf),
    Contract('slack_4096', F + ['MFT.FileRecordSegment.get_slack'], {'buf': Bytes(4096)}, real_slack, spec_slack, pre=pre_attrs, loops=SLOOP, abstracts=ABS),
    Contract('slack_repeated', F + ['MFT.FileRecordSegment.get_slack'], {'buf': Bytes(1024)}, real_slack_twice, spec_slack_twice, gen=gen_buf, bounded=True, note='generated segments'),
]
