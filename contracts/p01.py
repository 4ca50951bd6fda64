"""P01: mapping pairs (run lists)."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from dfir_ntfs import MFT

def real_mp(buf):
    return MFT.DecodeMappingPairs(buf)

def spec_mp(buf):
    pos = 0
    lcn = 0
    runs = []
    while True:
        if pos >= len(buf):
            raise MFT.MappingPairsException('no terminator')
        h = buf[pos]
        if h == 0:
            return runs
        v = h & 0xF
        l = h >> 4
        if v == 0 or v > 8 or l > 8 or pos + 1 + v + l > len(buf):
            raise MFT.MappingPairsException('bad pair')
        length = sle(buf, pos + 1, v)
        if length <= 0:
            raise MFT.MappingPairsException('bad length')
        if l == 0:
            runs.append((None, length))
        else:
            lcn = lcn + sle(buf, pos + 1 + v, l)
            if lcn < 0:
                raise MFT.MappingPairsException('before the volume')
            if lcn == 0 and len(runs) > 0:
                raise MFT.MappingPairsException('unallocated run')
            runs.append((lcn, length))
        pos = pos + 1 + v + l

def gen_mp(r):
    out = bytearray()
    for _ in range(r.randrange(0, 6)):
        v = r.choice([1, 1, 2, 3, 8, r.randrange(0, 16)]); l = r.choice([0, 1, 2, 3, 8, r.randrange(0, 16)])
        out.append(v | l << 4)
        out += bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(v + l))
    if r.random() < 0.8: out.append(0)
    if r.random() < 0.2: out = out[:r.randrange(len(out) + 1)]
    return {'buf': bytes(out)}

CONTRACTS = [Contract('mapping_pairs', ['MFT.DecodeMappingPairs'], {'buf': Bytes()}, real_mp, spec_mp, gen=gen_mp,
    loops=[Loop({'pos': 'i', 'lcn': 'curr_offset', 'runs': 'data_runs'}, inv=lambda pos: pos >= 0, variant=lambda buf, pos: len(buf) - pos)])]
