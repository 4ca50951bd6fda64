"""P17: partition tables (GPT, MBR, EBR)."""
import binascii, io, struct, uuid
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import PartitionTable as PT

def guid(b, at): return uuid.UUID(bytes_le=bytes(b[at:at + 16]))

def real_header(vol, ss):
    g = PT.GPT(vol, ss)
    try:
        return tuple(g.read_gpt_header())
    except OverflowError:
        raise ValueError('too large for a file')
def header(vol, size, ss, at, where):
    """The GPT header at a byte offset, or None; with the other location it names (or None)."""
    if at + ss > size: return (None, None)
    vol.seek(at)
    b = vol.read(ss)
    if b[0:8] != b'EFI PART': return (None, None)
    other = le(b, 32, 8)
    n = le(b, 12, 4)
    if le(b, 8, 4) == 0 or n < 92 or n > ss: return (None, other)
    if binascii.crc32(b[0:16] + bytes(4) + b[20:n]) != le(b, 16, 4): return (None, other)
    if le(b, 24, 8) * ss != at or other == le(b, 24, 8) or other == 0: return (None, other)
    entries = le(b, 72, 8)
    count = le(b, 80, 4)
    each = le(b, 84, 4)
    if le(b, 40, 8) < (2 * ss + 16384) // ss or entries <= 1 or entries * ss >= size - ss or each < 128 or each % 128 != 0: return (None, other)
    if entries * ss + count * each > size: return (None, other)
    vol.seek(entries * ss)
    a = vol.read(count * each)
    if binascii.crc32(a) != le(b, 88, 4): return (None, other)
    return ((where, le(b, 40, 8), le(b, 48, 8), guid(b, 56), entries, count, each, le(b, 88, 4)), other)
def size_of(vol, ss, least):
    if ss < 512 or ss % 512 != 0: raise ValueError('sector size')
    size = vol.seek(0, 2)
    if size < least: raise ValueError('too small')
    return size
def spec_header(vol, ss):
    size = size_of(vol, ss, 3 * ss + 32768)
    h, other = header(vol, size, ss, ss, 0)
    if h is not None: return h
    if other is not None:
        h, x = header(vol, size, ss, other * ss, 2)
        if h is not None: return h
    h, x = header(vol, size, ss, size - ss, 1)
    if h is not None: return h
    raise ValueError('no header')

def real_parts(vol, ss, lba, count, each, crc):
    g = PT.GPT(vol, ss)
    try:
        p = g.read_gpt_partitions(lba, count, each, crc)
    except OverflowError:
        raise ValueError('too large for a file')
    return p
def name(b):
    try:
        s = b.decode('utf-16le')
    except UnicodeDecodeError:
        return ''
    end = s.find('\x00')
    if end >= 0: return s[:end]
    return s
def spec_parts(vol, ss, lba, count, each, crc):
    size = size_of(vol, ss, 3 * ss + 32768)
    if count == 0: return []
    if lba <= 1 or lba * ss >= size - ss or each < 128 or each % 128 != 0: raise ValueError('array')
    if lba * ss + count * each > size: raise ValueError('array')
    vol.seek(lba * ss)
    a = vol.read(count * each)
    if binascii.crc32(a) != crc: raise ValueError('array')
    out = []
    k = 0
    while k < count:
        e = a[k * each:k * each + 128]
        if e[0:16] != bytes(16): out.append(PT.GPTPartition(guid(e, 0), guid(e, 16), le(e, 32, 8), le(e, 40, 8), le(e, 48, 8), name(e[56:128])))
        k = k + 1
    return out
def pre_parts(vol, ss, lba, count, each, crc): return lba >= 0 and count >= 0 and each >= 0

def real_mbr(vol, ss):
    m = PT.MBR(vol, ss)
    return tuple(m.read_mbr())
def spec_mbr(vol, ss):
    size_of(vol, ss, 2 * ss)
    vol.seek(0)
    b = vol.read(512)
    if le(b, 510, 2) != 0xAA55: raise ValueError('signature')
    return (b[0] != 0 and b[1] != 0, le(b, 440, 4))
def real_mbr_parts(vol, ss): return PT.MBR(vol, ss).read_mbr_partitions()
def mbr_parts(vol):
    vol.seek(0)
    b = vol.read(512)
    out = []
    for k in range(4):
        e = b[446 + 16 * k:462 + 16 * k]
        if e[4] != 0: out.append(PT.MBRPartition(e[0], e[1:4], e[4], e[5:8], le(e, 8, 4), le(e, 12, 4)))
    return out
def spec_mbr_parts(vol, ss):
    size_of(vol, ss, 2 * ss)
    return mbr_parts(vol)

def real_ebr(vol, ss): return PT.MBR(vol, ss).read_ebr_partitions()
def spec_ebr(vol, ss):
    size_of(vol, ss, 2 * ss)
    out = []
    seen = set()
    for p in mbr_parts(vol):
        if p.os_type == 5 or p.os_type == 15 or p.os_type == 0x85:
            first = p.starting_lba
            if first == 0: return []
            rel = 0
            while True:
                at = first + rel
                if at in seen: break
                seen.add(at)
                vol.seek(at * ss)
                b = vol.read(512)
                if len(b) != 512 or le(b, 510, 2) != 0xAA55: break
                if b[450] != 0: out.append(PT.EBRPartition(b[446], b[450], at + le(b, 454, 4), le(b, 458, 4)))
                rel = le(b, 470, 4)
                if rel == 0: break
    return out

def gpt(r):
    ss = r.choice([512, 512, 4096])
    n = r.choice([128, 128, 4, 0]); each = r.choice([128, 128, 256])
    sectors = r.choice([40000, 50000, 70000]) // ss * (8 if ss == 4096 else 1) + 40
    vol = bytearray(sectors * ss)
    arr = bytearray(n * each)
    for k in range(min(n, 4)):
        if r.random() < 0.7:
            nm = r.choice(['Basic data', '', 'x' * 36, '\ud800', 'a\0b']).encode('utf-16le', 'surrogatepass').ljust(72, b'\0')
            arr[k * each:k * each + 128] = gens.rb(r, 16) + gens.rb(r, 16) + struct.pack('<QQQ', r.randrange(1 << 40), r.randrange(1 << 40), r.randrange(1 << 64)) + nm
    def head(at, other, entries, bad):
        hs = r.choice([92, 92, 92, 100, 512])
        f = dict(sig=b'EFI PART', rev=0x10000, hs=hs, my=at, other=other, first=(2 * ss + 16384) // ss, last=sectors - 34, ent=entries, n=n, each=each, crc=binascii.crc32(arr))
        if bad:
            k = r.choice(['sig', 'rev', 'hs', 'my', 'other', 'first', 'ent', 'n', 'each', 'crc', 'hcrc'])
            f[k] = {'sig': b'EFI PARU', 'rev': 0, 'hs': r.choice([91, ss + 1, 0]), 'my': at + 1, 'other': r.choice([0, at, 5, 1 << 60]), 'first': 0, 'ent': r.choice([0, 1, sectors, 1 << 63]), 'n': n + 1, 'each': r.choice([0, 64, 130]), 'crc': 5, 'hcrc': 1}[k]
        b = bytearray(struct.pack('<8sLLLLQQQQ16sQLLL', f['sig'], f['rev'], f['hs'], 0, 0, f['my'], f['other'], f['first'], f['last'], bytes(range(16)), f['ent'], f['n'], f['each'], f['crc']).ljust(ss, b'\0'))
        c = binascii.crc32(b[:f['hs']]) if f['hs'] <= ss else 0
        b[16:20] = struct.pack('<L', c ^ (1 if 'hcrc' in f else 0))
        return b
    ent2 = sectors - 1 - (n * each + ss - 1) // ss
    if n * each: vol[2 * ss:2 * ss + len(arr)] = arr; vol[ent2 * ss:ent2 * ss + len(arr)] = arr
    mid = r.choice([0, 0, sectors - 5])
    vol[ss:2 * ss] = head(1, mid or sectors - 1, 2, r.random() < 0.6)
    if mid: vol[mid * ss:(mid + 1) * ss] = head(mid, 1, 2, r.random() < 0.4)
    vol[(sectors - 1) * ss:] = head(sectors - 1, 1, ent2, r.random() < 0.3)
    return bytes(vol), ss, arr, n, each, ent2
def gen_header(r):
    vol, ss, *x = gpt(r)
    if r.random() < 0.1: ss = r.choice([512, 4096, 100, 0, 513, 1024])
    if r.random() < 0.05: vol = vol[:r.randrange(len(vol))]
    return {'vol': vol, 'ss': ss}
def gen_parts(r):
    vol, ss, arr, n, each, ent = gpt(r)
    return {'vol': vol, 'ss': ss, 'lba': r.choice([2, 2, ent, 1, 0, 99999999]), 'count': r.choice([n, n, n, n + 1, 0]), 'each': r.choice([each] * 9 + [64, 129]), 'crc': binascii.crc32(arr) ^ r.choice([0] * 9 + [1])}
def pre_ebr(vol, ss):
    b = at(vol, ss, 0, 512)
    return len(b) == 512 and b[482] == 0 and b[498] == 0
def gen_ebr(r):
    while True:
        d = gen_mbr(r)
        if len(d['vol']) < 512 or d['ss'] not in (512, 4096): continue
        v = bytearray(d['vol']); v[482] = v[498] = 0
        return {'vol': bytes(v), 'ss': d['ss']}
def gen_mbr(r):
    ss = r.choice([512, 512, 512, 4096])
    n = r.randrange(2, 24)
    vol = bytearray(gens.rb(r, n * ss) if r.random() < 0.3 else n * ss)
    def table(at, rows):
        for k, (t, a, s) in enumerate(rows): vol[at + 446 + 16 * k:at + 462 + 16 * k] = struct.pack('<B3sB3sLL', r.choice([0, 0x80, 1]), gens.rb(r, 3), t, gens.rb(r, 3), a, s)
        vol[at + 510:at + 512] = b'\x55\xaa' if r.random() < 0.95 else b'\0\0'
    vol[0:2] = r.choice([b'\xeb\x5a', b'\x33\0', b'\0\0'])
    for q in range(1, n): table(q * ss, [(r.choice([0, 7, 7, 0x83, 5]), r.randrange(64), r.randrange(99)), (r.choice([5, 5, 15, 0]), r.choice([0, r.randrange(n + 1), r.randrange(n + 1)]), 3), (0, 0, 0), (0, 0, 0)])
    table(0, [(r.choice([0, 7, 5, 15, 0x85, 0xEE]), r.choice([0] + [r.randrange(1, n + 2)] * 12), r.randrange(1 << 32)) for _ in range(4)])
    if r.random() < 0.05: vol = vol[:r.choice([0, 300, 600])]
    return {'vol': bytes(vol), 'ss': ss if r.random() < 0.95 else r.choice([0, 100, 1000])}

# the three places of a header, one at a time (the others hold no header)
def at(vol, ss, pos, n):
    vol.seek(pos)
    b = vol.read(n)
    vol.seek(0)
    return b
def pre_primary(vol, ss):
    n = vol.seek(0, 2)
    if n < 3 * ss + 32768: return True
    if at(vol, ss, n - ss, 8) == b'EFI PART': return False
    other = le(at(vol, ss, ss + 32, 8), 0, 8)
    if other * ss + ss <= n and at(vol, ss, other * ss, 8) == b'EFI PART': return False
    return True
def pre_alternate(vol, ss):
    n = vol.seek(0, 2)
    if n < 3 * ss + 32768: return False
    b = at(vol, ss, ss, 12)
    return b[0:8] == b'EFI PART' and le(b, 8, 4) == 0 and at(vol, ss, n - ss, 8) != b'EFI PART'
def pre_last(vol, ss):
    n = vol.seek(0, 2)
    if n < 3 * ss + 32768: return False
    return at(vol, ss, ss, 8) != b'EFI PART'
def pre_last2(vol, ss):
    n = vol.seek(0, 2)
    if n < 3 * ss + 32768: return False
    b = at(vol, ss, ss, 40)
    if b[0:8] != b'EFI PART' or le(b, 8, 4) != 0: return False
    other = le(b, 32, 8)
    return other * ss + ss > n or at(vol, ss, other * ss, 8) != b'EFI PART'
def fixed(r, ss, pre):
    while True:
        vol, s, arr, n, each, ent = gpt(r)
        if s != ss: continue
        vol = bytearray(vol)
        name = pre.__name__
        k = len(vol) - ss
        if name in ('pre_primary', 'pre_alternate'): vol[k:k + 8] = bytes(8)
        if name == 'pre_primary':
            o = le(vol, ss + 32, 8) * ss
            if o + ss <= len(vol) and o != ss: vol[o:o + 8] = bytes(8)
        if name in ('pre_alternate', 'pre_last2'): vol[ss:ss + 8] = b'EFI PART'; vol[ss + 8:ss + 12] = bytes(4)
        if name == 'pre_last': vol[ss:ss + 4] = bytes(4)
        if name == 'pre_last2' and r.random() < 0.5: vol[ss + 32:ss + 40] = r.choice([0, 9, 1 << 50]).to_bytes(8, 'little')
        d = {'vol': bytes(vol), 'ss': ss}
        if pre(io.BytesIO(d['vol']), ss): return d
GH = ['PartitionTable.GPT.read_gpt_header', 'PartitionTable.GPT.read_gpt_header_internal']
CASES = [('primary', pre_primary), ('alternate', pre_alternate), ('last', pre_last), ('last_after_alternate', pre_last2)]
CONTRACTS = [Contract('gpt_%s_%d' % (nm, ss), GH, {'vol': File(), 'ss': Const(ss)}, real_header, spec_header, pre=pre, gen=lambda r, ss=ss, pre=pre: fixed(r, ss, pre)) for ss in (512, 4096) for nm, pre in CASES] + [
    Contract('gpt_header', GH, {'vol': File(), 'ss': Int(0, 1 << 16)}, real_header, spec_header, gen=gen_header, bounded=True, note='any sector size (proved for 512 and 4096 bytes)'),
    Contract('gpt_partitions', ['PartitionTable.GPT.read_gpt_partitions'], {'vol': File(), 'ss': Int(0, 1 << 16), 'lba': Int(0), 'count': Int(0), 'each': Int(0), 'crc': Int(0)}, real_parts, spec_parts, pre=pre_parts, gen=gen_parts,
             loops=[Loop({'k': 'i', 'out': 'results'}, inv=lambda k: k >= 0, variant=lambda k, count: count - k)]),
    Contract('mbr', ['PartitionTable.MBR.read_mbr'], {'vol': File(), 'ss': Int(0, 1 << 16)}, real_mbr, spec_mbr, gen=gen_mbr),
    Contract('mbr_partitions', ['PartitionTable.MBR.read_mbr_partitions'], {'vol': File(), 'ss': Int(0, 1 << 16)}, real_mbr_parts, spec_mbr_parts, gen=gen_mbr),
    Contract('ebr_chains', ['PartitionTable.MBR.read_ebr_partitions'], {'vol': File(), 'ss': Enum(512, 4096)}, real_ebr, spec_ebr, pre=pre_ebr, gen=gen_ebr,
             loops=[Loop({'rel': 'next_ebr_lba_relative', 'seen': 'track', 'out': 'results'}, ordinal=1, inv=lambda rel: rel >= 0)], unroll=('read_mbr_partitions', 'mbr_parts'), note='two entries of the MBR in use'),
    Contract('ebr_partitions', ['PartitionTable.MBR.read_ebr_partitions'], {'vol': File(), 'ss': Int(0, 1 << 16)}, real_ebr, spec_ebr, gen=gen_mbr, bounded=True, note='any MBR, generated chains (with cycles) over up to 24 sectors'),
]
