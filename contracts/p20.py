"""P20: the file allocation table: elements, chains, contents of a chain, and the walk over a FAT volume."""
import io, warnings, datetime
import z3
from pyvc.driver import Contract, Loop
from pyvc.abstract import func_of
from pyvc.values import SList, OpaqueSeq
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens, p22
from dfir_ntfs.addons import FAT
warnings.simplefilter('ignore')
E = FAT.FileAllocationTableException

# ---- the table
def check_table(off, size, t):
    if t != 12 and t != 16 and t != 32: raise ValueError('type')
    if off % 512 != 0 or size < 512 or size % 512 != 0: raise E('geometry')
def element(vol, off, size, last, t, n):
    """Entry n of the table: 12 bits (packed in pairs), 16 bits, or the low 28 of 32 bits."""
    if t == 12:
        at = n + n // 2
        w = 2
    else:
        at = n * (t // 8)
        w = t // 8
    if at + w > size or n > last: raise E('bounds')
    vol.seek(off + at)
    b = vol.read(w)
    if len(b) != w: raise E('truncated')
    v = le(b, 0, w)
    if t == 32: return v & 0x0FFFFFFF
    if t == 16: return v
    if n % 2 == 0: return v & 0xFFF
    return v >> 4
def eoc(t):
    if t == 12: return 0xFF8
    if t == 16: return 0xFFF8
    return 0x0FFFFFF8

def real_element(vol, off, size, last, t, n):
    return FAT.FAT(vol, off, size, last, t).get_element(n)
def spec_element(vol, off, size, last, t, n):
    check_table(off, size, t)
    return element(vol, off, size, last, t, n)
def real_allocated(vol, off, size, last, t, n):
    return FAT.FAT(vol, off, size, last, t).is_allocated(n)
def spec_allocated(vol, off, size, last, t, n):
    check_table(off, size, t)
    try: return element(vol, off, size, last, t, n) != 0
    except E: return None
def real_flags(vol, off, size, last, t):
    f = FAT.FAT(vol, off, size, last, t)
    return (f.get_bpb_media(), f.is_volume_dirty(), f.are_hard_errors_detected())
def spec_flags(vol, off, size, last, t):
    check_table(off, size, t)
    m = element(vol, off, size, last, t, 0) & 0xFF
    if t == 12: return (m, None, None)
    v = element(vol, off, size, last, t, 1)
    top = 27 if t == 32 else 15
    return (m, v >> top & 1 == 0, v >> (top - 1) & 1 == 0)

# ---- chains
def real_chain(vol, off, size, last, t, first):
    return FAT.FAT(vol, off, size, last, t).chain(first)
def chain(vol, off, size, last, t, first):
    """The clusters reached from the first one: ends at the end-of-chain mark, a free or reserved entry, or a cluster met before; a bad cluster is reported as None and ends it."""
    if first < 2: return []
    if first == eoc(t) - 1: raise E('bad first')
    cur = first
    out = [first]
    while True:
        nxt = element(vol, off, size, last, t, cur)
        if nxt in out or nxt < 2 or nxt >= eoc(t): return out
        if nxt == eoc(t) - 1:
            out.append(None)
            return out
        out.append(nxt)
        cur = nxt
def spec_chain(vol, off, size, last, t, first):
    check_table(off, size, t)
    return chain(vol, off, size, last, t, first)
def spec_chain_seen(vol, off, size, last, t, first):
    check_table(off, size, t)
    if first < 2: return []
    if first == eoc(t) - 1: raise E('bad first')
    cur = first
    out = [first]
    seen = {first}
    while True:
        nxt = element(vol, off, size, last, t, cur)
        if nxt in seen or nxt < 2 or nxt >= eoc(t): return out
        if nxt == eoc(t) - 1:
            out.append(None)
            return out
        out.append(nxt)
        seen.add(nxt)
        cur = nxt

# ---- contents of a chain, on volumes of several geometries
def put(b, at, n, v): b[at:at + n] = v.to_bytes(n, 'little')
def make_boot(t, bps, spc, rsvd, nfats, fatsz, root, total, rootclus=2, flags=0):
    b = bytearray(512)
    b[0] = 0xEB
    put(b, 11, 2, bps); b[13] = spc; put(b, 14, 2, rsvd); b[16] = nfats; put(b, 17, 2, root); b[21] = 0xF8
    put(b, 32, 4, total)
    if t == 32: put(b, 36, 4, fatsz); put(b, 40, 2, flags); put(b, 44, 4, rootclus); put(b, 48, 2, 1); put(b, 50, 2, 6)
    else: put(b, 22, 2, fatsz)
    b[510:512] = b'\x55\xaa'
    return bytes(b)
# (type, bytes per sector, sectors per cluster, reserved, FATs, FAT sectors, root entries, total sectors)
GEOM = [(12, 512, 1, 1, 2, 2, 16, 300), (16, 512, 8, 4, 2, 70, 512, 8 * 17000), (32, 1024, 2, 32, 1, 600, 0, 2 * 70000), (12, 4096, 1, 1, 1, 1, 128, 200)]
BOOTS = [make_boot(*g) for g in GEOM]

def real_read(kind, before, rest, size, first, want):
    vol = io.BytesIO(b'\x00' * before + BOOTS[kind] + rest)
    return FAT.FileSystemParser(vol, before, size).read_chain(first, want)
def table_chain(vol, off, size, last, t, first): return chain(vol, off, size, last, t, first)
def spec_read(kind, before, rest, size, first, want):
    if size is not None and size < 4096: raise ValueError('small')
    t, bps, spc, rsvd, nfats, fatsz, root, total = GEOM[kind]
    vol = io.BytesIO(b'\x00' * before + BOOTS[kind] + rest)
    data = (rsvd + nfats * fatsz + (root * 32 + bps - 1) // bps) * bps
    last = (total * bps - data) // (bps * spc) + 1
    cs = bps * spc
    clusters = table_chain(vol, before + rsvd * bps, fatsz * bps, last, t, first)
    parts = []
    done = 0
    for c in clusters:
        if want is not None and done >= want: break
        if c is None:
            parts.append(b'\x00' * cs)
        else:
            at = data + (c - 2) * cs
            if size is not None and at + cs > size: raise ValueError('beyond')
            vol.seek(before + at)
            d = vol.read(cs)
            if len(d) != cs: raise ValueError('truncated')
            parts.append(d)
        done = done + cs
    whole = b''.join(parts)
    if want is None: return whole
    return whole[:want]
def spec_read_cat(kind, before, rest, size, first, want):
    if size is not None and size < 4096: raise ValueError('small')
    t, bps, spc, rsvd, nfats, fatsz, root, total = GEOM[kind]
    vol = io.BytesIO(b'\x00' * before + BOOTS[kind] + rest)
    data = (rsvd + nfats * fatsz + (root * 32 + bps - 1) // bps) * bps
    last = (total * bps - data) // (bps * spc) + 1
    cs = bps * spc
    clusters = table_chain(vol, before + rsvd * bps, fatsz * bps, last, t, first)
    whole = b''
    done = 0
    for c in clusters:
        if want is not None and done >= want: break
        if c is None:
            whole = whole + b'\x00' * cs
        else:
            at = data + (c - 2) * cs
            if size is not None and at + cs > size: raise ValueError('beyond')
            vol.seek(before + at)
            d = vol.read(cs)
            if len(d) != cs: raise ValueError('truncated')
            whole = whole + d
        done = done + cs
    if want is None: return whole
    return whole[:want]

def elem(ctx, name, i):
    if ctx.decide(z3.Function(name + '_bad', z3.IntSort(), z3.BoolSort())(i if not isinstance(i, int) else z3.IntVal(i))): return None
    v = int_fn(name, i)
    ctx.assume(v >= 2)
    return v
def bld(ctx, name, args):
    n = ctx.fresh_int(name + '_n'); ctx.assume(n >= 0)
    return ctx.born(SList((), OpaqueSeq(name, n, lambda it, i: elem(it.ctx, name, i))))
def fat_args(a):
    f = a[0].attrs
    return [f['fat_offset'], f['fat_size'], f['last_valid_cluster'], f['fat_type'], a[1]]
ABS = {'dfir_ntfs.addons.FAT.FAT.chain': func_of('fat_chain', E, bld, fat_args),
       'contracts.p20.table_chain': func_of('fat_chain', E, bld, lambda a: a[1:])}

# ---- generators
def table(r, t, n):
    """A table of n entries with chains, loops, bad and reserved entries."""
    m = {12: 0xFFF, 16: 0xFFFF, 32: 0xFFFFFFFF}[t]
    v = []
    for i in range(n):
        v.append(r.choice([i + 1, i + 1, i + 1, r.randrange(n + 3), r.randrange(n + 3), 0, 1, eoc(t) - 1, eoc(t), m, eoc(t) - 2, i]))
    if t == 32: v = [x | r.randrange(16) << 28 & 0xF0000000 for x in v]
    if t != 12: return b''.join(x.to_bytes(t // 8, 'little') for x in v)
    if n % 2: v.append(0)
    return b''.join((v[i] | v[i + 1] << 12).to_bytes(3, 'little') for i in range(0, len(v), 2))
def gen_table(r):
    t = r.choice([12, 16, 32, 12, 16, 32, 8])
    n = r.randrange(1, 60)
    off = r.choice([0, 512, 512, 1024, 100, 1])
    b = bytes(off) + table(r, t if t != 8 else 12, n)
    if r.random() < 0.6: b += bytes(1024)
    if r.random() < 0.1: b = b[:r.randrange(len(b) + 1)]
    return {'vol': b, 'off': off, 'size': r.choice([512, 512, 512, 1024, 0, 511, 513]), 'last': r.choice([n, n, n - 1, n // 2, 1000]), 't': t}
def gen_el(r): return dict(gen_table(r), n=r.choice([0, 1, 2, r.randrange(70), r.randrange(1200), 341, 340, 255, 256, 127, 128]))
def gen_chain(r): return dict(gen_table(r), first=r.choice([0, 1, 2, 3, r.randrange(60), r.randrange(60), 0xFF7, 0xFFF7, 0x0FFFFFF7]))
def gen_read(r):
    kind = r.choice([0, 0, 0, 3])
    t, bps, spc, rsvd, nfats, fatsz, root, total = GEOM[kind]
    b = bytearray((total if r.random() < 0.7 else r.randrange(10, 60)) * bps)
    f = table(r, t, r.randrange(3, 40))
    b[:512] = bytes(512)
    b[rsvd * bps:rsvd * bps + len(f)] = f
    data = (rsvd + nfats * fatsz + (root * 32 + bps - 1) // bps) * bps
    for i in range(r.randrange(5, 60)):
        at = data + i * bps * spc
        if at + bps <= len(b): b[at:at + bps] = bytes([i + 1]) * bps
    return {'kind': kind, 'before': r.choice([0, 512]), 'rest': bytes(b[512:]), 'size': r.choice([None, None, total * bps, 4096, data + 3 * bps, 100]), 'first': r.choice([0, 1, 2, 3, r.randrange(2, 40), r.randrange(2, 40), 0xFF7]), 'want': r.choice([None, None, 0, 1, bps - 1, bps, bps + 1, 5 * bps - 3])}

# ---- the walk over a volume (bounded)
def table_bytes(t, v):
    """A table holding the values v."""
    if t != 12: return b''.join(x.to_bytes(t // 8, 'little') for x in v)
    w = v + [0] * (len(v) % 2)
    return b''.join((w[i] | w[i + 1] << 12).to_bytes(3, 'little') for i in range(0, len(w), 2))
def real_walk(vol, before, size, encoding, every):
    fs = FAT.FileSystemParser(vol, before, size)
    out = [p22.view(x) for x in fs.walk(encoding, every)]
    return settle(out)
def settle(out):
    """Orphan directories are reported last, in no particular order."""
    def orphan(x):
        p = x[1] if x[0] == 'orphan' else x[1][2]
        return p.startswith('<Orphan directory ')
    head = [x for x in out if not orphan(x)]
    tail = sorted((x for x in out if orphan(x)), key=repr)
    return head + tail if all(orphan(x) for x in out[len(head):]) else out
def spec_walk(vol, before, size, encoding, every):
    if size is not None and size < 4096: raise ValueError('small')
    img = vol.getvalue()
    boot = img[before:before + 512]
    kind = BOOTS.index(boot) if boot in BOOTS else WBOOTS.index(boot) + len(BOOTS)
    t, bps, spc, rsvd, nfats, fatsz, root, total = (GEOM + WGEOM)[kind]
    data = (rsvd + nfats * fatsz + (root * 32 + bps - 1) // bps) * bps
    last = (total * bps - data) // (bps * spc) + 1
    cs = bps * spc
    tab = (vol, before + rsvd * bps, fatsz * bps, last, t)
    def read(first):
        parts = []
        for c in chain(*tab, first):
            if c is None: parts.append(bytes(cs)); continue
            at = data + (c - 2) * cs
            if size is not None and at + cs > size: raise ValueError('beyond')
            d = img[before + at:before + at + cs]
            if len(d) != cs: raise ValueError('truncated')
            parts.append(d)
        return b''.join(parts)
    def state(c):
        try: return element(*tab, c) != 0
        except E: return None
    shelved = set()
    seen = set()
    def down(buf, path, above):
        out = []
        base = path if path.endswith('/') else path + '/'
        for k, x in p22.spec_entries(buf, t == 32, encoding, False):
            if k == 'orphan':
                out.append((k, base + x))
                continue
            gone, isdir, text, raw, name, first = x[0], x[1], x[2], x[3], x[4], x[11]
            sub = isdir and text not in ('.', '..')
            if sub and first != 0 and first in above: continue
            out.append((k, x[:2] + (base + text, raw, None if name is None else base + name) + x[5:]))
            if not sub: continue
            used = state(first)
            if used is None: continue
            if gone and used and not every:
                shelved.add(first)
                continue
            seen.add(first)
            try: d = read(first)
            except (E, ValueError): continue
            if d == b'': continue
            if gone and not every and d[33:35] != b'. ': continue
            if gone and len(chain(*tab, first)) == 1 and state(first + 1) is False:
                try: more = read(first + 1)
                except (E, ValueError): more = None
                if more is not None and 0 not in (d[-96], d[-64], d[-32], more[0]) and more[33:35] != b'. ': d = d + more
            out += down(d, path + '/' + (text if name is None else name), above | ({first} if first else set()))
        return out
    if t == 32:
        seen.add(2)
        out = down(read(2), '', {2})
    else:
        at = (rsvd + nfats * fatsz) * bps
        d = img[before + at:before + at + root * 32]
        if len(d) != root * 32: raise ValueError('truncated root')
        out = down(d, '', set())
    lost = []
    for c in shelved - seen:
        try: d = read(c)
        except (E, ValueError): continue
        if len(d) >= 512 and d[32:35] == b'.. ' and d[0:2] == b'. ': lost += down(d, '<Orphan directory %d>' % c, set())
    return settle(out + lost)
# small clusters (so that directories span several of them) and enough clusters for the type
WGEOM = [(32, 512, 1, 4, 1, 516, 0, 66100)]
WBOOTS = [make_boot(*g) for g in WGEOM]
def dir_entry(r, first, isdir=None):
    e = p22.short_entry(r)
    e[:11] = r.choice([b'DIR%d    ' % r.randrange(10) + b'   ', b'FILE    TXT', b'A%d      ' % r.randrange(10) + b'B  '])[:11].ljust(11)
    if isdir is None: isdir = r.random() < 0.6
    e[11] = 0x10 if isdir else 0x20
    e[26:28] = (first & 0xFFFF).to_bytes(2, 'little')
    e[20:22] = (first >> 16).to_bytes(2, 'little')
    return e
def dir_bytes(r, n, me, up, clusters, full):
    out = []
    if me is not None and r.random() < 0.85:
        for nm, c in ((b'.', me), (b'..', up)):
            e = dir_entry(r, c, True)
            e[:11] = nm.ljust(11)
            out.append(e)
    dirs = 0
    while len(out) * 32 < n:
        first = r.choice(clusters + [0, 1, r.randrange(70)])
        s = dir_entry(r, first, dirs < 2 and r.random() < 0.3)
        dirs += s[11] == 0x10
        gone = r.random() < 0.35
        if r.random() < 0.4:
            text = ''.join(r.choice('abcXYZ \u00e9') for _ in range(r.randrange(1, 26))).encode('utf-16le')
            k = (len(text) + 25) // 26
            text = (text + b'\x00\x00').ljust(k * 26, b'\xff')
            es = [p22.lfn(r, (i + 1) | (0x40 if i == k - 1 else 0), p22.checksum(s), text[26 * i:26 * i + 26]) for i in range(k)][::-1]
            if r.random() < 0.15: es.pop()
            for x in es:
                if gone: x[0] = 0xE5
            out += es
        if gone: s[0] = 0xE5
        out.append(s)
        if not full and r.random() < 0.2: break
    return b''.join(bytes(x) for x in out)[:n].ljust(n, b'\x00')
def gen_walk(r):
    kind = r.choice([0, 0, 0, 3, 4, 4, 4])
    t, bps, spc, rsvd, nfats, fatsz, root, total = (GEOM + WGEOM)[kind]
    data = (rsvd + nfats * fatsz + (root * 32 + bps - 1) // bps) * bps
    cs = bps * spc
    n = r.randrange(4, 12)
    end = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[t]
    v = [end & ~7, end] + [r.choice([end, end, end, 0, 0, i + 1, r.randrange(n + 4), eoc(t) - 1]) for i in range(2, n)]
    if t == 32 and v[2] in (0, eoc(t) - 1): v[2] = end
    b = bytearray(data + r.choice([n - 2, n, n + 2, n]) * cs)
    b[:512] = (BOOTS + WBOOTS)[kind]
    f = table_bytes(t, v)
    b[rsvd * bps:rsvd * bps + len(f)] = f
    clusters = list(range(2, n + 1))
    if t != 32: b[(rsvd + nfats * fatsz) * bps:(rsvd + nfats * fatsz) * bps + root * 32] = dir_bytes(r, root * 32, None, 0, clusters, False)
    for c in range(2, n):
        if (t == 32 and c == 2) or r.random() < 0.85: b[data + (c - 2) * cs:data + (c - 1) * cs] = dir_bytes(r, cs, None if c == 2 and t == 32 else c, r.choice(clusters), r.sample(clusters, min(len(clusters), 3)), r.random() < 0.5)
    before = r.choice([0, 512])
    return {'vol': bytes(before) + bytes(b), 'before': before, 'size': r.choice([None, None, None, len(b), data + 3 * cs, 4096]), 'encoding': r.choice(['ascii', 'cp437']), 'every': r.random() < 0.4}

T = {'vol': File(), 'off': Int(0), 'size': Int(), 'last': Int(), 't': Enum(12, 16, 32, 8)}
INV = lambda out, cur, t, first: cur >= 2 and not eoc(t) - 1 in out
CONTRACTS = [
    Contract('fat_element', ['FAT.FAT.__init__', 'FAT.FAT.get_element'], dict(T, n=Int(0)), real_element, spec_element, gen=gen_el),
    Contract('fat_allocated', ['FAT.FAT.is_allocated', 'FAT.FAT.get_element'], dict(T, n=Int(0)), real_allocated, spec_allocated, gen=gen_el),
    Contract('fat_flags', ['FAT.FAT.get_bpb_media', 'FAT.FAT.is_volume_dirty', 'FAT.FAT.are_hard_errors_detected'], T, real_flags, spec_flags, gen=gen_table),
    Contract('fat_chain', ['FAT.FAT.chain', 'FAT.FAT.get_element'], dict(T, first=Int(0)), real_chain, spec_chain, gen=gen_chain,
             loops=[Loop({'out': 'chain', 'cur': 'curr_cluster'}, func='chain', inv=INV)],
             alts=[(spec_chain_seen, [Loop({'out': 'chain', 'cur': 'curr_cluster', 'seen': 'seen'}, inv=lambda seen, cur, t: cur >= 2 and not eoc(t) - 1 in seen)])]),
    Contract('fat_read_chain', ['FAT.FileSystemParser.read_chain', 'FAT.FileSystemParser.__init__'], {'kind': Enum(*range(len(GEOM))), 'before': Enum(0, 512), 'rest': Bytes(lo=4096), 'size': Opt(Int(0)), 'first': Int(0), 'want': Opt(Int(0))}, real_read, spec_read, gen=gen_read, abstracts=ABS,
             loops=[Loop({'parts': 'bufs', 'done': 'read_bytes', '@iter': '@iter'}, inv=lambda done: done >= 0)],
             alts=[(spec_read_cat, [Loop({'whole': 'data', 'done': 'read_bytes', '@iter': '@iter'}, inv=lambda done: done >= 0)])],
             note='four geometries (FAT12, FAT16 and FAT32, cluster sizes 512, 2048 and 4096 bytes); the chain is abstracted by its own contract fat_chain'),
    Contract('fat_walk', ['FAT.FileSystemParser.walk', 'FAT.ExpandPath'], {'vol': File(), 'before': Int(0, 512), 'size': Opt(Int(0)), 'encoding': Enum('ascii', 'cp437'), 'every': Bool()}, real_walk, spec_walk, gen=gen_walk, bounded=True, weight=3,
             note='generated FAT12 and FAT32 volumes of up to 12 used clusters: cyclic, shared, deleted, reallocated, truncated and orphaned directories, both values of scan_reallocated'),
]
