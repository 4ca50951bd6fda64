"""P26: traversal of a log file: every record between the oldest and the current one is reported, once, in order (bounded stand-in)."""
import io, struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from contracts.p14 import restart_page, protect, put
from dfir_ntfs import LogFile

HEADER = 48; DATA = 64; PAGE = 4096
OAT_OPS = (0x1C, 0x1D, 0x1E)

def body(r, kind, st):
    """Client data of a log record: (record type, bytes)."""
    if kind == 'restart':
        n = r.choice([64, 104, 112])
        return 2, struct.pack('<LLQQQQQLLLLqQLLQqQ', st['major'], 0, *[st['lsn'](r) for _ in range(5)], 1, 2, 3, 4, r.randrange(1 << 40), 5, st['cluster'], 0, 7, 8, 9)[:n]
    if kind == 'short': return 1, gens.rb(r, r.choice([8, 24]))
    if kind == 'unknown': return 7, gens.rb(r, 40)
    redo, undo, rd, ud = r.randrange(0, 0x26), r.randrange(0, 0x26), gens.rb(r, 8 * r.randrange(0, 6)), gens.rb(r, 8 * r.randrange(0, 4))
    if redo in OAT_OPS: redo = 8
    target = r.choice([24, 24, 64, 104, 5])
    if kind == 'open':
        redo = 0x1C; ud = r.choice(['$I30', '', 'x', '$SDS']).encode('utf-16le')
        rd = gens.rb(r, r.choice([44, 44, 44, 39, 8]))
    elif kind == 'oat': redo = 0x1D; rd = gens.rb(r, r.choice([64, 104, 200]))
    elif kind == 'names':
        redo = 0x1E; rd = b''
        for _ in range(r.randrange(1, 4)):
            n = r.choice(['', '$I30', 'a', '$SDH']).encode('utf-16le'); rd += struct.pack('<HH', r.choice([24, 64, 104]), len(n)) + n + b'\0\0'
        rd += bytes(4)
    elif kind == 'big': rd = gens.rb(r, r.choice([500, 3000, 3960, 4000, 4032, 6000, 9000]))
    elif kind == 'badundo': redo = 0x1C; ud = b'abcd'
    o = 40
    uo = o + len(rd)
    h = struct.pack('<HHHHHHHHHHHHq', redo, undo, o if rd else 0, len(rd), (8 if kind == 'badundo' else uo) if ud else 0, len(ud), target, 1, r.randrange(0, 100), r.randrange(0, 100), r.choice([0, 2, 4]), r.choice([0, 2, 8]), r.randrange(0, 5000))
    b = h + struct.pack('<q', 77) + rd + ud
    return 1, b + bytes(-len(b) % 8)

def build(r):
    """A log written sequentially: returns (file, [(lsn, record type, data, transaction)] in log order, recover flag, major version)."""
    version = r.choice([(1, 1), (1, 1), (2, 0), (3, 0)])
    first = 4 if version[0] == 1 else 34
    n = r.choice([1, 2, 3, 5, 8])
    npages = first + n
    bits = r.choice([40, 44, 48])
    pages = {}
    page = r.randrange(first, npages); seq = r.choice([1, 2, 5, 300]); off = DATA
    start = page
    major = r.choice([0, 1, 1, 2])
    recs = []
    st = {'major': major, 'cluster': r.choice([4096, 512, 4096]), 'lsn': lambda r: r.choice([0, 0] + [x[0] for x in recs[-4:]])}
    written = []
    def buf(p):
        if p not in pages: pages[p] = [bytearray(PAGE), 0, 0]; written.append(p)
        return pages[p]
    def nxt(p): return (p + 1, 0) if p + 1 < npages else (first, 1)
    cap = n
    kinds = ['plain'] * 6 + ['open', 'open', 'oat', 'names', 'big', 'big', 'short', 'unknown', 'badundo', 'restart']
    last = 0; prev = {}
    full = False
    for k in range(r.choice([1, 3, 8, 25])):
        if off + HEADER > PAGE:
            page, w = nxt(page); seq += w; off = DATA
            if page == start: break
        kind = 'restart' if k == 0 else r.choice(kinds)
        t, d = body(r, kind, st)
        d = d + bytes(-len(d) % 8)
        tail = (r.choice([0] * 8 + [-1]) and (PAGE - off - HEADER - len(d)))
        # pages the record needs, including the first
        need = 1; left = len(d) - (PAGE - off - HEADER)
        while left > 0: need += 1; left -= PAGE - DATA
        free = len([p for p in range(first, npages) if p not in pages]) + (1 if page in pages else 0)
        if need > free: break
        lsn = (page * PAGE + off) // 8 | seq << (64 - bits)
        tid = r.choice([24, 40])
        h = struct.pack('<QQQLLLLHHL', lsn, prev.get(tid, 0) if r.random() < 0.8 else 0, r.choice([0, prev.get(tid, 0)]), len(d), 0, t, tid, 1 if need > 1 else 0, 0, 0)
        if r.random() < 0.7: prev[tid] = lsn
        b = buf(page)
        b[0][off:off + HEADER] = h; b[1] = lsn
        if need == 1: b[2] = lsn
        off += HEADER
        rest = d; p = page
        while True:
            m = min(len(rest), PAGE - off)
            buf(p)[0][off:off + m] = rest[:m]; off += m; rest = rest[m:]
            if not rest: break
            p, w = nxt(p); seq += w; off = DATA
            buf(p)[1] = max(buf(p)[1], lsn)
        buf(p)[2] = lsn
        page = p
        recs.append((lsn, t, d, tid))
    # the pages of the circular area
    blocks = {}
    for p, (b, last_lsn, last_end) in pages.items():
        b[0:4] = b'RCRD'; put(b, 4, 2, 40); put(b, 6, 2, 9); put(b, 8, 8, last_lsn); put(b, 16, 4, 1); put(b, 20, 2, 1); put(b, 22, 2, 1); put(b, 24, 2, 0); put(b, 32, 8, last_end)
        put(b, 60, 4, p * PAGE)
        blocks[p] = b
    recover = r.random() < 0.6
    late = []
    if recover and r.random() < 0.7:
        if version[0] == 1:
            late = written[-1:] if len(written) > 1 else []
        else:
            k = r.randrange(0, min(len(written), 4)); late = written[len(written) - k:] if k else []
    if late and version[0] > 1 and any(blocks[p][8:16] == blocks[q][8:16] for p in late for q in blocks if q not in late): late = []
    f = {}
    for p in range(first, npages):
        if p in blocks and p not in late: f[p] = protect(bytearray(blocks[p]), r.randrange(1 << 16))
        elif p in late and r.random() < 0.4:
            stale = bytearray(blocks[p]); stale[8:16] = bytes(8); stale[32:40] = bytes(8); stale[64:] = bytes(PAGE - 64); f[p] = protect(stale, 3)
        else: f[p] = r.choice([bytes(PAGE), b'\xff' * PAGE, gens.rb(r, PAGE)])
    for i in range(2, first): f[i] = r.choice([bytes(PAGE), b'\xff' * PAGE])
    if late and version[0] == 1:
        b = bytearray(blocks[late[0]]); put(b, 8, 8, late[0] * PAGE)
        f[r.choice([2, 3])] = protect(b, 9)
        if r.random() < 0.4:
            # the other tail page holds an older copy
            b = bytearray(PAGE); b[0:4] = b'RCRD'; put(b, 4, 2, 40); put(b, 6, 2, 9); put(b, 8, 8, late[0] * PAGE); put(b, 32, 8, 1)
            i = [i for i in (2, 3) if f[i][:4] != b'RCRD'][0]; f[i] = protect(b, 8)
    elif late:
        slots = r.sample(range(2, 34), len(late))
        for s, p in zip(slots, late): f[s] = protect(bytearray(blocks[p]), r.randrange(1 << 16))
        # older copies of the same pages, in other slots
        for p in late:
            while r.random() < 0.5 and len(slots) < 30:
                older = r.randrange(max([le(blocks[q], 8, 8) for q in blocks if q not in late], default=0), le(blocks[p], 8, 8))
                b = bytearray(blocks[p]); put(b, 8, 8, older); put(b, 32, 8, older); b[r.choice([64, 512, 2048]):] = b''; b = b.ljust(PAGE, b'\0')
                s = r.choice([i for i in range(2, 34) if i not in slots]); slots.append(s); f[s] = protect(b, r.randrange(1 << 16))
    cur = recs[-1][0]
    rp = restart_page(bits, version, DATA, HEADER, current=cur, clients=[(recs[0][0], recs[0][0])], size=npages * PAGE)
    pages2 = [rp, rp]
    if r.random() < 0.15: pages2[r.randrange(2)] = r.choice([bytes(PAGE), gens.rb(r, PAGE)])
    vol = b''.join(pages2) + b''.join(f[i] for i in range(2, npages))
    return vol, recs, recover, major, st['cluster']

class Case(Shape):
    """A generated log (the bytes, and what was written)."""
    def native(self, c): return c

def expected(recs, major, cluster):
    """What the traversal has to report for the records written."""
    oat = {}; dumps = [None, None]; counts = [0, 0]; old = [None, None]
    out = []
    have_restart_cluster = cluster if any(t == 2 and len(d) >= 84 for _, t, d, _ in recs) else 4096
    for lsn, t, d, tid in recs:
        if t == 2: out.append(('restart', lsn, bytes(d))); continue
        if t != 1 or len(d) < 32: continue
        redo = le(d, 0, 2)
        def data(at):
            o, n = le(d, at, 2), le(d, at + 2, 2)
            return b'' if n == 0 else bytes(d[o:o + n])
        if redo == 0x1C:
            if not (le(d, 10, 2) and 0 < le(d, 8, 2) < 32):
                e = data(4)
                if len(e) < (40 if major >= 1 else 44): oat = {}
                else: oat[le(d, 12, 2)] = (le(e, 16 if major >= 1 else 8, 8), data(8).decode('utf-16le', errors='replace'))
            else: oat = {}
        elif major < 2 and redo == 0x1D: old[0] = dumps[0]; dumps[0] = data(4); counts[0] += 1
        elif major < 2 and redo == 0x1E: old[1] = dumps[1]; dumps[1] = data(4); counts[1] += 1
        pair = (None, None)
        if major < 2 and counts[0] > 0: pair = tuple(dumps) if counts[0] == counts[1] else tuple(old)
        out.append(('record', lsn, bytes(d), tid, have_restart_cluster, dict(oat), pair))
    return out

def view(p, item):
    if type(item) is LogFile.NTFSRestartArea: return ('restart', item.lsn, bytes(item.buf))
    pair = (None if item.oat_dump is None else bytes(item.oat_dump.buf), None if item.an_dump is None else bytes(item.an_dump.buf))
    return ('record', item.lsn, bytes(item.buf), item.transaction_id, item.cluster_size, dict(item.oat), pair)
def real_walk(case):
    vol, recs, recover, major, cluster = case
    f = io.BytesIO(vol)
    p = LogFile.LogFileParser(f)
    out = [view(p, i) for i in p.parse_ntfs_records(recover)]
    return (out, f.getvalue() == vol)
def spec_walk(case):
    vol, recs, recover, major, cluster = case
    return (expected(recs, major, cluster), True)

# any bytes after valid restart pages: the traversal ends, and reports no record twice
def real_any(vol, recover):
    p = LogFile.LogFileParser(io.BytesIO(vol))
    seen = set()
    n = 0
    for i in p.parse_ntfs_records(recover):
        if i.lsn in seen: return 'twice'
        seen.add(i.lsn)
        n += 1
        if n > len(vol): return 'too many'
    return 'done'
def spec_any(vol, recover): return 'done'
def gen_any(r):
    vol, recs, recover, major, cluster = build(r)
    vol = bytearray(vol)
    for _ in range(r.randrange(0, 12)):
        p = r.randrange(2, len(vol) // PAGE)
        if vol[p * PAGE:p * PAGE + 4] != b'RCRD': continue
        i = p * PAGE + r.choice([8, 9, 32, 33, 64, 65, 72, 80, 88, 89, 90, 92, 96, r.randrange(64, PAGE)])
        if i % 512 < 510: vol[i] = r.choice([0, 1, 255, r.randrange(256)])
    return {'vol': bytes(vol), 'recover': recover}

CONTRACTS = [
    Contract('log_traversal', ['LogFile.LogFileParser.collect_lsns', 'LogFile.LogFileParser.sort_lsns', 'LogFile.LogFileParser.parse_ntfs_records', 'LogFile.LogFileParser.apply_tail_page', 'LogFile.LogFileParser.apply_fast_pages',
             'LogFile.LogFileParser.prepare_for_writes', 'LogFile.LogFileParser.discard_changes'], {'case': Case()}, real_walk, spec_walk, gen=lambda r: {'case': build(r)}, bounded=True, weight=2,
             note='generated logs of 1 to 8 circular pages, versions 1.1, 2.0 and 3.0, up to 25 records of up to 9000 bytes, with wraps, tail and fast pages and one damaged restart page'),
    Contract('log_traversal_damaged', ['LogFile.LogFileParser.parse_ntfs_records'], {'vol': Bytes(), 'recover': Bool()}, real_any, spec_any, gen=gen_any, bounded=True,
             note='the same logs with up to 12 bytes of log pages changed: the traversal ends without an exception'),
]
LEVEL = 'exploration'
