"""P22: names, dates and directory entries of FAT volumes."""
import datetime, warnings
from pyvc.driver import Contract, Loop
from pyvc.abstract import func_of
import z3
from pyvc import models
from pyvc.values import SList
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from dfir_ntfs.addons import FAT
warnings.simplefilter('ignore')

# ---- dates and times
def date(v):
    y = 1980 + (v >> 9)
    m = v >> 5 & 15
    d = v & 31
    n = 31
    if m == 4 or m == 6 or m == 9 or m == 11: n = 30
    if m == 2: n = 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    if m < 1 or m > 12 or d < 1 or d > n: return None
    return (y, m, d)
def time(v):
    if v & 31 > 29 or v >> 5 & 63 > 59 or v >> 11 > 23: return None
    return (v >> 11, v >> 5 & 63, (v & 31) * 2)
def real_date(v):
    d = FAT.DecodeFATDate(v)
    return None if d is None else (d.year, d.month, d.day)
def real_time(v):
    t = FAT.DecodeFATTime(v)
    return None if t is None else (t.hour, t.minute, t.second, t.microsecond)
def spec_time(v):
    t = time(v)
    return None if t is None else t + (0,)

# ---- bytes of an entry
def real_nt(v): return FAT.ParseNTByte(v)
def spec_nt(v):
    enc = v & 1 == 1
    return (v & 8 != 0, v & 16 != 0, enc, enc and v & 2 != 0, (v >> 5) * 2 + (v >> 2 & 1) if enc else None)
def real_label(v): return FAT.IsVolumeLabel(v)
def is_label(v): return v & 0x3F != 15 and v & 0x18 == 8
def real_attrs(v): return FAT.ResolveFileAttributes(v)
def spec_attrs(v):
    out = []
    for bit, name in ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'VOLUME_ID'), (16, 'DIRECTORY'), (32, 'ARCHIVE')):
        if v & bit != 0: out.append(name)
    return ' | '.join(out)
def real_sum(name): return FAT.BuildChecksum(name)
def checksum(name):
    c = 0
    for i in range(11):
        c = (c // 2 + c % 2 * 128 + name[i]) % 256
    return c

# ---- short names
def forbidden(c): return c < 32 or c in b'"*,./:;<=>?[\\]|' or 97 <= c <= 122
def valid(name):
    if len(name) != 11: return False
    if name == b'.          ' or name == b'..         ': return True
    first = name[0]
    if first == 32 or (first != 5 and first != 0 and forbidden(first)): return False
    for c in name[1:]:
        if forbidden(c): return False
    return True
def real_valid(name): return FAT.ValidateShortName(name)
def spec_valid(name): return valid(name)
def short(name, encoding, low_base, low_ext):
    if not valid(name): return None
    if name[0] == 0 or name[0] == 0xE5: name = b'_' + name[1:]
    elif name[0] == 5: name = b'\xE5' + name[1:]
    base = name[:8].rstrip(b' ')
    ext = name[8:].rstrip(b' ')
    if encoding is None:
        if len(ext) > 0: return base + b'.' + ext
        return base
    base = base.decode(encoding, errors='replace')
    ext = ext.decode(encoding, errors='replace')
    if low_base: base = base.lower()
    if low_ext: ext = ext.lower()
    if len(ext) > 0: return base + '.' + ext
    return base
def real_short(name, encoding, low_base, low_ext): return FAT.ParseShortName(name, encoding, low_base, low_ext)

# ---- long names
def long_text(buf):
    """UTF-16 text up to the first NUL character, at most 255 characters; None when empty."""
    i = 0
    while i < len(buf):
        if buf[i:i + 2] == b'\x00\x00':
            buf = buf[:i]
            break
        i = i + 2
    s = buf.decode('utf-16le', errors='replace')
    if len(s) == 0: return None
    if len(s) > 255: return s[:255]
    return s
def real_long_one(a): return FAT.BuildLongName([a])
def spec_long_one(a): return long_text(a)
def real_long_order(a, b, c, n):
    return FAT.BuildLongName([a, b, c][:n])
def spec_long_order(a, b, c, n):
    if n == 0: return None
    return long_text(a if n == 1 else b + a if n == 2 else c + b + a)
def names(parts):
    if len(parts) == 0: return None
    buf = b''
    for p in parts: buf = p + buf
    return long_text(buf)

# ---- directory entries
def deleted(order): return order == 0 or order == 0xE5
def coherent(order, csum, po, pc):
    """Does a long entry (order, checksum) follow the previous one of its set (or start one)?"""
    if po is None: return deleted(order) or (order & 0x40 != 0 and 1 <= order - 0x40 <= 20)
    if deleted(order) != deleted(po) or csum != pc: return False
    if deleted(order): return True
    return 1 <= order <= 20 and (po - 0x40 if po & 0x40 != 0 else po) == order + 1
def label(raw, encoding):
    """(normalised bytes, text) of a volume label."""
    for c in raw:
        if c in b'\x00\n\r': return (None, None)
    return (raw.rstrip(b' '), raw.rstrip(b' ').decode(encoding, errors='replace'))
def stamp(d, t, extra):
    if d is None or t is None: return None
    return datetime.datetime(d.year, d.month, d.day, t.hour, t.minute, t.second) + datetime.timedelta(microseconds=extra * 10000)
def day(v):
    d = date(v)
    return None if d is None else datetime.date(d[0], d[1], d[2])
def clock(v):
    t = time(v)
    return None if t is None else datetime.time(t[0], t[1], t[2])
def entry(e, deleted_now, raw, text, name, is32):
    a = e[11] & 0x3F
    return (deleted_now, a & 0x18 == 0x10, text, raw, name, day(le(e, 18, 2)), stamp(day(le(e, 24, 2)), clock(le(e, 22, 2)), 0), stamp(day(le(e, 16, 2)), clock(le(e, 14, 2)), e[13] if e[13] <= 199 else 0),
            le(e, 28, 4), a, e[12], le(e, 26, 2) + (le(e, 20, 2) * 65536 if is32 else 0), e[12] & 1 == 1)
def view(x):
    if type(x) is FAT.OrphanLongEntry: return ('orphan', x.long_name_partial)
    return ('file', (x.is_deleted, x.is_directory, x.short_name, x.short_name_raw, x.long_name, x.atime, x.mtime, x.ctime, x.size, x.attributes, x.ntbyte, x.first_cluster, x.is_encrypted))
def real_entries(buf, is32, encoding, short_only):
    for x in FAT.DirectoryEntries(buf, is32).entries(encoding, short_only):
        yield view(x)
def shown(e, null, is32, encoding, parts, order, csum):
    """A short entry: (orphaned long name or None, the file entry or None)."""
    a = e[11] & 0x3F
    raw = e[0:11]
    gone = deleted(e[0])
    if is_label(a):
        if gone: raw = b'_' + raw[1:]
        elif e[0] == 5: raw = b'\xE5' + raw[1:]
        norm, text = label(raw, encoding)
    else:
        norm = short(raw, None, e[12] & 8 != 0, e[12] & 16 != 0)
        text = short(raw, encoding, e[12] & 8 != 0, e[12] & 16 != 0)
    orphan = None
    name = None
    if gone: name = names(parts)
    elif order is not None and csum == checksum(raw) and (order == 1 or order == 0x41): name = names(parts)
    elif len(parts) > 0: orphan = names(parts)
    blank = e.lstrip(b'\xE5') == b'' or e.lstrip(b'\x00') == b''
    if text is None or a & 0x18 == 0x18 or blank:
        if name is not None: orphan = name
        return (orphan, None)
    return (orphan, entry(e, True if gone else None if null else False, norm, text, name, is32))
def spec_entries(buf, is32, encoding, short_only):
    if len(buf) < 512 or len(buf) % 512 != 0: raise FAT.DirectoryEntriesException('size')
    pos = 0
    parts = []
    order = None
    csum = None
    null = False
    last = False
    while pos < len(buf):
        e = buf[pos:pos + 32]
        pos = pos + 32
        last = False
        if e[0] == 0: null = True
        if e[11] & 0x3F == 15:
            if short_only or e[12] != 0: continue
            if not coherent(e[0], e[13], order, csum):
                orphan = names(parts)
                if orphan is not None: yield ('orphan', orphan)
                parts = []
                order = None
                csum = None
                if not coherent(e[0], e[13], None, None): continue
            order = e[0]
            csum = e[13]
            parts.append(e[28:32])
            parts.append(e[14:26])
            parts.append(e[1:11])
            continue
        orphan, f = shown(e, null, is32, encoding, parts, order, csum)
        if orphan is not None: yield ('orphan', orphan)
        if f is not None:
            yield ('file', f)
            last = True
        parts = []
        order = None
        csum = None
    orphan = names(parts)
    if orphan is not None: yield ('orphan', orphan)

# ---- paths
def real_expand(parent, kind, s, l):
    if kind == 0: x = FAT.OrphanLongEntry(s)
    else: x = FAT.FileEntry(False, kind == 2, s, b'RAW', l, 1, 2, 3, 4, 5, 6, 7, False)
    return tuple(FAT.ExpandPath(parent, x))
def spec_expand(parent, kind, s, l):
    p = parent
    if p[-1:] != '/': p = p + '/'
    if kind == 0: return (p + s,)
    return (False, kind == 2, p + s, b'RAW', p + l if l is not None else None, 1, 2, 3, 4, 5, 6, 7, False)

# ---- generators
def gen_v16(r): return {'v': r.choice([r.randrange(65536), 0, 65535, 0x21, 0x5C5D, 33 + 29, (r.randrange(128) << 9) | (2 << 5) | r.choice([28, 29, 30])])}
def gen_v8(r): return {'v': r.randrange(256)}
def rname(r):
    n = bytes(r.choice(b'ABCXYZ019_~ -$') for _ in range(11))
    x = bytearray(r.choice([n, n, b'FILE    TXT', b'.          ', b'..         ', b'ABCDEFGHIJK', b'A       B  ', b'NOEXT      ']))
    if r.random() < 0.25: x[0] = r.choice([0, 5, 0xE5, 32, 97])
    if r.random() < 0.2: x[r.randrange(11)] = r.choice([r.randrange(256), 97, 122, 123, 96, 31, 32, 34, 43, 0x80, 0xFF, 10, 13, 0])
    return bytes(x)
def gen_name(r):
    n = rname(r)
    return {'name': r.choice([n] * 9 + [n[:10], n + b' ', b''])}
def gen_short(r): return dict(gen_name(r), encoding=r.choice([None, 'ascii', 'cp437']), low_base=r.random() < 0.5, low_ext=r.random() < 0.5)
def rtext(r): return ''.join(r.choice('abc XYZ.\u00e9\u4e2d') for _ in range(r.choice([0, 1, 3, 5, 13, 13, 30]))).encode('utf-16le') + r.choice([b'', b'\x00\x00', b'\x00\x00\xff\xff', b'\x00\xd8', b'\x00', b'a'])
def gen_one(r): return {'a': rtext(r) * r.choice([1, 1, 1, 20, 70])}
def gen_order(r): return {'a': rtext(r), 'b': rtext(r), 'c': rtext(r), 'n': r.randrange(4)}
def lfn(r, order, csum, chunk):
    e = bytearray(32)
    e[0] = order; e[11] = r.choice([15, 15, 15, 0x4F, 0xCF]); e[13] = csum
    e[1:11] = chunk[:10]; e[14:26] = chunk[10:22]; e[28:32] = chunk[22:26]
    return e
def short_entry(r):
    e = bytearray(gens.rb(r, 32))
    e[:11] = rname(r)
    e[11] = r.choice([0x20, 0x20, 0x10, 0x16, 8, 8, 0x18, 0x30, 0xE0])
    if r.random() < 0.7:
        for at in (16, 18, 24): e[at:at + 2] = ((r.randrange(128) << 9) | (r.randrange(1, 13) << 5) | r.randrange(1, 29)).to_bytes(2, 'little')
        for at in (14, 22): e[at:at + 2] = ((r.randrange(24) << 11) | (r.randrange(60) << 5) | r.randrange(30)).to_bytes(2, 'little')
        e[13] = r.choice([0, 199, 200, r.randrange(256)])
    return e
def entry_set(r):
    s = short_entry(r)
    out = []
    if r.random() < 0.7:
        text = ''.join(r.choice('abcXYZ \u00e9') for _ in range(r.randrange(1, 40))).encode('utf-16le')
        k = (len(text) + 25) // 26
        text += b'\x00\x00'; text += b'\xff' * (k * 26)
        c = checksum(s) if r.random() < 0.85 else r.randrange(256)
        es = [lfn(r, (i + 1) | (0x40 if i == k - 1 else 0), c, text[26 * i:26 * i + 26]) for i in range(k)][::-1]
        gone = r.random() < 0.3
        if gone:
            for x in es: x[0] = r.choice([0xE5, 0xE5, 0xE5, 0])
        if gone or r.random() < 0.1: s[0] = r.choice([0xE5, 0xE5, 0])
        out += es
        if r.random() < 0.15 and out: out.pop(r.randrange(len(out)))
        if r.random() < 0.1 and out: out.insert(r.randrange(len(out) + 1), out[r.randrange(len(out))])
        if r.random() < 0.1 and out: out[r.randrange(len(out))][r.choice([0, 12, 13])] = r.randrange(256)
    if r.random() < 0.85: out.append(s)
    if r.random() < 0.1: out.append(bytearray(r.choice([b'\xe5' * 32, b'\x00' * 32])))
    return out
def entries_buf(r, n=512):
    out = []
    while len(out) * 32 < n: out += entry_set(r)
    b = b''.join(bytes(x) for x in out)[:n]
    if r.random() < 0.3: b = b[:r.randrange(0, n // 32) * 32]; b += bytes(n - len(b))
    return b
def gen_entries(r):
    b = entries_buf(r, r.choice([512, 512, 1024]))
    if r.random() < 0.04: b = r.choice([b'', b[:-1], b + b[:32], b[:480]])
    return {'buf': b, 'is32': r.random() < 0.5, 'encoding': r.choice(['ascii', 'cp437']), 'short_only': r.random() < 0.2}
def gen_expand(r):
    return {'parent': r.choice(['', '/', '/a', '/a/', 'x', '<Orphan directory 5>', '//']), 'kind': r.randrange(3), 's': r.choice(['A', 'B.TXT', '.', '']), 'l': r.choice([None, 'long name', ''])}

def long_name_call(it, args, kw):
    """The text of a list of long name parts: None, or a value that depends only on the parts."""
    l = args[0]
    if it.ctx.decide(it.ctx._eq(it.slen(l), 0)): return None
    x = SList(l.items, l.prefix)
    return LN(it, [x], {})
LN = func_of('long_name', nullable=True)
def sum_value(ctx, name, args):
    v = ctx.fresh_int(name); ctx.assume(z3.And(v >= 0, v <= 255)); return v
D = func_of('fat_date', nullable=True, build=lambda ctx, name, args: models.known_date(ctx, name))
C = func_of('fat_clock', nullable=True, build=lambda ctx, name, args: models.known_time(ctx, name))
S = func_of('lfn_sum', build=sum_value)
N = func_of('short_name', nullable=True)
M = 'dfir_ntfs.addons.FAT.'
ABS = {M + 'ParseShortName': N, 'contracts.p22.short': N, M + 'BuildLongName': long_name_call, 'contracts.p22.names': long_name_call, M + 'BuildChecksum': S, 'contracts.p22.checksum': S,
       M + 'DecodeFATDate': D, 'contracts.p22.day': D, M + 'DecodeFATTime': C, 'contracts.p22.clock': C}
def nt_call(it, args, kw):
    """The case and encryption flags by their contract fat_ntbyte; the two values that entries ignore are left out."""
    v = args[0]
    it.trusted.add('call abstracted by its own contract: fat_ntbyte')
    def bit(k): return it.simp((v / (1 << k)) % 2 == 1) if z3.is_expr(v) else v >> k & 1 == 1
    return (bit(3), bit(4), bit(0), None, None)
ABS[M + 'ParseNTByte'] = nt_call
# for directories of any length: every date and time is valid (an invalid one is covered by fat_entry_times, for one entry)
D1 = func_of('fat_date', build=lambda ctx, name, args: models.known_date(ctx, name))
C1 = func_of('fat_clock', build=lambda ctx, name, args: models.known_time(ctx, name))
ABS1 = dict(ABS, **{M + 'DecodeFATDate': D1, 'contracts.p22.day': D1, M + 'DecodeFATTime': C1, 'contracts.p22.clock': C1})
def real_times(attr, rest, is32):
    for x in FAT.DirectoryEntries(b'FILE    TXT' + bytes([attr, 0]) + rest + bytes(480), is32).entries('cp437', False): yield view(x)
def spec_times(attr, rest, is32):
    e = b'FILE    TXT' + bytes([attr, 0]) + rest
    orphan, f = shown(e, False, is32, 'cp437', [], None, None)
    if f is not None: yield ('file', f)
def gen_times(r):
    e = short_entry(r)
    return {'attr': r.choice([0x20, 0x10, 8]), 'rest': bytes(e[13:]), 'is32': r.random() < 0.5}
CONTRACTS = [
    Contract('fat_date', ['FAT.DecodeFATDate'], {'v': Int(0, 65535)}, real_date, date, gen=gen_v16),
    Contract('fat_time', ['FAT.DecodeFATTime'], {'v': Int(0, 65535)}, real_time, spec_time, gen=gen_v16),
    Contract('fat_ntbyte', ['FAT.ParseNTByte'], {'v': Int(0, 255)}, real_nt, spec_nt, gen=gen_v8),
    Contract('fat_label', ['FAT.IsVolumeLabel'], {'v': Int(0, 255)}, real_label, is_label, gen=gen_v8),
    Contract('fat_attributes', ['FAT.ResolveFileAttributes'], {'v': Int(0, 255)}, real_attrs, spec_attrs, gen=gen_v8),
    Contract('fat_checksum', ['FAT.BuildChecksum'], {'name': Bytes(11)}, real_sum, checksum, gen=lambda r: {'name': gens.rb(r, 11)},
             cut_fixed=True, loops=[Loop({'c': 'checksum', '@iter': '@iter'}, inv=lambda c: c >= 0 and c <= 255)]),
    Contract('fat_valid_name', ['FAT.ValidateShortName'], {'name': Bytes()}, real_valid, spec_valid, gen=gen_name, loops=[Loop({'@iter': '@iter'}, func='valid')]),
    Contract('fat_short_name', ['FAT.ParseShortName', 'FAT.ValidateShortName'], {'name': Bytes(), 'encoding': Enum(None, 'ascii', 'cp437'), 'low_base': Bool(), 'low_ext': Bool()}, real_short, short, gen=gen_short,
             loops=[Loop({'@iter': '@iter'}, func='valid')]),
    Contract('fat_long_text', ['FAT.BuildLongName'], {'a': Bytes()}, real_long_one, spec_long_one, gen=gen_one,
             loops=[Loop({'i': 'i', 'buf': 'buf'}, func='long_text', inv=lambda i: i >= 0, variant=lambda i, buf: len(buf) - i)]),
    Contract('fat_long_order', ['FAT.BuildLongName'], {'a': Bytes(), 'b': Bytes(), 'c': Bytes(), 'n': Enum(0, 1, 2, 3)}, real_long_order, spec_long_order, gen=gen_order,
             loops=[Loop({'i': 'i', 'buf': 'buf'}, func='long_text', inv=lambda i: i >= 0, variant=lambda i, buf: len(buf) - i)]),
    *[Contract('fat_entries_%s' % n, ['FAT.DirectoryEntries.__init__', 'FAT.DirectoryEntries.entries', 'FAT.ParseNTByte', 'FAT.IsVolumeLabel'], {'buf': Bytes(), 'is32': Enum(*a), 'encoding': Enum('cp437'), 'short_only': Enum(b)}, real_entries, spec_entries, gen=gen_entries, abstracts=ABS1,
             loops=[Loop({'pos': 'pos', 'parts': 'long_entities', 'order': 'prev_long_order', 'csum': 'prev_long_checksum', 'null': 'found_null', 'last': 'previous_entry_is_file'}, {'order': 'optint', 'csum': 'optint'}, optional=('last',),
                         inv=lambda pos, buf, order, csum, parts, last: pos >= 0 and pos % 32 == 0 and pos <= len(buf) and (order is None) == (csum is None) and (order is None) == (len(parts) == 0) and not (last and len(parts) > 0), variant=lambda pos, buf: len(buf) - pos)],
             note='names, checksums, dates and times are abstracted by their own contracts above; dates and times are taken as valid (fat_entry_times covers the others)', budget=500, weight=3) for n, a, b in (('12', (False,), False), ('32', (True,), False), ('short', (True,), True))],
    Contract('fat_entry_times', ['FAT.DirectoryEntries.entries', 'FAT.DecodeFATDate', 'FAT.DecodeFATTime'], {'attr': Enum(0x20, 0x10, 8), 'rest': Bytes(19), 'is32': Bool()}, real_times, spec_times, gen=gen_times, abstracts={k: v for k, v in ABS.items() if 'ecode' in k or k.endswith('day') or k.endswith('clock')},
             note='one file, directory or label entry with any times, size and cluster; dates and times abstracted by their own contracts'),
    Contract('fat_entries_bounded', ['FAT.DirectoryEntries.entries'], {'buf': Bytes(), 'is32': Bool(), 'encoding': Enum('ascii', 'cp437'), 'short_only': Bool()}, real_entries, spec_entries, gen=gen_entries, bounded=True, weight=2,
             note='generated directories of 16 or 32 entries with complete, broken, deleted and orphaned long names'),
    Contract('fat_expand_path', ['FAT.ExpandPath'], {'parent': Const(''), 'kind': Enum(0, 1, 2), 's': Const('A'), 'l': Const(None)}, real_expand, spec_expand, gen=gen_expand, bounded=True, note='a list of parents and names'),
]
