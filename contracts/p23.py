"""P23: exFAT volumes: the boot region, the allocation table, directory entry sets, and the walk."""
import io, datetime, uuid, warnings
import z3
from pyvc.driver import Contract, Loop
from pyvc.abstract import func_of
from pyvc import models
from pyvc.values import SList, OpaqueSeq
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from dfir_ntfs.addons import exFAT
warnings.simplefilter('ignore')
X = exFAT
E = X.FileAllocationTableException
BE = X.BootRegionException
DE = X.DirectoryEntriesException

# ---- small values
def real_attrs(v): return X.ResolveFileAttributes(v)
def spec_attrs(v):
    out = []
    for bit, name in ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'UNKNOWN8_MACOS'), (16, 'DIRECTORY'), (32, 'ARCHIVE')):
        if v & bit != 0: out.append(name)
    return ' | '.join(out)
def real_bits(v): return (X.EntryTypeWithoutInUseBit(v), X.DecodeEntryType(v), X.DecodeFlags(v), X.DecodeFATTimezone(v))
def zone(v):
    if v < 128: return None
    o = v & 127
    return o - 128 if o >= 64 else o
def spec_bits(v): return (v & 127, (v & 31, v >> 5 & 1, v >> 6 & 1, v >= 128), (v & 1 == 1, v & 2 == 2), zone(v))
def real_stamp(v, t): return X.DecodeFATTimestamp(v, t)
def stamp(v, t):
    w = v >> 16
    u = v & 0xFFFF
    if u & 31 > 29: return None
    try: d = datetime.datetime((w >> 9 & 127) + 1980, w >> 5 & 15, w & 31, u >> 11 & 31, u >> 5 & 63, (u & 31) * 2)
    except ValueError: return None
    return d + datetime.timedelta(microseconds=(t if t <= 199 else 0) * 10000)

# ---- names
def upto_nul(buf):
    i = 0
    while i < len(buf):
        if buf[i:i + 2] == b'\x00\x00':
            buf = buf[:i]
            break
        i = i + 2
    return buf
def text(buf, limit, dots):
    """UTF-16 text up to its first NUL, cut to the limit; None when empty or when it holds a forbidden character (a cut text is not examined)."""
    s = upto_nul(buf).decode('utf-16le', errors='replace')
    if len(s) == 0: return None
    if limit is not None and len(s) > limit: return s[:limit]
    for c in list(range(32)) + [0x22, 0x2A, 0x2F, 0x3A, 0x3C, 0x3E, 0x3F, 0x5C, 0x7C]:
        if chr(c) in s: return None
    if not dots and (s == '.' or s == '..'): return None
    return s
def real_label(buf, n): return X.BuildLabel(buf, n)
def label_text(buf, n): return text(buf, n, True)
def real_name(a, n): return X.BuildName([a], n)
def spec_name(a, n): return one_name(a, n)
def one_name(buf, n): return text(buf, n, False)
def name_text(parts, n):
    if len(parts) == 0: return None
    buf = b''
    for p in parts: buf = buf + p
    return one_name(buf, n)
def real_name_order(a, b, c, k, n): return X.BuildName([a, b, c][:k], n)
def spec_name_order(a, b, c, k, n):
    if k == 0: return None
    return one_name(a if k == 1 else a + b if k == 2 else a + b + c, n)

# ---- checksums
def real_sum(buf): return X.EntrySetChecksum(buf)
def set_sum(buf):
    if len(buf) < 32 or len(buf) % 32 != 0: raise ValueError('size')
    c = 0
    for i in range(len(buf)):
        if i == 2 or i == 3: continue
        c = (c // 2 + c % 2 * 32768 + buf[i]) % 65536
    return c

# ---- the boot region
def boot_sum(b, n):
    c = 0
    for i in range(n):
        if i == 106 or i == 107 or i == 112: continue
        c = (c // 2 + c % 2 * 0x80000000 + b[i]) % 0x100000000
    return c
def check_boot(b):
    """The sector size of a valid boot region."""
    if len(b) < 12 * 512 or len(b) % 512 != 0: raise BE('size')
    if b[3:11] != b'EXFAT   ' or b[510:512] != b'\x55\xaa' or b[11:64] != b'\x00' * 53: raise BE('signatures')
    if b[108] < 9 or b[108] > 12: raise BE('sector size')
    ss = 1 << b[108]
    if len(b) < 12 * ss: raise BE('truncated')
    at = 11 * ss
    if b[at:at + 4] != b[at + 4:at + 8] or b[at:at + 4] != b[at + 8:at + 12]: raise BE('checksum')
    if le(b, at, 4) != boot_sum(b, 11 * ss): raise X.BootRegionChecksumException('checksum')
    length = le(b, 72, 8)
    fat = le(b, 80, 4)
    size = le(b, 84, 4)
    heap = le(b, 88, 4)
    count = le(b, 92, 4)
    root = le(b, 96, 4)
    fats = b[110]
    if length * ss < 1048576 or fat < 24 or fat + size * fats > heap: raise BE('areas')
    if b[108] + b[109] > 25: raise BE('cluster size')
    spc = 1 << b[109]
    if size * ss < (count + 2) * 4 or heap > count * spc or count > 0xFFFFFFF5 or heap + count * spc > length: raise BE('clusters')
    if root < 2 or root > count + 1: raise BE('root')
    if b[105] == 0 or b[105] > 99 or b[104] > 99: raise BE('version')
    if b[105] > 1: raise NotImplementedError('version')
    if fats != 1 and fats != 2: raise BE('number of FATs')
    if b[106] & 1 == 1 and fats != 2: raise BE('active FAT')
    return ss
def real_boot(buf):
    x = X.BR(buf)
    return (x.get_bytespersector(), x.get_sectorspercluster(), x.get_partitionoffset(), x.get_volumelength(), x.get_fatoffset(), x.get_fatlength(), x.get_clusterheapoffset(), x.get_clustercount(),
            x.get_firstclusterofrootdirectory(), x.get_volumeserialnumber(), x.get_filesystemrevision(), x.get_volumeflags(), x.get_numberoffats(), x.get_driveselect(), x.get_percentinuse(),
            x.get_bs_jmpboot(), x.get_reserved(), x.get_bs_bootcode(), x.get_checksum())
def spec_boot(buf):
    ss = check_boot(buf)
    f = buf[106]
    return (ss, 1 << buf[109], le(buf, 64, 8), le(buf, 72, 8), le(buf, 80, 4), le(buf, 84, 4), le(buf, 88, 4), le(buf, 92, 4), le(buf, 96, 4), le(buf, 100, 4), (buf[105], buf[104]),
            (f & 1 == 1, f & 2 == 2, f & 4 == 4, f & 8 == 8), buf[110], buf[111], buf[112] if buf[112] <= 100 else None, buf[0:3], buf[113:120], buf[120:510], le(buf, 11 * ss, 4))
def real_boot_more(buf, n):
    x = X.BR(buf)
    return (x.get_ebs_signature(n), x.get_oem_guid(), x.get_oem_flash_parameters())
def spec_boot_more(buf, n):
    ss = check_boot(buf)
    if n < 1 or n > 8: raise ValueError('sector')
    at = 10 * ss
    g = buf[at:at + 16]
    if uuid.UUID(bytes_le=g) == X.OEM_FLASH_PARAMETERS_GUID: p = (le(buf, at + 16, 4), le(buf, at + 20, 4), le(buf, at + 24, 4), le(buf, at + 28, 4), le(buf, at + 32, 4), le(buf, at + 36, 4), le(buf, at + 40, 4))
    else: p = (None, None, None, None, None, None, None)
    return (buf[n * ss + 508:n * ss + 512], uuid.UUID(bytes_le=g), p)
# ---- the allocation table
def check_table(off, size):
    if off % 512 != 0 or size < 512 or size % 512 != 0: raise E('geometry')
def element(vol, off, size, last, n):
    if n * 4 + 4 > size or n > last: raise E('bounds')
    vol.seek(off + n * 4)
    b = vol.read(4)
    if len(b) != 4: raise E('truncated')
    return le(b, 0, 4)
def real_element(vol, off, size, last, n):
    f = X.FAT(vol, off, size, last)
    return (f.get_element(n), f.get_media_type())
def spec_element(vol, off, size, last, n):
    check_table(off, size)
    return (element(vol, off, size, last, n), element(vol, off, size, last, 0) % 256)
def real_chain(vol, off, size, last, first):
    return X.FAT(vol, off, size, last).chain(first)
def chain(vol, off, size, last, first):
    if first < 2: return []
    if first == 0xFFFFFFF7: raise E('bad first')
    cur = first
    out = [first]
    while True:
        nxt = element(vol, off, size, last, cur)
        if nxt in out or nxt < 2 or nxt == 0xFFFFFFFF: return out
        if nxt == 0xFFFFFFF7:
            out.append(None)
            return out
        out.append(nxt)
        cur = nxt
def spec_chain(vol, off, size, last, first):
    check_table(off, size)
    return chain(vol, off, size, last, first)
def spec_chain_seen(vol, off, size, last, first):
    check_table(off, size)
    if first < 2: return []
    if first == 0xFFFFFFF7: raise E('bad first')
    cur = first
    out = [first]
    seen = {first}
    while True:
        nxt = element(vol, off, size, last, cur)
        if nxt in seen or nxt < 2 or nxt == 0xFFFFFFFF: return out
        if nxt == 0xFFFFFFF7:
            out.append(None)
            return out
        out.append(nxt)
        seen.add(nxt)
        cur = nxt
def real_bitmap(buf, last, n): return X.Bitmap(buf, last).is_allocated(n)
def spec_bitmap(buf, last, n):
    if n < 2 or n > last or (n - 2) // 8 >= len(buf): return None
    return buf[(n - 2) // 8] >> ((n - 2) % 8) & 1 == 1

# ---- directory entry sets
def view(x):
    if type(x) is X.FileEntry: return ('file', (x.is_deleted, x.is_directory, x.name, x.atime, x.atz, x.mtime, x.mtz, x.ctime, x.ctz, x.size, x.valid_data_length, x.attributes, x.first_cluster, x.is_encrypted, x.no_fat_chain))
    if type(x) is X.OrphanEntry: return ('orphan', x.name_partial)
    if type(x) is X.VolumeLabelEntry: return ('label', x.volume_label)
    return ('bitmap', (x.bitmap_id, x.first_cluster, x.size))
def real_entries(buf, root):
    for x in X.DirectoryEntries(buf, root).entries():
        yield view(x)
def file_set(buf, pos, used):
    """The file described by the entry set at pos, or None when the set is not valid."""
    n = buf[pos + 1]
    if n < 2 or n > 64 or pos + 32 + n * 32 > len(buf): return None
    if used and le(buf, pos + 2, 2) != set_sum(buf[pos:pos + 32 + n * 32]): return None
    s = pos + 32
    length = buf[s + 3]
    limit = (length + 14) // 15
    i = 0
    count = 0
    parts = []
    vendor = False
    while i < n * 32:
        t = buf[s + i]
        k = t & 127
        if k < 64 or (used and t < 128): return None
        if i == 0:
            if k != 0x40 or buf[s + 1] & 1 == 0 or length == 0: return None
        elif k == 0x40 or (i == 32 and k != 0x41): return None
        if k == 0x41:
            count = count + 1
            if count > limit: return None
            parts.append(buf[s + i + 2:s + i + 32])
        if k == 0x60 or k == 0x61: vendor = True
        elif vendor: return None
        i = i + 32
    name = name_text(parts, length)
    if name is None: return None
    a = le(buf, pos + 4, 2)
    return (not used, a & 16 != 0, name, stamp(le(buf, pos + 16, 4), 0), zone(buf[pos + 24]), stamp(le(buf, pos + 12, 4), buf[pos + 21]), zone(buf[pos + 23]), stamp(le(buf, pos + 8, 4), buf[pos + 20]), zone(buf[pos + 22]),
            le(buf, s + 24, 8), le(buf, s + 8, 8), a, le(buf, s + 20, 4), buf[pos + 7] >= 128, buf[s + 1] & 2 == 2)
def lost_name(buf, pos):
    """(number of entries, name) of the file name entries at pos that belong to no set."""
    parts = []
    i = 0
    nxt = None
    while nxt is None or nxt == buf[pos]:
        if buf[pos + i * 32 + 1] != 0: break
        p = buf[pos + i * 32 + 2:pos + i * 32 + 32]
        parts.append(p)
        i = i + 1
        if i == 17 or p[28:30] == b'\x00\x00' or pos + i * 32 >= len(buf): break
        nxt = buf[pos + i * 32]
    return (i, name_text(parts, None))
def spec_entries(buf, root):
    if len(buf) < 512 or len(buf) % 512 != 0: raise DE('size')
    labels = 0
    bitmaps = 0
    pos = 0
    while pos < len(buf):
        t = buf[pos]
        k = t & 127
        used = t >= 128
        if t == 0: return
        if t == 128:
            if root: raise DE('invalid entry')
            return
        step = 32
        if not root and used and (k == 1 or k == 2 or k == 3): return
        if k == 5:
            f = file_set(buf, pos, used)
            if f is not None:
                yield ('file', f)
                step = 32 + buf[pos + 1] * 32
        elif k == 0x41:
            m, name = lost_name(buf, pos)
            if m > 0 and name is not None:
                yield ('orphan', name)
                step = m * 32
        elif root and used and k == 3:
            labels = labels + 1
            c = buf[pos + 1]
            if labels > 1 or c > 15: raise DE('label')
            if c > 0:
                s = label_text(buf[pos + 2:pos + 2 + c * 2], c)
                if s is None: raise DE('label')
                yield ('label', s)
        elif root and used and k == 1:
            bitmaps = bitmaps + 1
            if bitmaps > 2: raise DE('bitmaps')
            yield ('bitmap', (buf[pos + 1] & 1, le(buf, pos + 20, 4), le(buf, pos + 24, 8)))
        pos = pos + step

# ---- volumes
def put(b, at, n, v): b[at:at + n] = v.to_bytes(n, 'little')
def py_sum(b, skip, bits):
    c = 0
    for i, x in enumerate(b):
        if i not in skip: c = ((c >> 1 | (c & 1) << bits - 1) + x) & (1 << bits) - 1
    return c
def seal(b, ss):
    put(b, 11 * ss, 4, py_sum(b[:11 * ss], (106, 107, 112), 32))
    b[11 * ss:12 * ss] = bytes(b[11 * ss:11 * ss + 4]) * (ss // 4)
    return b
def make_boot(shift, cshift, fat, fatlen, heap, count, root, length, fats=1, flags=0):
    ss = 1 << shift
    b = bytearray(12 * ss)
    b[0:11] = b'\xeb\x76\x90EXFAT   '
    put(b, 72, 8, length); put(b, 80, 4, fat); put(b, 84, 4, fatlen); put(b, 88, 4, heap); put(b, 92, 4, count); put(b, 96, 4, root)
    b[104:106] = b'\x00\x01'; put(b, 106, 2, flags); b[108] = shift; b[109] = cshift; b[110] = fats; b[111] = 0x80; b[112] = 255
    b[510:512] = b'\x55\xaa'
    return seal(b, ss)
def bitmap_entry(first, size, which=0):
    e = bytearray(32)
    e[0] = 0x81; e[1] = which; put(e, 20, 4, first); put(e, 24, 8, size)
    return bytes(e)
# (sector shift, cluster shift, FAT offset, FAT length, heap offset, clusters, sectors, FATs, flags); the bitmap is cluster 2, the root directory cluster 3
GEOM = [(9, 1, 24, 16, 56, 1900, 4000, 1, 0), (12, 0, 24, 2, 28, 800, 900, 2, 1), (9, 0, 24, 17, 41, 2100, 2200, 1, 0)]
def head(kind):
    """Everything up to the end of the root directory."""
    sh, csh, fat, fl, heap, count, length, fats, flags = GEOM[kind]
    ss = 1 << sh
    b = bytearray((heap + (2 << csh)) * ss)
    br = make_boot(sh, csh, fat, fl, heap, count, 3, length, fats, flags)
    b[:len(br)] = br
    b[len(br):2 * len(br)] = br
    act = fat * ss + (fl * ss if flags & 1 else 0)
    put(b, act, 4, 0xFFFFFFF8); put(b, act + 4, 4, 0xFFFFFFFF); put(b, act + 8, 4, 0xFFFFFFFF); put(b, act + 12, 4, 0xFFFFFFFF)
    root = (heap + (1 << csh)) * ss
    b[root:root + 32] = bitmap_entry(2, (count + 7) // 8, flags & 1)
    return bytes(b)
HEADS = [head(k) for k in range(len(GEOM))]
def real_read(kind, before, rest, size, first, want, plain):
    vol = io.BytesIO(b'\x00' * before + HEADS[kind] + rest)
    return X.FileSystemParser(vol, before, size).read_chain(first, want, plain)
def table_chain(vol, off, size, last, first): return chain(vol, off, size, last, first)
def spec_read(kind, before, rest, size, first, want, plain):
    if size is not None and size < 1048576: raise ValueError('small')
    sh, csh, fat, fl, heap, count, length, fats, flags = GEOM[kind]
    ss = 1 << sh
    cs = ss << csh
    data = heap * ss
    vol = io.BytesIO(b'\x00' * before + HEADS[kind] + rest)
    if plain:
        if want is None: raise ValueError('size')
        clusters = []
        if first >= 2:
            c = first
            left = want
            while left > 0:
                if c > count + 1: break
                clusters.append(c)
                c = c + 1
                left = left - cs
    else: clusters = table_chain(vol, before + fat * ss + (fl * ss if flags & 1 == 1 else 0), fl * ss, count + 1, first)
    parts = []
    done = 0
    for c in clusters:
        if want is not None and done >= want: break
        if c is None: parts.append(b'\x00' * cs)
        else:
            at = data + (c - 2) * cs
            if size is not None and at + cs > size: raise ValueError('beyond')
            vol.seek(before + at)
            d = vol.read(cs)
            if len(d) != cs: raise ValueError('truncated')
            parts.append(d)
        done = done + cs
    whole = b''.join(parts)
    if want is None: return whole
    return whole[:want]

# ---- opening and the walk (bounded): an oracle over the bytes of the image
def open_image(img, before, size):
    if size is not None and size < 1048576: raise ValueError('small')
    best = None
    for at, want in ((0, None), (12 * 512, 512), (12 * 4096, 4096)):
        b = img[before + at:before + at + 12 * 4096]
        try: ss = check_boot(b)
        except (BE, NotImplementedError): continue
        if want is not None and ss != want: raise BE('backup')
        best = (b, ss, at != 0)
        break
    if best is None: raise BE('none')
    b, ss, backup = best
    cs = ss << b[109]
    data = le(b, 88, 4) * ss
    act = b[106] & 1
    fatlen = le(b, 84, 4) * ss
    last = le(b, 92, 4) + 1
    tab = (io.BytesIO(img), before + le(b, 80, 4) * ss + act * fatlen, fatlen, last)
    def read(first, want=None, plain=False):
        if plain:
            if want is None: raise ValueError('size')
            cl = [c for c in range(first, min(last, first + (want + cs - 1) // cs - 1) + 1)] if first >= 2 else []
        else: cl = chain(*tab, first)
        if want is not None: cl = cl[:(want + cs - 1) // cs]
        out = []
        for c in cl:
            if c is None: out.append(bytes(cs)); continue
            at = data + (c - 2) * cs
            if size is not None and at + cs > size: raise ValueError('beyond')
            d = img[before + at:before + at + cs]
            if len(d) != cs: raise ValueError('truncated')
            out.append(d)
        return b''.join(out)[:want]
    root = le(b, 96, 4)
    check_table(tab[1], tab[2])
    bm = None
    for k, x in spec_entries(read(root), True):
        if k == 'bitmap' and x[0] == act:
            bm = read(x[1])
            break
    if bm is None: raise X.FileSystemException('no bitmap')
    return (ss, cs, data, last, backup, root, bm, read)
def real_open(vol, before, size):
    fs = X.FileSystemParser(vol, before, size)
    return (fs.br.get_bytespersector(), fs.cluster_size, fs.data_area_offset, fs.last_valid_cluster, fs.backup_used, [fs.bm.is_allocated(c) for c in range(60)])
def spec_open(vol, before, size):
    ss, cs, data, last, backup, root, bm, read = open_image(vol.getvalue(), before, size)
    return (ss, cs, data, last, backup, [spec_bitmap(bm, last, c) for c in range(60)])
def lost(x): return x[0] != 'label' and (x[1] if x[0] == 'orphan' else x[1][2]).startswith('<Orphan directory ')
def settle(out):
    h = [x for x in out if not lost(x)]
    t = sorted((x for x in out if lost(x)), key=repr)
    return h + t if all(lost(x) for x in out[len(h):]) else out
def real_walk(vol, before, size, every):
    return settle([view(x) for x in X.FileSystemParser(vol, before, size).walk(every)])
def spec_walk(vol, before, size, every): return walk(vol, before, size, every)[0]
def order_free(vol, before, size, every):
    try: return not walk(vol, before, size, every)[1]
    except Exception: return True
def walk(vol, before, size, every):
    """The items, and whether they depend on the order in which the lost directories are taken (which is not specified)."""
    ss, cs, data, last, backup, root, bm, read = open_image(vol.getvalue(), before, size)
    shelved = {}
    seen = set()
    def down(d, path, above):
        out = []
        base = path if path.endswith('/') else path + '/'
        for k, x in spec_entries(d, path == ''):
            if k == 'label': out.append((k, x))
            elif k == 'orphan': out.append((k, base + x))
            elif k == 'file':
                gone, isdir, name, first = x[0], x[1], x[2], x[12]
                if isdir and first != 0 and first in above: continue
                out.append((k, x[:2] + (base + name,) + x[3:]))
                used = spec_bitmap(bm, last, first)
                if not isdir or used is None: continue
                if gone and used and not every:
                    m = (x[5], x[9], x[14])
                    if first not in shelved or (m[0] is not None and (shelved[first][0] is None or m[0] > shelved[first][0])): shelved[first] = m
                    continue
                seen.add(first)
                try: e = read(first, x[9], x[14])
                except (E, ValueError): continue
                if len(e) < 512 or len(e) % 512 != 0: continue
                out += down(e, path + '/' + name, above | {first})
        return out
    out = down(read(root), '', {root})
    then = dict(shelved)
    for c in [c for c in shelved if c not in seen]:
        try: d = read(c, shelved[c][1], shelved[c][2])
        except (E, ValueError): continue
        if len(d) >= 512 and len(d) % 512 == 0 and (d[0], d[32], d[64]) == (5, 0x40, 0x41): out += down(d, '<Orphan directory %d>' % c, set())
    return settle(out), any(shelved[c] != then[c] for c in then)

# ---- generators
def gen_v8(r): return {'v': r.randrange(256)}
def gen_stamp(r): return {'v': r.choice([r.randrange(1 << 32), ((r.randrange(128) << 9) | (r.choice([2, r.randrange(16)]) << 5) | r.choice([28, 29, 30, 31, 0, 1])) << 16 | r.randrange(24) << 11 | r.randrange(64) << 5 | r.randrange(32)]), 't': r.choice([0, 199, 200, 255, r.randrange(256)])}
def rtext(r, n=None):
    s = ''.join(r.choice('abc XYZ.1\u00e9\u4e2d') for _ in range(r.choice([1, 3, 5, 14, 15, 16, 30]) if n is None else n))
    if r.random() < 0.1: s = r.choice(['.', '..', 'a/b', 'x\x07y', 'a:b', 'q?', '\x1f'])
    return s
def gen_label(r): return {'buf': rtext(r).encode('utf-16le') + r.choice([b'', b'\x00\x00', b'\x00\x00ab', b'\x00\xd8', b'a', b'\x00']), 'n': r.choice([0, 1, 3, 5, 15, 255])}
def gen_name(r): return {'a': gen_label(r)['buf'], 'n': r.choice([None, 0, 1, 2, 3, 5, 15, 255])}
def gen_order(r): return {'a': rtext(r).encode('utf-16le'), 'b': gen_label(r)['buf'], 'c': gen_label(r)['buf'], 'k': r.randrange(4), 'n': r.choice([None, 3, 15, 255])}
def gen_sum(r): return {'buf': gens.rb(r, r.choice([32, 32, 64, 96, 0, 31, 33, 608]))}
def gen_boot(r):
    g = r.choice(GEOM + GEOM + [GEOM[0]] * 3 + [GEOM[2]] * 3)
    sh, csh, fat, fl, heap, count, length, fats, flags = g
    b = make_boot(sh, csh, fat, fl, heap, count, r.choice([3, 2, count + 1]), length, fats, flags)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        at, n = r.choice([(64, 8), (72, 8), (80, 4), (84, 4), (88, 4), (92, 4), (96, 4), (100, 4), (104, 1), (105, 1), (106, 1), (108, 1), (109, 1), (110, 1), (111, 1), (112, 1), (0, 3), (113, 7), (120, 20)])
        old = int.from_bytes(b[at:at + n], 'little')
        v = r.choice([0, 1, 2, 3, 24, 23, old + 1, max(0, old - 1), old * 2, 0xFFFFFFF5, 0xFFFFFFF6, 2 ** 32 - 1, r.randrange(256 ** n), 99, 100, 101])
        put(b, at, n, v % 256 ** n)
    if r.random() < 0.8 and 9 <= b[108] <= 12 and len(b) >= 12 << b[108]: seal(b, 1 << b[108])
    if r.random() < 0.15: b[r.choice([3, 11, 63, 510, 11 << sh, (11 << sh) + 5, (11 << sh) + 9, (11 << sh) + 13, 200])] ^= r.choice([1, 255])
    if r.random() < 0.3:
        b[10 << sh:(10 << sh) + 16] = X.OEM_FLASH_PARAMETERS_GUID.bytes_le if r.random() < 0.7 else gens.rb(r, 16)
        b[(10 << sh) + 16:(10 << sh) + 48] = gens.rb(r, 32)
        b[(r.randrange(1, 9) << sh) + 508] = 0x55
        seal(b, 1 << sh)
    b = bytes(b)
    if r.random() < 0.15: b = b[:r.choice([6144, 6143, 512, 0, 11 << sh, 24 * 512])]
    if r.random() < 0.2: b += bytes(r.choice([512, 1, 4096]))
    return {'buf': b}
def gen_boot_more(r): return dict(gen_boot(r), n=r.choice([0, 1, 5, 8, 9, r.randrange(10)]))
def table(r, n): return b''.join(r.choice([i + 1, i + 1, i + 1, r.randrange(n + 3), 0, 1, 0xFFFFFFF7, 0xFFFFFFFF, 0xFFFFFFF8, i, 0x0FFFFFFF]).to_bytes(4, 'little') for i in range(n))
def gen_table(r):
    n = r.randrange(1, 60)
    off = r.choice([0, 512, 512, 1024, 100])
    b = bytes(off) + table(r, n)
    if r.random() < 0.6: b += bytes(1024)
    if r.random() < 0.1: b = b[:r.randrange(len(b) + 1)]
    return {'vol': b, 'off': off, 'size': r.choice([512, 512, 1024, 0, 511]), 'last': r.choice([n, n - 1, n // 2, 1000])}
def gen_el(r): return dict(gen_table(r), n=r.choice([0, 1, 2, r.randrange(70), r.randrange(200), 127, 128]))
def gen_chain(r): return dict(gen_table(r), first=r.choice([0, 1, 2, 3, r.randrange(60), r.randrange(60), 0xFFFFFFF7]))
def gen_bitmap(r): return {'buf': gens.rb(r, r.randrange(6)), 'last': r.randrange(50), 'n': r.randrange(50)}
def file_entries(r, name=None, first=None, size=None, isdir=None, gone=None, plain=None):
    gone = r.random() < 0.3 if gone is None else gone
    name = rtext(r) if name is None else name
    raw = name.encode('utf-16le')
    k = max(1, (len(raw) + 29) // 30)
    m = bytearray(gens.rb(r, 32))
    m[0] = 5; m[4:6] = (0x10 if (r.random() < 0.5 if isdir is None else isdir) else 0x20).to_bytes(2, 'little')
    for at in (8, 12, 16):
        if r.random() < 0.85: put(m, at, 4, (r.randrange(128) << 25) | (r.randrange(1, 13) << 21) | r.randrange(1, 29) << 16 | r.randrange(24) << 11 | r.randrange(60) << 5 | r.randrange(30))
    s = bytearray(gens.rb(r, 32))
    s[0] = 0x40; s[1] = 1 | (2 if (r.random() < 0.5 if plain is None else plain) else 0); s[3] = len(raw) // 2 & 255
    if first is not None: put(s, 20, 4, first)
    if size is not None: put(s, 24, 8, size)
    es = [m, s]
    raw = raw.ljust(k * 30, b'\x00')
    for i in range(k): es.append(bytearray(b'\x41\x00' + raw[30 * i:30 * i + 30]))
    if r.random() < 0.1: es.append(bytearray(bytes([r.choice([0x60, 0x61, 0x62, 0x42])]) + gens.rb(r, 31)))
    m[1] = len(es) - 1
    return m, es, gone
def close(r, m, es, gone):
    for e in es:
        if not gone: e[0] |= 0x80
    x = r.random()
    if x < 0.05: es.pop(r.randrange(len(es)))
    elif x < 0.1: es[r.randrange(len(es))][r.choice([0, 1, 3])] = r.randrange(256)
    if m in es and r.random() < 0.95: put(m, 2, 2, py_sum(b''.join(bytes(e) for e in es), (2, 3), 16))
    if gone and r.random() < 0.3: es = es[r.randrange(len(es)):]
    return [bytes(e) for e in es]
def other_entry(r, root):
    x = r.random()
    if x < 0.2 and root: return b'\x83' + bytes([r.choice([5, 5, 11, 15, 0, 16])]) + rtext(r, r.choice([5, 11, 15])).encode('utf-16le')[:22].ljust(30, b'\x00')
    if x < 0.5 and root: return bitmap_entry(r.choice([2, 2, 9]), 100, r.choice([0, 0, 1, 2]))
    return bytes([r.choice([0x82, 0x82, 0x81 if root else 0xA0, 0xA0, 0xA1, 0xA2, 0x21, 0x03, 0x01, 0x7F, 0xC0, 0x45])]) + gens.rb(r, 31)
def dir_bytes(r, n, root, mk, p_other=0.15, fill=0.9):
    out = []
    while len(out) * 32 < n:
        if r.random() > fill: break
        if r.random() < p_other: out.append(other_entry(r, root))
        else: out += close(r, *mk(r))
    return b''.join(out)[:n].ljust(n, b'\x00')
def gen_entries(r):
    root = r.random() < 0.5
    b = dir_bytes(r, r.choice([512, 512, 1024]), root, file_entries)
    if r.random() < 0.05: b = r.choice([b'', b[:-1], b + b[:32], b[:480]])
    if r.random() < 0.05 and len(b) >= 512: b = b[:32 * 3] + b'\x80' + b[97:]
    return {'buf': b, 'root': root}
def gen_image(r):
    kind = r.choice([0, 0, 0, 0, 2, 2, 2, 2, 1])
    sh, csh, fat, fl, heap, count, length, fats, flags = GEOM[kind]
    ss = 1 << sh
    cs = ss << csh
    n = r.randrange(5, 12)
    b = bytearray(HEADS[kind]) + bytearray((n - 4 + r.choice([0, 1, 1, 2])) * cs)
    act = fat * ss + (fl * ss if flags & 1 else 0)
    for i in range(4, n): put(b, act + 4 * i, 4, r.choice([0xFFFFFFFF] * 3 + [0, i + 1, r.randrange(n + 2), 0xFFFFFFF7]))
    bm = heap * ss
    for i in range(bm, bm + 2): b[i] = r.choice([255, 0, r.randrange(256)])
    cl = list(range(3, n + 1))
    def mk(r, own=None):
        isdir = left[0] > 0 and r.random() < 0.5
        if isdir: left[0] -= 1
        return file_entries(r, rtext(r, r.randrange(1, 20)), r.choice(cl + cl + [0, 1, count + 5]), r.choice([cs, cs, cs, 2 * cs, 512, 100, 0, 1 << 40]), isdir, plain=r.random() < 0.5)
    for c in range(3, n):
        if c > 3 and r.random() < 0.15: continue
        left = [2]
        at = heap * ss + (c - 2) * cs
        d = dir_bytes(r, cs, c == 3, mk, 0.06, 0.93 if c > 3 else 0.97)
        if c == 3: d = (bitmap_entry(2, (count + 7) // 8, flags & 1) + d)[:cs]
        b[at:at + cs] = d
    return kind, bytes(b)
def gen_walk(r):
    kind, b = gen_image(r)
    if r.random() < 0.1: b = b[:r.randrange(len(b) - 5000, len(b))]
    before = r.choice([0, 512])
    return {'vol': bytes(before) + b, 'before': before, 'size': r.choice([None, None, None, 1 << 20, 1 << 22, 1000]), 'every': r.random() < 0.4}
def gen_open(r):
    kind, b = gen_image(r)
    ss = 1 << GEOM[kind][0]
    b = bytearray(b)
    x = r.random()
    if x < 0.4: b[r.choice([3, 11, 510, 200, 11 * ss])] ^= 1
    elif x < 0.55: b[r.choice([3, 108])] = r.choice([0, 9, 10, 12])
    elif x < 0.7:
        q = gen_boot(r)['buf']
        b[:len(q)] = q
    if r.random() < 0.2: b[12 * ss + r.choice([3, 510, 105])] ^= 1
    if r.random() < 0.15: b = b[:r.choice([6144, 12288, 12 * ss, 24 * ss, len(b) - 512, 7000])]
    before = r.choice([0, 512])
    return {'vol': bytes(before) + bytes(b), 'before': before, 'size': r.choice([None, None, None, 1 << 22, 1000])}
def gen_read(r):
    kind, b = gen_image(r)
    cs = (1 << GEOM[kind][0]) << GEOM[kind][1]
    sh, csh, fat, fl, heap, count, length, fats, flags = GEOM[kind]
    b = HEADS[kind] + b''.join(bytes([i + 1]) * cs for i in range(r.choice([100, 100, 110])))
    if r.random() < 0.1: b = b[:-7]
    return {'kind': kind, 'before': r.choice([0, 512]), 'rest': b[len(HEADS[kind]):], 'size': r.choice([None, None, 1 << 21, 1 << 20, 1000]), 'first': r.choice([0, 1, 2, 3, 4, 5, r.randrange(25), count + 1, count + 2]), 'want': r.choice([None, 0, 1, cs - 1, cs, cs + 1, 5 * cs - 3]), 'plain': r.random() < 0.7}

# ---- abstractions
def name_call(it, args, kw):
    l = args[0]
    if it.ctx.decide(it.ctx._eq(it.slen(l), 0)): return None
    return NAME(it, [SList(l.items, l.prefix), args[1]], {})
NAME = func_of('exfat_name', nullable=True)
def sum_value(ctx, name, args):
    v = ctx.fresh_int(name); ctx.assume(z3.And(v >= 0, v <= 65535)); return v
SUM = func_of('exfat_sum', build=sum_value)
def with_zero(a): return list(a) + [0] * (2 - len(a))
STAMP = func_of('exfat_stamp', argmap=with_zero)      # an opaque value (None included): entries only pass it on
ZONE = func_of('exfat_zone')
LABEL = func_of('exfat_label', nullable=True)
M = 'dfir_ntfs.addons.exFAT.'
C = 'contracts.p23.'
ABS = {M + 'BuildName': name_call, C + 'name_text': name_call, M + 'EntrySetChecksum': SUM, C + 'set_sum': SUM, M + 'BuildLabel': LABEL, C + 'label_text': LABEL,
       M + 'DecodeFATTimestamp': STAMP, C + 'stamp': STAMP, M + 'DecodeFATTimezone': ZONE, C + 'zone': ZONE}

def boot_sum_call(it, args, kw):
    """The checksum of a known boot region (its own contract: exfat_boot_*)."""
    ctx = it.ctx
    ro = ctx.rope(args[0].attrs['br_buf'])
    b = ctx.concrete_bytes(ctx.rslice(ro, 0, 512))
    b = ctx.concrete_bytes(ctx.rslice(ro, 0, 11 << b[108]))
    it.trusted.add('call abstracted by its own contract: boot region checksum')
    return py_sum(b, (106, 107, 112), 32)
def elem(ctx, name, i):
    if ctx.decide(z3.Function(name + '_bad', z3.IntSort(), z3.BoolSort())(i if not isinstance(i, int) else z3.IntVal(i))): return None
    v = int_fn(name, i)
    ctx.assume(v >= 2)
    return v
def chain_value(ctx, name, args):
    n = ctx.fresh_int(name + '_n'); ctx.assume(n >= 0)
    return ctx.born(SList((), OpaqueSeq(name, n, lambda it, i: elem(it.ctx, name, i))))
CHAIN = func_of('exfat_chain', E, chain_value)
def chain_call(it, args, kw):
    f = args[0].attrs
    if isinstance(args[1], int): return it.ctx.born(SList([args[1]]))      # while opening: the bitmap and the root directory of HEADS
    return CHAIN(it, [f['fat_offset'], f['fat_size'], f['last_valid_cluster'], args[1]], {})
ABS_READ = {M + 'BR.calculate_checksum': boot_sum_call, M + 'FAT.chain': chain_call, C + 'table_chain': lambda it, args, kw: CHAIN(it, args[1:], {})}
def shifted(k):
    def pre(buf): return len(buf) > 108 and buf[108] == k
    return pre
def pre_unshifted(buf): return len(buf) <= 108 or buf[108] < 9 or buf[108] > 12
def pre_more(buf, n): return len(buf) > 109 and buf[108] >= 9 and buf[108] <= 12 and buf[109] == 1
BOOT_SUM = [Loop({'c': 'checksum', '@iter': '@iter'}, func='boot_sum', inv=lambda c: c >= 0 and c <= 0xFFFFFFFF)]
T = {'vol': File(), 'off': Int(0), 'size': Int(), 'last': Int()}
B = {'buf': Bytes()}
NUL = Loop({'i': 'i', 'buf': 'buf'}, func='upto_nul', inv=lambda i: i >= 0 and i % 2 == 0, variant=lambda i, buf: len(buf) - i)
CONTRACTS = [
    Contract('exfat_attributes', ['exFAT.ResolveFileAttributes'], {'v': Int(0, 65535)}, real_attrs, spec_attrs, gen=gen_v8),
    Contract('exfat_bits', ['exFAT.EntryTypeWithoutInUseBit', 'exFAT.DecodeEntryType', 'exFAT.DecodeFlags', 'exFAT.DecodeFATTimezone'], {'v': Int(0, 255)}, real_bits, spec_bits, gen=gen_v8),
    Contract('exfat_timestamp', ['exFAT.DecodeFATTimestamp'], {'v': Int(0, (1 << 32) - 1), 't': Int(0, 255)}, real_stamp, stamp, gen=gen_stamp),
    Contract('exfat_label', ['exFAT.BuildLabel'], {'buf': Bytes(), 'n': Int(0)}, real_label, label_text, gen=gen_label, loops=[NUL]),
    Contract('exfat_name', ['exFAT.BuildName'], {'a': Bytes(), 'n': Opt(Int(0))}, real_name, spec_name, gen=gen_name, loops=[NUL]),
    Contract('exfat_name_order', ['exFAT.BuildName'], {'a': Bytes(), 'b': Bytes(), 'c': Bytes(), 'k': Enum(0, 1, 2, 3), 'n': Opt(Int(0))}, real_name_order, spec_name_order, gen=gen_order, loops=[NUL]),
    Contract('exfat_set_sum', ['exFAT.EntrySetChecksum'], B, real_sum, set_sum, gen=gen_sum, loops=[Loop({'c': 'checksum', '@iter': '@iter'}, inv=lambda c: c >= 0 and c <= 65535)]),
    *[Contract('exfat_boot_%d' % k, ['exFAT.BR'], B, real_boot, spec_boot, pre=shifted(k), gen=gen_boot, loops=BOOT_SUM, cut_fixed=True, note='sectors of %d bytes' % (1 << k)) for k in (9, 10, 11, 12)],
    Contract('exfat_boot_none', ['exFAT.BR'], B, real_boot, spec_boot, pre=pre_unshifted, gen=gen_boot, note='impossible sector sizes'),
    Contract('exfat_boot_more', ['exFAT.BR.get_ebs_signature', 'exFAT.BR.get_oem_guid', 'exFAT.BR.get_oem_flash_parameters'], dict(B, n=Int()), real_boot_more, spec_boot_more, pre=pre_more, gen=gen_boot_more, loops=BOOT_SUM, cut_fixed=True, note='clusters of two sectors (the fields do not depend on the cluster size)'),
    Contract('exfat_element', ['exFAT.FAT.__init__', 'exFAT.FAT.get_element', 'exFAT.FAT.get_media_type'], dict(T, n=Int(0)), real_element, spec_element, gen=gen_el),
    Contract('exfat_chain', ['exFAT.FAT.chain'], dict(T, first=Int(0)), real_chain, spec_chain, gen=gen_chain,
             loops=[Loop({'out': 'chain', 'cur': 'curr_cluster'}, func='chain', inv=lambda out, cur: cur >= 2 and not 0xFFFFFFF7 in out)],
             alts=[(spec_chain_seen, [Loop({'out': 'chain', 'cur': 'curr_cluster', 'seen': 'seen'}, inv=lambda seen, cur: cur >= 2 and not 0xFFFFFFF7 in seen)])]),
    Contract('exfat_bitmap', ['exFAT.Bitmap'], {'buf': Bytes(), 'last': Int(), 'n': Int()}, real_bitmap, spec_bitmap, gen=gen_bitmap),
    Contract('exfat_read_chain', ['exFAT.FileSystemParser.read_chain', 'exFAT.FileSystemParser.__init__'], {'kind': Enum(*range(len(GEOM))), 'before': Enum(0, 512), 'rest': Bytes(lo=49152), 'size': Opt(Int(0)), 'first': Int(0), 'want': Opt(Int(0)), 'plain': Bool()}, real_read, spec_read, gen=gen_read, abstracts=ABS_READ,
             unroll=('entries', '__init__'),
             loops=[Loop({'clusters': 'clusters', 'c': 'curr_cluster', 'left': 'remaining_size'}, inv=lambda c: c >= 2, variant=lambda left: left, elems={'clusters': lambda it, i: int_fn('cluster_no', i)}),
                    Loop({'parts': 'bufs', 'done': 'read_bytes', '@iter': '@iter'}, inv=lambda done: done >= 0)],
             note='three geometries (sectors of 512 and 4096 bytes, second FAT active); the chain is abstracted by its own contract exfat_chain'),
    Contract('exfat_entries', ['exFAT.DirectoryEntries'], {'buf': Bytes(), 'root': Bool()}, real_entries, spec_entries, gen=gen_entries, abstracts=ABS, weight=3, budget=600,
             loops=[Loop({'pos': 'pos', 'labels': 'label_count', 'bitmaps': 'bitmap_count'}, ordinal=0, inv=lambda pos, buf, labels, bitmaps: pos >= 0 and pos % 32 == 0 and labels >= 0 and bitmaps >= 0, variant=lambda pos, buf: len(buf) - pos),
                    Loop({'i': 'i', 'count': 'file_name_count', 'parts': 'file_name_entities', 'vendor': 'found_vendor_extension'}, func='file_set', peel=True, optional=('count',), inv=lambda i, n, count, parts: i >= 32 and i % 32 == 0 and i <= n * 32 and count == len(parts), variant=lambda i, n: n * 32 - i),
                    Loop({'i': 'i', 'parts': 'file_name_entities', 'nxt': 'next_entry_type'}, {'nxt': 'optint'}, func='lost_name', inv=lambda i, parts, pos, buf, nxt: i >= 0 and i < 17 and len(parts) == i and pos + i * 32 < len(buf) and (nxt is None) == (i == 0), variant=lambda i: 17 - i)],
             note='names, labels, checksums and timestamps are abstracted by their own contracts above'),
    Contract('exfat_entries_bounded', ['exFAT.DirectoryEntries.entries'], {'buf': Bytes(), 'root': Bool()}, real_entries, spec_entries, gen=gen_entries, bounded=True, weight=2, note='generated directories of 16 or 32 entries with complete, broken, deleted and orphaned sets'),
    Contract('exfat_open', ['exFAT.FileSystemParser.__init__'], {'vol': File(), 'before': Int(0, 512), 'size': Opt(Int(0))}, real_open, spec_open, gen=gen_open, bounded=True, note='generated volumes with 512- and 4096-byte sectors; damaged main and backup boot regions, second FAT active, missing and truncated bitmaps'),
    Contract('exfat_walk', ['exFAT.FileSystemParser.walk', 'exFAT.ExpandPath'], {'vol': File(), 'before': Int(0, 512), 'size': Opt(Int(0)), 'every': Bool()}, real_walk, spec_walk, pre=order_free, gen=gen_walk, bounded=True, weight=3,
             note='generated volumes of up to 12 used clusters: cyclic, shared, deleted, reallocated, truncated and orphaned directories, both values of scan_reallocated'),
]
