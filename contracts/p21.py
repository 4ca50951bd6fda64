"""P21: geometry of FAT12/16/32 volumes."""
import warnings
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from dfir_ntfs.addons import FAT
warnings.simplefilter('ignore')
E = FAT.BootSectorException

# ---- the format, field by field ([FATGEN 1.03])
def bps(b):
    n = le(b, 11, 2)
    if n != 512 and n != 1024 and n != 2048 and n != 4096: raise E('sector size')
    return n
def spc(b):
    n = b[13]
    if n == 0: return 256
    if n not in (1, 2, 4, 8, 16, 32, 64, 128): raise E('cluster size')
    return n
def rsvd(b):
    if le(b, 14, 2) == 0: raise E('reserved')
    return le(b, 14, 2)
def nfats(b):
    if b[16] == 0: raise E('fats')
    return b[16]
def media(b):
    if b[21] != 0xF0 and b[21] < 0xF8: raise E('media')
    return b[21]
def basic(b):
    if len(b) != 512: raise E('size')
    if b[510:512] != b'\x55\xaa' and b[0] != 0xE9 and b[0] != 0xEB: raise E('not a boot sector')
def total(b, is32):
    n = le(b, 19, 2)
    if n == 0: n = le(b, 32, 4)
    if n == 0:
        if not is32 or b[66] != 0x29: raise E('no total')
        n = le(b, 82, 8)
    return n
def fatsz(b, is32):
    n = le(b, 36, 4) if is32 else le(b, 22, 2)
    if n == 0: raise E('fat size')
    return n
def root_sectors(b, is32):
    return 0 if is32 else (le(b, 17, 2) * 32 + bps(b) - 1) // bps(b)
def clusters(b, is32):
    """Data clusters: the sectors left after the reserved area, the FATs and the fixed root directory, in whole clusters."""
    return (total(b, is32) - (rsvd(b) + nfats(b) * fatsz(b, is32) + root_sectors(b, is32))) // spc(b)
def is32(b):
    basic(b)
    return kind(b)
def kind(b):
    """The volume is FAT32 iff there is no 16-bit FAT size and the 32-bit geometry is possible."""
    if len(b) != 512: raise E('size')
    if le(b, 22, 2) == 0:
        try:
            clusters(b, True)
            ok = True
        except E:
            ok = False
        if ok:
            if le(b, 42, 2) != 0: raise NotImplementedError('version')
            return True
        raise E('no FAT size')
    n = clusters(b, False)
    if n <= 0 or n >= 65525: raise E('not FAT12/16')
    return False

def real_kind(b):
    s = FAT.BSBPB(b)
    return (s.is_fat32, FAT.GetCountOfClusters(s), FAT.IsFileSystem32(s), FAT.IsFileSystem16(s), FAT.IsFileSystem12(s))
def spec_kind(b):
    f = is32(b)
    n = clusters(b, f)
    return (f, n, f, 4085 <= n < 65525, 0 < n < 4085)
def real_fat_area(b): return FAT.BSBPB(b, True).fat_offset_and_size()
def spec_fat_area(b):
    f = kind(b)
    k = 0
    if f and b[40] & 0x80 != 0 and (b[40] & 0xF) < nfats(b): k = b[40] & 0xF
    return ((rsvd(b) + k * fatsz(b, f)) * bps(b), fatsz(b, f) * bps(b), clusters(b, f) + 1)

def attempt(f, x):
    try: return f(x)
    except E: return 'error'
def r_media(s): return s.get_bpb_media()
def r_rootent(s): return s.get_bpb_rootentcnt()
def r_rootclus(s): return s.get_bpb_rootclus()
def r_fsinfo(s): return s.get_bpb_fsinfo()
def r_backup(s): return s.get_bpb_bkbootsec()
def real_root(b):
    s = FAT.BSBPB(b, True)
    return (attempt(r_media, s), attempt(r_rootent, s), attempt(r_rootclus, s))
def spec_root(b):
    f = kind(b)
    n = le(b, 17, 2)
    c = le(b, 44, 4)
    return (attempt(media, b), 'error' if f and n != 0 else n, None if not f else 'error' if c < 2 else c)
def real_links(b):
    s = FAT.BSBPB(b, True)
    return (attempt(r_fsinfo, s), attempt(r_backup, s))
def spec_links(b):
    f = kind(b)
    i = le(b, 48, 2)
    k = le(b, 50, 2)
    return (None if not f else 'error' if i == 0 else i, None if not f else 'error' if k == 0 else k)
def real_all(b):
    s = FAT.BSBPB(b, True)
    return ((s.get_bs_jmpboot(), s.get_bs_oemname(), s.get_signature(), s.get_bpb_secpertrk(), s.get_bpb_numheads(), s.get_bpb_hiddsec(), s.get_bpb_totsec16(), s.get_bpb_totsec32(), s.get_bs_totsec64()),
            (s.get_bpb_bytspersec(), s.get_bpb_secperclus(), s.get_bpb_rsvdseccnt(), s.get_bpb_numfats(), s.get_bpb_fatsz16(), s.get_bpb_fatsz32()),
            (s.get_bpb_extflags(), s.get_bpb_fsver(), s.get_bpb_reserved(), s.get_bs_drvnum(), s.get_bs_dirty_flags(), s.is_volume_dirty(), s.get_bs_bootsig(), s.get_bs_extfields()))
def spec_all(b):
    f = kind(b)
    at = 64 if f else 36
    flags = b[at + 1]
    sig = b[at + 2]
    ext = (None, None, None)
    if sig == 0x29: ext = (le(b, at + 3, 4), b[at + 7:at + 18], b[at + 18:at + 26])
    if sig == 0x28: ext = (le(b, at + 3, 4), None, None)
    t = None
    if f and sig == 0x29 and le(b, 19, 2) == 0 and le(b, 32, 4) == 0: t = le(b, 82, 8)
    return ((b[0:3], b[3:11], b[510:512], le(b, 24, 2), le(b, 26, 2), le(b, 28, 4), le(b, 19, 2), le(b, 32, 4), t),
            (bps(b), spc(b), rsvd(b), nfats(b), le(b, 22, 2), le(b, 36, 4) if f else None),
            ((b[40] & 15, b[40] & 0x80 != 0) if f else (None, None), 0 if f else None, b[52:64] if f else None, b[at], flags, (flags % 2 == 1, flags // 2 % 2 == 1), sig, ext))
def real_relaxed(b):
    s = FAT.BSBPB(b, True)
    return (s.is_fat32, FAT.GetCountOfClusters(s))
def spec_relaxed(b):
    if len(b) != 512: raise E('size')
    f = kind(b)
    return (f, clusters(b, f))
def real_unusual(n, silent): return FAT.IsFileSystemUnusual12Or16(n, silent)
def spec_unusual(n, silent): return 4079 <= n <= 4086

def real_fsinfo(b):
    f = FAT.FSINFO(b)
    return (f.get_fsi_signatures(), f.get_fsi_reserved1(), f.get_fsi_free_count(), f.get_fsi_nxt_free(), f.get_fsi_reserved2())
def spec_fsinfo(b):
    if len(b) < 512 or le(b, 0, 4) != 0x41615252 or le(b, 484, 4) != 0x61417272 or le(b, 508, 4) != 0xAA550000: raise FAT.FileSystemInfoException('signature')
    return ((0x41615252, 0x61417272, 0xAA550000), b[4:484], le(b, 488, 4), le(b, 492, 4), b[496:508])

# ---- opening a volume
def real_open(vol, at, size):
    p = FAT.FileSystemParser(vol, at, size)
    return (p.fat_type, p.cluster_size, p.data_area_offset, p.fat.fat_type, p.fat.fat_offset, p.fat.fat_size, p.fat.last_valid_cluster)
def spec_open(vol, at, size):
    if size is not None and size < 4096: raise ValueError('small')
    vol.seek(at)
    b = vol.read(512)
    f = is32(b)
    n = clusters(b, f)
    k = 0
    if f and b[40] & 0x80 != 0 and (b[40] & 0xF) < nfats(b): k = b[40] & 0xF
    off = at + (rsvd(b) + k * fatsz(b, f)) * bps(b)
    if off % 512 != 0: raise FAT.FileAllocationTableException('misaligned')
    t = 32 if f else 16 if n >= 4085 else 12
    return (t, bps(b) * spc(b), (rsvd(b) + nfats(b) * fatsz(b, f) + root_sectors(b, f)) * bps(b), t, off, fatsz(b, f) * bps(b), n + 1)

# the cases of the opening: each of the four contracts covers one, together they cover every volume
def pre_32(vol, at, size):
    vol.seek(at + 22)
    return vol.read(2) == b'\x00\x00'
def pre_16(vol, at, size):
    vol.seek(at + 22)
    return vol.read(2) != b'\x00\x00'

def boot(r):
    b = bytearray(gens.rb(r, 512))
    def put(at, n, v): b[at:at + n] = v.to_bytes(n, 'little')
    put(11, 2, r.choice([512, 512, 512, 1024, 2048, 4096, 4096, 256, 0]))
    b[13] = r.choice([0, 1, 1, 2, 4, 8, 64, 128, 3, 255])
    put(14, 2, r.choice([1, 1, 2, 32, 65535, 0]))
    b[16] = r.choice([1, 2, 2, 2, 3, 255, 0])
    put(17, 2, r.choice([0, 0, 16, 512, 513, 65535]))
    put(19, 2, r.choice([0, 0, 0, 2880, 65535, r.randrange(65536)]))
    b[21] = r.choice([0xF0, 0xF8, 0xF9, 0xFF, 0xF1, 0xF7, 0])
    put(22, 2, r.choice([0, 0, 0, 9, 12, 200, 65535]))
    put(32, 4, r.choice([0, 0, 4085 + r.randrange(-3, 60), 65525 + r.randrange(-3, 300), 100000, 8000000, 0xFFFFFFFF]))
    put(36, 4, r.choice([0, 1, 500, 1000, 0xFFFFFFFF]))
    put(40, 2, r.choice([0, 0, 0x80, 0x81, 0x82, 0x8F, 0x01, r.randrange(65536)]))
    put(42, 2, r.choice([0, 0, 0, 0, 1, 256]))
    put(44, 4, r.choice([2, 2, 3, 1, 0, 0x10000001]))
    put(48, 2, r.choice([1, 1, 0, 6]))
    put(50, 2, r.choice([6, 6, 0]))
    for at in (38, 66): b[at] = r.choice([0x29, 0x29, 0x28, 0x00])
    if r.random() < 0.5: put(82, 8, r.choice([0, 1, 100000, 10 ** 9, 2 ** 64 - 1]))
    if r.random() < 0.5:
        # an exact number of clusters near a boundary
        f = le(b, 22, 2) == 0
        try: extra = rsvd(b) + nfats(b) * fatsz(b, f) + root_sectors(b, f); s = spc(b)
        except E: extra = 100; s = 1
        n = extra + s * r.choice([0, 1, 4078, 4079, 4084, 4085, 4086, 4087, 65524, 65525, 65526]) + r.randrange(0, s)
        if n < 2 ** 32: put(19, 2, 0); put(32, 4, n)
    b[510:512] = r.choice([b'\x55\xaa'] * 4 + [b'\x00\x00'])
    b[0] = r.choice([0xEB, 0xE9, 0xEB, 0])
    return bytes(b)
def gen_b(r):
    b = boot(r)
    return {'b': r.choice([b] * 12 + [b[:511], b + b'\x00', b''])}
def gen_fsi(r):
    b = bytearray(gens.rb(r, 512))
    b[0:4] = b'RRaA'; b[484:488] = b'rrAa'; b[508:512] = b'\x00\x00\x55\xaa'
    if r.random() < 0.4: b[r.choice([0, 3, 484, 487, 508, 511])] ^= 1
    return {'b': r.choice([bytes(b)] * 8 + [bytes(b[:511]), bytes(b[:100]), bytes(b) + b'x' * 3584, b''])}
def gen_open(r):
    at = r.choice([0, 0, 512, 1024, 100, 513])
    b = bytes(at) + boot(r)
    return {'vol': r.choice([b, b + b'x' * 600, b[:-1]]), 'at': at, 'size': r.choice([None, None, 4095, 4096, 10 ** 7])}
def gen_unusual(r): return {'n': r.choice([-1, 0, 4078, 4079, 4080, 4085, 4086, 4087, 65525]), 'silent': r.random() < 0.5}

G = ['FAT.BSBPB.__init__', 'FAT.GetCountOfClusters', 'FAT.IsFileSystem32', 'FAT.IsFileSystem16', 'FAT.IsFileSystem12']
def c(name, fs, real, spec): return Contract(name, G + fs, {'b': Bytes()}, real, spec, gen=gen_b)
CONTRACTS = [
    c('fat_kind', [], real_kind, spec_kind),
    c('fat_area', ['FAT.BSBPB.fat_offset_and_size', 'FAT.BSBPB.get_bpb_extflags'], real_fat_area, spec_fat_area),
    c('fat_fields', ['FAT.BSBPB.get_bs_jmpboot', 'FAT.BSBPB.get_bs_oemname', 'FAT.BSBPB.get_signature', 'FAT.BSBPB.get_bpb_secpertrk', 'FAT.BSBPB.get_bpb_numheads', 'FAT.BSBPB.get_bpb_hiddsec', 'FAT.BSBPB.get_bpb_totsec16', 'FAT.BSBPB.get_bpb_totsec32', 'FAT.BSBPB.get_bs_totsec64',
                     'FAT.BSBPB.get_bpb_bytspersec', 'FAT.BSBPB.get_bpb_secperclus', 'FAT.BSBPB.get_bpb_rsvdseccnt', 'FAT.BSBPB.get_bpb_numfats', 'FAT.BSBPB.get_bpb_fatsz16', 'FAT.BSBPB.get_bpb_fatsz32',
                     'FAT.BSBPB.get_bs_extfields', 'FAT.BSBPB.is_volume_dirty', 'FAT.BSBPB.get_bs_drvnum', 'FAT.BSBPB.get_bs_bootsig', 'FAT.BSBPB.get_bpb_reserved', 'FAT.BSBPB.get_bpb_fsver'], real_all, spec_all),
    c('fat_root', ['FAT.BSBPB.get_bpb_media', 'FAT.BSBPB.get_bpb_rootentcnt', 'FAT.BSBPB.get_bpb_rootclus'], real_root, spec_root),
    c('fat_links', ['FAT.BSBPB.get_bpb_fsinfo', 'FAT.BSBPB.get_bpb_bkbootsec'], real_links, spec_links),
    c('fat_relaxed', [], real_relaxed, spec_relaxed),
    Contract('fat_unusual', ['FAT.IsFileSystemUnusual12Or16'], {'n': Int(), 'silent': Bool()}, real_unusual, spec_unusual, gen=gen_unusual),
    Contract('fat_fsinfo', ['FAT.FSINFO'], {'b': Bytes()}, real_fsinfo, spec_fsinfo, gen=gen_fsi),
] + [
    Contract('fat_open_%s' % n, G + ['FAT.FileSystemParser.__init__', 'FAT.BSBPB.fat_offset_and_size', 'FAT.FAT.__init__'], {'vol': File(), 'at': Int(0), 'size': s}, real_open, spec_open, pre=p, gen=gen_open, budget=400, weight=2)
    for n, s, p in [('fat16', Const(None), pre_16), ('fat32', Const(None), pre_32), ('fat16_sized', Int(0), pre_16), ('fat32_sized', Int(0), pre_32)]]
