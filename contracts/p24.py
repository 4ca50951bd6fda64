"""P24: the move table (tracking.log) and the WSL metadata decode field by field."""
import struct, uuid
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import Attributes, MoveTable, WSL

ABS = {'dfir_ntfs.Attributes.DecodeFiletime': func_of('filetime'), 'dfir_ntfs.Attributes.DecodeGUIDTime': func_of('guidtime'), 'dfir_ntfs.MoveTable.DecodeString': func_of('decode_string')}
ABSW = {'dfir_ntfs.WSL.DecodeUnixtime': func_of('unixtime', exc=OverflowError)}
SIG = bytes.fromhex('eca74366feefd111b2ae00c04fb9386d')

def guid(b, at): return uuid.UUID(bytes_le=bytes(b[at:at + 16]))
def text(b, at):
    """A string of up to 16 bytes, up to the first NUL."""
    n = 0
    while n < 16:
        if b[at + n] == 0: break
        n = n + 1
    return b[at:at + n]

def real_header(b):
    h = MoveTable.Header(b)
    return (h.get_signature(), h.get_unknown_16(), h.get_flags(), h.is_log_flushed(), h.get_unknown_24(), tuple(h.get_expansion_data()), tuple(h.get_extended_header()))
def header(b):
    if (len(b) != 512 and len(b) != 4096) or b[0:16] != SIG: raise ValueError('header')
    ext = (MoveTable.DecodeString(text(b, 40)), guid(b, 56), le(b, 72, 8), le(b, 80, 8), le(b, 88, 8), le(b, 96, 4), le(b, 100, 4), le(b, 104, 4), le(b, 108, 4), le(b, 112, 4), le(b, 116, 4), le(b, 120, 4), le(b, 124, 4), le(b, 128, 4))
    return (SIG, le(b, 16, 4), le(b, 20, 4), b[20] % 2 == 1, le(b, 24, 4), (le(b, 28, 4), le(b, 32, 4), le(b, 36, 4)), ext)
def spec_header(b): return header(b)

def real_footer(b):
    f = MoveTable.LogSector(b).get_footer()
    return (f.get_lowest_log_entry_index_present(), f.get_next_log_entry_index(), f.get_unused())
def spec_footer(b):
    if len(b) != 512 and len(b) != 4096: raise ValueError('sector')
    n = len(b)
    return (le(b, n - 16, 4), le(b, n - 12, 4), b[n - 8:n])

def view(e):
    return (e.get_next_log_entry_index(), e.get_previous_log_entry_index(), e.get_log_entry_type(), e.get_log_entry_index(), e.get_unknown_16(), e.get_object_id(), e.get_droid(), e.get_birth_droid(), e.get_unknown_120())
def entry(b):
    if len(b) != 124: raise ValueError('size')
    t = le(b, 8, 4)
    if t != 1 and t != 2: raise NotImplementedError('type')
    return (le(b, 0, 4), le(b, 4, 4), t, le(b, 12, 4), le(b, 16, 4), guid(b, 20), (guid(b, 36), guid(b, 52)), (guid(b, 84), guid(b, 100)), le(b, 120, 4))
def real_entry(b): return view(MoveTable.LogEntry(b))
def spec_entry(b): return entry(b)
def real_entry_machine(b):
    e = MoveTable.LogEntry(b)
    return (e.get_machine_id_raw(), e.get_machine_id())
def spec_entry_machine(b):
    entry(b)
    return (text(b, 68), MoveTable.DecodeString(text(b, 68)))
def real_entry_time(b):
    e = MoveTable.LogEntry(b)
    return (e.get_timestamp(), e.get_guid_timestamps())
def gtime(b, at):
    u = guid(b, at)
    if u.version == 1: return Attributes.DecodeGUIDTime(u.time)
    return None
def spec_entry_time(b):
    entry(b)
    low = le(b, 116, 4) * 4294967296
    return ((Attributes.DecodeFiletime(low), Attributes.DecodeFiletime(low + 4294967295)), (gtime(b, 20), gtime(b, 52), gtime(b, 100)))

def real_sector(b):
    for e in MoveTable.LogSector(b).log_entries(): yield view(e)
def spec_sector(b):
    if len(b) != 512 and len(b) != 4096: raise ValueError('sector')
    at = 0
    while at + 140 <= len(b):
        yield entry(b[at:at + 124])
        at = at + 124

def real_table(vol, size):
    for e in MoveTable.MoveTableParser(vol, size).log_entries(): yield view(e)
def spec_table(vol, size):
    end = vol.seek(0, 2)
    i = 1
    while True:
        vol.seek(i * size)
        b = vol.read(size)
        if len(b) != 512 and len(b) != 4096: return
        at = 0
        while at + 140 <= len(b):
            e = entry(b[at:at + 124])
            if e[2] == 2: yield e
            at = at + 124
        i = i + 1
def real_guess(vol): return MoveTable.MoveTableParser(vol).sector_size
def spec_guess(vol):
    vol.seek(512)
    if vol.read(16) == bytes(16): return 4096
    return 512

def real_table_header(vol, size):
    h = MoveTable.MoveTableParser(vol, size).get_header()
    return (h.get_signature(), h.get_unknown_16(), h.get_flags(), h.is_log_flushed(), h.get_unknown_24(), tuple(h.get_expansion_data()), tuple(h.get_extended_header()))
def spec_table_header(vol, size):
    vol.seek(0)
    return header(vol.read(size))

def real_string(b): return MoveTable.DecodeString(b)
def spec_string(b):
    a = b.decode('cp866')
    bad = [c for c in b if c in (0x81, 0x8D, 0x8F, 0x90, 0x9D)]
    if bad: return a
    w = b.decode('windows-1252')
    if a == w: return a
    return '"' + a + '" (cp-866), "' + w + '" (windows-1252)'

def real_xattr(b):
    for name, value in WSL.LXXATTR(b).extended_attributes(): yield (name, value)
def spec_xattr(b):
    if len(b) < 12 or le(b, 2, 2) != 1 or le(b, 0, 2) != 0: raise ValueError('header')
    at = 4
    while at < len(b):
        if at + 4 > len(b): return
        step = le(b, at, 4)
        end = len(b)
        if step > 0 and at + step < len(b): end = at + step
        if end - at < 9 or b[at + 6] == 0: return
        k = b[at + 6]
        v = le(b, at + 4, 2)
        block = b[at:end]
        yield (block[7:7 + k], block[7 + k:7 + k + v])
        if step == 0: return
        at = at + step

def real_lxattrb(b):
    x = WSL.LXATTRB(b)
    return (x.get_mode(), x.get_uid(), x.get_gid(), x.get_rdev(), x.get_atime(), x.get_mtime(), x.get_chtime())
def spec_lxattrb(b):
    if len(b) != 56 or le(b, 2, 2) != 1 or le(b, 0, 2) != 0: raise ValueError('header')
    return (le(b, 4, 4), le(b, 8, 4), le(b, 12, 4), le(b, 16, 4), WSL.DecodeUnixtime(le(b, 32, 8), le(b, 20, 4)), WSL.DecodeUnixtime(le(b, 40, 8), le(b, 24, 4)), WSL.DecodeUnixtime(le(b, 48, 8), le(b, 28, 4)))

def g_text(r): return r.choice([b'', b'desktop-1', b'ABCDEFGHIJKLMNOP', b'a\0b', b'\x81\x90', gens.rb(r, 16)]).ljust(16, b'\0')
def g_guid(r):
    b = bytearray(gens.rb(r, 16))
    if r.random() < 0.6: b[7] = b[7] & 15 | 0x10; b[8] = b[8] & 0x3F | 0x80
    return bytes(b)
def g_entry(r):
    return struct.pack('<LLLLL', r.randrange(9), r.randrange(9), r.choice([1, 2, 2, 2] * 10 + [0, 3, 0x202]), r.randrange(1 << 32), 7) + g_guid(r) * 1 + g_guid(r) + g_guid(r) + g_text(r) + g_guid(r) + g_guid(r) + struct.pack('<LL', r.randrange(1 << 32), r.randrange(1 << 32))
def g_sector(r, n): return b''.join(g_entry(r) for _ in range((n - 16) // 124)).ljust(n - 16, b'\0') + gens.rb(r, 16)
def g_header(r, n): return (SIG + gens.rb(r, 24) + g_text(r) + gens.rb(r, 76)).ljust(n, b'\0')
def gen_header(r):
    b = g_header(r, r.choice([512, 512, 4096, 511, 1024]))
    return {'b': gens.mutate(r, b, 1) if r.random() < 0.3 else b}
def gen_sector(r): return {'b': g_sector(r, r.choice([512, 512, 4096]))[:r.choice([9999] * 9 + [500])]}
def gen_entry(r): return {'b': (g_entry(r) + bytes(5))[:r.choice([124] * 9 + [100, 125, 0])]}
def gen_table(r):
    n = r.choice([512, 4096])
    b = g_header(r, n) + b''.join(g_sector(r, n) for _ in range(r.randrange(0, 4)))
    return {'vol': b + gens.rb(r, r.choice([0, 0, 100, 512])), 'size': r.choice([n, n, 512, 4096])}
def gen_guess(r): return {'vol': gen_table(r)['vol'][:r.choice([99999, 99999, 512, 520, 528])]}
def gen_string(r): return {'b': gens.rb(r, r.randrange(0, 17)) if r.random() < 0.5 else bytes(r.randrange(32, 127) for _ in range(5))}
def gen_xattr(r):
    b = r.choice([b'\0\0\1\0'] * 9 + [gens.rb(r, 4)])
    k = r.randrange(0, 4)
    for i in range(k):
        nm = gens.rb(r, r.choice([1, 5, 12, 0] if r.random() < 0.2 else [1, 5, 12])); v = gens.rb(r, r.randrange(0, 20))
        blk = struct.pack('<HB', len(v) + r.choice([0] * 9 + [5]), len(nm)) + nm + v + bytes(r.choice([0, 1, 3]))
        b += struct.pack('<L', (0 if i == k - 1 else len(blk) + 4) + r.choice([0] * 12 + [1, 100])) + blk
    return {'b': b + bytes(r.choice([0, 0, 3, 5]))}
def gen_lxattrb(r): return {'b': (r.choice([b'\0\0\1\0'] * 9 + [gens.rb(r, 4)]) + gens.rb(r, 28) + struct.pack('<QQQ', *[r.choice([r.randrange(1 << 33), r.randrange(1 << 64)]) for _ in range(3)]))[:r.choice([56] * 9 + [55])]}

MT = 'MoveTable.'
CONTRACTS = [
    Contract('mt_header', [MT + 'Header', MT + 'ValidateSectorSize'], {'b': Bytes()}, real_header, spec_header, abstracts=ABS, gen=gen_header),
    Contract('mt_footer', [MT + 'LogSector', MT + 'LogSectorFooter'], {'b': Bytes()}, real_footer, spec_footer, gen=gen_sector),
    Contract('mt_entry', [MT + 'LogEntry'], {'b': Bytes()}, real_entry, spec_entry, gen=gen_entry),
    Contract('mt_entry_machine', [MT + 'LogEntry'], {'b': Bytes()}, real_entry_machine, spec_entry_machine, abstracts=ABS, gen=gen_entry),
    Contract('mt_entry_time', [MT + 'LogEntry'], {'b': Bytes()}, real_entry_time, spec_entry_time, abstracts=ABS, gen=gen_entry),
    Contract('mt_sector', [MT + 'LogSector'], {'b': Bytes()}, real_sector, spec_sector, gen=gen_sector, loops=[Loop({'at': 'pos'}, inv=lambda at: at >= 0, variant=lambda at, b: len(b) - at)]),
    Contract('mt_parser_header', [MT + 'MoveTableParser.get_header'], {'vol': File(), 'size': Enum(512, 4096)}, real_table_header, spec_table_header, abstracts=ABS, gen=gen_table),
    Contract('mt_parser', [MT + 'MoveTableParser.log_sectors', MT + 'MoveTableParser.log_entries', MT + 'LogSector.log_entries'], {'vol': File(), 'size': Enum(512, 4096)}, real_table, spec_table, gen=gen_table,
             loops=[Loop({'i': 'i'}, inv=lambda i: i >= 1, variant=lambda i, end: end - i), Loop({'at': 'pos'}, inv=lambda at: at >= 0, variant=lambda at, b: len(b) - at)]),
    Contract('mt_parser_guess', [MT + 'MoveTableParser'], {'vol': File()}, real_guess, spec_guess, gen=gen_guess),
    Contract('mt_string', [MT + 'DecodeString'], {'b': Bytes()}, real_string, spec_string, gen=gen_string, bounded=True, fixed_cases=[{'b': bytes([a])} for a in range(256)], note='every single byte and generated strings'),
    Contract('lxxattr', ['WSL.LXXATTR'], {'b': Bytes()}, real_xattr, spec_xattr, gen=gen_xattr, loops=[Loop({'at': 'pos_block'}, inv=lambda at: at >= 4, variant=lambda at, b: len(b) - at)]),
    Contract('lxattrb', ['WSL.LXATTRB'], {'b': Bytes()}, real_lxattrb, spec_lxattrb, abstracts=ABSW, gen=gen_lxattrb),
]
