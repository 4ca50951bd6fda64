"""P15: structures of the log file: restart pages and areas, client records, log record pages and headers."""
import io, struct
import z3
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.values import SBA, SBytes
from pyvc.abstract import func_of
from contracts.speclib import le, sle
from contracts import gens
from contracts.p04 import block
from contracts.p14 import restart_page, protect, put
from dfir_ntfs import LogFile

def _unprotected(ctx, name, args):
    raw = args[0]
    n = ctx.rlen(ctx.rope(raw))
    end = ctx.fresh_int('usa_end')
    ctx.assume(z3.And(end >= 14, end < n))
    return (SBA(SBytes([(ctx.fresh_arr(name), 0, n)])), end)
# P04 is the contract of UnprotectSectors: it raises, or returns a buffer of the same length and the end of the array (inside the buffer)
ABS = {'dfir_ntfs.LogFile.UnprotectSectors': func_of('unprotect', exc=LogFile.UpdateSequenceArrayException, build=_unprotected, eager=LogFile.UnprotectSectors)}

# ---- restart page
def page_fields(p):
    return (p.get_chkdsk_lsn(), p.get_system_page_size(), p.get_log_page_size(), p.get_restart_offset(), p.get_major_version(), p.get_minor_version())
def real_page(buf): return page_fields(LogFile.RestartPage(buf))
def restart(buf):
    """The unprotected data of a valid restart page."""
    data, end = LogFile.UnprotectSectors(bytearray(buf))
    if data[0:4] != b'RSTR' and data[0:4] != b'CHKD' and data[0:4] != b'BAAD': raise LogFile.RestartPageException('signature')
    version = (le(data, 28, 2), le(data, 26, 2))
    if version != (1, 1) and version != (2, 0) and version != (3, 0): raise NotImplementedError('version')
    for at in (16, 20):
        size = le(data, at, 4)
        if size < 1024 or size % 512 != 0: raise LogFile.RestartPageException('page size')
        if size != 4096: raise NotImplementedError('page size')
    off = le(data, 24, 2)
    if off == 0 or off % 8 != 0 or off >= 4096 or off >= len(data): raise LogFile.RestartPageException('restart offset')
    return data
def spec_page(buf):
    data = restart(buf)
    return (le(data, 8, 8), 4096, 4096, le(data, 24, 2), le(data, 28, 2), le(data, 26, 2))

# ---- restart area
def area_fields(a):
    return (a.get_current_lsn(), a.get_log_clients(), a.get_client_free_list(), a.get_client_in_use_list(), a.get_flags(), a.get_sequence_number_bits(), a.get_restart_area_length(),
            a.get_client_array_offset(), a.get_file_size(), a.get_last_lsn_data_length(), a.get_record_header_length(), a.get_log_page_data_offset(), a.get_revision_number())
def real_area(buf): return area_fields(LogFile.RestartArea(buf, 4096))
def area(buf):
    bad = LogFile.RestartAreaException('area')
    if len(buf) < 44: raise bad
    ca = le(buf, 22, 2)
    if ca == 0 or ca % 8 != 0 or ca >= len(buf) or ca >= 4096: raise bad
    n = le(buf, 8, 2)
    for at in (10, 12):
        i = le(buf, at, 2)
        if i != 0xFFFF and i >= n: raise bad
    return buf
def spec_area(buf):
    a = area(buf)
    return (le(a, 0, 8), le(a, 8, 2), le(a, 10, 2), le(a, 12, 2), le(a, 14, 2), le(a, 16, 4), le(a, 20, 2), le(a, 22, 2), sle(a, 24, 8), le(a, 32, 4), le(a, 36, 2), le(a, 38, 2), le(a, 40, 4))

def real_page_area(buf): return area_fields(LogFile.RestartPage(buf).get_restart_area())
def spec_page_area(buf):
    data = restart(buf)
    return spec_area(data[le(data, 24, 2):])

def real_clients(buf):
    for c in LogFile.RestartArea(buf, 4096).clients():
        yield (c.get_oldest_lsn(), c.get_client_restart_lsn(), c.get_prev_client(), c.get_next_client(), c.get_sequence_number(), c.get_client_name_length())
def spec_clients(buf):
    a = area(buf)
    n = le(a, 8, 2)
    k = 0
    while k < n:
        at = le(a, 22, 2) + 160 * k
        if at + 32 > len(a) or le(a, at + 28, 4) > 128: raise LogFile.ClientRecordException('client record')
        yield (le(a, at, 8), le(a, at + 8, 8), le(a, at + 16, 2), le(a, at + 18, 2), le(a, at + 20, 2), le(a, at + 28, 4))
        k = k + 1
def real_client_name(buf): return LogFile.ClientRecord(buf).get_client_name()
def spec_client_name(buf):
    if len(buf) < 32 or le(buf, 28, 4) > 128: raise LogFile.ClientRecordException('client record')
    return buf[32:32 + le(buf, 28, 4)].decode('utf-16le')

# ---- log record page and log record header
def real_log_page(buf, number, data_offset):
    p = LogFile.LogRecordPage(buf, number, data_offset)
    return (p.page_number, p.data_offset, bytes(p.buf), bytes(p.buf_protected) == buf, p.get_last_lsn(), p.get_file_offset_11(), p.get_file_offset_2x(), p.get_flags(), p.get_page_count(), p.get_page_position(),
            p.get_next_record_offset(), p.get_last_end_lsn())
def log_page(buf, data_offset):
    data, end = LogFile.UnprotectSectors(bytearray(buf))
    if data[0:4] != b'RCRD' and data[0:4] != b'CHKD' and data[0:4] != b'BAAD': raise LogFile.LogRecordPageException('signature')
    if data_offset < 8 or data_offset % 8 != 0 or data_offset < end: raise NotImplementedError('data offset')
    return (data, end)
def spec_log_page(buf, number, data_offset):
    data, end = log_page(buf, data_offset)
    off2 = None
    if end <= 60: off2 = le(data, 60, 4)
    return (number, data_offset, bytes(data), True, le(data, 8, 8), sle(data, 8, 8), off2, le(data, 16, 4), le(data, 20, 2), le(data, 22, 2), le(data, 24, 2), le(data, 32, 8))
def header_fields(h):
    return (h.get_this_lsn(), h.get_client_previous_lsn(), h.get_client_undo_next_lsn(), h.get_client_data_length(), h.get_client_id(), h.get_record_type(), h.get_transaction_id(), h.get_flags())
def real_header(buf, data_offset, offset, header):
    return header_fields(LogFile.LogRecordPage(buf, 7, data_offset).get_log_record_at_offset(offset, header))
def record(data, data_offset, offset, header):
    if offset < data_offset: raise LogFile.LogFileException('offset')
    if header is not None and header < 48: raise NotImplementedError('header length')
    n = header if header is not None else 48
    if n % 8 != 0: raise LogFile.LogFileException('header length')
    if offset + n > len(data): raise LogFile.LogFileException('truncated')
    return data[offset:]
def spec_header(buf, data_offset, offset, header):
    data, end = log_page(buf, data_offset)
    d = record(data, data_offset, offset, header)
    return (le(d, 0, 8), le(d, 8, 8), le(d, 16, 8), le(d, 24, 4), le(d, 28, 4), le(d, 32, 4), le(d, 36, 4), le(d, 40, 2))

# ---- the file
def real_open(vol):
    p = LogFile.LogFileParser(vol)
    return (p.log_page_size, p.log_version, p.record_header_length, p.log_page_data_offset, p.sequence_number_bits, p.file_size)
def spec_open(vol):
    vol.seek(0, 2)
    size = vol.tell()
    vol.seek(0)
    first = vol.read(4096)
    second = vol.read(4096)
    if len(second) != 4096: raise LogFile.LogFileException('truncated')
    if first == second and first == b'\xff' * 4096: raise LogFile.EmptyLogFileException('empty')
    pages = []
    for raw in (first, second):
        try: pages.append(restart(raw))
        except LogFile.LogFileException: pass
    if len(pages) == 0: raise LogFile.LogFileException('no restart page')
    d = pages[0]
    a = area(d[le(d, 24, 2):])
    if len(pages) == 2 and pages[1][26:30] != d[26:30]: raise LogFile.LogFileException('versions differ')
    if le(a, 36, 2) < 48: raise LogFile.LogFileException('record header length')
    if le(a, 16, 4) < 3 or le(a, 16, 4) > 63: raise LogFile.LogFileException('sequence number bits')
    return (4096, (le(d, 28, 2), le(d, 26, 2)), le(a, 36, 2), le(a, 38, 2), le(a, 16, 4), size)

KIND = {'good': restart_page(40, (1, 1)), 'v2': restart_page(44, (2, 0)), 'bad': b'x' * 4096, 'ff': b'\xff' * 4096}
def real_open_1(first, other): return real_open(io.BytesIO(first + KIND[other]))
def spec_open_1(first, other): return spec_open(io.BytesIO(first + KIND[other]))
def real_open_2(other, second): return real_open(io.BytesIO(KIND[other] + second))
def spec_open_2(other, second): return spec_open(io.BytesIO(KIND[other] + second))

# ---- enumeration of the pages and assembly of client data, on a file with valid restart pages
HEAD = {1: restart_page(40, (1, 1)) * 2, 2: restart_page(44, (2, 0)) * 2}
BITS = {1: 40, 2: 44}
def real_pages(rest, version, mode):
    p = LogFile.LogFileParser(io.BytesIO(HEAD[version] + rest))
    for lp in p.log_record_pages(mode): yield (lp.page_number, bytes(lp.buf))
def spec_pages(rest, version, mode):
    if mode != 0 and mode != 1: raise ValueError('mode')
    first = 2
    if mode == 0: first = 4 if version == 1 else 34
    n = 2 + len(rest) // 4096
    i = first
    while i < n:
        raw = rest[(i - 2) * 4096:(i - 1) * 4096]
        try:
            data, end = log_page(raw, 64)
        except (LogFile.LogFileException, NotImplementedError):
            i = i + 1
            continue
        yield (i, bytes(data))
        i = i + 1

def real_client_data(rest, version, lsn):
    p = LogFile.LogFileParser(io.BytesIO(HEAD[version] + rest))
    page, offset = p.lsn_to_offset(lsn)
    if page < 2: return None
    lp = p.get_log_record_page_by_number(page)
    if lp is None: return None
    c = p.get_client_data(lsn)
    return (bytes(c.buf), c.record_type, c.lsn, c.transaction_id)
def page_at(rest, i):
    """The unprotected data of log page i, or None."""
    raw = rest[(i - 2) * 4096:(i - 1) * 4096]
    if i < 2 or len(raw) != 4096: return None
    try:
        data, end = log_page(raw, 64)
    except (LogFile.LogFileException, NotImplementedError):
        return None
    return data
def spec_client_data(rest, version, lsn):
    at = lsn % 2 ** (64 - BITS[version]) * 8
    page = at // 4096
    offset = at % 4096
    if page < 2: return None
    data = page_at(rest, page)
    if data is None: return None
    rec = record(data, 64, offset, 48)
    n = le(rec, 24, 4)
    buf = rec[48:48 + n]
    left = n - len(buf)
    while left > 0:
        # the data go on after the header of the next page; after the last page of the file comes the first page of the circular area
        page = page + 1
        if page * 4096 >= 8192 + len(rest): page = 4 if version == 1 else 34
        data = page_at(rest, page)
        if data is None: break
        more = data[64:4096]
        if left < 4032: more = data[64:64 + left]
        buf += more
        left = left - len(more)
    return (bytes(buf), le(rec, 32, 4), lsn, le(rec, 36, 4))

# ---- generators
def gen_page(r):
    b = bytearray(restart_page(r.randrange(0, 70), r.choice([(1, 1), (1, 1), (2, 0), (3, 0), (1, 0), (2, 1)]), chkdsk=r.randrange(1 << 64), sig=r.choice([b'RSTR', b'RSTR', b'CHKD', b'BAAD', b'RCRD'])))
    if r.random() < 0.5: put(b, 24, 2, r.choice([0, 8, 48, 64, 4, 4048, 4056, 4064, 4088, 4096, 8192, 4072]))
    if r.random() < 0.2: put(b, r.choice([16, 20]), 4, r.choice([512, 1024, 8192, 4097, 0, 1 << 31]))
    return {'buf': gens.mutate(r, bytes(b), 2, list(range(30)) + list(range(48, 100)))[:r.choice([4096] * 9 + [4095, 1024])]}
def gen_area(r):
    b = bytearray(gens.rb(r, r.choice([44, 48, 100, 400, 1000, 4000])))
    put(b, 8, 2, r.randrange(0, 6)); put(b, 10, 2, r.choice([0xFFFF, 0, 1, 2, 5])); put(b, 12, 2, r.choice([0xFFFF, 0, 1, 2, 5])); put(b, 22, 2, r.choice([0, 8, 48, 64, 40, 44, 96, 992, 1000]))
    ca = le(b, 22, 2)
    for k in range(6):
        if ca + 160 * k + 32 <= len(b): put(b, ca + 160 * k + 28, 4, r.choice([0, 8, 128, 129] if r.random() < 0.2 else [8]))
    return {'buf': bytes(b)[:r.choice([99999] * 6 + [0, 10, 43, 44, 500])]}
def gen_name(r):
    b = bytearray(gens.rb(r, r.choice([160, 160, 40, 31, 32, 200])))
    if len(b) >= 32: put(b, 28, 4, r.choice([0, 2, 8, 128, 129, 7, 1 << 20]))
    if len(b) > 60 and r.random() < 0.7: b[32:60] = 'NTFSlogfileabc'.encode('utf-16le')
    return {'buf': bytes(b)}
def log_block(r, good=True):
    b = bytearray(gens.rb(r, 4096))
    b[0:4] = r.choice([b'RCRD'] * 8 + [b'CHKD', b'BAAD', b'RSTR']) if not good else b'RCRD'
    put(b, 4, 2, r.choice([40, 40, 40, 48, 8] if not good else [40])); put(b, 6, 2, 9)
    return protect(b, r.randrange(1 << 16))
def gen_log_page(r):
    b = log_block(r, False)
    return {'buf': gens.mutate(r, b, 1), 'number': r.randrange(100), 'data_offset': r.choice([64, 64, 56, 60, 8, 0, 24, 4088, 4096])}
def gen_header(r):
    d = gen_log_page(r); d.pop('number'); d['data_offset'] = 64
    d['offset'] = r.choice([64, 72, 56, 4048, 4056, 4096, 9000, r.randrange(4096)]); d['header'] = r.choice([None, 48, 48, 56, 40, 50, 4000, 0])
    return d
def gen_open(r):
    v = r.choice([(1, 1), (2, 0), (3, 0)])
    mk = lambda: restart_page(r.choice([40, 44, 3, 63, 2, 64]) if r.random() < 0.4 else 40, v if r.random() < 0.9 else (1, 1), header_length=r.choice([48, 48, 48, 56, 47, 40]), data_offset=r.choice([64, 48]))
    pages = [r.choice([mk, mk, mk, lambda: gen_page(r)['buf'].ljust(4096, b'\0'), lambda: b'\xff' * 4096])() for _ in range(2)]
    return {'vol': (pages[0] + pages[1] + gens.rb(r, r.choice([0, 100, 4096])))[:r.choice([99999] * 8 + [8191, 4096, 0])]}
def gen_pages(r): return {'rest': b''.join(log_block(r, r.random() < 0.7) if r.random() < 0.9 else gens.rb(r, 4096) for _ in range(r.choice([0, 1, 3, 6, 35]))) + gens.rb(r, r.choice([0, 100, 4095])), 'version': r.choice([1, 2]), 'mode': r.choice([0, 1, 1, 0, 2])}
def gen_client_data(r):
    version = r.choice([1, 1, 2]); first = 4 if version == 1 else 34
    n = r.randrange(1, 6)
    total = first + n
    at = r.randrange(first, total) * 4096 + r.choice([64, 64, 72, 4048, 4040, 3000, 4000, 48, 4056])
    length = r.choice([0, 8, 32, 100, 1000, 4096, 9000, 20000, 4032 * 2 + 3, 1 << 32 - 1]) if r.random() < 0.98 else 50000
    out = []
    for i in range(2, total):
        b = bytearray(gens.rb(r, 4096)); b[0:4] = b'RCRD'; put(b, 4, 2, 40); put(b, 6, 2, 9)
        if i == at // 4096:
            h = struct.pack('<QQQLLLLH6x', at // 8, 0, 0, min(length, 60000), 0, r.choice([1, 2]), 24, 1)
            o = at % 4096; b[o:o + 48] = h[:4096 - o]
        b = protect(b, r.randrange(1 << 16))
        if r.random() < 0.03: b = gens.mutate(r, b, 3)
        out.append(b)
    return {'rest': b''.join(out) + gens.rb(r, r.choice([0, 0, 100])), 'version': version, 'lsn': at // 8 + (r.choice([0, 1, 5]) << (64 - BITS[version]))}

PG = ['LogFile.RestartPage']; AR = ['LogFile.RestartArea', 'LogFile.ClientRecord']; LP = ['LogFile.LogRecordPage', 'LogFile.LogRecordHeader']
CONTRACTS = [
    Contract('restart_page', PG, {'buf': Bytes()}, real_page, spec_page, abstracts=ABS, pre=lambda buf: len(buf) >= 1024, gen=gen_page),
    Contract('restart_area', AR, {'buf': Bytes()}, real_area, spec_area, gen=gen_area),
    Contract('restart_page_area', PG + AR, {'buf': Bytes(4096)}, real_page_area, spec_page_area, abstracts=ABS, gen=gen_page),
    Contract('client_records', AR, {'buf': Bytes()}, real_clients, spec_clients, gen=gen_area, loops=[Loop({'k': 'i'}, inv=lambda k, n: 0 <= k, variant=lambda k, n: n - k)]),
    Contract('client_name', AR, {'buf': Bytes()}, real_client_name, spec_client_name, gen=gen_name),
    Contract('log_record_page', LP, {'buf': Bytes(4096), 'number': Int(0), 'data_offset': Int(0, 65535)}, real_log_page, spec_log_page, abstracts=ABS, gen=gen_log_page),
    Contract('log_record_header', LP, {'buf': Bytes(4096), 'data_offset': Int(0, 65535), 'offset': Int(0), 'header': Opt(Int(0, 65535))}, real_header, spec_header, abstracts=ABS, gen=gen_header),
    Contract('log_file_open_1', ['LogFile.LogFileParser.__init__'], {'first': Bytes(4096), 'other': Enum('good', 'v2', 'bad', 'ff')}, real_open_1, spec_open_1, abstracts=ABS, weight=3),
    Contract('log_file_open_2', ['LogFile.LogFileParser.__init__'], {'other': Enum('good', 'v2', 'bad', 'ff'), 'second': Bytes(4096)}, real_open_2, spec_open_2, abstracts=ABS, weight=3),
    Contract('log_file_short', ['LogFile.LogFileParser.__init__'], {'vol': File(hi=8191)}, real_open, spec_open, abstracts=ABS),
    Contract('log_file_open', ['LogFile.LogFileParser.__init__'], {'vol': File()}, real_open, spec_open, gen=gen_open, bounded=True, note='generated files in which both restart pages vary at once; the proofs log_file_open_1/2 let one of them vary over all contents'),
    Contract('log_pages', ['LogFile.LogFileParser.log_record_pages', 'LogFile.LogFileParser.get_log_record_page_by_number'], {'rest': Bytes(), 'version': Enum(1, 2), 'mode': Enum(0, 1, 2)}, real_pages, spec_pages, abstracts=ABS, gen=gen_pages,
             loops=[Loop({'i': 'i'}, inv=lambda i: i >= 2, variant=lambda i, n: n - i)]),
    Contract('client_data', ['LogFile.LogFileParser.get_client_data'], {'rest': Bytes(), 'version': Enum(1, 2), 'lsn': Int(0, (1 << 64) - 1)}, real_client_data, spec_client_data, abstracts=ABS, gen=gen_client_data,
             loops=[Loop({'page': 'log_page_number', 'buf': 'client_buf', 'left': 'client_data_length_left'}, inv=lambda page, left: page >= 2, variant=lambda left: left)]),
]
