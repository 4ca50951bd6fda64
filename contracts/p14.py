"""P14: log sequence numbers and file positions convert into each other exactly."""
import io
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts import gens
from dfir_ntfs import LogFile

def put(b, at, n, v): b[at:at + n] = v.to_bytes(n, 'little')
def restart_page(bits=40, version=(1, 1), data_offset=64, header_length=48, current=0, clients=(), size=1 << 20, usn=1, chkdsk=0, sig=b'RSTR'):
    b = bytearray(4096)
    b[0:4] = sig
    put(b, 4, 2, 30); put(b, 6, 2, 9); put(b, 8, 8, chkdsk); put(b, 16, 4, 4096); put(b, 20, 4, 4096); put(b, 24, 2, 48); put(b, 26, 2, version[1]); put(b, 28, 2, version[0])
    a = 48
    put(b, a, 8, current); put(b, a + 8, 2, len(clients) or 1); put(b, a + 10, 2, 0xFFFF); put(b, a + 12, 2, 0); put(b, a + 16, 4, bits); put(b, a + 20, 2, 64 + 160); put(b, a + 22, 2, 64)
    put(b, a + 24, 8, size); put(b, a + 36, 2, header_length); put(b, a + 38, 2, data_offset); put(b, a + 40, 4, 7)
    for i, (oldest, restart) in enumerate(clients or [(0, 0)]):
        c = a + 64 + 160 * i
        put(b, c, 8, oldest); put(b, c + 8, 8, restart); put(b, c + 16, 2, 0xFFFF); put(b, c + 18, 2, 0xFFFF); put(b, c + 28, 4, 8); b[c + 32:c + 40] = 'NTFS'.encode('utf-16le')
    return protect(b, usn)
def protect(b, usn=1):
    """Write the update sequence array of a 4096-byte block whose array offset and size are set."""
    uo = int.from_bytes(b[4:6], 'little')
    put(b, uo, 2, usn)
    for k in range(1, len(b) // 512 + 1):
        b[uo + 2 * k:uo + 2 * k + 2] = b[512 * k - 2:512 * k]
        put(b, 512 * k - 2, 2, usn)
    return bytes(b)

FILES = {(bits, v): restart_page(bits, (v, 1 if v == 1 else 0)) * 2 for bits in range(3, 64) for v in (1, 2, 3)}
def parser(bits): return LogFile.LogFileParser(io.BytesIO(FILES[(bits, 1)]))

def real_position(lsn, bits):
    p = parser(bits)
    return (p.lsn_to_offset(lsn), p.lsn_to_seqnum(lsn))
def spec_position(lsn, bits):
    n = 2 ** (64 - bits)
    at = lsn % n * 8
    return ((at // 4096, at % 4096), lsn // n)

def real_lsn(page, offset, seq, bits): return parser(bits).offset_to_lsn(page, offset, seq)
def pre_lsn(page, offset, seq, bits): return offset < 4096 and (page * 4096 + offset) // 8 < 2 ** (64 - bits) and seq < 2 ** bits
def spec_lsn(page, offset, seq, bits): return seq * 2 ** (64 - bits) + (page * 4096 + offset) // 8

# the two directions are inverse
def real_inverse(lsn, bits):
    p = parser(bits)
    page, offset = p.lsn_to_offset(lsn)
    return p.offset_to_lsn(page, offset, p.lsn_to_seqnum(lsn))
def spec_inverse(lsn, bits): return lsn

# a later number of the same pass lies at a later position, eight bytes per unit
def real_order(a, b, bits):
    p = parser(bits)
    if p.lsn_to_seqnum(a) != p.lsn_to_seqnum(b): return b - a
    pa, oa = p.lsn_to_offset(a)
    pb, ob = p.lsn_to_offset(b)
    d = (pb - pa) * 4096 + ob - oa
    return d // 8 if d % 8 == 0 else None
def spec_order(a, b, bits): return b - a

def real_wrap(version): return LogFile.LogFileParser(io.BytesIO(FILES[(40, version)])).get_wrapped_log_record_page_number()
def spec_wrap(version): return 4 if version == 1 else 34

BITS = Enum(*range(3, 64))
U64 = Int(0, (1 << 64) - 1)
def lsn(r): return r.choice([0, 1, 511, 512, r.randrange(1 << 64), r.randrange(1 << 64), r.randrange(1 << 32), (1 << 64) - 1, 1 << r.randrange(64)])
def gen_lsn(r): return {'lsn': lsn(r), 'bits': r.randrange(3, 64)}
def gen_order(r): return {'a': lsn(r), 'b': lsn(r), 'bits': r.choice([3, 4, r.randrange(3, 64)])}
def gen_pos(r):
    bits = r.randrange(3, 64); at = r.randrange(1 << (67 - bits)); return {'page': at // 4096, 'offset': r.choice([at % 4096, at % 4096 // 8 * 8]), 'seq': r.randrange(1 << bits), 'bits': bits}

CONTRACTS = [
    Contract('lsn_position', ['LogFile.LogFileParser.lsn_to_offset', 'LogFile.LogFileParser.lsn_to_seqnum'], {'lsn': U64, 'bits': BITS}, real_position, spec_position, gen=gen_lsn),
    Contract('lsn_of_position', ['LogFile.LogFileParser.offset_to_lsn'], {'page': Int(0), 'offset': Int(0), 'seq': Int(0), 'bits': BITS}, real_lsn, spec_lsn, pre=pre_lsn, gen=gen_pos),
    Contract('lsn_inverse', ['LogFile.LogFileParser.lsn_to_offset', 'LogFile.LogFileParser.lsn_to_seqnum', 'LogFile.LogFileParser.offset_to_lsn'], {'lsn': U64, 'bits': BITS}, real_inverse, spec_inverse, gen=gen_lsn),
    Contract('lsn_order', ['LogFile.LogFileParser.lsn_to_offset', 'LogFile.LogFileParser.lsn_to_seqnum'], {'a': U64, 'b': U64, 'bits': BITS}, real_order, spec_order, gen=gen_order),
    Contract('wrap_page', ['LogFile.LogFileParser.get_wrapped_log_record_page_number'], {'version': Enum(1, 2, 3)}, real_wrap, spec_wrap, gen=lambda r: {'version': r.choice([1, 2, 3])}),
]
