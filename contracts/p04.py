"""P04: multi-sector fixups of index buffers and log pages."""
import binascii
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import Attributes, LogFile

def real_index(buf):
    r = Attributes.VerifyAndUnprotectIndexSectors(buf)
    return None if r is None else bytes(r)

def spec_index(buf):
    n = len(buf)
    if n < 1024 or n % 512 != 0: return None
    uo = le(buf, 4, 2)
    cnt = le(buf, 6, 2)
    if uo < 40 or uo > 506 or (cnt - 1) * 512 != n or uo + 2 * cnt >= n: return None
    usn = bytes(buf[uo:uo + 2])
    data = bytearray(buf)
    k = 1
    while k < cnt:
        # sector k-1 must carry the sequence number in its last two bytes; they are replaced by array element k
        tail = 512 * k - 2
        if data[tail:tail + 2] != usn: return None
        a = data[uo + 2 * k]
        b = data[uo + 2 * k + 1]
        data[tail] = a
        data[tail + 1] = b
        k = k + 1
    if data[0:4] != b'INDX': return None
    return bytes(data)

def real_log(buf):
    r, end = LogFile.UnprotectSectors(buf)
    return (bytes(r), end)

def spec_log(buf):
    n = len(buf)
    bad = LogFile.UpdateSequenceArrayException('invalid')
    if n < 1024 or n % 512 != 0: raise bad
    uo = le(buf, 4, 2)
    cnt = le(buf, 6, 2)
    if uo < 8 or uo > 506 or (cnt - 1) * 512 != n or uo + 2 * cnt >= n: raise bad
    if buf[uo + 4:uo + 8] == b'CRC4':
        # DAX volumes: the checksum (over the page with the array zeroed) replaces the fixups
        zeroed = buf[0:uo] + b'\x00' * (2 * cnt) + buf[uo + 2 * cnt:]
        if binascii.crc32(zeroed) == le(buf, uo, 4): return (bytes(buf), uo + 2 * cnt)
    usn = bytes(buf[uo:uo + 2])
    data = bytearray(buf)
    k = 1
    while k < cnt:
        tail = 512 * k - 2
        if data[tail:tail + 2] != usn: raise bad
        a = data[uo + 2 * k]
        b = data[uo + 2 * k + 1]
        data[tail] = a
        data[tail + 1] = b
        k = k + 1
    return (bytes(data), uo + 2 * cnt)

def block(r, sig, n=None):
    n = n or r.choice([2, 2, 3, 4, 8]) * 512
    b = bytearray(gens.rb(r, n))
    cnt = n // 512 + 1
    uo = r.choice([8, 30, 40, 40, 48, 100, 495, 506])
    b[0:4] = sig
    b[4:6] = uo.to_bytes(2, 'little'); b[6:8] = cnt.to_bytes(2, 'little')
    usn = b[uo:uo + 2]
    for k in range(1, cnt):
        b[512 * k - 2:512 * k] = usn
    if r.random() < 0.25:
        k = r.randrange(1, cnt); b[512 * k - r.choice([1, 2])] ^= 1
    if r.random() < 0.2 and uo + 2 * cnt < n:
        b[uo + 4:uo + 8] = b'CRC4'
        z = bytearray(b); z[uo:uo + 2 * cnt] = bytes(2 * cnt)
        if r.random() < 0.7: b[uo:uo + 4] = binascii.crc32(z).to_bytes(4, 'little')
    b = gens.mutate(r, b, 1, [4, 5, 6, 7, 0]) if r.random() < 0.3 else bytes(b)
    if r.random() < 0.05: b = b[:r.choice([512, 513, 0, len(b) - 1])]
    return b
def gen_index(r): return {'buf': block(r, r.choice([b'INDX'] * 9 + [b'INDY']))}
def gen_log(r): return {'buf': block(r, r.choice([b'RCRD', b'RSTR', b'xxxx']))}

LI = [Loop({'k': 'i', 'data': 'Buffer'}, shapes={'data': 'bytes:fixed'}, inv=lambda k: k >= 1, variant=lambda k, cnt: cnt - k)]
CONTRACTS = [
    Contract('index_buffer', ['Attributes.VerifyAndUnprotectIndexSectors'], {'buf': Bytes(mutable=True)}, real_index, spec_index, loops=LI, gen=gen_index),
    Contract('log_page', ['LogFile.UnprotectSectors'], {'buf': Bytes(mutable=True)}, real_log, spec_log, loops=LI, gen=gen_log),
]
