"""P25: geometry from an NTFS boot sector."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import BootSector
E = BootSector.BootSectorException

def check(b):
    if len(b) < 512 or len(b) % 512 != 0 or b[3:11] != b'NTFS    ': raise E('not NTFS')
def bps(b):
    n = le(b, 11, 2)
    if n == 0 or n % 512 != 0: raise E('sector')
    return n
def spc(b):
    n = b[13]
    if n == 0: raise E('cluster')
    if n <= 128: return n
    return 1 << (256 - n)
def record_size(b, at):
    n = b[at]
    if n >= 128: return 1 << (256 - n)
    n = n * (spc(b) * bps(b))
    if n == 0: raise E('record size')
    return n

def real_sizes(b):
    s = BootSector.BootSector(b)
    return (s.get_signature(), s.get_bytes_per_sector(), s.get_sectors_per_cluster())
def spec_sizes(b):
    check(b)
    return (b'NTFS    ', bps(b), spc(b))
def real_fields(b):
    s = BootSector.BootSector(b)
    return (s.get_total_number_of_sectors(), s.get_first_mft_cluster(), s.get_first_mftmirr_cluster(), s.get_serial_number(), s.is_boot_code_present())
def spec_fields(b):
    check(b)
    if le(b, 40, 8) == 0 or le(b, 48, 8) == 0 or le(b, 56, 8) == 0: raise E('zero')
    return (le(b, 40, 8), le(b, 48, 8), le(b, 56, 8), le(b, 72, 8), le(b, 0, 2) != 0 and le(b, 510, 2) == 0xAA55)
def real_frs(b): return BootSector.BootSector(b).get_file_record_segment_size()
def spec_frs(b):
    check(b)
    return record_size(b, 64)
def real_index(b): return BootSector.BootSector(b).get_index_record_size()
def spec_index(b):
    check(b)
    return record_size(b, 68)

def boot(r):
    b = bytearray(gens.rb(r, r.choice([512, 512, 512, 1024, 4096])))
    b[0:2] = r.choice([b'\xeb\x52', b'\0\0', b'\0\1']); b[3:11] = b'NTFS    '
    b[11:13] = (r.choice([512, 512, 1024, 4096, 256, 0, 0xFE00, 513])).to_bytes(2, 'little')
    b[13] = r.choice([1, 8, 64, 128, 129, 0xF4, 0xF7, 255, 0, 3])
    for at in (40, 48, 56): b[at:at + 8] = r.choice([0, 1, 786432, 1 << 40, (1 << 64) - 1] + [5] * 20).to_bytes(8, 'little')
    for at in (64, 68): b[at] = r.choice([0xF6, 0xF4, 1, 2, 0, 127, 128, 255, 0xF7])
    b[510:512] = r.choice([b'\x55\xaa', b'\x55\xaa', b'\0\0'])
    if r.random() < 0.15: b = b[:r.choice([0, 100, 511, 513, 700])]
    return {'b': gens.mutate(r, bytes(b), 1) if r.random() < 0.2 else bytes(b)}

C = ['BootSector.BootSector']
CONTRACTS = [
    Contract('boot_sizes', C, {'b': Bytes()}, real_sizes, spec_sizes, gen=boot),
    Contract('boot_fields', C, {'b': Bytes()}, real_fields, spec_fields, gen=boot),
    Contract('boot_frs_size', C, {'b': Bytes()}, real_frs, spec_frs, gen=boot),
    Contract('boot_index_size', C, {'b': Bytes()}, real_index, spec_index, gen=boot),
]
