"""P13: the scan of a change journal finds exactly the records it holds."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts import gens
from contracts.p12 import record, usn_record
from dfir_ntfs import USN

def real_scan(vol):
    for u in USN.ChangeJournalParser(vol).usn_records():
        yield (type(u) is USN.USN_RECORD_V4, bytes(u.record_raw))

def spec_scan(vol):
    vol.seek(0, 2)
    size = vol.tell()
    pos = 0
    while pos < size:
        vol.seek(pos)
        buf = vol.read(8192)
        if buf.lstrip(b'\x00') == b'':
            pos = pos + len(buf)
            continue
        try:
            rec = record(buf)
        except (ValueError, NotImplementedError):
            pos = pos + 8
            continue
        yield (rec[4] == 4, rec)
        pos = pos + len(rec)

# what the scan means: every position of the 8-byte grid is either inside a reported record, or holds no record
def real_meaning(vol): return [bytes(u.record_raw) for u in USN.ChangeJournalParser(vol).usn_records()]
def spec_meaning(vol):
    data = vol.read()
    pos = 0
    out = []
    while pos < len(data):
        try: rec = record(data[pos:pos + 8192])
        except (ValueError, NotImplementedError): pos += 8; continue
        out.append(rec)
        pos += len(rec)
    return out

# lemma: no record starts in an empty 8-byte cell, so skipping an empty chunk (a multiple of 8 bytes, or the end of the file) loses nothing
def real_empty(rest): return USN.GetUsnRecord(b'\x00' * 8 + rest)
def spec_empty(rest): raise ValueError('no record')
def gen_empty(r): return {'rest': gens.rb(r, r.choice([0, 8, 54, 100]))}

def gen(r):
    b = b''
    for _ in range(r.randrange(0, 6)):
        b += r.choice([usn_record(r), usn_record(r), bytes(8 * r.randrange(0, 9)), gens.rb(r, 8 * r.randrange(0, 4)), bytes(r.choice([8192, 8192 * 2 - 64, 4096])) if r.random() < 0.3 else b''])
    return {'vol': b + gens.rb(r, r.choice([0, 0, 0, 1, 4, 7]))}

CONTRACTS = [
    Contract('journal_scan', ['USN.ChangeJournalParser.usn_records', 'USN.GetUsnRecord'], {'vol': File()}, real_scan, spec_scan, gen=gen,
             loops=[Loop({'pos': 'pos'}, inv=lambda pos, size: pos >= 0 and pos % 8 == 0 or pos >= size, variant=lambda pos, size: size - pos)]),
    Contract('journal_empty_cell', ['USN.GetUsnRecord'], {'rest': Bytes()}, real_empty, spec_empty, gen=gen_empty),
    Contract('journal_meaning', ['USN.ChangeJournalParser.usn_records'], {'vol': File()}, real_meaning, spec_meaning, gen=gen, bounded=True,
             note='generated journals up to about 30 KB: skipping empty chunks loses no record (the proof of journal_scan covers the scan with that skip)'),
]
