"""Native input generators (used to look for failing inputs; never part of a proof)."""
import struct

def rb(r, n): return bytes(r.randrange(256) for _ in range(n)) if n < 64 else r.randbytes(n)

def mutate(r, buf, k=2, edge=()):
    b = bytearray(buf)
    for _ in range(r.randrange(0, k + 1)):
        if not b: break
        i = r.choice(edge) if edge and r.random() < 0.7 else r.randrange(len(b))
        if i >= len(b): continue
        b[i] = r.choice([0, 1, 2, 7, 8, 15, 16, 127, 128, 254, 255, b[i] ^ (1 << r.randrange(8)), (b[i] + 1) & 255, (b[i] - 1) & 255, r.randrange(256)])
    return bytes(b)

def pad8(b): return b + bytes(-len(b) % 8)

def mapping_pairs(r, runs=None):
    out = bytearray()
    prev = 0
    for _ in range(r.randrange(0, 4) if runs is None else runs):
        ln = r.choice([1, 2, 5, 127, 128, 300, 70000, r.randrange(1, 2000)])
        n = 1
        while not (-(1 << (8 * n - 1)) <= ln < 1 << (8 * n - 1)): n += 1
        if r.random() < 0.25:
            out.append(n); out += ln.to_bytes(n, 'little', signed=True)
            continue
        lcn = r.choice([0, 1, 5, 127, 128, 255, 256, 40000, r.randrange(1 << 24)])
        d = lcn - prev; prev = lcn
        m = 1
        while not (-(1 << (8 * m - 1)) <= d < 1 << (8 * m - 1)): m += 1
        out.append(n | m << 4); out += ln.to_bytes(n, 'little', signed=True) + d.to_bytes(m, 'little', signed=True)
    out.append(0)
    return bytes(out)

def resident_attr(r, t=None, value=None, name=None):
    t = t if t is not None else r.choice([0x10, 0x30, 0x40, 0x60, 0x70, 0x80, 0x90, 0xA0, 0x100])
    name = name if name is not None else r.choice(['', '', '', 'x', '$I30', 'stream'])
    nb = name.encode('utf-16le')
    value = value if value is not None else rb(r, r.choice([0, 1, 8, 24, 72, r.randrange(100)]))
    no = 24
    vo = (no + len(nb) + 7) // 8 * 8
    body = nb + bytes(vo - no - len(nb)) + value
    ln = (24 + len(body) + 7) // 8 * 8
    h = struct.pack('<LLBBHHHLHBB', t, ln, 0, len(name), no, r.choice([0, 0, 1, 0x8000]), r.randrange(10), len(value), vo, r.choice([0, 1]), 0)
    return (h + body).ljust(ln, b'\x00')

def nonresident_attr(r, t=None, name=None, lowest=None, highest=None, sizes=None, mp=None):
    t = t if t is not None else r.choice([0x80, 0xA0, 0xB0, 0x20, 0x100])
    name = name if name is not None else r.choice(['', '', 'x', '$I30'])
    nb = name.encode('utf-16le')
    mp = mp if mp is not None else mapping_pairs(r)
    mo = (64 + len(nb) + 7) // 8 * 8
    ln = (mo + len(mp) + 7) // 8 * 8
    lo = lowest if lowest is not None else r.choice([0, 0, 0, 1, 10])
    hi = highest if highest is not None else lo + r.choice([0, 1, 100])
    fs = r.choice([0, 1, 4096, 100000]); al = fs + r.choice([0, 1, 4095]); vd = r.choice([0, fs])
    if sizes is not None: al, fs, vd = sizes
    h = struct.pack('<LLBBHHHQQHB5sqqq', t, ln, 1, len(name), 64, r.choice([0, 1, 0x8000]), r.randrange(10), lo, hi, mo, r.choice([0, 4]), b'\x00' * 5, al, fs, vd)
    return (h + nb + bytes(mo - 64 - len(nb)) + mp).ljust(ln, b'\x00')

def frs(r, size=None, attrs=None, protect=True, number=None, seq=None, base=0, flags=None, short=False, used=None, declared=None, end=True):
    """A file record segment with its update sequence array in place (protected form)."""
    size = size or r.choice([1024, 1024, 4096])
    cnt = size // 512 + 1
    uo = 42 if short else r.choice([48, 48, 50, 56, r.choice([48, 100, 490, 494, 506])])
    usn = r.choice([1, 2, 0xFFFF, r.randrange(1 << 16)])
    fa = (uo + cnt * 2 + 7) // 8 * 8
    if attrs is None:
        attrs = [r.choice([resident_attr, nonresident_attr])(r) for _ in range(r.randrange(0, 5))]
    body = b''.join(attrs)
    if end: body += b'\xff\xff\xff\xff' + (b'\x00' * 4 if r.random() < 0.8 else b'')
    if fa + len(body) > size: 
        body = body[:max(0, size - fa)]
    used = used if used is not None else fa + len(body)
    flags = flags if flags is not None else r.choice([0, 1, 1, 3])
    seq = seq if seq is not None else r.randrange(1, 65536)
    number = number if number is not None else r.choice([0, 5, 40, 70000, 1 << 33])
    sig = r.choice([b'FILE'] * 12 + [b'BAAD', b'CHKD', b'FILX'])
    b = bytearray(size)
    struct.pack_into('<4sHHQHHHHLLQH', b, 0, sig, uo, cnt, r.randrange(1 << 40), seq, 1, fa, flags, used, declared or size, base, 7)
    if not short and uo >= 48: struct.pack_into('<HL', b, 42, number >> 32, number & 0xFFFFFFFF)
    b[fa:fa + len(body)] = body
    for i in range(fa + len(body), size): b[i] = r.randrange(256) if r.random() < 0.02 else b[i]
    if protect:
        struct.pack_into('<H', b, uo, usn)
        for k in range(1, cnt):
            t = 512 * k - 2
            b[uo + 2 * k:uo + 2 * k + 2] = b[t:t + 2]
            struct.pack_into('<H', b, t, usn)
        if r.random() < 0.3:
            k = r.randrange(1, cnt)
            b[512 * k - r.choice([1, 2])] ^= r.choice([1, 255])
    return bytes(b)
