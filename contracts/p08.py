"""P08: full paths of file records, and file records by path."""
import io, random, struct
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from contracts.speclib import le
from contracts import gens
from contracts.p02 import spec_frs
from contracts.p03 import spec_attrs
from contracts.p06 import table, version_of, children, lookup, fields, image, at_slot, SEQS, seg_view, seg_spec
from pyvc.abstract import func_of
from pyvc.values import SBytes
from dfir_ntfs import MFT

# ---- the path of one file, for any table: each lookup of a parent is abstracted by its own contract (P06)
class Names(object):
    """A base segment with given names and flags."""
    def __init__(self, flags, k, a, b):
        self.flags = flags
        self.k = k
        self.a = a
        self.b = b
    def attributes(self):
        if self.k > 0: yield MFT.AttributeRecordResident(0x30, None, self.a)
        if self.k > 1: yield MFT.AttributeRecordResident(0x30, None, self.b)
    def get_flags(self): return self.flags
FIRST = b'FILE' + bytes(24) + (1024).to_bytes(4, 'little')
def directory(n, seq):
    """(flags, number of names, two $FILE_NAME values) of the base record that a reference leads to.  Any function of the reference in the proof; natively, a fixed arbitrary one."""
    r = random.Random('%d/%d' % (n, seq))
    if r.random() < 0.12: raise MFT.MasterFileTableException('lost')
    def value():
        t = r.choice(WORDS)
        return struct.pack('<Q', r.randrange(4, 12) | r.randrange(2) << 48) + bytes(56) + bytes([len(t), r.randrange(4)]) + t.encode('utf-16le')
    return (r.choice([2, 3, 3, 3, 3, 0xFFFF, 0, 1]), r.choice([1, 1, 1, 2, 2, 2, 0]), value(), value())
def parent_record(n, seq):
    flags, k, a, b = directory(n, seq)
    return MFT.FileRecord(Names(flags, k, a, b), [])
class Parser(MFT.MasterFileTableParser):
    """A parser over any table: every lookup is decided by the reference alone (P06 decides what it gives on a real table)."""
    def get_file_record_by_number(self, n, seq=None, child=True): return parent_record(n, seq)
    def check_ntfs_version(self): return None
def real_one_path(value, more):
    p = Parser(io.BytesIO(FIRST), False)
    return p.build_full_paths(MFT.FileRecord(Names(1, 1, value, value), []), more is None)
def fn_name(v): return v[66:66 + 2 * v[64]].decode('utf-16le', errors='replace')
def fn_long(v): return v[65] == 0 or v[65] % 2 == 1
def up(out, parts, n, seq):
    """The names of the directories above, innermost first."""
    try: flags, k, a, b = directory(n, seq)
    except MFT.MasterFileTableException:
        parts.append(LOST)
        return out, parts
    if flags // 2 % 2 == 0:
        parts.append(LOST)
        return out, parts
    seen = set()
    seen.add(n)
    while True:
        if k == 0: raise MFT.MasterFileTableException('no names')
        v = a
        if k == 2 and not fn_long(a) and fn_long(b): v = b
        parts.append(fn_name(v))
        n = le(v, 0, 6)
        seq = le(v, 6, 2)
        if n in seen:
            parts.append(LOST)
            return out, parts
        seen.add(n)
        try: flags, k, a, b = directory(n, seq)
        except MFT.MasterFileTableException:
            parts.append(LOST)
            return out, parts
        if n == 5:
            parts.append('')
            return out, parts
        if flags // 2 % 2 == 0:
            parts.append(LOST)
            return out, parts
def spec_one_path(value, more):
    out = []
    parts = [fn_name(value)]
    n = le(value, 0, 6)
    if n == 5: parts.append('')
    else: out, parts = up(out, parts, n, le(value, 6, 2))
    parts.reverse()
    out.append('/'.join(parts))
    return out
def pre_one(value, more): return len(value) >= 66
def dir_value(ctx, name, args):
    import z3
    flags = ctx.fresh_int(name + '_flags'); ctx.assume(z3.And(flags >= 0, flags <= 65535))
    def v(t):
        n = ctx.fresh_int(name + t + '_len'); ctx.assume(n >= 66)
        return SBytes([(ctx.fresh_arr(name + t), 0, n)])
    k = ctx.fresh_int(name + '_k'); ctx.assume(z3.And(k >= 0, k <= 2))
    return (flags, k, v('a'), v('b'))
DIR = func_of('parent_record', MFT.MasterFileTableException, build=dir_value)
LOST = MFT.UNKNOWN_PATH_PLACEHOLDER
class Table(object):
    """A file table read once: what each number and expected sequence number gives."""
    def __init__(self, vol):
        version_of(vol)
        self.vol = vol
        self.size, self.total = table(vol)
        self.kids = children(vol)[0]
        self.memo = {}
    def get(self, n, seq=None):
        """(segments, flags) of a base record, or an error."""
        k = (n, seq)
        if k not in self.memo:
            try: d, _, cs = lookup(self.vol, self.kids, n, seq, False)
            except MFT.MasterFileTableException as e: self.memo[k] = None
            else: self.memo[k] = ([d] + [c for c, _ in cs], le(d, 22, 2), n)
        return self.memo[k]
def names(rec):
    """(flags, name, number of the parent, its sequence number) for each name, in the order of the attributes."""
    out = []
    for d in rec[0]:
        for a in spec_attrs(bytes(d)):
            if a[0] != 'resident' or a[1] != 0x30: continue
            v = a[3]
            out.append((v[65], v[66:66 + 2 * v[64]].decode('utf-16le', errors='replace'), le(v, 0, 6), le(v, 6, 2)))
    return out
def long(x): return x[0] == 0 or x[0] & 1 == 1
def climb(t, parts, parent, seq):
    """Path parts above a directory entry, innermost first, up to the root or to the point where the chain is lost."""
    rec = t.get(parent, seq)
    seen = {parent}
    while True:
        if rec is None or rec[1] & 2 == 0: return parts + [LOST]
        ns = names(rec)
        if ns == []: raise MFT.MasterFileTableException('no names')
        n = [x for x in ns if long(x)] or ns
        parts = parts + [n[0][1]]
        parent, seq = n[0][2], n[0][3]
        if parent in seen: return parts + [LOST]
        seen.add(parent)
        rec = t.get(parent, seq)
        if rec is not None and parent == 5: return parts + ['']
def paths(t, rec):
    ns = names(rec)
    out = []
    for x in [x for x in ns if long(x)][::-1] + [x for x in ns if not long(x)]:
        p = [x[1], ''] if x[2] == 5 else climb(t, [x[1]], x[2], x[3])
        out.append('/'.join(p[::-1]))
    return out
def real_paths(vol):
    p = MFT.MasterFileTableParser(vol)
    out = []
    for i in range(p.file_size // p.file_record_segment_size):
        try: r = p.get_file_record_by_number(i, None, False)
        except MFT.MasterFileTableException: continue
        try: out.append((i, p.build_full_paths(r), [(a, b.get_file_name()) for a, b in p.build_full_paths(r, True)]))
        except MFT.MasterFileTableException: out.append((i, 'error'))
    return out
def spec_paths(vol):
    t = Table(vol)
    out = []
    for i in range(t.total // t.size):
        r = t.get(i)
        if r is None: continue
        try: ps = paths(t, r)
        except MFT.MasterFileTableException: out.append((i, 'error'))
        else: 
            ns = names(r)
            out.append((i, ps, list(zip(ps, [x[1] for x in [x for x in ns if long(x)][::-1] + [x for x in ns if not long(x)]]))))
    return out

# ---- by path
def real_find(vol, path, case):
    r = MFT.MasterFileTableParser(vol).get_file_record_by_path(path, case)
    if r is None: return None
    return (r.get_master_file_table_number(), r.get_sequence_number(), bytes(r.base_frs.frs_data), len(r.child_frs_list))
def spec_find(vol, path, case):
    t = Table(vol)
    if path == '' or path[0] != '/' or path == '//': raise MFT.MasterFileTableException('path')
    folder = len(path) > 1 and path[-1] == '/'
    if folder: path = path[:-1]
    if path == '/':
        r = t.get(5)
        if r is None: raise MFT.MasterFileTableException('root')
        return seen(t, r)
    parts = path.split('/')[1:]
    if '' in parts[:-1] or '.' in parts[:-1] or '..' in parts[:-1]: raise MFT.MasterFileTableException('component')
    def same(a, b): return a == b if case else a.upper() == b.upper()
    def leads(parent, seq, rest):
        """The directory reference names the directory with these components (outermost first)."""
        if parent == 5: return rest == []
        r = t.get(parent, seq)
        if r is None or rest == []: return False
        for x in names(r):
            if same(x[1], rest[-1]): return leads(x[2], x[3], rest[:-1])
        return False
    for i in range(-(-t.total // t.size)):
        r = t.get(i)
        if r is None or r[1] & 1 == 0 or (folder and r[1] & 2 == 0): continue
        for x in names(r):
            if same(x[1], parts[-1]) and leads(x[2], x[3], parts[:-1]): return seen(t, r)
    return None
def seen(t, r):
    d = r[0][0]
    f = fields(d, le(d, 4, 2), r[2])
    return (f[12], f[2], bytes(d), len(r[0]) - 1)

# ---- generated tables
def fname(r, parent, seq, name, flags):
    v = struct.pack('<Q', parent | seq << 48) + bytes(32) + struct.pack('<QQLL', 0, 0, 0, 0) + bytes([len(name), flags]) + name.encode('utf-16le')
    return gens.resident_attr(r, 0x30, v, '')
WORDS = ['a', 'A', 'b', 'dir', 'x.txt', 'X.TXT', 'é', 'LONGNA~1', 'long name']
def tree(r):
    n = r.randrange(7, 16)
    isdir = {i: r.random() < 0.6 for i in range(n)}
    isdir[5] = True
    seqs = {i: r.choice([1, 1, 2, 3, 7, 0, 0xFFFF]) for i in range(n)}
    seqs[5] = 5
    live = {i: r.random() < 0.8 for i in range(n)}
    live[5] = r.random() < 0.97
    wild = r.random() < 0.4        # cycles, stale and damaged references
    par = {}
    for i in range(n):
        par[i] = r.choice([5, 5] + [j for j in range(4, n) if isdir[j] and (wild or j < i)])
    par[5] = 5
    kid = {}
    extra = {}
    def gen_of(j):
        if live[j]: return seqs[j]
        return 0xFFFF if seqs[j] == 0 else seqs[j] if seqs[j] == 1 else seqs[j] - 1
    def ref(j): return (j, gen_of(j) if not wild or r.random() < 0.9 else r.choice([seqs[j], seqs[j] + 1 & 0xFFFF, 1]))
    def entries(i):
        if i == 5: return [fname(r, 5, 5, '.', 3)]
        p = par[i]
        out = []
        w = r.choice(WORDS)
        k = r.random()
        if k < 0.2: out = [fname(r, *ref(p), 'SHORT~1', 2), fname(r, *ref(p), w, 1)]
        elif k < 0.3: out = [fname(r, *ref(p), w, 1), fname(r, *ref(p), 'SHORT~1', 2)]
        elif k < 0.35 and wild: out = []
        elif k < 0.4: out = [fname(r, *ref(p), 'ONLY~1', 2)]
        else: out = [fname(r, *ref(p), w, r.choice([0, 1, 3]))]
        if not isdir[i] and r.random() < 0.35: out.append(fname(r, *ref(r.choice([5] + [j for j in range(4, n) if isdir[j] and j != i])), r.choice([w, r.choice(WORDS)]), r.choice([0, 1])))
        return out
    spread = {}
    taken = set()
    for i in range(6, n):
        if r.random() < 0.15:
            j = r.randrange(6, n)
            if j != i and j not in spread.values() and i not in taken and j not in spread:
                spread[i] = j; taken.add(j); isdir[j] = False
    owner = {j: i for i, j in spread.items()}
    ents = {i: entries(i) for i in range(n)}
    def slot(r, size, i):
        if i in owner and not (i in spread):
            o = owner[i]
            attrs = ents[o][1:]
            return at_slot(r, size, i, base=o | gen_of(o) << 48 if o else 0, seq=1, flags=1, attrs=attrs)
        attrs = [gens.resident_attr(r, 0x10, bytes(72), '')] + (ents[i][:1] if i in spread else ents[i])
        b = at_slot(r, size, i, seq=seqs[i], flags=(1 if live[i] else 0) | (2 if isdir[i] else 0), attrs=attrs, base=0)
        if i == 5 and r.random() < 0.95:
            while True:
                try: spec_frs(b, True); break
                except MFT.MasterFileTableException: b = gens.frs(r, size=size, number=5, seq=5, flags=3, attrs=attrs)
        return b
    b = image(r, n, slot)
    return b, {i: par[i] for i in par}
def gen_paths(r): return {'vol': tree(r)[0]}
def gen_find(r):
    import io
    vol = tree(r)[0]
    try:
        t = Table(io.BytesIO(vol))
        all_paths = [x for i in range(t.total // t.size) if t.get(i) for x in paths(t, t.get(i))]
    except Exception: all_paths = []
    p = r.choice(all_paths) if all_paths else '/a'
    k = r.random()
    if k < 0.15: p += '/'
    elif k < 0.3: p = p.swapcase()
    elif k < 0.35: p = r.choice(['', '/', '//', 'a', '/./a', '/../a', '/a//b', '/.', '///'])
    elif k < 0.45: p = '/' + '/'.join(r.choice(WORDS) for _ in range(r.randrange(1, 4)))
    return {'vol': vol, 'path': p, 'case': r.random() < 0.4}
REC = 'current_file_record.base_frs.'
def gen_one(r):
    t = r.choice(WORDS)
    return {'value': struct.pack('<Q', r.randrange(4, 12) | r.randrange(2) << 48) + bytes(56) + bytes([len(t) + r.choice([0, 0, 0, 9]), r.randrange(4)]) + t.encode('utf-16le'), 'more': 0}
ABS = {'contracts.p08.directory': DIR}
P = ['MFT.MasterFileTableParser.build_full_paths', 'MFT.MasterFileTableParser.get_file_record_by_number']
CONTRACTS = [
    Contract('one_path', P[:1], {'value': Bytes(), 'more': Const(0)}, real_one_path, spec_one_path, pre=pre_one, gen=gen_one, abstracts=ABS,
             loops=[Loop({'out': 'paths', 'parts': 'path_components', 'seen': 'track', 'flags': REC + 'flags', 'k': REC + 'k', 'a': REC + 'a', 'b': REC + 'b'}, inv=lambda k, a, b: 0 <= k and k <= 2 and len(a) >= 66 and len(b) >= 66, func='up')]),
    Contract('full_paths', P, {'vol': File()}, real_paths, spec_paths, gen=gen_paths, bounded=True, weight=2, note='generated tables of up to 15 segments: nested, cyclic, stale, released and damaged parents, several names, names in child segments'),
    Contract('record_by_path', ['MFT.MasterFileTableParser.get_file_record_by_path'], {'vol': File(), 'path': Const(''), 'case': Bool()}, real_find, spec_find, gen=gen_find, bounded=True, weight=2,
             note='the same tables; paths that exist, in any case, and others'),
]
