"""P05: a fragmented file reads as one flat byte string."""
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from pyvc.values import SBytes
from contracts import gens
from dfir_ntfs import MFT

def run_elem(ctx, name, i):
    n = int_fn(name + '_len', i); ctx.assume(n >= 1)
    if ctx.decide(int_fn(name + '_kind', i) == 0): return (None, n)
    l = int_fn(name + '_lcn', i); ctx.assume(l >= 0)
    return (l, n)
def run_conc(ctx, model, name, i):
    n = ev_int(model, int_fn(name + '_len', i))
    if n < 1: n = 1
    if ev_int(model, int_fn(name + '_kind', i)) == 0: return (None, n)
    return (max(0, ev_int(model, int_fn(name + '_lcn', i))), n)
Runs = Seq(run_elem, run_conc)

def real_cluster(vol, voff, cs, runs, vcn):
    f = MFT.FragmentedFile(vol, voff, cs, runs, cs * (vcn + 1))
    return f.read_virtual_cluster(vcn)

def cluster(vol, voff, cs, runs, vcn):
    """Content of virtual cluster vcn."""
    first = 0
    for run in runs:
        if vcn < first + run[1]:
            if run[0] is None: return b'\x00' * cs
            vol.seek(voff + (run[0] + vcn - first) * cs)
            data = vol.read(cs)
            if len(data) != cs: raise MFT.MasterFileTableException('short')
            return data
        first = first + run[1]
    raise MFT.MasterFileTableException('beyond the runs')

def spec_cluster(vol, voff, cs, runs, vcn):
    return cluster(vol, voff, cs, runs, vcn)

def real_read(vol, voff, cs, runs, size, pos, n):
    f = MFT.FragmentedFile(vol, voff, cs, runs, size)
    f.seek(pos)
    data = f.read(n) if n is not None else f.read()
    return (data, f.tell())

def wanted(size, pos, n):
    left = size - pos
    if left < 0: left = 0
    if n is None or n < 0 or n > left: return left
    return n

# chunk by chunk, the first chunk peeled
def spec_read(vol, voff, cs, runs, size, pos, n):
    end = pos + wanted(size, pos, n)
    if end == pos: return (b'', pos)
    o = pos % cs
    take = end - pos
    if take > cs - o: take = cs - o
    data = cluster(vol, voff, cs, runs, pos // cs)[o:o + take]
    at = pos + take
    left = end - at
    while at < end:
        o = at % cs
        take = end - at
        if take > cs - o: take = cs - o
        data = data + cluster(vol, voff, cs, runs, at // cs)[o:o + take]
        at = at + take
        left = end - at
    return (data, at)
# the same, not peeled
def spec_read_2(vol, voff, cs, runs, size, pos, n):
    end = pos + wanted(size, pos, n)
    data = b''
    at = pos
    left = end - at
    while at < end:
        o = at % cs
        take = end - at
        if take > cs - o: take = cs - o
        data = data + cluster(vol, voff, cs, runs, at // cs)[o:o + take]
        at = at + take
        left = end - at
    return (data, at)

def real_seek(size, a, b, whence):
    f = MFT.FragmentedFile(None, 0, 512, [], size)
    f.seek(a)
    try:
        r = f.seek(b, whence)
    except ValueError:
        return ('rejected', f.tell())
    return (r, f.tell())
def spec_seek(size, a, b, whence):
    if whence == 0: p = b
    elif whence == 1: p = a + b
    elif whence == 2: p = size + b
    else: return ('rejected', a)
    if p < 0: return ('rejected', a)
    return (p, p)

def bld(ctx, name, args):
    return SBytes([(ctx.fresh_arr(name), 0, args[0])])
ABS = {'dfir_ntfs.MFT.FragmentedFile.read_virtual_cluster': func_of('virtual_cluster', MFT.MasterFileTableException, bld, lambda a: [a[0].attrs['cluster_size'], a[1]]),
       'contracts.p05.cluster': func_of('virtual_cluster', MFT.MasterFileTableException, bld, lambda a: [a[2], a[4]])}

def gen_file(r):
    cs = r.choice([1, 2, 4, 8])
    vol = gens.rb(r, r.randrange(0, 200))
    runs = [(r.choice([None, r.randrange(0, 12), r.randrange(0, 30)]), r.randrange(1, 4)) for _ in range(r.randrange(0, 5))]
    tot = sum(x[1] for x in runs) * cs
    return {'vol': vol, 'voff': r.choice([0, 0, 3, 16]), 'cs': cs, 'runs': runs, 'size': max(0, tot - r.randrange(0, cs + 1)) if r.random() < 0.8 else r.randrange(0, tot + 9)}
def gen_read(r):
    d = gen_file(r)
    d['pos'] = r.choice([0, r.randrange(0, d['size'] + 3)]); d['n'] = r.choice([None, -1, 0, 1, d['cs'], r.randrange(0, d['size'] + 5)])
    return d
def gen_cluster(r):
    d = gen_file(r); d.pop('size'); d['vcn'] = r.randrange(0, 8)
    return d
def gen_seek(r):
    return {'size': r.randrange(100), 'a': r.randrange(120), 'b': r.randrange(-130, 130), 'whence': r.choice([0, 1, 2, 3, -1])}

IN = {'vol': File(), 'voff': Int(0), 'cs': Int(1), 'runs': Runs}
CONTRACTS = [
    Contract('fragmented_cluster', ['MFT.FragmentedFile.read_virtual_cluster'], dict(IN, vcn=Int(0)), real_cluster, spec_cluster, gen=gen_cluster,
             loops=[Loop({'first': 'clusters_skipped', '@iter': '@iter'}, inv=lambda first, vcn: first >= 0 and first <= vcn, func='cluster')]),
    Contract('fragmented_read', ['MFT.FragmentedFile.read', 'MFT.FragmentedFile.seek', 'MFT.FragmentedFile.tell'], dict(IN, size=Int(0), pos=Int(0), n=Opt(Int())), real_read, spec_read, gen=gen_read, abstracts=ABS,
             loops=[Loop({'at': 'self.current_offset_in_file', 'data': 'data', 'left': 'bytes_left'}, optional=['left'], inv=lambda at, end, pos, data, left: left == end - at and at > pos and at <= end and len(data) == at - pos, variant=lambda at, end: end - at)],
             alts=[(spec_read_2, [Loop({'at': 'self.current_offset_in_file', 'data': 'data', 'left': 'bytes_left'}, optional=['left'], inv=lambda at, end, pos, data, left: left == end - at and at >= pos and at <= end and len(data) == at - pos, variant=lambda at, end: end - at)])]),
    Contract('fragmented_seek', ['MFT.FragmentedFile.seek', 'MFT.FragmentedFile.tell'], {'size': Int(0), 'a': Int(0), 'b': Int(), 'whence': Int()}, real_seek, spec_seek, gen=gen_seek),
]
