"""P19: the virtual volume of a shadow copy reads as one flat, bounded byte string."""
import io, random, struct, uuid
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from pyvc.values import SBytes, SList, OpaqueSeq
from contracts.speclib import le, sle
from contracts import gens, p18
from dfir_ntfs import ShadowCopy as S

B = 0x4000
def small(local):
    """A volume with one empty store."""
    g = bytes(range(16))
    r = random.Random(1)
    i2 = p18.mk_item2(r, 9 * B, g, 1, 0x400)
    i3 = p18.mk_item3(r, g, 0, 0, 0, 0, 0)
    if local: return p18.mk_start(r, B) + bytes(B - 8192) + p18.mk(2, 0, B, 0, i2 + i3), b''
    return p18.mk_start(r, B, False) + bytes(B - 8192) + p18.mk(2, 0, B, 0, i2), p18.mk_start(r, B) + bytes(B - 8192) + p18.mk(2, 0, B, 0, i3)
ONE = small(True)[0]
TWO = small(False)
def selected(two):
    if two: p = S.ShadowParserTwoVolumes(io.BytesIO(TWO[0]), io.BytesIO(TWO[1]))
    else: p = S.ShadowParser(io.BytesIO(ONE))
    p.select_shadow(1)
    return p

# ---- position and length
def end_of(size, vsize):
    if vsize is not None and vsize < size: return vsize
    return size
def real_seek(two, size, vsize, a, b, whence):
    p = selected(two)
    p.current_volume_size = size
    p.volume_size = vsize
    p.seek(a)
    try: r = p.seek(b, whence)
    except ValueError: return ('rejected', p.tell())
    return (r, p.tell())
def spec_seek(two, size, vsize, a, b, whence):
    if whence == 0: at = b
    elif whence == 1: at = a + b
    elif whence == 2: at = end_of(size, vsize) + b
    else: return ('rejected', a)
    if at < 0: return ('rejected', a)
    return (at, at)
def real_unselected(two, what):
    p = S.ShadowParserTwoVolumes(io.BytesIO(TWO[0]), io.BytesIO(TWO[1])) if two else S.ShadowParser(io.BytesIO(ONE))
    if what == 0: p.read(1)
    elif what == 1: p.seek(0)
    elif what == 2: p.tell()
    elif what == 3: p.translate_exact_offset(0)
    else: p.read_at_exact_offset(0)
def spec_unselected(two, what): raise ValueError('no shadow copy selected')

# ---- reading: any content of the blocks
def blk(p, at): return p.read_at_exact_offset(at)
def real_read(two, size, vsize, pos, n):
    p = selected(two)
    p.current_volume_size = size
    p.volume_size = vsize
    p.seek(pos)
    data = p.read(n) if n is not None else p.read()
    return (data, p.tell())
def wanted(end, pos, n):
    left = end - pos
    if left < 0: left = 0
    if n is None or n < 0 or n > left: return left
    return n
def spec_read(two, size, vsize, pos, n):
    p = selected(two)
    p.current_volume_size = size
    p.volume_size = vsize
    n = wanted(end_of(size, vsize), pos, n)
    if n == 0: return (b'', pos)
    o = pos % B
    data = blk(p, pos - o)[o:o + n]
    at = pos + len(data)
    left = n - len(data)
    while left > 0:
        o = at % B
        new = blk(p, at - o)[o:o + left]
        at = at + len(new)
        data = data + new
        left = n - len(data)
        if len(new) != B: break
    return (data, at)
def bld(ctx, name, args):
    l = ctx.fresh_int(name + '_len')
    ctx.assume(z3.And(l >= 0, l <= B))
    return SBytes([(ctx.fresh_arr(name), 0, l)])
only = lambda a: [a[1]]
ABS = {'dfir_ntfs.ShadowCopy.ShadowParser.read_at_exact_offset': func_of('block', None, bld, only),
       'dfir_ntfs.ShadowCopy.ShadowParserTwoVolumes.read_at_exact_offset': func_of('block', None, bld, only)}

# ---- one block: any translation
def elem1(ctx, name, i):
    if ctx.decide(int_fn(name + '_kind', i) == 0): return None
    l = int_fn(name + '_at', i)
    ctx.assume(l >= 0)
    return l
def elem2(ctx, name, i):
    if ctx.decide(int_fn(name + '_kind', i) == 0): return (None, None)
    l = int_fn(name + '_at', i)
    ctx.assume(l >= 0)
    return (ctx.decide(int_fn(name + '_kind', i) == 1), l)
def bld_list(elem):
    def b(ctx, name, args):
        n = ctx.fresh_int(name + '_len')
        ctx.assume(z3.And(n >= 0, n <= 32))
        return ctx.born(SList((), OpaqueSeq(name, n, lambda it, i: elem(it.ctx, name, i))))
    return b
ABST = {'dfir_ntfs.ShadowCopy.ShadowParser.translate_exact_offset': func_of('sectors', None, bld_list(elem1), only)}
ABST2 = {'dfir_ntfs.ShadowCopy.ShadowParserTwoVolumes.translate_exact_offset': func_of('sectors2', None, bld_list(elem2), only)}
def real_block(vol, base, at):
    p = selected(False)
    p.volume_object = vol
    p.volume_offset = base
    return p.read_at_exact_offset(at)
def spec_block(vol, base, at):
    data = b''
    for where in selected(False).translate_exact_offset(at):
        if where is None: data = data + bytes(512)
        else:
            vol.seek(base + where)
            new = vol.read(512)
            data = data + new
            if len(new) != 512: break
    return data
def real_block2(vol, meta, base, mbase, at):
    p = selected(True)
    p.volume_object = vol
    p.volume_offset = base
    p.volume_storage_object = meta
    p.volume_storage_offset = mbase
    return p.read_at_exact_offset(at)
def spec_block2(vol, meta, base, mbase, at):
    data = b''
    for stored, where in selected(True).translate_exact_offset(at):
        if where is None: data = data + bytes(512)
        else:
            if stored:
                meta.seek(mbase + where)
                new = meta.read(512)
            else:
                vol.seek(base + where)
                new = vol.read(512)
            data = data + new
            if len(new) != 512: break
    return data

# ---- the bitmaps
def real_bitmap(cur, prev, at, both):
    p = selected(False)
    p.current_bitmap = cur
    p.current_previous_bitmap = prev
    return p.check_bitmap(at, both)
def bit(bm, at):
    k = at // B
    if k // 8 >= len(bm): return None
    return bm[k // 8] // 2 ** (k % 8) % 2 == 1
def unused(cur, prev, at, both):
    a = bit(cur, at)
    if a is None: a = False
    if not both: return a
    b = bit(prev, at)
    if b is None: return a
    return a and b
def spec_bitmap(cur, prev, at, both): return unused(cur, prev, at, both)

# ---- the whole view, from the bytes of the volume
def original(at): return [(False, at + 512 * i) for i in range(32)]
NOTHING = [None] * 32
def beyond(st, k, at, vsize, forwarded):
    """Where a block is found when store k does not hold it."""
    if k + 1 < len(st): return places(st, k + 1, at, vsize, True, forwarded)
    s = st[k]
    if s['null'] and not forwarded and unused(s['bitmap'], s['previous'], at, True): return NOTHING
    return original(at)
def places(st, k, at, vsize, redirected, forwarded):
    """Where the 32 sectors of the block at an offset are, seen from store k of the stack."""
    if at % B != 0 or (vsize is not None and at >= vsize): raise ValueError('offset')
    s = st[k]
    mine = [e for e in s['entries'] if e[0] == at]
    forward = [e for e in mine if e[3] % 2 == 1 and e[1] != at]
    overlay = [e for e in mine if e[3] // 2 % 2 == 1]
    regular = [e for e in mine if e not in forward and e not in overlay]
    last = k + 1 == len(st)
    elsewhere = any(e[0] == at and e[3] // 2 % 2 == 0 for t in st[k + 1:] for e in t['entries'])
    free = unused(s['bitmap'], s['previous'], at, True)
    targets = [e[1] for e in s['entries'] if e[3] % 2 == 1 and unused(s['bitmap'], s['previous'], e[1], True)]
    shown = [] if redirected else overlay
    if forward and not regular and not shown: return beyond(st, k, forward[-1][1], vsize, True)
    if not regular and not forwarded and at in targets and not last and not elsewhere and s['null']: return NOTHING
    if not mine and free and not last and not elsewhere and s['null']: return NOTHING
    if regular: base = [(True, regular[-1][2] + 512 * i) for i in range(32)]
    elif forward: base = beyond(st, k, forward[-1][1], vsize, True)
    elif not shown: base = beyond(st, k, at, vsize, False)
    elif not last and elsewhere: base = beyond(st, k, at, vsize, False)
    elif free and s['null']: base = NOTHING
    else: base = original(at)
    out = list(base)
    for e in shown:
        for i in range(32):
            if e[4] >> i & 1: out[i] = (True, e[2] + 512 * i)
    return out
def flat(vol, meta, base, mbase, st, vsize, pos, n):
    end = end_of(st[0]['size'], vsize)
    n = wanted(end, pos, n)
    data = b''
    while len(data) < n:
        at = pos + len(data)
        w = b''
        for x in places(st, 0, at - at % B, vsize, False, False):
            if x is None: w = w + bytes(512); continue
            f = meta if x[0] else vol
            f.seek((mbase if x[0] else base) + x[1])
            d = f.read(512)
            w = w + d
            if len(d) != 512: break
        o = at % B
        take = min(B - o, n - len(data))
        data = data + w[o:o + take]
        if len(w) < o + take: break
    return (data, pos + len(data))
def store_of(st): return st
def real_view(vol, base, vsize, n, pos, size):
    p = S.ShadowParser(vol, base, vsize)
    p.select_shadow(n)
    p.seek(pos)
    return (p.read(size), p.tell())
def spec_view(vol, base, vsize, n, pos, size):
    items = p18.items_of(vol, base)
    g = p18.at_position(items, n)
    if g is None: raise S.ShadowCopyNotFoundException('not found')
    return flat(vol, vol, base, base, p18.stack(vol, vol, base, base, items, items, g), vsize, pos, size)
def pre_view(vol, base, vsize, n, pos, size): return p18.distinct(vol, base) and pos >= 0
def real_view2(vol, meta, base, mbase, vsize, n, pos, size):
    p = S.ShadowParserTwoVolumes(vol, meta, base, vsize, mbase)
    p.select_shadow(n)
    p.seek(pos)
    return (p.read(size), p.tell())
def spec_view2(vol, meta, base, mbase, vsize, n, pos, size):
    items2 = p18.items_of(vol, base)
    items3 = p18.items_of(meta, mbase)
    g = p18.at_position(items2, n)
    if g is None: raise S.ShadowCopyNotFoundException('not found')
    return flat(vol, meta, base, mbase, p18.stack(vol, meta, base, mbase, items2, items3, g), vsize, pos, size)
def pre_view2(vol, meta, base, mbase, vsize, n, pos, size): return p18.distinct(vol, base) and pos >= 0

# ---- generators
def g_range(r, nb):
    return r.choice([0, r.randrange(nb) * B, r.randrange(nb * B), nb * B - r.randrange(2 * B)]), r.choice([None, None, -1, r.randrange(1000), B, nb * B, r.randrange(nb * B), 0])
def gen_view(r):
    nb = r.choice([3, 6])
    v, _, k = p18.volume(r, True, nb)
    base = r.choice([0, 0, 512])
    pos, n = g_range(r, nb)
    return {'vol': bytes(base) + v, 'base': base, 'vsize': r.choice([None, None, nb * B, nb * B - 512, nb * B - B]), 'n': r.randrange(1, k + 1), 'pos': pos, 'size': n}
def gen_view2(r):
    nb = r.choice([3, 6])
    v, m, k = p18.volume(r, False, nb)
    base, mbase = r.choice([0, 0, 512]), r.choice([0, 0, 1024])
    pos, n = g_range(r, nb)
    return {'vol': bytes(base) + v, 'meta': bytes(mbase) + m, 'base': base, 'mbase': mbase, 'vsize': r.choice([None, None, nb * B, nb * B - 512, nb * B - B]), 'n': r.randrange(1, k + 1), 'pos': pos, 'size': n}
def gen_read(r):
    pos, n = g_range(r, 3)
    return {'two': r.random() < 0.5, 'size': r.choice([3 * B, 2 * B + 512, 2 * B + 5, 100]), 'vsize': r.choice([None, 3 * B, 2 * B, B + 7]), 'pos': pos, 'n': n}
def gen_seek(r): return {'two': r.random() < 0.5, 'size': r.randrange(1000), 'vsize': r.choice([None, r.randrange(1000)]), 'a': r.randrange(1000), 'b': r.randrange(-1500, 1500), 'whence': r.choice([0, 1, 2, 3, -1])}
def gen_block(r): return {'vol': gens.rb(r, r.choice([0, 512, 5000, 40000])), 'base': r.choice([0, 512]), 'at': r.randrange(3) * B}
def gen_block2(r): return dict(gen_block(r), meta=gens.rb(r, 5000), mbase=0)
def gen_bitmap(r): return {'cur': gens.rb(r, r.randrange(4)), 'prev': gens.rb(r, r.randrange(4)), 'at': r.randrange(40 * B), 'both': r.random() < 0.7}
def gen_uns(r): return {'two': r.random() < 0.5, 'what': r.randrange(5)}
SP, ST = 'ShadowCopy.ShadowParser.', 'ShadowCopy.ShadowParserTwoVolumes.'
U = ('__init__', 'select_shadow', 'items', 'read_diff_area', 'read_bitmap', 'read_previous_bitmap', 'read_location_description_items', 'selected')
SZ = Int(0, 1 << 64)
CONTRACTS = [
    Contract('view_seek', [SP + 'seek', SP + 'tell'], {'two': Bool(), 'size': SZ, 'vsize': Opt(SZ), 'a': SZ, 'b': Int(), 'whence': Int(-2, 4)}, real_seek, spec_seek, gen=gen_seek, unroll=U),
    Contract('view_unselected', [SP + 'read', SP + 'seek', SP + 'tell'], {'two': Bool(), 'what': Enum(0, 1, 2, 3, 4)}, real_unselected, spec_unselected, gen=gen_uns, unroll=U),
    Contract('view_read', [SP + 'read', ST + 'read'], {'two': Bool(), 'size': SZ, 'vsize': Opt(SZ), 'pos': SZ, 'n': Opt(Int())}, real_read, spec_read, abstracts=ABS, gen=gen_read, unroll=U,
             loops=[Loop({'at': 'self.current_offset', 'data': 'data', 'left': 'bytes_left'}, inv=lambda at, data, left, pos, n: at == pos + len(data) and at >= 0 and left == n - len(data) and left >= 0, variant=lambda left: left)]),
    Contract('view_block', [SP + 'read_at_exact_offset'], {'vol': File(), 'base': SZ, 'at': SZ}, real_block, spec_block, abstracts=ABST, gen=gen_block, unroll=U, loops=[Loop({'data': 'data'})]),
    Contract('view_block_two', [ST + 'read_at_exact_offset'], {'vol': File(), 'meta': File(), 'base': SZ, 'mbase': SZ, 'at': SZ}, real_block2, spec_block2, abstracts=ABST2, gen=gen_block2, unroll=U, loops=[Loop({'data': 'data'})]),
    Contract('view_bitmap', [SP + 'check_bitmap'], {'cur': Bytes(), 'prev': Bytes(), 'at': SZ, 'both': Bool()}, real_bitmap, spec_bitmap, gen=gen_bitmap, unroll=U),
    Contract('view_whole', [SP + 'translate_exact_offset', SP + 'read', SP + 'select_shadow'], {'vol': File(), 'base': SZ, 'vsize': Opt(SZ), 'n': SZ, 'pos': SZ, 'size': Opt(Int())}, real_view, spec_view, pre=pre_view, gen=gen_view, bounded=True, search_n=400, note='generated stacks of up to three stores'),
    Contract('view_whole_two', [ST + 'translate_exact_offset', ST + 'read', ST + 'select_shadow'], {'vol': File(), 'meta': File(), 'base': SZ, 'mbase': SZ, 'vsize': Opt(SZ), 'n': SZ, 'pos': SZ, 'size': Opt(Int())}, real_view2, spec_view2, pre=pre_view2, gen=gen_view2, bounded=True, search_n=400, note='generated stacks of up to three stores on another volume'),
]
