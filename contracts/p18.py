"""P18: the on-disk structures of shadow copies."""
import io, struct, uuid
from pyvc.driver import Contract, Loop
from pyvc.shapes import *
from pyvc.abstract import func_of
from contracts.speclib import le, sle
from contracts import gens
from dfir_ntfs import Attributes, ShadowCopy as S

SIG = bytes.fromhex('6b87083876c1484eb7ae04046e6cc752')
ABS = {'dfir_ntfs.Attributes.DecodeFiletime': func_of('filetime')}
def guid(b, at): return uuid.UUID(bytes_le=bytes(b[at:at + 16]))

# ---- blocks
def common(b):
    return (guid(b, 0), le(b, 16, 4), le(b, 20, 4), le(b, 24, 8), le(b, 32, 8), le(b, 40, 8))
def real_start(b):
    s = S.StartBlock(b)
    return (s.get_diff_area_guid_raw(), s.get_version(), s.get_type(), s.get_first_control_block_offset(), s.get_max_diff_area_size(), s.get_volume_guid(), s.get_storage_guid(), s.is_storage_local(), s.get_application_flags(),
            s.get_free_space_precopy_percentage(), s.get_hot_blocks_precopy_percentage(), s.get_hot_blocks_days(), s.get_protection_flags(), s.is_supported_volume())
def check_start(b):
    if len(b) != 8192: raise S.ShadowCopyException('size')
    if b[3:7] != b'NTFS' and b[3:7] != b'ReFS': raise S.InvalidVolume('volume')
    if b[7680:7696] != SIG or le(b, 7704, 8) != 7680 or le(b, 7712, 8) != 7680 or le(b, 7720, 8) != 0 or le(b, 7700, 4) != 1: raise S.ShadowCopyException('start block')
def first_control_block(b):
    at = le(b, 7728, 8)
    if at % 0x4000 != 0: raise S.ShadowCopyException('offset')
    return at
def spec_start(b):
    check_start(b)
    return (SIG, le(b, 7696, 4), 1, first_control_block(b), le(b, 7736, 8), guid(b, 7744), guid(b, 7760), b[7744:7760] == b[7760:7776], le(b, 7776, 8), le(b, 7784, 8), le(b, 7792, 8), le(b, 7800, 4), le(b, 7804, 4), True)

def block(b, kind):
    if len(b) != 0x4000 or b[0:16] != SIG or le(b, 20, 4) != kind: raise S.ShadowCopyException('block')
def control_block(b):
    block(b, 2)
    if le(b, 24, 8) % 0x4000 != 0: raise S.ShadowCopyException('relative offset')
def real_control(b):
    c = S.ControlBlock(b)
    return (c.get_diff_area_guid(), c.get_version(), c.get_type(), c.get_relative_offset(), c.get_volume_offset(), c.get_next_control_block_volume_offset())
def spec_control(b):
    control_block(b)
    return common(b)
def real_bitmap(b):
    c = S.Bitmap(b)
    return (c.get_diff_area_guid(), c.get_version(), c.get_type(), c.get_offset_1(), c.get_volume_offset(), c.get_next_volume_offset(), c.get_bitmap())
def spec_bitmap(b):
    block(b, 6)
    return common(b) + (b[128:],)
def real_appinfo(b):
    c = S.ApplicationInformation(b)
    return (c.get_diff_area_guid(), c.get_version(), c.get_type(), c.get_offset_1(), c.get_volume_offset(), c.get_offset_3(), c.get_application_information())
def spec_appinfo(b):
    block(b, 4)
    return common(b) + (b[128:],)
def real_locations(b):
    c = S.LocationDescription(b)
    return ((c.get_diff_area_guid(), c.get_version(), c.get_type(), c.get_offset_1(), c.get_volume_offset(), c.get_next_volume_offset()), c.get_location_description_items())
def locations(b):
    block(b, 5)
    out = []
    at = 128
    while at + 24 <= len(b):
        if le(b, at, 8) == 0: break
        if le(b, at + 16, 8) == 0: raise S.ShadowCopyException('size')
        out.append(S.LocationDescriptionItems(le(b, at, 8), le(b, at + 8, 8), le(b, at + 16, 8)))
        at = at + 24
    return out
def spec_locations(b):
    items = locations(b)
    return (common(b), items)
def real_diff(b):
    c = S.DiffAreaTable(b)
    return ((c.get_diff_area_guid(), c.get_version(), c.get_type(), c.get_offset_1(), c.get_volume_offset(), c.get_next_volume_offset()), c.get_diff_area())
def diff(b):
    block(b, 3)
    out = []
    at = 128
    while at + 32 <= len(b):
        original = le(b, at, 8)
        where = le(b, at + 16, 8)
        flags = le(b, at + 24, 4)
        if original % 0x4000 != 0 or where % 0x4000 != 0 or flags > 255: raise S.ShadowCopyException('entry')
        if flags % 4 == 3: raise S.ShadowCopyException('flags')
        if where == 0 and flags == 0: break
        if flags // 4 % 2 == 0: out.append(S.OnDiskTableEntry(original, le(b, at + 8, 8), where, flags, le(b, at + 28, 4)))
        at = at + 32
    return out
def spec_diff(b):
    items = diff(b)
    return (common(b), items)

# ---- items of control blocks
def view2(i): return (2, i.get_item_type(), i.get_snapshot_priority(), i.get_volume_size(), i.get_store_guid(), i.get_stack_position(), i.get_flags(), i.get_timestamp(), i.get_unknown_56())
def view3(i): return (3, i.get_item_type(), i.get_diff_area_block_offset(), i.get_store_guid(), i.get_application_information_block_offset(), i.get_location_description_block_offset(), i.get_bitmap_offset(), i.get_file_reference(), i.get_allocation_size(), i.get_previous_bitmap_offset(), i.get_unknown_80())
def item2(b):
    if len(b) != 128 or le(b, 0, 4) != 2 or le(b, 8, 8) == 0: raise S.ShadowCopyException('item')
    return (2, 2, b[4], le(b, 8, 8), guid(b, 16), le(b, 32, 8), le(b, 40, 8), Attributes.DecodeFiletime(le(b, 48, 8)), le(b, 56, 2))
def item3(b):
    if len(b) != 128 or le(b, 0, 4) != 3: raise S.ShadowCopyException('item')
    return (3, 3, le(b, 8, 8), guid(b, 16), le(b, 32, 8), le(b, 40, 8), le(b, 48, 8), le(b, 56, 8), le(b, 64, 8), le(b, 72, 8), le(b, 80, 4))
def real_item2(b): return view2(S.ControlBlockItem2(b))
def spec_item2(b): return item2(b)
def real_item3(b): return view3(S.ControlBlockItem3(b))
def spec_item3(b): return item3(b)
def real_items(b):
    for i in S.ControlBlock(b).items():
        if type(i) is S.ControlBlockItem2: yield view2(i)
        else: yield view3(i)
def spec_items(b):
    control_block(b)
    at = 128
    while at < 0x4000:
        kind = le(b, at, 4)
        if kind == 0: return
        if kind > 3: raise S.ShadowCopyException('item type')
        if kind == 2: yield item2(b[at:at + 128])
        if kind == 3: yield item3(b[at:at + 128])
        at = at + 128

# ---- the volume: the chain of control blocks and the shadow copies in it
def opened(vol, base):
    vol.seek(base)
    b = vol.read(8192)
    try: check_start(b)
    except S.ShadowCopyException: raise S.ShadowCopiesDisabledException('disabled')
    return b
def info(b):
    return (le(b, 32, 8), Attributes.DecodeFiletime(le(b, 48, 8)), guid(b, 16), le(b, 8, 8))
def real_shadows(vol, base):
    for i in S.ShadowParser(vol, base).shadows(): yield tuple(i)
def blocks_of(vol, base):
    at = first_control_block(opened(vol, base))
    blocks = []
    seen = set()
    while at != 0 and at not in seen:
        seen.add(at)
        vol.seek(base + at)
        b = vol.read(0x4000)
        control_block(b)
        if le(b, 32, 8) != at: break
        blocks.append(b)
        at = le(b, 40, 8)
    return blocks
def spec_shadows(vol, base):
    for b in blocks_of(vol, base):
        at = 128
        while at < 0x4000:
            kind = le(b, at, 4)
            if kind == 0: break
            if kind > 3: raise S.ShadowCopyException('item type')
            if kind == 2:
                item2(b[at:at + 128])
                yield info(b[at:at + 128])
            if kind == 3: item3(b[at:at + 128])
            at = at + 128
def pre_one(vol, base):
    """One control block at most."""
    vol.seek(base)
    b = vol.read(8192)
    if len(b) == 8192 and le(b, 7728, 8) % 0x4000 == 0 and le(b, 7728, 8) != 0:
        at = le(b, 7728, 8)
        vol.seek(base + at)
        c = vol.read(0x4000)
        if len(c) == 0x4000 and (le(c, 40, 8) != 0 and le(c, 40, 8) != at) and le(c, 32, 8) == at: return False
    return True

# ---- the metadata of a selected shadow copy
def chain(vol, base, at, kind):
    out = []
    seen = set()
    while at != 0 and at not in seen:
        seen.add(at)
        vol.seek(base + at)
        b = vol.read(0x4000)
        block(b, kind)
        if le(b, 32, 8) != at: break
        out.append(b)
        at = le(b, 40, 8)
    return out
def items_of(vol, base):
    blocks = blocks_of(vol, base)
    out = []
    for b in blocks:
        for at in range(128, 0x4000, 128):
            kind = le(b, at, 4)
            if kind == 0: break
            if kind > 3: raise S.ShadowCopyException('item type')
            if kind == 2: item2(b[at:at + 128])
            if kind == 3: item3(b[at:at + 128])
            if kind > 1: out.append(b[at:at + 128])
    return out
def bitmap_of(vol, base, at, size):
    r = b''
    for b in chain(vol, base, at, 6): r = r + b[128:]
    return r[:((size + 0x3FFF) // 0x4000 + 7) // 8]
def entries_of(vol, base, at):
    """Diff area entries in their effective order: forwarders redirect one later regular entry of their target; a self-forwarder removes the earlier regular entries of its block."""
    out = []
    redirect = {}
    todo = []
    at0 = at
    seen = set()
    while at != 0 and at not in seen:
        seen.add(at)
        vol.seek(base + at)
        b = vol.read(0x4000)
        block(b, 3)
        if le(b, 32, 8) != at: break
        todo.extend(diff(b))
        at = le(b, 40, 8)
    for (o, s, w, f, a) in todo:
        if o in redirect and f // 2 % 2 == 0:
            new = redirect[o]
            del redirect[o]
            o = new
        if f % 2 == 1:
            if o == s: out = [x for x in out if x[0] != o or x[3] % 4 != 0]
            else: redirect[s] = o
        out.append((o, s, w, f, a))
    return [x for _, x in sorted(enumerate(out), key=lambda p: (p[1][0], p[0]))]
def store(vol, meta, base, mbase, items2, items3, g):
    """Everything known of one store."""
    t2 = [i for i in items2 if le(i, 0, 4) == 2 and guid(i, 16) == g]
    t3 = [i for i in items3 if le(i, 0, 4) == 3 and guid(i, 16) == g]
    if len(t2) != len(t3): raise S.ShadowCopyException('items')
    if len(t2) == 0: raise S.ShadowCopyNotFoundException('not found')
    if len(t2) > 1: raise S.ShadowCopyException('items')
    a = t2[0]
    b = t3[0]
    size = le(a, 8, 8)
    bm = bitmap_of(meta, mbase, le(b, 48, 8), size)
    pbm = bitmap_of(meta, mbase, le(b, 72, 8), size)
    loc = []
    for c in chain(meta, mbase, le(b, 40, 8), 5): loc = loc + locations(c)
    app = b''
    if le(b, 32, 8) > 0:
        meta.seek(mbase + le(b, 32, 8))
        c = meta.read(0x4000)
        block(c, 4)
        if le(c, 32, 8) == le(b, 32, 8): app = c[128:]
    return {'size': size, 'bitmap': bm, 'previous': pbm, 'locations': loc, 'application': app, 'entries': entries_of(meta, mbase, le(b, 8, 8)), 'null': le(a, 40, 8) // 0x400 % 2 == 1, 'position': le(a, 32, 8)}
def at_position(items2, n):
    for i in items2:
        if le(i, 0, 4) == 2 and le(i, 32, 8) == n: return guid(i, 16)
    return None
def distinct(vol, base):
    """No two items share a stack position."""
    try: items = items_of(vol, base)
    except Exception: return True
    p = [le(i, 32, 8) for i in items if le(i, 0, 4) == 2]
    return len(p) == len(set(p))
def pre_select(vol, base, n): return distinct(vol, base)
def pre_select_two(vol, meta, base, mbase, n): return distinct(vol, base)
def stack(vol, meta, base, mbase, items2, items3, g):
    s = store(vol, meta, base, mbase, items2, items3, g)
    out = [s]
    while True:
        n = at_position(items2, s['position'] + 1)
        if n is None: return out
        try: s = store(vol, meta, base, mbase, items2, items3, n)
        except S.ShadowCopyNotFoundException: return out
        out.append(s)
def shown(s): return (s['size'], s['bitmap'], s['previous'], [tuple(x) for x in s['locations']], s['application'], s['entries'])
def summary(p):
    return (p.current_volume_size, p.current_bitmap, p.current_previous_bitmap, [tuple(x) for x in p.current_location_description_items], p.current_application_information, [tuple(x) for x in p.current_diff_area])
def real_select(vol, base, n):
    p = S.ShadowParser(vol, base)
    p.select_shadow(n)
    out = []
    while p is not None:
        out.append(summary(p))
        p = p.current_next_parser
    return out
def local(vol, base):
    b = opened(vol, base)
    return b[7744:7760] == b[7760:7776]
def spec_select(vol, base, n):
    items = items_of(vol, base)
    if not local(vol, base): raise NotImplementedError('second volume')
    g = at_position(items, n)
    if g is None: raise S.ShadowCopyNotFoundException('not found')
    return [shown(s) for s in stack(vol, vol, base, base, items, items, g)]
def real_select_two(vol, meta, base, mbase, n):
    p = S.ShadowParserTwoVolumes(vol, meta, base, None, mbase)
    p.select_shadow(n)
    out = []
    while p is not None:
        out.append(summary(p))
        p = p.current_next_parser
    return out
def spec_select_two(vol, meta, base, mbase, n):
    opened(vol, base)
    opened(meta, mbase)
    if local(vol, base): raise NotImplementedError('local')
    items2 = items_of(vol, base)
    items3 = items_of(meta, mbase)
    g = at_position(items2, n)
    if g is None: raise S.ShadowCopyNotFoundException('not found')
    return [shown(s) for s in stack(vol, meta, base, mbase, items2, items3, g)]

# ---- the chains of a store, one by one
def parser(two, vol, base, b2, b3):
    if two:
        p = S.ShadowParserTwoVolumes(io.BytesIO(TWO[0]), io.BytesIO(TWO[1]))
        p.volume_storage_object = vol
        p.volume_storage_offset = base
    else:
        p = S.ShadowParser(io.BytesIO(ONE))
        p.volume_object = vol
        p.volume_offset = base
    p.current_cbi2 = S.ControlBlockItem2(b2)
    p.current_cbi3 = S.ControlBlockItem3(b3)
    return p
def real_rbitmap(two, previous, vol, base, b2, b3):
    p = parser(two, vol, base, b2, b3)
    if previous: return p.read_previous_bitmap()
    return p.read_bitmap()
def spec_rbitmap(two, previous, vol, base, b2, b3):
    item2(b2)
    item3(b3)
    at = le(b3, 72, 8) if previous else le(b3, 48, 8)
    chunks = []
    seen = set()
    while at != 0 and at not in seen:
        seen.add(at)
        vol.seek(base + at)
        b = vol.read(0x4000)
        block(b, 6)
        if le(b, 32, 8) != at: break
        chunks.append(b[128:])
        at = le(b, 40, 8)
    n = (le(b2, 8, 8) + 0x3FFF) // 0x4000
    return b''.join(chunks)[:(n + 7) // 8]
def real_rlocations(two, vol, base, b2, b3): return parser(two, vol, base, b2, b3).read_location_description_items()
def spec_rlocations(two, vol, base, b2, b3):
    item2(b2)
    item3(b3)
    at = le(b3, 40, 8)
    items = []
    seen = set()
    while at != 0 and at not in seen:
        seen.add(at)
        vol.seek(base + at)
        b = vol.read(0x4000)
        block(b, 5)
        if le(b, 32, 8) != at: break
        items.extend(locations(b))
        at = le(b, 40, 8)
    return items
def real_rapp(two, vol, base, b2, b3): return parser(two, vol, base, b2, b3).read_application_information()
def spec_rapp(two, vol, base, b2, b3):
    item2(b2)
    item3(b3)
    at = le(b3, 32, 8)
    if at == 0: return b''
    vol.seek(base + at)
    b = vol.read(0x4000)
    block(b, 4)
    if le(b, 32, 8) != at: return b''
    return b[128:]

# ---- generators
def mk(kind, o1, o2, o3, body=b'', n=0x4000): return (SIG + struct.pack('<LLQQQ', 1, kind, o1, o2, o3)).ljust(128, b'\0') + body + bytes(max(0, n - 128 - len(body)))
def mk_start(r, first, local=True):
    g = gens.rb(r, 16)
    h = SIG + struct.pack('<LLQQQ', 1, 1, 7680, 7680, 0) + struct.pack('<QQ', first, r.randrange(1 << 40)) + g + (g if local else gens.rb(r, 16)) + gens.rb(r, 32)
    return (bytes(3) + r.choice([b'NTFS', b'ReFS'])).ljust(7680, b'\0') + h.ljust(512, b'\0')
def mk_item2(r, size, g, pos, flags): return struct.pack('<LLQ', 2, r.randrange(256), size) + g + struct.pack('<QQQH', pos, flags, r.randrange(1 << 60), 0) + gens.rb(r, 70)
def mk_item3(r, g, diffat, app, loc, bm, pbm): return struct.pack('<LLQ', 3, 0, diffat) + g + struct.pack('<QQQQQQL', app, loc, bm, 5, 1 << 20, pbm, 0) + gens.rb(r, 44)
def mk_entry(o, s, w, f, a): return struct.pack('<QQQLL', o, s, w, f, a)
def damaged(r, b, p=0.15):
    return gens.mutate(r, b, 1) if r.random() < p else b
def volume(r, local=True, nblocks=6, exact=False):
    """A volume with a stack of stores; blocks 0..nblocks-1 are the data, then metadata.  Returns (volume, metadata volume or None, number of stores)."""
    B = 0x4000
    size = nblocks * B - r.choice([0, 0, 512, 0x1000])
    data = [gens.rb(r, 64) * 256 for _ in range(nblocks)]
    meta = []           # further blocks, of the storage volume
    mbase = nblocks if local else 1
    ctl2, ctl3 = [], []
    def alloc(b):
        meta.append(b)
        return (mbase + len(meta) - 1) * B
    def chain_of(kind, bodies):
        """blocks linked in order; the address of the first (0: none)"""
        if not bodies: return 0
        first = mbase + len(meta)
        n = len(bodies)
        for i, body in enumerate(bodies):
            me = (first + i) * B
            nxt = (first + i + 1) * B if i + 1 < n else 0
            if r.random() < 0.03: nxt = (first + r.randrange(n)) * B
            if r.random() < 0.02: me += B
            meta.append(damaged(r, mk(kind, 0, me, nxt, body), 0.01))
        return first * B
    nstores = r.choice([1, 1, 2, 3])
    for k in range(nstores):
        g = gens.rb(r, 16)
        copies = [alloc(gens.rb(r, 64) * 256) for _ in range(r.randrange(0, 5))]
        ents = []
        for _ in range(r.randrange(0, 7)):
            o = r.randrange(nblocks) * B
            f = r.choice([0, 0, 1, 1, 2, 2, 4, 8, 0x10, 3 if r.random() < 0.05 else 0])
            s = r.randrange(nblocks) * B if f & 1 else r.randrange(9) * B
            if f & 1 and r.random() < 0.2: s = o
            w = r.choice(copies) if copies else r.choice([B, 0])
            ents.append(mk_entry(o, s, w, f, r.choice([r.randrange(1 << 32), 1, 0x80000000, 0xFFFFFFFF, 0])))
        cut = r.randrange(len(ents) + 1) if r.random() < 0.4 else len(ents)
        lists = [b''.join(ents[:cut])] + ([b''.join(ents[cut:])] if cut < len(ents) or r.random() < 0.1 else [])
        dat = chain_of(3, lists)
        bm = chain_of(6, [gens.rb(r, 16)] * r.choice([0, 1, 1, 1, 2]))
        pbm = chain_of(6, [r.choice([gens.rb(r, 16), b'\xff' * 16])] * r.choice([0, 1, 1]))
        loc = chain_of(5, [b''.join(struct.pack('<QQQ', r.randrange(1, 9) * B, r.randrange(9) * B, r.choice([B, B, 0] if r.random() < 0.1 else [B])) for _ in range(r.randrange(4))) for _ in range(r.choice([0, 1, 2]))])
        app = alloc(mk(4, 0, (mbase + len(meta)) * B + r.choice([0] * 9 + [B]), 0, gens.rb(r, 20))) if r.random() < 0.5 else 0
        ctl2.append(mk_item2(r, size + r.choice([0, 0, 0, B]), g, k + 1 if r.random() < 0.97 else r.randrange(4), r.choice([0x400, 0x400, 0])))
        ctl3.append(mk_item3(r, g, dat, app, loc, bm, pbm))
    def control(vol_blocks, base, items):
        items = list(items)
        if r.random() < 0.5: r.shuffle(items)
        for _ in range(r.choice([0, 0, 1, 2])): items.insert(r.randrange(len(items) + 1), struct.pack('<L', 1) + gens.rb(r, 124))
        if r.random() < 0.02 and items: items.append(r.choice(items))
        cut = r.randrange(len(items) + 1) if r.random() < 0.4 else len(items)
        groups = [items[:cut]] + ([items[cut:]] if cut < len(items) else [])
        first = base + len(vol_blocks)
        for i, g in enumerate(groups):
            nxt = (first + i + 1) * B if i + 1 < len(groups) else (0 if r.random() < 0.95 else first * B)
            vol_blocks.append(mk(2, i * B, (first + i) * B, nxt, b''.join(g)))
        return first * B
    if local:
        first = control(meta, mbase, ctl2 + ctl3)
        v = mk_start(r, first)
        data[0] = v + data[0][8192:]
        return b''.join(data) + b''.join(meta), None, nstores
    extra = []
    first = control(extra, nblocks, ctl2)
    data[0] = mk_start(r, first, False) + data[0][8192:]
    mfirst = control(meta, mbase, ctl3)
    return b''.join(data) + b''.join(extra), (mk_start(r, mfirst) + bytes(B - 8192)) + b''.join(meta), nstores

def gen_start(r):
    b = mk_start(r, r.randrange(9) * 0x4000 + r.choice([0] * 9 + [512]), r.random() < 0.5)
    x = r.random()
    if x < 0.3:
        b = bytearray(b); i = r.choice([3, 4, 7680, 7695, 7696, 7700, 7704, 7712, 7720, 7728]); b[i] ^= 1 << r.randrange(8); b = bytes(b)
    return {'b': b[:r.choice([8192] * 12 + [8191, 0])]}
def gen_block(kind, body):
    def g(r):
        b = bytearray(mk(kind if r.random() < 0.9 else r.randrange(9), r.randrange(5) * 0x4000 + r.choice([0] * 9 + [512]), r.randrange(1 << 40), r.randrange(1 << 40), body(r)))
        if r.random() < 0.05: b[r.randrange(24)] ^= 1 << r.randrange(8)
        return {'b': bytes(b[:r.choice([0x4000] * 12 + [0x3FFF, 128, 0])])}
    return g
def b_items(r):
    good = [lambda: mk_item2(r, r.choice([5, 1 << 40]), gens.rb(r, 16), r.randrange(5), r.randrange(1 << 16)), lambda: mk_item3(r, gens.rb(r, 16), 1, 2, 3, 4, 5), lambda: struct.pack('<L', 1) + gens.rb(r, 124)]
    bad = [lambda: struct.pack('<L', r.choice([1, 1, 1, 4, 0x102])) + gens.rb(r, 124), lambda: struct.pack('<LLQ', 2, 0, r.choice([0, 1])) + gens.rb(r, 112)]
    kinds = good if r.random() < 0.6 else good + bad
    return b''.join(r.choice(kinds)() for _ in range(r.choice([0, 1, 3, 6, 126, 127, 127])))
def b_loc(r):
    end = [5] if r.random() < 0.6 else [5] * 30 + [0]
    return b''.join(struct.pack('<QQQ', r.choice([1, 1 << 33]), r.randrange(99), r.choice(end)) for _ in range(r.choice([0, 1, 2, 5, 676, 677, 677])))
def b_diff(r):
    odd = [0] if r.random() < 0.6 else [0] * 60 + [512]
    flags = [0, 0, 1, 2, 4, 5, 6, 8, 0x10, 0x20, 0x40, 0x80] * 5 + ([3, 0x100] if r.random() < 0.4 else [])
    return b''.join(mk_entry(r.randrange(9) * 0x4000 + r.choice(odd), r.randrange(99), r.randrange(9) * 0x4000 + r.choice(odd), r.choice(flags), r.randrange(1 << 32)) for _ in range(r.choice([0, 1, 2, 5, 507, 508, 508])))
def gen_item(kind):
    def g(r):
        b = bytearray(mk_item2(r, r.choice([0, 5, 1 << 40]), gens.rb(r, 16), r.randrange(5), r.randrange(1 << 40)) if kind == 2 else mk_item3(r, gens.rb(r, 16), 1, 2, 3, 4, 5))
        if r.random() < 0.5: b[8:] = gens.rb(r, 120)
        if r.random() < 0.1: b[r.randrange(4)] ^= 1
        return {'b': bytes(b[:r.choice([128] * 9 + [127, 0])])}
    return g
def gen_vol(r):
    v, _, n = volume(r)
    base = r.choice([0, 0, 512])
    return {'vol': bytes(base) + v, 'base': base}
def gen_select(r):
    v, _, n = volume(r)
    base = r.choice([0, 0, 512])
    return {'vol': bytes(base) + v, 'base': base, 'n': r.randrange(1, n + 1) if r.random() < 0.9 else n + 1}
def gen_select_two(r):
    v, m, n = volume(r, False)
    base, mbase = r.choice([0, 0, 512]), r.choice([0, 0, 1024])
    return {'vol': bytes(base) + v, 'meta': bytes(mbase) + m, 'base': base, 'mbase': mbase, 'n': r.randrange(1, n + 1) if r.random() < 0.9 else n + 1}

def gen_store(r):
    v, m, n = volume(r, False)
    b = items_of(io.BytesIO(m), 0) if r.random() < 2 else []
    t = [i for i in b if le(i, 0, 4) == 3] or [mk_item3(r, bytes(16), 0, 0, 0, 0, 0)]
    return {'two': r.random() < 0.5, 'vol': m, 'base': 0, 'b2': mk_item2(r, r.choice([0, 1, 0x4000, 0x4001, 0x20000, 0x20001, 130023424, 130023425, 1 << 40]), bytes(16), 1, 0), 'b3': r.choice(t)}
def gen_store_b(r): return dict(gen_store(r), previous=r.random() < 0.5)
def _small(local):
    import random
    r = random.Random(1)
    B = 0x4000
    return mk_start(r, 0, local)
ONE = _small(True)
TWO = (_small(False), _small(True))
ST = {'two': Bool(), 'vol': File(), 'base': Int(0, 1 << 50), 'b2': Bytes(128), 'b3': Bytes(128)}
def sh(**k): return dict(k, **ST)
SC = 'ShadowCopy.'
CONTRACTS = [
    Contract('start_block', [SC + 'StartBlock'], {'b': Bytes()}, real_start, spec_start, gen=gen_start),
    Contract('control_block', [SC + 'ControlBlock', SC + 'ShadowBlock'], {'b': Bytes()}, real_control, spec_control, gen=gen_block(2, b_items)),
    Contract('control_item2', [SC + 'ControlBlockItem2'], {'b': Bytes()}, real_item2, spec_item2, abstracts=ABS, gen=gen_item(2)),
    Contract('control_item3', [SC + 'ControlBlockItem3'], {'b': Bytes()}, real_item3, spec_item3, gen=gen_item(3)),
    Contract('control_items', [SC + 'ControlBlock.items'], {'b': Bytes()}, real_items, spec_items, abstracts=ABS, gen=gen_block(2, b_items),
             loops=[Loop({'at': 'offset'}, inv=lambda at: at >= 128 and at % 128 == 0, variant=lambda at: 0x4000 - at)]),
    Contract('bitmap_block', [SC + 'Bitmap'], {'b': Bytes()}, real_bitmap, spec_bitmap, gen=gen_block(6, lambda r: gens.rb(r, 50))),
    Contract('application_information', [SC + 'ApplicationInformation'], {'b': Bytes()}, real_appinfo, spec_appinfo, gen=gen_block(4, lambda r: gens.rb(r, 50))),
    Contract('location_description', [SC + 'LocationDescription'], {'b': Bytes()}, real_locations, spec_locations, gen=gen_block(5, b_loc),
             loops=[Loop({'at': 'curr_offset', 'out': 'items'}, func='locations', inv=lambda at: at >= 128, variant=lambda at: 0x4000 - at)]),
    Contract('diff_area_table', [SC + 'DiffAreaTable'], {'b': Bytes()}, real_diff, spec_diff, gen=gen_block(3, b_diff),
             loops=[Loop({'at': 'curr_offset', 'out': 'items'}, func='diff', inv=lambda at: at >= 128, variant=lambda at: 0x4000 - at)]),
    Contract('store_bitmaps', [SC + 'ShadowParser.read_bitmap', SC + 'ShadowParser.read_previous_bitmap', SC + 'ShadowParserTwoVolumes.read_bitmap', SC + 'ShadowParserTwoVolumes.read_previous_bitmap'], sh(previous=Bool()), real_rbitmap, spec_rbitmap, abstracts=ABS, gen=gen_store_b,
             loops=[Loop({'at': 'curr_offset', 'seen': 'visited_offsets', 'chunks': 'bitmap_chunks'}, inv=lambda at: at >= 0)], unroll=('__init__',)),
    Contract('store_locations', [SC + 'ShadowParser.read_location_description_items', SC + 'ShadowParserTwoVolumes.read_location_description_items'], sh(), real_rlocations, spec_rlocations, abstracts=ABS, gen=gen_store,
             loops=[Loop({'at': 'curr_offset', 'seen': 'visited_offsets', 'items': 'items'}, inv=lambda at: at >= 0), Loop({'at': 'curr_offset', 'out': 'items'}, func='locations', inv=lambda at: at >= 128, variant=lambda at: 0x4000 - at)], unroll=('__init__',)),
    Contract('store_application', [SC + 'ShadowParser.read_application_information', SC + 'ShadowParserTwoVolumes.read_application_information'], sh(), real_rapp, spec_rapp, abstracts=ABS, gen=gen_store),
    Contract('shadows_one_block', [SC + 'ShadowParser.shadows', SC + 'ShadowParser.__init__'], {'vol': File(), 'base': Int(0, 1 << 50)}, real_shadows, spec_shadows, pre=pre_one, abstracts=ABS, gen=gen_vol,
             loops=[Loop({'at': 'offset'}, ordinal=1, inv=lambda at: at >= 128 and at % 128 == 0, variant=lambda at: 0x4000 - at)], unroll=('__init__', 'blocks_of'), note='one control block'),
    Contract('shadows', [SC + 'ShadowParser.shadows', SC + 'ShadowParser.__init__'], {'vol': File(), 'base': Int(0, 1 << 50)}, real_shadows, spec_shadows, gen=gen_vol, bounded=True, note='generated volumes, chains of up to two control blocks with cycles'),
    Contract('select', [SC + 'ShadowParser.select_shadow', SC + 'ShadowParser.read_diff_area'], {'vol': File(), 'base': Int(0, 1 << 50), 'n': Int(0, 99)}, real_select, spec_select, pre=pre_select, gen=gen_select, bounded=True, search_n=400, note='generated volumes with up to three stores'),
    Contract('select_two', [SC + 'ShadowParserTwoVolumes.select_shadow'], {'vol': File(), 'meta': File(), 'base': Int(0, 1 << 50), 'mbase': Int(0, 1 << 50), 'n': Int(0, 99)}, real_select_two, spec_select_two, pre=pre_select_two, gen=gen_select_two, bounded=True, search_n=400, note='generated volumes with up to three stores on another volume'),
]
