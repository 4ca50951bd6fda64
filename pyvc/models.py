"""Models of the built-ins and standard-library functions the code under verification uses (assumed contracts)."""
import ast, binascii, builtins, datetime as _dt, io, struct, types, uuid, warnings, zlib, ctypes
import z3
from .values import *

NO = object()
NONE = object()
DT_MAX = 3652059 * 86400 * 10**6 - 1

def P(it, exc): raise PyRaise(exc)

def isint(v): return isinstance(v, (int, z3.ArithRef, z3.BoolRef))
def isbytes(v): return isinstance(v, (SBytes, SBA, bytes, bytearray))
def isstr(v): return isinstance(v, (str, SStr))

def to_str(it, x):
    if isinstance(x, (str, SStr)): return x
    if it.concrete(x): return str(x)
    return SStr('str', x)

# ---------------------------------------------------------------- operators
_native = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'FloorDiv': lambda a, b: a // b,
           'Mod': lambda a, b: a % b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
           'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b, 'Div': lambda a, b: a / b, 'Pow': lambda a, b: a ** b}

def binop(it, op, a, b):
    ctx = it.ctx
    for v in (a, b):
        if isinstance(v, SRat): raise Unsupported('floating-point arithmetic')
        if isinstance(v, Poison): raise Unsupported('use of a loop-modified value with no invariant: ' + v.why)
    if isint(a) and isint(b):
        if not is_sym(a) and not is_sym(b):
            if op == 'LShift' and b > 100000: raise Unsupported('huge shift')
            try: return _native[op](a, b)
            except Exception as e: raise PyRaise(e)
        a, b = ctx.I(a), ctx.I(b)
        if op == 'Add': return ctx.add(a, b)
        if op == 'Sub': return ctx.sub(a, b)
        if op == 'Mult': return ctx.mul(a, b)
        if op == 'FloorDiv': return ctx.floordivmod(a, b)[0]
        if op == 'Mod': return ctx.floordivmod(a, b)[1]
        if op == 'BitAnd': return ctx.bitop('&', a, b)
        if op == 'BitOr': return ctx.bitop('|', a, b)
        if op == 'BitXor': return ctx.bitop('^', a, b)
        if op == 'LShift': return ctx.shift('<<', a, b)
        if op == 'RShift': return ctx.shift('>>', a, b)
        if op == 'Pow':
            if not is_sym(b) and b >= 0 and b <= 4:
                r = 1
                for _ in range(b): r = ctx.mul(r, a)
                return r
            if not is_sym(a):
                return a ** ctx.concretize(b, 0, 130)
            raise Unsupported('power')
        if op == 'Div':
            if not ctx.decide(b != 0): raise PyRaise(ZeroDivisionError('division by zero'))
            if is_sym(b): raise Unsupported('floating-point division by an unknown')
            return SRat(a, b)
        raise Unsupported('operator ' + op)
    if isbytes(a) and isbytes(b) and op == 'Add':
        r = ctx.concat(ctx.rope(a), ctx.rope(b))
        return ctx.born(SBA(r)) if isinstance(a, (SBA, bytearray)) else r
    if op == 'Mult' and (isbytes(a) or isbytes(b)):
        if isint(a): a, b = b, a
        b = ctx.I(b)
        c = ctx.concrete_bytes(ctx.rope(a))
        if c is not None and not is_sym(b): return c * b
        if c is not None and len(c) == 1:
            if ctx.decide(b <= 0): return b''
            return SBytes([(z3.K(z3.IntSort(), z3.IntVal(c[0])), 0, b)])
        raise Unsupported('bytes repetition')
    if isstr(a) and isstr(b) and op == 'Add':
        if isinstance(a, str) and isinstance(b, str): return a + b
        if a == '' if isinstance(a, str) else False: return b
        if b == '' if isinstance(b, str) else False: return a
        xs = list(a.args) if isinstance(a, SStr) and a.tag == 'join' else [a]
        ys = list(b.args) if isinstance(b, SStr) and b.tag == 'join' else [b]
        zs = []
        for x in xs + ys:
            if zs and isinstance(zs[-1], str) and isinstance(x, str): zs[-1] += x
            else: zs.append(x)
        return SStr('join', *zs)
    if op == 'Mod' and isinstance(a, str):
        return SStr('fmt', a, b)
    if op == 'Mult' and isinstance(a, str) and not is_sym(b): return a * b
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)) and op == 'Add':
        if isinstance(b, SList) and b.prefix is not None:
            p, xs = list_cat(it, a, b)
            return ctx.born(SList(xs, p))
        ap = a.prefix if isinstance(a, SList) else None
        ai = a.items if isinstance(a, SList) else a; bi = b.items if isinstance(b, SList) else b
        return ctx.born(SList(list(ai) + list(bi), ap))
    if isinstance(a, SList) and op == 'Mult' and a.prefix is None and not is_sym(b): return ctx.born(SList(a.items * b))
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    if isinstance(a, SSet) and isinstance(b, SSet) and a.arr is None and b.arr is None and op == 'BitOr':
        s = ctx.born(SSet(a.items))
        for x in b.items: set_add(it, s, x)
        return s
    r = dt_binop(it, op, a, b)
    if r is not NO: return r
    if it.concrete(a) and it.concrete(b):
        try: return _native[op](a, b)
        except Exception as e: raise PyRaise(e)
    if a is None or b is None or (isint(a) != isint(b)) :
        raise PyRaise(TypeError('unsupported operand types for %s' % op))
    raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

def lift_dt(v):
    if isinstance(v, _dt.datetime):
        d = v - _dt.datetime(1, 1, 1)
        return SDT((d.days * 86400 + d.seconds) * 10**6 + d.microseconds)
    if isinstance(v, _dt.timedelta):
        return SDelta((v.days * 86400 + v.seconds) * 10**6 + v.microseconds)
    if isinstance(v, _dt.date):
        return SDate(v.toordinal() - 1, (v.year, v.month, v.day))
    if isinstance(v, _dt.time):
        return STime(((v.hour * 60 + v.minute) * 60 + v.second) * 10**6 + v.microsecond)
    return v

def dt_binop(it, op, a, b):
    ctx = it.ctx
    if not isinstance(a, (SDT, SDelta, _dt.datetime, _dt.timedelta)) and not isinstance(b, (SDT, SDelta, _dt.datetime, _dt.timedelta)): return NO
    if it.concrete(a) and it.concrete(b): return NO
    a, b = lift_dt(a), lift_dt(b)
    def chk(us):
        if not ctx.decide(z3.And(us >= 0, us <= DT_MAX) if is_sym(us) else 0 <= us <= DT_MAX):
            raise PyRaise(OverflowError('date value out of range'))
        return SDT(us)
    if isinstance(a, SDT) and isinstance(b, SDelta):
        return chk(ctx.add(a.us, b.us) if op == 'Add' else ctx.sub(a.us, b.us))
    if isinstance(a, SDelta) and isinstance(b, SDT) and op == 'Add': return chk(ctx.add(a.us, b.us))
    if isinstance(a, SDT) and isinstance(b, SDT) and op == 'Sub': return SDelta(ctx.sub(a.us, b.us))
    if isinstance(a, SDelta) and isinstance(b, SDelta):
        if op == 'Add': return SDelta(ctx.add(a.us, b.us))
        if op == 'Sub': return SDelta(ctx.sub(a.us, b.us))
    if isinstance(a, SDelta) and isint(b) and op == 'Mult': return SDelta(ctx.mul(a.us, ctx.I(b)))
    if isinstance(b, SDelta) and isint(a) and op == 'Mult': return SDelta(ctx.mul(b.us, ctx.I(a)))
    raise PyRaise(TypeError('unsupported operand types'))

def order(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, SRat) or isinstance(b, SRat): raise Unsupported('floating-point comparison')
    a, b = lift_dt(a) if not it.concrete(b) else a, lift_dt(b) if not it.concrete(a) else b
    if isint(a) and isint(b):
        x, y = ctx.I(a), ctx.I(b)
    elif isinstance(a, SDT) and isinstance(b, SDT) or isinstance(a, SDelta) and isinstance(b, SDelta) or isinstance(a, STime) and isinstance(b, STime): x, y = a.us, b.us
    elif isinstance(a, SDate) and isinstance(b, SDate): x, y = a.days, b.days
    elif it.concrete(a) and it.concrete(b):
        f = {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]
        try: return f()
        except Exception as e: raise PyRaise(e)
    elif a is None or b is None: raise PyRaise(TypeError("'<' not supported"))
    elif isinstance(a, tuple) and isinstance(b, tuple):
        for u, v in zip(a, b):
            if not it.truth(it.eq(u, v)): return order(it, op, u, v)
        f = {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}
        return f[op]
    elif isstr(a) and isstr(b):
        return it.opaque_bool('ord' + op, a, b)
    else:
        if isint(a) != isint(b) and (isint(a) or isint(b)) and not isinstance(a, float) and not isinstance(b, float):
            raise PyRaise(TypeError("'<' not supported"))
        raise Unsupported('ordering of %s and %s' % (type(a).__name__, type(b).__name__))
    if not is_sym(x) and not is_sym(y):
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    x = x if is_sym(x) else z3.IntVal(x)
    return it.simp({'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]())

# ---------------------------------------------------------------- containers
def set_add(it, s, x):
    if isinstance(x, (SList, SDict, SSet)): raise PyRaise(TypeError('unhashable'))
    if not is_sym(x) and it.concrete(x):
        for y in s.items:
            if not is_sym(y) and it.concrete(y) and type(x) == type(y) and x == y: return
    if s.arr is None and all(it.concrete(y) for y in s.items) and it.concrete(x) or s.arr is not None:
        s.items.append(x)
    else:
        # keep element lists duplicate-free so that len() is exact
        for y in s.items:
            if it.truth(it.eq(x, y)): return
        s.items.append(x)
    it.mutate(s, 'items')

def dict_set(it, d, k, v):
    for n, (kk, _) in enumerate(d.entries):
        c = it.eq(k, kk)
        if c is True or (c is not False and it.truth(c)):
            d.entries[n] = (kk, v); it.mutate(d, 'entries'); return
    d.entries.append((k, v))
    it.mutate(d, 'entries')

def dict_get(it, d, k):
    """Value or NO."""
    if isinstance(d, SDict):
        for kk, v in d.entries:
            c = it.eq(k, kk)
            if c is True or (c is not False and it.truth(c)): return v
        if d.base is not None:
            if it.truth(d.base.has(it, k)): return d.base.get(it, k)
        return NO
    if it.concrete(k):
        return d.get(k, NO) if it._hashable(k) else NO
    for kk in list(d.keys()):
        c = it.eq(k, kk)
        if c is True or (c is not False and it.truth(c)): return d[kk]
    return NO

def seq_elem(it, s, i):
    """Element i (0 <= i < len known) of an SList."""
    ctx = it.ctx
    if s.prefix is None:
        if is_sym(i): i = ctx.concretize(i, 0, len(s.items) - 1)
        return s.items[i]
    pl = s.prefix.length
    if s.items:
        if not ctx.decide(ctx._lt(i, pl)):
            j = ctx.sub(i, pl)
            if is_sym(j): j = ctx.concretize(j, 0, len(s.items) - 1)
            return s.items[j]
    return opaque_elem(it, s.prefix, i)

def opaque_elem(it, p, i):
    if p.elem is None: raise Unsupported('element of opaque sequence ' + p.name)
    for k, v in p.memo:
        c = it.eq(k, i)
        if c is True: return v
        if c is not False and it.ctx.decide(c): return v
    v = p.elem(it, i)
    p.memo.append((i, v))
    return v

def norm_index(it, i, n):
    """Python index -> 0 <= i < n or IndexError."""
    ctx = it.ctx
    i = ctx.I(i)
    if ctx.decide(ctx._lt(i, 0)): i = ctx.add(i, n)
    ok = ctx.conj([ctx._le(0, i), ctx._lt(i, n)])
    if not ctx.decide(ok): raise PyRaise(IndexError('index out of range'))
    return i

def getitem(it, o, i):
    ctx = it.ctx
    if isinstance(o, Poison): raise Unsupported('use of a loop-modified value with no invariant: ' + o.why)
    if isbytes(o):
        if it.concrete(o) and (it.concrete(i) or isinstance(i, slice) and all(it.concrete(x) for x in (i.start, i.stop, i.step))):
            try: return o[i]
            except Exception as e: raise PyRaise(e)
        r = ctx.rope(o)
        n = ctx.rlen(r)
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                bs = ctx.byte_list(r)
                if bs is None or not all(it.concrete(x) for x in (i.start, i.stop, i.step)): raise Unsupported('stepped slice')
                return bytes_of_list(it, bs[i])
            lo, hi = ctx.slice_bounds(n, *[ctx.I(x) if x is not None else None for x in (i.start, i.stop)])
            v = ctx.rslice(r, lo, hi)
            c = ctx.concrete_bytes(v)
            if isinstance(o, (SBA, bytearray)): return ctx.born(SBA(v))
            return c if c is not None else v
        if not isint(i): raise PyRaise(TypeError('indices must be integers'))
        return ctx.rsel(r, norm_index(it, i, n))
    if isinstance(o, SList):
        n = it.slen(o)
        if isinstance(i, slice):
            if o.prefix is not None: raise Unsupported('slice of opaque list')
            if not all(it.concrete(x) for x in (i.start, i.stop, i.step)):
                lo, hi = ctx.slice_bounds(n, *[ctx.I(x) if x is not None else None for x in (i.start, i.stop)])
                lo = ctx.concretize(lo, 0, n); hi = ctx.concretize(hi, 0, n)
                return ctx.born(SList(o.items[lo:hi]))
            return ctx.born(SList(o.items[i]))
        if not isint(i): raise PyRaise(TypeError('list indices must be integers'))
        return seq_elem(it, o, norm_index(it, i, n))
    if isinstance(o, (tuple, list)) and not isinstance(i, slice) and is_sym(i):
        i = norm_index(it, i, len(o))
        i = ctx.concretize(i, 0, len(o) - 1)
        return o[i]
    if isinstance(o, (SDict, dict)):
        v = dict_get(it, o, i)
        if v is NO: raise PyRaise(KeyError())
        return v
    if isinstance(o, SStr):
        if isinstance(i, slice): return str_slice(o, i.start, i.stop, i.step)
        n = it.opaque_int('strlen', o)
        ctx.assume(n >= 0)
        i = norm_index(it, i, n)
        return SStr('at', o, i)
    if isinstance(o, SObj):
        f = it.getattr(o, '__getitem__')
        return (yield from it.call(f, [i], {}))
    if isinstance(o, str) and is_sym(i):
        i = norm_index(it, i, len(o)); return o[ctx.concretize(i, 0, len(o) - 1)]
    if o is None or isint(o): raise PyRaise(TypeError('object is not subscriptable'))
    try: return o[i]
    except Exception as e: raise PyRaise(e)
    yield

def setitem(it, o, i, v):
    ctx = it.ctx
    if isinstance(o, SBA):
        r = o.val; n = ctx.rlen(r)
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported('stepped slice assignment')
            lo, hi = ctx.slice_bounds(n, *[ctx.I(x) if x is not None else None for x in (i.start, i.stop)])
            x = ctx.rope(v) if isbytes(v) else ctx.rope(bytes_of_list(it, v.items if isinstance(v, SList) else list(v)))
            a = ctx.rslice(r, 0, lo); c = ctx.rslice(r, hi, n)
            o.val = ctx.concat(ctx.concat(a, x), c)
            it.mutate(o, 'val'); return
        if not isint(v): raise PyRaise(TypeError('an integer is required'))
        v = ctx.I(v)
        i = norm_index(it, i, n)
        if not ctx.decide(z3.And(v >= 0, v <= 255) if is_sym(v) else 0 <= v <= 255):
            raise PyRaise(ValueError('byte must be in range(0, 256)'))
        segs = list(r.segs)
        j = i
        for k, (src, off, l) in enumerate(segs):
            if k == len(segs) - 1 or ctx.decide(ctx._lt(j, l)):
                at = ctx.add(off, j)
                if isinstance(src, bytes):
                    if not is_sym(at) and not is_sym(v):
                        b = bytearray(src); b[at] = v; segs[k] = (bytes(b), off, l)
                    else:
                        arr = z3.K(z3.IntSort(), z3.IntVal(0))
                        for q, byte in enumerate(src): arr = z3.Store(arr, z3.IntVal(q), z3.IntVal(byte))
                        segs[k] = (z3.Store(arr, at, v), off, l)
                else:
                    segs[k] = (z3.Store(src, at if is_sym(at) else z3.IntVal(at), v if is_sym(v) else z3.IntVal(v)), off, l)
                break
            j = ctx.sub(j, l)
        o.val = SBytes(segs)
        it.mutate(o, 'val'); return
    if isinstance(o, SList):
        if o.prefix is not None: raise Unsupported('store into opaque list')
        if isinstance(i, slice): raise Unsupported('list slice assignment')
        i = norm_index(it, i, len(o.items))
        if is_sym(i): i = ctx.concretize(i, 0, len(o.items) - 1)
        o.items[i] = v
        it.mutate(o, 'items'); return
    if isinstance(o, SDict): return dict_set(it, o, i, v)
    raise Unsupported('item assignment on %s' % type(o).__name__)

def delitem(it, o, i):
    if isinstance(o, SDict) and o.base is None:
        for n, (k, v) in enumerate(o.entries):
            if it.truth(it.eq(k, i)):
                del o.entries[n]; it.mutate(o, 'entries'); return
        raise PyRaise(KeyError())
    if isinstance(o, SList) and o.prefix is None:
        i = norm_index(it, i, len(o.items))
        if is_sym(i): i = it.ctx.concretize(i, 0, len(o.items) - 1)
        del o.items[i]; it.mutate(o, 'items'); return
    raise Unsupported('del item')

def bytes_of_list(it, xs):
    ctx = it.ctx
    for x in xs:
        if not isint(x): raise PyRaise(TypeError('an integer is required'))
        if not ctx.decide(z3.And(x >= 0, x <= 255) if is_sym(x) else 0 <= x <= 255):
            raise PyRaise(ValueError('bytes must be in range(0, 256)'))
    if all(not is_sym(x) for x in xs): return bytes(xs)
    arr = z3.K(z3.IntSort(), z3.IntVal(0))
    for q, b in enumerate(xs): arr = z3.Store(arr, z3.IntVal(q), b if is_sym(b) else z3.IntVal(b))
    return SBytes([(arr, 0, len(xs))])

# ---------------------------------------------------------------- methods
def method(it, o, name):
    """Bound model for attribute `name` of a modelled value, or None."""
    ctx = it.ctx
    if isinstance(o, SFile): return file_method(it, o, name)
    if isinstance(o, (SBytes, SBA)): return bytes_method(it, o, name)
    if isinstance(o, SList): return list_method(it, o, name)
    if isinstance(o, SSet): return set_method(it, o, name)
    if isinstance(o, SDict): return dict_method(it, o, name)
    if isinstance(o, dict) and name in ('get', 'keys', 'values', 'items'):
        if name == 'get':
            def f(it, args, kw):
                v = dict_get(it, o, args[0])
                return (args[1] if len(args) > 1 else None) if v is NO else v
            return Model('get', f)
        return None
    if isinstance(o, str) and name in ('format', 'join'):
        def f(it, args, kw):
            if name == 'join':
                if isinstance(args[0], SList) and args[0].prefix is not None:
                    return SStr('joined', o, it.opaque_id('joined', [SList(args[0].items, args[0].prefix)]))     # a text that depends only on the separator and the items
                xs = yield from it.to_list(args[0])
                if all(isinstance(x, str) for x in xs): return o.join(xs)
                parts = []
                for n, x in enumerate(xs):
                    if n and o: parts.append(o)
                    if not isstr(x): raise PyRaise(TypeError('expected str'))
                    parts.append(x)
                r = ''
                for p in parts: r = binop(it, 'Add', r, p)
                return r
            if all(it.concrete(a) for a in args) and all(it.concrete(a) for a in kw.values()):
                try: return o.format(*args, **kw)
                except Exception as e: raise PyRaise(e)
            return SStr('fmt', o, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        return Model(name, f)
    if isinstance(o, SStr): return str_method(it, o, name)
    if isinstance(o, SDT):
        if name == 'isoformat': return Model(name, lambda it, a, k: SStr('iso', o, tuple(a)))
        if name == 'replace':
            def f(it, a, k):
                if a or any(x != 'tzinfo' for x in k): raise Unsupported('datetime.replace')
                return o
            return Model(name, f)
        if name == 'timestamp': raise Unsupported('timestamp()')
        return None
    if isinstance(o, SDelta) and name in ('days', 'seconds', 'microseconds'):
        d, rest = ctx.floordivmod(o.us, 86400 * 10**6)
        if name == 'days': return d
        sec, us = ctx.floordivmod(rest, 10**6)
        return sec if name == 'seconds' else us
    if isinstance(o, SDate) and name in ('year', 'month', 'day') and o.ymd is not None:
        return o.ymd[('year', 'month', 'day').index(name)]
    if isinstance(o, STime) and name in ('hour', 'minute', 'second', 'microsecond') and o.parts is not None:
        return o.parts[('hour', 'minute', 'second', 'microsecond').index(name)]
    if isinstance(o, (SDate, STime, SDelta)):
        return None
    if isinstance(o, z3.ArithRef):
        if name == 'to_bytes':
            def f(it, a, k):
                n = a[0] if a else k['length']; bo = a[1] if len(a) > 1 else k.get('byteorder', 'big'); sg = k.get('signed', False)
                return int_to_bytes(it, o, n, bo, sg)
            return Model(name, f)
        if name == 'bit_length': raise Unsupported('bit_length')
        return None
    if isinstance(o, SOpaque):
        if name in ('bytes_le', 'bytes', 'hex', 'int', 'urn', 'time', 'fields', 'version'):
            if o.tag == 'uuid_le' and name == 'bytes_le': return o.args[0]
            if o.tag == 'uuid_be' and name == 'bytes': return o.args[0]
            if o.tag in ('uuid_le', 'uuid_be') and name in ('version', 'time', 'time_low', 'time_mid', 'time_hi_version'):
                lit = o.tag == 'uuid_le'
                r = o.args[0]
                fld = lambda p, n: ctx.from_bytes(ctx.rslice(r, p, p + n), lit, False)
                if name == 'time_low': return fld(0, 4)
                if name == 'time_mid': return fld(4, 2)
                if name == 'time_hi_version': return fld(6, 2)
                hi = fld(6, 2)
                if name == 'version':
                    b8 = ctx.rsel(r, 8)
                    if not it.truth(it.simp(z3.And(b8 >= 0x80, b8 < 0xC0))): return NONE
                    return ctx.shift('>>', hi, 12)
                t = ctx.add(fld(0, 4), ctx.mul(fld(4, 2), 1 << 32))
                return ctx.add(t, ctx.mul(ctx.bitop('&', hi, 0xFFF), 1 << 48))
            return SOpaque('attr_' + name, o)
        return None
    if o is int and name == 'from_bytes':
        def f(it, a, k):
            buf = a[0]; bo = a[1] if len(a) > 1 else k.get('byteorder', 'big'); sg = k.get('signed', False)
            if isinstance(buf, SList): buf = bytes_of_list(it, buf.items)
            return it.ctx.from_bytes(buf, bo == 'little', it.truth(sg))
        return Model(name, f)
    if o is bytes and name == 'fromhex':
        return None
    if o is _dt.datetime and name == 'combine':
        def f(it, a, k):
            d, t = [lift_dt(x) for x in a]
            if not isinstance(d, (SDate,)) or not isinstance(t, STime): raise PyRaise(TypeError('combine'))
            return SDT(it.ctx.add(it.ctx.mul(d.days, 86400 * 10**6), t.us))
        return Model(name, f)
    if o is _dt.datetime and name in ('fromtimestamp', 'utcfromtimestamp', 'now', 'utcnow', 'strptime'):
        def f(it, a, k):
            if all(it.concrete(x) for x in a): 
                try: return getattr(_dt.datetime, name)(*a, **k)
                except Exception as e: raise PyRaise(e)
            raise Unsupported('datetime.' + name)
        return Model(name, f)
    if o is dict and name == 'fromkeys': raise Unsupported('dict.fromkeys')
    return None

def file_method(it, o, name):
    ctx = it.ctx
    def seek(it, a, k):
        off = a[0]; wh = a[1] if len(a) > 1 else k.get('whence', 0)
        off = ctx.I(off)
        if is_sym(wh): wh = ctx.concretize(wh, 0, 2)
        if wh == 1: off = ctx.add(off, o.pos)
        elif wh == 2: off = ctx.add(off, o.size)
        elif wh != 0: raise PyRaise(ValueError('invalid whence'))
        if ctx.decide(ctx._lt(off, 0)): raise PyRaise(ValueError('negative seek value'))
        o.pos = off; it.mutate(o, 'pos')
        return off
    def read(it, a, k):
        n = a[0] if a else k.get('size', None)
        avail = ctx.sub(o.size, o.pos)
        empty = ctx.decide(ctx._le(avail, 0))
        if empty: return b''
        if n is None: n = avail
        else:
            n = ctx.I(n)
            if ctx.decide(ctx._lt(n, 0)): n = avail
            elif not ctx.decide(ctx._le(n, avail)): n = avail
        r = ctx.rslice(o.content, o.pos, ctx.add(o.pos, n))
        o.pos = ctx.add(o.pos, n); it.mutate(o, 'pos')
        c = ctx.concrete_bytes(r)
        return c if c is not None else r
    def write(it, a, k):
        o.writes += 1
        it.mutate(o, 'writes')
        raise Unsupported('write to a file object')
    d = {'seek': seek, 'read': read, 'tell': lambda it, a, k: o.pos, 'close': lambda it, a, k: None, 'write': write, 'flush': lambda it, a, k: None,
         'truncate': write}
    if name in d: it.trusted.add('file object: seek/read/tell'); return Model(name, d[name])
    return None

def all_byte(it, r, c):
    """Every byte of the rope equals c (a function of the content; only finitely many consequences are stated)."""
    ctx = it.ctx
    n = ctx.rlen(r)
    if not is_sym(n) and n <= 64: return ctx.conj([it.eq(x, c) for x in ctx.byte_list(r)])
    b = it.opaque_bool('all_byte_%d' % c, it.opaque_id('all_byte_%d' % c, [SBytes(r.segs)]))
    ctx.assume(z3.Implies(z3.Not(b), n > 0) if is_sym(n) else z3.BoolVal(True))
    for i in range(8):
        if is_sym(n): ctx.assume(z3.Implies(z3.And(b, n > i), ctx.rsel_ite(r, i) == c))
        elif n > i: ctx.assume(z3.Implies(b, ctx.rsel_ite(r, i) == c))
    return b

def ctx_eq(x, c): return x == c if is_sym(x) else z3.BoolVal(x == c)
def bytes_method(it, o, name):
    ctx = it.ctx
    def decode(it, a, k):
        enc = a[0] if a else k.get('encoding', 'utf-8'); err = a[1] if len(a) > 1 else k.get('errors', 'strict')
        r = ctx.rope(o)
        c = ctx.concrete_bytes(r)
        if c is not None:
            try: return c.decode(enc, err)
            except Exception as e: raise PyRaise(e)
        enc = enc.lower().replace('_', '-').replace('utf-16le', 'utf-16-le').replace('utf16le', 'utf-16-le')
        s = SBytes(r.segs)
        it.trusted.add('bytes.decode')
        if err == 'strict':
            if not ctx.decide(it.opaque_bool('decodable_' + enc, s)):
                raise PyRaise(UnicodeDecodeError(enc, b'', 0, 1, 'invalid'))
        # strings of decodable input do not depend on the error handler; they may differ otherwise
        return SStr('dec:%s:%s' % (enc, err), s)
    def startswith(it, a, k):
        p = a[0]
        ps = p if isinstance(p, tuple) else (p,)
        cs = []
        for q in ps:
            q = ctx.rope(q); n = ctx.rlen(q); r = ctx.rope(o); m = ctx.rlen(r)
            if not ctx.decide(ctx._le(n, m)): continue
            cs.append(ctx.bytes_eq(ctx.rslice(r, 0, n), q))
        return it.disj(cs)
    def endswith(it, a, k):
        q = ctx.rope(a[0]); n = ctx.rlen(q); r = ctx.rope(o); m = ctx.rlen(r)
        if not ctx.decide(ctx._le(n, m)): return False
        return ctx.bytes_eq(ctx.rslice(r, ctx.sub(m, n), m), q)
    def hexm(it, a, k): return SStr('hex', SBytes(ctx.rope(o).segs))
    def bs_or_unsupported():
        b = ctx.byte_list(ctx.rope(o))
        if b is None: raise Unsupported('bytes.%s on symbolic length' % name)
        return b
    def one_char(a):
        return bytes(a[0])[0] if a and isinstance(a[0], (bytes, bytearray)) and len(a[0]) == 1 else None
    def sym_strip(it, a, side):
        # bytes of unknown length stripped of one byte value
        c = one_char(a)
        if c is None: return None
        r = ctx.rope(o); n = ctx.rlen(r)
        if not is_sym(n) and n <= 8: return None
        allc = all_byte(it, r, c)
        if ctx.decide(allc): return b''
        k = it.opaque_int('%s_%d' % (side, c), SBytes(r.segs))
        ctx.assume(z3.And(k >= 0, k < n))
        done = ctx.__dict__.setdefault('strip_facts', {})
        if not is_sym(n) and n <= 64 and (side, k.get_id()) not in done:
            done[(side, k.get_id())] = k
            bs = ctx.byte_list(r)
            for j, x in enumerate(bs): ctx.assume(z3.Implies(k > j if side == 'lstrip' else k < j, ctx_eq(x, c)))
        if side == 'lstrip':
            ctx.assume(ctx.rsel(r, k) != c)
            return ctx.rslice(r, k, n)
        ctx.assume(ctx.rsel(r, k) != c)
        return ctx.rslice(r, 0, ctx.add(k, 1))
    def strip(it, a, k):
        r = ctx.rope(o); n = ctx.rlen(r); c = one_char(a)
        if (is_sym(n) or n > 64) and c is not None and ctx.decide(all_byte(it, r, c)): return b''
        x = lstrip(it, a, k)
        return x if isinstance(x, bytes) and not x else bytes_method(it, x, 'rstrip').fn(it, a, k) if not isinstance(x, bytes) else x.strip(*a)
    def rstrip(it, a, k):
        x = sym_strip(it, a, 'rstrip')
        if x is not None: return x
        b = bs_or_unsupported()
        chars = a[0] if a else b' \t\n\r\x0b\x0c'
        n = len(b)
        while n and it.truth(it.disj([it.eq(b[n - 1], c) for c in chars])): n -= 1
        return ctx.rslice(ctx.rope(o), 0, n)
    def lstrip(it, a, k):
        x = sym_strip(it, a, 'lstrip')
        if x is not None: return x
        b = bs_or_unsupported()
        chars = a[0] if a else b' \t\n\r\x0b\x0c'
        n = 0
        while n < len(b) and it.truth(it.disj([it.eq(b[n], c) for c in chars])): n += 1
        return ctx.rslice(ctx.rope(o), n, len(b))
    def find(it, a, k):
        b = bs_or_unsupported(); p = ctx.byte_list(ctx.rope(a[0])) if isbytes(a[0]) else [a[0]]
        st = a[1] if len(a) > 1 else 0
        for i in range(st, len(b) - len(p) + 1):
            if it.truth(ctx.conj([it.eq(x, y) for x, y in zip(b[i:], p)])): return i
        if name == 'index': raise PyRaise(ValueError('subsection not found'))
        return -1
    def count(it, a, k):
        b = bs_or_unsupported(); p = a[0]
        p = p[0] if isinstance(p, bytes) and len(p) == 1 else p
        n = 0
        for x in b:
            if it.truth(it.eq(x, p)): n += 1
        return n
    d = {'decode': decode, 'startswith': startswith, 'endswith': endswith, 'hex': hexm, 'rstrip': rstrip, 'lstrip': lstrip, 'strip': strip, 'find': find, 'index': find, 'count': count}
    if isinstance(o, SBA):
        def extend(it, a, k):
            o.val = ctx.concat(o.val, ctx.rope(a[0]) if isbytes(a[0]) else ctx.rope(bytes_of_list(it, list(a[0].items)))); it.mutate(o, 'val')
        def append(it, a, k):
            o.val = ctx.concat(o.val, ctx.rope(bytes_of_list(it, [a[0]]))); it.mutate(o, 'val')
        d.update({'extend': extend, 'append': append, 'copy': lambda it, a, k: ctx.born(SBA(o.val))})
    if name in d: return Model(name, d[name])
    raise Unsupported('bytes.' + name)

def list_cat(it, a, b):
    """(prefix, items) of a + b where b begins with an opaque sequence."""
    ai = list(a.items) if isinstance(a, SList) else list(a)
    ap = a.prefix if isinstance(a, SList) else None
    if ap is None and not ai: return b.prefix, list(b.items)
    n = it.opaque_id('cat', [SList(ai, ap), SList((), b.prefix)])
    memo = it.ctx.__dict__.setdefault('cats', {})
    if n not in memo: memo[n] = OpaqueSeq('cat!%d' % n, it.ctx.add(it.ctx.add(ap.length, len(ai)) if ap is not None else len(ai), b.prefix.length))
    return memo[n], list(b.items)

def list_method(it, o, name):
    ctx = it.ctx
    def append(it, a, k): o.items.append(a[0]); it.mutate(o, 'items')
    def extend(it, a, k):
        if isinstance(a[0], SList) and a[0].prefix is not None:
            o.prefix, o.items = list_cat(it, o, a[0])
            it.mutate(o, 'items')
            return
        xs = yield from it.to_list(a[0])
        o.items.extend(xs); it.mutate(o, 'items')
    def pop(it, a, k):
        i = a[0] if a else -1
        if is_sym(i): raise Unsupported('pop')
        n = len(o.items)
        if o.prefix is None:
            if not n: raise PyRaise(IndexError('pop from empty list'))
            if not -n <= i < n: raise PyRaise(IndexError('pop index out of range'))
            v = o.items.pop(i)
        else:
            if not (i < 0 and -i <= n): raise Unsupported('pop from opaque prefix')
            v = o.items.pop(i)
        it.mutate(o, 'items')
        return v
    def insert(it, a, k):
        if o.prefix is not None or is_sym(a[0]): raise Unsupported('insert')
        o.items.insert(a[0], a[1]); it.mutate(o, 'items')
    def reverse(it, a, k):
        if o.prefix is not None:
            n = it.opaque_id('reversed', [SList(o.items, o.prefix)])
            memo = ctx.__dict__.setdefault('revs', {})
            if n not in memo: memo[n] = OpaqueSeq('rev!%d' % n, ctx.add(o.prefix.length, len(o.items)))
            o.prefix = memo[n]; o.items[:] = []; it.mutate(o, 'items')
            return
        o.items.reverse(); it.mutate(o, 'items')
    def sort(it, a, k):
        if o.prefix is not None: raise Unsupported('sort')
        o.items[:] = yield from sort_list(it, o.items, k.get('key'), k.get('reverse', False)); it.mutate(o, 'items')
    def remove(it, a, k):
        if o.prefix is not None: raise Unsupported('remove')
        for n, x in enumerate(o.items):
            if it.truth(it.eq(x, a[0])): del o.items[n]; it.mutate(o, 'items'); return
        raise PyRaise(ValueError('not in list'))
    def index(it, a, k):
        if o.prefix is not None: raise Unsupported('index')
        for n, x in enumerate(o.items):
            if it.truth(it.eq(x, a[0])): return n
        raise PyRaise(ValueError('not in list'))
    def count(it, a, k):
        if o.prefix is not None: raise Unsupported('count')
        return sum(1 for x in o.items if it.truth(it.eq(x, a[0])))
    def clear(it, a, k): o.items.clear(); o.prefix = None; it.mutate(o, 'items')
    d = {'append': append, 'extend': extend, 'pop': pop, 'insert': insert, 'reverse': reverse, 'sort': sort, 'remove': remove, 'index': index, 'count': count, 'clear': clear,
         'copy': lambda it, a, k: ctx.born(SList(o.items, o.prefix))}
    if name in d: return Model(name, d[name])
    raise PyRaise(AttributeError(name))

def sort_list(it, items, key, reverse):
    ks = []
    for x in items:
        ks.append(((yield from it.call(key, [x], {})) if key is not None else x, x))
    out = []
    if it.truth(reverse): ks = ks[::-1]
    for kx in ks:           # stable insertion
        n = len(out)
        while n > 0 and it.truth(order(it, 'Lt', kx[0], out[n - 1][0])): n -= 1
        out.insert(n, kx)
    r = [x for _, x in out]
    return r[::-1] if it.truth(reverse) else r

def set_method(it, o, name):
    def add(it, a, k): set_add(it, o, a[0])
    def discard(it, a, k):
        if o.arr is not None: raise Unsupported('set.discard')
        for n, y in enumerate(o.items):
            if it.truth(it.eq(y, a[0])): del o.items[n]; it.mutate(o, 'items'); return
        if name == 'remove': raise PyRaise(KeyError())
    def update(it, a, k):
        for s in a:
            for x in (yield from it.to_list(s)): set_add(it, o, x)
    def clear(it, a, k): o.items.clear(); o.arr = None; it.mutate(o, 'items')
    d = {'add': add, 'discard': discard, 'remove': discard, 'update': update, 'clear': clear, 'copy': lambda it, a, k: it.ctx.born(SSet(o.items, o.arr))}
    if name in d: return Model(name, d[name])
    raise Unsupported('set.' + name)

def dict_method(it, o, name):
    ctx = it.ctx
    def get(it, a, k):
        v = dict_get(it, o, a[0])
        return (a[1] if len(a) > 1 else None) if v is NO else v
    def nb():
        if o.base is not None: raise Unsupported('view of opaque dict')
    def keys(it, a, k): 
        if o.base is not None: return o
        return ctx.born(SList([x for x, _ in o.entries]))
    def values(it, a, k): nb(); return ctx.born(SList([v for _, v in o.entries]))
    def items(it, a, k): nb(); return ctx.born(SList([(x, v) for x, v in o.entries]))
    def setdefault(it, a, k):
        v = dict_get(it, o, a[0])
        if v is NO:
            v = a[1] if len(a) > 1 else None
            o.entries.append((a[0], v)); it.mutate(o, 'entries')
        return v
    def pop(it, a, k):
        nb()
        for n, (kk, v) in enumerate(o.entries):
            if it.truth(it.eq(kk, a[0])): del o.entries[n]; it.mutate(o, 'entries'); return v
        if len(a) > 1: return a[1]
        raise PyRaise(KeyError())
    def update(it, a, k):
        if isinstance(a[0], SDict) and a[0].base is None:
            for kk, v in a[0].entries: dict_set(it, o, kk, v)
        else: raise Unsupported('dict.update')
    def clear(it, a, k): o.entries.clear(); o.base = None; it.mutate(o, 'entries')
    d = {'get': get, 'keys': keys, 'values': values, 'items': items, 'setdefault': setdefault, 'pop': pop, 'update': update, 'clear': clear,
         'copy': lambda it, a, k: ctx.born(SDict(o.entries, o.base))}
    if name in d: return Model(name, d[name])
    raise Unsupported('dict.' + name)

def str_slice(o, a, b, st):
    if a is None and isinstance(b, int) and not isinstance(b, bool) and b == 0 and st is None: return ''
    a = 0 if a is None else a; st = 1 if st is None else st
    return SStr('slice', o, a, b, st)
def str_find(it, o, c, tag='find'):
    p = it.opaque_int('str.' + tag, o, c)
    n = it.opaque_int('strlen', o)
    it.ctx.assume(z3.And(p >= -1, n >= 0, p < n if len(c) == 1 else p <= n))
    return p
def str_method(it, o, name):
    def opaque(it, a, k): return SStr(name, o, tuple(a))
    def opb(it, a, k): return it.opaque_bool('str.' + name, o, tuple(a))
    if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'title', 'swapcase', 'casefold'): return Model(name, opaque)
    if name in ('startswith', 'endswith', 'isupper', 'islower', 'isdigit'): return Model(name, opb)
    if name == 'encode': return Model(name, lambda it, a, k: (_ for _ in ()).throw(Unsupported('str.encode')))
    if name in ('find', 'rfind', 'index', 'rindex', 'partition', 'split'):
        def fd(it, a, k):
            if k or not a or not isinstance(a[0], str) or not a[0] or (len(a) > 1 and name != 'split'): raise Unsupported('str.' + name)
            if name == 'split' and len(a) > 1 and a[1] != 1: raise Unsupported('str.split')
            c = a[0]; p = str_find(it, o, c, 'rfind' if name[0] == 'r' else 'find')
            if name in ('find', 'rfind'): return p
            if it.ctx.decide(p < 0):
                if name in ('index', 'rindex'): raise PyRaise(ValueError('substring not found'))
                return (o, '', '') if name == 'partition' else it.ctx.born(SList((o,)))
            if name in ('index', 'rindex'): return p
            first = str_slice(o, None, p, None); rest = str_slice(o, it.ctx.add(p, len(c)), None, None)
            if name == 'partition': return (first, c, rest)
            return it.ctx.born(SList((first, rest if len(a) > 1 else Poison('the rest of a split string'))))
        return Model(name, fd)
    raise Unsupported('str.' + name)

def int_to_bytes(it, v, n, bo, sg):
    ctx = it.ctx
    if is_sym(n) or it.truth(sg): raise Unsupported('to_bytes')
    if not ctx.decide(z3.And(v >= 0, v < (1 << (8 * n)))): raise PyRaise(OverflowError('int too big to convert'))
    xs = [ctx.norm((v / z3.IntVal(1 << (8 * k))) % 256) for k in range(n)]
    if bo == 'big': xs = xs[::-1]
    return bytes_of_list(it, xs)

def object_method(it, o, a, args, kw):
    if a is object.__init__: return None
    if a in (BaseException.__init__, Exception.__init__): o.attrs['args'] = tuple(args); return None
    if getattr(a, '__name__', '') == '__str__': return SStr('str', o)
    raise Unsupported('object method %r' % (a,))

def native_method(it, f, args, kw):
    s = getattr(f, '__self__', None)
    nm = getattr(f, '__name__', None)
    if isinstance(s, (bytes, bytearray)) and nm in ('startswith', 'endswith', 'join'):
        if nm == 'join':
            return bytes_join(it, s, args[0])
        m = bytes_method(it, it.ctx.rope(s), nm)
        return m.fn(it, args, kw)
    if isinstance(s, tuple) and nm == '_replace':
        return f(**kw)
    if isinstance(s, tuple) and nm in ('index', 'count'):
        for n, x in enumerate(s):
            if it.truth(it.eq(x, args[0])): return n
        raise PyRaise(ValueError())
    if isinstance(s, str) and nm in ('startswith', 'endswith', 'find', 'split'):
        return NO
    return NO

def bytes_join(it, sep, xs):
    ctx = it.ctx
    pre = None
    if isinstance(xs, SList): items = xs.items; pre = xs.prefix
    elif isinstance(xs, (list, tuple)): items = list(xs)
    else: return NO
    if not all(isbytes(x) for x in items): raise PyRaise(TypeError('sequence item'))
    segs = []
    if pre is not None:
        if len(sep): raise Unsupported('join of an opaque list with a separator')
        memo = ctx.__dict__.setdefault('joined', {})
        if pre.name not in memo:
            n = ctx.fresh_int('joinlen'); ctx.assume(n >= 0)
            memo[pre.name] = (ctx.fresh_arr('joined'), 0, n)
        segs.append(memo[pre.name])
    for n, x in enumerate(items):
        if n and len(sep): segs += ctx.rope(bytes(sep)).segs
        segs += ctx.rope(x).segs
    r = SBytes([g for g in segs if not (isinstance(g[2], int) and g[2] == 0)])
    c = ctx.concrete_bytes(r)
    return c if c is not None else r

_BLOCK = {open, print, input, exec, eval, compile, __import__}
def pure_native(f):
    try:
        if f in _BLOCK: return False
    except TypeError: pass
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodWrapperType)): 
        s = getattr(f, '__self__', None)
        if isinstance(s, types.ModuleType): return s.__name__ in ('builtins', '_struct', 'struct', 'math', 'binascii', 'zlib', '_operator')
        return isinstance(s, (int, str, bytes, bytearray, float, tuple, dict, list, frozenset, set, range, type, _dt.date, _dt.time, _dt.timedelta, type(None)))
    if isinstance(f, type): return f in (int, str, bytes, bytearray, float, tuple, frozenset, range, bool, uuid.UUID, _dt.datetime, _dt.date, _dt.time, _dt.timedelta, complex)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)): return True
    if isinstance(f, types.MethodType): return isinstance(f.__self__, (uuid.UUID, _dt.datetime, type)) 
    if isinstance(f, types.FunctionType): return f.__module__ in ('struct', 'uuid', 'datetime', 'string')
    return False

# ---------------------------------------------------------------- built-in functions
def m_len(it, a, k):
    v = a[0]
    if isbytes(v): return it.ctx.rlen(it.ctx.rope(v))
    if isinstance(v, SList): return it.slen(v)
    if isinstance(v, SSet):
        if v.arr is not None: raise Unsupported('len of symbolic set')
        return len(v.items)
    if isinstance(v, SDict):
        if v.base is not None: raise Unsupported('len of symbolic dict')
        return len(v.entries)
    if isinstance(v, SStr):
        n = it.opaque_int('strlen', v); it.ctx.assume(n >= 0); return n
    if isinstance(v, SRange):
        if v.s == 1: return it.ctx.norm(z3.If(v.b > v.a, v.b - v.a, z3.IntVal(0)))
        raise Unsupported('len(range)')
    if isinstance(v, SObj):
        return (yield from it.call(it.getattr(v, '__len__'), [], {}))
    try: return len(v)
    except TypeError as e: raise PyRaise(e)

def m_range(it, a, k):
    a = [it.ctx.I(x) if isint(x) else P(it, TypeError('range')) for x in a]
    if all(not is_sym(x) for x in a):
        try: return range(*a)
        except Exception as e: raise PyRaise(e)
    if len(a) == 1: return SRange(0, a[0], 1)
    if len(a) == 2: return SRange(a[0], a[1], 1)
    if is_sym(a[2]):
        raise Unsupported('symbolic range step')
    if a[2] == 0: raise PyRaise(ValueError('range() arg 3 must not be zero'))
    return SRange(a[0], a[1], a[2])

def minmax(op):
    def f(it, a, k):
        if k.get('key') is not None: raise Unsupported('min/max key')
        xs = list(a)
        if len(xs) == 1: xs = yield from it.to_list(xs[0])
        if not xs:
            if 'default' in k: return k['default']
            raise PyRaise(ValueError('empty sequence'))
        r = xs[0]
        for x in xs[1:]:
            c = order(it, op, x, r)
            if isinstance(c, bool): r = x if c else r
            elif isint(x) and isint(r):
                if it.ctx.decide(c): r = x
            else:
                if it.truth(c): r = x
        return r
    return f

def m_isinstance(it, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinstance(x, type) and issubclass(type_of(it, v), x) for x in ts)

def type_of(it, v):
    if isinstance(v, SObj): return v.cls
    if isinstance(v, z3.BoolRef): return bool
    if isinstance(v, z3.ArithRef): return int
    if isinstance(v, SBytes): return bytes
    if isinstance(v, SBA): return bytearray
    if isinstance(v, SList): return list
    if isinstance(v, SSet): return set
    if isinstance(v, SDict): return dict
    if isinstance(v, SStr): return str
    if isinstance(v, SDT): return _dt.datetime
    if isinstance(v, SDelta): return _dt.timedelta
    if isinstance(v, SDate): return _dt.date
    if isinstance(v, STime): return _dt.time
    if isinstance(v, SRange): return range
    if isinstance(v, SOpaque) and v.tag.startswith('uuid'): return uuid.UUID
    if isinstance(v, SFile): return io.BytesIO
    if isinstance(v, Poison): raise Unsupported('use of a loop-modified value')
    return type(v)

def m_type(it, a, k):
    if len(a) != 1: raise Unsupported('type()')
    return type_of(it, a[0])

def m_int(it, a, k):
    if not a: return 0
    v = a[0]
    if isinstance(v, (z3.ArithRef, z3.BoolRef)): return it.ctx.I(v)
    if it.concrete(v):
        try: return int(*a, **k)
        except Exception as e: raise PyRaise(e)
    raise Unsupported('int()')

def m_bool(it, a, k):
    v = a[0] if a else False
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, z3.ArithRef): return it.simp(v != 0)
    return it.truth(v)

def m_abs(it, a, k):
    v = a[0]
    if not is_sym(v): return abs(v)
    return it.ctx.norm(z3.If(v < 0, -v, v))

def m_str(it, a, k):
    if not a: return ''
    return to_str(it, a[0])

def m_bytes(it, a, k):
    if not a: return b''
    v = a[0]
    if isbytes(v):
        r = it.ctx.rope(v); c = it.ctx.concrete_bytes(r)
        return c if c is not None else SBytes(r.segs)
    if isint(v):
        return binop(it, 'Mult', b'\x00', v)
    if isstr(v): raise Unsupported('bytes(str)')
    xs = yield from it.to_list(v)
    return bytes_of_list(it, xs)

def m_bytearray(it, a, k):
    v = yield from m_bytes(it, a, k)
    return it.ctx.born(SBA(SBytes(it.ctx.rope(v).segs)))

def m_list(it, a, k):
    if not a: return it.ctx.born(SList())
    if isinstance(a[0], SList): return it.ctx.born(SList(a[0].items, a[0].prefix))
    xs = yield from it.to_list(a[0])
    return it.ctx.born(SList(xs))
def m_tuple(it, a, k):
    if not a: return ()
    xs = yield from it.to_list(a[0])
    return tuple(xs)
def m_set(it, a, k):
    s = it.ctx.born(SSet())
    if a:
        for x in (yield from it.to_list(a[0])): set_add(it, s, x)
    return s
def m_dict(it, a, k):
    d = it.ctx.born(SDict())
    if a:
        if isinstance(a[0], SDict): d.entries = list(a[0].entries); d.base = a[0].base
        elif isinstance(a[0], dict): d.entries = list(a[0].items())
        else:
            for kv in (yield from it.to_list(a[0])):
                x, y = kv
                dict_set(it, d, x, y)
    for kk, v in k.items(): dict_set(it, d, kk, v)
    return d
def m_enumerate(it, a, k):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    xs = yield from it.to_list(a[0])
    return it.ctx.born(SList([(it.ctx.add(st, n), x) for n, x in enumerate(xs)]))
def m_zip(it, a, k):
    ls = []
    for x in a: ls.append((yield from it.to_list(x)))
    return it.ctx.born(SList(list(zip(*ls))))
def m_reversed(it, a, k):
    xs = yield from it.to_list(a[0])
    return it.ctx.born(SList(xs[::-1]))
def m_sorted(it, a, k):
    xs = yield from it.to_list(a[0])
    return it.ctx.born(SList((yield from sort_list(it, xs, k.get('key'), k.get('reverse', False)))))
def m_sum(it, a, k):
    r = a[1] if len(a) > 1 else 0
    for x in (yield from it.to_list(a[0])): r = binop(it, 'Add', r, x)
    return r
def m_any(it, a, k):
    if isinstance(a[0], (SBytes, SBA)) and (is_sym(it.ctx.rlen(it.ctx.rope(a[0]))) or it.ctx.rlen(it.ctx.rope(a[0])) > 64):
        return z3.Not(all_byte(it, it.ctx.rope(a[0]), 0))
    for x in (yield from it.to_list(a[0])):
        if it.truth(x): return True
    return False
def m_all(it, a, k):
    for x in (yield from it.to_list(a[0])):
        if not it.truth(x): return False
    return True
def m_next(it, a, k):
    g = a[0]
    if isinstance(g, SGen):
        from .interp import MISSING
        x = yield from it.next_gen(g)
        if x is MISSING:
            if len(a) > 1: return a[1]
            raise PyRaise(StopIteration())
        return x
    if isinstance(g, ListIter):
        if g.idx < len(g.seq):
            g.idx += 1; return g.seq[g.idx - 1]
        if len(a) > 1: return a[1]
        raise PyRaise(StopIteration())
    raise Unsupported('next()')
def m_iter(it, a, k):
    if isinstance(a[0], (SGen, ListIter)): return a[0]
    xs = yield from it.to_list(a[0])
    return ListIter(xs)
def m_ord(it, a, k):
    v = a[0]
    if isbytes(v):
        bs = it.ctx.byte_list(it.ctx.rope(v))
        if bs is not None and len(bs) == 1: return bs[0]
    if isinstance(v, str): return ord(v)
    if isinstance(v, SStr) and v.tag == 'chr': return v.args[0]
    raise Unsupported('ord')
def m_chr(it, a, k):
    if not is_sym(a[0]): return chr(a[0])
    return SStr('chr', a[0])
def m_hex(it, a, k):
    if not is_sym(a[0]): return hex(a[0])
    return SStr('hexint', a[0])
def m_hasattr(it, a, k):
    try: it.getattr(a[0], a[1]); return True
    except PyRaise: return False
def m_getattr(it, a, k):
    try: return (yield from it.geta(a[0], a[1]))
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError): return a[2]
        raise
def m_divmod(it, a, k):
    return (binop(it, 'FloorDiv', a[0], a[1]), binop(it, 'Mod', a[0], a[1]))
def m_noop(it, a, k): return None
def m_super(it, a, k): raise Unsupported('super with arguments')
def m_objnew(it, a, k): return it.ctx.born(SObj(a[0]))
def m_pow(it, a, k): return binop(it, 'Pow', a[0], a[1])
def m_round(it, a, k): raise Unsupported('round')
def m_id(it, a, k): raise Unsupported('id')
def m_issubclass(it, a, k): return issubclass(*a)
def m_callable(it, a, k): raise Unsupported('callable')
def m_filter(it, a, k):
    out = []
    for x in (yield from it.to_list(a[1])):
        c = (yield from it.call(a[0], [x], {})) if a[0] is not None else x
        if it.truth(c): out.append(x)
    return it.ctx.born(SList(out))
def m_map(it, a, k):
    out = []
    for x in (yield from it.to_list(a[1])): out.append((yield from it.call(a[0], [x], {})))
    return it.ctx.born(SList(out))

# ---------------------------------------------------------------- struct
def parse_fmt(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    little = True
    i = 0
    native = True
    if fmt and fmt[0] in '<>=!@':
        little = fmt[0] not in '>!'
        native = fmt[0] == '@'
        i = 1
    items = []
    off = 0
    num = ''
    while i < len(fmt):
        c = fmt[i]; i += 1
        if c.isspace(): continue
        if c.isdigit(): num += c; continue
        n = int(num) if num else 1
        had = bool(num)
        num = ''
        if native and struct.calcsize('=' + c) != struct.calcsize('@' + c): raise Unsupported('native struct size')
        if c == 's':
            items.append(('s', off, n)); off += n; continue
        if c == 'x': off += n; continue
        sz = struct.calcsize('=' + c)
        for _ in range(n):
            if native: off = (off + sz - 1) // sz * sz
            items.append((c, off, sz)); off += sz
    return little, items, off

def m_unpack(it, a, k):
    ctx = it.ctx
    fmt, buf = a
    if not isbytes(buf): raise PyRaise(TypeError('a bytes-like object is required'))
    little, items, total = parse_fmt(fmt)
    r = ctx.rope(buf)
    n = ctx.rlen(r)
    if not ctx.decide(ctx._eq(n, total)): raise PyRaise(struct.error('unpack requires a buffer of %d bytes' % total))
    return unpack_items(it, r, little, items, 0)

def unpack_items(it, r, little, items, base):
    ctx = it.ctx
    out = []
    for c, off, sz in items:
        at = ctx.add(base, off)
        if c == 's':
            v = ctx.rslice(r, at, ctx.add(at, sz)) if sz else b''
            cc = ctx.concrete_bytes(v)
            out.append(cc if cc is not None else v)
            continue
        bs = [ctx.rsel_ite(r, ctx.add(at, j)) for j in range(sz)]
        if not little: bs = bs[::-1]
        if c in 'BHILQN': out.append(ctx.le_int(bs))
        elif c in 'bhilqn': out.append(ctx.le_int(bs, True))
        elif c == '?': out.append(it.simp(bs[0] != 0) if is_sym(bs[0]) else bool(bs[0]))
        elif c == 'c': out.append(bytes_of_list(it, bs))
        else: raise Unsupported('struct code ' + c)
    return tuple(out)

def m_unpack_from(it, a, k):
    ctx = it.ctx
    fmt, buf = a[0], a[1]
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    little, items, total = parse_fmt(fmt)
    r = ctx.rope(buf); n = ctx.rlen(r)
    if ctx.decide(ctx._lt(off, 0)):
        off = ctx.add(off, n)
        if ctx.decide(ctx._lt(off, 0)): raise PyRaise(struct.error('offset out of range'))
    if not ctx.decide(ctx._le(ctx.add(off, total), n)): raise PyRaise(struct.error('unpack_from requires a larger buffer'))
    return unpack_items(it, r, little, items, off)

def m_pack(it, a, k):
    ctx = it.ctx
    if all(it.concrete(x) for x in a):
        try: return struct.pack(*a)
        except Exception as e: raise PyRaise(e)
    little, items, total = parse_fmt(a[0])
    if len(items) != len(a) - 1: raise PyRaise(struct.error('pack expected'))
    r = SBytes([])
    pos = 0
    for (c, off, sz), v in zip(items, a[1:]):
        if off > pos: r = ctx.concat(r, ctx.seg_bytes(b'\x00' * (off - pos)))
        if c == 's':
            x = ctx.rope(v); n = ctx.rlen(x)
            if is_sym(n): raise Unsupported('pack s')
            x = ctx.rslice(x, 0, min(n, sz))
            r = ctx.concat(r, x)
            if n < sz: r = ctx.concat(r, ctx.seg_bytes(b'\x00' * (sz - n)))
        else:
            if not isint(v): raise PyRaise(struct.error('required argument is not an integer'))
            v = ctx.I(v)
            lo, hi = (0, (1 << 8 * sz) - 1) if c in 'BHILQN' else (-(1 << 8 * sz - 1), (1 << 8 * sz - 1) - 1)
            if c not in 'BHILQNbhilqn': raise Unsupported('pack code')
            if not ctx.decide(z3.And(v >= lo, v <= hi) if is_sym(v) else lo <= v <= hi): raise PyRaise(struct.error('argument out of range'))
            xs = [ctx.norm((v / z3.IntVal(1 << (8 * q))) % 256) if is_sym(v) else (v >> 8 * q) & 255 for q in range(sz)]
            if not little: xs = xs[::-1]
            r = ctx.concat(r, ctx.rope(bytes_of_list(it, xs)))
        pos = off + sz
    return r

# ---------------------------------------------------------------- datetime, uuid, crc
_DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def rng(ctx, v, lo, hi):
    return z3.And(v >= lo, v <= hi) if is_sym(v) else lo <= v <= hi

def civil_days(it, y, m, d):
    ctx = it.ctx
    for v in (y, m, d):
        if not isint(v): raise PyRaise(TypeError('an integer is required'))
    memo = ctx.__dict__.setdefault('civil', {})
    key = tuple(v.get_id() if is_sym(v) else v for v in (y, m, d))
    if key in memo: return memo[key][0]
    out = civil_days_new(it, y, m, d)
    memo[key] = (out, y, m, d)
    return out

def known_date(ctx, name):
    """An arbitrary valid date (its day number and its fields are unknown but fixed)."""
    y, m, d, n = [ctx.fresh_int(name + x) for x in ('_y', '_m', '_d', '_days')]
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    ctx.assume(z3.And(y >= 1980, y <= 2107, m >= 1, m <= 12, d >= 1, n >= 0,
                      d <= z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))))
    ctx.assume(z3.And(n >= 722814, n <= 769565))
    ctx.__dict__.setdefault('civil', {})[(y.get_id(), m.get_id(), d.get_id())] = (n, y, m, d)
    return SDate(n, (y, m, d))

def known_time(ctx, name):
    h, mi, se = [ctx.fresh_int(name + x) for x in ('_h', '_mi', '_s')]
    ctx.assume(z3.And(h >= 0, h <= 23, mi >= 0, mi <= 59, se >= 0, se <= 59))
    t = STime(((h * 60 + mi) * 60 + se) * 10**6)
    t.parts = (h, mi, se, 0)
    return t

def civil_days_new(it, y, m, d):
    ctx = it.ctx
    if not ctx.decide(rng(ctx, y, 1, 9999)): raise PyRaise(ValueError('year out of range'))
    if not ctx.decide(rng(ctx, m, 1, 12)): raise PyRaise(ValueError('month must be in 1..12'))
    m = ctx.concretize(m, 1, 12)
    y1 = ctx.sub(y, 1)
    dby = ctx.add(ctx.mul(y1, 365), ctx.floordivmod(y1, 4)[0])
    dby = ctx.add(ctx.sub(dby, ctx.floordivmod(y1, 100)[0]), ctx.floordivmod(y1, 400)[0])
    if is_sym(y): leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    else: leap = z3.BoolVal(y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    dim = _DIM[m]
    if m == 2: dim = ctx.norm(z3.If(leap, z3.IntVal(29), z3.IntVal(28)))
    ok = ctx.conj([ctx._le(1, d), ctx._le(d, dim)])
    if not ctx.decide(ok): raise PyRaise(ValueError('day is out of range for month'))
    before = sum(_DIM[1:m])
    if m > 2: before = ctx.norm(z3.If(leap, z3.IntVal(before + 1), z3.IntVal(before)))
    return ctx.add(ctx.add(dby, before), ctx.sub(d, 1))

def tod(it, h, mi, s, us):
    ctx = it.ctx
    for v, lim, nm in ((h, 23, 'hour'), (mi, 59, 'minute'), (s, 59, 'second'), (us, 999999, 'microsecond')):
        if not isint(v): raise PyRaise(TypeError('an integer is required'))
        if not ctx.decide(rng(ctx, v, 0, lim)): raise PyRaise(ValueError('%s out of range' % nm))
    return ctx.add(ctx.mul(ctx.add(ctx.mul(ctx.add(ctx.mul(h, 60), mi), 60), s), 10**6), us)

def c_datetime(it, a, k):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
    v = dict(zip(names, a)); v.update(k)
    if v.get('tzinfo') is not None or len(a) > 7: raise Unsupported('tzinfo')
    if all(it.concrete(x) for x in v.values()):
        try: return _dt.datetime(**v)
        except Exception as e: raise PyRaise(e)
    d = civil_days(it, v['year'], v['month'], v['day'])
    t = tod(it, v.get('hour', 0), v.get('minute', 0), v.get('second', 0), v.get('microsecond', 0))
    it.trusted.add('datetime arithmetic')
    return SDT(it.ctx.add(it.ctx.mul(d, 86400 * 10**6), t))
def c_date(it, a, k):
    names = ['year', 'month', 'day']
    v = dict(zip(names, a)); v.update(k)
    if all(it.concrete(x) for x in v.values()):
        try: return _dt.date(**v)
        except Exception as e: raise PyRaise(e)
    return SDate(civil_days(it, v['year'], v['month'], v['day']), (v['year'], v['month'], v['day']))
def c_time(it, a, k):
    names = ['hour', 'minute', 'second', 'microsecond']
    v = dict(zip(names, a)); v.update(k)
    if all(it.concrete(x) for x in v.values()):
        try: return _dt.time(**v)
        except Exception as e: raise PyRaise(e)
    t = STime(tod(it, v.get('hour', 0), v.get('minute', 0), v.get('second', 0), v.get('microsecond', 0)))
    t.parts = tuple(v.get(n, 0) for n in names)
    return t
def c_timedelta(it, a, k):
    ctx = it.ctx
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    v = dict(zip(names, a)); v.update(k)
    if all(it.concrete(x) for x in v.values()):
        try: return _dt.timedelta(**v)
        except Exception as e: raise PyRaise(e)
    mult = {'days': 86400 * 10**6, 'seconds': 10**6, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * 10**6, 'hours': 3600 * 10**6, 'weeks': 7 * 86400 * 10**6}
    us = 0
    for n, x in v.items():
        if isinstance(x, SRat) and n == 'microseconds':
            # int / int is correctly rounded (relative error <= 2**-53); timedelta() rounds the result to the nearest microsecond
            us = ctx.add(us, ctx.round_rat(x.num, x.den))
            it.trusted.add('float division (IEEE 754 double, correctly rounded)')
            continue
        if not isint(x): raise Unsupported('float timedelta')
        us = ctx.add(us, ctx.mul(ctx.I(x), mult[n]))
    lim = 1000000000 * 86400 * 10**6
    if not ctx.decide(z3.And(us > -lim, us < lim) if is_sym(us) else -lim < us < lim): raise PyRaise(OverflowError('days out of range'))
    it.trusted.add('datetime arithmetic')
    return SDelta(us)

def c_uuid(it, a, k):
    k = dict(k)
    if len(a) > 2: k['bytes_le'] = a[2]
    for nm, tag in (('bytes_le', 'uuid_le'), ('bytes', 'uuid_be')):
        if k.get(nm) is not None:
            b = k[nm]
            if isinstance(b, (SBA, bytearray)):
                if not it.ctx.decide(it.ctx._eq(it.ctx.rlen(it.ctx.rope(b)), 16)): raise PyRaise(ValueError('bytes is not a 16-char string'))
                raise PyRaise(AssertionError('not bytes'))
            if it.concrete(b):
                try: return uuid.UUID(**{nm: b})
                except Exception as e: raise PyRaise(e)
            r = it.ctx.rope(b)
            if not it.ctx.decide(it.ctx._eq(it.ctx.rlen(r), 16)): raise PyRaise(ValueError('bytes is not a 16-char string'))
            c = it.ctx.concrete_bytes(r)
            if c is not None: return uuid.UUID(**{nm: c})
            it.trusted.add('uuid.UUID')
            return SOpaque(tag, SBytes(r.segs))
    if all(it.concrete(x) for x in a) and all(it.concrete(x) for x in k.values()):
        try: return uuid.UUID(*a, **k)
        except Exception as e: raise PyRaise(e)
    raise Unsupported('uuid')

def m_crc32(it, a, k):
    c = it.ctx.concrete_bytes(it.ctx.rope(a[0]))
    if c is not None and all(it.concrete(x) for x in a[1:]): return zlib.crc32(c, *a[1:])
    n = it.opaque_id('crc32', [SBytes(it.ctx.rope(a[0]).segs)] + list(a[1:]))
    v = it.opaque_int('crc32_class', n)
    it.ctx.assume(z3.And(v >= 0, v < 2**32))
    it.trusted.add('binascii.crc32')
    return v

def c_bytesio(it, a, k):
    if not a: raise Unsupported('empty BytesIO')
    r = it.ctx.rope(a[0])
    return it.ctx.born(SFile(SBytes(r.segs), it.ctx.rlen(r), 0, 'BytesIO'))

def ctypes_wrap(bits, signed):
    class W: pass
    def f(it, a, k):
        v = it.ctx.I(a[0]) if a else 0
        m = it.ctx.band_const(v, (1 << bits) - 1)
        if signed:
            if is_sym(m): m = it.ctx.norm(z3.If(m >= 1 << (bits - 1), m - (1 << bits), m))
            elif m >= 1 << (bits - 1): m -= 1 << bits
        return it.ctx.born(SObj('ctypes', {'value': m}))
    return f

FUNCS = {
    len: m_len, min: minmax('Lt'), max: minmax('Gt'), isinstance: m_isinstance, abs: m_abs, any: m_any, all: m_all, next: m_next, iter: m_iter,
    ord: m_ord, chr: m_chr, hex: m_hex, hasattr: m_hasattr, getattr: m_getattr, divmod: m_divmod, sorted: m_sorted, sum: m_sum, pow: m_pow,
    round: m_round, id: m_id, print: m_noop, repr: m_str, issubclass: m_issubclass, callable: m_callable,
    struct.unpack: m_unpack, struct.unpack_from: m_unpack_from, struct.pack: m_pack, binascii.crc32: m_crc32, zlib.crc32: m_crc32,
    object.__new__: m_objnew, warnings.warn: m_noop,
}
CLASSES = {
    int: m_int, bool: m_bool, str: m_str, bytes: m_bytes, bytearray: m_bytearray, list: m_list, tuple: m_tuple, set: m_set, frozenset: m_set, dict: m_dict,
    range: m_range, enumerate: m_enumerate, zip: m_zip, reversed: m_reversed, type: m_type, filter: m_filter, map: m_map,
    _dt.datetime: c_datetime, _dt.date: c_date, _dt.time: c_time, _dt.timedelta: c_timedelta, uuid.UUID: c_uuid, io.BytesIO: c_bytesio,
    ctypes.c_uint32: ctypes_wrap(32, False), ctypes.c_uint16: ctypes_wrap(16, False), ctypes.c_uint8: ctypes_wrap(8, False),
    ctypes.c_int32: ctypes_wrap(32, True), ctypes.c_int8: ctypes_wrap(8, True), ctypes.c_int16: ctypes_wrap(16, True),
    ctypes.c_uint64: ctypes_wrap(64, False), ctypes.c_int64: ctypes_wrap(64, True),
}
