"""Input shapes of a contract: symbolic construction, concretisation from a model, native construction."""
import io
import z3
from .values import *

class Shape:
    def sym(self, ctx, name): raise NotImplementedError
    def value(self, ctx, pack): return pack            # engine value for one side
    def concrete(self, ctx, model, pack): raise NotImplementedError
    def native(self, c): return c                      # native value for one side
    def size_terms(self, pack): return []

def ev_int(model, t):
    if not is_sym(t): return int(t)
    v = model.eval(t, model_completion=True)
    if z3.is_bool(t): return z3.is_true(v)
    return v.as_long()

class Int(Shape):
    def __init__(self, lo=None, hi=None): self.lo = lo; self.hi = hi
    def sym(self, ctx, name):
        v = z3.Int(name)
        if self.lo is not None: ctx.assume(v >= self.lo)
        if self.hi is not None: ctx.assume(v <= self.hi)
        return v
    def concrete(self, ctx, model, p): return ev_int(model, p)

class Bool(Shape):
    def sym(self, ctx, name):
        return ctx.decide(z3.Bool(name))
    def concrete(self, ctx, model, p): return p

class Enum(Shape):
    def __init__(self, *vals): self.vals = vals
    def sym(self, ctx, name):
        t = z3.Int(name)
        ctx.assume(z3.And(t >= 0, t < len(self.vals)))
        return self.vals[ctx.concretize(t, 0, len(self.vals) - 1)]
    def concrete(self, ctx, model, p): return p

class Const(Shape):
    def __init__(self, v): self.v = v
    def sym(self, ctx, name): return self.v
    def concrete(self, ctx, model, p): return p

class Opt(Shape):
    def __init__(self, inner): self.inner = inner
    def sym(self, ctx, name):
        if ctx.decide(z3.Bool(name + '_isnone')): return None
        return self.inner.sym(ctx, name)
    def value(self, ctx, p): return None if p is None else self.inner.value(ctx, p)
    def concrete(self, ctx, model, p): return None if p is None else self.inner.concrete(ctx, model, p)
    def native(self, c): return None if c is None else self.inner.native(c)
    def size_terms(self, p): return [] if p is None else self.inner.size_terms(p)

def read_rope(ctx, model, rope, limit=1 << 17):
    out = bytearray()
    for (src, off, l) in rope.segs:
        n = ev_int(model, l); o = ev_int(model, off)
        if n > limit: raise Unsupported('model too large')
        if isinstance(src, bytes): out += src[o:o + n]; continue
        # evaluate the array once, then read its finite interpretation
        a = model.eval(src, model_completion=True)
        vals = {}
        default = 0
        while True:
            if z3.is_store(a):
                i, v = a.arg(1).as_long(), a.arg(2).as_long()
                vals.setdefault(i, v)
                a = a.arg(0)
            elif z3.is_const_array(a):
                default = a.arg(0).as_long(); break
            else:
                for i in range(n):
                    vals[o + i] = ev_int(model, z3.Select(src, z3.IntVal(o + i)))
                break
        for i in range(n):
            out.append(vals.get(o + i, default) & 255)
    return bytes(out)

class Bytes(Shape):
    """bytes of any length in [lo, hi]; n fixes the length."""
    def __init__(self, n=None, lo=0, hi=None, mutable=False):
        self.n = n; self.lo = lo; self.hi = hi; self.mutable = mutable
    def sym(self, ctx, name):
        from .ctx import INTARR
        arr = z3.Const(name, INTARR)
        if self.n is not None: l = self.n
        else:
            l = z3.Int(name + '_len')
            ctx.assume(l >= self.lo)
            if self.hi is not None: ctx.assume(l <= self.hi)
        return SBytes([(arr, 0, l)])
    def value(self, ctx, p):
        return ctx.born(SBA(SBytes(p.segs))) if self.mutable else p
    def concrete(self, ctx, model, p): return read_rope(ctx, model, p)
    def native(self, c): return bytearray(c) if self.mutable else bytes(c)
    def size_terms(self, p): return [l for (_, _, l) in p.segs if is_sym(l)]

class File(Bytes):
    """Seekable binary file with arbitrary content (position 0)."""
    def value(self, ctx, p):
        return ctx.born(SFile(p, ctx.rlen(p), 0))
    def native(self, c): return io.BytesIO(c)

class Seq(Shape):
    """A list of unknown length with elements of a given builder: elem(ctx, name) -> engine value (ints/tuples of ints)."""
    def __init__(self, elem, concrete_elem, hi=None):
        self.elem = elem; self.celem = concrete_elem; self.hi = hi
    def sym(self, ctx, name):
        n = z3.Int(name + '_len'); ctx.assume(n >= 0)
        if self.hi is not None: ctx.assume(n <= self.hi)
        return (name, n)
    def value(self, ctx, p):
        name, n = p
        el = self.elem
        memo = ctx.__dict__.setdefault('seqmemo', {}).setdefault(name, [])
        o = OpaqueSeq(name, n, lambda it, i: el(it.ctx, name, i))
        o.memo = memo
        return ctx.born(SList((), o))
    def concrete(self, ctx, model, p):
        name, n = p
        k = ev_int(model, n)
        if k > 2000: raise Unsupported('model too large')
        return [self.celem(ctx, model, name, i) for i in range(k)]
    def native(self, c): return list(c)
    def size_terms(self, p): return [p[1]]

def int_fn(name, i):
    """Uninterpreted integer function of an index (field of an opaque sequence element)."""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    return f(i if is_sym(i) else z3.IntVal(i))
