"""Symbolic values of the verification-condition generator.

Python integers are mathematical integers (z3 Int), so there is no machine-arithmetic assumption.  Byte strings are
ropes: lists of segments (source, offset, length) where a source is a z3 array Int->Int or a concrete bytes object.
"""
import z3

class Unsupported(Exception):
    """A construct or model outside the subset: the obligation is undecided, never a violation."""

class PathEnd(Exception):
    """The current path is finished (pruned or infeasible)."""

class PyRaise(Exception):
    """A Python exception raised inside interpreted code."""
    def __init__(self, exc):
        self.exc = exc          # SObj of an exception class, or a native exception instance
    @property
    def cls(self):
        return self.exc.cls if isinstance(self.exc, SObj) else type(self.exc)

class Poison:
    """Value of a local or field changed by a loop that no invariant describes."""
    def __init__(self, why): self.why = why
    def __repr__(self): return 'Poison(%s)' % self.why

class SBytes:
    """Immutable bytes."""
    __slots__ = ('segs', 'ba')
    def __init__(self, segs, ba=False):
        self.segs = segs
        self.ba = ba
    def __repr__(self): return 'SBytes(%r)' % (self.segs,)

class SBA:
    """bytearray: a mutable cell holding SBytes."""
    __slots__ = ('val', 'birth')
    def __init__(self, val): self.val = val; self.birth = 0

class SList:
    """Interpreted list: an opaque prefix (or None) followed by known items."""
    __slots__ = ('prefix', 'items', 'birth', 'hidden')
    def __init__(self, items=(), prefix=None):
        self.items = list(items); self.prefix = prefix; self.birth = 0
    def __repr__(self): return 'SList(%r,%r)' % (self.prefix, self.items)

class OpaqueSeq:
    """An unknown finite sequence: identity, symbolic length, elements produced on demand by `elem(i)`."""
    def __init__(self, name, length, elem=None):
        self.name = name; self.length = length; self.elem = elem; self.memo = []; self.members = None
    def __repr__(self): return 'Opaque(%s)' % self.name

class SSet:
    __slots__ = ('arr', 'items', 'birth')
    def __init__(self, items=(), arr=None):
        self.items = list(items); self.arr = arr; self.birth = 0

class SDict:
    """Interpreted dict: association list, later entries win, plus an optional opaque base (a Z3 map)."""
    __slots__ = ('entries', 'base', 'birth')
    def __init__(self, entries=(), base=None):
        self.entries = list(entries); self.base = base; self.birth = 0

class SObj:
    """Instance of a class of the code under verification (or of a modelled class)."""
    def __init__(self, cls, attrs=None):
        self.cls = cls; self.attrs = attrs if attrs is not None else {}; self.birth = 0
    def __repr__(self): return 'SObj(%s)' % (getattr(self.cls, '__name__', self.cls),)

class SFile:
    """Assumed contract of a seekable binary file object: fixed content, a position, short reads only at end of file."""
    def __init__(self, content, size, pos=0, name='file'):
        self.content = content      # SBytes
        self.size = size
        self.pos = pos
        self.name = name
        self.birth = 0
        self.writes = 0

class SStr:
    """Opaque string described by a tag and arguments (equal tags and arguments denote equal strings)."""
    __slots__ = ('tag', 'args')
    def __init__(self, tag, *args): self.tag = tag; self.args = args
    def __repr__(self): return 'SStr(%s,%r)' % (self.tag, self.args)

class SDT:
    """Naive datetime as microseconds since 0001-01-01 00:00:00."""
    __slots__ = ('us',)
    def __init__(self, us): self.us = us
class SDelta:
    __slots__ = ('us',)
    def __init__(self, us): self.us = us
class SDate:
    """date: days since 0001-01-01, and (y, m, d)."""
    __slots__ = ('days', 'ymd')
    def __init__(self, days, ymd=None): self.days = days; self.ymd = ymd
class STime:
    __slots__ = ('us', 'parts')
    def __init__(self, us): self.us = us; self.parts = None

class SOpaque:
    """Opaque value of a modelled external function, e.g. uuid.UUID(bytes_le=...): tag and arguments."""
    __slots__ = ('tag', 'args')
    def __init__(self, tag, *args): self.tag = tag; self.args = args

class SRat:
    """Result of int / int with a constant divisor: the correctly rounded double nearest num/den."""
    __slots__ = ('num', 'den')
    def __init__(self, num, den): self.num = num; self.den = den

class SRange:
    __slots__ = ('a', 'b', 's')
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s

class Closure:
    """A nested function or lambda of interpreted code."""
    def __init__(self, node, frame, qual, defaults, kwdefaults):
        self.node = node; self.frame = frame; self.qual = qual; self.defaults = defaults; self.kwdefaults = kwdefaults

class Bound:
    def __init__(self, func, self_): self.func = func; self.self_ = self_

class Model:
    """Bound method of a modelled object."""
    def __init__(self, name, fn): self.name = name; self.fn = fn

class SGen:
    """Interpreted generator object."""
    def __init__(self, gen, qual): self.gen = gen; self.qual = qual; self.done = False

class ListIter:
    def __init__(self, seq): self.seq = seq; self.idx = 0

def is_sym(v):
    return isinstance(v, z3.ExprRef)
