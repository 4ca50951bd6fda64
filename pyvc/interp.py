"""Symbolic interpreter over the Python AST of the code under verification.

Every function is read from its source file on each run; nothing is dropped except docstrings and the text of
exception messages (str.format on symbolic values gives an opaque string).  Evaluation methods are Python generators so
that a loop head ('cut' event) or a `yield` can suspend the interpreted program.
"""
import ast, builtins, inspect, os, struct, sys, types
import datetime as _dt
import z3
from .values import *
from .ctx import Ctx
from . import models

class FuncIndex:
    """Qualified name -> FunctionDef for a source file."""
    cache = {}
    @classmethod
    def get(cls, filename):
        filename = os.path.realpath(filename)
        if filename not in cls.cache:
            with open(filename, 'rb') as f: src = f.read()
            tree = ast.parse(src, filename)
            idx = {}
            def walk(node, prefix):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                        q = prefix + ch.name
                        if isinstance(ch, ast.FunctionDef):
                            idx.setdefault(q, []).append(ch)
                            walk(ch, q + '.<locals>.')
                        else:
                            walk(ch, q + '.')
                    elif isinstance(ch, ast.stmt) or isinstance(ch, ast.ExceptHandler):
                        walk(ch, prefix)
            walk(tree, '')
            cls.cache[filename] = idx
        return cls.cache[filename]

    lam_cache = {}
    @classmethod
    def lambdas(cls, filename):
        filename = os.path.realpath(filename)
        if filename not in cls.lam_cache:
            with open(filename, 'rb') as f: tree = ast.parse(f.read(), filename)
            cls.lam_cache[filename] = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
        return cls.lam_cache[filename]

_has_yield = {}
def is_generator(node):
    k = id(node)
    if k not in _has_yield:
        def scan(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
                if isinstance(ch, (ast.Yield, ast.YieldFrom)): return True
                if scan(ch): return True
            return False
        _has_yield[k] = scan(node)
    return _has_yield[k]

_loop_ord = {}
def loop_ordinal(fnode, lnode):
    k = id(fnode)
    if k not in _loop_ord:
        d = {}
        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                if n is fnode: s.generic_visit(n)
            def visit_Lambda(s, n): pass
            def visit_While(s, n): d[id(n)] = len(d); s.generic_visit(n)
            def visit_For(s, n): d[id(n)] = len(d); s.generic_visit(n)
        V().visit(fnode)
        _loop_ord[k] = d
    return _loop_ord[k].get(id(lnode), -1)

_assigned = {}
def assigned_names(lnode):
    """Local names a loop may bind."""
    k = id(lnode)
    if k not in _assigned:
        s = set()
        def names(t):
            if isinstance(t, ast.Name): s.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: names(e)
            elif isinstance(t, ast.Starred): names(t.value)
        for n in ast.walk(lnode):
            if isinstance(n, ast.Assign):
                for t in n.targets: names(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)): names(n.target)
            elif isinstance(n, ast.For): names(n.target)
            elif isinstance(n, ast.ExceptHandler) and n.name: s.add(n.name)
            elif isinstance(n, ast.FunctionDef): s.add(n.name)
            elif isinstance(n, ast.Nonlocal): s.update(n.names)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None: names(n.optional_vars)
            elif isinstance(n, (ast.Delete,)):
                for t in n.targets: names(t)
        _assigned[k] = s
    return _assigned[k]

def rebound_names(lnode):
    """Names a loop may bind to another object (an augmented assignment of a bytearray or list keeps the object)."""
    aug = {n.target.id for n in ast.walk(lnode) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
    other = set()
    def names(t):
        if isinstance(t, ast.Name): other.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: names(e)
        elif isinstance(t, ast.Starred): names(t.value)
    for n in ast.walk(lnode):
        if isinstance(n, ast.Assign):
            for t in n.targets: names(t)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr, ast.For)): names(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None: names(n.optional_vars)
    return {n for n in assigned_names(lnode) if n not in aug or n in other}

class Frame:
    __slots__ = ('locals', 'glob', 'qual', 'parent', 'node', 'owner', 'side', 'nonlocals')
    def __init__(self, glob, qual, node, parent=None, owner=None, side='real'):
        self.locals = {}; self.glob = glob; self.qual = qual; self.node = node; self.parent = parent
        self.owner = owner; self.side = side; self.nonlocals = set()

class LoopHead:
    def __init__(self, frame, node, ordinal, it=None):
        self.frame = frame; self.node = node; self.ordinal = ordinal; self.it = it
        self.outer = []

class IterState:
    """State of a symbolic `for`: `nxt` is the next element number (range: next value)."""
    def __init__(self, kind, nxt, end, step=1, seq=None, start=0):
        self.kind = kind; self.nxt = nxt; self.end = end; self.step = step; self.seq = seq; self.start = start

class SuperProxy:
    def __init__(self, owner, self_): self.owner = owner; self.self_ = self_

MISSING = object()

class Interp:
    cut_fixed = False
    def __init__(self, ctx, interpretable, abstracts=None, cut=None, unroll_limit=300, side='real'):
        self.ctx = ctx
        self.interpretable = interpretable    # predicate on file names
        self.abstracts = abstracts or {}
        self.cut = cut or (lambda frame, node, kind: False)
        self.unroll_limit = unroll_limit
        self.seen = set()                     # functions interpreted
        self.trusted = set()                  # external models used
        self.depth = 0
        self.bmc = False
        self.side = side
        self.active_gen_loops = []            # (frame, node) of for-loops over generators
        self.written = None                   # frame-condition log
        self.path_opaque = {}

    # ---------- helpers
    def raise_(self, exc): raise PyRaise(exc)

    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, bool) or v is None: return bool(v)
        if isinstance(v, z3.BoolRef): return ctx.decide(v)
        if isinstance(v, z3.ArithRef): return ctx.decide(v != 0)
        if isinstance(v, (SBytes, SBA)):
            n = ctx.rlen(ctx.rope(v))
            return ctx.decide(ctx._lt(0, n))
        if isinstance(v, SList):
            return ctx.decide(ctx._lt(0, self.slen(v)))
        if isinstance(v, SSet):
            if v.arr is None: return bool(v.items)
            raise Unsupported('truth of symbolic set')
        if isinstance(v, SDict):
            if v.base is None: return bool(v.entries)
            raise Unsupported('truth of symbolic dict')
        if isinstance(v, SStr):
            return ctx.decide(self.opaque_bool('nonempty', v))
        if isinstance(v, SDelta): return ctx.decide(ctx._eq(v.us, 0) == False) if not is_sym(v.us) else ctx.decide(v.us != 0)
        if isinstance(v, (SObj, SFile, SGen, Closure, Bound, SDT, SDate, STime, SOpaque, Model)):
            if isinstance(v, SObj) and not isinstance(v.cls, str):
                if self.class_attr(v.cls, '__len__') is not MISSING or self.class_attr(v.cls, '__bool__') is not MISSING:
                    raise Unsupported('truth of object with __len__/__bool__')
            return True
        if isinstance(v, Poison): raise Unsupported('use of a loop-modified value with no invariant: ' + v.why)
        if isinstance(v, SRange): return ctx.decide(ctx._lt(v.a, v.b))
        return bool(v)

    def key(self, v):
        """Canonical text of a value (for opaque functions)."""
        ctx = self.ctx
        if isinstance(v, z3.ExprRef): return z3.simplify(v).sexpr()
        if isinstance(v, (SBytes, SBA)):
            r = ctx.rope(v)
            return 'B[' + ';'.join('%s@%s+%s' % (s if isinstance(s, bytes) else s.sexpr(), self.key(o), self.key(l)) for s, o, l in r.segs) + ']'
        if isinstance(v, (SStr, SOpaque)): return '%s(%s)' % (v.tag, ','.join(self.key(a) for a in v.args))
        if isinstance(v, (tuple, list)): return '(' + ','.join(self.key(a) for a in v) + ')'
        if isinstance(v, SList): return 'L%s[%s]' % (v.prefix.name if v.prefix else '', ','.join(self.key(a) for a in v.items))
        if isinstance(v, SDT): return 'dt(%s)' % self.key(v.us)
        if isinstance(v, SObj): return 'obj%d' % v.birth
        return repr(v)

    def opaque_bool(self, tag, *args):
        """Uninterpreted predicate: equal arguments give equal answers."""
        k = tag + '|' + '|'.join(self.key(a) for a in args)
        hit = self.ctx.__dict__.setdefault('opaque', {})
        if k not in hit:
            hit[k] = self.ctx.fresh_bool('op_' + tag)
        return hit[k]

    def opaque_int(self, tag, *args):
        k = tag + '|' + '|'.join(self.key(a) for a in args)
        hit = self.ctx.__dict__.setdefault('opaque', {})
        if k not in hit:
            hit[k] = self.ctx.fresh_int('op_' + tag)
        return hit[k]

    def opaque_id(self, tag, args):
        """Number of the equivalence class of (tag, args) on this path: congruence for abstracted calls."""
        memo = self.ctx.__dict__.setdefault('opaque_calls', {}).setdefault(tag, [])
        k = self.key(tuple(args))
        for n, (kk, aa) in enumerate(memo):
            if kk == k: return n
        for n, (kk, aa) in enumerate(memo):
            if len(aa) != len(args): continue
            try: c = self.ctx.conj([self.eq(x, y) for x, y in zip(aa, args)])
            except Unsupported: continue
            if c is True or (c is not False and self.ctx.implied(c)): return n
        memo.append((k, list(args)))
        return len(memo) - 1

    def slen(self, v):
        return self.ctx.add(v.prefix.length, len(v.items)) if v.prefix is not None else len(v.items)

    def mutate(self, o, field):
        """Record a heap write (frame condition of cut loops)."""
        if self.written is not None:
            if any(o is f for f in self.ctx.__dict__.get('frozen', ())): raise Unsupported('in-place change of a bytearray rebound by a loop')
            self.written(o, field)

    def concrete(self, v):
        if isinstance(v, z3.ExprRef): return False
        if isinstance(v, (SBytes, SBA, SList, SSet, SDict, SObj, SFile, SStr, SDT, SDelta, SDate, STime, SOpaque, SRange, SRat, Closure, Bound, SGen, Poison, Model, ListIter, SuperProxy)): return False
        if type(v).__module__.startswith('pyvc'): return False
        if isinstance(v, slice): return all(self.concrete(x) for x in (v.start, v.stop, v.step))
        if isinstance(v, (tuple, list, set, frozenset)): return all(self.concrete(x) for x in v)
        if isinstance(v, dict): return all(self.concrete(x) for x in v.keys()) and all(self.concrete(x) for x in v.values())
        return True

    def eq_cond(self, a, b):
        """Equality as a condition of the program: against a long constant only its first bytes are known."""
        B = (SBytes, SBA, bytes, bytearray)
        if isinstance(a, B) and isinstance(b, B):
            ctx = self.ctx
            x, y = ctx.rope(a), ctx.rope(b)
            if (ctx.long_const(x) or ctx.long_const(y)) and (ctx.concrete_bytes(x) is None or ctx.concrete_bytes(y) is None):
                n, m = ctx.rlen(x), ctx.rlen(y)
                le = ctx._eq(n, m)
                if le is False: return False
                c = self.opaque_bool('same_bytes', *sorted([SBytes(x.segs), SBytes(y.segs)], key=self.key))
                if le is not True: ctx.assume(z3.Implies(c, le))
                if not is_sym(n) and not is_sym(m):
                    for i in range(min(8, n)):
                        e = ctx._eq(ctx.rsel_ite(x, i), ctx.rsel_ite(y, i))
                        ctx.assume(z3.Implies(c, e if not isinstance(e, bool) else z3.BoolVal(e)))
                return c
        return self.eq(a, b)

    # ---------- equality
    def eq(self, a, b):
        ctx = self.ctx
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of a loop-modified value with no invariant: ' + (a.why if isinstance(a, Poison) else b.why))
        if a is b and not is_sym(a): return True
        an = isinstance(a, (int, z3.ArithRef, z3.BoolRef)); bn = isinstance(b, (int, z3.ArithRef, z3.BoolRef))
        if an and bn:
            if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef): return z3.simplify(a == b)
            x, y = ctx.I(a), ctx.I(b)
            if not is_sym(x) and not is_sym(y): return x == y
            return self.simp(ctx._eq(x, y))
        if isinstance(a, SRat) or isinstance(b, SRat): raise Unsupported('float comparison')
        if isinstance(a, SOpaque) != isinstance(b, SOpaque):
            o = a if isinstance(a, SOpaque) else b
            if o.tag.startswith('uuid') or a is None or b is None: return False
            raise Unsupported('comparison with an abstract value')
        if an != bn: 
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
                raise Unsupported('float comparison')
            return False
        if a is None or b is None: return False
        ab = isinstance(a, (SBytes, SBA, bytes, bytearray)); bb = isinstance(b, (SBytes, SBA, bytes, bytearray))
        if ab and bb: return ctx.bytes_eq(a, b)
        if ab != bb: return False
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.str_eq(a, b)
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            if a.tag != b.tag and a.tag.startswith('uuid') and b.tag.startswith('uuid'): raise Unsupported('comparison of GUIDs built in different ways')
            if a.tag != b.tag or len(a.args) != len(b.args): return False
            return ctx.conj([self.eq(x, y) for x, y in zip(a.args, b.args)])
        if isinstance(a, SDT) or isinstance(b, SDT):
            a = models.lift_dt(a); b = models.lift_dt(b)
            if isinstance(a, SDT) and isinstance(b, SDT): return self.eq(a.us, b.us)
            return False
        if isinstance(a, SDelta) and isinstance(b, SDelta): return self.eq(a.us, b.us)
        if isinstance(a, SDate) and isinstance(b, SDate): return self.eq(a.days, b.days)
        if isinstance(a, STime) and isinstance(b, STime): return self.eq(a.us, b.us)
        at = isinstance(a, (tuple,)); bt = isinstance(b, (tuple,))
        if at and bt:
            if len(a) != len(b): return False
            return ctx.conj([self.eq(x, y) for x, y in zip(a, b)])
        al = isinstance(a, (list, SList)); bl = isinstance(b, (list, SList))
        if al and bl:
            ap = a.prefix if isinstance(a, SList) else None; bp = b.prefix if isinstance(b, SList) else None
            ai = a.items if isinstance(a, SList) else a; bi = b.items if isinstance(b, SList) else b
            if ap is not bp:
                if ap is None and not is_sym(bp.length) or bp is None and not is_sym(ap.length): pass
                raise Unsupported('comparison of unrelated opaque sequences')
            if len(ai) != len(bi): return False
            return ctx.conj([self.eq(x, y) for x, y in zip(ai, bi)])
        if isinstance(a, SSet) and isinstance(b, SSet):
            return self.set_eq(a, b)
        if isinstance(a, SDict) and isinstance(b, SDict):
            if a.base is not b.base or len(a.entries) != len(b.entries): raise Unsupported('dict equality')
            return ctx.conj([ctx.conj([self.eq(k1, k2), self.eq(v1, v2)]) for (k1, v1), (k2, v2) in zip(a.entries, b.entries)])
        if isinstance(a, SObj) or isinstance(b, SObj):
            if isinstance(a, SObj) and not isinstance(a.cls, str) and self.class_attr(a.cls, '__eq__') not in (MISSING, object.__eq__):
                raise Unsupported('__eq__ on object')
            return False
        if self.concrete(a) and self.concrete(b): return a == b
        if type(a) is not type(b): return False
        raise Unsupported('equality of %r and %r' % (type(a), type(b)))

    def simp(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return c

    def set_term(self, s):
        arr = s.arr if s.arr is not None else z3.K(z3.IntSort(), z3.BoolVal(False))
        for x in s.items:
            x = self.ctx.I(x)
            arr = z3.Store(arr, x if is_sym(x) else z3.IntVal(x), z3.BoolVal(True))
        return arr
    def set_eq(self, a, b):
        return self.set_term(a) == self.set_term(b)

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a.tag == b.tag and len(a.args) == len(b.args):
                c = self.ctx.conj([self.eq(x, y) for x, y in zip(a.args, b.args)])
                if c is True: return True
                if self.ctx.implied(c): return True
                # equal arguments imply equal strings; the converse is not assumed
                p = self.opaque_bool('streq', a, b)
                if not isinstance(c, bool): self.ctx.assume(z3.Implies(c, p))
                return p
            return self.opaque_bool('streq', a, b)
        if isinstance(a, str): a, b = b, a
        return self.opaque_bool('streqc', a, b)

    # ---------- attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__: return c.__dict__[name]
        return MISSING

    def getattr(self, o, name):
        """Plain function: attribute of o (properties handled by the caller through `geta`)."""
        if isinstance(o, SObj):
            if name in o.attrs: return o.attrs[name]
            if name == '__class__': return o.cls
            if isinstance(o.cls, str):
                raise PyRaise(AttributeError(name))
            a = self.class_attr(o.cls, name)
            if a is MISSING or (o.cls.__mro__ and a in (MISSING,)):
                raise PyRaise(AttributeError(name))
            if isinstance(a, types.FunctionType): return Bound(a, o)
            if isinstance(a, staticmethod): return a.__func__
            if isinstance(a, classmethod): return Bound(a.__func__, o.cls)
            if isinstance(a, property): return ('property', a.fget, o)
            if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return Model(name, lambda it, args, kw, a=a, o=o: models.object_method(it, o, a, args, kw))
            return a
        if isinstance(o, SuperProxy):
            mro = o.self_.cls.__mro__
            for c in mro[mro.index(o.owner) + 1:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, types.FunctionType): return Bound(a, o.self_)
                    if isinstance(a, property): return ('property', a.fget, o.self_)
                    return Model(name, lambda it, args, kw: None)
            raise PyRaise(AttributeError(name))
        m = models.method(self, o, name)
        if m is models.NONE: return None
        if m is not None: return m
        if isinstance(o, Poison): raise Unsupported('use of a loop-modified value with no invariant: ' + o.why)
        if is_sym(o) or not self.concrete(o) and not isinstance(o, tuple):
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        try:
            a = getattr(o, name)
        except AttributeError as e:
            raise PyRaise(e)
        return a

    def geta(self, o, name):
        a = self.getattr(o, name)
        if isinstance(a, tuple) and len(a) == 3 and a[0] == 'property':
            return (yield from self.call(a[1], [a[2]], {}))
        return a

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            o.attrs[name] = v
            self.mutate(o, name)
            return
        raise Unsupported('attribute store on %r' % type(o))

    # ---------- calls
    def bind(self, node, args, kw, defaults, kwdefaults, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(params) and a.vararg is None:
            raise PyRaise(TypeError('%s() takes %d positional arguments' % (name, len(params))))
        for p, v in zip(params, args): out[p] = v
        if a.vararg is not None: out[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        konly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in konly:
                if k in out: raise PyRaise(TypeError('multiple values for argument %s' % k))
                out[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise PyRaise(TypeError('unexpected keyword argument %s' % k))
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j >= 0: out[p] = defaults[j]
                else: raise PyRaise(TypeError('missing argument %s' % p))
        for p in konly:
            if p not in out:
                if p in kwdefaults: out[p] = kwdefaults[p]
                else: raise PyRaise(TypeError('missing argument %s' % p))
        if a.kwarg is not None: out[a.kwarg.arg] = SDict(list(extra.items()))
        return out

    def func_node(self, f):
        fn = f.__code__.co_filename
        if not self.interpretable(fn): return None
        nodes = FuncIndex.get(fn).get(f.__qualname__)
        if not nodes and f.__name__ == '<lambda>':
            names = list(f.__code__.co_varnames[:f.__code__.co_argcount])
            cands = [n for n in FuncIndex.lambdas(fn) if n.lineno == f.__code__.co_firstlineno and [a.arg for a in n.args.args] == names]
            if len(cands) > 1:
                codes = {compile(ast.Expression(c), 'x', 'eval').co_consts[0].co_code for c in cands}
                if len(codes) > 1: cands = [c for c in cands if compile(ast.Expression(c), 'x', 'eval').co_consts[0].co_code == f.__code__.co_code and compile(ast.Expression(c), 'x', 'eval').co_consts[0].co_consts == f.__code__.co_consts and compile(ast.Expression(c), 'x', 'eval').co_consts[0].co_names == f.__code__.co_names]
            return cands[0] if cands else None
        if not nodes:
            return None
        if len(nodes) > 1:
            for n in nodes:
                ln = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                if ln == f.__code__.co_firstlineno: return n
        return nodes[-1]

    def owner_of(self, f):
        q = f.__qualname__.split('.')
        if len(q) < 2 or '<locals>' in q: return None
        o = f.__globals__.get(q[0])
        for p in q[1:-1]:
            o = getattr(o, p, None)
        return o

    def run_function(self, node, frame):
        """Generator: body of a plain function; returns its value."""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            sig = yield from self.block(node.body, frame)
        finally:
            self.depth -= 1
        if sig is not None and sig[0] == 'return': return sig[1]
        return None

    def gen_body(self, node, frame):
        sig = yield from self.block(node.body, frame)
        return sig[1] if sig is not None and sig[0] == 'return' else None

    def call(self, f, args, kw):
        ctx = self.ctx
        if isinstance(f, Bound): return (yield from self.call(f.func, [f.self_] + list(args), kw))
        if isinstance(f, types.MethodType) and (isinstance(f.__func__, types.FunctionType)):
            return (yield from self.call(f.__func__, [f.__self__] + list(args), kw))
        if isinstance(f, Closure):
            if isinstance(f.node, ast.Lambda):
                fr = Frame(f.frame.glob, f.qual, f.node, f.frame, f.frame.owner, f.frame.side)
                fr.locals.update(self.bind(f.node, args, kw, f.defaults, f.kwdefaults, '<lambda>'))
                return (yield from self.ev(f.node.body, fr))
            fr = Frame(f.frame.glob, f.qual, f.node, f.frame, f.frame.owner, f.frame.side)
            fr.locals.update(self.bind(f.node, args, kw, f.defaults, f.kwdefaults, f.node.name))
            if is_generator(f.node): return SGen(self.gen_body(f.node, fr), f.qual)
            return (yield from self.run_function(f.node, fr))
        if isinstance(f, Model):
            r = f.fn(self, args, kw)
            if isinstance(r, types.GeneratorType): r = yield from r
            return r
        if isinstance(f, types.FunctionType):
            q = f.__module__ + '.' + f.__qualname__
            h = self.abstracts.get(q)
            if h is not None:
                r = h(self, args, kw)
                if isinstance(r, types.GeneratorType): r = yield from r
                return r
            h = models.FUNCS.get(f)
            if h is not None:
                r = h(self, args, kw)
                if isinstance(r, types.GeneratorType): r = yield from r
                return r
            node = self.func_node(f)
            if node is not None:
                self.seen.add(q)
                parent = None
                if f.__closure__:
                    parent = Frame(f.__globals__, f.__qualname__, node)
                    for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                        parent.locals[nm] = cell.cell_contents
                fr = Frame(f.__globals__, q, node, parent, self.owner_of(f), self.side)
                fr.locals.update(self.bind(node, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__name__))
                if isinstance(node, ast.Lambda): return (yield from self.ev(node.body, fr))
                if is_generator(node): return SGen(self.gen_body(node, fr), q)
                return (yield from self.run_function(node, fr))
        if isinstance(f, type):
            h = models.CLASSES.get(f)
            if h is not None:
                r = h(self, args, kw)
                if isinstance(r, types.GeneratorType): r = yield from r
                return r
            if issubclass(f, tuple) and hasattr(f, '_fields'):
                try: return f(*args, **kw)
                except TypeError as e: raise PyRaise(e)
            init = self.class_attr(f, '__init__')
            if issubclass(f, BaseException) and not isinstance(init, types.FunctionType):
                return ctx.born(SObj(f, {'args': tuple(args)}))
            if isinstance(init, types.FunctionType) and self.func_node(init) is not None:
                o = ctx.born(SObj(f))
                if issubclass(f, BaseException): o.attrs['args'] = tuple(args)
                yield from self.call(init, [o] + list(args), kw)
                return o
            try:
                fn = inspect.getsourcefile(f)
            except TypeError:
                fn = None
            if fn is not None and self.interpretable(fn) and init is object.__init__:
                return ctx.born(SObj(f))
        h = models.FUNCS.get(f) if self._hashable(f) else None
        if h is not None:
            r = h(self, args, kw)
            if isinstance(r, types.GeneratorType): r = yield from r
            return r
        if isinstance(f, SObj):
            c = self.getattr(f, '__call__')
            return (yield from self.call(c, args, kw))
        if f is None or isinstance(f, (int, str, bytes)):
            raise PyRaise(TypeError('not callable'))
        if all(self.concrete(a) for a in args) and all(self.concrete(a) for a in kw.values()) and models.pure_native(f):
            try: return f(*args, **kw)
            except Exception as e: raise PyRaise(e)
        # native bound method of a native container holding symbolic values
        r = models.native_method(self, f, args, kw)
        if r is not models.NO: return r
        raise Unsupported('call of %r' % (f,))

    def _hashable(self, f):
        try: hash(f); return True
        except TypeError: return False

    # ---------- expressions
    def ev(self, n, fr):
        t = type(n)
        if t is ast.Constant: return n.value
        if t is ast.Name: return self.load(n.id, fr)
        m = getattr(self, 'ev_' + t.__name__, None)
        if m is None: raise Unsupported('expression ' + t.__name__)
        return (yield from m(n, fr))

    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison): raise Unsupported('use of a loop-modified value with no invariant: ' + v.why)
                return v
            f = f.parent
        if name in fr.glob: return fr.glob[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        if fr.node is not None and not isinstance(fr.node, ast.Lambda) and name in assigned_names(fr.node):
            raise PyRaise(UnboundLocalError(name))
        raise PyRaise(NameError(name))

    def ev_Attribute(self, n, fr):
        o = yield from self.ev(n.value, fr)
        return (yield from self.geta(o, n.attr))

    def ev_Tuple(self, n, fr):
        return tuple((yield from self.elts(n.elts, fr)))
    def ev_List(self, n, fr):
        return self.ctx.born(SList((yield from self.elts(n.elts, fr))))
    def ev_Set(self, n, fr):
        s = self.ctx.born(SSet())
        for v in (yield from self.elts(n.elts, fr)): models.set_add(self, s, v)
        return s
    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = yield from self.ev(e.value, fr)
                out.extend((yield from self.to_list(v)))
            else:
                out.append((yield from self.ev(e, fr)))
        return out
    def ev_Dict(self, n, fr):
        d = self.ctx.born(SDict())
        for k, v in zip(n.keys, n.values):
            if k is None: raise Unsupported('dict unpacking')
            kk = yield from self.ev(k, fr); vv = yield from self.ev(v, fr)
            models.dict_set(self, d, kk, vv)
        return d

    def ev_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = yield from self.ev(e, fr)
            if i == len(n.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not is_sym(v) else (False if z3.is_bool(v) else 0)
            if not isand and t: return v if not z3.is_bool(v) else True
        return v

    def ev_UnaryOp(self, n, fr):
        v = yield from self.ev(n.operand, fr)
        ctx = self.ctx
        if isinstance(n.op, ast.Not):
            if isinstance(v, z3.BoolRef): return self.simp(z3.Not(v))
            return not self.truth(v)
        if not isinstance(v, (int, float, z3.ExprRef)): raise PyRaise(TypeError('bad operand for unary op'))
        if isinstance(v, float): return -v if isinstance(n.op, ast.USub) else +v
        v = ctx.I(v)
        if isinstance(n.op, ast.USub): return ctx.sub(0, v)
        if isinstance(n.op, ast.Invert): return ctx.sub(ctx.sub(0, v), 1)
        return v

    def ev_BinOp(self, n, fr):
        a = yield from self.ev(n.left, fr)
        b = yield from self.ev(n.right, fr)
        return models.binop(self, type(n.op).__name__, a, b)

    def ev_Compare(self, n, fr):
        left = yield from self.ev(n.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = yield from self.ev(r, fr)
            c = self.compare(op, left, right)
            if i == len(n.ops) - 1: return c
            if not self.truth(c): return False
            left = right
        return res

    def compare(self, op, a, b):
        ctx = self.ctx
        t = type(op)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of a loop-modified value with no invariant')
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return r if t is ast.Is else (not r)
        if t is ast.Eq: return self.eq_cond(a, b)
        if t is ast.NotEq:
            c = self.eq_cond(a, b)
            return (not c) if isinstance(c, bool) else self.simp(z3.Not(c))
        if t is ast.In or t is ast.NotIn:
            c = self.contains(b, a)
            if t is ast.In: return c
            return (not c) if isinstance(c, bool) else self.simp(z3.Not(c))
        return models.order(self, t.__name__, a, b)

    def is_(self, a, b):
        if a is None or b is None: return a is b
        if isinstance(a, bool) and isinstance(b, bool): return a is b
        if is_sym(a) or is_sym(b): 
            if isinstance(a, z3.BoolRef) and isinstance(b, bool): return self.ctx.decide(a == b)
            if isinstance(b, z3.BoolRef) and isinstance(a, bool): return self.ctx.decide(a == b)
            raise Unsupported('identity of symbolic integers')
        return a is b

    def contains(self, c, x):
        ctx = self.ctx
        if isinstance(c, SSet):
            t = [self.eq(x, y) for y in c.items]
            if c.arr is not None:
                xi = ctx.I(x)
                t.append(self.simp(z3.Select(c.arr, xi if is_sym(xi) else z3.IntVal(xi))))
            return self.disj(t)
        if isinstance(c, SDict):
            t = [self.eq(x, k) for k, _ in c.entries]
            if c.base is not None: t.append(c.base.has(self, x))
            return self.disj(t)
        if isinstance(c, SList):
            t = [self.eq(x, y) for y in c.items]
            if c.prefix is not None:
                # an unknown (but fixed) set of integers: membership in the opaque prefix
                if not isinstance(x, (int, z3.ArithRef)) or isinstance(x, bool): raise Unsupported('membership in opaque list')
                if c.prefix.members is None: c.prefix.members = ctx.fresh_set('members')
                t.append(self.simp(z3.Select(c.prefix.members, x if is_sym(x) else z3.IntVal(x))))
            return self.disj(t)
        if isinstance(c, (SBytes, SBA, bytes, bytearray)):
            if isinstance(x, (int, z3.ExprRef)):
                bs = ctx.byte_list(ctx.rope(c))
                if bs is None: raise Unsupported('membership in symbolic bytes')
                return self.disj([self.eq(x, y) for y in bs])
            if isinstance(c, (bytes, bytearray)) and isinstance(x, bytes): return x in c
            return self.opaque_bool('bytes_in', x, c)
        if isinstance(c, (SStr, str)):
            if isinstance(c, str) and isinstance(x, str): return x in c
            if isinstance(c, str) and isinstance(x, z3.ExprRef): raise PyRaise(TypeError('in <string> requires string'))
            return self.opaque_bool('str_in', x, c)
        if isinstance(c, SRange):
            raise Unsupported('membership in symbolic range')
        if isinstance(c, range):
            if not is_sym(x): return x in c
            if c.step == 1: return self.simp(z3.And(x >= c.start, x < c.stop))
            return self.disj([self.eq(x, y) for y in c])
        if isinstance(c, SGen): raise Unsupported('membership in generator')
        if isinstance(c, SObj): raise Unsupported('__contains__')
        if c is None or isinstance(c, int): raise PyRaise(TypeError('argument is not iterable'))
        if self.concrete(x) and self.concrete(c):
            return x in c
        return self.disj([self.eq(x, y) for y in list(c)])

    def disj(self, cs):
        out = []
        for c in cs:
            if c is True: return True
            if c is False: continue
            out.append(c)
        if not out: return False
        return self.simp(z3.Or(*out)) if len(out) > 1 else out[0]

    def ev_IfExp(self, n, fr):
        c = yield from self.ev(n.test, fr)
        return (yield from self.ev(n.body if self.truth(c) else n.orelse, fr))

    def ev_NamedExpr(self, n, fr):
        v = yield from self.ev(n.value, fr)
        fr.locals[n.target.id] = v
        return v

    def ev_Lambda(self, n, fr):
        d = []
        for x in n.args.defaults: d.append((yield from self.ev(x, fr)))
        return Closure(n, fr, fr.qual + '.<lambda>', d, {})

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = yield from self.ev(v.value, fr)
                parts.append(models.to_str(self, x))
        if all(isinstance(p, str) for p in parts): return ''.join(parts)
        return SStr('join', *parts)

    def ev_Slice(self, n, fr):
        lo = (yield from self.ev(n.lower, fr)) if n.lower is not None else None
        hi = (yield from self.ev(n.upper, fr)) if n.upper is not None else None
        st = (yield from self.ev(n.step, fr)) if n.step is not None else None
        return slice(lo, hi, st)

    def ev_Subscript(self, n, fr):
        o = yield from self.ev(n.value, fr)
        i = yield from self.ev(n.slice, fr)
        return (yield from models.getitem(self, o, i))

    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and f.owner is None: f = f.parent
            selfname = fr.node.args.args[0].arg
            return SuperProxy(fr.owner, fr.locals[selfname])
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and len(n.args) == 2 and not n.keywords:
            c = yield from self.ev(n.args[0], fr)
            o = yield from self.ev(n.args[1], fr)
            return SuperProxy(c, o)
        f = yield from self.ev(n.func, fr)
        args = yield from self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            v = yield from self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, SDict):
                    for kk, vv in v.entries: kw[kk] = vv
                elif isinstance(v, dict): kw.update(v)
                else: raise Unsupported('** argument')
            else: kw[k.arg] = v
        return (yield from self.call(f, args, kw))

    def comp(self, gens, fr, emit):
        if not gens:
            yield from emit(fr)
            return
        g = gens[0]
        it = yield from self.ev(g.iter, fr)
        for v in (yield from self.to_list(it)):
            yield from self.assign(g.target, v, fr)
            ok = True
            for c in g.ifs:
                if not self.truth((yield from self.ev(c, fr))): ok = False; break
            if ok: yield from self.comp(gens[1:], fr, emit)

    def sub_frame(self, fr):
        f = Frame(fr.glob, fr.qual, fr.node, fr, fr.owner, fr.side)
        return f

    def ev_ListComp(self, n, fr):
        out = []
        f = self.sub_frame(fr)
        def emit(f):
            out.append((yield from self.ev(n.elt, f)))
        yield from self.comp(n.generators, f, emit)
        return self.ctx.born(SList(out))
    def ev_GeneratorExp(self, n, fr):
        return (yield from self.ev_ListComp(n, fr))
    def ev_SetComp(self, n, fr):
        l = yield from self.ev_ListComp(n, fr)
        s = self.ctx.born(SSet())
        for v in l.items: models.set_add(self, s, v)
        return s
    def ev_DictComp(self, n, fr):
        d = self.ctx.born(SDict())
        f = self.sub_frame(fr)
        def emit(f):
            k = yield from self.ev(n.key, f); v = yield from self.ev(n.value, f)
            models.dict_set(self, d, k, v)
        yield from self.comp(n.generators, f, emit)
        return d

    def ev_Yield(self, n, fr):
        v = (yield from self.ev(n.value, fr)) if n.value is not None else None
        yield ('yield', v)
        return None

    def ev_YieldFrom(self, n, fr):
        v = yield from self.ev(n.value, fr)
        if isinstance(v, SGen):
            while True:
                x = yield from self.next_gen(v)
                if x is MISSING: return None
                yield ('yield', x)
        for x in (yield from self.to_list(v)):
            yield ('yield', x)
        return None

    def next_gen(self, g):
        """Generator: next value of an SGen or MISSING."""
        if g.done: return MISSING
        while True:
            try:
                e = g.gen.send(None)
            except StopIteration:
                g.done = True
                return MISSING
            except (PyRaise, PathEnd, Unsupported):
                g.done = True
                raise
            if e[0] == 'yield': return e[1]
            yield e

    def to_list(self, v):
        """Generator: python list of the elements of an iterable of known length."""
        ctx = self.ctx
        if isinstance(v, SList):
            if v.prefix is not None: raise Unsupported('iteration over opaque sequence')
            return list(v.items)
        if isinstance(v, SSet):
            if v.arr is not None: raise Unsupported('iteration over symbolic set')
            return list(v.items)
        if isinstance(v, SDict):
            if v.base is not None: raise Unsupported('iteration over symbolic dict')
            return [k for k, _ in v.entries]
        if isinstance(v, (SBytes, SBA)):
            bs = ctx.byte_list(ctx.rope(v))
            if bs is None: raise Unsupported('iteration over bytes of symbolic length')
            return bs
        if isinstance(v, SRange):
            out = []
            i = v.a
            while True:
                if not ctx.decide(ctx._lt(i, v.b) if v.s > 0 else ctx._lt(v.b, i)): return out
                out.append(i); i = ctx.add(i, v.s)
                if len(out) > self.unroll_limit:
                    if self.bmc: raise PathEnd('bound')
                    raise Unsupported('unroll limit')
        if isinstance(v, SGen):
            out = []
            while True:
                x = yield from self.next_gen(v)
                if x is MISSING: return out
                out.append(x)
                if len(out) > self.unroll_limit:
                    if self.bmc: raise PathEnd('bound')
                    raise Unsupported('unroll limit')
        if isinstance(v, ListIter):
            out = v.seq[v.idx:]; v.idx = len(v.seq); return list(out)
        if isinstance(v, (SObj, SStr)) or is_sym(v): raise Unsupported('iteration over %r' % type(v))
        if v is None or isinstance(v, (int, float)): raise PyRaise(TypeError('object is not iterable'))
        return list(v)

    # ---------- statements
    def block(self, stmts, fr):
        for s in stmts:
            m = getattr(self, 'ex_' + type(s).__name__, None)
            if m is None: raise Unsupported('statement ' + type(s).__name__)
            sig = yield from m(s, fr)
            if sig is not None: return sig
        return None

    def ex_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return None
        yield from self.ev(s.value, fr)
    def ex_Pass(self, s, fr):
        return None
        yield
    def ex_Global(self, s, fr):
        raise Unsupported('global')
        yield
    def ex_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)
        return None
        yield
    def ex_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.locals[a.asname or a.name.split('.')[0]] = m if a.asname else importlib.import_module(a.name.split('.')[0])
        return None
        yield
    def ex_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module('.' * s.level + (s.module or ''), fr.glob.get('__package__'))
        for a in s.names: fr.locals[a.asname or a.name] = getattr(m, a.name)
        return None
        yield
    def ex_Return(self, s, fr):
        v = (yield from self.ev(s.value, fr)) if s.value is not None else None
        return ('return', v)
    def ex_Break(self, s, fr):
        return ('break',)
        yield
    def ex_Continue(self, s, fr):
        return ('continue',)
        yield
    def ex_If(self, s, fr):
        c = yield from self.ev(s.test, fr)
        return (yield from self.block(s.body if self.truth(c) else s.orelse, fr))
    def ex_Assert(self, s, fr):
        c = yield from self.ev(s.test, fr)
        if not self.truth(c): raise PyRaise(AssertionError())
    def ex_Assign(self, s, fr):
        v = yield from self.ev(s.value, fr)
        for t in s.targets: yield from self.assign(t, v, fr)
    def ex_AnnAssign(self, s, fr):
        if s.value is not None:
            v = yield from self.ev(s.value, fr)
            yield from self.assign(s.target, v, fr)
    def ex_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            v = yield from self.ev(s.value, fr)
            yield from self.assign(t, self.inplace(op, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = yield from self.ev(t.value, fr)
            cur = yield from self.geta(o, t.attr)
            v = yield from self.ev(s.value, fr)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = yield from self.ev(t.value, fr); i = yield from self.ev(t.slice, fr)
            cur = yield from models.getitem(self, o, i)
            v = yield from self.ev(s.value, fr)
            models.setitem(self, o, i, self.inplace(op, cur, v))
        else: raise Unsupported('augmented assignment')
    def inplace(self, op, cur, v):
        if op == 'Add' and isinstance(cur, SList):
            if isinstance(v, SList) and v.prefix is None: cur.items.extend(v.items)
            elif isinstance(v, SList): cur.prefix, cur.items = models.list_cat(self, cur, v)
            elif isinstance(v, (list, tuple)): cur.items.extend(v)
            else: raise Unsupported('list +=')
            self.mutate(cur, 'items')
            return cur
        if op == 'Add' and isinstance(cur, SBA):
            cur.val = self.ctx.concat(cur.val, self.ctx.rope(v))
            self.mutate(cur, 'val')
            return cur
        if isinstance(cur, SSet) and op == 'BitOr' and isinstance(v, SSet) and v.arr is None:
            for x in v.items: models.set_add(self, cur, x)
            return cur
        return models.binop(self, op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.locals: f = f.parent
                if f is None: raise Unsupported('nonlocal')
            f.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple): vals = list(v)
            else: vals = yield from self.to_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1: raise PyRaise(ValueError('not enough values to unpack'))
                for e, x in zip(t.elts[:i], vals[:i]): yield from self.assign(e, x, fr)
                yield from self.assign(t.elts[i].value, self.ctx.born(SList(vals[i:len(vals) - after])), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:] if after else []): yield from self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts): raise PyRaise(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, vals): yield from self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = yield from self.ev(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = yield from self.ev(t.value, fr); i = yield from self.ev(t.slice, fr)
            models.setitem(self, o, i, v)
        else: raise Unsupported('assignment target')

    def ex_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = yield from self.ev(t.value, fr); i = yield from self.ev(t.slice, fr)
                models.delitem(self, o, i)
            else: raise Unsupported('del')

    def ex_FunctionDef(self, s, fr):
        d = []
        for x in s.args.defaults: d.append((yield from self.ev(x, fr)))
        kd = {}
        for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if x is not None: kd[a.arg] = yield from self.ev(x, fr)
        if s.decorator_list: raise Unsupported('decorated nested function')
        fr.locals[s.name] = Closure(s, fr, fr.qual + '.<locals>.' + s.name, d, kd)

    def ex_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.locals.get('$exc')
            f = fr
            while cur is None and f is not None:
                cur = f.locals.get('$exc'); f = f.parent
            if cur is None: raise PyRaise(RuntimeError('No active exception to reraise'))
            raise PyRaise(cur)
        e = yield from self.ev(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = yield from self.call(e, [], {})
        if isinstance(e, SObj) or isinstance(e, BaseException): raise PyRaise(e)
        raise PyRaise(TypeError('exceptions must derive from BaseException'))

    def ex_Try(self, s, fr):
        sig = None
        pend = None
        try:
            try:
                sig = yield from self.block(s.body, fr)
            except PyRaise as e:
                handled = False
                for h in s.handlers:
                    if h.type is None: match = True
                    else:
                        t = yield from self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(isinstance(x, type) and issubclass(e.cls, x) for x in ts)
                    if match:
                        handled = True
                        if h.name: fr.locals[h.name] = e.exc
                        old = fr.locals.get('$exc')
                        fr.locals['$exc'] = e.exc
                        sig = yield from self.block(h.body, fr)
                        fr.locals['$exc'] = old
                        if h.name: fr.locals.pop(h.name, None)
                        break
                if not handled: raise
            else:
                if sig is None and s.orelse: sig = yield from self.block(s.orelse, fr)
        except PyRaise as e:
            pend = e
        if s.finalbody:
            fs = yield from self.block(s.finalbody, fr)
            if fs is not None: return fs
        if pend is not None: raise pend
        return sig

    def ex_With(self, s, fr):
        for it in s.items:
            v = yield from self.ev(it.context_expr, fr)
            if not isinstance(v, SFile): raise Unsupported('with statement')
            if it.optional_vars is not None: yield from self.assign(it.optional_vars, v, fr)
        return (yield from self.block(s.body, fr))

    def ex_While(self, s, fr):
        n = 0
        act = object()
        o = loop_ordinal(fr.node, s)
        while True:
            if self.cut(fr, s, 'while'):
                h = LoopHead(fr, s, o); h.act = act
                h.outer = [x for x in self.active_gen_loops if x[0] is not fr]
                yield ('cut', h)
            c = yield from self.ev(s.test, fr)
            if not self.truth(c):
                return (yield from self.block(s.orelse, fr))
            sig = yield from self.block(s.body, fr)
            if sig is not None:
                if sig[0] == 'break': return None
                if sig[0] == 'return': return sig
            n += 1
            if n > self.unroll_limit:
                if self.bmc: raise PathEnd('bound')
                raise Unsupported('loop without invariant exceeds the unroll limit in ' + fr.qual)

    def ex_For(self, s, fr):
        it = yield from self.ev(s.iter, fr)
        ctx = self.ctx
        o = loop_ordinal(fr.node, s)
        # generator: not a loop head of its own; the generator's loop is cut
        if isinstance(it, SGen):
            self.active_gen_loops.append((fr, s))
            try:
                n = 0
                while True:
                    x = yield from self.next_gen(it)
                    if x is MISSING: break
                    yield from self.assign(s.target, x, fr)
                    sig = yield from self.block(s.body, fr)
                    if sig is not None:
                        if sig[0] == 'break': return None
                        if sig[0] == 'return': return sig
                    n += 1
                    if n > self.unroll_limit:
                        if self.bmc: raise PathEnd('bound')
                        raise Unsupported('unroll limit in ' + fr.qual)
            finally:
                self.active_gen_loops.pop()
            return (yield from self.block(s.orelse, fr))
        st = None
        if isinstance(it, SRange): st = IterState('range', it.a, it.b, it.s, start=it.a)
        elif isinstance(it, SList) and it.prefix is not None:
            st = IterState('seq', 0, self.slen(it), 1, it)
        elif isinstance(it, (SBytes, SBA)):
            r = ctx.rope(it); n = ctx.rlen(r)
            if is_sym(n) or self.cut_fixed and self.cut(fr, s, 'for'): st = IterState('bytes', 0, n, 1, r)
        elif isinstance(it, range) and self.cut_fixed and self.cut(fr, s, 'for'): st = IterState('range', it.start, it.stop, it.step, start=it.start)
        elif isinstance(it, OpaqueSeq): st = IterState('seq', 0, it.length, 1, SList((), it))
        if st is None:
            k = 0
            live = it if isinstance(it, SList) else None
            vals = None if live is not None else (yield from self.to_list(it))
            while True:
                src = live.items if live is not None else vals
                if k >= len(src): break
                x = src[k]; k += 1
                yield from self.assign(s.target, x, fr)
                sig = yield from self.block(s.body, fr)
                if sig is not None:
                    if sig[0] == 'break': return None
                    if sig[0] == 'return': return sig
            return (yield from self.block(s.orelse, fr))
        n = 0
        while True:
            if self.cut(fr, s, 'for'):
                h = LoopHead(fr, s, o, st); h.act = st
                h.outer = [x for x in self.active_gen_loops if x[0] is not fr]
                yield ('cut', h)
            more = ctx._lt(st.nxt, st.end) if st.step > 0 else ctx._lt(st.end, st.nxt)
            if not ctx.decide(more): break
            i = st.nxt
            st.nxt = ctx.add(i, st.step)
            if st.kind == 'range': x = i
            elif st.kind == 'bytes': x = ctx.rsel_ite(st.seq, i)
            else: x = models.seq_elem(self, st.seq, i)
            yield from self.assign(s.target, x, fr)
            sig = yield from self.block(s.body, fr)
            if sig is not None:
                if sig[0] == 'break': return None
                if sig[0] == 'return': return sig
            n += 1
            if n > self.unroll_limit:
                if self.bmc: raise PathEnd('bound')
                raise Unsupported('loop without invariant exceeds the unroll limit in ' + fr.qual)
        return (yield from self.block(s.orelse, fr))
