"""Abstraction of a call by its (separately discharged) contract: the call behaves as an uninterpreted function of its
arguments, on the implementation side and on the specification side alike."""
from .values import *

def native(it, tag, fn, args):
    ctx = it.ctx
    vals = []
    for a in args:
        if isinstance(a, SBA): vals.append(bytearray(ctx.concrete_bytes(ctx.rope(a))))
        elif isinstance(a, SBytes): vals.append(ctx.concrete_bytes(a))
        else: vals.append(a)
    try: r = fn(*vals)
    except Exception as e: raise PyRaise(e)
    for a, v in zip(args, vals):
        if isinstance(a, SBA): a.val = SBytes([(bytes(v), 0, len(v))]); it.mutate(a, 'val')
    def lift(x):
        if isinstance(x, bytearray): return ctx.born(SBA(SBytes([(bytes(x), 0, len(x))])))
        if isinstance(x, tuple): return tuple(lift(y) for y in x)
        if isinstance(x, (int, str, bytes)) or x is None: return x
        raise Unsupported('native result of ' + tag)
    return lift(r)

def concrete_arg(it, a):
    if isinstance(a, (SBA, SBytes, bytes, bytearray)): return it.ctx.concrete_bytes(it.ctx.rope(a)) is not None
    return it.concrete(a)

def func_of(tag, exc=None, build=None, argmap=None, nullable=False, eager=None):
    """Handler for Contract.abstracts: raises `exc` or returns a value, both depending only on the arguments."""
    def h(it, args, kw):
        args = list(args) + [v for _, v in sorted(kw.items())]
        if eager and all(concrete_arg(it, a) for a in args): return native(it, tag, eager, args)      # nothing is unknown: execute the real function
        if argmap is not None: args = argmap(args)
        args = [SBytes(it.ctx.rope(a).segs) if isinstance(a, (SBA, bytearray)) else a for a in args]
        n = it.opaque_id(tag, args)
        it.trusted.add('call abstracted by its own contract: ' + tag)
        memo = it.ctx.__dict__.setdefault('opaque_flags', {})
        if exc is not None:
            if (tag, n) not in memo: memo[(tag, n)] = it.ctx.fresh_bool('fails_' + tag)
            if it.ctx.decide(memo[(tag, n)]): raise PyRaise(exc('abstract'))
        if nullable:
            if (tag, n, 'none') not in memo: memo[(tag, n, 'none')] = it.ctx.fresh_bool('none_' + tag)
            if it.ctx.decide(memo[(tag, n, 'none')]): return None
        if build is not None:
            if (tag, n, 'v') not in memo: memo[(tag, n, 'v')] = build(it.ctx, tag + str(n), args)
            return memo[(tag, n, 'v')]
        return SOpaque(tag, n)
    return h

def inplace_of(tag):
    """Handler for a function that rewrites its bytearray argument in place (same length) and returns it, or returns None."""
    def h(it, args, kw):
        ctx = it.ctx
        b = args[0]
        if not isinstance(b, SBA): raise Unsupported(tag + ' on a value that is not a bytearray')
        content = SBytes(ctx.rope(b).segs)
        n = it.opaque_id(tag, [content])
        it.trusted.add('call abstracted by its own contract: ' + tag)
        memo = ctx.__dict__.setdefault('opaque_flags', {})
        if (tag, n) not in memo: memo[(tag, n)] = (ctx.fresh_bool('fails_' + tag), ctx.fresh_arr(tag + str(n)))
        fails, arr = memo[(tag, n)]
        b.val = SBytes([(arr, 0, ctx.rlen(content))])
        it.mutate(b, 'val')
        return None if ctx.decide(fails) else b
    return h
