"""One symbolic path: path condition, forking by re-execution, integer and byte-string primitives."""
import time
import z3
from .values import *

INTARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
BOOLARR = z3.ArraySort(z3.IntSort(), z3.BoolSort())

class Stats:
    def __init__(self):
        self.solver_s = 0.0; self.checks = 0; self.paths = 0

class Ctx:
    """Path context.  `trace` is the list of forced decisions; new decisions are appended with their alternative."""

    def __init__(self, trace, stats, timeout_ms=8000, deadline=None):
        self.trace = list(trace)
        self.idx = 0
        self.new = []               # (position) of decisions that have an unexplored alternative
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.counter = 0
        self.birth = 0
        self.known = {}
        self.ranged = set()
        self.fork_limit = 4000
        self.unknowns = 0
        self.proved = []            # labels
        self.refuted = []           # (label, model)
        self.undecided = []         # (label, why)
        self.assertions = []
        self.keep = []

    # --- fresh names (deterministic under re-execution)
    def fresh_int(self, name='v'):
        self.counter += 1
        return z3.Int('%s!%d' % (name, self.counter))
    def fresh_bool(self, name='p'):
        self.counter += 1
        return z3.Bool('%s!%d' % (name, self.counter))
    def fresh_arr(self, name='a'):
        self.counter += 1
        return z3.Const('%s!%d' % (name, self.counter), INTARR)
    def fresh_set(self, name='s'):
        self.counter += 1
        return z3.Const('%s!%d' % (name, self.counter), BOOLARR)
    def born(self, o):
        self.birth += 1
        o.birth = self.birth
        return o

    # --- solver
    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False:
            raise PathEnd('assumption false')
        self.solver.add(c)
        self.assertions.append(c)

    def check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.checks += 1
        return r

    def decide(self, c):
        """Truth value of c on this path; forks when both are feasible."""
        if c is True or c is False:
            return c
        if isinstance(c, bool):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = c.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit[1]
        if self.idx < len(self.trace):
            v = self.trace[self.idx]
        else:
            if len(self.trace) > self.fork_limit:
                raise Unsupported('fork limit')
            r1 = self.check(c)
            if r1 == z3.unsat:
                v = False
            else:
                r2 = self.check(z3.Not(c))
                if r2 == z3.unsat:
                    v = True
                else:
                    v = True
                    self.new.append(len(self.trace))
                    if r1 == z3.unknown or r2 == z3.unknown:
                        self.unknowns += 1
            self.trace.append(v)
        self.idx += 1
        n = c if v else z3.Not(c)
        self.assume(n)
        self.known[key] = (c, v)        # keeps c alive so that ids stay unique
        return v

    def implied(self, c):
        """True when c follows from the path condition (no fork, not recorded)."""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        hit = self.known.get(c.get_id())
        if hit is not None:
            return hit[1]
        # implied() queries are deterministic functions of the path, so they are safe under re-execution
        return self.check(z3.Not(c)) == z3.unsat

    def prove(self, goal, label):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self.proved.append(label); return True
        neg = z3.Not(goal)
        r = self.check(neg)
        if r == z3.unknown:
            r = self.retry(neg)
        if r == z3.unsat:
            self.proved.append(label); return True
        if r == z3.sat:
            self.refuted.append((label, neg)); return False
        self.undecided.append((label, 'solver returned unknown'))
        return False

    def retry(self, neg):
        for tac in (None, 'qfnia'):
            s = z3.Solver() if tac is None else z3.SolverFor('QF_NIA')
            s.set('timeout', self.timeout_ms * 3)
            s.add(*self.assertions); s.add(neg)
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            self.stats.solver_s += time.time() - t
            self.stats.checks += 1
            if r != z3.unknown:
                return r
        return z3.unknown

    # --- integers
    def I(self, v):
        """As an integer value (python int or z3 Int)."""
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v): return v
        raise Unsupported('not an integer: %r' % (v,))

    def norm(self, t):
        if isinstance(t, int): return t
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        return t

    def add(self, a, b): return self.norm(a + b) if (is_sym(a) or is_sym(b)) else a + b
    def sub(self, a, b): return self.norm(a - b) if (is_sym(a) or is_sym(b)) else a - b
    def mul(self, a, b): return self.norm(a * b) if (is_sym(a) or is_sym(b)) else a * b

    def floordivmod(self, a, b):
        if not is_sym(a) and not is_sym(b):
            if b == 0: raise PyRaise(ZeroDivisionError('division by zero'))
            return a // b, a % b
        if not is_sym(b):
            if b == 0: raise PyRaise(ZeroDivisionError('division by zero'))
            if b > 0:
                return self.norm(a / z3.IntVal(b)) if is_sym(a) else a // b, self.norm(a % z3.IntVal(b))
            na = self.norm(-a)
            return self.norm(na / z3.IntVal(-b)), self.norm(-(na % z3.IntVal(-b)))
        if self.decide(b == 0):
            raise PyRaise(ZeroDivisionError('division by zero'))
        a = z3.IntVal(a) if not is_sym(a) else a
        if self.decide(b > 0):
            return self.norm(a / b), self.norm(a % b)
        na, nb = -a, -b
        return self.norm(na / nb), self.norm(-(na % nb))

    def concretize(self, t, lo=0, hi=64):
        """Fork on the value of t, which must lie in [lo, hi] on this path."""
        if not is_sym(t): return t
        if not self.implied(z3.And(t >= lo, t <= hi)):
            raise Unsupported('cannot enumerate %s in [%d,%d]' % (t, lo, hi))
        for k in range(lo, hi + 1):
            if self.decide(t == k):
                return k
        raise PathEnd('no value')

    def tz(self, t):
        """A number of low zero bits t certainly has."""
        if isinstance(t, int):
            if t == 0: return 10 ** 6
            return (t & -t).bit_length() - 1
        if z3.is_int_value(t): return self.tz(t.as_long())
        if z3.is_mul(t): return sum(self.tz(c) for c in t.children() if z3.is_int_value(c))
        if z3.is_add(t): return min(self.tz(c) for c in t.children())
        if z3.is_app_of(t, z3.Z3_OP_ITE): return min(self.tz(t.arg(1)), self.tz(t.arg(2)))
        return 0

    def band_const(self, x, c):
        if not is_sym(x): return x & c
        if c == 0: return 0
        if c < 0:
            return self.sub(x, self.band_const(x, ~c))
        total = 0
        lo = 0
        while c >> lo:
            if not (c >> lo) & 1:
                lo += 1; continue
            hi = lo
            while (c >> hi) & 1: hi += 1
            q = x if lo == 0 else x / z3.IntVal(1 << lo)
            part = (q % z3.IntVal(1 << (hi - lo)))
            total = total + (part * (1 << lo) if lo else part)
            lo = hi
        return self.norm(total)

    def bitop(self, op, a, b):
        if not is_sym(a) and not is_sym(b):
            return a & b if op == '&' else (a | b if op == '|' else a ^ b)
        if is_sym(b) and not is_sym(a): a, b = b, a
        if not is_sym(b):
            m = self.band_const(a, b)
            if op == '&': return m
            if op == '|': return self.sub(self.add(a, b), m)
            return self.sub(self.add(a, b), self.mul(2, m))
        for x, y in ((a, b), (b, a)):
            k = self.tz(x)
            if k:
                k = min(k, 4096)
                if self.implied(z3.And(y >= 0, y < (1 << k))):
                    return 0 if op == '&' else self.add(x, y)
        if a.eq(b):
            return a if op in '&|' else 0
        if op in ('|', '&', '^'):
            # byte-sized operands: exact bit-by-bit definition
            for w in (8, 16, 32):
                if self.implied(z3.And(a >= 0, a < (1 << w), b >= 0, b < (1 << w))):
                    t = 0
                    for k in range(w):
                        x = (a / z3.IntVal(1 << k)) % 2; y = (b / z3.IntVal(1 << k)) % 2
                        if op == '&': bit = z3.And(x == 1, y == 1)
                        elif op == '|': bit = z3.Or(x == 1, y == 1)
                        else: bit = x != y
                        t = t + z3.If(bit, z3.IntVal(1 << k), z3.IntVal(0))
                    return self.norm(t)
        raise Unsupported('bit operation on two symbolic integers: %s %s %s' % (a, op, b))

    def shift(self, op, a, b):
        if is_sym(b):
            b = self.concretize(b, 0, 130)
        if b < 0: raise PyRaise(ValueError('negative shift count'))
        if op == '<<': return self.mul(a, 1 << b)
        return self.floordivmod(a, 1 << b)[0]

    # --- ropes
    def seg_bytes(self, data):
        return SBytes([(bytes(data), 0, len(data))] if len(data) else [])

    def rope(self, v):
        """Any bytes-like value as SBytes."""
        if isinstance(v, SBA): return v.val
        if isinstance(v, SBytes): return v
        if isinstance(v, (bytes, bytearray, memoryview)): return self.seg_bytes(bytes(v))
        raise Unsupported('not bytes: %r' % (v,))

    def rlen(self, r):
        n = 0
        for (_, _, l) in r.segs: n = self.add(n, l)
        return n

    def sel(self, src, idx):
        if isinstance(src, bytes):
            if not is_sym(idx): return src[idx] if 0 <= idx < len(src) else 0
            if len(src) > 64 and src.count(src[:1]) == len(src): return src[0]
            e = z3.IntVal(0)
            if len(src) > 600:
                # its bytes are left unspecified (a superset of what can happen)
                memo = self.__dict__.setdefault('long_constants', {})
                if src not in memo: memo[src] = self.fresh_arr('constant')
                return self.sel(memo[src], idx)
            for k in range(len(src) - 1, -1, -1):
                e = z3.If(idx == k, z3.IntVal(src[k]), e)
            return self.norm(e)
        t = z3.simplify(z3.Select(src, idx if is_sym(idx) else z3.IntVal(idx)))
        if z3.is_int_value(t): return t.as_long()
        k = t.get_id()
        if k not in self.ranged:
            self.ranged.add(k)
            self.keep.append(t)         # keeps the term alive so that its id stays unique
            self.assume(z3.And(t >= 0, t <= 255))
        return t

    def rsel(self, r, i):
        """Byte i of rope r (0 <= i < len known), forking over segments."""
        for n, (src, off, l) in enumerate(r.segs):
            if n == len(r.segs) - 1 or self.decide(self._lt(i, l)):
                return self.sel(src, self.add(off, i))
            i = self.sub(i, l)
        raise Unsupported('index into empty bytes')

    def _lt(self, a, b):
        if not is_sym(a) and not is_sym(b): return a < b
        return (a if is_sym(a) else z3.IntVal(a)) < b
    def _le(self, a, b):
        if not is_sym(a) and not is_sym(b): return a <= b
        return (a if is_sym(a) else z3.IntVal(a)) <= b
    def _eq(self, a, b):
        if not is_sym(a) and not is_sym(b): return a == b
        return (a if is_sym(a) else z3.IntVal(a)) == b

    def rsel_ite(self, r, i):
        """Byte i of rope r as one term (no forks)."""
        if not r.segs: return 0
        src, off, l = r.segs[-1]
        bounds = []; acc = 0
        for (s, o, l) in r.segs:
            bounds.append((acc, s, o)); acc = self.add(acc, l)
        e = None
        for k in range(len(bounds) - 1, -1, -1):
            st, s, o = bounds[k]
            v = self.sel(s, self.add(o, self.sub(i, st)))
            v = z3.IntVal(v) if isinstance(v, int) else v
            if e is None: e = v
            else:
                c = self._lt(i, bounds[k + 1][0])
                if isinstance(c, bool): e = v if c else e
                else: e = z3.If(c, v, e)
        return self.norm(e)

    def rslice(self, r, lo, hi):
        """r[lo:hi] for 0 <= lo <= hi <= len(r)."""
        out = []
        for n, (src, off, l) in enumerate(r.segs):
            last = n == len(r.segs) - 1
            d = self.sub(hi, lo)
            if not is_sym(d) and d <= 0: break
            if not last and self.decide(self._le(l, lo)):
                lo = self.sub(lo, l); hi = self.sub(hi, l); continue
            if last or self.decide(self._le(hi, l)):
                out.append((src, self.add(off, lo), self.sub(hi, lo)))
                break
            out.append((src, self.add(off, lo), self.sub(l, lo)))
            hi = self.sub(hi, l); lo = 0
        return SBytes(self._compact(out))

    def _compact(self, segs):
        res = []
        for (src, off, l) in segs:
            if not is_sym(l) and l <= 0: continue
            if isinstance(src, bytes) and not is_sym(off) and not is_sym(l):
                src = src[off:off + l]; off = 0; l = len(src)
                if not l: continue
                if res and isinstance(res[-1][0], bytes) and not is_sym(res[-1][1]) and not is_sym(res[-1][2]):
                    p = res.pop(); src = p[0][p[1]:p[1] + p[2]] + src; l = len(src)
            elif res and not isinstance(src, bytes) and not isinstance(res[-1][0], bytes) and res[-1][0].eq(src):
                ps, po, pl = res[-1]
                gap = self.sub(self.add(po, pl), off)
                if not is_sym(gap) and gap == 0:
                    res[-1] = (ps, po, self.add(pl, l)); continue
            res.append((src, off, l))
        return res

    def concat(self, a, b):
        return SBytes(self._compact(a.segs + b.segs))

    def slice_bounds(self, n, lo, hi):
        """Python slice clipping for step 1; returns 0 <= lo <= hi <= n."""
        def clip(v, default):
            if v is None: return default
            if self.decide(self._lt(v, 0)):
                v = self.add(v, n)
                if self.decide(self._lt(v, 0)): return 0
                return v
            if self.decide(self._lt(n, v)): return n
            return v
        lo = clip(lo, 0); hi = clip(hi, n)
        if self.decide(self._lt(hi, lo)): hi = lo
        return lo, hi

    def concrete_bytes(self, r):
        """The rope as native bytes if it is fully concrete, else None."""
        if isinstance(r, SBA): r = r.val
        if isinstance(r, (bytes, bytearray)): return bytes(r)
        out = b''
        for (src, off, l) in r.segs:
            if not isinstance(src, bytes) or is_sym(off) or is_sym(l): return None
            out += src[off:off + l]
        return out

    def byte_list(self, r):
        """Bytes of a rope of concrete length as a list of terms."""
        n = self.rlen(r)
        if is_sym(n): return None
        if n < 4: return [self.rsel_ite(r, i) for i in range(n)]
        def tid(x): return ('z', x.get_id()) if is_sym(x) or z3.is_expr(x) else x
        key = tuple((tid(src), tid(off), tid(l)) for src, off, l in r.segs)
        memo = self.__dict__.setdefault('byte_lists', {})
        if key not in memo: memo[key] = (list(r.segs), [self.rsel_ite(r, i) for i in range(n)])     # the segments are kept so that ids stay unique
        return list(memo[key][1])

    def round_rat(self, a, b):
        """Integer nearest to the double nearest to a / b (b a positive constant)."""
        if b <= 0: raise Unsupported('division by a negative constant')
        memo = self.__dict__.setdefault('rat_memo', {})
        key = (a.get_id() if is_sym(a) else a, b)
        if key not in memo:
            u = self.fresh_int('rounded')
            mag = z3.If(a >= 0, a, -a)
            d = b * u - a
            lim = 2 * mag + (1 << 53) * b
            self.assume(z3.And((1 << 54) * d <= lim, (1 << 54) * d >= -lim))
            memo[key] = (u, a)
        return memo[key][0]

    def from_bytes(self, r, little=True, signed=False):
        r = self.rope(r)
        n = self.rlen(r)
        if is_sym(n):
            n = self.concretize(n, 0, 32)
            r = SBytes([s for s in r.segs])
            if len(r.segs) == 1:
                r = SBytes([(r.segs[0][0], r.segs[0][1], n)])
        bs = [self.rsel_ite(r, i) for i in range(n)]
        if not little: bs = bs[::-1]
        return self.le_int(bs, signed)

    def le_int(self, bs, signed=False):
        v = 0
        for k, b in enumerate(bs):
            v = v + b * (1 << (8 * k)) if k else b
        v = self.norm(v) if is_sym(v) else v
        if signed and bs:
            top = 1 << (8 * len(bs))
            if is_sym(v): v = self.norm(z3.If(v >= top // 2, v - top, v))
            elif v >= top // 2: v -= top
        return v

    def bytes_eq(self, a, b):
        """Equality of two ropes as a goal/condition term."""
        a = self.rope(a); b = self.rope(b)
        la, lb = self.rlen(a), self.rlen(b)
        if len(a.segs) == 1 and len(b.segs) == 1:
            (s1, o1, l1), (s2, o2, l2) = a.segs[0], b.segs[0]
            if s1 is s2 or (not isinstance(s1, bytes) and not isinstance(s2, bytes) and s1.eq(s2)):
                d = self.sub(o1, o2)
                if not is_sym(d) and d == 0:
                    return self._eq(la, lb)
        if not is_sym(la) and not is_sym(lb):
            if la != lb: return False
            if la <= 64 or (self.concrete_bytes(a) is not None and self.concrete_bytes(b) is not None):
                ca, cb = self.concrete_bytes(a), self.concrete_bytes(b)
                if ca is not None and cb is not None: return ca == cb
                cs = [self._eq(self.rsel_ite(a, i), self.rsel_ite(b, i)) for i in range(la)]
                return self.conj(cs)
        le = self._eq(la, lb)
        if le is False: return False
        return z3.And(le if not isinstance(le, bool) else z3.BoolVal(le), _BytesEqMarker(self, a, b, la))

    def long_const(self, r):
        """A segment is a long constant with no uniform byte: compare element by element."""
        return any(isinstance(src, bytes) and len(src) > 64 and src.count(src[:1]) != len(src) for src, _, _ in r.segs)

    def conj(self, cs):
        out = []
        for c in cs:
            if c is False: return False
            if c is True: continue
            out.append(c)
        if not out: return True
        return out[0] if len(out) == 1 else z3.And(*out)

def _BytesEqMarker(ctx, a, b, n):
    """forall 0<=i<n: a[i]==b[i] (quantified; goals are skolemised by the solver's negation)."""
    ctx.counter += 1
    i = z3.Int('q!%d' % ctx.counter)
    # byte terms must not add range assumptions on bound variables
    keep = ctx.assume
    ctx.assume = lambda c: None
    try:
        x = ctx.rsel_ite(a, i); y = ctx.rsel_ite(b, i)
    finally:
        ctx.assume = keep
    x = z3.IntVal(x) if isinstance(x, int) else x
    y = z3.IntVal(y) if isinstance(y, int) else y
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), x == y))
