"""Obligation generation and discharge for one contract, replay of counter-models, bounded search."""
import functools, ast, importlib, inspect, os, random, signal, sys, time, traceback, types, uuid
import datetime as _dt
import z3
from .values import *
from .ctx import Ctx, Stats
from .interp import Interp, FuncIndex, assigned_names, rebound_names, is_generator, MISSING
from . import shapes

def isint(v): return isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)

REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def interpretable(fn):
    fn = os.path.realpath(fn)
    return fn.startswith(os.path.realpath(REPO) + '/') or fn.startswith(os.path.realpath(VERIF) + '/contracts/')

class Loop:
    """Loop contract: the coupling invariant between the real loop and the specification's loop.

    roles: specification variable -> real variable (dotted paths allowed, '@iter' is the next item of a `for`).
    inv: extra invariant over specification variables and inputs.  variant: decreasing integer measure.
    """
    def __init__(self, roles, shapes=None, inv=None, variant=None, elems=None, ordinal=None, func=None, optional=(), peel=False):
        self.peel = peel            # the first iteration is taken exactly; locals of the implementation that later iterations do not change keep the values it gave them (checked)
        self.roles = roles; self.shapes = shapes or {}; self.inv = inv; self.variant = variant; self.elems = elems or {}
        self.ordinal = ordinal; self.func = func
        self.optional = set(optional)   # roles dropped when the implementation has no such variable

class Contract:
    def __init__(self, name, functions, inputs, real, spec, pre=None, loops=None, gen=None, abstracts=None, unroll=(), unroll_limit=300,
                 bounded=False, search_n=None, note='', timeout_ms=8000, bmc_limit=4, path_limit=20000, budget=None, fixed_cases=None, expect_raise=None,
                 concrete_env=None, weight=1, alts=(), cut_fixed=False):
        self.cut_fixed = cut_fixed      # also cut loops over ranges and bytes of fixed length
        params = list(inspect.signature(real).parameters)
        for f in [spec] + ([pre] if pre else []) + [a[0] for a in alts]:
            if list(inspect.signature(f).parameters) != params: raise TypeError('contract %s: %s has parameters other than %r' % (name, f.__name__, params))
        if sorted(params) != sorted(inputs): raise TypeError('contract %s: inputs' % name)
        inputs = {p: inputs[p] for p in params}
        self.name = name; self.functions = functions; self.inputs = inputs; self.real = real; self.spec = spec; self.pre = pre
        self.loops = loops; self.gen = gen; self.abstracts = abstracts or {}; self.unroll = set(unroll); self.unroll_limit = unroll_limit
        self.bounded = bounded; self.search_n = search_n; self.note = note; self.timeout_ms = timeout_ms; self.bmc_limit = bmc_limit
        self.path_limit = path_limit; self.budget = budget; self.fixed_cases = fixed_cases or []
        self.weight = weight
        self.alts = list(alts)      # equivalent formulations (spec, loops) of the specification, for other loop structures

class NeedBinding(Exception):
    def __init__(self, loop, missing, cands): self.loop = loop; self.missing = missing; self.cands = cands

class Result:
    def __init__(self, c):
        self.contract = c; self.obligations = 0; self.discharged = 0; self.refuted = []; self.undecided = []; self.paths = 0
        self.final_paths = 0; self.backedges = 0; self.functions = set(); self.trusted = set(); self.stats = Stats(); self.complete = False
        self.models = []; self.wall = 0.0; self.labels = {}

class Side:
    def __init__(self, it, fn, args):
        self.it = it; self.fn = fn; self.yields = []
        self.gen = it.call(fn, args, {})
    def advance(self):
        while True:
            try:
                e = self.gen.send(None)
            except StopIteration as s:
                if isinstance(s.value, SGen) and s.value.gen is not None and is_generator_fn(self.fn):
                    self.gen = s.value.gen
                    self.fn = None
                    continue
                return ('ret', s.value)
            except PyRaise as e:
                return ('exc', e)
            if e[0] == 'yield': self.yields.append(e[1]); continue
            return e

def is_generator_fn(fn):
    import inspect
    return fn is not None and inspect.isgeneratorfunction(fn)

def lookup(head, path, it=None):
    parts = path.split('.')
    if parts[0] == '@iter':
        if head.it is None: return MISSING
        return head.it.nxt
    v = MISSING
    for fr in [head.frame] + [f for f, _ in head.outer]:
        f = fr
        while f is not None:
            if parts[0] in f.locals: v = f.locals[parts[0]]; break
            f = f.parent
        if v is not MISSING: break
    if v is MISSING: return MISSING
    for p in parts[1:]:
        if isinstance(v, SObj):
            if p in v.attrs: v = v.attrs[p]
            else:
                a = None
                if not isinstance(v.cls, str):
                    for c in v.cls.__mro__:
                        if p in c.__dict__: a = c.__dict__[p]; break
                    else: return MISSING
                v = a
        elif isinstance(v, SFile): v = getattr(v, p)
        else: return MISSING
    return v

def assign_path(head, path, val):
    parts = path.split('.')
    if parts[0] == '@iter':
        head.it.nxt = val; return
    if len(parts) == 1:
        for fr in [head.frame] + [f for f, _ in head.outer]:
            f = fr
            while f is not None:
                if parts[0] in f.locals: f.locals[parts[0]] = val; return
                f = f.parent
        head.frame.locals[parts[0]] = val
        return
    o = lookup(head, '.'.join(parts[:-1]))
    if isinstance(o, SObj): o.attrs[parts[-1]] = val
    elif isinstance(o, SFile): setattr(o, parts[-1], val)
    else: raise Unsupported('assign to ' + path)

class Prover:
    def __init__(self, contract, deadline, mode='prove'):
        self.c = contract; self.deadline = deadline; self.mode = mode
        self.res = Result(contract)
        self.binding = {}          # (loop index, spec role) -> real path
        self.poison = set()        # (birth, field)
        self.need_poison = set()
        self.changed = set()       # (line, local): locals that a peeled loop changes after its first iteration
        self.now_changed = set()

    # ---- one path
    def run_path(self, trace):
        c = self.c
        ctx = Ctx(trace, self.res.stats, c.timeout_ms, self.deadline)
        ctx.objects = []
        born0 = ctx.born
        def born(o):
            born0(o); ctx.objects.append(o); return o
        ctx.born = born
        err = None
        self.havoc_done = False
        try:
            self.body(ctx)
        except PathEnd:
            pass
        except Unsupported as e:
            err = str(e)
        except RecursionError:
            err = 'recursion'
        return ctx, err

    def cut_policy(self, frame, node, kind):
        if self.mode != 'prove' or self.c.loops is None: return False
        q = frame.qual
        if q in self.c.unroll or q.split('.')[-1] in self.c.unroll: return False
        return True

    def make_interp(self, ctx, side):
        it = Interp(ctx, interpretable, self.c.abstracts, self.cut_policy, self.c.unroll_limit if self.mode == 'prove' else self.c.bmc_limit, side)
        it.bmc = self.mode == 'bmc'
        it.cut_fixed = self.c.cut_fixed and self.mode == 'prove'
        return it

    def body(self, ctx):
        c = self.c
        packs = {}
        for n, sh in c.inputs.items():
            packs[n] = sh.sym(ctx, n)
        ctx.packs = packs
        def vals(): return [c.inputs[n].value(ctx, packs[n]) for n in c.inputs]
        if c.pre is not None:
            it = self.make_interp(ctx, 'spec')
            v = run_to_end(it, c.pre, vals())
            if not it.truth(v): raise PathEnd('precondition')
        rit = self.make_interp(ctx, 'real'); sit = self.make_interp(ctx, 'spec')
        self.rit = rit
        real = Side(rit, c.real, vals())
        havoc_birth = [None]; covered = set()
        def written(o, field):
            if havoc_birth[0] is None: return
            b = getattr(o, 'birth', 0)
            if b <= havoc_birth[0] and (id(o), field) not in covered and (id(o), None) not in covered:
                self.need_poison.add((b, field))
        rit.written = written
        spec = Side(sit, c.spec, vals())
        seen = {}
        try:
            while True:
                er = real.advance()
                es = spec.advance()
                if er[0] == 'cut' and es[0] == 'cut':
                    self.compare_yields(ctx, rit, real, spec)
                    if self.at_cut(ctx, rit, sit, er[1], es[1], seen, havoc_birth, covered, packs): 
                        self.res.backedges += 1
                        return
                    continue
                # a loop entered by one side only: it may still turn out to do no iteration
                for _ in range(4):
                    if er[0] == 'cut' and es[0] != 'cut':
                        h = er[1]; er = real.advance()
                        if er[0] == 'cut' and er[1].node is h.node: break
                    elif es[0] == 'cut' and er[0] != 'cut':
                        h = es[1]; es = spec.advance()
                        if es[0] == 'cut' and es[1].node is h.node: break
                    else: break
                if er[0] == 'cut' or es[0] == 'cut':
                    who = 'implementation iterates where the specification stops' if er[0] == 'cut' else 'implementation stops where the specification iterates'
                    if er[0] == 'cut' and es[0] == 'cut': pass
                    ctx.prove(False, 'control: ' + who + self.outcome_text(er if er[0] != 'cut' else es))
                    return
                self.compare_yields(ctx, rit, real, spec)
                self.compare_outcome(ctx, rit, er, es)
                self.res.final_paths += 1
                return
        finally:
            self.res.functions |= {f for f in rit.seen if not f.startswith('contracts.')}
            self.res.trusted |= rit.trusted | sit.trusted

    def outcome_text(self, e):
        if e[0] == 'exc': return ' (raises %s)' % e[1].cls.__name__
        return ''

    def compare_yields(self, ctx, it, real, spec):
        if len(real.yields) != len(spec.yields):
            ctx.prove(False, 'yield: number of yielded values (%d, specified %d)' % (len(real.yields), len(spec.yields)))
            raise PathEnd('yields')
        for a, b in zip(real.yields, spec.yields):
            ctx.prove(it.eq(a, b), 'yield: yielded value equals the specified one')
        real.yields.clear(); spec.yields.clear()

    def compare_outcome(self, ctx, it, er, es):
        if er[0] != es[0]:
            w = 'post: raises %s where a result is specified' % er[1].cls.__name__ if er[0] == 'exc' else 'post: returns where %s is specified' % es[1].cls.__name__
            if er[0] == 'exc' and issubclass(er[1].cls, NotImplementedError) : pass
            ctx.prove(False, w)
            return
        if er[0] == 'exc':
            ok = issubclass(er[1].cls, es[1].cls)
            ctx.prove(ok, 'post: exception class %s' % es[1].cls.__name__ + ('' if ok else ' (got %s)' % er[1].cls.__name__))
            return
        ctx.prove(it.eq(er[1], es[1]), 'post: result equals the specified one')

    # ---- loop heads
    def find_loop(self, head):
        name = head.frame.qual.split('.')[-1]
        for i, l in enumerate(self.c.loops):
            if l.func is not None:
                if l.func == name and (l.ordinal is None or l.ordinal == head.ordinal): return i, l
            elif l.ordinal is not None:
                if l.ordinal == head.ordinal and name == self.c.spec.__name__: return i, l
            elif i == head.ordinal and name == self.c.spec.__name__: return i, l
        raise Unsupported('no loop contract for specification loop %s#%d' % (name, head.ordinal))

    def at_cut(self, ctx, rit, sit, rh, sh, seen, havoc_birth, covered, packs):
        li, loop = self.find_loop(sh)
        roles = dict(loop.roles)
        for s in list(roles):
            b = self.binding.get((li, s))
            if b is not None: roles[s] = b
        if '@iter' not in roles and sh.it is not None and rh.it is not None and '@iter' not in roles.values():
            roles['@iter'] = '@iter'
        late_roles = {}; late_bool = set()
        for s in loop.optional:
            if s in roles and lookup(rh, roles[s]) is MISSING:
                if roles[s] in assigned_names(rh.node): 
                    if isinstance(lookup(sh, s), (bool, z3.BoolRef)): late_bool.add(s)
                    elif not isint(lookup(sh, s)): raise Unsupported('late role ' + s)
                    late_roles[s] = roles[s]     # first bound by the loop: coupled from the first iteration on
                del roles[s]
        missing = [s for s, r in roles.items() if lookup(rh, r) is MISSING]
        if missing:
            used = set(roles.values())
            mod = set(assigned_names(rh.node))
            names = [n for n in rh.frame.locals if not n.startswith('$') and n not in used]
            names = [n for n in names if n in mod] + [n for n in names if n not in mod] + (['@iter'] if rh.it is not None and '@iter' not in used else [])
            cands = {}
            for s in missing:
                sv = lookup(sh, s)
                cands[s] = [n for n in names if compatible(sv, lookup(rh, n))]
            raise NeedBinding(li, missing, cands)
        tag = 'loop %d invariant' % li
        if loop.peel and ('peel', li, rh.act, sh.act) not in seen:
            seen[('peel', li, rh.act, sh.act)] = True
            return False
        key = (li, rh.act, sh.act)     # one activation of the loop: a loop entered again (by an unrolled outer loop) starts a new induction
        first = key not in seen
        offs = {}
        for s, r in roles.items():
            sv = lookup(sh, s); rv = lookup(rh, r)
            if isinstance(sv, Poison) or isinstance(rv, Poison): raise Unsupported('poisoned role ' + s)
            if isint(sv) and isint(rv) and not isinstance(sv, bool):
                # an inferred constant offset between the two counters is part of the invariant
                if first:
                    d = ctx.sub(ctx.I(rv), ctx.I(sv))
                    offs[s] = d if not is_sym(d) else 0
                else: offs = seen[key]['offs']
                if offs.get(s): rv = ctx.sub(ctx.I(rv), offs[s])
            ok = ctx.prove(rit.eq(rv, sv), '%s (%s): %s coupled to specification variable %s' % (tag, 'initial' if first else 'preserved', r if r != '@iter' else 'iteration', s))
            if not ok: raise PathEnd('invariant failed')
            if loop.shapes.get(s) == 'bytes:fixed' and not first:
                n0 = seen[key]['len:' + s]
                ctx.prove(ctx._eq(ctx.rlen(ctx.rope(sv)), n0), '%s: length of %s unchanged' % (tag, s))
        env = None
        if loop.inv is not None:
            v = run_to_end(sit, loop.inv, self.inv_args(loop.inv, sh, packs, ctx))
            if not ctx.prove(to_bool(sit, v), '%s (%s): declared invariant' % (tag, 'initial' if first else 'preserved')): raise PathEnd('invariant failed')
        if not first:
            for fr, n, v0, k in seen[key].get('kept', ()):
                v = fr.locals.get(n, MISSING)
                if v is v0: continue
                e = False if v is MISSING or isinstance(v, Poison) or isinstance(v0, Poison) else rit.eq(v, v0)
                if e is True or (e is not False and ctx.implied(e)): continue
                self.now_changed.add(k)
            for fr, n, b in seen[key]['typed']:
                v = fr.locals.get(n, MISSING)
                if isinstance(v, Poison): continue
                if not isint(v) or isinstance(v, (bool, z3.BoolRef)) != b: raise Unsupported('local %s changes its type in the loop' % n)
            for o, f in seen[key]['fields']:
                v = o.attrs.get(f)
                if not isinstance(v, Poison) and (not isint(v) or isinstance(v, (bool, z3.BoolRef))): raise Unsupported('field %s changes its type in the loop' % f)
            if loop.variant is not None and 'variant' in seen[key]:
                v1 = run_to_end(sit, loop.variant, self.inv_args(loop.variant, sh, packs, ctx))
                v0 = seen[key]['variant']
                ctx.prove(rit.simp(z3.And(ctx_int(v1) < ctx_int(v0), ctx_int(v0) >= 0)) if is_sym(v0) or is_sym(v1) else (v1 < v0 and v0 >= 0), 'loop %d variant decreases' % li)
            return True
        # --- havoc
        rec = {'offs': offs, 'typed': [], 'fields': []}
        late = [n for n in assigned_names(rh.node) if n not in rh.frame.locals]
        if any(loaded_outside(rh.frame.node, rh.node, n) for n in late):
            # a local first bound by the loop and read after it: the first iteration is taken from the exact initial state (base case), the arbitrary state stands for one iteration or more
            if ctx.decide(ctx.fresh_bool('first_iteration')):
                seen[key] = rec
                for s in roles:
                    if loop.shapes.get(s) == 'bytes:fixed': rec['len:' + s] = ctx.rlen(ctx.rope(lookup(rh, roles[s])))
                return False
        for s, r in roles.items(): rec['cur:' + s] = lookup(rh, r)
        seen[key] = rec
        rl = set(assigned_names(rh.node)); sl = set(assigned_names(sh.node))
        for fr, names in [(rh.frame, rl)] + [(f, assigned_names(n)) for f, n in rh.outer]:
            for n in names:
                if n in fr.locals:
                    old = fr.locals[n]
                    if any(r.split('.')[0] == n and '.' in r for r in roles.values()): continue
                    if loop.peel and fr is rh.frame and n not in roles.values() and (rh.node.lineno, n) not in self.changed:
                        rec.setdefault('kept', []).append((fr, n, old, (rh.node.lineno, n)))
                        continue
                    fr.locals[n] = havoc_unknown(ctx, old, 'local %s' % n)
                    if n not in roles.values() and isint(fr.locals[n]): rec['typed'].append((fr, n, isinstance(fr.locals[n], z3.BoolRef)))
        for n in late:
            if n in late_roles.values(): continue
            if all(isinstance(v, ast.Constant) and isinstance(v.value, bool) for v in bound_values(rh.frame.node, n)):
                rh.frame.locals[n] = ctx.decide(ctx.fresh_bool(n)) if loaded_outside(rh.frame.node, rh.node, n) else ctx.fresh_bool(n)
            else: rh.frame.locals[n] = Poison('local %s' % n)
        for n in sl: sh.frame.locals[n] = Poison('specification local ' + n)
        for o in ctx.objects:
            if isinstance(o, SFile):
                p = ctx.fresh_int('fpos'); ctx.assume(p >= 0); o.pos = p
                covered.add((id(o), 'pos'))
        for (b, f) in self.poison:
            for o in ctx.objects:
                if o.birth == b:
                    poison_field(ctx, o, f); covered.add((id(o), f))
                    if isinstance(o, SObj) and isint(o.attrs.get(f)): rec['fields'].append((o, f))
        # iteration states
        for h in (rh, sh):
            if h.it is not None:
                n = ctx.fresh_int('it'); self.iter_range(ctx, h.it, n); h.it.nxt = n
        for s, r in roles.items():
            self.havoc_role(ctx, loop, s, r, sh, rh, rec, covered)
        for s, r in late_roles.items():
            v = ctx.fresh_bool(s) if s in late_bool else ctx.fresh_int(s)
            assign_path(sh, s, v); rh.frame.locals[r] = v
        for s in loop.optional:
            if s not in roles and s not in late_roles: assign_path(sh, s, ctx.fresh_int(s))
        havoc_birth[0] = ctx.birth
        if loop.inv is not None:
            v = run_to_end(sit, loop.inv, self.inv_args(loop.inv, sh, packs, ctx))
            if not sit.truth(v): raise PathEnd('invariant')
        if loop.variant is not None:
            rec['variant'] = run_to_end(sit, loop.variant, self.inv_args(loop.variant, sh, packs, ctx))
        return False

    def iter_range(self, ctx, st, n):
        if st.step > 0:
            ctx.assume(n >= st.start)
            ctx.assume(z3.Or(n == st.start, n < st.end + st.step))
        else:
            ctx.assume(n <= st.start)
            ctx.assume(z3.Or(n == st.start, n > st.end + st.step))
        if abs(st.step) != 1: ctx.assume((n - st.start) % abs(st.step) == 0)

    def havoc_role(self, ctx, loop, s, r, sh, rh, rec, covered):
        cur = rec['cur:' + s]
        shp = loop.shapes.get(s)
        if s == '@iter' or r == '@iter':
            hs = [h for h, p in ((rh, r), (sh, s)) if p == '@iter']
            n = ctx.fresh_int('it')
            rn = ctx.add(n, rec['offs'].get(s, 0))
            for h in hs: self.iter_range(ctx, h.it, rn if h is rh else n)
            assign_path(rh, r, rn); assign_path(sh, s, n)
            return
        v = None
        if shp is None or shp == 'auto':
            if isinstance(cur, (bool, z3.BoolRef)): shp = 'bool'
            elif isinstance(cur, (int, z3.ArithRef)): shp = 'int'
            elif isinstance(cur, (bytes, SBytes)): shp = 'bytes'
            elif isinstance(cur, SBA): shp = 'ba'
            elif isinstance(cur, SList): shp = 'acc'
            elif isinstance(cur, SSet): shp = 'set'
            else: raise Unsupported('no shape for loop variable %s (%r)' % (s, cur))
        if shp == 'int': v = ctx.fresh_int(s)
        elif shp == 'bool': v = ctx.fresh_bool(s)
        elif shp == 'optint':
            v = None if ctx.decide(ctx.fresh_bool(s + '_none')) else ctx.fresh_int(s)
        elif shp == 'bytes':
            n = ctx.fresh_int(s + '_len'); ctx.assume(n >= 0)
            v = SBytes([(ctx.fresh_arr(s), 0, n)])
        elif shp == 'ba' or shp == 'bytes:fixed':
            ro = cur
            if isinstance(ro, SBA):
                n = ctx.rlen(ro.val)
                if shp == 'ba':
                    n = ctx.fresh_int(s + '_len'); ctx.assume(n >= 0)
                else: rec['len:' + s] = n
                val = SBytes([(ctx.fresh_arr(s), 0, n)])
                if '.' not in r and shp == 'ba' and r in rebound_names(rh.node):
                    # the variable is rebound by the loop: a fresh object, which must not be modified in place
                    nb = ctx.born(SBA(val)); ctx.__dict__.setdefault('frozen', []).append(nb)
                    assign_path(rh, r, nb)
                    assign_path(sh, s, ctx.born(SBA(val)))
                    return
                ro.val = val
                covered.add((id(ro), None))
                assign_path(rh, r, ro)
                assign_path(sh, s, ctx.born(SBA(val)))
                return
            n = ctx.rlen(ctx.rope(cur)); rec['len:' + s] = n
            v = SBytes([(ctx.fresh_arr(s), 0, n)])
        elif shp == 'acc':
            n = ctx.fresh_int(s + '_n'); ctx.assume(n >= 0)
            p = OpaqueSeq(s + '!%d' % ctx.counter, n, loop.elems.get(s))
            if isinstance(cur, SList):
                cur.prefix = p; cur.items = []
                covered.add((id(cur), None))
                # aliases of a replaced local keep the same object
                assign_path(rh, r, cur)
            else: raise Unsupported('accumulator is not a list')
            assign_path(sh, s, ctx.born(SList((), p)))
            return
        elif shp == 'set':
            a = ctx.fresh_set(s)
            cur.arr = a; cur.items = []
            covered.add((id(cur), None))
            assign_path(rh, r, cur)
            assign_path(sh, s, ctx.born(SSet((), a)))
            return
        elif callable(shp):
            v = shp(ctx)
        else: raise Unsupported('shape ' + str(shp))
        assign_path(rh, r, ctx.add(v, rec['offs'][s]) if rec['offs'].get(s) and isint(v) else v); assign_path(sh, s, v)
        if '.' in r:
            o = lookup(rh, '.'.join(r.split('.')[:-1]))
            covered.add((id(o), r.split('.')[-1]))

    def inv_args(self, fn, sh, packs, ctx):
        out = []
        for p in fn.__code__.co_varnames[:fn.__code__.co_argcount]:
            if p == 'iter_': out.append(sh.it.nxt); continue
            v = lookup(sh, p)
            if v is MISSING:
                if p in packs: v = self.c.inputs[p].value(ctx, packs[p])
                else: raise Unsupported('invariant refers to unknown ' + p)
            out.append(v)
        return out

    # ---- exploration
    def explore(self):
        t0 = time.time()
        self._explore()
        first = self.res
        if self.mode == 'prove' and (first.refuted or first.undecided) and self.c.alts:
            c = self.c
            keep = (c.spec, c.loops)
            try:
                for spec, loops in c.alts:
                    c.spec, c.loops = spec, loops
                    self.poison = set()
                    self.res = Result(c); self.res.stats = first.stats
                    self._explore()
                    if not self.res.refuted and not self.res.undecided: first = self.res; break
            finally:
                c.spec, c.loops = keep
            self.res = first
        self.res.wall = time.time() - t0
        return self.res

    def reset(self):
        r = Result(self.c); r.stats = self.res.stats
        self.res = r

    def _explore(self):
        tries = 0
        queue = [dict()]
        tried = []
        best = None
        while queue:
            b = queue.pop(0)
            if b in tried: continue
            tried.append(b)
            self.binding = b
            try:
                for rnd in range(24):
                    self.need_poison = set(); self.now_changed = set()
                    self.reset()
                    self.pass_()
                    new = self.need_poison - self.poison
                    if not new and not self.now_changed: break
                    self.poison |= new; self.changed |= self.now_changed
                else:
                    self.res.undecided.append(('frame', 'frame condition did not stabilise'))
            except NeedBinding as nb:
                import itertools
                opts = [nb.cands[s] for s in nb.missing]
                for combo in itertools.islice(itertools.product(*opts), 24):
                    if len(set(combo)) < len(combo): continue
                    nbm = dict(b); nbm.update({(nb.loop, s): r for s, r in zip(nb.missing, combo)})
                    queue.append(nbm)
                if not queue and best is None:
                    self.res.undecided.append(('binding', 'no local variable matches the loop contract (missing: %s)' % ', '.join(nb.missing)))
                    return
                continue
            if best is None or len(self.res.refuted) + len(self.res.undecided) < len(best.refuted) + len(best.undecided): best = self.res
            if not self.res.refuted and not self.res.undecided: return
            if len(tried) > 24: break
        if best is not None: self.res = best
        elif not self.res.undecided: self.res.undecided.append(('binding', 'no binding'))

    def pass_(self):
        res = self.res
        work = [[]]
        res.complete = True
        while work:
            trace = work.pop()
            ctx, err = self.run_path(trace)
            res.paths += 1
            if self.now_changed: return
            for pos in ctx.new:
                work.append(ctx.trace[:pos] + [False])
            res.obligations += len(ctx.proved) + len(ctx.refuted) + len(ctx.undecided)
            res.discharged += len(ctx.proved)
            for l in ctx.proved: res.labels[l] = res.labels.get(l, 0) + 1
            for label, neg in ctx.refuted:
                inp = None
                try: inp = self.model_inputs(ctx, neg)
                except (Unsupported, z3.Z3Exception, KeyError): pass
                res.refuted.append((label, inp))
            for u in ctx.undecided: res.undecided.append(u)
            if err is not None:
                res.undecided.append(('path', err))
                if 'time budget' in err: res.complete = False; return
            if len(res.refuted) >= 6 or len(res.undecided) >= 12:
                res.complete = False; return
            if res.paths > self.c.path_limit:
                res.undecided.append(('paths', 'path limit')); res.complete = False; return

    def model_inputs(self, ctx, neg):
        packs = ctx.packs
        sizes = []
        for n, sh in self.c.inputs.items(): sizes += sh.size_terms(packs[n])
        for lim in (64, 700, 5000, 70000, None):
            if lim is None and not sizes: lim = -1
            extra = [s <= lim for s in sizes] if lim is not None and lim >= 0 else []
            r = ctx.check(neg, *extra)
            if r == z3.sat:
                m = ctx.solver.model()
                return {n: sh.concrete(ctx, m, packs[n]) for n, sh in self.c.inputs.items()}
            if not sizes: break
        return None

def compatible(a, b):
    def k(v):
        if isinstance(v, (bool, z3.BoolRef)): return 'b'
        if isinstance(v, (int, z3.ArithRef)): return 'i'
        if isinstance(v, (bytes, SBytes)): return 'y'
        if isinstance(v, SBA): return 'ba'
        if isinstance(v, SList): return 'l'
        if isinstance(v, SSet): return 's'
        if v is None: return 'n'
        return type(v).__name__
    return k(a) == k(b)

@functools.lru_cache(maxsize=None)
def loaded_outside(fnode, lnode, name):
    inside = {id(x) for x in ast.walk(lnode)}
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(fnode))

@functools.lru_cache(maxsize=None)
def bound_values(fnode, name):
    out = []
    for x in ast.walk(fnode):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name) and t.id == name: out.append(x.value)
                elif any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)): out.append(None)
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.For)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)): out.append(None)
        elif isinstance(x, ast.ExceptHandler) and x.name == name or isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names or isinstance(x, ast.withitem): out.append(None)
    return out

def havoc_unknown(ctx, old, why):
    if isinstance(old, (bool, z3.BoolRef)): return ctx.fresh_bool('h')
    if isinstance(old, (int, z3.ArithRef)): return ctx.fresh_int('h')
    return Poison(why)

def poison_field(ctx, o, f):
    if isinstance(o, SObj):
        old = o.attrs.get(f)
        o.attrs[f] = Poison('field %s' % f) if isinstance(old, (bool, z3.BoolRef)) else havoc_unknown(ctx, old, 'field %s' % f)
    elif isinstance(o, SFile): pass
    elif isinstance(o, SList): o.prefix = OpaqueSeq('poison', ctx.fresh_int('n'), None); o.items = []
    elif isinstance(o, SBA):
        n = ctx.fresh_int('n'); ctx.assume(n >= 0); o.val = SBytes([(ctx.fresh_arr('p'), 0, n)])
    elif isinstance(o, SSet): o.arr = ctx.fresh_set('p'); o.items = []
    else: raise Unsupported('frame of %s' % type(o).__name__)

def ctx_int(v): return v if is_sym(v) else z3.IntVal(v)

def to_bool(it, v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return v
    return it.truth(v)

def run_to_end(it, fn, args):
    g = it.call(fn, args, {})
    saved = it.cut
    it.cut = lambda *a: False
    try:
        while True:
            try: g.send(None)
            except StopIteration as s: return s.value
            raise Unsupported('event in invariant')
    finally:
        it.cut = saved

# ------------------------------------------------------------------ native execution
class Hang(BaseException): pass

def _alarm(signum, frame): raise Hang()

def norm_native(v, depth=0):
    if isinstance(v, (bytearray, memoryview)): return bytes(v)
    if isinstance(v, bool): return v
    if isinstance(v, tuple): return tuple(norm_native(x) for x in v)
    if isinstance(v, list): return [norm_native(x) for x in v]
    if isinstance(v, (set, frozenset)): return set(norm_native(x) for x in v)
    if isinstance(v, dict): return {norm_native(k): norm_native(x) for k, x in v.items()}
    return v

def run_native(contract, fn, inputs, limit=5.0, max_yields=20000):
    """Outcome of a harness on concrete inputs: (kind, value, yields)."""
    args = [contract.inputs[n].native(inputs[n]) for n in contract.inputs]
    ys = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            r = fn(*args)
            if isinstance(r, types.GeneratorType):
                for y in r:
                    ys.append(norm_native(y))
                    if len(ys) > max_yields: return ('hang', 'more than %d values' % max_yields, ys[:5])
                r = None
            return ('ret', norm_native(r), ys)
        except Hang:
            return ('hang', 'no result after %.1f s' % limit, ys[:5])
        except RecursionError as e:
            return ('exc', RecursionError, ys)
        except MemoryError as e:
            return ('exc', MemoryError, ys)
        except Exception as e:
            return ('exc', type(e), ys)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def agree(real, spec):
    if spec[0] == 'hang': return True            # specification itself too slow: inconclusive
    if real[0] != spec[0]: return False
    if real[2] != spec[2]: return False
    if real[0] == 'exc': return issubclass(real[1], spec[1])
    return real[1] == spec[1]

def native_check(contract, inputs):
    """None if the contract holds (or the precondition excludes the input), else a description."""
    if contract.pre is not None:
        p = run_native(contract, contract.pre, inputs)
        if p[0] != 'ret' or not p[1]: return None
    s = run_native(contract, contract.spec, inputs, limit=10.0)
    if s[0] == 'hang': return None
    for a, _ in contract.alts:
        x = run_native(contract, a, inputs, limit=10.0)
        if x[0] != 'hang' and not (x[0] == s[0] and x[1:] == s[1:]): raise AssertionError('formulations of the specification differ in ' + contract.name)
    r = run_native(contract, contract.real, inputs)
    if r[0] == 'hang':
        r = run_native(contract, contract.real, inputs, limit=20.0)
    if agree(r, s): return None
    return {'real': brief(r), 'specified': brief(s)}

def brief(o):
    def t(x):
        s = repr(x)
        return s if len(s) < 1500 else s[:1500] + '...'
    return {'outcome': o[0], 'value': o[1].__name__ if isinstance(o[1], type) else t(o[1]), 'yields': t(o[2])}
