#!/usr/bin/env python3-vt
"""Decide one property: generate the obligations of its contracts from /repo's current source, discharge them, replay
counter-models on the real code, and write /verif/evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough]     check.py --replay FILE
"""
import base64, importlib, json, multiprocessing, os, pickle, random, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault('PYVC_REPO', '/repo')
sys.path[:0] = [HERE, REPO]
sys.setrecursionlimit(20000)

def enc(v):
    if isinstance(v, (bytes, bytearray)): return {'bytes_hex': bytes(v).hex()}
    if isinstance(v, tuple): return {'tuple': [enc(x) for x in v]}
    if isinstance(v, list): return [enc(x) for x in v]
    if isinstance(v, dict): return {'dict': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (int, str, bool, float)) or v is None: return v
    return {'pickle': base64.b64encode(pickle.dumps(v)).decode(), 'repr': repr(v)[:500]}
def dec(v):
    if isinstance(v, list): return [dec(x) for x in v]
    if isinstance(v, dict):
        if 'bytes_hex' in v: return bytes.fromhex(v['bytes_hex'])
        if 'tuple' in v: return tuple(dec(x) for x in v['tuple'])
        if 'dict' in v: return {dec(k): dec(x) for k, x in v['dict']}
        if 'pickle' in v: return pickle.loads(base64.b64decode(v['pickle']))
    return v

def load(pid):
    return importlib.import_module('contracts.' + pid.lower())

def work(task):
    pid, idx, tier, seed, t_end = task
    out = {'name': None, 'status': 'undecided'}
    try:
        from pyvc import driver
        from pyvc.values import Unsupported
        c = load(pid).CONTRACTS[idx]
        out.update(name=c.name, functions_declared=c.functions, bounded=c.bounded, note=c.note)
        rng = random.Random('%d/%s' % (seed, c.name))
        t0 = time.time()
        quick = tier == 'quick'
        viol = None
        def try_input(inp, origin):
            d = driver.native_check(c, inp)
            if d is not None:
                return {'origin': origin, 'inputs': enc(inp), 'difference': d}
            return None
        # 1. obligations
        if not c.bounded:
            budget = min((c.budget or 240) * (1 if quick else 3), max(20, t_end - time.time() - 60))
            p = driver.Prover(c, time.time() + budget)
            try: r = p.explore()
            except Exception:
                # the generator cannot digest this source: nothing is proved, the contract is only exercised on concrete inputs
                r = p.res
                r.undecided.append(('engine', traceback.format_exc()[-400:]))
            out.update(obligations=r.obligations, discharged=r.discharged, paths=r.paths, final_paths=r.final_paths, backedges=r.backedges, prove_s=round(r.wall, 2),
                       solver_s=round(r.stats.solver_s, 2), solver_checks=r.stats.checks, functions=sorted(r.functions), trusted=sorted(r.trusted),
                       refuted=[l for l, _ in r.refuted], undecided=[list(u) for u in r.undecided], labels=r.labels)
            if not r.refuted and not r.undecided:
                if r.obligations == 0 or r.final_paths + r.backedges == 0:
                    out['undecided'] = [['vacuity', 'no obligation was generated']]
                elif c.loops and r.backedges == 0:
                    out['undecided'] = [['vacuity', 'no loop iteration is reachable']]
                else:
                    out['status'] = 'proved'
            elif r.refuted: out['status'] = 'refuted'
            for label, inp in r.refuted:
                if inp is not None and viol is None:
                    v = try_input(inp, 'counter-model of obligation: ' + label)
                    if v is not None: viol = v; viol['obligation'] = label
        else:
            out['status'] = 'bounded'
        # 2. executable contract on concrete inputs (cross-check, bounded stand-in, and search for a failing input)
        evals = 0; distinct = set(); kinds = {}
        samples = []
        for case in c.fixed_cases:
            if viol is None:
                case = case() if callable(case) else case
                evals += 1
                viol = try_input(case, 'fixed case')
        if c.gen is not None and viol is None:
            suspicious = out['status'] in ('refuted', 'undecided')
            secs = (4 if quick else 40) if out['status'] == 'proved' else (12 if quick else 120)
            if suspicious: secs = 60 if quick else 200
            secs = min(secs * c.weight, max(3, t_end - time.time()))
            stop = time.time() + secs
            cap = c.search_n or 10 ** 9
            n = 0
            while time.time() < stop and n < cap:
                inp = c.gen(rng); n += 1; evals += 1
                key = hash(repr(inp))
                distinct.add(key)
                if len(samples) < 2: samples.append(repr(inp)[:300])
                viol = try_input(inp, 'generated input %d' % n)
                if viol is not None: break
        # 3. bounded unrolling from the initial state: look for a replayable counterexample
        if viol is None and out['status'] in ('refuted',) and not c.bounded and time.time() < t_end - 30:
            for lim in (1, 2, 3):
                cc = c
                old = c.bmc_limit
                c.bmc_limit = lim
                p = driver.Prover(c, time.time() + min(60, max(5, t_end - time.time() - 20)), mode='bmc')
                try:
                    r = p.explore()
                except Exception: break
                finally: c.bmc_limit = old
                for label, inp in r.refuted:
                    if inp is None: continue
                    viol = try_input(inp, 'bounded unrolling (%d iterations), obligation: %s' % (lim, label))
                    if viol is not None: break
                if viol is not None or time.time() > t_end - 30: break
        out.update(evaluations=evals, distinct=len(distinct), samples=samples)
        out['violation'] = viol
        out['wall'] = round(time.time() - t0, 2)
    except Exception as e:
        out['status'] = 'error'
        out['error'] = traceback.format_exc()
        out.setdefault('violation', None)
    return out

def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    total = 780 if tier == 'quick' else 3000
    t_end = t0 + total
    mod = load(pid)
    n = len(mod.CONTRACTS)
    tasks = [(pid, i, tier, seed, t_end) for i in range(n)]
    tasks.sort(key=lambda t: -mod.CONTRACTS[t[1]].weight)
    ctx = multiprocessing.get_context('fork')
    results = []
    with ctx.Pool(min(8, n) or 1, maxtasksperchild=1) as pool:
        pend = [(t, pool.apply_async(work, (t,))) for t in tasks]
        for t, a in pend:
            left = max(1, t_end + 60 - time.time())
            try: results.append(a.get(left))
            except multiprocessing.TimeoutError:
                results.append({'name': mod.CONTRACTS[t[1]].name, 'status': 'undecided', 'undecided': [['time', 'time budget exhausted']], 'violation': None})
        pool.terminate()
    for r in results:
        if r['status'] == 'error': sys.stderr.write('checker error in contract %s:\n%s\n' % (r['name'], r['error']))
    known = read_known(pid)
    lines = []
    rd = os.path.join(HERE, 'replays')
    os.makedirs(rd, exist_ok=True)
    rc = 0
    viols = []
    for r in results:
        path = os.path.join(rd, '%s-%s.json' % (pid, r['name']))
        if os.path.exists(path): os.remove(path)
        if r.get('violation'):
            k = [x for x in known if x['contract'] == r['name']]
            rep = dict(property=pid, contract=r['name'], obligations_failed=r.get('refuted', []), undecided=r.get('undecided', []), **r['violation'])
            json.dump(rep, open(path, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path)); rc = 1
            viols.append({'contract': r['name'], 'replay': path, 'obligations': r.get('refuted', [])[:5]})
        elif r['status'] == 'refuted':
            rep = dict(property=pid, contract=r['name'], obligations_failed=r['refuted'], note='the verifier refuted these obligations (proved on the unchanged tree); no concrete failing input was found',
                       verifier_output={'paths': r['paths'], 'undecided': r['undecided'], 'functions': r['functions']})
            json.dump(rep, open(path, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)); rc = 1
            viols.append({'contract': r['name'], 'replay': path, 'obligations': r['refuted'][:5], 'no_failing_input_found': True})
    # violations with a failing input first
    lines.sort(key=lambda l: l.endswith('no-failing-input-found'))
    ev = evidence(pid, tier, seed, mod, results, time.time() - t0, viols)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        s = '%-34s %-9s' % (r['name'], r['status'])
        if 'obligations' in r: s += ' obligations %d discharged %d paths %d (%.1fs, solver %.1fs)' % (r['obligations'], r['discharged'], r['paths'], r['prove_s'], r['solver_s'])
        s += ' native evaluations %d' % r.get('evaluations', 0)
        if r.get('undecided'): s += ' UNDECIDED ' + '; '.join(': '.join(map(str, u)) for u in r['undecided'][:2])
        print(s)
    if any(r['status'] == 'error' for r in results) and rc == 0:
        print('checker error'); return 2
    for l in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, l['text']))
    for l in lines: print(l)
    if rc == 0: print('property %s held: %d obligations discharged' % (pid, sum(r.get('discharged', 0) for r in results)))
    sys.stdout.flush()
    return rc

def read_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2].strip()
                out.append({'contract': rest.split(' ')[0].replace('contract=', ''), 'text': rest})
    return out

def evidence(pid, tier, seed, mod, results, wall, viols):
    proved = [r for r in results if r['status'] == 'proved']
    bounded = [r for r in results if r['status'] == 'bounded']
    und = [r for r in results if r['status'] in ('undecided', 'refuted', 'error')]
    trusted = sorted(set(sum((r.get('trusted', []) for r in results), [])))
    cov = {
        'obligations': sum(r.get('obligations', 0) for r in results),
        'discharged': sum(r.get('discharged', 0) for r in results),
        'checker_cmd': 'python3-vt %s/check.py %s --tier %s' % (HERE, pid, tier),
        'trusted_base': ['pyvc (VC generator over the CPython AST of /repo, this repository)', 'z3 %s' % __import__('z3').get_version_string(),
                         'CPython 3.12 semantics as modelled in pyvc/models.py'] + ['external model: ' + t for t in trusted],
        'back_end': 'z3 (python API)',
        'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
        'solver_checks': sum(r.get('solver_checks', 0) for r in results),
        'paths': sum(r.get('paths', 0) for r in results),
        'functions_under_contract': sorted(set(sum((r.get('functions_declared', []) for r in proved), []))),
        'functions_verified_bodies': sorted(set(sum((r.get('functions', []) for r in proved), []))),
        'contracts': [{k: r.get(k) for k in ('name', 'status', 'obligations', 'discharged', 'paths', 'solver_s', 'evaluations', 'undecided', 'note', 'labels') if r.get(k) not in (None, [], '')} for r in results],
        'bounded_standins': [{'contract': r['name'], 'functions': r.get('functions_declared'), 'evaluations': r.get('evaluations'), 'distinct': r.get('distinct'), 'bound': r.get('note')} for r in bounded],
        'undecided_contracts': [r['name'] for r in und],
        'evaluations': sum(r.get('evaluations', 0) for r in results),
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in results),
        'rule': 'native executions of the real code against the executable contract on generated inputs (distinct by value)',
        'samples': sum((r.get('samples', []) for r in results), [])[:6],
    }
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov, 'wall_s': round(wall, 2),
            'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['external model: ' + t for t in trusted], 'violations': len(viols), 'violation_list': viols}

def replay(path):
    from pyvc import driver
    rep = json.load(open(path))
    print(json.dumps({k: v for k, v in rep.items() if k != 'inputs'}, indent=1))
    if 'inputs' not in rep:
        print('no failing input recorded'); return 1
    c = [c for c in load(rep['property']).CONTRACTS if c.name == rep['contract']][0]
    d = driver.native_check(c, dec(rep['inputs']))
    print('still fails:', d) if d else print('holds now')
    return 1 if d else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay': sys.exit(replay(a[1]))
    tier = 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'): tier = os.environ['VERIF_TIER']
    sys.exit(run(a[0], tier))
