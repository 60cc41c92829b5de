"""Runs the proof units of one property on 8 cores, confirms failures on the real code, writes the evidence."""
import os, sys, time, json, pickle, traceback, select, signal, multiprocessing as mp
from . import ast, solver, replay, native
from .exec import Exec, Infeasible
from .vals import Unsupported
import z3

sys.setrecursionlimit(100000)
VERIF = native.VERIF
CORES = int(os.environ.get('CPPVC_JOBS', '8'))


class Unit(object):
    """one proof unit: a thunk generator under contracts"""

    def __init__(self, name, make, contracts, cls=None, kind=None, timeout=600, throws_ok=False, weight=1, replay=None, case=None):
        self.name, self.make, self.contracts, self.cls, self.kind = name, make, contracts, cls, kind
        self.timeout, self.throws_ok, self.weight, self.replay, self.case = timeout, throws_ok, weight, replay, case


class Result(object):
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = 'undecided'
        self.why = None
        self.paths = 0
        self.inlined = []
        self.contracts = []
        self.trusted = []
        self.assumptions = []
        self.samples = []
        self.time = 0
        self.stats = {}
        self.reached = False


def run_unit(P, u, seed, tier):
    r = Result(u.name)
    t = time.time()
    ex = Exec(P, u.contracts, u.name)
    ex.case = u.case
    ex.deadline = time.time() + u.timeout * 0.95
    models = []
    try:
        thunk = u.make(ex)
        outs = ex.explore(thunk)
        r.paths = len(outs)
        rets = [o for o in outs if o.kind == 'ret']
        r.reached = any(ex_sat(o) for o in rets[:3]) if rets else False
        if not u.throws_ok:
            for o in outs:
                if o.kind == 'ret':
                    continue
                st, m, b = solver.check(list(o.pc) + ex.facts(list(o.pc)))
                if st == 'unsat':
                    continue
                where = o.exc.node.line if o.exc is not None and getattr(o.exc, 'node', None) is not None else 0
                fn = getattr(o.exc, 'fn', None) or u.name
                r.obls.append({'function': fn, 'obligation': 'no exception is thrown on a valid argument (%s)' % (o.val,), 'line': where,
                               'status': 'failed' if st == 'sat' else 'unknown', 'backend': b, 'time_s': 0, 'kind': 'post', 'detail': None})
                if m is not None:
                    models.append(m)
        if not rets:
            r.why = 'no path returns: the obligations would hold vacuously'
    except Unsupported as e:
        r.why = 'outside the verifier: %s' % e
    except RecursionError:
        r.why = 'outside the verifier: recursion'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r.why = 'verifier error: %s: %s @%s' % (type(e).__name__, str(e)[:200], ['%s:%d' % (x.name, x.lineno) for x in tb[-3:]])
    for ob in ex.obls.values():
        r.obls.append(ob.as_dict())
        if ob.model is not None:
            models.append(ob.model)
    bad = [o for o in r.obls if o['status'] != 'discharged']
    if any(o['status'] == 'failed' for o in bad):
        r.status = 'failed'
    elif bad or r.why:
        r.status = 'undecided'
    elif not r.reached:
        r.status = 'undecided'
        r.why = 'vacuous: the precondition could not be shown satisfiable'
    else:
        r.status = 'proved'
    if r.status != 'proved' and u.replay is not None and u.replay.wants_models:
        try:
            r.samples = u.replay.samples(ex, u, models[:12], seed, tier)
        except Exception as e:
            r.why = (r.why or '') + ' [sampling: %r]' % e
    r.inlined = sorted(ex.inlined)
    r.contracts = sorted(ex.used_contracts)
    r.trusted = sorted(ex.trusted)
    r.assumptions = sorted(ex.assumptions)
    r.time = time.time() - t
    r.stats = dict(solver.STATS)
    return r


def ex_sat(o):
    return solver.check(list(o.pc), 5000)[0] == 'sat'


def child(conn, P, u, seed, tier):
    try:
        solver.STATS.update({k: 0 for k in solver.STATS})
        r = run_unit(P, u, seed, tier)
        conn.send_bytes(pickle.dumps(r))
    except BaseException as e:
        r = Result(u.name)
        r.why = 'worker: %r' % (e,)
        try:
            conn.send_bytes(pickle.dumps(r))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_all(P, units, seed, tier, budget, verbose=False):
    todo = sorted(units, key=lambda u: -u.weight)
    live = {}
    res = {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < CORES:
            u = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, P, u, seed, tier))
            p.start()
            b.close()
            live[a] = (p, u, time.time())
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for a in rd:
            p, u, t = live.pop(a)
            try:
                r = pickle.loads(a.recv_bytes())
            except Exception as e:
                r = Result(u.name)
                r.why = 'worker died (%r)' % (e,)
            p.join(5)
            res[u.name] = r
            if verbose:
                print('  %-34s %-9s paths=%d obl=%d %.1fs %s' % (u.name, r.status, r.paths, len(r.obls), r.time, r.why or ''), flush=True)
        now = time.time()
        for a in list(live):
            p, u, t = live[a]
            if now - t > u.timeout or now - t0 > budget:
                p.kill()
                p.join()
                live.pop(a)
                r = Result(u.name)
                r.why = 'no answer within %d s' % (now - t)
                r.time = now - t
                res[u.name] = r
                if verbose:
                    print('  %-34s %s' % (u.name, r.why), flush=True)
    return res


# ------------------------------------------------------------------ replay of box units
class BoxReplay(object):
    wants_models = True

    def samples(self, ex, u, models, seed, tier):
        from specs.boxes import SPECS
        return replay.samples(ex, u.cls, SPECS[u.cls], 60, seed, models)

    def run(self, nat, units, results, seed, tier):
        """units of one property that need confirmation -> list of (unit names, finding|None, bounded info)"""
        out = []
        groups = {}
        for u in units:
            groups.setdefault((u.cls, u.kind == 'hostile'), []).append(u)
        import concurrent.futures as cf

        def one(key):
            cls, hostile = key
            us = groups[key]
            ss = []
            for u in us:
                ss += results[u.name].samples
            if hostile:
                return key, native.fuzz_box(nat, cls, [x[1] for x in ss], 25, seed=seed)
            kinds = sorted(set(u.kind for u in us))
            return key, native.run_box_cases(nat, cls, ss[:200], kinds)
        nat.build()
        with cf.ThreadPoolExecutor(CORES) as ex:
            for key, r in ex.map(one, sorted(groups)):
                out.append(([u.name for u in groups[key]], r))
        return out


class NativeOracle(object):
    """a hand-written driver (replay/<name>.cpp) that runs the real code against an independent oracle"""
    wants_models = False

    def __init__(self, name, args=(), timeout=150):
        self.name, self.args, self.timeout = name, list(args), timeout

    def run(self, nat, units, results, seed, tier):
        src = open(os.path.join(VERIF, 'replay', self.name + '.cpp')).read()
        b, err = nat.link('oracle_' + self.name, src, ['-I' + os.path.join(VERIF, 'replay')])
        names = [u.name for u in units]
        if not b:
            return [(names, {'error': 'driver does not compile: ' + (err or '')[:800]})]
        rc, out = nat.run([b, str(seed), '20'] + self.args, self.timeout)
        if rc == 0:
            import re
            m = re.search(r'DONE (\d+)', out)
            return [(names, {'ok': int(m.group(1)) if m else 0})]
        lines = out.split('\n')
        keep = [l for l in lines if l.startswith(('FAIL', '  ')) or 'ERROR' in l or 'runtime error' in l or l.startswith('CASE')]
        return [(names, {'fail': '\n'.join(keep[-30:]) or out[-2000:] or 'the driver ended with %s' % rc, 'source': src, 'cmd': '%s %d 20 %s' % (self.name, seed, ' '.join(self.args))})]


# ------------------------------------------------------------------ findings
def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = {}
                rest = l[len('finding:'):].strip()
                for part in rest.split(' '):
                    if '=' in part and part.split('=')[0] in ('property', 'key'):
                        k, v = part.split('=', 1)
                        d[k] = v
                d['text'] = rest
                out.append(d)
    return out


def write_replay(pid, n, names, rec, res):
    d = os.path.join(VERIF, 'out', 'replay', pid)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, 'case%d' % n)
    with open(base + '.txt', 'w') as f:
        f.write('property %s\nunits: %s\n\n' % (pid, ', '.join(names)))
        for nm in names:
            cnt = {}
            for o in res[nm].obls:
                if o['status'] != 'discharged':
                    k = 'obligation not discharged (%s): %s, line %s: %s' % (o['status'], o['function'], o['line'], o['obligation'])
                    cnt[k] = cnt.get(k, 0) + 1
            for k, c in cnt.items():
                f.write('%s  [%d path(s)]\n' % (k, c))
            if res[nm].why:
                f.write('%s: %s\n' % (nm, res[nm].why))
        if rec:
            f.write('\nfailing input run against the real code:\n%s\n' % rec.get('fail', ''))
            if rec.get('case'):
                f.write('\nbox: %s\nprescribed payload: %s\n' % (rec['case'][0], rec['case'][1].hex()))
            if rec.get('input') is not None:
                f.write('\ninput bytes: %s\n' % rec['input'].hex())
            if rec.get('cmd'):
                f.write('\ncommand: %s\n' % rec['cmd'])
    if rec and rec.get('source'):
        with open(base + '.cpp', 'w') as f:
            f.write(rec['source'])
    if rec and rec.get('input') is not None:
        with open(base + '.bin', 'wb') as f:
            f.write(rec['input'])
    return base + '.txt'


def main(prop, make, tier, seed, verbose=False, budget=780, only=()):
    """prop: id; make(P): proof units and dict(assumptions, trusted)"""
    t0 = time.time()
    pid = prop
    P = ast.load(ast.all_sources())
    t_ast = time.time() - t0
    units, meta = make(P)
    if only:
        units = [u for u in units if any(x in u.name for x in only)]
    res = run_all(P, units, seed, tier, budget - 260, verbose)
    byname = {u.name: u for u in units}
    bad = [u for u in units if res[u.name].status != 'proved']
    known = [k for k in known_findings() if k.get('property') == pid]
    violations, bounded, lines = [], [], []

    def is_known(nm):
        for k in known:
            if k.get('key') == nm:
                return k
        return None
    kn = [u for u in bad if is_known(u.name)]
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    bad = [u for u in bad if not is_known(u.name)]
    if bad or tier == 'thorough':
        nat = native.Native()
        try:
            reps = {}
            pool = bad if tier != 'thorough' else [u for u in units if not is_known(u.name)]
            for u in pool:
                if u.replay is not None:
                    reps.setdefault(id(u.replay) if not isinstance(u.replay, BoxReplay) else 'box', (u.replay, []))[1].append(u)
            if tier == 'thorough':
                for u in pool:
                    if u.replay is not None and u.replay.wants_models and not res[u.name].samples:
                        ex = Exec(P, u.contracts, u.name)
                        res[u.name].samples = u.replay.samples(ex, u, [], seed, tier)
            confirmed = {}
            for rp, us in reps.values():
                for names, rec in rp.run(nat, us, res, seed, tier):
                    for nm in names:
                        confirmed[nm] = (names, rec)
        finally:
            nat.clean()
        seen = set()
        n = 0
        for u in (bad if tier != 'thorough' else pool):
            names, rec = confirmed.get(u.name, ([u.name], None))
            key = tuple(names)
            st = res[u.name].status
            if rec and 'fail' in rec:
                if key not in seen:
                    seen.add(key)
                    n += 1
                    p = write_replay(pid, n, names, rec, res)
                    violations.append((names, True))
                    lines.append('VIOLATION property=%s replay=%s' % (pid, p))
            elif st == 'failed':
                if (u.name,) not in seen:
                    seen.add((u.name,))
                    n += 1
                    p = write_replay(pid, n, [u.name], None, res)
                    violations.append(([u.name], False))
                    lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
            elif st != 'proved':
                bounded.append({'unit': u.name, 'why': res[u.name].why or 'obligation not decided by the solvers',
                                'stand_in': 'bounded: %s executions of the real code without a failure' % (rec.get('ok') if rec else 0)
                                if rec and 'ok' in rec else 'none: %s' % (rec.get('error') if rec else 'no replay driver')})
    # evidence
    obls = [o for r in res.values() for o in r.obls]
    done = [o for o in obls if o['status'] == 'discharged']
    be = {}
    for o in done:
        be[o['backend']] = be.get(o['backend'], 0) + 1
    fns = {}
    for r in res.values():
        for f in r.inlined:
            fns.setdefault(f, 0)
    for o in obls:
        fns[o['function']] = fns.get(o['function'], 0) + 1
    contracts = sorted(set(c for r in res.values() for c in r.contracts))
    trusted = sorted(set(c for r in res.values() for c in r.trusted))
    solver_t = sum(r.stats.get('z3_time', 0) + r.stats.get('cvc5_time', 0) + r.stats.get('lia_time', 0) for r in res.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obls), 'discharged': len(done),
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
            'trusted_base': meta.get('trusted', []) + ['modelled library function: ' + t for t in trusted],
            'units': len(units), 'units_proved': sum(1 for r in res.values() if r.status == 'proved'),
            'by_back_end': be, 'solver_time_s': round(solver_t, 2), 'ast_extraction_s': round(t_ast, 1),
            'functions_verified': sorted(f for f in fns if '::' in f), 'callee_contracts_used': contracts,
            'paths': sum(r.paths for r in res.values()),
            'slowest': [{'unit': r.name, 's': round(r.time, 1)} for r in sorted(res.values(), key=lambda r: -r.time)[:5]],
            'bounded_stand_ins': bounded,
            'known_findings': [u.name for u in kn],
            'not_discharged': [dict(o, unit=r.name) for r in res.values() for o in r.obls if o['status'] != 'discharged'][:40],
        },
        'assumptions': meta.get('assumptions', []) + sorted(set(a for r in res.values() for a in r.assumptions)),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for b in bounded:
        print('UNDECIDED unit=%s (%s); %s' % (b['unit'], b['why'][:300], b['stand_in'][:300]))
    for l in lines:
        print(l)
    print('%s: %d/%d obligations discharged in %d units (%d proved), %.0f s' % (pid, len(done), len(obls), len(units), ev['coverage']['units_proved'], ev['wall_s']))
    return 1 if violations else 0
