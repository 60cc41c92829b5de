"""Obligation discharge: z3 in process, cvc5 as a second back end on `unknown`."""
import time, subprocess, tempfile, os
import z3
from .vals import *
from .streams import SUMS
from . import lia

STATS = {'lia': 0, 'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0}
TIMEOUT = int(os.environ.get('CPPVC_TIMEOUT_MS', '8000'))


QUANT = {}


def has_quant(a):
    k = a.get_id()
    r = QUANT.get(k)
    if r is None:
        if len(QUANT) > 200000:
            QUANT.clear()
        r = QUANT[k] = (a, has_quant_(a))  # the term is kept, so that its id stays its own
    return r[1]


def has_quant_(a):
    st = [a]
    seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def check(assertions, timeout=None):
    """'sat' | 'unsat' | 'unknown', model"""
    t = time.time()
    full = timeout or TIMEOUT
    r = z3.unknown
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    for tmo in ((60, full) if full > 60 else (full,)):
        s.set('timeout', tmo)
        r = s.check()
        if r != z3.unknown:
            break
        if tmo == 60:
            q = any(has_quant(a) for a in assertions)
            if not q and lia.refuted(assertions, min(full, 2000)):
                STATS['lia'] += 1
                STATS['z3_queries'] += 1
                STATS['z3_time'] += time.time() - t
                return 'unsat', None, 'z3-lia'
            s = z3.Solver()
            for a in assertions:
                s.add(a)
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t
    if r == z3.sat:
        return 'sat', s.model(), 'z3'
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    return 'unknown', None, 'z3'


def status(assertions, timeout):
    """'sat' | 'unsat' | 'unknown' (no model)"""
    if not any(has_quant(a) for a in assertions):
        t = time.time()
        r = lia.check(assertions, 300)
        STATS['lia'] += 1
        STATS['lia_time'] = STATS.get('lia_time', 0) + time.time() - t
        if r != 'unknown':
            return r
    return check(assertions, timeout)[0]


def check_cvc5(assertions, timeout=20):
    t = time.time()
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt)
        f.close()
        p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        o = p.stdout.decode().strip().split('\n')[0] if p.stdout else 'unknown'
    finally:
        os.unlink(f.name)
    STATS['cvc5_queries'] += 1
    STATS['cvc5_time'] += time.time() - t
    return o if o in ('sat', 'unsat') else 'unknown'
