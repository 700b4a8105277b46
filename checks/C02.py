"""C02: conversions compose, and no answer depends on what was asked before."""
import json
import math
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F

from vlib import harness, si
from checks import _metric_worker
from checks.C01 import EM, MECH, COUNT, QUANTITIES, EXPAND, PX, rnd, same
from eprempy import metric

RULE = (
    'pools of equivalent units are converted along every path of length two '
    'and back (composition, inverse, identity), and one list of unit queries '
    'is answered by fresh processes in different orders under different hash '
    'seeds; distinct = distinct queries or paths'
)


def spawn(queries, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run(
        [sys.executable, '-m', 'checks._metric_worker'], cwd=harness.VERIF,
        env=env, input=json.dumps(queries), capture_output=True, text=True,
        timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return {i: a for i, a in json.loads(p.stdout)}


def agree(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-9)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


def make_queries(ck):
    py = ck.py
    out = []

    def terms(pool, k):
        return [(rnd(py, q), py.choice([1, 1, 2, -1, -2, 3, F(1, 2)]))
                for q in py.sample(pool, k)]

    for _ in range(ck.scale(260, 3000)):
        k = py.randint(1, 3)
        pool = py.choice([MECH, MECH + EM, MECH + COUNT])
        A = terms(pool, k)
        B = []
        for s, e in A:
            _, d = si._lookup(s)
            base = next(u for u in sorted(si.UNITS, key=len, reverse=True)
                        if s.endswith(u) and si._lookup(u)[1] == d)
            B.append((rnd(py, si.UNITS[base][1]), e))
        a, b = si.spelled(py, A), si.spelled(py, B)
        out.append(('conversion', [a, b]))
        # the inverse and a different spelling, so that caches meet
        out.append(('conversion', [b, a]))
        out.append(('conversion', [si.spelled(py, A), si.spelled(py, B)]))
        for op in py.sample(['unit', 'dimensions', 'decomposed', 'quantity',
                             'quantities'], 2):
            out.append((op, [py.choice([a, b])]))
        out.append(('normalize', [a, py.choice(['mks', 'cgs'])]))
        # one- and many-term units given as objects rather than text
        out.append((py.choice(['unit-expression', 'unit-terms']),
                    [py.choice([a, b])]))
        t, e = py.choice(A)
        single = t if e == 1 else f'{t}^{e}'
        for op in ('unit-expression', 'unit-terms', 'unit-list', 'unit'):
            out.append((op, [single]))
        out.append(('unit-expression', [t]))
        out.append(('power', [t, py.choice([2, 3, -1, 0.5])]))
        op = py.choice(['equal', 'equivalent', 'consistent', 'product',
                        'ratio'])
        out.append((op, [a, py.choice([b, si.spelled(py, A)])]))
    for q in QUANTITIES:
        for s in ('mks', 'cgs'):
            out.append(('get_unit', [s, 'quantity', q]))
            m = str(metric.system('mks')[q].unit)
            out.append(('get_unit', [s, 'unit', m]))
            out.append(('get_unit', [
                s, 'dimension', str(metric.system(s)[q].dimension)]))
            out.append(('conversion-q', [m, s, q]))
    for u in list(si.UNITS):
        out.append(('unit', [u]))
        out.append(('unit', [si.UNITS[u][0]]))
        out.append(('conversion', [u, 'mks']))
        out.append(('conversion', [u, 'cgs']))
        out.append(('conversion', [si.UNITS[u][0], u]))
    return [[i, op, args] for i, (op, args) in enumerate(out)]


def body(ck):
    py = ck.py
    queries = make_queries(ck)
    runs = []
    for k in range(ck.scale(5, 10)):
        order = list(queries)
        if k == 1:
            order.reverse()
        elif k > 1:
            py.shuffle(order)
        runs.append((order, [0, 0, 1, 2, 7, 11, 23, 42, 99, 1234][k]))
    with ThreadPoolExecutor(6) as pool:
        answers = list(pool.map(lambda r: spawn(*r), runs))
    # ... and this process, whose caches already hold other history
    local = list(queries)
    py.shuffle(local)
    answers.append({i: json.loads(json.dumps(_metric_worker.answer(op, args)))
                    for i, op, args in local})
    first = answers[0]
    for i, op, args in queries:
        got = [a[i] for a in answers]
        ck.check(all(agree(first[i], g) for g in got), f'history-{op}',
                 (op, args), lambda: f'answers differ between histories: '
                 f'{got}')
    # composition
    for _ in range(ck.scale(220, 4000)):
        k = py.randint(1, 3)
        pool = py.choice([MECH, MECH, MECH + EM, MECH + COUNT])
        qs = py.sample(pool, k)
        es = [py.choice([1, 1, 2, -1, -2, F(1, 2)]) for _ in qs]
        U = [si.spelled(py, [(rnd(py, q), e) for q, e in zip(qs, es)])
             for _ in range(3)]

        def f(a, b):
            try:
                return float(metric.conversion(a, b))
            except metric.UnitConversionError:
                return None

        a, b, c = U
        with ck.guard('composition', (a, b, c)):
            ab, bc, ac, ba = f(a, b), f(b, c), f(a, c), f(b, a)
            if None not in (ab, bc, ac):
                ck.check(same(ab * bc, ac), 'composition', (a, b, c),
                         f'{ab} * {bc} != {ac}')
            ck.check((ab is None) == (ba is None), 'mutual', (a, b),
                     f'{ab} but {ba}')
            if ab is not None and ba is not None:
                ck.check(same(ab * ba, 1.0), 'inverse', (a, b), f'{ab}, {ba}')
            ck.check(f(a, a) == 1.0, 'identity', a, repr(f(a, a)))
            s = si.spelled(py, [(u, e) for u, e in []] or [(a, 1)]) \
                if ' ' not in a and '^' not in a and '/' not in a else None
            n = metric.unit(a)
            ck.check(f(a, str(n)) == 1.0, 'respelled', (a, str(n)))
            again = [f(a, b), float(metric.unit(a) >> metric.unit(b))
                     if ab is not None else None]
            ck.check(again[0] == ab and (
                again[1] is None or same(again[1], ab)),
                'repeatable', (a, b), repr(again))
    ck.require('history-conversion', 500)
    ck.require('composition', 80)


if __name__ == '__main__':
    sys.exit(harness.main('C02', RULE, body, [
        'fresh interpreters share no state; hash seeds vary set iteration']))
