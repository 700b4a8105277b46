"""Answer a list of metric queries in the given order (one fresh process)."""
import json
import sys

from vlib import harness
from eprempy import metric, symbolic


def answer(op, args):
    try:
        if op == 'conversion':
            return float(metric.conversion(*args))
        if op == 'conversion-q':
            a, b, q = args
            c = metric.conversion(a, b, quantity=q)
            return [float(c), str(c.u1)]
        if op == 'unit':
            return str(metric.unit(args[0]))
        if op == 'unit-expression':
            return str(metric.unit(symbolic.expression(args[0])))
        if op == 'unit-terms':
            return str(metric.unit(symbolic.expression(args[0]).terms))
        if op == 'unit-list':
            return str(metric.unit(list(args)))
        if op == 'power':
            return str(metric.unit(args[0]) ** args[1])
        if op == 'dimensions':
            d = metric.unit(args[0]).dimensions
            return {s: str(d[s]) for s in ('mks', 'cgs')}
        if op == 'decomposed':
            return sorted(str(t) for t in metric.unit(args[0]).decomposed)
        if op == 'quantity':
            return str(metric.unit(args[0]).quantity)
        if op == 'normalize':
            return str(metric.unit(args[0]).normalize(args[1]))
        if op == 'equal':
            return bool(metric.unit(args[0]) == metric.unit(args[1]))
        if op == 'equivalent':
            return bool(metric.unit(args[0]) & metric.unit(args[1]))
        if op == 'consistent':
            return bool(metric.unit(args[0]) | metric.unit(args[1]))
        if op == 'product':
            return str(metric.unit(args[0]) * metric.unit(args[1]))
        if op == 'ratio':
            return str(metric.unit(args[0]) / metric.unit(args[1]))
        if op == 'get_unit':
            return str(metric.system(args[0]).get_unit(**{args[1]: args[2]}))
        if op == 'quantities':
            u = metric.unit(args[0])
            return sorted(u.dimensions['mks'].quantities('mks'))
    except Exception as err:
        return f'!{type(err).__name__}'
    raise KeyError(op)


if __name__ == '__main__':
    queries = json.load(sys.stdin)
    json.dump([[i, answer(op, args)] for i, op, args in queries], sys.stdout)
