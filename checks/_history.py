"""Perform one step of a history; as a program, perform single steps afresh.

A step is a chain: a tuple of (verb, ...) links applied one after another to a
folder of files.  The program reads a folder name and then pickled chains from
its input and performs each in a forked process that has done nothing else.
"""
import os
import pickle
import struct
import sys

import numpy as np

from vlib import harness
from eprempy import (atomic, datafile, eprem, metric, parameter, physical,
                     quantity, symbolic, universal)

del harness


def link(obj, verb, *args):
    """Apply one link."""
    if verb == 'stream':
        folder, sid, system = args
        return eprem.stream(sid, source=folder, system=system)
    if verb == 'point':
        folder, pid, system = args
        return eprem.point(pid, source=folder, system=system)
    if verb == 'dataset':
        folder, system = args
        return eprem.dataset(folder, system=system)
    if verb == 'view':
        return datafile.view(args[0], hint=args[1])
    if verb == 'member':
        kind, key = args
        return getattr(obj, kind)[key]
    if verb == 'item':
        return obj[args[0]]
    if verb == 'observe':
        return obj[args[0]]
    if verb == 'withunit':
        return obj.withunit(args[0])
    if verb == 'attribute':
        return getattr(obj, args[0])
    if verb == 'array':
        return np.array(obj)
    if verb == 'combine':
        other = perform({}, args[1])
        return {'+': lambda: obj + other, '*': lambda: obj * other,
                '/': lambda: obj / other, '-': lambda: obj - other,
                '**': lambda: obj ** 2}[args[0]]()
    if verb == 'reduce':
        return getattr(np, args[0])(obj, axis=args[1])
    if verb == 'transpose':
        return obj.transpose(*args[0])
    if verb == 'parameters':
        return parameter.interface(os.path.join(args[0], 'eprem_input_file'))
    if verb == 'unit':
        return metric.unit(args[0])
    if verb == 'conversion':
        return float(metric.conversion(*args))
    if verb == 'measure':
        return quantity.measure(*args)
    if verb == 'keys':
        return sorted(map(str, obj))
    if verb == 'get_unit':
        system, way, text = args
        return metric.system(system).get_unit(**{way: text})
    if verb == 'get_dimension':
        system, way, text = args
        return str(metric.system(system).get_dimension(**{way: text}))
    if verb == 'convert':
        return float(metric.conversion(*args[:2]))
    if verb == 'quantity conversion':
        source, target, kind = args
        return float(metric._conversions.converter_factory(
            source, kind).to(target))
    if verb == 'constant':
        c = universal.Constants(args[0])[args[1]]
        return float(c.data), str(c.unit)
    if verb == 'species':
        s = atomic.species(args[0])
        return s.symbol, float(s.mass), float(s.charge), str(s.mass.unit)
    if verb == 'expression':
        text, options = args
        return str(symbolic.expression(text, **dict(options)))
    if verb == 'format':
        text, style = args
        return metric.unit(text).format(style=style)
    if verb == 'scalar':
        return physical.scalar(args[0], unit=args[1])
    if verb == 'named':
        u = metric.NamedUnit(args[0])
        return u.name, u.symbol, float(u.scale), u.quantity
    if verb == 'same unit':
        return metric.unit(args[0]) == metric.unit(args[1]), (
            metric.unit(args[0]) | metric.unit(args[1]))
    raise KeyError(verb)


class Refused:
    """The outcome of a chain that ended in an exception."""

    def __init__(self, name):
        self.name = name


def perform(memory, chain, reuse=lambda: True):
    """Apply a chain, starting from its longest remembered beginning."""
    obj, start = None, 0
    for k in range(len(chain), 0, -1):
        if chain[:k] in memory and reuse():
            obj, start = memory[chain[:k]], k
            break
    for k in range(start, len(chain)):
        try:
            if not isinstance(obj, Refused):
                obj = link(obj, *chain[k])
        except Exception as err:
            obj = Refused(type(err).__name__)
        memory[chain[:k + 1]] = obj
    return obj


def axis(a):
    """Plain content of an axis."""
    unit = str(a.unit) if hasattr(a, 'unit') else None
    return [str(x) if isinstance(x, str) else float(x)
            for x in (list(a) if unit is None else np.array(a.data))], unit


def digest(obj):
    """Plain content of whatever a chain ended in."""
    if isinstance(obj, Refused):
        return ('refused', obj.name)
    if isinstance(obj, dict):
        return ('plain', sorted(obj.items()))
    if obj is None or isinstance(obj, (bool, int, float, str, list, tuple)):
        return ('plain', obj)
    if isinstance(obj, np.ndarray):
        return ('numpy', obj.copy())
    if isinstance(obj, metric.Unit):
        return ('unit', str(obj))
    try:
        out = ['object', type(obj).__name__]
        if hasattr(obj, 'unit'):
            out.append(str(obj.unit))
        if hasattr(obj, 'dimensions') and not isinstance(
                obj, quantity.Measurement):
            out.append(tuple(str(d) for d in obj.dimensions))
        if hasattr(obj, 'data') or hasattr(obj, '__array__'):
            out.append(np.array(obj))
            if hasattr(obj, 'axes'):
                out.append([(str(d), axis(obj.axes[d]))
                            for d in obj.dimensions])
        elif isinstance(obj, (eprem.Observer, eprem.Dataset)):
            out.append((str(obj.system), str(getattr(obj, 'source', ''))))
        return tuple(out)
    except Exception as err:
        return ('undescribed', type(err).__name__)


def same(a, b):
    """Equality of digests; numbers up to rounding of the last digits."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return False
        if a.dtype.kind not in 'fiub':
            return bool((a == b).all())
        return bool(np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or (
            a != a and b != b)
    return a == b


def send(stream, obj):
    data = pickle.dumps(obj)
    stream.write(struct.pack('<Q', len(data)) + data)
    stream.flush()


def receive(stream):
    head = stream.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(stream.read(struct.unpack('<Q', head)[0]))


def serve():
    """Answer each chain from a process that has seen no other."""
    source, out = sys.stdin.buffer, sys.stdout.buffer
    while (chain := receive(source)) is not None:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, 'wb') as pipe:
                send(pipe, digest(perform({}, chain)))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as pipe:
            answer = receive(pipe)
        os.waitpid(pid, 0)
        send(out, answer)


if __name__ == '__main__':
    serve()
