"""C13: every alias of a key reaches the same value, through any history."""
import sys

from vlib import harness
from eprempy import aliased

RULE = (
    'random histories of at most 30 reads, updates, deletions, alias '
    'registrations, copies and merges against a list-of-sets model; '
    'distinct = distinct histories'
)
POOL = [f'{a}{b}' for a in ('a', 'B', 'long name', 'x y', 'é')
        for b in ('', '0', '_1', 'Z')]


class Model:
    """Disjoint alias sets with one value each."""

    def __init__(self, items):
        self.items = [(frozenset(k), v) for k, v in items]

    def find(self, key):
        return next((i for i, (k, _) in enumerate(self.items) if key in k),
                    None)

    def flat(self):
        return {a: v for k, v in self.items for a in k}

    def copy(self):
        return Model(self.items)

    def free(self):
        used = self.flat()
        return [p for p in POOL if p not in used]

    def merged(self, items):
        """Right-hand values win; overlapping alias sets become one."""
        out = list(self.items)
        for key, v in items:
            key = frozenset(key)
            hit = [k for k, _ in out if k & key]
            out = [(k, w) for k, w in out if not k & key]
            out.append((key.union(*hit), v))
        return Model(out)


def groups(py, names=None):
    names = list(names or POOL)
    py.shuffle(names)
    out = []
    for _ in range(py.randint(0, 5)):
        n = py.choice([1, 1, 2, 3])
        if len(names) < n:
            break
        out.append([names.pop() for _ in range(n)])
    return out


def build(py, spec, cls):
    """A mapping holding `spec` (a list of (aliases, value)), some way."""
    how = py.choice(['keys', 'keys', 'interior', 'named', 'groups', 'dict',
                     'mapping', 'of'])
    if how in ('interior', 'named'):
        name = 'aliases' if how == 'interior' else 'also'
        data = {}
        for i, (k, v) in enumerate(spec):
            inner = {'value': v}
            if len(k) > 1:
                inner[name] = py.choice([tuple, list, set])(k[1:])
            elif py.random() < .3:
                inner[name] = ()
            if len(k) == 2 and py.random() < .5:
                inner[name] = k[1]
            data[k[0]] = inner
        if how == 'interior' and not any('aliases' in d
                                         for d in data.values()):
            how = 'keys'
        else:
            args = (data,) if how == 'interior' else (data, 'also')
            return cls(*args), [(k, {'value': v}) for k, v in spec]
    if how in ('groups', 'dict', 'mapping') and spec:
        data = {py.choice(k): v for k, v in spec}
        if how == 'groups':
            al = aliased.Groups(*[k if len(k) > 1 else k[0]
                                  for k, _ in spec])
        elif how == 'mapping':
            al = aliased.Mapping({tuple(k): 0 for k, _ in spec})
        else:
            al = {}
            for k, _ in spec:
                name = next(n for n in k if n in data)
                rest = [n for n in k if n != name]
                al[name] = rest[0] if len(rest) == 1 and py.random() < .5 \
                    else rest
        return cls(data, aliases=al), spec
    data = {(tuple(k) if len(k) > 1 or py.random() < .2 else k[0]): v
            for k, v in spec}
    if how == 'of':
        data = aliased.Mapping(data)
    return cls(data), spec


def agree(ck, m, model, key, case, mutable=None):
    """The mapping shows exactly the model."""
    flat = model.flat()
    sets = {k for k, _ in model.items}
    ok = (
        len(m) == len(flat) and sorted(m) == sorted(flat)
        and m.flat == flat and dict(m.items()) == flat
        and sorted(m.keys()) == sorted(flat)
        and len(m.values()) == len(flat) and len(m.items()) == len(flat)
        and all(m[a] == v and a in m and m.get(a) == v
                for a, v in flat.items())
        and not any(a in m for a in POOL if a not in flat)
        and {frozenset(k) for k in m.keys(aliased=True)} == sets
        and len(m.keys(aliased=True)) == len(sets)
        and {(frozenset(k), repr(v)) for k, v in m.items(aliased=True)}
        == {(k, repr(v)) for k, v in model.items}
        and sorted(map(repr, m.values(aliased=True)))
        == sorted(repr(v) for _, v in model.items)
        and m == flat and m == aliased.Mapping(m)
        and all(frozenset(m.alias(a, include=True)) == k
                and frozenset(m.alias(a)) == k - {a}
                for k, _ in model.items for a in k)
    )
    ck.check(ok, key, case, lambda: f'{m!r}; expected {model.items}')


def histories(ck):
    py = ck.py
    for _ in range(ck.scale(700, 12000)):
        spec = [(k, py.randint(0, 99)) for k in groups(py)]
        steps = [('init', [(k, v) for k, v in spec])]
        with ck.guard('history', steps):
            m, held = build(py, spec, aliased.MutableMapping)
            model = Model(held)
            agree(ck, m, model, 'init', steps)
            frozen, frozen_model = None, None
            others = []
            for _ in range(py.randint(0, 30)):
                flat = model.flat()
                old = py.choice(list(flat)) if flat else None
                free = model.free()
                new = py.choice(free) if free else None
                v = py.randint(0, 99)
                op = py.choice(['set', 'set', 'add', 'del', 'pop', 'alias',
                                'alias', 'alias-taken', 'update', 'default',
                                'copy', 'freeze', 'or', 'or-aliased',
                                'missing', 'popitem'])
                steps.append((op, old, new, v))
                if op == 'set' and old:
                    m[old] = v
                    i = model.find(old)
                    model.items[i] = (model.items[i][0], v)
                elif op == 'add' and new:
                    m[new] = v
                    model.items.append((frozenset([new]), v))
                elif op in ('del', 'pop') and old:
                    if op == 'del':
                        del m[old]
                    else:
                        got = m.pop(old)
                        ck.check(got == flat[old], 'pop', steps)
                    del model.items[model.find(old)]
                elif op == 'popitem' and flat:
                    k, w = m.popitem()
                    ck.check(flat.get(k) == w, 'popitem', steps)
                    del model.items[model.find(k)]
                elif op == 'alias' and old and new:
                    more = py.sample(free, min(len(free),
                                               py.choice([1, 1, 2, 3])))
                    m.alias(old, *more)
                    i = model.find(old)
                    model.items[i] = (model.items[i][0] | set(more),
                                      model.items[i][1])
                elif op == 'alias-taken' and old:
                    taken = [a for a in flat
                             if model.find(a) != model.find(old)]
                    if taken:
                        t = py.choice(taken)
                        ck.rejects('alias-taken', steps,
                                   lambda: m.alias(old, t), (KeyError,))
                elif op == 'update' and old and new:
                    m.update({old: v, new: v + 1})
                    i = model.find(old)
                    model.items[i] = (model.items[i][0], v)
                    model.items.append((frozenset([new]), v + 1))
                elif op == 'default' and old and new:
                    ck.check(m.setdefault(old, -1) == flat[old]
                             and m.setdefault(new, v) == v, 'setdefault',
                             steps)
                    model.items.append((frozenset([new]), v))
                elif op == 'copy':
                    others.append((m, model.copy()))
                    m = m.copy()
                elif op == 'freeze':
                    frozen, frozen_model = m.freeze(), model.copy()
                    ck.check(not hasattr(frozen, '__setitem__'), 'frozen',
                             steps)
                elif op == 'or' and new:
                    right = {new: v}
                    if old:
                        right[old] = v + 2
                    others.append((m, model.copy()))
                    m = m | right
                    model = model.merged(((k,), w) for k, w in right.items())
                elif op == 'or-aliased':
                    spec = [(k, py.randint(0, 99)) for k in groups(py)]
                    right = aliased.Mapping({tuple(k): w for k, w in spec})
                    others.append((m, model.copy()))
                    m = m | right
                    model = model.merged(spec)
                    steps[-1] += (spec,)
                    agree(ck, right, Model(spec), 'or-right', steps)
                elif op == 'missing' and new:
                    ck.rejects('missing', steps, lambda: m[new], (KeyError,))
                    ck.rejects('missing-del', steps,
                               lambda: m.__delitem__(new), (KeyError,))
                else:
                    continue
                agree(ck, m, model, op, list(steps))
            # nothing that happened later changed the earlier objects
            if frozen is not None:
                agree(ck, frozen, frozen_model, 'frozen-kept', steps)
            for o, was in others[-3:]:
                agree(ck, o, was, 'others-kept', steps)
            m.clear()
            ck.check(len(m) == 0 and not list(m), 'clear', steps)


def sets(ck):
    """Groups of aliases."""
    py = ck.py
    G, Gs = aliased.Group, aliased.Groups
    for _ in range(ck.scale(800, 15000)):
        a = py.sample(POOL, py.randint(1, 6))
        b = py.sample(POOL, py.randint(1, 6))
        if py.random() < .3:
            b = py.sample(a, len(a))
        case = (a, b)
        with ck.guard('group', case):
            A, B = G(*a), py.choice([lambda: G(*b), lambda: G(b),
                                     lambda: G(tuple(b)), lambda: G(set(b))])()
            s, t = set(a), set(b)
            ck.check(set(A) == s and len(A) == len(s)
                     and (A == B) is (s == t) and (A != B) is (s != t)
                     and (s != t or hash(A) == hash(B))
                     and len({A, B}) == (1 if s == t else 2)
                     and all((x in A) is (x in s) for x in POOL), 'group-eq',
                     case)
            ck.check(set(A | B) == s | t and A.isdisjoint(B) is not (s & t)
                     and A.isdisjoint(B) is s.isdisjoint(t)
                     and (not s & t or set(A & B) == s & t)
                     and (not s - t or set(A - B) == s - t)
                     and (not s ^ t or set(A ^ B) == s ^ t), 'group-ops',
                     case)
        names = list(POOL)
        left = groups(py, names)
        others = [g for _ in range(py.randint(0, 2)) for g in groups(py)]
        case = (left, others)
        with ck.guard('groups', case):
            L = Gs(*left)
            want = Model([]).merged((g, 0) for g in left + others)
            given = [py.choice([tuple, list, G])(g) for g in others]
            if len({x for g in others for x in g}) == sum(map(len, others)) \
                    and py.random() < .4:
                given = [Gs(*given)]
            M = L.merge(*given)
            got = {frozenset(g) for g in M}
            ck.check(got == {k for k, _ in want.items}
                     and len(M) == len(want.items)
                     and sorted(M.flat) == sorted(want.flat()),
                     'groups-merge', case, lambda: repr(M))
            ck.check({frozenset(g) for g in L} == {frozenset(g)
                                                   for g in left},
                     'groups-kept', case)
            L.update(*given)
            ck.check({frozenset(g) for g in L} == got
                     and len(L) == len(want.items), 'groups-update', case)
            for k, _ in want.items:
                n = py.choice(sorted(k))
                ck.check(set(L.get(n)) == k and set(L[n]) == k and n in L
                         and set(L.get(tuple(k))) == k, 'groups-get',
                         (case, n))
                rest = L.without(n)
                ck.check({frozenset(g) for g in rest} == got - {k}
                         and {frozenset(g) for g in L} == got,
                         'groups-without', (case, n))
                ck.rejects('groups-add', (case, n), lambda: L.add([n]),
                           (ValueError,))
            away = [k for k, _ in py.sample(
                want.items, py.randint(0, len(want.items)))]
            given = [py.choice([G(*k), py.choice(sorted(k))]) for k in away]
            given += [a for a in given if py.random() < .3]
            if py.random() < .3:
                given.append('nowhere')
            py.shuffle(given)
            rest = L.without(*given)
            ck.check({frozenset(g) for g in rest} == got - set(away)
                     and len(rest) == len(want.items) - len(away)
                     and {frozenset(g) for g in L} == got,
                     'groups-without-some', (case, str(given)))
            x = next((p for p in POOL if p not in want.flat()), None)
            if x:
                ck.check(x not in L and L.get(x) is None
                         and L.get(x, 3) == 3, 'groups-absent', case)
                ck.rejects('groups-absent', case, lambda: L[x], (KeyError,))
                L.add([x])
                ck.check(set(L[x]) == {x}, 'groups-added', case)
            if want.items:
                n = py.choice(sorted(want.items[0][0]))
                L.discard(n)
                ck.check(n not in L and want.items[0][0]
                         not in {frozenset(g) for g in L}, 'groups-discard',
                         case)


def names(ck):
    """A name map sends every alias to its canonical name."""
    py = ck.py
    for _ in range(ck.scale(400, 6000)):
        spec = groups(py)
        if not spec:
            continue
        case = spec
        how = py.choice(['lists', 'mapping', 'interior'])
        with ck.guard('names', (how, case)):
            refs = [g[0] for g in spec]
            want = {a: g[0] for g in spec for a in g}
            if py.random() < .3 and how == 'lists':
                extra = next(p for p in POOL if p not in want)
                refs.append(extra)
                want[extra] = extra
            if how == 'lists':
                n = aliased.NameMap([py.sample(g, len(g)) for g in spec],
                                    py.choice([refs, dict.fromkeys(refs)]))
            elif how == 'mapping':
                n = aliased.NameMap({g[0]: py.choice([g, g[1:], tuple(g[1:])])
                                     for g in spec})
            else:
                n = aliased.NameMap({g[0]: {'also': g[1:], 'z': 1}
                                     for g in spec}, key='also')
            for m in (n, n.copy()):
                ck.check(len(m) == len(want) and sorted(m) == sorted(want)
                         and all(m[a] == c for a, c in want.items())
                         and dict(m.items()) == want
                         and {frozenset(k) for k in m.keys(aliased=True)}
                         == {frozenset(a for a in want if want[a] == c)
                             for c in refs}, 'names', (how, case),
                         lambda: repr(m))
            x = next(p for p in [*POOL, 'nope'] if p not in want)
            ck.rejects('names-absent', case, lambda: n[x], (KeyError,))
        with ck.guard('fromkeys', case):
            keys = py.choice([
                lambda: [tuple(g) for g in spec],
                lambda: aliased.Groups(*spec),
                lambda: aliased.Mapping({tuple(g): i
                                         for i, g in enumerate(spec)}),
                lambda: {g[0]: {'aliases': g[1:]} for g in spec}])()
            m = aliased.Mapping.fromkeys(keys, value=7)
            agree(ck, m, Model([(g, 7) for g in spec]), 'fromkeys', case)
        with ck.guard('squeeze', case):
            # one value in each mapping: the values themselves
            same = py.random() < 0.6
            m = py.choice([aliased.Mapping, aliased.MutableMapping])({
                tuple(g): {'v' if same else f'v{i}': i}
                for i, g in enumerate(spec)})
            strict = py.random() < 0.5
            if same or not strict or len(spec) == 1:
                agree(ck, m.squeeze(strict=strict), Model(
                    [(g, i) for i, g in enumerate(spec)]), 'squeeze', case)
            else:
                ck.rejects('squeeze-unlike', case,
                           lambda: m.squeeze(strict=True), (TypeError,))
            more = {tuple(g): {'v': i, **({'w': 1} if i == 0 else {})}
                    for i, g in enumerate(spec)}
            m = aliased.Mapping(more)
            agree(ck, m.squeeze(strict=strict), Model(
                [(g, more[tuple(g)]) for g in spec]), 'squeeze', case)
        with ck.guard('grouped', case):
            m = aliased.MutableMapping({tuple(g): i
                                        for i, g in enumerate(spec)})
            flat = {a: i for i, g in enumerate(spec) for a in g}
            chosen = py.sample(sorted(flat), py.randint(1, min(3, len(flat))))
            m.group('the group', *chosen)
            ck.check(m['the group'] == tuple(flat[c] for c in chosen)
                     and m.group('the group') == tuple(chosen)
                     and sorted(m) == sorted(flat)
                     and sorted(m.freeze()) == sorted(flat)
                     and m.freeze(groups=True)['the group']
                     == tuple(flat[c] for c in chosen), 'group-name', case)
            agree(ck, m.freeze(groups=True), Model(
                [(g, i) for i, g in enumerate(spec)]
                + [(['the group'], tuple(flat[c] for c in chosen))]),
                'freeze-groups', case)
            m[chosen[0]] = 1000
            ck.check(1000 in m['the group'], 'group-live', case)
            ck.rejects('group-taken', case, lambda: m.group(chosen[0], 'x'),
                       (ValueError,))
            ck.rejects('group-unknown', case, lambda: m.group('H?'),
                       (KeyError,))


def body(ck):
    sets(ck)
    histories(ck)
    names(ck)
    for e in ('set', 'del', 'alias', 'alias-taken', 'or', 'or-aliased',
              'frozen-kept', 'others-kept', 'groups-merge', 'groups-without-some', 'names', 'copy',
              'fromkeys', 'group-name', 'missing', 'popitem'):
        ck.require(e, 40)


if __name__ == '__main__':
    sys.exit(harness.main('C13', RULE, body))
