"""C04: a symbolic expression means what ordinary algebra says it means."""
import collections
import itertools
import sys
from fractions import Fraction as F

from vlib import harness
from eprempy import symbolic as S

RULE = (
    'grammar-generated products, ratios, powers, groups and roots (nesting up '
    'to four, rational exponents, integer/decimal/scientific coefficients, '
    'random white space and token sets) against an independent evaluator over '
    'exact rationals; distinct = distinct texts'
)
BASES = ['a', 'b', 'c', 'km', 'x1', 'foo_bar', 'T', '#', 'μm', 'e', 'E', 'Ω',
         'solar_wind', 'd2']
EXPS = [1, 1, 1, 2, 3, -1, -2, F(1, 2), F(3, 2), F(-1, 3), F(7, 12), 10, -15,
        F(13, 10), F(5, 4), F(25, 100)]


class Tokens:
    def __init__(self, multiply='*', divide='/', opening='(', closing=')',
                 raising='^'):
        self.kw = dict(multiply=multiply, divide=divide, opening=opening,
                       closing=closing, raising=raising)
        self.__dict__.update(self.kw)


STANDARD = Tokens()
CUSTOM = [
    Tokens(opening='[', closing=']'), Tokens(opening='{', closing='}'),
    Tokens(multiply='.', raising='^') if False else Tokens(multiply='&'),
    Tokens(divide='|'), Tokens(raising='~'),
    Tokens(opening='<', closing='>', multiply='@'),
]


def norm(c, d):
    return (F(c), {k: F(v) for k, v in d.items() if v})


def number(py, v, tk):
    """A spelling of a rational number."""
    v = F(v)
    if v.denominator == 1:
        if py.random() < 0.1:
            return f'{v.numerator}.0'
        return str(v.numerator)
    f = float(v)
    if F(str(f)) == v and py.random() < 0.4:
        text = str(f)
        if text.startswith('0.') and py.random() < 0.3:
            text = text[1:]
        return text
    if tk.divide == '/':
        return f'{v.numerator}/{v.denominator}'
    return f'{v.numerator}/{v.denominator}'


def atom(py, tk):
    b = py.choice(BASES)
    e = py.choice(EXPS)
    c = py.choice([1, 1, 1, 1, 2, 3, 10, 12, F(1, 4)])
    text = '' if c == 1 else (str(c) if F(c).denominator == 1 else '0.25')
    if text and b[0] in 'eE':
        text += ' '
        # 'c b' with a space is a product; same meaning
    text += b
    if e != 1:
        text += tk.raising + number(py, e, tk)
    return text, norm(c, {b: e})


def gen(py, depth, tk=STANDARD):
    """(text, meaning, is_atomic)"""
    r = py.random()
    if depth == 0 or r < 0.25:
        t, m = atom(py, tk)
        return t, m, ' ' not in t
    if r < 0.32:
        c, t = py.choice([(2, '2'), (3, '3'), (F(1, 2), '0.5'), (12, '12'),
                          (1000, '1e3'), (F(1, 100), '1e-2'),
                          (F(5, 2), '2.5'), (120, '1.2e+2')])
        return t, norm(c, {}), True
    kind = py.choice(['mul', 'mul', 'sp', 'div', 'group', 'pow', 'pow',
                      'sqrt', 'flat'])
    o, c_, m_, d_, p_ = (tk.opening, tk.closing, tk.multiply, tk.divide,
                         tk.raising)

    def pad(x):
        return py.choice(['', ' ', ' ', '  ']) + x + py.choice(['', ' ', ' '])

    def combine(l, r, s):
        d = collections.Counter(l[1])
        for b, e in r[1].items():
            d[b] += s * e
        return norm(l[0] * r[0] ** s, d)

    if kind in ('mul', 'sp', 'div'):
        lt, lm, la = gen(py, depth - 1, tk)
        rt, rm, ra = gen(py, depth - 1, tk)
        if not ra or (kind != 'mul' and rt[0] in '0123456789.+-'):
            rt = f'{o}{rt}{c_}'
        if not la:
            lt = f'{o}{lt}{c_}'
        if kind == 'sp':
            if rt[0] in '0123456789.' or lt[-1] in '.':
                rt = f'{o}{rt}{c_}'
            return f'{lt} {rt}', combine(lm, rm, 1), False
        op = {'mul': m_, 'div': d_}[kind]
        return f'{lt}{pad(op)}{rt}', combine(lm, rm, -1 if kind == 'div'
                                             else 1), False
    if kind == 'flat':
        # operators on one level act from left to right
        t, m = atom(py, tk)
        if ' ' in t:
            t = f'{o}{t}{c_}'
        for _ in range(py.randint(1, 5)):
            u, n = atom(py, tk)
            if u[0] in '0123456789' or ' ' in u:
                u = f'{o}{u}{c_}'
            k = py.choice(['*', '/', ' '])
            t += pad({'*': m_, '/': d_, ' ': ' '}[k]) + u
            m = combine(m, n, -1 if k == '/' else 1)
        return t, m, False
    it, (c, d), _ = gen(py, depth - 1, tk)
    if kind == 'group':
        return f'{o}{it}{c_}', (c, d), True
    if kind == 'sqrt':
        n = F(1, 2)
        root = F(int(round(float(c.numerator) ** .5)),
                 int(round(float(c.denominator) ** .5)))
        if (root * root != c or it.strip()[0] == o
                or c.denominator & (c.denominator - 1)):
            # roots are exact only where floating-point numbers are
            return f'{o}{it}{c_}', (c, d), True
        return f'sqrt{o}{it}{c_}', norm(root, {b: e * n for b, e in
                                              d.items()}), False
    n = py.choice([2, 3, -1, -2])
    return (f'{o}{it}{c_}{p_}{n}',
            norm(c ** n, {b: e * n for b, e in d.items()}), True)


def observe(e):
    c = F(1)
    d = collections.Counter()
    for t in e.terms:
        c *= t.coefficient
        if t.base != '1':
            d[t.base] += t.exponent
    return norm(c, d)


def close(a, b):
    return (abs(float(a[0]) - float(b[0])) <= 1e-12 * abs(float(b[0]))
            and a[1] == b[1])


def body(ck):
    py = ck.py
    for i in range(ck.scale(5000, 80000)):
        tk = STANDARD if py.random() < 0.85 else py.choice(CUSTOM)
        s, m, _ = gen(py, py.randint(1, 4), tk)
        if len(s) > 220:
            continue
        with ck.guard('parse', s):
            e = S.expression(s) if tk is STANDARD else S.expression(s, **tk.kw)
            o = observe(e)
            ck.check(close(o, m), 'parse', s, lambda: f'got {o} expected {m}')
            bases = [t.base for t in e.terms if t.base != '1']
            ck.check(len(bases) == len(set(bases)) and all(
                t.exponent != 0 for t in e.terms), 'reduced', s, str(e))
        if tk is not STANDARD:
            continue
        with ck.guard('round-trip', s):
            ck.check(S.expression(str(e)) == e, 'round-trip', s, str(e))
            ck.check(S.expression([str(t) for t in e.terms]) == e,
                     'from-list', s, str(e))
            ck.check(S.expression(e) is e, 'same-object', s)
            terms = list(e)
            k = len(terms)
            ck.check(len(e) == k and list(e.terms) == terms
                     and all(e[j] == terms[j] for j in range(-k, k))
                     and list(e[1:]) == terms[1:]
                     and list(e[::-1]) == terms[::-1], 'terms', s, terms)
            for j in (k, k + 2, -k - 1, -k - 2):
                ck.rejects('terms', (s, j), lambda: e[j], (IndexError,))
    pool = []
    for i in range(ck.scale(900, 12000)):
        s, m, _ = gen(py, py.randint(1, 3))
        t, n, _ = gen(py, py.randint(1, 3))
        r, q, _ = gen(py, 1)
        if len(s) + len(t) > 200 or not m[0] or not n[0]:
            continue
        case = (s, t)

        def comb(l, r, sg):
            d = collections.Counter(l[1])
            for b, x in r[1].items():
                d[b] += sg * x
            return norm(l[0] * r[0] ** sg, d)

        with ck.guard('algebra', case):
            a, b, c = S.expression(s), S.expression(t), S.expression(r)
            before = (str(a), str(b))
            for name, got, want in [
                ('product', a * b, comb(m, n, 1)),
                ('product', S.product(s, b), comb(m, n, 1)),
                ('product', a * t, comb(m, n, 1)),
                ('product', s * b, comb(m, n, 1)),
                ('ratio', a / b, comb(m, n, -1)),
                ('ratio', S.ratio(a, t), comb(m, n, -1)),
                ('ratio', a / t, comb(m, n, -1)),
                ('ratio', s / b, comb(m, n, -1)),
            ]:
                ck.check(close(observe(got), want), name, case,
                         lambda: f'{got} expected {want}')
            ck.check(a * b == b * a, 'commutes', case)
            ck.check((a * b) * c == a * (b * c), 'associates', (s, t, r))
            ck.check((a / b) * b == a, 'cancels', case, lambda: str(a / b * b))
            p = py.choice([2, 3, -1, -2, 1])
            ck.check(close(observe(a ** p), norm(
                m[0] ** p, {k: v * p for k, v in m[1].items()})), 'power',
                (s, p), lambda: str(a ** p))
            ck.check(S.power(s, p) == a ** p, 'power', (s, p, 'function'))
            f = py.choice([F(1, 2), F(1, 3), 0.5, F(5, 7)])
            if m[0] == 1:
                ck.check(close(observe(a ** f), norm(
                    1, {k: v * F(f) for k, v in m[1].items()})),
                    'rational-power', (s, f), lambda: str(a ** f))
            ck.check((str(a), str(b)) == before, 'unchanged', case)
        with ck.guard('equality', case):
            same = m == n
            ck.check((a == b) == same and (b == a) == same
                     and (a == t) == same and (a != b) == (not same),
                     'equality', case, f'{a} vs {b}')
            shuffled = [str(x) for x in a.terms]
            py.shuffle(shuffled)
            w = S.expression(' * '.join(f'({x})' for x in shuffled))
            ck.check(w == a and hash(w) == hash(a), 'hash', s, f'{w} vs {a}')
            near = dict(m[1])
            if near:
                k = py.choice(list(near))
                near[k] += py.choice([1, -2, F(1, 2)])
                if near[k]:
                    z = S.expression(' '.join(
                        f'{b}^{x}' for b, x in near.items()))
                    ck.check(z != a, 'unequal', (s, str(z)))
            new = a.apply(lambda base: S.expression(f'y{base}')
                          if base != '1' else S.expression('1'))
            ck.check(close(observe(new), norm(m[0], {
                f'y{k}': v for k, v in m[1].items()})), 'apply', s,
                lambda: str(new))
            ck.check((str(a), str(b)) == before, 'unchanged', case)
            d0 = {str(x) for x in a.terms} - {str(x) for x in b.terms}
            d1 = {str(x) for x in b.terms} - {str(x) for x in a.terms}
            ck.check({str(x) for x in a.difference(b)} == d0, 'difference',
                     case)
            ck.check({str(x) for x in a.difference(b, symmetric=True)}
                     == d0 | d1, 'difference-symmetric', case)
            x, y = a.difference(t, split=True)
            ck.check(({str(z) for z in x}, {str(z) for z in y}) == (d0, d1),
                     'difference-split', case)
    # operands that hold a whole expression
    make = S.OperandFactory()
    for i in range(ck.scale(600, 8000)):
        s, m, atomic = gen(py, py.randint(0, 2))
        group = not atomic or py.random() < .5
        if group:
            s = f'({s})'
        c, k = py.choice([1, 1, 2, 3, F(5, 2)]), py.choice([1, 1, 2, -1, -3])
        if not m[0] or 'sqrt' in s or s[0] != '(' and not s[0].isalpha():
            continue
        args = py.choice([
            (c, s, k), (float(c), s, str(k)), *([(s,)] if c == k == 1 else []),
            *([(s, k)] if c == 1 else []), *([(c, s)] if k == 1 else []),
            *([(f'{c}{s}^{k}',)] if c != F(5, 2) and group else [])])
        want = norm(c * m[0] ** k, {b: x * k for b, x in m[1].items()})
        with ck.guard('operand', args):
            o = make.create(*args)
            got = S.expression(f'({o.base})') ** o.exponent
            got = norm(F(str(o.coefficient)) * observe(got)[0],
                       observe(got)[1])
            ck.check(close(got, want), 'operand', args,
                     lambda: f'{o!r} is {got}, not {want}')
            got = observe(S.expression(str(o)))
            ck.check(close(got, want), 'operand-text', args,
                     lambda: f'{o} is {got}, not {want}')
    # reducing several groups of terms
    for i in range(ck.scale(400, 5000)):
        groups = []
        total = norm(1, {})
        for _ in range(py.randint(1, 4)):
            g = []
            for _ in range(py.randint(1, 4)):
                b, e, c = py.choice(BASES), py.choice(EXPS), py.choice(
                    [1, 1, 2, F(1, 3)])
                g.append(S.term(coefficient=c, base=b, exponent=e))
                d = collections.Counter(total[1])
                d[b] += F(e)
                total = norm(total[0] * c, d)
            groups.append(g)
        with ck.guard('reduce', repr(groups)):
            r = S.reduce(*groups)
            o = observe(S.Expression(r))
            ck.check(close(o, total), 'reduce', repr(groups),
                     lambda: f'{r}, expected {total}')
    # terms
    for b, e, c in itertools.product(['a', 'km', 'x1'], EXPS, [1, 2, F(1, 2)]):
        case = (b, e, c)
        with ck.guard('term', case):
            t = S.term(coefficient=c, base=b, exponent=e)
            ck.check((t.coefficient, t.base, t.exponent) == (c, b, e),
                     'term', case)
            for p in (2, -1, 3):
                q = t ** p
                ck.check((q.coefficient, q.base, q.exponent)
                         == (F(c) ** p, b, F(e) * p), 'term-power', (case, p))
            ck.check(observe(S.expression(str(t))) == norm(c, {b: e}),
                     'term-text', case, str(t))
            # numbers times terms, the value at a number, comparisons
            k = py.choice([2, F(3, 2), -4, 2.5])
            for q in (k * t, t * k):
                ck.check((q.coefficient, q.base, q.exponent)
                         == (F(c) * F(k), b, F(e)), 'term-times', (case, k))
            x = py.choice([4, 9.5, 2, 0.25, *([-2, -1.5]
                           if F(e).denominator == 1 else [])])
            v = t(x)
            want = float(c) * float(x) ** float(e)
            ck.check(harness.close(float(v), want, 1e-12) and v.base == '1'
                     and int(v) == int(F(v.coefficient)), 'term-value',
                     (case, x), lambda: f'{v!r}, expected {want}')
            ck.check(v == float(v) and not v == float(v) + 1
                     and not t == float(x) and t != 1 and not t == None
                     and not t == [b], 'term-number', (case, x))
            ck.check(t == S.term(coefficient=c, base=b, exponent=e)
                     and hash(t) == hash(S.term(
                         coefficient=c, base=b, exponent=e))
                     and t != S.term(coefficient=c + 1, base=b, exponent=e)
                     and t != S.term(coefficient=c, base=b, exponent=e + 1)
                     and t != S.term(coefficient=c, base='x' + b, exponent=e),
                     'term-equal', case)
            if F(c).denominator == 1 and F(e).denominator == 1:
                ck.check(t == str(t) and t != str(t * 7), 'term-as-text',
                         case)
            power = '' if e == 1 else f'^{{{e}}}'
            lead = '' if c == 1 else str(c) if F(c).denominator == 1 else (
                f'({F(c)})')
            ck.check(t.format(style='tex')
                     == rf'${lead}\mathrm{{{b}}}{power}$', 'term-tex', case,
                     lambda: t.format(style='tex'))
            ck.rejects('term-cast', case, lambda: float(t), (TypeError,))
            ck.rejects('term-value-of', case, lambda: v(2.0), (TypeError,))
    # operands from text and from parts
    make = S.OperandFactory().create
    for i in range(ck.scale(300, 4000)):
        b = py.choice(BASES)
        c, e = py.choice([1, 2, 3, 7]), py.choice([1, 2, 3, -1, -2, F(1, 2)])
        q, p = py.choice([1, 2, 5]), py.choice([1, 2, 3, -1, -2])
        inner = f'{c}{b}' + (f'^{e}' if e != 1 else '')
        if c == 1:
            inner = inner[1:]
        lead = '' if q == 1 else str(q)
        power = f'^{p}' if p != 1 else ''
        for args in ((f'{lead}({inner}){power}',),
                     (f'{lead}(({inner})){power}',),
                     (q, f'({inner})', p), (q, inner, p),
                     (f'({inner}){power}', 1) if q == 1 else (
                         q, f'({inner}){power}'),
                     (q, f'({inner}){power}', 1)):
            with ck.guard('operand', args):
                t = make(*args)
                got = norm(F(t.coefficient), {t.base: F(t.exponent)})
                want = norm(q * F(c) ** p, {b: F(e) * p})
                ck.check(close(got, want), 'operand', args,
                         lambda: f'{got}; expected {want}')
    # order-sensitive parsing refuses what NIST calls ambiguous
    for s, err in [('a / b / c', S.RatioError), ('a / b * c', S.ProductError),
                   ('a / (b / c / d)', S.RatioError),
                   ('x * (a / b * c)', S.ProductError)]:
        ck.rejects('ambiguous', s, lambda: S.expression(
            s, operator_order='error'), (err,))
    for s in ['a / (b * c)', '(a / b) / c', 'a * b / c', '(a / b) * c']:
        with ck.guard('unambiguous', s):
            ck.check(S.expression(s, operator_order='error')
                     == S.expression(s), 'unambiguous', s)
    for s in ['a * / b', '(a * b', 'a * b)', 'a ** b', 'a^', 'a^b', 'a / ',
              '((a)', 'a^(2', 'a % b', 'a + b', '(a * (b)',
              'a^^2', '$', 'a / * b']:
        ck.rejects('malformed', s, lambda: S.expression(s),
                   (S.ParsingValueError, S.OperandValueError,
                    S.OperandTypeError))
    ck.require('parse', 2000)
    ck.require('equality', 300)


if __name__ == '__main__':
    sys.exit(harness.main('C04', RULE, body))
