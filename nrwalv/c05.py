"""C05: equation algebra equals arithmetic on evaluated operands."""
import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.core import Discard

RULE = ('Random trees (depth 1-6) of the operators + - * / ** over Equation '
        'leaves (constants of any sign and notation, names, compound texts, '
        'comparisons, numpy calls) with right operands that are equations, '
        'numbers or texts; value, variables and default values of every inner '
        'node are compared with the reference arithmetic on the leaves. '
        'Non-trivial: two or more operators; distinct: by the tree.')
ASSUMPTIONS = ['values compared within a running rounding-error bound']
REQUIRE = {'neutral numbers': 100, 'trees': 800, 'negative constants': 200, 'text operands': 200,
           'default conflicts': 50, 'array defaults': 200, 'arrays': 100, 'nodes': 3000,
           'op **': 300, 'many digits': 500, 'op -': 500, 'op /': 500}


class T:
    """Reference node."""

    def __init__(self, eq, text=None, op=None, a=None, b=None, dfl=None):
        self.eq, self.text, self.op, self.a, self.b = eq, text, op, a, b
        self.dfl = dfl or {}

    def names(self):
        if self.op is None:
            return set(ref.free_names(self.text))
        return self.a.names() | self.b.names()

    def defaults(self):
        if self.op is None:
            return dict(self.dfl)
        # the right operand wins, except for what only the left one uses
        left = self.a.defaults()
        own = self.a.names() - self.b.names()
        d = {**left, **self.b.defaults()}
        d.update({k: v for k, v in left.items() if k in own})
        return d

    def value(self, look):
        if self.op is None:
            return oracle.ev_eval(self.text, look)
        x, y = self.a.value(look), self.b.value(look)
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                '/': lambda: x / y, '**': lambda: x ** y}[self.op]()

    def show(self):
        if self.op is None:
            return '<{}>'.format(self.text)
        return '({} {} {})'.format(self.a.show(), self.op, self.b.show())


def leaf_text(rng, names, exponent=False):
    k = rng.random()
    if exponent:
        return rng.choice(['2', '-1', '0.5', '3', '-2', '1.5', '-0.5', '1e0',
                           '2 - 1', '-1 + 2', '1 / 2', '.5', '-1.', '+2', '0',
                           '1', '0.', '1.0'])
    if k < 0.2:
        return gen.number(rng, signed=True)
    if k < 0.28:
        return rng.choice(['- 3', '-2.5e-1', '+4', '-.5', '-1', '0.25', '0',
                           '1', '1.0', '0.0', '1',
                           '-(2)', '(-3)', '((2))'])
    if k < 0.5:
        t = rng.choice(names)
        return rng.choice([t, t, '-' + t, '({})'.format(t), ' ' + t + ' '])
    g = gen.ExprGen(rng, names, caret=False, compare=True, np_prob=0.1)
    t = g.gen(rng.randint(0, 2))
    if rng.random() < 0.05:
        t = '({}) * ({} > {})'.format(t, rng.choice(names), gen.number(rng))
    elif rng.random() < 0.06:
        t = rng.choice(['{} > {}', '{}>{}', '({})<({})', '{}<={}',
                        '({} >= {})']).format(rng.choice(names),
                                              gen.number(rng))
    return t


def tree(ctx, rng, names, depth, dnames, exponent=False, root=False):
    from NRWAL.handlers.equations import Equation
    if depth == 0 or (not root and rng.random() < 0.2):
        text = leaf_text(rng, names, exponent)
        if ref.is_num(text) and float(text) < 0:
            ctx.count('negative constants')
        dfl = {}
        if dnames and rng.random() < 0.4:
            dfl = {d: round(rng.uniform(0.5, 5), 2) for d in
                   rng.sample(dnames, rng.randint(1, len(dnames)))}
        raw = text
        if ref.is_num(text) and rng.random() < 0.5:
            raw = ref.num(text)
        eq = Equation(raw, name=rng.choice([None, None, 'my_eq', 'n_1']),
                      default_variables=dfl or None)
        return T(eq, text=text, dfl=dfl)
    op = rng.choice(['+', '-', '-', '*', '/', '/', '**'])
    a = tree(ctx, rng, names, depth - 1, dnames)
    k = rng.random()
    if k < 0.55 or (op == '**' and k < 0.3):
        b = tree(ctx, rng, names, 0 if op == '**' and rng.random() < 0.8
                 else depth - 1, dnames, exponent=op == '**')
        right = b.eq
    elif k < 0.75:
        text = leaf_text(rng, names, op == '**')
        b = T(None, text=text)
        right = text
        ctx.count('text operands')
    else:
        v = rng.choice([rng.randint(-5, 9), rng.uniform(-3, 6),
                        np.float64(rng.uniform(0.5, 3)), 2, -1, 1e-3, 2.5e4,
                        np.int64(3), np.float32(1.5)])
        if rng.random() < 0.25:
            v = rng.choice([
                rng.randint(10 ** 6, 10 ** 14), rng.uniform(1e6, 1e12),
                rng.uniform(1e-9, 1e-5), -rng.uniform(1e6, 1e9),
                round(rng.uniform(1, 100), 12), 1e-12, 1e20, 12345678.25,
                np.float64(rng.uniform(1e7, 1e8))])
            ctx.count('many digits')
        elif rng.random() < 0.15:
            v = rng.choice([0, 1, 0.0, 1.0, -1, -0.0])
            ctx.count('neutral numbers')
        if op == '**':
            v = rng.choice([2, -1, 0.5, 3, -2, 1.5, 0, 1, 1.0, 0.0])
        if v == 0 and op == '/':
            v = 2
        b = T(None, text=repr(v.item() if isinstance(v, np.generic) else v))
        right = v
        ctx.count('number operands')
    eq = {'+': lambda: a.eq + right, '-': lambda: a.eq - right,
          '*': lambda: a.eq * right, '/': lambda: a.eq / right,
          '**': lambda: a.eq ** right}[op]()
    ctx.count('op ' + op)
    if set(a.defaults()) & set(b.defaults()):
        ctx.count('default conflicts')
    return T(eq, op=op, a=a, b=b)


def nodes(t):
    if t.op is None:
        return []
    return nodes(t.a) + nodes(t.b) + [t]


def algebra(ctx, rng, depth=None):
    names = gen.names(rng, rng.randint(2, 5))
    dnames = names[:rng.randint(0, 2)]
    if rng.random() < 0.1:
        names = gen.names(rng, rng.randint(8, 14))
        dnames = names[:rng.randint(2, 8)]
        ctx.count('many variables')
    t = tree(ctx, rng, names, depth or rng.randint(1, 4), dnames, root=True)
    arrays = rng.random() < 0.25
    vals = {}
    n = 3
    for k in names:
        if arrays and rng.random() < 0.7:
            vals[k] = gen.array(rng, n, rng.choice([float, float, np.float32,
                                                    np.int64]))
        else:
            vals[k] = rng.choice([gen.value(rng, 'any'), rng.randint(1, 9),
                                  -gen.value(rng)])
    is_arr = any(isinstance(v, np.ndarray) for v in vals.values())
    oracle.set_precision(oracle.U32 if is_arr else oracle.U64)
    if is_arr:
        ctx.count('arrays')
    ok = 0
    for node in nodes(t):
        eq = node.eq
        ctx.check(type(eq).__name__ == 'Equation', 'result is no Equation',
                  lambda: '{!r}'.format(eq))
        vs = sorted(node.names())
        ctx.check(list(eq.variables) == vs, 'wrong variables', lambda:
                  '{}: got {} expected {}'.format(node.show(), eq.variables,
                                                  vs))
        d = node.defaults()
        ctx.check(dict(eq.default_variables) == d, 'wrong defaults', lambda:
                  '{}: got {} expected {}'.format(
                      node.show(), eq.default_variables, d))
        ctx.count('nodes')
        # some variables are left to their defaults
        sup = {k: v for k, v in vals.items()
               if k in vs and (k not in d or rng.random() < 0.5)}
        refs = []
        try:
            for pos in range(n if is_arr else 1):
                evs = ref.ev_inputs(sup, pos)
                evs.update({k: oracle.ev(v) for k, v in d.items()
                            if k not in evs})
                refs.append(oracle.usable(node.value(evs.__getitem__)))
        except Discard:
            ctx.count('ill conditioned nodes')
            continue
        try:
            got = eq.evaluate(**sup)
        except Exception as e:
            ctx.fail('combination does not evaluate', '{!r}: {} with {}'
                     .format(e, node.show(), sup))
        oracle.compare(ctx, got, refs, 'wrong value', lambda:
                       '{} with {} defaults {}'.format(node.show(), sup, d))
        ok += 1
    if not ok:
        raise Discard('ill conditioned')
    ctx.count('trees')
    if len(nodes(t)) > 1:
        ctx.sig(t.show())
        ctx.sample('algebra', {'tree': t.show(), 'inputs': vals})


def deep(ctx, rng):
    algebra(ctx, rng, depth=rng.randint(5, 6))


def chain(ctx, rng):
    """Running sums and products: acc = acc op x, many times."""
    from NRWAL.handlers.equations import Equation
    names = gen.names(rng, 3)
    vals = {k: gen.value(rng) for k in names}
    oracle.set_precision(oracle.U64)
    first = leaf_text(rng, names)
    acc = T(Equation(first), text=first)
    for _ in range(rng.randint(8, 30)):
        op = rng.choice('+-*/-/')
        text = leaf_text(rng, names)
        right = rng.choice([text, Equation(text)])
        eq = {'+': lambda: acc.eq + right, '-': lambda: acc.eq - right,
              '*': lambda: acc.eq * right, '/': lambda: acc.eq / right}[op]()
        acc = T(eq, op=op, a=acc, b=T(None, text=text))
    evs = {k: oracle.EV(v) for k, v in vals.items()}
    r = oracle.usable(acc.value(evs.__getitem__))
    got = acc.eq.evaluate(**vals)
    oracle.compare(ctx, got, [r], 'wrong value',
                   lambda: '{} with {}'.format(acc.show(), vals))
    ctx.check(list(acc.eq.variables) == sorted(acc.names()),
              'wrong variables', lambda: acc.show())
    ctx.count('chains')
    ctx.sig(acc.show())


def array_defaults(ctx, rng):
    """Default values that are arrays or lists of site values."""
    from NRWAL.handlers.equations import Equation
    x, y, z = gen.names(rng, 3)
    n = rng.randint(2, 4)
    d1 = {k: np.array([rng.uniform(1, 9) for _ in range(n)])
          for k in rng.sample([x, y, z], 2)}
    d2 = {k: np.array([rng.uniform(1, 9) for _ in range(n)])
          for k in rng.sample([x, y, z], 2)}
    t1 = '{} + {}'.format(*rng.sample([x, y, z], 2))
    t2 = '2 * {}'.format(rng.choice([x, y, z]))
    op = rng.choice('+-*/')
    a, b = Equation(t1, default_variables=d1), \
        Equation(t2, default_variables=d2)
    try:
        eq = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
              '/': lambda: a / b}[op]()
    except Exception as e:
        ctx.fail('cannot combine', '{!r}: ({}) {} ({}) with defaults {} {}'
                 .format(e, t1, op, t2, d1, d2))
    d = T(None, op=op, a=T(a, t1, dfl=d1), b=T(b, t2, dfl=d2))
    env = d.defaults()
    sup = {k: rng.uniform(1, 9) for k in d.names() if k not in env}
    got = eq.evaluate(**sup)
    oracle.set_precision(oracle.U64)
    refs = []
    for i in range(n):
        evs = {k: oracle.EV(float(v[i]) if k in env else float(v))
               for k, v in {**env, **sup}.items()}
        refs.append(oracle.usable(d.value(evs.__getitem__)))
    oracle.compare(ctx, got, refs, 'wrong value', lambda:
                   '({}) {} ({}) with defaults {} {} inputs {}'.format(
                       t1, op, t2, d1, d2, sup))
    ctx.check(all(np.array_equal(a.default_variables[k], v)
                  for k, v in d1.items()) and set(a.default_variables) ==
              set(d1), 'operand changed', lambda: str(a.default_variables))
    ctx.count('array defaults')
    ctx.sig(d.show(), op)


SCENARIOS = [('array_defaults', array_defaults, 800, 8000),
             ('algebra', algebra, 48000, 480000),
             ('deep', deep, 3600, 36000),
             ('chain', chain, 3600, 36000)]
