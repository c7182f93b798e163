"""C06: variables are discovered exactly and must be supplied."""
import numpy as np

from nrwalv import gen, ref
from nrwalv.common import names_in, near
from nrwalv.core import Discard

RULE = ('Random equation texts over adversarial names (parts of each other, '
        'number-like, module and builtin-like names, unicode) with every number '
        'notation, numpy functions and constants, keyword arguments, builtin '
        'functions, comparisons and array literals; variables are compared '
        'with the free names found by the Python parser, values with the '
        'Python interpreter, and every tried subset of absent variables must '
        'be reported. Non-trivial: two or more variables; distinct: by text.')
ASSUMPTIONS = ['names avoid Python keywords, builtins, nan/inf and self; no attribute '
               'access on variables, no ^ and no hexadecimal or complex '
               'numbers']
REQUIRE = {'texts': 1500, 'values': 1200, 'missing subsets': 2000,
           'defaults used': 400, 'kwargs in calls': 100, 'sci numbers': 300}
EXTRA = ['Equation', 'logger', 'builtins', 'kwargs', 'out', 'eqn',
         'e1', 'E2', 'e_1', 'x2e', 'a1e5', 'b2E', '_1e3', 'e3x', 'nan_x',
         'inf_', 'np1', 'pd_', 'npx', 'a_min', 'axis', 'dtype', 'minx',
         'Max', 'MIN', 'Abs', 'SUM', 'Range', 'Set', 'ID', 'Id', 'Len', 'Type',
         'Pow', 'Round', 'nand', 'infd', 'inff', 'nan1', 'infinity_x', 'NP', 'Np', 'PD', 'Pi', 'max_', 'abs_', 'sum_x', 'range_km', 'len_', 'int_rate', 'intx',
         'h\u00f6he', '\u0394t', 'missing', 'msg', 'globals_', 'True_', 'None_x',
         'or_', 'if_x', 'lambda_', 'in_', 'is_', 'not_x', 'andx']


def text(ctx, rng, names):
    g = gen.ExprGen(rng, names, caret=False, compare=True,
                    np_prob=rng.choice([0.05, 0.2]), num_prob=0.35)
    t = g.gen(rng.randint(1, 3))
    extra = []
    for _ in range(rng.randint(0, 3)):
        a, b = rng.choice(names), rng.choice(names)
        num = gen.number(rng)
        s = rng.choice(['', ' '])
        extra.append(rng.choice([
            'np.clip({a}, a_min={n}, a_max={b}+{n})',
            'np.clip({a},a_min = {n},a_max = 500)',
            'np.mean([{a}, {b}])', 'np.mean([{a}, {b}], axis=0)',
            'np.sum((({a}, {n})),axis=0)', 'max({a}, {b})', 'min({a},{n})',
            'abs({a})', 'float({a})', 'round({a}, 2)', 'sum([{a},{b},{n}])',
            'np.where({a}>{b},{a},{n})', '({a}<={n})*{b}', '({a}=={b})',
            'np.where(({a} > {n}) & ({b} < 3), {a}, {b})',
            'np.where(({a}!={b})|({b}>=3),{a},{n})', 'np.pi*{a}', '{a}%{n}',
            '{a} // {n}', 'np.max(np.array([{a}, {b}, {n}]))', '~({a}>{b})*1',
            'np.interp({a}, [1, 2, 3.5], [{n}, {b}, 1e2])',
            'np.maximum({a},\t{b})', '(\n{a} + {b}\n)', 'np.e**-{a}',
            '{n}*{a}', '{a}-{n}', '{a}/{n}', '{n}-{a}', '-{a}**{n}',
            'np.round({a}, decimals=2)', 'np.float64({a})', 'pow({a}, 2)',
            'np.linalg.norm([{a}, {b}])', 'np.power({a},{n})',
            'np.clip(a={a}, a_min={n}, a_max=500)', 'np.round(a={a},decimals=2)',
            'np.round( a = {a}, decimals = 1)',
            'np.clip(a_min={n}, a_max=300, a={a}*{b})',
            'np.sum(a=[{a}, {b}])', 'np.mean( axis=0, a=[{a}, {n}])',
            'np.maximum(*({a}, {b}))', 'np.float64((({a})))',
        ]).format(a=a, b=b, n=num))
        if '=' in extra[-1]:
            ctx.count('kwargs in calls')
    for x in extra:
        t += rng.choice([' + ', ' - ', '*', ' * ', '+', '-']) + x
    if rng.random() < 0.05:
        t = rng.choice([' ', '', '\t']) + t.strip() + rng.choice([' ', '\n'])
    return t


def discover(ctx, rng):
    from NRWAL.handlers.equations import Equation
    pool = gen.POOL + EXTRA
    names = gen.names(rng, rng.randint(1, 6), pool=pool)
    t = text(ctx, rng, names)
    try:
        vs = ref.free_names(t)
    except SyntaxError:
        raise Discard('syntax')
    eq = Equation(t, name=rng.choice([None, 'my__eq', 'Z9']))
    got = eq.variables
    ctx.check(list(got) == vs, 'wrong variables', lambda:
              '{!r}: got {} expected {}'.format(t, got, vs))
    ctx.check(list(Equation.parse_variables(t)) == vs, 'wrong variables',
              lambda: 'parse_variables {!r}'.format(t))
    ctx.count('texts')
    if 'e' in t.lower():
        import re
        if re.search(r'(?<![\w.])[\d.]+[eE][-+]?\d', t):
            ctx.count('sci numbers')
    vals = {k: rng.choice([gen.value(rng), gen.value(rng),
                           float(rng.randint(1, 9)), rng.randint(1, 9)])
            for k in vs}
    if rng.random() < 0.2 and 'max(' not in t and 'min(' not in t \
            and 'np.m' not in t and 'sum(' not in t and '[' not in t \
            and 'float(' not in t and 'round(' not in t and 'norm' not in t:
        for k in vals:
            if rng.random() < 0.6:
                vals[k] = gen.array(rng, 3)
    dfl = {k: rng.choice([gen.value(rng), 2.0]) for k in vs
           if rng.random() < 0.25}
    eq = Equation(t, name=rng.choice([None, 'my__eq']),
                  default_variables=dfl)
    sup = {k: v for k, v in vals.items() if k not in dfl or rng.random() < .4}
    if set(dfl) - set(sup):
        ctx.count('defaults used')
    full = dict(dfl)
    full.update({k: float(v) if isinstance(v, int) else v
                 for k, v in sup.items()})
    try:
        want = eval(t.strip(), {'np': np}, full)
        bad = None
    except Exception as e:
        bad = e
    if bad is None:
        if rng.random() < 0.2:
            sup = dict(sup, unused_name_=3.0)
        try:
            out = eq.evaluate(**sup) if rng.random() < .7 else eq.eval(**sup)
        except Exception as e:
            ctx.fail('does not evaluate', '{!r} with {} defaults {}: {!r}'
                     .format(t, sup, dfl, e))
        ctx.check(near(out, want), 'wrong value', lambda:
                  '{!r} with {} defaults {}: got {!r} expected {!r}'.format(
                      t, sup, dfl, out, want))
        ctx.count('values')
    # absent variables
    nod = [k for k in vs if k not in dfl]
    subsets = [[k] for k in nod]
    for _ in range(2):
        if len(nod) > 1:
            subsets.append(rng.sample(nod, rng.randint(2, len(nod))))
    for miss in subsets:
        part = {k: v for k, v in vals.items() if k not in miss}
        for k in dfl:
            if rng.random() < 0.5:
                part.pop(k, None)
        e = ctx.raises(lambda: eq.evaluate(**part), (RuntimeError,),
                       'evaluated without a variable',
                       '{!r} missing {}'.format(t, miss))
        msg = str(e).replace(str(eq), '')
        ctx.check(names_in(msg, miss) == set(miss), 'missing variable not '
                  'named', lambda: '{} not all in {}'.format(miss, msg))
        ctx.count('missing subsets')
    if len(vs) > 1:
        ctx.sig(t)
        ctx.sample('discover', {'text': t, 'variables': vs})


def tokens(ctx, rng):
    """Dense sequences of numbers and names glued by operators."""
    from NRWAL.handlers.equations import Equation
    pool = gen.POOL + EXTRA
    names = gen.names(rng, 5, pool=pool)
    toks = []
    for i in range(rng.randint(2, 12)):
        k = rng.random()
        if k < 0.55:
            toks.append(rng.choice(names))
        elif k < 0.6:
            toks.append(rng.choice(['np.pi', 'np.e']))
        else:
            toks.append(rng.choice([
                gen.number(rng), '1e5', '1E5', '2.5e-3', '3.E+2', '.5e1',
                '1e05', '10e-10', '1.', '0.0', '007e1', '1_000', '5e0']))
    t = toks[0]
    for x in toks[1:]:
        t += rng.choice(['', ' ']) + rng.choice('+-*/') \
            + rng.choice(['', ' ', '-', ' ']) + x
    try:
        vs = ref.free_names(t)
    except SyntaxError:
        raise Discard('syntax')
    ctx.check(list(Equation(t).variables) == vs, 'wrong variables', lambda:
              '{!r}: got {} expected {}'.format(t, Equation(t).variables, vs))
    vals = {k: gen.value(rng) for k in vs}
    try:
        want = eval(t, {'np': np}, dict(vals))
    except ZeroDivisionError:
        raise Discard('zero')
    out = Equation(t).evaluate(**vals)
    ctx.check(near(out, want), 'wrong value', lambda: '{!r} with {}: got {!r} '
              'expected {!r}'.format(t, vals, out, want))
    ctx.count('texts')
    ctx.count('values')
    ctx.count('sci numbers')
    if len(vs) > 1:
        ctx.sig(t)


SCENARIOS = [('discover', discover, 48000, 480000),
             ('tokens', tokens, 30000, 300000)]
