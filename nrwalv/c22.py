"""C22: the full text of an equation defines it."""
import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.common import World, near, same, snapshot
from nrwalv.core import Discard

RULE = ('Equations are obtained in every way there is: defined, combined, '
        'expanded inside a group, retrieved by path, by arithmetic and by '
        'power or year lookup, merged, from config entries, copied. For each '
        'one an equation made of its full text and its default variables must '
        'have the same variables, defaults and values, and the full text '
        'evaluated by the Python interpreter must give its value. '
        'replace_equation is compared with a new definition. Non-trivial: the '
        'equation was not defined by that text directly; distinct: by text.')
ASSUMPTIONS = ['a text that uses the name of the equation itself is refused '
               'when given that name, and judged without a name',
               'values are compared at inputs where the oracle is well '
               'conditioned']
REQUIRE = {'full texts': 8000, 'combined': 1500, 'expanded': 800,
           'looked up': 500, 'config entries': 800, 'oracle values': 3000,
           'replaced': 1500, 'arrays': 1000, 'after new defaults': 500,
           'self references refused': 100, 'repeated round trips': 1000}


def inputs_for(rng, names, n):
    if n is None:
        return {k: gen.value(rng) for k in names}
    return {k: gen.array(rng, n) if rng.random() < 0.7 else gen.value(rng)
            for k in names}


def evaluated(eq, vals):
    try:
        return 'value', eq.evaluate(**vals)
    except RuntimeError as e:
        return 'error', type(e.__cause__).__name__


def judge(ctx, rng, eq, what, name=None, avoid=()):
    """The full text of an equation is a definition of it."""
    from NRWAL import Equation
    text = eq.full
    ctx.check(isinstance(text, str), 'full is no text', lambda: '{}: {!r}'
              .format(what, text))
    twin = Equation(text, default_variables=eq.default_variables)
    ctx.check(list(twin.variables) == list(eq.variables),
              'full text has other variables', lambda: '{}: {!r} has {}, not '
              '{}'.format(what, text, twin.variables, eq.variables))
    ctx.check(twin.full == text, 'full text changes', lambda: '{!r} {!r}'
              .format(text, twin.full))
    for dfl in (False, True):
        n = rng.choice([None, None, 3])
        names = [v for v in eq.variables
                 if dfl is False or v not in eq.default_variables]
        vals = inputs_for(rng, names, n)
        k, a = evaluated(eq, vals)
        k2, b = evaluated(twin, vals)
        ctx.check(k == k2 and (near(a, b, 1e-12) if k == 'value' else a == b)
                  or isinstance(a, complex) and same(a, b),
                  'full text has another value', lambda:
                  '{}: {!r} gives {!r}, the equation {!r} with {}'.format(
                      what, text, b, a, vals))
        ctx.count('full texts')
        if n is not None:
            ctx.count('arrays')
        if n is None and k == 'value':
            oracle.set_precision(oracle.U64)
            scope = dict(eq.default_variables)
            scope.update(vals)
            try:
                r = oracle.usable(oracle.ev_eval(
                    text, lambda x: oracle.EV(scope[x])))
            except (Discard, SyntaxError):
                continue
            oracle.compare(ctx, a, [r], 'value is not that of the full text',
                           lambda: '{}: {!r} with {}'.format(what, text,
                                                             scope))
            ctx.count('oracle values')
    ctx.sig(text)
    if rng.random() < 0.3:
        # defaults set later apply to both alike
        new = {v: gen.value(rng) for v in eq.variables if rng.random() < 0.6}
        import copy
        a, b = copy.deepcopy(eq), twin
        a.set_default_variables(new)
        b.set_default_variables(new)
        vals = {v: gen.value(rng) for v in a.variables
                if v not in a.default_variables}
        x, y = evaluated(a, vals), evaluated(b, vals)
        ctx.check(x[0] == y[0] and (near(x[1], y[1], 1e-12)
                                    or same(x[1], y[1])),
                  'full text differs after new defaults', lambda:
                  '{}: {!r} {} {}'.format(what, text, x, y))
        ctx.check(a.full == text, 'defaults change the text', lambda: text)
        ctx.count('after new defaults')
    if rng.random() < 0.3:
        replaced(ctx, rng, eq, name, avoid)


def replaced(ctx, rng, eq, name, avoid):
    """replace_equation: new expression, same name and defaults."""
    from NRWAL import Equation
    names = sorted((set(eq.variables) | set(gen.names(rng, 2)))
                   - set(gen.EQ_NAMES) - set(avoid)) or ['x_']
    text = gen.ExprGen(rng, names, caret=False, np_prob=0.1).gen(1)
    if rng.random() < 0.15:
        text = gen.number(rng)
    before = (eq.full, list(eq.variables), snapshot(eq.default_variables),
              str(eq))
    if name is not None and rng.random() < 0.3:
        own = rng.choice(['{} + 1', '2 * {}', 'np.exp(-{})', 'x_ / ({})']
                         ).format(name)
        ctx.raises(lambda: eq.replace_equation(own), ValueError,
                   'self reference accepted', '{} by {!r}'.format(eq, own))
        ctx.count('self references refused')
    new = eq.replace_equation(text)
    ctx.check(new is not eq, 'replacement is the equation itself', lambda: text)
    ctx.check(new.full == str(text), 'replacement has another text', lambda:
              '{!r} {!r}'.format(new.full, text))
    ctx.check(list(new.variables) == ref.free_names(text),
              'replacement has other variables', lambda: '{!r}: {}'.format(
                  text, new.variables))
    ctx.check(snapshot(dict(new.default_variables))
              == snapshot(dict(eq.default_variables)),
              'replacement has other defaults', lambda: '{!r}: {} {}'.format(
                  text, new.default_variables, eq.default_variables))
    after = (eq.full, list(eq.variables), snapshot(eq.default_variables),
             str(eq))
    ctx.check(before == after, 'replacing changes the equation', lambda:
              '{} {}'.format(before, after))
    vals = {v: gen.value(rng) for v in new.variables}
    x = evaluated(new, vals)
    y = evaluated(Equation(text), vals)
    ctx.check(x[0] == y[0] and (near(x[1], y[1], 1e-12) or same(x[1], y[1])),
              'replacement has another value', lambda: '{!r} {} {}'.format(
                  text, x, y))
    # name kept: printed under it
    head = before[3].partition('(')[0]
    if head.isidentifier() and head != 'Equation' and new.variables \
            and eq.variables:
        ctx.check(str(new).partition('(')[0] == head,
                  'replacement has another name', lambda: '{} {}'.format(
                      eq, new))
    # independent afterwards
    for v in new.variables:
        new.set_default_variables({v: 123.25})
    ctx.check(snapshot(eq.default_variables) == before[2],
              'replacement shares defaults', lambda: text)
    ctx.count('replaced')


def operand(rng, names):
    from NRWAL import Equation
    k = rng.random()
    if k < 0.2:
        return rng.choice([rng.randint(-5, 9), -2.5, 1e-3, 12.75,
                           rng.uniform(-3, 3)])
    text = gen.ExprGen(rng, names, caret=False).gen(rng.randint(0, 2))
    if k < 0.3:
        return text
    dfl = {n: gen.value(rng) for n in names if rng.random() < 0.3}
    return Equation(text, name=rng.choice([None, 'eq_zz', 'my_eq_3MW']),
                    default_variables=dfl)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '**': lambda a, b: a ** b}


def combined(ctx, rng):
    from NRWAL import Equation
    names = gen.names(rng, rng.randint(1, 4))
    eq = operand(rng, names)
    if not isinstance(eq, Equation):
        eq = Equation(eq)
    judge(ctx, rng, eq, 'defined')
    trail = [str(eq)]
    for _ in range(rng.randint(1, 6)):
        b = operand(rng, names)
        op = rng.choice('+-*/')
        if rng.random() < 0.15:
            op, b = '**', rng.choice([2, -1, 0.5, 2.0])
        if isinstance(b, Equation) and rng.random() < 0.4:
            eq, b = b, eq
        eq = OPS[op](eq, b)
        trail.append('{} {}'.format(op, b))
        judge(ctx, rng, eq, 'combined {}'.format(trail))
        ctx.count('combined')
        if rng.random() < 0.3:
            # go on with the equation made of the text
            eq = Equation(eq.full, default_variables=eq.default_variables)
            ctx.count('repeated round trips')


def libraries(ctx, rng):
    from NRWAL import EquationDirectory
    from nrwalv.c01 import make_lib
    free = gen.names(rng, 3, avoid=['dv', 'rate'])
    spec, node, path = make_lib(ctx, rng, free=free, defaults=['dv', 'rate'])
    d = EquationDirectory(path, interp_extrap_power=rng.random() < 0.5,
                          interp_extrap_year=rng.random() < 0.5,
                          use_nearest_power=True, use_nearest_year=True)
    paths = ref.eq_paths(spec)
    for p in paths:
        eq = d[p]
        nd = node.at(p)
        judge(ctx, rng, eq, p, name=p.rsplit('::', 1)[1])
        refs = [n for n in ref.free_names(nd.data)
                if n in nd.group] if not ref.is_num(nd.data) else []
        if refs:
            ctx.count('expanded')
        base = p.rsplit('::', 1)
        for pat, alts in (('_3MW', ['_5MW', '_1mw', '_12MW']),
                          ('_6mw', ['_5MW', '_1mw', '_12MW']),
                          ('_2020', ['_2016', '_2031'])):
            if p.endswith(pat):
                q = p[:-len(pat)] + rng.choice(alts)
                try:
                    judge(ctx, rng, d[q], q)
                except KeyError:
                    continue
                ctx.count('looked up')
    for _ in range(4):
        a, b = rng.choice(paths), rng.choice(paths)
        key = rng.choice(['{} {} {}', '({} {} {}) * 2', '2.5 - ({} {} {})',
                          '({} {} {})^2']).format(a, rng.choice('+-*/'), b)
        judge(ctx, rng, d[key], key)
        ctx.count('combined')
    m = d + path
    for p in rng.sample(paths, min(3, len(paths))):
        judge(ctx, rng, m[p], 'merged ' + p)
        ctx.check(m[p].full == d[p].full, 'merging changes the text', lambda:
                  '{}: {!r} {!r}'.format(p, m[p].full, d[p].full))


def lookups(ctx, rng):
    """Interpolated equations."""
    from NRWAL import EquationGroup
    names = gen.names(rng, 2)
    g = {}
    power = rng.random() < 0.5
    vals = rng.sample(range(1, 30), 4) if power else \
        rng.sample(range(1990, 2050), 4)
    fmt = 'cap_{}MW' if power else 'cap_{}'
    for v in vals:
        g[fmt.format(v)] = gen.ExprGen(rng, names, caret=False).gen(
            rng.randint(0, 2))
    flags = rng.choice([dict(interp_extrap_power=True,
                             interp_extrap_year=True),
                        dict(use_nearest_power=True, use_nearest_year=True)])
    grp = EquationGroup(g, **flags)
    for _ in range(4):
        v = rng.randint(1, 40) if power else rng.randint(1980, 2060)
        key = fmt.format(v)
        judge(ctx, rng, grp[key], '{} of {}'.format(key, g))
        ctx.count('looked up')
        key2 = rng.choice(['{} * 2', '3 - {}', '({} + 1) / 4']).format(key)
        judge(ctx, rng, grp[key2], '{} of {}'.format(key2, g))
        ctx.count('looked up')


def configs(ctx, rng):
    from NRWAL import Equation, NrwalConfig
    w = World(ctx, rng, np_prob=0.2)
    cfg = NrwalConfig(w.config(shuffle=True))
    done = rng.random() < 0.4
    if done:
        try:
            cfg.evaluate(dict(w.inputs))
        except RuntimeError:
            raise Discard('evaluation')
    for k, eq in cfg.items():
        if isinstance(eq, Equation):
            judge(ctx, rng, eq, 'entry {} = {!r} of {}'.format(
                k, w.entries.get(k), w.entries), avoid=w.entries)
            ctx.count('config entries')


SCENARIOS = [('combined', combined, 4800, 48000),
             ('libraries', libraries, 960, 9600),
             ('lookups', lookups, 2400, 24000),
             ('configs', configs, 1600, 16000)]
