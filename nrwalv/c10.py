"""C10: power and year lookups interpolate or pick the nearest."""
import itertools
import os

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.core import Discard

RULE = ('Random groups holding several families base_<n>MW and base_<yyyy> '
        '(bases that are parts of each other, mixed kinds, 1-5 members each, '
        'decoys in other nesting levels and non-years), requested at values '
        'between, beyond, at and far from the members, in any letter case, '
        'with all 16 flag combinations, from groups, sub-groups, directories '
        'and configs; compared with the line through the two nearest (any tie '
        'accepted), the nearest, or KeyError. Non-trivial: request of a value '
        'that is not defined; distinct: by group, request and flags.')
ASSUMPTIONS = ['no family has the same value in two letter cases']
REQUIRE = {'interpolated': 800, 'extrapolated': 400, 'nearest': 500,
           'keyerror': 800, 'defined': 1000, 'single': 200, 'ties': 50,
           'case variant': 200, 'via config': 200, 'via directory': 300,
           'nested': 300, 'power': 1500, 'year': 1500, 'order lists': 300,
           'variable lookups': 4000, 'with defaults': 800}

BASES = ['spar', 'spar_x', 'xspar', 'cap', 'cap_2', 'capex_per', 'install',
         'Install', 'a', 'cap_2020_q', 'cap_10', 'b_3MWx', 'mw', 'e', 'set']


def fam(rng, free, base, kind, n):
    vals = rng.sample(rng.choice([range(0, 40)] * 6 + [range(
        30, 300), range(50, 20000)]), n) if kind == 'power' else \
        rng.sample(range(1990, 2060), n) if rng.random() < 0.8 else \
        rng.sample(list(range(1800, 1830)) + list(range(2170, 2201)), n)
    out = {}
    same = rng.random() < 0.3
    form = '{a} * {x} + {b}'
    for v in vals:
        mwc = rng.choice(['MW', 'MW', 'MW', 'mw', 'Mw'])
        zero = '0' * rng.choice([0] * 9 + [1])
        name = '{}_{}{}{}'.format(base, zero, v, mwc) if kind == 'power' else \
            '{}_{}'.format(base, v)
        k = rng.random()
        x = rng.choice(free)
        a, b = round(rng.uniform(1, 9), 2), round(rng.uniform(1, 50), 2)
        if k < 0.15:
            t = rng.choice([a, int(b), -a])
        elif k < 0.3:
            t = '{} - {} * {}'.format(b, a, x)
        elif k < 0.4:
            t = '-{} ** 2 / {}'.format(x, a)
        elif k < 0.5:
            t = 'np.log(1 + {}) * {}'.format(x, a)
        else:
            t = '{} * {} + {}'.format(a, x, b)
        out[name] = (v, t)
    return out


def make(rng, depth=1):
    """group data and its families: list of (level path, base, kind, {name:
    (value, text)})"""
    free = gen.names(rng, 2, avoid=BASES)
    fams = []

    def level(path, d):
        g = {}
        for base in rng.sample(BASES, rng.randint(1, 3)):
            kinds = rng.choice([['power'], ['year'], ['power', 'year']])
            for kind in kinds:
                f = fam(rng, free, base, kind, rng.choice([1, 2, 2, 3, 4, 5]))
                if any(k in g for k in f):
                    continue
                g.update({k: t for k, (v, t) in f.items()})
                fams.append((path, base, kind, f))
            if rng.random() < 0.3:
                g[base + '_3000'] = 3     # no year
            if rng.random() < 0.3:
                g[base + '_17'] = free[0] + ' + 1'
            if rng.random() < 0.3:
                g[base] = 99
        g.setdefault('plain', free[0] + ' * 2')
        if d:
            for s in rng.sample(['sub', 'nested', 'set_3'], rng.randint(0, 2)):
                g[s] = level(path + s + '::', d - 1)
        items = list(g.items())
        rng.shuffle(items)
        return dict(items)
    return free, level('', depth), fams


def expected(fam_, x, interp, nearest):
    """list of acceptable results: (kind, names, weights function)"""
    items = sorted(((abs(x - v), n, v) for n, (v, _) in fam_.items()))
    if not (interp or nearest):
        return None
    best = items[0][0]
    if len(items) == 1 or not interp:
        return [('one', n) for dd, n, v in items if dd == best]
    # any choice of two nearest consistent with the distances
    dist = [i[0] for i in items]
    out = []
    for a, b in itertools.permutations(items, 2):
        if sorted([a[0], b[0]]) == dist[:2]:
            out.append(('line', a, b))
    return out


def some_defaults(rng, free):
    if rng.random() < 0.6:
        return {}
    return {n: gen.value(rng) for n in rng.sample(free, rng.choice(
        [1, len(free), len(free)]))}


def check(ctx, rng, get, free, fams, flags, prefix='', budget=12, dfl=None):
    oracle.set_precision(oracle.U64)
    vals = {n: gen.value(rng) for n in free}
    # defaults apply where nothing is supplied
    omit = {n for n in dfl or () if rng.random() < 0.4}
    vals.update({n: dfl[n] for n in omit})
    if dfl:
        ctx.count('with defaults')

    def value(text):
        if ref.is_num(text):
            return oracle.ev(ref.num(text))
        return oracle.ev_eval(text, lambda n: oracle.EV(vals[n]))

    def evaluate(eq, what):
        ctx.check(type(eq).__name__ == 'Equation', 'not an equation',
                  lambda: '{}: {!r}'.format(what, eq))
        return eq.evaluate(**{n: vals[n] for n in eq.variables
                              if n not in omit})

    for _ in range(budget):
        path, base, kind, f = rng.choice(fams)
        vs = [v for v, _ in f.values()]
        lo, hi = (0, 20009) if kind == 'power' else (1800, 2200)
        x = rng.choice([rng.choice(vs), rng.choice(vs) + rng.choice([-1, 1]),
                        rng.randint(min(vs), max(vs)),
                        rng.randint(min(vs), max(vs)), min(vs) - rng.randint(
                            1, 9), max(vs) + rng.randint(1, 9),
                        min(vs) - rng.randint(10, 120),
                        max(vs) + rng.randint(10, 120),
                        sum(rng.choice(vs) for _ in '12') // 2])
        x = min(max(x, lo), hi)
        if kind == 'power':
            req = '{}_{}{}'.format(base, x, rng.choice(
                ['MW', 'MW', 'mw', 'Mw', 'mW']))
        else:
            req = '{}_{}'.format(base, x)
        # another family of the same name at this level?
        if any(p == path and b == base and k == kind and g is not f
               for p, b, k, g in fams):
            raise Discard('two families')
        interp = flags['interp_extrap_' + kind]
        near = flags['use_nearest_' + kind]
        what = '{}{} of {} with {}'.format(path, req, sorted(
            f.items(), key=lambda i: i[1][0]), flags)
        key = prefix + path + req
        ctx.count(kind)
        if path:
            ctx.count('nested')
        if req in f:
            r = value(f[req][1])
            got = evaluate(get(key), what)
            oracle.compare(ctx, got, [oracle.usable(r)], 'defined name changed',
                           lambda: what)
            ctx.check(list(get(key).variables) == ref.free_names(f[req][1]),
                      'defined name changed', lambda: what)
            ctx.count('defined')
            continue
        want = expected(f, x, interp, near)
        if want is None:
            ctx.raises(lambda: get(key), (KeyError,),
                       'lookup without being enabled', what)
            ctx.count('keyerror')
            continue
        eq = get(key)
        got = evaluate(eq, what)
        ok = False
        cands = []
        for w in want:
            try:
                if w[0] == 'one':
                    r = value(f[w[1]][1])
                else:
                    (_, n1, x1), (_, n3, x3) = w[1], w[2]
                    y1, y3 = value(f[n1][1]), value(f[n3][1])
                    r = (y3 - y1) * (x - x1) / (x3 - x1) + y1
            except Discard:
                raise Discard('ill conditioned')
            cands.append(r)
            ok = ok or oracle.close(got, r)
        ctx.check(ok, 'wrong lookup value', lambda:
                  '{}: got {!r}, acceptable {} inputs {}'.format(
                      what, got, cands, vals))
        if len(want) > (1 if want[0][0] == 'one' else 2):
            ctx.count('ties')
        if x in vs:
            ctx.count('case variant')
        if want[0][0] == 'line':
            names = sorted({n for w in want for n in (w[1][1], w[2][1])})
            vv = set()
            for n in names:
                vv |= set(ref.free_names(f[n][1]))
            ctx.check(set(eq.variables) <= vv, 'wrong variables', lambda:
                      '{}: {}'.format(what, eq.variables))
            inside = min(vs) < x < max(vs)
            ctx.count('interpolated' if inside else 'extrapolated')
        else:
            ctx.count('single' if len(vs) == 1 else 'nearest')
            ctx.check(any(list(eq.variables) == ref.free_names(f[w[1]][1])
                          for w in want), 'wrong variables', lambda: what)
        ctx.sig(key, str(sorted(f.items())), sorted(flags.items()))
        ctx.sample('lookup', {'request': what, 'got': got})


def flagset(rng):
    names = ['interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
             'use_nearest_year']
    return {n: rng.random() < 0.5 for n in names}


def given(rng, flags):
    """Flags are off unless given."""
    return {k: v for k, v in flags.items() if v or rng.random() < 0.5}


def groups(ctx, rng):
    from NRWAL.handlers.groups import EquationGroup
    free, g, fams = make(rng)
    flags = flagset(rng)
    how = rng.random()
    if how < 0.6:
        obj = EquationGroup(g, name='grp', **given(rng, flags))
    else:
        fp = os.path.join(ctx.tmpdir(), 'grp' + rng.choice(['.yaml', '.json']))
        ref.dump(g, fp)
        obj = EquationGroup(fp, **given(rng, flags))
    dfl = some_defaults(rng, free)
    if dfl:
        obj.set_default_variables(dict(dfl))
    check(ctx, rng, lambda k: obj[k], free, fams, flags, dfl=dfl)
    # non-years and other names are never looked up
    for bad in ('plain_x', 'spar_MW', 'spar_1799', 'spar_2201', 'spar_0999',
                'spar_99', 'nosuch_2020', 'nosuch_5MW', 'spar5MW',
                'spar_5MWh', 'spar_5.5MW', 'spar_x5MW'):
        if bad in g:
            continue
        if any(b + '_' in bad and p == '' and
               (k == 'power' and bad[len(b):].lower().endswith('mw')
                and bad[len(b) + 1:-2].isdigit()) for p, b, k, _ in fams):
            continue
        ctx.raises(lambda: obj[bad], (KeyError,), 'other name looked up',
                   '{} in {} with {}'.format(bad, g, flags))
    # sorted neighbours
    for path, base, kind, f in rng.sample(fams, min(2, len(fams))):
        if path:
            continue
        x = rng.randint(0, 45) if kind == 'power' else rng.randint(1990, 2070)
        req = '{}_{}{}'.format(base, x, 'MW' if kind == 'power' else '')
        fun = obj.find_nearest_power_eqns if kind == 'power' \
            else obj.find_nearest_year_eqns
        eqns, values = fun(req)
        dist = [abs(x - v) for v in values]
        ctx.check(dist == sorted(dist) and sorted(values) == sorted(
            v for v, _ in f.values()), 'wrong neighbours', lambda:
            '{} in {}: {}'.format(req, f, values))
        by = {v: n for n, (v, _) in f.items()}
        for eq, v in zip(eqns, values):
            ctx.check(eq is obj[by[int(v)]], 'neighbour equations and values '
                      'do not match', lambda: '{} {}'.format(req, values))
        ctx.count('order lists')
    # lookups inside arithmetic keys
    cand = [x for x in fams if x[2] == 'power'
            and flags['interp_extrap_power']]
    if cand:
        path, base, kind, f = rng.choice(cand)
        req = path + base + '_{}MW'.format(rng.randint(41, 60))
        vals = {n: gen.value(rng) for n in free}
        a = obj[req]
        b = obj[req + ' * 2 - ' + req]
        ctx.check(np.isclose(
            a.evaluate(**{n: vals[n] for n in a.variables}),
            b.evaluate(**{n: vals[n] for n in b.variables}), rtol=1e-6),
            'lookup differs in arithmetic', lambda: req)


def directories(ctx, rng):
    from NRWAL import EquationDirectory
    free, g, fams = make(rng)
    flags = flagset(rng)
    d = ctx.tmpdir()
    sub = os.path.join(d, 'lib', 'dir_2015')
    os.makedirs(sub)
    fname = rng.choice(['file', 'file_2015', 'f_3MW'])
    ref.dump(g, os.path.join(sub, fname + rng.choice(['.yaml', '.json'])))
    # decoys in another file
    ref.dump({k: 12345 for k in list(g)[:3] if not isinstance(g[k], dict)},
             os.path.join(sub, 'other.yaml'))
    ref.dump({fams[0][1] + '_7MW': 777, fams[0][1] + '_2021': 777},
             os.path.join(d, 'lib', 'top.yaml'))
    dfl = some_defaults(rng, free)
    if dfl:
        ref.dump(dfl, os.path.join(rng.choice([sub, os.path.join(d, 'lib')]),
                                   'variables.yaml'))
    obj = EquationDirectory(os.path.join(d, 'lib'), **given(rng, flags))
    get = rng.choice([
        lambda k: obj[k],
        lambda k: obj['dir_2015'][k.split('::', 1)[1]],
        lambda k: obj['dir_2015::' + fname][k.split('::', 2)[2]]])
    check(ctx, rng, get, free, fams, flags, prefix='dir_2015::' + fname + '::',
          dfl=dfl)
    ctx.count('via directory')


def configs(ctx, rng):
    """Flags in the config or in the constructor call, lookups in entries."""
    from NRWAL import NrwalConfig
    free, g, fams = make(rng)
    flags = flagset(rng)
    d = ctx.tmpdir()
    ref.dump(g, os.path.join(d, 'file.yaml'))
    dfl = some_defaults(rng, free)
    if dfl:
        ref.dump(dfl, os.path.join(d, 'variables.yaml'))
    style = rng.random()

    def get(key):
        cfg = {'equation_directory': d}
        kw = {}
        for k, v in given(rng, flags).items():
            if style < 0.4:
                cfg[k] = v
            elif style < 0.8:
                kw[k] = v
            else:
                cfg[k] = v
                kw[k] = not v       # the config decides
        how = rng.random()
        if how < 0.5:
            cfg['z_out'] = key
        elif how < 0.75:
            cfg['al_grp'] = 'file'
            cfg['z_out'] = 'al_grp::' + key.split('::', 1)[1]
        else:
            cfg['z_out'] = '({} + 0) * 1'.format(key)
        try:
            obj = NrwalConfig(cfg, **kw)
        except KeyError:
            raise
        except Exception as e:
            # a key that does not exist in a config is left as a variable
            raise KeyError(str(e))
        eq = obj['z_out']
        if any('::' in v for v in eq.variables):
            raise KeyError(key)     # unresolved
        return eq
    # entries through arithmetic keep the same value but not identity
    check(ctx, rng, get, free, fams, flags, prefix='file::', budget=4,
          dfl=dfl)
    ctx.count('via config')


def variables(ctx, rng):
    """Values of variables files are looked up alike."""
    from NRWAL import EquationDirectory, NrwalConfig
    from NRWAL.handlers.groups import VariableGroup
    flags = flagset(rng)
    g, fams = {}, []
    for base in rng.sample(BASES, rng.randint(1, 3)):
        for kind in rng.choice([['power'], ['year'], ['power', 'year']]):
            n = rng.choice([1, 2, 2, 3, 4])
            vals = rng.sample(rng.choice([range(0, 40)] * 6 + [range(
        30, 300), range(50, 20000)]), n) if kind == 'power' else \
                rng.sample(range(1990, 2060), n)
            f = {}
            for v in vals:
                name = '{}_{}{}'.format(base, v, 'MW' if kind == 'power'
                                        else '')
                f[name] = (v, rng.choice([0, rng.randint(-9, 9), round(
                    rng.uniform(-50, 50), 2)]))
            if any(k in g for k in f):
                continue
            g.update({k: t for k, (v, t) in f.items()})
            fams.append(('', base, kind, f))
    d = ctx.tmpdir()
    ref.dump(g, os.path.join(d, 'variables.yaml'))
    ref.dump({'e': 'x * 2'}, os.path.join(d, 'grp.yaml'))
    how = rng.choice(['group', 'file', 'directory', 'arithmetic', 'config'])
    if how == 'group':
        obj = VariableGroup(dict(g), **given(rng, flags))
        get = lambda k: obj[k]
    elif how == 'file':
        obj = VariableGroup(os.path.join(d, 'variables.yaml'), **given(rng, flags))
        get = lambda k: obj[k]
    elif how == 'directory':
        obj = EquationDirectory(d, **given(rng, flags))
        get = lambda k: obj['variables::' + k]
    elif how == 'arithmetic':
        obj = EquationDirectory(d, **given(rng, flags))
        get = lambda k: obj['variables::{} + 0'.format(k)]
    else:
        def get(k):
            c = NrwalConfig({'z': 'variables::{} * x'.format(k),
                             'equation_directory': d}, **given(rng, flags))
            if c.required_inputs != ['x']:
                raise KeyError(c.required_inputs)
            return c.evaluate({'x': 1})['z']
    for _ in range(6):
        _, base, kind, f = rng.choice(fams)
        vs = [v for v, _ in f.values()]
        x = rng.choice([rng.choice(vs), rng.randint(min(vs), max(vs)),
                        max(0, min(vs) - rng.randint(1, 9)),
                        max(vs) + rng.randint(1, 9)])
        req = '{}_{}{}'.format(base, x, 'MW' if kind == 'power' else '')
        what = '{}: {} of {} with {}'.format(how, req, g, flags)

        def number(o):
            if hasattr(o, 'evaluate'):
                o = o.evaluate()
            return float(o)
        ctx.count('variable lookups')
        if req in f:
            ctx.check(np.isclose(number(get(req)), f[req][1]),
                      'defined name changed', lambda: what)
            continue
        want = expected(f, x, flags['interp_extrap_' + kind],
                        flags['use_nearest_' + kind])
        if want is None:
            ctx.raises(lambda: get(req), (KeyError,),
                       'lookup without being enabled', what)
            continue
        got = number(get(req))
        cands = []
        for w in want:
            if w[0] == 'one':
                cands.append(float(f[w[1]][1]))
            else:
                (_, n1, x1), (_, n3, x3) = w[1], w[2]
                y1, y3 = f[n1][1], f[n3][1]
                cands.append((y3 - y1) * (x - x1) / (x3 - x1) + y1)
        ctx.check(any(np.isclose(got, c, rtol=1e-9, atol=1e-9)
                      for c in cands), 'wrong lookup value', lambda:
                  '{}: got {!r}, acceptable {}'.format(what, got, cands))
        ctx.sig(req, str(g), how)


SCENARIOS = [('variables', variables, 2400, 24000),
             ('groups', groups, 5000, 60000),
             ('directories', directories, 2400, 30000),
             ('configs', configs, 1600, 24000)]
