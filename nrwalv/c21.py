"""C21: the views of groups, directories and configs agree."""
import copy

from nrwalv import gen, ref
from nrwalv.c01 import make_lib
from nrwalv.common import World, near
from nrwalv.core import Discard

RULE = ('Generated directories, groups and configs, fresh and after merging, '
        'setting defaults, lookups, evaluation and copying: keys, items and '
        'values are compared with each other, with retrieval by each name and '
        'with what was written to disk; membership is tested for present, '
        'absent, nested and perturbed names; all_equations is compared with a '
        'walk over the members. Non-trivial: an object with a nested member; '
        'distinct: by content.')
ASSUMPTIONS = ['names without operators (a name with an operator is '
               'arithmetic when retrieved)']
REQUIRE = {'objects': 5000, 'members': 20000, 'membership tests': 30000,
           'all_equations': 3000, 'nested equations': 5000,
           'views after changes': 500, 'config views': 1000,
           'variable groups': 500, 'get tests': 10000}


def kind(x):
    return type(x).__name__


def walk(x):
    """Equations below an object, through the items of every level."""
    out = []
    for _, v in x.items():
        if kind(v) == 'Equation':
            out.append(v)
        elif hasattr(v, 'items'):
            out += walk(v)
    return out


def spec_keys(node):
    """Names one level of the specification holds, or None."""
    if node is None:
        return None
    if node.kind == 'dir':
        out = list(node.data['files']) + list(node.data['dirs'])
        if node.data.get('vars') is not None:
            out.append('variables')
        return sorted(out)
    if node.kind in ('group', 'vars'):
        return sorted(node.data)
    return None


def views(ctx, rng, obj, node, what):
    """Judge one level and go down."""
    ks, its, vs = list(obj.keys()), list(obj.items()), list(obj.values())
    ctx.check(all(isinstance(k, str) for k in ks), 'name is no text',
              lambda: '{}: {}'.format(what, ks))
    ctx.check(len(set(ks)) == len(ks), 'name listed twice', lambda:
              '{}: {}'.format(what, ks))
    ctx.check(len(ks) == len(its) == len(vs)
              and [k for k, _ in its] == ks
              and all(a is b or a == b for a, (_, b) in zip(vs, its)),
              'views differ', lambda: '{}: {} {} {}'.format(what, ks, its, vs))
    want = spec_keys(node)
    if want is not None:
        ctx.check(sorted(ks) == want, 'wrong names', lambda: '{}: {} not {}'
                  .format(what, ks, want))
    for k, v in its:
        got = obj[k]
        ctx.check(got is v or not hasattr(v, '__dict__') and got == v,
                  'retrieval differs from items', lambda:
                  '{}: {}'.format(what, k))
        ctx.check(k in obj, 'member not contained', lambda: '{}: {}'.format(
            what, k))
        ctx.check(obj.get(k, 'absent') is got or obj.get(k, 'absent') == got,
                  'get differs from retrieval', lambda: '{}: {}'.format(
                      what, k))
        ctx.count('members')
        ctx.count('get tests')
        ctx.count('membership tests')
    # absent names
    absent = ['no_such', 'keys', 'values', '_group', '_eqns', '', 'items',
              'equation_directory', '1', 'variables', 'variables.yaml']
    if ks:
        k = rng.choice(ks)
        absent += [k + '_x', k[:-1], k.upper(), k.lower(), '::' + k, ' ' + k,
                   k + ' ', k + '.yaml', k + '::' + k, 'x' + k, k[1:],
                   k.swapcase()]
        for kk, v in its:
            if hasattr(v, 'keys'):
                absent += list(v.keys())[:2]
                absent += [kk + '::' + c for c in list(v.keys())[:2]]
    for a in absent:
        if a not in ks:
            ctx.check(a not in obj, 'absent name contained', lambda:
                      '{}: {!r} in {}'.format(what, a, ks))
            ctx.count('membership tests')
    mark = object()
    for a in ('no_such', 'no_such::eq', 'n0_such'):
        ctx.check(obj.get(a, mark) is mark, 'get ignores the default',
                  lambda: '{}: {}'.format(what, a))
        ctx.count('get tests')
    ctx.count('objects')
    if kind(obj) == 'VariableGroup':
        ctx.count('variable groups')
        ctx.check(dict(obj.var_dict) == dict(its)
                  and all(kind(v) == 'float' for v in vs),
                  'var_dict differs', lambda: '{}: {} {}'.format(
                      what, obj.var_dict, its))
    else:
        eqs = obj.all_equations
        mine = walk(obj)
        ctx.check(sorted(map(id, eqs)) == sorted(map(id, mine)),
                  'all_equations differs', lambda: '{}: {} not {}'.format(
                      what, eqs, mine))
        ctx.check(len(set(map(id, eqs))) == len(eqs), 'equation shared by two '
                  'members', lambda: '{}: {}'.format(what, eqs))
        ctx.count('all_equations')
        ctx.count('nested equations', len(mine) - sum(
            kind(v) == 'Equation' for v in vs))
        if node is not None:
            n = len(ref.eq_paths(node.data)) if node.kind == 'dir' else \
                len(ref.eq_paths({'files': {'f': ('', node.data)}}))
            ctx.check(len(eqs) == n, 'all_equations incomplete', lambda:
                      '{}: {} of {}'.format(what, len(eqs), n))
    for k, v in its:
        if hasattr(v, 'items'):
            views(ctx, rng, v, node.child(k) if node is not None else None,
                  what + '::' + k)


def directories(ctx, rng):
    from NRWAL import EquationDirectory
    free = gen.names(rng, 3)
    spec, node, path = make_lib(ctx, rng, free=free,
                                defaults=['dv', 'rate', 'q_dflt'])
    flags = {k: rng.random() < 0.5 for k in (
        'interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
        'use_nearest_year')}
    d = EquationDirectory(path, **flags)
    views(ctx, rng, d, node, 'dir')
    ctx.sig(repr(spec))
    ctx.sample('directories', spec)
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(5)
        if k == 0:
            d.set_default_variables({'dv': 3.5, 'zz': 1},
                                    force_update=rng.random() < 0.5)
        elif k == 1:
            p = rng.choice(ref.eq_paths(spec))
            for key in (p + '_3MW', p + '_2015', p + ' * 2',
                        '({0} + 1) / {0}'.format(p), 'no_such::x', '2.5'):
                try:
                    d[key]
                except KeyError:
                    pass
        elif k == 2:
            for e in d.all_equations:
                e.evaluate(**{v: 1.5 for v in e.variables}) \
                    if not _risky(e) else None
        elif k == 3:
            str(d), repr(d), d.head(3), d.tail(2)
        else:
            d = copy.deepcopy(d)
        views(ctx, rng, d, node, 'dir after change {}'.format(k))
        ctx.count('views after changes')


def _risky(e):
    try:
        e.evaluate(**{v: 1.5 for v in e.variables})
    except RuntimeError:
        return True
    return False


def merged(ctx, rng):
    from NRWAL import EquationDirectory, EquationGroup
    free = gen.names(rng, 3)
    specs = [make_lib(ctx, rng, free=free, defaults=['dv'])
             for _ in range(2)]
    (s1, n1, p1), (s2, n2, p2) = specs
    if rng.random() < 0.6:
        a, b = EquationDirectory(p1), EquationDirectory(p2)
        other = b if rng.random() < 0.5 else p2
        m = a + other
        want = sorted(set(a.keys()) | set(b.keys()))
        names = (a, b)
    else:
        g1 = gen.group(rng, free, [])
        g2 = gen.group(rng, free, [])
        a, b = EquationGroup(g1), EquationGroup(g2)
        m = a + (b if rng.random() < 0.5 else g2)
        want = sorted(set(g1) | set(g2))
        names = (a, b)
    ctx.check(sorted(m.keys()) == want, 'merged names', lambda: '{} not {}'
              .format(list(m.keys()), want))
    views(ctx, rng, m, None, 'merged')
    for o, n in zip(names, ('left', 'right')):
        views(ctx, rng, o, None, n)
    mine = {id(e) for e in m.all_equations}
    ctx.check(not mine & {id(e) for e in b.all_equations},
              'merged object shares equations with the right', lambda:
              '{}'.format(m))
    ctx.count('views after changes')
    ctx.sig(repr(s1), repr(s2))


def groups(ctx, rng):
    from NRWAL import EquationGroup, VariableGroup
    free = gen.names(rng, 3)
    g = gen.group(rng, free, ['dv'], depth=rng.choice([1, 2, 3]))
    if rng.random() < 0.1:
        g = {}
    obj = EquationGroup(copy.deepcopy(g), name=rng.choice([None, 'nm']))
    node = ref.Node('group', g, {})
    views(ctx, rng, obj, node, 'group')
    ctx.sig(repr(g))
    v = {k: rng.choice([rng.randint(0, 9), rng.uniform(-2, 9)])
         for k in gen.names(rng, rng.randint(1, 5))}
    vobj = VariableGroup(dict(v))
    views(ctx, rng, vobj, ref.Node('vars', v, {}), 'variables')
    ctx.check({k: float(x) for k, x in v.items()} == dict(vobj.items()),
              'wrong variable values', lambda: '{} {}'.format(v, vobj))


def configs(ctx, rng):
    """keys, items and values of a config list the entries as written,
    evaluated or not."""
    from NRWAL import Equation, NrwalConfig
    w = World(ctx, rng)
    extra = {}
    for f in ('interp_extrap_power', 'use_nearest_year'):
        if rng.random() < 0.3:
            extra[f] = rng.random() < 0.5
    conf = w.config(shuffle=True, **extra)
    cfg = NrwalConfig(conf)
    flags = {'equation_directory', 'interp_extrap_power', 'use_nearest_power',
             'interp_extrap_year', 'use_nearest_year'}
    want = [k for k in conf if k not in flags]
    for stage in ('fresh', 'evaluated', 'reset', 'again'):
        if stage in ('evaluated', 'again'):
            try:
                out = cfg.evaluate(dict(w.inputs))
            except RuntimeError:
                raise Discard('evaluation')
            ctx.check(set(out) <= set(want), 'output that is no entry',
                      lambda: '{} {}'.format(list(out), want))
        if stage == 'reset':
            cfg.reset_output()
        ks, its, vs = list(cfg.keys()), list(cfg.items()), list(cfg.values())
        ctx.check(ks == want, 'wrong names', lambda: '{} {}: {} not {}'.format(
            stage, conf, ks, want))
        ctx.check([k for k, _ in its] == ks and len(vs) == len(ks)
                  and all(a is b for a, (_, b) in zip(vs, its)),
                  'views differ', lambda: '{} {}: {} {}'.format(
                      stage, conf, its, vs))
        for k, v in its:
            ctx.check(kind(v) in ('Equation', 'EquationGroup', 'VariableGroup',
                                  'EquationDirectory'), 'odd member', lambda:
                      '{} {}: {!r}'.format(stage, k, v))
            got = cfg[k]
            if stage in ('fresh', 'reset'):
                ctx.check(got is v, 'retrieval differs from items', lambda:
                          '{} {} of {}'.format(stage, k, conf))
            elif k in cfg.outputs:
                ctx.check(got is cfg.outputs[k], 'retrieval differs from '
                          'outputs', lambda: '{} {} of {}'.format(stage, k,
                                                                  conf))
            g = cfg.get(k, None)
            ctx.check(g is got, 'get differs from retrieval', lambda:
                      '{} {} of {}'.format(stage, k, conf))
            ctx.count('get tests')
            ctx.count('members')
        for k in ('no_such', 'equation_directory', 'nothing::x'):
            if k not in want:
                ctx.check(cfg.get(k, 17) == 17, 'get ignores the default',
                          lambda: '{} {}'.format(k, conf))
                ctx.raises(lambda: cfg[k], KeyError, 'absent entry found', k)
        consts = {k: float(conf[k]) for k in want
                  if ref.is_num(conf[k])}
        gv = dict(cfg.global_variables)
        ctx.check(all(k in gv and near(gv[k], v, 1e-12)
                      for k, v in consts.items()), 'global_variables lack a '
                  'constant', lambda: '{}: {}'.format(conf, gv))
        ctx.check(set(gv) <= set(want), 'global variable that is no entry',
                  lambda: '{}: {}'.format(conf, gv))
        allv = set(gv)
        for v in vs:
            if isinstance(v, Equation):
                allv |= set(v.variables)
        ctx.check(list(cfg.all_variables) == sorted(allv),
                  'all_variables differs', lambda: '{}: {} not {}'.format(
                      conf, cfg.all_variables, sorted(allv)))
        ctx.count('config views')
    ctx.sig(repr(conf))


SCENARIOS = [('directories', directories, 960, 9600),
             ('merged', merged, 960, 9600), ('groups', groups, 3200, 32000),
             ('configs', configs, 1600, 16000)]
