"""C15: unsafe or malformed definitions are refused on every route."""
import os
import sys

import numpy as np

from nrwalv import gen, ref
from nrwalv.common import near

RULE = ('Texts with one of the forbidden fragments at a random place (bare, '
        'operand, inside parentheses or numpy calls, at the end of long or '
        'multi-line texts) go in by every route: Equation, replacement, text '
        'operand, group dict/file/nested/merged, directory and merged '
        'directory, config dict/file/pointer/library, retrieval key. Each must '
        'raise, and a sys.addaudithook monitor of compile/exec events must '
        'never see code naming the marker in the text. Near-miss texts must '
        'be accepted and evaluate. Malformed definitions and inputs must raise '
        'the documented type. Non-trivial: fragment inside a longer text, or '
        'a defect below the top level; distinct: by route and text.')
ASSUMPTIONS = ['fragments in names of files, directories, entries and '
               'variables that are only referred to are not claimed',
               'audit events of the CPython interpreter show all code that '
               'eval or exec run']
REQUIRE = {'refused texts': 4000, 'near misses': 600, 'malformed': 3000,
           'bad inputs': 600, 'code executions observed': 600,
           'marker code executed': 0}

MARK = 'canary_zq'
SEEN = []
EXEC = [0]
_HOOK = []

ATOMS = {
    'import ': ['import {m}', '{m} import y', 'import {m} ', 'x import  {m}',
                'from {m} import y'],
    'os.': ['os.{m}', 'os.path.{m}', '{m}os.y', 'pos.{m}', 'os.{m}(x)',
            '(os.{m})', 'x.os.{m}'],
    'sys.': ['sys.{m}', '{m}_sys.y', 'sys.{m}(2)', 'np.sys.{m}'],
    '.__': ['{m}.__class__', 'x.__{m}', '(x).__class__.{m}', 'np.__{m}',
            '{m}.__init__.x', 'np.abs.__self__({m})', '().__class__({m})'],
    '__.': ['__builtins__.{m}', '__.{m}', 'x__.{m}', '{m}__.y',
            'np.x__.{m}(2)'],
    'eval': ['eval({m})', 'eval_{m}', '{m}_eval', 'np.eval({m})',
             'x.eval({m})', 'evaluate({m})', 'eval ({m})', '{m}evaluate',
             '(eval)({m})', "pd.eval('{m}')", "eval('{m}')"],
    'exec': ['exec({m})', '{m}_exec', 'exec_{m}', 'np.exec({m})',
             'x.exec({m})', 'execute({m})', 'exec ({m})', "exec('{m}')"]}
SHAPES = ['{a}', '{a}', '{a} * 2', '2 + {a}', 'x - {a} / 3', '(x + {a})',
          '({a})', 'np.maximum({a}, 2)', 'np.abs(np.log({a}) + 1) * x',
          '3 * (x - (2 + {a}))', ' {a} ', 'x**({a})', '-{a}', '{pad}{a}',
          'x +\n {a}', '{a}\n + x', 'np.where(x > 1, {a}, 3)', 'x*{a}',
          '2-{a}', '{a}/x', '{a}^2', '({a}) ** 2', 'x * ({a} + np.exp(y))',
          '1e5 * {a}', '{a} + np.log(x)', 'np.minimum(x, y) - {a}',
          '{pad}({a})', '((({a})))', '{pad}np.abs({a})',
          'x * 2 # {a}', 'x  #{a}', 'x + 1\n# {a}', '# {a}\n x',
          'np.abs(x) + len("{a}")', 'x\t+\t{a}', '{a};x', 'x, {a}']
NEAR = ['importance', 'import_x', 'cos_x', 'osx', 'sysx', 'x_sys', 'ev_al',
        'exe_c', '__x', 'x__', 'exe', 'eva', 'os', 'sys', 'pos_os', 'reimports',
        'val', 'Eval', 'EXEC', '_os', 'xsys_', 'imports']


def hook(event, args):
    if event == 'exec':
        EXEC[0] += 1
        stack = [args[0]]
        while stack:
            c = stack.pop()
            if any(MARK in str(n) for n in c.co_names + c.co_varnames):
                SEEN.append(('exec', c.co_names))
            for k in c.co_consts:
                if hasattr(k, 'co_names'):
                    stack.append(k)
                elif isinstance(k, str) and MARK in k:
                    SEEN.append(('exec', k))


def watch(ctx):
    if not _HOOK:
        sys.addaudithook(hook)
        _HOOK.append(1)
    del SEEN[:]
    EXEC[0] = 0


def unseen(ctx, what):
    ctx.count('code executions observed', EXEC[0])
    EXEC[0] = 0
    if SEEN:
        ctx.count('marker code executed')
    ctx.check(not SEEN, 'forbidden text executed', lambda:
              '{}: {}'.format(what, SEEN[:3]))


def bad_text(rng):
    frag = rng.choice(sorted(ATOMS))
    a = rng.choice(ATOMS[frag]).format(m=MARK)
    pad = ''.join(rng.choice(['x + ', '2 * ', 'np.log(y) - '])
                  for _ in range(rng.choice([1, 3, 10, 25] * 8 + [400, 1200])))
    shape = rng.choice(SHAPES)
    t = shape.replace('{pad}', pad).replace('{a}', a)
    assert frag in t
    return frag, t


def lib_spec(rng, bad=None):
    """A small library; bad: (group path, key, value) to plant."""
    spec = {'vars': {'dv': 2.0}, 'files': {
        'turb': ('.yaml', {'eq1': 'x * 2', 'eq2': 3.5,
                           'sub': {'eq3': 'y - 20', 'deep': {'eq4': 'x'}}})},
            'dirs': {'osw': {'vars': {'k': 3}, 'files': {
                'tower': (rng.choice(['.json', '.yml']), {'mass': 'dv * x'})},
                'dirs': {'inner': {'vars': None, 'dirs': {}, 'files': {
                    'g': ('.yaml', {'a': 'k + 1'})}}}}}}
    return spec


def groups_of(spec):
    out = []

    def grp(g):
        out.append(g)
        for v in list(g.values()):
            if isinstance(v, dict):
                grp(v)
    for _, g in spec['files'].values():
        grp(g)
    for d in spec['dirs'].values():
        out.extend(groups_of(d))
    return out


def good_group(rng, key, value):
    """group dict with (key, value) at a random depth and place"""
    def level(d):
        items = [('eq1', 'x * 2'), ('num', 4), ('eq2', 'eq1 + y')]
        items = rng.sample(items, rng.randint(0, 3))
        if any(k == 'eq2' for k, _ in items) and \
                not any(k == 'eq1' for k, _ in items):
            items.append(('eq1', 'x * 2'))
        if d > 0:
            items.append((rng.choice(['sub', 'grp', 'set_1']), level(d - 1)))
            if rng.random() < 0.5:
                items.append(('other', {'z': 'x'}))
        else:
            items.append((key, value))
        rng.shuffle(items)
        return dict(items)
    return level(rng.choice([0, 0, 1, 1, 2]))


def entry_config(rng, key, value, path):
    items = [('c1', 'x * 2'), ('num', 4), ('c2', 'turb::eq1 + y'),
             ('al', 'turb'), ('c3', 'np.log(x) * (num + 1)')]
    items = rng.sample(items, rng.randint(0, 5))
    items.append((key, value))
    items.append(('equation_directory', path))
    rng.shuffle(items)
    return dict(items)


def texts(ctx, rng):
    from NRWAL import EquationDirectory, NrwalConfig
    from NRWAL.handlers.equations import Equation
    from NRWAL.handlers.groups import EquationGroup
    watch(ctx)
    frag, t = bad_text(rng)
    d = ctx.tmpdir()
    lib = os.path.join(d, 'lib')
    V = (ValueError,)
    R = (RuntimeError,)
    route = rng.choice(['equation', 'equation', 'replace', 'operand',
                        'operand', 'group', 'group', 'group file',
                        'group merge', 'directory', 'directory merge',
                        'config', 'config', 'config', 'config', 'config file',
                        'config pointer', 'config library', 'key'])
    if route == 'equation':
        fun = rng.choice([
            lambda: Equation(t), lambda: Equation(t, name='nm'),
            lambda: Equation(t, 'nm', {MARK: 2., 'x': 1., 'y': 3.})])
        types = V
    elif route == 'replace':
        e = rng.choice([Equation('x * 2', name='a'), Equation(3),
                        Equation('x') + 'y'])
        fun, types = (lambda: e.replace_equation(t)), V
    elif route == 'operand':
        e = rng.choice([Equation('x * 2', name='a'), Equation(3),
                        Equation('x') - 'y'])
        op = rng.choice(['+', '-', '*', '/', '**'])
        fun = {'+': lambda: e + t, '-': lambda: e - t, '*': lambda: e * t,
               '/': lambda: e / t, '**': lambda: e ** t}[op]
        types = V
    elif route.startswith('group'):
        g = good_group(rng, 'bad', t)
        if route == 'group file':
            fp = os.path.join(d, 'g' + rng.choice(['.yaml', '.yml', '.json']))
            ref.dump(g, fp)
            fun = (lambda: EquationGroup(fp)) if rng.random() < 0.6 else \
                (lambda: EquationGroup({'q': 'x'}) + fp)
        elif route == 'group merge':
            fun = lambda: EquationGroup({'q': 'x'}) + g
        else:
            fun = lambda: EquationGroup(g)
        types = V
    elif route in ('directory', 'directory merge', 'config library'):
        spec = lib_spec(rng)
        g = rng.choice(groups_of(spec))
        g['bad'] = t
        ref.write_dir(spec, lib)
        types = R
        if route == 'directory':
            fun = lambda: EquationDirectory(lib)
        elif route == 'directory merge':
            lib2 = os.path.join(d, 'lib2')
            ref.write_dir(lib_spec(rng), lib2)
            d2 = EquationDirectory(lib2)
            fun = lambda: d2 + lib
        else:
            fun = lambda: NrwalConfig(entry_config(rng, 'c0', 'x + 1', lib))
    elif route == 'key':
        ref.write_dir(lib_spec(rng), lib)
        o = EquationDirectory(lib)
        o = rng.choice([o, o['turb'], o['osw'], o['turb::sub']])
        k = rng.choice([t, t, 'eq1 + ' + t, '2 * ({})'.format(t),
                        t + ' - turb::eq1'])
        fun, types = (lambda: o[k]), (Exception,)
    else:
        ref.write_dir(lib_spec(rng), lib)
        types = (Exception,)
        if route == 'config pointer':
            ref.dump({'k0': 'x', 'k1': t}, os.path.join(d, 'other.yaml'))
            cfg = entry_config(rng, 'bad', './other.yaml::k1', lib)
        else:
            cfg = entry_config(rng, 'bad', t, lib)
        if route == 'config' or (rng.random() < 0.2
                                 and route != 'config pointer'):
            fun = lambda: NrwalConfig(cfg)
        else:
            fp = os.path.join(d, 'cfg' + rng.choice(['.yaml', '.json']))
            ref.dump(cfg, fp)
            fun = lambda: NrwalConfig(fp)
    ctx.raises(fun, types, 'forbidden text accepted', '{} of {!r}'.format(
        route, t))
    unseen(ctx, (route, t))
    ctx.count('refused texts')
    ctx.count('route ' + route)
    ctx.count('fragment ' + frag.strip())
    if len(t) > 20:
        ctx.sig(route, t)
    ctx.sample('texts', {'route': route, 'text': t})


def near_miss(ctx, rng):
    """Texts without a forbidden fragment are accepted and evaluated."""
    from NRWAL import NrwalConfig
    from NRWAL.handlers.equations import Equation
    from NRWAL.handlers.groups import EquationGroup
    watch(ctx)
    n = rng.choice(NEAR)
    form, fun = rng.choice([
        ('{n}*2', lambda v: v * 2), ('3-{n}', lambda v: 3 - v),
        ('({n}+1)*2', lambda v: (v + 1) * 2), ('np.cos({n})', np.cos),
        ('np.abs({n})+1', lambda v: abs(v) + 1), ('{n}', lambda v: v),
        ('2*np.tanh({n})', lambda v: 2 * np.tanh(v))])
    t = form.format(n=n)
    assert not any(f in t for f in ATOMS)
    v = gen.value(rng)
    d = ctx.tmpdir()
    lib = os.path.join(d, 'lib')
    ref.write_dir({'vars': None, 'dirs': {}, 'files': {
        'g': ('.yaml', {'q': t})}}, lib)
    e = Equation(t, name='q')
    g = EquationGroup({'q': t})
    c = NrwalConfig({'q': t, 'r': 'g::q', 'equation_directory': lib})
    want = fun(v)
    got = {'equation': e.evaluate(**{n: v}),
           'group': g['q'].evaluate(**{n: v}),
           'config': c.evaluate({n: v})['q'], 'library': c['r']}
    for k, x in got.items():
        ctx.check(near(x, want), 'harmless text misread', lambda:
                  '{} of {!r} with {}: {!r}'.format(k, t, v, x))
    unseen(ctx, t)
    ctx.count('near misses')
    ctx.sig(t, v)
    ctx.sample('near_miss', t)


NUMERIC = ['5', '1e5', '-3', '2.5', '.5', 7, 2.5, '0', '1E-3', '+4', '10.',
           '2020', -1, '007']
NOT_VALUE = [None, [1, 2], [], ['x'], (1, 2), [[1]], [{'a': 1}]]


def malformed(ctx, rng):
    from NRWAL import EquationDirectory, NrwalConfig
    from NRWAL.handlers.groups import EquationGroup, VariableGroup
    d = ctx.tmpdir()
    lib = os.path.join(d, 'lib')
    kind = rng.choice(['group name', 'group value', 'group type',
                       'variable name', 'variable value', 'file type',
                       'missing file', 'config name', 'config value',
                       'config value', 'config type', 'directory',
                       'directory', 'directory vars'])
    what = None

    def as_file(obj, stem='f'):
        fp = os.path.join(d, stem + rng.choice(['.yaml', '.yml', '.json']))
        if fp.endswith('json') or not isinstance(obj, tuple):
            ref.dump(obj, fp)
        else:
            ref.dump(list(obj), fp)
        return fp

    def filed(g):
        """as dict or file (json turns number names into text)"""
        return g if rng.random() < 0.5 else as_file(
            g if not has_tuple(g) else {'q': [1]})

    def has_tuple(x):
        if isinstance(x, dict):
            return any(has_tuple(v) for v in x.values())
        return isinstance(x, tuple)

    if kind == 'group name':
        key = rng.choice(NUMERIC)
        g = filed(good_group(rng, key, rng.choice(['x', 3, {'a': 'x'}])))
        fun, types, what = (lambda: EquationGroup(g)), (ValueError,), g
    elif kind == 'group value':
        g = filed(good_group(rng, 'bad', rng.choice(NOT_VALUE)))
        fun, types, what = (lambda: EquationGroup(g)), (TypeError,), g
    elif kind == 'group type':
        x = rng.choice([5, None, [1], ('a',), 2.5, ['x * 2']])
        cls = rng.choice([EquationGroup, VariableGroup])
        if rng.random() < 0.5:
            x = as_file(rng.choice([5, None, [1, 2], 'text', [], ['x * 2'],
                                    [{'a': 'x'}]]))
        fun, types, what = (lambda: cls(x)), (TypeError,), (cls, x)
    elif kind in ('variable name', 'variable value'):
        items = [('v1', 2.5), ('v2', 3), ('v3', -1e4)]
        items = rng.sample(items, rng.randint(0, 3))
        if kind == 'variable name':
            items.append((rng.choice(NUMERIC), rng.choice([1, 2.5])))
            types = (ValueError,)
        else:
            items.append(('bad', rng.choice(
                ['abc', '5', '2.5', 'x * 2', None, [1], {}, {'a': 1}, '',
                 [], 'v1'])))
            types = (TypeError,)
        rng.shuffle(items)
        g = filed(dict(items))
        fun, what = (lambda: VariableGroup(g)), g
    elif kind == 'file type':
        ext = rng.choice(['.txt', '.csv', '', '.toml', '.xml', '.yaml.bak',
                          '.json_', '.py', '.jsonl', 'yaml', 'json'])
        fp = os.path.join(d, 'file' + ext)
        with open(fp, 'w') as f:
            f.write(rng.choice(['{"a": 1}', 'a: 1\n', '']))
        cls = rng.choice([EquationGroup, VariableGroup, NrwalConfig])
        fun, types, what = (lambda: cls(fp)), (ValueError,), (cls, ext)
    elif kind == 'missing file':
        fp = os.path.join(d, rng.choice(['none', 'no/such', 'x']) +
                          rng.choice(['.yaml', '.json', '.yml', '.txt', '']))
        cls = rng.choice([EquationGroup, VariableGroup, NrwalConfig,
                          EquationDirectory])
        fun, types = (lambda: cls(fp)), (FileNotFoundError,)
        what = (cls, fp)
        if rng.random() < 0.2:
            g = EquationGroup({'a': 'x'})
            fun, what = (lambda: g + fp), ('merge', fp)
    elif kind in ('config name', 'config value'):
        ref.write_dir(lib_spec(rng), lib)
        if kind == 'config name':
            k, v = rng.choice(NUMERIC), rng.choice(['x * 2', 3, 'turb::eq1',
                                                    'np.log(x)'])
            types = (ValueError,)
        else:
            k = rng.choice(['bad', 'a', 'z'])
            v = rng.choice([[1, 2], [], {}, {'a': 1}, None, (1, 2),
                            ['x', 'y'], [1.5], {'a': 'x * 2'}, {1},
                            {'a': {'b': 2}}, [[1, 2], [3]], np.ones(2)])
            types = (TypeError,)
        cfg = entry_config(rng, k, v, lib)
        if not isinstance(v, (tuple, set, np.ndarray)) and rng.random() < 0.5:
            fp = as_file(cfg, 'cfg')
            fun, what = (lambda: NrwalConfig(fp)), cfg
        else:
            fun, what = (lambda: NrwalConfig(cfg)), cfg
    elif kind == 'config type':
        x = rng.choice([5, None, [1], ('a',), 2.5, {'a'}])
        if rng.random() < 0.5:
            x = as_file(rng.choice([5, None, [1, 2], 'text', [],
                                    [{'a': 'x'}], ['x']]))
        fun, types, what = (lambda: NrwalConfig(x)), (TypeError,), x
    else:
        spec = lib_spec(rng)
        types = (RuntimeError,)
        if kind == 'directory':
            g = rng.choice(groups_of(spec))
            if rng.random() < 0.5:
                g[rng.choice([x for x in NUMERIC])] = rng.choice(['x', 2])
            else:
                g['bad'] = rng.choice([None, [1, 2], [], ['x'], [[1]]])
        else:
            t = rng.choice([spec, spec['dirs']['osw'],
                            spec['dirs']['osw']['dirs']['inner']])
            t['vars'] = t['vars'] or {}
            t['vars_ext'] = rng.choice(['.yaml', '.json', '.yml'])
            if rng.random() < 0.5:
                t['vars']['bad'] = rng.choice(['abc', '5', None, [1], {}])
            else:
                t['vars'][rng.choice(NUMERIC)] = 3
        ref.write_dir(spec, lib)
        what = spec
        if rng.random() < 0.3:
            fun = lambda: NrwalConfig({'a': 'x', 'equation_directory': lib})
        else:
            fun = lambda: EquationDirectory(lib)
    ctx.raises(fun, types, 'malformed definition accepted or misreported',
               '{}: {!r}'.format(kind, what))
    ctx.count('malformed')
    ctx.count('malformed ' + kind)
    ctx.sig(kind, repr(what))
    ctx.sample('malformed', {'kind': kind, 'what': repr(what)})


class Thing:
    pass


BAD_DATA = ['abc', '5', None, {}, {'a': 1}, {1, 2}, Thing(), 'x * 2', b'3',
            np.str_('3'), Thing, len]
BAD_KEYS = [5, 2.5, ('a',), None, np.int64(3), True, b'x']


def inputs(ctx, rng):
    """Inputs that are no numeric data under string names."""
    import pandas as pd
    from NRWAL import NrwalConfig
    from NRWAL.handlers.equations import Equation
    d = ctx.tmpdir()
    lib = os.path.join(d, 'lib')
    ref.write_dir(lib_spec(rng), lib)
    good = {'x': rng.choice([2.5, 3, np.arange(1, 4.), np.float32(2)]),
            'y': rng.choice([1.5, 2, np.float64(4)])}
    A, T = (AssertionError,), (TypeError,)
    k = rng.random()
    if k < 0.3:
        e = rng.choice([Equation('x * 2 + y'), Equation('x', name='a'),
                        Equation('x', default_variables={'x': 2.}),
                        Equation(3)])
        bad = dict(good)
        bad[rng.choice(['x', 'y', 'unused'])] = rng.choice(BAD_DATA)
        what = ('equation', bad)
        fun = rng.choice([lambda: e.evaluate(**bad), lambda: e.eval(**bad)])
        types = A
    else:
        cfg = entry_config(rng, 'c0', 'x + y', lib)
        if k < 0.6:
            bad = dict(good)
            bad[rng.choice(['x', 'y', 'unused'])] = rng.choice(BAD_DATA)
            types = A
        elif k < 0.8:
            bad = dict(good)
            bad[rng.choice(BAD_KEYS)] = 3.
            if rng.random() < 0.3:
                bad = pd.DataFrame({'x': [1., 2.], rng.choice([3, 2.5]):
                                    [1., 2.]})
            types = A
        else:
            bad = rng.choice([5, 2.5, 'x', [1., 2.], ('x', 3),
                              [('x', 3)], np.ones(3), {'x'},
                              pd.Series([1., 2.]), Thing(), True])
            types = T
        items = bad
        if isinstance(bad, dict) and rng.random() < 0.7:
            items = list(bad.items())
            rng.shuffle(items)
            items = dict(items)
        how = rng.choice(['constructor', 'setter', 'evaluate', 'eval'])
        what = (how, items)
        if how == 'constructor':
            fun = lambda: NrwalConfig(cfg, inputs=items)
        else:
            c = NrwalConfig(cfg, inputs=rng.choice([None, good]))
            if how == 'setter':
                def fun():
                    c.inputs = items
                    return c.inputs
            elif how == 'evaluate':
                fun = lambda: c.evaluate(items)
            else:
                fun = lambda: c.eval(inputs=items)
    ctx.raises(fun, types, 'bad inputs accepted or misreported', repr(what))
    ctx.count('bad inputs')
    ctx.sig(repr(what))
    ctx.sample('inputs', what)


SCENARIOS = [('texts', texts, 24000, 240000),
             ('near_miss', near_miss, 4000, 40000),
             ('malformed', malformed, 16000, 160000),
             ('inputs', inputs, 6000, 60000)]
