"""C20: printed forms state exactly what an object holds."""
import copy
import os

import numpy as np

from nrwalv import c07, c10, c12, gen, ref
from nrwalv.common import World
from nrwalv.core import Discard

RULE = ('Random equations (numbers, names, compound texts, unnamed or named, '
        'any defaults), trees of combinations, groups with nesting, variable '
        'groups, directory trees, merged and looked-up objects and configs, '
        'printed before, between and after default changes, evaluations, '
        'combinations, failing calls and copies; each text is compared with a '
        'rendering made from the definitions, and head(n) and tail(n) for n '
        'from 0 to beyond the number of lines with the lines of the text. '
        'Non-trivial: at least one variable or member; distinct: by text.')
ASSUMPTIONS = ['the first line of a group, directory or config is a heading '
               'whose wording is free', 'the grouping of a + b + c in '
               'retrieval keys is not specified: keys have one operator or '
               'are fully parenthesised']
REQUIRE = {'equations': 5000, 'numbers': 500, 'unnamed': 500,
           'with defaults': 1000, 'combined': 1000, 'nested combined': 300,
           'changes': 1000, 'groups': 500, 'nested groups': 200,
           'directories': 200, 'nested directories': 100,
           'variable groups': 100, 'configs': 200, 'heads and tails': 5000,
           'zero lines': 200, 'more than all lines': 200,
           'retrieved arithmetic': 200, 'merged': 100}


EQ_NAMES = ['tower_1', 'cost_7MW', 'e_x']


def render(name, variables, defaults):
    parts = [v for v in sorted(variables) if v not in defaults]
    parts += ['{}={}'.format(v, defaults[v]) for v in sorted(variables)
              if v in defaults]
    return '{}({})'.format('Equation' if name is None else name,
                           ', '.join(parts))


def same_text(ctx, obj, want, kind, what):
    """str and repr, twice."""
    for f in (str, repr, str):
        got = f(obj)
        ctx.check(got == want, kind, lambda: '{!r} instead of {!r} for {}'
                  .format(got, want, what() if callable(what) else what))
    return want


def same_number(ctx, obj, text, what):
    for f in (str, repr, str):
        got = f(obj)
        try:
            ok = float(got) == float(text)
        except ValueError:
            ok = False
        ctx.check(ok, 'wrong number printed', lambda: '{!r} for {!r} {}'
                  .format(got, text, what))
    return str(obj)


def lines_of(ctx, rng, obj, what):
    """head and tail agree with the text."""
    text = str(obj)
    lines = text.split('\n')
    n = len(lines)
    todo = {0, 1, 2, n - 1, n, n + 1, n + 7} | {
        rng.randint(0, n + 2) for _ in range(3)}
    for k in sorted(x for x in todo if x >= 0):
        h, t = obj.head(k), obj.tail(k)
        wh = '\n'.join(lines[:k])
        wt = '\n'.join(lines[max(0, n - k):])
        ctx.check(h == wh, 'wrong head', lambda: 'head({}) is {!r} not {!r} '
                  'of {}'.format(k, h, wh, what))
        ctx.check(t == wt, 'wrong tail', lambda: 'tail({}) is {!r} not {!r} '
                  'of {}'.format(k, t, wt, what))
        ctx.check(obj.head(n=k) == wh and obj.tail(n=k) == wt, 'wrong head',
                  'keyword')
        ctx.count('heads and tails', 2)
        if k == 0:
            ctx.count('zero lines')
        if k > n:
            ctx.count('more than all lines')
    ctx.check(obj.head() == '\n'.join(lines[:5]), 'wrong head', 'default n')
    ctx.check(obj.tail() == '\n'.join(lines[-5:]), 'wrong tail', 'default n')
    ctx.check(str(obj) == text, 'printing changed the text', what)


# -- equations -------------------------------------------------------------
class Leaf:
    def __init__(self, ctx, rng, names):
        from NRWAL.handlers.equations import Equation
        self.name = rng.choice([None, None, None] + EQ_NAMES)
        k = rng.random()
        if k < 0.25:
            self.text = rng.choice([
                gen.number(rng, signed=True), rng.randint(-9, 999),
                round(rng.uniform(-9, 9), 3), np.float64(2.5), np.int64(4)])
        else:
            g = gen.ExprGen(rng, names, caret=False, np_prob=0.15,
                            compare=True)
            self.text = g.gen(rng.randint(0, 2))
        self.dfl = {}
        if rng.random() < 0.5:
            self.dfl = defaults(rng, names)
        self.eq = Equation(self.text, name=self.name,
                           default_variables=copy.deepcopy(self.dfl) or None)

    def check(self, ctx):
        if ref.is_num(self.text):
            ctx.count('numbers')
            ctx.count('equations')
            return same_number(ctx, self.eq, self.text, '')
        vs = ref.free_names(self.text)
        ctx.count('equations')
        if self.name is None:
            ctx.count('unnamed')
        if any(v in self.dfl for v in vs):
            ctx.count('with defaults')
        return same_text(ctx, self.eq, render(self.name, vs, self.dfl),
                         'wrong equation text', lambda: '{} defaults {}'
                         .format(self.text, self.dfl))


def defaults(rng, names):
    return {n: rng.choice([rng.randint(0, 99), round(rng.uniform(0, 9), 3),
                           rng.randint(1, 9) * 1e6, -0.5, rng.uniform(0, 9),
                           rng.uniform(1, 9) * 10. ** rng.randint(-9, 12)])
            for n in rng.sample(names, rng.randint(1, len(names)))}


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '**': lambda a, b: a ** b}


def equations(ctx, rng):
    from NRWAL.handlers.equations import Equation
    names = gen.names(rng, rng.randint(2, 5), avoid=EQ_NAMES)
    # (object, expected text) of what is combined, leaves for changes
    leaves = [Leaf(ctx, rng, names) for _ in range(rng.randint(2, 4))]
    pool = []
    log = []
    for step in range(rng.randint(5, 14)):
        k = rng.random()
        if k < 0.35:
            lf = rng.choice(leaves)
            v = defaults(rng, names)
            given = copy.deepcopy(v)
            lf.eq.set_default_variables(v)
            lf.dfl.update(given)
            ctx.count('changes')
            log.append('set {}'.format(v))
        elif k < 0.75:
            def operand():
                if pool and rng.random() < 0.5:
                    return rng.choice(pool)
                lf = rng.choice(leaves)
                return lf.eq, lf.check(ctx)
            a, ta = operand()
            j = rng.random()
            if j < 0.6:
                b, tb = operand()
            elif j < 0.8:
                b = rng.choice([2, -1, 0.5, 1.5e6, np.float32(1.5)])
                tb = str(Equation(b))
                ctx.check(float(tb) == float(b), 'wrong number printed',
                          lambda: '{} for {}'.format(tb, b))
            else:
                b = gen.ExprGen(rng, names, caret=False).gen(1)
                tb = str(b) if ref.is_num(b) else render(
                    None, ref.free_names(b), {})
                if ref.is_num(b):
                    tb = same_number(ctx, Equation(b), b, '')
            op = rng.choice(sorted(OPS))
            c = OPS[op](a, b)
            t = '({} {} {})'.format(ta, op, tb)
            pool.append((c, t))
            ctx.count('combined')
            if t.count('(') > 3:
                ctx.count('nested combined')
            log.append(t)
        elif k < 0.85:
            lf = rng.choice(leaves)
            try:
                lf.eq.evaluate(**{n: gen.value(rng) for n in names})
                lf.eq.evaluate()
            except Exception:
                pass
            log.append('evaluate')
        else:
            lf = rng.choice(leaves)
            c = copy.deepcopy(lf.eq)
            lf2 = copy.copy(lf)
            lf2.eq, lf2.dfl = c, copy.deepcopy(lf.dfl)
            leaves.append(lf2)
            log.append('copy')
        if rng.random() < 0.7:
            for lf in leaves:
                lf.check(ctx)
            for c, t in pool:
                same_text(ctx, c, t, 'wrong combined text', lambda: str(log))
                ctx.count('equations')
    for lf in leaves:
        lf.check(ctx)
    for c, t in pool:
        same_text(ctx, c, t, 'wrong combined text', lambda: str(log))
    ctx.sig(str(log), [str(lf.text) for lf in leaves])
    ctx.sample('equations', log)


# -- groups and directories ------------------------------------------------
def check_lines(ctx, obj, want, what):
    got = str(obj).split('\n')[1:]
    ctx.check(str(obj) == repr(obj) == str(obj), 'str and repr differ', what)
    ctx.check(len(got) == len(want), 'wrong number of lines', lambda:
              'got {} expected {} for {}'.format(got, want, what()))
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            ind, v = w
            try:
                ok = g.startswith(ind) and not g[len(ind):].startswith('\t') \
                    and float(g[len(ind):]) == float(v)
            except ValueError:
                ok = False
        else:
            ok = g == w
        ctx.check(ok, 'wrong line', lambda: '{!r} instead of {!r} in {} of {}'
                  .format(g, w, got, what()))


def shift(lines, ind='\t'):
    return [(ind + x[0], x[1]) if isinstance(x, tuple) else ind + x
            for x in lines]


def glines(ctx, data, scope):
    out = []
    for k, v in data.items():
        if isinstance(v, dict):
            ctx.count('nested groups')
            out.append(k)
            out += shift(glines(ctx, v, scope))
        elif ref.is_num(v):
            out.append(('', v))
        else:
            node = ref.Node('eq', v, scope, group=data, name=k)
            out.append(render(k, node.variables(), scope))
    return out


def lone(data):
    """An equation that is nothing but another equation of the group."""
    for k, v in data.items():
        if isinstance(v, dict):
            if lone(v):
                return True
        elif not ref.is_num(v) and str(v).strip(' ()') in data:
            return True
    return False


def dlines(ctx, spec, scope, top=True):
    scope = dict(scope, **ref.floats(spec.get('vars')))
    out = []
    if spec.get('vars') is not None:
        ctx.count('variable groups')
        out.append('variables' + spec.get('vars_ext', '.yaml'))
        out += ['\t{}: {}'.format(k, float(v))
                for k, v in spec['vars'].items()]
    for stem in sorted(spec.get('files', {}),
                       key=lambda s: s + spec['files'][s][0]):
        ext, data = spec['files'][stem]
        ctx.count('groups')
        out.append(stem + ext)
        out += shift(glines(ctx, data, scope))
    for n in sorted(spec.get('dirs', {})):
        if c07.nonempty(spec['dirs'][n]):
            ctx.count('nested directories')
            out.append(n)
            out += shift(dlines(ctx, spec['dirs'][n], scope, False))
    return out


def groups(ctx, rng):
    from NRWAL import EquationGroup
    free = gen.names(rng, 4)
    data = gen.group(rng, free[:2], free[2:], depth=2)
    if lone(data):
        raise Discard('alias of an equation')
    fp = None
    if rng.random() < 0.5:
        obj = EquationGroup(copy.deepcopy(data), name=rng.choice(
            [None, 'a_name']))
    else:
        fp = os.path.join(ctx.tmpdir(), 'g1' + rng.choice(
            ['.yaml', '.yml', '.json']))
        ref.dump(data, fp)
        obj = EquationGroup(fp)
    scope = {}

    def what():
        return '{} defaults {}'.format(data, scope)
    check_lines(ctx, obj, glines(ctx, data, scope), what)
    for _ in range(rng.randint(0, 3)):
        v = {n: round(rng.uniform(0, 99), 2) for n in rng.sample(free, 2)}
        obj.set_default_variables(dict(v))
        scope.update(v)
        ctx.count('changes')
        if rng.random() < 0.7:
            check_lines(ctx, obj, glines(ctx, data, scope), what)
            lines_of(ctx, rng, obj, data)
    # a member printed on its own is the line of the group
    paths = ref.eq_paths({'files': {'f': ('.yaml', data)}})
    for p in paths:
        p = p[3:]
        eq = obj[p]
        if rng.random() < 0.3:
            try:
                eq.evaluate(**{n: gen.value(rng) for n in free})
            except Exception:
                pass
        grp = data
        for s in p.split('::')[:-1]:
            grp = grp[s]
        k = p.split('::')[-1]
        if ref.is_num(grp[k]):
            same_number(ctx, eq, grp[k], p)
        else:
            node = ref.Node('eq', grp[k], scope, group=grp, name=k)
            same_text(ctx, eq, render(k, node.variables(), scope),
                      'wrong equation text', lambda: p + ' of ' + what())
        ctx.count('equations')
    # arithmetic by key prints its operands
    for _ in range(2):
        a, b = [p[3:] for p in (rng.choice(paths), rng.choice(paths))]
        op = rng.choice(['+', '-', '*', '/', '**'])
        eq = obj['{} {} {}'.format(a, op, b)]
        same_text(ctx, eq, '({} {} {})'.format(obj[a], op, obj[b]),
                  'wrong combined text', lambda: '{} {} {} of {}'.format(
                      a, op, b, what()))
        c = rng.choice(paths)[3:]
        eq = obj['({} {} {}) * {}'.format(a, op, b, c)]
        same_text(ctx, eq, '(({} {} {}) * {})'.format(
            obj[a], op, obj[b], obj[c]), 'wrong combined text', lambda:
            '({} {} {}) * {} of {}'.format(a, op, b, c, what()))
        ctx.count('retrieved arithmetic', 2)
    check_lines(ctx, obj, glines(ctx, data, scope), what)
    if rng.random() < 0.5:
        other = gen.group(rng, free[:2], free[2:], depth=1)
        if not lone(other):
            out = obj + other
            d2 = dict(data)
            d2.update(other)
            lines = []
            for k in out.keys():
                mine = other if k in other else data
                sc = {} if k in other else scope
                if isinstance(mine[k], dict):
                    lines.append(k)
                    lines += shift(glines(ctx, mine[k], sc))
                elif ref.is_num(mine[k]):
                    lines.append(('', mine[k]))
                else:
                    node = ref.Node('eq', mine[k], sc, group=mine, name=k)
                    lines.append(render(k, node.variables(), sc))
            check_lines(ctx, out, lines, lambda: '{} + {}'.format(
                what(), other))
            check_lines(ctx, obj, glines(ctx, data, scope), what)
            ctx.count('merged')
    lines_of(ctx, rng, obj, data)
    ctx.count('groups')
    ctx.sig(str(data), str(scope))
    ctx.sample('groups', str(obj))


def directories(ctx, rng):
    from NRWAL import EquationDirectory
    if rng.random() < 0.5:
        spec = c07.tree(rng, rng.randint(0, 2))
    else:
        nms = gen.names(rng, 4)
        spec = gen.library(rng, nms[:2], nms[2:], depth=rng.randint(0, 2))
        if any(lone(g) for g in c07_groups(spec)):
            raise Discard('alias of an equation')
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    obj = EquationDirectory(path)
    want = dlines(ctx, spec, {})

    def what():
        return str(spec)
    check_lines(ctx, obj, want, what)
    lines_of(ctx, rng, obj, spec)
    paths = ref.eq_paths(spec)
    for p in rng.sample(paths, min(4, len(paths))):
        try:
            obj[p].evaluate(**{v: gen.value(rng) for v in obj[p].variables})
            obj[p + ' * 2'], str(obj[p + ' * 2'])
            obj[p].evaluate()
        except Exception:
            pass
    check_lines(ctx, obj, want, what)
    # sub objects print the lines they have in the whole
    for n, sub in spec['dirs'].items():
        if c07.nonempty(sub):
            scope = ref.floats(spec.get('vars'))
            check_lines(ctx, obj[n], dlines(ctx, sub, scope), what)
            lines_of(ctx, rng, obj[n], sub)
    for stem, (ext, data) in spec['files'].items():
        check_lines(ctx, obj[stem], glines(ctx, data, ref.floats(
            spec.get('vars'))), what)
    if spec.get('vars') is not None:
        v = obj['variables']
        check_lines(ctx, v, ['{}: {}'.format(k, float(x))
                             for k, x in spec['vars'].items()], what)
        lines_of(ctx, rng, v, spec['vars'])
    # a default nobody defines shows up everywhere it is used
    if rng.random() < 0.6:
        x = rng.choice(sorted({v for p in paths for v in
                               ref.root(spec).at(p).variables()}) or ['x'])
        if x not in all_vars(spec):
            obj.set_default_variables({x: 12.5})
            ctx.count('changes')
            check_lines(ctx, obj, dlines(ctx, spec, {x: 12.5}), lambda:
                        'after {}=12.5 {}'.format(x, what()))
    ctx.count('directories')
    ctx.sig(str(spec))
    ctx.sample('directories', str(obj))


def all_vars(spec):
    out = set(spec.get('vars') or {})
    for d in spec['dirs'].values():
        out |= all_vars(d)
    return out


def c07_groups(spec):
    out = [g for _, g in spec['files'].values()]
    for d in spec['dirs'].values():
        out += c07_groups(d)
    return out


# -- configs ---------------------------------------------------------------
def configs(ctx, rng):
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n=rng.randint(2, 8))
    cfg = w.config(shuffle=True)
    obj = NrwalConfig(cfg)
    order = [k for k in cfg if k != 'equation_directory']
    eqs = dict(obj.items())
    ctx.check(list(eqs) == order, 'wrong order of entries', lambda:
              '{} for {}'.format(list(eqs), cfg))
    names = {v for e in eqs.values() if hasattr(e, 'variables')
             for v in e.variables}

    def text():
        lines = []
        for k, e in obj.items():
            lines.append(k)
            if type(e).__name__ == 'Equation':
                if ref.is_num(w.entries[k]):
                    lines.append('\t' + same_number(ctx, e, w.entries[k], k))
                elif e.variables:
                    ctx.count('equations')
                    lines.append('\t' + same_text(
                        ctx, e, render(k, e.variables, e.default_variables),
                        'wrong equation text', lambda: '{} of {}'.format(
                            k, cfg)))
                else:
                    lines.append('\t' + str(e))
            else:
                lines += ['\t' + x for x in str(e).split('\n')]
        return lines
    want = text()
    check_lines(ctx, obj, want, lambda: str(cfg))
    lines_of(ctx, rng, obj, cfg)
    for _ in range(rng.randint(1, 3)):
        j = rng.random()
        try:
            if j < 0.4:
                obj.evaluate(w.inputs)
            elif j < 0.6:
                obj.inputs = {n: 2.5 for n in w.input_names}
            elif j < 0.8:
                obj.reset_output()
            else:
                obj = copy.deepcopy(obj)
        except RuntimeError:
            pass
        ctx.count('changes')
        check_lines(ctx, obj, want, lambda: 'after use {}'.format(cfg))
    if rng.random() < 0.5:
        e = rng.choice([e for e in dict(obj.items()).values()])
        if hasattr(e, 'set_default_variables') and names:
            e.set_default_variables({sorted(names)[0]: 88.5})
            check_lines(ctx, obj, text(), lambda: 'after a default {}'.format(
                cfg))
            ctx.count('changes')
    lines_of(ctx, rng, obj, cfg)
    ctx.count('configs')
    ctx.sig(str(cfg))
    ctx.sample('configs', str(obj))


def looked_up(ctx, rng):
    """Lookups print their members; printing changes nothing."""
    from NRWAL import EquationGroup
    free, data, fams = c10.make(rng, depth=1)
    flags = {'use_nearest_power': True, 'use_nearest_year': True}
    obj = EquationGroup(data, **flags)
    before = c12.finger(obj)
    for path, base, kind, f in fams:
        v = rng.choice([v for v, _ in f.values()])
        x = v + rng.choice([0, 1, 2])
        if kind == 'year' and not 1800 <= x <= 2200:
            continue
        req = ('{}_{}MW' if kind == 'power' else '{}_{}').format(base, x)
        eq = obj[path + req]
        if req in f:
            near = [req]
        else:
            best = min(abs(x - vv) for vv, _ in f.values())
            near = [n for n, (vv, _) in f.items() if abs(x - vv) == best]
        ok = []
        for n in near:
            t = f[n][1]
            ok.append(str(t) if ref.is_num(t) else
                      render(n, ref.free_names(t), {}))
        got = str(eq)
        ctx.check(got in ok or any(ref.is_num(o) and ref.is_num(got) and
                                   float(o) == float(got) for o in ok),
                  'wrong equation text', lambda: '{!r} not in {} for {} of {}'
                  .format(got, ok, req, f))
        ctx.count('equations')
    ctx.check(c12.finger(obj) == before, 'printing changed the group',
              lambda: str(data))
    inter = EquationGroup(data, interp_extrap_power=True,
                          interp_extrap_year=True)
    for path, base, kind, f in fams:
        v = rng.choice([v for v, _ in f.values()])
        req = ('{}_{}MW' if kind == 'power' else '{}_{}').format(base, v + 1)
        try:
            eq = inter[path + req]
        except KeyError:
            continue
        ctx.check(str(eq) == repr(eq) == str(eq) == str(inter[path + req]),
                  'printing changed the text', lambda: req)
    ctx.sig(str(data))


SCENARIOS = [('equations', equations, 2400, 30000),
             ('groups', groups, 2400, 24000),
             ('directories', directories, 1600, 16000),
             ('configs', configs, 1200, 16000),
             ('looked_up', looked_up, 800, 8000)]
