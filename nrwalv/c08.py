"""C08: equations of a group may use each other by name."""
import os

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.core import Discard

RULE = ('Random groups (dict, yaml, json, nested, in directories) whose '
        'equations refer to each other in random acyclic graphs with names '
        'that contain each other, precedence-sensitive bodies, numpy calls and '
        'constants, in random order of definition; values and variables are '
        'compared with a recursive reference. Groups with planted cycles must '
        'raise ValueError. Non-trivial: a reference; distinct: by group.')
ASSUMPTIONS = []
REQUIRE = {'equations': 3000, 'references': 2000, 'chains of 3': 200,
           'cycles refused': 200, 'name contains name': 150,
           'same name in sub-group': 100, 'order variants': 300,
           'chains of more than 10': 50, 'long cycles refused': 50}

NAMES = ['mass', 'tower_mass', 'mass_tower', 'mas', 'm', 'mm', 'cost', 'cost_1',
         'cost_10', 'opcost', 'cost_', '_cost', 'a', 'ab', 'a1', 'a11', 'e', 'E',
         'x1e3', 'co2e', 'rna_3MW', 'rna_13MW', 'cap_2020', 'np_x', 'npv', 'log',
         'exp', 'sqrt', 'abs_x', 'clip_a', 'a_min', 'values', 'k', 'K', 'kk',
         'spar.cost', 'p']
NAMES = [n for n in NAMES if n.isidentifier()]


def build(rng, free, depth=1, outer=(), density=0.6, nmax=7):
    """group with an acyclic reference graph"""
    taken = set(free) | set(outer) | {'grpvar', 'set_1', 'sub', 'nested'}
    keys = gen.names(rng, rng.randint(2, nmax), avoid=taken, pool=NAMES)
    # equations whose names are part of the names of variables
    part = [n for n in NAMES if n not in taken and n not in keys
            and any(n in f for f in free)]
    if part and rng.random() < 0.7:
        keys = keys[:-1] + [rng.choice(part)]
        rng.shuffle(keys)
    if rng.random() < 0.3:
        # the same name may be an equation in an outer group as well
        keys += [o for o in outer[:1] if o not in keys]
    group = {}
    done = []
    for k in keys:
        r = rng.random()
        if r < 0.15:
            group[k] = rng.choice([rng.randint(1, 9), -rng.randint(1, 5), 2.5,
                                   '-3', '1e2', '-2.5e-1', '(4)', -0.5])
        else:
            leaves = list(free)
            # names of outer groups are plain variables here
            leaves += [o for o in outer if o not in keys]
            if done and rng.random() < density + 0.2:
                leaves = leaves + rng.sample(done, min(len(done), 3)) * 2
            g = gen.ExprGen(rng, leaves, caret=False, np_prob=0.12,
                            compare=True)
            t = g.gen(rng.randint(0, 1))
            if rng.random() < 0.1:
                t = rng.choice([
                    'np.clip({}, a_min={}, a_max={})',
                    'np.clip({}, a_min = {}, a_max = {})',
                    'np.clip({},a_min ={},a_max= {})',
                    'np.clip(a_max={2}, a_min={1}, a={0})',
                    'np.clip({}, a_min  =  {}, a_max\t= {})']).format(
                    rng.choice(leaves), 0.01, rng.choice(leaves))
            elif done and rng.random() < 0.06:
                # one name many times
                d = rng.choice(done)
                t = d + ''.join(rng.choice([' + {} * {}', ' - {} / {}',
                                            '+({}+{})']).format(
                    rng.choice([d, d, rng.choice(leaves)]), rng.randint(2, 9))
                    for _ in range(rng.randint(8, 25)))
            group[k] = t
        done.append(k)
    if depth and rng.random() < 0.5:
        for s in rng.sample(['set_1', 'sub', 'nested'], rng.randint(1, 2)):
            group[s] = build(rng, free, depth - 1, outer=keys[:3], nmax=4)
        if rng.random() < 0.3 and len(keys) > 1:
            # a sub-group named like a variable: stays a variable
            group['grpvar'] = {'qq_sub': free[0] + ' + 1'}
            k = rng.choice(keys)
            if isinstance(group[k], str):
                group[k] = '({}) + grpvar'.format(group[k])
    items = list(group.items())
    rng.shuffle(items)
    return dict(items)


def variables(rng, n):
    """free names, some made of the names of equations"""
    free = gen.names(rng, n, avoid=NAMES + ['grpvar', 'sub', 'set_1'])
    s = rng.choice(NAMES)
    more = [s + '_v', 'z' + s, s + '2', s + '_' + rng.choice(NAMES),
            rng.choice(NAMES) + '_' + s]
    return free + [m for m in rng.sample(more, 2) if m not in NAMES]


def refs_of(group, k):
    v = group[k]
    if isinstance(v, dict) or ref.is_num(v):
        return []
    return [n for n in ref.free_names(v)
            if n in group and not isinstance(group[n], dict)]


def height(group, k):
    return 1 + max([height(group, x) for x in refs_of(group, k)] or [0])


def walk(group, prefix=''):
    for k, v in group.items():
        if isinstance(v, dict):
            yield from walk(v, prefix + k + '::')
        else:
            yield prefix + k, group, k


def size(group, k, memo=None):
    """length of the expanded text"""
    return len(str(group[k])) + sum(size(group, x) * 3
                                    for x in refs_of(group, k))


def expand(ctx, rng):
    from NRWAL.handlers.groups import EquationGroup
    from NRWAL import EquationDirectory
    free = variables(rng, 2)
    group = build(rng, free)
    if max(size(g, k) for _, g, k in walk(group)) > 20000:
        raise Discard('size')
    how = rng.choice(['dict', 'yaml', 'json', 'yml', 'dir'])
    prefix = ''
    if how == 'dict':
        obj = EquationGroup(group, name=rng.choice([None, 'grp']))
    else:
        d = ctx.tmpdir()
        ext = '.' + (how if how != 'dir' else rng.choice(['yaml', 'json']))
        fp = os.path.join(d, 'file' + ext)
        ref.dump(group, fp)
        if how == 'dir':
            obj = EquationDirectory(d)
            prefix = 'file::'
        else:
            obj = EquationGroup(fp)
    top = ref.Node('group', group, {})
    oracle.set_precision(oracle.U64)
    nref = 0
    allvars = set()
    for path, g, k in walk(group):
        node = top.at(path)
        eq = obj[prefix + path]
        vs = node.variables()
        allvars |= set(vs)
        ctx.check(list(eq.variables) == vs, 'wrong variables', lambda:
                  '{}: got {} expected {} in {}'.format(path, eq.variables, vs,
                                                        group))
        ctx.count('equations')
        rs = refs_of(g, k)
        nref += len(rs)
        ctx.count('references', len(rs))
        if height(g, k) >= 3:
            ctx.count('chains of 3')
        if rs and any(a != b and a in b for a in rs for b in
                      ref.free_names(g[k])):
            ctx.count('name contains name')
        if set(vs) & set(NAMES):
            ctx.count('same name in sub-group')
    vals = {n: gen.value(rng) for n in allvars}
    for path, g, k in walk(group):
        node = top.at(path)
        eq = obj[prefix + path]
        try:
            r = oracle.usable(node.value(lambda n, s: oracle.EV(vals[n])))
        except Discard:
            ctx.count('ill conditioned')
            continue
        sup = {n: vals[n] for n in node.variables()}
        try:
            got = eq.evaluate(**sup)
        except Exception as e:
            ctx.fail('does not evaluate', '{} in {} with {}: {!r}'.format(
                path, group, sup, e))
        oracle.compare(ctx, got, [r], 'wrong value', lambda:
                       '{} in {} with {}'.format(path, group, sup))
        ctx.count('values')
    if nref:
        ctx.sig(str(group))
        ctx.sample('expand', {'group': group, 'route': how})


def order(ctx, rng):
    """The same group in several orders of definition."""
    from NRWAL.handlers.groups import EquationGroup
    free = variables(rng, 1)
    group = build(rng, free, depth=0, nmax=5)
    if max(size(g, k) for _, g, k in walk(group)) > 20000:
        raise Discard('size')
    top = ref.Node('group', group, {})
    oracle.set_precision(oracle.U64)
    vals = {n: gen.value(rng) for n in free}
    refs = {}
    for k in group:
        try:
            refs[k] = oracle.usable(top.at(k).value(
                lambda n, s: oracle.EV(vals[n])))
        except Discard:
            pass
    if not refs:
        raise Discard('ill conditioned')
    for _ in range(4):
        items = list(group.items())
        rng.shuffle(items)
        obj = EquationGroup(dict(items))
        ctx.check(list(obj.keys()) == [k for k, _ in items],
                  'members differ', lambda: '{}'.format(list(obj.keys())))
        for k, r in refs.items():
            vs = top.at(k).variables()
            ctx.check(list(obj[k].variables) == vs, 'wrong variables',
                      lambda: '{} in {}: {}'.format(k, items,
                                                    obj[k].variables))
            got = obj[k].evaluate(**{n: vals[n] for n in vs})
            oracle.compare(ctx, got, [r], 'wrong value',
                           lambda: '{} in {} with {}'.format(k, items, vals))
        ctx.count('order variants')
    ctx.sig(str(sorted(map(str, group.items()))))


def chains(ctx, rng):
    """Long chains of references, in every order of definition."""
    from NRWAL.handlers.groups import EquationGroup
    n = rng.choice([5, 8, 12, 16, 20, 30, 45])
    free = ['x_in', 'y_in']
    stem = rng.choice(['s', 'cost', 'step_', 'q'])
    keys = [stem + str(i) for i in range(n)]
    group = {keys[0]: rng.choice(['x_in', 'x_in + y_in', '2'])}
    for i in range(1, n):
        b = keys[i - 1]
        group[keys[i]] = rng.choice([
            '{b} + 1', '{b} - y_in / {n}', '{b} - 0.5', '0.9 * {b}',
            'np.abs({b})', '3 - {b}', '-{b}', '({b} + x_in) / 2',
            'np.maximum({b}, y_in) - 1', '{b}']).format(b=b, n=i + 1)
        if i > 3 and n <= 20 and rng.random() < 0.1:
            group[keys[i]] += ' + 0.1 * ' + keys[rng.randrange(i - 2)]
    top = ref.Node('group', group, {})
    oracle.set_precision(oracle.U64)
    vals = {v: gen.value(rng) for v in free}
    refs = {}
    for k in keys:
        try:
            refs[k] = oracle.usable(top.at(k).value(
                lambda n, s: oracle.EV(vals[n])))
        except Discard:
            refs[k] = None
    items = list(group.items())
    orders = [items, items[::-1], rng.sample(items, n)]
    for it in orders:
        obj = EquationGroup(dict(it))
        for k in keys:
            vs = top.at(k).variables()
            ctx.check(list(obj[k].variables) == vs, 'wrong variables', lambda:
                      '{}: got {} expected {} in {}'.format(
                          k, obj[k].variables, vs, it))
            if refs[k] is None:
                continue
            try:
                got = obj[k].evaluate(**{v: vals[v] for v in vs})
            except Exception as e:
                ctx.fail('does not evaluate', '{} in {}: {!r}'.format(k, it,
                                                                      e))
            oracle.compare(ctx, got, [refs[k]], 'wrong value', lambda:
                           '{} in {} with {}'.format(k, it, vals))
    if n > 10:
        ctx.count('chains of more than 10')
    ctx.sig(str(items))
    # a cycle that only closes after a long way
    if rng.random() < 0.5:
        bad = dict(group)
        bad[keys[0]] = keys[-1] + ' + 1'
        it = rng.sample(list(bad.items()), n)
        ctx.raises(lambda: EquationGroup(dict(it)), (ValueError,),
                   'cycle not refused', str(it))
        ctx.count('long cycles refused')


def cycle(ctx, rng):
    from NRWAL.handlers.groups import EquationGroup
    from NRWAL import EquationDirectory
    free = variables(rng, 1)
    group = build(rng, free, depth=0, nmax=6, density=0.2)
    keys = list(group)
    n = rng.randint(1, min(4, len(keys)))
    cyc = rng.sample(keys, n)
    for i, k in enumerate(cyc):
        nxt = cyc[(i + 1) % n]
        group[k] = rng.choice([
            '{n}', '{n} * 2', '{f} - {n}', 'np.exp({n})', '({f} + {n}) / 3',
            '(({n}))', '{f}+{n}', 'np.maximum({f}, {n} - 1)', '-{n}',
            '2 ** {n}']).format(n=nxt, f=rng.choice(free))
    # no accidental escape: the graph must really have that cycle
    for i, k in enumerate(cyc):
        assert cyc[(i + 1) % n] in refs_of(group, k)
    wrong = (ValueError,)
    k = rng.random()
    if k < 0.25:
        group = {'sub': group, 'fine': free[0] + ' + 1'}
    how = rng.choice(['dict', 'yaml', 'json', 'dir'])
    if how == 'dict':
        def go():
            return EquationGroup(group)
    else:
        d = ctx.tmpdir()
        fp = os.path.join(d, 'file.' + ('yaml' if how == 'dir' else how))
        ref.dump(group, fp)

        def go():
            return EquationGroup(fp) if how != 'dir' else EquationDirectory(d)
        if how == 'dir':
            wrong = (RuntimeError,)
    ctx.raises(go, wrong, 'cycle not refused', str(group))
    ctx.count('cycles refused')
    ctx.sig('cycle', str(group))
    ctx.sample('cycle', group)


SCENARIOS = [('expand', expand, 24000, 240000), ('order', order, 4800, 48000),
             ('chains', chains, 480, 4800),
             ('cycle', cycle, 6000, 60000)]
