"""C09: retrieval by path and by arithmetic is faithful."""
import os

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.c01 import make_lib
from nrwalv.common import near
from nrwalv.core import Discard

RULE = ('Generated directories and groups: every stored path (with and without '
        'file extensions, from any level) must return the stored object; '
        'perturbed paths must raise KeyError / yield the default of get; random '
        'keys combining paths and unsigned numbers are compared with the '
        'arithmetic on the separately retrieved operands; brackets and '
        'unbalanced parentheses are refused. Non-trivial: a path of two or more '
        'components or a key with an operator; distinct: by key and library.')
ASSUMPTIONS = ['operands in one key have no conflicting default values '
               '(a default is defined in one directory only)',
               'keys are not a lone parenthesised path']
REQUIRE = {'stored paths': 3000, 'absent paths': 3000, 'keys': 1500,
           'numeric keys': 500, 'refused keys': 300, 'key op -': 500,
           'key op /': 500, 'key op ^': 200, 'nested parens': 200,
           'extension paths': 200, 'identity': 3000,
           'variable operands': 300}


def same_eq(ctx, eq, node, rng, what):
    """Object stored at a path: variables and value as defined."""
    ctx.check(type(eq).__name__ == 'Equation', 'not an equation', lambda:
              '{}: {!r}'.format(what, eq))
    vs = node.variables()
    ctx.check(list(eq.variables) == vs, 'wrong variables', lambda:
              '{}: {} vs {}'.format(what, eq.variables, vs))
    vals = {n: gen.value(rng) for n in vs}
    oracle.set_precision(oracle.U64)
    try:
        r = oracle.usable(node.value(lambda n, s: oracle.EV(vals[n])))
    except Discard:
        return
    got = eq.evaluate(**vals)
    oracle.compare(ctx, got, [r], 'wrong object', lambda: '{} = {!r} with {}'
                   .format(what, node.data, vals))


def walk_nodes(spec, pre=''):
    """(path, kind) of everything stored, with path spelled with extensions"""
    out = []

    def grp(g, pre, spell):
        for k, v in g.items():
            if isinstance(v, dict):
                out.append((pre + k, spell + k, 'EquationGroup', list(v)))
                grp(v, pre + k + '::', spell + k + '::')
            else:
                out.append((pre + k, spell + k, 'Equation', None))
    for stem, (ext, g) in spec['files'].items():
        out.append((pre + stem, pre + stem + ext, 'EquationGroup', list(g)))
        grp(g, pre + stem + '::', pre + stem + ext + '::')
    for name, sub in spec['dirs'].items():
        keys = list(sub['files']) + list(sub['dirs'])
        if sub.get('vars') is not None:
            keys.append('variables')
        out.append((pre + name, pre + name, 'EquationDirectory', keys))
        out += walk_nodes(sub, pre + name + '::')
    return out


def paths(ctx, rng):
    from NRWAL import EquationDirectory
    free = gen.names(rng, 3)
    spec, node, path = make_lib(ctx, rng, free=free,
                                defaults=['dv', 'rate'])
    d = EquationDirectory(path)
    stored = walk_nodes(spec)
    known = {p for p, _, _, _ in stored} | {s for _, s, _, _ in stored}
    for p, spelled, kind, keys in stored:
        obj = d[p]
        ctx.check(type(obj).__name__ == kind, 'wrong kind', lambda:
                  '{}: {} is a {}'.format(p, kind, type(obj)))
        if keys is not None:
            ctx.check(sorted(obj.keys()) == sorted(keys), 'wrong members',
                      lambda: '{}: {} vs {}'.format(p, list(obj.keys()), keys))
        else:
            same_eq(ctx, obj, node.at(p), rng, p)
        ctx.count('stored paths')
        # the object itself, by any route
        step = d
        for c in p.split('::'):
            step = step[c]
        ctx.check(step is obj, 'another object step by step', lambda: p)
        ctx.check(d.get(p, None) is obj, 'get returns another object',
                  lambda: p)
        ctx.count('identity')
        if spelled != p:
            ctx.check(d[spelled] is obj, 'extension changes the object',
                      lambda: spelled)
            ctx.count('extension paths')
        if '::' in p:
            first, _, rest = p.partition('::')
            ctx.check(d[first][rest] is obj, 'another object from a sub-level',
                      lambda: p)
            ctx.sig(p, str(spec))
    # absent paths
    allp = [p for p, _, _, _ in stored]
    for _ in range(25):
        p = rng.choice(allp)
        c = p.split('::')
        i = rng.randrange(len(c))
        k = rng.randrange(12)
        if k == 0 and len(c) > 1:
            q = c[:i] + c[i + 1:]
        elif k == 1:
            q = c + [rng.choice(['eq1', c[-1], 'no_such', 'foo', 'keys',
                                 'variables'])]
        elif k == 2:
            q = c[:i] + [c[i].swapcase()] + c[i + 1:]
        elif k == 3 and len(c[i]) > 1:
            q = c[:i] + [c[i][:-1]] + c[i + 1:]
        elif k == 4:
            q = c[:i] + [c[i] + rng.choice('a_1xs')] + c[i + 1:]
        elif k == 5 and len(c) > 1:
            q = c[::-1]
        elif k == 6:
            q = c[:i] + [rng.choice(['no_such', 'eq', 'x', 'variables2',
                                     'values', 'items', '_eqns', '_group',
                                     'group', 'dir'])] + c[i + 1:]
        elif k == 7:
            q = c[:i] + [''] + c[i + 1:]
        elif k == 8:
            q = rng.choice(allp).split('::') + c
        elif k == 10:
            q = c[:i] + [rng.choice(['5_x', '10MW', '3_' + c[i], '2.5x', '1e5x',
                                     '7_', '2015_a', c[i] + '.5', '.5x',
                                     'e5', '1 2', '0x1F'])] + c[i + 1:]
            if rng.random() < 0.5:
                q = [q[i]]
        elif k == 9:
            q = [rng.choice(['', ' ']) + c[0]] + c[1:] + ['']
        else:
            q = [x + 'x' for x in c]
        q = '::'.join(q)
        if q in known or any(ref.is_num(x) for x in q.split('::')) \
                or '-' in q:
            continue
        try:
            node.at(q)
            continue                # such a path exists after all
        except KeyError:
            pass
        ctx.raises(lambda: d[q], (KeyError,), 'absent path returns something',
                   '{} in {}'.format(q, allp))
        sentinel = object()
        ctx.check(d.get(q, sentinel) is sentinel, 'get of an absent path',
                  lambda: q)
        # the same below the first component
        if '::' in q and q.split('::')[0] in d:
            first, _, rest = q.partition('::')
            if rest:
                sub = d[first]
                ctx.raises(lambda: sub[rest], (KeyError,),
                           'absent path returns something', q)
                ctx.check(sub.get(rest, sentinel) is sentinel,
                          'get of an absent path', lambda: q)
        ctx.count('absent paths')
    ctx.sample('paths', {'stored': allp})


def keygen(rng, leaves, d):
    """Arithmetic over unsigned leaves; returns (key, python text)."""
    def leaf():
        if rng.random() < 0.3:
            n = rng.choice(['2', '3', '0.5', '10', '1.25', '7', '1e2', '4.0'])
            if rng.random() < 0.15:
                n = rng.choice(['0.0000025', '1.23456789012', '123456789.125',
                                '0.00012345', '3.00000001', '1e5'])
            return n
        return rng.choice(leaves)

    def term(dd):
        k = rng.random()
        if dd > 0 and k < 0.35:
            t = '(' + expr(dd - 1) + ')'
            if rng.random() < 0.15:
                t = '(' + rng.choice(['', ' ']) + t + ')'
            return t
        if k < 0.5:
            op = rng.choice(['**', '^'])
            s = rng.choice(['', ' '])
            b = leaf() if rng.random() < 0.6 or dd <= 0 \
                else '(' + expr(dd - 1) + ')'
            e = rng.choice(['2', '3', '0.5', '1', '(1 / 2)', '(3 - 2)', '2.0'])
            if rng.random() < 0.15:
                e = '2' + s + op + s + rng.choice(['2', '0.5', '1'])
            return b + s + op + s + e
        return leaf()

    def expr(dd):
        n = rng.choice([1, 2, 2, 3, 3, 4]) if dd == d else \
            rng.choice([2, 2, 3])
        ops = rng.choice(['-', '/', '+-', '*/', '+-*/', '+-*/'])
        t = term(dd)
        for _ in range(n - 1):
            t += rng.choice([' ', ' ', '']) + rng.choice(ops) \
                + rng.choice([' ', ' ', '']) + term(dd)
        return t
    return expr(d)


def keys(ctx, rng, group=False):
    from NRWAL import EquationDirectory
    from NRWAL.handlers.groups import EquationGroup
    free = gen.names(rng, 3)
    for _ in range(1):
        spec, node, path = make_lib(ctx, rng, free=free,
                                    defaults=['dv', 'rate'])
    d = EquationDirectory(path)
    base = ''
    allp = ref.eq_paths(spec)
    obj = d
    if group or rng.random() < 0.4:
        grps = sorted({p.rsplit('::', 1)[0] for p in allp})
        base = rng.choice(grps)
        obj = d[base]
        base += '::'
    leaves = [p[len(base):] for p in allp if p.startswith(base)]
    leaves = [x for x in leaves if not ref.is_num(x.split('::')[0])
              or base == '']
    leaves = rng.sample(leaves, min(4, len(leaves)))
    vp = ref.var_paths(spec) if base == '' else []
    if vp and rng.random() < 0.4:
        leaves += rng.sample(vp, min(2, len(vp)))
    oracle.set_precision(oracle.U64)
    vals = {n: gen.value(rng) for n in free}
    for _ in range(6):
        key = keygen(rng, leaves, rng.choice([0, 1, 1, 2, 3]))
        if not any(o in key for o in '+-*/^'):
            continue
        holders = {}
        text = key
        for i, p in enumerate(sorted(leaves, key=len, reverse=True)):
            import re
            new = re.sub(r'(?<![\w.:]){}(?![\w.:])'.format(re.escape(p)),
                         'H{}_'.format(i), text)
            if new != text:
                holders['H{}_'.format(i)] = p
                text = new
        dflt = {}
        allv = set()
        for p in holders.values():
            nd = node.at(base + p)
            if nd.kind == 'num':
                ctx.count('variable operands')
                continue
            allv |= set(nd.variables())
            dflt.update({k: v for k, v in nd.scope.items()
                         if k in nd.variables()})

        def look(h):
            nd = node.at(base + holders[h])
            if nd.kind == 'num':
                return oracle.ev(float(nd.data))
            return nd.value(lambda n, s: oracle.EV(vals[n]) if n in vals
                            else oracle.EV(s[n]))
        try:
            r = oracle.usable(oracle.ev_eval(text, look))
        except Discard:
            ctx.count('ill conditioned keys')
            continue
        try:
            eq = obj[key]
        except Exception as e:
            ctx.fail('key refused', '{!r}: {!r}'.format(key, e))
        ctx.check(type(eq).__name__ == 'Equation', 'not an equation',
                  lambda: '{!r}: {!r}'.format(key, eq))
        ctx.check(list(eq.variables) == sorted(allv), 'wrong variables',
                  lambda: '{!r}: {} vs {}'.format(key, eq.variables, allv))
        try:
            got = eq.evaluate(**{k: v for k, v in vals.items() if k in allv})
        except Exception as e:
            ctx.fail('key does not evaluate', '{!r}: {!r}'.format(key, e))
        oracle.compare(ctx, got, [r], 'wrong value', lambda:
                       '{!r} at {!r} with {} library {}'.format(
                           key, base, vals, spec))
        ctx.count('keys')
        k2 = key.replace('**', '^')
        for o in '+-*/^':
            ctx.count('key op ' + o, k2.count(o))
        if '((' in k2.replace(' ', '') or '))' in k2.replace(' ', ''):
            ctx.count('nested parens')
        ctx.sig(key, str(spec))
        ctx.sample('keys', {'key': key, 'inputs': vals})
    # numbers
    for _ in range(4):
        n = rng.choice(['3', '2.5', '0', '1e5', '1E3', '.5', '2.', '100',
                        str(rng.randint(3000, 90000)),
                        '{:.3f}'.format(rng.uniform(0, 99)),
                        '0.0000025', '{:.14f}'.format(rng.uniform(0, 9)),
                        '{:.9f}'.format(rng.uniform(0, 1e-5)),
                        str(rng.randint(10 ** 8, 10 ** 15))])
        if n in obj:
            continue
        eq = obj[n]
        ctx.check(type(eq).__name__ == 'Equation' and not eq.variables
                  and near(eq.evaluate(), float(n), 1e-13), 'wrong number',
                  lambda: '{!r}: {!r}'.format(n, eq))
        ctx.count('numeric keys')


def refuse(ctx, rng):
    from NRWAL import EquationDirectory
    spec, node, path = make_lib(ctx, rng, free=gen.names(rng, 2))
    d = EquationDirectory(path)
    leaves = ref.eq_paths(spec)
    obj = d
    if rng.random() < 0.4:
        b = rng.choice(leaves).rsplit('::', 1)[0]
        leaves = [p[len(b) + 2:] for p in leaves if p.startswith(b + '::')]
        obj = d[b]
    leaves = [x for x in leaves if not ref.is_num(x)] or leaves
    key = keygen(rng, leaves, rng.choice([1, 2]))
    if not any(o in key for o in '+-*/^'):
        key += ' + 2'
    if rng.random() < 0.5:
        o, c = rng.choice(['[]', '{}'])
        bad = rng.choice(['{o}{k}{c}', '{o}{k}{c} * 2', '2 + {o}{k}{c}',
                          '({o}{k}{c})', '{k} - {o}3{c}', '{o}{k}',
                          '({k}){c} + 1']).format(o=o, c=c, k=key)
    else:
        par = [i for i, ch in enumerate(key) if ch in '()']
        if par and rng.random() < 0.7:
            i = rng.choice(par)
            bad = key[:i] + key[i + 1:]
        else:
            bad = rng.choice(['({}', '{})', '(({})', '({}))', ')({}',
                              '{} + (', '{} - )(', ')' + '{}' + '(']
                             ).format(key)
    kinds = []
    dflt = object()
    for how in ('[]', 'get'):
        try:
            got = obj[bad] if how == '[]' else obj.get(bad, dflt)
        except Exception as e:
            kinds.append(isinstance(e, KeyError))
            ctx.count('refused keys')
            continue
        if how == 'get' and got is dflt and kinds == [True]:
            # read as a path that does not exist
            continue
        ctx.fail('malformed key returns something', '{} {!r}: {!r}'.format(
            how, bad, got))
    ctx.sig(bad)


SCENARIOS = [('paths', paths, 2000, 20000), ('keys', keys, 4000, 40000),
             ('refuse', refuse, 2496, 24960)]
