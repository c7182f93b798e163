"""C02: names in config entries denote what they name, in any order."""
import itertools

from nrwalv import gen, oracle, ref
from nrwalv.c01 import make_lib, nsites, ref_outputs
from nrwalv.common import World, same
from nrwalv.core import Discard

RULE = ('Random acyclic configs (constants, aliases, library paths, paths in '
        'aliased groups/directories, arithmetic, numpy calls; entries named '
        'like variables and defaults of library equations) over generated '
        'libraries, each written in several orders; every output of every '
        'order is compared with a reference that resolves names by recursion. '
        'Non-trivial: two or more outputs of which one refers to another '
        'entry; distinct: by config text and library paths.')
ASSUMPTIONS = ['a default is defined in one directory only (conflicting '
               'defaults in one expression are left out)',
               'library root names differ from input names']
REQUIRE = {'order checks': 1500, 'entry overrides default': 30,
           'lib eqn uses computed entry': 40, 'np call uses entry': 100,
           'alias path': 50, 'small permutations': 300,
           'input named like an entry': 300,
           'alias named like a library member': 200,
           'alias hides a library path': 40}


def orders(ctx, rng, n=None, k=None, **kw):
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n=n, **kw)
    inputs = dict(w.inputs)
    if rng.random() < 0.4:
        # columns that happen to be named like computed entries
        for nm in w.outputs:
            if nm not in inputs and nm not in w.maybe and rng.random() < 0.5:
                inputs[nm] = gen.value(rng)
                ctx.count('input named like an entry')
    refs = w.references(inputs)
    if any(r is None for v in refs.values() for r in v):
        raise Discard('ill conditioned')
    variants = [dict(w.entries), dict(reversed(list(w.entries.items())))]
    for _ in range(k or rng.randint(1, 3)):
        items = list(w.entries.items())
        rng.shuffle(items)
        variants.append(dict(items))
    for i, ent in enumerate(variants):
        obj = NrwalConfig(w.config(ent))
        out = obj.evaluate(inputs)
        w.check_values(ctx, out, refs, 'order {}'.format(list(ent)),
                       inputs=inputs)
        ctx.count('order checks')
    shape(ctx, w)
    if len(w.outputs) > 1:
        ctx.sig(sorted(map(str, w.entries.items())),
                sorted(ref.eq_paths(w.spec)))
        ctx.sample('orders', {'entries': w.entries, 'inputs': w.inputs,
                              'orders': len(variants)})


def shape(ctx, w):
    """What the monitors saw, from the reference side."""
    computed = set(w.outputs)
    for name, text in w.entries.items():
        t = str(text)
        if w.kinds.get(name) == 'group':
            ctx.count('alias entry')
            if any(str(x).startswith(name + '::') or (name + '::') in str(x)
                   for x in w.entries.values()):
                ctx.count('alias path')
        for p in ref.PATH.findall(t):
            try:
                node = w.ref.target(p)
            except KeyError:
                continue
            if node.kind != 'eq':
                continue
            vs = set(node.variables())
            if vs & computed - {name}:
                ctx.count('lib eqn uses computed entry')
            if vs & set(node.scope) & set(w.entries):
                ctx.count('entry overrides default')
        if 'np.' in t and any(n in w.entries for n in
                              free(t) if n != name):
            ctx.count('np call uses entry')


def free(t):
    try:
        return ref.free_names(ref.PATH.sub('_p_', t))
    except SyntaxError:
        return []


def is_plain(text):
    """A constant or the bare name of another entry."""
    return ref.is_num(text) or str(text).isidentifier()


def chains(ctx, rng):
    """Longer configs: deep chains of entries through all kinds of links."""
    orders(ctx, rng, n=rng.randint(10, 16), k=2, arrays=False, depth=1)


def small(ctx, rng):
    """All permutations of small configs made of the critical patterns."""
    from NRWAL import NrwalConfig
    a, b, x, y, d, u = gen.names(rng, 6, avoid=gen.EQ_NAMES)
    fn = rng.choice(['np.exp(-{})', 'np.abs({})', 'np.maximum({}, 2)',
                     'np.sqrt({})', '(np.log1p({}) + 1)'])
    lib = {'vars': {d: 7.0}, 'files': {'lib': ('.yaml', {
        'eq1': '{} * 2 + {}'.format(a, x), 'eq2': '{} - {}'.format(d, x),
        'eq3': '{} / {}'.format(b, d), 'nested': {'eq4': x + ' * ' + d}})},
        'dirs': {'osw_2015': {'files': {'turb': ('.json', {
            'eq1': d + ' + ' + y, 'eq5': '{} * {}'.format(a, b)})},
            'dirs': {}}}}
    pats = [
        {a: x + ' + 1', u: fn.format(a)},
        {a: x + ' + 1', u: 'lib::eq1'},
        {a: x + ' + 1', u: 'lib::eq1 * 2 - ' + fn.format(a)},
        {d: x + ' * 3', u: 'lib::eq2'},
        {d: x + ' * 3', a: x + ' + 4', u: 'lib::eq2 + lib::eq1'},
        {d: 3, u: 'lib::eq2'},
        {d: 3, a: d + ' * ' + x, u: 'lib::eq2 + ' + a},
        {a: x + ' * 2', b: fn.format(a), u: 'lib::eq3 - ' + a},
        {a: 'lib::eq2', u: a + ' ** 2', b: u + ' - ' + a},
        {'grp': 'lib', u: 'grp::eq2'},
        {'grp': 'lib', a: 'grp::nested::eq4', u: 'grp::eq2 - ' + a},
        {'grp': 'lib::nested', u: 'grp::eq4 / 2'},
        {'grp': 'osw_2015', u: 'grp::turb::eq1', b: u + ' - ' + x},
        {'grp': 'osw_2015', 'al2': 'grp::turb', u: 'al2::eq1 * 3'},
        {a: x + ' + 1', b: a, u: 'osw_2015::turb::eq5'},
        {a: 2, b: a, u: 'osw_2015::turb::eq5 + ' + b},
        {a: '2 * 3', b: x + ' + ' + a, u: 'osw_2015::turb::eq5'},
        {a: b, b: u, u: x + ' - 9'},
    ]
    ent = rng.choice(pats)
    if rng.random() < 0.4:
        ent = dict(ent)
        last = list(ent)[-1]
        ent['z_' + u] = '({l} - 1) * {f}'.format(l=last, f=fn.format(last))
    node = ref.root(lib)
    import os
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(lib, path)
    vals = {x: gen.value(rng), y: gen.value(rng), a: 1.5, b: 2.5, u: 3.5}
    vals = {k: v for k, v in vals.items() if k not in ent or (
        rng.random() < 0.3 and not is_plain(ent[k]))}
    cfg = ref.RefConfig(ent, node)
    refs = ref_outputs(cfg, vals)
    if any(r is None for v in refs.values() for r in v):
        raise Discard('ill conditioned')
    for perm in itertools.permutations(ent.items()):
        obj = NrwalConfig(dict(perm, equation_directory=path))
        out = obj.evaluate(vals)
        ctx.check(set(cfg.outputs()) == set(out), 'wrong output keys',
                  lambda: 'order {}: got {}'.format(perm, sorted(out)))
        for k in refs:
            oracle.compare(ctx, out[k], refs[k], 'wrong value', lambda:
                           'order {} entry {} inputs {} library {}'.format(
                               perm, k, vals, lib))
        ctx.count('small permutations')
    ctx.sig(sorted(map(str, ent.items())))
    ctx.sample('small', {'entries': ent, 'inputs': vals})


def shadow(ctx, rng):
    """Entries named like files or directories of the library."""
    from NRWAL import NrwalConfig
    import os
    x, y, u, v = gen.names(rng, 4, avoid=gen.EQ_NAMES)
    roots = rng.sample(['turb', 'new', 'lib_a', 'old', 'spar'], 3)

    def grp():
        return {e: '{} * {} + {}'.format(rng.choice([x, y]),
                                         rng.randint(2, 9),
                                         rng.randint(1, 9))
                for e in ('eq1', 'eq2')}
    spec = {'vars': None, 'files': {}, 'dirs': {}}
    for r in roots:
        if rng.random() < 0.4:
            spec['files'][r] = (rng.choice(['.yaml', '.json']), grp())
        else:
            spec['dirs'][r] = {'vars': None, 'dirs': {}, 'files': {
                f: (rng.choice(['.yaml', '.yml']), grp())
                for f in roots}}
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    node = ref.root(spec)
    paths = ref.eq_paths(spec)
    # a name of the library that the config gives another meaning
    name = rng.choice(roots)
    others = [p.rsplit('::', 1)[0] for p in paths
              if p.split('::')[0] != name]
    others += [o.split('::')[0] for o in others if '::' in o]
    ent = {name: rng.choice(others)}
    tnode = node.at(ent[name])
    below = [p[len(ent[name]) + 2:] for p in paths
             if p.startswith(ent[name] + '::')]
    b = rng.choice(below)
    ent[u] = rng.choice(['{}::{}', '{}::{} + 1', '2 * {}::{} - ' + x,
                         '({}::{}) ** 2 / 3']).format(name, b)
    free = [p for p in paths if p.split('::')[0] != name]
    ent[v] = '{} - {}'.format(rng.choice(free), u)
    cfg = ref.RefConfig(ent, node)
    vals = {x: gen.value(rng), y: gen.value(rng)}
    refs = ref_outputs(cfg, vals)
    if any(r is None for q in refs.values() for r in q):
        raise Discard('ill conditioned')
    assert tnode.kind in ('group', 'dir')
    for perm in itertools.permutations(ent.items()):
        obj = NrwalConfig(dict(perm, equation_directory=path))
        out = obj.evaluate(vals)
        ctx.check(set(cfg.outputs()) == set(out), 'wrong output keys',
                  lambda: 'order {}: got {}'.format(perm, sorted(out)))
        for k in refs:
            oracle.compare(ctx, out[k], refs[k], 'wrong value', lambda:
                           'order {} entry {} inputs {} library {}'.format(
                               perm, k, vals, spec))
    if b in [p[len(name) + 2:] for p in paths if p.startswith(name + '::')]:
        ctx.count('alias hides a library path')
    ctx.count('alias named like a library member')
    ctx.sig(sorted(map(str, ent.items())), sorted(paths))
    ctx.sample('shadow', {'entries': ent, 'library': paths})


SCENARIOS = [('orders', orders, 2000, 20000),
             ('chains', chains, 400, 4000),
             ('small', small, 960, 9600),
             ('shadow', shadow, 640, 6400)]
