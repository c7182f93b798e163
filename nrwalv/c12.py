"""C12: operations never disturb existing objects or caller data."""
import json
import os
import random
import sys

import numpy as np

from nrwalv import gen, ref
from nrwalv.common import probe, same, same_dict, snapshot
from nrwalv.core import Discard

RULE = ('Histories of 10-40 operations (arithmetic, retrieval by path and by '
        'arithmetic, power/year lookup, merging, printing, setting defaults, '
        'evaluating, building configs, failing calls) on a pool of equations, '
        'groups, variable groups, directories and configs. After each '
        'operation the complete observable state (printed form, variables, '
        'defaults, values at fixed probes, members, inputs, outputs) of every '
        'object but the target of an explicit set is compared with the state '
        'before, and so are all data handed over by the caller, the files '
        'read and the settings of the process. Non-trivial: '
        'history with at least one mutating call; distinct: by history.')
ASSUMPTIONS = ['a retrieved member is the stored object itself, so setting '
               'defaults on it is setting them on the holder']
REQUIRE = {'histories': 300, 'fingerprints compared': 50000,
           'op arithmetic': 500, 'op merge': 300, 'op set default': 300,
           'op interpolate': 200, 'op build config': 100,
           'op evaluate config': 200, 'op evaluate equation': 300,
           'op print': 200, 'op failing call': 200, 'op retrieve': 200,
           'caller data compared': 2000, 'twin configs': 100,
           'earlier results compared': 200, 'array edited in place': 40,
           'surroundings compared': 3000, 'files compared': 1000,
           'config files': 40, 'input arrays overwritten': 60}


def value_of(eq, names, salt):
    try:
        return repr(eq.evaluate(**probe(names, salt)))
    except Exception as e:
        return type(e).__name__


def finger(obj, top=True):
    """Everything one can observe about an object. The printed form of a
    holder includes that of its members."""
    t = type(obj).__name__
    if t == 'Equation':
        names = list(obj.variables)
        defs = obj.default_variables
        out = [t, str(obj) if top else None, names, snapshot(defs), value_of(obj, names, 1)]
        if any(n in defs for n in names):
            out.append(value_of(obj, [n for n in names if n not in defs], 2))
        return out
    if t in ('EquationGroup', 'EquationDirectory'):
        return [t, str(obj) if top else None, snapshot(obj.default_variables),
                [(k, finger(v, False)) for k, v in obj.items()]]
    if t == 'VariableGroup':
        return [t, str(obj) if top else None, snapshot(dict(obj.items()))]
    if t == 'NrwalConfig':
        return [t, str(obj),
                [(k, finger(v, False)) for k, v in obj.items()],
                list(obj.required_inputs), list(obj.all_variables),
                snapshot(obj.global_variables)]
    return [t, repr(obj)]


def state(cfg):
    return [snapshot(cfg.inputs), snapshot(dict(cfg.outputs))]


def diff(a, b, path=''):
    """Where two fingerprints differ."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) \
            and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '/{}'.format(
                    x[0] if isinstance(x, tuple) and isinstance(x[0], str)
                    else i))
    return '{}: before {!r} after {!r}'.format(path, a, b)


class Item:
    def __init__(self, obj, label, meta=None):
        self.obj = obj
        self.label = label
        self.meta = meta or {}
        self.kind = type(obj).__name__
        self.refresh()

    def refresh(self):
        self.print = finger(self.obj)
        self.state = state(self.obj) if self.kind == 'NrwalConfig' else None


def surroundings():
    """Settings of the process that belong to the caller."""
    return {'cwd': os.getcwd(), 'environ': dict(os.environ),
            'np error state': np.geterr(),
            'np random': np.random.get_state()[1].tobytes(),
            'random': hash(random.getstate()),
            'np print options': repr(np.get_printoptions()),
            'sys.path': list(sys.path),
            'recursion limit': sys.getrecursionlimit()}


def content(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d)] = None
        for f in files:
            fp = os.path.join(root, f)
            out[os.path.relpath(fp, d)] = open(fp, 'rb').read()
    return out


class Pool:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.items = []
        self.data = []          # (label, object, snapshot)
        self.log = []
        self.disk = []          # (directory, content)
        self.around = surroundings()

    def on_disk(self, d):
        self.disk.append((d, content(d)))

    def finish(self):
        for d, was in self.disk:
            now = content(d)
            self.ctx.count('files compared', len(was))
            self.ctx.check(now == was, 'files changed', lambda:
                           '{}: {} changed; history {}'.format(
                               d, sorted(k for k in set(now) | set(was)
                                         if now.get(k) != was.get(k)),
                               self.log))

    def add(self, obj, label, **meta):
        it = Item(obj, label, meta)
        self.items.append(it)
        return it

    def watch(self, label, obj):
        """Caller data that must stay as it is."""
        self.data.append((label, obj, snapshot(obj)))
        return obj

    def pick(self, *kinds):
        c = [i for i in self.items if i.kind in kinds]
        return self.rng.choice(c) if c else None

    def verify(self, op, target=None, state_of=None):
        """All but the target are as before."""
        for it in self.items:
            if it is target:
                it.refresh()
                continue
            now = finger(it.obj)
            self.ctx.count('fingerprints compared')
            self.ctx.check(now == it.print, 'object changed by another '
                           'operation', lambda: '{} changed by "{}"; {}; '
                           'history {}'.format(it.label, op,
                                               diff(it.print, now), self.log))
            if it.state is not None:
                st = state(it.obj)
                if it is state_of:
                    it.state = st
                else:
                    self.ctx.check(st == it.state, 'inputs or outputs changed '
                                   'by another operation', lambda:
                                   '{} changed by "{}": {}; history {}'.format(
                                       it.label, op, diff(it.state, st),
                                       self.log))
        now = surroundings()
        self.ctx.count('surroundings compared')
        self.ctx.check(now == self.around, 'surroundings changed', lambda:
                       'by "{}": {}; history {}'.format(
                           op, [k for k in now if now[k] != self.around[k]],
                           self.log))
        for label, obj, snap in self.data:
            self.ctx.count('caller data compared')
            now = snapshot(obj)
            self.ctx.check(now == snap, 'caller data changed', lambda:
                           '{} changed by "{}": {}; history {}'.format(
                               label, op, diff(snap, now), self.log))
        if len(self.data) > 25:
            del self.data[:10]


NAMES = ['x', 'y', 'cost', 'cost_x', 'depth']
DEFS = ['da', 'db', 'dc']


def group_data(rng, nest=1):
    out = {}
    for k in rng.sample(['eq1', 'eq2', 'tower', 'mass', 'k1'],
                        rng.randint(2, 4)):
        out[k] = rng.choice([
            rng.choice(NAMES) + ' * ' + rng.choice(DEFS),
            rng.choice(DEFS) + ' - ' + rng.choice(NAMES) + ' / 3',
            'np.maximum({}, {})'.format(rng.choice(NAMES), rng.choice(DEFS)),
            rng.randint(1, 9), '-' + rng.choice(NAMES),
            '{} ** 2 + {}'.format(rng.choice(NAMES), rng.choice(NAMES))])
    keys = [k for k in out]
    if rng.random() < 0.5:
        out['total'] = ' + '.join(rng.sample(keys, 2))
    base = rng.choice(['spar', 'rig'])
    for v in rng.sample([3, 6, 10, 15], rng.randint(2, 3)):
        out['{}_{}MW'.format(base, v)] = '{} * {} + {}'.format(
            rng.choice(NAMES), v, rng.choice(DEFS))
    for v in rng.sample([2015, 2020, 2030], 2):
        out['yr_{}'.format(v)] = rng.choice(
            ['{} + {}'.format(rng.choice(NAMES), rng.choice(DEFS)), v - 2000])
    if nest:
        out['sub'] = group_data(rng, nest - 1)
    return out


def library(ctx, rng):
    d = os.path.join(ctx.tmpdir(), 'lib')
    spec = {'vars': None, 'files': {}, 'dirs': {}}

    def fill(s, depth):
        if rng.random() < 0.6:
            s['vars'] = {v: rng.randint(1, 9)
                         for v in rng.sample(DEFS, rng.randint(1, 3))}
        for n in rng.sample(['turb', 'jacket', 'f1'], rng.randint(1, 2)):
            s['files'][n] = (rng.choice(['.yaml', '.json']),
                             group_data(rng, rng.randint(0, 1)))
        if depth:
            for n in rng.sample(['d1', 'd2', 'osw'], rng.randint(1, 2)):
                s['dirs'][n] = {'vars': None, 'files': {}, 'dirs': {}}
                fill(s['dirs'][n], depth - 1)
    fill(spec, rng.randint(0, 2))
    ref.write_dir(spec, d)
    return spec, d


def walk(obj, prefix=''):
    """(path, member) of everything below a group or directory."""
    out = []
    for k, v in obj.items():
        out.append((prefix + k, v))
        if type(v).__name__ in ('EquationGroup', 'EquationDirectory'):
            out += walk(v, prefix + k + '::')
    return out


FLAGS = [{}, {'interp_extrap_power': True}, {'use_nearest_year': True},
         {'interp_extrap_power': True, 'interp_extrap_year': True},
         {'use_nearest_power': True, 'interp_extrap_year': True}]


def defaults(rng, arrays=True):
    out = {k: rng.choice([rng.randint(1, 9), round(rng.uniform(1, 9), 2)])
           for k in rng.sample(DEFS + NAMES, rng.randint(1, 3))}
    if arrays and rng.random() < 0.25:
        # one value per site
        k = rng.choice(sorted(out))
        out[k] = np.array([rng.uniform(1, 9) for _ in range(3)])
    return out


def spoil(ctx, d):
    """The caller goes on using what it handed over."""
    for k in list(d):
        if isinstance(d[k], np.ndarray):
            d[k] *= -1e5
            ctx.count('array edited in place')
        d[k] = 1e6
    d['extra'] = 5


def new_root(ctx, rng, pool):
    from NRWAL import EquationDirectory
    from NRWAL.handlers.equations import Equation
    from NRWAL.handlers.groups import EquationGroup, VariableGroup
    k = rng.random()
    fl = rng.choice(FLAGS)
    if k < 0.3:
        text = rng.choice(['x * da', '-y', 'cost / 2 - db', 3, -2.5,
                           'np.log(x + 5)', 'da * db', 'x > 1'])
        d = pool.watch('default_variables argument', defaults(rng))
        it = pool.add(Equation(text, name=rng.choice([None, 'e1', 'abc']),
                               default_variables=rng.choice([d, None])),
                      'Equation({!r}, {})'.format(text, d))
        if rng.random() < 0.5:
            # a second equation on the same dict
            pool.add(Equation('db + x', default_variables=d),
                     'second equation')
        if rng.random() < 0.3:
            pool.data = [x for x in pool.data if x[1] is not d]
            spoil(ctx, d)
            pool.verify('editing the dict given to Equation')
    elif k < 0.6:
        data = pool.watch('group dict', group_data(rng))
        it = pool.add(EquationGroup(data, name='g', **fl),
                      'EquationGroup({}, {})'.format(data, fl))
        if rng.random() < 0.3:
            pool.add(EquationGroup(data, **fl), 'second group')
    elif k < 0.7:
        data = pool.watch('variables dict', defaults(rng, False))
        it = pool.add(VariableGroup(data), 'VariableGroup({})'.format(data))
    else:
        spec, d = library(ctx, rng)
        pool.on_disk(d)
        it = pool.add(EquationDirectory(d, **fl),
                      'EquationDirectory({}, {})'.format(spec, fl), path=d)
    pool.log.append('new ' + it.kind)
    pool.verify('create ' + it.kind)


def op_arith(ctx, rng, pool):
    a = pool.pick('Equation')
    if a is None:
        return new_root(ctx, rng, pool)
    b = pool.pick('Equation')
    op = rng.choice('+-*/')
    k = rng.random()
    if k < 0.2:
        right, lab = rng.choice([2, -1.5, 'x + 2', '7']), 'value'
    elif k < 0.5:
        # member of a library as an operand
        h = pool.pick('EquationGroup', 'EquationDirectory')
        if h is None:
            return
        eqs = [v for _, v in walk(h.obj) if type(v).__name__ == 'Equation']
        right, lab = rng.choice(eqs), 'member'
    else:
        right, lab = b.obj, b.label
    new = {'+': lambda: a.obj + right, '-': lambda: a.obj - right,
           '*': lambda: a.obj * right, '/': lambda: a.obj / right}[op]()
    if len(new.full) < 400:
        pool.add(new, '({} {} {})'.format(a.label[:40], op, lab[:40]))
    ctx.count('op arithmetic')
    pool.log.append('arith ' + op)
    pool.verify('arithmetic ' + op)


def op_retrieve(ctx, rng, pool):
    h = pool.pick('EquationGroup', 'EquationDirectory')
    if h is None:
        return
    paths = [(p, v) for p, v in walk(h.obj)
             if type(v).__name__ == 'Equation']
    p, v = rng.choice(paths)
    got = h.obj[p]
    ctx.check(got is v, 'retrieval returns another object', lambda: p)
    q = rng.choice(paths)[0]
    key = '{} {} {}'.format(p, rng.choice('+-*/'), rng.choice([q, '2.5']))
    new = h.obj[key]
    pool.add(new, 'retrieved {}'.format(key))
    h.obj.get(p + '_none', None)
    list(h.obj.keys()), list(h.obj.values()), h.obj.all_equations
    p in h.obj
    ctx.count('op retrieve')
    pool.log.append('retrieve ' + key)
    pool.verify('retrieve ' + key)


def op_interp(ctx, rng, pool):
    h = pool.pick('EquationGroup', 'EquationDirectory')
    if h is None:
        return
    grps = [(p, g) for p, g in walk(h.obj)
            if type(g).__name__ == 'EquationGroup']
    if h.kind == 'EquationGroup':
        grps.append(('', h.obj))
    if not grps:
        return
    p, g = rng.choice(grps)
    req = rng.choice(['spar_5MW', 'rig_8MW', 'spar_20MW', 'yr_2018',
                      'yr_2040', 'yr_2019'])
    key = (p + '::' if p else '') + req
    members = [v for v in g.values()]
    try:
        new = h.obj[key]
    except KeyError:
        new = None
    if new is not None and not any(new is m for m in members):
        pool.add(new, 'interpolated ' + key)
        ctx.count('op interpolate')
    else:
        ctx.count('op nearest or absent')
    pool.log.append('lookup ' + key)
    pool.verify('lookup ' + key)
    # the line is made of its own copies
    if new is not None and rng.random() < 0.5 \
            and not any(new is m for m in members):
        d = pool.watch('defaults', defaults(rng))
        new.set_default_variables(d)
        pool.log.append('set on interpolated')
        pool.verify('set defaults on interpolated', target=pool.items[-1])


def op_merge(ctx, rng, pool):
    kind = rng.choice(['EquationGroup', 'EquationGroup', 'EquationDirectory',
                       'EquationDirectory', 'VariableGroup'])
    a, b = pool.pick(kind), pool.pick(kind)
    if a is None:
        return new_root(ctx, rng, pool)
    right, lab = b.obj, b.label
    if kind == 'EquationGroup' and rng.random() < 0.3:
        right = pool.watch('merged dict', group_data(rng))
        lab = 'dict'
    elif kind == 'EquationDirectory' and b.meta.get('path') \
            and rng.random() < 0.3:
        right = b.meta['path']
    elif kind == 'VariableGroup' and rng.random() < 0.3:
        right = pool.watch('merged dict', defaults(rng, False))
    new = a.obj + right
    it = pool.add(new, 'merge({}, {})'.format(a.label[:60], lab[:60]))
    ctx.count('op merge')
    pool.log.append('merge ' + kind)
    pool.verify('merge')
    if rng.random() < 0.6:
        who = rng.choice([it, a, b])
        set_on(ctx, rng, pool, who)


def set_on(ctx, rng, pool, it):
    d = pool.watch('set_default argument', defaults(rng))
    if it.kind == 'EquationDirectory':
        force = rng.random() < 0.4
        it.obj.set_default_variables(d, force_update=force)
    else:
        it.obj.set_default_variables(d)
    ctx.count('op set default')
    pool.log.append('set {} on {}'.format(d, it.label[:50]))
    pool.verify('set defaults', target=it)
    # the dict of the caller is not kept
    pool.data = [x for x in pool.data if x[1] is not d]
    spoil(ctx, d)
    pool.verify('editing the dict given to set_default_variables')


def op_set(ctx, rng, pool):
    it = pool.pick('Equation', 'EquationGroup', 'EquationDirectory')
    if it is not None:
        set_on(ctx, rng, pool, it)


def op_member_set(ctx, rng, pool):
    """Setting on a member changes its holder only."""
    it = pool.pick('EquationGroup', 'EquationDirectory')
    if it is None:
        return
    path, m = rng.choice(walk(it.obj))
    if not hasattr(m, 'set_default_variables') \
            or type(m).__name__ == 'VariableGroup':
        return
    d = pool.watch('set_default argument', defaults(rng))
    before = {p: finger(v) for p, v in walk(it.obj)
              if not p.startswith(path) and not path.startswith(p)}
    m.set_default_variables(d)
    ctx.count('op set default')
    pool.log.append('set on member')
    for p, v in walk(it.obj):
        if p in before:
            ctx.check(finger(v) == before[p], 'sibling changed by setting '
                      'defaults', lambda: '{} by set on {} of {}: {}'.format(
                          p, path, it.label, diff(before[p], finger(v))))
    pool.verify('set on member', target=it)


def op_print(ctx, rng, pool):
    it = rng.choice(pool.items)
    str(it.obj), repr(it.obj)
    if hasattr(it.obj, 'head') and it.kind != 'Equation':
        it.obj.head(3), it.obj.tail()
    ctx.count('op print')
    pool.log.append('print')
    pool.verify('print')


def inputs_for(rng, names, pool, n=3):
    import pandas as pd
    k = rng.random()
    out = {}
    for v in names:
        j = rng.random()
        if j < 0.4:
            out[v] = rng.choice([rng.randint(1, 9), rng.uniform(1, 9),
                                 np.float64(2.5), np.int64(3)])
        else:
            arr = np.array([rng.randint(1, 50) for _ in range(n)]).astype(
                rng.choice([np.int8, np.int32, np.int64, np.float32,
                            np.float64]))
            if j > 0.9 and k >= 0.25:
                arr = arr.reshape(rng.choice([(1, n), (n, 1)]))
            elif j > 0.87 and k >= 0.25:
                arr = arr.sum()[None].reshape(())
            if rng.random() < 0.3:
                arr.setflags(write=False)
            out[v] = arr
    if k < 0.25 and names:
        out = pd.DataFrame({v: np.broadcast_to(np.asarray(x), (n,)).copy()
                            for v, x in out.items()})
    return pool.watch('inputs', out)


def op_eval_eq(ctx, rng, pool):
    it = pool.pick('Equation', 'EquationGroup', 'EquationDirectory')
    if it is None:
        return
    eq = it.obj
    if it.kind != 'Equation':
        eqs = [v for _, v in walk(it.obj) if type(v).__name__ == 'Equation']
        eq = rng.choice(eqs)
    inp = inputs_for(rng, eq.variables + ['unused'], pool)
    try:
        eq.evaluate(**dict(inp.items()) if isinstance(inp, dict) else
                    {k: inp[k].to_numpy() for k in inp.columns})
        ctx.count('op evaluate equation')
    except RuntimeError:
        ctx.count('evaluation failed')
    pool.log.append('evaluate')
    pool.verify('evaluate equation')


def op_fail(ctx, rng, pool):
    from NRWAL import NrwalConfig
    k = rng.random()
    it = rng.choice(pool.items)
    try:
        if k < 0.25 and it.kind == 'Equation':
            it.obj.evaluate(**{v: 'text' for v in it.obj.variables} or
                            {'q': 'text'})
        elif k < 0.5 and it.kind in ('EquationGroup', 'EquationDirectory'):
            it.obj[rng.choice(['nope', 'a::b::c', '(eq1', 'eq1 + nope',
                               '[eq1] * 2'])]
        elif k < 0.6 and it.kind == 'Equation':
            it.obj + rng.choice(['import os', [1], None])
        elif it.kind == 'EquationGroup' and k < 0.7:
            it.obj + {'bad': 'bad + 1'}
        elif it.kind == 'NrwalConfig':
            it.obj.evaluate({'x': 'not a number'})
        else:
            bad = pool.watch('bad config', rng.choice([
                {'a': 'b * 2', 'b': 'a + 1'}, {'a': 'x *', 'b': '3'},
                {'a': '(x', 'k': 3}, {'a': [1, 2]}, {'5': 'x'},
                {'a': 'eval(x)', 'k': 2}, {'a': 'f.yaml::b', 'k': 1}]))
            d = pool.pick('EquationDirectory')
            if d is not None and d.meta.get('path'):
                bad['equation_directory'] = d.meta['path']
            else:
                bad['equation_directory'] = ctx.tmpdir()
            pool.data[-1] = ('bad config', bad, snapshot(bad))
            NrwalConfig(bad)
    except Exception:
        ctx.count('op failing call')
    pool.log.append('fail')
    pool.verify('failing call', state_of=it)


def op_config(ctx, rng, pool):
    from NRWAL import NrwalConfig
    d = pool.pick('EquationDirectory')
    if d is None or not d.meta.get('path'):
        return
    paths = [p for p, v in walk(d.obj) if type(v).__name__ == 'Equation'
             and 'workspace' not in p]
    if not paths:
        return
    cfg = {'equation_directory': d.meta['path']}
    if rng.random() < 0.4:
        cfg['interp_extrap_power'] = True
    cfg['k'] = rng.randint(1, 9)
    if rng.random() < 0.5:
        cfg['da'] = rng.randint(10, 20)
    cfg['e_one'] = rng.choice(paths)
    cfg['e_two'] = '{} * k - {}'.format(rng.choice(paths), rng.choice(NAMES))
    cfg['e_three'] = 'e_one + np.maximum(e_two, 3) * (1 + k)'
    if rng.random() < 0.5:
        p = rng.choice(paths)
        if '::' in p:
            pre = p.rsplit('::', 1)[0]
            cfg['grp'] = pre
            cfg['e_four'] = 'grp' + p[len(pre):]
            cfg['e_five'] = 'e_four / 2'
    pool.watch('config dict', cfg)
    inp = None
    if rng.random() < 0.3:
        inp = inputs_for(rng, NAMES, pool)
    src = cfg
    if rng.random() < 0.3:
        # the same from a file
        f = os.path.join(ctx.tmpdir(), 'cfgs')
        os.makedirs(f)
        src = os.path.join(f, rng.choice(['c.json', 'c.yaml']))
        with open(src, 'w') as fh:
            json.dump(cfg, fh)
        pool.on_disk(f)
        ctx.count('config files')
    one = pool.add(NrwalConfig(src, inputs=inp), 'config {}'.format(cfg))
    if inp is not None and rng.random() < 0.5:
        reuse_inputs(ctx, pool, inp)
        inp = None
    pool.log.append('config')
    pool.verify('build config')
    ctx.count('op build config')
    if rng.random() < 0.5:
        two = NrwalConfig(src, inputs=inp)
        ctx.check(finger(two) == one.print, 'second config differs', lambda:
                  diff(one.print, finger(two)))
        inp = inputs_for(rng, sorted(set(NAMES + one.obj.missing_inputs)),
                         pool)
        try:
            r1 = one.obj.evaluate(inp)
        except RuntimeError:
            r1 = None
        pool.verify('evaluate first of two configs', state_of=one)
        if r1 is not None:
            ctx.check(not dict(two.outputs), 'outputs of the other config',
                      lambda: repr(two.outputs))
            r2 = two.evaluate(inp)
            ctx.check(same_dict(r1, r2), 'second config differs', lambda:
                      '{} and {} for {}'.format(r1, r2, cfg))
            ctx.count('twin configs')
        if len(pool.items) < 9:
            pool.add(two, 'second config {}'.format(cfg))
    if rng.random() < 0.3:
        # the caller may reuse the dict
        pool.data = [x for x in pool.data if x[1] is not cfg]
        cfg['e_one'] = 'cost * 1e9'
        cfg['k'] = 77
        del cfg['e_three']
        pool.verify('caller editing the config dict')


def reuse_inputs(ctx, pool, inp):
    """The caller overwrites the data it handed over."""
    pool.data = [x for x in pool.data if x[1] is not inp]
    for k in list(inp.keys()):
        v = inp[k]
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 77
            ctx.count('input arrays overwritten')
        elif not isinstance(v, np.ndarray):
            inp[k] = 77
    pool.log.append('overwrite inputs')
    pool.verify('caller overwriting the inputs')


def op_eval_cfg(ctx, rng, pool):
    it = pool.pick('NrwalConfig')
    if it is None:
        return op_config(ctx, rng, pool)
    inp = inputs_for(rng, sorted(set(NAMES + it.obj.missing_inputs)), pool)
    try:
        res = it.obj.evaluate(inp)
    except RuntimeError:
        ctx.count('evaluation failed')
        pool.verify('failed evaluation', state_of=it)
        return
    snap = snapshot(dict(res))
    ctx.count('op evaluate config')
    pool.log.append('evaluate config')
    pool.verify('evaluate config', state_of=it)
    inp = inputs_for(rng, NAMES, pool)
    k = rng.random()
    try:
        if k < 0.7:
            it.obj.evaluate(inp)
        elif k < 0.85:
            it.obj.inputs = None
        else:
            it.obj.inputs = inp
    except RuntimeError:
        pass
    pool.verify('evaluate config again', state_of=it)
    if rng.random() < 0.3:
        reuse_inputs(ctx, pool, inp)
    ctx.check(snapshot(dict(res)) == snap, 'earlier result changed', lambda:
              '{}: {}'.format(it.label, diff(snap, snapshot(dict(res)))))
    ctx.count('earlier results compared')


OPS = [op_arith, op_arith, op_retrieve, op_interp, op_interp, op_merge,
       op_set, op_member_set, op_print, op_eval_eq, op_eval_eq, op_fail,
       op_config, op_eval_cfg, op_eval_cfg]


def history(ctx, rng, n=None):
    # settings that are neither the usual nor the quiet ones
    with np.errstate(divide='warn', invalid='ignore', over='warn',
                     under='ignore'), np.printoptions(precision=7):
        random.seed(5)
        np.random.seed(6)
        one_history(ctx, rng, n)


def one_history(ctx, rng, n):
    pool = Pool(ctx, rng)
    for _ in range(rng.randint(2, 4)):
        new_root(ctx, rng, pool)
    for _ in range(n or rng.randint(8, 25)):
        rng.choice(OPS)(ctx, rng, pool)
        while len(pool.items) > 9:
            pool.items.pop(rng.randrange(len(pool.items)))
    pool.finish()
    ctx.count('histories')
    if any(s.startswith(('set', 'evaluate', 'merge')) for s in pool.log):
        ctx.sig(tuple(pool.log), tuple(i.label for i in pool.items))
        ctx.sample('history', pool.log)


SCENARIOS = [('history', history, 640, 12000)]
