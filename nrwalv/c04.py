"""C04: reported required inputs are exactly what is needed."""
import os

from nrwalv import gen, oracle, ref
from nrwalv.c01 import ref_outputs
from nrwalv.common import World, names_in
from nrwalv.core import Discard

RULE = ('Generated configs and libraries with defaults, constants and computed '
        'entries; required_inputs, missing_inputs and solvable are compared '
        'with the reference (free names by the Python parser) for the empty '
        'and every partial supply tried, then the config is evaluated with all '
        'inputs and with each single one left out. Non-trivial: at least two '
        'required inputs and one name that is not required; distinct: by '
        'config and library.')
ASSUMPTIONS = ['defaults of one directory are not used by equations of '
               'another one in the same entry']
REQUIRE = {'required sets': 300, 'left out': 600, 'partial supplies': 600,
           'all supplied': 250, 'defaults not required': 100,
           'entries not required': 30, 'default of one equation only': 300,
           'empty tables': 100, 'expressions of the config': 150}


def needs(ctx, rng):
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n_inputs=rng.randint(3, 7), np_prob=0.25)
    req = w.ref.required()
    obj = NrwalConfig(w.config(shuffle=True))
    got = obj.required_inputs
    ctx.check(sorted(got) == req and len(got) == len(set(got)),
              'wrong required inputs', lambda: 'got {} expected {} for {}'
              .format(got, req, w.entries))
    ctx.check(sorted(obj.missing_inputs) == req, 'wrong missing inputs',
              lambda: 'got {} expected {}'.format(obj.missing_inputs, req))
    ctx.check(obj.solvable == (not req), 'wrong solvable',
              lambda: '{} with {}'.format(obj.solvable, req))
    ctx.count('required sets')
    # partial supplies
    have = {}
    for k in rng.sample(req, len(req)):
        have[k] = w.inputs[k]
        if rng.random() < 0.2:
            have['unused_' + k] = 1.0
        how = rng.random()
        if how < 0.4:
            obj.inputs = {k: w.inputs[k]}
        elif how < 0.6:
            obj.inputs[k] = w.inputs[k]
        elif how < 0.8:
            obj = NrwalConfig(w.config(), inputs=dict(have))
        else:
            obj.inputs = dict(have)
        miss = sorted(set(req) - set(have))
        ctx.check(sorted(obj.missing_inputs) == miss, 'wrong missing inputs',
                  lambda: 'got {} expected {} having {} for {}'.format(
                      obj.missing_inputs, miss, sorted(have), w.entries))
        ctx.check(obj.solvable == (not miss), 'wrong solvable',
                  lambda: '{} with missing {}'.format(obj.solvable, miss))
        ctx.check(sorted(obj.required_inputs) == req,
                  'required inputs change with the supply',
                  lambda: 'got {} expected {}'.format(obj.required_inputs,
                                                      req))
        if miss:
            e = ctx.raises(obj.evaluate, (RuntimeError,),
                           'evaluated with missing inputs', str(miss))
            n = names_in(str(e), miss)
            ctx.check(n == set(miss), 'message does not name all missing',
                      lambda: '{} vs {}'.format(e, miss))
        ctx.count('partial supplies')
    # zero is a value
    if req:
        k = rng.choice(req)
        o2 = NrwalConfig(w.config())
        o2.inputs = {k: rng.choice([0, 0.0])}
        ctx.check(sorted(o2.missing_inputs) == sorted(set(req) - {k}),
                  'zero counted as missing', lambda: str(k))
    full = {k: w.inputs[k] for k in req}
    obj = NrwalConfig(w.config(shuffle=True))
    try:
        out = obj.evaluate(full)
    except Exception as e:
        ctx.fail('not evaluated with all required inputs',
                 '{!r}: {} inputs {}'.format(e, w.entries, full))
    w.check_values(ctx, out, w.references(full), inputs=full)
    ctx.count('all supplied')
    # tables without rows are supplied inputs
    if req and rng.random() < 0.3:
        import numpy as np
        import pandas as pd
        none = {k: np.zeros((0,)) for k in req}
        if rng.random() < 0.5:
            none = pd.DataFrame(none)
        o3 = NrwalConfig(w.config())
        o3.inputs = none
        ctx.check(o3.missing_inputs == [] and o3.solvable,
                  'empty arrays counted as missing', lambda: '{} of {}'.format(
                      o3.missing_inputs, w.entries))
        try:
            o3.evaluate()
        except Exception as e:
            ctx.fail('not evaluated with all required inputs',
                     '{!r}: {} inputs {}'.format(e, w.entries, none))
        ctx.count('empty tables')
    for k in req:
        part = {x: v for x, v in full.items() if x != k}
        obj = NrwalConfig(w.config())
        how = rng.random()

        def go():
            if how < 0.5:
                return obj.evaluate(part)
            obj.inputs = part
            return obj.evaluate()
        e = ctx.raises(go, (RuntimeError,), 'evaluated without a required '
                       'input', '{} left out of {}'.format(k, w.entries))
        ctx.check(k in names_in(str(e), req), 'message does not name the '
                  'missing input', lambda: '{}: {}'.format(k, e))
        ctx.check(not obj.solvable and obj.missing_inputs == [k],
                  'wrong missing inputs', lambda: '{} left out, got {}'.format(
                      k, obj.missing_inputs))
        ctx.count('left out')
    used = set()
    for p in [p for t in w.entries.values()
              for p in ref.PATH.findall(str(t))]:
        try:
            node = w.ref.target(p)
        except KeyError:
            continue
        if node.kind == 'eq':
            used |= set(node.variables())
            if set(node.variables()) & set(node.scope) - set(w.entries):
                ctx.count('defaults not required')
    if used & set(w.entries):
        ctx.count('entries not required')
    if len(req) > 1:
        ctx.sig(sorted(map(str, w.entries.items())), sorted(w.pvars)
                if hasattr(w, 'pvars') else None)
        ctx.sample('needs', {'entries': w.entries, 'required': req})


def crossed(ctx, rng):
    """Equations of directories with different defaults share variables."""
    from NRWAL import NrwalConfig
    vs = gen.names(rng, rng.randint(2, 4), avoid=gen.EQ_NAMES)
    spec = {'vars': None, 'files': {}, 'dirs': {}}
    dirs = rng.sample(['one', 'two', 'd_3', '2015', 'dd'], rng.randint(2, 3))
    for i, name in enumerate(dirs):
        own = rng.sample(vs, rng.randint(1, len(vs) - 1)) \
            if i == 0 or rng.random() < 0.4 else []
        eqs = {'e{}'.format(j): ' + '.join(rng.sample(
            vs, rng.randint(1, len(vs))) + [str(rng.randint(1, 9))])
            for j in range(rng.randint(1, 3))}
        spec['dirs'][name] = {
            'vars': {v: rng.randint(2, 90) for v in own} or None,
            'files': {'g': (rng.choice(['.yaml', '.json']), eqs)}, 'dirs': {}}
    if rng.random() < 0.3:
        spec['vars'] = {v: rng.randint(2, 90) for v in rng.sample(
            vs, rng.randint(1, len(vs) - 1))}
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    node = ref.root(spec)
    paths = ref.eq_paths(spec)
    entries = {}
    for i, p in enumerate(rng.sample(paths, len(paths))):
        entries['out_{}'.format(i)] = rng.choice(
            ['{}', '{}', '2 * {}', '({} - 3) / 2', '{} ** 2']).format(p)
    if rng.random() < 0.3:
        entries[rng.choice(vs)] = rng.randint(2, 9)
    elif rng.random() < 0.3:
        v, u = rng.sample(vs, 2)
        entries[v] = '{} * 3'.format('other_in')
    if rng.random() < 0.5:
        # defaults of the library are not those of a config expression
        v, u = rng.sample(vs, 2)
        t = rng.choice(['{} * 2 + {}', 'np.maximum({}, {})', '({} - {}) / 3',
                        '{} * np.abs({})']).format(v, u)
        if not set(entries) & {v, u}:
            entries['own_'] = t
            ctx.count('expressions of the config')
    cfg = ref.RefConfig(entries, node)
    req = cfg.required()
    items = list(entries.items())
    rng.shuffle(items)
    obj = NrwalConfig(dict(items, equation_directory=path))
    ctx.check(sorted(obj.required_inputs) == req, 'wrong required inputs',
              lambda: 'got {} expected {} for {} library {}'.format(
                  obj.required_inputs, req, entries, spec))
    have = {}
    for k in rng.sample(req, len(req)):
        ctx.check(not obj.solvable, 'wrong solvable', lambda: str(entries))
        e = ctx.raises(lambda: obj.evaluate(), (RuntimeError,),
                       'evaluated with missing inputs', '{} of {}'.format(
                           k, entries))
        ctx.check(k in names_in(str(e), req), 'message does not name the '
                  'missing input', lambda: '{}: {}'.format(k, e))
        have[k] = gen.value(rng)
        obj.inputs = {k: have[k]}
        miss = sorted(set(req) - set(have))
        ctx.check(sorted(obj.missing_inputs) == miss, 'wrong missing inputs',
                  lambda: 'got {} expected {} for {} library {}'.format(
                      obj.missing_inputs, miss, entries, spec))
    ctx.check(obj.solvable, 'wrong solvable', lambda: str(entries))
    try:
        out = obj.evaluate()
    except Exception as e:
        ctx.fail('not evaluated with all required inputs',
                 '{!r}: {} inputs {}'.format(e, entries, have))
    refs = ref_outputs(cfg, have)
    for k in refs:
        if refs[k][0] is not None:
            oracle.compare(ctx, out[k], refs[k], 'wrong value', lambda:
                           '{} of {} with {} library {}'.format(
                               k, entries, have, spec))
    scopes = [set(node.at(p).scope) for p in paths]
    used = [set(node.at(p).variables()) for p in paths]
    if any(v in s and any(v in u2 and v not in s2 for u2, s2 in
                          zip(used, scopes))
           for s, u in zip(scopes, used) for v in u):
        ctx.count('default of one equation only')
    ctx.sig(sorted(map(str, entries.items())), str(spec))
    ctx.sample('crossed', {'entries': entries, 'library': spec})


SCENARIOS = [('needs', needs, 1920, 19200),
             ('crossed', crossed, 1200, 12000)]
