"""C07: default variables are scoped by directory and overridable."""
import copy
import os

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.common import names_in
from nrwalv.core import Discard

RULE = ('Random directory trees (depth 0-3) in which the same variable names '
        'are defined at several levels and in siblings, with equations that '
        'use them at every level and in nested groups; default values, missing '
        'variables and values of every equation are compared with a scope '
        'computed from the tree, with and without supplied values, after '
        'random set_default_variables calls (forced or not) at any level, and '
        'through configs with constants and inputs. Non-trivial: a name '
        'defined in two directories; distinct: by tree.')
ASSUMPTIONS = ['histories set defaults from the top downwards, unforced '
               'before forced, as the order between re-applied own definitions '
               'and forced values is not specified']
REQUIRE = {'equations': 3000, 'shadowed': 300, 'sibling only': 300,
           'overridden values': 1000, 'set unforced': 100, 'set forced': 100,
           'own definition kept': 30, 'config constant overrides': 100,
           'config input overrides': 100, 'operands of two scopes': 20, 'missing': 300,
           'zero supplied': 300,
           'constant over default in an alias': 200}

VARS = ['v', 'v1', 'rate', 'rate_x', 'dv']


def tree(rng, depth, top=True):
    spec = {'vars': None, 'files': {}, 'dirs': {}}
    if rng.random() < (0.6 if top else 0.5):
        spec['vars'] = {v: rng.choice([rng.randint(1, 99), rng.choice(
            [0, 0.0, -rng.randint(1, 9), 1, 1e-7, 123456789]),
                                       round(rng.uniform(0.5, 90), 3)])
                        for v in rng.sample(VARS, rng.randint(1, 3))}
        spec['vars_ext'] = rng.choice(['.yaml', '.yml', '.json'])
    # directory order (sorted by name) relative to files matters for leaks
    for stem in rng.sample(['aa', 'mm', 'zz', 'Tt', 'turb'],
                           rng.randint(0 if depth else 1, 2)):
        g = {}
        for i in range(rng.randint(1, 3)):
            vs = rng.sample(VARS, rng.randint(1, 3)) + ['x']
            g['eq{}'.format(i)] = ' + '.join(
                '{} * {}'.format(rng.randint(1, 9), v) for v in vs)
        if rng.random() < 0.5:
            vs = rng.sample(VARS, 2)
            g['set_1'] = {'eqn': '{} - {}'.format(*vs),
                          'set_2': {'eqd': '{} / 2'.format(rng.choice(VARS))}}
        spec['files'][stem] = (rng.choice(['.yaml', '.yml', '.json']), g)
    if depth:
        for name in rng.sample(['a_dir', 'b_dir', 'n_dir', 'x_dir', '2015',
                                'Z', 'vvv'], rng.randint(1, 3)):
            spec['dirs'][name] = tree(rng, depth - 1, False)
    return spec


def nonempty(spec):
    return bool(spec['files'] or spec['vars'] or any(
        nonempty(d) for d in spec['dirs'].values()))


class Scoped:
    """Every equation of the tree with its expected defaults."""

    def __init__(self, spec):
        self.spec = spec
        self.node = ref.root(spec)
        self.paths = ref.eq_paths(spec)
        self.scope = {p: dict(self.node.at(p).scope) for p in self.paths}
        self.allnames = set()

        def walk(s):
            self.allnames.update(s['vars'] or {})
            for d in s['dirs'].values():
                walk(d)
        walk(spec)

    def dirs(self):
        """dir path -> spec"""
        out = {'': self.spec}

        def walk(s, pre):
            for n, d in s['dirs'].items():
                out[pre + n] = d
                walk(d, pre + n + '::')
        walk(self.spec, '')
        return out

    def set(self, dpath, values, force):
        """Model of directory.set_default_variables."""
        def walk(s, pre, given):
            given = dict(given)
            if not force:
                given.update(ref.floats(s['vars']))
            for stem, (_, g) in s['files'].items():
                for p in self.paths:
                    if p.startswith(pre + stem + '::'):
                        self.scope[p].update(given)
            for n, d in s['dirs'].items():
                walk(d, pre + n + '::', given)
        walk(self.dirs()[dpath], dpath + '::' if dpath else '', values)


def check_all(ctx, rng, d, sc, what, extra=()):
    names = sc.allnames | set(extra)
    for p in sc.paths:
        eq = d[p]
        scope = sc.scope[p]
        node = sc.node.at(p)
        vs = node.variables()
        dfl = dict(eq.default_variables)
        for n in vs:
            if n in scope:
                ctx.check(n in dfl and dfl[n] == scope[n], 'wrong default',
                          lambda: '{} of {} is {} not {} {} tree {}'.format(
                              n, p, dfl.get(n), scope[n], what, sc.spec))
            else:
                ctx.check(n not in dfl, 'default out of scope', lambda:
                          '{}={} seen by {} {} tree {}'.format(
                              n, dfl[n], p, what, sc.spec))
                if n in names:
                    ctx.count('sibling only')
        for n in dfl:
            ctx.check(n in scope and scope[n] == dfl[n], 'default out of scope',
                      lambda: '{}={} seen by {} (scope {}) {} tree {}'.format(
                          n, dfl[n], p, scope, what, sc.spec))
        miss = [n for n in vs if n not in scope]
        oracle.set_precision(oracle.U64)
        # all missing ones absent: refused
        if miss:
            e = ctx.raises(lambda: eq.evaluate(), (RuntimeError,),
                           'evaluated with a variable out of scope',
                           '{} missing {} {} tree {}'.format(p, miss, what,
                                                             sc.spec))
            msg = str(e).replace(str(eq), '')
            ctx.check(names_in(msg, miss) == set(miss), 'missing not named',
                      lambda: '{} {}'.format(miss, msg))
            ctx.count('missing')
        sup = {n: gen.value(rng) for n in miss}
        for _ in range(2):
            evs = {n: oracle.EV(scope[n]) for n in vs if n in scope}
            evs.update({n: oracle.EV(v) for n, v in sup.items()})
            r = node.value(lambda n, s: evs[n])
            got = eq.evaluate(**sup)
            oracle.compare(ctx, got, [r], 'wrong value', lambda:
                           '{}={!r} with {} scope {} {} tree {}'.format(
                               p, node.data, sup, scope, what, sc.spec))
            over = [n for n in vs if n in scope and rng.random() < 0.6]
            if over:
                ctx.count('overridden values')
            sup = dict(sup)
            sup.update({n: supplied(ctx, rng) for n in over})
        ctx.count('equations')


def supplied(ctx, rng):
    """A value that overrides a default; zero and negative ones too."""
    k = rng.random()
    if k < 0.15:
        ctx.count('zero supplied')
        return rng.choice([0, 0.0])
    if k < 0.3:
        return -gen.value(rng)
    return gen.value(rng)


def make(ctx, rng):
    spec = tree(rng, rng.choice([1, 2, 2, 3]))
    if not nonempty(spec) or not ref.eq_paths(spec):
        raise Discard('empty')
    path = os.path.join(ctx.tmpdir(), 'lib')
    ref.write_dir(spec, path)
    return spec, path


def scoping(ctx, rng):
    from NRWAL import EquationDirectory
    spec, path = make(ctx, rng)
    sc = Scoped(spec)
    d = EquationDirectory(path)
    for p in sc.paths:
        levels = [spec]
        cur = spec
        for k in p.split('::'):
            if k in cur.get('dirs', {}):
                cur = cur['dirs'][k]
                levels.append(cur)
        for v in VARS:
            if sum(v in (x['vars'] or {}) for x in levels) > 1:
                ctx.count('shadowed')
    check_all(ctx, rng, d, sc, 'as loaded')
    # sub directories loaded on their own only see what is below
    subs = [k for k, s in sc.dirs().items() if k and nonempty(s)]
    if subs and rng.random() < 0.4:
        k = rng.choice(subs)
        s2 = Scoped(sc.dirs()[k])
        d2 = EquationDirectory(os.path.join(path, *k.split('::')))
        check_all(ctx, rng, d2, s2, 'loaded on its own: ' + k)
    if sum(bool(s['vars']) for s in sc.dirs().values()) > 1:
        ctx.sig(str(spec))
        ctx.sample('scoping', spec)


def setting(ctx, rng):
    """Histories of set_default_variables."""
    from NRWAL import EquationDirectory
    spec, path = make(ctx, rng)
    sc = Scoped(spec)
    d = EquationDirectory(path)
    dirs = {k: s for k, s in sc.dirs().items() if nonempty(s)}
    steps = []
    todo = [''] * rng.randint(0, 2) + sorted(
        rng.sample(sorted(dirs), rng.randint(0, min(3, len(dirs)))),
        key=lambda k: (k.count('::') + bool(k)))
    split = rng.randint(0, len(todo))
    plan = [(k, False) for k in todo[:split]]
    rest = todo[split:] or ['']
    plan += [(k, True) for k in rest]
    extra = set()
    for k, force in plan:
        vals = {v: round(rng.uniform(100, 999), 2) for v in
                rng.sample(VARS + ['x'], rng.randint(1, 3))}
        extra |= set(vals)
        given = copy.deepcopy(vals)
        obj = d[k] if k else d
        # d[k] of an explicit dir
        obj.set_default_variables(vals, force_update=force) if force or \
            rng.random() < 0.5 else obj.set_default_variables(vals)
        ctx.check(vals == given, 'argument changed', lambda: str(vals))
        sc.set(k, vals, force)
        steps.append((k, vals, force))
        ctx.count('set forced' if force else 'set unforced')
        if not force:
            for kk, s in dirs.items():
                if (kk == k or kk.startswith(k + '::') or not k) \
                        and set(s['vars'] or {}) & set(vals):
                    ctx.count('own definition kept')
        check_all(ctx, rng, d, sc, 'after {}'.format(steps), extra)
    if rng.random() < 0.3:
        # nothing to set
        p = rng.choice(sc.paths)
        rng.choice([d[p], d[p.rsplit('::', 1)[0]]]).set_default_variables(
            None)
        check_all(ctx, rng, d, sc, 'after {} and None on {}'.format(
            steps, p), extra)
    # groups and single equations last
    if rng.random() < 0.6:
        p = rng.choice(sc.paths)
        if rng.random() < 0.5:
            val = {rng.choice(VARS): 5555.5}
            d[p].set_default_variables(val)
            sc.scope[p].update(val)
        else:
            g = p.rsplit('::', 1)[0]
            val = {rng.choice(VARS): 4444.5}
            d[g].set_default_variables(val)
            for q in sc.paths:
                if q.startswith(g + '::'):
                    sc.scope[q].update(val)
        extra |= set(val)
        check_all(ctx, rng, d, sc, 'after {} and {} on {}'.format(
            steps, val, p), extra)
    ctx.sig(str(spec), str(steps))
    ctx.sample('setting', {'tree': spec, 'steps': steps})


def mate(sc, p, q, consts):
    """Each variable of p + q has one definition: a variable used by both
    with two different values, or used by the one that does not define it,
    has no single value in the sum."""
    a, b = sc.scope[p], sc.scope[q]
    va, vb = sc.node.at(p).variables(), sc.node.at(q).variables()
    for v in (set(va) | set(vb)) - set(consts):
        users = [s for s, u in ((a, va), (b, vb)) if v in u]
        if any(s.get(v) != users[0].get(v) for s in users):
            return False
        if v not in users[0] and (v in a or v in b):
            return False
    return True


def config(ctx, rng):
    """Constants and inputs of a config against defaults of the library."""
    from NRWAL import NrwalConfig
    spec, path = make(ctx, rng)
    sc = Scoped(spec)
    consts = {v: rng.choice([round(rng.uniform(1, 50), 2), rng.randint(1, 50)])
              for v in rng.sample(VARS + ['x'], rng.randint(1, 3))}
    paths = [p for p in sc.paths if not p.split('::')[0] in VARS]
    ents = {}
    for i in range(rng.randint(1, 4)):
        p = rng.choice(paths)
        ents['out_{}'.format(i)] = [p]
    if rng.random() < 0.5:
        # operands may come from directories with other definitions
        p = rng.choice(paths)
        mates = [q for q in paths if mate(sc, p, q, consts)]
        q = rng.choice(mates)
        ents['both'] = [p, q]
        vs = set(sc.node.at(p).variables()) | set(sc.node.at(q).variables())
        if any(v in sc.scope[p] and v in sc.scope[q] and
               sc.scope[p][v] != sc.scope[q][v] for v in vs):
            ctx.count('operands of two scopes')
    if rng.random() < 0.3:
        g = rng.choice(paths)
        ents['via'] = ['grp::' + g.rsplit('::', 1)[1]]
        consts_grp = g.rsplit('::', 1)[0]
    cfg = {'equation_directory': path}
    cfg.update(consts)
    for k, ps in ents.items():
        cfg[k] = ' + '.join(ps)
    if 'via' in ents:
        cfg['grp'] = consts_grp
        ents['via'] = [consts_grp + ents['via'][0][len('grp'):]]
    if rng.random() < 0.3 and consts:
        c = rng.choice(sorted(consts))
        cfg['call'] = 'np.abs({}) + 0.5'.format(c)
    items = list(cfg.items())
    rng.shuffle(items)
    obj = NrwalConfig(dict(items))
    need = set()
    for ps in ents.values():
        for p in ps:
            need |= {v for v in sc.node.at(p).variables()
                     if v not in sc.scope[p] and v not in consts}
    base = {n: gen.value(rng) for n in need}
    arr = rng.random() < 0.3
    log = []
    for step in range(rng.randint(2, 4)):
        over = {n: (gen.array(rng, 3, np.float32) if arr else
                    supplied(ctx, rng))
                for n in VARS + ['x']
                if n not in need and rng.random() < 0.4 and step}
        inputs = dict(base, **over)
        obj.inputs = None
        out = obj.evaluate(inputs) if rng.random() < 0.5 else None
        if out is None:
            obj.inputs = inputs
            out = obj.evaluate()
        log.append(inputs)
        is_arr = any(isinstance(v, np.ndarray) for v in inputs.values())
        oracle.set_precision(oracle.U32 if is_arr else oracle.U64)
        for k, ps in ents.items():
            refs = []
            for pos in range(3 if is_arr else 1):
                tot = None
                evs = ref.ev_inputs(inputs, pos)
                for p in ps:
                    node = sc.node.at(p)

                    def look(n, s):
                        if n in evs:
                            return evs[n]
                        if n in consts:
                            return oracle.EV(float(consts[n]))
                        return oracle.EV(sc.scope[p][n])
                    v = node.value(look)
                    tot = v if tot is None else tot + v
                    for n in node.variables():
                        if n in evs and n in over and (
                                n in consts or n in sc.scope[p]):
                            ctx.count('config input overrides')
                        elif n in consts and n in sc.scope[p]:
                            ctx.count('config constant overrides')
                refs.append(tot)
            oracle.compare(ctx, out[k], refs, 'wrong value', lambda:
                           '{} of {} with inputs {} (earlier {}) tree {}'
                           .format(k, cfg, inputs, log, spec))
        if 'call' in out:
            c = cfg['call'][7:].split(')')[0]
            v = np.abs(inputs.get(c, consts[c]))
            r = [oracle.exact(0.5) + oracle.EV(oracle.site(v, i))
                 for i in range(v.size if isinstance(v, np.ndarray) else 1)]
            oracle.compare(ctx, out['call'], r, 'wrong value', lambda:
                           '{} with {}'.format(cfg['call'], inputs))
    ctx.sig(str(sorted(cfg.items())), str(spec))
    ctx.sample('config', {'config': cfg, 'inputs': log})


def inline(ctx, rng):
    """A constant by name inside config arithmetic: see known findings."""
    from NRWAL import NrwalConfig
    d = ctx.tmpdir()
    k, x = gen.names(rng, 2)
    c, v, w = rng.randint(2, 5), rng.randint(6, 9), rng.randint(2, 4)
    obj = NrwalConfig({k: c, 'z_out': '{} * {}'.format(k, x),
                       'equation_directory': d})
    out = obj.evaluate({x: float(w)})['z_out']
    ctx.check(out == c * w, 'wrong value', lambda: '{}'.format(out))
    out = obj.evaluate({k: float(v), x: float(w)})['z_out']
    if out == c * w:
        ctx.known_finding('inline_constant', 'input {}={} does not override '
                          'the constant {}={} in "{} * {}"'.format(
                              k, v, k, c, k, x))
        ctx.count('known inline constant')
    else:
        ctx.check(out == v * w, 'wrong value', lambda: 'input {} over constant '
                  '{}: {} * {} is {}'.format(v, c, k, x, out))
    ctx.count('inline')


def aliased(ctx, rng):
    """Config constants against the defaults seen through an entry that
    names a directory or group."""
    from NRWAL import NrwalConfig
    spec, path = make(ctx, rng)
    sc = Scoped(spec)
    consts = {v: round(rng.uniform(100, 500), 2)
              for v in rng.sample(VARS, rng.randint(1, 3))}
    pre = sorted({p.rsplit('::', j)[0] for p in sc.paths
                  for j in range(1, p.count('::') + 1)})
    pre = [p for p in pre if not ref.is_num(p) and p not in VARS]
    if not pre:
        raise Discard('no prefix')
    al = rng.choice(pre)
    inside = [p for p in sc.paths if p.startswith(al + '::')]
    cfg = dict(consts, al=al, equation_directory=path)
    for i in range(rng.choice([0, 0, 4, 12])):
        cfg['cst_{}'.format(i)] = rng.randint(1, 9)
    outs = {'o_{}'.format(i): p for i, p in
            enumerate(rng.sample(inside, min(3, len(inside))))}
    cfg.update({k: 'al' + p[len(al):] for k, p in outs.items()})
    items = list(cfg.items())
    rng.shuffle(items)
    obj = NrwalConfig(dict(items))
    vals = {v: gen.value(rng) for v in VARS + ['x']}

    def value(p, given):
        node = sc.node.at(p)

        def look(n, s):
            if n in given:
                return oracle.EV(given[n])
            if n in consts:
                return oracle.EV(consts[n])
            return oracle.EV(sc.scope[p][n])
        return node.value(look)
    oracle.set_precision(oracle.U64)
    for p in inside:
        node = sc.node.at(p)
        vs = node.variables()
        given = {v: vals[v] for v in vs
                 if v not in consts and v not in sc.scope[p]}
        got = obj['al'][p[len(al) + 2:]].evaluate(**given)
        oracle.compare(ctx, got, [value(p, given)], 'wrong value through an '
                       'alias', lambda: '{} in {} constants {} with {} tree {}'
                       .format(p, al, consts, given, spec))
        if set(vs) & set(consts) & set(sc.scope[p]):
            ctx.count('constant over default in an alias')
    need = {v: vals[v] for p in outs.values()
            for v in sc.node.at(p).variables()
            if v not in consts and v not in sc.scope[p]}
    out = obj.evaluate(need)
    for k, p in outs.items():
        given = {v: x for v, x in need.items()}
        oracle.compare(ctx, out[k], [value(p, given)], 'wrong value',
                       lambda: '{} of {} with {} tree {}'.format(
                           k, cfg, need, spec))
    ctx.sig(str(sorted(map(str, cfg.items()))), str(spec))
    ctx.sample('aliased', cfg)


SCENARIOS = [('scoping', scoping, 1200, 12000), ('setting', setting, 960, 9600),
             ('config', config, 1200, 12000), ('inline', inline, 16, 64),
             ('aliased', aliased, 640, 6400)]
