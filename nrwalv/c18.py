"""C18: merging libraries is a right-biased union."""
import copy
import json
import os

from nrwalv import c07, c10, c12, gen, oracle, ref
from nrwalv.core import Discard

RULE = ('Random pairs and chains (2-4 operands, also a += b and nested '
        'sums) of equation groups, variable groups and directories with '
        'overlapping member names and variables; right operands are objects, '
        'file or directory paths, or dicts; defaults are set on operands '
        'before and on results after the merge. Member names, values with '
        'defaults and with supplied values, missing variables and lookups of '
        'every member of the result, and of every earlier object, are '
        'compared with a model of the union. Non-trivial: a member or '
        'default on both sides; distinct: by operands.')
ASSUMPTIONS = ['a variables file of the left directory is not replaced when '
               'the right directory has none: whether it serves the members '
               'of the right is not specified, so its names are supplied']
REQUIRE = {'merges': 2000, 'replaced members': 1000, 'kept members': 1000,
           'right path': 300, 'right dict': 200, 'right object': 300,
           'chains': 300, 'defaults of the right': 300,
           'left default kept': 300, 'left default replaced': 200,
           'missing': 500, 'variable groups': 100, 'operands compared': 2000,
           'later changes': 300, 'lookups over both sides': 300,
           'lookups inside the right': 100}

NAMES = ['eq0', 'eq1', 'eq2', 'eqn', 'alpha', 'b_cost']
VARS = c07.VARS


# -- model -----------------------------------------------------------------
class Eq:
    def __init__(self, text, group, name):
        self.node = ref.Node('eq', text, {}, group=group, name=name)
        self.dfl = {}
        self.amb = set()

    def set(self, values, amb=()):
        self.dfl.update(values)
        self.amb |= set(amb)

    def eqs(self, pre):
        return [(pre, self)]


class Grp:
    def __init__(self, data):
        self.dfl = {}
        self.amb = set()
        self.members = {k: Grp(v) if isinstance(v, dict) else Eq(v, data, k)
                        for k, v in data.items()}

    def set(self, values, amb=()):
        self.dfl.update(values)
        for m in self.members.values():
            m.set(values, amb)

    def eqs(self, pre=''):
        return [x for k, m in self.members.items()
                for x in m.eqs(pre + '::' + k if pre else k)]

    def merge(self, other):
        out = copy.deepcopy(self)
        out.members.update(copy.deepcopy(other.members))
        out.set(other.dfl)
        return out


class Vars:
    def __init__(self, data):
        self.data = ref.floats(data)

    def set(self, values, amb=()):
        pass

    def eqs(self, pre=''):
        return []


class Dir:
    def __init__(self, spec, top=True):
        self.dfl = {}
        self.members = {}
        if spec['vars'] is not None:
            self.members['variables'] = Vars(spec['vars'])
        for stem, (_, g) in spec['files'].items():
            self.members[stem] = Grp(g)
        for n, d in spec['dirs'].items():
            if c07.nonempty(d):
                self.members[n] = Dir(d, False)
        if top:
            self.set({})

    def own(self):
        v = self.members.get('variables')
        return v.data if v is not None else {}

    def set(self, values, amb=()):
        values = {**values, **self.own()}
        amb = set(amb)
        self.dfl.update(values)
        for m in self.members.values():
            m.set(values, amb - set(m.own()) if isinstance(m, Dir) else amb)

    eqs = Grp.eqs

    def merge(self, other):
        out = copy.deepcopy(self)
        out.members.update(copy.deepcopy(other.members))
        amb = set() if 'variables' in other.members else set(self.own())
        out.set({k: v for k, v in other.dfl.items()}, amb)
        return out


# -- checks ----------------------------------------------------------------
def get(obj, model, path):
    """The member at a path, sometimes step by step."""
    out = obj
    for k in path.split('::'):
        out = out[k]
    return out


def agree(ctx, rng, obj, model, what, full=True):
    """Everything an object shows against its model."""
    def keys(o, m, pre):
        if isinstance(m, Eq):
            ctx.check(type(o).__name__ == 'Equation', 'wrong member', lambda:
                      '{} is {} in {}'.format(pre, type(o).__name__, what()))
            return
        if isinstance(m, Vars):
            ctx.check(type(o).__name__ == 'VariableGroup' and
                      dict(o.items()) == m.data, 'wrong variables', lambda:
                      '{}: {} expected {} in {}'.format(
                          pre, dict(o.items()), m.data, what()))
            ctx.check(all(o[k] == v for k, v in m.data.items()),
                      'wrong variables', lambda: '{} in {}'.format(pre, what()))
            return
        ctx.check(len(list(o.keys())) == len(set(o.keys())) and
                  set(o.keys()) == set(m.members), 'wrong members', lambda:
                  '{}: {} expected {} in {}'.format(
                      pre or 'top', list(o.keys()), list(m.members), what()))
        for k, mm in m.members.items():
            ctx.check(k in o, 'wrong members', lambda: k)
            keys(dict(o.items())[k], mm, pre + '::' + k)
    keys(obj, model, '')
    eqs = model.eqs('')
    if len(eqs) > 14 and not full:
        eqs = rng.sample(eqs, 14)
    oracle.set_precision(oracle.U64)
    for path, m in eqs:
        eq = obj[path] if rng.random() < 0.7 else get(obj, model, path)
        vs = m.node.variables()
        ctx.check(list(eq.variables) == vs, 'wrong variables', lambda:
                  '{}: {} expected {} in {}'.format(path, eq.variables, vs,
                                                    what()))
        free = [v for v in vs if v not in m.dfl or v in m.amb]
        for v in vs:
            if v not in m.amb:
                got = eq.default_variables.get(v)
                ctx.check(got == m.dfl.get(v), 'wrong default', lambda:
                          '{} of {} is {} not {} in {}'.format(
                              v, path, got, m.dfl.get(v), what()))
        sup = {v: gen.value(rng) for v in free}
        for v in vs:
            if v not in sup and rng.random() < 0.25:
                sup[v] = gen.value(rng)

        def look(n, s):
            return oracle.EV(sup[n] if n in sup else m.dfl[n])
        try:
            r = oracle.usable(m.node.value(look))
        except Discard:
            ctx.count('ill conditioned')
            continue
        oracle.compare(ctx, eq.evaluate(**sup), [r], 'wrong value', lambda:
                       '{} with {} defaults {} in {}'.format(
                           path, sup, m.dfl, what()))
        ctx.count('members')
        drop = [v for v in free if v not in m.amb]
        if drop:
            v = rng.choice(drop)
            ctx.raises(lambda: eq.evaluate(**{k: x for k, x in sup.items()
                                              if k != v}), (RuntimeError,),
                       'missing variable accepted', '{} of {} in {}'.format(
                           v, path, what()))
            ctx.count('missing')


def tally(ctx, a, b):
    for k, m in a.members.items():
        if k in b.members:
            ctx.count('replaced members')
        else:
            ctx.count('kept members')
            for _, e in m.eqs(k):
                for v in e.node.variables():
                    if v in e.dfl:
                        same = v in b.dfl
                        ctx.count('left default replaced' if same and
                                  b.dfl[v] != e.dfl[v] else
                                  'left default kept')
    if b.dfl:
        ctx.count('defaults of the right')


# -- operands --------------------------------------------------------------
def group_data(rng, depth=1):
    data = {}
    for k in rng.sample(NAMES, rng.randint(1, 4)):
        r = rng.random()
        vs = rng.sample(VARS, rng.randint(1, 3)) + ['x']
        if r < 0.15:
            data[k] = rng.choice([rng.randint(1, 9), 2.5, '-3'])
        elif r < 0.4 and data:
            # a reference to another equation of the same group
            o = rng.choice(list(data))
            data[k] = '{} * {} + {}'.format(rng.randint(2, 5), o, vs[0])
        else:
            data[k] = ' + '.join('{} * {}'.format(rng.randint(1, 9), v)
                                 for v in vs)
    if depth and rng.random() < 0.6:
        for s in rng.sample(['set_1', 'set_2', 'eqn_set'], rng.randint(1, 2)):
            data[s] = group_data(rng, depth - 1)
    return data


def values(rng, n=2):
    return {v: round(rng.uniform(1, 99), 2)
            for v in rng.sample(VARS, rng.randint(1, n))}


def group_operand(ctx, rng, right):
    """operand, model, description"""
    from NRWAL import EquationGroup
    data = group_data(rng)
    m = Grp(data)
    kind = rng.choice(['object', 'object', 'file object', 'path', 'dict']
                      if right else ['object', 'file object'])
    given = copy.deepcopy(data)
    if kind in ('file object', 'path'):
        fp = os.path.join(ctx.tmpdir(), 'grp' + rng.choice(
            ['.yaml', '.yml', '.json']))
        ref.dump(data, fp)
        op = fp if kind == 'path' else EquationGroup(fp)
    else:
        op = given if kind == 'dict' else EquationGroup(given)
    dfl = {}
    if kind.endswith('object') and rng.random() < 0.7:
        dfl = values(rng, 3)
        op.set_default_variables(dict(dfl))
        m.set(dfl)
    if kind.endswith('object') and rng.random() < 0.3:
        # a member with a default of its own
        p, e = rng.choice(m.eqs())
        v = values(rng, 1)
        op[p].set_default_variables(v)
        e.set(v)
    return op, m, {'kind': kind, 'data': data, 'defaults': dfl}


def dir_operand(ctx, rng, right):
    from NRWAL import EquationDirectory
    spec = c07.tree(rng, rng.choice([0, 1, 1, 2]))
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    kind = rng.choice(['object', 'path']) if right else 'object'
    m = Dir(spec)
    op = path if kind == 'path' else EquationDirectory(path)
    dfl = {}
    if kind == 'object' and rng.random() < 0.5:
        dfl = values(rng, 2)
        op.set_default_variables(dict(dfl))
        m.set(dfl)
    return op, m, {'kind': kind, 'data': spec, 'defaults': dfl}


def vars_operand(ctx, rng, right):
    from NRWAL.handlers.groups import VariableGroup
    data = {v: rng.choice([rng.randint(0, 99), round(rng.uniform(-9, 9), 2)])
            for v in rng.sample(VARS + ['x', 'y_1'], rng.randint(1, 5))}
    kind = rng.choice(['object', 'path', 'dict']) if right else 'object'
    op = data
    if kind == 'path':
        op = os.path.join(ctx.tmpdir(), 'variables' + rng.choice(
            ['.yaml', '.yml', '.json']))
        ref.dump(data, op)
    elif kind == 'object':
        op = VariableGroup(dict(data))
    return op, data, {'kind': kind, 'data': data}


def plain(op):
    return isinstance(op, (str, dict))


def run(ctx, rng, operand):
    n = rng.choice([2, 2, 2, 3, 4])
    ops = [operand(ctx, rng, False)]
    ops += [operand(ctx, rng, True) for _ in range(n - 1)]
    log = [o[2] for o in ops]
    if n > 2:
        ctx.count('chains')

    def what():
        return json.dumps(log, default=str)
    before = [json.dumps(o[0]) if plain(o[0]) else c12.finger(o[0])
              for o in ops]
    acc, am, _ = ops[0]
    mids = []
    # ((a + b) + c) or a + (b + c)
    if n > 2 and not plain(ops[1][0]) and rng.random() < 0.4:
        right, rm = ops[1][:2]
        for o, m, _ in ops[2:]:
            tally(ctx, rm, m)
            right, rm = right + o, rm.merge(m)
            ctx.count('merges')
        todo = [(right, rm)]
        mids.append((right, rm))
        log.append('right first')
    else:
        todo = [o[:2] for o in ops[1:]]
    for o, m in todo:
        ctx.count('right ' + ('path' if isinstance(o, str) else 'dict'
                              if isinstance(o, dict) else 'object'))
        tally(ctx, am, m)
        if rng.random() < 0.2:
            old = acc
            acc += o
            ctx.check(acc is not old, 'left operand changed', what)
        else:
            acc = acc + o
        ctx.check(type(acc) is type(ops[0][0]), 'wrong type', lambda:
                  '{} for {}'.format(type(acc), what()))
        am = am.merge(m)
        mids.append((acc, am))
        ctx.count('merges')
    for o, m in mids:
        agree(ctx, rng, o, m, what, full=False)
    for (o, _, _), f in zip(ops, before):
        now = json.dumps(o) if plain(o) else c12.finger(o)
        ctx.check(now == f, 'operand changed', lambda: '{} for {}'.format(
            c12.diff(f, now) if isinstance(f, list) else now, what()))
        ctx.count('operands compared')
    # changes of the result do not reach operands, and the other way round
    if rng.random() < 0.6:
        v = values(rng)
        acc.set_default_variables(dict(v))
        am.set(v)
        log.append({'set on result': v})
        for (o, _, _), f in zip(ops, before):
            now = json.dumps(o) if plain(o) else c12.finger(o)
            ctx.check(now == f, 'operand changed', lambda: '{} for {}'.format(
                c12.diff(f, now) if isinstance(f, list) else now, what()))
        ctx.count('later changes')
    if rng.random() < 0.6:
        o, m, _ = rng.choice(ops)
        if not plain(o):
            v = values(rng)
            log.append({'set on an operand': v})
            o.set_default_variables(v)
            ctx.count('later changes')
    agree(ctx, rng, acc, am, what, full=False)
    ctx.sig(what())
    ctx.sample(operand.__name__, log)


def groups(ctx, rng):
    run(ctx, rng, group_operand)


def directories(ctx, rng):
    run(ctx, rng, dir_operand)


def variable_groups(ctx, rng):
    ops = [vars_operand(ctx, rng, False)]
    ops += [vars_operand(ctx, rng, True) for _ in range(rng.randint(1, 3))]
    want = {}
    acc = None
    befores = [dict(o[0].items()) if not plain(o[0]) else o[0] for o in ops]
    for o, d, _ in ops:
        acc = o if acc is None else acc + o
        want.update(ref.floats(d))
        ctx.count('merges')
    what = str([o[2] for o in ops])
    ctx.check(dict(acc.items()) == want and set(acc.keys()) == set(want),
              'wrong variables', lambda: '{} expected {} for {}'.format(
                  dict(acc.items()), want, what))
    for k, v in want.items():
        ctx.check(acc[k] == v and k in acc, 'wrong variables', lambda:
                  '{}={} expected {} for {}'.format(k, acc[k], v, what))
    for o, f in zip(ops, befores):
        now = dict(o[0].items()) if not plain(o[0]) else o[0]
        ctx.check(now == f, 'operand changed', what)
        ctx.count('operands compared')
    ctx.count('variable groups')
    ctx.sig(what)


def lookups(ctx, rng):
    """Lookup flags after a merge, also over members of both sides."""
    from NRWAL import EquationDirectory, EquationGroup
    free, data, fams = c10.make(rng, depth=1)
    flags = c10.flagset(rng)
    if not any(flags.values()):
        flags[rng.choice(sorted(flags))] = True
    top = [k for k, v in data.items() if not isinstance(v, dict)]
    mine = set(rng.sample(sorted(data), rng.randint(0, len(data))))
    a = {k: v for k, v in data.items() if k in mine}
    b = {k: v for k, v in data.items() if k not in mine}
    # replaced members of the left must not be found
    for k in rng.sample(sorted(b), rng.randint(0, len(b))):
        a.setdefault(k, 7777 if k in top else {'gone_2020': 3})
    kind = rng.choice(['dict', 'path', 'object', 'directory'])
    if kind == 'directory':
        # groups of a path operand are loaded with the flags of the left
        d1, d2 = ctx.tmpdir(), ctx.tmpdir()
        ref.write_dir({'files': {'one': ('.yaml', {'a': 1})}}, d1)
        ref.write_dir({'files': {'two': ('.yaml', data)},
                       'dirs': {'sub': {'files': {'two': ('.json', data)}}}},
                      d2)
        out = EquationDirectory(d1, **c10.given(rng, flags)) + d2
        pre = rng.choice(['two::', 'sub::two::'])
        c10.check(ctx, rng, lambda k: out[k], free, fams, flags, prefix=pre)
        ctx.count('lookups inside the right')
    else:
        left = EquationGroup(a, **c10.given(rng, flags))
        right = b
        if kind == 'path':
            right = os.path.join(ctx.tmpdir(), 'g.yaml')
            ref.dump(b, right)
        elif kind == 'object':
            right = EquationGroup(b, **c10.given(rng, flags))
        out = left + right
        ctx.count('lookups over both sides')
        if any('::' in p for p, _, _, _ in fams):
            ctx.count('lookups inside the right')
        c10.check(ctx, rng, lambda k: out[k], free, fams, flags)
    ctx.count('merges')
    ctx.sig(str(data), kind, str(flags))


SCENARIOS = [('groups', groups, 3000, 40000),
             ('directories', directories, 1600, 24000),
             ('variable_groups', variable_groups, 800, 4000),
             ('lookups', lookups, 1600, 16000)]
