"""C17: the shipped library and configs give their published values."""
import json
import os
import re

import numpy as np

from nrwalv import core, ref
from nrwalv.core import Discard

RULE = ('Every equation of the shipped library and every shipped default '
        'config is evaluated through NRWAL at random physically plausible '
        'inputs (scalars, arrays, profiles, overridden defaults and '
        'constants) and compared with an independent numpy evaluation of the '
        'published texts frozen in /verif/data/library.json, which resolves '
        'references, aliases, file pointers, scoped defaults and power/year '
        'interpolation by itself; names, variables, defaults, required inputs '
        'and output names are compared too. Added equations and configs are '
        'allowed. Non-trivial: an equation with a variable or a config; '
        'distinct: by path and inputs.')
ASSUMPTIONS = ['the published values are those of the library texts at the '
               'pinned commit', 'tolerance: 1e-9 relative plus 100 times the '
               'effect of a 1e-13 (float32 arrays: 3e-7) relative change of '
               'the inputs']
REQUIRE = {'equation values': 3000, 'equations': 1147, 'config values': 3000,
           'configs': 52, 'defaults compared': 50, 'array values': 500,
           'overridden defaults': 200, 'interpolated lookups': 40,
           'profiles': 6, 'default dir used': 50}

DATA = {}
PATH = ref.PATH
FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year')


def setup():
    with open(os.path.join(core.VERIF, 'data', 'library.json')) as f:
        DATA.update(json.load(f))
    DATA['node'] = ref.root(DATA['library'])
    DATA['paths'] = ref.eq_paths(DATA['library'])


class Names(dict):
    def __init__(self, look):
        super().__init__()
        self.look = look

    def __missing__(self, n):
        return self.look(n)


_code = {}


def run_text(text, look):
    text = str(text).strip()
    if text not in _code:
        _code[text] = compile(text.replace('^', '**').replace('\n', ' '),
                              '<ref>', 'eval')
    return eval(_code[text], {'np': np, '__builtins__': {}}, Names(look))


class Line:
    """Interpolated or extrapolated equation."""

    kind = 'line'

    def __init__(self, a, xa, b, xb, x):
        self.a, self.b = a, b
        self.w = (x - xa) / (xb - xa)


def eq_value(node, resolve):
    if isinstance(node, Line):
        va = eq_value(node.a, resolve)
        vb = eq_value(node.b, resolve)
        return va + (vb - va) * node.w
    if node.kind == 'num':
        return float(node.data)
    if node.kind != 'eq':
        raise Discard('no equation')

    def member(key):
        v = node.group[key] if key != node.name else node.data
        if ref.is_num(v):
            return ref.num(v)

        def look(n):
            if n in node.group and not isinstance(node.group[n], dict):
                return member(n)
            return resolve(n, node.scope)
        return run_text(v, look)
    return member(node.name)


def eq_names(node):
    if isinstance(node, Line):
        return set(eq_names(node.a)) | set(eq_names(node.b))
    if node.kind == 'num':
        return set()
    return set(node.variables())


class Lookup:
    def __init__(self, flags, ctx=None):
        self.flags = flags
        self.ctx = ctx

    @staticmethod
    def split(key):
        m = re.fullmatch(r'(.*)_([0-9]+)MW', key, re.I)
        if m:
            return 'power', m.group(1), float(m.group(2))
        m = re.fullmatch(r'(.*)_([12][0-9]{3})', key)
        if m and 1800 <= int(m.group(2)) <= 2200:
            return 'year', m.group(1), int(m.group(2))
        return None, None, None

    def __call__(self, node, path):
        keys = path.split('::')
        for k in keys[:-1]:
            node = node.child(k)
        last = keys[-1]
        try:
            return node.child(last)
        except KeyError:
            if node.kind != 'group':
                raise
        kind, base, x = self.split(last)
        if kind is None:
            raise KeyError(path)
        interp = self.flags.get('interp_extrap_' + kind)
        near = self.flags.get('use_nearest_' + kind)
        fam = []
        for k in node.data:
            kk, kb, kx = self.split(k)
            if kk == kind and kb == base:
                fam.append((abs(kx - x), kx, k))
        fam.sort()
        if not fam or not (interp or near):
            raise KeyError(path)
        if len(fam) == 1 or not interp:
            return node.child(fam[0][2])
        if len(fam) > 2 and fam[1][0] == fam[2][0]:
            raise Discard('tie')
        if self.ctx is not None:
            self.ctx.count('interpolated lookups')
        return Line(node.child(fam[0][2]), fam[0][1], node.child(fam[1][2]),
                    fam[1][1], x)


class Config:
    """Reference evaluation of a shipped config."""

    def __init__(self, rel, ctx):
        raw = DATA['configs'][rel]
        self.rel = rel
        self.flags = {k: bool(raw[k]) for k in FLAGS if k in raw}
        self.entries = {k: self.inline(rel, v) for k, v in raw.items()
                        if k not in FLAGS}
        self.rc = ref.RefConfig(self.entries, DATA['node'],
                                Lookup(self.flags, ctx))
        self.group = {k: self.rc.is_group(k) for k in self.entries}
        self.lit = {k: not self.group[k] and self.rc.literal(k)
                    for k in self.entries}
        self.inputs = {}
        self.memo = {}
        self.targets = {}

    @staticmethod
    def inline(rel, v):
        while isinstance(v, str) and '.yaml::' in v:
            fp, _, key = v.partition('::')
            rel = os.path.normpath(os.path.join(os.path.dirname(rel), fp))
            v = DATA['configs'][rel][key]
        return v

    def target(self, text):
        if text not in self.targets:
            self.targets[text] = self.rc.target(text)
        return self.targets[text]

    def parts(self, name):
        """text with holders, holders"""
        holders = {}

        def hold(m):
            key = '_ref{}_'.format(len(holders))
            holders[key] = m.group(1)
            return key
        return PATH.sub(hold, str(self.entries[name])), holders

    def entry(self, name):
        if name not in self.memo:
            v = self.entries[name]
            if ref.is_num(v):
                self.memo[name] = float(v)
            else:
                text, holders = self.parts(name)

                def look(n):
                    if n in holders:
                        return self.eqn(self.target(holders[n]), name)
                    if n in self.entries:
                        return self.entry(n)
                    node = self.target(n)
                    if node is not None:
                        return self.eqn(node, name)
                    return self.inputs[n]
                self.memo[name] = run_text(text, look)
        return self.memo[name]

    def eqn(self, node, user):
        return eq_value(node, lambda n, s: self.variable(n, s, user))

    def variable(self, n, scope, user):
        if n in self.entries and n != user and not self.group[n] \
                and not self.lit[n]:
            return self.entry(n)
        if n in self.inputs:
            return self.inputs[n]
        if n in self.entries and self.lit[n]:
            return self.entry(n)
        return scope[n]

    def outputs(self):
        return [k for k in self.entries
                if not self.group[k] and not self.lit[k]]

    def evaluate(self, inputs):
        self.inputs, self.memo = inputs, {}
        return {k: self.entry(k) for k in self.outputs()}

    def usage(self):
        """(required inputs, defaults used, library variables)"""
        req, dflt = set(), {}
        for k in self.outputs():
            text, holders = self.parts(k)
            nodes = []
            for n in ref.free_names(text):
                if n in holders:
                    nodes.append(self.target(holders[n]))
                elif n not in self.entries:
                    node = self.target(n)
                    if node is None:
                        req.add(n)
                    else:
                        nodes.append(node)
            for node in nodes:
                scope = (node.a if isinstance(node, Line) else node).scope
                for v in eq_names(node):
                    if v in scope:
                        dflt[v] = scope[v]
                    elif v not in self.entries:
                        req.add(v)
        return req, dflt


RANGES = [('depth', 5, 900), ('dist', 3, 250), ('turbine_capacity', 3, 22),
          ('num_turbines', 20, 120), ('gcf', .25, .65), ('capacity', 20, 900),
          ('factor', .05, 1.2), ('multi', .8, 1.4), ('rate', .03, .3),
          ('downtime', .05, .6), ('profile', 0, 900), ('ws', 5, 12),
          ('speed', 5, 12), ('hub', 80, 180), ('rotor', 100, 260),
          ('_cost', 100, 9000), ('size', 5, 800)]


def value(rng, name):
    for k, lo, hi in RANGES:
        if k in name:
            return rng.uniform(lo, hi)
    return rng.uniform(.5, 60)


def shape_value(rng, name, n):
    return np.array([value(rng, name) for _ in range(n)])


def tolerance(fun, inputs, rng, want, eps, rtol):
    """Error bound from the sensitivity to the inputs."""
    tol = rtol * np.abs(want)
    for _ in range(3):
        pert = {}
        for k, v in inputs.items():
            a = np.asarray(v, dtype=float)
            f = 1 + eps * np.array([rng.choice([-1, 1]) for _ in
                                    range(max(1, a.size))]).reshape(a.shape)
            pert[k] = a * f if a.ndim else float(a * f)
        tol = np.maximum(tol, rtol * np.abs(want)
                         + 100 * np.abs(fun(pert) - want))
    return tol


def close(got, want, tol):
    try:
        got = np.asarray(got, dtype=float)
    except Exception:
        return False
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    return bool(np.all(np.abs(got - want) <= tol))


def equations(ctx, rng):
    """All equations of a file, retrieved from the shipped directory."""
    from NRWAL import EquationDirectory, NRWAL_ANALYSIS_DIR
    if 'shipped' not in ctx.cache:
        ctx.cache['shipped'] = EquationDirectory(NRWAL_ANALYSIS_DIR)
    d = ctx.cache['shipped']
    path = DATA['paths'][ctx.index % len(DATA['paths'])]
    node = DATA['node'].at(path)
    try:
        eq = d[path]
    except KeyError as e:
        ctx.fail('equation missing', '{}: {}'.format(path, e))
    ctx.check(type(eq).__name__ == 'Equation', 'not an equation', lambda:
              '{}: {!r}'.format(path, eq))
    vs = node.variables()
    ctx.check(set(eq.variables) == set(vs), 'wrong variables', lambda:
              '{}: {} instead of {}'.format(path, eq.variables, vs))
    scope = {v: node.scope[v] for v in vs if v in node.scope}
    for v, x in scope.items():
        ctx.check(v in eq.default_variables
                  and abs(eq.default_variables[v] - x) <= 1e-12 * abs(x),
                  'default variable missing or changed', lambda:
                  '{} of {}: {} instead of {}'.format(
                      v, path, eq.default_variables.get(v), x))
        ctx.count('defaults compared')
    free = [v for v in vs if v not in scope]
    if ctx.index < len(DATA['paths']):
        ctx.count('equations')
    for rep in range(4):
        arr = rep == 3
        n = rng.randint(2, 5)
        if arr:
            inputs = {v: shape_value(rng, v, n) if rng.random() < .8
                      else value(rng, v) for v in free}
            ctx.count('array values')
        else:
            inputs = {v: value(rng, v) for v in free}
        if scope and rng.random() < 0.4:
            for v in rng.sample(sorted(scope), 1):
                inputs[v] = scope[v] * rng.uniform(.3, 3)
            ctx.count('overridden defaults')

        def fun(inp):
            with np.errstate(all='ignore'):
                return eq_value(node, lambda nm, s: inp[nm] if nm in inp
                                else s[nm])
        try:
            want = fun(inputs)
        except OverflowError:
            continue
        if np.iscomplexobj(want) or not np.all(np.isfinite(want)):
            ctx.count('not finite')
            continue
        tol = tolerance(fun, inputs, rng, want, 1e-13, 1e-9)
        try:
            got = eq.evaluate(**inputs)
        except Exception as e:
            ctx.fail('equation cannot be evaluated', '{} with {}: {!r}'.format(
                path, inputs, e))
        ctx.check(close(got, want, tol), 'wrong value', lambda:
                  '{} with {}: {!r} instead of {!r} (tol {})'.format(
                      path, inputs, got, want, tol))
        ctx.count('equation values')
        if free:
            ctx.sig(path, repr(inputs))
    ctx.sample('equations', {'path': path, 'inputs': repr(inputs)})


def members(ctx, rng):
    """Nothing of the published library is missing."""
    from NRWAL import EquationDirectory, NRWAL_ANALYSIS_DIR
    if 'shipped' not in ctx.cache:
        ctx.cache['shipped'] = EquationDirectory(NRWAL_ANALYSIS_DIR)
    d = ctx.cache['shipped']

    def walk(spec, obj, pre):
        for k, v in (spec['vars'] or {}).items():
            got = obj['variables'][k]
            ctx.check(got == float(v), 'default variable changed', lambda:
                      '{}variables::{}: {} instead of {}'.format(pre, k, got,
                                                                 v))
        for stem, (_, g) in spec['files'].items():
            grp(g, obj[stem], pre + stem + '::')
        for name, sub in spec['dirs'].items():
            walk(sub, obj[name], pre + name + '::')

    def grp(g, obj, pre):
        for k, v in g.items():
            ctx.check(k in obj, 'equation missing', lambda: pre + k)
            if isinstance(v, dict):
                grp(v, obj[k], pre + k + '::')
    walk(DATA['library'], d, '')
    ctx.count('library walks')


def configs(ctx, rng):
    from NRWAL import NRWAL_CONFIG_DIR, NrwalConfig
    rels = sorted(DATA['configs'])
    rel = rels[ctx.index % len(rels)]
    rc = Config(rel, ctx)
    fp = os.path.join(NRWAL_CONFIG_DIR, rel)
    ctx.check(os.path.exists(fp), 'config missing', fp)
    try:
        obj = NrwalConfig(fp)
    except Exception as e:
        ctx.fail('config does not load', '{}: {!r}'.format(rel, e))
    ctx.count('default dir used')
    req, dflt = rc.usage()
    ctx.check(set(obj.required_inputs) == req, 'wrong required inputs',
              lambda: '{}: {} instead of {}'.format(rel, obj.required_inputs,
                                                    sorted(req)))
    ctx.check(set(rc.entries) <= set(obj.keys()), 'entries missing',
              lambda: '{}: {}'.format(rel, set(rc.entries) - set(obj.keys())))
    for k, v in rc.entries.items():
        if ref.is_num(v):
            ctx.check(obj.global_variables.get(k) == float(v),
                      'constant changed', lambda: '{} {}: {} instead of {}'
                      .format(rel, k, obj.global_variables.get(k), v))
    if ctx.index < len(rels):
        ctx.count('configs')
    prof = {v for v in req if 'profile' in v}
    reps = 4 if ctx.tier == 'quick' else 20
    for rep in range(reps):
        mode = rng.choice(['scalar', 'scalar', 'scalar', 'array', '2d'])
        n = rng.randint(2, 4)
        inputs = {v: value(rng, v) for v in req}
        if mode == 'array':
            inputs = {v: x if v in prof or rng.random() < .3 else
                      shape_value(rng, v, n).astype(np.float32)
                      for v, x in inputs.items()}
        if prof and mode != 'array':
            h = rng.randint(3, 12)
            for v in prof:
                inputs[v] = shape_value(rng, v, h * n).reshape(h, n)
            mode = '2d'
            ctx.count('profiles')
        elif prof:
            continue
        over = {}
        if rng.random() < 0.5:
            # defaults and constants can be overridden by the inputs
            cand = sorted(dflt)
            cand = [c for c in cand if c not in rc.entries]
            for c in rng.sample(cand, min(2, len(cand))):
                over[c] = dflt[c] * rng.uniform(.5, 2)
                ctx.count('overridden defaults')
        inputs.update(over)

        def fun(inp, k=None):
            with np.errstate(all='ignore'):
                out = rc.evaluate({a: np.asarray(b, dtype=float)
                                   if isinstance(b, np.ndarray) else b
                                   for a, b in inp.items()})
            return out if k is None else out[k]
        want = fun(inputs)
        obj = obj if rep % 3 else NrwalConfig(fp) if rep == 3 and \
            ctx.tier != 'quick' else obj
        obj.inputs = None
        got = obj.evaluate(dict(inputs))
        ctx.check(set(want) <= set(got), 'outputs missing', lambda:
                  '{}: {}'.format(rel, set(want) - set(got)))
        f32 = mode == 'array'
        eps, rtol = (3e-7, 1e-4) if f32 else (1e-13, 1e-9)
        perts = []
        for _ in range(2):
            p = {}
            for a, b in inputs.items():
                x = np.asarray(b, dtype=float)
                f = 1 + eps * np.array([rng.choice([-1, 1]) for _ in range(
                    max(1, x.size))]).reshape(x.shape)
                p[a] = x * f if x.ndim else float(x * f)
            perts.append(fun(p))
        for k, w in want.items():
            w = np.asarray(w)
            if np.iscomplexobj(w) or not np.all(np.isfinite(w)) or (
                    f32 and np.any(np.abs(w) > 1e18)):
                ctx.count('not finite')
                continue
            tol = rtol * np.abs(w)
            for p in perts:
                tol = tol + 100 * np.abs(np.asarray(p[k]) - w)
            if np.any(tol > 0.05 * np.abs(w)) and np.any(w != 0):
                ctx.count('ill conditioned')
                continue
            ctx.check(close(got[k], w, tol), 'wrong config output', lambda:
                      '{} {} with {}: {!r} instead of {!r} (tol {})'.format(
                          rel, k, inputs, got[k], w, tol))
            ctx.count('config values')
            if f32:
                ctx.count('array values')
        ctx.sig(rel, repr(inputs))
    ctx.sample('configs', {'config': rel, 'inputs': repr(inputs)})


SCENARIOS = [('members', members, 8, 8),
             ('equations', equations, 1147, 1147 * 20),
             ('configs', configs, 52, 52 * 8)]
