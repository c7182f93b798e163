"""C23: invalid data is neither masked nor spread."""
import os

import numpy as np
import pandas as pd

from nrwalv import gen, ref
from nrwalv.common import near
from nrwalv.core import Discard

RULE = ('Generated equations and configs are evaluated on arrays, tables and '
        'scalars with nan, infinities and zeros at some sites. The same text '
        'evaluated by the Python interpreter and numpy tells for every site '
        'whether the result is nan, infinite or finite (sites where this '
        'depends on rounding are left out) and whether the evaluation raises. '
        'Sites with sound data are compared with an evaluation of the sound '
        'sites alone. Non-trivial: an input site that is not finite or an '
        'operation that is undefined; distinct: by text and inputs.')
ASSUMPTIONS = ['roots and powers of negative Python numbers (complex results) '
               'are not judged',
               'infinite and nan literals in texts are not judged']
REQUIRE = {'nan sites': 3000, 'inf sites': 1500, 'sound sites': 5000,
           'zero divisions': 500, 'scalar errors': 300, 'shape errors': 200,
           'config sites': 2000, 'frames': 100, 'config errors': 100,
           'all sites nan': 50, 'default nan': 100}

BAD = [float('nan'), float('inf'), float('-inf'), 0.0, -0.0]


def kind(x):
    """class of every site: 0 finite, 1 nan, 2 +inf, 3 -inf"""
    x = np.asarray(x)
    if x.dtype.kind == 'c':
        raise Discard('complex')
    x = x.astype(float)
    return np.where(np.isnan(x), 1, np.where(np.isposinf(x), 2,
                                             np.where(np.isneginf(x), 3, 0)))


def run(text, ns):
    text = text.strip().replace('^', '**')
    return eval(compile(text, '<reference>', 'eval'), {'np': np}, dict(ns))


def stable(fun, inputs, n):
    """Class per site and where it does not depend on rounding."""
    base = np.broadcast_to(kind(fun(inputs)), (n,))
    ok = np.ones(n, dtype=bool)
    for f in (1 + 3e-6, 1 - 3e-6):
        for one in [None] + sorted(inputs):
            alt = {k: v * f if one in (None, k) else v
                   for k, v in inputs.items()}
            ok &= np.broadcast_to(kind(fun(alt)), (n,)) == base
    alt = {k: v.astype(np.float32) if isinstance(v, np.ndarray) else v
           for k, v in inputs.items()}
    ok &= np.broadcast_to(kind(fun(alt)), (n,)) == base
    # a result of the size of the range of float32
    x = np.broadcast_to(np.asarray(fun(inputs), dtype=float), (n,))
    ok &= (base != 0) | (np.abs(x) < 1e25)
    return base, ok


def judged(text, inputs, n):
    try:
        return stable(lambda v: run(text, v), inputs, n)
    except (ArithmeticError, ValueError, TypeError):
        # an operation on constants raises
        raise Discard('error')


def data(ctx, rng, names, n, all_bad=False):
    """float64 arrays of numbers float32 can hold, some invalid."""
    out = {}
    for k in names:
        a = np.array([rng.choice([1, 1, -1]) * rng.randint(1, 80) / 8.
                      for _ in range(n)])
        p = rng.choice([0, 0.1, 0.3])
        for i in range(n):
            if rng.random() < p:
                a[i] = rng.choice(BAD)
        if rng.random() < 0.06 or all_bad:
            a[:] = rng.choice(BAD[:3])
            ctx.count('all sites nan', int(np.isnan(a[0])))
        out[k] = a
    return out


def text_of(rng, names, caret=False, np_prob=0.2):
    g = gen.ExprGen(rng, names, caret=caret, np_prob=np_prob, num_prob=0.2,
                    sci=False, spaces='single')
    return g.gen(rng.randint(0, 2))


def judge(ctx, got, base, ok, n, what):
    got = np.asarray(got)
    ctx.check(got.dtype.kind in 'fiub' and got.shape in ((n,), ()),
              'wrong result type', lambda: '{}: {!r}'.format(what(), got))
    k = np.broadcast_to(kind(got), (n,))
    bad = np.where(ok & (k != base))[0]
    ctx.check(not bad.size, 'invalid value masked or spread', lambda:
              '{}: site {}: {!r}, expected class {} (0 finite 1 nan 2 inf '
              '3 -inf)'.format(what(), bad[0], got, base[bad[0]]))
    ctx.count('nan sites', int((ok & (base == 1)).sum()))
    ctx.count('inf sites', int((ok & (base > 1)).sum()))


def equations(ctx, rng):
    from NRWAL import Equation
    names = gen.names(rng, rng.randint(1, 3))
    text = text_of(rng, names)
    free = ref.free_names(text)
    if not free:
        raise Discard('constant')
    n = rng.randint(1, 8)
    inputs = data(ctx, rng, free, n)
    base, ok = judged(text, inputs, n)
    dfl = {}
    given = dict(inputs)
    if rng.random() < 0.25:
        k = rng.choice(free)
        if rng.random() < 0.5:
            # an invalid default that the supplied value replaces
            dfl[k] = rng.choice(BAD[:3])
        else:
            # an invalid default that is used
            dfl[k] = rng.choice(BAD[:3])
            given.pop(k)
            inputs = dict(inputs)
            inputs[k] = dfl[k]
            if len(inputs) < 2:
                raise Discard('no array')
            base, ok = judged(text, inputs, n)
        ctx.count('default nan')
    eq = Equation(text, default_variables=dfl)
    got = eq.evaluate(**given)
    judge(ctx, got, base, ok, n, lambda: '{!r} with {} default {}'.format(
        text, given, dfl))
    ctx.sig(text, repr(inputs))
    ctx.sample('equations', {'text': text, 'inputs': inputs})
    if '/' in text and ((base > 1) & ok).any():
        ctx.count('zero divisions')
    # sound sites alone
    sound = np.all([np.isfinite(v) & np.ones(n, dtype=bool)
                    for v in inputs.values()], axis=0)
    if sound.any() and not sound.all():
        alone = eq.evaluate(**{k: v[sound] for k, v in given.items()})
        m = int(sound.sum())
        a = np.broadcast_to(np.asarray(alone, dtype=float), (m,))
        b = np.broadcast_to(np.asarray(got, dtype=float), (n,))[sound]
        ctx.check(near(a, b, 1e-9), 'sound site changed by another site',
                  lambda: '{!r} with {}: {} and {} alone'.format(
                      text, given, got, alone))
        ctx.count('sound sites', m)


def scalars(ctx, rng):
    """Python numbers: what raises in Python raises RuntimeError."""
    from NRWAL import Equation
    names = gen.names(rng, rng.randint(1, 3))
    text = text_of(rng, names)
    free = ref.free_names(text)
    if not free:
        raise Discard('constant')
    mk = rng.choice([float, float, np.float64])
    inputs = {}
    for k in free:
        inputs[k] = mk(rng.choice(BAD + [0.0] * 4 + [rng.randint(1, 40) / 8.]
                                  * 3))
    eq = Equation(text)
    try:
        want = run(text, inputs)
        if isinstance(want, (complex, np.complexfloating)):
            raise Discard('complex')
    except (ZeroDivisionError, OverflowError):
        ctx.raises(lambda: eq.evaluate(**inputs), RuntimeError,
                   'evaluation error hidden',
                   '{!r} with {}'.format(text, inputs))
        ctx.count('scalar errors')
        ctx.sig(text, repr(inputs))
        return
    except (TypeError, ValueError):
        raise Discard('type')
    got = eq.evaluate(**inputs)
    base, ok = kind(want).reshape(1), np.ones(1, dtype=bool)
    fin = base[0] != 0 or near(got, want, 1e-9)
    ctx.check(fin, 'wrong value', lambda: '{!r} with {}: {} not {}'.format(
        text, inputs, got, want))
    judge(ctx, got, base, ok, 1, lambda: '{!r} with {}'.format(text, inputs))
    ctx.sig(text, repr(inputs))


def shapes(ctx, rng):
    """Arrays of incompatible shapes are refused, never cut or repeated."""
    from NRWAL import Equation, NrwalConfig
    names = gen.names(rng, 2)
    op = rng.choice('+-*/')
    n = rng.randint(2, 6)
    m = rng.choice([k for k in range(2, 9) if k != n])
    a, b = np.ones(n), np.ones(m)
    if rng.random() < 0.3:
        a = np.ones((n, m + 1))
    elif rng.random() < 0.2:
        a, b = np.ones((n, 2)), np.ones((n + 1, m))
    try:
        np.broadcast_shapes(a.shape, b.shape)
        raise Discard('compatible')
    except ValueError:
        pass
    text = rng.choice(['{} {} {}', '2 * ({} {} {}) + 1',
                       'np.abs({} {} {})']).format(names[0], op, names[1])
    inputs = {names[0]: a, names[1]: b}
    for i in range(rng.choice([0, 0, 0, 3, 12])):
        inputs['spare_{}'.format(i)] = rng.choice([a, b, 2.])
    if rng.random() < 0.5:
        eq = Equation(text)
        ctx.raises(lambda: eq.evaluate(**inputs), RuntimeError,
                   'incompatible shapes accepted',
                   '{!r} {} {}'.format(text, a.shape, b.shape))
    else:
        e = names[0] + '_out' if names[0] + '_out' not in names else 'zz_out'
        path = os.path.join(ctx.tmpdir(), 'e')
        os.makedirs(path)
        cfg = NrwalConfig({'equation_directory': path, e: text})
        ctx.raises(lambda: cfg.evaluate(inputs), RuntimeError,
                   'incompatible shapes accepted',
                   'config {!r} {} {}'.format(text, a.shape, b.shape))
        good = np.full(n, 2.)
        out = cfg.evaluate({names[0]: good, names[1]: good})
        ctx.check(near(out[e], run(text, {k: good for k in names}), 1e-4),
                  'wrong value after a refused evaluation', lambda: text)
        ctx.count('config errors')
    ctx.count('shape errors')
    ctx.sig(text, a.shape, b.shape)


def configs(ctx, rng):
    """Chains of entries, with a library equation, on arrays and tables."""
    from NRWAL import NrwalConfig
    names = gen.names(rng, rng.randint(2, 3))
    pool = ['out_a', 'out_b', 'out_c', 'out_d']
    entries, texts = {}, {}
    avail = list(names)
    libtext = text_of(rng, names, np_prob=0.3)
    lib = {'eq_lib_z': libtext}
    for k in pool[:rng.randint(1, 4)]:
        t = text_of(rng, avail + avail[-1:] * 2, caret=True)
        if rng.random() < 0.3:
            t = rng.choice(['{} + grp::eq_lib_z', 'grp::eq_lib_z * {}', '{} - grp::eq_lib_z']
                           ).format(rng.choice(avail))
        entries[k] = t
        avail.append(k)
    path = os.path.join(ctx.tmpdir(), 'e')
    os.makedirs(path)
    ref.dump(lib, os.path.join(path, 'grp.yaml'))
    items = list(entries.items())
    rng.shuffle(items)
    n = rng.randint(1, 8)
    allin = data(ctx, rng, names, n)

    def fun(v):
        ns = dict(v)
        for k, t in entries.items():
            ns[k] = run(t.replace('grp::eq_lib_z', '(' + libtext + ')'), ns)
        return ns
    try:
        want = fun(allin)
    except (ValueError, TypeError):
        raise Discard('integer powers')
    except (ZeroDivisionError, OverflowError):
        # entries of constants only are evaluated when the config is built
        ctx.raises(lambda: NrwalConfig(dict(
            items, equation_directory=path)).evaluate(dict(allin)),
            RuntimeError, 'evaluation error hidden', '{} with {}'.format(
                entries, allin))
        ctx.count('config errors')
        return
    for k in entries:
        if np.ndim(want[k]) == 0:
            raise Discard('constant entry')
    cfg = NrwalConfig(dict(items, equation_directory=path))
    need = [k for k in cfg.required_inputs]
    ctx.check(set(need) <= set(names), 'unknown required input', lambda:
              '{}: {}'.format(entries, need))
    classes = {k: stable(lambda v, k=k: fun(v)[k], allin, n)
               for k in entries}
    if rng.random() < 0.5:
        given = pd.DataFrame(allin)
        ctx.count('frames')
    else:
        given = dict(allin)
    out = cfg.evaluate(given)
    for k, (base, ok) in classes.items():
        judge(ctx, out[k], base, ok, n, lambda: 'entry {} of {} (e1 {!r}) '
              'with {}'.format(k, entries, libtext, allin))
        ctx.count('config sites', int(ok.sum()))
    ctx.sig(repr(entries), libtext, repr(allin))
    ctx.sample('configs', {'entries': entries, 'inputs': allin})
    sound = np.all([np.isfinite(v) for v in allin.values()], axis=0)
    if sound.any() and not sound.all():
        other = NrwalConfig(dict(items, equation_directory=path))
        alone = other.evaluate({k: v[sound] for k, v in allin.items()})
        for k, (base, ok) in classes.items():
            sel = ok[sound] & (base[sound] == 0)
            ctx.check(near(np.asarray(out[k])[sound][sel],
                           np.asarray(alone[k])[sel], 1e-6),
                      'sound site changed by another site', lambda:
                      'entry {} of {} with {}: {} and {} alone'.format(
                          k, entries, allin, out[k], alone[k]))
            ctx.count('sound sites', int(sel.sum()))


SCENARIOS = [('equations', equations, 48000, 480000),
             ('scalars', scalars, 24000, 240000),
             ('shapes', shapes, 1600, 16000),
             ('configs', configs, 9600, 96000)]
