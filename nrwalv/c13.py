"""C13: array, table and scalar evaluation agree site by site."""
import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.c01 import make_inputs
from nrwalv.common import World
from nrwalv.core import Discard

RULE = ('Random elementwise equations and configs evaluated on arrays of any '
        'shape (0-d, empty, 1-d to 3-d, broadcastable), dtype (all integers, '
        'float32/64, big-endian), layout (strided, reversed, Fortran, '
        'read-only), on DataFrames (shuffled or duplicate index, extra text '
        'columns, mixed dtypes), on chunks and permutations; every site of '
        'every result is compared with the error-bounded reference value of '
        'that site and with the scalar evaluation by NRWAL itself. '
        'Non-trivial: two or more sites; distinct: by definition and inputs.')
ASSUMPTIONS = ['inputs are not float16, boolean or complex',
               'positions where the value is not a well-conditioned real '
               'number are skipped']
REQUIRE = {'sites': 20000, 'scalar runs': 2000, 'shape nd': 200,
           'shape 0-d': 100, 'shape empty': 100, 'broadcast': 100,
           'frames': 300, 'frames with text': 50, 'chunked': 200,
           'permuted': 200, 'integer inputs': 1000, 'odd layout': 200,
           'numpy scalars': 100, 'big integers': 100,
           'large tables': 40, 'more than 100000 sites': 10}

INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64,
        np.uint64]


def values(ctx, rng, shape, dtype=None):
    """Array of a shape with some dtype and memory layout."""
    n = int(np.prod(shape)) if shape else 1
    k = rng.random()
    if dtype is None:
        dtype = rng.choice(INTS) if k < 0.45 else rng.choice(
            [np.float64, np.float64, np.float32, '>f8', '>f4', '>i4', '>i8'])
    if np.dtype(dtype).kind in 'iu':
        ctx.count('integer inputs')
        top = 120
        if np.dtype(dtype).itemsize >= 4 and rng.random() < 0.3:
            top = 10 ** rng.randint(5, 9 if np.dtype(dtype).itemsize < 8
                                    else 14)
            ctx.count('big integers')
        lo = 1
        if np.dtype(dtype).kind == 'i' and rng.random() < 0.2:
            lo = -100
        vals = [rng.randint(lo, top) or 1 for _ in range(n)]
    else:
        vals = [gen.value(rng, rng.choice(['pos', 'pos', 'any']))
                for _ in range(n)]
    arr = np.array(vals).astype(dtype).reshape(shape)
    j = rng.random()
    if shape and n > 1:
        if j < 0.15:
            big = np.zeros(shape[:-1] + (shape[-1] * 2,), dtype=dtype)
            big[..., ::2] = arr
            arr = big[..., ::2]
            ctx.count('odd layout')
        elif j < 0.25:
            arr = arr[::-1][::-1]
        elif j < 0.35:
            arr = np.asfortranarray(arr)
            ctx.count('odd layout')
        elif j < 0.45:
            arr = arr[::-1]
            ctx.count('odd layout')
    if j > 0.85 and arr.flags.owndata:
        arr.setflags(write=False)
        ctx.count('odd layout')
    return arr


def shape_of(ctx, rng):
    k = rng.random()
    if k < 0.45:
        return (rng.randint(1, 6),)
    if k < 0.6:
        ctx.count('shape nd')
        return (rng.randint(1, 3), rng.randint(1, 4))
    if k < 0.7:
        ctx.count('shape nd')
        return (2, rng.randint(1, 2), 3)
    if k < 0.85:
        ctx.count('shape 0-d')
        return ()
    ctx.count('shape empty')
    return rng.choice([(0,), (0, 3), (2, 0)])


def scalar(ctx, rng):
    k = rng.random()
    if k < 0.3:
        return gen.value(rng, 'any')
    if k < 0.6:
        return rng.randint(1, 12)
    ctx.count('numpy scalars')
    v = rng.randint(1, 100)
    return rng.choice([np.int8, np.int32, np.int64, np.uint8, np.float32,
                       np.float64])(v)


def mixed(ctx, rng, names, broadcast=True):
    """Inputs and the common shape."""
    shape = shape_of(ctx, rng)
    out = {}
    for i, k in enumerate(names):
        if i and rng.random() < 0.3:
            out[k] = scalar(ctx, rng)
        elif broadcast and len(shape) > 1 and rng.random() < 0.25:
            ctx.count('broadcast')
            s = rng.choice([shape[1:], shape[:-1] + (1,)])
            out[k] = values(ctx, rng, s)
        elif broadcast and rng.random() < 0.1:
            out[k] = values(ctx, rng, ())
            ctx.count('shape 0-d')
        else:
            out[k] = values(ctx, rng, shape)
    return out, shape


def full_shape(inputs, names):
    return np.broadcast_shapes(*[np.shape(inputs[k]) for k in names])


def sites(inputs, shape):
    """list of {name: float} per flat position."""
    flat = {k: np.broadcast_to(np.asarray(v, dtype=float), shape).reshape(-1)
            for k, v in inputs.items()}
    n = int(np.prod(shape)) if shape else 1
    return [{k: float(v[i]) for k, v in flat.items()} for i in range(n)]


def check_shape(ctx, got, shape, what, ok_shapes):
    try:
        ok = np.broadcast_shapes(np.shape(got), tuple(shape)) == tuple(shape)
    except ValueError:
        ok = False
    ctx.check(ok and np.shape(got) in ok_shapes, 'wrong shape', lambda:
              '{}: shape {} not in {}'.format(what(), np.shape(got),
                                              ok_shapes))
    ctx.check(np.asarray(got).dtype.kind in 'biuf', 'not numeric', lambda:
              '{}: {!r}'.format(what(), got))


def equations(ctx, rng):
    from NRWAL.handlers.equations import Equation
    names = gen.names(rng, rng.randint(1, 4))
    g = gen.ExprGen(rng, names, caret=False, np_prob=0.2, compare=True)
    text = g.gen(rng.randint(1, 3))
    used = ref.free_names(text)
    if not used:
        raise Discard('constant')
    defs = {}
    if rng.random() < 0.2:
        defs = {rng.choice(used): rng.randint(1, 9)}
    eq = Equation(text, default_variables=defs)
    oracle.set_precision(oracle.U32)
    for _ in range(3):
        inputs, _ = mixed(ctx, rng, used)
        for k in defs:
            if rng.random() < 0.7:
                inputs.pop(k)
        if not inputs:
            continue
        shape = full_shape(inputs, inputs)
        refs = []
        pts = sites(inputs, shape)
        for p in pts:
            evs = {k: oracle.EV(v) for k, v in p.items()}
            evs.update({k: oracle.ev(v) for k, v in defs.items()
                        if k not in evs})
            try:
                refs.append(oracle.usable(oracle.ev_eval(
                    text, evs.__getitem__)))
            except Discard:
                refs.append(None)
        if not pts:
            # real valued for scalars and ordinary values of the arrays
            evs = {k: oracle.EV(2.3 if np.size(v) == 0 else
                                float(np.asarray(v).reshape(-1)[0]))
                   for k, v in inputs.items()}
            evs.update({k: oracle.ev(v) for k, v in defs.items()
                        if k not in evs})
            try:
                oracle.ev_eval(text, evs.__getitem__)
            except Discard:
                continue
        arrays = any(isinstance(v, np.ndarray) and v.ndim
                     for v in inputs.values())
        if not arrays and refs[0] is None:
            continue
        def what():
            return '{!r} with {} defaults {}'.format(text, inputs, defs)
        try:
            got = eq.evaluate(**inputs)
        except RuntimeError as e:
            if any(r is None for r in refs):
                continue        # e.g. division by zero of two scalars
            ctx.fail('does not evaluate', '{}: {}'.format(what(), e))
        if np.asarray(got).dtype.kind == 'c' and any(r is None
                                                     for r in refs):
            continue
        check_shape(ctx, got, shape, what, ((), tuple(shape)))
        if np.shape(got) == () and len(pts) != 1:
            got = np.broadcast_to(got, shape)
        oracle.compare(ctx, got, refs, 'wrong value', what)
        ctx.count('sites', len(refs))
        for p, r in list(zip(pts, refs))[:3]:
            if r is None:
                continue
            one = eq.evaluate(**p)
            oracle.compare(ctx, one, [r], 'wrong scalar value', lambda:
                           '{!r} with {}'.format(text, p))
            ctx.count('scalar runs')
        if len(pts) > 1:
            ctx.sig(text, repr(inputs))
            ctx.sample('equations', {'text': text, 'inputs': inputs})


def check_config(ctx, w, out, inputs, shape, label):
    n = int(np.prod(shape)) if shape else 1
    fake = {k: np.broadcast_to(np.asarray(v, dtype=float), shape).reshape(-1)
            for k, v in inputs.items()}
    w.check_keys(ctx, out, label)
    own = {np.shape(v) for v in inputs.values()}
    own |= {np.broadcast_shapes(a, b) for a in own for b in own}
    own |= {(), tuple(shape)}
    for k in out:
        check_shape(ctx, out[k], shape, lambda: '{} {}={!r} of {} with {}'
                    .format(label, k, w.entries[k], w.entries, inputs), own)
    if n == 0:
        return None
    out = {k: np.broadcast_to(v, shape) for k, v in out.items()}
    refs = w.references(fake)
    if n == 1:
        out = {k: np.asarray(v).reshape(1) for k, v in out.items()}
    for k in out:
        oracle.compare(ctx, out[k], refs[k], 'wrong value', lambda:
                       '{} {}={!r} of {} with {}'.format(
                           label, k, w.entries[k], w.entries, inputs))
        ctx.count('sites', n)
    return refs


def configs(ctx, rng):
    """Any shapes as dict inputs, and site by site."""
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n=rng.randint(2, 6), arrays=False)
    if not w.outputs:
        raise Discard('no outputs')
    inputs, _ = mixed(ctx, rng, w.input_names)
    # scalars keep the values the definitions are well conditioned for
    for k, v in inputs.items():
        if not isinstance(v, np.ndarray) or not v.ndim:
            inputs[k] = w.inputs[k]
    shape = full_shape(inputs, inputs)
    obj = NrwalConfig(w.config())
    out = obj.evaluate(inputs)
    check_config(ctx, w, out, inputs, shape, 'arrays')
    pts = sites(inputs, shape)
    full = dict(out)
    for i in rng.sample(range(len(pts)), min(2, len(pts))):
        one = NrwalConfig(w.config()) if rng.random() < 0.3 else obj
        refs = w.references({k: np.array([v]) for k, v in pts[i].items()})
        if any(r[0] is None for r in refs.values()):
            continue
        res = one.evaluate(pts[i])
        oracle.set_precision(oracle.U32)
        w.check_keys(ctx, res)
        for k in res:
            oracle.compare(ctx, float(res[k]), refs[k], 'wrong scalar value',
                           lambda: '{}={!r} of {} at {}'.format(
                               k, w.entries[k], w.entries, pts[i]))
            a = np.broadcast_to(full[k], shape).reshape(-1)[i]
            ctx.check(oracle.close(a, refs[k][0]), 'site differs from scalar '
                      'run', lambda: '{}: {} and {}'.format(k, a, res[k]))
        ctx.count('scalar runs')
    if len(pts) > 1:
        ctx.sig(repr(w.entries), repr(inputs))


def tables(ctx, rng):
    """DataFrames, dicts, chunks and permutations of the same sites."""
    import pandas as pd
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n=rng.randint(2, 6), arrays=False)
    if not w.outputs:
        raise Discard('no outputs')
    n = rng.randint(1, 12)
    data = {k: values(ctx, rng, (n,), dtype=rng.choice(
        INTS + [np.float32, np.float64, np.float64]))
        for k in w.input_names}
    df = pd.DataFrame({k: np.array(v) for k, v in data.items()})
    if rng.random() < 0.3:
        # one row broadcast from the conditioned scalars
        for k in rng.sample(w.input_names, 1):
            df[k] = float(w.inputs[k])
            data[k] = df[k].to_numpy()
    idx = rng.random()
    if idx < 0.3:
        df.index = rng.sample(range(100), n)
    elif idx < 0.4:
        df.index = [0] * n
    elif idx < 0.5:
        df.index = ['s{}'.format(i) for i in range(n)]
    if rng.random() < 0.3:
        df['site_name'] = ['site {}'.format(i) for i in range(n)]
        ctx.count('frames with text')
    if rng.random() < 0.2:
        df['flag'] = [bool(i % 2) for i in range(n)]
    objects = rng.random() < 0.25
    if objects:
        # other ways to hold the same numbers
        for k in rng.sample(w.input_names, 1):
            df[k] = df[k].astype(rng.choice(
                [object, 'Float64'] + (['Int64'] if df[k].dtype.kind == 'i'
                                       else [])))
            ctx.count('columns of objects')
    cols = list(df.columns)
    rng.shuffle(cols)
    df = df[cols]
    obj = NrwalConfig(w.config())
    whole = dict(obj.evaluate(df))
    ctx.count('frames')
    check_config(ctx, w, whole, data, (n,), 'frame')
    fresh = NrwalConfig(w.config())
    asdict = dict(fresh.evaluate(data))
    check_config(ctx, w, asdict, data, (n,), 'dict')
    # permutation
    perm = rng.sample(range(n), n)
    res = NrwalConfig(w.config()).evaluate(df.iloc[perm])
    sub = {k: v[perm] for k, v in data.items()}
    check_config(ctx, w, dict(res), sub, (n,), 'permuted frame')
    ctx.count('permuted')
    # chunks, on the same config object
    cuts = sorted({0, n} | {rng.randint(0, n) for _ in range(rng.randint(1,
                                                                        3))})
    obj2 = rng.choice([obj, fresh])
    for a, b in zip(cuts, cuts[1:]):
        part = df.iloc[a:b] if rng.random() < 0.5 else \
            {k: v[a:b] for k, v in data.items()}
        if rng.random() < 0.3:
            obj2.inputs = None
        res = dict(obj2.evaluate(part))
        check_config(ctx, w, res, {k: v[a:b] for k, v in data.items()},
                     (b - a,), 'chunk')
        ctx.count('chunked')
    # empty table
    if rng.random() < 0.3:
        res = NrwalConfig(w.config()).evaluate(
            df.iloc[:0] if rng.random() < 0.5 and not objects else
            {k: v[:0] for k, v in data.items()})
        check_config(ctx, w, dict(res), {k: v[:0] for k, v in data.items()},
                     (0,), 'empty')
        ctx.count('shape empty')
    # inputs at construction
    if rng.random() < 0.3:
        res = NrwalConfig(w.config(), inputs=df).evaluate()
        check_config(ctx, w, dict(res), data, (n,), 'constructor')
    if n > 1:
        ctx.sig(repr(w.entries), repr(data))


def large(ctx, rng):
    """Tables of very many sites, compared at some of them."""
    import pandas as pd
    from NRWAL import NrwalConfig
    from NRWAL.handlers.equations import Equation
    w = World(ctx, rng, n=rng.randint(2, 5), arrays=False)
    if not w.outputs:
        raise Discard('no outputs')
    n = rng.choice([1025, 4097, 20000, 70000, 150000, 300000])
    seed = np.random.RandomState(rng.randrange(2 ** 31))
    data = {k: (seed.randint(1, 40000, n) if rng.random() < 0.3 else
                seed.uniform(0.3, 300, n)) for k in w.input_names}
    picks = sorted({0, n - 1, n // 2} | {rng.randrange(n) for _ in range(12)})
    how = rng.choice(['dict', 'frame'])
    arg = data if how == 'dict' else pd.DataFrame(data)
    out = NrwalConfig(w.config()).evaluate(arg)
    own = ((), (n,))
    for k, v in out.items():
        check_shape(ctx, v, (n,), lambda: '{} sites, {} of {}'.format(
            n, k, w.entries), own)
    part = {k: np.broadcast_to(v, (n,))[picks] for k, v in out.items()}
    sub = {k: v[picks] for k, v in data.items()}
    refs = w.references(sub)
    for k, v in part.items():
        oracle.compare(ctx, v, refs[k], 'wrong value', lambda:
                       '{} of {} at sites {} of {} with {}'.format(
                           k, w.entries, picks, n, sub))
        ctx.count('sites', len(picks))
    # an equation on its own
    names = w.input_names
    text = '({} + 2.5) / {} - np.sqrt({})'.format(*[rng.choice(names)
                                                   for _ in range(3)])
    eq = Equation(text)
    got = eq.evaluate(**data)
    check_shape(ctx, got, (n,), lambda: text, own)
    oracle.set_precision(oracle.U32)
    r = []
    for i in range(len(picks)):
        evs = ref.ev_inputs(sub, i)
        r.append(oracle.usable(oracle.ev_eval(text, evs.__getitem__)))
    oracle.compare(ctx, np.asarray(got)[picks], r, 'wrong value', lambda:
                   '{} at sites {} of {} with {}'.format(text, picks, n, sub))
    ctx.count('large tables')
    if n > 100000:
        ctx.count('more than 100000 sites')
    ctx.sig(repr(w.entries), n)


SCENARIOS = [('equations', equations, 16000, 160000),
             ('configs', configs, 1600, 20000), ('tables', tables, 1280, 16000),
             ('large', large, 96, 960)]
