"""C03: evaluation reflects the inputs in force, whatever came before."""
import numpy as np
import pandas as pd

from nrwalv import gen, oracle
from nrwalv.c01 import nsites, ref_outputs
from nrwalv.common import World, same, same_dict
from nrwalv.core import Discard

RULE = ('Random histories (5-25 steps) of setting inputs from dicts, tables '
        'and items, clearing, evaluating with and without inputs, resetting '
        'all or one output, failing evaluations (missing, incompatible shapes) '
        'and refused inputs, on generated configs. After each evaluation the '
        'result is compared with a fresh config given the model of the inputs '
        'in force and with the reference values. Non-trivial: at least two '
        'successful evaluations with different inputs; distinct: by history '
        'and config.')
ASSUMPTIONS = ['arrays set directly with inputs[k] = v are float32, the type '
               'the setter stores']
REQUIRE = {'evaluations': 1500, 'changed inputs evaluations': 800,
           'failed evaluations': 150, 'resets': 300, 'refused inputs': 100,
           'attribute reads': 1000, 'reset output reads': 200}


def stored(v):
    """How the inputs setter stores a value (dtype only, for the fresh run)."""
    return v


class Model:
    def __init__(self):
        self.inputs = {}


def draw(rng, n):
    k = rng.random()
    if n and k < 0.6:
        return gen.array(rng, n, rng.choice([float, np.float32, np.int64]))
    return rng.choice([gen.value(rng), rng.randint(1, 9), gen.value(rng)])


def sites(inputs):
    return {v.size for v in inputs.values()
            if isinstance(v, np.ndarray) and v.size > 1}


def history(ctx, rng, steps=None):
    from NRWAL import NrwalConfig
    w = World(ctx, rng, n=rng.randint(2, 7), arrays=False, depth=1)
    if not w.outputs:
        raise Discard('no outputs')
    req = w.ref.required()
    if not req:
        raise Discard('nothing to supply')
    cfg = w.config()
    m = {}
    if rng.random() < 0.3:
        init = {k: draw(rng, 0) for k in
                rng.sample(req, rng.randint(0, len(req)))}
        obj = NrwalConfig(cfg, inputs=init)
        m.update(init)
    else:
        obj = NrwalConfig(cfg)
    n = rng.choice([0, 0, 3, 3, 4, 4, 1])
    log = []
    results = []
    nsucc = 0
    extra = [k for k in w.entries if k not in req][:1] + ['unused_col']
    last = None

    def subset():
        ks = rng.sample(req, rng.randint(1, len(req)))
        if rng.random() < 0.15:
            ks.append(rng.choice(extra))
        return {k: draw(rng, n) for k in ks}

    def frame():
        nn = n or 3
        ks = rng.sample(req, rng.randint(1, len(req)))
        if rng.random() < 0.15:
            ks.append(rng.choice(extra))
        d = {k: gen.array(rng, nn, rng.choice([float, np.int64]))
             for k in ks}
        df = pd.DataFrame(d)
        if rng.random() < 0.4:
            df.index = rng.sample(range(100), nn)
        return df, d

    def upd(d):
        m.update(d)

    def reads(out):
        outs = obj.outputs
        ctx.check(same_dict(dict(out), dict(outs)), 'result is not outputs',
                  lambda: 'after {}: {} vs {}'.format(log, out, outs))
        for k in out:
            ctx.check(same(obj[k], out[k]), 'bracket access disagrees',
                      lambda: '{} after {}'.format(k, log))
            ctx.check(same(obj.get(k, None), out[k]), 'get disagrees',
                      lambda: '{} after {}'.format(k, log))
            if not hasattr(type(obj), k):
                ctx.check(same(getattr(obj, k), out[k]),
                          'attribute access disagrees',
                          lambda: '{} after {}'.format(k, log))
                ctx.count('attribute reads')

    def evaluate(arg, how):
        nonlocal nsucc, last
        missing = [k for k in req if k not in m]
        shapes = sites(m)
        fun = obj.evaluate if rng.random() < 0.8 else obj.eval
        call = (lambda: fun()) if arg is None else (lambda: fun(arg)) \
            if rng.random() < 0.5 else (lambda: fun(inputs=arg))
        log.append(('evaluate', how, dict(m)))
        if missing:
            ctx.raises(call, (RuntimeError,), 'evaluated without inputs',
                       'missing {} after {}'.format(missing, log))
            ctx.count('failed evaluations')
            return
        if len(shapes) > 1:
            try:
                call()
            except RuntimeError:
                ctx.count('failed evaluations')
            return
        try:
            fresh = NrwalConfig(w.config()).evaluate(dict(m))
        except RuntimeError as e:
            # out of the real domain for this set of inputs
            try:
                call()
            except RuntimeError:
                ctx.count('failed evaluations')
                return
            ctx.fail('evaluates where a fresh config fails',
                     'fresh: {} after {}'.format(e, log))
        try:
            out = call()
        except Exception as e:
            ctx.fail('evaluation fails where a fresh config succeeds',
                     '{!r} after {} config {}'.format(e, log, w.entries))
        w.check_keys(ctx, out, log)
        for k in fresh:
            ctx.check(k in out and same(out[k], fresh[k]), 'stale or different '
                      'result', lambda: '{}: got {!r} fresh {!r} config {} '
                      'after {}'.format(k, out.get(k), fresh[k], w.entries,
                                        log))
        refs = ref_outputs(w.ref, dict(m)) if set(m) <= set(req) else {}
        for k in out:
            if refs.get(k) and all(r is not None for r in refs[k]):
                oracle.compare(ctx, out[k], refs[k], 'wrong value',
                               lambda: '{} after {}'.format(k, log))
                ctx.count('reference checks')
        reads(out)
        ctx.count('evaluations')
        if last is not None and not same_dict(last, m):
            ctx.count('changed inputs evaluations')
        last = dict(m)
        nsucc += 1

    for _ in range(steps or rng.randint(5, 22)):
        k = rng.random()
        if k < 0.12:
            d = subset()
            obj.inputs = d
            upd(d)
            log.append(('set', d))
        elif k < 0.17:
            df, d = frame()
            obj.inputs = df
            upd(d)
            log.append(('set frame', d))
        elif k < 0.25:
            key = rng.choice(req)
            v = gen.value(rng) if rng.random() < 0.6 or not n else \
                gen.array(rng, n, np.float32)
            obj.inputs[key] = v
            m[key] = v
            log.append(('item', key, v))
        elif k < 0.30:
            obj.inputs = None
            m.clear()
            log.append('clear')
        elif k < 0.55:
            evaluate(None, 'none')
        elif k < 0.70:
            d = {x: draw(rng, n) for x in req}
            upd(d)
            evaluate(d, 'all')
        elif k < 0.78:
            d = subset()
            upd(d)
            evaluate(d, 'some')
        elif k < 0.82:
            df, d = frame()
            upd(d)
            evaluate(df, 'frame')
        elif k < 0.90:
            which = rng.choice([None, rng.choice(list(w.entries)),
                                'no_such_entry_', rng.choice(w.outputs),
                                rng.choice(w.outputs)])
            before = dict(obj.outputs)
            obj.reset_output(which) if which or rng.random() < .5 \
                else obj.reset_output()
            log.append(('reset', which))
            ctx.count('resets')
            gone = list(before) if which is None else \
                [which] if which in before else []
            for g in gone:
                ctx.check(g not in obj.outputs, 'reset output still stored',
                          lambda: '{} after {}'.format(g, log))
                ctx.check(type(obj[g]).__name__ == 'Equation',
                          'reset output does not read as its expression',
                          lambda: '{}={!r} after {}'.format(g, obj[g], log))
                ctx.count('reset output reads')
            for g in before:
                if g not in gone:
                    ctx.check(g in obj.outputs and same(obj[g], before[g]),
                              'reset touched another output',
                              lambda: '{} after {}'.format(g, log))
        elif k < 0.95:
            bad = rng.choice([{req[0]: 'text'}, {req[0]: None},
                              {3: 1.0}, {req[0]: {'a': 1}},
                              {req[0]: 1.0, 'zz_bad': 'x'}])
            try:
                if rng.random() < 0.5:
                    obj.inputs = bad
                else:
                    obj.evaluate(bad)
                ctx.fail('refused inputs accepted', '{}'.format(bad))
            except (AssertionError, TypeError, ValueError):
                pass
            log.append(('bad', bad))
            ctx.count('refused inputs')
        else:
            bad = rng.choice([3, 'x', [1, 2], (1,)])
            try:
                if rng.random() < 0.5:
                    obj.inputs = bad
                else:
                    obj.evaluate(bad)
                ctx.fail('refused inputs accepted', '{}'.format(bad))
            except TypeError:
                pass
            log.append(('bad', bad))
            ctx.count('refused inputs')
        # the inputs in force are those of the model
        ctx.check(set(obj.inputs) == set(m), 'wrong inputs in force',
                  lambda: 'has {}, should have {} after {}'.format(
                      sorted(obj.inputs), sorted(m), log))
        for key, v in m.items():
            g = np.asarray(obj.inputs[key], dtype=float)
            ctx.check(g.shape == np.shape(v) and np.allclose(
                g, np.asarray(v, dtype=float), rtol=1e-6),
                'wrong input value in force',
                lambda: '{}: {!r} vs {!r} after {}'.format(
                    key, obj.inputs[key], v, log))
    if nsucc > 1:
        ctx.sig(str([x if isinstance(x, str) else x[0] for x in log]),
                sorted(map(str, w.entries.items())))
        ctx.sample('history', {'entries': w.entries, 'log': log})


def long(ctx, rng):
    history(ctx, rng, steps=rng.randint(30, 50))


SCENARIOS = [('history', history, 1440, 14400), ('long', long, 144, 1500)]
