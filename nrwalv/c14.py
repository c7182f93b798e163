"""C14: circular configs are refused, acyclic ones accepted."""
import os
import time

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.c01 import make_inputs, ref_outputs
from nrwalv.common import near

RULE = ('Random reference graphs of 1-16 entries (edges written bare, in '
        'arithmetic, in parentheses, in numpy calls, nested or tight, next to '
        'library references and constants), shuffled, given as dict or file, '
        'either acyclic or with one planted cycle of length 1..n that other '
        'entries lead into or hang off, and ladders of up to 120 numpy calls with '
        'exponentially many ways through them. A cycle must raise RuntimeError at '
        'construction, within a CPU limit; an acyclic config must build and '
        'evaluate to the reference values; entry names contain each other, '
        'look like numbers, keyword arguments or library path parts. '
        'Non-trivial: two or more edges; distinct: by entries.')
ASSUMPTIONS = ['cycles that go through a variable of a library equation are '
               'not claimed']
REQUIRE = {'cycles refused': 800, 'acyclic accepted': 800,
           'self references': 50, 'cycle length 2': 50, 'cycle length 5+': 50,
           'led into': 200, 'edge np': 500, 'edge paren': 500,
           'edge bare': 300, 'path part names': 100, 'diamonds': 100, 'ladders': 60,
           'values': 2000}

FORMS = [('bare', '{n}'), ('paren', '({n})'), ('arith', '{n} * 2'),
         ('arith', '2-{n}'), ('np', 'np.maximum({n}, 3)'),
         ('np', 'np.log(1 + np.abs({n}))'), ('arith', '-{n}'),
         ('paren', '(1 + ({x} - {n}))'), ('arith', '{p} + {n}'),
         ('arith', '{n} ** 2'), ('arith', '1e3*{n}'),
         ('np', 'np.where({n} > 1, {x}, {n})'), ('arith', '{x}/{n}'),
         ('paren', '3 * ({n} + 1) / {x}'), ('paren', '(({n}))'),
         ('np', '2 * np.minimum({x}, {n}) - 1'), ('arith', '{n}^-1'),
         ('np', '({x} + np.sqrt(np.abs({n})))'), ('arith', '{x} + -{n}'),
         ('np', 'np.clip({n}, 1, 100)'), ('np', 'np.abs(3 - {n})'),
         ('paren', '({x} * (2 - (3 + {n})))'), ('arith', ' {n}  - {x} ')]
TWO = [('arith', '{n} + {m}'), ('np', 'np.maximum({n}, {m})'),
       ('paren', '({n} - {m}) * 2'), ('arith', '{n}*{m}'),
       ('np', 'np.hypot({n}, {x}) + {m}'), ('paren', '{n} / (1 + {m})'),
       ('arith', '{m} - {n} - {x}')]


def make(ctx, rng, n):
    """library, names, inputs"""
    spec = {'vars': None, 'files': {'turb': ('.yaml', {
        'eq1': 'xin * 2', 'eq2': 3.5, 'cost': 'xin + yin', 'sub': {
            'eq3': 'yin - 20'}})}, 'dirs': {'osw': {
                'vars': {'dv': 2}, 'dirs': {}, 'files': {
                    'tower': ('.json', {'mass': 'dv * xin'})}}}}
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    node = ref.root(spec)
    inp = ['xin', 'yin']
    avoid = set(inp) | {'turb', 'osw', 'dv'}
    pool = gen.POOL + ['eq1', 'eq2', 'mass', 'tower', 'eq3', 'sub', 'a_min',
                       'a_max', 'e5', 'E5', 'e3', 'e', 'eq', 'np', 'where',
                       'maximum', 'n', 'p', 'clip', 'turb_', 'osw_x']
    pool = [p for p in pool if p not in ('np', 'pd')]
    names = gen.names(rng, n, avoid=avoid, pool=pool)
    return spec, node, path, inp, names, ref.eq_paths(spec)


def edge_text(ctx, rng, targets, inp, paths):
    x, p = rng.choice(inp), rng.choice(paths)
    if len(targets) == 1:
        kind, form = rng.choice(FORMS)
        ctx.count('edge ' + kind)
        return form.format(n=targets[0], x=x, p=p)
    if len(targets) == 2 and rng.random() < 0.6:
        kind, form = rng.choice(TWO)
        ctx.count('edge ' + kind)
        return form.format(n=targets[0], m=targets[1], x=x)
    return (' ' + rng.choice('+-*') + ' ').join(
        edge_text(ctx, rng, [t], inp, paths) for t in targets)


def leaf_text(rng, inp, paths):
    x = rng.choice(inp)
    return rng.choice([
        x + ' * 2', x, rng.choice(paths), 3, '2.5e1', -4.5,
        'np.clip({}, a_min=1, a_max=5)'.format(x),
        '{} - {}'.format(rng.choice(paths), x), '1e5 * ' + x,
        'np.log({} + 30)'.format(x), '({} + 1) ** 2'.format(x),
        '3e3 + ' + x, x + '_free / 3'])


def acyclic_entries(ctx, rng, names, inp, paths, extra=()):
    """Each entry refers to earlier ones; bounded expanded size."""
    entries, size = {}, {}
    done = list(extra)
    for t in done:
        size[t] = 1
    for nm in names:
        text = None
        if done and rng.random() < 0.75:
            k = rng.choice([1, 1, 2, 2, 3])
            t = [rng.choice(done) for _ in range(k)]
            if sum(size[i] for i in t) < 200:
                text = edge_text(ctx, rng, t, inp, paths)
                size[nm] = 2 * sum(size[i] for i in t) + 2
        if text is None:
            text = leaf_text(rng, inp, paths)
            size[nm] = 2
            if nm in ref.free_names(text.replace('::', '_')
                                    if isinstance(text, str) else '1'):
                text = inp[0]
        entries[nm] = text
        done.append(nm)
    return entries


def build(ctx, rng, entries, path):
    from NRWAL import NrwalConfig
    items = list(entries.items())
    rng.shuffle(items)
    items.insert(rng.randint(0, len(items)), ('equation_directory', path))
    cfg = dict(items)
    if rng.random() < 0.3:
        fp = os.path.join(ctx.tmpdir(), 'cfg' + rng.choice(
            ['.yaml', '.json', '.yml']))
        ref.dump(cfg, fp)
        return lambda: NrwalConfig(fp), cfg
    return lambda: NrwalConfig(cfg), cfg


def cyclic(ctx, rng):
    n = rng.randint(1, 14)
    spec, node, path, inp, names, paths = make(ctx, rng, n)
    k = rng.choice([1, 2, 2, 3, rng.randint(1, n), n])
    k = min(k, len(names))
    ring, rest = names[:k], names[k:]
    cut = rng.randint(0, len(rest))
    below, above = rest[:cut], rest[cut:]
    entries = acyclic_entries(ctx, rng, below, inp, paths)
    usable = [b for b in below if ref.is_num(entries[b])
              or len(str(entries[b])) < 40]
    for i, nm in enumerate(ring):
        t = [ring[(i + 1) % k]]
        if usable and rng.random() < 0.4:
            t.append(rng.choice(usable))
            rng.shuffle(t)
        entries[nm] = edge_text(ctx, rng, t, inp, paths)
    up = acyclic_entries(ctx, rng, above, inp, paths,
                         extra=[rng.choice(ring)] + below[:3])
    entries.update(up)
    if above:
        ctx.count('led into')
    fun, cfg = build(ctx, rng, entries, path)
    t0 = time.process_time()
    ctx.raises(fun, (RuntimeError,), 'cycle not refused',
               'cycle {} in {}'.format(ring, cfg))
    dt = time.process_time() - t0
    ctx.check(dt < 20, 'cycle refused too late', lambda:
              '{:.1f} s for {}'.format(dt, cfg))
    ctx.count('cycles refused')
    ctx.count('self references' if k == 1 else 'cycle length {}'.format(
        k if k < 5 else '5+'))
    ctx.sig(repr(cfg))
    ctx.sample('cyclic', cfg)
    # the same without the cycle is accepted
    cut = rng.choice(ring)
    entries[cut] = inp[0] + ' + 1'
    accepted(ctx, rng, entries, path, node, inp)


def accepted(ctx, rng, entries, path, node, inp, arrays=False):
    """An acyclic config is built and gives the right values."""
    inputs = make_inputs(rng, inp + [i + '_free' for i in inp],
                         arrays=arrays)
    rc = ref.RefConfig(entries, node)
    refs = ref_outputs(rc, inputs)
    fun, cfg = build(ctx, rng, entries, path)
    ok = not any(r is None for rs in refs.values() for r in rs)
    try:
        obj = fun()
    except Exception as e:
        if not ok:      # e.g. a division of constants by zero
            ctx.count('values skipped')
            return cfg
        ctx.fail('acyclic config refused', '{!r} for {}'.format(e, cfg))
    ctx.count('acyclic accepted')
    ctx.check(set(obj.keys()) == set(entries), 'entries lost', lambda:
              '{}'.format(cfg))
    if not ok:
        ctx.count('values skipped')
        return cfg
    out = obj.evaluate(inputs)
    for key, r in refs.items():
        if key not in out:
            ctx.check(key in rc.maybe_outputs(), 'output missing', lambda:
                      '{} of {}'.format(key, entries))
            continue
        oracle.compare(ctx, out[key], r, 'wrong value', lambda:
                       '{}={!r} of {} with {}'.format(key, entries[key],
                                                      entries, inputs))
        ctx.count('values')
    return cfg


def acyclic(ctx, rng):
    n = rng.randint(1, 16)
    spec, node, path, inp, names, paths = make(ctx, rng, n)
    entries = acyclic_entries(ctx, rng, names, inp, paths)
    k = rng.random()
    if k < 0.5:
        ctx.count('path part names')
        part = rng.choice(['eq1', 'mass', 'tower', 'cost', 'eq3', 'sub'])
        if part not in entries:
            p = rng.choice([q for q in paths if part in q.split('::')[1:]])
            entries[part] = rng.choice(['{}', '{} * 2', '({} + 1)',
                                        '2 - {} - {}']).format(p, p)
        p = rng.choice(paths)
        if 'osw_dir' not in entries:
            entries['osw_dir'] = 'osw'
            entries['mass_2'] = 'osw_dir::tower::mass - 1'
    cfg = accepted(ctx, rng, entries, path, node, inp,
                   arrays=rng.random() < 0.3)
    ctx.sig(repr(cfg))


def diamonds(ctx, rng):
    """Many paths to the same entry are no cycle."""
    spec, node, path, inp, names, paths = make(ctx, rng, 12)
    entries = {}
    prev = names[0]
    entries[prev] = inp[0]
    i = 1
    levels = rng.randint(1, 3)
    for _ in range(levels):
        a, b, c = names[i:i + 3]
        i += 3
        entries[a] = rng.choice(['{} + 1', 'np.abs({})', '({})']).format(prev)
        entries[b] = rng.choice(['{} * 2', 'np.sqrt({})', '{}']).format(prev)
        entries[c] = rng.choice(['{} + {}', 'np.maximum({}, {})',
                                 '({} - {}) * 3']).format(a, b)
        prev = c
    if rng.random() < 0.5:
        cfg = accepted(ctx, rng, entries, path, node, inp)
    else:
        entries[names[0]] = rng.choice(
            ['{} * 0.5', 'np.tanh({})', '({})', '1 - {}']).format(prev)
        fun, cfg = build(ctx, rng, entries, path)
        ctx.raises(fun, (RuntimeError,), 'cycle not refused', repr(cfg))
        ctx.count('cycles refused')
    ctx.count('diamonds')
    ctx.sig(repr(cfg))


def ladders(ctx, rng):
    """Many entries on few levels: the number of ways through the config is
    exponential, its size is not."""
    from NRWAL import NrwalConfig
    depth, width = rng.randint(10, 40), rng.randint(2, 3)
    names = ['s{}_{}'.format(i, j) for i in range(depth) for j in range(width)]
    if rng.random() < 0.5:
        rng.shuffle(names)
    rows = [names[i * width:(i + 1) * width] for i in range(depth)]
    entries = {k: rng.choice(['xin', 'xin * 2', 'np.abs(yin)', 'yin - 1'])
               for k in rows[0]}
    for low, row in zip(rows, rows[1:]):
        for k in row:
            a, b = rng.sample(low, 2)
            entries[k] = rng.choice([
                'np.maximum({}, {})', 'np.minimum({}, {})',
                'np.add({}, {} / 2)', 'np.hypot({}, {})',
                'np.where({0} > {1}, {0}, {1} / 3)',
                'np.tanh({} - {})']).format(a, b)
    path = os.path.join(ctx.tmpdir(), 'none')
    os.makedirs(path)
    good = dict(entries)
    if rng.random() < 0.5:
        i = rng.randrange(depth)
        k = rng.randrange(i, depth)
        start, end = rng.choice(rows[i]), rng.choice(rows[k])
        # end leads down to something of row i
        entries['lp_'] = 'np.exp({})'.format(end)
        below = {end}
        for row in reversed(rows[i:k]):
            below |= {n for n in row for m in list(below)
                      if n in ref.free_names(good[m])}
        start = rng.choice(sorted(below & set(rows[i])))
        entries[start] = rng.choice(['np.sqrt(lp_)', 'lp_',
                                     'np.maximum(lp_, xin)'])
    items = list(entries.items())
    rng.shuffle(items)
    cfg = dict(items, equation_directory=path)
    t0 = time.process_time()
    if 'lp_' in entries:
        ctx.raises(lambda: NrwalConfig(cfg), (RuntimeError,),
                   'cycle not refused', repr(cfg))
        ctx.count('cycles refused')
    else:
        try:
            obj = NrwalConfig(cfg)
        except Exception as e:
            ctx.fail('acyclic config refused', '{!r} for {}'.format(e, cfg))
        ctx.count('acyclic accepted')
        inputs = {'xin': gen.value(rng), 'yin': gen.value(rng)}
        out = obj.evaluate(inputs)
        ns = dict(inputs)
        for k, t in entries.items():
            ns[k] = eval(t, {'np': np}, ns)
        for k in entries:
            ctx.check(near(out[k], ns[k], 1e-6), 'wrong value', lambda:
                      '{} of {} with {}: {} instead of {}'.format(
                          k, cfg, inputs, out[k], ns[k]))
            ctx.count('values')
    dt = time.process_time() - t0
    ctx.check(dt < 20, 'takes too long', lambda: '{:.1f} s for {}'.format(
        dt, cfg))
    ctx.count('ladders')
    ctx.sig(repr(cfg))


SCENARIOS = [('cyclic', cyclic, 4000, 40000),
             ('acyclic', acyclic, 4000, 40000),
             ('diamonds', diamonds, 1200, 12000),
             ('ladders', ladders, 240, 2400)]
