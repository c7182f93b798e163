"""C01: config expressions evaluate with standard arithmetic."""
import os

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.core import Discard

RULE = ('Random expression texts (chains, nesting up to 6, redundant '
        'parentheses, unary minus, ^/**, every number notation, numpy calls, '
        'constants, other entries, library and alias references, tight to '
        'wide spacing) put into a NrwalConfig over a generated library and '
        'evaluated on scalars or arrays; the oracle is the Python interpreter '
        'on the same text. Non-trivial: at least two operators; distinct: by '
        'expression text and library.')
ASSUMPTIONS = ['names avoid Python keywords/builtins, nan/inf and the reserved '
               'workspace_<n>', 'results compared within a running error bound '
               '(float32 for arrays, float64 for scalars)']
REQUIRE = {'value checks': 1000, 'refused': 100, 'ops:-': 300, 'ops:/': 300,
           'ops:pow': 200, 'np calls': 100, 'lib refs': 200, 'unary': 100,
           'nested parens': 100, 'sci': 50}


def make_lib(ctx, rng, free=(), defaults=(), **kw):
    spec = gen.library(rng, free, defaults, depth=rng.choice([0, 1, 1, 2]),
                       **kw)
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir(spec, path)
    return spec, ref.root(spec), path


def make_inputs(rng, names, arrays=None, n=None):
    arrays = rng.random() < 0.35 if arrays is None else arrays
    n = n or rng.randint(2, 4)
    out = {}
    for k in names:
        if arrays and rng.random() < 0.7:
            out[k] = gen.array(rng, n, rng.choice(
                [float, float, np.float32, np.int64, np.int32]))
        else:
            out[k] = rng.choice([gen.value(rng, 'any'), rng.randint(1, 9)])
    return out


def nsites(inputs):
    return max([v.size for v in inputs.values()
                if isinstance(v, np.ndarray)] or [1])


def precision(inputs):
    is_arr = any(isinstance(v, np.ndarray) for v in inputs.values())
    oracle.set_precision(oracle.U32 if is_arr else oracle.U64)


def ref_outputs(cfg, inputs, keep=None):
    """Per output entry the list of EV per site (None where unusable)."""
    precision(inputs)
    n = nsites(inputs)
    out = {}
    for pos in range(n):
        evs = ref.ev_inputs(inputs, pos)
        cfg._inputs, cfg._memo = evs, {}
        for k in (keep or cfg.outputs()):
            try:
                v = oracle.usable(cfg.entry(k))
            except Discard:
                v = None
            out.setdefault(k, []).append(v)
    return out


def count_shape(ctx, text):
    t = text.replace('**', '^')
    ctx.count('ops:-', t.count('-'))
    ctx.count('ops:/', t.count('/'))
    ctx.count('ops:*', t.count('*'))
    ctx.count('ops:+', t.count('+'))
    ctx.count('ops:pow', t.count('^'))
    ctx.count('np calls', t.count('np.'))
    ctx.count('lib refs', t.count('::'))
    c = t.replace(' ', '')
    if any(p in c for p in ('*-', '/-', '--', '+-', '(-', '^-')) \
            or c.startswith('-'):
        ctx.count('unary')
    if '((' in c or '))' in c:
        ctx.count('nested parens')
    if any(x in c for x in ('e-', 'e+', 'E-', 'E+')):
        ctx.count('sci')


def nops(text):
    t = text.replace('**', '^')
    return sum(t.count(o) for o in '+-*/^')


def expressions(ctx, rng, depth=None, big=False):
    from NRWAL import NrwalConfig
    nms = gen.names(rng, 10)
    inp_names, consts, others = nms[:4], nms[4:6], nms[6:8]
    spec, node, path = make_lib(ctx, rng, free=inp_names)
    paths = ref.eq_paths(spec)
    entries = {'equation_directory': path}
    for c in consts:
        entries[c] = rng.choice([rng.randint(1, 9), gen.number(rng),
                                 -rng.uniform(1, 4),
                                 round(rng.uniform(0.1, 5), 3)])
    local = {c: entries[c] for c in consts}
    leaves = inp_names + consts + rng.sample(paths, min(3, len(paths)))
    inputs = make_inputs(rng, inp_names)
    for o in others:
        g = gen.ExprGen(rng, inp_names + consts, np_prob=0.05)
        local[o] = g.gen(1)
        cfg = ref.RefConfig(local, node)
        if any(r is None for r in ref_outputs(cfg, inputs, keep=[o])[o]):
            local[o] = inp_names[0] + ' * 2'
        entries[o] = local[o]
    al = None
    pre = [p.rsplit('::', 1)[0] for p in paths
           if not ref.is_num(p.rsplit('::', 1)[0])]
    if pre and rng.random() < 0.3:
        al = 'grp'
        p = rng.choice(pre)
        entries[al] = local[al] = p
        leaves += [al + q[len(p):] for q in paths if q.startswith(p + '::')][:2]
    leaves += others
    np_leaves = inp_names + consts + others
    targets = []
    for i in range(rng.randint(1, 4)):
        g = gen.ExprGen(rng, leaves, np_leaves,
                        np_prob=rng.choice([0, 0.1, 0.3]),
                        pow_prob=rng.choice([0, 0.1, 0.25]),
                        paren_prob=rng.choice([0.1, 0.3, 0.6]),
                        unary_prob=rng.choice([0, 0.08, 0.25]))
        d = depth if depth is not None else rng.choice([1, 1, 2, 2, 3])
        t = g.gen(d)
        if big:
            for _ in range(rng.randint(4, 12)):
                t += rng.choice([' - ', ' / ', ' * ', ' + ', '-', '/']) \
                    + rng.choice([g.paren(1), g.base(1), g.leaf()])
        name = 'target_{}'.format(i)
        local[name] = t
        cfg = ref.RefConfig(local, node)
        if any(r is None for r in ref_outputs(cfg, inputs, keep=[name])[name]):
            del local[name]     # not a real number there, or cancellation
            ctx.count('ill conditioned expressions')
            continue
        entries[name] = t
        targets.append(name)
    if not targets:
        raise Discard('all ill conditioned')
    items = list(entries.items())
    rng.shuffle(items)
    cfg = ref.RefConfig(local, node)
    refs = ref_outputs(cfg, inputs, keep=targets)
    obj = NrwalConfig(dict(items))
    out = obj.evaluate(inputs)
    for t in targets:
        text = local[t]
        if t in out:
            got = out[t]
        elif not isinstance(obj[t], (int, float)) \
                and ref.is_num(str(obj[t])):
            got = obj[t].evaluate()     # collapsed to a literal constant
        else:
            ctx.fail('missing output', '{}: {}'.format(t, text))
        oracle.compare(ctx, got, refs[t], 'wrong value',
                       lambda: '{!r} with entries {} and inputs {}'.format(
                           text, local, inputs))
        ctx.count('value checks')
        count_shape(ctx, text)
        if nops(text) >= 2:
            ctx.sig(text, path and sorted(paths))
            ctx.sample('expressions', {'text': text, 'inputs': inputs,
                                       'got': got})


def deep(ctx, rng):
    expressions(ctx, rng, depth=rng.choice([4, 5, 6]))


def long(ctx, rng):
    expressions(ctx, rng, depth=1, big=True)


def minimal(ctx, rng):
    """Every short operator pattern over scalars, the densest part of the
    space: three or four operands, all operator/sign/parenthesis patterns."""
    from NRWAL import NrwalConfig
    nms = gen.names(rng, 4)
    texts = {}
    for i in range(12):
        n = rng.randint(2, 4)
        ops = [rng.choice(['+', '-', '*', '/', '**', '^']) for _ in range(n)]
        toks = []
        for j in range(n + 1):
            leaf = rng.choice(nms + [gen.number(rng)])
            if j > 0 and ops[j - 1] in ('**', '^'):
                leaf = rng.choice(['2', '0.5', '3', '-1', '(1 - 3)', '-2',
                                   '1.5', '2 ** 0.5', '-(1)'])
            elif rng.random() < 0.2:
                leaf = rng.choice(['-', '- ', '--', '-']) + leaf
            elif rng.random() < 0.1:
                leaf = '({})'.format(leaf)
            toks.append(leaf)
        if rng.random() < 0.5 and n >= 2:
            a = rng.randint(0, n - 1)
            b = rng.randint(a + 1, n)
            toks[a] = '(' + toks[a]
            toks[b] = toks[b] + ')'
        s = rng.choice(['', ' ', ' '])
        t = toks[0]
        for j in range(n):
            t += s + ops[j] + s + toks[j + 1]
        texts['t{}'.format(i)] = t
    vals = {k: gen.value(rng) for k in nms}
    precision(vals)
    local = dict(texts)
    cfg = ref.RefConfig(local, ref.root({'files': {}, 'dirs': {}}))
    refs = ref_outputs(cfg, vals, keep=list(texts))
    texts = {k: t for k, t in texts.items() if refs[k][0] is not None}
    if not texts:
        raise Discard('all')
    d = ctx.tmpdir()
    obj = NrwalConfig(dict(texts, equation_directory=d))
    out = obj.evaluate(vals)
    for t, text in texts.items():
        r = refs[t][0]
        got = out[t] if t in out else obj[t].evaluate()
        ctx.check(oracle.close(got, r), 'wrong value',
                  lambda: '{!r} with {}: got {!r}, expected {!r}'.format(
                      text, vals, got, r))
        ctx.count('value checks')
        count_shape(ctx, text)
        ctx.sig(text)
    ctx.sample('minimal', {'texts': texts, 'inputs': vals})


def refuse(ctx, rng):
    """Unbalanced parentheses and other brackets are never given a value."""
    from NRWAL import NrwalConfig
    nms = gen.names(rng, 3)
    g = gen.ExprGen(rng, nms, np_prob=0.1)
    t = g.gen(rng.randint(1, 3))
    if nops(t) < 1:
        t = t + ' + ' + nms[0]
    k = rng.random()
    if k < 0.5:
        par = [i for i, c in enumerate(t) if c in '()']
        if par and rng.random() < 0.6:
            i = rng.choice(par)
            bad = t[:i] + t[i + 1:]
        else:
            ends = [i for i, c in enumerate(t) if c in '+-*/^'] + [len(t)]
            i = rng.choice(ends)
            bad = t[:i] + rng.choice([')', '(']) + t[i:]
            if rng.random() < 0.3:
                bad = ')' + t + '('
    else:
        o, c = rng.choice(['[]', '{}'])
        bad = rng.choice([
            '{o}{t}{c} * 2', '2 * {o}{t}{c}', '{o}{t}{c}', '{o}{t} + 1{c}',
            '({t}) - {o}{n}{c}', '({o}{t}{c} + 1)', '{n} * {o}{n} + 1{c}']
        ).format(o=o, c=c, t=t, n=nms[0])
        if 'np.array' in bad:
            raise Discard('array')
    if bad.count('(') == bad.count(')') and k < 0.5:
        try:
            compile(bad.replace('^', '**'), 'x', 'eval')
            raise Discard('balanced')
        except SyntaxError:
            pass
    vals = {n: gen.value(rng) for n in nms}
    d = ctx.tmpdir()
    cfg = {'equation_directory': d, 'bad': bad}
    if rng.random() < 0.5:
        cfg['ok'] = nms[0] + ' * 2'

    def go():
        obj = NrwalConfig(cfg)
        inp = dict(vals)
        return obj.evaluate(inp)['bad']
    ctx.raises(go, (Exception,), 'malformed expression got a value', bad)
    ctx.count('refused')
    ctx.sig('bad', bad)
    ctx.sample('refuse', bad)


SCENARIOS = [('expressions', expressions, 6000, 60000),
             ('minimal', minimal, 2000, 20000),
             ('long', long, 800, 8000),
             ('deep', deep, 600, 6000),
             ('refuse', refuse, 1600, 16000)]
