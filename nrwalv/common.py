"""A generated world: library on disk, config, inputs, reference model."""
import copy
import re

import numpy as np

from nrwalv import gen, oracle, ref
from nrwalv.c01 import make_inputs, make_lib, nsites, ref_outputs
from nrwalv.core import Discard

DEFAULT_NAMES = ['dflt_a', 'dflt_b', 'dv', 'dv1', 'num_sub', 'rate', 'rat',
                 'c_0', 'lead_time', 'k_e5', 'unit_cost']


class World:
    """lib spec / node / path on disk, entries, inputs and reference."""

    def __init__(self, ctx, rng, n=None, n_inputs=4, arrays=None, aliases=True,
                 np_prob=0.15, depth=2, entry_pool=None, refs=True,
                 conditioned=True):
        self.rng = rng
        nms = gen.names(rng, n_inputs, avoid=DEFAULT_NAMES)
        self.input_names = nms
        self.default_names = rng.sample(DEFAULT_NAMES, rng.randint(0, 5))
        self.spec, self.node, self.path = make_lib(
            ctx, rng, free=nms, defaults=self.default_names, refs=refs)
        self.inputs = make_inputs(rng, nms, arrays=arrays)
        cg = gen.ConfigGen(rng, self.spec, self.node, nms,
                           n=n or rng.randint(3, 9), aliases=aliases,
                           np_prob=np_prob, depth=depth,
                           entry_pool=entry_pool,
                           values=self.inputs if conditioned else None)
        self.entries = cg.entries
        self.kinds = cg.kinds
        self.ref = ref.RefConfig(self.entries, self.node)
        self.outputs = self.ref.outputs()
        self.maybe = set(self.ref.maybe_outputs())

    def config(self, entries=None, shuffle=False, **extra):
        items = list((entries or self.entries).items())
        if shuffle:
            self.rng.shuffle(items)
        out = dict(items)
        out['equation_directory'] = self.path
        out.update(extra)
        return out

    def references(self, inputs=None):
        r = ref_outputs(self.ref, inputs or self.inputs)
        if not self.outputs:
            raise Discard('no outputs')
        return r

    def check_keys(self, ctx, out, what=''):
        need = set(self.outputs) - self.maybe
        ctx.check(need <= set(out) <= set(self.outputs), 'wrong output keys',
                  lambda: '{}: got {}, expected {} (optional {}) for {}'.format(
                      what, sorted(out), sorted(need), sorted(self.maybe),
                      self.entries))

    def check_values(self, ctx, out, refs, what='', inputs=None):
        self.check_keys(ctx, out, what)
        for k in out:
            oracle.compare(ctx, out[k], refs[k], 'wrong value', lambda:
                           '{} entry {}={!r} of {} with inputs {}'.format(
                               what, k, self.entries[k], self.entries,
                               inputs or self.inputs))


def same(a, b):
    """Identical numeric results (nan equals nan)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return False
        return bool(np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind
                                   in 'fc'))
    try:
        return a == b or (a != a and b != b)
    except Exception:
        return False


def same_dict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def near(a, b, rtol=1e-9):
    """Equal up to rounding; nan equals nan."""
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in 'biufc' or b.dtype.kind not in 'biufc':
            return False
        return bool(np.allclose(a, b, rtol=rtol, atol=1e-300, equal_nan=True))
    except Exception:
        return False


def names_in(msg, names):
    """Which names occur as whole words in a text."""
    return {n for n in names
            if re.search(r'(?<!\w){}(?!\w)'.format(re.escape(n)), msg)}


def snapshot(x):
    """Deep snapshot of caller data for later comparison."""
    import pandas as pd
    if isinstance(x, dict):
        return ('dict', type(x).__name__,
                [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and np.isnan(x).any():
            # sign and payload of a nan are no information
            return ('array', x.shape, str(x.dtype),
                    np.where(np.isnan(x), np.nan, x).astype(
                        x.dtype).tobytes())
        if x.dtype.kind in 'cO':
            return ('array', x.shape, str(x.dtype), repr(x.tolist()))
        return ('array', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ('frame', list(map(str, x.columns)),
                [str(t) for t in x.dtypes], list(x.index),
                [x[c].to_numpy().tolist() for c in x.columns])
    if isinstance(x, float):
        return ('float', x.hex())
    if isinstance(x, (complex, np.generic)):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, copy.deepcopy(x))


def probe(names, salt=0):
    """A fixed value for every name."""
    import zlib
    return {n: 0.5 + (zlib.crc32('{}|{}'.format(n, salt).encode())
                      % 4001) / 1000. for n in names}
