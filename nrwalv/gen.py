"""Generators: names, numbers, expression texts, input values."""
import numpy as np

# names that contain each other, look like numbers, methods, power/year keys,
# python modules used inside NRWAL, dict attributes...
POOL = ['a', 'b', 'c', 'x', 'y', 'e', 'E', 'a1', 'a2', 'a11', 'ab', 'ba',
        'cost', 'cost_factor', 'opcost', 'cost_', '_cost', 'capex', 'opex',
        'depth', 'depth_m', 'dep', 'co2e', 'co2e5', 'x1e3', 'x1e', 'e5',
        'values', 'items', 'keys', 'copy', 'get', 'update', 'pop',
        'rna', 'rna_cost', 'lcoe', 'np_x', 'pd_y', 'npv', 'expd', 'logd',
        'expx', 'log', 'exp', 'X', 'A', 'Cost', 'COST', 'a_b', 'a__b',
        'turbine_capacity', 'num_turbines', 'dist_s_to_l', 'fixed', 'tax_rate',
        'n2o', 'h2', 'H2', 'x_max', 'a_min', 'a_max', 'posx', 'osx', 'ios',
        'working', 'group', 'variables_x', 'equation', 're', 'logging',
        'name', 'config', 'inputs', 'outputs', 'eqn', 'default', 'self_x',
        'f', 'fcr', 'g', 'm', 'mw', 'MW', 'p_mw', 'size_mw', 'yr_2', 'v_',
        'work', 'workspace', 'workspace1', 'eq', 'q1', 'q10', 'q100', 'q']
# stay clear of the fragments NRWAL documents as illegal in any text
_BAD = ('eval', 'exec', 'os.', 'sys.')
POOL = [n for n in POOL if not any(b in n for b in _BAD)]
# attribute-like names of NrwalConfig itself are fine as keys but not for
# attribute access
CONFIG_ATTRS = {'inputs', 'outputs', 'keys', 'values', 'items', 'get', 'eval',
                'evaluate', 'head', 'tail', 'solved', 'solvable'}


def names(rng, n, avoid=(), pool=None):
    """n distinct adversarial names."""
    pool = [p for p in (pool or POOL) if p not in avoid]
    out = []
    # start from a cluster of related names
    seed = rng.choice(pool)
    rel = [p for p in pool if p != seed and (p in seed or seed in p)]
    rng.shuffle(rel)
    cand = [seed] + rel[:rng.randint(0, max(1, n - 1))]
    rest = [p for p in pool if p not in cand]
    rng.shuffle(rest)
    for p in cand + rest:
        if len(out) == n:
            break
        if rng.random() < 0.15:
            p2 = rng.choice([p + '_' + rng.choice('abxyz'),
                             rng.choice('abxyz') + '_' + p,
                             p + str(rng.randint(0, 20)), p + rng.choice('abeE')])
            if p2 not in avoid and p2 not in out and p2.isidentifier() \
                    and p2 not in EQ_NAMES + ROOT_NAMES + FILE_NAMES:
                p = p2
        if p not in out:
            out.append(p)
    rng.shuffle(out)
    return out


def number(rng, signed=False, plain=False, sci=True):
    """Text of a positive number in some notation."""
    k = rng.random()
    if not plain and k < 0.04:
        s = rng.choice(['1', '1.0', '1.', '11.0', '10', '2.0', '0.1',
                        '100.0', '1000000', '21.0'])
    elif plain or k < 0.3:
        s = str(rng.randint(1, 9))
    elif k < 0.45:
        s = str(rng.randint(10, 300))
    elif k < 0.65:
        s = '{:.{p}f}'.format(rng.uniform(0.1, 20), p=rng.randint(1, 4))
        if float(s) == 0:
            s = '0.5'
    elif k < 0.72:
        s = '.' + str(rng.randint(1, 99))
    elif k < 0.77:
        s = str(rng.randint(1, 20)) + '.'
    elif sci:
        mant = rng.choice(['1', '2', '2.5', '7.25', '1.', '.5', '12', '0.3'])
        exp = rng.choice(['e', 'E']) + rng.choice(['', '+', '-', '-']) \
            + rng.choice(['0', '1', '2', '3', '02'])
        s = mant + exp
    else:
        s = str(rng.randint(1, 50))
    if signed and rng.random() < 0.3:
        s = '-' + s
    return s


NP1 = ['np.exp', 'np.log', 'np.sqrt', 'np.tanh', 'np.abs', 'np.log10',
       'np.arctan', 'np.sin', 'np.log1p', 'np.cos', 'np.emath.sqrt',
       'np.emath.log10']
NP2 = ['np.maximum', 'np.minimum', 'np.hypot', 'np.add', 'np.multiply',
       'np.subtract', 'np.divide']


class ExprGen:
    """Random expression text; precedence is decided by the text itself."""

    def __init__(self, rng, leaves, np_leaves=None, np_prob=0.12, pow_prob=0.12,
                 unary_prob=0.1, caret=True, sci=True, num_prob=0.25,
                 spaces=None, newline=False, np_const=True, compare=False,
                 paren_prob=0.25):
        self.rng = rng
        self.seen = []
        self.leaves = leaves
        self.np_leaves = np_leaves if np_leaves is not None else leaves
        self.np_prob = np_prob
        self.pow_prob = pow_prob
        self.unary_prob = unary_prob
        self.pow_ops = ['**', '^'] if caret else ['**']
        self.sci = sci
        self.num_prob = num_prob
        self.paren_prob = paren_prob
        self.np_const = np_const
        self.compare = compare
        # spacing style of this expression
        self.style = spaces if spaces is not None else \
            rng.choice(['tight', 'single', 'single', 'mixed', 'wide'])

    def sp(self):
        r = self.rng
        if self.style == 'tight':
            return ''
        if self.style == 'single':
            return ' '
        if self.style == 'wide':
            return ' ' * r.randint(0, 3)
        return r.choice(['', ' ', ' '])

    def leaf(self, inside_np=False):
        r = self.rng
        if r.random() < self.num_prob:
            return number(r, sci=self.sci)
        if self.np_const and r.random() < 0.03:
            return 'np.pi'
        return r.choice(self.np_leaves if inside_np else self.leaves)

    def call(self, d):
        """numpy call; the same text is sometimes used again, also inside
        the arguments of another call"""
        if self.seen and self.rng.random() < 0.2:
            return self.rng.choice(self.seen)
        t = self._call(d)
        if len(t) < 40 and len(self.seen) < 6:
            self.seen.append(t)
        return t

    def _call(self, d):
        r = self.rng
        s = self.sp
        k = r.random()
        gap = ' ' if r.random() < 0.05 else ''
        if k < 0.55:
            fn = r.choice(NP1)
            arg = self.gen(d, True)
            if fn in ('np.log', 'np.sqrt', 'np.log10', 'np.log1p') \
                    and r.random() < 0.8 or fn.startswith('np.emath'):
                arg = 'np.abs({}){}+{}1'.format(arg, s(), s())
            if fn == 'np.exp':
                arg = 'np.tanh({})'.format(arg) if r.random() < 0.4 else \
                    '-np.abs({})'.format(arg)
            return '{}{}({}{}{})'.format(fn, gap, s(), arg, s())
        if k < 0.85 or not self.compare and k < 0.9:
            fn = r.choice(NP2)
            return '{}({},{}{})'.format(fn, self.gen(d, True), s(),
                                        self.gen(d, True))
        if k < 0.93:
            return 'np.where({}{}{}{}{},{}{},{}{})'.format(
                self.gen(0, True), s(), r.choice(['<', '>', '<=', '>=']), s(),
                self.gen(0, True), s(), self.gen(d, True), s(),
                self.gen(d, True))
        return 'np.clip({},{}{},{}{})'.format(
            self.gen(d, True), s(), self.leaf(True), s(), self.leaf(True))

    def paren(self, d, inside_np=False):
        s = self.sp
        if self.seen and self.rng.random() < 0.1:
            return self.rng.choice(self.seen)
        t = '({}{}{})'.format(s() if self.rng.random() < 0.3 else '',
                              self.gen(d, inside_np),
                              s() if self.rng.random() < 0.3 else '')
        if self.rng.random() < 0.1:
            t = '({})'.format(t)
        return t

    def base(self, d, inside_np=False):
        """Something a power or a unary minus can be applied to."""
        r = self.rng
        k = r.random()
        if d > 0 and k < 0.35:
            return self.paren(d - 1, inside_np)
        if d > 0 and k < 0.35 + self.np_prob:
            return self.call(d - 1)
        return self.leaf(inside_np)

    def power(self, d, inside_np=False):
        r = self.rng
        op = r.choice(self.pow_ops)
        if inside_np:
            op = '**' if r.random() < 0.7 else op
        exps = ['2', '2', '3', '0.5', '1.5', '-1', '-2', '2.0', '1', '.5',
                '(1/2)', '(2 - 1)', '-.5']
        e = r.choice(exps)
        if r.random() < 0.12:
            e = '{}{}{}{}{}'.format(r.choice(['2', '1.5', '-1', '0.5']),
                                    self.sp(), op, self.sp(),
                                    r.choice(['2', '-1', '0.5']))
        elif r.random() < 0.15:
            e = '(' + self.leaf(inside_np) + self.sp() + '/' + self.sp() + '4)'
        return '{}{}{}{}{}'.format(self.base(d, inside_np), self.sp(), op,
                                   self.sp(), e)

    def term(self, d, inside_np=False):
        r = self.rng
        k = r.random()
        if k < self.unary_prob:
            return '-' + (' ' if r.random() < 0.1 else '') \
                + self.term(d, inside_np)
        k = r.random()
        if k < self.pow_prob:
            return self.power(d - 1, inside_np)
        if d > 0 and k < self.pow_prob + self.paren_prob:
            return self.paren(d - 1, inside_np)
        if d > 0 and k < self.pow_prob + self.paren_prob + self.np_prob:
            return self.call(d - 1)
        return self.leaf(inside_np)

    def gen(self, d, inside_np=False):
        """Chain of terms."""
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3]) if d > 0 else r.choice([1, 1, 1, 2])
        if d >= 3:
            n = r.choice([2, 2, 3, 3, 4, 5])
        mode = r.random()
        if mode < 0.2:
            ops = '-'
        elif mode < 0.4:
            ops = '/'
        elif mode < 0.6:
            ops = '*/'
        elif mode < 0.75:
            ops = '+-'
        else:
            ops = '+-*/'
        out = self.term(d, inside_np)
        for _ in range(n - 1):
            out += self.sp() + r.choice(ops) + self.sp() \
                + self.term(d, inside_np)
        return out


def value(rng, kind='pos'):
    """A float input value."""
    k = rng.random()
    if k < 0.7:
        v = rng.uniform(0.3, 6)
    elif k < 0.85:
        v = float(rng.randint(1, 12))
    else:
        v = rng.uniform(5, 200)
    if kind == 'any' and rng.random() < 0.2:
        v = -v
    return v


def array(rng, n, dtype=None, kind='pos'):
    vals = [value(rng, kind) for _ in range(n)]
    arr = np.array(vals, dtype=float)
    if dtype is not None:
        arr = np.rint(arr).astype(dtype) if np.issubdtype(dtype, np.integer) \
            else arr.astype(dtype)
    return arr


ROOT_NAMES = ['lib', 'lib2', 'libx', 'osw_2015', 'osw_2015b', '2015', '2016',
              'onshore', 'shore', 'zz', 'data_a', 'Data_A', 'g0', 'g01']
FILE_NAMES = ['turb', 'turbine_file', 'jacket', 'jacket_x', 'foo', 'foo.bar',
              'spar', 'arr', 'array', 'tower_', 'T', 't', 'exp_file']
EQ_NAMES = ['eq1', 'eq2', 'eq11', 'eq', 'install', 'install_3MW', 'cap_2020',
            'rna_eq', 'tower', 'tower_mass', 'mass', 'k', 'k1', 'kk', 'floor',
            'install_6mw', 'capex_per_mw', 'z1e5', 'w_2', '_hid', 'PSLT']
SUB_NAMES = ['set_1', 'set_2', 'set', 'sub', 'subset', 'nested']


def group(rng, free, defaults, depth=1, n=None, refs=True, eq_names=None,
          np_prob=0.12, avoid=()):
    """A group of equations over the names in free and defaults."""
    n = n or rng.randint(2, 5)
    avoid = set(avoid) | set(free) | set(defaults)
    pool = [e for e in (eq_names or EQ_NAMES) if e not in avoid]
    keys = rng.sample(pool, min(n, len(pool)))
    out = {}
    done = []
    for k in keys:
        r = rng.random()
        if r < 0.15:
            out[k] = rng.choice([rng.randint(1, 9), round(rng.uniform(.1, 9), 3),
                                 -round(rng.uniform(.1, 9), 2), '2.5e2', '3'])
        else:
            leaves = list(free) + list(defaults)
            if refs and done and rng.random() < 0.4:
                leaves += done * 2
            g = ExprGen(rng, leaves, caret=False, np_prob=np_prob,
                        spaces=rng.choice(['single', 'tight', 'mixed']))
            out[k] = g.gen(rng.randint(0, 2))
        done.append(k)
    if depth > 0 and rng.random() < 0.5:
        for s in rng.sample(SUB_NAMES, rng.randint(1, 2)):
            out[s] = group(rng, free, defaults, depth - 1, refs=refs,
                           eq_names=eq_names, np_prob=np_prob, avoid=avoid)
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def library(rng, free, defaults, depth=2, avoid=(), refs=True, nroot=None,
            _top=True, roots=None, inherited=()):
    """Directory spec. defaults: iterable of names; each one is defined at
    exactly one directory and used only below it."""
    free, defaults = list(free), list(defaults)
    rng.shuffle(defaults)
    n_own = len(defaults) if depth == 0 else rng.randint(0, len(defaults))
    own, rest = defaults[:n_own], defaults[n_own:]
    spec = {'vars': None, 'files': {}, 'dirs': {}}
    if own:
        spec['vars'] = {v: rng.choice([rng.randint(1, 9),
                                       round(rng.uniform(0.2, 9), 3)])
                        for v in own}
        spec['vars_ext'] = rng.choice(['.yaml', '.yml', '.json'])
    pool = [r for r in (roots or (ROOT_NAMES if _top else
                                  ROOT_NAMES + FILE_NAMES))
            if r not in avoid]
    rng.shuffle(pool)
    stems = [f for f in FILE_NAMES if f not in avoid]
    rng.shuffle(stems)
    used = set()
    for stem in (pool if _top else stems)[:rng.randint(1, 2)]:
        used.add(stem)
        spec['files'][stem] = (rng.choice(['.yaml', '.yml', '.json']),
                               group(rng, free, own + list(inherited),
                                     depth=1, refs=refs))
    if depth > 0:
        names_ = [p for p in pool if p not in used][:rng.randint(1, 2)]
        for i, name in enumerate(names_):
            share = rest[i::len(names_)]
            sub = library(rng, free, share, depth - 1, avoid, refs,
                          _top=False, inherited=own + list(inherited))
            spec['dirs'][name] = sub
    return spec


class ConfigGen:
    """Random acyclic config over a library with its reference model."""

    def __init__(self, rng, lib_spec, lib_root, inputs, n=8, aliases=True,
                 entry_pool=None, np_prob=0.15, depth=2, values=None):
        """values: input values; entries that are not well conditioned real
        numbers there are replaced by simple ones."""
        from nrwalv import ref
        self.rng = rng
        self.ref = ref
        self.node = lib_root
        self.inputs = list(inputs)
        self.values = values
        self.entries = {}
        self.kinds = {}
        self.order = []
        self.paths = ref.eq_paths(lib_spec)
        self.pvars = {p: set(lib_root.at(p).variables()) for p in self.paths}
        self.var_paths = ref.var_paths(lib_spec)
        self.np_prob = np_prob
        self.depth = depth
        lib_vars = sorted(set().union(*self.pvars.values())
                          if self.pvars else set())
        taken = set(self.inputs) | set(ROOT_NAMES)
        pool = entry_pool or (POOL + lib_vars * 2)
        cand = []
        for p in names(rng, 4 * n, avoid=taken, pool=sorted(set(pool))):
            cand.append(p)
        # some entries are named like variables of library equations
        lv = [v for v in lib_vars if v not in taken]
        rng.shuffle(lv)
        k = rng.randint(0, min(3, len(lv)))
        self.names = (lv[:k] + [c for c in cand if c not in lv[:k]])[:n]
        if rng.random() < 0.4:
            rng.shuffle(self.names)
        for i, name in enumerate(self.names):
            self._add(name, i)
        if aliases:
            self._add_alias_entries()

    def _usable(self, name):
        if self.values is None:
            return True
        from nrwalv.c01 import ref_outputs
        cfg = self.ref.RefConfig(self.entries, self.node)
        return all(v is not None for v in
                   ref_outputs(cfg, self.values, keep=[name])[name])

    def ok_paths(self, i):
        later = set(self.names[i:])
        return [p for p in self.paths if not (self.pvars[p] & later)]

    def _add(self, name, i):
        r = self.rng
        k = r.random()
        vals = [n for n in self.order if self.kinds[n] != 'group']
        paths = self.ok_paths(i)
        # prefer library equations that use entries
        paths += 3 * [p for p in paths if self.pvars[p] & set(self.order)]
        if k < 0.15:
            text = r.choice([r.randint(1, 9), round(r.uniform(0.1, 9), 3),
                             number(r), '-' + number(r)])
            kind = 'const'
        elif k < 0.3 and paths:
            text = r.choice(paths)
            if self.var_paths and r.random() < 0.15:
                text = r.choice(self.var_paths)
            kind = 'lib'
        elif k < 0.36 and vals:
            text = r.choice(vals)
            kind = 'alias'
        else:
            np_leaves = self.inputs + vals * 2
            leaves = self.inputs + vals * 2 + r.sample(
                paths, min(len(paths), 4))
            if self.var_paths and r.random() < 0.3:
                leaves += [r.choice(self.var_paths)] * 2
            g = ExprGen(r, leaves, np_leaves=np_leaves, np_prob=self.np_prob,
                        spaces=r.choice(['single', 'mixed']))
            if r.random() < 0.12:
                text = g.call(1)
            else:
                text = g.gen(r.randint(1, self.depth))
            kind = 'expr'
        self.entries[name] = text
        if kind in ('lib', 'expr') and not self._usable(name):
            self.entries[name] = '{} {} {}'.format(
                r.choice(self.inputs), r.choice('*+'), number(r))
            kind = 'expr'
        self.kinds[name] = kind
        self.order.append(name)

    def _add_alias_entries(self):
        """Entries naming a group or directory and entries that use them."""
        r = self.rng
        taken = set(self.entries) | set(self.inputs)
        prefixes = sorted({p.rsplit('::', j)[0] for p in self.paths
                           for j in range(1, p.count('::') + 1)})
        prefixes = [p for p in prefixes if not self.ref.is_num(p)]
        if not prefixes:
            return
        for _ in range(r.randint(0, 2)):
            al = r.choice(['grp', 'alias', 'al2', 'dirref', 'grp_x'])
            if al in taken:
                continue
            pre = r.choice(prefixes)
            later = set()
            paths = [p for p in self.paths if p.startswith(pre + '::')]
            # entries only use library equations whose variables are inputs,
            # defaults or entries that do not depend on the alias
            self.entries[al] = pre
            self.kinds[al] = 'group'
            self.order.append(al)
            taken.add(al)
            for _ in range(r.randint(1, 2)):
                p = r.choice(paths)
                use = al + p[len(pre):]
                nm = [n for n in names(r, 6, avoid=taken | set(ROOT_NAMES)
                                       | set().union(*self.pvars.values()))]
                if not nm:
                    continue
                nm = nm[0]
                taken.add(nm)
                leaves = [use, use] + self.inputs
                g = ExprGen(r, leaves, np_leaves=self.inputs,
                            spaces='single', np_prob=0.05)
                self.entries[nm] = use if r.random() < 0.4 else g.gen(1)
                if not self._usable(nm):
                    del self.entries[nm]
                    continue
                self.kinds[nm] = 'expr'
                self.order.append(nm)

    def shuffled(self):
        items = list(self.entries.items())
        self.rng.shuffle(items)
        return dict(items)
