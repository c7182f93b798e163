"""C16: config files, formats and pointers are equivalent to inlining."""
import os

from nrwalv import oracle, ref
from nrwalv.common import World, near, same_dict

RULE = ('Generated configs over generated libraries given as dict and as '
        '.yaml/.yml/.json files must agree in keys, required inputs, '
        'constants, printed form and outputs (and give the reference values), '
        'with lookup flags written in the file, the dict or passed as '
        'arguments; entries replaced by pointers to keys of other files '
        '(relative to the pointing file, through sub and parent directories, '
        'chains up to 5 files, decoy files of the same name in the working '
        'directory and next to the first file) must behave as the inlined '
        'text; broken, compound, circular and dict-config pointers must '
        'raise. Non-trivial: at least one pointer or flag; distinct: by files.')
ASSUMPTIONS = ['equation_directory is given as an absolute path',
               'library references in configs have no file extensions']
REQUIRE = {'formats': 1500, 'pointers': 1500, 'chains': 500,
           'parent steps': 200, 'pointer to number': 100,
           'refused pointers': 1000, 'flag sets': 800, 'lookups without flag': 300, 'values': 4000,
           'from other cwd': 300, 'default directory': 4}

FLAGS = ['interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year']
EXT = ['.yaml', '.yml', '.json']


def facts(obj):
    return {'keys': list(obj.keys()), 'required': list(obj.required_inputs),
            'all': list(obj.all_variables),
            'globals': dict(obj.global_variables), 'text': str(obj)}


def agree(ctx, a, b, inputs, what):
    fa, fb = facts(a), facts(b)
    for k in fa:
        ctx.check(fa[k] == fb[k], 'differs in ' + k, lambda:
                  '{}: {} vs {}'.format(what, fa[k], fb[k]))
    oa = a.evaluate(inputs)
    ob = b.evaluate(inputs)
    ctx.check(same_dict(oa, ob), 'outputs differ', lambda:
              '{}: {} vs {}'.format(what, oa, ob))
    return oa


def formats(ctx, rng):
    from NRWAL import NrwalConfig
    w = World(ctx, rng)
    cfg = w.config(shuffle=True)
    d = ctx.tmpdir()
    a = NrwalConfig(cfg)
    refs = w.references()
    for ext in rng.sample(EXT, 2):
        fp = os.path.join(d, rng.choice(['cfg', 'my.cfg', 'a_b']) + ext)
        ref.dump(cfg, fp)
        b = NrwalConfig(fp)
        out = agree(ctx, a, b, w.inputs, (ext, cfg))
        ctx.count('formats')
        ctx.count('formats ' + ext)
    w.check_values(ctx, out, refs, 'file')
    ctx.count('values', len(out))
    ctx.sig(repr(cfg))


def flag_lib(ctx):
    path = os.path.join(ctx.tmpdir(), 'eqns')
    ref.write_dir({'vars': None, 'dirs': {}, 'files': {'fam': ('.yaml', {
        'cost_4MW': 'x * 2', 'cost_8MW': 'x * 3 + 1', 'opex_2015': 'y',
        'opex_2025': 'y * 2 + 1', 'sub': {'q_1MW': 3, 'q_3MW': 7,
                                          'q_2000': 'x', 'q_2010': '2 * x'}
    })}}, path)
    return path


def flags(ctx, rng):
    """Flags in the file or dict override the arguments; they are no entries."""
    from NRWAL import NrwalConfig
    path = flag_lib(ctx)
    d = ctx.tmpdir()
    x, y = rng.uniform(1, 9), rng.uniform(1, 9)
    p, yr = rng.choice([3, 5, 7, 9]), rng.choice([2010, 2018, 2023, 2031])
    q = rng.choice([0, 4, 5])
    entries = {'a': 'fam::cost_{}MW'.format(p), 'b': 'fam::opex_{}'.format(yr),
               'c': '2 * fam::sub::q_{}MW'.format(q),
               'al': 'fam', 'e': 'al::cost_{}mw - 1'.format(p)}
    in_cfg = {f: rng.choice([True, False]) for f in FLAGS
              if rng.random() < 0.6}
    args = {f: rng.choice([True, False]) for f in FLAGS if rng.random() < 0.5}
    if rng.random() < 0.2:
        in_cfg = {f: int(v) for f, v in in_cfg.items()}
    eff = {f: bool(in_cfg.get(f, args.get(f, False))) for f in FLAGS}
    power = eff[FLAGS[0]] or eff[FLAGS[1]]
    year = eff[FLAGS[2]] or eff[FLAGS[3]]
    if not power:
        entries = {k: v for k, v in entries.items() if k in ('b', 'al')}
    if not year:
        entries.pop('b', None)
    entries['z'] = 'x + y'
    items = list(entries.items()) + list(in_cfg.items()) \
        + [('equation_directory', path)]
    rng.shuffle(items)
    cfg = dict(items)
    fp = os.path.join(d, 'cfg' + rng.choice(EXT))
    ref.dump(cfg, fp)
    a = NrwalConfig(cfg, **args)
    b = NrwalConfig(fp, **args)
    ctx.check(set(a.keys()) == set(entries), 'flag became an entry', lambda:
              '{} for {}'.format(list(a.keys()), cfg))
    out = agree(ctx, a, b, {'x': x, 'y': y}, (cfg, args))

    def line(v1, v2, x1, x2, at):
        return v1 + (v2 - v1) * (at - x1) / (x2 - x1)

    def pick(v1, v2, x1, x2, at, interp):
        if interp:
            return line(v1, v2, x1, x2, at)
        return v1 if abs(at - x1) < abs(at - x2) else v2
    want = {'z': x + y}
    if power:
        pa = pick(x * 2, x * 3 + 1, 4, 8, p, eff[FLAGS[0]])
        want.update(a=pa, e=pa - 1,
                    c=2 * pick(3, 7, 1, 3, q, eff[FLAGS[0]]))
    if year:
        want['b'] = pick(y, 2 * y + 1, 2015, 2025, yr, eff[FLAGS[2]])
    for k, v in want.items():
        if k in out:
            ctx.check(near(out[k], v, 1e-6), 'flags not in force', lambda:
                      '{}: {} instead of {} for {} args {}'.format(
                          k, out[k], v, cfg, args))
            ctx.count('values')
    ctx.check({k for k in want if k != 'c'} <= set(out), 'outputs missing',
              lambda: '{}: {}'.format(cfg, list(out)))
    for on, key, val in ((power, 'a', 'fam::cost_{}MW'.format(p)),
                         (year, 'b', 'fam::opex_{}'.format(yr))):
        if on:
            continue
        # without the flag the lookup is not made
        try:
            obj = NrwalConfig(dict(in_cfg, equation_directory=path,
                                   **{key: val}), **args)
        except Exception:
            pass
        else:
            ctx.check(any('::' in v for v in obj[key].variables),
                      'lookup without its flag', lambda: '{} in {} args {}'
                      .format(val, in_cfg, args))
        ctx.count('lookups without flag')
    ctx.count('flag sets')
    ctx.sig(repr(cfg), repr(args))
    ctx.sample('flags', {'config': cfg, 'args': args})


DIRS = ['', 'sub', 'sub/deep', 'other', 'sub/deep/er']


def rel(src, dst):
    r = os.path.relpath(dst, os.path.dirname(src))
    return r


def pointers(ctx, rng):
    from NRWAL import NrwalConfig
    w = World(ctx, rng, np_prob=0.1)
    inline = w.config(shuffle=True)
    root = os.path.join(ctx.tmpdir(), 'cfgs')
    top_dir = rng.choice(DIRS)
    top = os.path.join(root, top_dir, 'main' + rng.choice(EXT))
    files = {top: {}}
    pool = [os.path.join(root, rng.choice(DIRS),
                         rng.choice(['other', 'base', 'main2', 'o.v2',
                                     'my-costs', 'case 2', 'a_b-2'])
                         + rng.choice(EXT))
            for _ in range(rng.randint(1, 5))]
    pool = [p for p in dict.fromkeys(pool) if p != top]
    npoint = 0
    main = {}
    for k, v in inline.items():
        if k == 'equation_directory' or rng.random() < 0.4:
            main[k] = v
            continue
        hops = rng.choice([1, 1, 1, 2, 2, 3, 4])
        chain = []
        for _ in range(hops):
            # later files never point back to earlier ones
            lo = pool.index(chain[-1][0]) + 1 if chain else 0
            if lo >= len(pool):
                break
            f = rng.choice(pool[lo:])
            key = rng.choice([k, k, 'k_' + k, 'key', 'val', k + '2'])
            if key in files.get(f, {}):
                key = key + '_{}'.format(len(files[f]))
            if key in files.get(f, {}):
                break
            files.setdefault(f, {})[key] = None
            chain.append((f, key))
        if not chain:
            main[k] = v
            continue
        src, key = top, k
        for f, fk in chain:
            r = rel(src, f)
            if not r.startswith('.') and rng.random() < 0.7:
                r = './' + r
            if rng.random() < 0.1:
                r = f
                ctx.count('absolute pointers')
            if '../' in r:
                ctx.count('parent steps')
            p = r + '::' + fk
            if src == top:
                main[k] = p
            else:
                files[src][key] = p
            src, key = f, fk
        files[src][key] = v
        npoint += 1
        ctx.count('pointers')
        if len(chain) > 1:
            ctx.count('chains')
        if ref.is_num(v):
            ctx.count('pointer to number')
    items = list(main.items())
    files[top] = dict(items)
    for f, content in files.items():
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if f != top:
            # unrelated content of the other config must not matter
            if rng.random() < 0.5:
                content['equation_directory'] = rng.choice(
                    ['/no/such/dir', w.path])
            if rng.random() < 0.3:
                content[rng.choice(FLAGS)] = rng.choice([True, False])
            if rng.random() < 0.3:
                content.setdefault('unrelated', rng.choice(
                    ['x + 1', 5, 'np.log(q)']))
            it = list(content.items())
            rng.shuffle(it)
            content = dict(it)
        ref.dump(content, f)
    # decoys: same relative names elsewhere
    cwd = os.getcwd()
    other = ctx.tmpdir()
    for f, content in files.items():
        if f == top:
            continue
        for base in (other, os.path.dirname(top)):
            df = os.path.join(base, rng.choice([
                os.path.relpath(f, root), os.path.basename(f)]))
            df = os.path.normpath(df)
            if not os.path.exists(df) and df not in files and (
                    df.startswith(root) or df.startswith(other)):
                os.makedirs(os.path.dirname(df), exist_ok=True)
                ref.dump({kk: 987654.0 for kk in content}, df)
    arg = top
    k = rng.random()
    try:
        if k < 0.5:
            os.chdir(other)
            ctx.count('from other cwd')
            if k < 0.25:
                arg = os.path.relpath(top, other)
        elif k < 0.6:
            os.chdir(os.path.dirname(top))
            arg = os.path.basename(top)
            ctx.count('from own directory')
        a = NrwalConfig(arg)
    finally:
        os.chdir(cwd)
    b = NrwalConfig(inline)
    refs = w.references()
    what = {os.path.relpath(f, root): c for f, c in files.items()}
    out = agree(ctx, a, b, w.inputs, what)
    w.check_values(ctx, out, refs, repr(what))
    ctx.count('values', len(out))
    if npoint:
        ctx.sig(repr(what))
    ctx.sample('pointers', what)


def refused(ctx, rng):
    from NRWAL import NrwalConfig
    path = flag_lib(ctx)
    d = ctx.tmpdir()
    oe = rng.choice(EXT)
    o = 'other' + oe
    other = {'k': rng.choice([3, 'x * 2', 'fam::cost_4MW']), 'k2': 'y + 1',
             'num': 4}
    sub = os.path.join(d, 'sub')
    os.makedirs(sub)
    pre = rng.choice(['', './'])
    good = pre + o + '::k'
    kind = rng.choice(['file', 'key', 'compound', 'compound', 'compound',
                       'dict', 'no key', 'deep key', 'broken chain', 'circle',
                       'directory key'])
    if kind == 'file':
        ptr = rng.choice(['./none' + oe + '::k', '../' + o + '::k',
                          './sub/' + o + '::k', './othe' + oe + '::k',
                          './other.jsn.json::k'])
    elif kind == 'key':
        ptr = pre + o + '::' + rng.choice(['nokey', 'K', 'k22', 'x', 'kk',
                                           '3', 'fam', 'equation_directory'])
    elif kind == 'compound':
        ptr = rng.choice(['{} * 2', '2 * {}', '({})', '{} + {}', '{} ** 2',
                          '{} - 1', '{} / 2', '{} ^ 2', '1 + {}', '1 - {}',
                          'np.log({})', '{}-1', '({}) * x', '-{}', '{}, {}',
                          '{} - {}', '{}*1', '+{}', '{} / {}', '{}/1']
                         ).format(good, pre + o + '::num')
    elif kind == 'dict':
        ptr = good
    elif kind == 'no key':
        ptr = rng.choice([pre + o, pre + o + '::', o + ':k', o + ' k'])
    elif kind == 'deep key':
        ptr = rng.choice([good + '::k2', good + '::', pre + o + '::fam::k',
                          'sub::' + good])
    elif kind == 'broken chain':
        other['hop'] = rng.choice(['./none.yaml::k', './third.yaml::zz',
                                   './third.yaml::k * 2', './third.yaml'])
        ref.dump({'k': 2}, os.path.join(d, 'third.yaml'))
        ptr = pre + o + '::hop'
    elif kind == 'circle':
        other['hop'] = rng.choice(['./third.yaml::k', './' + o + '::hop'])
        ref.dump({'k': pre + o + '::hop'}, os.path.join(d, 'third.yaml'))
        ptr = pre + o + '::hop'
    else:
        ptr = 'sub.yaml::k'
        os.makedirs(os.path.join(d, 'sub.yaml'))
    if rng.random() < 0.4:
        other['bad'] = rng.choice([7, 'x - 1'])
    ref.dump(other, os.path.join(d, o))
    items = [('bad', ptr), ('fine', 'x + y'), ('equation_directory', path)]
    if rng.random() < 0.5:
        items.append(('fine_too', './' + o + '::num'
                      if kind not in ('dict', 'circle', 'broken chain')
                      else 3))
    rng.shuffle(items)
    cfg = dict(items)
    if kind == 'dict':
        fun = lambda: NrwalConfig(cfg)
    else:
        fp = os.path.join(d, 'main' + rng.choice(EXT))
        ref.dump(cfg, fp)
        fun = lambda: NrwalConfig(fp)
    cwd = os.getcwd()
    try:
        os.chdir(rng.choice([d, sub, cwd]))
        ctx.raises(fun, (Exception,), 'bad pointer accepted', '{}: {} {}'
                   .format(kind, cfg, other))
        # the good pointer is accepted
        if kind not in ('dict', 'circle', 'broken chain'):
            cfg['bad'] = good
            ref.dump(cfg, fp)
            c = NrwalConfig(fp)
            ctx.check(str(c['bad'].full if hasattr(c['bad'], 'full')
                          else c['bad']) != '', 'pointer lost', lambda: cfg)
    finally:
        os.chdir(cwd)
    ctx.count('refused pointers')
    ctx.count('refused ' + kind)
    ctx.sig(repr(cfg), ptr)
    ctx.sample('refused', {'pointer': ptr, 'other': other})


def default_dir(ctx, rng):
    """Without equation_directory the shipped library is used."""
    from NRWAL import NrwalConfig
    d = ctx.tmpdir()
    dd = NrwalConfig.DEFAULT_DIR
    fp = os.path.join(d, 'c' + rng.choice(EXT))
    cfg = {'z': 'x + 1', 'n': rng.randint(2, 9), 'w': 'z * n'}
    cwd = os.getcwd()
    try:
        os.chdir(d)
        ref.dump(cfg, fp)
        a = NrwalConfig(fp)
        b = NrwalConfig(dict(cfg, equation_directory=dd))
    finally:
        os.chdir(cwd)
    agree(ctx, a, b, {'x': rng.uniform(1, 5)}, cfg)
    ctx.count('default directory')


def edited(ctx, rng):
    """Config files, pointed files and libraries edited in place."""
    from NRWAL import NrwalConfig
    d = ctx.tmpdir()
    lib = os.path.join(d, 'eqns')
    eext, oext, mext = (rng.choice(EXT) for _ in range(3))
    main, other = os.path.join(d, 'main' + mext), \
        os.path.join(d, 'other' + oext)
    os.makedirs(lib)
    nums = {}

    def put(what):
        nums[what] = rng.randint(2, 9)
        n = nums[what]
        fp, obj = {
            'lib': (os.path.join(lib, 'f' + eext),
                    {'eq': '{} * x + k'.format(n)}),
            'vars': (os.path.join(lib, 'variables.yaml'), {'k': n}),
            'other': (other, {'p': '{} + x'.format(n), 'q': n}),
            'main': (main, {'a': 'f::eq', 'b': './other' + oext + '::p',
                            'c': 'a - {} * b'.format(n),
                            'equation_directory': lib})}[what]
        old = os.stat(fp) if os.path.exists(fp) else None
        ref.dump(obj, fp)
        if old is not None and rng.random() < 0.5:
            os.utime(fp, ns=(old.st_atime_ns, old.st_mtime_ns))
    parts = ['lib', 'vars', 'other', 'main']
    for p in parts:
        put(p)
    held = []

    def want(n, x):
        a, b = n['lib'] * x + n['vars'], n['other'] + x
        return {'a': a, 'b': b, 'c': a - n['main'] * b}
    for _ in range(rng.randint(3, 5)):
        arg = main
        if rng.random() < 0.3:
            # as a dict of the same directory, without the pointer
            arg = {'a': 'f::eq', 'b': '{} + x'.format(nums['other']),
                   'c': 'a - {} * b'.format(nums['main']),
                   'equation_directory': lib}
        held.append((NrwalConfig(arg), dict(nums)))
        for obj, n in held:
            x = rng.uniform(1, 9)
            out = obj.evaluate({'x': x})
            for k, v in want(n, x).items():
                ctx.check(near(out[k], v), 'content of an earlier or later '
                          'file', lambda: '{}: {} instead of {} ({})'.format(
                              k, out[k], v, n))
            ctx.count('values', 3)
        for p in rng.sample(parts, rng.randint(1, 2)):
            put(p)
            ctx.count('edits')
    ctx.sig('edited', str([n for _, n in held]))


SCENARIOS = [('default_dir', default_dir, 8, 16),
             ('formats', formats, 1600, 16000),
             ('flags', flags, 2000, 20000),
             ('pointers', pointers, 2000, 20000),
             ('refused', refused, 3200, 32000),
             ('edited', edited, 480, 4800)]
