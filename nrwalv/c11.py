"""C11: a loaded directory mirrors the files on disk."""
import json
import copy
import locale
import os

import yaml

from nrwalv import gen, oracle, ref
from nrwalv.common import DEFAULT_NAMES
from nrwalv.core import Discard

RULE = ('Random directory trees on disk: equation and variable files in all '
        'three formats (and several spellings of the same YAML), names with '
        'dots, ignored names, foreign file types, empty directories and '
        'directories that hold foreign files only, loaded by absolute and '
        'relative paths; the loaded tree is compared, recursively, with the '
        'generating data: member names, kinds, variables, defaults, values, '
        'retrieval with and without extension. The same library in another '
        'format must load the same; one broken file planted anywhere must '
        'raise RuntimeError, in an ignored place must change nothing. '
        'Non-trivial: a tree with an ignored item or two or more levels; '
        'distinct: by tree.')
ASSUMPTIONS = ['no two items of a directory have the same name without '
               'extension', 'a directory is not named like an equation file '
               'or "variables"']
REQUIRE = {'trees': 300, 'equations': 4000, 'ignored items': 500,
           'empty directories': 100, 'variable files': 300,
           'dotted names': 50, 'extension lookups': 300, 'broken files': 300,
           'broken but ignored': 200, 'reformatted': 200,
           'relative paths': 50, 'broken kind variables': 50}

EXTS = ['.yaml', '.yml', '.json']
FOREIGN = ['notes.txt', 'README.rst', 'eq.YAML', 'eq.yaml.bak', 'data.csv',
           'eq.yaml~', 'yaml', 'json', 'run.py', 'eq.jsonl', 'eq.Json',
           'eq_yaml', 'fooyml', 'eq.yaml ', 'variables.txt', 'variables']
IGNORED = ['.hidden.yaml', '__hidden.yaml', '.x.json', '__init__.yml',
           '.variables.yaml', '__variables.yaml', '__variables.json',
           '.yaml', '.json']
IGNORED_DIRS = ['.git', '__pycache__', '.x', '__old', '.ipynb_checkpoints',
                '__']
GARBAGE = ['', 'not: [valid', '5', 'a: import os', 'a: a + 1', 'a: 3\n',
           'x: 7.5\ny: x', '- 1\n- 2', '{"a": 1}', '\x00\x01', 'tower: 3']

# comments may hold what the encoding of the platform can express
UNITS = ' (\u20ac/m\u00b2)' \
    if locale.getpreferredencoding(False).lower() in ('utf-8', 'utf8') else ''


def spell(rng, obj, ext):
    """Text of a mapping; many spellings of the same data."""
    if ext == '.json':
        return json.dumps(obj, indent=rng.choice([None, 2]))
    k = rng.random()
    if k < 0.3:
        t = yaml.safe_dump(obj, sort_keys=False)
    elif k < 0.45:
        t = yaml.safe_dump(obj, sort_keys=False, default_flow_style=True)
    elif k < 0.6:
        t = yaml.safe_dump(obj, sort_keys=False, default_style='"') \
            if all_text(obj) else yaml.safe_dump(obj, sort_keys=False)
    elif k < 0.75:
        t = yaml.safe_dump(obj, sort_keys=False, indent=4, width=30)
    elif k < 0.85:
        t = json.dumps(obj)         # json is yaml
    else:
        t = '---\n# a comment{}\n'.format(
            rng.choice(['', UNITS])) + yaml.safe_dump(
                obj, sort_keys=False) + '\n# end\n'
    if yaml.safe_load(t) != obj:
        t = yaml.safe_dump(obj, sort_keys=False)
    return t


def all_text(obj):
    return all(all_text(v) if isinstance(v, dict) else isinstance(v, str)
               for v in obj.values())


def write(ctx, rng, spec, path, noise):
    os.makedirs(path, exist_ok=True)
    taken = set()
    if spec.get('vars') is not None:
        ext = spec.get('vars_ext', '.yaml')
        with open(os.path.join(path, 'variables' + ext), 'w') as f:
            f.write(spell(rng, spec['vars'], ext))
        taken.add('variables')
        ctx.count('variable files')
    for stem, (ext, group) in spec['files'].items():
        taken |= {stem, stem + ext}
        with open(os.path.join(path, stem + ext), 'w') as f:
            f.write(spell(rng, group, ext))
        if '.' in stem:
            ctx.count('dotted names')
    for name, sub in spec['dirs'].items():
        taken.add(name)
        to = os.path.join(path, name)
        if rng.random() < 0.08:
            # kept elsewhere
            os.symlink(os.path.join(ctx.tmpdir(), 'kept'), to)
            to = os.path.realpath(to)
            ctx.count('linked directories')
        write(ctx, rng, sub, to, noise)
    if not noise:
        return
    for n in rng.sample(FOREIGN + IGNORED, rng.randint(0, 4)):
        if n not in taken:
            taken.add(n)
            with open(os.path.join(path, n), 'w') as f:
                f.write(rng.choice(GARBAGE))
            ctx.count('ignored items')
    for n in rng.sample(IGNORED_DIRS, rng.randint(0, 2)):
        d = os.path.join(path, n)
        os.makedirs(os.path.join(d, 'deeper'))
        for q in ('a.yaml', 'variables.yaml', 'deeper/b.json'):
            if rng.random() < 0.6:
                with open(os.path.join(d, q), 'w') as f:
                    f.write(rng.choice(GARBAGE))
        ctx.count('ignored items')
    for n in rng.sample(['empty', 'docs', 'img', 'zzz_2020', 'aa'],
                        rng.randint(0, 2)):
        if n in taken:
            continue
        d = os.path.join(path, n)
        os.makedirs(os.path.join(d, rng.choice(['', 'sub/sub2', '.x'])))
        for q in rng.sample(['README.md', '.hidden.yaml', '__a.json',
                             'x.txt', '.git'], rng.randint(0, 3)):
            with open(os.path.join(d, q), 'w') as f:
                f.write(rng.choice(GARBAGE))
        ctx.count('empty directories')


def make(rng, depth=None):
    names = gen.names(rng, 4, avoid=DEFAULT_NAMES)
    defaults = rng.sample(DEFAULT_NAMES, rng.randint(0, 6))
    depth = rng.randint(0, 3) if depth is None else depth
    spec = gen.library(rng, names, defaults, depth=depth)
    todo = [spec]
    while todo:
        s = todo.pop()
        todo += s['dirs'].values()
        if rng.random() < 0.1:
            s['files']['blank'] = (rng.choice(EXTS), {})
        if rng.random() < 0.1:
            s['files']['x.y.z'] = (rng.choice(EXTS), {'q_': 'a_ + 1'})
        if rng.random() < 0.25:
            # numbers of any magnitude
            s['files']['digits'] = (rng.choice(EXTS), {
                'tiny': rng.uniform(1, 9) * 1e-13,
                'long_n': rng.uniform(1, 9), 'zero': 0,
                'neg': -rng.uniform(1, 9) * 1e-7,
                'huge': rng.randint(10 ** 14, 10 ** 15),
                'huger': rng.uniform(1, 9) * 1e30,
                'in_text': '{!r} * q_ + {!r}'.format(
                    rng.uniform(1, 9) * 1e-11, rng.uniform(1, 9) * 1e-12)})
            if s['vars'] is not None:
                s['vars'].update({'zz_tiny': rng.uniform(1, 9) * 1e-13,
                                  'zz_neg': -rng.uniform(1, 9) * 1e9})
        if rng.random() < 0.1 and not s['files'] and not s['dirs']:
            s['vars'] = s['vars'] or {'zz_v': 3}
        if rng.random() < 0.1:
            # directory that holds variables only
            s['dirs']['only_vars'] = {'vars': {'ov': rng.randint(1, 5)},
                                      'files': {}, 'dirs': {},
                                      'vars_ext': rng.choice(EXTS)}
        if rng.random() < 0.1:
            s['dirs']['passage'] = {'vars': None, 'files': {}, 'dirs': {
                'inner': {'vars': None, 'dirs': {}, 'files': {
                    'leaf': (rng.choice(EXTS), {'p': 'q_ * 2'})}}}}
        if rng.random() < 0.1:
            # names close to the special one
            for n in rng.sample(['variables_2', 'Variables', 'my_variables',
                                 'variable', 'variables.v2'], 1):
                s['files'][n] = (rng.choice(EXTS), {'t_eq': 'q_ + 2',
                                                    'u': 4})
        if rng.random() < 0.05:
            s['files'][rng.choice(['_single', 'a__b', 'end_', 'x-y',
                                   'with space'])] = \
                (rng.choice(EXTS), {'r_': '3 * q_'})
    return spec


def verify(ctx, rng, obj, node, where=''):
    """Loaded object against the generating data."""
    kind = type(obj).__name__
    if node.kind == 'dir':
        ctx.check(kind == 'EquationDirectory', 'wrong kind of member',
                  lambda: '{}: {}'.format(where, kind))
        want = set(node.data['files']) | set(node.data['dirs'])
        if node.data.get('vars') is not None:
            want.add('variables')
        got = list(obj.keys())
        ctx.check(len(got) == len(set(got)) and set(got) == want,
                  'wrong members', lambda: '{}: got {} expected {}'.format(
                      where, sorted(got), sorted(want)))
        for k in want:
            verify(ctx, rng, dict(obj.items())[k], node.child(k)
                   if k != 'variables' else
                   ref.Node('vars', node.data['vars'], node.scope),
                   where + '/' + k)
    elif node.kind == 'group':
        ctx.check(kind == 'EquationGroup', 'wrong kind of member',
                  lambda: '{}: {}'.format(where, kind))
        ctx.check(list(obj.keys()) == list(node.data), 'wrong members',
                  lambda: '{}: got {} expected {}'.format(
                      where, list(obj.keys()), list(node.data)))
        for k in node.data:
            verify(ctx, rng, dict(obj.items())[k], node.child(k),
                   where + '/' + k)
    elif node.kind == 'vars':
        ctx.check(kind == 'VariableGroup', 'wrong kind of member',
                  lambda: '{}: {}'.format(where, kind))
        ctx.check(dict(obj.items()) == node.data, 'wrong variables file',
                  lambda: '{}: got {} expected {}'.format(
                      where, dict(obj.items()), node.data))
    else:
        ctx.check(kind == 'Equation', 'wrong kind of member',
                  lambda: '{}: {}'.format(where, kind))
        vs = node.variables()
        ctx.check(list(obj.variables) == vs, 'wrong variables', lambda:
                  '{}={!r}: got {} expected {}'.format(
                      where, node.data, obj.variables, vs))
        oracle.set_precision(oracle.U64)
        vals = {v: gen.value(rng) for v in vs if v not in node.scope}
        try:
            r = oracle.usable(node.value(
                lambda n, scope: oracle.EV(vals[n]) if n in vals
                else oracle.ev(scope[n])))
        except Discard:
            ctx.count('ill conditioned')
            return
        got = obj.evaluate(**vals)
        oracle.compare(ctx, got, [r], 'wrong value', lambda:
                       '{}={!r} with {}'.format(where, node.data, vals))
        ctx.count('equations')


def n_eqns(spec):
    return len(ref.eq_paths(spec))


def load(ctx, rng, path):
    from NRWAL import EquationDirectory
    k = rng.random()
    if k < 0.5:
        return EquationDirectory(path)
    if k < 0.65:
        return EquationDirectory(path + '/')
    cwd = os.getcwd()
    try:
        ctx.count('relative paths')
        if k < 0.8:
            os.chdir(os.path.dirname(path))
            return EquationDirectory(rng.choice(['', './'])
                                     + os.path.basename(path))
        if k < 0.9:
            os.chdir(path)
            return EquationDirectory(rng.choice(['.', './']))
        os.makedirs(os.path.join(os.path.dirname(path), 'elsewhere'),
                    exist_ok=True)
        os.chdir(os.path.join(os.path.dirname(path), 'elsewhere'))
        return EquationDirectory('../' + os.path.basename(path))
    finally:
        os.chdir(cwd)


def mirror(ctx, rng):
    spec = make(rng)
    path = os.path.join(ctx.tmpdir(), rng.choice(['lib', 'eqns.d', '2015']))
    write(ctx, rng, spec, path, noise=rng.random() < 0.85)
    obj = load(ctx, rng, path)
    node = ref.root(spec)
    verify(ctx, rng, obj, node)
    ctx.count('trees')
    ctx.check(len(obj.all_equations) == n_eqns(spec),
              'wrong number of equations', lambda: '{} not {}'.format(
                  len(obj.all_equations), n_eqns(spec)))
    # with and without extension, from any level
    for p, ext, stem in file_paths(spec):
        if ref.is_num(stem) and '::' not in p:
            continue
        if any(c in p for c in '+-*/^'):
            continue
        base = obj[p]
        for e in EXTS:
            if stem.endswith(tuple(EXTS)):
                continue
            # no item is named like that, so it must be the file itself
            ctx.check(obj[p + e] is base, 'extension changes the object',
                      lambda: p + e)
            for k in list(base.keys())[:1]:
                ctx.check(obj[p + e + '::' + k] is obj[p + '::' + k],
                          'extension changes the object', lambda: p + e)
            ctx.count('extension lookups')
    ctx.sig(repr(spec), sorted(os.listdir(path)))
    ctx.sample('mirror', {'spec': spec, 'top': sorted(os.listdir(path))})


def file_paths(spec, prefix=''):
    out = []
    if spec.get('vars') is not None:
        out.append((prefix + 'variables', spec.get('vars_ext'), 'variables'))
    for stem, (ext, _) in spec['files'].items():
        out.append((prefix + stem, ext, stem))
    for name, sub in spec['dirs'].items():
        out += file_paths(sub, prefix + name + '::')
    return out


def reformat(ctx, rng):
    """The same library with other file formats loads the same."""
    from NRWAL import EquationDirectory
    spec = make(rng, depth=rng.randint(0, 2))
    d = ctx.tmpdir()
    node = ref.root(spec)
    objs = []
    for ext in EXTS:
        s2 = respec(spec, ext)
        p = os.path.join(d, ext[1:], 'lib')
        write(ctx, rng, s2, p, noise=rng.random() < 0.3)
        objs.append(EquationDirectory(p))
        verify(ctx, rng, objs[-1], node)
    for p in ref.eq_paths(spec):
        if any(c in p for c in '+-*/^') or ref.is_num(p.split('::')[0]) \
                and '::' not in p:
            continue
        vals = [o[p] for o in objs]
        ctx.check(len({(tuple(v.variables), str(sorted(
            v.default_variables.items()))) for v in vals}) == 1,
            'format changes the equation', lambda: '{}: {}'.format(p, vals))
    ctx.count('reformatted')
    ctx.sig(repr(spec))


def respec(spec, ext):
    return {'vars': spec.get('vars'), 'vars_ext': ext,
            'files': {k: (ext, g) for k, (_, g) in spec['files'].items()},
            'dirs': {k: respec(s, ext) for k, s in spec['dirs'].items()}}


BROKEN = {
    'invalid yaml': ('.yaml', 'a: [1, 2'),
    'invalid yml': ('.yml', 'a: "b\nc: d: e'),
    'tab yaml': ('.yaml', 'a:\n\tb: 1'),
    'invalid json': ('.json', '{"a": }'),
    'truncated json': ('.json', '{"a": "b + 1"'),
    'yaml in json': ('.json', 'a: b + 1'),
    'empty yaml': ('.yaml', ''),
    'comment only': ('.yml', '# nothing\n'),
    'empty json': ('.json', ''),
    'list': ('.yaml', '- a\n- b'),
    'json list': ('.json', '[1, 2]'),
    'text': ('.yaml', 'just text'),
    'number': ('.yml', '42'),
    'list value': ('.yaml', 'ok: x + 1\nbad: [1, 2]'),
    'null value': ('.yaml', 'ok: x + 1\nbad: null'),
    'date value': ('.yaml', 'bad: 2020-01-01'),
    'numeric key': ('.yaml', '5: x + 1'),
    'numeric key json': ('.json', '{"ok": "x", "1e3": "x + 1"}'),
    'nested numeric key': ('.yaml', 'set:\n  2.5: x + 1'),
    'nested list': ('.yaml', 'set:\n  sub:\n    a: [3]'),
    'nested null': ('.json', '{"set": {"a": null}}'),
    'forbidden': ('.yaml', 'a: import os'),
    'forbidden json': ('.json', '{"a": "x + eval(y)"}'),
    'forbidden nested': ('.yml', 'set:\n  a: x.__class__'),
    'self reference': ('.yaml', 'a: a + 1'),
    'nested self reference': ('.yaml', 'set:\n  a: 2 * a'),
}
BROKEN_VARS = {
    'var text': ('.yaml', 'v_x: abc'),
    'var quoted': ('.yaml', 'v_x: "5"'),
    'var list': ('.yml', 'v_x: [1, 2]'),
    'var null': ('.yaml', 'v_x: null'),
    'var dict': ('.json', '{"v_x": {"a": 1}}'),
    'var expression': ('.json', '{"v_x": 1, "v_y": "v_x + 1"}'),
    'var numeric key': ('.yaml', '3: 4'),
    'var list file': ('.yaml', '- 3'),
    'var empty file': ('.yaml', ''),
    'var invalid': ('.json', '{'),
    'var sci text': ('.yaml', 'v_x: 1 e5'),
}


def dirs_of(spec, path):
    out = [(spec, path)]
    for name, sub in spec['dirs'].items():
        out += dirs_of(sub, os.path.join(path, name))
    return out


def broken(ctx, rng):
    from NRWAL import EquationDirectory
    spec = make(rng, depth=rng.randint(0, 3))
    path = os.path.join(ctx.tmpdir(), 'lib')
    write(ctx, rng, spec, path, noise=rng.random() < 0.3)
    places = dirs_of(spec, path)
    sub, where = rng.choice(places)
    deep = rng.random()
    if deep < 0.3:
        where = os.path.join(where, *rng.choice(
            [['newdir'], ['newdir', 'x2'], ['_d']]))
        os.makedirs(where)
        sub = {'vars': None}
    is_var = rng.random() < 0.35 and sub.get('vars') is None
    kind = rng.choice(sorted(BROKEN_VARS if is_var else BROKEN))
    ext, text = (BROKEN_VARS if is_var else BROKEN)[kind]
    stem = 'variables' if is_var else rng.choice(
        ['broken', 'zz', 'A', '0', 'broken.v2', '_b'])
    fp = os.path.join(where, stem + ext)
    if os.path.exists(fp):
        raise Discard('exists')
    with open(fp, 'w') as f:
        f.write(text)
    what = '{} in {}: {!r}'.format(kind, os.path.relpath(fp, path), text)
    ctx.raises(lambda: EquationDirectory(path), (RuntimeError,),
               'broken file does not fail', what)
    ctx.count('broken files')
    ctx.count('broken kind ' + ('variables' if is_var else 'equations'))
    ctx.sig(what, repr(spec))
    # and nothing is left of it once the file is repaired
    os.remove(fp)
    if deep >= 0.3:
        obj = EquationDirectory(path)
        ctx.check(len(obj.all_equations) == n_eqns(spec),
                  'wrong number of equations', lambda: what)


def ignored(ctx, rng):
    """Broken files in ignored places change nothing."""
    from NRWAL import EquationDirectory
    spec = make(rng, depth=rng.randint(0, 3))
    path = os.path.join(ctx.tmpdir(), 'lib')
    write(ctx, rng, spec, path, noise=False)
    for _ in range(rng.randint(1, 3)):
        sub, where = rng.choice(dirs_of(spec, path))
        ext, text = rng.choice(sorted({**BROKEN, **BROKEN_VARS}.values()))
        k = rng.random()
        if k < 0.35:
            fp = rng.choice(['.', '__', '..', '___']) + rng.choice(
                ['broken', 'variables', 'x']) + ext
        elif k < 0.65:
            fp = 'broken' + ext + rng.choice(['.bak', '~', '.txt', '_', '.swp'])
        elif k < 0.75:
            fp = 'broken' + ext.upper()
        else:
            fp = os.path.join(rng.choice(['.git', '__x', '.d/e', '__y/z']),
                              rng.choice(['broken', 'variables']) + ext)
        fp = os.path.join(where, fp)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, 'w') as f:
            f.write(text)
        ctx.count('broken but ignored')
    obj = EquationDirectory(path)
    verify(ctx, rng, obj, ref.root(spec))
    ctx.sig(repr(spec), fp)


def content(rng, spec, path):
    """Change one file or directory in place; False if nothing changed."""
    s, where = rng.choice(dirs_of(spec, path))
    stems = [k for k in s['files']]
    k = rng.random()
    if k < 0.5 and stems:
        stem = rng.choice(stems)
        ext, g = s['files'][stem]
        fp = os.path.join(where, stem + ext)
        old = os.stat(fp)
        g2 = {}
        for key, v in g.items():
            # same length, other value, where that is easy
            g2[key] = v if isinstance(v, dict) else '{} * q_in'.format(
                rng.randint(2, 9))
        s['files'][stem] = (ext, g2)
        ref.dump(g2, fp)
        if rng.random() < 0.5:
            os.utime(fp, ns=(old.st_atime_ns, old.st_mtime_ns))
        return 'rewritten'
    if k < 0.6 and s.get('vars'):
        ext = s.get('vars_ext', '.yaml')
        s['vars'] = {n: rng.randint(11, 99) for n in s['vars']}
        ref.dump(s['vars'], os.path.join(where, 'variables' + ext))
        return 'variables'
    if k < 0.7 and len(stems) > 1:
        stem = rng.choice(stems)
        ext, _ = s['files'].pop(stem)
        os.remove(os.path.join(where, stem + ext))
        return 'removed'
    if k < 0.8 and stems:
        stem = rng.choice(stems)
        ext, g = s['files'].pop(stem)
        os.rename(os.path.join(where, stem + ext),
                  os.path.join(where, stem + '_moved' + ext))
        s['files'][stem + '_moved'] = (ext, g)
        return 'renamed'
    if k < 0.9 and stems:
        stem = rng.choice(stems)
        ext, g = s['files'].pop(stem)
        os.remove(os.path.join(where, stem + ext))
        ext = rng.choice([e for e in EXTS if e != ext])
        ref.dump(g, os.path.join(where, stem + ext))
        s['files'][stem] = (ext, g)
        return 'format'
    name = 'added_{}'.format(rng.randint(0, 99))
    if name in s['files']:
        return None
    s['files'][name] = ('.yaml', {'w_eq': '{} + q_in'.format(
        rng.randint(2, 9))})
    ref.dump(s['files'][name][1], os.path.join(where, name + '.yaml'))
    return 'added'


def edited(ctx, rng):
    """A library edited in place and loaded again."""
    from NRWAL import EquationDirectory, EquationGroup
    spec = make(rng, depth=rng.randint(0, 2))
    path = os.path.join(ctx.tmpdir(), 'lib')
    write(ctx, rng, spec, path, noise=False)
    loaded = [(EquationDirectory(path), copy.deepcopy(spec))]
    for _ in range(rng.randint(1, 3)):
        what = content(rng, spec, path)
        if what is None:
            continue
        ctx.count('edits')
        ctx.count('edit ' + what)
        obj = EquationDirectory(path)
        verify(ctx, rng, obj, ref.root(spec))
        loaded.append((obj, copy.deepcopy(spec)))
        # what was loaded before keeps what it read
        for o, s in loaded:
            verify(ctx, rng, o, ref.root(s))
        # a file on its own, too
        if spec['files']:
            stem = rng.choice(sorted(spec['files']))
            ext, g = spec['files'][stem]
            verify(ctx, rng, EquationGroup(os.path.join(path, stem + ext)),
                   ref.Node('group', g, {}))
    ctx.sig(repr(spec), 'edited')


SCENARIOS = [('mirror', mirror, 1600, 16000), ('reformat', reformat, 480, 4800),
             ('broken', broken, 1600, 16000), ('ignored', ignored, 800, 8000),
             ('edited', edited, 480, 4800)]
