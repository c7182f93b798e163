"""C19: results depend only on definitions and inputs."""
import copy
import os
import pickle
import subprocess
import sys
import threading
import time

from nrwalv import c10, c12, core, gen, ref, worker19
from nrwalv.c01 import make_inputs
from nrwalv.common import World, near, snapshot
from nrwalv.core import Discard

RULE = ('Random definitions (equations, groups, directories, configs) and '
        'inputs evaluated (1) again and again, interleaved with other '
        'evaluations, failing calls, prints and lookups, (2) from 3-6 threads '
        'on shared equations, groups and directories with random yields '
        'injected at the lines of NRWAL and a switch interval of 1 us, each '
        'thread also building configs of its own, (3) in processes with other '
        'hash seeds, working directories, locales, directory listing orders '
        'and job orders, also from pickles made by another process, (4) on '
        'deep copies and pickles (every protocol) of objects in any state, '
        'after which copy and original are changed in turn. Every result is '
        'compared bit by bit with the first one. Non-trivial: more than one '
        'evaluation of a definition; distinct: by definitions and history.')
ASSUMPTIONS = ['a NrwalConfig holds inputs and outputs, so threads use '
               'configs of their own', 'paths in configs are absolute']
REQUIRE = {'repeated results': 3000, 'thread results': 3000,
           'overlapping evaluations': 500, 'same object overlaps': 200,
           'injected yields': 1000, 'distinct interleavings': 30,
           'process results': 300, 'processes': 20, 'hash seeds': 20,
           'pickles across processes': 50, 'copies': 1500,
           'copy independence': 1500, 'evaluated configs copied': 20,
           'lookalike results': 3000}


class Def:
    """A definition with ways to evaluate it."""

    def __init__(self, ctx, rng):
        w = self.w = World(ctx, rng, n=rng.randint(2, 6), refs=True)
        from nrwalv import ref
        self.flags = c10.flagset(rng)
        self.paths = ref.eq_paths(w.spec)
        self.names = w.input_names
        self.sets = [w.inputs] + [
            {k: copy.deepcopy(v) for k, v in make_inputs(
                rng, w.input_names).items()} for _ in range(2)]
        self.cfg = w.config()

    def equations(self):
        from NRWAL import EquationDirectory
        return EquationDirectory(self.w.path, **self.flags)


def outcome(fun):
    """Result or kind of error of a call."""
    try:
        return snapshot(fun())
    except Exception as e:
        return ('error', type(e).__name__)


def evaluate(eq, inputs):
    return eq.evaluate(**{k: v for k, v in inputs.items()})


def retrievals(rng, d):
    """Keys of a directory: members and arithmetic."""
    keys = list(d.paths)
    for _ in range(2):
        a, b = rng.choice(d.paths), rng.choice(d.paths)
        keys.append('{} {} {}'.format(a, rng.choice('+-*/'), b))
        keys.append('({} + {}) * 2'.format(a, b))
    return keys


# -- 1 repetition and order ------------------------------------------------
def history(ctx, rng):
    from NRWAL import NrwalConfig
    d = Def(ctx, rng)
    lib = d.equations()
    cfg = NrwalConfig(d.cfg, **d.flags)
    keys = retrievals(rng, d)
    first = {}
    hist = []
    held = {}
    for step in range(rng.randint(20, 45)):
        k = rng.random()
        si = rng.randrange(3)
        inputs = d.sets[si]
        if k < 0.45:
            key = rng.choice(keys)
            # from the shared library, a held object or a new library
            j = rng.random()
            if j < 0.4:
                eq = lib[key]
            elif j < 0.8:
                eq = held.setdefault(key, lib[key])
            else:
                eq = d.equations()[key]
            tag = (key, si)
            got = outcome(lambda: evaluate(eq, inputs))
        elif k < 0.75:
            tag = ('config', si)
            j = rng.random()
            if j < 0.6:
                cfg.inputs = None
                got = outcome(lambda: cfg.evaluate(inputs))
            else:
                got = outcome(lambda: NrwalConfig(
                    d.cfg, **d.flags).evaluate(inputs))
        else:
            # something else in between
            j = rng.random()
            hist.append('other')
            try:
                if j < 0.2:
                    str(lib), str(cfg), repr(lib[rng.choice(keys)])
                elif j < 0.4:
                    lib['no_such::thing_7MW']
                elif j < 0.6:
                    lib[rng.choice(d.paths)].evaluate()
                elif j < 0.8:
                    o = Def(ctx, rng)
                    o.equations()
                    NrwalConfig(o.cfg).evaluate(o.sets[0])
                else:
                    lib[rng.choice(d.paths)] + lib[rng.choice(d.paths)]
            except Discard:
                pass
            except Exception:
                ctx.count('failing calls between')
            continue
        hist.append(tag)
        if tag in first:
            ctx.check(got == first[tag], 'repeated evaluation differs',
                      lambda: '{}: {} then {} after {}; config {}'.format(
                          tag, first[tag], got, hist, d.cfg))
            ctx.count('repeated results')
        else:
            first[tag] = got
    ctx.sig(str(d.cfg), str(hist))
    ctx.sample('history', {'config': d.cfg, 'history': hist[:12]})


def lookalikes(ctx, rng):
    """Definitions that share text, name or inputs but differ in something
    else, evaluated in any order."""
    import numpy as np
    from NRWAL import Equation, EquationGroup, NrwalConfig
    names = gen.names(rng, 3)
    x, y, z = names
    texts = ['{} * {} + {}'.format(x, y, z), '{} - {}'.format(y, z),
             'np.maximum({}, {}) / {}'.format(x, y, z)]
    pool = []
    empty = ctx.tmpdir()
    for _ in range(rng.randint(4, 8)):
        text = rng.choice(texts[:2] if rng.random() < 0.7 else texts)
        dfl = {n: float(rng.randint(2, 30)) for n in
               rng.sample(names, rng.randint(0, 3))}
        kind = rng.choice(['equation', 'group', 'config'])
        if kind == 'equation':
            o = Equation(text, name=rng.choice([None, 'same']),
                         default_variables=dfl or None)
        elif kind == 'group':
            g = EquationGroup({'same': text})
            g.set_default_variables(dfl)
            o = g['same']
        else:
            o = NrwalConfig({'same': text, 'equation_directory': empty})
            dfl = {}
        pool.append([kind, o, text, dfl])
    hist = []
    values = [float(rng.randint(1, 9)) for _ in range(2)]
    for step in range(rng.randint(20, 40)):
        item = rng.choice(pool)
        kind, o, text, dfl = item
        if kind != 'config' and rng.random() < 0.1:
            new = {rng.choice(names): float(rng.randint(31, 60))}
            o.set_default_variables(new)
            item[3] = dfl = dict(dfl, **new)
            hist.append(('set', pool.index(item), new))
            continue
        n = rng.choice([0, 0, 0, 2, 3])
        sup = {}
        for k in ref.free_names(text):
            if k not in dfl or rng.random() < 0.2:
                v = rng.choice(values)
                # numbers that compare equal but are different inputs
                sup[k] = rng.choice([v, v, int(v)]) if not n else np.full(
                    n, v) + np.arange(n) * rng.choice([0, 1])
        env = {**dfl, **sup}
        want = eval(text, {'np': np}, {k: env[k] for k in names if k in env})
        hist.append((pool.index(item), sup))

        def run():
            if kind == 'config':
                o.inputs = None
                return o.evaluate(sup)['same']
            return o.evaluate(**sup)
        try:
            got = run()
        except Exception as e:
            ctx.fail('does not evaluate', '{!r}: {} with {} defaults {} after '
                     '{}'.format(e, text, sup, dfl, hist))
        ctx.check(near(got, want, 1e-6), 'result of another definition',
                  lambda: '{} of {} with {} defaults {}: {} instead of {} '
                  'after {}'.format(kind, text, sup, dfl, got, want, hist))
        ctx.count('lookalike results')
        if isinstance(got, np.ndarray) and got.flags.writeable \
                and rng.random() < 0.5:
            # results belong to the caller
            got[...] = -99.
    ctx.sig(str(hist))


# -- 2 threads -------------------------------------------------------------
class Trace:
    """Yields at lines of NRWAL and a log of starts and ends."""

    def __init__(self, rate):
        self.rate = rate
        self.n = 0
        self.log = []
        self.active = {}
        self.lock = threading.Lock()
        self.overlap = self.same = 0
        self.repo = os.path.abspath(core.REPO) + os.sep

    def tracer(self, rng):
        def local(frame, event, arg):
            if event == 'line' and rng.random() < self.rate:
                self.n += 1
                time.sleep(0)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(self.repo) or fn == '<string>':
                return local
            return None
        return glob

    def start(self, tid, obj):
        with self.lock:
            if self.active:
                self.overlap += 1
                if obj in self.active.values():
                    self.same += 1
            self.active[tid] = obj
            self.log.append((tid, 's'))

    def end(self, tid):
        with self.lock:
            self.active.pop(tid, None)
            self.log.append((tid, 'e'))


def map_ops(todo):
    return [op for op, _, _ in todo]


def threads(ctx, rng):
    from NRWAL import NrwalConfig
    d = Def(ctx, rng)
    ref_lib = d.equations()
    keys = retrievals(rng, d)
    want = {}
    for key in keys:
        for si in range(3):
            want[key, si] = outcome(lambda: evaluate(ref_lib[key],
                                                     d.sets[si]))
    for si in range(3):
        want['config', si] = outcome(lambda: NrwalConfig(
            d.cfg, **d.flags).evaluate(d.sets[si]))
    texts = {p: str(ref_lib[p]) for p in d.paths}
    # a library nobody has used yet
    lib = d.equations()
    held = {k: lib[k] for k in keys}
    nt = rng.randint(3, 6)
    shared_sets = rng.random() < 0.5
    tr = Trace(rng.choice([0.003, 0.01, 0.03]))
    jobs = []
    hot = rng.choice(keys)
    for t in range(nt):
        todo = []
        for _ in range(rng.randint(6, 12)):
            k = rng.random()
            si = rng.randrange(3)
            if k < 0.35:
                todo.append(('held', hot, si))
            elif k < 0.6:
                todo.append(('held', rng.choice(keys), si))
            elif k < 0.8:
                todo.append(('lib', rng.choice(keys), si))
            elif k < 0.9:
                todo.append(('str', rng.choice(d.paths), si))
            else:
                todo.append(('config', 'config', si))
        jobs.append(todo)
    results = [[] for _ in range(nt)]
    barrier = threading.Barrier(nt)
    rngs = [core.case_rng('C19', 'thread', rng.random(), t)
            for t in range(nt)]

    def work(t):
        sets = d.sets if shared_sets else copy.deepcopy(d.sets)
        glob = tr.tracer(rngs[t])
        barrier.wait()
        sys.settrace(glob)
        try:
            for op, key, si in jobs[t]:
                tr.start(t, key)
                if op == 'held':
                    r = outcome(lambda: evaluate(held[key], sets[si]))
                elif op == 'lib':
                    r = outcome(lambda: evaluate(lib[key], sets[si]))
                elif op == 'str':
                    r = str(lib[key])
                else:
                    r = outcome(lambda: NrwalConfig(
                        d.cfg, **d.flags).evaluate(sets[si]))
                tr.end(t)
                results[t].append(r)
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for t in range(nt):
        ctx.check(len(results[t]) == len(jobs[t]), 'thread died', lambda:
                  '{} of {}'.format(len(results[t]), jobs[t]))
        for (op, key, si), r in zip(jobs[t], results[t]):
            w = texts[key] if op == 'str' else want[key, si]
            ctx.check(r == w, 'result differs between threads', lambda:
                      '{} {} in thread {} of {}: {} instead of {}; config {} '
                      'inputs {}'.format(op, key, t, nt, r, w, d.cfg,
                                         d.sets[si]))
            ctx.count('thread results')
    ctx.count('overlapping evaluations', tr.overlap)
    ctx.count('same object overlaps', tr.same)
    ctx.count('injected yields', tr.n)
    seen = ctx.cache.setdefault('interleavings', set())
    key = hash((tuple(map(tuple, map(map_ops, jobs))), tuple(tr.log)))
    if key not in seen:
        seen.add(key)
        ctx.count('distinct interleavings')
    ctx.sig(str(d.cfg), str(tr.log))


# -- 3 processes -----------------------------------------------------------
def make_jobs(ctx, rng, n):
    from NRWAL import Equation, EquationDirectory, EquationGroup, NrwalConfig
    jobs = []
    while len(jobs) < n:
        try:
            d = Def(ctx, rng)
        except Discard:
            continue
        inputs = d.sets[0]
        jobs.append({'kind': 'config', 'config': d.cfg, 'inputs': inputs,
                     'flags': d.flags})
        jobs.append({'kind': 'directory', 'path': d.w.path, 'inputs': inputs,
                     'flags': d.flags, 'keys': retrievals(rng, d)})
        free, data, fams = c10.make(rng)
        keys = []
        for path, base, kind, f in fams:
            v = rng.choice([v for v, _ in f.values()])
            keys.append(path + ('{}_{}MW' if kind == 'power' else '{}_{}')
                        .format(base, v + 1))
        vals = {x: gen.value(rng) for x in free}
        flags = {k: True for k in d.flags}
        jobs.append({'kind': 'group', 'data': data, 'flags': flags,
                     'defaults': {}, 'inputs': vals, 'keys': keys})
        g = gen.ExprGen(rng, d.names, caret=False, np_prob=0.2)
        text = g.gen(3)
        jobs.append({'kind': 'equation', 'text': text, 'defaults': {},
                     'inputs': inputs})
        # objects that travel
        k = rng.random()
        try:
            if k < 0.4:
                obj = NrwalConfig(d.cfg, **d.flags)
                if rng.random() < 0.5:
                    obj.evaluate(d.sets[1])
                    obj.inputs = None
                job = {'what': 'config'}
            elif k < 0.6:
                obj, job = Equation(text), {'what': 'equation'}
            elif k < 0.8:
                obj = EquationGroup(data, **flags)
                job = {'what': 'group', 'keys': keys}
            else:
                obj = EquationDirectory(d.w.path, **d.flags)
                job = {'what': 'directory', 'keys': retrievals(rng, d)}
        except Exception:
            continue
        job.update(kind='pickled', inputs=vals if job['what'] == 'group'
                   else inputs, object=pickle.dumps(obj))
        jobs.append(job)
    return jobs


def processes(ctx, rng):
    scratch = ctx.tmpdir()
    jobs = make_jobs(ctx, rng, 60 if ctx.tier == 'quick' else 120)
    here = [worker19.run_job(copy.deepcopy(j)) for j in jobs]
    src = os.path.join(scratch, 'jobs.pkl')
    with open(src, 'wb') as f:
        pickle.dump(jobs, f)
    seeds = rng.sample(range(1, 10 ** 6), 2) + ['random']
    for n, hs in enumerate(seeds[:3]):
        dst = os.path.join(scratch, 'out{}.pkl'.format(n))
        cwd = os.path.join(scratch, 'cwd{}'.format(n))
        os.makedirs(cwd)
        if n == 1:
            # files that must not be picked up from the working directory
            for name in ('variables.yaml', 'eqns.yaml', 'numpy_.py'):
                with open(os.path.join(cwd, name), 'w') as f:
                    f.write('x: 1\n')
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=core.VERIF,
                   NRWAL_REPO=core.REPO, PYTHONDONTWRITEBYTECODE='1',
                   LC_ALL=rng.choice(['C', 'C.UTF-8', 'POSIX']),
                   TZ=rng.choice(['UTC', 'Asia/Tokyo']), HOME=cwd,
                   OMP_NUM_THREADS='1')
        p = subprocess.run(
            [sys.executable, '-m', 'nrwalv.worker19', src, dst,
             str(rng.randrange(10 ** 6))], cwd=cwd, env=env,
            capture_output=True, text=True, timeout=300)
        if p.returncode:
            ctx.fail('evaluation in another process failed',
                     p.stderr[-2000:])
        with open(dst, 'rb') as f:
            res, _, _ = pickle.load(f)
        ctx.count('processes')
        ctx.count('hash seeds')
        for i, r in res.items():
            j = i if isinstance(i, int) else i[1]
            ctx.check(r == here[j], 'result differs in another process',
                      lambda: 'hash seed {} cwd {}: {} here {} there {}'
                      .format(hs, cwd, {k: v for k, v in jobs[j].items()
                                        if k != 'object'}, here[j], r))
            ctx.count('process results')
            if jobs[j]['kind'] == 'pickled':
                ctx.count('pickles across processes')
    bad = sum(1 for r in here if r and r[0] == 'error')
    ctx.count('jobs with errors', bad)
    ctx.check(bad < len(jobs) / 2, 'jobs fail', lambda: str(here)[:2000])
    ctx.sig(str(here))


# -- 4 copies --------------------------------------------------------------
def make_object(ctx, rng, d):
    """object, evaluate(obj, inputs) and list of inputs"""
    from NRWAL import Equation, EquationGroup, NrwalConfig
    from NRWAL.handlers.groups import VariableGroup
    kind = rng.choice(['equation', 'combined', 'group', 'directory', 'config',
                       'config', 'config', 'variables', 'member', 'looked up'])
    if kind == 'equation':
        g = gen.ExprGen(rng, d.names, caret=False, np_prob=0.2)
        obj = Equation(g.gen(2), name=rng.choice([None, 'a_name']),
                       default_variables=rng.choice([None, {d.names[0]: 2.5}]))
        return kind, obj, evaluate, d.sets
    lib = d.equations()
    if kind == 'combined':
        obj = lib[rng.choice(retrievals(rng, d)[-2:])]
        return kind, obj, evaluate, d.sets
    if kind == 'member':
        return kind, lib[rng.choice(d.paths)], evaluate, d.sets
    if kind == 'variables':
        obj = VariableGroup({k: rng.randint(1, 9) for k in d.names})
        return kind, obj, lambda o, i: [o[k] for k in i if k in o], d.sets
    if kind in ('group', 'looked up'):
        free, data, fams = c10.make(rng)
        flags = c10.flagset(rng)
        obj = EquationGroup(data, **flags)
        sets = [{x: gen.value(rng) for x in free} for _ in range(3)]
        keys = []
        for path, base, knd, f in fams:
            v = rng.choice([v for v, _ in f.values()])
            keys.append(path + ('{}_{}MW' if knd == 'power' else '{}_{}')
                        .format(base, v + rng.randint(-1, 1)))
        if kind == 'group':
            return kind, obj, lambda o, i: [
                outcome(lambda: evaluate(o[k], i)) for k in keys], sets
        for k in keys:
            try:
                return kind, obj[k], evaluate, sets
            except KeyError:
                pass
        raise Discard('no lookup')
    if kind == 'directory':
        keys = retrievals(rng, d)
        return kind, lib, lambda o, i: [outcome(lambda: evaluate(o[k], i))
                                        for k in keys], d.sets
    obj = NrwalConfig(d.cfg, **d.flags)
    if rng.random() < 0.3:
        obj.inputs = d.sets[1]
    if rng.random() < 0.4:
        try:
            obj.evaluate(d.sets[1])
            ctx.count('evaluated configs copied')
        except RuntimeError:
            pass

    def run(o, i):
        o.inputs = None
        return dict(o.evaluate(i))
    return kind, obj, run, d.sets


def change(rng, obj, kind, d):
    """A change through the interface; True if it may change results."""
    v = {n: round(rng.uniform(50, 99), 2) for n in d.names}
    v.update({n: round(rng.uniform(50, 99), 2) for n in d.w.default_names})
    if kind == 'config':
        j = rng.random()
        if j < 0.3:
            obj.inputs = {n: 3.25 for n in d.names}
        elif j < 0.5:
            obj.reset_output()
        elif j < 0.7:
            obj.inputs = None
        else:
            for m in obj.values():
                if hasattr(m, 'set_default_variables'):
                    m.set_default_variables(v)
    elif kind == 'variables':
        obj.var_dict[d.names[0]] = 77.5
    elif kind in ('directory', 'group') and rng.random() < 0.3:
        for e in obj.all_equations:
            e.set_default_variables(v)
    elif kind == 'directory':
        obj.set_default_variables(v, force_update=rng.random() < 0.5)
    else:
        obj.set_default_variables(v)


def observed(obj):
    out = [c12.finger(obj)]
    if type(obj).__name__ == 'NrwalConfig':
        out.append(c12.state(obj))
        out.append([obj.solvable, obj.solved, obj.missing_inputs])
    return out


def copies(ctx, rng):
    d = Def(ctx, rng)
    kind, obj, run, sets = make_object(ctx, rng, d)
    start = observed(obj)
    how = rng.choice(['deepcopy', 'pickle', 'pickle', 'twice'])
    proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)

    def clone(o):
        if how == 'deepcopy':
            return copy.deepcopy(o)
        if how == 'pickle':
            return pickle.loads(pickle.dumps(o, protocol=proto))
        return pickle.loads(pickle.dumps(copy.deepcopy(o), protocol=proto))
    what = '{} of {} {}'.format(how, kind, start[0][1] if isinstance(
        start[0][1], str) else '')
    try:
        c = clone(obj)
    except Exception as e:
        ctx.fail('cannot be copied', '{!r}: {} protocol {}'.format(e, what,
                                                                   proto))
    ctx.check(c is not obj and type(c) is type(obj), 'wrong copy', what)
    now = observed(obj)
    ctx.check(now == start, 'copying changed the object', lambda:
              '{}: {}'.format(what, c12.diff(start, now)))
    now = observed(c)
    ctx.check(now == start, 'copy differs', lambda: '{}: {}'.format(
        what, c12.diff(start, now)))
    ctx.count('copies')
    # change the copy, the original stays; then the other way round
    c2 = clone(obj)
    for a, b in ((c, obj), (obj, c2)):
        before = observed(b)
        for _ in range(rng.randint(1, 2)):
            change(rng, a, kind, d)
        if kind == 'config' and rng.random() < 0.5:
            outcome(lambda: run(a, sets[2]))
        now = observed(b)
        ctx.check(now == before, 'changing one changed the other', lambda:
                  '{}: {}'.format(what, c12.diff(before, now)))
        ctx.count('copy independence')
    # both evaluate alike after the same history
    fresh, e1 = obj, clone(obj)
    for s in (sets[0], sets[1], sets[0]):
        r0 = outcome(lambda: run(fresh, s))
        r1 = outcome(lambda: run(e1, s))
        ctx.check(r0 == r1, 'copy evaluates differently', lambda:
                  '{} with {}: {} and {}'.format(what, s, r0, r1))
        ctx.count('copies')
    ctx.sig(what, str(sets[0]))
    ctx.sample('copies', what)


SCENARIOS = [('history', history, 800, 10000),
             ('lookalikes', lookalikes, 800, 10000), ('threads', threads, 400, 4000),
             ('processes', processes, 24, 160), ('copies', copies, 1600, 20000)]
