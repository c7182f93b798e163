"""Runner: shards, case seeds, event counters, verdicts, evidence."""
import hashlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NRWAL_REPO', '/repo')
NSHARD = 8
CASE_CPU_S = 60


class Violation(Exception):
    """The monitored property was refuted."""

    def __init__(self, kind, detail):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = detail


class Discard(Exception):
    """Case is outside the domain (ill conditioned, overflow...)."""


class CaseTimeout(BaseException):
    """Case used far more CPU time than any terminating case."""


def load_nrwal():
    """Import NRWAL from the working tree of /repo."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    import NRWAL
    assert os.path.abspath(NRWAL.__file__).startswith(
        os.path.abspath(REPO) + os.sep), NRWAL.__file__
    return NRWAL


def short(x, n=600):
    try:
        s = repr(x) if not isinstance(x, str) else x
    except Exception as e:  # printing must not hide the finding
        s = '<unprintable {}: {}>'.format(type(x), e)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """What a scenario sees: counters, checks, scratch space."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.counts = {}
        self.checks = 0
        self.signatures = set()
        self.samples = {}
        self.known = {}
        self.cache = {}
        self._tmp = 0
        self._case = None

    # -- observations -----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """Register the current case as distinct and non-trivial."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.signatures.add(h)

    def sample(self, scenario, obj):
        lst = self.samples.setdefault(scenario, [])
        if len(lst) < 1:
            lst.append(short(obj, 1500))

    def known_finding(self, key, detail):
        self.known[key] = detail

    # -- verdicts ---------------------------------------------------------
    def check(self, cond, kind, detail=''):
        self.checks += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def fail(self, kind, detail=''):
        self.checks += 1
        raise Violation(kind, detail)

    def raises(self, fun, types, kind, detail='', must_contain=()):
        """fun() must raise one of types."""
        self.checks += 1
        try:
            out = fun()
        except types as e:
            msg = str(e)
            for m in must_contain:
                if m not in msg:
                    raise Violation(kind, '{}: message of {} does not name '
                                    '{!r}: {}'.format(detail, type(e).__name__,
                                                      m, short(msg)))
            return e
        except Exception as e:
            raise Violation(kind, '{}: expected {} but got {}: {}'.format(
                detail, types, type(e).__name__, short(str(e))))
        raise Violation(kind, '{}: expected {} but it returned {}'.format(
            detail, types, short(out)))

    def tmpdir(self):
        self._tmp += 1
        d = os.path.join(self.scratch, 't{}'.format(self._tmp))
        os.makedirs(d)
        return d

    def clear_tmp(self):
        for n in os.listdir(self.scratch):
            if n.startswith('t'):
                shutil.rmtree(os.path.join(self.scratch, n),
                              ignore_errors=True)


def case_rng(prop, scenario, seed, i):
    h = hashlib.blake2b('{}|{}|{}|{}'.format(prop, scenario, seed, i).encode(),
                        digest_size=8).digest()
    return random.Random(int.from_bytes(h, 'big'))


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(ctx, scen_name, fun, i):
    """Run a case, returns None or a violation record."""
    rng = case_rng(ctx.prop, scen_name, ctx.seed, i)
    ctx.index = i
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    v = None
    try:
        fun(ctx, rng)
        ctx.count('cases:' + scen_name)
    except Discard as e:
        ctx.count('discarded:' + scen_name)
    except Violation as e:
        v = {'kind': e.kind, 'detail': short(e.detail, 3000),
             'trace': traceback.format_exc(limit=-4)}
    except CaseTimeout:
        v = {'kind': 'no termination',
             'detail': 'case did not terminate within {} CPU seconds'
             .format(CASE_CPU_S), 'trace': traceback.format_exc(limit=-12)}
    except (Exception, RecursionError) as e:
        tb = traceback.format_exc(limit=-12)
        v = {'kind': 'unexpected exception',
             'detail': '{}: {}'.format(type(e).__name__, short(str(e))),
             'trace': tb, 'in_repo': REPO in traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.clear_tmp()
    if v is not None:
        v.update(scenario=scen_name, case=i)
    return v


def _shard(prop, tier, seed, shard, scens, scratch, q, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sdir = os.path.join(scratch, 's{}'.format(shard))
    os.makedirs(sdir)
    ctx = Ctx(prop, tier, seed, sdir)
    violations = []
    truncated = 0
    try:
        for name, fun, n in scens:
            for i in range(shard, n, NSHARD):
                if time.time() > deadline:
                    truncated += 1
                    continue
                v = run_case(ctx, name, fun, i)
                if v is not None:
                    violations.append(v)
                    if len(violations) >= 3:
                        break
            if len(violations) >= 3:
                break
        q.put(dict(shard=shard, counts=ctx.counts, checks=ctx.checks,
                   sigs=ctx.signatures, samples=ctx.samples, known=ctx.known,
                   violations=violations, truncated=truncated, error=None))
    except BaseException:
        q.put(dict(shard=shard, counts={}, checks=0, sigs=set(), samples={},
                   known={}, violations=violations, truncated=truncated,
                   error=traceback.format_exc()))


def known_findings(prop):
    """key -> text of the findings listed as known for a property."""
    fp = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    for line in open(fp):
        words = line.split(None, 3)
        if line.startswith('known: ') and words[1] == 'property=' + prop:
            out[words[2][len('key='):]] = words[3].strip()
    return out


def run_property(prop, mod, tier, seed, only=None):
    t0 = time.time()
    load_nrwal()
    scens = [(n, f, q if tier == 'quick' else t)
             for n, f, q, t in mod.SCENARIOS if only in (None, n)]
    setup = getattr(mod, 'setup', None)
    if setup is not None:
        setup()
    scratch = tempfile.mkdtemp(prefix='nrwalv_{}_'.format(prop))
    budget = 600 if tier == 'quick' else 6 * 3600
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    procs = [ctxm.Process(target=_shard, args=(prop, tier, seed, k, scens,
                                               scratch, q, t0 + budget))
             for k in range(NSHARD)]
    results = []
    try:
        for p in procs:
            p.start()
        limit = t0 + budget + 200
        while len(results) < NSHARD:
            try:
                results.append(q.get(timeout=2))
            except Exception:
                if time.time() > limit:
                    break
                if not any(p.is_alive() for p in procs):
                    try:
                        while len(results) < NSHARD:
                            results.append(q.get(timeout=1))
                    except Exception:
                        break
    finally:
        for p in procs:
            p.join(timeout=5)
            if p.is_alive():
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    counts, sigs, samples, known = {}, set(), {}, {}
    checks = truncated = 0
    violations, errors = [], []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= r['sigs']
        checks += r['checks']
        truncated += r['truncated']
        known.update(r['known'])
        violations += r['violations']
        for k, v in r['samples'].items():
            samples.setdefault(k, v[:1])
        if r['error']:
            errors.append(r['error'])
    if len(results) < NSHARD:
        errors.append('{} of {} shards gave no result'.format(
            NSHARD - len(results), NSHARD))

    listed = known_findings(prop)
    for key, detail in sorted(known.items()):
        if key not in listed:
            violations.append({'kind': 'unlisted finding ' + key,
                               'detail': detail, 'trace': '',
                               'scenario': '-', 'case': -1})

    inconclusive = list(errors)
    if not only:
        for name, minimum in getattr(mod, 'REQUIRE', {}).items():
            if counts.get(name, 0) < minimum:
                inconclusive.append('monitor event "{}" seen {} times, needs '
                                    '{}'.format(name, counts.get(name, 0),
                                                minimum))
        for name, _, n in scens:
            done = counts.get('cases:' + name, 0)
            if done < 0.3 * n and not violations:
                inconclusive.append('scenario {}: only {} of {} cases decided'
                                    .format(name, done, n))

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': checks,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': [{'scenario': k, 'case': v[0]}
                        for k, v in sorted(samples.items())],
            'events': dict(sorted(counts.items())),
            'cases_skipped_by_time_budget': truncated,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for key in sorted(known):
        if key in listed:
            print('KNOWN-FINDING: property={} {}'.format(prop, listed[key]))

    print('{} tier={} seed={} checks={} distinct={} wall={}s'.format(
        prop, tier, seed, checks, len(sigs), evidence['wall_s']))
    for k, v in sorted(counts.items()):
        print('   {:<48} {}'.format(k, v))

    if violations:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in violations:
            k = (v['scenario'], v['kind'])
            if k in seen:
                continue
            seen.add(k)
            fp = os.path.join(rdir, '{}_{}_{}.json'.format(
                prop, v['scenario'], v['case']))
            with open(fp, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed), f,
                          indent=1)
            print('-' * 70)
            print('scenario {} case {}: {}'.format(v['scenario'], v['case'],
                                                   v['kind']))
            print(v['detail'])
            print(v['trace'])
            print('VIOLATION property={} replay={}'.format(prop, fp))
        return 1
    if inconclusive:
        for m in inconclusive:
            print('INCONCLUSIVE: ' + m)
        return 2
    return 0


def replay(prop, mod, fp):
    load_nrwal()
    with open(fp) as f:
        rec = json.load(f)
    setup = getattr(mod, 'setup', None)
    if setup is not None:
        setup()
    scratch = tempfile.mkdtemp(prefix='nrwalv_{}_'.format(prop))
    try:
        ctx = Ctx(prop, rec['tier'], rec['seed'], scratch)
        fun = [f for n, f, _, _ in mod.SCENARIOS if n == rec['scenario']][0]
        v = run_case(ctx, rec['scenario'], fun, rec['case'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print('replay: property held on this case')
        return 0
    print(v['kind'], '\n', v['detail'], '\n', v['trace'])
    print('VIOLATION property={} replay={}'.format(prop, fp))
    return 1
