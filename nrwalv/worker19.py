"""Evaluates a batch of jobs in a process of its own (see c19)."""
import os
import pickle
import random
import sys


def run_job(job):
    """Snapshot of everything a job computes."""
    from nrwalv.common import snapshot
    from NRWAL import (Equation, EquationDirectory, EquationGroup,
                       NrwalConfig)
    kind = job['kind']
    try:
        if kind == 'equation':
            obj = Equation(job['text'], default_variables=job['defaults'])
            return [list(obj.variables), snapshot(obj.evaluate(
                **job['inputs']))]
        if kind == 'group':
            obj = EquationGroup(job['data'], **job['flags'])
            obj.set_default_variables(job['defaults'])
            return [snapshot(obj[k].evaluate(**job['inputs']))
                    for k in job['keys']]
        if kind == 'directory':
            obj = EquationDirectory(job['path'], **job['flags'])
            return [[list(obj[k].variables),
                     snapshot(obj[k].evaluate(**job['inputs']))]
                    for k in job['keys']]
        if kind == 'config':
            obj = NrwalConfig(job['config'], **job['flags'])
            out = obj.evaluate(job['inputs'])
            return [list(obj.required_inputs), list(obj.all_variables),
                    sorted((k, snapshot(v)) for k, v in out.items())]
        if kind == 'pickled':
            obj = pickle.loads(job['object'])
            if job['what'] == 'config':
                out = obj.evaluate(job['inputs'])
                return [list(obj.required_inputs),
                        sorted((k, snapshot(v)) for k, v in out.items())]
            if job['what'] == 'equation':
                return [snapshot(obj.evaluate(**job['inputs']))]
            return [snapshot(obj[k].evaluate(**job['inputs']))
                    for k in job['keys']]
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:300]]
    raise AssertionError(kind)


def main():
    src, dst, order_seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    from nrwalv.core import load_nrwal
    load_nrwal()
    rng = random.Random(order_seed)
    listdir = os.listdir

    def shuffled(*a):
        out = listdir(*a)
        rng.shuffle(out)
        return out
    os.listdir = shuffled
    with open(src, 'rb') as f:
        jobs = pickle.load(f)
    order = list(range(len(jobs)))
    rng.shuffle(order)
    results = {}
    for i in order:
        results[i] = run_job(jobs[i])
        if rng.random() < 0.2:
            j = rng.choice(order)
            run_job(jobs[j])
            results.setdefault(('again', i), run_job(jobs[i]))
    with open(dst, 'wb') as f:
        pickle.dump((results, os.environ.get('PYTHONHASHSEED'), os.getcwd()),
                    f)


if __name__ == '__main__':
    main()
