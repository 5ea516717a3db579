#!/usr/bin/env python3
"""Decides properties: run.py ID [--tier quick|thorough] [--job SUBSTRING]

Spreads the harnesses of a property over worker processes (PyPy, the
interpreter of the project), gathers the verdicts and writes the evidence.
"""
import argparse
import glob
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv-pypy/bin/python')


def start():
    return subprocess.Popen(
        [PYTHON, '-m', 'sx.worker'], cwd=HERE, stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL
        if not os.environ.get('VERIF_DEBUG') else None,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                 PYTHONHASHSEED='0'))


class Pool:
    """Workers; a violation ends the run soon after it is confirmed."""

    GRACE = 20      # seconds left to what is running then

    def __init__(self, size):
        self.size = size
        self.procs = set()
        self.found = False

    def end(self):
        for proc in list(self.procs):
            proc.kill()

    def violated(self):
        if not self.found:
            self.found = True
            timer = threading.Timer(self.GRACE, self.end)
            timer.daemon = True
            timer.start()

    def run(self, requests, report):
        todo = queue.Queue()
        for r in requests:
            todo.put(r)
        results = []
        lock = threading.Lock()

        def serve():
            proc = None
            while not self.found:
                try:
                    req = todo.get_nowait()
                except queue.Empty:
                    break
                if proc is None:
                    proc = start()
                    self.procs.add(proc)
                    line = proc.stdout.readline()
                    if not line:
                        res = {'job': req['job'], 'error':
                               'the worker did not start'}
                        self.procs.discard(proc)
                        proc.wait()
                        proc = None
                        with lock:
                            results.append(res)
                            report(res)
                        continue
                try:
                    proc.stdin.write(json.dumps(req).encode() + b'\n')
                    proc.stdin.flush()
                    line = proc.stdout.readline()
                except BrokenPipeError:
                    line = b''
                if line:
                    res = json.loads(line.decode())
                    if res.pop('bye', False):
                        self.procs.discard(proc)
                        proc.wait()
                        proc = None
                else:
                    self.procs.discard(proc)
                    proc.wait()
                    proc = None
                    if self.found:
                        break
                    res = {'job': req['job'], 'error': 'the worker died'}
                with lock:
                    results.append(res)
                    report(res)
                    if res.get('violations'):
                        self.violated()
            if proc is not None:
                self.procs.discard(proc)
                proc.stdin.close()
                proc.wait()
        threads = [threading.Thread(target=serve)
                   for _ in range(min(self.size, len(requests)))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results


def list_jobs(tier):
    out = subprocess.run(
        [PYTHON, '-m', 'sx.listing', tier], cwd=HERE, check=True,
        stdout=subprocess.PIPE, env=dict(
            os.environ, PYTHONDONTWRITEBYTECODE='1')).stdout
    return json.loads(out.decode())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job', default='')
    ap.add_argument('--workers', type=int, default=int(
        os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--budget', type=int)
    ap.add_argument('--verbose', '-v', action='store_true')
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 300 if tier == 'quick' else 1500
    budget = args.budget or budget
    deadline = t0 + (700 if tier == 'quick' else 7200)
    prop = args.property

    jobs = [j for j in list_jobs(tier).get(prop, ())
            if args.job in j['id']]
    if not jobs:
        print('no harness for', prop)
        return 2
    jobs.sort(key=lambda j: -j['weight'])
    requests = [{'job': j['id'], 'tier': tier, 'seed': seed,
                 'budget': budget, 'deadline': deadline} for j in jobs]

    def report(r):
        if args.verbose:
            print('%-50s %6.1fs paths %d inf %d q %d req %d val %d%s%s%s%s'
                  % (r['job'], r.get('wall_s', 0), r.get('paths', 0),
                     r.get('infeasible', 0), r.get('queries', 0),
                     r.get('requires', 0), r.get('validated', 0),
                     ' VIOL %d' % len(r['violations'])
                     if r.get('violations') else '',
                     ' UNDEC %s' % r['undecided']
                     if r.get('undecided') else '',
                     ' DIV %d' % len(r['diverged'])
                     if r.get('diverged') else '',
                     ' ERR' if r.get('error') else ''), flush=True)

    workers = max(1, min(args.workers, (len(jobs) + 1) // 2, 8))
    results = Pool(workers).run(requests, report)
    bounds = {j['id']: j['bounds'] for j in jobs}
    return conclude(prop, tier, seed, results, bounds, t0, args)


def conclude(prop, tier, seed, results, bounds, t0, args):
    results.sort(key=lambda r: r['job'])
    ok = [r for r in results if 'error' not in r]
    errors = [r for r in results if 'error' in r]
    violations, known = [], []
    for r in ok:
        violations += r['violations']
        known += r['known']
    unreproduced = [dict(u, job=r['job']) for r in ok
                    for u in r['unreproduced']]
    undecided = {}
    for r in ok:
        for k, n in r['undecided'].items():
            undecided[k] = undecided.get(k, 0) + n
        if r['budget_out']:
            undecided[r['budget_out']] = undecided.get(r['budget_out'], 0) + 1
    missing = ['%s: %s' % (r['job'], m) for r in ok for m in r['missing']
               if not r['violations']]
    diverged = [dict(d, job=r['job']) for r in ok for d in r['diverged']]

    def total(k):
        return sum(r[k] for r in ok)
    samples = [s for r in ok for s in r['samples']][:12]
    coverage = {
        'states': total('paths'),
        'transitions': total('branches'),
        'traces_validated_against_impl': total('validated'),
        'samples': samples,
        'harnesses': len(results),
        'harnesses_complete': sum(
            1 for r in ok if not r['undecided'] and not r['budget_out']
            and not r['violations']),
        'paths_infeasible': total('infeasible'),
        'obligations_decided': total('requires'),
        'obligations_without_solver': total('trivial'),
        'solver_queries': total('queries'),
        'solver_seconds': round(total('solver_s'), 3),
        'longest_query_s': max([r['max_query_s'] for r in ok] or [0]),
        'functions_encoded': sorted(set(
            f for r in ok for f in r['functions'])),
        'bounds': bounds,
        'undecided': undecided,
        'unreproduced_counterexamples': len(unreproduced),
        'diverged_traces': len(diverged),
        'per_harness': {r['job']: {
            'paths': r['paths'], 'obligations': r['requires'],
            'queries': r['queries'], 'wall_s': r['wall_s']} for r in ok},
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'coverage': coverage,
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    if not args.job:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
    for f in glob.glob(os.path.join(
            HERE, 'evidence', 'replays', prop + '-*.json')):
        os.unlink(f)

    shown = set()
    for v in known:
        line = 'KNOWN-FINDING: property=%s %s' % (prop, v['what'])
        if line not in shown:
            shown.add(line)
            print(line)
    status = 0
    for i, v in enumerate(violations):
        path = os.path.join('evidence', 'replays', '%s-%d.json' % (prop, i))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(v, f, indent=1, sort_keys=True)
            f.write('\n')
        status = 1
        print('violated: %s: %s' % (v['job'], v['label']))
        print('  inputs: %s' % json.dumps(v['case']['inputs'])[:600])
        if args.verbose and v.get('trace'):
            print(v['trace'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errors:
        print('ERROR %s: %s' % (e['job'], e['error'][-1500:]))
    for k, n in undecided.items():
        print('INCONCLUSIVE (%d paths): %s' % (n, k))
    if args.verbose:
        for r in ok:
            for t in r['undecided_traces']:
                print(t)
    for u in unreproduced[:None if args.verbose else 8]:
        print('NOT REPRODUCED %s: %s (%s)' % (
            u['job'], u['label'], u['result']['status']))
        if args.verbose and u is unreproduced[0]:
            print(json.dumps(u, indent=1)[:3000])
            print(u['detail'])
    for d in diverged:
        print('DIVERGED %s' % d['job'])
        if args.verbose:
            print(json.dumps(d, indent=1)[:3000])
    for m in missing:
        print('NOT REACHED', m)
    print('%s: %d harnesses, %d paths, %d obligations, %d solver queries '
          '(%.1fs), %d traces validated, %.1fs' % (
              prop, len(results), coverage['states'],
              coverage['obligations_decided'], coverage['solver_queries'],
              coverage['solver_seconds'],
              coverage['traces_validated_against_impl'],
              time.time() - t0))
    if status:
        return status
    if errors and not ok:
        return 2
    if errors or (unreproduced and not all(
            u['env'] for u in unreproduced)):
        return 2
    if missing and not undecided:
        return 2
    if diverged and not undecided:
        return 2
    if coverage['states'] == 0:
        return 2
    return 0


ASSUMPTIONS = [
    'cryptography is ideal: hashes and encryptions are injective, '
    'signatures cannot be forged, distinct keys have distinct public keys',
    'the CBOR codec is faithful: what it encodes is what it decodes, up to '
    'its documented type conversions (tuples to lists, enumerated text to '
    'text)',
    'the models of built-in operations in sx/ agree with PyPy 3.9; sampled '
    'paths are replayed on the untouched code in every run',
    'outside the stated input bounds nothing is claimed',
]


if __name__ == '__main__':
    sys.exit(main())
