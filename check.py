#!/usr/bin/env python3
"""check.py <property> [--thorough] [--root DIR]: decide one property from the source in /repo."""
import importlib
import json
import mmap
import multiprocessing
import os
import pickle
import sys
import threading
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)

from absint.drive import Run, AnchorMissing   # noqa

TECHNIQUE_NOTE = (
    'Abstract interpretation of the repository source (ast of every module reached from the public entry point, '
    'interprocedural, call-site inlining) over a value-provenance domain with trace partitioning; generic inputs are '
    'abstract values, loops run over generic elements, every feasible partition is enumerated and the contract is '
    'evaluated at each partition end. No repository code is executed and no solver is used.')


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            f = dict(x.split('=', 1) for x in line[6:].split(' :: ')[0].split() if '=' in x)
            if f.get('property') == pid:
                f['text'] = line.split(' :: ', 1)[1]
                out.append(f)
    return out


def sequential(run, mod):
    try:
        mod.check(run)
    except AnchorMissing as e:
        return str(e) or 'unknown'


def parallel(run, mod, jobs):
    """the scenarios are distributed over forked workers (each takes the next unclaimed one); results are merged"""
    taken = mmap.mmap(-1, 1 << 16)
    lock = multiprocessing.Lock()

    def claim(i):
        with lock:
            if taken[i]:
                return False
            taken[i] = 1
            return True
    run.claim = claim
    pids = []
    for n in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(r)
                missing = sequential(run, mod)
                data = pickle.dumps((missing, run.export()))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                import traceback
                traceback.print_exc(limit=-12)
                sys.stderr.flush()
                rc = 3
            os._exit(rc)
        os.close(w)
        pids.append((pid, r))
    missing = None
    dead = False
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        st = os.waitpid(pid, 0)[1]
        if st or not data:
            dead = True
            continue
        m, res = pickle.loads(data)
        missing = missing or m
        run.merge(res)
    run.scen.sort(key=lambda s: s['index'])
    run.violations.sort(key=lambda v: v['index'])
    if dead:
        raise RuntimeError('an analysis worker died')
    return missing


def main(argv):
    pid = argv[0]
    root = '/repo'
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    verbose = '-v' in argv or '-vv' in argv
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    run = Run(pid, root, tier, seed)
    run.only = only
    run.verbose = verbose
    run.deadline = time.time() + (700 if tier == 'quick' else 820)
    run.known_specs = load_known(pid)
    mod = importlib.import_module('rules.' + pid.lower())
    broken = None
    jobs = int(argv[argv.index('-j') + 1]) if '-j' in argv else min(8, os.cpu_count() or 1)
    if jobs > 1:
        missing = parallel(run, mod, jobs)
    else:
        missing = sequential(run, mod)
    if hasattr(mod, 'after') and not missing and not only:
        mod.after(run)
    if missing:
        broken = 'public anchor %s is not in the source any more' % missing
    viol = run.violations
    known = run.known
    sc = run.scen
    concluded = sum(s['concluded'] for s in sc)
    if broken is None and concluded == 0:
        broken = 'no conclusive partition'
    obs = sum(run.obs.values())
    cov = {
        'explanation': TECHNIQUE_NOTE + ' ' + (mod.__doc__ or '').strip(),
        'scenarios': len(sc),
        'partitions': sum(s['paths'] for s in sc),
        'partitions_concluded': concluded,
        'partitions_inconclusive': sum(s['inconclusive'] for s in sc),
        'partitions_outside_precondition': sum(s['skipped'] for s in sc),
        'case_splits': sum(s['splits'] for s in sc),
        'scenarios_enumerated_completely': sum(1 for s in sc if s['complete']),
        'contract_evaluations': obs,
        'rules': sorted('%s/%s: %d' % (a, b, n) for (a, b), n in run.obs.items()),
        'functions_analysed': sorted(run.fcover),
        'functions_analysed_count': len(run.fcover),
        'source_lines_interpreted': len(run.cover),
        'samples': [{k: s[k] for k in ('name', 'paths', 'concluded', 'obligations')} for s in sc[:12]],
        'inconclusive_reasons': run.inconclusive[:20],
        'extra': run.extra,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['the library models in absint/lib.py describe the Python standard library and the HTTP libraries',
                          'Python 3 semantics (PyPy 3.9 is the interpreter of the test suite)',
                          'generic structures are unrolled to the element counts named in the rule module'],
          'wall_s': round(time.time() - run.t0, 2), 'violations': len(viol)}
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d scenarios, %d partitions (%d concluded, %d inconclusive, %d outside precondition), '
          '%d contract evaluations over %d functions / %d source lines, %.1fs' % (
              pid, len(sc), cov['partitions'], concluded, cov['partitions_inconclusive'],
              cov['partitions_outside_precondition'], obs, len(run.fcover), len(run.cover), time.time() - run.t0))
    if verbose or run.inconclusive:
        for w in run.inconclusive[:20 if verbose else 5]:
            print('  inconclusive [%s]: %s  %s' % (w['scenario'], w['why'], ' < '.join(map(str, w['where']))))
    if '-t' in argv:
        for w in sorted(run.scen, key=lambda w: -w.get('secs', 0))[:15]:
            print('  %6.1fs %5d paths  %s' % (w.get('secs', 0), w['paths'], w['name']))
    if '-vv' in argv:
        for s in sc:
            print('  scenario', s)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        rep = os.path.join(evdir, pid + '.violation.json')
        with open(rep, 'w') as f:
            json.dump({'property': pid, 'violations': viol}, f, indent=1, default=str)
        for v in viol[:6]:
            print('  [%s] rule %s: %s' % (v['scenario'], v['rule'], v['message']))
            print('      construct: %s' % v['construct'])
            for d in v['decisions'][-12:]:
                print('      path: %s' % d)
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        return 2
    return 0


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc(limit=-12)
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
