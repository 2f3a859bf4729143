"""One property's check: run.py Cxx [--thorough]

1. every contract of the property is verified against /repo's current source (the
   deciding step), in parallel;
2. at the same time the public interface is searched for a failing input (bounded);
   longer when an obligation failed;
3. evidence/<property>.json is written.

Exit 1 with a VIOLATION line when a failing input exists or an obligation is refuted.
"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('PV_REPO', '/repo')
PY = '/opt/venv/bin/python'
T0 = time.time()


def load_registry():
    import importlib
    from contracts.props import MODULES
    reg, by_name, broken = {}, {}, {}
    for m in MODULES:
        try:
            k = importlib.import_module('contracts.' + m)
        except Exception as e:      # a class or function the contracts name is gone
            broken[m] = repr(e)
            continue
        for c in k.C:
            by_name[c.name] = c
            try:
                reg[c.real()] = c
            except Exception as e:
                c.missing = 'target missing: %r' % e
    return reg, by_name, broken


def work(job):
    name, budget, disabled = job
    name, _, case = name.partition('#')
    from pv.contract import verify
    sys.setrecursionlimit(20000)
    try:
        reg, by_name, broken = load_registry()
    except Exception as e:
        return {'function': name, 'status': 'undecided', 'obligations': 0, 'discharged': 0,
                'reason': 'registry: %r' % e, 'failed': [], 'solver_s': 0, 'wall_s': 0, 'callee_contracts': []}
    t = time.time()
    if name not in by_name or hasattr(by_name[name], 'missing'):
        why = getattr(by_name.get(name), 'missing', None) or 'contract not loadable: %s' % broken
        return {'function': name, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'reason': why,
                'failed': [], 'solver_s': 0, 'wall_s': 0, 'callee_contracts': []}
    for d in disabled:
        by_name[d].enabled = False
    try:
        k = by_name[name]
        if case:
            k = [k for k in k.cases() if k.case == case][0]
        r = verify(k, reg, budget=budget)
        s = r.summary()
        s['failed'] = []
        for o in sorted(r.failed, key=lambda o: o.status != 'refuted'):
            if len(s['failed']) < 30 and o.label not in [f['obligation'] for f in s['failed']]:
                s['failed'].append({'obligation': o.label, 'status': o.status, 'note': o.note[:1500],
                                    'model': str(getattr(o, 'model', '') or '')[:3000]})
        s['labels'] = sorted({o.label for o in r.obligations})
    except Exception as e:
        import traceback
        s = {'function': name, 'status': 'undecided', 'obligations': 0, 'discharged': 0,
             'reason': 'engine: %r %s' % (e, traceback.format_exc()[-400:]), 'failed': [], 'solver_s': 0, 'callee_contracts': []}
    s['wall_s'] = round(time.time() - t, 2)
    s['target'] = by_name[name].target
    return s


def prove(names, budget, disabled=()):
    """{name: summary}; one process per contract"""
    ctx = mp.get_context('spawn')
    out = {}
    if not names:
        return out
    # a process that dies (memory) leaves its contract undecided
    procs = {}
    todo = expand(names)
    q = ctx.Queue()
    while todo or procs:
        while todo and len(procs) < 7:
            n = todo.pop(0)
            p = ctx.Process(target=_child, args=((n, budget, tuple(disabled)), q))
            p.start()
            procs[n] = (p, time.time())
        try:
            s = q.get(timeout=0.5)
            out[s['function']] = s
            if s['function'] in procs:
                procs.pop(s['function'])[0].join(5)
            continue
        except Exception:
            pass
        for n, (p, t) in list(procs.items()):
            dead = not p.is_alive()
            if dead or time.time() - t > budget + 60:
                if not dead:
                    p.kill()
                else:
                    try:        # its answer may be on the way
                        s = q.get(timeout=1)
                        out[s['function']] = s
                        if s['function'] in procs:
                            procs.pop(s['function'])
                        continue
                    except Exception:
                        pass
                procs.pop(n, None)
                out.setdefault(n, {'function': n, 'status': 'undecided', 'obligations': 0, 'discharged': 0,
                                   'reason': 'verifier ended (time or memory)', 'failed': [], 'solver_s': 0,
                                   'wall_s': round(time.time() - t, 1), 'callee_contracts': []})
    return together(out, names)


LOCATION = re.compile(r' (?:state|equality|frame) of (\S+\.\S+)$')


def concerns(focus, s):
    """does a failed obligation concern the property?  An obligation about one location of
    the state counts when the property speaks about it, any other obligation always"""
    if focus is None:
        return True
    for o in s['failed']:
        if o['status'] != 'refuted':
            continue
        m = LOCATION.search(o['obligation'])
        if m is None or re.search(focus, m.group(1)):
            return True
    return False


def _child(job, q):
    s = work(job)
    s['function'] = job[0]
    q.put(s)


def expand(names):
    """contracts whose arguments are split into cases: one job per case"""
    by_name = load_registry()[1]
    out = []
    for n in names:
        k = by_name.get(n)
        out += [n + '#' + c.case for c in k.cases()] if k is not None and k.split else [n]
    return out


def together(out, names):
    """one summary per contract: proved when every case is"""
    res = {}
    for n in names:
        parts = [s for j, s in out.items() if j.partition('#')[0] == n]
        s = dict(max(parts, key=lambda s: ('proved', 'undecided', 'refuted').index(s['status'])))
        s['function'] = n
        if len(parts) > 1:
            s['cases'] = len(parts)
            for k in ('obligations', 'discharged', 'paths', 'queries', 'solver_s', 'wall_s'):
                s[k] = round(sum(p.get(k) or 0 for p in parts), 2)
            s['failed'] = [o for p in parts for o in p['failed']][:30]
            s['callee_contracts'] = sorted({c for p in parts for c in p.get('callee_contracts', [])})
            s['models'] = sorted({c for p in parts for c in p.get('models', [])})
        res[n] = s
    return res


def start_search(pid, seconds, seed, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PV_REPO=REPO)
    return subprocess.Popen([PY, os.path.join(HERE, 'harness', 'main.py'), pid, '--seconds', str(seconds),
                             '--seed', str(seed), '--out', out], env=env, cwd=HERE,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish_search(p, out, limit):
    try:
        log, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return None, 'time limit'
    try:
        with open(out) as f:
            return json.load(f), log
    except Exception:
        return None, log


def search(pid, seconds, seed, work_dir, tag, n=1):
    """n searches with different seeds; merged result"""
    runs = []
    for i in range(n):
        out = os.path.join(work_dir, 'search-%s-%s-%d.json' % (pid, tag, i))
        if os.path.exists(out):
            os.remove(out)
        runs.append((start_search(pid, seconds, seed + 1000 * i, out), out))
    return runs


def merge(runs, seconds):
    res = {'evaluations': 0, 'distinct': 0, 'failure': None, 'known': {}, 'samples': [], 'error': ''}
    for p, out in runs:
        r, log = finish_search(p, out, seconds + 120)
        if r is None:
            res['error'] = (log or '')[-600:]
            continue
        res['evaluations'] += r['evaluations']
        res['distinct'] += r['distinct']
        res['known'].update(r['known'])
        res['samples'] = (res['samples'] + r['samples'])[:2]
        res['failure'] = res['failure'] or r['failure']
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = tier == 'thorough' or '--thorough' in sys.argv
    tier = 'thorough' if thorough else tier
    from contracts.props import PROOFS, NOTES, FOCUS, trusted
    names = PROOFS.get(pid, [])
    budget = 400 if thorough else 200
    seconds = 300 if thorough else 20
    wd = os.path.join(HERE, 'work')
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    END = T0 + (3000 if thorough else 840)
    runs = search(pid, seconds, seed, wd, 'a', 6 if thorough else 1)
    results = prove(names, budget)
    bounded = merge(runs, seconds)

    # a contract that fails: the callers may hold without it (its role may have changed)
    failed = [n for n in names if results[n]['status'] == 'refuted']
    others = [n for n in failed if not concerns(FOCUS.get((pid, n)), results[n])]
    failed = [n for n in failed if n not in others]
    for n in others:
        print('%s: fails where another property is concerned: %s' % (n, [o['obligation'] for o in results[n]['failed']][:3]))
    open_ = [n for n in names if results[n]['status'] == 'undecided']
    absorbed = {}
    for n in list(failed):
        callers = [m for m in names if n in results[m].get('callee_contracts', []) and m != n]
        left = END - time.time() - 260
        if callers and left > 30:
            again = prove(callers, min(budget, left), [n])
            if all(s['status'] == 'proved' for s in again.values()):
                absorbed[n] = sorted(again)
                failed.remove(n)
                for m, s in again.items():
                    results[m + ' (with %s inlined)' % n] = s
    if (failed or open_ or others) and not bounded['failure']:
        extra = int(min(120 if failed else 45, max(20, END - time.time() - 130)))
        more = merge(search(pid, extra, seed + 77, wd, 'b', 7), extra)
        for k in ('evaluations', 'distinct'):
            bounded[k] += more[k]
        bounded['failure'] = more['failure']
        bounded['error'] = bounded['error'] or more['error']

    violation = None
    if bounded['failure']:
        path = os.path.join(wd, 'replay-%s.json' % pid)
        f = dict(bounded['failure'])
        f['how'] = '%s %s --replay %s' % (PY, os.path.join(HERE, 'harness', 'main.py'), path)
        f['failed_obligations'] = {n: results[n]['failed'] for n in failed + open_}
        with open(path, 'w') as h:
            json.dump(f, h, indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (pid, path)
        for b in bounded['failure']['failures']:
            print('failing input:', b)
    elif failed:
        path = os.path.join(wd, 'replay-%s.json' % pid)
        with open(path, 'w') as h:
            json.dump({'property': pid, 'failed_obligations': {n: results[n]['failed'] for n in failed}}, h, indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)
    for n in failed + open_:
        s = results[n]
        print('%s: %s %s' % (n, s['status'], s.get('reason', '')))
        for o in s['failed'][:3]:
            print('   obligation "%s": %s (%s)' % (o['obligation'], o['status'], o['note'][:200]))
    for k, what in sorted(bounded['known'].items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if bounded['error']:
        print('search: ' + bounded['error'][-300:].replace('\n', ' | '))

    proved = [s for s in results.values() if s['status'] == 'proved']
    ob = sum(s['obligations'] for s in results.values())
    dis = sum(s['discharged'] for s in results.values() if s['status'] == 'proved')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if names else 'exploration',
        'coverage': {
            'obligations': ob, 'discharged': dis,
            'checker_cmd': 'python3-vt checks/run.py %s' % pid,
            'back_ends': {'z3 (python bindings)': dis},
            'solver_s': round(sum(s.get('solver_s', 0) for s in results.values()), 1),
            'trusted_base': trusted(pid),
            'library_functions_by_model': sorted({m for s in results.values() for m in s.get('models') or []}),
            'callee_contracts_decided_by_other_checks': sorted(
                {c for s in results.values() for c in s.get('callee_contracts') or []} - set(results)),
            'functions_under_contract': [
                {k: s.get(k) for k in ('function', 'target', 'status', 'obligations', 'discharged', 'paths', 'queries',
                                       'solver_s', 'wall_s', 'callee_contracts', 'inlined', 'reason', 'cases')}
                for s in results.values()],
            'functions_proved': len(proved), 'functions_undecided': [n for n in open_],
            'functions_failing_for_other_properties': others,
            'roles_absorbed_by_callers': absorbed,
            'bounded': {'what': 'public interface of the real code against an independent reference '
                                '(harness/): bounded, never counted as proved',
                        'seconds': seconds},
            'evaluations': bounded['evaluations'], 'distinct_nontrivial': bounded['distinct'],
            'rule': 'random and directed logs and call sequences built record by record (harness/gen.py, '
                    'harness/p_*.py); distinct by the hash of the whole input; each has at least one record',
            'samples': bounded['samples'],
            'notes': NOTES.get(pid, ''),
        },
        'known_findings': sorted(bounded['known'].values()),
        'wall_s': round(time.time() - T0, 1),
    }
    if violation:
        ev['violation'] = violation
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s: %d contracts, %d proved, %d obligations discharged of %d, %d inputs tried, %.0f s' % (
        pid, len(names), len(proved), dis, ob, bounded['evaluations'], time.time() - T0))
    if violation:
        print(violation)
        return 1
    if not names and not bounded['evaluations']:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
