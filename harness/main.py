"""Bounded check of one property at the public interface of the real code.

main.py PROPERTY --seconds S --out FILE     search for a failing input
main.py --replay FILE                       run one recorded input again (exit 1: it fails)
"""
import argparse
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))


def load_prop(pid):
    n = int(pid[1:])
    if n <= 11:
        from harness import p_core as m
    elif n <= 15:
        from harness import p_db as m
    else:
        from harness import p_tools as m
    return m.PROPS[pid]()


def listed(pid):
    """the findings of known_findings.txt"""
    out = []
    with open(os.path.join(os.path.dirname(HERE), 'known_findings.txt')) as f:
        for line in f:
            w = line.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1] == 'property=' + pid:
                out.append(w[2].partition('=')[2])
    return out


class Hang(Exception):
    pass


def run_check(p, case, limit=20):
    import signal
    def on(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return p.check(case)
    except Hang:
        return ['no answer within %d s' % limit]
    except Exception as e:
        if os.environ.get('PV_TRACE'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/pyulog/' in f.filename for f in tb)
        if inside:
            return ['%s at %s:%d' % (repr(e), os.path.basename(tb[-1].filename), tb[-1].lineno)]
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)):
            # what came back is not of the documented form
            return ['the result cannot be examined: %r at %s:%d' % (e, os.path.basename(tb[-1].filename), tb[-1].lineno)]
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def shrink(p, case, deadline):
    if not getattr(p, 'shrink', True) or 'parts' not in case:
        return case
    best = case
    i = len(best['parts']) - 1
    while i > 0 and time.time() < deadline:
        c = json.loads(json.dumps(best))
        del c['parts'][i]
        a = c['args']
        if a.get('defs', -1) > i:
            a['defs'] -= 1
        if 'other' in a:
            if i < len(a['other']) and a['other'][i] == best['parts'][i]:
                del a['other'][i]
            else:
                i -= 1
                continue
        try:
            if run_check(p, c, 5):
                best = c
        except Exception:
            pass
        i -= 1
    return best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--max', type=int, default=10**9)
    ap.add_argument('--as-found', action='store_true', help='do not look for a smaller failing input')
    a = ap.parse_args()
    if a.replay:
        rep = json.load(open(a.replay))
        if 'case' not in rep:
            print('this replay file has no input, only the failed obligation:')
            print(json.dumps(rep, indent=1)[:4000])
            return 0
        bad = run_check(load_prop(rep['property']), rep['case'])
        for b in bad:
            print('FAILS:', b)
        if not bad:
            print('the input passes')
        return 1 if bad else 0
    from harness import gen
    p = load_prop(a.prop)
    t0 = time.time()
    seen = set()
    n = 0
    known = {}
    fail = None
    directed = list(p.directed()) if hasattr(p, 'directed') else []
    samples = []
    while time.time() - t0 < a.seconds and n < a.max:
        rng = random.Random('%s/%d/%d' % (a.prop, a.seed, n))
        if n < len(directed):
            case = directed[n]
        else:
            case = p.gen(gen.Gen(rng))
        n += 1
        key = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()[:8]
        seen.add(key)
        if len(samples) < 2:
            samples.append(json.dumps(case)[:400])
        bad = run_check(p, case)
        if bad and hasattr(p, 'known'):
            k = p.known(case, bad)
            if k and case['finding'] in listed(a.prop):
                known.setdefault(case['finding'], k)
                continue
        if bad:
            if not a.as_found:
                case = shrink(p, case, time.time() + 20)
            bad = run_check(p, case) or bad
            fail = {'property': a.prop, 'case': case, 'failures': bad[:5]}
            break
    res = {'evaluations': n, 'distinct': len(seen), 'failure': fail, 'known': known, 'samples': samples,
           'seconds': time.time() - t0}
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps({k: v for k, v in res.items() if k != 'samples'})[:3000])
    return 1 if fail else 0


if __name__ == '__main__':
    sys.exit(main())
