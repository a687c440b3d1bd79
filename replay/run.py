"""python run.py PROP --seed N --stream K --budget S [--replay FILE] [--only CASE]   -> one JSON object on stdout"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import contextlib
import io
import resource
import signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import numpy as np
import logging
logging.disable(logging.CRITICAL)


def run_case(f, seed):
    """-> None, or a failure record"""
    R = lib.Rng(seed, f.files)
    h = R.getrandbits(31)
    random.seed(h)
    np.random.seed(h)
    buf = io.StringIO()
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG)
    try:
        with contextlib.redirect_stdout(buf):
            f(R)
        return None, R
    except lib.Skip:
        return None, R
    except ImportError as e:
        return dict(harness_error=repr(e)), R
    except AttributeError as e:
        if 'module' in str(e) and 'has no attribute' in str(e):
            return dict(harness_error=repr(e)), R
        return dict(case=f.__name__, seed=seed, message=f"AttributeError: {e}", notes={k: repr(v)[:600] for k, v in R.notes.items()},
                    traceback=traceback.format_exc()[-3000:]), R
    except (Exception, NoEnd) as e:
        return dict(case=f.__name__, seed=seed, message=f"{type(e).__name__}: {e}"[:1500],
                    notes={k: repr(v)[:600] for k, v in R.notes.items()}, traceback=traceback.format_exc()[-3000:]), R
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


HANG = 45          # seconds of processor time; a case takes well under a tenth of that on code that comes to an end


class NoEnd(BaseException):
    pass


def no_end(signum, frame):
    raise NoEnd(f"no end after {HANG} s of processor time")


def main():
    signal.signal(signal.SIGVTALRM, no_end)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--stream', type=int, default=0)
    ap.add_argument('--streams', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--max', type=int, default=400)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    out = dict(prop=a.prop, cases={}, failures=[], errors=[])
    try:
        importlib.import_module(a.prop.lower())
    except Exception as e:
        # the repository cannot be imported as the harness expects: no verdict from here
        out['errors'].append(''.join(traceback.format_exception_only(type(e), e)).strip())
        print(json.dumps(out))
        return
    if a.replay:
        rec = json.load(open(a.replay))
        f = [c for c in lib.CASES if c.__name__ == rec['case']][0]
        fail, R = run_case(f, rec['seed'])
        print(json.dumps(dict(reproduced=fail is not None and 'message' in fail, failure=fail), indent=1))
        sys.exit(1 if fail is not None and 'message' in fail else 0)
    t0 = time.time()
    samples = []
    sigs = set()
    cases = [c for c in lib.CASES if not a.only or c.__name__ == a.only]
    dead = set()
    tot = 0
    for i in range(a.max):
        if time.time() - t0 > a.budget or len(dead) == len(cases):
            break
        for f in cases:
            if f.__name__ in dead or i % f.every:
                continue
            if i >= a.max * f.weight:
                continue
            if time.time() - t0 > a.budget * 1.5:
                break
            seed = f"{a.seed}/{f.__name__}/{i * a.streams + a.stream}"
            fail, R = run_case(f, seed)
            tot += 1
            out['cases'][f.__name__] = out['cases'].get(f.__name__, 0) + 1
            sigs.add((f.__name__, repr(sorted((k, repr(v)[:200]) for k, v in R.notes.items()))))
            if len(samples) < 3 and R.notes:
                samples.append(dict(case=f.__name__, seed=seed, inputs={k: repr(v)[:200] for k, v in R.notes.items()}))
            if fail is not None:
                if 'harness_error' in fail:
                    out['errors'].append(f"{f.__name__}: {fail['harness_error']}")
                else:
                    out['failures'].append(fail)
                dead.add(f.__name__)
    out['evaluations'] = tot
    out['distinct'] = len(sigs)
    out['samples'] = samples
    out['secs'] = round(time.time() - t0, 2)
    print(json.dumps(out))


main()
