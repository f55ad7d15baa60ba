#!/usr/bin/env python3
"""Replay one counterexample against the real code: exit 1 when it fails as reported, 0 when it does not."""
import importlib
import io
import json
import os
import sys
import types

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def batch(path):
    """Run solver models of completed paths on the real code, one forked child each."""
    for i, d in enumerate(json.load(open(path))):
        pid = os.fork()
        if pid == 0:
            import signal
            signal.alarm(15)
            buf = io.StringIO()
            out, sys.stdout = sys.stdout, buf
            try:
                rc = run(d)
            except BaseException as e:
                rc = 2
                buf.write(repr(e))
            sys.stdout = out
            print('@%d %d %s' % (i, rc, ' '.join(buf.getvalue().split())[:300]))
            sys.stdout.flush()
            os._exit(0)
        os.waitpid(pid, 0)
    return 0


def main(path):
    return run(json.load(open(path)))


def unreachable(d, hm):
    """The solver found no input that makes it happen; neither do many random ones on the real code."""
    import random
    import time
    from sx.harnessapi import RandomH, CheckFailed, AssumeFailed, DrawLimit
    from sx.rndmodel import RandomModel, RANDOM_NAMES
    rng, t0, runs = random.Random(1), time.time(), 0
    out = sys.stdout
    while time.time() - t0 < 25 and runs < 4000:
        h = RandomH(rng, d['goal'], known_ids())
        r = RandomModel(h)
        for n in RANDOM_NAMES:
            setattr(random, n, getattr(r, n))
        sys.stdout = io.StringIO()
        try:
            getattr(hm, d['fn'])(h, **d['kwargs'])
            runs += 1
        except (CheckFailed, AssumeFailed, DrawLimit):
            pass
        except Exception:
            runs += 1
        finally:
            sys.stdout = out
            h.close()
        if h.hit:
            print('it does happen')
            return 0
    print('never happens, not in %d random runs either: %s' % (runs, d['goal']))
    return 1 if runs else 0


def run(d):
    from sx.harnessapi import ConcreteH, CheckFailed, AssumeFailed, DrawLimit, warm_up
    stub = types.ModuleType('libs.darm')
    stub.darm = types.ModuleType('libs.darm.darm')
    sys.modules['libs.darm'] = stub
    sys.modules['libs.darm.darm'] = stub.darm
    h = ConcreteH(d['inputs'], known_ids() if d['kind'] != 'known' else ())
    import random
    from sx.rndmodel import RandomModel, RANDOM_NAMES
    r = RandomModel(h)
    for n in RANDOM_NAMES:
        setattr(random, n, getattr(r, n))
    hm = importlib.import_module('harness.' + d['module'])
    if d['kind'] == 'unreachable':
        return unreachable(d, hm)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        try:
            if d.get('warm'):
                warm_up(h, getattr(hm, d['fn']), d['kwargs'])
            getattr(hm, d['fn'])(h, **d['kwargs'])
        finally:
            sys.stdout = out
            h.close()
    except CheckFailed as e:
        print('check failed: %s' % e)
        return 1
    except AssumeFailed:
        print('an assumption of the harness does not hold for these inputs')
        return 0
    except DrawLimit:
        print('random draw limit')
        return 1 if d['kind'] == 'hang' else 0
    except Exception as e:
        import traceback
        f = traceback.extract_tb(e.__traceback__)[-1]
        print('unexpected %s: %s (%s:%d)' % (type(e).__name__, e, f.filename, f.lineno))
        return 1
    print('no failure')
    return 0


def known_ids():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('kind') == 'known':
                    out.append(e['id'])
    return out


if __name__ == '__main__':
    sys.exit(batch(sys.argv[2]) if sys.argv[1] == '--batch' else main(sys.argv[1]))
