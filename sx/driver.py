"""Explore every configuration of a harness over all paths, in parallel; replay counterexamples; write evidence."""
import warnings
warnings.filterwarnings("ignore")
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)

from sx import core, env                                 # noqa: E402
from sx.core import Ctx, PathEnd, PathCut, PathTimeout, Control, MergeAbort   # noqa: E402
from sx.harnessapi import make_symh, warm_up                      # noqa: E402

PYREAL = '/opt/venv/bin/python'
SymH = None
KNOWN = []


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('kind') == 'known':
                    out.append(d)
    return out


class Cfg(object):
    def __init__(self, fn, kwargs=None, name=None, **opts):
        self.fn, self.kwargs, self.opts = fn, kwargs or {}, opts
        self.name = name or fn + (json.dumps(self.kwargs, sort_keys=True) if self.kwargs else '')


def again(cfgs, tier):
    """Some configurations of each kind once more, after a run with other inputs."""
    by = {}
    for c in cfgs:
        if 'warm' not in c.opts:
            by.setdefault(c.fn, []).append(c)
    out = []
    for l in by.values():
        for k in sorted({0, len(l) // 2} if tier == 'quick' else set(range(0, len(l), 3))):
            out.append(Cfg(l[k].fn, l[k].kwargs, l[k].name + ' again', **dict(l[k].opts, warm=True)))
    return out


def _alarm(sig, frame):
    raise PathTimeout()


def run_path(mod, cfg, prefix, reached=()):
    global SymH
    if SymH is None:
        SymH = make_symh()
    o = cfg.opts
    c = Ctx(prefix, logic=o.get('logic', 'QF_BV'), query_timeout=o.get('query_timeout', 30000),
            max_decisions=o.get('max_decisions', 3000), max_conc=o.get('max_conc', 40),
            rand_limit=o.get('rand_limit', 12))
    core.CTX = c
    c.reached |= set(reached)
    h = SymH(c, KNOWN)
    status, detail = 'done', None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, o.get('path_timeout', 120))
    exc = None
    try:
        try:
            hm = env.Loader(h).load('harness.' + mod)
            if o.get('warm'):
                warm_up(h, getattr(hm, cfg.fn), cfg.kwargs)
            getattr(hm, cfg.fn)(h, **cfg.kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except PathEnd:
        status = 'violated' if c.candidates else 'infeasible'
    except PathCut as e:
        status, detail = 'cut', str(e)
    except PathTimeout:
        status = 'timeout'
        exc = 'no result within the path time limit'
    except MergeAbort:
        status, detail = 'cut', 'merge abort outside speculation'
    except RecursionError as e:
        status, exc = 'exception', 'RecursionError'
    except Control as e:
        status, detail = 'cut', repr(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/sx/' not in f.filename]
        where = ('%s:%s' % (os.path.basename(loc[-1].filename), loc[-1].name)) if loc else '?'
        try:
            m = str(e)[:200]
        except BaseException:
            m = '?'
        status, exc = 'exception', '%s: %s (in %s)' % (type(e).__name__, m, where)
        if os.environ.get('SX_DEBUG'):
            traceback.print_exc()
    cands = [('assert', m, i) for m, i in c.candidates]
    if exc is not None:
        try:
            c.spec = 0
            cands.append(('hang' if status == 'timeout' else 'exception', exc, c.path_inputs()))
        except BaseException:
            detail = 'no model for exception path: %s' % exc
    return c, status, detail, cands


def explore(args):
    """Worker: depth-first over one subtree for a time slice; returns statistics and the remaining prefixes."""
    mod, cfg, prefixes, slice_s = args
    t0 = time.time()
    work = list(prefixes)
    first = False
    st = dict(samples=[], paths=0, done=0, infeasible=0, violated=0, cut=0, timeout=0, exception=0, queries=0, solver_time=0.0,
              unknowns=0, conc=0, checks=0, decisions=0, funcs=set(), cuts={}, covered=set(), notes=set(), cands=[], goals=set(), reached=set(),
              asserted=0)
    while work:
        prefix = work.pop()
        c, status, detail, cands = run_path(mod, cfg, prefix, st['reached'])
        st['paths'] += 1
        st[status] += 1
        st['queries'] += c.queries
        st['solver_time'] += c.solver_time
        st['unknowns'] += c.unknowns
        st['conc'] += c.concretizations
        st['checks'] += c.checks
        st['decisions'] += len(c.trail)
        st['funcs'] |= {f for f in c.funcs if not f.startswith('harness.')}
        st['covered'] |= c.covered
        st['goals'] |= c.goals
        st['reached'] |= c.reached
        st['notes'] |= c.notes
        if c.checks and status == 'done':
            st['asserted'] += 1
            if len(st['samples']) < 2 and not first:
                first = True
                try:
                    st['samples'].append(c.path_inputs())
                except BaseException:
                    pass
        if detail:
            st['cuts'][detail] = st['cuts'].get(detail, 0) + 1
        st['cands'].extend(cands)
        work.extend(c.pending)
        if time.time() - t0 > slice_s or len(st['cands']) >= 8:
            break
    return st, work


def replay(prop, mod, cfg, kind, msg, inputs, n, goal=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, module=mod, fn=cfg.fn, kwargs=cfg.kwargs, inputs=inputs, kind=kind, msg=msg,
                       config=cfg.name, goal=goal, warm=bool(cfg.opts.get('warm'))), f, indent=1)
    try:
        r = subprocess.run([PYREAL, '-W', 'ignore', os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True,
                           timeout=40)
    except subprocess.TimeoutExpired:
        return kind == 'hang', path, 'timeout'
    out = (r.stdout + r.stderr).strip()
    return r.returncode == 1, path, out.splitlines()[-1] if out else ''


def validate(prop, mod, cfgs, samples):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-validate.json' % prop)
    with open(path, 'w') as f:
        json.dump([dict(property=prop, module=mod, fn=cfgs[i].fn, kwargs=cfgs[i].kwargs, inputs=inp, kind='assert',
                        msg='', config=cfgs[i].name, warm=bool(cfgs[i].opts.get('warm'))) for i, inp in samples], f)
    try:
        r = subprocess.run([PYREAL, '-W', 'ignore', os.path.join(VERIF, 'replay.py'), '--batch', path], capture_output=True, text=True,
                           timeout=60)
    except subprocess.TimeoutExpired:
        return 0, []
    out = [l.split(' ', 2) for l in r.stdout.splitlines() if l.startswith('@')]
    return (sum(1 for o in out if o[1] == '0'), [(int(o[0][1:]), o[2]) for o in out if o[1] == '1'])


def run(prop, mod, tier):
    t0 = time.time()
    budget = float(os.environ.get('SX_BUDGET', '700' if tier == 'quick' else '3000'))
    # harness module in plain python: only for its configuration list
    sys.path.insert(0, env.REPO)
    hm = importlib.import_module('harness.' + mod)
    cfgs = hm.configs(tier)
    cfgs = cfgs + again(cfgs, tier)
    if os.environ.get('SX_ONLY'):           # for debugging
        cfgs = [c for c in cfgs if os.environ['SX_ONLY'] in c.name]
    kf = [d for d in known_findings() if d['property'] == prop]
    KNOWN.extend(d['id'] for d in kf)
    # preload (compile) everything once, before forking
    for base, roots in ((env.REPO, ('semantic_codec', 'libs/dot')), (VERIF, ('harness',))):
        for r in roots:
            for dp, dn, fn in os.walk(os.path.join(base, r)):
                for f in fn:
                    if f.endswith('.py'):
                        name = os.path.relpath(os.path.join(dp, f), base)[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        try:
                            env.code_for(name)
                        except (SyntaxError, ImportError, ValueError):
                            pass
    try:
        env.code_for('recover_program')
    except (SyntaxError, ImportError):
        pass
    nproc = int(os.environ.get('SX_PROCS', str(min(8, os.cpu_count() or 1))))
    tot = dict(paths=0, done=0, infeasible=0, violated=0, cut=0, timeout=0, exception=0, queries=0, solver_time=0.0,
               unknowns=0, conc=0, checks=0, decisions=0, asserted=0)
    funcs, covered, notes, cuts = set(), set(), set(), {}
    per = {i: dict(paths=0, done=0, asserted=0, checks=0, leftover=0, cut=0) for i in range(len(cfgs))}
    goals, reached = {i: set() for i in per}, {i: set() for i in per}
    violation, tried, nonrepro, notenc = None, {}, [], []
    samples = []
    queue = [(i, [()]) for i in range(len(cfgs))][::-1]
    nrep = 0
    incomplete = False
    mpctx = multiprocessing.get_context('fork')
    inflight = {}
    with cf.ProcessPoolExecutor(nproc, mp_context=mpctx) as ex:
        try:
            while (queue or inflight) and violation is None:
                while queue and len(inflight) < nproc * 2:
                    i, pref = queue.pop()
                    fut = ex.submit(explore, (mod, cfgs[i], pref, 0.7 if len(inflight) >= nproc else 0.25))
                    inflight[fut] = i
                done, _ = cf.wait(inflight, timeout=5, return_when=cf.FIRST_COMPLETED)
                if time.time() - t0 > budget:
                    incomplete = True
                    break
                for fut in done:
                    i = inflight.pop(fut)
                    st, left = fut.result()
                    for k in tot:
                        tot[k] += st[k]
                    for k in ('paths', 'done', 'asserted', 'checks', 'cut'):
                        per[i][k] += st[k]
                    goals[i] |= st['goals']
                    reached[i] |= st['reached']
                    funcs |= st['funcs']
                    covered |= st['covered']
                    notes |= st['notes']
                    for inp in st['samples']:
                        if sum(1 for j, _ in samples if j == i) < 3:
                            samples.append((i, inp))
                    for k, v in st['cuts'].items():
                        cuts[k] = cuts.get(k, 0) + v
                    for kind, msg, inputs in st['cands']:
                        if violation is not None:
                            break
                        key = (i, kind, msg)
                        if tried.get(key, 0) >= 4:
                            continue
                        tried[key] = tried.get(key, 0) + 1
                        nrep += 1
                        ok, path, why = replay(prop, mod, cfgs[i], kind, msg, inputs, nrep)
                        if ok:
                            violation = (path, cfgs[i].name, why or msg)
                        else:
                            (nonrepro if kind == 'assert' else notenc).append((cfgs[i].name, msg, why, path))
                            if os.environ.get('SX_DEBUG'):
                                print('non-reproducing:', cfgs[i].name, kind, msg, inputs, '|', why)
                    if left:
                        # split leftovers so that idle workers get some
                        k = max(1, min(len(left), 8))
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                queue.append((i, part))
        finally:
            for fut in inflight:
                fut.cancel()
            procs = list((ex._processes or {}).values())
            if violation is not None or incomplete:
                for p in procs:
                    p.terminate()
            ex.shutdown(wait=False, cancel_futures=True)
    # what must be possible, but no input of any path makes happen
    for i in per:
        if violation is not None or incomplete:
            break
        for g in sorted(goals[i] - reached[i])[:1]:
            nrep += 1
            ok, path, why = replay(prop, mod, cfgs[i], 'unreachable', 'never: ' + g, {}, nrep, g)
            if ok:
                violation = (path, cfgs[i].name, why)
                break
    # validate the encoding: models of completed paths must also pass on the real code
    validated = 0
    if violation is None and samples:
        validated, bad = validate(prop, mod, cfgs, samples[:60])
        for j, why in bad:
            i, inp = samples[j]
            nrep += 1
            ok, path, w2 = replay(prop, mod, cfgs[i], 'assert', why, inp, nrep)
            if ok and violation is None:
                violation = (path, cfgs[i].name, w2)
    wall = time.time() - t0
    if os.environ.get('SX_ONLY') or os.environ.get('SX_DEBUG'):
        for i in per:
            print('   ', cfgs[i].name, per[i])
    # known findings: re-demonstrate each on the real code
    kf_lines = []
    for d in kf:
        if violation is not None:
            break
        nrep += 1
        cfg = Cfg(d['fn'], d.get('kwargs') or {})
        ok, path, why = replay(prop, mod, cfg, 'known', d['what'], d['inputs'], nrep)
        if ok:
            kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    vac = [cfgs[i].name for i in per if per[i]['asserted'] == 0]
    tot['goals'] = sum(len(goals[i]) for i in per)
    tot['reached'] = sum(len(goals[i] & reached[i]) for i in per)
    write_evidence(prop, tier, hm, cfgs, per, tot, funcs, covered, notes, cuts, violation, nonrepro, notenc, vac,
                   incomplete, wall, kf_lines, samples, validated)
    for l in kf_lines:
        print(l)
    print('%s: %d configurations, %d paths (%d completed, %d infeasible, %d cut), %d queries, solver %.1fs, wall %.1fs'
          % (prop, len(cfgs), tot['paths'], tot['done'], tot['infeasible'], tot['cut'], tot['queries'],
             tot['solver_time'], wall))
    for m in sorted(set((a, b, d) for a, b, d, _ in notenc))[:5]:
        print('NOT-ENCODED path in %s: %s [replay: %s]' % m)
    if violation:
        print('counterexample (%s): %s' % (violation[1], violation[2]))
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        return 1
    if nonrepro:
        print('INCONCLUSIVE: %d counterexample(s) did not reproduce on the real code, e.g. %r' %
              (len(nonrepro), nonrepro[0]))
        return 3
    if incomplete:
        print('INCONCLUSIVE: time budget exceeded with work left')
        return 3
    unk = sorted(n for n in notes if n.startswith('unknown: '))
    if unk:
        print('INCONCLUSIVE: the solver could not decide: %s' % '; '.join(unk[:5]))
        return 3
    if notenc and os.environ.get('SX_STRICT'):
        return 4
    if vac and not violation:
        print('INCONCLUSIVE: no completed path reached an assertion in: %s' % ', '.join(vac[:5]))
        return 3
    return 0


def write_evidence(prop, tier, hm, cfgs, per, tot, funcs, covered, notes, cuts, violation, nonrepro, notenc, vac,
                   incomplete, wall, kf_lines, samples, validated):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    src = {}
    for n, (code, path, pkg) in sorted(env._code.items()):
        if path.startswith(env.REPO) and any(f.split(':')[0] == n for f in funcs):
            src[os.path.relpath(path, env.REPO)] = hashlib.sha256(open(path, 'rb').read()).hexdigest()[:16]
    ass = getattr(hm, 'ASSUMES', [])
    ass = [ass] if isinstance(ass, str) else list(ass)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(hm, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['decisions'],
            'traces_validated_against_impl': validated + len(kf_lines) + (1 if violation else 0),
            'samples': [dict(config=cfgs[i].name, inputs=inp) for i, inp in samples[:6]],
            'explanation': 'states = symbolic paths explored, transitions = branch decisions on them; every assertion '
                           'on a path is decided by the SMT solver for all inputs of that path; samples = solver '
                           'models of completed paths, which were also run on the real code and passed there',
            'technique': 'symbolic execution of the real Python source, SMT solver z3',
            'result': 'violation' if violation else ('inconclusive' if (nonrepro or incomplete or vac) else 'held'),
            'bounds': getattr(hm, 'BOUNDS', ''),
            'outside_the_claim': getattr(hm, 'OUTSIDE', ''),
            'configurations': len(cfgs),
            'paths_completed': tot['done'], 'paths_infeasible': tot['infeasible'],
            'paths_cut_at_a_bound': tot['cut'], 'cut_reasons': cuts,
            'possibilities_required': tot['goals'], 'possibilities_found': tot['reached'],
            'assertions_checked': tot['checks'], 'queries_discharged': tot['queries'],
            'solver_unknown': tot['unknowns'], 'solver_seconds': round(tot['solver_time'], 2),
            'concretization_forks': tot['conc'],
            'functions_encoded': sorted(funcs),
            'sources': src,
            'per_configuration': [dict(name=cfgs[i].name, **{k: per[i][k] for k in ('paths', 'done', 'asserted',
                                                                                   'checks', 'cut')})
                                  for i in per][:400],
            'not_encoded_paths': [list(x) for x in notenc[:10]],
            'non_reproducing': [list(x) for x in nonrepro[:10]],
            'vacuous': vac, 'known_findings': kf_lines, 'notes': sorted(notes), 'reached': sorted(covered),
        },
        'assumptions': ass,
        'violations': 1 if violation else 0,
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
