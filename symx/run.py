"""Explores harnesses symbolically, replays witnesses, writes evidence."""
import argparse
import glob
import importlib
import json
import logging
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('MPLBACKEND', 'agg')
    repo = os.environ.get('SYMX_REPO', '/repo')
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)


class Timeout(BaseException):
    pass


def load_harnesses():
    from . import session
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', 'h_*.py'))):
        importlib.import_module('harness.' + os.path.basename(f)[:-3])
    return session.HARNESSES


def jenv(env):
    return {k: (f'{v.numerator}/{v.denominator}' if isinstance(v, Fraction) else v)
            for k, v in env.items()}


def unjenv(env):
    return {k: (Fraction(v) if isinstance(v, str) else v) for k, v in env.items()}


def compare_obs(sess, conc):
    """Encoding validation: symbolic values at the witness vs. the real run's values."""
    from . import core
    from .session import tofloat, _num
    env = {}
    for nm, v in conc.used.items():
        a = sess.ctx.keys.get(('in', nm))
        if a is not None:
            env[a.id] = float(v)
    for nm in sess.ctx.inputs:
        a = sess.ctx.keys[('in', nm)]
        if a.id not in env:
            v = conc.env.get(nm)
            if v is None:
                return 'skip', None
            env[a.id] = float(v)
    n = bad = 0
    where = None
    for label, (shape, g) in sess.obs.items():
        c = conc.obs.get(label)
        if c is None:
            continue
        if c[0] != shape:
            return 'mismatch', f'{label}: shape {shape} vs {c[0]}'
        sc = max([1.0] + [abs(float(x)) for x in c[1] if _num(x) and x == x and
                          abs(float(x)) != float('inf')])
        for x, y in zip(g, c[1]):
            try:
                if not _num(x) or not _num(y):
                    continue
                fx = tofloat(x, env)
            except (core.NoValue, core.Unsupported, OverflowError, ZeroDivisionError, ValueError):
                continue
            n += 1
            y = float(y)
            if fx != fx and y != y or fx == y:
                continue
            if not abs(fx - y) <= 1e-5 * sc:
                bad += 1
                where = where or f'{label}: {fx} vs {y}'
    if bad:
        return 'mismatch', where
    return ('match' if n else 'novalue'), None


def explore(h, cfg, budget, seed, out, max_paths=None, debug=False):
    """Runs in a worker process. Appends JSON events to `out`."""
    from . import core, loader as L, session
    rng = random.Random(seed)
    ld = L.Loader()
    ld.monitor()

    def emit(**ev):
        with open(out, 'a') as f:
            f.write(json.dumps(ev) + '\n')
    t0 = time.time()
    ld.monitor_on(True)
    st0 = core.Stats()
    core.set_ctx(core.Ctx(stats=st0))
    try:
        ld.load('pygsp')
        from .core import KERNELS
        for k, f in h.kernels.items():
            KERNELS[k] = f
        pend = [[]]
        stats = core.Stats()
        res = dict(paths=0, aborted=0, checks=0, holds=0, unknown=0, candidates=0, unsup=0,
                   exc=0, validated=0, mismatch=0, replays=0, skipped=0, confirmed=0,
                   unconfirmed=0, noreplay=0)
        notes, mism, samples, labels = {}, [], [], {}
        nviol = 0
        tmax = time.time() + budget
        while pend and time.time() < tmax and res['paths'] < (max_paths or h.paths):
            k = rng.randrange(len(pend)) if len(pend) > 1 else 0
            pend[k], pend[-1] = pend[-1], pend[k]
            prefix = pend.pop()
            c = core.Ctx(prefix, stats, h.timeout_ms, h.branches, seed)
            c.eig_signs = h.eig_signs
            c.lemmas = h.lemmas
            core.set_ctx(c)
            ld.stubs['pyunlocbox.solvers'].calls = []
            s = session.Sess(h, cfg, ld, c, emit)
            problem = None
            left = max(1.0, tmax - time.time() + 5)
            FIRED.clear()
            # again every second: loops inside of NumPy swallow exceptions
            signal.setitimer(signal.ITIMER_REAL, left, 1)
            try:
                h.fn(s, **cfg)
            except core.PathAbort as e:
                if str(e) == 'branch budget':
                    problem = ('unsup', 'branch budget')
                else:
                    res['aborted'] += 1
                    pend.extend(c.pending)
                    continue
            except core.Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = [f for f in tb if '/pygsp/' in f.filename or '/harness/' in f.filename]
                problem = ('unsup', f'{e} @ {at[-1].filename.rsplit("/", 1)[1]}:{at[-1].lineno}'
                           if at else str(e))
                if debug:
                    traceback.print_exc()
            except Timeout:
                problem = ('unsup', 'path time limit')
            except RecursionError:
                problem = ('unsup', 'recursion')
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = [f for f in tb if '/pygsp/' in f.filename or '/harness/' in f.filename]
                problem = ('exc', f'{type(e).__name__}: {str(e)[:200]} @ '
                           f'{at[-1].filename.rsplit("/", 1)[1]}:{at[-1].lineno}' if at else
                           f'{type(e).__name__}: {str(e)[:200]}')
                if debug:
                    traceback.print_exc()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            pend.extend(c.pending)
            res['paths'] += 1
            if FIRED:
                problem = ('unsup', 'path time limit')
                s.checks.clear()
                s.candidates.clear()
            envs = list(s.candidates)
            for label, v in s.checks:
                res['checks'] += 1
                res['holds'] += v == 'holds'
                res['unknown'] += v == 'unknown'
                res['candidates'] += v == 'candidate'
                lab = labels.setdefault(label.split(':', 1)[1].split('#')[0], {})
                lab[v] = lab.get(v, 0) + 1
            if problem:
                res[problem[0]] += 1
                notes[problem[1]] = notes.get(problem[1], 0) + 1
            # witnesses
            todo = [('candidate', e) for _, e in envs]
            if envs or res['replays'] < h.replays or problem:
                signal.setitimer(signal.ITIMER_REAL, 30)
                try:
                    for j in range(3 if envs else 1):
                        w = s.witness(rng)
                        if w is not None:
                            todo.append(('witness', w))
                except Timeout:
                    pass
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            hit = False
            for kind, env in todo:
                ld.monitor_on(False)
                signal.setitimer(signal.ITIMER_REAL, 120)
                try:
                    status, fails, conc = session.replay(h, cfg, env)
                except Timeout:
                    res['noreplay'] += 1
                    notes['replay time limit'] = notes.get('replay time limit', 0) + 1
                    continue
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    ld.monitor_on(True)
                res['replays'] += 1
                if status == 'skip':
                    res['skipped'] += 1
                    continue
                if status == 'harness-error':
                    notes['HARNESS ' + fails[0][1]] = notes.get('HARNESS ' + fails[0][1], 0) + 1
                    continue
                if status == 'fail':
                    hit = True
                    nviol += 1
                    if nviol <= 40:
                        emit(ev='violation', harness=h.name, cfg=cfg, env=jenv(env), fails=fails,
                             how=kind, used=conc.used if all(
                                 isinstance(v, (int, float)) for v in conc.used.values()) else {})
                elif kind == 'witness' and not problem:
                    r, wh = compare_obs(s, conc)
                    if r == 'mismatch':
                        res['mismatch'] += 1
                        if len(mism) < 5:
                            mism.append(wh)
                    elif r == 'match':
                        res['validated'] += 1
                if len(samples) < 4:
                    samples.append(dict(harness=h.name, cfg=cfg, input=jenv(env), outcome=status,
                                        path_conditions=len(c.pc),
                                        checks=[f'{a}={b}' for a, b in s.checks][:12]))
            if envs:
                if hit:
                    res['confirmed'] += 1
                else:
                    res['unconfirmed'] += 1
                    notes['unconfirmed ' + envs[0][0]] = notes.get('unconfirmed ' + envs[0][0],
                                                                   0) + 1
            if nviol >= 6:
                break
        res['left'] = len(pend)
        res['stats'] = stats.as_dict()
        emit(ev='done', harness=h.name, cfg=cfg, res=res, notes=notes, mism=mism, labels=labels,
             samples=samples, functions=sorted(ld.functions), wall=time.time() - t0)
    except Timeout:
        emit(ev='error', harness=h.name, cfg=cfg, error='time limit', wall=time.time() - t0)
    except BaseException as e:
        emit(ev='error', harness=h.name, cfg=cfg,
             error=f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:],
             wall=time.time() - t0)


FIRED = []


def on_alarm(sig, frame):
    FIRED.append(1)
    raise Timeout()


def run_tasks(tasks, jobs, seed, hard, debug=False):
    """tasks: (harness, cfg, budget). Forks one process per task."""
    tmp = tempfile.mkdtemp(prefix='symx')
    events, running, queue = [], {}, list(enumerate(tasks))
    queue.sort(key=lambda t: -t[1][2])
    tend = time.time() + hard

    def reap(pid, info, why=None):
        k, t, out, h, cfg, lim = info
        got = False
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    e['prop'] = h.prop
                    got = got or e['ev'] in ('done', 'error')
                    events.append(e)
            os.unlink(out)
        if not got:
            events.append(dict(ev='error', harness=h.name, cfg=cfg, error=why or 'worker ended',
                               prop=h.prop, wall=time.time() - t))
    try:
        while queue or running:
            while queue and len(running) < jobs and time.time() < tend:
                k, (h, cfg, budget) = queue.pop(0)
                out = os.path.join(tmp, f'{k}.jsonl')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        if not debug:
                            dn = os.open(os.devnull, os.O_WRONLY)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        signal.signal(signal.SIGALRM, on_alarm)
                        explore(h, cfg, budget, seed * 7919 + zlib.crc32(
                            (h.name + json.dumps(cfg, sort_keys=True, default=str)).encode())
                            % 100000, out, debug=debug)
                    finally:
                        os._exit(0)
                running[pid] = (k, time.time(), out, h, cfg, budget * 1.5 + 45)
            if queue and time.time() >= tend:
                for k, (h, cfg, b) in queue:
                    events.append(dict(ev='error', harness=h.name, cfg=cfg, prop=h.prop,
                                       error='not started: time limit of the check', wall=0))
                queue = []
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid and pid in running:
                reap(pid, running.pop(pid))
                continue
            now = time.time()
            for pid in list(running):
                k, t, out, h, cfg, lim = running[pid]
                if now - t > lim or now > tend + 60:
                    try:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                    except (ProcessLookupError, ChildProcessError):
                        pass
                    reap(pid, running.pop(pid), 'stopped: time limit')
            time.sleep(0.01)
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return events


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = json.loads(line[7:])
                if d['property'] == prop:
                    res.append(d)
    return res


def match_known(known, ev):
    """Every failed assertion of the violation must be one listed for this harness and input."""
    left = []
    hits = []
    for label, detail in ev['fails']:
        for d in known:
            if d['harness'] != ev['harness']:
                continue
            lab = label.split('#')[0]
            if lab != d['label']:
                continue
            if any(ev['cfg'].get(k) != v for k, v in d.get('cfg', {}).items()):
                continue
            if any(ev['env'].get(k) != v for k, v in d.get('env', {}).items()):
                continue
            if d.get('detail') and d['detail'] not in detail:
                continue
            hits.append(d)
            break
        else:
            left.append((label, detail))
    return hits, left


# ------------------------------------------------------------------ check of one property

def check(prop, tier, seed, jobs=None, only=None, debug=False, quiet=False):
    hs = [h for h in load_harnesses() if h.prop == prop and (only is None or h.name == only)]
    if not hs:
        print(f'no harness for {prop}')
        return 2
    t0 = time.time()
    tasks = []
    for h in hs:
        if tier == 'quick' and h.tier != 'quick':
            continue
        for cfg in h.cfgs:
            tasks.append((h, cfg, h.budget * (1 if tier == 'quick' else 4)))
        if tier != 'quick':
            for cfg in h.thorough:
                tasks.append((h, cfg, h.budget * 4))
    if tier != 'quick':
        for h in hs:
            h.paths *= 10
            h.replays *= 4
            h.timeout_ms *= 4
    jobs = jobs or int(os.environ.get('SYMX_JOBS', '0')) or min(8, os.cpu_count() or 1)
    hard = 420 if tier == 'quick' else 780
    events = run_tasks(tasks, jobs, seed, hard, debug)
    known = known_findings(prop)
    viol, knownhit, errs = [], {}, []
    tot = {}
    st = {}
    fns, notes, mism, samples, labels = set(), {}, [], [], {}
    per = {}
    for e in events:
        if e['ev'] == 'violation':
            hits, left = match_known(known, e)
            for d in hits:
                knownhit.setdefault(d['id'], d)
            if left:
                viol.append((e, left))
        elif e['ev'] == 'error':
            errs.append(f"{e['harness']} {e['cfg']}: {e['error']}")
        elif e['ev'] == 'done':
            p = per.setdefault(e['harness'], dict(tasks=0, paths=0, checks=0, holds=0, left=0,
                                                  wall=0))
            p['tasks'] += 1
            p['wall'] = round(p['wall'] + e['wall'], 2)
            if e['res']['left']:
                p.setdefault('incomplete', []).append(dict(e['cfg'], left=e['res']['left']))
            for k in ('paths', 'checks', 'holds', 'left'):
                p[k] += e['res'][k]
            for k, v in e['res'].items():
                if k != 'stats':
                    tot[k] = tot.get(k, 0) + v
            for k, v in e['res']['stats'].items():
                st[k] = st.get(k, 0) + v
            fns |= {tuple(f) for f in e['functions']}
            for k, v in e['notes'].items():
                kk = f"{e['harness']}: {k}"
                notes[kk] = notes.get(kk, 0) + v
            mism += [f"{e['harness']}{e['cfg']}: {m}" for m in e['mism']]
            if len(samples) < 12:
                samples += e['samples'][:2]
            for k, v in e['labels'].items():
                d = labels.setdefault(f"{e['harness']}/{k}", {})
                for kk, n in v.items():
                    d[kk] = d.get(kk, 0) + n
    wall = time.time() - t0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    lines = []
    seen = set()
    for e, left in viol:
        key = (e['harness'], left[0][0], json.dumps(e['cfg'], sort_keys=True))
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{prop}-{e['harness']}-{len(lines)}.json")
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, harness=e['harness'], cfg=e['cfg'], env=e['env'],
                           fails=left, how=e['how']), f, indent=1)
        lines.append((rp, e, left))
        if len(lines) >= 12:
            break
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        coverage=dict(
            states=tot.get('paths', 0), transitions=st.get('branches', 0),
            traces_validated_against_impl=tot.get('validated', 0),
            samples=samples[:10],
            paths_completed=tot.get('paths', 0) - tot.get('unsup', 0) - tot.get('exc', 0),
            paths_infeasible=tot.get('aborted', 0), paths_unsupported=tot.get('unsup', 0),
            paths_exception=tot.get('exc', 0), paths_left_unexplored=tot.get('left', 0),
            assertions=tot.get('checks', 0), assertions_proved=tot.get('holds', 0),
            assertions_unknown=tot.get('unknown', 0),
            counterexample_candidates=tot.get('candidates', 0),
            candidates_confirmed=tot.get('confirmed', 0),
            candidates_unconfirmed=tot.get('unconfirmed', 0),
            replays_on_real_code=tot.get('replays', 0), encoding_mismatches=tot.get('mismatch', 0),
            queries=st.get('queries', 0), solver_s=round(st.get('solver_s', 0), 2),
            forks=st.get('forks', 0), interval_decisions=st.get('interval', 0),
            solver_unknown=st.get('unknown', 0),
            functions_encoded=[f'{a}:{b}' for a, b in sorted(fns)],
            bounds=[f'{h.name}: {" ".join(h.doc.split())}' for h in hs
                    if tier != 'quick' or h.tier == 'quick'],
            per_harness=per, assertion_verdicts=labels),
        assumptions=ASSUMPTIONS + [f'incomplete: {k} (x{v})' for k, v in sorted(notes.items())][:40]
        + [f'task error: {x[:200]}' for x in errs][:20]
        + [f'encoding mismatch: {m}' for m in mism[:5]],
        violations=[dict(replay=rp, harness=e['harness'], cfg=e['cfg'], fails=left)
                    for rp, e, left in lines])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    name = prop if only is None else f'{prop}.partial'
    with open(os.path.join(VERIF, 'evidence', f'{name}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] paths={tot.get('paths', 0)} checks={tot.get('checks', 0)} "
          f"proved={tot.get('holds', 0)} unknown={tot.get('unknown', 0)} "
          f"cand={tot.get('candidates', 0)} unsup={tot.get('unsup', 0)} exc={tot.get('exc', 0)} "
          f"left={tot.get('left', 0)} validated={tot.get('validated', 0)} "
          f"mismatch={tot.get('mismatch', 0)} queries={st.get('queries', 0)} "
          f"solver={st.get('solver_s', 0):.1f}s wall={wall:.1f}s")
    if not quiet:
        for k, v in sorted(per.items()):
            print('   ', k, v)
        for k, v in sorted(notes.items()):
            print('    note', k, f'x{v}')
        for m in mism[:10]:
            print('    mismatch', m)
        for x in errs:
            print('    error', x)
        for k, d in labels.items():
            if set(d) != {'holds'}:
                print('    label', k, d)
    for d in knownhit.values():
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    for rp, e, left in lines:
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {e['harness']} {e['cfg']} ({e['how']}): {left[0][0]}: {left[0][1][:300]}")
    return 1 if lines else 0


ASSUMPTIONS = [
    'arithmetic is over the reals: floating-point rounding is outside the claim (the concrete '
    'replays use a relative tolerance)',
    'compiled numpy/scipy kernels are represented by their contracts (element-wise formulas, exact '
    'solves, orthonormal eigen-decompositions, exact neighbour search); every explored path is '
    'replayed on the real stack from a solver witness',
    'random sources return any outcome their documented contract allows (normal draws within '
    '[-3,3])',
]


def replay_file(path):
    from . import session
    with open(path) as f:
        d = json.load(f)
    for h in load_harnesses():
        if h.name == d['harness'] and h.prop == d['property']:
            st, fails, c = session.replay(h, d['cfg'], unjenv(d['env']))
            print(st)
            for a, b in fails:
                print(' ', a, b)
            print('  inputs:', c.used)
            return 1 if fails else 0
    return 2


def main(argv=None):
    setup()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--only')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--quiet', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    sys.path.insert(1, VERIF)
    if a.replay:
        return replay_file(a.replay)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    try:
        return check(a.prop, tier, a.seed, a.jobs, a.only, a.debug, a.quiet)
    except Exception as e:
        traceback.print_exc()
        return 2
