"""Seeded search driver: many simulated runs, minimisation, replay files, evidence, known findings."""
import gc
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import multiprocessing as mp
from collections import Counter

from .engine import Ctx, Violation, SimHang, derive_seed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT_S = 120


class _CpuTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _CpuTimeout()


def _classify(exc):
    """Who failed: the code under test (a violation) or the harness (an error)?

    The innermost stack frame that belongs to either side decides; the simulated disk only passes on the errors of the
    system calls it was asked for."""
    owner = None
    where = ''
    for fs in traceback.extract_tb(exc.__traceback__):
        if fs.filename.startswith(REPO + '/'):
            owner, where = 'sut', f'{os.path.relpath(fs.filename, REPO)}:{fs.name}'
        elif fs.filename.endswith('/dst/simdisk.py') and isinstance(exc, OSError):
            continue
        elif fs.filename.startswith(VERIF + '/'):
            owner, where = 'harness', f'{fs.filename}:{fs.lineno}'
    return owner, where


MALFORMED = (KeyError, IndexError, ValueError)

_frozen = False
_n_runs = 0


def freeze():
    """Take everything imported so far out of the collector's sight: gc.collect() inside runs becomes cheap."""
    global _frozen
    if not _frozen:
        _frozen = True
        sys.unraisablehook = lambda u: None
        gc.collect()
        gc.freeze()


def _gc_every():
    global _n_runs
    _n_runs += 1
    if _n_runs % 10 == 0:
        gc.collect()


def run_one(fn, seed=None, trace=None, tier='quick', keep_events=False):
    """One simulated execution.  Returns a plain dict."""
    from . import world
    ctx = Ctx(seed=seed, trace=trace, tier=tier)
    ctx.keep_events = keep_events
    out = dict(seed=seed, kind=None, msg=None, error=None)
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    t0 = time.time()
    freeze()
    gc.disable()            # collection points are part of the simulated schedule
    try:
        with world.fresh(ctx):
            fn(ctx)
    except Violation as v:
        out['kind'], out['msg'] = v.kind, v.msg
    except SimHang as e:
        out['kind'], out['msg'] = 'no-progress', str(e)
        ctx.ev('VIOLATION', 'no-progress')
    except _CpuTimeout as e:
        owner, where = _classify(e)
        out['kind'], out['msg'] = 'no-progress', f'{CPU_LIMIT_S} s of CPU without finishing the run'
        ctx.ev('VIOLATION', 'no-progress')
    except (Exception, KeyboardInterrupt) as e:
        owner, where = _classify(e)
        tb = ''.join(traceback.format_exception(e))[-3000:]
        if owner == 'sut':
            out['kind'] = f'exception-{type(e).__name__}'
            out['msg'] = f'{type(e).__name__}: {e} raised in {where}\n{tb}'
            ctx.ev('VIOLATION', out['kind'])
        elif owner == 'harness' and type(e) in MALFORMED:
            # An oracle choked on a result: a missing key, a wrong length, a wrong type.  What the library handed back
            # did not have the documented form.
            out['kind'] = f'malformed-{type(e).__name__}'
            out['msg'] = f'{type(e).__name__}: {e} while judging a result at {where}\n{tb}'
            ctx.ev('VIOLATION', out['kind'])
        else:
            out['error'] = tb
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    _gc_every()
    out.update(trace=ctx.trace, labels=ctx.labels, faults=ctx.faults, probes=ctx.probes,
               sim_steps=ctx.sim_steps, digest=ctx.digest(), n_events=ctx.n_events,
               states=ctx.states, tail=ctx.tail, events=ctx.events, wall=time.time() - t0)
    return out


def _strip(r):
    """What travels back from a worker."""
    keep = dict(r)
    if r['kind'] is None and r['error'] is None:
        for k in ('trace', 'labels', 'tail', 'events', 'msg'):
            keep.pop(k, None)
    return keep


_SCN = None


def _work(args):
    name, seeds, tier, deadline = args
    fn = _SCN[name]
    out = list()
    for idx, s in seeds:
        if time.time() > deadline:
            break
        r = run_one(fn, seed=s, tier=tier)
        r['scenario'], r['index'] = name, idx
        out.append(_strip(r))
        if r['error'] is not None:
            break
    return out


def minimise(fn, res, tier, budget_s=60, max_runs=1500):
    """Greedy choice-trace minimisation that preserves the violation kind."""
    best = list(res['trace'])
    kind = res['kind']
    t_end = time.time() + budget_s
    runs = [0]
    best_res = res

    def ok(tr):
        nonlocal best_res
        if time.time() > t_end or runs[0] >= max_runs:
            return False
        runs[0] += 1
        r = run_one(fn, seed=None, trace=tr, tier=tier)
        if r['kind'] == kind and r['error'] is None:
            best_res = r
            return True
        return False

    # strip trailing zeros for free
    while best and best[-1] == 0:
        best.pop()
    ok(best)
    improved = True
    while improved and time.time() < t_end and runs[0] < max_runs:
        improved = False
        n = len(best)
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and ok(cand):
                    best = cand
                    improved = True
                else:
                    i += size
                if time.time() > t_end:
                    break
            size //= 2
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if ok(cand):
                        best = cand
                        improved = True
                i += size
                if time.time() > t_end:
                    break
            size //= 2
        for i in range(len(best)):
            for v in (1, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    cand = best[:i] + [v] + best[i + 1:]
                    if ok(cand):
                        best = cand
                        improved = True
                        break
        while best and best[-1] == 0:
            best.pop()
    final = run_one(fn, seed=None, trace=best, tier=tier, keep_events=True)
    if final['kind'] != kind:
        final = run_one(fn, seed=None, trace=best_res['trace'], tier=tier, keep_events=True)
        best = best_res['trace']
    return best, final, runs[0]


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == prop]


class Check:
    """A property's machinery: scenarios, budgets and meta data for the evidence file."""

    def __init__(self, prop, scenarios, quick, thorough, rule, real, stub, assumptions,
                 level='exploration', pinned=None, sim_unit='environment/seam steps'):
        self.prop = prop
        self.scenarios = scenarios          # name -> function(ctx)
        self.quick = quick                  # name -> number of runs
        self.thorough = thorough            # name -> number of runs
        self.rule = rule
        self.real = real
        self.stub = stub
        self.assumptions = assumptions
        self.level = level
        self.pinned = pinned or {}          # finding id -> function(ctx), demonstrates a known finding
        self.sim_unit = sim_unit


def replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    fn = check.scenarios.get(rep['scenario']) or check.pinned[rep['scenario']]
    r = run_one(fn, seed=None, trace=rep['trace'], tier=rep.get('tier', 'quick'), keep_events=True)
    if r['error']:
        print('HARNESS-ERROR during replay\n' + r['error'])
        return 2
    exact = r['digest'] == rep['digest'] and r['kind'] == rep['kind']
    if r['kind'] is None:
        print('replay: no violation on this tree')
        return 0
    print(f"replay: kind={r['kind']} exact={exact} events={r['n_events']}")
    print(r['msg'])
    print(f"VIOLATION property={check.prop} replay={path}")
    return 1


def main(check, tier, base_seed, jobs=8, limit_s=None, scenario=None, runs=None):
    global _SCN
    t0 = time.time()
    limit_s = limit_s or (600 if tier == 'quick' else 3300)
    deadline = t0 + limit_s
    plan = dict(check.quick if tier == 'quick' else check.thorough)
    if scenario:
        plan = {scenario: runs or plan.get(scenario, 100)}
    _SCN = check.scenarios
    known = load_known(check.prop)
    known_keys = {(k['scenario'], k['kind']) for k in known}

    tasks = list()
    for name, n in plan.items():
        seeds = [(i, derive_seed(base_seed, check.prop, name, i)) for i in range(n)]
        chunk = max(1, min(50, n // (jobs * 4) or 1))
        for i in range(0, n, chunk):
            tasks.append((name, seeds[i:i + chunk], tier, deadline))
    # interleave the scenarios so that a time limit cuts all of them evenly
    tasks.sort(key=lambda t: t[1][0][0] / max(1, plan[t[0]]))

    total = Counter()
    per_scn = {}
    faults, probes, states, sched = Counter(), Counter(), set(), set()
    sim_steps = 0
    violations = list()
    errors = list()
    samples = list()
    freeze()
    from . import simdisk
    simdisk.base()
    ctxm = mp.get_context('fork')
    with ctxm.Pool(jobs) as pool:
        for out in pool.imap_unordered(_work, tasks):
            stop = False
            for r in out:
                total['runs'] += 1
                s = per_scn.setdefault(r['scenario'], Counter())
                s['runs'] += 1
                faults.update(r['faults'])
                probes.update(r['probes'])
                states |= r['states']
                sched.add(r['digest'])
                sim_steps += r['sim_steps']
                if r['error']:
                    errors.append(r)
                    stop = True
                elif r['kind']:
                    if (r['scenario'], r['kind']) in known_keys:
                        total['known'] += 1
                    else:
                        violations.append(r)
                        stop = True
                elif len(samples) < 6 and r['index'] < 3:
                    samples.append(f"{r['scenario']} seed={r['seed']} events={r['n_events']} "
                                   f"steps={r['sim_steps']} digest={r['digest'][:12]} faults={r['faults']}")
            if stop:
                pool.terminate()
                break
    search_wall = time.time() - t0
    rc = 0
    # known findings: each is demonstrated by its pinned scenario
    for k in known:
        fn = check.pinned.get(k['scenario']) or check.scenarios.get(k['scenario'])
        r = run_one(fn, seed=None, trace=k.get('trace', []), tier=tier)
        if r['error']:
            errors.append(dict(r, scenario=k['scenario'], index=0))
        elif r['kind'] == k['kind']:
            print(f"KNOWN-FINDING: property={check.prop} {k['what']}")
            total['known'] += 1
        elif r['kind']:
            violations.append(dict(r, scenario=k['scenario'], index=0))
        else:
            print(f"note: known finding {k['id']} of {check.prop} no longer manifests")
    viol_reports = list()
    if violations:
        v = sorted(violations, key=lambda r: len(r['trace']))[0]
        fn = check.scenarios.get(v['scenario']) or check.pinned[v['scenario']]
        tr, fin, nruns = minimise(fn, v, tier, budget_s=60)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', 'replays', f"{check.prop}-{v['scenario']}-{v['kind']}-{v['seed']}.json")
        path = path.replace(' ', '_')
        rep = dict(property=check.prop, scenario=v['scenario'], kind=fin['kind'] or v['kind'], seed=v['seed'],
                   base_seed=base_seed, tier=tier, trace=tr, digest=fin['digest'],
                   labels=list(zip(fin['labels'], fin['trace'])), faults=fin['faults'],
                   message=fin['msg'] or v['msg'], minimise_runs=nruns, original_trace_len=len(v['trace']),
                   events=fin['events'][-200:])
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        ok = False
        for attempt in range(2):
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), check.prop, '--replay', path],
                               capture_output=True, text=True)
            if p.returncode == 1:
                ok = True
                break
            # fall back to the unminimised trace
            full = run_one(fn, seed=None, trace=v['trace'], tier=tier, keep_events=True)
            rep.update(trace=v['trace'], digest=full['digest'], message=full['msg'] or v['msg'],
                       labels=list(zip(full['labels'], full['trace'])), kind=full['kind'] or v['kind'],
                       events=full['events'][-200:])
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1, default=str)
        if ok:
            print(f"violation kind={rep['kind']} scenario={v['scenario']} seed={v['seed']} "
                  f"choices={len(v['trace'])} minimised={len(rep['trace'])} ({nruns} runs)")
            print((rep['message'] or '')[:1500])
            print(f"VIOLATION property={check.prop} replay={path}")
            viol_reports.append(dict(replay=path, kind=rep['kind'], message=(rep['message'] or '')[:500],
                                     seed=v['seed'], scenario=v['scenario']))
            rc = 1
        else:
            print(f"HARNESS-ERROR: {check.prop} violation {v['kind']} of seed {v['seed']} in {v['scenario']} "
                  f"did not reproduce in a fresh process:\n{v['msg']}\n{p.stdout[-1500:]}{p.stderr[-1500:]}")
            rc = 3
    if errors and rc == 0:
        e = errors[0]
        print(f"HARNESS-ERROR: {check.prop} scenario {e['scenario']} seed {e['seed']}\n{e['error']}")
        rc = 2
    # determinism spot check: some seeds executed again in this process must give identical event logs
    det = Counter()
    if rc == 0:
        for name in plan:
            for i in range(2 if tier == 'quick' else 8):
                if time.time() > deadline:
                    break
                s = derive_seed(base_seed, check.prop, name, i)
                a = run_one(check.scenarios[name], seed=s, tier=tier)
                b = run_one(check.scenarios[name], seed=None, trace=a['trace'], tier=tier)
                det['pairs'] += 1
                det['equal'] += int(a['digest'] == b['digest'])
    wall = time.time() - t0
    ev = dict(
        property=check.prop, tier=tier, seed=int(base_seed), level=check.level,
        coverage=dict(
            evaluations=int(total['runs']), distinct_nontrivial=len(sched), rule=check.rule,
            samples=samples or ['none'], scenarios={k: dict(v) for k, v in per_scn.items()}, planned=plan,
            simulated_runs_per_hour=int(total['runs'] / max(search_wall, 1e-9) * 3600),
            simulated_time=dict(unit=check.sim_unit, total=int(sim_steps)),
            faults_injected=dict(faults), probes=dict(probes),
            distinct_abstract_states=len(states),
            determinism_pairs=dict(det), known_findings_seen=int(total['known']),
            real_components=check.real, stubbed_components=check.stub),
        wall_s=round(wall, 2), assumptions=check.assumptions, violations=viol_reports)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{check.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{check.prop} {tier}: {total['runs']} runs of {sum(plan.values())} planned, {len(sched)} distinct histories, "
          f"{len(states)} abstract states, faults={dict(faults)}, probes={dict(probes)}, {wall:.1f}s, rc={rc}")
    return rc


def _dig(args):
    name, seed, tier = args
    r = run_one(_SCN[name], seed=seed, tier=tier)
    return name, seed, r['digest'], r['n_events'], r['kind'], (r['error'] or '')[-200:]


def digests(check, tier, base_seed, path, runs, jobs):
    """Event-log digests for the determinism proof (tools/determinism.sh diffs two such files)."""
    global _SCN
    _SCN = check.scenarios
    tasks = [(n, derive_seed(base_seed, check.prop, n, i), tier) for n in sorted(_SCN) for i in range(runs)]
    with mp.get_context('fork').Pool(jobs) as pool:
        rows = pool.map(_dig, tasks, chunksize=1)
    with open(path, 'w') as f:
        for r in sorted(rows):
            f.write(json.dumps(r) + '\n')
    return 0
