"""Runs seeds in parallel, reports, minimises, replays, writes evidence."""
import argparse
import copy
import gc
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import core
from .core import Choices, Ctx, Violation, derive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_RUN = 60            # seconds of real time before a run is stopped and classified by step count
COUNT_LIMIT = 180_000_000  # calls and jumps of library code a run may make when it is classified
COUNT_TOOL = 5

real_time = time.time


def load(prop):
    return importlib.import_module('sim.checks.' + prop.lower())


def run_one(mod, sc, choices, counted=False):
    """One execution, a function of (code, sc, choices).  Returns a plain dict."""
    ctx = Ctx(choices)
    ctx.counted = counted
    random.seed(sc.get('seed', 0))
    import numpy as np
    np.random.seed(sc.get('seed', 0) % 2**32)
    core.ENTROPY['rng'] = random.Random(sc.get('seed', 0))
    core.CLOCK.reset()
    core.TIES['rng'] = None
    core.OPTIMIZE['level'] = -1
    core.SETS['rng'] = None
    res = {'violation': None, 'error': None}
    try:
        gc.collect()
        gc.disable()         # collection happens where the run asks for it, not where the process's past puts it
        if counted:
            _count_on()
        mod.execute(sc, ctx)
    except Violation as e:
        res['violation'] = {'class': e.cls, 'message': str(e)[:3000]}
    except core.StepLimit as e:
        res['violation'] = {'class': 'no-progress', 'message': str(e)}
    except Exception as e:
        where = core.library_frame(e)
        if where:
            res['violation'] = {'class': 'unexpected-exception',
                                'message': f'unexpected-exception: {type(e).__name__}: {str(e)[:300]} at {where}'}
        else:
            res['error'] = traceback.format_exc()[-4000:]
    except core.Killed:
        res['error'] = 'stray injected crash: ' + traceback.format_exc()[-3000:]
    finally:
        core.TIES['rng'] = None
        sys.settrace(None)
        gc.enable()
        if counted:
            _count_off()
    res.update(stats=ctx.stats, states=sorted(ctx.states), digest=ctx.log.digest(), events=ctx.log.n,
               sim_time=ctx.sim_time, steps=ctx.steps, choices=ctx.ch.rec, log=ctx.log.lines[-60:],
               key=getattr(ctx, 'key', None))
    return res


def _count_on():
    """Stops the run after COUNT_LIMIT calls and jumps of library code (five times what the largest workload takes)."""
    mon, n, tool = sys.monitoring, [0], COUNT_TOOL

    def cb(code, *_):
        if not code.co_filename.startswith(core.ROOT):
            return mon.DISABLE
        n[0] += 1
        if n[0] > COUNT_LIMIT:
            raise core.StepLimit(f'more than {COUNT_LIMIT} calls and jumps of library code')
    mon.use_tool_id(tool, 'verif-count')
    for e in (mon.events.PY_START, mon.events.PY_RESUME, mon.events.JUMP):
        mon.register_callback(tool, e, cb)
    mon.set_events(tool, mon.events.PY_START | mon.events.PY_RESUME | mon.events.JUMP)


def _count_off():
    sys.monitoring.set_events(COUNT_TOOL, 0)
    sys.monitoring.free_tool_id(COUNT_TOOL)


def make(mod, seed, tier, i):
    rs = derive(seed, mod.PROP, i)
    rng = random.Random(rs)
    sc = mod.scenario(rng, tier, i)
    sc['seed'] = rs
    return sc, Choices(derive(rs, 'choices'))


# ---------------------------------------------------------------- parallel batch

def limit_memory():
    # a runaway search must fail in its own process, not exhaust the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _worker(prop, seed, tier, inq, outq, counted):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    limit_memory()
    core.install_seams()
    mod = load(prop)
    gc.collect()
    gc.freeze()
    while True:
        i = inq.get()
        if i is None:
            return
        outq.put(('start', i, os.getpid(), None))
        try:
            t0 = real_time()
            sc, ch = make(mod, seed, tier, i)
            r = run_one(mod, sc, ch, counted)
            r['secs'] = real_time() - t0
            if not (r['violation'] or r['error']):
                r['choices'] = len(r['choices'])
                if i >= 3:
                    r['log'] = None
            r['scenario'] = sc if (r['violation'] or r['error'] or i < 3) else None
        except BaseException:
            r = {'violation': None, 'error': traceback.format_exc()[-4000:], 'scenario': None}
        outq.put(('done', i, os.getpid(), r))


def batch(prop, seed, tier, indices, workers, deadline=None, counted=False, stop_on_violation=True, wall=WALL_RUN):
    """Run the given indices.  Returns (results by index, indices that hit the wall)."""
    procs = {}
    try:
        return _batch(procs, prop, seed, tier, indices, workers, deadline, counted, stop_on_violation, wall)
    finally:
        for p, q in procs.values():
            if p.is_alive():
                p.kill()
            p.join()


def _batch(procs, prop, seed, tier, indices, workers, deadline, counted, stop_on_violation, wall):
    ctxm = mp.get_context('fork')
    outq = ctxm.SimpleQueue()
    pend = list(indices)
    results, timeouts, running = {}, [], {}
    best = None

    def spawn():
        q = ctxm.SimpleQueue()
        p = ctxm.Process(target=_worker, args=(prop, seed, tier, q, outq, counted))
        p.start()
        procs[p.pid] = (p, q)
        feed(p.pid)

    def feed(pid):
        p, q = procs[pid]
        stop = (deadline and real_time() > deadline) or best is not None or len(timeouts) >= 4
        if pend and not stop:
            i = pend.pop(0)
            running[pid] = (i, real_time())
            q.put(i)
        else:
            running.pop(pid, None)
            q.put(None)

    for _ in range(min(workers, max(1, len(pend)))):
        spawn()
    while running:
        t_end = real_time() + 1.0
        while outq.empty() and real_time() < t_end:
            time.sleep(0.002)
        if not outq.empty():
            kind, i, pid, r = outq.get()
            if kind == 'done':
                results[i] = r
                if r['violation'] and stop_on_violation and (best is None or i < best):
                    best = i
                feed(pid)
            continue
        now = real_time()
        for pid, (i, t0) in list(running.items()):
            p, q = procs[pid]
            if now - t0 > wall or not p.is_alive():
                dead = not p.is_alive()
                p.kill()
                p.join()
                running.pop(pid)
                timeouts.append((i, 'died' if dead else 'wall'))
                if pend and best is None and not (deadline and now > deadline) and len(timeouts) < 4:
                    spawn()
    for p, q in procs.values():
        p.join(timeout=5)
    return results, timeouts


# ---------------------------------------------------------------- replay & minimise

def attempt(prop, sc, forced, counted=False, wall=60):
    """Execute in a forked child of this (clean) process."""
    ctxm = mp.get_context('fork')
    r, w = ctxm.Pipe(duplex=False)

    def target():
        r.close()
        try:
            limit_memory()
            core.install_seams()
            w.send(run_one(load(prop), sc, Choices(derive(sc['seed'], 'choices')) if forced is None else Choices(forced=forced), counted))
        except BaseException:
            try:
                w.send({'violation': None, 'error': traceback.format_exc()[-2000:], 'choices': []})
            except BaseException:
                pass
        w.close()
        os._exit(0)
    p = ctxm.Process(target=target)
    p.start()
    w.close()
    res = {'violation': None, 'error': 'wall', 'choices': []}
    if r.poll(wall):
        try:
            res = r.recv()
        except EOFError:
            p.join(10)
            res = {'violation': {'class': 'process-died', 'message': f'process-died: the process running the library ended with status {p.exitcode}'},
                   'error': None, 'choices': [], 'log': []}
    p.kill()
    p.join()
    return res


def shrink_list(lst):
    n = len(lst)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield lst[:a] + lst[a + size:]
        size //= 2


def minimise(prop, sc, choices, cls, budget=60.0, tries=250):
    mod = load(prop)
    t0 = real_time()
    state = {'n': 0}

    def test(s, c):
        if state['n'] >= tries or real_time() - t0 > budget:
            return None
        state['n'] += 1
        r = attempt(prop, s, c, wall=min(30, budget))
        v = r['violation']
        return r if v and v['class'] == cls else None

    best, bc = copy.deepcopy(sc), list(choices)
    msg = None
    # schedule first: the shortest prefix of decisions, the rest at their simplest
    for cut in (0, len(bc) // 8, len(bc) // 4, len(bc) // 2):
        if cut < len(bc):
            r = test(best, bc[:cut])
            if r:
                bc = bc[:cut]
                msg = r['violation']['message']
                break
    changed = True
    while changed and state['n'] < tries and real_time() - t0 < budget:
        changed = False
        for cand in mod.shrink(best):
            for c in ((bc,) if not bc else (bc, [])):
                r = test(cand, c)
                if r:
                    best, bc, changed = cand, list(c), True
                    msg = r['violation']['message']
                    break
            if changed:
                break
        if changed:
            continue
        size = max(1, len(bc) // 2)
        while size >= 1 and bc:
            a = 0
            while a < len(bc):
                c = bc[:a] + bc[a + size:]
                r = test(best, c)
                if r:
                    bc, changed = c, True
                    msg = r['violation']['message']
                else:
                    a += size
                if state['n'] >= tries or real_time() - t0 > budget:
                    break
            size //= 2
            if state['n'] >= tries or real_time() - t0 > budget:
                break
    return best, bc, state['n'], msg


def generic_shrink(sc, lists=(), ints=()):
    """Candidates with chunks of the named lists removed, then named ints lowered."""
    for f in lists:
        for l in shrink_list(sc.get(f, [])):
            s = copy.deepcopy(sc)
            s[f] = l
            yield s
    for f, low in ints:
        x = sc.get(f)
        if isinstance(x, int) and x > low:
            for y in {low, (x + low) // 2, x - 1}:
                s = copy.deepcopy(sc)
                s[f] = y
                yield s


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('finding:'):
                    d = dict(w.split('=', 1) for w in line.split()[1:3])
                    out.append((d['property'], d['key'], line.split(None, 3)[3].strip()))
    except FileNotFoundError:
        pass
    return out


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep['property']
    if rep['violation']['class'] == 'process-died':
        r = dict(attempt(prop, rep['scenario'], rep['choices'], wall=240), digest=None)
    else:
        core.install_seams()
        r = run_one(load(prop), rep['scenario'], Choices(forced=rep['choices']), rep.get('counted', False))
    if r['error']:
        print(r['error'])
        print('replay: harness error')
        return 2
    v = r['violation']
    if v:
        print(f"replay: {v['message']}")
        print(f"replay: digest {r['digest']} (recorded {rep.get('digest')})")
        for l in r['log'][-25:]:
            print('   ', l)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print('replay: no violation')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int, help='run this index alone and print its log')
    ap.add_argument('--digests', action='store_true', help='print run digests (determinism audit)')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    prop = a.prop.upper()
    mod = load(prop)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.only is not None:
        core.install_seams()
        sc, ch = make(mod, a.seed, tier, a.only)
        r = run_one(mod, sc, ch)
        print(json.dumps(sc)[:3000])
        print('\n'.join(r['log']))
        print(r['violation'], r['error'], r['stats'], r['steps'], r['digest'])
        return 1 if r['violation'] else 2 if r['error'] else 0
    print(f'{prop}: VERIF_SEED={a.seed} tier={tier} workers={a.workers}', flush=True)
    t0 = real_time()
    runs = a.runs or mod.RUNS[tier]
    # The quick tier is a fixed number of runs; the cap only guards against a slow machine,
    # and a run set cut short by it is reported as such in the evidence.
    deadline = t0 + (600 if tier == 'quick' else 3.0 * 3600)
    results, timeouts = batch(prop, a.seed, tier, range(runs), a.workers, deadline)
    if a.digests:
        for i in sorted(results):
            print(i, results[i].get('digest'), results[i].get('steps'))
    viols = sorted(i for i, r in results.items() if r['violation'])
    errors = sorted(i for i, r in results.items() if r['error'])
    counted_viol = set()
    if timeouts and not viols:
        # classify them by step count, side by side
        slow = [i for i, why in timeouts if why == 'wall'][:4]
        for i in [i for i, why in timeouts if why == 'died'][:2]:
            # once more, alone: a process that dies again is the code's doing
            sc, _ = make(mod, a.seed, tier, i)
            r = attempt(prop, sc, None, wall=240)
            results[i] = {'stats': {}, 'states': [], **r, 'scenario': sc}
            if r['violation']:
                viols.append(i)
            elif r['error']:
                errors.append(i)
        again, _ = batch(prop, a.seed, tier, slow, len(slow), counted=True, wall=280, stop_on_violation=False) if slow else ({}, [])
        for i in slow:
            if i not in again:
                errors.append(i)
                results[i] = {'violation': None, 'error': 'stopped on wall time, also under step counting', 'stats': {}, 'states': []}
                continue
            results[i] = again[i]
            if again[i]['violation']:
                counted_viol.add(i)
                viols.append(i)
            elif again[i]['error']:
                errors.append(i)
    rc, nviol = 0, 0
    known = {k: w for p, k, w in known_findings() if p == prop}
    reported = []
    for i in viols:
        r = results[i]
        v = r['violation']
        key = v['class']
        if key in known:
            continue
        nviol += 1
        if reported:
            continue
        reported.append(i)
        counted = i in counted_viol
        sc, choices = r['scenario'], r['choices']
        died = v['class'] == 'process-died'      # its decisions are lost: the replay draws them again from the seed
        if died:
            choices = None
        print(f"{prop}: run {i} (seed {sc['seed']}): {v['message']}", flush=True)
        budget = 45.0 if tier == 'quick' else 300.0
        small, sch, n, msg = (sc, choices, 0, None) if counted or died else minimise(prop, sc, choices, v['class'], budget=budget)
        final = r if counted or died else attempt(prop, small, sch, counted, wall=120)
        if not final['violation'] or final['violation']['class'] != v['class']:
            small, sch = sc, choices
            final = attempt(prop, small, sch, counted, wall=120)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{prop}-{a.seed}-{i}.json')
        rep = dict(property=prop, verif_seed=a.seed, run=i, tier=tier, scenario=small, choices=sch, counted=counted,
                   violation=final['violation'] or v, digest=final.get('digest'), log=final.get('log'),
                   original=dict(message=v['message'], choices=len(choices or [])), minimisation_attempts=n)
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        try:
            prc = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300 if counted or died else 150).returncode
        except subprocess.TimeoutExpired:
            prc = 'timeout'
        print(f"{prop}: minimised in {n} attempts to {len(sch or [])} decisions: {(msg or v['message'])[:1500]}")
        print(f"{prop}: replay in a fresh process {'reproduces it' if prc == 1 else 'does NOT reproduce it (rc %s)' % prc}")
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        rc = 1
    hit = {results[i]['violation']['class'] for i in viols if results[i]['violation']['class'] in known}
    for k in sorted(hit):
        print(f'KNOWN-FINDING: property={prop} {known[k]}')
    wall = real_time() - t0
    evidence(mod, prop, a, tier, results, wall, nviol, runs, timeouts)
    if rc == 0 and errors:
        for i in errors[:3]:
            print(f'{prop}: run {i}: harness error\n{results[i]["error"]}')
        return 2
    done = len(results)
    slow = max((r.get('secs') or 0, i) for i, r in results.items()) if results else (0, 0)
    print(f'{prop}: {done} runs in {wall:.1f} s (the slowest: run {slow[1]}, {slow[0]:.1f} s), {nviol} violations', flush=True)
    if rc == 0 and done < min(runs, 20):
        print(f'{prop}: too few runs completed')
        return 2
    return rc


def evidence(mod, prop, a, tier, results, wall, nviol, runs, timeouts):
    stats, states, keys, digests = {}, set(), set(), set()
    steps = events = 0
    sim_time = 0.0
    samples = []
    for i in sorted(results):
        r = results[i]
        for k, n in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + n
        states.update(r.get('states') or ())
        steps += r.get('steps') or 0
        events += r.get('events') or 0
        sim_time += r.get('sim_time') or 0
        digests.add(r.get('digest'))
        if r.get('key') is not None:
            keys.add(r['key'])
        if r.get('scenario') is not None and len(samples) < 3:
            samples.append({'run': i, 'scenario': json.loads(json.dumps(r['scenario'], default=str)),
                            'log': [x[:300] for x in (r.get('log') or [])[:30]]})
    faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith('fault.')}
    probes = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith('probe.')}
    for p in getattr(mod, 'PROBES', ()):
        probes.setdefault(p, 0)
    other = {k: n for k, n in sorted(stats.items()) if not k.startswith(('fault.', 'probe.'))}
    n = len(results)
    ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(
                  evaluations=n, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
                  runs_planned=runs, runs_per_hour=round(n / wall * 3600) if wall else 0,
                  distinct_run_digests=len(digests), distinct_states=len(states),
                  states_measure=getattr(mod, 'STATES', 'distinct (thread, code location) pairs at switches'),
                  library_steps_traced=steps, events_logged=events, simulated_seconds=round(sim_time, 1),
                  faults_injected=faults, probes=probes, counters=other, stopped_on_wall=len(timeouts),
                  real_components=mod.REAL, stubbed_components=mod.STUB, workers=a.workers),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{prop}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))
