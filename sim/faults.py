"""Placing failures inside one operation: where in its execution, and of what kind."""
from . import core, sched, work
from .core import Violation

MAX = 3_000_000


def dry_steps(ctx, inst, op, inp, gran):
    """Length of the fault-free operation in this state of the instance."""
    t = sched.run_alone(ctx, lambda t: work.perform(inst, op, inp), (), gran, MAX, trail=True)
    if t.error is not None:
        raise Violation('unexpected-exception', f'{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]} at {core.library_frame(t.error)}')
    return t.steps, t.result, t.trail


COMMON = ('memory', 'memory', 'interrupt', 'timeout', 'oserror', 'runtime', 'killed', 'lookup')


def kind(rng):
    """A kind of failure: half of the time one of those that strike everywhere."""
    return rng.choice(COMMON) if rng.random() < 0.5 else rng.choice(sorted(core.FAULT_KINDS))


def spot(rng):
    """Like place, or a line of the code (all lines alike, however often they run) and one of its executions."""
    return place(rng) if rng.random() < 0.5 else ['line', rng.random(), place(rng)]


def place(rng, how=None):
    """A relative position: uniform, near the start, near the end, or log-spread."""
    how = how or rng.choice(['any', 'any', 'any', 'head', 'tail', 'log'])
    if how == 'any':
        return rng.random()
    if how == 'head':
        return rng.random() * 0.05
    if how == 'tail':
        return 1 - rng.random() * 0.05
    return 2 ** -rng.uniform(0, 14)


def at(frac, n, trail=None):
    """The step: of n, or of the recorded steps of a line."""
    if isinstance(frac, list):
        if not trail:
            return at(frac[2], n)
        steps = trail[sorted(trail, key=lambda k: (k[0], k[1] or 0))[int(frac[1] * len(trail))]]
        return steps[at(frac[2], len(steps))]
    return min(n - 1, int(frac * n)) if n else 0
