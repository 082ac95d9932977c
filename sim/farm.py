"""A simulated search farm on top of the library: one coordinator with a journal, several
workers running the real code, an unreliable network, crashes, restarts and skewed clocks.
Discrete-event: (time, sequence number) decides, and every delay or loss is a Choice."""
import heapq
import json
import random
import zlib

from . import core, disk, ref, sched
from .core import Violation, arr, rows_of


def pack(rows):
    return [''.join(map(str, r)) for r in rows]


def unpack(rows):
    return tuple(tuple(int(c) for c in r) for r in rows)


class Farm:
    def __init__(self, ctx, sc, check_task, affordable=lambda r: True):
        """sc: workers, p_drop, p_dup, p_crash, p_kill, p_disk, p_coord, p_skew, budget, policy,
        dtype, subtree; check_task(kind, rows, result) raises Violation."""
        self.ctx, self.ch, self.sc = ctx, ctx.ch, sc
        self.check_task = check_task
        self.affordable = affordable   # partial graphs too large to run are left out, and counted
        self.q, self.seq, self.now = [], 0, 0.0
        self.fault_budget = sc['faults']
        self.disk = disk.SimDisk(ctx, sc['p_disk'])
        self.partitioned = set()
        self.workers = [None] * sc['workers']
        self.epoch = [0] * sc['workers']
        self.busy_until = [0.0] * sc['workers']
        self.slow = [1.0] * sc['workers']
        self.skew = 0.0
        self.skipped = set()
        self.delivered = 0
        self.coord_up = True
        self.coord_epoch = 0
        self.pending, self.issued, self.done = [], {}, {}
        self.finished = {}
        self.accepted = 0
        self.max_tasks = sc.get('max_tasks')

    # -- faults
    def fault(self, p, kind):
        """A coin that comes up only while the fault budget lasts."""
        if self.fault_budget <= 0 or not self.ch.flag(p):
            return False
        self.fault_budget -= 1
        self.ctx.count('fault.' + kind)
        self.ctx.log.add('fault', kind, round(self.now, 3))
        return True

    def after(self, d, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + d, self.seq, fn))

    def delay(self):
        return 0.001 + self.ch.below(1000) / 1000.0

    def send(self, w, fn, what):
        if w in self.partitioned and self.fault_budget > 0:
            self.ctx.count('fault.partition-drop')
            return
        if self.fault(self.sc['p_drop'], 'drop-' + what):
            return
        d = self.delay()
        if self.fault(self.sc['p_drop'], 'delay-' + what):
            d += 5 + self.ch.below(40)
        self.after(d, fn)
        if self.fault(self.sc['p_dup'], 'duplicate-' + what):
            self.after(self.delay() * 3, fn)

    # -- coordinator
    def start(self, frontier):
        self.frontier0 = [unpack(r) for r in frontier]
        self.boot()
        steps = 0
        bound = 4000 + 400 * (self.max_tasks or self.sc['bound'])
        while self.q:
            steps += 1
            if steps > bound:
                raise Violation('farm-stuck', f'{steps} events, {self.accepted} results accepted, {len(self.pending)} tasks left')
            t, _, fn = heapq.heappop(self.q)
            self.now = max(self.now, t)
            fn()
            if self.coord_up and not self.pending and not self.issued:
                break
            if self.coord_up and self.max_tasks and self.accepted >= self.max_tasks:
                break
        self.ctx.sim_time += self.now
        if not (self.coord_up and (not self.pending and not self.issued or self.accepted >= (self.max_tasks or 1 << 60))):
            raise Violation('farm-stuck', 'no event left but the enumeration is not finished')

    def boot(self):
        """Coordinator start or restart: state from the journal only."""
        self.coord_up = True
        self.coord_epoch += 1
        recs, good = disk.records(self.disk.read('journal'))
        self.disk.truncate('journal', good)
        self.done, self.finished = {}, {}
        for key, kind, res in recs:
            self.done[key] = kind
            for g in res:
                if len(g) == len(g[0]):
                    self.finished['/'.join(g)] = 1
        # frontier: everything reachable through the journal that is not done
        todo, seen = [pack(r) for r in self.frontier0], set()
        table = {key: (kind, res) for key, kind, res in recs}
        self.pending, self.issued = [], {}
        while todo:
            r = todo.pop()
            key = '/'.join(r)
            if key in seen:
                continue
            seen.add(key)
            if len(r) == len(r[0]):
                self.finished[key] = 1
            elif key in table:
                kind, res = table[key]
                if kind == 'step':
                    todo.extend(res)
            elif key not in self.skipped and self.affordable(r):
                self.pending.append(r)
        self.ctx.log.add('boot', len(self.done), len(self.pending))
        self.tick()

    def tick(self):
        ep = self.coord_epoch

        def again():
            if self.coord_up and self.coord_epoch == ep:
                self.tick()
        if self.fault(self.sc['p_coord'], 'crash-coordinator'):
            self.coord_up = False
            self.disk.crash()
            self.after(1 + self.ch.below(20), self.boot)
            return
        if self.fault(self.sc['p_skew'], 'clock-jump'):
            self.skew += self.ch.below(2000) - 500
        if self.fault(self.sc['p_drop'], 'partition'):
            w = self.ch.below(len(self.workers))
            self.partitioned.add(w)
            self.after(1 + self.ch.below(30), lambda: self.partitioned.discard(w))
        # expired leases go back
        for key, (r, t) in sorted(self.issued.items()):
            if self.now + self.skew - t > 15:
                del self.issued[key]
                self.pending.append(r)
                self.ctx.count('reissued')
        for w in range(len(self.workers)):
            if not self.pending:
                break
            if self.busy_until[w] > self.now + 3:
                continue
            r = self.pending.pop(self.ch.below(len(self.pending), len(self.pending) - 1))
            key = '/'.join(r)
            kind = 'step'
            if self.sc['subtree'] and self.ch.flag(self.sc['subtree']):
                kind = 'subtree'
            self.issued[key] = (r, self.now + self.skew)
            self.send(w, lambda w=w, r=r, kind=kind: self.work(w, r, kind), 'task')
        self.after(1.0, again)

    def accept(self, r, kind, res):
        if not self.coord_up:
            self.ctx.count('result-while-down')
            return
        key = '/'.join(r)
        self.delivered += 1
        self.check_task(kind, r, res)
        if key in self.done:
            self.ctx.count('duplicate-result')
            return
        try:
            good = len(self.disk.read('journal'))
            self.disk.append('journal', disk.record([key, kind, res]))
            self.disk.fsync('journal')
        except disk.DiskError:
            self.fault_budget -= 1
            if self.fault_budget <= 0:
                self.disk.faults_on = False
            self.disk.truncate('journal', good)   # the task stays issued and expires
            return
        self.done[key] = kind
        self.issued.pop(key, None)
        self.pending = [p for p in self.pending if p != r]
        self.accepted += 1
        self.ctx.log.add('accept', kind, len(r), len(res), zlib.crc32(key.encode()))
        for g in res:
            if len(g) == len(g[0]):
                self.finished['/'.join(g)] = 1
            elif '/'.join(g) not in self.done and '/'.join(g) not in self.issued and g not in self.pending \
                    and '/'.join(g) not in self.skipped and self.affordable(g):
                self.pending.append(g)

    # -- workers
    def work(self, w, r, kind):
        if self.workers[w] is None:
            self.workers[w] = core.Inst()
            self.ctx.count('process-starts')
        inst = self.workers[w]
        faults = []
        p = self.sc['p_crash']
        if self.fault(p, 'kill-in-search'):
            faults = [(self.ch.below(1 << (2 + self.ch.below(13))), self.sc.get('kill', 'killed'))]
        matrix = arr(unpack(r), self.sc.get('dtype', 'int8'))

        def body(task):
            if kind == 'step':
                return [pack(rows_of(x)) for x in list(inst.advance(matrix))]
            return [pack(rows_of(x)) for x in list(inst.solve(matrix))]
        with inst:
            if faults:
                try:
                    t = sched.run_alone(self.ctx, body, faults, max_steps=max(faults[0][0] + 10, 12 * self.sc['calls']))
                except Violation as e:
                    if e.cls != 'no-progress' or not self.max_tasks:
                        raise
                    self.ctx.count('over-budget')
                    self.skipped.add('/'.join(r))
                    self.issued.pop('/'.join(r), None)
                    self.pending = [x for x in self.pending if x != r]
                    return
                if t.fired and t.error is not None:
                    # the worker's thread died in the middle of the search: the process goes on
                    # (and keeps whatever the search left behind) or is restarted
                    if self.ch.flag(0.5):
                        self.workers[w] = None
                    self.busy_until[w] = self.now + 1
                    return
                if t.error is not None:
                    raise Violation('unexpected-exception', f'{kind} of {"/".join(r)[:400]}: {type(t.error).__name__}: {t.error}')
                res = t.result
            else:
                try:
                    with core.library(f'{kind} of {"/".join(r)[:400]}'), core.budget(self.sc['calls']):
                        res = body(None)
                except core.OverBudget:
                    if not self.max_tasks:
                        raise Violation('no-progress', f'{kind} of {"/".join(r)[:400]}: more than {self.sc["calls"]} library calls')
                    self.ctx.count('over-budget')
                    self.skipped.add('/'.join(r))
                    self.issued.pop('/'.join(r), None)
                    self.pending = [x for x in self.pending if x != r]
                    return
        cost = (0.05 + 0.01 * len(res)) * self.slow[w]
        if self.fault(p, 'stall'):
            cost += 5 + self.ch.below(60)
        self.busy_until[w] = max(self.busy_until[w], self.now) + cost
        if self.fault(p, 'crash-before-reply'):
            self.workers[w] = None
            return
        self.after(cost, lambda: self.send(w, lambda: self.accept(r, kind, res), 'result'))
        if self.fault(p, 'crash-after-reply'):
            self.workers[w] = None
