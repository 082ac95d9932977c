"""Workloads shared by the checks: starting points, operations and their expected results."""
import ast
import itertools
import json
import os
import random
import zlib

from . import core, graphs, ref
from .core import arr, rows_of, row_of, Violation

_costs = None


def costs():
    """[(params, library lines of a full search, number of graphs)] measured once; used only
    to choose affordable workloads, never as an oracle."""
    global _costs
    if _costs is None:
        with open(os.path.join(os.path.dirname(__file__), 'costs.json')) as f:
            _costs = [(tuple(p), s, n) for p, s, n in json.load(f)]
    return _costs


def pick_params(rng, max_lines, min_v=4):
    """Biased to parameter sets with graphs and with real branching."""
    c = [x for x in costs() if x[1] <= max_lines and x[0][0] >= min_v]
    mode = rng.random()
    if mode < 0.45:
        c = [x for x in c if x[2] > 0 and 0 < x[0][3] < x[0][1]] or c
        return rng.choice(c)[0]
    if mode < 0.6:
        c = [x for x in c if x[2] > 0] or c
        return rng.choice(c)[0]
    if mode < 0.9:
        c = sorted(c, key=lambda x: -x[1])[:max(5, len(c) // 3)]
        return rng.choice(c)[0]
    return rng.choice(c)[0]


_prefix = {}


def prefix_rows(name, lab, R):
    key = (name, lab, R)
    if key not in _prefix:
        p, A = graphs.get(name)
        M = ref.canonical_labelling(A, random.Random(lab))
        if len(_prefix) > 300:
            _prefix.clear()
        _prefix[key] = (p, M[:R], M)
    return _prefix[key]


_pref = None


def measured():
    """[(name, lab, R, lines of one step, lines of the whole tree or None)], see measure.py"""
    global _pref
    if _pref is None:
        with open(os.path.join(os.path.dirname(__file__), 'prefixes.json')) as f:
            _pref = [tuple(x) for x in json.load(f)]
    return _pref


_pref_by = {}


def pick_prefix(rng, max_lines, one_step=False):
    """A measured prefix of a known graph (under some canonical labelling) whose single next
    step, or whose whole tree, takes at most max_lines library lines."""
    if rng.random() < 0.3:
        s = pick_fork(rng, max_lines, one_step, False)
        if s:
            return s
    key = (max_lines, one_step)
    if key not in _pref_by:
        by = {}
        for name, lab, R, one, tree in measured():
            x = one if one_step else tree
            if x is not None and x <= max_lines:
                by.setdefault(name, []).append((x, lab, R))
        _pref_by[key] = {n: sorted(l) for n, l in by.items()}
    by = _pref_by[key]
    name = rng.choice(sorted(by))
    l = by[name]
    j = rng.randrange(len(l))
    if rng.random() < 0.5:      # prefer the larger ones
        j = max(j, rng.randrange(len(l)))
    return ['graph', name, l[j][1], l[j][2]]


_rich = None


def rich():
    global _rich
    if _rich is None:
        with open(os.path.join(os.path.dirname(__file__), 'rich.json')) as f:
            _rich = json.load(f)
    return _rich


def pick_rich_step(rng, max_lines):
    """A prefix several rows fit to, or None."""
    c = [s for s, lines, n in rich()['cand'] if lines <= max_lines]
    return rng.choice(c) if c else None


def pick_rich_params(rng, max_lines):
    c = [p for p, lines, n in rich()['params'] if lines <= max_lines]
    return rng.choice(c) if c else None


_wide = None


def wide():
    """[(start, library calls, graphs, widest level)] of searches that are wide on the way; see measure.py"""
    global _wide
    if _wide is None:
        with open(os.path.join(os.path.dirname(__file__), 'wide.json')) as f:
            _wide = json.load(f)
    return _wide


def pick_wide(n, max_calls, many):
    """Those with graphs at the end (only they can get lost), in turn, the largest first;
    up to max_calls, or up to `many` if there are several graphs."""
    g = [x for x in wide() if x[2] and (x[1] <= max_calls or x[1] <= many and x[2] >= 7)]
    return sorted(g, key=lambda x: -x[1])[n % len(g)]


def pick_wide_empty(rng, max_calls):
    return rng.choice([x for x in wide() if not x[2] and x[1] <= max_calls])


_forks = None
_fork_by = {}


def forks():
    """[(start, (lines, branchings, rows) of one step or None, (lines, branchings, graphs) of the whole tree or None)] of the
    starts from which the search branches within a row (mostly rows follow by propagation alone); see measure.py"""
    global _forks
    if _forks is None:
        with open(os.path.join(os.path.dirname(__file__), 'forks.json')) as f:
            _forks = json.load(f)
    return _forks


def pick_fork(rng, max_lines, one_step=False, seeds=True, least=1, rows=2):
    """One of them with something to find (nothing can get lost otherwise), or None."""
    key = (max_lines, one_step, seeds, least, rows)
    if key not in _fork_by:
        if len(_fork_by) > 50:
            _fork_by.clear()
        by = {}
        for st, one, tree in forks():
            x = one if one_step else tree
            if x and x[0] <= max_lines and x[2] >= least and (seeds if st[0] != 'graph' else st[3] >= rows):
                by.setdefault(st[1] if st[0] == 'graph' else 'seeds', []).append(st)
        _fork_by[key] = by
    by = _fork_by[key]
    return rng.choice(by[rng.choice(sorted(by))]) if by else None


def pick_start(rng, max_lines, p_prefix=0.35):
    if rng.random() < 0.35:
        s = pick_fork(rng, max_lines)
        if s:
            return s
    if rng.random() < 0.3:
        p = pick_rich_params(rng, max_lines)
        if p:
            return ['seed', *p]
    if rng.random() < p_prefix:
        return pick_prefix(rng, max_lines)
    return ['seed', *pick_params(rng, max_lines)]


def start(spec):
    """spec -> (params, rows)"""
    if spec[0] == 'seed':
        p = tuple(spec[1:5])
        return p, ref.seed_rows(*p)
    if spec[0] == 'graph':
        p, M, _ = prefix_rows(*spec[1:4])
        return p, M
    if spec[0] == 'rows':
        return tuple(spec[1]), tuple(tuple(r) for r in spec[2])
    raise KeyError(spec)


_exp = {}


def completions(spec):
    key = json.dumps(spec)
    if key not in _exp:
        p, M = start(spec)
        if len(_exp) > 400:
            _exp.clear()
        _exp[key] = tuple(sorted(ref.completions(M, *p, limit=2_000_000)))
    return _exp[key]


def permuted(A, seed):
    rng = random.Random(seed)
    o = list(range(len(A)))
    rng.shuffle(o)
    return tuple(tuple(A[a][b] for b in o) for a in o)


# ------------------------------------------------------------ catalogue, read independently

_cat = {}


def catalogue_names():
    d = os.path.join(core.REPO, 'srg', 'database')
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith('problem') and f.endswith('.py'))


def catalogue_content(name):
    """The matrices of a problem file, from its syntax tree (nothing is executed)."""
    path = os.path.join(core.REPO, 'srg', 'database', name + '.py')
    if path not in _cat:
        with os.fdopen(os.open(path, os.O_RDONLY), encoding='utf-8') as f:     # not through a mounted fault
            tree = ast.parse(f.read())
        val = None
        for st in tree.body:
            tgt = st.targets[0] if isinstance(st, ast.Assign) else getattr(st, 'target', None)
            if isinstance(tgt, ast.Name) and tgt.id == 'solutions':
                val = st.value
        mats = []
        for call in val.elts:
            mats.append(tuple(tuple(r) for r in ast.literal_eval(call.args[0])))
        _cat[path] = tuple(mats)
    return _cat[path]


def vklu_of(name):
    return tuple(int(x) for x in name.split('_')[1:])


# ------------------------------------------------------------ operations

def graph_list(spec):
    """['all', start] every completion; ['labels', name, seed, n]: n canonical labellings;
    ['cat', name] a catalogue list."""
    if spec[0] == 'all':
        return [tuple(g) for g in completions(spec[1])]
    if spec[0] == 'labels':
        p, A = graphs.get(spec[1])
        rng = random.Random(spec[2])
        return [ref.canonical_labelling(A, rng) for _ in range(spec[3])]
    if spec[0] == 'cat':
        return list(catalogue_content(spec[1]))
    raise KeyError(spec)


def expected(op):
    """The result the operation has to deliver (None: no closed form, see check_result)."""
    k = op[0]
    if k == 'solve':
        return completions(op[1])
    if k == 'advance':
        p, M = start(op[1])
        return tuple(sorted(M + (r,) for r in ref.next_rows(M, *p)))
    if k == 'cand':
        p, M = start(op[1])
        return tuple(sorted(r[len(M) + 1:] for r in ref.next_rows(M, *p)))
    if k == 'sort':
        g = graph_list(op[1])
        return tuple(sorted(g, key=ref.sort_key))
    if k == 'catalogue':
        return catalogue_content(op[1])
    if k == 'list':
        return tuple(catalogue_names())
    if k == 'complement':
        return graphs.complement(permuted(graphs.get(op[1])[1], op[2]))
    if k == 'parts':
        return tuple(t for t in itertools.product(*[range(b + 1) for b in op[2]]) if sum(t) == op[1])
    if k == 'maximize':
        return None
    raise KeyError(op)


def check_result(op, got, where=''):
    """Compare a normalised result with what the operation must deliver."""
    exp = expected(op)
    if exp is not None:
        if got == exp:
            return
        if op[0] in ('solve', 'advance', 'cand'):
            from collections import Counter
            a, b = Counter(got), Counter(exp)
            lost, extra = list((b - a).elements()), list((a - b).elements())
            if lost and not extra:
                cls = 'lost-results'
            elif extra and not lost:
                cls = 'extra-results'
            else:
                cls = 'wrong-results'
            raise Violation(cls, f'{where}{describe(op)}: {len(got)} delivered, {len(exp)} expected; '
                                 f'lost {len(lost)} {[core.short(x) if x and isinstance(x[0], tuple) else x for x in lost[:1]]}, '
                                 f'unexpected {len(extra)} {[core.short(x) if x and isinstance(x[0], tuple) else x for x in extra[:1]]}')
        if op[0] == 'sort' and sorted(got) == sorted(exp):
            raise Violation('wrong-order', f'{where}{describe(op)}: not in ascending order')
        raise Violation('wrong-results', f'{where}{describe(op)}: got {str(got)[:300]} expected {str(exp)[:300]}')
    if op[0] == 'maximize':
        p, A = graphs.get(op[1])
        d = ref.graph_defect(got, *p)
        if d:
            raise Violation('not-isomorphic', f'{where}{describe(op)}: result is not a graph with these parameters: {d}')
        if got[:2] != ref.seed_rows(*p):
            raise Violation('not-canonical', f'{where}{describe(op)}: first rows are {core.short(got[:2])}')
        try:
            if not ref.isomorphic(A, got):
                raise Violation('not-isomorphic', f'{where}{describe(op)}: another graph with the same parameters')
        except ref.TooBig:
            pass


def describe(op):
    return json.dumps(op)[:200]


class Inputs:
    """The concrete input objects of operations, shared by whoever names the same spec."""

    def __init__(self, inst, share=True):
        self.inst, self.share, self.obj, self.orig = inst, share, {}, []

    def _get(self, key, build, check=True):
        k = json.dumps(key)
        if self.share and k in self.obj:
            return self.obj[k]
        o = build()
        self.obj[k] = o
        if check:
            self.orig.append((key, o, self.freeze(o)))
        return o

    @staticmethod
    def freeze(o):
        if isinstance(o, list):
            return [(id(x), Inputs.freeze(x)) for x in o]
        return (o.tobytes(), o.shape, o.strides, str(o.dtype), o.flags.writeable)

    def matrix(self, spec, dtype='int8'):
        return self._get(['m', spec, dtype], lambda: arr(start(spec)[1], dtype))

    def srg(self, spec, made=False):
        m = self.matrix(spec, 'int64' if zlib.crc32(json.dumps(spec).encode()) % 4 == 0 else 'int8')
        return self._get(['s', spec], lambda: (made and self._extended(spec)) or self.inst.srg_of(m), check=False)

    def _extended(self, spec):
        """Half of the partial graphs of three rows or more: the object the library makes by adding the last row."""
        rows = start(spec)[1]
        if len(rows) < 3 or zlib.crc32(json.dumps(spec).encode()) & 24 == 0:
            return None
        try:
            s = self.inst.srg_of(arr(rows[:-1])).append_and_return_new(arr([rows[-1][len(rows):]])[0])
            return s if rows_of(s.current_matrix) == rows else None
        except Exception:
            return None

    def glist(self, spec, perm):
        def build():
            g = graph_list(spec)
            random.Random(perm).shuffle(g)
            return [arr(x, 'int8') for x in g]
        return self._get(['l', spec, perm], build)

    def graph(self, name, perm):
        return self._get(['g', name, perm], lambda: arr(permuted(graphs.get(name)[1], perm), 'int8'))

    def check_unchanged(self, where=''):
        for key, o, frozen in self.orig:
            if self.freeze(o) != frozen:
                raise Violation('input-changed', f'{where}input {json.dumps(key)[:200]} was modified')
        for k, o in self.obj.items():
            if k.startswith('["s"'):
                got = rows_of(o.current_matrix)
                want = start(json.loads(k)[1])[1]
                if got != want:
                    raise Violation('input-changed', f'{where}search object {k[:200]} was modified')


def perform(inst, op, inp):
    """Run the operation through the public interface; normalised result."""
    k = op[0]
    if k == 'solve':
        return tuple(sorted(rows_of(m) for m in list(inst.solver.solve(inp.srg(op[1])))))
    if k == 'advance':
        return tuple(sorted(rows_of(m) for m in list(inst.solver.advance(inp.srg(op[1])))))
    if k == 'cand':
        try:
            return tuple(sorted(row_of(r) for r in list(inst.candidates(inp.matrix(op[1])))))
        except inst.NoSolution:
            return ()
    if k == 'sort':
        return tuple(rows_of(m) for m in inst.sorter.sort(inp.glist(op[1], op[2])))
    if k == 'maximize':
        return rows_of(inst.sorter.maximize(inp.graph(op[1], op[2])))
    if k == 'catalogue':
        v = vklu_of(op[1])
        return tuple(rows_of(m) for m in inst.database.get_solutions(*v))
    if k == 'list':
        return tuple(inst.database.list_problems())
    if k == 'complement':
        return rows_of(inst.utils.complement(inp.graph(op[1], op[2])))
    if k == 'parts':
        return tuple(sorted(tuple(int(x) for x in t) for t in inst.partition.enum(op[1], list(op[2]))))
    raise KeyError(op)


_small_names = None


def small_graphs(limit=30):
    return sorted(n for n, (p, A) in graphs.catalogue().items() if 5 <= p[0] <= limit)


def pick_op(rng, max_lines, kinds=None):
    k = rng.choice(kinds or ['solve', 'solve', 'solve', 'advance', 'cand', 'sort', 'maximize', 'catalogue', 'complement', 'list', 'parts'])
    if k == 'solve':
        return [k, pick_start(rng, max_lines)]
    if k in ('advance', 'cand'):
        if rng.random() < 0.4:
            s = pick_rich_step(rng, max_lines)
            if s:
                return [k, s]
        if rng.random() < 0.6:
            return [k, pick_prefix(rng, max_lines, one_step=True)]
        return [k, pick_start(rng, max_lines)]
    if k == 'sort':
        r = rng.random()
        if r < 0.4:
            return [k, ['labels', rng.choice(small_graphs(17)), rng.randrange(1 << 20), rng.randrange(2, 6)], rng.randrange(1 << 20)]
        p = pick_params(rng, 20000)
        return [k, ['all', ['seed', *p]], rng.randrange(1 << 20)] if completions(['seed', *p]) else \
            [k, ['labels', rng.choice(small_graphs(14)), rng.randrange(1 << 20), 3], 1]
    if k in ('maximize', 'complement'):
        return [k, rng.choice(small_graphs(20 if max_lines < 40000 else 36)), rng.randrange(1 << 20)]
    if k == 'catalogue':
        return [k, rng.choice([n for n in catalogue_names() if '28_12' not in n])]
    if k == 'parts':
        b = [rng.randrange(0, 4) for _ in range(rng.randrange(1, 8))]
        return [k, rng.randrange(0, sum(b) + 2), b]
    return ['list']


def prepare(inp, op):
    """Build the input objects of op outside the simulated threads."""
    k = op[0]
    if k in ('solve', 'advance'):
        inp.srg(op[1], made=True)
    elif k == 'cand':
        inp.matrix(op[1])
    elif k == 'sort':
        inp.glist(op[1], op[2])
    elif k in ('maximize', 'complement'):
        inp.graph(op[1], op[2])


def key_of(ctx, *parts):
    return ctx.log.digest() + ':' + str(core.derive(*parts))


def run_op(inst, op, inp, where=''):
    """perform() where any exception is a violation."""
    with core.library(f'{where}{describe(op)}'):
        return perform(inst, op, inp)
