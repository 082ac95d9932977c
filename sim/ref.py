"""Independent reference model: exact, small, and written without looking at how the
library solves anything.  Pure Python integers, no numpy arithmetic.

A partial graph is a tuple of rows (tuples of 0/1), each of length v; row i is the
adjacency of vertex i.  Canonical form: inside every class of columns that the known
rows cannot tell apart, the ones of the next row come first.
"""
import itertools


class TooBig(Exception):
    """The reference search exceeded its node limit (the state is skipped, counted as such)."""


def seed_rows(v, k, l, u):
    r0 = [0] * v
    r1 = [0] * v
    for i in range(1, k + 1):
        r0[i] = 1
    r1[0] = 1
    for i in range(2, l + 2):
        r1[i] = 1
    for i in range(k + 1, k + 1 + (k - l - 1)):
        r1[i] = 1
    return (tuple(r0), tuple(r1))


def next_rows(M, v, k, l, u, limit=None, order=None):
    """Every canonical next row of the partial graph M, as full rows.

    limit bounds the number of search nodes (TooBig beyond it)."""
    R = len(M)
    known = [M[i][R] for i in range(R)] + [0]
    need = []
    for i in range(R):
        row = M[i]
        used = 0
        for j in range(R):
            if row[j] and known[j]:
                used += 1
        need.append((l if row[R] else u) - used)
    need.append(k - sum(known))
    if min(need) < 0:
        if order is not None:
            order.append(1)
        return []
    groups = {}
    for c in range(R + 1, v):
        groups.setdefault(tuple(M[i][c] for i in range(R)), []).append(c)
    keys = list(groups)
    n = len(keys)
    inc = [[i for i in range(R) if key[i]] + [R] for key in keys]
    sizes = [len(groups[key]) for key in keys]
    cap = [[0] * (R + 1) for _ in range(n + 1)]
    for g in range(n - 1, -1, -1):
        cap[g] = cap[g + 1][:]
        for i in inc[g]:
            cap[g][i] += sizes[g]
    out, cnt, nodes = [], [0] * n, [0]

    def rec(g, need):
        nodes[0] += 1
        if limit is not None and nodes[0] > limit:
            raise TooBig(nodes[0])
        cg = cap[g]
        for i in range(R + 1):
            if need[i] > cg[i]:
                return
        if g == n:
            row = list(known) + [0] * (v - R - 1)
            for key, x in zip(keys, cnt):
                for c in groups[key][:x]:
                    row[c] = 1
            out.append(tuple(row))
            return
        mx = min([sizes[g]] + [need[i] for i in inc[g]])
        for x in range(mx + 1):
            nn = need[:]
            for i in inc[g]:
                nn[i] -= x
            cnt[g] = x
            rec(g + 1, nn)
        cnt[g] = 0

    rec(0, need)
    if order is not None:
        order.append(nodes[0])
    return out


def completions(M, v, k, l, u, limit=200000):
    """All finished canonical graphs extending M (in no promised order)."""
    out, stack, n = [], [tuple(map(tuple, M))], 0
    while stack:
        P = stack.pop()
        if len(P) == v:
            out.append(P)
            continue
        rows = next_rows(P, v, k, l, u, limit)
        n += 1 + len(rows)
        if n > limit:
            raise TooBig(n)
        for r in rows:
            stack.append(P + (r,))
    return out


_memo = {}


def completions_of_seed(p, limit=200000):
    if p not in _memo:
        _memo[p] = completions(seed_rows(*p), *p, limit=limit)
    return _memo[p]


def feasible(v):
    """Parameter sets with 0<k<v-1 passing the counting identity, u<=k."""
    for k in range(1, v - 1):
        for l in range(0, k):
            num, d = k * (k - l - 1), v - k - 1
            if num % d == 0 and num // d <= k:
                yield v, k, l, num // d


def graph_defect(A, v, k, l, u):
    """None if A (rows of ints) is the adjacency matrix of an SRG(v,k,l,u), else a reason."""
    if len(A) != v or any(len(r) != v for r in A):
        return 'shape'
    masks = []
    for i, r in enumerate(A):
        m = 0
        for j, x in enumerate(r):
            if x not in (0, 1):
                return f'entry {x!r} at {i},{j}'
            if x:
                m |= 1 << j
        masks.append(m)
    for i in range(v):
        if masks[i] >> i & 1:
            return f'loop at {i}'
        if bin(masks[i]).count('1') != k:
            return f'degree of {i}'
        for j in range(i):
            a = masks[i] >> j & 1
            if a != (masks[j] >> i & 1):
                return f'asymmetric at {i},{j}'
            if bin(masks[i] & masks[j]).count('1') != (l if a else u):
                return f'common neighbours of {i},{j}'
    return None


def partial_defect(M, v, k, l, u):
    """None if M is a valid partial graph: every constraint among its known rows holds."""
    R = len(M)
    masks = []
    for i, r in enumerate(M):
        if len(r) != v:
            return 'width'
        m = 0
        for j, x in enumerate(r):
            if x not in (0, 1):
                return f'entry {x!r} at {i},{j}'
            if x:
                m |= 1 << j
        masks.append(m)
    for i in range(R):
        if masks[i] >> i & 1:
            return f'loop at {i}'
        if bin(masks[i]).count('1') != k:
            return f'degree of {i}'
        for j in range(i):
            a = masks[i] >> j & 1
            if a != (masks[j] >> i & 1):
                return f'asymmetric at {i},{j}'
            if bin(masks[i] & masks[j]).count('1') != (l if a else u):
                return f'common neighbours of {i},{j}'
    return None


def sort_key(A):
    """The documented reading order of a finished graph: upper triangle, row by row."""
    return tuple(x for r, row in enumerate(A) for x in row[r + 1:])


def canonical_labelling(A, rng):
    """Relabel a complete graph into a canonical form, ties (= the choice of the next
    vertex inside each class) decided by rng.  The result is one of the matrices a
    complete enumeration has to contain."""
    v = len(A)
    classes = [list(range(v))]      # ordered classes of not yet placed vertices
    order = []
    while classes:
        c0 = classes[0]
        x = c0.pop(rng.randrange(len(c0)))
        order.append(x)
        nxt = []
        for c in classes:
            ones = [y for y in c if A[x][y]]
            zeros = [y for y in c if not A[x][y]]
            for part in (ones, zeros):
                if part:
                    nxt.append(part)
        classes = nxt
    return tuple(tuple(int(A[a][b]) for b in order) for a in order)


def tree_cost(M, v, k, l, u, limit):
    """(states, search nodes) of the whole tree under M, or TooBig."""
    stack, states, nodes = [tuple(map(tuple, M))], 0, 0
    while stack:
        P = stack.pop()
        if len(P) == v:
            continue
        o = []
        rows = next_rows(P, v, k, l, u, limit, o)
        states += 1
        nodes += o[0]
        if nodes + 4 * (states + len(stack) + len(rows)) > limit:
            raise TooBig(nodes)
        for r in rows:
            stack.append(P + (r,))
    return states, nodes


def _refine(A, col):
    """Equitable refinement of a colouring; colour names are isomorphism-invariant."""
    v = len(A)
    n = len(set(col))
    while True:
        sig = []
        for i in range(v):
            d = {}
            r = A[i]
            for j in range(v):
                if r[j]:
                    d[col[j]] = d.get(col[j], 0) + 1
            sig.append((col[i], tuple(sorted(d.items()))))
        names = {s: x for x, s in enumerate(sorted(set(sig)))}
        col = [names[s] for s in sig]
        if len(names) == n:
            return col, sorted(sig)
        n = len(names)


def isomorphic(A, B, limit=20000):
    """Exact isomorphism test by individualisation and refinement."""
    v = len(A)
    if len(B) != v:
        return False
    budget = [limit]

    def rec(ca, cb):
        budget[0] -= 1
        if budget[0] < 0:
            raise TooBig('isomorphism')
        ca, sa = _refine(A, ca)
        cb, sb = _refine(B, cb)
        if sa != sb:
            return False
        cells = {}
        for i, c in enumerate(ca):
            cells.setdefault(c, []).append(i)
        big = [c for c, m in cells.items() if len(m) > 1]
        if not big:
            pos = {c: i for i, c in enumerate(cb)}
            m = [pos[ca[i]] for i in range(v)]
            return all(A[i][j] == B[m[i]][m[j]] for i in range(v) for j in range(i))
        c = min(big, key=lambda x: (len(cells[x]), x))
        x = cells[c][0]
        na = ca[:]
        na[x] = v + 1
        for y in range(v):
            if cb[y] == c:
                nb = cb[:]
                nb[y] = v + 1
                if rec(na, nb):
                    return True
        return False

    return rec([0] * v, [0] * v)
