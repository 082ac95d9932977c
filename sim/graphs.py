"""Known strongly regular graphs, built from their textbook definitions (no library code)."""
import itertools
from functools import lru_cache


def _adj(vs, f):
    vs = list(vs)
    return tuple(tuple(1 if a != b and f(a, b) else 0 for b in vs) for a in vs)


def params(A):
    v, k = len(A), sum(A[0])
    l = u = None
    for j in range(1, v):
        c = sum(x & y for x, y in zip(A[0], A[j]))
        if A[0][j]:
            l = c
        else:
            u = c
    return v, k, 0 if l is None else l, u


def complement(A):
    return tuple(tuple(0 if i == j else 1 - x for j, x in enumerate(r)) for i, r in enumerate(A))


def paley(p):
    sq = {x * x % p for x in range(1, p)}
    return _adj(range(p), lambda a, b: (a - b) % p in sq)


def paley_square(p, nr):
    """Paley graph of the field of p*p elements a+b*sqrt(nr), nr not a square mod p."""
    def mul(x, y):
        return (x[0] * y[0] + nr * x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p
    els = list(itertools.product(range(p), repeat=2))
    sq = {mul(x, x) for x in els if x != (0, 0)}
    return _adj(els, lambda a, b: ((a[0] - b[0]) % p, (a[1] - b[1]) % p) in sq)


def latin_xor(n):  # Latin square graph of the elementary abelian 2-group
    return _adj(itertools.product(range(n), repeat=2), lambda a, b: (a[0] == b[0]) + (a[1] == b[1]) + ((a[0] ^ a[1]) == (b[0] ^ b[1])) == 1)


def gewirtz():
    """Blocks of S(3,6,22) missing a point, adjacent when disjoint; from the octads of the Golay code."""
    g = sum(1 << e for e in (0, 2, 4, 5, 6, 10, 11))
    rows = [(g << i) | (bin(g).count('1') & 1) << 23 for i in range(12)]
    basis = []
    for w in rows:
        for b in basis:
            w = min(w, w ^ b)
        if w:
            basis.append(w)
    code = {0}
    for b in basis:
        code |= {c ^ b for c in code}
    oct_ = sorted(c for c in code if bin(c).count('1') == 8)
    assert len(code) == 4096 and len(oct_) == 759
    blocks = [c >> 2 for c in oct_ if c & 3 == 3]
    return _adj([b for b in blocks if not b & 1], lambda a, b: a & b == 0)


def lattice(n):
    return _adj(itertools.product(range(n), repeat=2), lambda a, b: (a[0] == b[0]) != (a[1] == b[1]))


def triangular(n):
    return _adj(itertools.combinations(range(n), 2), lambda a, b: len(set(a) & set(b)) == 1)


def latin(n):  # Latin square graph of the cyclic group
    return _adj(itertools.product(range(n), repeat=2),
                lambda a, b: (a[0] == b[0]) + (a[1] == b[1]) + ((a[0] + a[1]) % n == (b[0] + b[1]) % n) == 1)


def symplectic(d, q):
    pts = []
    for x in itertools.product(range(q), repeat=d):
        nz = next((c for c in x if c), None)
        if nz == 1:
            pts.append(x)
    def form(a, b):
        return sum(a[2 * i] * b[2 * i + 1] - a[2 * i + 1] * b[2 * i] for i in range(d // 2)) % q
    return _adj(pts, lambda a, b: form(a, b) == 0)


def clebsch():
    return _adj(range(16), lambda a, b: bin(a ^ b).count('1') in (1, 4))


def shrikhande():
    s = {(1, 0), (3, 0), (0, 1), (0, 3), (1, 1), (3, 3)}
    return _adj(itertools.product(range(4), repeat=2), lambda a, b: ((a[0] - b[0]) % 4, (a[1] - b[1]) % 4) in s)


def hoffman_singleton():
    vs = [(t, h, j) for t in 'pq' for h in range(5) for j in range(5)]
    def f(a, b):
        if a[0] == b[0]:
            return a[1] == b[1] and (a[2] - b[2]) % 5 in ((1, 4) if a[0] == 'p' else (2, 3))
        if a[0] == 'q':
            a, b = b, a
        return (b[1] * a[1] + a[2] - b[2]) % 5 == 0
    return _adj(vs, f)


def multipartite(m, n):
    return _adj(itertools.product(range(m), range(n)), lambda a, b: a[0] != b[0])


def chang(kind):
    A = [list(r) for r in triangular(8)]
    e = list(itertools.combinations(range(8), 2))
    S = {0: {(0, 1), (2, 3), (4, 5), (6, 7)},
         1: {(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (0, 7)},
         2: {(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (5, 6), (6, 7), (3, 7)}}[kind]
    S = {i for i, x in enumerate(e) if x in S}
    for i in range(28):
        for j in range(28):
            if i != j and ((i in S) != (j in S)):
                A[i][j] ^= 1
    return tuple(map(tuple, A))


def lines_pg32():
    pts = range(1, 16)
    lines = {frozenset((a, b, a ^ b)) for a in pts for b in pts if a != b}
    return _adj(sorted(map(sorted, lines)), lambda a, b: bool(set(a) & set(b)))


def schlaefli():  # complement: 27 lines meeting; built as a_i, b_i, c_ij
    vs = [('a', i) for i in range(6)] + [('b', i) for i in range(6)] + [('c', p) for p in itertools.combinations(range(6), 2)]
    def f(x, y):  # the two lines meet
        if x[0] > y[0]:
            x, y = y, x
        if (x[0], y[0]) == ('a', 'b'):
            return x[1] != y[1]
        if y[0] == 'c' and x[0] in 'ab':
            return x[1] in y[1]
        if x[0] == 'c':
            return not set(x[1]) & set(y[1])
        return False
    return _adj(vs, f)


@lru_cache(None)
def catalogue():
    """name -> (params, adjacency); every entry verified on construction."""
    from . import ref
    out = {}

    def add(name, A):
        for nm, B in ((name, A), (name + '-c', complement(A))):
            p = params(B)
            if p[3] is None or not 0 < p[1] < p[0] - 1:
                continue
            d = ref.graph_defect(B, *p)
            assert d is None, (nm, d)
            out[nm] = (p, B)
    for p in (5, 13, 17, 29, 37, 41, 53, 61):
        add(f'paley{p}', paley(p))
    for n in range(3, 9):
        add(f'lattice{n}', lattice(n))
    for n in range(5, 12):
        add(f'triangular{n}', triangular(n))
    for n in (4, 5, 6, 7):
        add(f'latin{n}', latin(n))
    for m, n in ((2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (5, 5), (3, 8), (2, 16), (7, 2), (12, 3), (8, 8),
                 (16, 4), (4, 16), (13, 5), (5, 13), (9, 7), (7, 9), (20, 3), (32, 2), (2, 32)):
        add(f'multipartite{m}x{n}', multipartite(m, n))
    for d, q in ((4, 2), (4, 3), (6, 2)):
        add(f'symplectic{d},{q}', symplectic(d, q))
    add('paley25', paley_square(5, 2))
    add('paley49', paley_square(7, 3))
    add('latin4x', latin_xor(4))
    add('latin8', latin(8))
    add('latin8x', latin_xor(8))
    add('gewirtz', gewirtz())
    add('clebsch', clebsch())
    add('shrikhande', shrikhande())
    add('hoffman-singleton', hoffman_singleton())
    for i in range(3):
        add(f'chang{i}', chang(i))
    add('lines-pg32', lines_pg32())
    add('schlaefli', schlaefli())
    return out


@lru_cache(None)
def large():
    """Graphs with more vertices than a search can have; for sorting, relabelling and complements only."""
    out = {}
    for name, A in (('paley73', paley(73)), ('paley101', paley(101)), ('paley137', paley(137)), ('paley257', paley(257)), ('lattice9', lattice(9)),
                    ('lattice12', lattice(12)), ('lattice17', lattice(17)), ('triangular13', triangular(13)), ('triangular17', triangular(17)),
                    ('multipartite2x70', multipartite(2, 70)), ('multipartite12x12', multipartite(12, 12)), ('multipartite70x2', multipartite(70, 2))):
        out[name] = (params(A), A)
        B = complement(A)
        if params(B)[1] > 1:
            out[name + '-c'] = (params(B), B)
    return out


def get(name):
    """(parameters, adjacency matrix)"""
    return catalogue()[name] if name in catalogue() else large()[name]
