"""State features: tilings, bases, tensor bases, action features."""
import itertools
import math
from props.common import *
from mushroom_rl.features import Features, get_action_features
from mushroom_rl.features.tiles import Tiles, VoronoiTiles
from mushroom_rl.features.basis import GaussianRBF, FourierBasis, PolynomialBasis
from mushroom_rl.features.tensors import GaussianRBFTensor, VonMisesBFTensor, RandomFourierBasis, ConstantTensor
from mushroom_rl.utils.features import uniform_grid

# widths that 2, 3 and 4 divide exactly
RANGES = [[0., 1.5], [-3., 3.], [-1., .5], [1., 4.]]


def cell(x, r, n):
    """the cell of x among the n equal parts of [r0, r1), None outside"""
    w = (r[1] - r[0]) / n
    if not bool(LAND(x >= r[0], x < r[1])):
        return None
    for i in range(n - 1):
        if bool(x < r[0] + (i + 1) * w):
            return i
    return n - 1


def cells(x, rs, ns):
    c = [cell(x[i], rs[i], ns[i]) for i in range(len(rs))]
    return None if None in c else tuple(c)


@scenario('P28', 'one tiling of 1-2 dimensions with 1-4 tiles each, ranges from a list; two arbitrary states', max_paths=4000,
          quick=[dict(ns=[1]), dict(ns=[3]), dict(ns=[4]), dict(ns=[2, 2]), dict(ns=[2, 1], comps=[2, 0]), dict(ns=[1, 2], comps=[1, 0])],
          thorough=[dict(ns=[3, 2]), dict(ns=[2, 2, 1])])
def tiles(ctx, ns, comps=None):
    d = len(ns)
    k = ctx.pick('range', [0, 1, 2, 3])
    rs = [RANGES[(k + i) % 4] for i in range(d)]
    t = Tiles([list(r) for r in rs], list(ns)) if comps is None else Tiles([list(r) for r in rs], list(ns), comps)
    size = int(np.prod(ns))
    ctx.check(t.size == size, 'number of tiles')
    full = d if comps is None else 3
    out = []
    for nm in 'xy':
        x = ctx.array(nm, (full,), -5, 5)
        seen = [x[i] for i in (range(d) if comps is None else comps)]
        i, c = t(x), cells(seen, rs, ns)
        if c is None:
            ctx.check(i is None, 'no tile outside the range')
        else:
            ctx.check(i is not None and 0 <= int(i) < size, 'one tile inside the range')
        out.append((None if i is None else int(i), c))
    (i, c), (j, e) = out
    if c is not None and e is not None:
        ctx.check((i == j) == (c == e), 'two states share a tile exactly when they lie in the same cell')


@scenario('P28', 'one tiling of 3 dimensions with 1-3 tiles each; two arbitrary states inside the range', max_paths=4000,
          quick=[dict(ns=[2, 3, 2]), dict(ns=[1, 3, 2])], thorough=[dict(ns=[3, 2, 3]), dict(ns=[2, 1, 2, 2])])
def tiles_high(ctx, ns):
    d = len(ns)
    rs = [RANGES[i % 4] for i in range(d)]
    t = Tiles([list(r) for r in rs], list(ns))
    size = int(np.prod(ns))
    out = []
    for nm in 'xy':
        x = ctx.pack([ctx.real('%s%d' % (nm, i), rs[i][0], rs[i][1]) for i in range(d)], (d,), 'f')
        ctx.assume(LAND(*[x[i] < rs[i][1] for i in range(d)]))
        i, c = t(x), cells(x, rs, ns)
        ctx.check(i is not None and 0 <= int(i) < size, 'one tile inside the range')
        out.append((int(i), c))
    (i, c), (j, e) = out
    ctx.check((i == j) == (c == e), 'two states share a tile exactly when they lie in the same cell')


@scenario('P28', 'the floating point numbers next to both ends of the ranges', quick=[{}])
def tiles_ends(ctx):
    r = ctx.pick('range', RANGES + [[-1.2, .5], [-.07, .07], [.1, .7], [-1. / 3, 1.], [0., 1e-3]])
    n = ctx.pick('n', [1, 2, 3, 7, 10])
    up = ctx.bool('up')
    x = np.nextafter(r[1], -np.inf) if bool(up) else r[0]
    i = Tiles([list(r)], [n])(np.array([x]))
    ctx.check(i is not None and int(i) == (n - 1 if bool(up) else 0), 'the ends of the range belong to the first and the last tile')


@scenario('P28', '1, 2 or 4 tilings of 1-2 dimensions; two arbitrary states of the declared range', max_paths=6000, budget=120,
          quick=[dict(n=1, ns=[3], uniform=False), dict(n=2, ns=[2], uniform=True), dict(n=4, ns=[2], uniform=False), dict(n=2, ns=[2, 2], uniform=False),
                 dict(n=2, ns=[2, 1], uniform=True)],
          thorough=[dict(n=4, ns=[3], uniform=True), dict(n=4, ns=[1, 2], uniform=False)])
def tilings(ctx, n, ns, uniform):
    d = len(ns)
    be = (n - 1) / n
    # exact ranges: the width of a tile is a power of two
    k = ctx.pick('range', [0, 1])
    width = [[1., 2.][k], [.5, 1.][k]][:d]
    low = [[-1., 3.][k], [0., -2.][k]][:d]
    high = [low[i] + width[i] * (ns[i] - be) for i in range(d)]
    ts = Tiles.generate(n, list(ns), np.array(low), np.array(high), uniform=uniform)
    ctx.check(len(ts) == n, 'number of tilings')
    phi = Features(tilings=ts)
    size = int(np.prod(ns))
    ctx.check(phi.size == n * size, 'one feature per tile of each tiling')
    act = []
    pts = []
    for nm in 'xy':
        x = ctx.pack([ctx.real('%s%d' % (nm, i), low[i], high[i]) for i in range(d)], (d,), 'f')
        ctx.assume(LAND(*[x[i] < high[i] for i in range(d)]))
        f = phi(x)
        idx = phi.compute_indexes(x)
        ctx.check(tuple(f.shape) == (phi.size,), 'features of one state are a vector')
        ctx.check(len(idx) == n, 'each tiling covers the declared range: one active tile per tiling')
        on = set(int(v) for v in idx)
        for t in range(n):
            ctx.check(sum(1 for v in on if t * size <= v < (t + 1) * size) == 1, 'each tiling has exactly one active tile')
        for i in range(phi.size):
            ctx.eq(f[i], 1. if i in on else 0., 'the active tiles are one, the others zero')
        act.append(on)
        pts.append(x)
    x, y = pts
    # the displacement of the tilings resolves the states to a fraction of a tile
    for i in range(d):
        far = abs(x[i] - y[i]) * n >= width[i]
        ctx.implies(far, act[0] != act[1], 'states further apart than the displacement of the tilings are told apart')
    if act[0] == act[1]:
        for i in range(d):
            ctx.lt(abs(x[i] - y[i]), width[i], 'states that share all tiles are less than a tile apart')


@scenario('P28', 'batches of two states, two tilings', quick=[{}], max_paths=4000)
def tiles_batch(ctx):
    ts = [Tiles([[0., 1.]], [2], [0]), Tiles([[0., 2.]], [1], [1])]
    phi = Features(tilings=ts)
    x = ctx.array('x', (2, 2), -1, 3)
    f = phi(x)
    idx = phi.compute_indexes(x)
    ctx.check(tuple(f.shape) == (2, 3), 'a row of features per state')
    for k in range(2):
        one = phi(x[k])
        parts = phi(x[k, :1], x[k, 1:])
        on = [int(v) for v in idx[k]]
        c0, c1 = cell(x[k, 0], [0., 1.], 2), cell(x[k, 1], [0., 2.], 1)
        want = ([] if c0 is None else [c0]) + ([] if c1 is None else [2])
        ctx.check(on == want, 'indexes of the active tiles, tilings in order')
        for i in range(3):
            ctx.eq(f[k, i], 1. if i in want else 0., 'row of each state')
            ctx.eq(one[i], f[k, i], 'same features for a single state')
            ctx.eq(parts[i], f[k, i], 'arguments are concatenated')


@scenario('P28', '3 prototypes in 1-2 dimensions (arbitrary in one), arbitrary states', quick=[dict(d=1), dict(d=2)], tol=1e-6)
def voronoi(ctx, d):
    n = 3
    protos = ctx.array('m', (n, d), -2, 2) if d == 1 else np.array(ctx.pick('m', [[[0., 0.], [1., 0.], [0., 2.]], [[1., 1.], [-1., -1.], [1., -1.]]]))
    x = ctx.array('x', (d,), -3, 3)
    t = VoronoiTiles(protos)
    ctx.check(t.size == n, 'one tile per prototype')
    i = int(t(x))
    dist = [asum([(protos[k, j] - x[j]) * (protos[k, j] - x[j]) for j in range(d)]) for k in range(n)]
    for k in range(n):
        ctx.le(dist[i], dist[k] + 1e-9, 'the tile of the nearest prototype')


@scenario('P28', '2 tilings of 2 prototypes drawn uniformly', quick=[{}])
def voronoi_generate(ctx):
    lo, hi = [-1., 2.], [1., 3.]
    ts = VoronoiTiles.generate(2, 2, low=np.array(lo), high=np.array(hi))
    phi = Features(tilings=ts)
    ctx.check(len(ts) == 2 and phi.size == 4, 'tilings and tiles')
    x = ctx.array('x', (2,), -3, 3)
    f = phi(x)
    for t in range(2):
        ctx.eq(f[2 * t] + f[2 * t + 1], 1., 'each tiling has exactly one active tile')


@scenario('P28', '1-3 variables, degree 0-3, arbitrary states, arbitrary box or none', tol=1e-5,
          quick=[dict(n=1, deg=3, box=False), dict(n=2, deg=2, box=True), dict(n=3, deg=2, box=False), dict(n=2, deg=3, box=False), dict(n=2, deg=0, box=True),
                 dict(n=4, deg=2, box=False)],
          thorough=[dict(n=3, deg=3, box=False), dict(n=3, deg=2, box=True), dict(n=4, deg=3, box=False), dict(n=2, deg=5, box=False)])
def polynomial(ctx, n, deg, box):
    low = high = None
    if box:
        lo = [ctx.pick('lo%d' % i, [-1., 0.]) for i in range(n)]
        hi = [ctx.pick('hi%d' % i, [1., 4.]) for i in range(n)]
        low, high = np.array(lo), np.array(hi)
    basis = PolynomialBasis.generate(deg, n, low, high)
    phi = Features(basis_list=basis)
    monos = [e for e in itertools.product(range(deg + 1), repeat=n) if sum(e) <= deg]
    ctx.check(phi.size == len(monos) == math.comb(n + deg, deg), 'one feature per monomial up to the degree')
    norm = (lambda x: [(x[i] - (lo[i] + hi[i]) / 2) / ((hi[i] - lo[i]) / 2) for i in range(n)]) if box else (lambda x: [x[i] for i in range(n)])

    def value(e, z):
        v = 1.
        for i in range(n):
            for _ in range(e[i]):
                v = v * z[i]
        return v
    # match features and monomials at a point that tells all monomials apart
    z0 = [2., 3., 5., 7.][:n]
    x0 = np.array([z0[i] * (hi[i] - lo[i]) / 2 + (lo[i] + hi[i]) / 2 for i in range(n)] if box else z0)
    at = [float(v) for v in phi(x0)]
    match = [min(range(len(monos)), key=lambda k: abs(value(monos[k], z0) - at[i])) for i in range(len(at))]
    ctx.check(sorted(match) == list(range(len(monos))), 'every monomial appears exactly once')
    x = ctx.array('x', (n,), -2, 2)
    f = phi(x)
    z = norm(x)
    for i in range(len(monos)):
        ctx.eq(f[i], value(monos[match[i]], z), 'each feature is its monomial (of the normalized state)')


@scenario('P28', '1-2 dimensions, 1-3 centers each, arbitrary bounds, with and without wrap-around', quick=[dict(ns=[1]), dict(ns=[3]), dict(ns=[2, 3]), dict(ns=[1, 2])],
          thorough=[dict(ns=[2, 2, 2]), dict(ns=[4, 3])], tol=1e-6)
def grid(ctx, ns):
    d = len(ns)
    lo = ctx.array('lo', (d,), -2, 0)
    hi = ctx.array('hi', (d,), 1, 3)
    cyc = ctx.pick('cyclic', [False, True])
    g, w = uniform_grid(list(ns), lo, hi, .25, cyc)
    ctx.check(tuple(g.shape) == (int(np.prod(ns)), d) and tuple(w.shape) == (d,), 'all combinations of centers')
    coords = []
    for i, n in enumerate(ns):
        L = hi[i] - lo[i]
        if n == 1:
            coords.append([(lo[i] + hi[i]) / 2])
            ctx.eq(w[i], L / 2, 'width of a single center')
        else:
            step = L / n if cyc else L / (n - 1)
            coords.append([lo[i] + k * step for k in range(n)])
            ctx.eq(w[i], 1.25 * (L - L / n if cyc else L) / n, 'width of the centers')
    # first coordinate varies fastest
    for r, combo in enumerate(itertools.product(*[range(n) for n in ns[::-1]])):
        for i in range(d):
            ctx.eq(g[r, i], coords[i][combo[d - 1 - i]], 'centers on the uniform grid, each combination once')


@scenario('P28', '1-2 dimensions, arbitrary centers, scales and states; batches of two', quick=[dict(d=1), dict(d=2), dict(d=1, dims=[1])], thorough=[dict(d=2, dims=[2, 0])], tol=1e-6)
def rbf(ctx, d, dims=None):
    mu = ctx.array('mu', (2, d), -1, 1)
    s = ctx.array('s', (d,), .5, 2) if d == 1 else np.array([.5, 2.])
    phi = Features(basis_list=[GaussianRBF(mu[0], s, dims), GaussianRBF(mu[1], s, dims)])
    full = d if dims is None else 3
    x = ctx.array('x', (2, full), -1, 1)
    f = phi(x)
    ctx.check(phi.size == 2 and tuple(f.shape) == (2, 2), 'a row of features per state')
    for k in range(2):
        one = phi(x[k])
        z = [x[k, i] for i in (range(d) if dims is None else dims)]
        for b in range(2):
            e = asum([(z[i] - mu[b, i]) * (z[i] - mu[b, i]) / s[i] for i in range(d)])
            ctx.eq(f[k, b], np.exp(-e), 'Gaussian of the scaled distance to the center')
            ctx.eq(one[b], f[k, b], 'same features for a single state')


@scenario('P28', '1-3 centers in 1-2 dimensions, bounds from a list, arbitrary states', quick=[dict(ns=[1]), dict(ns=[3]), dict(ns=[2, 2]), dict(ns=[2], dims=[1])], tol=1e-6)
def rbf_generate(ctx, ns, dims=None):
    d = len(ns)
    lo = [ctx.pick('lo%d' % i, [-3., 3.]) for i in range(d)]
    hi = [9.] * d
    phi = Features(basis_list=GaussianRBF.generate(ns, np.array(lo), np.array(hi), dims, eta=.5))
    ctx.check(phi.size == int(np.prod(ns)), 'one feature per center')
    x = ctx.array('x', (d if dims is None else 2,), -1, 1)
    f = phi(x)
    z = [x[i] for i in (range(d) if dims is None else dims)]
    cs, ws = [], []
    for i, n in enumerate(ns):
        L = hi[i] - lo[i]
        cs.append([lo[i] + L / 2] if n == 1 else [lo[i] + k * L / (n - 1) for k in range(n)])
        ws.append(L / 2 if n == 1 else 1.5 * L / n)
    for r, combo in enumerate(itertools.product(*[range(n) for n in ns[::-1]])):
        e = asum([(z[i] - cs[i][combo[d - 1 - i]]) ** 2 / (2 * (ws[i] / 3) ** 2) for i in range(d)])
        ctx.eq(f[r], np.exp(-e), 'Gaussian around each point of the grid, a third of the overlapping width wide')


@scenario('P28', '1-2 inputs, 1-3 features drawn at random, with and without a constant; batches of two arbitrary states', tol=1e-3,
          quick=[dict(d=1, n=2, bias=True), dict(d=2, n=1, bias=False), dict(d=2, n=3, bias=True)])
def random_fourier(ctx, d, n, bias):
    nu = 2.
    ts = RandomFourierBasis.generate(nu, n, d, use_bias=bias)
    phi = Features(tensor_list=ts)
    ctx.check(phi.size == n, 'as many features as asked for')
    x = ctx.array('x', (2, d), -2, 2)
    f = phi(x)
    ctx.check(tuple(f.shape) == (2, n), 'a row of features per state')
    if bias:
        ctx.eqs([(f[i, n - 1], 1.) for i in range(2)], 'the last feature is constant')
    P = ctx.array('P', (d, 2), -1, 1)
    b = ctx.array('b', (2,), -1, 1)
    t = RandomFourierBasis(P, b, nu)
    ctx.check(int(t.size) == 2, 'number of features')
    y = t(ctx.to_tensor(x, torch.float32))
    for i in range(2):
        for j in range(2):
            ctx.eq(y[i, j], np.sin(asum([x[i, k] * P[k, j] for k in range(d)]) / nu + b[j]), 'sine of the scaled projection plus phase')


@scenario('P28', 'frequencies 0..2 in 1-2 dimensions, arbitrary bounds and states', quick=[dict(d=1, n=2), dict(d=2, n=1), dict(d=1, n=1, dims=[1])], tol=1e-6)
def fourier(ctx, d, n, dims=None):
    lo = ctx.array('lo', (d,), -2, 0)
    hi = ctx.array('hi', (d,), 1, 3)
    phi = Features(basis_list=FourierBasis.generate(lo, hi, n, dims))
    freqs = list(itertools.product(range(n + 1), repeat=d))
    ctx.check(phi.size == len(freqs), 'one feature per frequency')
    x = ctx.array('x', (d if dims is None else 2,), -1, 1)
    f = phi(x)
    z = [x[i] for i in (range(d) if dims is None else dims)]
    for i, c in enumerate(freqs):
        c = c[::-1]
        ctx.eq(f[i], np.cos(np.pi * asum([(z[j] - lo[j]) / (hi[j] - lo[j]) * c[j] for j in range(d)])), 'cosine of the frequency')


@scenario('P28', '2-3 actions, 1-2 state features, single and batches of two', quick=[dict(n=2, k=1), dict(n=3, k=2)])
def action_features(ctx, n, k):
    s = ctx.array('s', (2, k), -2, 2)
    a = [int(ctx.int('a%d' % i, 0, n - 1)) for i in range(2)]
    one = get_action_features(s[0], np.array([a[0]]), n)
    both = get_action_features(s, np.array([[a[0]], [a[1]]]), n)
    ctx.check(tuple(one.shape) == (n * k,) and tuple(both.shape) == (2, n * k), 'a block of state features per action')
    for b in range(n):
        for j in range(k):
            ctx.eq(one[b * k + j], s[0, j] if b == a[0] else 0., 'the block of the action taken')
            for i in range(2):
                ctx.eq(both[i, b * k + j], s[i, j] if b == a[i] else 0., 'the block of the action taken')


@scenario('P28', 'arbitrary states', quick=[{}])
def functional(ctx):
    x = ctx.array('x', (2,), -2, 2)
    f = Features(n_outputs=2)
    for i in range(2):
        ctx.eq(f(x)[i], x[i], 'identity without a function')
        ctx.eq(f(x[:1], x[1:])[i], x[i], 'arguments are concatenated')
    g = Features(n_outputs=1, function=lambda z: z[:1] + 2 * z[1:])
    ctx.check(g.size == 1 and f.size == 2, 'declared size')
    ctx.eq(g(x)[0], x[0] + 2 * x[1], 'the given function')
    for kw in (dict(), dict(basis_list=[], n_outputs=1)):
        try:
            Features(**kw)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, 'exactly one kind of features')


@scenario('P28', '1-3 centers in 1-2 dimensions, arbitrary states, batches of 1-2', tol=1e-3,
          quick=[dict(kind=k, d=d, n=n, m=m, norm=q) for k, d, n, m, q in (('rbf', 1, 2, 2, False), ('rbf', 2, 1, 1, False), ('rbf', 1, 2, 1, True), ('vm', 1, 1, 2, False), ('vm', 1, 2, 1, False), ('vm', 2, 1, 1, False),
                                                                          ('rbf', 1, 3, 1, True), ('rbf', 1, 1, 2, False), ('rbf', 1, 1, 1, False), ('rbf', 1, 1, 2, True))])
def tensor_basis(ctx, kind, d, n, m, norm):
    # bounds for which the scales are exact numbers
    L = {1: 3., 2: 2., 3: 3.}[n] if kind == 'rbf' else 2.
    lo, hi = np.array([-1.] * d), np.array([L - 1.] * d)
    cls = GaussianRBFTensor if kind == 'rbf' else VonMisesBFTensor
    ts = cls.generate([n] * d, lo, hi, eta=.5, normalized=norm)
    phi = Features(tensor_list=ts + [ConstantTensor()])
    N = n ** d
    ctx.check(phi.size == N + 1, 'one feature per center')
    x = ctx.array('x', (m, d), -1, 1)
    f = phi(x)
    ctx.check(tuple(f.shape) == ((m, N + 1) if m > 1 else (N + 1,)), 'a row of features per state')
    mu, w = uniform_grid([n] * d, lo, hi, .5, kind == 'vm')
    for k in range(m):
        row = f[k] if m > 1 else f
        raw = []
        for b in range(N):
            if kind == 'rbf':
                raw.append(np.exp(-asum([(x[k, i] - mu[b, i]) * (x[k, i] - mu[b, i]) / (2 * (w[i] / 3) * (w[i] / 3)) for i in range(d)])))
            else:
                raw.append(np.exp(asum([np.cos(2 * np.pi * (x[k, i] - mu[b, i])) / w[i] for i in range(d)]) - asum([1 / w[i] for i in range(d)])))
        for b in range(N):
            if norm:
                ctx.eq(row[b], raw[b] / asum(raw), 'radial basis value as a share of the total')
            else:
                ctx.eq(row[b], raw[b], 'radial basis value')
        ctx.eq(row[N], 1., 'constant feature')


@scenario('P28', '1-2 states, 1-2 tensors of one feature each', tol=1e-4, quick=[dict(m=1, n=1), dict(m=2, n=1), dict(m=1, n=2), dict(m=2, n=2)])
def tensor_shapes(ctx, m, n):
    class Pick(object):
        size = 1

        def __init__(self, i):
            self.i = i

        def forward(self, x):
            return x[:, self.i:self.i + 1]

        __call__ = forward
    phi = Features(tensor_list=[Pick(i) for i in range(n)])
    x = ctx.array('x', (m, 2), -1, 1)
    f = phi(x)
    ctx.check(tuple(f.shape) == ((m, n) if m > 1 else (n,)), 'a row of features per state')
    for k in range(m):
        for i in range(n):
            ctx.eq(f[k, i] if m > 1 else f[i], x[k, i], 'features of the tensors in order')
