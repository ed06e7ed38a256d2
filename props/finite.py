"""Finite environments: FiniteMDP, its generators, the grid worlds."""
import os
import tempfile
from props.common import *
from mushroom_rl.environments import FiniteMDP, GridWorld, GridWorldVanHasselt
from mushroom_rl.environments.generators import generate_simple_chain, generate_grid_world, generate_taxi

DIRS = [(-1, 0), (1, 0), (0, -1), (0, 1)]


def simplex(ctx, name, n):
    """n arbitrary probabilities"""
    v = [ctx.real('%s%d' % (name, i), 0, 1) for i in range(n - 1)]
    rest = 1 - asum(v)
    ctx.assume(rest >= 0)
    return v + [rest]


def law(ctx, dist, n, key):
    """probability of each of the n outcomes of a distribution"""
    p = [0.0] * n
    for w, v in dist:
        i = int(key(v))
        p[i] = p[i] + w
    return p


def mdp(ctx, nS, nA, absorbing, mu=False, dead=()):
    p = []
    for s in range(nS):
        for a in range(nA):
            p += [0.0] * nS if s in absorbing or (s, a) in dead else simplex(ctx, 'p%d%d_' % (s, a), nS)
    P = ctx.pack(p, (nS, nA, nS), 'f')
    R = ctx.array('r', (nS, nA, nS), -4, 4)
    m = simplex(ctx, 'mu', nS) if mu else None
    M = ctx.pack(list(m), (nS,), 'f') if mu else None
    return P, R, M, m


@scenario('P23', '2-3 states, 2 actions; arbitrary transition probabilities, rewards, initial distribution, state and action',
          quick=[dict(nS=2, mu=True, absorbing=()), dict(nS=2, mu=False, absorbing=(1,)), dict(nS=3, mu=True, absorbing=(1,)),
                 dict(nS=3, mu=False, absorbing=(2,), dead=((1, 0),))],
          thorough=[dict(nS=3, mu=False, absorbing=(0, 2)), dict(nS=4, mu=True, absorbing=(3,))])
def finite_mdp(ctx, nS, mu, absorbing, dead=()):
    nA = 2
    P, R, M, m = mdp(ctx, nS, nA, absorbing, mu, dead)
    env = FiniteMDP(P, R, M, gamma=.9, horizon=7)
    ctx.check(env.info.size == (nS, nA) and env.info.gamma == .9 and env.info.horizon == 7, 'spaces, discount and horizon')
    start = law(ctx, ctx.distribution(lambda: env.reset()[0][0]), nS, lambda v: v)
    for i in range(nS):
        ctx.eq(start[i], m[i] if mu else 1 / nS, 'initial states follow the initial distribution (uniform by default)')
    s, a = ctx.int('s', 0, nS - 1), ctx.int('a', 0, nA - 1)
    si, ai = int(s), int(a)
    if si in absorbing or (si, ai) in dead:
        return

    def step():
        st, _ = env.reset(np.array([si]))
        ctx.check(int(st[0]) == si, 'the environment starts in the given state')
        n, r, ab, info = env.step(np.array([ai]))
        ctx.check(tuple(n.shape) == (1,), 'a state is an array with one index')
        ni = int(n[0])
        ctx.eq(r, R[si, ai, ni], 'reward of the transition that happened')
        ctx.check(bool(ab) == (ni in absorbing), 'absorbing exactly in the states without outgoing transitions')
        if ni not in absorbing and (ni, ai) not in dead:
            n2, r2, _, _ = env.step(np.array([ai]))
            ctx.eq(r2, R[ni, ai, int(n2[0])], 'the next step continues from the state reached')
        return ni
    p = law(ctx, ctx.distribution(step), nS, lambda v: v)
    for j in range(nS):
        ctx.eq(p[j], P[si, ai, j], 'next states follow the transition probabilities')


@scenario('P23', 'chains of 2-5 states, arbitrary success probability and reward; every state and action',
          quick=[dict(n=2, goals=(0,)), dict(n=3, goals=(1,)), dict(n=5, goals=(0, 4)), dict(n=4, goals=(1, 2))])
def chain(ctx, n, goals):
    q, rew = ctx.real('q', 0, 1), ctx.real('rew', -4, 4)
    env = generate_simple_chain(n, list(goals), q, rew, gamma=.8, horizon=9)
    ctx.check(env.info.gamma == .8 and env.info.horizon == 9 and env.info.size == (n, 2), 'spaces, discount and horizon')
    for s in range(n):
        for a in range(2):
            to = min(max(s + (1, -1)[a], 0), n - 1)
            for j in range(n):
                e = (1.0 if j == s else 0.0) if to == s else (q if j == to else (1 - q if j == s else 0.0))
                ctx.eq(env.p[s, a, j], e, 'move in the chosen direction with the given probability, stay otherwise and at the ends')
                ctx.eq(env.r[s, a, j], rew if j in goals and j == to and to != s else 0.0, 'reward exactly when a goal is entered')


class Grid:
    def __init__(self, rows):
        self.rows = rows
        self.cells = [(i, j) for i, r in enumerate(rows) for j, c in enumerate(r) if c != '#']

    def file(self, f):
        d = tempfile.mkdtemp()
        p = os.path.join(d, 'grid.txt')
        try:
            with open(p, 'w') as h:
                h.write('\n'.join(self.rows) + '\n')
            return f(p)
        finally:
            if os.path.exists(p):
                os.remove(p)
            os.rmdir(d)

    def at(self, c):
        i, j = c
        return self.rows[i][j] if 0 <= i < len(self.rows) and 0 <= j < len(self.rows[i]) else '#'

    def move(self, c, d):
        t = (c[0] + DIRS[d][0], c[1] + DIRS[d][1])
        return t if self.at(t) != '#' else c


def layout(ctx, rows):
    """'?' cells are arbitrary"""
    return Grid([''.join(ctx.pick('cell%d%d' % (i, j), '#.SG*') if c == '?' else c for j, c in enumerate(r)) for i, r in enumerate(rows)])


@scenario('P23', 'grids up to 3x3 with two cells of arbitrary kind (wall, free, start, goal, trap); arbitrary success probability and '
          'rewards; every state and action', quick=[dict(rows=r) for r in (('S?', '?G'), ('S.?', '#?G'), ('?S.', '.G?', '*S#'))],
          thorough=[dict(rows=('S?.', '.#?', '*?G'))])
def grid(ctx, rows):
    g = layout(ctx, rows)
    q, pos, neg = ctx.real('q', 0, 1), ctx.real('pos', -4, 4), ctx.real('neg', -4, 4)
    env = g.file(lambda p: generate_grid_world(p, q, pos, neg, gamma=.8, horizon=11))
    n = len(g.cells)
    ctx.check(env.info.size == (n, 4) and env.info.gamma == .8 and env.info.horizon == 11, 'one state per free cell, four actions')
    starts = [c for c in g.cells if g.at(c) == 'S']
    pairs, rs = [], []
    for s, c in enumerate(g.cells):
        ctx.eq(env.mu[s], 1 / len(starts) if c in starts else 0.0, 'uniform initial distribution over the start cells')
        for a in range(4):
            to = g.move(c, a)
            for j, d in enumerate(g.cells):
                if g.at(c) in 'G*':
                    e = 0.0
                elif to == c:
                    e = 1.0 if d == c else 0.0
                else:
                    e = q if d == to else (1 - q if d == c else 0.0)
                pairs.append((env.p[s, a, j], e))
                if g.at(c) not in 'G*':
                    rs.append((env.r[s, a, j], {'G': pos, '*': neg}.get(g.at(d), 0.0) if d == to and to != c else 0.0))
    ctx.eqs(pairs, 'moves with the given probability, blocked by walls and borders; goals and traps end the episode')
    ctx.eqs(rs, 'reward exactly when a goal or trap is entered')


@scenario('P23', 'taxi grids with 1-2 passengers; arbitrary success probability and rewards; every state and action',
          quick=[dict(rows=r) for r in (('SFG',), ('S.G', 'F#F'), ('SF', '.G', '.F'))], thorough=[dict(rows=('SF.', '.#F', 'G.F'))])
def taxi(ctx, rows):
    g = Grid(list(rows))
    fs = [c for c in g.cells if g.at(c) == 'F']
    k, n = len(fs), len(g.cells)
    q = ctx.real('q', 0, 1)
    rew = [ctx.real('rew%d' % i, -4, 4) for i in range(k + 1)]
    env = g.file(lambda p: generate_taxi(p, prob=q, rew=tuple(rew), gamma=.8, horizon=11))
    ctx.check(env.info.size == (n * 2 ** k, 4) and env.info.gamma == .8 and env.info.horizon == 11, 'one state per cell and set of passengers')

    def idx(c, on):
        return sum(2 ** (k - 1 - f) for f in range(k) if on[f]) * n + g.cells.index(c)

    def arrive(c, on):
        return idx(c, tuple(o or fs[f] == c for f, o in enumerate(on)))
    pairs, rs = [], []
    for b in range(2 ** k):
        on = tuple((b >> (k - 1 - f)) & 1 for f in range(k))
        for c in g.cells:
            s = idx(c, on)
            ctx.eq(env.mu[s], 1 / sum(g.at(x) == 'S' for x in g.cells) if g.at(c) == 'S' and not any(on) else 0.0, 'starts at a start cell without passengers')
            for a in range(4):
                e = [0.0] * (n * 2 ** k)
                if g.at(c) != 'G' and not (c in fs and not on[fs.index(c)]):
                    to = arrive(g.move(c, a), on)
                    e[to] = e[to] + q
                    for d in ((2, 3), (0, 1))[a // 2]:
                        t = arrive(g.move(c, d), on)
                        e[t] = e[t] + (1 - q) / 2
                pairs += [(env.p[s, a, j], e[j]) for j in range(len(e))]
                if g.at(c) != 'G':
                    t = g.move(c, a)
                    if g.at(t) == 'G':
                        rs.append((env.r[s, a, idx(t, on)], rew[sum(on)]))
                    rs += [(env.r[s, a, j], 0.0) for j in range(len(e)) if g.at(g.cells[j % n]) != 'G']
    ctx.eqs(pairs, 'moves as chosen with the given probability, else sideways; passengers are picked up on arrival; the goal ends the episode')
    ctx.eqs(rs, 'reward at the goal according to the passengers collected')


GB = 'grids of up to 3x4 cells; arbitrary goal, start, state and action'


@scenario('P23', GB, quick=[dict(h=2, w=2), dict(h=3, w=2), dict(h=2, w=4)], thorough=[dict(h=3, w=4)])
def grid_world(ctx, h, w):
    goal = (int(ctx.int('gi', 0, h - 1)), int(ctx.int('gj', 0, w - 1)))
    start = (0, 1) if goal == (0, 0) else (0, 0)
    env = GridWorld(h, w, goal=goal, start=start)
    ctx.check(env.info.size == (h * w, 4), 'one state per cell, four actions')
    st, _ = env.reset()
    ctx.eq(st, np.array([start[0] * w + start[1]]), 'the episode starts in the start cell')
    s, a = ctx.int('s', 0, h * w - 1), ctx.int('a', 0, 3)
    given = ctx.arr([s], 'i')
    env.reset(given)
    n, r, ab, _ = env.step(ctx.arr([a], 'i'))
    ctx.eq(given[0], s, 'the state given to reset is not modified')
    i, j = divmod(int(s), w)
    t = (min(max(i + DIRS[int(a)][0], 0), h - 1), min(max(j + DIRS[int(a)][1], 0), w - 1))
    ctx.eq(n, np.array([t[0] * w + t[1]]), 'one cell in the chosen direction, borders block')
    ctx.check(bool(ab) == (t == goal), 'the episode ends exactly at the goal')
    ctx.eq(r, 10 if t == goal else 0, 'reward at the goal')
    n2, r2, ab2, _ = env.step(ctx.arr([0], 'i'))
    t2 = (max(t[0] - 1, 0), t[1])
    ctx.eq(n2, np.array([t2[0] * w + t2[1]]), 'the next step continues from the cell reached')


@scenario('P23', GB, quick=[dict(h=3, w=3), dict(h=2, w=3)])
def van_hasselt(ctx, h, w):
    goal, start = (0, w - 1), (h - 1, 0)
    env = GridWorldVanHasselt(h, w, goal=goal, start=start)
    s, a = int(ctx.int('s', 0, h * w - 1)), int(ctx.int('a', 0, 3))
    st, _ = env.reset()
    ctx.eq(st, np.array([start[0] * w + start[1]]), 'the episode starts in the start cell')

    def step():
        env.reset(np.array([s]))
        n, r, ab, _ = env.step(np.array([a]))
        return int(n[0]), int(r), bool(ab)
    d = ctx.distribution(step)
    i, j = divmod(s, w)
    t = (min(max(i + DIRS[a][0], 0), h - 1), min(max(j + DIRS[a][1], 0), w - 1))
    if (i, j) == goal:
        want = {(s, 5, True): 1.0}
    else:
        want = {(t[0] * w + t[1], -12, False): .5, (t[0] * w + t[1], 10, False): .5}
    got = {}
    for p, o in d:
        got[o] = got.get(o, 0.0) + p
    ctx.check(set(got) == set(want), 'outcomes of a step: reward 5 and the end in the goal, otherwise a move with reward -12 or 10')
    for o in want:
        ctx.eq(got.get(o, 0.0), want[o], 'both random rewards are equally likely')


@scenario('P23', 'every environment and generator with its documented default discount and horizon', quick=[{}])
def defaults(ctx):
    g = Grid(['S.', '.G'])
    envs = dict(grid=(GridWorld(2, 2, goal=(1, 1)), .9, 100), hasselt=(GridWorldVanHasselt(), .95, np.inf),
                finite=(FiniteMDP(np.ones((1, 1, 1)), np.zeros((1, 1, 1))), .9, np.inf),
                chain=(generate_simple_chain(3, [2], .5, 1.), .9, 100),
                generated=(g.file(lambda p: generate_grid_world(p, .5, 1., 0.)), .9, 100),
                taxi=(Grid(['SFF', 'F.G']).file(generate_taxi), .99, np.inf))
    for k, (e, gamma, horizon) in envs.items():
        ctx.check(e.info.gamma == gamma and e.info.horizon == horizon, 'discount and horizon of ' + k)


@scenario('P23', 'one cell of every other kind in a 2x2 grid', quick=[dict(taxi=t) for t in (False, True)])
def unknown_cells(ctx, taxi):
    """a grid file with a cell that means nothing is refused"""
    c = ctx.pick('c', list(' xs0*' if taxi else ' xs0F'))
    row = ctx.pick('row', [0, 1, 2])
    f = 'F' if taxi else '.'
    g = Grid([['S' + c + f, '..G'], ['S.' + f, c + '.G'], ['S.' + f + c, '..G']][row])
    try:
        g.file(lambda p: generate_taxi(p, rew=(0, 1)) if taxi else generate_grid_world(p, .5, 1., 0.))
        refused = False
    except Exception:
        refused = True
    ctx.check(refused, 'a cell of unknown kind is refused')
