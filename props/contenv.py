"""Continuous environments: equations of motion, bounds, rewards and terminal conditions; angle helpers."""
import sys
from contextlib import contextmanager
import scipy.integrate
from props.common import *
from mushroom_rl.environments.car_on_hill import CarOnHill
from mushroom_rl.environments.cart_pole import CartPole
from mushroom_rl.environments.inverted_pendulum import InvertedPendulum
from mushroom_rl.environments.puddle_world import PuddleWorld
from mushroom_rl.environments.segway import Segway
from mushroom_rl.environments.ship_steering import ShipSteering
from mushroom_rl.environments.lqr import LQR
from mushroom_rl.utils import angles
from mushroom_rl.solvers.car_on_hill import solve_car_on_hill

PI = np.pi


class Ode(object):
    """stand-in for scipy's integrator: remembers the initial value, the time span and the derivative at an arbitrary point, and
    returns an arbitrary trajectory"""

    def __init__(self, ctx, n, point, end):
        self.ctx, self.n, self.point, self.end = ctx, n, point, end
        self.calls = []

    def __call__(self, func, y0, t, args=(), tfirst=False, **kw):
        if not isinstance(args, tuple):
            args = (args,)
        y0 = [v for v in y0]
        at = list(self.point) + y0[self.n:]
        at = self.ctx.pack(at, (len(at),), 'f')
        d = func(t[0], at, *args) if tfirst else func(at, t[0], *args)
        d = [v for v in d]
        self.calls.append((y0, t[-1] - t[0], d))
        rows = list(y0) * (len(t) - 1) + list(self.end) + y0[self.n:]
        return self.ctx.pack(rows, (len(t), len(y0)), 'f')


@contextmanager
def integrator(ode):
    real = scipy.integrate.odeint
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.startswith('mushroom_rl') or name.startswith('scipy.integrate')):
            continue
        for k, v in list(mod.__dict__.items()):
            if v is real:
                saved.append((mod, k))
                setattr(mod, k, ode)
    try:
        yield ode
    finally:
        for mod, k in saved:
            setattr(mod, k, real)


def scal(x):
    while hasattr(x, 'shape') and tuple(x.shape) != ():
        x = x[0]
    return x


def wrapped(ctx, w, a, turns, label):
    """w is the representative of the angle a in (-pi, pi]"""
    ctx.check(LAND(w >= -PI - 1e-9, w <= PI + 1e-9), label + ': in [-pi, pi]')
    ctx.check(LOR(*[abs(w - a + 2 * PI * k) <= 1e-6 for k in range(-turns, turns + 1)]), label + ': the same angle')


@scenario('P25', 'every angle within 3 turns', quick=[{}])
def angle_helpers(ctx):
    a, b = ctx.real('a', -18, 18), ctx.real('b', -18, 18)
    p = angles.normalize_angle_positive(a)
    ctx.check(LAND(p >= -1e-9, p <= 2 * PI + 1e-9), 'positive angle in [0, 2 pi)')
    ctx.check(LOR(*[abs(p - a + 2 * PI * k) <= 1e-6 for k in range(-4, 5)]), 'positive angle: the same angle')
    wrapped(ctx, angles.normalize_angle(a), a, 4, 'normalized angle')
    wrapped(ctx, angles.shortest_angular_distance(a, b), b - a, 7, 'shortest distance')


def probe(ctx, n, lim):
    return [ctx.real('at%d' % i, -l, l) for i, l in enumerate(lim)], [ctx.real('end%d' % i, -l, l) for i, l in enumerate(lim)]


def start(ctx, env, lim):
    s0 = [ctx.real('s%d' % i, -l, l) for i, l in enumerate(lim)]
    given = ctx.pack(list(s0), (len(s0),), 'f')
    st, info = env.reset(given)
    return s0, given, st


def motion(ctx, ode, y0, dt, ref):
    ctx.check(len(ode.calls) == 1, 'one integration per step')
    got0, span, d = ode.calls[0]
    for a, b in zip(got0, y0):
        ctx.eq(a, b, 'the motion starts in the current state')
    ctx.eq(span, dt, 'the motion lasts one time step')
    for a, b in zip(d, ref):
        if b is not None:
            ctx.eq(scal(a), b, 'equations of motion')
    for a in d[len(ref):]:
        ctx.eq(scal(a), 0.0, 'the action is constant during the step')


@scenario('P25', 'one step from an arbitrary state, arbitrary action and integration result; derivative at an arbitrary point',
          quick=[dict(a=0), dict(a=1)], tol=1e-6)
def car_on_hill(ctx, a):
    env = CarOnHill(horizon=12, gamma=.9)
    ctx.check(env.info.gamma == .9 and env.info.horizon == 12 and env.info.action_space.n == 2, 'spaces, discount and horizon')
    at, end = probe(ctx, 2, (2, 5))
    s0, given, st = start(ctx, env, (1, 3))
    with integrator(Ode(ctx, 2, at, end)) as ode:
        n, r, ab, _ = env.step(np.array([a]))
    p, v, u = at[0], at[1], (-4., 4.)[a]
    if bool(p < 0):
        h1, h2 = 2 * p + 1, 2.0
    else:
        q = 1 + 5 * p * p
        h1, h2 = 1 / q ** 1.5, -15 * p / q ** 2.5
    motion(ctx, ode, s0, .1, [v, (u - 9.81 * h1 - v * v * h1 * h2) / (1 + h1 * h1)])
    ctx.shape(n, (2,), 'state shape')
    ctx.eq(n[0], end[0], 'position reached')
    ctx.eq(n[1], end[1], 'velocity reached')
    lost = LOR(end[0] < -1, abs(end[1]) > 3)
    won = LAND(LNOT(lost), end[0] > 1)
    ctx.eq(r, ite(lost, -1.0, ite(won, 1.0, 0.0)), 'reward: -1 out of the track or too fast, 1 on top of the hill, else 0')
    ctx.check(bool(ab) == bool(LOR(lost, won)), 'absorbing exactly when lost or won')
    with integrator(Ode(ctx, 2, at, end)) as ode:
        env.step(np.array([a]))
    ctx.eq(ode.calls[0][0][0], end[0], 'the next step continues from the state reached')
    ctx.eq(ode.calls[0][0][1], end[1], 'the next step continues from the state reached')


def pole_force(m, M, l, g, th, om):
    """(a, c, den): d_omega = (a - c * force) / den"""
    al = 1 / (m + M)
    return (g * np.sin(th) - al * m * l * .5 * om * om * np.sin(2 * th) * .5, al * np.cos(th), 2 / 3 * l - al * m * l * .5 * np.cos(th) ** 2)


@scenario('P25', 'one step from an arbitrary state (angles within 2 turns), arbitrary masses, length, gravity, force and integration result; no noise',
          quick=[dict(a=0), dict(a=1), dict(a=2)], tol=1e-6)
def cart_pole(ctx, a):
    m, M, l, g = ctx.real('m', .5, 4), ctx.real('M', 1, 10), ctx.real('l', .25, 2), ctx.real('g', 1, 20)
    U = ctx.real('U', 0, 60)
    env = CartPole(m, M, l, g, .01, U, 0., horizon=12, gamma=.9)
    ctx.check(env.info.gamma == .9 and env.info.horizon == 12 and env.info.action_space.n == 3, 'spaces, discount and horizon')
    at, end = probe(ctx, 2, (4, 9))
    s0, given, st = start(ctx, env, (9, 9))
    wrapped(ctx, st[0], s0[0], 3, 'initial angle')
    ctx.eq(st[1], s0[1], 'initial velocity')
    ctx.eq(given[0], s0[0], 'the given initial state is not modified')
    y0 = [st[0], st[1]]
    with integrator(Ode(ctx, 2, at, end)) as ode:
        n, r, ab, _ = env.step(np.array([a]))
    f, c, den = pole_force(m, M, l, g, *at)
    motion(ctx, ode, y0, .1, [at[1], (f - c * (-U, 0., U)[a]) / den])
    wrapped(ctx, n[0], end[0], 2, 'angle reached')
    ctx.eq(n[1], end[1], 'velocity reached')
    fallen = abs(n[0]) > PI / 2
    ctx.eq(r, ite(fallen, -1.0, 0.0), 'reward -1 for falling, else 0')
    ctx.check(bool(ab) == bool(fallen), 'absorbing exactly when fallen')


@scenario('P25', 'default pole, arbitrary noise amplitude, random start, every action; derivative at four angles and an arbitrary velocity', quick=[{}], tol=1e-6,
          goals=('strong push', 'weak push'))
def cart_pole_noise(ctx):
    N = ctx.real('N', 0, 20)
    env = CartPole(noise_u=N)
    th, om = ctx.pick('th', [0., .5, -1., 2.]), ctx.real('om', -9, 9)
    a = ctx.pick('a', [0, 1, 2])
    st, _ = env.reset()
    ctx.check(LAND(abs(st[0]) <= PI / 8 + 1e-9, st[1] == 0), 'random start within pi/8 of the vertical, at rest')
    with integrator(Ode(ctx, 2, [th, om], [0.1, 0.])) as ode:
        env.step(np.array([a]))
    f, c, den = pole_force(2., 8., .5, 9.8, th, om)
    force = (f - ode.calls[0][2][1] * den) / c
    ctx.check(abs(force - (-50., 0., 50.)[a]) <= N + 1e-6, 'the force is the commanded one up to the noise')
    dev = force - (-50., 0., 50.)[a]
    if bool(dev > .9 * N + 1e-6):
        ctx.cover('strong push')
    elif bool(dev < -.9 * N - 1e-6):
        ctx.cover('weak push')


@scenario('P25', 'one step from an arbitrary state (angles within 2 turns), arbitrary parameters, action and integration result', quick=[{}],
          tol=1e-6)
def inverted_pendulum(ctx):
    m, l, g = ctx.real('m', .5, 4), ctx.real('l', .25, 2), ctx.real('g', 1, 20)
    U, mu = ctx.real('U', 1, 60), ctx.real('mu', 0, 1)
    env = InvertedPendulum(False, m, l, g, mu, U, horizon=12, gamma=.9)
    W = 2.5 * PI
    ctx.check(env.info.gamma == .9 and env.info.horizon == 12, 'discount and horizon')
    ctx.eq(env.info.action_space.high[0], U, 'action space')
    ctx.eq(env.info.action_space.low[0], -U, 'action space')
    st, _ = env.reset()
    ctx.eq(st[0], PI / 2, 'the pendulum starts horizontal')
    at, end = probe(ctx, 2, (4, 12))
    s0, given, st = start(ctx, env, (9, 12))
    wrapped(ctx, st[0], s0[0], 2, 'initial angle')
    ctx.eq(st[1], amax([-W, amin([s0[1], W])]), 'initial velocity is bounded')
    ctx.eq(given[0], s0[0], 'the given initial state is not modified')
    ctx.eq(given[1], s0[1], 'the given initial state is not modified')
    y0 = [st[0], st[1]]
    act = ctx.real('act', -90, 90)
    u = amax([-U, amin([act, U])])
    with integrator(Ode(ctx, 2, at, end)) as ode:
        n, r, ab, _ = env.step(ctx.pack([act], (1,), 'f'))
    om = amax([-W, amin([at[1], W])])
    motion(ctx, ode, y0, .01, [om, (-mu * om + m * g * l * np.sin(at[0]) + u) / (m * l * l)])
    wrapped(ctx, n[0], end[0], 2, 'angle reached')
    ctx.eq(n[1], amax([-W, amin([end[1], W])]), 'velocity is bounded')
    ctx.eq(r, np.cos(n[0]), 'reward is the cosine of the angle reached')
    ctx.check(not bool(ab), 'never absorbing')


@scenario('P25', 'one step from an arbitrary state (angles within 2 turns), arbitrary action and integration result', quick=[{}], tol=1e-5)
def segway(ctx):
    env = Segway()
    st, _ = env.reset()
    ctx.eq(st[0], -PI / 8, 'initial angle')
    at, end = probe(ctx, 3, (2, 15, 75))
    s0, given, st = start(ctx, env, (9, 15, 75))
    wrapped(ctx, st[0], s0[0], 2, 'initial angle')
    ctx.eq(given[0], s0[0], 'the given initial state is not modified')
    y0 = [st[0], st[1], st[2]]
    act = ctx.real('act', -9, 9)
    u = amax([-5., amin([act, 5.])])
    with integrator(Ode(ctx, 3, at, end)) as ode:
        n, r, ab, _ = env.step(ctx.pack([act], (1,), 'f'))
    Mr, Mp, Ip, Ir, l, R, g = .3 * 2, 2.55, 2.6e-2, 4.54e-4 * 2, 13.8e-2, 5.5e-2, 9.81
    s, c, w = np.sin(at[0]), np.cos(at[0]), at[1]
    h1, h2, h3 = (Mr + Mp) * R * R + Ir, Mp * R * l * c, l * l * Mp + Ip
    den = h1 * h3 - h2 * h2
    motion(ctx, ode, y0, .01, [w, -(h2 * l * Mp * R * s * w * w - g * h1 * l * Mp * s + (h2 + h1) * u) / den,
                               (h3 * l * Mp * R * s * w * w - g * h2 * l * Mp * s + (h3 + h2) * u) / den])
    wrapped(ctx, n[0], end[0], 2, 'angle reached')
    ctx.eq(n[1], end[1], 'velocities reached')
    ctx.eq(n[2], end[2], 'velocities reached')
    fallen = abs(n[0]) > PI / 2
    ctx.eq(r, ite(fallen, -10000., -(3 * n[0] * n[0] + .1 * n[1] * n[1] + .1 * n[2] * n[2])), 'quadratic cost, -10000 for falling')
    ctx.check(bool(ab) == bool(fallen), 'absorbing exactly when fallen')


@scenario('P25', 'random start; every action', quick=[{}])
def segway_space(ctx):
    env = Segway(random_start=True)
    lo, hi = env.info.observation_space.low, env.info.observation_space.high
    for i in range(3):
        ctx.check(bool(lo[i] < hi[i]), 'the lower limit of the observation space is below the upper one')
    st, _ = env.reset()
    for i in range(3):
        ctx.check(LAND(st[i] >= lo[i] - 1e-9, st[i] <= hi[i] + 1e-9), 'the initial state lies in the observation space')


@scenario('P25', 'dims 1-2; arbitrary matrices, state and action (inside and outside the bounds)',
          quick=[dict(n=1, m=1, epi=False), dict(n=1, m=1, epi=True), dict(n=2, m=1, epi=False), dict(n=2, m=1, epi=True)],
          thorough=[dict(n=2, m=2, epi=True), dict(n=2, m=2, epi=False)])
def lqr_env(ctx, n, m, epi):
    A, B = ctx.array('A', (n, n), -2, 2), ctx.array('B', (n, m), -2, 2)
    Q, R = ctx.array('Q', (n, n), -2, 2), ctx.array('R', (m, m), -2, 2)
    P, U = ctx.real('P', 1, 4), ctx.real('U', 1, 4)
    env = LQR(A, B, Q, R, max_pos=P, max_action=U, episodic=epi, gamma=.8, horizon=9)
    ctx.check(env.info.gamma == .8 and env.info.horizon == 9, 'discount and horizon')
    for i in range(n):
        ctx.eq(env.info.observation_space.high[i], P, 'observation space')
        ctx.eq(env.info.observation_space.low[i], -P, 'observation space')
    st, _ = env.reset()
    for i in range(n):
        ctx.eq(st[i], .9 * P, 'default start')
    x = ctx.array('x', (n,), -4, 4)
    x0 = [x[i] for i in range(n)]
    a = ctx.array('a', (m,), -6, 6)
    a0 = [a[i] for i in range(m)]
    env.reset(x)
    s, r, ab, _ = env.step(a)
    u = [amax([-U, amin([v, U])]) for v in a0]
    cost = asum([x0[i] * Q[i, j] * x0[j] for i in range(n) for j in range(n)]) + asum([u[i] * R[i, j] * u[j] for i in range(m) for j in range(m)])
    nx = [asum([A[i, j] * x0[j] for j in range(n)]) + asum([B[i, j] * u[j] for j in range(m)]) for i in range(n)]
    out = LOR(*[abs(v) > P for v in nx])
    for i in range(n):
        ctx.eq(x[i], x0[i], 'the given initial state is not modified')
        ctx.eq(s[i], nx[i] if epi else amax([-P, amin([nx[i], P])]), 'next state is A x + B u with the bounded action' + ('' if epi else ', bounded'))
    for i in range(m):
        ctx.eq(a[i], a0[i], 'the action is not modified')
    ctx.eq(r, ite(out, -P * P * 10, -cost) if epi else -cost, 'reward is minus the quadratic cost' + (', or the penalty outside the limits' if epi else ''))
    ctx.check(bool(ab) == (epi and bool(out)), 'absorbing exactly when an episodic task leaves its limits')


@scenario('P25', 'random and given initial states; generated matrices', quick=[{}])
def lqr_start(ctx):
    P = ctx.real('P', 1, 4)
    env = LQR.generate(dimensions=2, max_pos=P, random_init=True, eps=.25, index=1, scale=2., gamma=.8, horizon=9)
    ctx.check(env.info.gamma == .8 and env.info.horizon == 9, 'discount and horizon')
    st, _ = env.reset()
    for i in range(2):
        ctx.check(abs(st[i]) <= P, 'a random start respects the limits')
        for j in range(2):
            ctx.check(env.A[i, j] == float(i == j) and env.B[i, j] == float(i == j), 'generated dynamics: x + u')
            ctx.check(env.Q[i, j] == (0. if i != j else 1.5 if i == 1 else .5), 'generated state cost')
            ctx.check(env.R[i, j] == (0. if i != j else .5 if i == 1 else 1.5), 'generated action cost')
    x = ctx.array('x', (3,), -4, 4)
    env = LQR.generate(s_dim=3, a_dim=2, initial_state=x)
    ctx.check(tuple(env.info.observation_space.shape) == (3,) and tuple(env.info.action_space.shape) == (2,), 'generated sizes')
    st, _ = env.reset()
    a = ctx.array('a', (2,), -4, 4)
    x0 = [x[i] for i in range(3)]
    n, _, _, _ = env.step(a)
    for i in range(3):
        ctx.eq(n[i], x0[i] + (a[i] if i < 2 else 0.), 'motion from the configured start')
    st, _ = env.reset()
    for i in range(3):
        ctx.eq(st[i], x0[i], 'every episode starts in the configured state')


@scenario('P25', 'default and arbitrary layouts with one puddle; one step from an arbitrary state with arbitrary noise',
          quick=[dict(a=i, full=False) for i in range(5)] + [dict(a=2, full=True)], tol=1e-6, goals=('pushed up', 'pushed down'))
def puddle_world(ctx, a, full):
    kw = {}
    T, S, th = .05, .025, .1
    goal, cen, wid = [1., 1.], [[.3, .6], [.4, .5], [.8, .9]], [[.1, .03], [.03, .1], [.03, .1]]
    rg, nr = 0., 0
    if not full:
        T, S, th = ctx.real('T', 0, .5), ctx.real('S', 0, .25), ctx.real('th', 0, 1)
        goal = [ctx.real('g0', 0, 1), ctx.real('g1', 0, 1)]
        cen, wid = [[ctx.real('c0', 0, 1), ctx.real('c1', 0, 1)]], [[ctx.real('w0', .25, 1), ctx.real('w1', .25, 1)]]
        rg = ctx.real('rg', -1, 9)
        kw = dict(goal=ctx.pack(list(goal), (2,), 'f'), goal_threshold=th, noise_step=S, thrust=T, reward_goal=rg, puddle_center=cen, puddle_width=wid)
    env = PuddleWorld(gamma=.8, horizon=9, **kw)
    ctx.check(env.info.gamma == .8 and env.info.horizon == 9 and env.info.action_space.n == 5, 'spaces, discount and horizon')
    st, _ = env.reset()
    ctx.eq(st[0], .2, 'default start')
    ctx.eq(st[1], .4, 'default start')
    x = ctx.array('x', (2,), 0, 1)
    x0 = [x[0], x[1]]
    env.reset(x)
    n, r, ab, _ = env.step(np.array([a]))
    move = [(-T, 0.), (T, 0.), (0., -T), (0., T), (0., 0.)][a]
    for i in range(2):
        lo, hi = x0[i] + move[i] - S, x0[i] + move[i] + S
        ctx.check(LAND(n[i] >= amax([0., amin([lo, 1.])]) - 1e-9, n[i] <= amax([0., amin([hi, 1.])]) + 1e-9), 'thrust plus bounded noise, inside the unit square')
    if not full:
        if bool(n[0] > x0[0] + move[0] + .9 * S + 1e-6):
            ctx.cover('pushed up')
        elif bool(n[0] < x0[0] + move[0] - .9 * S - 1e-6):
            ctx.cover('pushed down')
    else:
        ctx.cover('pushed up'), ctx.cover('pushed down')
    near = abs(n[0] - goal[0]) + abs(n[1] - goal[1]) < th
    ctx.check(bool(ab) == bool(near), 'absorbing exactly near the goal')

    def pdf(v, c, w):
        z = (v - c) / w
        return np.exp(-z * z / 2) / (w * np.sqrt(2 * PI))
    if bool(near):
        ctx.eq(r, rg, 'reward of the goal')
    else:
        pen = asum([pdf(n[0], c[0], w[0]) * pdf(n[1], c[1], w[1]) for c, w in zip(cen, wid)])
        ctx.eq(r, -1 - 2 * pen, 'step cost plus the depth of the puddles')
    ctx.eq(x[0], x0[0], 'the given state is not modified')


@scenario('P25', '1-2 motion steps per action from an arbitrary state and turning rate command',
          quick=[dict(k=1, small=True), dict(k=1, small=False)], thorough=[dict(k=2, small=True)], budget=200, tol=1e-6)
def ship_steering(ctx, k, small):
    env = ShipSteering(small=small, n_steps_action=k)
    F = 150. if small else 1000.
    gs, ge = ((100., 120.), (120., 100.)) if small else ((350., 400.), (450., 400.))
    x = [ctx.real('px', 0, F), ctx.real('py', 0, F), ctx.real('th', -3, 3), ctx.real('om', -.25, .25)]
    given = ctx.pack(list(x), (4,), 'f')
    env.reset(given)
    act = ctx.real('act', -1, 1)
    n, r, ab, _ = env.step(ctx.pack([act], (1,), 'f'))
    W = PI / 12
    u = amax([-W, amin([act, W])])
    cur, done, rew, clipped = list(x), False, -1., None
    for _ in range(k):
        c, s = np.cos(cur[2]), np.sin(cur[2])
        raw = [cur[0] + 3 * c * .2, cur[1] + 3 * s * .2]
        new = raw + [cur[2] + cur[3] * .2, cur[3] + (u - cur[3]) * .2 / 5]
        if bool(LOR(raw[0] > F, raw[1] > F, raw[0] < 0, raw[1] < 0)):
            new[0], new[1] = amax([0., amin([raw[0], F])]), amax([0., amin([raw[1], F])])
            cur, done, rew = new, True, -100.
            break
        # the two segments share a point: the end points of each lie on different sides of the other
        def side(p, q, z):
            return (q[0] - p[0]) * (z[1] - p[1]) - (q[1] - p[1]) * (z[0] - p[0])
        d1, d2 = side(gs, ge, cur), side(gs, ge, raw)
        d3, d4 = side(cur, raw, gs), side(cur, raw, ge)
        par = (ge[0] - gs[0]) * (raw[1] - cur[1]) - (ge[1] - gs[1]) * (raw[0] - cur[0])
        hit = LAND(par != 0, LOR(LAND(d1 <= 0, d2 >= 0), LAND(d1 >= 0, d2 <= 0)), LOR(LAND(d3 <= 0, d4 >= 0), LAND(d3 >= 0, d4 <= 0)))
        cur = new
        if bool(hit):
            done, rew = True, 0.
            break
    ctx.eq(n[0], cur[0], 'position')
    ctx.eq(n[1], cur[1], 'position')
    wrapped(ctx, n[2], cur[2], 1, 'heading')
    ctx.eq(n[3], cur[3], 'turning rate')
    ctx.eq(r, rew, 'reward: -100 outside the field, 0 through the gate, else -1')
    ctx.check(bool(ab) == done, 'absorbing outside the field and through the gate')
    for i in range(4):
        ctx.eq(given[i], x[i], 'the given initial state is not modified')


@scenario('P25', 'every crossing point between the posts; the step starts before, on or behind the gate line, or ends on it', quick=[{}])
def ship_gate(ctx):
    env = ShipSteering(small=False, n_steps_action=1)
    d = 3 * np.sin(PI / 2) * .2
    px = ctx.real('px', 351, 449)
    y, hit = ctx.pick('y', [(400. - d, True), (400., True), (399.75, True), (399.25, False), (400.25, False)])
    env.reset(ctx.pack([px, y, PI / 2, 0.], (4,), 'f'))
    _, r, ab, _ = env.step(ctx.pack([0.], (1,), 'f'))
    ctx.eq(r, 0. if hit else -1., 'a step that touches the gate line passes the gate')
    ctx.check(bool(ab) == hit, 'a step that touches the gate line passes the gate')


class Tree(object):
    """a deterministic two-action task with arbitrary rewards: a state is the sequence of actions that led to it"""

    def __init__(self, rewards):
        self.rewards = rewards
        self.cur = None

    def reset(self, state=None):
        self.cur = tuple(state)
        return self.cur, {}

    def step(self, action):
        self.cur = self.cur + (int(action[0]),)
        r = self.rewards[self.cur]
        return self.cur, r, bool(r != 0), {}


@scenario('P25', 'every task tree of depth 3 with rewards in {-1, 0, 1}, arbitrary discount', quick=[dict(depth=3)])
def car_on_hill_solver(ctx, depth):
    import itertools
    g = ctx.real('g', .25, 1)
    rewards, first = {}, ctx.pick('first', [0, 1])
    frontier, best, fail = [()], None, None
    for d in range(1, depth + 1):
        nxt = []
        for f in frontier:
            for a in ((first,) if d == 1 else (0, 1)):
                # what lies behind an end state is never looked at; behind a success, neither
                v = ctx.pick('r' + ''.join(map(str, f + (a,))), [-1., 0., 1.])
                rewards[f + (a,)] = v
                if v == 1.:
                    best = d
                elif v == 0.:
                    nxt.append(f + (a,))
        if best or not nxt:
            break
        frontier = nxt
    if best is None and nxt:
        return      # undecided at this depth
    q = solve_car_on_hill(Tree(rewards), [()], [[first]], g, max_k=depth + 2)
    ctx.check(len(q) == 1, 'one value per pair')
    ctx.eq(q[0], g ** (d - 1) if best else -g ** (d - 1), 'value of the fastest success, or of the latest failure')


DECLARED = dict(
    car=(CarOnHill, {}, [1., 3.], None, 2, .95, 100, .1),
    pole=(CartPole, {}, [np.inf, np.inf], None, 3, .95, 3000, .1),
    pendulum=(InvertedPendulum, {}, [PI, 5 * PI / 2], None, [5.], .99, 5000, .01),
    segway=(Segway, {}, [PI / 2, 15., 75.], None, [5.], .97, 300, .01),
    puddle=(PuddleWorld, {}, [1., 1.], [0., 0.], 5, .99, 5000, .1),
    ship=(ShipSteering, {}, [150., 150., PI, PI / 12], [0., 0., -PI, -PI / 12], [PI / 12], .99, 5000, .2),
    sea=(ShipSteering, dict(small=False), [1000., 1000., PI, PI / 12], [0., 0., -PI, -PI / 12], [PI / 12], .99, 5000, .2))


@scenario('P25', 'every environment as constructed by default', quick=[dict(name=n) for n in DECLARED], tol=1e-9)
def declared(ctx, name):
    cls, kw, high, low, act, gamma, horizon, dt = DECLARED[name]
    i = cls(**kw).info
    low = [-v for v in high] if low is None else low
    near = lambda u, v: len(u) == len(v) and all(float(x) == float(y) or abs(float(x) - float(y)) < 1e-9 for x, y in zip(u, v))
    ok = near(i.observation_space.high, high) and near(i.observation_space.low, low) and tuple(i.observation_space.shape) == (len(high),)
    ctx.check(bool(ok), 'declared limits of the observations')
    if isinstance(act, list):
        ok = near(i.action_space.high, act) and near(i.action_space.low, [-v for v in act]) and tuple(i.action_space.shape) == (len(act),)
    else:
        ok = i.action_space.n == act and tuple(i.action_space.shape) == (1,)
    ctx.check(bool(ok), 'declared actions')
    ctx.check(i.gamma == gamma and i.horizon == horizon and abs(i.dt - dt) < 1e-9, 'default discount, horizon and time step')


STARTS = dict(car=([-.5, 0.], 2), pole=([PI / 8, 0.], 2), pendulum=([PI / 2, 0.], 2), segway=([-PI / 8, 0., 0.], 3), puddle=([.2, .4], 2),
              ship=([0., 0., PI / 2, 0.], 0), sea=([1000., 1000., PI, PI / 12], 0))


@scenario('P25', 'every environment as constructed by default; two episodes with one or two steps in between', quick=[dict(name=n) for n in STARTS] + [dict(name='pendulum', rnd=True), dict(name='segway', rnd=True)], tol=1e-6,
          goals=('starts at the low end', 'starts at the high end'))
def restart(ctx, name, rnd=False):
    """every episode begins in the initial state the environment documents, whatever happened before"""
    cls, kw, act = DECLARED[name][0], DECLARED[name][1], DECLARED[name][4]
    env = cls(**dict(kw, random_start=True) if rnd else kw)
    first, n = STARTS[name]
    if rnd:
        first = [dict(pendulum=PI, segway=PI / 2)[name]] + first[1:]
    a = ctx.pack([ctx.pick('a', [-act[0], 0., act[0] / 2])], (1,), 'f') if isinstance(act, list) else np.array([1])
    ctx_end = [ctx.real('end%d' % i, -2, 2) for i in range(n)]

    def ends(v, lo, hi):
        if bool(v < lo):
            ctx.cover('starts at the low end')
        elif bool(v > hi):
            ctx.cover('starts at the high end')
    for e in range(2):
        s, info = env.reset()
        ctx.shape(s, (len(first),), 'shape of the initial state')
        for i, v in enumerate(first):
            if (name == 'pole' or rnd) and i == 0:
                ctx.check(LAND(s[i] >= -v - 1e-9, s[i] <= v + 1e-9), 'initial angle')
                ends(s[i], -.9 * v, .9 * v)
            elif name == 'sea':
                lo = 0. if i < 2 else -v
                ctx.check(LAND(s[i] >= lo - 1e-9, s[i] <= v + 1e-9), 'the initial state lies in the declared limits')
                if i == 0:
                    ends(s[i], .1 * v, .9 * v)
            else:
                ctx.eq(s[i], v, 'the initial state of every episode')
        if not rnd and name not in ('pole', 'sea'):
            ctx.cover('starts at the low end')
            ctx.cover('starts at the high end')
        if name in ('sea', 'puddle'):
            env.reset(np.ones(len(first)) / 2)
            continue
        with integrator(Ode(ctx, n, ctx_end, ctx_end)):
            env.step(a)
            if e == 0 and name == 'car':
                env.step(a)
