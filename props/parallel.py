"""Parallel environments behind pipes, the environment registry and the spaces."""
import multiprocessing
import sys
import threading
from props.common import *
from mushroom_rl.core import Environment, VectorizedEnvironment, MultiprocessEnvironment
import mushroom_rl.core.multiprocess_environment as mp


class Closed(BaseException):
    pass


class Worker(object):
    """a process: runs only when it is given the turn, until it waits for a message or ends"""

    def __init__(self, pool, i):
        self.pool, self.i = pool, i
        self.inbox, self.outbox = [], []
        self.turn, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread, self.done, self.error, self.closing = None, False, None, False

    def start(self, target, args):
        prof = sys.getprofile()

        def run():
            sys.setprofile(prof)
            self.turn.acquire()
            try:
                if not self.closing:
                    target(*args)
            except Closed:
                pass
            except BaseException as e:
                self.error = e
            finally:
                sys.setprofile(None)
                self.done = True
                self.back.release()
        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()

    def go(self):
        """give the turn to the process"""
        if self.done or self.thread is None:
            return
        self.pool.running = self.i
        self.turn.release()
        self.back.acquire()
        self.pool.running = None

    def wait(self):
        """(in the process) give the turn back"""
        self.back.release()
        self.turn.acquire()
        if self.closing:
            raise Closed()
        self.pool.running = self.i


class MainEnd(object):
    def __init__(self, w):
        self.w = w

    def send(self, msg):
        w = self.w
        if w.closing:
            return
        if w.done:
            raise BrokenPipeError()
        w.inbox.append(msg)
        if w.pool.eager(w.i):
            w.go()

    def recv(self):
        w = self.w
        if not w.outbox:
            w.go()
        if not w.outbox:
            if w.error is not None:
                e, w.error = w.error, None
                raise e
            raise EOFError('no answer will ever arrive')
        return w.outbox.pop(0)

    def close(self):
        pass


class WorkEnd(object):
    def __init__(self, w):
        self.w = w

    def recv(self):
        while not self.w.inbox:
            self.w.wait()
        return self.w.inbox.pop(0)

    def send(self, msg):
        self.w.outbox.append(msg)

    def close(self):
        pass


class Pool(object):
    """stand-in for the pipes and processes; which processes run ahead of the main one is chosen by `eager`"""

    def __init__(self, eager):
        self.eager = eager
        self.workers, self.running = [], None

    def Pipe(self, *a, **k):
        w = Worker(self, len(self.workers))
        self.workers.append(w)
        return MainEnd(w), WorkEnd(w)

    def Process(self, target=None, args=(), kwargs=None, **kw):
        pool = self

        class P(object):
            def start(self):
                w = [a for a in args if isinstance(a, WorkEnd)][0].w
                w.start(target, args)

            def join(self, *a):
                pass

            def is_alive(self):
                return False

            def terminate(self):
                pass

            kill = close = terminate
            daemon = False
        return P()

    def __enter__(self):
        self.old = []
        new = dict(Pipe=self.Pipe, Process=self.Process, cpu_count=lambda: 3)
        for name, stand_in in new.items():
            real = getattr(multiprocessing, name)
            for mod in (multiprocessing, mp):
                for k, v in list(vars(mod).items()):
                    if k == name or v == real:
                        self.old.append((mod, k, v))
                        setattr(mod, k, stand_in)
        return self

    def __exit__(self, *a):
        for mod, k, v in self.old:
            setattr(mod, k, v)
        for w in self.workers:
            w.closing = True
            if w.thread is not None and not w.done:
                w.turn.release()
                w.thread.join(5)


class Env(Environment):
    """state: a vector moved by the action at a rate of its own; every call is noted"""
    pool = None
    made = []

    def __init__(self, a=0, b=0, how='init'):
        self.id = Env.pool.running if Env.pool is not None and Env.pool.running is not None else -1
        Env.made.append((self.id, a, b, how))
        self.calls = []
        Env.envs[self.id] = self
        self.n = 0
        super().__init__(MDPInfo(Box(-9., 9., (2,)), Box(-9., 9., (2,)), .5, 9))

    def reset(self, state=None):
        self.calls.append(('reset', state))
        self.n += 1
        self.s = Env.start[(self.id, self.n)] if state is None else state + 0.
        return self.s, {'e': self.id * 10 + self.n}

    def step(self, action):
        self.calls.append(('step', action))
        self.n += 1
        self.s = self.s + (self.id + 1) * action
        r, ab = Env.out[(self.id, self.n)]
        return self.s, r, ab, {'k': self.id * 10 + self.n}

    def render(self, record=False):
        self.calls.append(('render', record))
        return np.array([self.id + 1., 1. if record else 0.])

    def seed(self, seed):
        self.calls.append(('seed', seed))

    def stop(self):
        self.calls.append(('stop',))


class GenEnv(Env):
    @staticmethod
    def generate(*a, **k):
        return GenEnv(*a, how='generate', **k)


def world(ctx, n, steps, eager):
    pool = Pool(eager)
    Env.pool, Env.made, Env.envs = pool, [], {}
    Env.start = {(i, k): ctx.array('s%d_%d' % (i, k), (2,), -4, 4) for i in range(n) for k in range(1, steps + 1)}
    Env.out = {(i, k): (ctx.real('r%d_%d' % (i, k), -4, 4), ctx.bool('ab%d_%d' % (i, k))) for i in range(n) for k in range(1, steps + 1)}
    return pool


def eager_of(ctx, n):
    e = [bool(x) for x in ctx.bools('eager', n)]
    return lambda i: e[i]


@scenario('P32', '2-3 environments, 3-4 masked resets and steps, any of the processes running ahead', max_paths=6000, budget=120,
          quick=[dict(n=2, ops='rsr'), dict(n=2, ops='rss'), dict(n=3, ops='rs'), dict(n=2, ops='rx'), dict(n=2, ops='rxs')],
          thorough=[dict(n=3, ops='rss'), dict(n=3, ops='rsr'), dict(n=2, ops='rsrs')])
def routing(ctx, n, ops):
    pool = world(ctx, n, len(ops), eager_of(ctx, n))
    with pool:
        env = MultiprocessEnvironment(Env, 3, b=4, n_envs=n)
        ctx.check(env.number == n, 'number of environments')
        ctx.check(env.info.gamma == .5 and tuple(env.info.observation_space.shape) == (2,), 'description of the environment')
        cur, count, kept = [None] * n, [0] * n, []
        for t, op in enumerate(ops):
            first = t == 0
            mask = [True] * n if first else [bool(b) for b in ctx.bools('m%d' % t, n)]
            before = [len(Env.envs[i].calls) if i in Env.envs else 0 for i in range(n)]
            if op in 'rx':
                S = ctx.array('init%d' % t, (n, 2), -4, 4) if op == 'x' else None
                out, infos = env.reset_all(np.array(mask), S) if op == 'x' else env.reset_all(np.array(mask))
            else:
                A = ctx.array('a%d' % t, (n, 2), -4, 4)
                out, R, AB, infos = env.step_all(np.array(mask), A)
                ctx.check(tuple(R.shape) == (n,) and tuple(AB.shape) == (n,), 'a reward and an absorbing flag per environment')
            ctx.check(tuple(out.shape) == (n, 2) and len(infos) == n, 'a row per environment')
            for i in range(n):
                new = Env.envs[i].calls[before[i]:]
                if not mask[i]:
                    ctx.check(new == [], 'environments outside the mask are left alone')
                    ctx.check(infos[i] == {}, 'no information of an environment outside the mask')
                else:
                    count[i] += 1
                    ctx.check(len(new) == 1 and new[0][0] == ('step' if op == 's' else 'reset'), 'every selected environment is called once')
                    if op == 'r':
                        ctx.check(new[0][1] is None, 'reset without a state')
                        cur[i] = Env.start[(i, count[i])]
                    elif op == 'x':
                        ctx.eq(new[0][1], S[i], 'each environment is reset to its own state')
                        cur[i] = S[i]
                    else:
                        ctx.eq(new[0][1], A[i], 'each environment receives its own action')
                        cur[i] = cur[i] + (i + 1) * A[i]
                        ctx.eq(R[i], Env.out[(i, count[i])][0], 'reward of each environment')
                        ctx.check(bool(AB[i]) == bool(Env.out[(i, count[i])][1]), 'absorbing flag of each environment')
                    ctx.check(infos[i] == ({'k': i * 10 + count[i]} if op == 's' else {'e': i * 10 + count[i]}), 'information of each environment')
                ctx.eq(out[i], cur[i], 'state of each environment')
            kept.append((out, [c + 0. for c in cur]))
        for out, want in kept:
            for i in range(n):
                ctx.eq(out[i], want[i], 'results returned earlier do not change')
        ctx.check(sorted(Env.made) == [(i, 3, 4, 'init') for i in range(n)], 'one environment per process with the given arguments')


@scenario('P32', '3 environments (number of processors), generators, rendering, seeds and stop', quick=[dict(gen=False), dict(gen=True)], max_paths=4000)
def service(ctx, gen):
    n = 3
    pool = world(ctx, n, 2, eager_of(ctx, n))
    with pool:
        env = MultiprocessEnvironment.generate(GenEnv if gen else Env, 5)
        ctx.check(env.number == n, 'one environment per processor')
        env.reset_all(np.ones(n, dtype=bool))
        ctx.check(sorted(Env.made) == [(i, 5, 0, 'generate' if gen else 'init') for i in range(n)], 'environments are built by their generator when they have one')
        mask = [bool(b) for b in ctx.bools('m', n)]
        rec = bool(ctx.bool('rec'))
        f = env.render_all(np.array(mask), record=rec)
        sel = [i for i in range(n) if mask[i]]
        ctx.check(len(f) == len(sel), 'a frame per selected environment')
        for k, i in enumerate(sel):
            ctx.eq(f[k], np.array([i + 1., 1. if rec else 0.]), 'frames in the order of the environments')
        env.seed(7)
        env.stop()
        for i in range(n):
            want = [('reset', None)] + ([('render', rec)] if mask[i] else []) + [('seed', 7), ('stop',)]
            ctx.check(Env.envs[i].calls == want, 'every environment is seeded and stopped once')


@scenario('P32', '2-3 environments, any default environment', quick=[dict(n=2), dict(n=3)], max_paths=2000)
def single(ctx, n):
    class V(VectorizedEnvironment):
        def __init__(self):
            self.log = []
            super().__init__(MDPInfo(Box(-9., 9., (2,)), Box(-9., 9., (2,)), .5, 9), n)

        def reset_all(self, env_mask, state=None):
            self.log.append(('reset', [bool(b) for b in env_mask], state))
            return 1

        def step_all(self, env_mask, action):
            self.log.append(('step', [bool(b) for b in env_mask], action))
            return 2

        def render_all(self, env_mask, record=False):
            self.log.append(('render', [bool(b) for b in env_mask], record))
            return 3
    v = V()
    d = int(ctx.int('d', 0, n - 1))
    change = bool(ctx.bool('change'))
    if change:
        v.set_default_env(d)
    k = d if change else 0
    want = [i == k for i in range(n)]
    a = ctx.array('a', (2,), -2, 2)
    ctx.check((v.reset(), v.step(a), v.render()) == (1, 2, 3), 'results of the environment')
    ctx.check([(o, m) for o, m, _ in v.log] == [('reset', want), ('step', want), ('render', want)], 'only the default environment is used')
    ctx.check(v.log[0][2] is None and v.log[1][2] is a and v.log[2][2] is False, 'arguments are passed on')
    bad = False
    try:
        v.set_default_env(n + int(ctx.int('x', 0, 1)))
    except AssertionError:
        bad = True
    ctx.check(bad, 'an environment that does not exist is refused')
    ctx.check(v.number == n, 'number of environments')


class Plain(Environment):
    def __init__(self, *a, **k):
        self.got = ('init', a, k)


class Gen(Environment):
    def __init__(self, *a, **k):
        self.got = ('init', a, k)

    @staticmethod
    def generate(*a, **k):
        e = Gen()
        e.got = ('generate', a, k)
        return e


@scenario('P32', 'classes with and without generator, 0-2 dotted arguments', quick=[{}])
def registry(ctx):
    order = ctx.pick('order', [(Plain, Gen), (Gen, Plain)])
    for c in order:
        c.register()
    ctx.check({'Plain', 'Gen'} <= set(Environment.list_registered()), 'registered environments are listed')
    cls = ctx.pick('cls', [Plain, Gen])
    dots = ctx.pick('dots', [[], ['x'], ['x', 'y']])
    extra = ctx.pick('extra', [[], [3]])
    v = ctx.real('v', -2, 2)
    e = Environment.make('.'.join([cls.__name__] + dots), *extra, key=v)
    ctx.check(isinstance(e, cls), 'an environment of the class with that name')
    ctx.check(e.got[0] == ('generate' if cls is Gen else 'init'), 'environments are built by their generator when they have one')
    ctx.check(list(e.got[1]) == dots + extra, 'arguments: those of the name, then the others')
    ctx.check(list(e.got[2]) == ['key'] and ctx.same(e.got[2]['key'], v), 'keyword arguments')


@scenario('P32', 'boxes given by arrays or scalars, arbitrary limits', quick=[{}])
def spaces(ctx):
    lo, hi = ctx.real('lo', -4, 0), ctx.real('hi', 1, 4)
    L, H = ctx.array('L', (2,), -4, 0), ctx.array('H', (2,), 1, 4)
    k = ctx.pick('kind', ['scalar', 'array', 'shaped'])
    if k == 'scalar':
        b = Box(lo, hi, (2, 3))
        ctx.check(tuple(b.shape) == (2, 3) and tuple(b.low.shape) == (2, 3) and tuple(b.high.shape) == (2, 3), 'shape of the box')
        for i in range(2):
            for j in range(3):
                ctx.eq(b.low[i, j], lo, 'lower limit')
                ctx.eq(b.high[i, j], hi, 'upper limit')
    else:
        b = Box(L, H) if k == 'array' else Box(L, H, (2,))
        ctx.check(tuple(b.shape) == (2,), 'shape of the box')
        ctx.eq(b.low, L, 'lower limit')
        ctx.eq(b.high, H, 'upper limit')
    ctx.check(b.data_type is float and Box(lo, hi, (1,), int).data_type is int, 'type of the data')
    n, m = int(ctx.int('n', 1, 3)), int(ctx.int('m', 1, 3))
    d = Discrete(n)
    ctx.check(d.n == n and list(d.values) == list(range(n)) and tuple(d.size) == (n,) and tuple(d.shape) == (1,) and d.data_type is int, 'a discrete space numbers its elements from zero')
    g = ctx.real('g', 0, 1)
    info = MDPInfo(d, Discrete(m), g, 7)
    ctx.check(tuple(info.size) == (n, m) and tuple(info.shape) == (1, 1), 'sizes of the two spaces together')
    ctx.check(tuple(MDPInfo(b, Discrete(m), g, 7).shape) == tuple(b.shape) + (1,), 'shapes of the two spaces together')
    ctx.eq(info.gamma, g, 'discount')
    ctx.check(info.horizon == 7 and info.observation_space is d, 'description')
