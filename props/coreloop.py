"""The agent-environment loop: real Core, real Dataset; environment, policy and agent are recorders."""
from props.common import *
from mushroom_rl.core import Core, Environment

B = 'run of at most %d environment steps; arbitrary observations, rewards and absorbing flags; horizon, ' \
    'number of steps or episodes and fit period as listed in the scenario name'


class Env(Environment):
    """every observation, reward and absorbing flag is arbitrary"""

    def __init__(self, ctx, horizon, gamma=0.9, backend='numpy', dim=1):
        self.ctx, self.log, self.k, self.n_stop = ctx, [], 0, 0
        self.be = backend
        super().__init__(MDPInfo(Box(-1e3, 1e3, (dim,)) if backend != 'torch' else
                                 Box(-1e3, 1e3, (dim,), data_type=torch.float32),
                                 Discrete(3), gamma, horizon, backend=backend))

    def obs(self):
        self.k += 1
        if self.be == 'torch':
            return self.ctx.tensor('o%d' % self.k, (1,))
        return self.ctx.array('o%d' % self.k, (1,))

    def reset(self, state=None):
        o = self.obs() if state is None else state
        self.log.append(('reset', state, o))
        return o, {}

    def step(self, action):
        o = self.obs()
        r = self.ctx.real('r%d' % self.k)
        ab = self.ctx.bool('ab%d' % self.k)
        if self.be == 'torch':
            r, ab = self.ctx.to_tensor(self.ctx.arr([r]))[0], self.ctx.to_tensor(self.ctx.arr([ab]), torch.bool)[0]
        self.log.append(('step', action, o, r, ab))
        return o, r, ab, dict(x=r)

    def stop(self):
        self.n_stop += 1


class Ag(Agent):
    def __init__(self, info, policy, **kw):
        super().__init__(info, policy, **kw)
        self.fits, self.starts, self.n_stop = [], [], 0

    def fit(self, dataset):
        d = dataset
        self.fits.append([tuple(cp(x) for x in d[i]) for i in range(len(d))])

    def episode_start(self, initial_state, episode_info):
        self.starts.append(initial_state)
        return super().episode_start(initial_state, episode_info)

    def stop(self):
        self.n_stop += 1


def cp(x):
    if isinstance(x, torch.Tensor):
        return x.clone()
    return x.copy() if isinstance(x, np.ndarray) else x


class Pol(ScriptPolicy):
    """arbitrary actions, optionally with an internal state"""

    def __init__(self, ctx, stateful=False, backend='numpy', tensors=False):
        super().__init__(state_shape=(1,) if stateful else None)
        self.tensors = tensors
        self.ctx, self.n, self.nr, self.stateful = ctx, 0, 0, stateful
        self.drawn, self.be, self.rstates = [], backend, []

    def draw_action(self, state, policy_state=None):
        self.n += 1
        v = self.ctx.int('act%d' % self.n, 0, 2)
        a = self.ctx.arr([v])
        if self.be == 'torch':
            a = self.ctx.to_tensor(a, torch.int64)
        nps = self.ctx.array('ps%d' % self.n, (1,)) if self.stateful else None
        if self.tensors and self.stateful:
            nps = self.ctx.to_tensor(nps)
        if self.tensors:
            self.ctx.check(isinstance(state, torch.Tensor) and (policy_state is None or isinstance(policy_state, torch.Tensor)),
                           'the policy works with arrays of the backend of the agent')
        self.drawn.append((state, policy_state, a, nps))
        return a, nps

    def reset(self):
        self.nr += 1
        self.resets += 1
        if not self.stateful:
            return None
        x = self.ctx.array('ps_r%d' % self.nr, (1,))
        self.rstates.append(self.ctx.to_tensor(x) if self.tensors else x)
        return self.rstates[-1]


def expected(ctx, env, horizon):
    """transitions implied by what the environment was asked and answered"""
    out, s, t, last = [], None, 0, True
    resets = []
    for ev in env.log:
        if ev[0] == 'reset':
            ctx.check(bool(last), 'the environment is reset only at the start and after an episode end')
            s, t, last = ev[2], 0, False
            resets.append((len(out), ev[1]))
        else:
            ctx.check(s is not None and not bool(last), 'no step without a reset')
            t += 1
            last = t >= horizon or bool(ev[4])
            out.append((s, ev[1], ev[3], ev[2], ev[4], np.bool_(last)))
            s = ev[2]
    return out, resets


def trans_eq(ctx, got, want, label):
    ctx.check(len(got) == len(want), label + ' (count)', '%d instead of %d' % (len(got), len(want)))
    for g, w in zip(got, want):
        for x, y in zip(g, w):
            ctx.eq(x, y, label)


def run_learn(ctx, horizon, n_steps=None, n_episodes=None, k=None, e=None, stateful=False, backend='numpy', agent=None):
    env = Env(ctx, horizon, backend=backend)
    agent = agent or backend
    pol = Pol(ctx, stateful, agent, tensors=agent != backend)
    ag = Ag(env.info, pol, backend='torch' if agent == 'torch' else 'numpy')
    seen, fitcalls = [], []
    core = Core(ag, env, callbacks_fit=[lambda d: fitcalls.append(len(d))], callback_step=seen.append)
    core.learn(n_steps=n_steps, n_episodes=n_episodes, n_steps_per_fit=k, n_episodes_per_fit=e, quiet=True)
    if agent != backend:
        ctx.check(all(isinstance(ev[1], np.ndarray) for ev in env.log if ev[0] == 'step'), 'the environment receives arrays of its own backend')
    tr, resets = expected(ctx, env, horizon)
    N, n_ep = len(tr), sum(bool(t[5]) for t in tr)
    if n_steps is not None:
        ctx.check(N == n_steps, 'exactly the requested number of steps')
    else:
        ctx.check(n_ep == n_episodes and bool(tr[-1][5]), 'exactly the requested number of episodes')
    ctx.check(len(resets) == n_ep + (0 if bool(tr[-1][5]) else 1), 'one reset per episode')
    # the step callback sees every transition once, in order
    trans_eq(ctx, [s[:6] for s in seen], tr, 'step callback sees the history')
    # fits partition the history
    chunks, cur, ne = [], [], 0
    for t in tr:
        cur.append(t)
        ne += bool(t[5])
        if (k is not None and len(cur) >= k) or (e is not None and ne >= e):
            chunks.append(cur)
            cur, ne = [], 0
    ctx.check(len(ag.fits) == len(chunks), 'number of fits', '%d instead of %d' % (len(ag.fits), len(chunks)))
    for g, w in zip(ag.fits, chunks):
        trans_eq(ctx, g, w, 'the agent is fitted with exactly the transitions since the previous fit')
    ctx.check([len(c) for c in chunks] == fitcalls, 'fit callbacks see the fitted data')
    ctx.check(len(ag.starts) == len(resets), 'episode_start once per episode')
    ctx.check(ag.n_stop == 1 and env.n_stop == 1, 'agent and environment are stopped once')
    # policy: called once per step, on the current observation, reset at each episode start
    ctx.check(len(pol.drawn) == N and pol.resets == len(resets), 'one action per step and one policy reset per episode')
    for d, t in zip(pol.drawn, tr):
        ctx.eq(d[0], t[0], 'the policy acts on the current observation')
        ctx.eq(d[2], t[1], 'the environment receives the drawn action')
    if stateful:
        starts = [i for i, _ in resets]
        for i, d in enumerate(pol.drawn):
            if i in starts:
                want = pol.rstates[starts.index(i)]
            else:
                want = pol.drawn[i - 1][3]
            ctx.eq(d[1], want, 'policy state is threaded through the episode and reset at its start')
            ctx.eq(seen[i][6], want, 'recorded policy state')
            ctx.eq(seen[i][7], d[3], 'recorded next policy state')


@scenario('P03', B % 5,
          quick=[dict(h=2, n=4, k=1), dict(h=3, n=4, k=2), dict(h=2, n=5, k=3), dict(h=1, n=3, k=2), dict(h=9, n=4, k=3)],
          thorough=[dict(h=3, n=6, k=4), dict(h=2, n=7, k=3), dict(h=4, n=6, k=6)])
def learn_steps_per_fit(ctx, h, n, k):
    run_learn(ctx, h, n_steps=n, k=k)


@scenario('P03', B % 6, quick=[dict(h=2, n=3, k=2), dict(h=3, n=2, k=3)])
def learn_episodes_steps_per_fit(ctx, h, n, k):
    run_learn(ctx, h, n_episodes=n, k=k)


@scenario('P03', B % 6, quick=[dict(h=2, n=3, e=1), dict(h=2, n=3, e=2), dict(h=3, n=2, e=1)],
          thorough=[dict(h=3, n=3, e=2), dict(h=2, n=4, e=3)])
def learn_episodes_per_fit(ctx, h, n, e):
    run_learn(ctx, h, n_episodes=n, e=e)


@scenario('P03', B % 5, quick=[dict(h=2, n=5, e=1), dict(h=2, n=5, e=2)])
def learn_steps_episodes_per_fit(ctx, h, n, e):
    run_learn(ctx, h, n_steps=n, e=e)


@scenario('P03', B % 4, quick=[dict(h=2, n=4, k=2)])
def learn_stateful(ctx, h, n, k):
    run_learn(ctx, h, n_steps=n, k=k, stateful=True)


@scenario('P03', B % 4, quick=[dict(h=2, n=4, k=2)], tol=1e-4)
def learn_torch(ctx, h, n, k):
    run_learn(ctx, h, n_steps=n, k=k, backend='torch')


@scenario('P03', B % 4 + '; agent of the torch back end in an environment of the numpy back end', quick=[dict(h=2, n=4, k=2, s=False), dict(h=2, n=3, k=2, s=True)], tol=1e-4)
def learn_mixed(ctx, h, n, k, s):
    run_learn(ctx, h, n_steps=n, k=k, agent='torch', stateful=s)


@scenario('P03', B % 6 + '; evaluation by steps, by episodes, from given initial states',
          quick=[dict(h=2, mode='steps', n=4), dict(h=2, mode='episodes', n=3), dict(h=2, mode='init', n=3),
                 dict(h=3, mode='init', n=2)])
def evaluate(ctx, h, mode, n):
    env = Env(ctx, h)
    pol = Pol(ctx)
    ag = Ag(env.info, pol)
    core = Core(ag, env)
    init = None
    kw = {}
    if mode == 'steps':
        kw = dict(n_steps=n)
    elif mode == 'episodes':
        kw = dict(n_episodes=n)
    else:
        init = ctx.array('init', (n, 1))
        kw = dict(initial_states=init)
    d = core.evaluate(quiet=True, **kw)
    tr, resets = expected(ctx, env, h)
    ctx.check(len(ag.fits) == 0, 'evaluation never fits')
    got = [d[i] for i in range(len(d))]
    trans_eq(ctx, got, tr, 'the returned dataset is the history')
    ctx.eq(d.get_info('x'), ctx.arr([t[2] for t in tr]), 'step information is aligned with the transitions')
    if mode == 'steps':
        ctx.check(len(tr) == n, 'exactly the requested number of steps')
    else:
        ctx.check(len(resets) == n and bool(tr[-1][5]), 'exactly the requested number of complete episodes')
        ctx.eq(d.n_episodes, np.int64(n), 'the dataset counts the episodes')
    for j, (i, st) in enumerate(resets):
        if init is None:
            ctx.check(st is None, 'environments choose their own initial state')
        else:
            ctx.eq(st, init[j], 'j-th episode starts in the j-th requested state')
    ctx.check(pol.resets == len(resets), 'policy reset per episode')


@scenario('P03', 'two consecutive runs of 3 steps with horizon 2 on the same core object')
def learn_twice(ctx):
    """state left by a run that stopped mid-episode does not leak into the next one"""
    env = Env(ctx, 2)
    pol = Pol(ctx)
    ag = Ag(env.info, pol)
    core = Core(ag, env)
    core.learn(n_steps=3, n_steps_per_fit=2, quiet=True)
    m = len(env.log)
    f = len(ag.fits)
    d = core.evaluate(n_episodes=1, quiet=True)
    ctx.check(env.log[m][0] == 'reset', 'a new run starts with a reset')
    core.learn(n_steps=2, n_steps_per_fit=2, quiet=True)
    ctx.check(len(ag.fits) == f + 1 and len(ag.fits[-1]) == 2, 'fit period counts from the start of the run')
    ctx.check(len(d) == 1 + (0 if bool(d[0][5]) else 1), 'one complete episode evaluated')


class Frames(Env):
    """renders a numbered frame"""
    n_frames = 0

    def render(self, record=False):
        self.n_frames += 1
        self.log_r = getattr(self, 'log_r', []) + [(len([e for e in self.log if e[0] == 'step']), record)]
        return ('frame', self.n_frames) if record else None


def recorder(made):
    class Rec:
        def __init__(self, fps, **kw):
            self.fps, self.kw, self.log = fps, kw, []
            made.append(self)

        def __call__(self, frame):
            self.log.append(frame)

        def stop(self):
            self.log.append('stop')
    return Rec


@scenario('P03', 'evaluation and learning of 3 steps, horizon 2, with and without rendering and recording; arbitrary episode ends',
          quick=[dict(render=r, record=c, learn=l) for r, c in ((False, False), (True, False), (True, True)) for l in (False, True)])
def recording(ctx, render, record, learn):
    """every step is rendered after it happened and recorded once, in order; recordings end with the run"""
    env = Frames(ctx, 2)
    ag = Ag(env.info, Pol(ctx))
    made = []
    core = Core(ag, env, record_dictionary=dict(recorder_class=recorder(made), fps=7, tag='x'))
    kw = dict(n_steps=3, quiet=True, render=render, record=record)
    for run in range(2):
        core.learn(n_steps_per_fit=1, **kw) if learn else core.evaluate(**kw)
    want = [(i + 1, record) for i in range(6)] if render else []
    ctx.check(getattr(env, 'log_r', []) == want, 'one rendering per step, after the step')
    ctx.check(len(made) == 1 and made[0].fps == 7 and made[0].kw == dict(tag='x'), 'the recorder is built from the given settings')
    want = [('frame', 1), ('frame', 2), ('frame', 3), 'stop', ('frame', 4), ('frame', 5), ('frame', 6), 'stop'] if record else []
    ctx.check(made[0].log == want, 'every frame is recorded once, in order, and the recording ends with the run')
    try:
        core.evaluate(n_steps=1, quiet=True, render=False, record=True)
        ok = False
    except AssertionError:
        ok = True
    ctx.check(ok, 'recording without rendering is refused')


class Pre(object):
    def __init__(self, mul, add, log, name):
        self.mul, self.add, self.log, self.name = mul, add, log, name

    def __call__(self, obs):
        self.log.append((self.name, 'call', obs))
        return obs * self.mul + self.add

    def update(self, obs):
        self.log.append((self.name, 'update', obs))


@scenario('P03', 'two core preprocessors with arbitrary affine maps, 3 steps, horizon 2')
def preprocessors(ctx):
    env = Env(ctx, 2)
    pol = Pol(ctx)
    ag = Ag(env.info, pol)
    log = []
    a1, b1, a2, b2 = ctx.reals('c', 4)
    ag.add_core_preprocessor(Pre(a1, b1, log, 'p'))
    ag.add_core_preprocessor(Pre(a2, b2, log, 'q'))
    d = Core(ag, env).evaluate(n_steps=3, quiet=True)
    f = lambda o: (o * a1 + b1) * a2 + b2
    tr, resets = expected(ctx, env, 2)
    for i in range(3):
        ctx.eq(d.state[i], f(tr[i][0]), 'stored state is preprocessed once by every preprocessor in order')
        ctx.eq(d.next_state[i], f(tr[i][3]), 'stored next state is preprocessed once by every preprocessor in order')
        ctx.eq(pol.drawn[i][0], f(tr[i][0]), 'the policy sees the preprocessed state')
    raw = [ev[2] for ev in env.log]
    ups = [o for n, w, o in log if n == 'p' and w == 'update']
    ctx.check(len(ups) == len(raw), 'statistics are updated once per observation')
    for x, y in zip(ups, raw):
        ctx.eq(x, y, 'statistics are updated with every raw observation')
    ups = [o for n, w, o in log if n == 'q' and w == 'update']
    for x, y in zip(ups, raw):
        ctx.eq(x, y * a1 + b1, 'the second preprocessor is updated with the output of the first')
    for (n1, w1, o1), (n2, w2, o2) in zip(log[::2], log[1::2]):
        ctx.check(n1 == n2 and w1 == 'update' and w2 == 'call', 'update precedes the call')


@scenario('P03', 'two agent preprocessors with arbitrary affine maps, 2 steps')
def agent_preprocessors(ctx):
    env = Env(ctx, 3)
    pol = Pol(ctx)
    ag = Ag(env.info, pol)
    a1, b1, a2, b2 = ctx.reals('c', 4)
    ag.add_agent_preprocessor(Pre(a1, b1, [], 'p'))
    ag.add_agent_preprocessor(Pre(a2, b2, [], 'q'))
    d = Core(ag, env).evaluate(n_steps=2, quiet=True)
    tr, _ = expected(ctx, env, 3)
    for i in range(2):
        ctx.eq(d.state[i], tr[i][0], 'agent preprocessors leave the stored data raw')
        ctx.eq(pol.drawn[i][0], (tr[i][0] * a1 + b1) * a2 + b2, 'the policy sees the agent-preprocessed state')


@scenario('P03', 'an agent that chooses its next action while fitting (as SARSA does), 4 steps, horizon 2')
def next_action(ctx):
    """an action chosen during a fit is the one executed next within the episode and never in another episode"""
    env = Env(ctx, 2)
    pol = Pol(ctx)

    class Sarsa(Ag):
        def fit(self, dataset):
            super().fit(dataset)
            self.next_action = ctx.arr([ctx.int('na%d' % len(self.fits), 0, 2)])
            chosen.append(self.next_action)
    chosen = []
    ag = Sarsa(env.info, pol)
    Core(ag, env).learn(n_steps=4, n_steps_per_fit=1, quiet=True)
    tr, _ = expected(ctx, env, 2)
    k = 0
    for i, t in enumerate(tr):
        if i > 0 and not bool(tr[i - 1][5]):
            ctx.eq(t[1], chosen[i - 1], 'an action chosen by the agent during the fit is executed next')
        else:
            ctx.check(k < len(pol.drawn), 'the first action of an episode is drawn from the policy')
            ctx.eq(t[1], pol.drawn[k][2], 'the first action of an episode is drawn from the policy')
            ctx.eq(t[0], pol.drawn[k][0], 'the first action of an episode is drawn in its initial state')
            k += 1
    ctx.check(k == len(pol.drawn), 'the policy is queried only where no action is pending')
