"""The vectorized loop: real VectorCore and VectorizedDataset; environments, policy and agent are recorders."""
from props.common import *
from props.coreloop import recorder
from mushroom_rl.core import VectorCore, VectorizedEnvironment

B = '%d parallel environments with arbitrary observations, rewards and absorbing flags; horizon, amount of interaction ' \
    'and fit period as listed in the scenario name'


class VEnv(VectorizedEnvironment):
    fmt = 'list'

    def __init__(self, ctx, n, horizon, backend='numpy'):
        self.ctx, self.be, self.n = ctx, backend, n
        self.k = 0
        self.hist = [[] for _ in range(n)]       # per environment
        self.cur = [None] * n
        self.n_stop = 0
        self.calls = []
        super().__init__(MDPInfo(Box(-1e3, 1e3, (1,)), Box(-1e3, 1e3, (1,)), 0.9, horizon, backend=backend), n)

    def T(self, a, dt=torch.float32):
        return self.ctx.to_tensor(a, dt) if self.be == 'torch' else a

    def obs(self):
        c = self.ctx
        rows = [[v if v is not None else 0.0] for v in self.cur]
        return self.T(c.arr(rows, 'f'))

    def act(self, mask):
        return [bool(mask[i]) for i in range(self.n)]

    def reset_all(self, env_mask, state=None):
        m = self.act(env_mask)
        for i in range(self.n):
            if m[i]:
                self.k += 1
                self.cur[i] = self.ctx.real('o%d' % self.k) if state is None else state[i, :][0]
                self.hist[i].append(('reset', self.cur[i]))
        self.calls.append(('reset', m))
        return self.obs(), [{}] * self.n

    def step_all(self, env_mask, action):
        m = self.act(env_mask)
        rs, abs_ = [], []
        for i in range(self.n):
            if m[i]:
                self.k += 1
                self.cur[i] = self.ctx.real('o%d' % self.k)
                rs.append(self.ctx.real('r%d' % self.k))
                abs_.append(self.ctx.bool('ab%d' % self.k))
                self.hist[i].append(('step', action[i], self.cur[i], rs[-1], abs_[-1]))
            else:
                rs.append(0.0)
                abs_.append(np.False_)
        self.calls.append(('step', m))
        # step information: twice the reward
        info = dict(x=self.T(self.ctx.arr([2. * r for r in rs], 'f'))) if self.fmt == 'dict' else [dict(x=2. * r) for r in rs]
        return self.obs(), self.T(self.ctx.arr(rs, 'f')), self.T(self.ctx.arr(abs_, 'b'), torch.bool), info

    def stop(self):
        self.n_stop += 1


class VPol(ScriptPolicy):
    def __init__(self, ctx, n, be, stateful=False):
        super().__init__(state_shape=(1,) if stateful else None)
        self.ctx, self.nc, self.n, self.be, self.stateful = ctx, 0, n, be, stateful
        self.drawn, self.rst = [], []

    def vec(self, name):
        a = self.ctx.array(name, (self.n, 1))
        return self.ctx.to_tensor(a) if self.be == 'torch' else a

    def draw_action(self, state, policy_state=None):
        self.nc += 1
        a = self.vec('act%d' % self.nc)
        nps = self.vec('ps%d' % self.nc) if self.stateful else None
        self.drawn.append((state, policy_state.copy() if self.stateful else None, a, nps))
        return a, (nps.copy() if self.stateful else None)

    def reset(self):
        if not self.stateful:
            return None
        self.rst.append(self.vec('psr%d' % (len(self.rst) + 1)))
        return self.rst[-1].copy()


class VAg(Agent):
    def __init__(self, info, policy, n, ctx, episodic=False, backend='numpy'):
        super().__init__(info, policy, is_episodic=episodic, backend=backend)
        self.n, self.ctx, self.episodic = n, ctx, episodic
        self.fits, self.thetas, self.n_stop = [], [[] for _ in range(n)], 0
        self.fit_at = []
        self.env = None
        self.nt = 0

    def fit(self, dataset):
        self.fits.append([tuple(cpy(x) for x in dataset[i]) for i in range(len(dataset))])
        self.fit_at.append([len(h) for h in self.env.hist])
        dataset.info.parse()
        x = dataset.get_info('x')
        self.ctx.check(len(x) == len(dataset), 'the fit sees the step information of every step')
        for i in range(len(dataset)):
            self.ctx.eq(x[i], 2. * dataset[i][2], 'the fit sees the step information with its step')
        self.fits_theta = getattr(self, 'fits_theta', [])
        self.fits_theta.append(list(dataset.theta_list))

    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        if not self.episodic:
            return super().episode_start_vectorized(initial_states, episode_info, start_mask)
        self.nt += 1
        th = self.ctx.array('th%d' % self.nt, (self.n, 1))
        for i in range(self.n):
            if bool(start_mask[i]):
                self.thetas[i].append(th[i])
        return None, th

    def stop(self):
        self.n_stop += 1


def cpy(x):
    if isinstance(x, torch.Tensor):
        return x.clone()
    return x.copy() if isinstance(x, np.ndarray) else x


def history(ctx, env, h, allow_cut=()):
    """per environment transitions implied by its log: (state, action, reward, next, absorbing, last, log position)"""
    out = []
    for i, hist in enumerate(env.hist):
        tr, s, t, last = [], None, 0, True
        for pos, ev in enumerate(hist):
            if ev[0] == 'reset':
                ctx.check(last, 'an environment is reset only at the start and after the end of its episode')
                s, t, last = ev[1], 0, False
            else:
                ctx.check(s is not None and not last, 'an environment is stepped only within an episode')
                t += 1
                last = t >= h or bool(ev[4])
                tr.append((s, ev[1], ev[3], ev[2], ev[4], last, pos))
                s = ev[2]
        out.append(tr)
    return out


def block(ctx, trs):
    """flattened dataset of per-environment lists: environments one after the other, each block closed"""
    out = []
    for tr in trs:
        for j, t in enumerate(tr):
            out.append(t[:5] + (t[5] or j == len(tr) - 1,))
    return out


def same_data(ctx, got, want, label):
    ctx.check(len(got) == len(want), label + ' (count)', '%d instead of %d' % (len(got), len(want)))
    for g, w in zip(got, want):
        ctx.eq(g[0].reshape(-1)[0], w[0], label + ': state')
        ctx.eq(g[1], w[1], label + ': action')
        ctx.eq(g[2], w[2], label + ': reward')
        ctx.eq(g[3].reshape(-1)[0], w[3], label + ': next state')
        ctx.eq(g[4], w[4], label + ': absorbing')
        ctx.eq(g[5], np.bool_(w[5]), label + ': last')


def build(ctx, n, h, be='numpy', episodic=False, stateful=False):
    env = VEnv(ctx, n, h, be)
    pol = VPol(ctx, n, be, stateful)
    ag = VAg(env.info, pol, n, ctx, episodic, be)
    ag.env = env
    return env, pol, ag


def learn(ctx, h, n=2, ns=None, ne=None, k=None, e=None, be='numpy', episodic=False, stateful=False):
    env, pol, ag = build(ctx, n, h, be, episodic, stateful)
    fitlens = []
    VectorCore(ag, env, callbacks_fit=[lambda d: fitlens.append(1)]).learn(
        n_steps=ns, n_episodes=ne, n_steps_per_fit=k, n_episodes_per_fit=e, quiet=True)
    trs = history(ctx, env, h)
    tot, eps = sum(map(len, trs)), sum(t[5] for tr in trs for t in tr)
    if ns is not None:
        ctx.check(ns <= tot < ns + n, 'the requested number of steps, up to the last parallel step')
    else:
        ctx.check(eps == ne, 'exactly the requested number of episodes', '%d' % eps)
    # fits
    prev = [0] * n
    for f, at in enumerate(ag.fit_at):
        seg = [[t for t in tr if prev[i] <= t[6] < at[i]] for i, tr in enumerate(trs)]
        same_data(ctx, ag.fits[f], block(ctx, seg), 'fit on exactly the transitions since the previous fit')
        if e is not None:
            ctx.check(sum(t[5] for tr in seg for t in tr) == e, 'each fit sees the requested number of episodes')
            ctx.check(all(not tr or tr[-1][5] for tr in seg), 'only complete episodes are fitted')
        else:
            ctx.check(sum(map(len, seg)) == k, 'each fit sees the requested number of steps')
        if episodic:
            want = []
            for i, tr in enumerate(trs):
                ends = [t[6] for t in tr if t[5]]
                for q, p in enumerate(ends):
                    if prev[i] <= p < at[i]:
                        want.append(ag.thetas[i][q])
            ctx.eq(ag.fits_theta[f], want, 'parameters are listed in the order of the episodes they generated')
        prev = at
    rest = sum(1 for i, tr in enumerate(trs) for t in tr if t[6] >= prev[i])
    if k is not None:
        ctx.check(rest < k, 'no fit is skipped')
    else:
        ctx.check(sum(t[5] for i, tr in enumerate(trs) for t in tr if t[6] >= prev[i]) < e, 'no fit is skipped')
    ctx.check(len(fitlens) == len(ag.fits), 'fit callbacks follow every fit')
    ctx.check(ag.n_stop == 1 and env.n_stop == 1, 'agent and environments are stopped once')
    if stateful:
        # policy state: reset rows for environments that restart, previous output otherwise
        ns_, started, j = None, False, 0
        ri = 0
        d = 0
        cur = [None] * n
        for call, m in env.calls:
            if call == 'reset':
                for i in range(n):
                    if m[i]:
                        cur[i] = pol.rst[ri][i]
                ri += 1
            else:
                for i in range(n):
                    if m[i]:
                        ctx.eq(pol.drawn[d][1][i], cur[i], 'policy state follows its own environment')
                cur = [pol.drawn[d][3][i] for i in range(n)]
                d += 1


@scenario('P04', B % 2, quick=[dict(h=2, ns=4, k=2), dict(h=2, ns=8, k=4), dict(h=3, ns=6, k=6)],
          thorough=[dict(h=3, ns=8, k=4)])
def vec_learn_steps(ctx, h, ns, k):
    learn(ctx, h, ns=ns, k=k)


@scenario('P04', B % 2, quick=[dict(h=2, ne=3, e=1), dict(h=2, ne=4, e=2), dict(h=2, ne=3, e=3)],
          thorough=[dict(h=3, ne=3, e=3), dict(h=2, ne=6, e=3)])
def vec_learn_episodes(ctx, h, ne, e):
    learn(ctx, h, ne=ne, e=e)


@scenario('P04', B % 2, quick=[dict(h=2, ns=5, e=3), dict(h=1, ns=5, e=2)])
def vec_learn_steps_per_episode_fit(ctx, h, ns, e):
    learn(ctx, h, ns=ns, e=e)


@scenario('P04', B % 2, quick=[dict(h=2, ne=2, k=2)])
def vec_learn_episodes_step_fit(ctx, h, ne, k):
    learn(ctx, h, ne=ne, k=k)


@scenario('P04', B % 2 + '; torch environment and agent', quick=[dict(h=2, ns=4, k=4)], tol=1e-4)
def vec_learn_torch(ctx, h, ns, k):
    learn(ctx, h, ns=ns, k=k, be='torch')


@scenario('P04', B % 2 + '; torch environment and agent', quick=[dict(h=2, ne=3, e=3)], tol=1e-4)
def vec_learn_torch_episodes(ctx, h, ne, e):
    learn(ctx, h, ne=ne, e=e, be='torch')


@scenario('P04', B % 2 + '; agent that draws parameters per episode', quick=[dict(h=2, ne=4, e=2), dict(h=2, ne=3, e=3)])
def vec_learn_episodic(ctx, h, ne, e):
    learn(ctx, h, ne=ne, e=e, episodic=True)


@scenario('P04', B % 2 + '; policy with an internal state', quick=[dict(h=2, ns=6, k=6), dict(h=3, ns=6, k=4)])
def vec_learn_stateful(ctx, h, ns, k):
    learn(ctx, h, ns=ns, k=k, stateful=True)


@scenario('P04', B % 3, quick=[dict(h=2, ne=4, e=4)], thorough=[dict(h=2, ne=5, e=5), dict(h=2, ne=6, e=3)])
def vec_learn_three(ctx, h, ne, e):
    learn(ctx, h, n=3, ne=ne, e=e)


@scenario('P04', B % 2 + '; evaluation by steps and by episodes',
          quick=[dict(h=2, ns=4), dict(h=2, ns=5, fmt='dict'), dict(h=2, ne=3), dict(h=2, ne=1), dict(h=3, ne=2, fmt='dict')])
def vec_evaluate(ctx, h, ns=None, ne=None, fmt='list'):
    env, pol, ag = build(ctx, 2, h)
    env.fmt = fmt
    d = VectorCore(ag, env).evaluate(n_steps=ns, n_episodes=ne, quiet=True)
    trs = history(ctx, env, h)
    tot, eps = sum(map(len, trs)), sum(t[5] for tr in trs for t in tr)
    if ns is not None:
        ctx.check(ns <= tot < ns + 2, 'the requested number of steps, up to the last parallel step')
    else:
        ctx.check(eps == ne, 'exactly the requested number of episodes')
    ctx.check(not ag.fits, 'evaluation never fits')
    same_data(ctx, [d[i] for i in range(len(d))], block(ctx, trs), 'the returned dataset is the history of each environment')
    d.info.parse()
    ctx.check(set(d.info.keys()) == {'x'}, 'the fields of the step information')
    x = d.get_info('x')
    ctx.check(len(x) == len(d), 'step information of every step')
    for i in range(len(d)):
        ctx.eq(x[i], 2. * d[i][2], 'the step information stays with its step')


@scenario('P04', B % 2 + '; evaluation from 1-4 given initial states', quick=[dict(h=2, k=1), dict(h=2, k=2), dict(h=2, k=3), dict(h=1, k=4)],
          thorough=[dict(h=3, k=3)])
def vec_initial_states(ctx, h, k):
    """one episode per given initial state, each starting there"""
    env, pol, ag = build(ctx, 2, h)
    init = ctx.array('init', (k, 1))
    given = init.copy()
    try:
        d = VectorCore(ag, env).evaluate(initial_states=init, quiet=True)
    except (IndexError, ValueError, TypeError) as e:
        ctx.check(False, 'evaluation from given initial states', repr(e))
    trs = history(ctx, env, h)
    ctx.check(sum(t[5] for tr in trs for t in tr) == k, 'exactly one episode per initial state')
    starts = [ev[1] for hist in env.hist for ev in hist if ev[0] == 'reset']
    ctx.check(len(starts) == k, 'exactly one reset per initial state')
    for j in range(k):
        # as often among the starts as among the given states
        ctx.eq(asum([ite(ctx.same(x, given[j][0]), 1, 0) for x in starts]), asum([ite(ctx.same(given[q][0], given[j][0]), 1, 0) for q in range(k)]),
               'every initial state starts its episode')
    ctx.eq(init, given, 'the given states are left alone')
    same_data(ctx, [d[i] for i in range(len(d))], block(ctx, trs), 'the returned dataset is the history of each environment')


class VFrames(VEnv):
    def render_all(self, env_mask, record=False):
        m = self.act(env_mask)
        self.calls.append(('render', m, record))
        return [('frame', i, len([e for e in self.hist[i] if e[0] == 'step'])) if record else None for i in range(self.n)]


@scenario('P04', B % 2 + '; evaluation of 1 or 3 episodes, rendered and recorded', quick=[dict(h=2, ne=1, record=True), dict(h=2, ne=3, record=True),
                                                                                       dict(h=2, ne=3, record=False)])
def vec_recording(ctx, h, ne, record):
    """the steps of every environment are recorded once, in order, by a recorder of its own"""
    env = VFrames(ctx, 2, h)
    ag = VAg(env.info, VPol(ctx, 2, 'numpy'), 2, ctx)
    ag.env = env
    made = []
    core = VectorCore(ag, env, record_dictionary=dict(recorder_class=recorder(made), fps=7))
    core.evaluate(n_episodes=ne, quiet=True, render=True, record=record)
    steps = [c for c in env.calls if c[0] == 'step']
    rend = [c for c in env.calls if c[0] == 'render']
    ctx.check([c[1] for c in rend] == [c[1] for c in steps] and all(c[2] == record for c in rend), 'the environments that moved are rendered')
    n = [len([e for e in hist if e[0] == 'step']) for hist in env.hist]
    want = [[('frame', i, k + 1) for k in range(n[i])] if record else [] for i in range(2)]
    got = [[f for f in r.log if f != 'stop'] for r in made]
    used = [g for g in got if g]
    ctx.check(all(w in got for w in want) and len(used) == sum(bool(w) for w in want), 'every frame is recorded once, by the recorder of its environment')
    ctx.check(all(r.log[-1] == 'stop' and r.log.count('stop') == 1 for r in made if len(r.log) > 0), 'recordings end with the run')
    ctx.check(all(r.fps == 7 for r in made), 'the recorders are built from the given settings')


class Aff(object):
    def __init__(self, ctx, a, b):
        self.ctx, self.a, self.b, self.ups = ctx, a, b, []

    def __call__(self, obs):
        return obs * self.a + self.b

    def update(self, obs):
        self.ups.append(obs)


@scenario('P04', B % 2 + '; a core preprocessor with an arbitrary affine map, 2 parallel steps')
def vec_preprocessor(ctx):
    env, pol, ag = build(ctx, 2, 3)
    a, b = ctx.reals('c', 2)
    p = Aff(ctx, a, b)
    ag.add_core_preprocessor(p)
    d = VectorCore(ag, env).evaluate(n_steps=4, quiet=True)
    trs = history(ctx, env, 3)
    for t in [t for tr in trs for t in tr]:
        # statistics see the observations themselves
        ctx.check(LOR(*[ctx.same(u[e][0], t[3]) for u in p.ups for e in range(2)]), 'statistics are updated with every observation')
    j = 0
    for tr in trs:
        for t in tr:
            ctx.eq(d.state[j][0], t[0] * a + b, 'stored state is preprocessed exactly once')
            ctx.eq(d.next_state[j][0], t[3] * a + b, 'stored next state is preprocessed exactly once')
            j += 1


@scenario('P04', B % 2 + '; fit period that is not a multiple of the number of environments', quick=[dict(h=9, ns=8, k=3)])
def vec_learn_uneven(ctx, h, ns, k):
    env, pol, ag = build(ctx, 2, h)
    VectorCore(ag, env).learn(n_steps=ns, n_steps_per_fit=k, quiet=True)
    trs = [t for tr in history(ctx, env, h) for t in tr]
    seen = [x for f in ag.fits for x in f]
    ctx.check(all(len(f) == k for f in ag.fits), 'each fit sees the requested number of steps')
    ok = np.True_
    for t in trs:
        n = asum([ite(LAND(ctx.same(x[2], t[2]), ctx.same(x[0][0], t[0]), ctx.same(x[3][0], t[3])), 1, 0) for x in seen])
        distinct = LAND(*[LNOT(ctx.same(t[2], u[2])) for u in trs if u is not t])
        ok = LAND(ok, LOR(LNOT(distinct), binop('le', n, 1)))
    ctx.check(ok, 'no transition is fitted twice')
