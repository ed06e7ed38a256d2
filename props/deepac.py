"""Off-policy deep actor-critic: DDPG, TD3, SAC (P15)."""
from props.common import *
from mushroom_rl.algorithms.actor_critic import DDPG, TD3, SAC
from mushroom_rl.policy import Policy

LO, HI = -2.0, 3.0


class Par:
    """a network parameter: what TorchUtils and optimizers touch"""

    def __init__(self, data):
        self.data = data
        self.grad = None
        self.requires_grad = True

    def numel(self):
        return int(np.prod(self.data.shape))


class World:
    """creates the networks and optimizers of one agent; all weights are arbitrary, and arbitrary again after every optimizer step"""

    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n          # n transitions: states 2i, next states 2i+1
        self.nets = []
        self.fits = []
        self.steps = []
        self.k = 0
        w = self

        class Net:
            n_out = 1

            def __init__(self, input_shape, output_shape, **kw):
                self.p = Par(w.fresh((2 * n * self.n_out,)))
                w.nets.append(self)

            def to(self, d):
                return self

            def parameters(self):
                return [self.p]

            def rows(self, state):
                return [int(x) for x in state.reshape(-1)]

            def __deepcopy__(self, memo):
                return self

        class Actor(Net):
            """deterministic actor or one head of a Gaussian one: an arbitrary action per state"""

            def __call__(self, state, **kw):
                return torch.stack([self.p.data[i] for i in self.rows(state)]).reshape(-1, 1)

        class Critic(Net):
            """Q(s, a) = w_s + u_s a with arbitrary w, u"""
            n_out = 2

            def __call__(self, state, action, **kw):
                r = self.last = self.rows(state)
                a = action.reshape(-1)
                return torch.stack([self.p.data[2 * i] + self.p.data[2 * i + 1] * a[j] for j, i in enumerate(r)])

        class Opt(Protocol):
            def __init__(self, params, **kw):
                self.params = list(params)
                self.kw = kw
                self.n = 0
                self.ctx = ctx

            def zero_grad(self, *a, **k):
                self.clearing()

            def step(self, *a, **k):
                self.stepping()
                w.steps.append(self)
                for p in self.params:
                    p.data = w.fresh(tuple(p.data.shape))

        def loss(y_hat, y, reduction='mean'):
            w.fits.append((y_hat, y))
            return ((y_hat - y) ** 2).mean()
        self.Actor, self.Critic, self.Opt, self.loss = Actor, Critic, Opt, loss

    def fresh(self, shape):
        self.k += 1
        return self.ctx.tensor('w%d' % self.k, shape, -8, 8)


def q(w, i, a):
    return w[2 * i] + w[2 * i + 1] * a


class ActPolicy(Policy):
    def __init__(self, mu, stateful=False):
        super().__init__((1,) if stateful else None)
        self.mu = mu

    def draw_action(self, state, policy_state=None):
        return self.mu(state), None

    def reset(self):
        return None


class Run:
    def __init__(self, ctx, cls, n, batch=1, cap=1, init=0, opt=None, **kw):
        self.ctx = ctx
        self.W = W = World(ctx, n)
        self.g, self.tau = ctx.real('gamma', 0, 1), ctx.real('tau', 0, 1)
        info = MDPInfo(Box(0, 100, (1,)), Box(LO, HI, (1,)), self.g, 10)
        critic = dict(network=W.Critic, optimizer={'class': W.Opt, 'params': {}}, loss=W.loss, input_shape=(2,), output_shape=(1,))
        opt = opt or {'class': W.Opt, 'params': {}}
        if cls is SAC:
            self.ag = cls(info, dict(network=W.Actor, input_shape=(1,), output_shape=(1,)),
                          dict(network=W.Actor, input_shape=(1,), output_shape=(1,)), opt, critic, batch, init, cap, 0, self.tau, 1e-3, **kw)
        else:
            self.ag = cls(info, ActPolicy, dict(stateful=kw.pop('stateful', False)),
                          dict(network=W.Actor, input_shape=(1,), output_shape=(1,)), opt, critic, batch, init, cap, self.tau, **kw)
        self.nets = {}
        self.ts = []

    def feed(self, n=1):
        ctx = self.ctx
        d = Dataset.generate(self.ag.mdp_info, self.ag.info, n_steps=n)
        for _ in range(n):
            i = len(self.ts)
            t = [ctx.arr([2.0 * i]), ctx.array('a%d' % i, (1,), LO, HI), ctx.real('r%d' % i), ctx.arr([2.0 * i + 1]),
                 ctx.bool('ab%d' % i), ctx.bool('l%d' % i)]
            if self.ag.info.is_stateful:
                t += [ctx.arr([0.0]), ctx.arr([0.0])]
            self.ts.append(t)
            d.append(tuple(t), {})
        ctx.losses[:] = []
        self.W.fits[:] = []
        self.W.steps[:] = []
        self.ag.fit(d)


def soft(tau, on, tg):
    return [tau * on[i] + (1 - tau) * tg[i] for i in range(len(on))]


def snap(net):
    return [net.p.data[i] for i in range(len(net.p.data))]


AB = '%s fits with one new transition each, batch of 1; networks, transitions, discount and soft-update rate arbitrary'


@scenario('P15', AB % '3', quick=[dict(delay=1, stateful=False), dict(delay=2, stateful=True)], tol=1e-3)
def ddpg(ctx, delay, stateful):
    R = Run(ctx, DDPG, 3, policy_delay=delay, stateful=stateful)
    W = R.W
    critic, tcritic, actor, tactor = W.nets
    ctx.eqs(list(zip(snap(tcritic), snap(critic))) + list(zip(snap(tactor), snap(actor))), 'target networks start as copies')
    for k in range(3):
        c, tc, a, ta = [snap(x) for x in W.nets]
        R.feed()
        t = R.ts[k]
        want = t[2] + ite(t[4], 0.0, R.g * q(tc, 2 * k + 1, ta[2 * k + 1]))
        ctx.check(len(W.fits) == 1, 'one critic regression per fit')
        ctx.eq(W.fits[0][1].reshape(-1)[0], want, 'critic target of the target networks')
        ctx.eq(W.fits[0][0].reshape(-1)[0], q(c, 2 * k, t[1][0]), 'the critic is fitted at the transition')
        upd = k % delay == 0
        ctx.check(len(ctx.losses) == (2 if upd else 1), 'the actor is updated every policy_delay fits')
        if upd:
            c2 = snap(critic)
            ctx.eq(ctx.losses[1].reshape(-1)[0], 0.0 - q(c2, 2 * k, a[2 * k]), 'the actor ascends the online critic at its own action')
        else:
            ctx.eqs(list(zip(snap(actor), a)), 'the actor waits')
        for on, tg, old in ((critic, tcritic, tc), (actor, tactor, ta)):
            ctx.eqs(list(zip(snap(tg), soft(R.tau, snap(on), old))), 'soft update of the target networks')


@scenario('P15', AB % '2' + '; arbitrary noise', quick=[dict(delay=1), dict(delay=2)], tol=1e-3, max_paths=500)
def td3(ctx, delay):
    std, clip = 0.5, 0.75
    R = Run(ctx, TD3, 2, policy_delay=delay, noise_std=std, noise_clip=clip)
    W = R.W
    c0, c1, t0, t1, actor, tactor = W.nets
    ctx.eqs([p for x, y in ((t0, c0), (t1, c1), (tactor, actor)) for p in zip(snap(x), snap(y))], 'target networks start as copies')
    for k in range(2):
        s = [snap(x) for x in W.nets]
        del ctx.normals[:]
        R.feed()
        t = R.ts[k]
        ctx.check(len(W.fits) == 2, 'both critics are fitted')
        y = [f[1].reshape(-1)[0] for f in W.fits]
        ctx.eq(y[0], y[1], 'both critics share the target')
        ctx.check(len(ctx.normals) == 1, 'one noise draw per action')
        e = amax([-clip, amin([ctx.normals[0] * std, clip])])
        a = amax([LO, amin([s[5][2 * k + 1] + e, HI])])
        want = t[2] + ite(t[4], 0.0, R.g * amin([q(s[2], 2 * k + 1, a), q(s[3], 2 * k + 1, a)]))
        ctx.eq(y[0], want, 'clipped double-Q target at the smoothed target action')
        upd = k % delay == 0
        ctx.check(len(ctx.losses) == (3 if upd else 2), 'delayed actor update')
        if upd:
            ctx.eq(ctx.losses[2].reshape(-1)[0], 0.0 - q(snap(c0), 2 * k, s[4][2 * k]), 'the actor ascends the first critic')
        for on, tg, old in ((c0, t0, s[2]), (c1, t1, s[3]), (actor, tactor, s[5])):
            ctx.eqs(list(zip(snap(tg), soft(R.tau, snap(on), old))), 'soft update of the target networks')


@scenario('P15', AB % '1 or 2' + '; arbitrary noise and temperature', quick=[dict(log_alpha=False, N=1), dict(log_alpha=True, N=1)],
          thorough=[dict(log_alpha=False, N=2)], tol=1e-3, max_paths=500)
def sac(ctx, log_alpha, N):
    """soft actor-critic: policy loss, temperature loss, critic target with entropy bonus, soft update"""
    R = Run(ctx, SAC, N, use_log_alpha_loss=log_alpha, target_entropy=-1.5, log_std_min=-2, log_std_max=1)
    W = R.W
    c0, c1, t0, t1, mu, sg = W.nets
    ctx.eqs([p for x, y in ((t0, c0), (t1, c1)) for p in zip(snap(x), snap(y))], 'target networks start as copies')
    dl, ce = (HI - LO) / 2, (HI + LO) / 2
    for k in range(N):
        s = [snap(x) for x in W.nets]
        del ctx.normals[:]
        R.feed()
        t = R.ts[k]
        ctx.check(len(ctx.normals) == 2, 'one action for the policy update and one for the target')

        def act(mw, sw, i, z):
            sd = torch.exp(torch.clamp(T(ctx, sw[i]), -2.0, 1.0))
            raw = T(ctx, mw[i]) + sd * T(ctx, z)
            th = torch.tanh(raw)
            unsaturated(ctx, th)
            lp = torch.distributions.Normal(T(ctx, mw[i]), sd).log_prob(raw) - torch.log(1.0 - th * th + 1e-6)
            return th[0] * dl + ce, lp[0]
        # the temperature starts at 1 (log alpha = 0)
        a, lp = act(s[4], s[5], 2 * k, ctx.normals[0])
        if k == 0:
            ctx.eq(ctx.losses[0].reshape(-1)[0], lp - amin([q(s[0], 2 * k, a), q(s[1], 2 * k, a)]), 'policy loss')
            ctx.eq(ctx.losses[1].reshape(-1)[0], 0.0 if log_alpha else 0.0 - (lp - 1.5), 'temperature loss')
        mw, sw = snap(mu), snap(sg)
        a2, lp2 = act(mw, sw, 2 * k + 1, ctx.normals[1])
        if k == 0:
            y = [f_[1].reshape(-1)[0] for f_ in W.fits]
            ctx.check(len(y) == 2, 'both critics are fitted')
            want = t[2] + ite(t[4], 0.0, R.g * (amin([q(s[2], 2 * k + 1, a2), q(s[3], 2 * k + 1, a2)]) - lp2))
            for v in y:
                ctx.eq(v, want, 'soft target of the target critics at a fresh action')
        for on, tg, old in ((c0, t0, s[2]), (c1, t1, s[3])):
            ctx.eqs(list(zip(snap(tg), soft(R.tau, snap(on), old))), 'soft update of the target networks')


class Temperature:
    """stands in for the optimizer of the temperature: moves it to given values"""
    path, made = [], []

    def __init__(self, params, lr=None, **kw):
        self.params, self.lr, self.pending, self.used = list(params), lr, 0, []
        Temperature.made.append(self)

    def zero_grad(self, *a, **k):
        self.pending = 0

    def step(self, *a, **k):
        self.used.append(self.pending)
        for p in self.params:
            p.data = torch.as_tensor(Temperature.path.pop(0))


@scenario('P15', '2 fits of SAC with one new transition each, the temperature moving along a given path; arbitrary networks, transitions and noise',
          quick=[dict(log_alpha=a, path=p) for a in (False, True) for p in ((-.5, .25), (.5, -1.))], tol=1e-3, max_paths=500)
def sac_temperature(ctx, log_alpha, path):
    """losses and targets weigh the entropy with the current temperature, which its own optimizer adapts once per fit"""
    Temperature.path, Temperature.made = list(path), []
    real = torch.optim.Adam
    torch.optim.Adam = Temperature
    try:
        R = Run(ctx, SAC, 2, use_log_alpha_loss=log_alpha, target_entropy=-1.5, log_std_min=-2, log_std_max=1)
    finally:
        torch.optim.Adam = real
    if len(Temperature.made) != 1:
        return                      # another optimizer: its path is not under control
    ctx.check(len(Temperature.made[0].params) == 1 and Temperature.made[0].lr == 1e-3, 'learning rate of the temperature')
    W = R.W
    opt = Temperature.made[0]

    def back(loss):
        ctx.losses.append(loss)
        opt.pending += 1
    ctx.on_backward = back
    c0, c1, t0, t1, mu, sg = W.nets
    dl, ce = (HI - LO) / 2, (HI + LO) / 2
    for k in range(2):
        L, L2 = (0., path[0]) if k == 0 else path
        s = [snap(x) for x in W.nets]
        del ctx.normals[:]
        R.feed()
        t = R.ts[k]
        ctx.check(len(Temperature.path) == 1 - k, 'the temperature is adapted once per fit')
        ctx.check(opt.used[k] == 1, 'the temperature descends the gradient of its own loss in this fit')

        def act(mw, sw, i, z):
            sd = torch.exp(torch.clamp(T(ctx, sw[i]), -2.0, 1.0))
            raw = T(ctx, mw[i]) + sd * T(ctx, z)
            th = torch.tanh(raw)
            unsaturated(ctx, th)
            lp = torch.distributions.Normal(T(ctx, mw[i]), sd).log_prob(raw) - torch.log(1.0 - th * th + 1e-6)
            return th[0] * dl + ce, lp[0]
        a, lp = act(s[4], s[5], 2 * k, ctx.normals[0])
        e, e2 = float(np.exp(L)), float(np.exp(L2))
        ctx.eq(ctx.losses[0].reshape(-1)[0], e * lp - amin([q(s[0], 2 * k, a), q(s[1], 2 * k, a)]), 'policy loss')
        ctx.eq(ctx.losses[1].reshape(-1)[0], 0.0 - (L if log_alpha else e) * (lp - 1.5), 'temperature loss')
        a2, lp2 = act(snap(mu), snap(sg), 2 * k + 1, ctx.normals[1])
        want = t[2] + ite(t[4], 0.0, R.g * (amin([q(s[2], 2 * k + 1, a2), q(s[3], 2 * k + 1, a2)]) - e2 * lp2))
        for f_ in W.fits:
            ctx.eq(f_[1].reshape(-1)[0], want, 'soft target with the new temperature')


@scenario('P15', 'one fit on a batch of 2 drawn from 2 arbitrary transitions; networks, discount, noise arbitrary',
          quick=[dict(alg='ddpg'), dict(alg='td3'), dict(alg='sac')], tol=1e-3, max_paths=500)
def batch(ctx, alg):
    """each row of a batch is regressed on its own target; losses average over the batch; warm-up delays the actor"""
    cls = dict(ddpg=DDPG, td3=TD3, sac=SAC)[alg]
    kw = dict(target_entropy=-1.0, log_std_min=-2, log_std_max=1) if alg == 'sac' else dict(noise_std=0.5, noise_clip=0.75) if alg == 'td3' else {}
    R = Run(ctx, cls, 2, batch=2, cap=2, init=1, **kw)
    W = R.W
    R.feed(1)
    ctx.check(not W.fits and not ctx.losses, 'no learning before the initial replay size is reached')
    s = [snap(x) for x in W.nets]
    del ctx.normals[:]
    R.feed(1)
    rows = W.nets[0].last
    ctx.check(len(rows) == 2 and all(i in (0, 2) for i in rows), 'the batch holds stored transitions')
    nc = 1 if alg == 'ddpg' else 2
    ctx.check(len(W.fits) == nc, 'every critic is fitted once')
    z = ctx.normals[-2:]
    for j, i in enumerate(rows):
        t = R.ts[i // 2]
        bonus = 0.0
        if alg == 'ddpg':
            qn = q(s[1], i + 1, s[3][i + 1])
        elif alg == 'td3':
            e = torch.clamp(T(ctx, z[j] * 0.5), -0.75, 0.75)
            a = torch.clamp(T(ctx, s[5][i + 1]) + e, LO, HI)[0]
            qn = amin([q(s[2], i + 1, a), q(s[3], i + 1, a)])
        else:
            m, sd = T(ctx, snap(W.nets[4])[i + 1]), torch.exp(torch.clamp(T(ctx, snap(W.nets[5])[i + 1]), -2.0, 1.0))
            raw = m + sd * T(ctx, z[j])
            th = torch.tanh(raw)
            unsaturated(ctx, th)
            bonus = (torch.distributions.Normal(m, sd).log_prob(raw) - torch.log(1.0 - th * th + 1e-6))[0]
            a = th[0] * (HI - LO) / 2 + (HI + LO) / 2
            qn = amin([q(s[2], i + 1, a), q(s[3], i + 1, a)])
        want = t[2] + ite(t[4], 0.0, R.g * (qn - bonus))
        for f in W.fits:
            ctx.check(f[0].reshape(-1).shape[0] == 2 and f[1].reshape(-1).shape[0] == 2, 'one target per transition')
            ctx.eq(f[1].reshape(-1)[j], want, 'each row has its own target')
        ctx.eq(W.fits[0][0].reshape(-1)[j], q(s[0], i, t[1][0]), 'each row is predicted at its own state and action')
    if alg != 'sac':
        am, cm = (2, 0) if alg == 'ddpg' else (4, 0)
        ctx.eq(ctx.losses[-1].reshape(-1)[0], 0.0 - asum([q(snap(W.nets[cm]), i, s[am][i]) for i in rows]) / 2,
               'the actor loss averages over the batch')


def T(ctx, x):
    return x.reshape(1) if isinstance(x, torch.Tensor) else ctx.to_tensor(ctx.pack([x], (1,)))


class Descent:
    """gradient descent with arbitrary gradients, for agents that clip them: what the optimizer applies is what counts"""

    def __init__(self, ctx, lr):
        self.ctx = ctx
        self.owners = []           # parameters handed to the optimizer
        self.grads = []
        self.steps = 0
        D = self

        class Opt:
            def __init__(self, params, **kw):
                self.params = list(params)
                D.owners.append(self.params)

            def zero_grad(self, *a, **k):
                for p in self.params:
                    p.grad = None

            def step(self, *a, **k):
                D.steps += 1
                for p in self.params:
                    p.used = p.raw
                    p.data = p.data - lr * p.grad
        self.Opt = Opt

    def back(self, loss):
        """every backward pass leaves an arbitrary gradient in the parameters without one"""
        self.ctx.losses.append(loss)
        for ps in self.owners:
            for p in ps:
                if p.grad is None:
                    g = self.ctx.tensor('g%d' % len(self.grads), (1,), -8, 8)
                    self.grads.append(g)
                    p.raw = g
                    p.grad = g.reshape(1).expand(tuple(p.data.shape)).clone()


@scenario('P15', 'one fit of each agent with a clipping method given with the actor optimizer: arbitrary gradient and clipping factor',
          quick=[dict(alg='ddpg'), dict(alg='td3'), dict(alg='sac')], tol=1e-3, max_paths=500)
def clipping(ctx, alg):
    """the actor moves along the clipped gradient, the clipping method being called with its parameters"""
    D = Descent(ctx, 0.5)
    f = ctx.real('factor', 0, 1)

    def clip(params, factor, mode):
        for p in params:
            p.grad = p.grad * (factor if mode == 'scale' else 0.0)
    opt = {'class': D.Opt, 'params': {}, 'clipping': {'method': clip, 'params': dict(factor=f, mode='scale')}}
    cls, i, kw = dict(ddpg=(DDPG, [2], {}), td3=(TD3, [4], {}), sac=(SAC, [4, 5], dict(target_entropy=-1.5)))[alg]
    R = Run(ctx, cls, 1, opt=opt, **kw)
    actors = [R.W.nets[j] for j in i]
    before = [snap(a) for a in actors]
    ctx.on_backward = D.back
    try:
        R.feed()
    finally:
        ctx.on_backward = ctx.losses.append
    ctx.check(D.steps == 1, 'one actor step')
    ctx.check(len(D.owners) == 1 and len(D.owners[0]) == len(actors), 'the optimizer owns the parameters of the actor')
    for a, b in zip(actors, before):
        ctx.eqs([(y, x - 0.5 * f * a.p.used[0]) for x, y in zip(b, snap(a))], 'the actor descends the clipped gradient')
