"""Distributional and network-head variants of DQN (P12)."""
from props.common import *
from mushroom_rl.algorithms.value import CategoricalDQN, QuantileDQN, Rainbow
from mushroom_rl.algorithms.value.dqn.categorical_dqn import CategoricalNetwork, categorical_loss
from mushroom_rl.algorithms.value.dqn.quantile_dqn import QuantileNetwork, quantile_huber_loss
from mushroom_rl.algorithms.value.dqn.dueling_dqn import DuelingNetwork
from mushroom_rl.algorithms.value.dqn.noisy_dqn import NoisyNetwork
from mushroom_rl.algorithms.value.dqn.rainbow import RainbowNetwork
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory

NA = 2
VMIN, VMAX, ATOMS = -2., 4., 3
DELTA = (VMAX - VMIN) / (ATOMS - 1)
Z = [VMIN + DELTA * i for i in range(ATOMS)]


class Feat(torch.nn.Module):
    """the features are the state itself"""

    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self.shapes = (tuple(input_shape), tuple(output_shape))

    def forward(self, state, action=None):
        return state


def ctx_free(shape, k):
    n = int(np.prod(shape))
    return np.array([(1 + (7 * i + k) % 13) / 32 for i in range(n)]).reshape(shape)


class Spy:
    """stands for an approximator: arbitrary distribution per state and action, arbitrary action values"""

    def __init__(self, ctx, nm, n_states, n, dist, fixed=False):
        self.ctx, self.nm, self.n = ctx, nm, n
        self.q = ctx.array(nm + 'q', (n_states, NA))
        self.fixed = fixed
        self.dist = dist
        self.d = self._dist(nm, (n_states, NA, n))
        self.log = []
        self.calls = 0
        self.n_states = n_states

    def _dist(self, nm, shape):
        if self.fixed:          # some concrete, pairwise different masses
            k = len(nm)
            return ctx_free(shape, k)
        return self.ctx.array(nm + 'd', shape, 0.01 if self.dist else None, 1 if self.dist else None)

    def _rows(self, state):
        return [int(x) for x in state.reshape(-1)]

    def predict(self, state, action=None, get_distribution=False, get_quantiles=False, **kw):
        rows = self._rows(state)
        ctx = self.ctx
        if not (get_distribution or get_quantiles):
            assert action is None
            return ctx.pack([self.q[i, a] for i in rows for a in range(NA)], (len(rows), NA))
        acts = [int(a) for a in action.reshape(-1)]
        return ctx.pack([self.d[i, a, k] for i, a in zip(rows, acts) for k in range(self.n)], (len(rows), self.n))

    def fit(self, state, action, target, **kw):
        self.log.append((state.copy(), action.copy(), target.copy(), dict(kw)))
        self.calls += 1
        nm = '%s_%d' % (self.nm, self.calls)
        self.q = self.ctx.array(nm + 'q', self.q.shape)
        self.d = self._dist(nm, self.d.shape)

    def get_weights(self):
        return (self.q.copy(), self.d.copy())

    def set_weights(self, w):
        self.q, self.d = w[0].copy(), w[1].copy()


def build(ctx, cls, gamma, n_tr, batch=1, cap=4, freq=2, clip=False, n_out=ATOMS, fixed=False, **kw):
    info = MDPInfo(Box(0, 100, (1,)), Discrete(NA), gamma, 10)
    with torch._C.DisableTorchFunction():
        ag = cls(info, ScriptPolicy(), dict(network=Feat, n_features=1, input_shape=(1,), output_shape=(NA,), n_actions=NA),
                 batch_size=batch, target_update_frequency=freq, initial_replay_size=0, max_replay_size=cap, clip_reward=clip, **kw)
    ag.approximator = Spy(ctx, 'on', 2 * n_tr, n_out, cls is not QuantileDQN, fixed)
    ag.target_approximator = Spy(ctx, 'tg', 2 * n_tr, n_out, cls is not QuantileDQN, fixed)
    return ag


class Feed:
    def __init__(self, ctx, ag, clip, rewards=None, flags=True):
        self.flags = flags
        self.ctx, self.ag, self.ts, self.clip, self.rewards = ctx, ag, [], clip, rewards

    def flag(self, i):
        if not self.flags:
            return np.False_
        b = self.ctx.bool('ab%d' % i)
        return b if self.flags == 'sym' else np.bool_(bool(b))

    def __call__(self, n=1, last=None):
        ctx = self.ctx
        d = Dataset.generate(self.ag.mdp_info, self.ag.info, n_steps=n)
        for k in range(n):
            i = len(self.ts)
            t = (ctx.arr([2.0 * i]), ctx.iarray('a%d' % i, (1,), 0, NA - 1),
                 ctx.real('r%d' % i) if self.rewards is None else ctx.pick('r%d' % i, self.rewards), ctx.arr([2.0 * i + 1]),
                 self.flag(i), ctx.bool('l%d' % i) if last is None else last[k])
            self.ts.append(t)
            d.append(t, {})
        k = len(self.ag.approximator.log)
        self.ag.fit(d)
        return self.ag.approximator.log[k:]

    def reward(self, i):
        r = self.ts[i][2]
        return clipv(r, -1.0, 1.0) if self.clip else r


def clipv(x, lo, hi):
    return amax([lo, amin([x, hi])])


def no_ties(ctx, q, rows):
    for i in rows:
        ctx.assume(q[i, 0] != q[i, 1])


def best(q, i):
    """the greedy action (no ties)"""
    return 0 if bool(q[i, 0] > q[i, 1]) else 1


def project(p, r, g):
    """the probability mass of r + g z_i, clipped to the support, shared linearly between the neighbouring atoms"""
    m = []
    for zj in Z:
        v = 0.0
        for pi, zi in zip(p, Z):
            t = clipv(r + g * zi, VMIN, VMAX)
            v = v + pi * amax([0.0, 1.0 - abs(t - zj) / DELTA])
        m.append(v)
    return m


MODES = 'either arbitrary rewards and some concrete distributions, or arbitrary distributions and 6 concrete rewards; ' \
        '3 atoms, 2 actions, arbitrary flags, discount 0.9'
RW = [-4.0, -2.0, -0.7, 0.1, 0.4, 5.0]


@scenario('P12', MODES + '; 1 to 3 fits, batch of 1 or 2', quick=[
    dict(batch=1, clip=False, free='r', N=1), dict(batch=1, clip=True, free='r', N=1), dict(batch=1, clip=False, free='p', N=1),
    dict(batch=1, clip=False, free='s', N=3),
    dict(batch=2, clip=False, free='p', N=1)], max_paths=3000, budget=60, tol=1e-5)
def categorical(ctx, batch, clip, free, N):
    g = 0.9
    ag = build(ctx, CategoricalDQN, g, 3, batch=batch, clip=clip, cap=batch, n_atoms=ATOMS, v_min=VMIN, v_max=VMAX, fixed=free == 'r')
    F = Feed(ctx, ag, clip, None if free == 'r' else RW[3:4] if free == 's' else RW if batch == 1 else RW[2:4], flags=N < 3)
    tq, td = ag.target_approximator.get_weights()
    for k in range(1, N + 1):
        no_ties(ctx, tq, range(1, 6, 2))
        log = F(batch)
        ctx.check(len(log) == 1, 'one regression per fit')
        s, a, m, kw = log[0]
        ctx.check(kw.get('get_distribution') is True, 'the distribution is fitted')
        for j in range(batch):
            i = int(s[j].reshape(-1)[0]) // 2
            ctx.eq(a[j], F.ts[i][1], 'the fitted action is the one of the transition')
            b = best(tq, 2 * i + 1)
            want = project([td[2 * i + 1, b, x] for x in range(ATOMS)], F.reward(i), ite(F.ts[i][4], 0.0, g))
            for x in range(ATOMS):
                ctx.eq(m[j][x], want[x], 'projection of the distributional Bellman target of the greedy action of the target network')
        if k % 2 == 0:
            tq, td = ag.approximator.get_weights()


@scenario('P12', MODES + '; one addition with 1- or 2-step returns, batch of 1', quick=[
    dict(n=1, free='p'), dict(n=2, free='p'), dict(n=2, free='r'), dict(n=1, free='p', clip=True)], max_paths=3000, budget=60, tol=1e-5)
def rainbow(ctx, n, free, clip=False):
    g = 0.9
    kls = []
    real = PrioritizedReplayMemory.update

    def update(self, error, idx):
        kls.append((error, idx))
        return real(self, error, idx)
    PrioritizedReplayMemory.update = update
    try:
        _rainbow(ctx, n, g, kls, free, clip)
    finally:
        PrioritizedReplayMemory.update = real


def _rainbow(ctx, n, g, kls, free, clip):
    ag = build(ctx, Rainbow, g, 3, batch=1, cap=2, n_atoms=ATOMS, v_min=VMIN, v_max=VMAX, n_steps_return=n, alpha_coeff=1., beta=1.,
               fixed=free == 'r', clip=clip)
    F = Feed(ctx, ag, clip, [-3., .5, 1.5] if clip else None if free == 'r' else RW[2:5] if n == 1 else RW[3:4])
    tq, td = ag.target_approximator.get_weights()
    oq, od = ag.approximator.get_weights()
    no_ties(ctx, oq, range(6))
    log = F(n, last=[False] * n)
    ctx.check(len(log) == 1, 'one regression per fit')
    s, a, m, kw = log[0]
    ctx.check(int(s.reshape(-1)[0]) == 0, 'the first state of the window')
    ctx.eq(a[0], F.ts[0][1], 'the first action of the window')
    e = 2 * (n - 1) + 1
    b = best(oq, e)
    r = F.reward(0) if n == 1 else F.ts[0][2] + g * F.ts[1][2]
    want = project([td[e, b, x] for x in range(ATOMS)], r, ite(F.ts[n - 1][4], 0.0, g ** n))
    for x in range(ATOMS):
        ctx.eq(m[0][x], want[x], 'projection of the n-step target: action of the online network, distribution of the target network')
    a0 = int(F.ts[0][1][0])
    kl = 0.0
    for x in range(ATOMS):
        kl = kl - m[0][x] * np.log(ctx.arr([amax([od[0, a0, x], 1e-5])]))[0]
    ctx.check(len(kls) == 1, 'one priority update per fit')
    ctx.eq(kls[0][0][0], kl, 'the new priority is the cross entropy between target and prediction')
    ctx.eq(kw['weights'], ctx.arr([1.0]), 'importance weights are handed to the regression')
    ctx.check(kw.get('get_distribution') is True, 'the distribution is fitted')


@scenario('P12', '3 fits, batch of 1, 2 quantiles; arbitrary networks, transitions and discount', quick=[dict(batch=1, clip=True),
          dict(batch=2, clip=False)], max_paths=3000, budget=60, tol=1e-5)
def quantile(ctx, batch, clip):
    g = ctx.real('gamma', 0, 1)
    ag = build(ctx, QuantileDQN, g, 3, batch=batch, clip=clip, cap=batch, n_out=2, n_quantiles=2)
    F = Feed(ctx, ag, clip, flags='sym')
    tq, td = ag.target_approximator.get_weights()
    for k in range(1, 4):
        no_ties(ctx, tq, range(1, 6, 2))
        log = F()
        ctx.check(len(log) == 1, 'one regression per fit')
        s, a, m, kw = log[0]
        ctx.check(kw.get('get_quantiles') is True, 'the quantiles are fitted')
        for j in range(batch):
            i = int(s[j].reshape(-1)[0]) // 2
            ctx.eq(a[j], F.ts[i][1], 'the fitted action is the one of the transition')
            b = best(tq, 2 * i + 1)
            for x in range(2):
                ctx.eq(m[j][x], F.reward(i) + ite(F.ts[i][4], 0.0, g * td[2 * i + 1, b, x]), 'quantile target')
        if k % 2 == 0:
            tq, td = ag.approximator.get_weights()


# ------------------------------------------------------------------ networks

def symbolize(ctx, module, nm='w'):
    """replace every parameter of a module by arbitrary values; returns {(module index, name): value}"""
    out = []
    for k, m in enumerate(module.modules()):
        for name in list(m._parameters):
            p = m._parameters[name]
            if p is None:
                continue
            v = ctx.tensor('%s%d%s' % (nm, k, name), tuple(p.shape), -8, 8)
            if ctx.symbolic:
                del m._parameters[name]
                m.__dict__[name] = v
            else:
                p.data.copy_(v)
            out.append((m, name, v))
    return out


def make(cls, **kw):
    with torch._C.DisableTorchFunction():
        return cls((2,), (NA,), features_network=Feat, n_features=2, **kw)


def linear(ctx, m, x):
    """m: (weight, bias), x: features of one state"""
    w, b = m
    return [asum([w[o][i] * x[i] for i in range(len(x))]) + b[o] for o in range(len(w))]


def gathers(ctx, net, s, full, acts, **kw):
    """asking for one action gives the entry of the full answer"""
    one = net(s, acts, **kw)
    for j in range(len(s)):
        a = int(acts[j][0])
        ctx.eq(one[j], full[j][a], 'the value of an action is the entry of that action')


@scenario('P12', '2 states of 2 features, 3 actions, arbitrary weights', quick=[dict(avg=True), dict(avg=False)], tol=1e-3)
def dueling_network(ctx, avg):
    with torch._C.DisableTorchFunction():
        net = DuelingNetwork((2,), (3,), features_network=Feat, n_features=2, avg_advantage=avg)
    par = symbolize(ctx, net)
    byo = {}
    for m, name, v in par:
        byo.setdefault(v.shape[0], {})[name] = v
    V, A = byo[1], byo[3]
    s = ctx.tensor('s', (2, 2), -8, 8)
    q = net(s)
    for j in range(2):
        v = linear(ctx, (V['weight'], V['bias']), s[j])[0]
        ad = linear(ctx, (A['weight'], A['bias']), s[j])
        base = asum(ad) / 3.0 if avg else amax(ad)
        for a in range(3):
            ctx.eq(q[j][a], v + ad[a] - base, 'Q = V + A - %s(A)' % ('mean' if avg else 'max'))
    gathers(ctx, net, s, q, ctx.itensor('act', (2, 1), 0, 2))


@scenario('P12', '2 states of 2 features, 2 actions, 2 quantiles, arbitrary weights', tol=1e-3)
def quantile_network(ctx):
    net = make(QuantileNetwork, n_quantiles=2)
    par = symbolize(ctx, net)
    heads = [(par[0][2], par[1][2]), (par[2][2], par[3][2])]
    s = ctx.tensor('s', (2, 2), -8, 8)
    d = net(s, get_quantiles=True)
    q = net(s)
    for j in range(2):
        for a in range(NA):
            want = linear(ctx, heads[a], s[j])
            for x in range(2):
                ctx.eq(d[j][a][x], want[x], 'one head per action')
            ctx.eq(q[j][a], asum(want) / 2, 'the value is the mean of the quantiles')
    acts = ctx.itensor('act', (2, 1), 0, 1)
    gathers(ctx, net, s, q, acts)
    gathers(ctx, net, s, d, acts, get_quantiles=True)


@scenario('P12', '2 states of 1 feature, 2 actions, 3 atoms, arbitrary weights', quick=[dict(kind='categorical'), dict(kind='rainbow')], tol=1e-3)
def distribution_network(ctx, kind):
    with torch._C.DisableTorchFunction():
        if kind == 'categorical':
            net = CategoricalNetwork((1,), (NA,), features_network=Feat, n_features=1, n_atoms=3, v_min=VMIN, v_max=VMAX)
        else:
            net = RainbowNetwork((1,), (NA,), features_network=Feat, n_features=1, n_atoms=3, v_min=VMIN, v_max=VMAX, sigma_coeff=.5)
    symbolize(ctx, net)
    s = ctx.tensor('s', (2, 1), -2, 2)
    if kind == 'categorical':
        d = net(s, get_distribution=True)
        q = net(s)
        for j in range(2):
            for a in range(NA):
                ctx.eq(asum(list(d[j][a])), 1.0, 'a distribution')
                for x in range(3):
                    ctx.check(d[j][a][x] >= 0, 'probabilities are not negative')
                ctx.eq(q[j][a], asum([d[j][a][x] * Z[x] for x in range(3)]), 'the value is the mean of the distribution')
        acts = ctx.itensor('act', (2, 1), 0, 1)
        gathers(ctx, net, s, q, acts)
        gathers(ctx, net, s, d, acts, get_distribution=True)
    else:
        # every call draws fresh noise, so single answers are checked
        d = net(s, get_distribution=True)
        for j in range(2):
            for a in range(NA):
                ctx.eq(asum(list(d[j][a])), 1.0, 'a distribution')
    ctx.check(all(m.shapes == ((1,), (1,)) for m in net.modules() if isinstance(m, Feat)), 'the features network has the given input and number of features')


@scenario('P12', '2 states of 1 feature, 2 actions, 3 atoms, arbitrary state value stream, three sets of advantage weights, no noise', quick=[{}], tol=1e-3)
def rainbow_values(ctx):
    """without noise the value of an action is the mean of its distribution over the atoms"""
    with torch._C.DisableTorchFunction():
        net = RainbowNetwork((1,), (NA,), features_network=Feat, n_features=1, n_atoms=3, v_min=VMIN, v_max=VMAX, sigma_coeff=.5)
    c = ctx.pick('case', [0, 1, 2])
    with torch._C.DisableTorchFunction():
        for n, p in enumerate(net.parameters()):
            p.data.copy_((torch.arange(p.numel()).reshape(p.shape) * (n + 1) * 5 + c * 3 + n) % 7 / 2. - 1.5)
        for m in net.modules():
            for name in ('sigma_weight', 'sigma_bias'):
                if name in m._parameters:
                    m._parameters[name].data.zero_()
    s = ctx.to_tensor(ctx.arr([[1.], [-.5]]))
    d, q = net(s, get_distribution=True), net(s)
    for j in range(2):
        for a in range(NA):
            ctx.eq(asum(list(d[j][a])), 1.0, 'a distribution')
            ctx.eq(q[j][a], asum([d[j][a][x] * Z[x] for x in range(3)]), 'the value is the mean of the distribution')
    # one value stream and one advantage stream per action, combined atom by atom
    lin = [m for m in net.modules() if 'sigma_weight' in m._parameters]
    if len(lin) == NA + 1 and all('mu_weight' in m._parameters and tuple(m._parameters['mu_weight'].shape) == (3, 1) for m in lin):
        h = [1., -.5]
        out = [[[float(m._parameters['mu_weight'].data[x, 0]) * h[j] + float(m._parameters['mu_bias'].data[x]) for x in range(3)] for m in lin] for j in range(2)]
        alts = []
        for v in range(NA + 1):
            ok = np.True_
            for j in range(2):
                adv = [out[j][i] for i in range(NA + 1) if i != v]
                for a in range(NA):
                    lg = [out[j][v][x] + adv[a][x] - sum(b[x] for b in adv) / NA for x in range(3)]
                    e = [np.exp(y - max(lg)) for y in lg]
                    for x in range(3):
                        ok = LAND(ok, d[j][a][x] - e[x] / sum(e) <= 1e-3, d[j][a][x] - e[x] / sum(e) >= -1e-3)
            alts.append(ok)
        ctx.check(LOR(*alts), 'the logits are the value stream plus the advantage relative to the mean advantage')
    acts = ctx.itensor('act', (2, 1), 0, 1)
    gathers(ctx, net, s, q, acts)
    gathers(ctx, net, s, d, acts, get_distribution=True)


@scenario('P12', 'batch of 2, 2 atoms, arbitrary positive predictions and targets', tol=1e-4)
def categorical_losses(ctx):
    p = ctx.tensor('p', (2, 2), 0, 1)
    t = ctx.tensor('t', (2, 2), 0, 1)
    n = categorical_loss(p, t, reduction='none')
    m = categorical_loss(p, t)
    pc = p.clamp(1e-5)
    lg = torch.log(pc)
    for j in range(2):
        ctx.eq(n[j], 0.0 - (t[j][0] * lg[j][0] + t[j][1] * lg[j][1]), 'cross entropy')
    ctx.eq(m, (n[0] + n[1]) / 2, 'mean of the cross entropies')


@scenario('P12', 'batch of 2, 2 quantiles, arbitrary predictions and targets in one of the two rows', quick=[dict(row=0), dict(row=1)], tol=1e-4)
def quantile_loss(ctx, row):
    build(ctx, QuantileDQN, .9, 1, n_out=2, n_quantiles=2)
    p = [[.5, -1.], [2., 0.25]]
    t = [[1., 3.], [-2., .75]]
    p[row] = [ctx.real('p%d' % i, -8, 8) for i in range(2)]
    t[row] = [ctx.real('t%d' % i, -8, 8) for i in range(2)]
    p, t = [ctx.to_tensor(ctx.pack([x for y in z for x in y], (2, 2))) for z in (p, t)]
    L = quantile_huber_loss(p, t)
    tot = 0.0
    for j in range(2):
        for i in range(2):
            for k in range(2):
                u = t[j][k] - p[j][i]
                h = ite(abs(u) < 1.0, 0.5 * u * u, abs(u) - 0.5)
                tau = (2 * i + 1) / 4
                tot = tot + ite(u < 0.0, 1 - tau, tau) * h
    ctx.eq(L, tot / 8, 'mean quantile Huber loss over all pairs of quantiles')


@scenario('P12', '2 states of 2 features, 2 outputs, arbitrary weights and noise in [0,1)', tol=1e-2)
def noisy_network(ctx):
    """a noisy layer lies between its value without noise and with full noise, and is exact without noise"""
    net = make(NoisyNetwork)
    par = {name: v for m, name, v in symbolize(ctx, net)}
    mu, sg, mb, sb = [par[k] for k in ('mu_weight', 'sigma_weight', 'mu_bias', 'sigma_bias')]
    s = ctx.tensor('s', (1, 2), -2, 2)
    for i in range(2):
        ctx.assume(s[0][i] >= 0)
        for o in range(2):
            ctx.assume(sg[o][i] >= 0)
    for o in range(2):
        ctx.assume(sb[o] >= 0)
    q = net(s)
    for o in range(2):
        lo = asum([mu[o][i] * s[0][i] for i in range(2)]) + mb[o]
        hi = lo + asum([sg[o][i] * s[0][i] for i in range(2)]) + sb[o]
        ctx.le(lo, q[0][o], 'noise scales sigma from 0', tol=1e-3)
        ctx.le(q[0][o], hi, 'noise scales sigma up to 1', tol=1e-3)


@scenario('P12', '2 states of 1, 2 or 4 features, 2 outputs, noise switched off; initial noise level from the given coefficient', quick=[{}], tol=1e-3)
def noisy_values(ctx):
    n, c = ctx.pick('n', [1, 2, 4]), ctx.pick('c', [.5, 1.])
    with torch._C.DisableTorchFunction():
        net = NoisyNetwork((n,), (NA,), features_network=Feat, n_features=n)
        m = [m for m in net.modules() if 'sigma_weight' in m._parameters]
        ctx.check(len(m) == 1, 'one noisy layer')
        layer, m = NoisyNetwork.NoisyLinear(n, NA, c), m[0]
        for k in ('sigma_weight', 'sigma_bias'):
            ctx.check(bool((abs(m._parameters[k].data - .5 / n ** .5) < 1e-5).all()), 'initial noise level: one half over the root of the number of inputs')
            m, layer = layer, m
            ctx.check(bool((abs(m._parameters[k].data - c / n ** .5) < 1e-5).all()), 'initial noise level: coefficient over the root of the number of inputs')
            m, layer = layer, m
        for k in ('mu_weight', 'mu_bias'):
            ctx.check(bool((abs(m._parameters[k].data) <= 1 / n ** .5 + 1e-5).all()), 'initial weights within one over the root of the number of inputs')
            p = m._parameters[k].data
            p.copy_((torch.arange(p.numel()).reshape(p.shape) * 5 + 3) % 7 / 2. - 1.5)
        for k in ('sigma_weight', 'sigma_bias'):
            m._parameters[k].data.zero_()
        W, w0 = m._parameters['mu_weight'].data.numpy().astype(float), m._parameters['mu_bias'].data.numpy().astype(float)
    s = ctx.tensor('s', (2, n), -2, 2)
    q = net(s)
    for j in range(2):
        for a in range(NA):
            ctx.eq(q[j][a], asum([float(W[a, i]) * s[j][i] for i in range(n)]) + float(w0[a]), 'without noise a linear layer')
    gathers(ctx, net, s, q, ctx.itensor('act', (2, 1), 0, 1))
