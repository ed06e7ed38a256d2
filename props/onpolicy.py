"""On-policy deep actor-critic: A2C, PPO, PPO with truncated BPTT, TRPO (P16)."""
from props.common import *
from symx.core import Unsupported
from props.deepac import World, Par, Descent, snap
from mushroom_rl.algorithms.actor_critic import A2C, PPO, PPO_BPTT, TRPO
from mushroom_rl.policy import TorchPolicy
from mushroom_rl.rl_utils.preprocessors import Preprocessor

NEW = 100      # offset of the labels of states preprocessed with the updated statistics


class Pol(TorchPolicy):
    """arbitrary log-probabilities per state label, drawn anew at every optimiser step; arbitrary entropy per batch"""

    def __init__(self, ctx, W, n, stateful=False):
        super().__init__((1,) if stateful else None)
        self.ctx, self.W, self.n = ctx, W, n
        self.p = Par(W.fresh((2 * n,)))
        self.calls = []        # (labels, entropy, log probs) of every gradient evaluation
        self.old = []
        self.seqs = []
        self.k = 0

    def parameters(self):
        return [self.p]

    def _row(self, x):
        x = int(x)
        return x // 2 + (self.n if x >= NEW else 0) - (NEW // 2 if x >= NEW else 0)

    def labels(self, state, lengths):
        if state.ndim == 3:
            m = [int(k) for k in lengths]
            self.seqs.append([[float(state[j][q][0]) for q in range(k)] for j, k in enumerate(m)])
            return [s[-1] for s in self.seqs[-1]]
        out = []
        for x in state.reshape(-1):
            try:
                x = float(x)
            except Unsupported:
                x = -1.
            good = x in [2. * k + m for k in range(self.n) for m in (0, NEW)]
            self.ctx.check(good, 'the policy is asked about the states of the data')
            out.append(x if good else 0.)
        return out

    def lp(self, labels):
        return torch.stack([self.p.data[self._row(x)] for x in labels])

    def log_prob_t(self, state, action, policy_state=None, lengths=None):
        lab = self.labels(state, lengths)
        v = self.lp(lab)
        self.calls.append([lab, None, v, action, policy_state])
        return v.reshape(-1, 1)

    def entropy_t(self, state=None):
        self.k += 1
        e = self.ctx.tensor('ent%d' % self.k, (1,), -4, 4)[0]
        self.calls[-1][1] = e
        return e

    def distribution_t(self, state, policy_state=None, lengths=None):
        lab = self.labels(state, lengths)
        pol = self

        class D:
            def log_prob(self, action):
                v = pol.lp(lab)
                pol.old.append((lab, v, action, policy_state))
                return v
        return D()


class Shift(Preprocessor):
    """marks states with the statistics they were preprocessed with"""

    def __init__(self):
        self.k = 0

    def __call__(self, obs):
        return obs + NEW * self.k

    def update(self, obs):
        self.k += 1


class VNet:
    """arbitrary value per state label"""

    def make(W, n, ctx):
        class V(W.Actor):
            def __init__(self, input_shape, output_shape, **kw):
                self.p = Par(W.fresh((4 * n,)))
                W.nets.append(self)
                self.fitted = []

            def rows(self, state):
                return [int(x) % NEW for x in state.reshape(-1)]

            def val(self, x):
                return self.p.data[int(x) % NEW + (2 * n if x >= NEW else 0)]

            def __call__(self, state, policy_state=None, lengths=None, **kw):
                if state.ndim == 3:
                    lab = [float(state[j][int(k) - 1][0]) for j, k in enumerate(lengths)]
                else:
                    lab = [float(x) for x in state.reshape(-1)]
                self.lab = lab
                out = torch.stack([self.val(x) for x in lab])
                return out.reshape(-1, 1) if state.ndim > 1 else out.reshape(1)
        return V


def setup(ctx, n, stateful=False, gamma=None):
    W = World(ctx, n)
    V = VNet.make(W, n, ctx)
    g = ctx.real('gamma', 0, 1) if gamma is None else gamma
    info = MDPInfo(Box(0, 100, (1,)), Box(-8, 8, (1,)), g, 10)
    pol = Pol(ctx, W, n, stateful)
    critic = dict(network=V, optimizer={'class': W.Opt, 'params': {}}, loss=W.loss, input_shape=(1,), output_shape=(1,))
    return W, g, info, pol, critic, {'class': W.Opt, 'params': {}}


def feed(ctx, ag, n, fixed=None, ends_absorbing=False):
    d = Dataset.generate(ag.mdp_info, ag.info, n_steps=n)
    ts = []
    for i in range(n):
        if fixed is None:
            ab = ctx.bool('ab%d' % i)
            la = ctx.bool('l%d' % i)
            ctx.assume(LOR(LNOT(ab), la))
            if ends_absorbing:
                ctx.assume(binop('eq', ab, la))
            r = ctx.real('r%d' % i, -8, 8)
        else:
            r, ab, la = fixed[i]
        t = [ctx.arr([2.0 * i]), ctx.array('a%d' % i, (1,), -8, 8), r, ctx.arr([2.0 * i + 1]), ab, la]
        if ag.info.is_stateful:
            t += [ctx.arr([10.0 * i]), ctx.arr([10.0 * i + 5])]
        ts.append(t)
        d.append(tuple(t), {})
    ag.fit(d)
    return ts


@scenario('P16', '1-3 transitions; arbitrary critic, log-probabilities, entropy and its coefficient, rewards, flags, discount',
          quick=[dict(n=1), dict(n=2), dict(n=3)], tol=1e-3)
def a2c(ctx, n):
    W, g, info, pol, critic, opt = setup(ctx, n)
    c = ctx.real('coeff', 0, 2)
    ag = A2C(info, pol, opt, critic, c)
    V = W.nets[0]
    v0, lp0 = snap(V), pol.p.data
    ts = feed(ctx, ag, n)
    nxt, ret = v0[2 * n - 1], [None] * n
    for i in reversed(range(n)):
        nxt = ret[i] = ts[i][2] + ite(ts[i][4], 0.0, g * nxt)
    ctx.check(len(W.fits) == 1, 'the critic is fitted once on the whole batch')
    for i in range(n):
        ctx.eq(W.fits[0][1].reshape(-1)[i], ret[i], 'the critic is fitted on the discounted returns')
        ctx.eq(W.fits[0][0].reshape(-1)[i], v0[2 * i], 'the critic is fitted at the visited states')
    ctx.check(len(pol.calls) == 1 and pol.calls[0][0] == [2.0 * i for i in range(n)], 'log-probabilities of the visited states')
    for i in range(n):
        ctx.eq(pol.calls[0][3][i], ts[i][1], 'log-probabilities of the performed actions')
    want = 0.0 - asum([lp0[i] * (ret[i] - v0[2 * i]) for i in range(n)]) / n - c * pol.calls[0][1]
    ctx.check(len(ctx.losses) == 2, 'one actor step per fit')
    ctx.eq(ctx.losses[1].reshape(-1)[0], want, 'policy-gradient loss with the advantage of the critic before its update, minus the entropy bonus')


@scenario('P16', 'one A2C fit on 2 transitions: arbitrary gradient, maximum norm (0.25 to 4) or clipping factor of a method given with the optimizer',
          quick=[dict(given=False, norm=False), dict(given=False, norm=True), dict(given=True, norm=True)], tol=1e-3, max_paths=200)
def a2c_clipping(ctx, given, norm):
    """the actor descends the gradient clipped to the maximum norm; a clipping method of the optimizer takes precedence"""
    W, g, info, pol, critic, _ = setup(ctx, 2, gamma=0.5)
    D = Descent(ctx, 0.5)
    f, m = ctx.real('factor', 0, 1), ctx.real('max_norm', 0.25, 4)

    def clip(params, factor):
        for p in params:
            p.grad = p.grad * factor
    opt = {'class': D.Opt, 'params': {}}
    if given:
        opt['clipping'] = {'method': clip, 'params': dict(factor=f)}
    keys = set(opt)

    def total(params, max_norm, norm_type=2.0, **kw):
        """reference: all gradients scaled by max / norm where the norm exceeds it"""
        ctx.check(float(norm_type) == 2.0, 'the Euclidean norm is limited')
        for p in params:
            x = p.grad.reshape(-1)[0]
            size = 2.0 * amax([x, 0.0 - x])        # four equal entries
            p.grad = p.grad * ite(size > max_norm, max_norm / ite(size > max_norm, size, 1.0), 1.0)
    real = torch.nn.utils.clip_grad_norm_
    torch.nn.utils.clip_grad_norm_ = total
    ctx.on_backward = D.back
    try:
        ag = A2C(info, pol, opt, critic, 0.5, **(dict(max_grad_norm=m) if norm else {}))
        th = [pol.p.data[i] for i in range(4)]
        feed(ctx, ag, 2, FIXED)
    finally:
        torch.nn.utils.clip_grad_norm_ = real
        ctx.on_backward = ctx.losses.append
    ctx.check(set(opt) == keys, 'the optimizer settings handed in are left as they were')
    ctx.check(D.steps == 1, 'one actor step')
    x = pol.p.used[0]
    if given:
        want = f * x
    elif norm:
        size = 2.0 * amax([x, 0.0 - x])
        want = ite(size > m, ite(x > 0, m, 0.0 - m) / 2.0, x)
    else:
        want = x
    ctx.eqs([(pol.p.data[i], th[i] - 0.5 * want) for i in range(4)], 'the actor descends the clipped gradient')


def advantages(ctx, ts, v, vn, g, lam):
    n = len(ts)
    out = []
    for i in range(n):
        a, f = 0.0, 1.0
        for k in range(i, n):
            a = a + f * (ts[k][2] + ite(ts[k][4], 0.0, g * vn[k]) - v[k])
            f = f * g * lam
            if bool(ts[k][5]):
                break
        out.append(a)
    return out


def check_ppo(ctx, W, pol, ts, eps, c, adv, nb, epochs, stateful=False):
    """the recorded losses are the clipped surrogate of each minibatch; each epoch visits every transition once"""
    n = len(ts)
    a = torch.stack([x if isinstance(x, torch.Tensor) else ctx.to_tensor(ctx.pack([x], (1,)))[0] for x in adv])
    std = torch.std(a)
    mean = torch.mean(a)
    losses = ctx.losses[len(W.fits):]
    ctx.check(len(losses) == len(pol.calls) == nb * epochs, 'one optimiser step per minibatch and epoch')
    ctx.check(len(pol.old) == 1 and pol.old[0][0] == [2.0 * i for i in range(n)], 'old log-probabilities use the statistics of the rollout')
    for e in range(epochs):
        seen = []
        for b in range(nb):
            lab, ent, lp, act, ps = pol.calls[e * nb + b]
            idx = [int(x - NEW) // 2 for x in lab]
            ctx.check(all(x >= NEW for x in lab), 'the policy is optimised on states preprocessed with the updated statistics')
            seen += idx
            terms = []
            for j, i in enumerate(idx):
                ctx.eq(act[j], ts[i][1], 'each state is paired with its action')
                if stateful:
                    continue
                A = (a[i] - mean) / (std + 1e-8)
                rho = torch.exp(lp[j] - pol.old[0][1][i])
                clip = torch.clamp(rho, 1 - eps, 1 + eps)
                terms.append(torch.min(rho * A, clip * A))
            if terms:
                want = 0.0 - asum(terms) / len(idx) - c * ent
                ctx.eq(losses[e * nb + b].reshape(-1)[0], want, 'clipped surrogate loss with the entropy bonus')
        ctx.check(sorted(seen) == list(range(n)), 'each epoch uses every transition exactly once')


@scenario('P16', '2 or 3 transitions, 1 or 2 epochs, minibatches of 1-3; arbitrary critic, log-probabilities, entropies, rewards, '
          'flags; discount and lambda arbitrary for one epoch, fixed otherwise', tol=1e-3, max_paths=400,
          quick=[dict(n=2, epochs=1, mb=2), dict(n=2, epochs=2, mb=1)], thorough=[dict(n=3, epochs=1, mb=2), dict(n=3, epochs=1, mb=3)])
def ppo(ctx, n, epochs, mb):
    W, g, info, pol, critic, opt = setup(ctx, n)
    c, eps, lam = ctx.real('coeff', 0, 2), 0.25, 0.5
    ag = PPO(info, pol, opt, critic, epochs, mb, eps, lam, ent_coeff=c, critic_fit_params=dict(n_epochs=1))
    ag.add_agent_preprocessor(Shift())
    V = W.nets[0]
    v0 = snap(V)
    ts = feed(ctx, ag, n)
    v = [v0[2 * n + 2 * i] for i in range(n)]
    vn = [v0[2 * n + 2 * i + 1] for i in range(n)]
    adv = advantages(ctx, ts, v, vn, g, lam)
    ctx.check(len(W.fits) == 1, 'the critic is fitted on the whole batch')
    for i in range(n):
        ctx.eq(W.fits[0][1].reshape(-1)[i], adv[i] + v[i], 'the critic is fitted on the lambda returns')
        ctx.eq(W.fits[0][0].reshape(-1)[i], v[i], 'the critic is fitted at the visited states')
    # the advantages just shown equal to the lambda returns minus the values
    adv = [W.fits[0][1].reshape(-1)[i] - v[i] for i in range(n)]
    check_ppo(ctx, W, pol, ts, eps, c, adv, -(-n // mb), epochs)


class Logged(Shift):
    """also keeps the labels it was updated with"""

    def __init__(self, shift):
        super().__init__()
        self.log, self.shift = [], shift

    def __call__(self, obs):
        return super().__call__(obs) if self.shift else obs

    def update(self, obs):
        self.log.append([float(x) for x in obs.reshape(-1)])
        super().update(obs)


@scenario('P16', 'a chain of 2 preprocessors, one fit on 2 transitions; arbitrary critic, log-probabilities, rewards and flags', tol=1e-3, max_paths=400,
          quick=[{}])
def preprocessor_chain(ctx):
    """the statistics of each preprocessor are updated once per fit, with the states as the preprocessors before it deliver them"""
    n = 2
    W, g, info, pol, critic, opt = setup(ctx, n)
    ag = PPO(info, pol, opt, critic, 1, 2, .25, .5, ent_coeff=0.0, critic_fit_params=dict(n_epochs=1))
    chain = [Logged(True), Logged(False)]
    for p in chain:
        ag.add_agent_preprocessor(p)
    feed(ctx, ag, n)
    ctx.check(chain[0].log == [[2.0 * i for i in range(n)]], 'the first preprocessor is updated once with the raw states', str(chain[0].log))
    ctx.check(chain[1].log == [[2.0 * i + NEW for i in range(n)]], 'the second preprocessor is updated once with the states preprocessed by the first', str(chain[1].log))


@scenario('P16', '3 or 4 transitions with arbitrary episode ends (4: absorbing ones), truncation length 2 or 3', tol=1e-3, max_paths=400,
          quick=[dict(n=3, L=2), dict(n=3, L=3)], thorough=[dict(n=3, L=2), dict(n=4, L=3), dict(n=4, L=2)])
def bptt(ctx, n, L):
    """recurrent PPO: every transition is presented with the preceding transitions of its own episode"""
    W, g, info, pol, critic, opt = setup(ctx, n, True)
    ag = PPO_BPTT(info, pol, opt, critic, 1, n, 0.25, 0.5, 1, ent_coeff=0.0, critic_fit_params=dict(n_epochs=1), truncation_length=L)
    ag.add_agent_preprocessor(Shift())
    ts = feed(ctx, ag, n, ends_absorbing=n > 3)
    start = []
    for i in range(n):
        b = i
        while b > 0 and i - b + 1 < L and not bool(ts[b - 1][5]):
            b -= 1
        start.append(b)
    old, new = pol.seqs[0], pol.seqs[1]
    lab = pol.calls[0][0]
    for i in range(n):
        ctx.check(old[i] == [2.0 * k for k in range(start[i], i + 1)],
                  'old policy: sequence of the episode up to the transition, with the statistics of the rollout', str(old[i]))
    ps = pol.old[0][3]
    for i in range(n):
        ctx.eq(ps[i], ts[start[i]][6], 'the policy state at the start of the sequence')
    for j, x in enumerate(lab):
        i = int(x - NEW) // 2
        ctx.check(new[j] == [2.0 * k + NEW for k in range(start[i], i + 1)], 'new policy: the same sequence, updated statistics', str(new[j]))
        ctx.eq(pol.calls[0][4][j], ts[start[i]][6], 'the policy state at the start of the sequence')
    check_ppo(ctx, W, pol, ts, 0.25, 0.0, [0.0] * n, 1, 1, True)


class KL:
    """the distribution of a policy with given weights: an arbitrary divergence between any two different weights"""

    def __init__(self, pol, version):
        self.pol, self.version = pol, version


@torch.distributions.kl.register_kl(KL, KL)
def _kl(p, q):
    return p.pol.kl_of(p.version, q.version)


class TrustPol(Pol):
    """Pol whose log-probabilities (plain: equal ones) and divergence are arbitrary for every weight vector it is given"""
    plain = False

    def __init__(self, ctx, W, n, d):
        super().__init__(ctx, W, n)
        self.d, self.version, self.kls, self.sets, self.ents, self.pols = d, 0, {}, [], {}, [self]
        self.theta = Par(ctx.tensor('theta', (d,), -4, 4))
        self.tabs = {0: self.p.data}

    def __deepcopy__(self, memo):
        o = TrustPol.__new__(TrustPol)
        o.__dict__.update(self.__dict__)
        o.theta = Par(self.theta.data)
        self.pols.append(o)
        return o

    def parameters(self):
        return [self.theta]

    def get_weights(self):
        return self.theta.data

    def set_weights(self, w):
        self.sets.append(w)
        self.theta.data = w
        self.version += 1
        self.tabs[self.version] = self.tabs[0] if self.plain else self.W.fresh((2 * self.n,))

    def lp(self, labels):
        return torch.stack([self.tabs[self.version][self._row(x)] for x in labels])

    def entropy_t(self, state=None):
        if self.version not in self.ents:
            self.ents[self.version] = self.ctx.tensor('ent%d' % self.version, (1,), -4, 4)[0]
        return self.ents[self.version]

    def distribution_t(self, state, policy_state=None):
        return KL(self, self.version)

    def kl_of(self, a, b):
        if a == b:
            return self.ctx.to_tensor(self.ctx.arr([0.0] * self.n))
        if (a, b) not in self.kls:
            self.kls[a, b] = self.ctx.tensor('kl%d_%d' % (a, b), (self.n,), 0, 4)
        return self.kls[a, b]


FIXED = [(1.0, False, False), (-2.0, False, True)]


def run_trpo(ctx, n_cg, d, steps=2, plain=False):
    """TRPO.fit with the curvature H of the divergence and the gradient of the surrogate arbitrary"""
    n = 2
    W, g, info, _, critic, _ = setup(ctx, n, gamma=0.5)
    pol = TrustPol(ctx, W, n, d)
    if plain:
        pol.plain, pol.tabs = True, {0: ctx.to_tensor(ctx.arr([0.0] * 2 * n))}
    H = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(i, d):
            H[i][j] = H[j][i] = ctx.to_tensor(ctx.arr([1.0 + 2 * i if i == j else 0.5]))[0]
    grad = ctx.to_tensor(ctx.arr([3.0, -1.5][:d])) if n_cg > 1 else torch.cat([ctx.tensor('grad', (1,), 0.5, 4), ctx.to_tensor(ctx.arr([-1.5]))])[:d]
    damp, mk, c = 0.25, 0.5, 0.5
    ag = TRPO(info, pol, critic, c, mk, 0.5, steps, n_cg, damp, critic_fit_params=dict(n_epochs=1))
    ag.add_agent_preprocessor(Shift())
    W.nets[0].p.data = ctx.to_tensor(ctx.arr([0.5 * i for i in range(4 * n)]))
    vals = W.nets[0].p.data
    th0 = pol.theta.data

    def back(loss):
        ctx.losses.append(loss)
        if len(ctx.losses) == 1:
            pol.theta.grad = grad
    ctx.on_backward = back
    real = torch.autograd.grad
    y = [None]

    def fake(out, params, create_graph=False, **kw):
        if y[0] is None:
            y[0] = ctx.probe(d)
            return (y[0],)
        p = ctx.coefficients(out, y[0])
        y[0] = None
        return (torch.stack([asum([H[i][j] * p[j] for j in range(d)]) for i in range(d)]),)
    torch.autograd.grad = fake
    try:
        ts = feed(ctx, ag, n, FIXED)
    finally:
        torch.autograd.grad = real
        ctx.on_backward = ctx.losses.append
    return W, g, pol, ts, H, grad, damp, mk, c, th0, vals


def check_trpo(ctx, n_cg, d, steps=2, plain=False):
    W, g, pol, ts, H, grad, damp, mk, c, th0, vals = run_trpo(ctx, n_cg, d, steps, plain)
    n = 2
    v = [vals[2 * n + 2 * i] for i in range(n)]
    vn = [vals[2 * n + 2 * i + 1] for i in range(n)]
    adv = advantages(ctx, ts, v, vn, g, 0.5)
    for i in range(n):
        ctx.eq(W.fits[0][1].reshape(-1)[i], adv[i] + v[i], 'the critic is fitted on the lambda returns')
    ctx.check(len(W.fits) == 1, 'the critic is fitted on the whole batch')
    a = torch.stack([W.fits[0][1].reshape(-1)[i] - v[i] for i in range(n)])
    a = (a - torch.mean(a)) / (torch.std(a) + 1e-8)
    old = pol.tabs[0]

    def surrogate(k):
        return asum([torch.exp(pol.tabs[k][n + i] - old[i]) * a[i] for i in range(n)]) / n + c * pol.ents[k]

    def mul(x):
        return [asum([H[i][j] * x[j] for j in range(d)]) + damp * x[i] for i in range(d)]

    def dot(x, z):
        return asum([x[i] * z[i] for i in range(d)])
    # conjugate gradient
    p = r = [grad[i] for i in range(d)]
    x = [0.0] * d
    for k in range(n_cg):
        z = mul(p)
        al = dot(r, r) / dot(p, z)
        x = [x[i] + al * p[i] for i in range(d)]
        r2 = [r[i] - al * z[i] for i in range(d)]
        if k + 1 < n_cg:
            p = [r2[i] + dot(r2, r2) / dot(r, r) * p[i] for i in range(d)]
        r = r2
    lm = torch.sqrt(0.5 * dot(x, mul(x)) / mk)
    tried = pol.sets[:]
    ctx.check(1 <= len(tried) <= steps + 1, 'at most one attempt per line search step')
    acc = None
    for k in range(1, min(len(tried), steps) + 1):
        ctx.check(acc is None, 'the first acceptable step is kept')
        for i in range(d):
            ctx.eq(tried[k - 1][i], th0[i] + x[i] / lm * 0.5 ** (k - 1), 'natural gradient step of the largest trusted length, halved at each attempt')
        if bool(LAND(binop('le', asum([pol.kls[0, k][i] for i in range(n)]) / n, 1.5 * mk), binop('ge', surrogate(k), surrogate(0)))):
            acc = k
    if acc is None:
        for i in range(d):
            ctx.eq(pol.theta.data[i], th0[i], 'without an acceptable step the policy is unchanged')
    else:
        for i in range(d):
            ctx.eq(pol.theta.data[i], tried[acc - 1][i], 'the policy takes the accepted step')


@scenario('P16', '2 transitions, 1 or 2 weights, 1 conjugate gradient iteration, 1-3 line search steps; arbitrary gradient (first component 0.5 to 4), '
          'divergence, log-probabilities, entropies, weights; fixed curvature, rewards and critic', tol=1e-3, max_paths=400,
          quick=[dict(d=1, steps=2), dict(d=2, steps=1)], thorough=[dict(d=1, steps=3), dict(d=2, steps=2)])
def trpo(ctx, d, steps):
    """TRPO takes the first step along the natural gradient that improves the surrogate within the trust region, or none"""
    check_trpo(ctx, 1, d, steps)


@scenario('P16', 'as trpo with one weight, the improvement decided by arbitrary entropies alone', tol=1e-3, max_paths=400, quick=[dict(steps=2)])
def trpo_trust(ctx, steps):
    """a step is trusted while the mean divergence over the states is at most 1.5 times the given one"""
    check_trpo(ctx, 1, 1, steps, True)


@scenario('P16', 'as trpo, with 2 conjugate gradient iterations on 2 weights', tol=1e-3, max_paths=400, quick=[dict()])
def trpo_cg(ctx):
    check_trpo(ctx, 2, 2, 1)
