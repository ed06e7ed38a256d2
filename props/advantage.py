"""Advantage and value-target estimators (P14)."""
from props.common import *
from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae
from mushroom_rl.algorithms.actor_critic import PPO_BPTT

AB = '%d transitions with arbitrary rewards, flags, values of states and next states and discount'


class Case:
    def __init__(self, ctx, n, contiguous=False):
        """states are labels 2i, next states 2i+1; the value function is arbitrary"""
        self.ctx, self.n = ctx, n
        self.w = ctx.tensor('v', (2 * n,), -8, 8)
        self.s = ctx.to_tensor(ctx.arr([2.0 * i for i in range(n)]).reshape(n, 1))
        self.ss = ctx.to_tensor(ctx.arr([2.0 * i + 1 for i in range(n)]).reshape(n, 1))
        self.r = ctx.tensor('r', (n,), -8, 8)
        self.ab = ctx.btensor('ab', (n,))
        self.last = ctx.btensor('l', (n,))
        for i in range(n):
            ctx.assume(LOR(LNOT(self.ab[i]), self.last[i]))
        self.g = ctx.real('gamma', 0, 1)

    def V(self, s, *_):
        idx = [int(x) for x in s.reshape(-1)]
        out = torch.stack([self.w[i] for i in idx])
        return out.reshape(len(idx), 1) if s.ndim > 1 else out.reshape(1)

    def v(self, i):
        return self.w[2 * i]

    def vn(self, i):
        return self.w[2 * i + 1]

    def outputs(self, q, adv, want, label):
        ctx = self.ctx
        ctx.check(tuple(q.shape) == (self.n, 1) and tuple(adv.shape) == (self.n, 1), 'one column of estimates')
        for i in range(self.n):
            ctx.eq(adv[i][0], want[i] - self.v(i), label + ': advantage')
            ctx.eq(q[i][0], want[i], label + ': value target')


@scenario('P14', AB % 3, quick=[dict(n=1), dict(n=3)], thorough=[dict(n=4)], tol=1e-3)
def one_step(ctx, n):
    c = Case(ctx, n)
    q, adv = compute_advantage(c.V, c.s, c.ss, c.r, c.ab, c.g)
    c.outputs(q, adv, [c.r[i] + ite(c.ab[i], 0.0, c.g * c.vn(i)) for i in range(n)], 'one-step advantage')


@scenario('P14', AB % 3 + '; episodes ended by absorbing states', quick=[dict(n=1), dict(n=3)], thorough=[dict(n=4)], tol=1e-3)
def monte_carlo(ctx, n):
    c = Case(ctx, n)
    q, adv = compute_advantage_montecarlo(c.V, c.s, c.ss, c.r, c.ab, c.g)
    want, nxt = [None] * n, c.vn(n - 1)
    for i in reversed(range(n)):
        nxt = c.r[i] + ite(c.ab[i], 0.0, c.g * nxt)
        want[i] = nxt
    c.outputs(q, adv, want, 'Monte Carlo return bootstrapped at the end of the data')


def gae(c, lam):
    """sum over the rest of the episode of (gamma lambda)^k times the k-th TD error"""
    n = c.n
    want = [None] * n
    for i in range(n):
        a, f = 0.0, 1.0
        for k in range(i, n):
            a = a + f * (c.r[k] + ite(c.ab[k], 0.0, c.g * c.vn(k)) - c.v(k))
            f = f * c.g * lam
            if bool(c.last[k]):
                break
        want[i] = a + c.v(i)
    return want


@scenario('P14', AB % 3 + ', arbitrary lambda', quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], tol=1e-3)
def generalized(ctx, n):
    c = Case(ctx, n)
    lam = ctx.real('lam', 0, 1)
    q, adv = compute_gae(c.V, c.s, c.ss, c.r, c.ab, c.last, c.g, lam)
    c.outputs(q, adv, gae(c, lam), 'generalized advantage')


@scenario('P14', AB % 3 + ', arbitrary lambda', quick=[dict(n=2), dict(n=3)], tol=1e-3)
def generalized_recurrent(ctx, n):
    c = Case(ctx, n)
    lam = ctx.real('lam', 0, 1)
    q, adv = PPO_BPTT.compute_gae(c.V, c.s, None, c.ss, None, None, c.r, c.ab, c.last, c.g, lam)
    c.outputs(q, adv, gae(c, lam), 'generalized advantage')
