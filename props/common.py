"""Shared pieces of the harnesses."""
import numpy as np
import torch
from mushroom_rl.core import Agent, Dataset, MDPInfo, AgentInfo
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Discrete, Box
from symx.runner import scenario
from symx.core import binop, ite, smax, smin, Sym
from symx.symnp import LAND as _and, LOR as _or, LNOT


def LAND(*xs):
    r = np.True_
    for x in xs:
        r = _and(r, x)
    return r


def LOR(*xs):
    r = np.False_
    for x in xs:
        r = _or(r, x)
    return r


def tabular_info(nS, nA, gamma, horizon=100):
    return MDPInfo(Discrete(nS), Discrete(nA), gamma, horizon)


class ScriptPolicy(Policy):
    """policy with arbitrary (symbolic) probabilities and scripted actions"""

    def __init__(self, actions=None, probs=None, state_shape=None):
        super().__init__(state_shape)
        self.actions = list(actions or [])
        self.probs = probs
        self.q = None
        self.seen = []
        self.resets = 0
        self._add_save_attr(actions='primitive', probs='primitive', q='primitive', seen='primitive', resets='primitive')

    def set_q(self, q):
        self.q = q

    def __call__(self, state, action=None, policy_state=None):
        return self.probs

    def draw_action(self, state, policy_state=None):
        self.seen.append(state)
        return self.actions.pop(0), None

    def reset(self):
        self.resets += 1
        return None

    def update(self, *a):
        pass


def one_step_dataset(agent, s, a, r, ns, absorbing, last):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=1)
    d.append((s, a, r, ns, absorbing, last), {})
    return d


def amax(vals):
    m = vals[0]
    for v in vals[1:]:
        m = smax(m, v)
    return m


def amin(vals):
    m = vals[0]
    for v in vals[1:]:
        m = smin(m, v)
    return m


def asum(vals):
    s = 0.0
    for v in vals:
        s = s + v
    return s


def unsaturated(ctx, th):
    """a counterexample that only exists where float32 cannot resolve 1 - tanh^2 is not replayed"""
    if not ctx.symbolic and float(1 - th * th) < 1e-2:
        ctx.invalid()


class Protocol(object):
    """what every optimizer relies on: a step uses the gradient of a loss computed since the gradients were cleared, and they
    are cleared between two steps"""
    ctx, mark, cleared = None, -1, True

    def clearing(self):
        self.mark, self.cleared = self.ctx.n_backward, True

    def stepping(self):
        self.ctx.check(self.ctx.n_backward > max(self.mark, 0), 'an optimizer steps on the gradient of the current loss')
        self.ctx.check(self.cleared, 'gradients do not accumulate from one step to the next')
        self.cleared, self.mark = False, self.ctx.n_backward
