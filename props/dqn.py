"""Deep Q-learning family: regression targets and target-network schedule (P11), distributional variants (P12)."""
from props.common import *
from mushroom_rl.algorithms.value import DQN, DoubleDQN, AveragedDQN, MaxminDQN
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory

NA = 3


def net_class(ctx, n_states, n_actions=NA):
    """an arbitrary Q-function: one arbitrary value per state and action, replaced by an arbitrary one whenever it is fitted"""
    class Net:
        created = 0
        log = []

        def __init__(self, input_shape=None, output_shape=None, **kw):
            self.k = Net.created
            Net.created += 1
            self.n_fits = 0
            self.W = ctx.array('w%d' % self.k, (n_states, n_actions))

        def predict(self, state, *args, **kw):
            rows = [int(x) for x in np.asarray(state).ravel()] if not ctx.symbolic else [int(x) for x in state.reshape(-1)]
            return ctx.pack([self.W[i, a] for i in rows for a in range(n_actions)], (len(rows), n_actions))

        def fit(self, state, action, q, **kw):
            Net.log.append((self, state.copy(), action.copy(), q.copy(), dict(kw)))
            self.n_fits += 1
            self.W = ctx.array('w%d_%d' % (self.k, self.n_fits), (n_states, n_actions))

        def get_weights(self):
            return self.W.copy()

        def set_weights(self, w):
            self.W = w.copy()

        def __deepcopy__(self, memo):
            return self
    return Net


class QPolicy(ScriptPolicy):
    pass


class Run:
    """an agent fed with transitions whose states are all distinct, so that the networks are arbitrary functions"""

    def __init__(self, ctx, cls, n, init=0, cap=8, freq=2, batch=1, gamma=None, replay=None, clip=False, nA=NA, **kw):
        self.ctx = ctx
        self.gamma = ctx.real('gamma', 0, 1) if gamma is None else gamma
        self.nA = nA
        self.Net = net_class(ctx, 2 * n, nA)
        info = MDPInfo(Box(0, 100, (1,)), Discrete(nA), self.gamma, 10)
        self.pol = QPolicy()
        self.ag = cls(info, self.pol, self.Net, approximator_params=dict(input_shape=(1,), output_shape=(nA,), n_actions=nA),
                      batch_size=batch, target_update_frequency=freq, initial_replay_size=init, max_replay_size=cap,
                      replay_memory=replay, clip_reward=clip, **kw)
        self.ts = []
        self.clip = clip
        self.freq = freq
        self.batch = batch

    def feed(self, n=1):
        ctx = self.ctx
        d = Dataset.generate(self.ag.mdp_info, self.ag.info, n_steps=n)
        for _ in range(n):
            i = len(self.ts)
            t = (ctx.arr([2.0 * i]), ctx.iarray('a%d' % i, (1,), 0, self.nA - 1), ctx.real('r%d' % i), ctx.arr([2.0 * i + 1]),
                 ctx.bool('ab%d' % i), ctx.bool('l%d' % i))
            self.ts.append(t)
            d.append(t, {})
        k = len(self.Net.log)
        self.ag.fit(d)
        return self.Net.log[k:]

    def reward(self, i):
        r = self.ts[i][2]
        return amax([-1.0, amin([r, 1.0])]) if self.clip else r

    def rows(self, entry):
        return [int(x) // 2 for x in entry[1].reshape(-1)]

    def verify(self, entry, value, label):
        """value(i): bootstrap value of the next state of transition i"""
        ctx = self.ctx
        net, s, a, q, kw = entry
        idx = self.rows(entry)
        ctx.check(len(idx) == self.batch and len(q) == self.batch, 'a batch of the requested size')
        for j, i in enumerate(idx):
            ctx.eq(a[j], self.ts[i][1], 'the fitted action is the one of the transition')
            want = self.reward(i) + ite(self.ts[i][4], 0.0, self.gamma * value(i))
            ctx.eq(q[j], want, label)


def greedy(w, i):
    return amax(list(w[2 * i + 1]))


PAR = [dict(batch=1, clip=False, init=0, freq=2), dict(batch=2, clip=True, init=1, freq=1), dict(batch=2, clip=False, init=1, freq=2)]


@scenario('P11', '3 or 4 fits of one transition each, batch of 1 or 2, target update every 1-3 fits; arbitrary networks, transitions, discount',
          quick=PAR, max_paths=2000, budget=40)
def dqn(ctx, batch, clip, init, freq):
    R = Run(ctx, DQN, 4, init=init, freq=freq, batch=batch, clip=clip, cap=8 if batch == 1 else 2)
    target = R.ag.approximator.get_weights().copy()
    for k in range(1, 5 if batch == 1 else 4):
        log = R.feed()
        ctx.check(len(log) == (1 if k > init else 0), 'one regression per fit once the memory is initialised, none before')
        for e in log:
            R.verify(e, lambda i: greedy(target, i), 'DQN target')
        if k % freq == 0:
            target = R.ag.approximator.get_weights().copy()


@scenario('P11', '3 fits, batch of 1 or 2, target update every 2 fits; arbitrary networks, transitions, discount',
          quick=[dict(batch=1, clip=True), dict(batch=2, clip=False)], max_paths=4000, budget=40)
def double_dqn(ctx, batch, clip):
    R = Run(ctx, DoubleDQN, 3, init=0, freq=2, batch=batch, clip=clip, cap=batch)
    target = R.ag.approximator.get_weights().copy()
    for k in range(1, 4 if batch == 1 else 3):
        online = R.ag.approximator.get_weights().copy()
        # one arbitrary maximiser: exclude exact ties, where either choice is right
        for i in range(k):
            for a in range(NA):
                for b in range(a):
                    ctx.assume(online[2 * i + 1, a] != online[2 * i + 1, b])
        log = R.feed()
        ctx.check(len(log) == 1, 'one regression per fit')

        def value(i):
            m = greedy(online, i)
            v = target[2 * i + 1, 0]
            for a in range(1, NA):
                v = ite(online[2 * i + 1, a] >= m, target[2 * i + 1, a], v)
            return v
        R.verify(log[0], value, 'double DQN target: action chosen by the online network, value of the target network')
        if k % 2 == 0:
            target = R.ag.approximator.get_weights().copy()


@scenario('P11', '4 or 5 fits, batch of 1, target update every fit or every 2 fits, 2 or 3 target networks',
          quick=[dict(n=2, freq=1, N=4), dict(n=3, freq=1, N=5), dict(n=2, freq=2, N=5)], max_paths=2000, budget=40)
def averaged_dqn(ctx, n, freq, N):
    R = Run(ctx, AveragedDQN, N, init=0, freq=freq, batch=1, cap=1, n_approximators=n)
    targets = [R.ag.approximator.get_weights().copy()]
    for k in range(1, N + 1):
        log = R.feed()
        ctx.check(len(log) == 1, 'one regression per fit')
        ctx.check(log[0][0] is R.ag.approximator.model, 'only the online network is fitted')
        use = targets[-n:]
        R.verify(log[0], lambda i: amax([asum([w[2 * i + 1, a] for w in use]) / len(use) for a in range(NA)]),
                 'averaged DQN target: maximum of the mean of the last target networks')
        if k % freq == 0:
            targets.append(R.ag.approximator.get_weights().copy())


@scenario('P11', '3 fits, batch of 1, target update every 2 fits, 2 networks, arbitrary choice of the fitted network', max_paths=2000,
          goals=('net 0', 'net 1'))
def maxmin_dqn(ctx):
    R = Run(ctx, MaxminDQN, 3, init=0, freq=2, batch=1, cap=1, n_approximators=2)
    nets = [R.ag.approximator[i] for i in range(2)]
    targets = [n.get_weights().copy() for n in nets]
    for k in range(1, 4):
        log = R.feed()
        ctx.check(len(log) == 1 and log[0][0] in nets, 'exactly one of the online networks is fitted')
        ctx.cover('net %d' % nets.index(log[0][0]))
        R.verify(log[0], lambda i: amax([amin([w[2 * i + 1, a] for w in targets]) for a in range(NA)]), 'maxmin DQN target')
        if k % 2 == 0:
            targets = [n.get_weights().copy() for n in nets]


@scenario('P11', '2 fits with prioritised replay of capacity 2, batch of 1, arbitrary networks and transitions',
          quick=[dict(cls='DQN', clip=False), dict(cls='DoubleDQN', clip=True)], max_paths=4000, budget=60, tol=1e-5)
def prioritized(ctx, cls, clip):
    """prioritised replay: the temporal-difference errors become the new priorities, the importance weights weigh the regression"""
    seen = []

    class Spy(PrioritizedReplayMemory):
        def update(self, error, idx):
            seen.append((error.copy(), idx.copy()))
            return super().update(error, idx)

        def get(self, n):
            out = super().get(n)
            seen.append(tuple(out[-2:]))
            return out
    NA = 2
    R = Run(ctx, {'DQN': DQN, 'DoubleDQN': DoubleDQN}[cls], 3, nA=NA, init=0, freq=3, batch=1, cap=2, clip=clip,
            replay=dict({'class': Spy, 'params': dict(alpha=1., beta=1.)}))
    target = R.ag.approximator.get_weights().copy()
    for k in range(1, 3):
        online = R.ag.approximator.get_weights().copy()
        if cls == 'DoubleDQN':
            for i in range(k):
                for a in range(NA):
                    for b in range(a):
                        ctx.assume(online[2 * i + 1, a] != online[2 * i + 1, b])
        del seen[:]
        log = R.feed()
        ctx.check(len(log) == 1 and len(seen) == 2, 'one sample, one regression and one priority update per fit')

        def value(i):
            if cls == 'DQN':
                return greedy(target, i)
            m = greedy(online, i)
            v = target[2 * i + 1, 0]
            for a in range(1, NA):
                v = ite(online[2 * i + 1, a] >= m, target[2 * i + 1, a], v)
            return v
        R.verify(log[0], value, 'target')
        (idx, w), (err, idx2) = seen
        ctx.eq(idx2, idx, 'priorities are updated for the sampled transitions')
        ctx.eq(log[0][4]['weights'], w, 'the regression uses the importance weights of the sample')
        i = R.rows(log[0])[0]
        a = int(R.ts[i][1][0])
        ctx.eq(abs(err[0]), abs(log[0][3][0] - online[2 * i, a]), 'the new priority is the temporal-difference error')
