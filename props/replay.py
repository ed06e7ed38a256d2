"""Replay memories: circular storage and n-step returns (P08), sequences (P09), prioritised sampling (P10)."""
from props.common import *
from mushroom_rl.rl_utils.replay_memory import ReplayMemory, SequenceReplayMemory, PrioritizedReplayMemory, SumTree

F = ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')


def infos(envb, agb, stateful=False):
    dt = torch.float32 if envb == 'torch' else float
    mi = MDPInfo(Box(-1e3, 1e3, (1,), data_type=dt), Box(-1e3, 1e3, (1,), data_type=dt), 0.9, 10, backend=envb)
    # the replay memory stores what the agent's back end uses
    ma = mi if envb == agb else MDPInfo(Box(-1e3, 1e3, (1,), data_type=torch.float32 if agb == 'torch' else float),
                                        Box(-1e3, 1e3, (1,), data_type=torch.float32 if agb == 'torch' else float),
                                        0.9, 10, backend=envb)
    return mi, ma, AgentInfo(False, (1,) if stateful else None, agb)


def data(ctx, nm, n, mi, ai, last=None, absorbing=None):
    """a dataset of n arbitrary transitions, as the core would hand it over"""
    be = mi.backend
    d = Dataset.generate(mi, ai, n_steps=n)
    T = (lambda a, t=torch.float32: ctx.to_tensor(a, t)) if be == 'torch' else (lambda a, t=None: a)
    S = (lambda v, t: ctx.to_tensor(ctx.arr([v]), t)[0]) if be == 'torch' else (lambda v, t: v)
    ts = []
    for i in range(n):
        q = '%s%d' % (nm, i)
        l = ctx.bool(q + 'l') if last is None else last[i]
        t = [T(ctx.array(q + 's', (1,))), T(ctx.array(q + 'a', (1,))), S(ctx.real(q + 'r'), torch.float32),
             T(ctx.array(q + 'n', (1,))), S(ctx.bool(q + 'ab') if absorbing is None else absorbing[i], torch.bool),
             S(l, torch.bool)]
        if ai.is_stateful:
            t += [T(ctx.array(q + 'p', (1,))), T(ctx.array(q + 'q', (1,)))]
        d.append(tuple(t), {})
        ts.append(t)
    return d, ts


def windows(ts, n, g):
    """the n-step transitions of the data: n consecutive steps of one episode"""
    out = []
    for i in range(len(ts) - n + 1):
        if any(bool(t[5]) for t in ts[i:i + n - 1]):
            continue
        w = ts[i:i + n]
        r = w[0][2]
        for k in range(1, n):
            r = r + g ** k * w[k][2]
        t = [w[0][0], w[0][1], r, w[-1][3], w[-1][4], w[-1][5]]
        if len(w[0]) > 6:
            t += [w[0][6], w[-1][7]]
        out.append((i, t))
    return out


def is_row(ctx, cols, j, t):
    return LAND(*[ctx.same(cols[k][j], t[k]) for k in range(len(t))])


def memory_is(ctx, mem, want, label, goals=True):
    """a sample of the memory is always one of `want`, and each of them can be sampled"""
    ctx.check(mem.size == len(want), 'size', '%s instead of %d' % (mem.size, len(want)))
    if not want:
        return
    cols = mem.get(1)
    m = [is_row(ctx, cols, 0, t) for t in want]
    ctx.check(LOR(*m), label)
    if goals:
        for i, x in enumerate(m):
            if bool(x):
                ctx.cover('slot %d' % i)


BB = [dict(envb='numpy', agb='numpy', stateful=False), dict(envb='numpy', agb='torch', stateful=False),
      dict(envb='torch', agb='torch', stateful=True), dict(envb='numpy', agb='numpy', stateful=True)]


def distinct(ctx, ts):
    """make the transitions distinguishable (values, not identities)"""
    for i in range(len(ts)):
        for j in range(i):
            ctx.assume(LNOT(ctx.same(ts[i][0], ts[j][0])))


@scenario('P08', 'memory of 3, additions of 2, 2 and 1 arbitrary transitions', quick=BB, tol=1e-5,
          goals=('slot 0', 'slot 1', 'slot 2'))
def circular(ctx, envb, agb, stateful):
    mi, ma, ai = infos(envb, agb, stateful)
    mem = ReplayMemory(ma, ai, 2, 3)
    hist = []
    ctx.check(mem.size == 0 and not mem.initialized, 'a new memory is empty')
    for k, n in enumerate((2, 2, 1)):
        d, ts = data(ctx, 'd%d' % k, n, mi, ai)
        mem.add(d)
        hist += ts
        ctx.check(mem.size == min(len(hist), 3), 'size counts up to the capacity')
        ctx.check(bool(mem.initialized) == (min(len(hist), 3) > 2), 'initialized once more than initial_size transitions are stored')
    memory_is(ctx, mem, hist[-3:], 'a sample is one of the most recent transitions, complete and unmixed')


@scenario('P08', 'memory of 2 filled by one addition of 5 transitions; two samples', tol=1e-5)
def overflow(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    mem = ReplayMemory(ma, ai, 1, 2)
    d, ts = data(ctx, 'd', 5, mi, ai)
    mem.add(d)
    ctx.check(mem.size == 2, 'size')
    cols = mem.get(2)
    for j in range(2):
        ctx.check(LOR(*[is_row(ctx, cols, j, t) for t in ts[-2:]]), 'only the newest transitions survive an overflow')


@scenario('P08', 'memory of 4 holding 2; sample of 2', tol=1e-5, goals=tuple('pair %d%d' % (i, j) for i in range(2) for j in range(2)))
def independent_draws(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    mem = ReplayMemory(ma, ai, 1, 4)
    d, ts = data(ctx, 'd', 2, mi, ai)
    mem.add(d)
    cols = mem.get(2)
    ctx.check(all(len(c) == 2 for c in cols), 'as many samples as requested')
    m = [[is_row(ctx, cols, j, t) for t in ts] for j in range(2)]
    for j in range(2):
        ctx.check(LOR(*m[j]), 'a sample is a stored transition')
    for i in range(2):
        for j in range(2):
            if bool(LAND(m[0][i], m[1][j])):
                ctx.cover('pair %d%d' % (i, j))


@scenario('P08', 'one addition of 3 transitions, n-step returns, arbitrary episode ends, discount and rewards; capacity 4',
          quick=[dict(n=2, N=3, b='numpy'), dict(n=3, N=4, b='numpy'), dict(n=2, N=3, b='torch')],
          thorough=[dict(n=2, N=5, b='numpy'), dict(n=3, N=5, b='numpy'), dict(n=4, N=5, b='torch')], tol=1e-4)
def n_step(ctx, n, N, b):
    mi, ma, ai = infos(b, b)
    g = ctx.real('gamma', 0, 1)
    mem = ReplayMemory(ma, ai, 1, 8)
    d, ts = data(ctx, 'd', N, mi, ai)
    want = [t for _, t in windows(ts, n, g)]
    mem.add(d, n, g)
    memory_is(ctx, mem, want, 'a stored transition spans n steps of one episode with their discounted reward', goals=False)
    for i in range(N):
        ctx.eq(d.reward[i], ts[i][2], 'storing leaves the data handed over unchanged')


@scenario('P08', 'as n_step, memory of 2 that wraps around: two additions of 3 transitions', tol=1e-4)
def n_step_wrap(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    g = ctx.real('gamma', 0, 1)
    mem = ReplayMemory(ma, ai, 1, 2)
    want = []
    for k in range(2):
        d, ts = data(ctx, 'd%d' % k, 3, mi, ai)
        mem.add(d, 2, g)
        want += [t for _, t in windows(ts, 2, g)]
    memory_is(ctx, mem, want[-2:], 'wrapped n-step memory holds the newest transitions', goals=False)


@scenario('P08', 'memory of 2, filled with 3, reset, then 1 transition', tol=1e-5)
def reset(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    mem = ReplayMemory(ma, ai, 1, 2)
    d, _ = data(ctx, 'd', 3, mi, ai)
    mem.add(d)
    mem.reset()
    ctx.check(mem.size == 0 and not mem.initialized, 'reset empties the memory')
    d, ts = data(ctx, 'e', 1, mi, ai)
    mem.add(d)
    memory_is(ctx, mem, ts, 'after a reset only new transitions are sampled', goals=False)


# ---- P09 ------------------------------------------------------------------------------------------------------------------------

def seq_check(ctx, mem, hist, cap, L, n_samples=1):
    """hist: all transitions ever added (oldest first)"""
    k = len(hist)
    first = max(0, k - cap)
    out = mem.get(n_samples)
    s, a, r, ss, ab, last, ps, nps, pa, lengths = out
    ctx.check(len(lengths) == n_samples, 'one length per sample')
    for j in range(n_samples):
        n = int(lengths[j])
        ctx.check(1 <= n <= L, 'length between 1 and the truncation length')
        alts = []
        for e in range(first, k):           # newest transition of the sequence
            b = e - n + 1
            if b < first or any(bool(hist[i][5]) for i in range(b, e)):
                continue
            start = b == 0 or bool(hist[b - 1][5])
            c = [ctx.same(r[j], [hist[e][2]] if False else hist[e][2].reshape(1) if hasattr(hist[e][2], 'reshape') else ctx.arr([hist[e][2]])),
                 ctx.same(ab[j][0] > 0, hist[e][4]), ctx.same(last[j] > 0, hist[e][5])]
            for q in range(n):
                t = hist[b + q]
                c += [ctx.same(s[j][q], t[0]), ctx.same(a[j][q], t[1]), ctx.same(ss[j][q], t[3]),
                      ctx.same(ps[j][q], t[6]), ctx.same(nps[j][q], t[7])]
                if q > 0:
                    c.append(ctx.same(pa[j][q], hist[b + q - 1][1]))
                elif start:
                    c.append(ctx.same(pa[j][0], 0 * t[1]))
                else:
                    # the preceding action, or zero where it is not at hand
                    c.append(LOR(ctx.same(pa[j][0], hist[b - 1][1]), ctx.same(pa[j][0], 0 * t[1])))
            # as long as possible: the sequence ends at an episode start, at the edge of the memory or at the truncation length
            if n < L and not start and b > first and k <= cap:
                c.append(np.False_)
            alts.append(LAND(*c))
            if bool(alts[-1]):
                ctx.cover('end %d' % (e - first))
        ctx.check(LOR(*alts), 'a sequence consists of consecutive transitions of one episode, in order, with its previous actions')
        for q in range(n, L):
            for x in (s, a, ss, ps, nps, pa):
                ctx.eq(x[j][q], 0 * x[j][q], 'padding is zero')


@scenario('P09', 'memory of 4, %d arbitrary transitions with arbitrary episode ends, truncation length 2 or 3; one sample',
          quick=[dict(L=2, N=3, b='numpy'), dict(L=3, N=3, b='numpy'), dict(L=2, N=3, b='torch')],
          thorough=[dict(L=3, N=4, b='numpy'), dict(L=3, N=4, b='torch')], tol=1e-5,
          goals=lambda L, N, b: tuple('end %d' % i for i in range(N)), max_paths=6000)
def sequences(ctx, L, N, b):
    mi, ma, ai = infos(b, b, True)
    mem = SequenceReplayMemory(ma, ai, 1, 5, L)
    d, ts = data(ctx, 'd', N, mi, ai)
    distinct(ctx, ts)
    mem.add(d)
    seq_check(ctx, mem, ts, 5, L)


@scenario('P09', 'memory of 3 that wrapped around after 4 or 5 transitions, truncation length 2; one sample',
          quick=[dict(N=4), dict(N=5)], thorough=[dict(N=6)], tol=1e-5, max_paths=6000)
def sequences_wrapped(ctx, N):
    mi, ma, ai = infos('numpy', 'numpy', True)
    mem = SequenceReplayMemory(ma, ai, 1, 3, 2)
    d, ts = data(ctx, 'd', N, mi, ai)
    distinct(ctx, ts)
    mem.add(d)
    seq_check(ctx, mem, ts, 3, 2)


@scenario('P09', 'memory of 4 holding 2; two samples', tol=1e-5)
def two_sequences(ctx):
    mi, ma, ai = infos('numpy', 'numpy', True)
    mem = SequenceReplayMemory(ma, ai, 1, 4, 2)
    d, ts = data(ctx, 'd', 2, mi, ai)
    distinct(ctx, ts)
    mem.add(d)
    seq_check(ctx, mem, ts, 4, 2, 2)


# ---- P10 ------------------------------------------------------------------------------------------------------------------------

@scenario('P10', 'capacity 2 or 3, up to 4 additions with arbitrary positive priorities', quick=[dict(cap=2), dict(cap=3), dict(cap=4)])
def tree_totals(ctx, cap):
    mi, ma, ai = infos('numpy', 'numpy')
    tree = SumTree(ma, ai, cap)
    ps = []
    for k, n in enumerate((2, 1, 2)):
        d, _ = data(ctx, 'd%d' % k, n, mi, ai)
        p = [ctx.real('p%d%d' % (k, i), 0.01, 50) for i in range(n)]
        tree.add(d, p, 1, 0.9)
        ps += p
        ctx.eq(tree.total_p, asum(ps[-cap:]), 'the total priority is the sum over the stored transitions')
        ctx.eq(tree.max_p, amax(ps[-cap:]), 'the maximum priority is the maximum over the stored transitions')
        ctx.check(tree.size == min(len(ps), cap), 'size')
    z = ctx.real('z', None, 0)
    d, _ = data(ctx, 'z', 1, mi, ai)
    ctx.raises(lambda: tree.add(d, [z], 1, 0.9), AssertionError, 'priorities must be positive')


def prio(ctx, cap, N, init=0, alpha=1., beta=1., eps=.01, stateful=False, b='numpy', lo=.125):
    mi, ma, ai = infos(b, b, stateful)
    mem = PrioritizedReplayMemory(ma, ai, init, cap, alpha, beta, eps)
    d, ts = data(ctx, 'd', N, mi, ai)
    p = [ctx.real('p%d' % i, lo, 8) for i in range(N)]
    mem.add(d, p)
    return mem, ts[-cap:], p[-cap:]


@scenario('P10', 'capacity as listed, filled partly or wrapped, arbitrary priorities; one sample',
          quick=[dict(cap=2, N=1), dict(cap=2, N=2), dict(cap=3, N=2), dict(cap=3, N=3), dict(cap=4, N=3), dict(cap=3, N=4)],
          thorough=[dict(cap=4, N=4), dict(cap=4, N=6), dict(cap=5, N=5), dict(cap=6, N=4)],
          goals=lambda cap, N: tuple('hit %d' % i for i in range(min(cap, N))), tol=1e-5)
def sample_one(ctx, cap, N):
    """whatever the draw, a stored transition is returned, and each stored transition can be"""
    mem, ts, p = prio(ctx, cap, N)
    distinct(ctx, ts)
    out = mem.get(1)
    m = [is_row(ctx, out, 0, t) for t in ts]
    ctx.check(LOR(*m), 'a sample is one of the stored transitions')
    ctx.eq(out[-1], ctx.arr([1.0]), 'the largest importance weight is 1')
    for i, x in enumerate(m):
        if bool(x):
            ctx.cover('hit %d' % i)


@scenario('P10', 'capacity 2 or 4, full, arbitrary priorities of which no two groups have equal sums, arbitrary draw',
          quick=[dict(cap=2), dict(cap=4)], tol=1e-5)
def proportional(ctx, cap):
    """the transition whose cumulative priority interval contains the draw is returned"""
    mi, ma, ai = infos('numpy', 'numpy')
    tree = SumTree(ma, ai, cap)
    d, ts = data(ctx, 'd', cap, mi, ai)
    distinct(ctx, ts)
    p = [ctx.real('p%d' % i, .125, 8) for i in range(cap)]
    if cap == 2:
        ctx.assume(p[0] != p[1])
    else:
        ctx.assume(p[0] + p[1] != p[2] + p[3], p[0] != p[1], p[2] != p[3])
    tree.add(d, p, 1, .9)
    s = ctx.real('s', 0)
    ctx.assume(s < asum(p))
    _, pr, t = tree.get(s)
    acc = 0.
    for i in range(cap):
        inside = LAND(acc < s, s < acc + p[i])
        ctx.implies(inside, LAND(*[ctx.same(t[k], ts[i][k]) for k in range(6)] + [ctx.same(pr, p[i])]),
                    'the transition is selected in proportion to its priority')
        acc = acc + p[i]


@scenario('P10', 'capacity 2, two transitions with arbitrary priorities, batch of 4 stratified draws', tol=1e-5)
def stratified(ctx):
    mem, ts, p = prio(ctx, 2, 2)
    ctx.assume(p[0] != p[1])
    distinct(ctx, ts)
    out = mem.get(4)
    n = [0, 0]
    for j in range(4):
        for i in range(2):
            if bool(is_row(ctx, out, j, ts[i])):
                n[i] += 1
                break
        else:
            ctx.fail('a sample is one of the stored transitions')
    for i in range(2):
        f = 4 * p[i]
        tot = p[0] + p[1]
        ctx.check(LAND((n[i] + 2) * tot >= f, (n[i] - 2) * tot <= f), 'transitions appear in proportion to their priority')


@scenario('P10', 'capacity 3 with 2 or 3 transitions, arbitrary priorities; batch of 2; beta 1 or 2',
          quick=[dict(N=2, beta=1), dict(N=3, beta=1), dict(N=2, beta=2)], tol=1e-4)
def weights(ctx, N, beta):
    mem, ts, p = prio(ctx, 3, N, beta=float(beta), stateful=beta == 2)
    distinct(ctx, ts)
    out = mem.get(2)
    w = out[-1]
    who = []
    for j in range(2):
        for i in range(N):
            if bool(is_row(ctx, out, j, ts[i])):
                who.append(i)
                break
        else:
            ctx.fail('a sample is one of the stored transitions')
    pm = amin([p[i] for i in who])
    for j in range(2):
        ctx.eq(w[j] * p[who[j]] ** beta, pm ** beta, 'importance weights are inversely proportional to the priority, normalised by their maximum')


@scenario('P10', 'capacity 2, arbitrary errors; alpha 1 or 2', quick=[dict(b='numpy', alpha=1), dict(b='numpy', alpha=2)], tol=1e-4)
def update_priorities(ctx, b, alpha):
    """after an update the sampled transitions carry (|error| + epsilon)^alpha"""
    mem, ts, p = prio(ctx, 2, 2, eps=.25, b=b, alpha=float(alpha))
    distinct(ctx, ts)
    out = mem.get(1)
    idx = out[-2]
    hit = 0 if bool(is_row(ctx, out, 0, ts[0])) else 1
    e = ctx.real('err', -8, 8)
    mem.update(ctx.arr([e]), idx)
    p[hit] = (abs(e) + .25) ** alpha
    ctx.eq(mem.max_priority, amax(p), 'the maximum priority follows the update')
    out = mem.get(2)
    who = [0 if bool(is_row(ctx, out, j, ts[0])) else 1 for j in range(2)]
    for j in range(2):
        ctx.check(is_row(ctx, out, j, ts[who[j]]), 'updates leave the stored transitions unchanged')
    pm = amin([p[i] for i in who])
    for j in range(2):
        ctx.eq(out[-1][j] * p[who[j]], pm, 'updated priorities determine the importance weights')


@scenario('P10', 'capacity 2 or 3, full; two arbitrary draws (possibly the same transition), priorities updated together, twice',
          quick=[dict(cap=2), dict(cap=3)], goals=('twice the same',), tol=1e-5)
def update_batch(ctx, cap):
    mi, ma, ai = infos('numpy', 'numpy')
    tree = SumTree(ma, ai, cap)
    d, ts = data(ctx, 'd', cap, mi, ai)
    p = [ctx.real('p%d' % i, .125, 8) for i in range(cap)]
    tree.add(d, p, 1, .9)
    for r in range(2 if cap == 2 else 1):
        s = [ctx.real('s%d%d' % (r, j), 0) for j in range(2)]
        got = []
        for x in s:
            ctx.assume(x < asum(p))
            got.append(tree.get_ind(x))
        new = [ctx.real('n%d%d' % (r, j), .125, 8) for j in range(2)]
        slot = [int(g[2]) for g in got]
        if slot[0] == slot[1]:
            ctx.cover('twice the same')
        for j in range(2):
            ctx.eq(got[j][1], p[slot[j]], 'a draw reports the priority of its transition')
        tree.update([g[0] for g in got], new)
        for j in range(2):
            p[slot[j]] = new[j]
        ctx.eq(tree.total_p, asum(p), 'the total priority is the sum over the stored transitions after an update')
        ctx.eq(tree.max_p, amax(p), 'the maximum priority is the maximum over the stored transitions after an update')


@scenario('P10', 'initial size 2, up to 3 transitions, arbitrary priorities', tol=1e-5)
def max_priority(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    mem = PrioritizedReplayMemory(ma, ai, 2, 4, 1., 1.)
    p = [ctx.real('p%d' % i, .125, 8) for i in range(3)]
    for k in range(3):
        ctx.check(not mem.initialized, 'not initialized')
        ctx.eq(mem.max_priority, 1.0, 'before initialisation new transitions get priority 1')
        d, _ = data(ctx, 'd%d' % k, 1, mi, ai)
        mem.add(d, [p[k]])
    ctx.check(bool(mem.initialized), 'initialized once more than initial_size transitions are stored')
    ctx.eq(mem.max_priority, amax(p), 'the maximum priority of the stored transitions')


@scenario('P10', 'capacity 4, one addition of 3 transitions with 2-step returns, arbitrary ends, rewards and priorities', tol=1e-4)
def prioritized_n_step(ctx):
    mi, ma, ai = infos('numpy', 'numpy')
    g = ctx.real('gamma', 0, 1)
    tree = SumTree(ma, ai, 4)
    d, ts = data(ctx, 'd', 3, mi, ai)
    p = [ctx.real('p%d' % i, .125, 8) for i in range(3)]
    tree.add(d, p, 2, g)
    want = windows(ts, 2, g)
    ctx.check(tree.size == len(want), 'one entry per n-step window')
    ctx.eq(tree.total_p, asum([p[i] for i, _ in want]), 'a window carries the priority of its first transition')
    for j, (_, t) in enumerate(want):
        for k in range(6):
            ctx.eq(tree.dataset[j][k], t[k], 'an entry spans n steps of one episode with their discounted reward')
    for i in range(3):
        ctx.eq(d.reward[i], ts[i][2], 'storing leaves the data handed over unchanged')
