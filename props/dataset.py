"""Datasets: storage, views, selection, concatenation, conversion (P05); episodes and returns (P06)."""
from props.common import *
from mushroom_rl.core.dataset import DatasetInfo

F = ('state', 'action', 'reward', 'next_state', 'absorbing', 'last')


def make(ctx, backend, n_steps=None, n_episodes=None, stateful=False, gamma=0.9, horizon=10, sdim=2):
    tt = backend == 'torch'
    di = DatasetInfo(backend, None, horizon, gamma, (sdim,), torch.float32 if tt else float, (1,),
                     torch.float32 if tt else float, (2,) if stateful else None)
    return Dataset(di, n_steps=n_steps, n_episodes=n_episodes)


def transition(ctx, nm, backend, stateful=False, sdim=2, **over):
    T = (lambda a, d=torch.float32: ctx.to_tensor(a, d)) if backend == 'torch' else (lambda a, d=None: a)
    if backend == 'torch':
        S = lambda v, d: ctx.to_tensor(ctx.arr([v]), d)[0]
    else:
        S = lambda v, d: v
    t = dict(state=T(ctx.array(nm + 's', (sdim,))), action=T(ctx.array(nm + 'a', (1,))), reward=S(ctx.real(nm + 'r'), torch.float32),
             next_state=T(ctx.array(nm + 'n', (sdim,))), absorbing=S(ctx.bool(nm + 'ab'), torch.bool),
             last=S(ctx.bool(nm + 'l'), torch.bool))
    t.update(over)
    t = tuple(t[f] for f in F)
    if stateful:
        t += (T(ctx.array(nm + 'p', (2,))), T(ctx.array(nm + 'q', (2,))))
    return t


def fill(ctx, nm, n, backend, stateful=False, cap=None, **kw):
    d = make(ctx, backend, n_steps=cap or n + 1, stateful=stateful, **kw)
    ts = []
    for i in range(n):
        t = transition(ctx, '%s%d' % (nm, i), backend, stateful)
        x = ctx.real('%s%dinfo' % (nm, i))
        d.append(t, dict(x=x))
        ts.append(t + (x,))
    return d, ts


def cpy(x):
    if isinstance(x, torch.Tensor):
        return x.clone()
    return x.copy() if isinstance(x, np.ndarray) else x


def agrees(ctx, d, ts, label, stateful=False, info=True):
    """every accessor of d shows exactly the transitions ts"""
    ctx.check(len(d) == len(ts), label + ': length', '%d vs %d' % (len(d), len(ts)))
    for k, f in enumerate(F):
        col = getattr(d, f)
        ctx.check(len(col) == len(ts), label + ': ' + f)
        for i, t in enumerate(ts):
            ctx.eq(col[i], t[k], label + ': ' + f)
    for i, t in enumerate(ts):
        row = d[i]
        for k in range(6):
            ctx.eq(row[k], t[k], label + ': item access')
    if stateful:
        ctx.check(bool(d.is_stateful), label + ': is stateful')
        for i, t in enumerate(ts):
            ctx.eq(d.policy_state[i], t[6], label + ': policy state')
            ctx.eq(d.policy_next_state[i], t[7], label + ': policy next state')
    if info and len(ts):
        d.info.parse()
        x = d.get_info('x')
        for i, t in enumerate(ts):
            ctx.eq(x[i], t[-1], label + ': step information')
            ctx.eq(d.get_info('x', i), t[-1], label + ': step information of one step')


BK = [dict(backend=b, stateful=s) for b in ('numpy', 'torch', 'list') for s in (False, True)]
B1 = [dict(backend=b) for b in ('numpy', 'torch', 'list')]
NT = [dict(backend=b, stateful=s) for b in ('numpy', 'torch') for s in (False, True)]
DB = '%s transitions with arbitrary content, state dimension 2, action dimension 1, policy state dimension 2, info field x; ' \
     'back end and statefulness as in the scenario name'


@scenario('P05', DB % 3, quick=BK, tol=1e-5)
def append_read(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 3, backend, stateful)
    # later changes of the arrays handed in do not change the history
    keep = [tuple(cpy(x) for x in t) for t in ts]
    for t in ts:
        for a in (t[0], t[1], t[3]) + (t[6:8] if stateful else ()):
            a[...] = 7.
    agrees(ctx, d, keep, 'appended data are read back unchanged', stateful)
    cols = d.parse() if backend != 'list' else d.parse(to='numpy')
    for k in range(6):
        for i in range(3):
            ctx.eq(cols[k][i], keep[i][k], 'parse returns the columns in order')
    if stateful:
        ps, pn = d.parse_policy_state(to=None if backend != 'list' else 'numpy')
        for i in range(3):
            ctx.eq(ps[i], keep[i][6], 'parse_policy_state')
            ctx.eq(pn[i], keep[i][7], 'parse_policy_state')


@scenario('P05', DB % 2, quick=B1, tol=1e-5)
def parse_to(ctx, backend):
    d, ts = fill(ctx, 't', 2, backend)
    for to in ('numpy', 'torch'):
        cols = d.parse(to=to)
        for k in range(6):
            ctx.check(isinstance(cols[k], np.ndarray if to == 'numpy' else torch.Tensor), 'conversion yields the target type')
            for i in range(2):
                ctx.eq(cols[k][i], ts[i][k], 'conversion keeps the values')
    agrees(ctx, d, ts, 'conversion leaves the dataset unchanged', info=False)


@scenario('P05', DB % 3 + '; every slice start:stop with -4 <= start, stop <= 4', quick=BK, tol=1e-5)
def slices(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 3, backend, stateful)
    a, b = int(ctx.int('a', -4, 4)), int(ctx.int('b', -4, 4))
    v = d[a:b]
    agrees(ctx, v, ts[a:b], 'slice', stateful)
    agrees(ctx, d, ts, 'the sliced dataset is unchanged', stateful)


@scenario('P05', DB % 4 + '; open slices and slices of every second transition', quick=BK, tol=1e-5)
def strided(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 4, backend, stateful, cap=7)
    a, b = ctx.pick('a', [None, 1, -2]), ctx.pick('b', [None, 3, -1])
    for c in (None, 2, 3):
        agrees(ctx, d[a:b:c], ts[a:b:c], 'slice', stateful)
        agrees(ctx, d[a:b:c][1:], ts[a:b:c][1:], 'slice of a slice', stateful)
        agrees(ctx, d.get_view(slice(a, b, c), copy=True), ts[a:b:c], 'copied slice', stateful)


@scenario('P05', DB % 3 + '; every index vector of length 2 (with repetitions and negative values)', quick=BK, tol=1e-5)
def index_arrays(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 3, backend, stateful)
    i, j = int(ctx.int('i', -3, 2)), int(ctx.int('j', -3, 2))
    idx = torch.tensor([i, j]) if backend == 'torch' else np.array([i, j])
    v = d[idx]
    agrees(ctx, v, [ts[i], ts[j]], 'index vector', stateful)


@scenario('P05', DB % 3 + '; index out of range', quick=B1)
def out_of_range(ctx, backend):
    d, ts = fill(ctx, 't', 3, backend, cap=5)
    ctx.raises(lambda: d[3], IndexError, 'reading past the end raises IndexError')
    ctx.check(len([0 for _ in d]) == 3, 'iteration visits exactly the stored transitions')
    for i, row in enumerate(d):
        for k in range(6):
            ctx.eq(row[k], ts[i][k], 'iteration follows the order of the history')


@scenario('P05', DB % 3 + '; every slice start:stop with 0 <= start < stop <= 3', quick=BK, tol=1e-5)
def copies(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 3, backend, stateful)
    a, b = int(ctx.int('a', 0, 2)), int(ctx.int('b', 1, 3))
    ctx.assume(a < b)
    v = d.get_view(slice(a, b), copy=True)
    agrees(ctx, v, ts[a:b], 'copied view', stateful)
    if backend != 'list':
        for f in F[:4]:
            getattr(v, f)[...] = 5.
        v.absorbing[...] = True
        v.last[...] = False
    agrees(ctx, d, ts, 'writing to a copy does not change the original', stateful)


@scenario('P05', DB % '2 + 2', quick=BK, tol=1e-5)
def concatenation(ctx, backend, stateful):
    x, tx = fill(ctx, 'x', 2, backend, stateful, cap=4)
    y, ty = fill(ctx, 'y', 2, backend, stateful, cap=3)
    x.append_theta(1)
    x.append_theta(2)
    y.append_theta(3)
    z = x + y
    want = [t[:5] + (t[5] if i != 1 else np.True_,) + t[6:] for i, t in enumerate(tx)] + ty
    agrees(ctx, z, want, 'concatenation', stateful)
    ctx.check(list(z.theta_list) == [1, 2, 3], 'concatenation joins the parameter lists')
    agrees(ctx, x, tx, 'concatenation leaves the first operand unchanged', stateful)
    agrees(ctx, y, ty, 'concatenation leaves the second operand unchanged', stateful)
    ctx.check(list(x.theta_list) == [1, 2] and list(y.theta_list) == [3], 'parameter lists of the operands unchanged')


@scenario('P05', DB % '2 added to 0', quick=BK, tol=1e-5)
def concatenation_empty(ctx, backend, stateful):
    e = make(ctx, backend, n_steps=3, stateful=stateful)
    f, _ = fill(ctx, 'x', 2, backend, stateful)
    f.clear()
    y, ty = fill(ctx, 'y', 2, backend, stateful)
    agrees(ctx, e + y, ty, 'added to an empty dataset', stateful, info=False)
    agrees(ctx, f + y, ty, 'added to a dataset that was cleared', stateful, info=False)
    agrees(ctx, y, ty, 'concatenation leaves the second operand unchanged', stateful, info=False)


@scenario('P05', DB % '2, then 2' + ' after a clear', quick=BK, tol=1e-5)
def clear_reuse(ctx, backend, stateful):
    d, _ = fill(ctx, 'o', 2, backend, stateful, cap=2)
    d.append_theta(1)
    d.clear()
    ctx.check(len(d) == 0 and len(d.theta_list) == 0, 'a cleared dataset is empty')
    d.append_theta(2)
    ts = []
    for i in range(2):
        t = transition(ctx, 'n%d' % i, backend, stateful)
        x = ctx.real('n%dinfo' % i)
        d.append(t, dict(x=x))
        ts.append(t + (x,))
    agrees(ctx, d, ts, 'a cleared dataset holds only what was appended afterwards', stateful)
    ctx.check(list(d.theta_list) == [2], 'a cleared dataset forgets the parameters')


@scenario('P05', DB % 3, quick=BK, tol=1e-5)
def from_array(ctx, backend, stateful):
    src = 'torch' if backend == 'torch' else 'numpy'
    d, ts = fill(ctx, 't', 3, src, stateful, cap=3)
    kw = {}
    if stateful:
        kw = dict(policy_state=d.policy_state, policy_next_state=d.policy_next_state)
    d.append_theta(4)
    e = Dataset.from_array(d.state, d.action, d.reward, d.next_state, d.absorbing, d.last, info=d.info,
                           episode_info=d.episode_info, theta_list=d.theta_list, gamma=0.5, horizon=7, backend=backend, **kw)
    agrees(ctx, e, ts, 'a dataset built from arrays', stateful)
    ctx.check(list(e.theta_list) == [4], 'a dataset built from arrays keeps the parameters')
    d.append_theta(5)
    ctx.check(list(e.theta_list) == [4], 'the parameter list is not shared')


@scenario('P05', DB % 3 + '; torch dataset from numpy arrays', quick=[dict(stateful=False), dict(stateful=True)], tol=1e-5)
def from_other_arrays(ctx, stateful):
    d, ts = fill(ctx, 't', 3, 'numpy', stateful, cap=3)
    kw = dict(policy_state=d.policy_state, policy_next_state=d.policy_next_state) if stateful else {}
    e = Dataset.from_array(d.state, d.action, d.reward, d.next_state, d.absorbing, d.last, gamma=0.5, horizon=7, backend='torch', **kw)
    fields = F + (('policy_state', 'policy_next_state') if stateful else ())
    for f in fields:
        x = getattr(e, f)
        ctx.check(isinstance(x, torch.Tensor) and len(x) == 3, 'a torch dataset holds tensors')
        for i in range(3):
            ctx.eq(x[i].reshape(-1)[0], getattr(d, f)[i].reshape(-1)[0], 'a dataset built from arrays of the other backend')


@scenario('P05', DB % 4 + '; every pattern of episode ends', quick=[dict(backend='numpy', stateful=True),
                                                                  dict(backend='torch', stateful=False)], tol=1e-5)
def first_episodes(ctx, backend, stateful):
    d, ts = fill(ctx, 't', 4, backend, stateful, cap=4)
    ends = [i for i, t in enumerate(ts) if bool(t[5])]
    k = int(ctx.int('k', 1, 2))
    ctx.assume(len(ends) >= k)
    v = d.select_first_episodes(k)
    agrees(ctx, v, ts[:ends[k - 1] + 1], 'select_first_episodes keeps exactly the first complete episodes', stateful)


@scenario('P05', DB % 3 + '; two draws', quick=[dict(backend='numpy'), dict(backend='torch')],
          goals=tuple('pair %d%d' % (i, j) for i in range(3) for j in range(3)), tol=1e-5)
def random_samples(ctx, backend):
    d, ts = fill(ctx, 't', 3, backend, cap=6)
    v = d.select_random_samples(2)
    ctx.check(len(v) == 2, 'as many samples as requested')
    hit = []
    for j in range(2):
        m = [LAND(*[ctx.same(getattr(v, f)[j], t[k]) for k, f in enumerate(F)]) for t in ts]
        ctx.check(LOR(*m), 'every sample is one of the stored transitions')
        hit.append(m)
    for i in range(3):
        for j in range(3):
            if bool(LAND(hit[0][i], hit[1][j])):
                ctx.cover('pair %d%d' % (i, j))


# ---- P06 ------------------------------------------------------------------------------------------------------------------------

def episodes(ts):
    out, cur = [], []
    for t in ts:
        cur.append(t)
        if bool(t[5]):
            out.append(cur)
            cur = []
    return out, cur


def ret(ep, g):
    return asum([g ** k * t[2] if k else t[2] for k, t in enumerate(ep)])


RB = '%d transitions with arbitrary rewards and arbitrary pattern of episode ends, arbitrary discount'
N4 = [dict(backend=b, n=n) for b in ('numpy', 'torch') for n in (1, 4)] + [dict(backend='list', n=3)]


@scenario('P06', RB % 4, quick=N4, thorough=[dict(backend='numpy', n=7), dict(backend='torch', n=6), dict(backend='list', n=6)],
          tol=1e-4)
def returns(ctx, backend, n):
    g = ctx.real('gamma', 0, 1)
    d, ts = fill(ctx, 't', n, backend, cap=n + 1, gamma=g)
    done, cur = episodes(ts)
    eps = done + ([cur] if cur else [])
    J = d.compute_J(g)
    ctx.check(len(J) == len(eps), 'one return per episode (the trailing incomplete one included)')
    for j, ep in zip(J, eps):
        ctx.eq(j, ret(ep, g), 'discounted return restarts at every episode')
    for a, ep in zip(d.discounted_return, eps):
        ctx.eq(a, ret(ep, g), 'discounted_return uses the discount of the environment')
    for a, ep in zip(d.undiscounted_return, eps):
        ctx.eq(a, ret(ep, 1.0), 'undiscounted_return sums the rewards')
    ctx.check(len(d.discounted_return) == len(eps) and len(d.undiscounted_return) == len(eps), 'number of returns')
    L = d.episodes_length
    ctx.check([int(x) for x in L] == [len(e) for e in done], 'episodes_length lists the complete episodes')
    ctx.eq(d.n_episodes, len(eps), 'n_episodes counts the trailing incomplete episode')
    x0 = d.get_init_states()
    ctx.check(len(x0) == len(eps), 'one initial state per episode')
    for a, ep in zip(x0, eps):
        ctx.eq(a, ep[0][0], 'initial states are the first states of the episodes')
    ctx.check(len(d) == n, 'reading leaves the dataset unchanged')
    for i in range(n):
        ctx.eq(d.reward[i], ts[i][2], 'reading leaves the rewards unchanged')


@scenario('P06', RB % 4, quick=[dict(backend='numpy', n=4), dict(backend='torch', n=3)],
          thorough=[dict(backend='numpy', n=6), dict(backend='torch', n=5)], tol=1e-4)
def metrics(ctx, backend, n):
    g = ctx.real('gamma', 0, 1)
    d, ts = fill(ctx, 't', n, backend, cap=n)
    done, _ = episodes(ts)
    mn, mx, mean, med, k = d.compute_metrics(g)
    ctx.eq(k, len(done), 'metrics count only complete episodes')
    if done:
        js = [ret(e, g) for e in done]
        ctx.eq(mn, amin(js), 'minimum return of the complete episodes')
        ctx.eq(mx, amax(js), 'maximum return of the complete episodes')
        ctx.eq(mean, asum(js) / len(js), 'mean return of the complete episodes')
        # the median has half of the values on each side and is one of them or the middle of two
        lo, hi = amin(js), amax(js)
        ctx.le(lo, med, 'median within the returns')
        ctx.le(med, hi, 'median within the returns')
        if len(js) == 1:
            ctx.eq(med, js[0], 'median of one return')
        elif len(js) == 2:
            ctx.eq(med, asum(js) / 2, 'median of two returns')
        elif len(js) == 3:
            ctx.eq(med, asum(js) - lo - hi, 'median of three returns')
        elif len(js) == 4:
            ctx.eq(med, (asum(js) - lo - hi) / 2, 'median of four returns')
    else:
        ctx.eq([mn, mx, mean, med], [0, 0, 0, 0], 'no complete episode: zero metrics')


@scenario('P06', RB % 3, quick=[{}])
def metrics_list(ctx):
    metrics(ctx, 'list', 3)


@scenario('P06', 'empty dataset', quick=B1)
def empty(ctx, backend):
    d = make(ctx, backend, n_steps=3)
    ctx.check(len(d) == 0, 'empty')
    ctx.eq(d.n_episodes, 0, 'an empty dataset has no episodes')
    ctx.check(len(d.episodes_length) == 0, 'an empty dataset has no complete episode')
    ctx.eq(list(d.compute_metrics()), [0, 0, 0, 0, 0], 'metrics of an empty dataset')
    ctx.eq(list(d.compute_J()), [0.0], 'return of an empty dataset')


@scenario('P06', '2 episodes of 2 and 1 steps of a run collected with an environment horizon; arbitrary rewards',
          quick=[dict(backend='numpy'), dict(backend='torch')], tol=1e-4)
def views_keep_gamma(ctx, backend):
    """returns of views and of concatenations use the discount of the environment"""
    g = ctx.real('gamma', 0, 1)
    d, ts = fill(ctx, 't', 3, backend, gamma=g)
    e, us = fill(ctx, 'u', 2, backend, gamma=g)
    done, cur = episodes(ts[1:])
    eps = done + ([cur] if cur else [])
    J = d[1:].discounted_return
    ctx.check(len(J) == len(eps), 'returns of a view')
    for j, ep in zip(J, eps):
        ctx.eq(j, ret(ep, g), 'returns of a view')
    a, c1 = episodes(ts)
    b, c2 = episodes(us)
    eps = a + ([c1] if c1 else []) + b + ([c2] if c2 else [])
    J = (d + e).discounted_return
    ctx.check(len(J) == len(eps), 'returns of a concatenation')
    for j, ep in zip(J, eps):
        ctx.eq(j, ret(ep, g), 'returns of a concatenation')
