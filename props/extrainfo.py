"""Step information (P07)."""
from props.common import *
from mushroom_rl.core.extra_info import ExtraInfo


def T(ctx, be, a):
    return ctx.to_tensor(a) if be == 'torch' else a


def step(ctx, nm, be, n_envs=1, fmt='dict', drop=()):
    """one step of information: scalar a, nested vector b.c; returns (what the environment reports, rows)"""
    rows = []
    for e in range(n_envs):
        rows.append(dict(a=ctx.real('%s_%da' % (nm, e)), c=ctx.array('%s_%dc' % (nm, e), (2,))))
    if n_envs == 1:
        d = dict(a=rows[0]['a'], b=dict(c=T(ctx, be, rows[0]['c'])))
        for k in drop:
            d.pop(k)
        return d, rows[0]
    if fmt == 'dict':
        d = dict(a=T(ctx, be, ctx.arr([r['a'] for r in rows], 'f')),
                 b=dict(c=T(ctx, be, ctx.arr([list(r['c']) for r in rows], 'f'))))
    else:
        d = [dict(a=r['a'], b=dict(c=T(ctx, be, r['c']))) for r in rows]
    return d, rows


def agrees(ctx, info, rows, label):
    ctx.check(set(info.keys()) == {'a', 'b_c'} if rows else True, label + ': fields', str(sorted(info.keys())))
    if not rows:
        return
    ctx.check(len(info['a']) == len(rows) and len(info['b_c']) == len(rows), label + ': number of steps')
    for i, r in enumerate(rows):
        ctx.eq(info['a'][i], r['a'], label)
        ctx.eq(info['b_c'][i], r['c'], label)


BE = [dict(be='numpy'), dict(be='torch'), dict(be='list')]
IB = '%d steps of information with a scalar and a nested vector field of arbitrary values'


@scenario('P07', IB % 3, quick=[dict(be=b, p=p) for b in ('numpy', 'torch') for p in (0, 1, 2)], tol=1e-5)
def parse(ctx, be, p):
    """parsing once or repeatedly while appending gives the same columns"""
    info = ExtraInfo(1, be)
    rows = []
    for i in range(3):
        if i == p and p > 0:
            info.parse()
            agrees(ctx, info, rows, 'columns after an intermediate parse')
        d, r = step(ctx, 's%d' % i, be)
        info.append(d)
        rows.append(r)
    info.parse()
    agrees(ctx, info, rows, 'columns list the steps in order')
    info.parse(to='torch' if be == 'numpy' else 'numpy')
    agrees(ctx, info, rows, 'conversion of the columns')
    info.clear()
    ctx.check(len(info) == 0, 'cleared information has no fields')
    d, r = step(ctx, 'z', 'torch' if be == 'numpy' else 'numpy')
    info.append(d)
    info.parse(to=be)
    agrees(ctx, info, [r], 'cleared information forgets the past')


@scenario('P07', '2 steps, one of which lacks a field', quick=[dict(be=b, w=w) for b in ('numpy', 'torch', 'list') for w in (0, 1)], tol=1e-5)
def missing(ctx, be, w):
    info = ExtraInfo(1, be)
    rows = []
    for i in range(2):
        d, r = step(ctx, 's%d' % i, be, drop=('a',) if i == w else ())
        if i == 1 and bool(ctx.bool('parsed')):
            info.parse()
        info.append(d)
        rows.append(r)
    info.parse()
    ctx.eq(info['a'][1 - w], rows[1 - w]['a'], 'present value stays with its step')
    ctx.check(np.isnan(float(info['a'][w])), 'a missing value is marked as missing')
    for i in range(2):
        ctx.eq(info['b_c'][i], rows[i]['c'], 'other fields are unaffected')


@scenario('P07', '2 parallel environments, 2 steps, every mask', quick=[dict(be=b, fmt=f) for b in ('numpy', 'torch', 'list')
                                                                       for f in ('dict', 'list')], tol=1e-5)
def flatten(ctx, be, fmt):
    info = ExtraInfo(2, be)
    data, mask = [], []
    for i in range(2):
        d, rows = step(ctx, 's%d' % i, be, 2, fmt)
        info.append(d)
        data.append(rows)
    m = [[bool(ctx.bool('m%d%d' % (i, e))) for e in range(2)] for i in range(2)]
    mk = np.array(m) if be != 'torch' else torch.tensor(m)
    flat = info.flatten(mk)
    want = [data[i][e] for e in range(2) for i in range(2) if m[i][e]]
    agrees(ctx, flat, want, 'flattened information: environment after environment, active steps only')
    flat.parse()
    agrees(ctx, flat, want, 'flattened information survives another parse')
    al = info.flatten()
    agrees(ctx, al, [data[i][e] for e in range(2) for i in range(2)], 'flattened without mask')
    for i in range(2):
        for e in range(2):
            ctx.eq(info['a'][i][e], data[i][e]['a'], 'flattening leaves the source unchanged')


@scenario('P07', '3 steps; every slice and every index pair', quick=[dict(be=b, copy=c) for b in ('numpy', 'torch', 'list')
                                                                  for c in (False, True)], tol=1e-5)
def views(ctx, be, copy):
    info = ExtraInfo(1, be)
    rows = []
    for i in range(3):
        d, r = step(ctx, 's%d' % i, be)
        info.append(d)
        rows.append(r)
    i, j = int(ctx.int('i', 0, 2)), int(ctx.int('j', 0, 2))
    idx = np.array([i, j]) if be != 'torch' else torch.tensor([i, j])
    v = info.get_view(idx, copy)
    agrees(ctx, v, [rows[i], rows[j]], 'indexed view')
    v.parse()
    agrees(ctx, v, [rows[i], rows[j]], 'indexed view after another parse')
    s = info.get_view(slice(i, j + 1), copy)
    agrees(ctx, s, rows[i:j + 1], 'sliced view')
    if copy:
        for k in s.keys():
            s[k][...] = 3.
    agrees(ctx, info, rows, 'views leave the source unchanged')


@scenario('P07', '2 + 1 steps, either side parsed before or not', quick=[dict(be=b) for b in ('numpy', 'torch', 'list')], tol=1e-5)
def concat(ctx, be):
    x, y = ExtraInfo(1, be), ExtraInfo(1, be)
    rx, ry = [], []
    for i in range(2):
        d, r = step(ctx, 'x%d' % i, be)
        x.append(d)
        rx.append(r)
    d, r = step(ctx, 'y0', be)
    y.append(d)
    ry.append(r)
    px, py = bool(ctx.bool('px')), bool(ctx.bool('py'))
    if px:
        x.parse()
    if py:
        y.parse()
    z = x + y
    z.parse()
    agrees(ctx, z, rx + ry, 'concatenation keeps the order')
    x.parse()
    y.parse()
    agrees(ctx, x, rx, 'concatenation leaves the first operand unchanged')
    agrees(ctx, y, ry, 'concatenation leaves the second operand unchanged')


@scenario('P07', '2 + 1 or 1 + 2 steps, a field missing on one side, either side parsed before or not',
          quick=[dict(be=b, w=w, n=n, f=f) for b in ('numpy', 'torch', 'list') for w in (0, 1) for n in (1, 2) for f in 'ab'], tol=1e-5)
def concat_missing(ctx, be, w, n, f):
    info = [ExtraInfo(1, be), ExtraInfo(1, be)]
    rows = [[], []]
    for k, m in enumerate((n, 3 - n)):
        for i in range(m):
            d, r = step(ctx, '%s%d' % ('xy'[k], i), be, drop=(f,) if k == w else ())
            info[k].append(d)
            rows[k].append(r)
    for k in range(2):
        if bool(ctx.bool('p%d' % k)):
            info[k].parse()
    z = info[0] + info[1]
    z.parse()
    ctx.check(len(z['a']) == 3 and len(z['b_c']) == 3, 'every field has one row per step')
    for i in range(3):
        k = 0 if i < n else 1
        r = (rows[0] + rows[1])[i]
        ctx.shape(z['b_c'], (3, 2), 'shape of a vector field')
        for g, want in (('a', [r['a']]), ('b', list(r['c']))):
            v = [z['a'][i]] if g == 'a' else [z['b_c'][i][0], z['b_c'][i][1]]
            for x, y in zip(v, want):
                if k == w and g == f:
                    ctx.check(np.isnan(float(x)), 'a value missing on one side is marked as missing')
                else:
                    ctx.eq(x, y, 'fields keep the order of the steps')


@scenario('P07', '2 steps, copied before or after parsing, then one more step on either side', quick=BE, tol=1e-5)
def copy(ctx, be):
    info = ExtraInfo(1, be)
    rows = []
    for i in range(2):
        d, r = step(ctx, 's%d' % i, be)
        info.append(d)
        rows.append(r)
    if bool(ctx.bool('parsed')):
        info.parse()
    c = info.copy()
    d, r = step(ctx, 'c', be)
    c.append(d)
    c.parse()
    agrees(ctx, c, rows + [r], 'a copy holds everything and can be extended')
    info.parse()
    agrees(ctx, info, rows, 'extending a copy does not change the original')


@scenario('P07', 'any key', quick=BE)
def read_only(ctx, be):
    info = ExtraInfo(1, be)
    d, r = step(ctx, 's', be)
    info.append(d)
    info.parse()

    def put():
        info['a'] = 1
    ctx.raises(put, TypeError, 'the columns are read-only')
    ctx.raises(lambda: info.pop('a'), TypeError, 'the columns are read-only')
    agrees(ctx, info, [r], 'unchanged')
