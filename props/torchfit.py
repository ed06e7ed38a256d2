"""Fitting of torch approximators: epochs, minibatches, early stopping, sample weights, validation split."""
from props.common import *
from props.deepac import Par
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator, NumpyTorchApproximator
from mushroom_rl.utils.minibatches import minibatch_generator, minibatch_number
from mushroom_rl.utils.torch import TorchUtils


class Bench(object):
    """network, loss and optimizer that record what the fit does; a sample is identified by its input"""

    def __init__(self, ctx, lo=-2, hi=2):
        self.ctx = ctx
        self.events = []
        self.nets = []
        self.mode = 'none'
        b = self

        class Net(object):
            def __init__(self, input_shape, output_shape, **kw):
                self.kw, self.args = kw, (input_shape, output_shape)
                self.p = [Par(ctx.tensor('p0', (2, 2), lo, hi)), Par(ctx.tensor('p1', (2,), lo, hi))]
                b.nets.append(self)

            def to(self, d):
                return self

            def parameters(self):
                return list(self.p)

            def train(self):
                b.mode = 'train'

            def eval(self):
                b.mode = 'eval'

            def weights_init(self):
                b.events.append(('init',))

            def __call__(self, *x, **kw):
                b.last = (x, kw, b.mode)
                return x[0] * 2.

        class Opt(object):
            def __init__(self, params, **kw):
                self.params, self.kw = list(params), kw
                b.opt = self

            def zero_grad(self, *a, **k):
                b.events.append(('zero',))

            def step(self, *a, **k):
                b.events.append(('step',))
        self.Net, self.Opt = Net, Opt
        self.losses = []
        self.loss_lo, self.loss_hi = 0, 4

    def loss(self, y_hat, *y, **kw):
        """an arbitrary loss per call (per sample when not reduced)"""
        n = len(y_hat)
        ids = [int(v) // 2 for v in y_hat.reshape(-1)]
        if kw.get('reduction') == 'none':
            v = self.ctx.tensor('l%d' % len(self.losses), (n,), self.loss_lo, self.loss_hi)
        else:
            v = self.ctx.tensor('l%d' % len(self.losses), (1,), self.loss_lo, self.loss_hi)[0]
        self.losses.append((ids, y, v, self.last))
        self.events.append(('loss', len(self.losses) - 1))
        return v

    def make(self, cls=TorchApproximator, **kw):
        return cls(input_shape=(1,), output_shape=(1,), network=self.Net, optimizer={'class': self.Opt, 'params': {'lr': 3}}, loss=self.loss, **kw)


def samples(ctx, n, num=False):
    if num:
        return ctx.arr([[float(i)] for i in range(n)]), ctx.array('y', (n, 1), -2, 2)
    x = ctx.to_tensor(ctx.arr([[float(i)] for i in range(n)]))
    y = ctx.tensor('y', (n, 1), -2, 2)
    return x, y


@scenario('P30', '1-5 samples, minibatches of 1-4, every shuffling', quick=[dict(n=n, b=b) for n, b in ((1, 1), (3, 2), (4, 2), (4, 1), (3, 4), (4, 3))], max_paths=3000)
def minibatches(ctx, n, b):
    x, y = ctx.array('x', (n, 2), -2, 2), ctx.array('y', (n,), -2, 2)
    ids = np.arange(n)
    out = list(minibatch_generator(b, ids, x, y))
    ctx.check(len(out) == minibatch_number(n, b) == -(-n // b), 'number of minibatches')
    seen = []
    for k, (i, bx, by) in enumerate(out):
        i = [int(v) for v in i]
        ctx.check(len(i) == (b if k < len(out) - 1 else n - b * (len(out) - 1)), 'size of the minibatches')
        seen += i
        for r, j in enumerate(i):
            ctx.eq(bx[r, 0], x[j, 0], 'rows stay together')
            ctx.eq(bx[r, 1], x[j, 1], 'rows stay together')
            ctx.eq(by[r], y[j], 'rows stay together')
    ctx.check(sorted(seen) == list(range(n)), 'every sample in exactly one minibatch')


@scenario('P30', '2-4 samples, 1-2 epochs, full batch or minibatches of 1-3, every shuffling, arbitrary losses', tol=1e-4, max_paths=3000,
          quick=[dict(n=2, b=0, e=None), dict(n=3, b=0, e=2), dict(n=3, b=2, e=1), dict(n=2, b=1, e=2), dict(n=3, b=3, e=1, drop=True), dict(n=2, b=0, e=1, reinit=True), dict(n=4, b=2, e=1), dict(n=3, b=2, e=2, num=True)])
def epochs(ctx, n, b, e, drop=False, reinit=False, num=False):
    B = Bench(ctx)
    m = B.make(cls=NumpyTorchApproximator if num else TorchApproximator, batch_size=b, dropout=drop, reinitialize=reinit)
    ctx.check(len(B.nets) == 1 and B.nets[0].kw.get('dropout') == drop and B.opt.kw == {'lr': 3} and len(B.opt.params) == 2, 'network and optimizer are built from the given classes')
    ctx.check(not drop or B.mode == 'eval', 'dropout is off outside of the fit')
    x, y = samples(ctx, n, num)
    m.fit(x, y, n_epochs=e)
    ne = e or 1
    nb = 1 if b == 0 else -(-n // b)
    ctx.check(len(B.losses) == ne * nb, 'one update per minibatch and epoch')
    want = ([('init',)] if reinit else [])
    got = [v for v in B.events if v[0] != 'zero']
    for k in range(ne * nb):
        want += [('loss', k), ('step',)]
    ctx.check(got == want, 'weights are reinitialized once per fit when asked; then a step follows each loss')
    ctx.check(len(ctx.losses) == ne * nb, 'one backward pass per minibatch')
    for k in range(min(ne * nb, len(ctx.losses))):
        ids, t, v, last = B.losses[k]
        ctx.eq(ctx.losses[k].reshape(-1)[0], v, 'the loss that is minimized')
        ctx.check(last[2] == ('train' if drop else 'none'), 'dropout is on during the fit')
        for r, i in enumerate(ids):
            ctx.eq(t[0][r, 0], y[i, 0], 'each input goes with its target')
    for k in range(ne):
        seen = sorted(sum([B.losses[k * nb + j][0] for j in range(nb)], []))
        ctx.check(seen == list(range(n)), 'each epoch uses every sample once')
    ctx.eq(m.loss_fit, asum([B.losses[(ne - 1) * nb + j][2].item() for j in range(nb)]) / nb, 'the recorded loss is the mean of the last epoch')
    ctx.check(B.mode == ('eval' if drop else 'none'), 'dropout is off outside of the fit')


@scenario('P30', '2-4 samples, up to 4 epochs, patience 1-2, with and without validation split, arbitrary losses and threshold', tol=1e-4, max_paths=3000,
          quick=[dict(n=2, e=3, p=1, split=1.), dict(n=2, e=4, p=2, split=1.), dict(n=2, e=2, p=1, split=.5), dict(n=4, e=3, p=1, split=.625), dict(n=3, e=3, p=1, split=.5), dict(n=4, e=3, p=2, split=.5, num=True)],
          thorough=[dict(n=2, e=6, p=2, split=1.), dict(n=2, e=5, p=3, split=.5)])
def early_stop(ctx, n, e, p, split, num=False):
    B = Bench(ctx)
    m = B.make(cls=NumpyTorchApproximator if num else TorchApproximator)
    x, y = samples(ctx, n, num)
    eps = ctx.real('eps', 0, 2)
    m.fit(x, y, n_epochs=e, epsilon=eps, patience=p, validation_split=split)
    ntr = -int(-(n * split) // 1)
    per = 2 if ntr < n else 1
    # reference: stop after p epochs in a row that do not improve the best monitored loss by more than eps
    best, bad, done = None, 0, 0
    while bad < p and done < e:
        k = done * per
        ctx.check(k + per <= len(B.losses), 'training goes on while the loss improves')
        if k + per > len(B.losses):
            return
        ctx.check(B.losses[k][0] == list(range(ntr)), 'training uses the first share of the samples')
        if per == 2:
            ctx.check(B.losses[k + 1][0] == list(range(ntr, n)), 'validation uses the other samples')
            for r in range(n - ntr):
                ctx.eq(B.losses[k + 1][1][0][r, 0], y[ntr + r, 0], 'each input goes with its target')
        mon = B.losses[k + per - 1][2].item()
        if best is None or bool(best - mon > eps):
            best, bad = mon, 0
        else:
            bad += 1
        done += 1
    ctx.check(len(B.losses) == done * per, 'training stops when the loss stops improving')
    ctx.check(len(ctx.losses) == done and sum(1 for v in B.events if v == ('step',)) == done, 'validation does not train')
    ctx.eq(m.loss_fit, B.losses[(done - 1) * per][2].item(), 'the recorded loss is the training loss of the last epoch')


@scenario('P30', '2-3 samples with arbitrary sample weights and losses, full batch or minibatches', tol=1e-4, quick=[dict(n=2, b=0), dict(n=3, b=2), dict(n=2, b=0, split=.5)])
def sample_weights(ctx, n, b, split=1.):
    B = Bench(ctx)
    m = B.make(batch_size=b)
    x, y = samples(ctx, n)
    w = ctx.tensor('w', (n,), .25, 2)
    m.fit(x, y, weights=w, validation_split=split)
    nb = 1 if b == 0 else -(-n // b)
    ctx.check(len(B.losses) == nb == len(ctx.losses), 'one update per minibatch')
    for k in range(nb):
        ids, t, v, _ = B.losses[k]
        tot = asum([w[i].item() for i in ids])
        ctx.eq(ctx.losses[k].reshape(-1)[0], asum([w[i].item() * v[r].item() for r, i in enumerate(ids)]) / tot, 'weighted mean of the losses of the samples')


@scenario('P30', 'two inputs and two targets, keyword arguments for the network', tol=1e-4, quick=[{}])
def many_targets(ctx):
    B = Bench(ctx)
    m = B.make(n_fit_targets=2)
    x, y = samples(ctx, 2)
    u, z = ctx.tensor('u', (2, 1), -2, 2), ctx.tensor('z', (2, 1), -2, 2)
    m.fit(x, u, y, z, flag=5)
    ids, t, v, (args, kw, _) = B.losses[0]
    ctx.check(len(args) == 2 and len(t) == 2 and kw == dict(flag=5), 'the last arguments are the targets, the others the inputs')
    for r in range(2):
        ctx.eq(args[1][r, 0], u[r, 0], 'inputs in order')
        ctx.eq(t[0][r, 0], y[r, 0], 'targets in order')
        ctx.eq(t[1][r, 0], z[r, 0], 'targets in order')


@scenario('P30', 'two parameters of 4 and 2 entries, arbitrary values', tol=1e-4, quick=[dict(npy=False), dict(npy=True)])
def net_weights(ctx, npy):
    B = Bench(ctx)
    m = B.make(NumpyTorchApproximator if npy else TorchApproximator)
    net = B.nets[0]
    ctx.check(m.weights_size == 6, 'number of weights')
    g = m.get_weights()
    for i in range(4):
        ctx.eq(g[i], net.p[0].data[i // 2, i % 2], 'the weights are the parameters in order')
    for i in range(2):
        ctx.eq(g[4 + i], net.p[1].data[i], 'the weights are the parameters in order')
    w = ctx.array('w', (6,), -2, 2) if npy else ctx.tensor('w', (6,), -2, 2)
    m.set_weights(w)
    h = m.get_weights()
    ctx.check(npy == (not isinstance(h, torch.Tensor)), 'kind of array')
    for i in range(6):
        ctx.eq(h[i], w[i], 'get_weights returns the weights set')
        ctx.eq(net.p[0].data[i // 2, i % 2] if i < 4 else net.p[1].data[i - 4], w[i], 'the parameters get the weights set')
    x = ctx.arr([[1.], [3.]])
    y = m.predict(x if npy else ctx.to_tensor(x))
    ctx.check(npy == (not isinstance(y, torch.Tensor)) and tuple(y.shape) == (2, 1), 'kind of array')
    ctx.eq(y[1, 0], 6., 'prediction of the network')
