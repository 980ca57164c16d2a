"""C01: dense form is the product of core slices."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('tensor', 3), ('matrix', 4), ('tensor batch', 3), ('matrix batch', 3), 'long', 'single core',
          'add/remove batch axis', 'nested lists', 'one entry by slices']
QUICK = 7000
THOROUGH = 30000


def case(ctx, rng, st):
    kind = 'matrix' if 'matrix' in st else 'tensor'
    bs = None
    d = None
    if 'batch' in st:
        bs = gen.batch_size(rng)
    if st == 'long':
        d = int(rng.integers(7, 12))
        kind = gen.pick(rng, ['tensor', 'matrix'])
        if kind == 'matrix':
            d = int(rng.integers(5, 7))
        bs = gen.count(rng, gen.pick(rng, [None, None, 2]))
    if st == 'single core':
        d = 1
        kind = gen.pick(rng, ['tensor', 'matrix'])
        bs = gen.count(rng, gen.pick(rng, [None, 1, 3]))
    if st == 'add/remove batch axis':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        bs = gen.pick(rng, [None, 1, 2])
    if st == 'one entry by slices':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        bs = gen.pick(rng, [None, 3])
    if st == 'nested lists':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        bs = gen.pick(rng, [None, 2])
        o = gen.obj(rng, kind, bs=bs, dtype='float32', maxel=200, container='np')
        cls = t3f.TensorTrainBatch if bs else t3f.TensorTrain
        o.tt = ctx.call('constructor', cls, [c.tolist() for c in o.cores])
    else:
        o = ctx.call('constructor', gen.obj, rng, kind, d=d, bs=bs, maxel=2500)
    ctx.note(o.describe())
    ctx.sig(st, o.raw, o.ranks, o.bs, o.dtype, o.desc)
    for a, b in zip(mon.cores_of(ctx, o.tt), o.cores):
        ctx.true('cores are kept', a.dtype == b.dtype and np.array_equal(a, b), 'core changed')
    tt = o.tt
    want, scale = o.dense(), o.absdense()
    if st == 'add/remove batch axis':
        e = ctx.call('expand_batch_dim', t3f.expand_batch_dim, tt)
        mon.is_kind(ctx, e, True, 'expand_batch_dim')
        we = want if o.batch else want[None]
        ctx.close('value with batch axis', ctx.call('full', t3f.full, e), we,
                  mon.tol_for(o.dtype, ref.depth(o.cores), scale if o.batch else scale[None]))
        s = ctx.call('squeeze_batch_dim', t3f.squeeze_batch_dim, e)
        mon.is_kind(ctx, s, bs == 2, 'squeeze_batch_dim')
        ctx.close('value without batch axis', ctx.call('full', t3f.full, s),
                  we if bs == 2 else we[0],
                  mon.tol_for(o.dtype, ref.depth(o.cores), we * 0 + np.max(scale)))
        return
    f = ctx.call('full', t3f.full, tt)
    ctx.true('full is a dense tensor', isinstance(f, tf.Tensor), type(f).__name__)
    ctx.true('dtype of full', f.dtype.name == o.dtype, f.dtype.name)
    ctx.close('dense value', f, want, mon.tol_for(o.dtype, ref.depth(o.cores), scale))
    if st == 'one entry by slices':
        # The defining formula, entry by entry, independent of any reshaping.
        f = f.numpy()
        for _ in range(4):
            b = int(rng.integers(o.bs)) if o.batch else None
            cs = o.cores if b is None else ref.element(o.cores, b)
            v = np.ones((1, 1))
            av = np.ones((1, 1))
            if o.matrix:
                i = [int(rng.integers(n)) for n in o.raw[0]]
                j = [int(rng.integers(n)) for n in o.raw[1]]
                for c, a, e in zip(cs, i, j):
                    v = v @ c[:, a, e, :].astype(float)
                    av = av @ abs(c[:, a, e, :].astype(float))
                pos = (np.ravel_multi_index(i, o.raw[0]), np.ravel_multi_index(j, o.raw[1]))
            else:
                i = [int(rng.integers(n)) for n in o.raw[0]]
                for c, a in zip(cs, i):
                    v = v @ c[:, a, :].astype(float)
                    av = av @ abs(c[:, a, :].astype(float))
                pos = tuple(i)
            if b is not None:
                pos = (b,) + tuple(pos)
            ctx.close('entry', f[pos], v[0, 0], mon.tol_for(o.dtype, ref.depth(o.cores), av[0, 0]))
