"""C05: batched operations against the same operation per element."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops

STRATA = ops.names(batch=True) + ['parts', 'weights']
QUICK = 4000
THOROUGH = 30000


def build(cores):
    return t3f.TensorTrain([tf.constant(c) for c in cores])


def same(ctx, name, r, cores, bs):
    out = mon.cores_of(ctx, r)
    ctx.true('kind of ' + name, (mon.kind_of(r) == 'batch') == (bs is not None), mon.kind_of(r))
    ctx.true(name, len(out) == len(cores) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y)
                                                  for x, y in zip(out, cores)), 'other elements')
    if bs is not None:
        ctx.true('batch size of ' + name, r.batch_size == bs and r.get_shape()[0] == bs, str(r.batch_size))


def parts(ctx, rng):
    """Concatenation and selection are exact."""
    kind = gen.pick(rng, ['tensor', 'matrix'])
    a = gen.obj(rng, kind, bs=gen.batch_size(rng), maxel=200)
    objs = [a]
    for _ in range(int(gen.count(rng, int(rng.integers(0, 5)), hi=33))):
        objs.append(gen.pick(rng, objs) if rng.random() < .2 else
                    gen.obj(rng, raw=a.raw, rks=a.ranks, dtype=a.dtype, bs=gen.batch_size(rng)))
    arg = [o.tt for o in objs]
    if rng.random() < .4:
        arg = tuple(arg)
    total = sum(o.bs for o in objs)
    ctx.note('%s and %s' % (a.describe(), [o.bs for o in objs]))
    ctx.sig('parts', a.raw, a.ranks, [o.bs for o in objs], a.dtype)
    r = ctx.call('concat', t3f.concat_along_batch_dim, arg)
    cores = [np.concatenate([o.cores[k] for o in objs]) for k in range(len(a.cores))]
    same(ctx, 'concatenation', r, cores, total)
    for _ in range(3):
        if rng.random() < .5:
            i = int(rng.integers(-total, total))
            j = gen.pick(rng, [i, np.int64(i), tf.constant(i) if i >= 0 else i])
            same(ctx, 'element', ctx.call('element', lambda: r[j]), [c[i] for c in cores], None)
        else:
            i, j = sorted(int(v) for v in rng.integers(0, total + 1, size=2))
            sl = slice(gen.pick(rng, [i, None]) if i == 0 else i, gen.pick(rng, [j, None, j + 3]) if j == total else j,
                       gen.pick(rng, [None, 1, 2, 3]))
            if len(range(total)[sl]) == 0:
                continue
            same(ctx, 'part', ctx.call('part', lambda: r[sl]), [c[sl] for c in cores], len(range(total)[sl]))


def weights(ctx, rng):
    """Weights of all documented forms multiply their own elements only."""
    n = gen.count(rng, gen.batch_size(rng))
    a = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=n, maxel=200, dhi=8)
    w = rng.standard_normal(n) * 10. ** rng.uniform(-3, 3, size=n)
    how = gen.pick(rng, ['any', 'integers', 'zeros', 'ones', 'equal'])
    if how == 'integers':
        w = rng.integers(-3, 4, size=n).astype(float)
    elif how == 'zeros':
        w = w * (rng.random(n) < .5)
    elif how == 'ones':
        w = np.where(rng.random(n) < .7, 1., -1.)
    elif how == 'equal':
        w = np.full(n, w[0])
    w = w.astype(a.dtype)
    form = gen.pick(rng, ['array', 'list', 'tuple', 'tensor', 'variable', 'view', 'numbers'])
    arg = {'array': lambda: w.copy(), 'list': lambda: w.tolist(), 'tuple': lambda: tuple(w.tolist()),
           'tensor': lambda: tf.constant(w), 'variable': lambda: tf.Variable(w),
           'view': lambda: np.repeat(w, 2)[::2], 'numbers': lambda: list(w)}[form]()
    ctx.note('%s weights %s %s' % (a.describe(), form, w))
    ctx.sig('weights', a.raw, a.ranks, n, a.dtype, form, how)
    r = ctx.call('multiply_along_batch_dim', t3f.multiply_along_batch_dim, a.tt, arg)
    mon.is_kind(ctx, r, True)
    ctx.true('batch size', r.batch_size == n, str(r.batch_size))
    out = mon.cores_of(ctx, r)
    f = w.reshape([-1] + [1] * len(a.raw[0] if len(a.raw) == 1 else 'rc')).astype(float)
    ctx.close('weighted', ref.dense(out, True), f * a.dense(), mon.tol_for(a.dtype, 4 + ref.depth(a.cores), np.abs(f) * a.absdense()))


def case(ctx, rng, st):
    if st in ('parts', 'weights'):
        return {'parts': parts, 'weights': weights}[st](ctx, rng)
    n = gen.batch_size(rng)
    inst = ops.draw(rng, st, n)
    ctx.note(inst.describe())
    ctx.sig(inst.sig())
    res = ctx.call(st, inst.run)
    ops.check(ctx, inst, res, 'value per element')
    if inst.whole:
        return
    # The same operation on single elements.
    want, tol = inst.expected()
    outs = [ops.out_value(ctx, r) for r in ops.flat_out(res)]
    if st == 'slice':
        return
    for i in sorted(set(int(v) for v in rng.integers(0, n, size=2))):
        cs, ds = inst.args_of(i)
        one = ctx.call(st + ' on an element', inst.run, [build(c) for c in cs], [tf.constant(d) for d in ds])
        for o, r, t in zip(outs, ops.flat_out(one), tol):
            ctx.true('kind of single result', mon.kind_of(r) in ('tt', None), 'batch from single arguments')
            ctx.close('element equals single result', o[i], ops.out_value(ctx, r), 2 * t[i], st)
