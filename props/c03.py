"""C03: matrix products and transposes."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon
from props.c02 import bsizes, out_bs, bd

STRATA = [('tt*tt', 4), ('tt*tt single', 2), ('tt*dense', 3), ('dense*tt', 3), ('transpose', 2), 'single core', 'chain',
          'vectors', 'variables']
QUICK = 7000
THOROUGH = 50000


def mm_raw(rng, d, maxel=500):
    """Three mode lists n, m, p with small products."""
    cap = max(4., maxel ** .5)
    n, m, p = [gen.sizes(rng, d, cap, gen.pick(rng, ['small', 'ones', 'hetero', 'prime'])) for _ in range(3)]
    if rng.random() < .3:
        m = list(n)
    if rng.random() < .2:
        p = list(m)
    return n, m, p


def mm(x, y):
    return np.matmul(x, y)


def dense_operand(rng, rows, cols, dtype):
    style = gen.pick(rng, ['normal', 'int', 'zero', 'eye', 'big'], [6, 2, .5, 1, 1])
    if style == 'int':
        m = rng.integers(-4, 5, size=(rows, cols)).astype(float)
    elif style == 'zero':
        m = np.zeros((rows, cols))
    elif style == 'eye':
        m = np.eye(rows, cols)
    else:
        m = rng.standard_normal((rows, cols))
        if style == 'big':
            m = m * 1e5
    return m.astype(gen.NPD[dtype])


def variables(ctx, rng, n, m, p):
    """Products and transposes of a matrix held in variables, before and after assignments."""
    bs = gen.pick(rng, [None, None, 2])
    dt = gen.pick(rng, ['float64', 'float32'])
    a = gen.obj(rng, raw=[n, m], bs=bs, dtype=dt, rstyle='small', style='normal', container='tf')
    b = gen.obj(rng, raw=[m, p], bs=bs, dtype=dt, rstyle='small', style='normal')
    v = ctx.call('get_variable', t3f.get_variable, 'v%d' % int(rng.integers(1 << 40)), initializer=a.tt)
    T = lambda x: np.swapaxes(x, -1, -2)
    ctx.note('variable: %s b: %s' % (a.describe(), b.describe()))
    ctx.sig('variables', a.raw, b.raw, a.ranks, b.ranks, bs, dt)

    def check(what, tt, x, sc):
        mon.tt_close(ctx, what, tt, bs is not None, x, mon.tol_for(dt, ref.depth(a.cores, b.cores) + sum(m), sc))
    kept = []
    for step in range(3):
        t = ctx.call('transpose', t3f.transpose, v)
        q = ctx.call('matmul', t3f.matmul, v, b.tt)
        kept.append((t, q, a))
        for t, q, o in kept:
            # What was computed from earlier values still has them, and can be used further.
            check('transpose', t, T(o.dense()), T(o.absdense()))
            check('transpose of a transpose', ctx.call('transpose', t3f.transpose, t), o.dense(), o.absdense())
            check('product', q, mm(o.dense(), b.dense()), mm(o.absdense(), b.absdense()))
            r = ctx.call('matmul', t3f.matmul, ctx.call('transpose', t3f.transpose, b.tt), t)
            check('product with a transpose', r, T(mm(o.dense(), b.dense())), T(mm(o.absdense(), b.absdense())))
        a = gen.obj(rng, raw=[n, m], rks=a.ranks, bs=bs, dtype=dt, style='normal', container='tf')
        if rng.random() < .5:
            ctx.call('assign', t3f.assign, v, a.tt)
        else:
            for x, c in zip(v.tt_cores, a.cores):
                x.assign(c)


def case(ctx, rng, st):
    d = gen.ndims(rng, 1, 6)
    if st == 'single core':
        d = 1
    n, m, p = mm_raw(rng, d)
    if st == 'vectors':
        if rng.random() < .5:
            p = [1] * d
        else:
            n = [1] * d
    if st in ('tt*tt', 'tt*tt single', 'vectors', 'single core'):
        ba, bb = (None, None) if st == 'tt*tt single' else bsizes(rng)
        square = st != 'vectors' and rng.random() < .08
        if square:
            m, p, bb = n, n, ba
        a = gen.obj(rng, raw=[n, m], bs=ba, rmax=5)
        b = gen.obj(rng, raw=[m, p], bs=bb, dtype=a.dtype, rmax=5)
        if max(a.ranks) * max(b.ranks) > 80:
            b = gen.obj(rng, raw=[m, p], bs=bb, dtype=a.dtype, rstyle='small')
        if square and rng.random() < .5 and max(a.ranks) < 9:
            # The square of a matrix.
            b = a
        elif square or (rng.random() < .1 and a.raw == b.raw):
            b = gen.share(rng, a, b) or b
        bs = out_bs(ba, bb)
        ctx.note('a: ' + a.describe())
        ctx.note('b: ' + b.describe())
        ctx.sig(st, a.raw, b.raw, a.ranks, b.ranks, a.bs, b.bs, a.dtype)
        r = ctx.call('matmul', t3f.matmul, a.tt, b.tt)
        want = mm(bd(a, a.dense(), bs), bd(b, b.dense(), bs))
        sc = mm(bd(a, a.absdense(), bs), bd(b, b.absdense(), bs))
        mon.tt_close(ctx, 'product', r, bs is not None, want,
                     mon.tol_for(a.dtype, ref.depth(a.cores, b.cores) + sum(m), sc),
                     full=rng.random() < .6)
    elif st == 'tt*dense':
        a = gen.obj(rng, raw=[n, m], rstyle='one' if rng.random() < .2 else None)
        k = gen.count(rng, int(gen.pick(rng, [0, 1, 2, 3, 7, 20], [.3, 2, 1, 1, 1, 1])), .2)
        b = dense_operand(rng, int(np.prod(m)), k, a.dtype)
        ctx.note('a: %s dense %s' % (a.describe(), b.shape))
        ctx.sig(st, a.raw, a.ranks, a.dtype, k)
        r = ctx.call('matmul', t3f.matmul, a.tt, tf.constant(b))
        ctx.true('dense result', isinstance(r, tf.Tensor), type(r).__name__)
        ctx.true('dtype', r.dtype.name == a.dtype, r.dtype.name)
        ctx.close('product', r, a.dense() @ b.astype(float),
                  mon.tol_for(a.dtype, ref.depth(a.cores) + sum(m), a.absdense() @ abs(b.astype(float))))
    elif st == 'dense*tt':
        a = gen.obj(rng, raw=[n, m], rstyle='one' if rng.random() < .2 else None)
        k = gen.count(rng, int(gen.pick(rng, [0, 1, 2, 3, 7, 20], [.3, 2, 1, 1, 1, 1])), .2)
        b = dense_operand(rng, k, int(np.prod(n)), a.dtype)
        ctx.note('dense %s a: %s' % (b.shape, a.describe()))
        ctx.sig(st, a.raw, a.ranks, a.dtype, k)
        r = ctx.call('matmul', t3f.matmul, tf.constant(b), a.tt)
        ctx.true('dense result', isinstance(r, tf.Tensor), type(r).__name__)
        ctx.close('product', r, b.astype(float) @ a.dense(),
                  mon.tol_for(a.dtype, ref.depth(a.cores) + sum(n), abs(b.astype(float)) @ a.absdense()))
    elif st == 'variables':
        variables(ctx, rng, n, m, p)
    elif st == 'transpose':
        a = gen.obj(rng, raw=[n, m], bs=gen.count(rng, gen.pick(rng, [None, None, 1, 2, 4])))
        ctx.note(a.describe())
        ctx.sig(st, a.raw, a.ranks, a.dtype, a.bs)
        r = ctx.call('transpose', t3f.transpose, a.tt)
        mon.tt_close(ctx, 'transpose', r, a.batch, np.swapaxes(a.dense(), -1, -2),
                     mon.tol_for(a.dtype, ref.depth(a.cores), np.swapaxes(a.absdense(), -1, -2)))
        rr = ctx.call('transpose', t3f.transpose, r)
        for u, v in zip(mon.cores_of(ctx, rr), a.cores):
            ctx.true('transpose is an involution', np.array_equal(u, v), 'cores differ')
    else:  # chain: (A B)^T x, A (B x)
        a = gen.obj(rng, raw=[n, m], rstyle='small', dtype='float64')
        b = gen.obj(rng, raw=[m, p], rstyle='small', dtype='float64')
        x = dense_operand(rng, int(np.prod(n)), 3, 'float64')
        ctx.note('a: %s b: %s' % (a.describe(), b.describe()))
        ctx.sig(st, a.raw, b.raw, a.ranks, b.ranks)
        ab = ctx.call('chain', lambda: t3f.matmul(t3f.transpose(t3f.matmul(a.tt, b.tt)), tf.constant(x)))
        ctx.close('chain', ab, (a.dense() @ b.dense()).T @ x,
                  mon.tol_for('float64', ref.depth(a.cores, b.cores) + sum(m) + sum(n),
                              (a.absdense() @ b.absdense()).T @ abs(x)))
