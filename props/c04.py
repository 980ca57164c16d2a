"""C04: scalar reductions."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon
from props.c02 import bsizes, out_bs, bd

STRATA = [('flat_inner', 4), ('norm2', 3), ('norm', 2), ('sparse', 3), ('bilinear', 4),
          ('two_mat', 3), ('pairwise', 2), ('gram', 2), ('pairwise matrix', 3), 'quadratic_form', 'single core']
QUICK = 7000
THOROUGH = 50000


def inner(x, y, batch):
    ax = tuple(range(1, x.ndim)) if batch else None
    return np.sum(x * y, axis=ax)


def vec(rng, sizes, bs, dtype, col=True, **k):
    one = [1] * len(sizes)
    return gen.obj(rng, raw=[list(sizes), one] if col else [one, list(sizes)], bs=bs, dtype=dtype, **k)


def stack(o):
    """Flattened dense elements, one row per element."""
    x, a = o.dense(), o.absdense()
    n = o.bs if o.batch else 1
    return x.reshape(n, -1), a.reshape(n, -1)


def norm_tol(o, e, x2):
    """Error of a squared norm through QR: relative to the interface scale."""
    sc = ref.interfaces_scale(e)
    n = np.sqrt(x2)
    t = 8 * ref.EPS[o.dtype] * ref.depth(e) * sc
    return 2 * n * t + t * t + ref.TINY[o.dtype] * 1e3


def case(ctx, rng, st):
    if st in ('flat_inner', 'single core'):
        kind = gen.pick(rng, ['tensor', 'matrix'])
        ba, bb = bsizes(rng)
        a = gen.obj(rng, kind, bs=ba, d=1 if st == 'single core' else None)
        b = gen.partner(rng, a, bs=bb)
        if ba == bb and rng.random() < .08:
            b = a
        bs = out_bs(ba, bb)
        ctx.note('a: ' + a.describe())
        ctx.note('b: ' + b.describe())
        ctx.sig(st, a.raw, a.ranks, b.ranks, ba, bb, a.dtype)
        x, y = bd(a, a.dense(), bs), bd(b, b.dense(), bs)
        ax, ay = bd(a, a.absdense(), bs), bd(b, b.absdense(), bs)
        r = ctx.call('flat_inner', t3f.flat_inner, a.tt, b.tt)
        nel = sum(int(np.prod(c.shape)) for c in a.cores)
        ctx.close('inner product', r, inner(x, y, bs is not None),
                  mon.tol_for(a.dtype, ref.depth(a.cores, b.cores) + nel, inner(ax, ay, bs is not None)))
    elif st in ('norm2', 'norm'):
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, bs=gen.count(rng, gen.pick(rng, [None, None, 1, 2, 5])))
        diff = bool(rng.random() < .5)
        eps = None
        if st == 'norm' and rng.random() < .6:
            eps = float(gen.pick(rng, [0., 1e-10, 1e-5, 1e-2, 1., 100.]))
        ctx.note('%s differentiable=%s epsilon=%s' % (a.describe(), diff, eps))
        ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype, diff, eps)
        x, ax = stack(a)
        n2 = np.sum(x * x, axis=1)
        tol = np.zeros(len(n2))
        for i, e in enumerate(a.elements()):
            if diff:
                tol[i] = mon.tol_for(a.dtype, ref.depth(e, e), np.sum(ax[i] ** 2))
            else:
                tol[i] = norm_tol(a, e, n2[i])
        if st == 'norm2':
            r = ctx.call('frobenius_norm_squared', t3f.frobenius_norm_squared, a.tt, differentiable=diff)
            want = n2
        else:
            kw = {} if eps is None else {'epsilon': eps}
            r = ctx.call('frobenius_norm', t3f.frobenius_norm, a.tt, differentiable=diff, **kw)
            e = 1e-5 if eps is None else eps
            want = np.sqrt(n2 + e)
            lo = np.sqrt(np.maximum(n2 + e - tol, 0))
            tol = np.maximum(np.sqrt(n2 + e + tol) - want, want - lo) + 4 * ref.EPS[a.dtype] * want
            if diff and np.any(n2 + e - tol <= 0) and e == 0:
                # Rounding may leave a negative squared norm: NaN is then legitimate.
                ctx.skip('zero norm without epsilon')
        if not a.batch:
            want, tol = want[0], tol[0]
        ctx.close(st, r, want, tol)
    elif st == 'sparse':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, dhi=7)
        x, ax = a.dense(), a.absdense()
        nnz = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 10, 40])), .15, 1100)
        flat = rng.choice(x.size, size=min(nnz, x.size), replace=False)
        if rng.random() < .7:
            flat = np.sort(flat)
        idx = np.stack(np.unravel_index(flat, x.shape), axis=1).astype(np.int64)
        vals = rng.standard_normal(len(flat)).astype(gen.NPD[a.dtype])
        sp = tf.SparseTensor(idx, vals, np.array(x.shape, np.int64))
        left = False
        ctx.note('%s nnz=%d sparse %s' % (a.describe(), len(flat), 'left' if left else 'right'))
        ctx.sig(st, a.raw, a.ranks, a.dtype, nnz, left)
        r = ctx.call('flat_inner', t3f.flat_inner, *((sp, a.tt) if left else (a.tt, sp)))
        w = np.sum(x.reshape(-1)[flat] * vals.astype(float))
        s = np.sum(ax.reshape(-1)[flat] * abs(vals.astype(float)))
        ctx.close('inner product with sparse', r, w, mon.tol_for(a.dtype, ref.depth(a.cores) + nnz, s))
    elif st in ('bilinear', 'quadratic_form'):
        d = gen.ndims(rng, 1, 6)
        n = gen.sizes(rng, d, 60)
        m = gen.sizes(rng, d, 60)
        same = rng.random() < .15
        if same:
            m = list(n)
        dt = gen.pick(rng, ['float64', 'float32'])
        A = gen.obj(rng, raw=[n, m], dtype=dt, rmax=4)
        N = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 5])), hi=40)
        bb, bc = gen.pick(rng, [(None, None), (N, N), (N, None), (None, N)])
        b = vec(rng, n, bb, dt, rmax=4)
        c = vec(rng, m, bc, dt, rmax=4)
        if same and bb == bc:
            c = b
        ctx.note('A: %s b: %s c: %s' % (A.describe(), b.describe(), c.describe()))
        ctx.sig(st, A.raw, A.ranks, b.ranks, c.ranks, bb, bc, dt)
        f = t3f.bilinear_form if st == 'bilinear' else t3f.quadratic_form
        r = ctx.call('bilinear_form', f, A.tt, b.tt, c.tt)
        (x, ax), (y, ay) = stack(b), stack(c)
        w = np.einsum('ai,ij,aj->a', *np.broadcast_arrays(x, x)[:1], A.dense(),
                      y) if x.shape[0] == y.shape[0] else np.sum((x @ A.dense()) * y, axis=1)
        s = np.sum((ax @ A.absdense()) * ay, axis=1)
        if bb is None and bc is None:
            w, s = w[0], s[0]
        ctx.close('bilinear form', r, w, mon.tol_for(dt, ref.depth(A.cores, b.cores, c.cores) + sum(n) + sum(m), s))
    elif st == 'two_mat':
        d = gen.ndims(rng, 1, 5)
        n, m, k = [gen.sizes(rng, d, 30) for _ in range(3)]
        same = rng.random() < .25
        if same:
            m = k = n
        dt = gen.pick(rng, ['float64', 'float32'])
        A = gen.obj(rng, raw=[n, m], dtype=dt, rmax=3, rstyle=gen.pick(rng, ['small', 'hetero', 'one']))
        B = gen.obj(rng, raw=[m, k], dtype=dt, rmax=3, rstyle=gen.pick(rng, ['small', 'hetero', 'one']))
        N = gen.count(rng, int(gen.pick(rng, [1, 2, 3])), hi=40)
        bx, by = gen.pick(rng, [(None, None), (N, N), (N, None), (None, N)])
        x = vec(rng, n, bx, dt, rmax=3, rstyle='hetero')
        y = vec(rng, k, by, dt, rmax=3, rstyle='small')
        if same and rng.random() < .7:
            B = A
        if same and bx == by and rng.random() < .7:
            y = x
        ctx.note('A: %s B: %s x: %s y: %s' % (A.describe(), B.describe(), x.describe(), y.describe()))
        ctx.sig(st, A.raw, B.raw, A.ranks, B.ranks, x.ranks, y.ranks, bx, by, dt)
        from t3f import ops
        r = ctx.call('bilinear_form_two_mat', ops.bilinear_form_two_mat, x.tt, A.tt, B.tt, y.tt)
        (xv, ax), (yv, ay) = stack(x), stack(y)
        w = np.sum((xv @ A.dense() @ B.dense()) * yv, axis=1)
        s = np.sum((ax @ A.absdense() @ B.absdense()) * ay, axis=1)
        if bx is None and by is None:
            w, s = w[0], s[0]
        ctx.close('bilinear form with two matrices', r, w,
                  mon.tol_for(dt, ref.depth(A.cores, B.cores) * 4 + sum(n) + sum(m) + sum(k), s))
    elif st in ('pairwise', 'gram'):
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, bs=gen.batch_size(rng), maxel=400)
        b = a if st == 'gram' else gen.obj(rng, raw=a.raw, bs=gen.batch_size(rng), dtype=a.dtype)
        ctx.note('a: %s b: %s' % (a.describe(), b.describe()))
        ctx.sig(st, a.raw, a.ranks, b.ranks, a.bs, b.bs, a.dtype)
        if st == 'gram':
            r = ctx.call('gram_matrix', t3f.gram_matrix, a.tt)
        else:
            r = ctx.call('pairwise_flat_inner', t3f.pairwise_flat_inner, a.tt, b.tt)
        (x, ax), (y, ay) = stack(a), stack(b)
        ctx.close('pairwise inner products', r, x @ y.T,
                  mon.tol_for(a.dtype, ref.depth(a.cores, b.cores) + sum(int(np.prod(g)) for g in a.raw), ax @ ay.T))
    else:  # pairwise matrix
        d = gen.ndims(rng, 1, 5)
        n, m = gen.sizes(rng, d, 50), gen.sizes(rng, d, 50)
        if rng.random() < .3:
            m = list(n)
        dt = gen.pick(rng, ['float64', 'float32'])
        A = gen.obj(rng, raw=[n, m], dtype=dt, rmax=4)
        a = vec(rng, n, gen.batch_size(rng), dt, rmax=4)
        g = m == n and rng.random() < .5
        b = a if g else vec(rng, m, gen.batch_size(rng), dt, rmax=4)
        ctx.note('A: %s a: %s b: %s' % (A.describe(), a.describe(), b.describe()))
        ctx.sig(st, A.raw, A.ranks, a.ranks, b.ranks, a.bs, b.bs, dt)
        if g:
            r = ctx.call('gram_matrix', t3f.gram_matrix, a.tt, A.tt)
        else:
            r = ctx.call('pairwise_flat_inner', t3f.pairwise_flat_inner, a.tt, b.tt, A.tt)
        (x, ax), (y, ay) = stack(a), stack(b)
        ctx.close('pairwise forms', r, x @ A.dense() @ y.T,
                  mon.tol_for(dt, ref.depth(A.cores, a.cores, b.cores) + sum(n) + sum(m), ax @ A.absdense() @ ay.T))
