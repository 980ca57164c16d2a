"""C13: arithmetic on projected tensors."""
import numpy as np
import tensorflow as tf
import t3f
from t3f import riemannian
from vt import gen, ref, mon
from props.c12 import get_point, to_dense, coefs

STRATA = [('add single', 3), ('add batch', 3), ('pairwise', 4), ('deltas', 3), ('deltas batch', 3), ('history', 4),
          ('refused', 2), ('derived', 3), 'deltas inner', 'via sum', 'via matmul']
QUICK = 3000
THOROUGH = 24000


class P(object):
    """A projected object with its dense value(s) and scale."""

    def __init__(self, tt, x, sc, batch):
        self.tt, self.x, self.sc, self.batch = tt, x, sc, batch


def projected(ctx, rng, w, p, dtype, bs, how=None):
    raw = w.raw
    a = gen.obj(rng, raw=raw, bs=bs, dtype=dtype, rmax=4, style=gen.pick(rng, ['normal', 'int', 'pos']))
    if bs is None and rng.random() < .1:
        # The point itself.
        a = w
    x = np.stack([to_dense(p(ref.as_tensor(e)), raw) for e in a.elements()])
    sc = 16 * ref.EPS[dtype] * ref.depth(a.cores, w.cores) * p.cond * max(ref.interfaces_scale(e)
                                                                         for e in a.elements()) + ref.TINY[dtype]
    if how == 'sum':
        r = ctx.call('project_sum', t3f.project_sum, a.tt, w.tt)
        return P(r, x.sum(0), sc * len(x), False)
    r = ctx.call('project', t3f.project, a.tt, w.tt)
    return P(r, x if bs is not None else x[0], sc, bs is not None)


def norm(x):
    return np.linalg.norm(np.ravel(x)) + 0.


def check_tt(ctx, monitor, q):
    mon.tt_close(ctx, monitor, q.tt, q.batch, q.x, q.sc, full=False)


def rows(q):
    x = q.x if q.batch else q.x[None]
    return x.reshape(len(x), -1)


def pairwise(ctx, a, b):
    g = ctx.call('pairwise_flat_inner_projected', t3f.pairwise_flat_inner_projected, a.tt, b.tt)
    x, y = rows(a), rows(b)
    na, nb = np.linalg.norm(x, axis=1), np.linalg.norm(y, axis=1)
    s = np.sqrt(x.shape[1])
    tol = (a.sc * s * nb[None, :] + b.sc * s * na[:, None] + a.sc * b.sc * s * s)
    ctx.close('inner products', g, x @ y.T, 2 * tol + 1e-300)


def add_n(ctx, rng, objs, dtype):
    n = len(objs)
    batch = objs[0].batch
    mode = gen.pick(rng, ['none', '1d', 'perbatch'] if batch else ['none', '1d'])
    args = {}
    wt = np.ones(n)
    if mode == '1d':
        args['coef'], wt = coefs(rng, n, dtype)
    elif mode == 'perbatch':
        args['coef'], wt = coefs(rng, (n, len(objs[0].x)), dtype)
    seq = [o.tt for o in objs]
    r = ctx.call('add_n_projected', t3f.add_n_projected, tuple(seq) if rng.random() < .3 else seq, **args)
    if mode == 'perbatch':
        sh = lambda v: v.reshape([-1] + [1] * (objs[0].x.ndim - 1))
        x = sum(sh(wt[i]) * o.x for i, o in enumerate(objs))
        sc = sum(np.max(abs(wt[i])) * o.sc for i, o in enumerate(objs))
    else:
        x = sum(wt[i] * o.x for i, o in enumerate(objs))
        sc = sum(abs(wt[i]) * o.sc for i, o in enumerate(objs))
    big = sum(np.max(np.abs(wt[i])) * max(np.linalg.norm(rows(o), axis=1)) for i, o in enumerate(objs))
    return P(r, x, 2 * sc + 8 * ref.EPS[dtype] * (n + 10) * big, batch), mode


def derived(ctx, rng, w, p, dtype, bs):
    """What other operations make of projections: tangent arithmetic refuses it or gets it right."""
    d = len(w.cores)
    opts = ['neg', 'scale', 'expand', 'squeeze', 'self product', 'round', 'orthogonalize', 'renormalize', 'sum', 'same']
    if len(w.raw) == 1:
        opts += ['slice'] * 4
    else:
        opts += ['transpose'] * 2
    if bs is not None:
        opts += ['element', 'part', 'part']
    how = gen.pick(rng, opts)
    key = None
    if how == 'slice':
        key = []
        for n in w.raw[0]:
            lo = int(rng.integers(n))
            key.append(gen.pick(rng, [slice(None), slice(lo, int(rng.integers(lo + 1, n + 1))), slice(0, n, 2)]))
        if bs is not None:
            key = [slice(None)] + key
    elif how == 'element':
        key = int(rng.integers(bs))
    elif how == 'part':
        lo = int(rng.integers(bs))
        key = slice(lo, int(rng.integers(lo + 1, bs + 1)))
    f = {'neg': lambda t: -t, 'scale': lambda t: t * 2.5, 'expand': t3f.expand_batch_dim, 'squeeze': t3f.squeeze_batch_dim,
         'self product': lambda t: t * t, 'round': t3f.round, 'orthogonalize': t3f.orthogonalize_tt_cores,
         'renormalize': t3f.renormalize_tt_cores, 'sum': lambda t: t + t, 'same': lambda t: t, 'transpose': t3f.transpose,
         'slice': lambda t: t[tuple(key)], 'element': lambda t: t[key], 'part': lambda t: t[key]}[how]
    os = []
    for _ in range(2):
        q = projected(ctx, rng, w, p, dtype, bs)
        t = ctx.call(how, f, q.tt)
        batch = mon.kind_of(t) == 'batch'
        os.append((P(t, mon.value(ctx, t, batch), 0., batch), q))
    ctx.note('%s %s of %s' % (how, key, bs))
    ctx.sig('derived', how, w.raw, w.ranks, bs, dtype)
    (a, qa), (b, qb) = os
    for u, v in ((a, b), (a, qa), (qb, b)):
        attempt(ctx, u, v, dtype, p)


def attempt(ctx, u, v, dtype, p):
    def tried(f):
        try:
            return f()
        except Exception:
            return None
    x, y = rows(u), rows(v)
    big = np.linalg.norm(x, axis=1).max() + np.linalg.norm(y, axis=1).max()
    e = 1e5 * ref.EPS[dtype] * p.cond
    g = tried(lambda: t3f.pairwise_flat_inner_projected(u.tt, v.tt))
    ctx.evals['inner products of derived objects'] += 1
    if g is not None:
        if x.shape[1] != y.shape[1]:
            ctx.fail('inner products of derived objects', 'answered for tensors of different shapes')
        ctx.close('inner products of derived objects', g, x @ y.T, e * big ** 2 + 1e-30)
    r = tried(lambda: t3f.add_n_projected([u.tt, v.tt]))
    ctx.evals['sums of derived objects'] += 1
    if r is not None:
        if u.x.shape != v.x.shape:
            ctx.fail('sums of derived objects', 'answered for tensors of different shapes')
        mon.tt_close(ctx, 'sums of derived objects', r, u.batch, u.x + v.x, e * big + 1e-30, full=False)
    ds = tried(lambda: t3f.tangent_space_to_deltas(u.tt))
    ctx.evals['components of derived objects'] += 1
    if ds is not None:
        ax = tuple(range(1, len(ds[0].shape))) if u.batch else None
        n2 = sum(np.sum(np.asarray(c, float) ** 2, axis=ax) for c in ds)
        want = np.sum(x ** 2, axis=1)
        ctx.close('components of derived objects', n2, want if u.batch else want[0], e * big ** 2 + 1e-30)


def case(ctx, rng, st):
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    over = rng.random() < .15
    w, p = get_point(ctx, rng, dtype, over=over, dhi=5)
    ctx.note('point: %s' % w.describe())
    N = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 5])), hi=40)
    if st in ('add single', 'add batch'):
        bs = N if st == 'add batch' else None
        objs = [projected(ctx, rng, w, p, dtype, bs) for _ in range(gen.count(rng, int(rng.integers(1, 5)), hi=12))]
        if rng.random() < .25:
            # The same object several times.
            objs = [objs[int(rng.integers(len(objs)))] for _ in range(int(rng.integers(2, 5)))]
        r, mode = add_n(ctx, rng, objs, dtype)
        ctx.sig(st, w.raw, w.ranks, bs, len(objs), mode, dtype)
        check_tt(ctx, 'weighted sum', r)
        rk, rk0 = [ref.ranks(mon.cores_of(ctx, t), bs is not None) for t in (r.tt, objs[0].tt)]
        ctx.true('ranks do not grow', rk == rk0, '%s from %s' % (rk, rk0))
        pairwise(ctx, r, objs[0])
    elif st == 'pairwise':
        ba, bb = gen.pick(rng, [(N, N), (N, N + 1), (None, N), (N, None), (None, None)])
        a, b = projected(ctx, rng, w, p, dtype, ba), projected(ctx, rng, w, p, dtype, bb)
        ctx.sig(st, w.raw, w.ranks, ba, bb, dtype)
        pairwise(ctx, a, b)
    elif st.startswith('deltas'):
        bs = N if st == 'deltas batch' or (st == 'deltas inner' and rng.random() < .4) else None
        a = projected(ctx, rng, w, p, dtype, bs)
        ctx.sig(st, w.raw, w.ranks, bs, dtype)
        ds = ctx.call('tangent_space_to_deltas', t3f.tangent_space_to_deltas, a.tt)
        ctx.true('number of components', len(ds) == len(w.cores), '%d' % len(ds))
        if st == 'deltas inner':
            b = projected(ctx, rng, w, p, dtype, bs)
            es = ctx.call('tangent_space_to_deltas', t3f.tangent_space_to_deltas, b.tt)
            ax = tuple(range(1, len(ds[0].shape))) if bs is not None else None
            g = sum(np.sum(np.asarray(u, float) * np.asarray(v, float), axis=ax) for u, v in zip(ds, es))
            x, y = rows(a), rows(b)
            want = np.sum(x * y, axis=1)
            na, nb = np.linalg.norm(x, axis=1), np.linalg.norm(y, axis=1)
            s = np.sqrt(x.shape[1])
            tol = 2 * (a.sc * s * nb + b.sc * s * na + a.sc * b.sc * s * s) + 1e-300
            ctx.close('inner product of components', g, want if bs is not None else want[0],
                      tol if bs is not None else tol[0])
            return
        if over or rng.random() < .5:
            r = ctx.call('deltas_to_tangent_space', riemannian.deltas_to_tangent_space, ds, w.tt)
        else:
            left = ctx.call('orthogonalize', t3f.orthogonalize_tt_cores, w.tt)
            right = ctx.call('orthogonalize', t3f.orthogonalize_tt_cores, left, left_to_right=False)
            kw = gen.pick(rng, [{'left': left, 'right': right}, {'left': left}, {'right': right}])
            r = ctx.call('deltas_to_tangent_space', riemannian.deltas_to_tangent_space, ds, w.tt, **kw)
        check_tt(ctx, 'reassembled from components', P(r, a.x, 2 * a.sc, a.batch))
        # Still a projection on the same point.
        pairwise(ctx, P(r, a.x, 2 * a.sc, a.batch), a)
    elif st == 'history':
        bs = gen.pick(rng, [None, N])
        pool = [projected(ctx, rng, w, p, dtype, bs) for _ in range(2)]
        steps = []
        for _ in range(int(rng.integers(2, 6))):
            k = gen.pick(rng, ['add', 'reproject', 'deltas', 'new'])
            steps.append(k)
            src = pool[int(rng.integers(len(pool)))]
            if k == 'add':
                src2 = pool[int(rng.integers(len(pool)))]
                r, _ = add_n(ctx, rng, [src, src2], dtype)
            elif k == 'reproject':
                t = ctx.call('project', t3f.project, src.tt, w.tt)
                c = mon.cores_of(ctx, src.tt)
                sc2 = max(ref.interfaces_scale(e) for e in
                          ([ref.element(c, i) for i in range(bs)] if bs is not None else [c]))
                r = P(t, src.x, 2 * src.sc * np.sqrt(w.dense().size) + 16 * ref.EPS[dtype] * p.cond *
                      ref.depth(c if bs is None else ref.element(c, 0), w.cores) * sc2, src.batch)
            elif k == 'deltas':
                t = ctx.call('deltas round trip', lambda: riemannian.deltas_to_tangent_space(
                    t3f.tangent_space_to_deltas(src.tt), w.tt))
                r = P(t, src.x, 2 * src.sc, src.batch)
            else:
                r = projected(ctx, rng, w, p, dtype, bs)
            pool.append(r)
            check_tt(ctx, 'value along the history', r)
        ctx.sig(st, w.raw, w.ranks, bs, steps, dtype)
        ctx.note('steps %s' % steps)
        pairwise(ctx, pool[-1], pool[int(rng.integers(len(pool)))])
    elif st == 'refused':
        # An equal point that is another object: refused ("the pointers are different").
        other = gen.wrap(rng, w.cores, None)
        bs = gen.pick(rng, [None, N])
        a = projected(ctx, rng, w, p, dtype, bs)
        b = gen.obj(rng, raw=w.raw, bs=bs, dtype=dtype, style='normal')
        q = ctx.call('project', t3f.project, b.tt, other.tt)
        ctx.sig(st, w.raw, w.ranks, bs, dtype)
        ctx.raises('other point refused', t3f.pairwise_flat_inner_projected, a.tt, q)
        ctx.raises('other point refused', t3f.add_n_projected, [a.tt, q])
        ctx.raises('not a projection refused', t3f.pairwise_flat_inner_projected, a.tt, b.tt)
        ctx.raises('not a projection refused', t3f.pairwise_flat_inner_projected, b.tt, a.tt)
        ctx.raises('not a projection refused', t3f.add_n_projected, [a.tt, b.tt])
        ctx.raises('not a projection refused', t3f.tangent_space_to_deltas, b.tt)
        # An ordinary sum leaves the tangent representation.
        s = ctx.call('sum', lambda: a.tt + b.tt)
        ctx.raises('not a projection refused', t3f.add_n_projected, [a.tt, s])
    elif st == 'derived':
        derived(ctx, rng, w, p, dtype, gen.pick(rng, [None, N]))
    elif st == 'via sum':
        a = projected(ctx, rng, w, p, dtype, N, 'sum')
        b = projected(ctx, rng, w, p, dtype, None)
        ctx.sig(st, w.raw, w.ranks, N, dtype)
        check_tt(ctx, 'projected sum', a)
        pairwise(ctx, a, b)
        r, _ = add_n(ctx, rng, [a, b], dtype)
        check_tt(ctx, 'weighted sum', r)
    else:
        # project_matmul results take part as well.
        d = gen.ndims(rng, 2, 4)
        n = gen.sizes(rng, d, 12)
        r = gen.cond_point(rng, 'matrix', dtype, raw=[n, [1] * d], rmax=3)
        if r is None:
            ctx.skip('no well-conditioned point')
        w, p = r
        bs = gen.pick(rng, [None, N])
        a = gen.obj(rng, raw=w.raw, bs=bs, dtype=dtype, rmax=3, rstyle='small', style='normal')
        A = gen.obj(rng, raw=[n, n], dtype=dtype, rmax=2, rstyle='small', style='normal')
        ctx.sig(st, w.raw, w.ranks, bs, dtype)
        t = ctx.call('project_matmul', t3f.project_matmul, a.tt, w.tt, A.tt)
        X = A.dense() @ a.dense()
        xs = X if bs is not None else X[None]
        x = np.stack([to_dense(p(ref.dense_to_tensor(v, *w.raw)), w.raw) for v in xs])
        sc = 16 * ref.EPS[dtype] * ref.depth(a.cores, A.cores, w.cores) * p.cond * \
            max(ref.interfaces_scale(e) for e in a.elements()) * ref.interfaces_scale(A.cores)
        q = P(t, x if bs is not None else x[0], sc, bs is not None)
        b = projected(ctx, rng, w, p, dtype, bs)
        check_tt(ctx, 'projected product', q)
        pairwise(ctx, q, b)
        s, _ = add_n(ctx, rng, [b, q], dtype)
        check_tt(ctx, 'weighted sum', s)
