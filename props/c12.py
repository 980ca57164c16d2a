"""C12: projection on tangent spaces."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('project', 4), ('project batch', 4), ('over', 3), ('sum', 3), ('sum 1d', 3), ('sum 2d', 3), ('matmul', 4),
          'matmul batch', 'itself', 'idempotent', 'two cores', 'sum of one', ('variable point', 2)]
QUICK = 3500
THOROUGH = 28000


def to_dense(x, raw):
    return x if len(raw) == 1 else ref.tensor_to_dense(x, *raw)


def tol_of(dtype, dep, p, sc):
    return 16 * ref.EPS[dtype] * dep * p.cond * sc + ref.TINY[dtype] * 1e3


def get_point(ctx, rng, dtype, over=False, kind=None, raw=None, dlo=2, dhi=6):
    kind = kind or gen.pick(rng, ['tensor', 'matrix'], [3, 2])
    for _ in range(4):
        r = gen.cond_point(rng, kind, dtype, dlo, dhi, 600, raw=raw, over=over, rmax=4, far=rng.random() < .2)
        if r:
            return r
    ctx.skip('no well-conditioned point')


def coefs(rng, shape, dtype):
    w = rng.standard_normal(shape).astype(gen.NPD[dtype])
    if rng.random() < .25:
        w = (w * (rng.random(shape) < .6)).astype(w.dtype)
    form = gen.pick(rng, ['np', 'tf', 'list'])
    return (w if form == 'np' else tf.constant(w) if form == 'tf' else w.tolist()), w.astype(float)


def case(ctx, rng, st):
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    if st.startswith('matmul'):
        d = gen.ndims(rng, 2, 4)
        n = gen.sizes(rng, d, 20)
        if rng.random() < .2:
            # The matrix may use one core several times.
            n = [3 if d < 4 else 2] * d
        m = [1] * d if rng.random() < .6 else gen.sizes(rng, d, 8)
        over = rng.random() < .2
        r = gen.cond_point(rng, 'matrix', dtype, raw=[n, m], rmax=3, over=over) or \
            gen.cond_point(rng, 'matrix', dtype, raw=[n, m], rmax=3)
        if r is None:
            ctx.skip('no well-conditioned point')
        w, p = r
        bs = gen.batch_size(rng) if st == 'matmul batch' or rng.random() < .3 else None
        a = gen.obj(rng, raw=[n, m], bs=bs, dtype=dtype, rmax=3, rstyle='hetero', style=gen.pick(rng, ['normal', 'scaled'], [3, 1]))
        A = gen.obj(rng, raw=[n, n], dtype=dtype, rmax=3, rstyle='hetero', style='normal')
        ctx.note('where: %s what: %s matrix: %s' % (w.describe(), a.describe(), A.describe()))
        ctx.sig(st, w.raw, w.ranks, a.ranks, A.ranks, bs, dtype)
        r = ctx.call('project_matmul', t3f.project_matmul, a.tt, w.tt, A.tt)
        X = A.dense() @ a.dense()
        xs = X if bs is not None else X[None]
        want = np.stack([to_dense(p(ref.dense_to_tensor(x, n, m)), w.raw) for x in xs])
        sc = max(ref.interfaces_scale(e) for e in a.elements()) * ref.interfaces_scale(A.cores)
        judge(ctx, r, bs is not None, want if bs is not None else want[0], w,
              tol_of(dtype, ref.depth(a.cores, A.cores, w.cores) + sum(n), p, sc))
        return
    if st == 'variable point':
        return variable_point(ctx, rng, dtype)
    dlo, dhi = (2, 2) if st == 'two cores' else (2, 6)
    w, p = get_point(ctx, rng, dtype, over=st == 'over', dlo=dlo, dhi=dhi)
    raw = w.raw
    ctx.note('where: %s true ranks %s cond %.1f' % (w.describe(), w.true_ranks, p.cond))
    bs = None
    if st == 'project batch' or st.startswith('sum') or (st in ('over', 'two cores') and rng.random() < .5):
        bs = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 4, 5])), hi=40)
    if st == 'sum of one':
        bs = None
    if st == 'itself':
        mult = float(gen.pick(rng, [1., -2., .5]))
        tt = w.tt if mult == 1. else ctx.call('scale', lambda: w.tt * mult)
        ctx.sig(st, raw, w.ranks, dtype, mult)
        r = ctx.call('project', t3f.project, tt, w.tt)
        judge(ctx, r, False, w.dense() * mult, w,
              tol_of(dtype, ref.depth(w.cores, w.cores), p, ref.interfaces_scale(w.cores) * abs(mult)))
        return
    a = gen.obj(rng, raw=raw, bs=bs, dtype=dtype, rmax=5,
                style=gen.pick(rng, ['normal', 'int', 'pos', 'deficient', 'zerocore', 'scaled'], [6, 1, 1, 1, .5, 1]))
    els = a.elements()
    px = np.stack([to_dense(p(ref.as_tensor(e)), raw) for e in els])
    scs = np.array([ref.interfaces_scale(e) for e in els])
    dep = ref.depth(a.cores, w.cores)
    ctx.note('what: ' + a.describe())
    if st.startswith('sum'):
        form = 'none'
        args = []
        K = None
        wt = np.ones(len(els))
        if st == 'sum 1d' or (st == 'sum of one' and rng.random() < .5):
            form = '1d'
            arg, wt = coefs(rng, len(els), dtype)
            args = [arg]
        elif st == 'sum 2d':
            K = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 4])), hi=40)
            form = '2d'
            arg, wt = coefs(rng, (len(els), K), dtype)
            args = [arg]
        ctx.note('weights %s' % (np.shape(wt),))
        ctx.sig(st, raw, w.ranks, a.ranks, bs, dtype, form, K)
        r = ctx.call('project_sum', t3f.project_sum, a.tt, w.tt, *args)
        want = np.tensordot(wt.T, px, 1)
        tol = tol_of(dtype, dep + len(els), p, np.tensordot(abs(wt).T, scs, 1))
        batch = K is not None and K > 1
        if K == 1:
            want, tol = want[0], tol[0]
        if batch:
            tol = tol.reshape([-1] + [1] * (want.ndim - 1))
        judge(ctx, r, batch, want, w, tol)
        return
    ctx.sig(st, raw, w.ranks, a.ranks, bs, dtype)
    r = ctx.call('project', t3f.project, a.tt, w.tt)
    want = px if bs is not None else px[0]
    tol = tol_of(dtype, dep, p, scs if bs is not None else scs[0])
    t = tol.reshape([-1] + [1] * (px.ndim - 1)) if bs is not None else tol
    judge(ctx, r, bs is not None, want, w, t)
    got = ref.dense(mon.cores_of(ctx, r), bs is not None)
    for i, e in enumerate(els):
        g = got[i] if bs is not None else got
        ctx.true('norm does not increase', np.linalg.norm(g.ravel()) <= np.linalg.norm(ref.as_tensor(e).ravel()) +
                 np.max(tol) * np.sqrt(g.size), 'norm grew')
    if st == 'idempotent':
        q = ctx.call('project again', t3f.project, r, w.tt)
        outs = mon.cores_of(ctx, r)
        oe = [ref.element(outs, i) for i in range(bs)] if bs is not None else [outs]
        sc2 = max(ref.interfaces_scale(e) for e in oe)
        judge(ctx, q, bs is not None, want, w, 2 * t + tol_of(dtype, dep * 2, p, sc2))


def judge(ctx, r, batch, want, w, tol):
    mon.tt_close(ctx, 'projection', r, batch, want, tol, full=False)
    out = mon.cores_of(ctx, r)
    rk = ref.ranks(out, batch)
    for k in range(1, len(rk) - 1):
        ctx.true('rank at most twice that of the point', rk[k] <= 2 * w.ranks[k], 'ranks %s point %s' % (rk, w.ranks))


def variable_point(ctx, rng, dtype):
    """Projections on a variable follow its current value, also of what was projected on an earlier value."""
    w, p = get_point(ctx, rng, dtype, dhi=4)
    raw = w.raw
    v = t3f.TensorTrain([tf.Variable(c) for c in w.cores], convert_to_tensors=False) if rng.random() < .5 else \
        ctx.call('get_variable', t3f.get_variable, 'point', initializer=t3f.TensorTrain([tf.constant(c) for c in w.cores]))
    bs = gen.batch_size(rng) if rng.random() < .4 else None
    src = gen.obj(rng, raw=raw, bs=bs, dtype=dtype, rmax=4, style=gen.pick(rng, ['normal', 'int', 'pos']))
    A = None
    if len(raw) == 2 and int(np.prod(raw[0])) <= 30:
        A = gen.obj(rng, raw=[raw[0], raw[0]], dtype=dtype, rmax=2, style='normal')
    ctx.note('point %s what %s' % (w.describe(), src.describe()))
    log = []
    what = [(src.tt, src.cores, bs is not None)]
    for step in range(4):
        if step and rng.random() < .6:
            for _ in range(30):
                cs = [rng.standard_normal(c.shape).astype(c.dtype) for c in w.cores]
                q = ref.Projector(ref.as_tensor(cs), w.true_ranks)
                if q.cond <= 3 * p.cond:
                    break
            else:
                continue
            w, p = gen.Obj(w.tt, cs, None, w.desc), q
            w.true_ranks = ref.ranks(cs, False)
            ctx.call('assign', t3f.assign, v, t3f.TensorTrain([tf.constant(c) for c in cs]))
            log.append('assign')
        tt, cores, b = what[int(rng.integers(len(what)))]
        els = [ref.element(cores, i) for i in range(cores[0].shape[0])] if b else [cores]
        fn = gen.pick(rng, ['project', 'project_sum'] + (['matmul'] if A is not None else []), [4, 1] + ([1] if A is not None else []))
        log.append(fn)
        x = [ref.as_tensor(e) for e in els]
        sc = max(ref.interfaces_scale(e) for e in els)
        dep = ref.depth(cores, w.cores)
        out_b = b
        if fn == 'project':
            r = ctx.call('project', t3f.project, tt, v)
        elif fn == 'project_sum':
            r = ctx.call('project_sum', t3f.project_sum, tt, v)
            x, out_b, sc = [sum(x)], False, sc * len(x)
        else:
            r = ctx.call('project_matmul', t3f.project_matmul, tt, v, A.tt)
            x = [ref.dense_to_tensor(A.dense() @ ref.dense(e), *raw) for e in els]
            sc *= ref.interfaces_scale(A.cores)
            dep = ref.depth(cores, A.cores, w.cores) + sum(raw[0])
        want = np.stack([to_dense(p(y), raw) for y in x])
        judge(ctx, r, out_b, want if out_b else want[0], w, tol_of(dtype, dep, p, sc))
        what.append((r, mon.cores_of(ctx, r), out_b))
    ctx.sig('variable point', raw, w.ranks, src.ranks, bs, dtype, log)
