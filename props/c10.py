"""C10: renormalization of cores."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('tensor', 3), ('batch', 4), ('wild', 4), ('wild batch', 3), 'zero core', 'single core', 'of product',
          'epsilon']
QUICK = 6000
THOROUGH = 45000


def flat(cores):
    """All entries in the order of cores (numpy does not support many axes)."""
    res = np.ones((1, 1))
    for c in cores:
        res = (res @ c.astype(float).reshape(c.shape[0], -1)).reshape(-1, c.shape[-1])
    return res[:, 0]


def case(ctx, rng, st):
    kind = gen.pick(rng, ['tensor', 'matrix'])
    bs = gen.batch_size(rng) if 'batch' in st or rng.random() < .25 else None
    kw = {}
    if st == 'single core':
        kw['d'] = 1
    elif st.startswith('wild') and rng.random() < .3:
        kw['d'] = int(rng.integers(6, 14))
    styles = ['normal', 'int', 'pos', 'scaled', 'sparse']
    if 'd' not in kw and st != 'of product' and rng.random() < .03:
        # Most of the modes are of size one.
        kw['d'], styles = int(rng.integers(21, 71)), ['normal', 'pos']
    a = gen.obj(rng, kind, bs=bs, dhi=10, style='zerocore' if st == 'zero core' else gen.pick(rng, styles), **kw)
    cores = [c.copy() for c in a.cores]
    d = len(cores)
    if st.startswith('wild'):
        # Scales multiply to about one, each far from it.
        span = 100. if a.dtype == 'float64' else 14.
        e = rng.uniform(-span, span, size=(bs or 1, d))
        e = e - e.mean(1, keepdims=True)
        # The stabiliser bounds norms from below; keep some cases free of it.
        if rng.random() < .5:
            e = np.clip(e, -3, None)
        # Partial products stay representable in float64.
        top = np.max(np.abs(np.cumsum(e, 1)))
        if a.dtype == 'float64':
            e = e * min(1., 200. / max(top, 1e-9))
        elif rng.random() < .4:
            # Large ones first.
            e = -np.sort(-e, axis=1)
        e = e * min(1., (110. if a.dtype == 'float64' else 14.) / max(np.max(np.abs(e)), 1e-9))
        for k in range(d):
            s = (10. ** e[:, k])
            s = s.reshape([-1] + [1] * (cores[k].ndim - 1)) if bs is not None else s[0]
            c = cores[k].astype(float) * s
            # Squares of entries are representable.
            top = np.sqrt(np.sum(c ** 2, axis=tuple(range(1, c.ndim)), keepdims=True)) if bs is not None else np.linalg.norm(c)
            c = c * np.minimum(1., (1e150 if a.dtype == 'float64' else 1e17) / np.maximum(top, 1e-300))
            cores[k] = c.astype(cores[k].dtype)
        a = gen.wrap(rng, cores, bs, gen.pick(rng, ['np', 'tf']))
    if st == 'of product':
        b = gen.obj(rng, raw=a.raw, bs=bs, dtype=a.dtype, rstyle='small', style='normal', container='tf')
        tt = ctx.call('product', lambda: a.tt * b.tt)
        a = gen.Obj(tt, ref.np_cores(tt), bs, 'a*b')
    eps = None
    if st == 'epsilon':
        eps = float(gen.pick(rng, [1e-12, 1e-6, 1e-3, 1e-10]))
    ctx.note('%s epsilon=%s' % (a.describe(), eps))
    ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype, eps)
    r = ctx.call('renormalize', t3f.renormalize_tt_cores, a.tt, **({} if eps is None else {'epsilon': eps}))
    eps = 1e-8 if eps is None else eps
    mon.is_kind(ctx, r, a.batch)
    out = mon.cores_of(ctx, r)
    ctx.true('shapes of cores', [c.shape for c in out] == [c.shape for c in a.cores],
             lambda: '%s instead of %s' % ([c.shape for c in out], [c.shape for c in a.cores]))
    outs = [ref.element(out, i) for i in range(bs)] if a.batch else [out]
    logs = [np.log(max(np.sqrt(np.sum(c.astype(float) ** 2)), 1e-300)) for e in a.elements() for c in e]
    # exp(mean log) carries the absolute error of the logs.
    dep = ref.depth(a.cores) + 4 * d * (4 + max(abs(v) for v in logs))
    for e, o in zip(a.elements(), outs):
        x = flat(e)
        ax = flat([abs(c.astype(float)) for c in e])
        ctx.close('same tensor', flat(o), x, mon.tol_for(a.dtype, dep, ax))
        n2 = [np.sum(c.astype(float) ** 2) for c in e]
        if all(v >= eps * 1.01 for v in n2):
            n = np.array([np.sqrt(np.sum(c.astype(float) ** 2)) for c in o])
            want = np.exp(np.mean([.5 * np.log(v) for v in n2]))
            ctx.close('equal norms', n, np.full(d, want), 8 * ref.EPS[a.dtype] * dep * 4 * want)
        else:
            ctx.true('finite cores', all(np.all(np.isfinite(c)) for c in o), 'not finite')
