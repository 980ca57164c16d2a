"""C08: rounding."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon
from props.c07 import bounds, graded

STRATA = [('restrictive', 4), ('exact', 4), ('sum', 3), ('batch', 4), ('over', 2), 'zero', 'single core', 'matrix',
          'decay', ('graded', 2)]
QUICK = 4500
THOROUGH = 35000


def doubled(o, w=(1., 2.)):
    """Cores of (w0 + w1) * value with doubled ranks."""
    d = len(o.cores)
    if d == 1:
        return [o.cores[0] * (w[0] + w[1])]
    off = 1 if o.batch else 0
    cs = []
    for k, c in enumerate(o.cores):
        z = np.zeros_like(c)
        if k == 0:
            cs.append(np.concatenate([w[0] * c, w[1] * c], -1))
        elif k == d - 1:
            cs.append(np.concatenate([c, c], off))
        else:
            cs.append(np.concatenate([np.concatenate([c, z], -1), np.concatenate([z, c], -1)], off))
    return [c.astype(o.cores[0].dtype) for c in cs]


def graded_obj(rng, kind, dtype, bs):
    """An object with rotated TT-cores whose singular values decay down to the precision of the type."""
    d = int(rng.integers(2, 5))
    sz = [int(rng.integers(1, 5)) for _ in range(d)]
    if rng.random() < .7:
        # One mode much larger than the TT-ranks next to it.
        sz[int(rng.integers(d))] = int(rng.integers(16, 60))
    groups = [sz]
    if kind == 'matrix':
        rows = [int(gen.pick(rng, [q for q in range(1, s + 1) if s % q == 0])) for s in sz]
        groups = [rows, [s // q for s, q in zip(sz, rows)]]
    elements = []
    for _ in range(bs or 1):
        rest, cores, r = graded(rng, sz, dtype), [], 1
        for k in range(d - 1):
            u, s, v = np.linalg.svd(rest.reshape(r * sz[k], -1), full_matrices=False)
            q = np.linalg.qr(rng.standard_normal((s.size, s.size)))[0]
            cores.append(u.dot(q).reshape([r] + [g[k] for g in groups] + [-1]))
            rest, r = q.T.dot(s[:, None] * v), s.size
        cores.append(rest.reshape([r] + [g[-1] for g in groups] + [1]))
        elements.append([c.astype(gen.NPD[dtype]) for c in cores])
    return elements[0] if bs is None else [np.stack(c) for c in zip(*elements)]


def case(ctx, rng, st):
    kind = 'matrix' if st == 'matrix' else gen.pick(rng, ['tensor', 'matrix'], [2, 1])
    bs = gen.batch_size(rng) if st == 'batch' or rng.random() < .2 else None
    d = 1 if st == 'single core' else None
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    kw = {}
    if st == 'over':
        kw['rstyle'] = 'over'
    if st == 'zero':
        kw['style'] = 'zerocore'
    elif st in ('exact', 'sum', 'restrictive', 'batch', 'decay'):
        kw['style'] = gen.pick(rng, ['normal', 'deficient', 'scaled', 'int', 'pos', 'huge', 'tiny'],
                               [6, 2, 1, 1, 1, .5, .5])
    a = gen.obj(rng, kind, d=d, bs=bs, dtype=dtype, maxel=800, dhi=8, rmax=5, **kw)
    cores = a.cores
    if st == 'graded':
        a = gen.wrap(rng, graded_obj(rng, kind, dtype, bs), bs)
    if st == 'decay':
        # Geometric weights on the rank index: graded singular values.
        cores = []
        for k, c in enumerate(a.cores):
            w = (10. ** (-rng.uniform(.2, 1.2) * np.arange(c.shape[-1]))).astype(c.dtype)
            cores.append(c * w if k < len(a.cores) - 1 else c)
        a = gen.wrap(rng, cores, bs)
    true_b = None
    if st in ('exact', 'sum'):
        true_b = a.ranks
        cores = doubled(a)
        if st == 'sum':
            b2 = gen.obj(rng, raw=a.raw, bs=bs, dtype=dtype, style='normal', rmax=3, rstyle='small', container='tf')
            tt = ctx.call('sum', lambda: a.tt + b2.tt)
            cores = ref.np_cores(tt)
            true_b = None
            a = gen.Obj(tt, cores, bs, 'a+b')
        else:
            a = gen.wrap(rng, cores, bs)
    raw = a.raw
    sz = [int(np.prod([g[k] for g in raw])) for k in range(len(raw[0]))]
    feas = ref.feasible_ranks(sz)
    rk_in = a.ranks
    if true_b is not None:
        form = gen.pick(rng, ['list', 'int', 'array'])
        b = list(true_b) if form != 'int' else [1] + [max(true_b)] * (len(sz) - 1) + [1]
        arg = max(true_b) if form == 'int' else (np.array(b) if form == 'array' else list(b))
    else:
        restr = st in ('restrictive', 'decay', 'graded') or (st in ('batch', 'matrix', 'sum', 'over') and rng.random() < .5)
        arg, b, form = bounds(rng, sz, restr)
    ctx.note('%s max_tt_rank=%s (%s)' % (a.describe(), arg, form))
    ctx.sig(st, raw, rk_in, bs, dtype, b, form)
    omit = form == 'none' and rng.random() < .5
    kwa = {} if omit else {'max_tt_rank': arg}
    eps = 0.
    if rng.random() < .2:
        # A requested accuracy is kept where ranks allow it.
        kwa['epsilon'] = gen.pick(rng, [None, 0., 1e-3, 1e-8, .2])
        eps = kwa['epsilon'] or 0.
    r = ctx.call('round', t3f.round, a.tt, **kwa)
    mon.is_kind(ctx, r, a.batch)
    out = mon.cores_of(ctx, r)
    ctx.true('shape of result', ref.modes(out, a.batch) == raw, 'modes %s' % ref.modes(out, a.batch))
    if a.batch:
        ctx.true('batch size', all(c.shape[0] == bs for c in out), 'batch axes %s' % [c.shape[0] for c in out])
    rk = ref.ranks(out, a.batch)
    for k in range(1, len(sz)):
        ctx.true('rank bound', rk[k] <= b[k], 'ranks %s bound %s' % (rk, b))
        ctx.true('not above input rank', rk[k] <= rk_in[k], 'ranks %s input %s' % (rk, rk_in))
        ctx.true('feasible rank', rk[k] <= feas[k], 'ranks %s feasible %s' % (rk, feas))
    dep = ref.depth(a.cores)
    els = a.elements()
    outs = [ref.element(out, i) for i in range(bs)] if a.batch else [out]
    for e, o in zip(els, outs):
        x, y = ref.as_tensor(e), ref.as_tensor(o)
        ctx.true('finite', np.all(np.isfinite(y)), 'not finite')
        err = np.linalg.norm((x - y).ravel())
        tails = [ref.tail(s, b[k + 1]) for k, s in enumerate(ref.unfold_svals(x))]
        bound = np.sqrt(sum(t * t for t in tails))
        rnd = 8 * ref.EPS[dtype] * dep * ref.interfaces_scale(e) + ref.TINY[dtype] * 1e3
        ctx.true('quasi-optimal error', err <= max(bound, np.hypot(bound, eps * np.linalg.norm(x))) * (1 + 1e-6) + rnd,
                 lambda: 'error %.6g, bound %.6g, rounding %.3g' % (err, bound, rnd))
    if rng.random() < .3:
        f = ctx.call('full', t3f.full, r)
        ctx.close('full of rounded', f, ref.dense(out, a.batch),
                  mon.tol_for(dtype, ref.depth(out), ref.absdense(out, a.batch)))
