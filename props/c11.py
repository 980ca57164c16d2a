"""C11: approximate sums."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('add_n', 4), ('reduce', 4), ('reduce 1d', 4), ('reduce 2d', 5), ('bounded add_n', 2),
          ('bounded reduce', 2), 'single core', 'one', ('shared', 3)]
QUICK = 2600
THOROUGH = 20000


def coefs(rng, shape, dtype):
    w = rng.standard_normal(shape)
    if rng.random() < .3:
        w = np.where(rng.random(shape) < .4, 0., w)
    if rng.random() < .2:
        w = rng.integers(-3, 4, size=shape).astype(float)
    w = w.astype(gen.NPD[dtype])
    form = gen.pick(rng, ['np', 'tf', 'list', 'np64'])
    if form == 'np':
        return w, w.astype(float)
    if form == 'np64':
        w = w.astype(float)
        return w, w
    if form == 'list':
        return w.tolist(), w.astype(float)
    return tf.constant(w), w.astype(float)


def shared_elements(rng, raw, n, dtype, d):
    """n elements whose every partial weighted sum has the same small ranks.

    All cores but one are common: sums act on that core only.
    """
    cs = [int(np.prod([g[k] for g in raw])) for k in range(d)]
    rks = gen.rank_list(rng, cs, 'small')
    common, _ = gen.core_arrays(rng, raw, rks, dtype, None, 'normal')
    j = int(rng.integers(d))
    els = []
    for _ in range(n):
        own, _ = gen.core_arrays(rng, raw, rks, dtype, None, 'normal')
        c = [x.copy() for x in common]
        c[j] = own[j]
        els.append(c)
    return els, rks


def case(ctx, rng, st):
    kind = gen.pick(rng, ['tensor', 'matrix'], [2, 1])
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    d = 1 if st == 'single core' else gen.ndims(rng, 1, 5)
    raw = [gen.sizes(rng, d, 150)] if kind == 'tensor' else [list(v) for v in gen.matrix_sizes(rng, d, 150)]
    cs = [int(np.prod([g[k] for g in raw])) for k in range(d)]
    feas = ref.feasible_ranks(cs)
    n = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9])), .08, 70) if st != 'one' else 1
    if st.startswith('bounded') or st == 'shared':
        n = max(n, 2)
    op = 'add_n' if 'add_n' in st else ('reduce' if 'reduce' in st else gen.pick(rng, ['add_n', 'reduce']))
    exact = not st.startswith('bounded')
    if st == 'shared':
        els, rks = shared_elements(rng, raw, n, dtype, d)
        r = max(rks)
        bound = gen.pick(rng, [r, list(rks), r])
        blist = [r] * (d + 1) if np.isscalar(bound) else list(rks)
    else:
        same = gen.rank_list(rng, cs, gen.pick(rng, ['small', 'hetero', 'one']), 3)
        els = []
        for _ in range(n):
            rk = same if op == 'reduce' else gen.rank_list(rng, cs, gen.pick(rng, ['small', 'one', 'hetero']), 3)
            c, _ = gen.core_arrays(rng, raw, rk, dtype, None, gen.pick(rng, ['normal', 'int', 'pos', 'zerocore'],
                                                                      [5, 1, 1, .5]))
            els.append(c)
        if exact:
            blist = [max(f, 1) for f in feas]
            bound = gen.pick(rng, [max(feas), list(feas), 1000, np.array(feas), max(feas) + 3])
        else:
            r = int(rng.integers(1, 5))
            bound = gen.pick(rng, [r, [1] + [int(v) for v in rng.integers(1, 5, size=d - 1)] + [1]])
            blist = [r] * (d + 1) if np.isscalar(bound) else list(bound)
    if op == 'add_n' and n > 1 and rng.random() < .15:
        # Some objects several times.
        els = [els[int(rng.integers(1 + n // 2))] for _ in range(n)]
    lim = blist if (st == 'shared' or not exact) else \
        ([int(bound)] * (d + 1) if np.ndim(bound) == 0 else list(bound))
    xs = np.stack([ref.dense(e) for e in els])
    scale = np.array([ref.interfaces_scale(e) for e in els])
    dep = 64 + sum(cs) + 8 * d * max(max(c.shape[-1] for c in e) for e in els)
    dep *= 1 + np.ceil(np.log2(max(n, 2)))
    if op == 'add_n':
        made = {}
        seq = []
        for e in els:
            if id(e) not in made or rng.random() < .2:
                made[id(e)] = gen.wrap(rng, e).tt
            seq.append(made[id(e)])
        seq = tuple(seq) if rng.random() < .3 else seq
        ctx.note('add_n of %d, raw=%s %s bound=%s' % (n, raw, dtype, bound))
        ctx.sig(st, op, n, raw, [[c.shape for c in e] for e in els], dtype, str(bound))
        r = ctx.call('add_n', t3f.approximate.add_n, seq, bound)
        want, sc, batch = xs.sum(0), scale.sum(), False
        K = None
        w = np.ones(n)
    else:
        cores = [np.stack([e[k] for e in els]) for k in range(d)]
        b = gen.wrap(rng, cores, n).tt
        K = None
        if st == 'reduce 1d' or (st not in ('reduce', 'reduce 2d') and rng.random() < .4):
            arg, w = coefs(rng, n, dtype)
            args = [arg]
        elif st == 'reduce 2d' or (st not in ('reduce',) and rng.random() < .5):
            K = gen.count(rng, int(gen.pick(rng, [1, 2, 3, 4])), hi=20)
            arg, w = coefs(rng, (n, K), dtype)
            args = [arg]
        else:
            args, w = [], np.ones(n)
        ctx.note('reduce_sum_batch of %d, raw=%s %s bound=%s coef=%s' % (
            n, raw, dtype, bound, None if not args else '%s %s' % (type(args[0]).__name__, w.shape)))
        ctx.sig(st, op, n, raw, [c.shape for c in cores], dtype, str(bound), np.shape(w), K)
        f = t3f.approximate.reduce_sum_batch
        r = ctx.call('reduce_sum_batch', f, b, bound, *args) if rng.random() < .5 else \
            ctx.call('reduce_sum_batch', f, b, bound, coef=args[0] if args else None)
        want = np.tensordot(w.T, xs, 1)
        sc = np.tensordot(abs(w).T, scale, 1)
        batch = K is not None
    mon.is_kind(ctx, r, batch)
    ctx.true('dtype', r.dtype.name == dtype, r.dtype.name)
    out = mon.cores_of(ctx, r)
    ctx.true('shape of result', ref.modes(out, batch) == raw, 'modes %s' % ref.modes(out, batch))
    rk = ref.ranks(out, batch)
    if n >= 2:
        for k in range(1, d):
            ctx.true('rank bound', rk[k] <= lim[k], 'ranks %s bound %s' % (rk, lim))
    got = ref.dense(out, batch)
    if exact:
        if batch:
            sc = sc.reshape([-1] + [1] * (want.ndim - 1))
        ctx.close('exact sum', got, want, 16 * ref.EPS[dtype] * dep * sc + ref.TINY[dtype] * 1e3)
    else:
        ctx.true('finite', np.all(np.isfinite(got)), 'not finite')
        # Tree of roundings: the error of each is at most sqrt(d-1) times the norm of what is rounded, and
        # every rounding is quasi-optimal, so the norm of partial results stays bounded by the sum of norms.
        gs = got if batch else got[None]
        ws = want if batch else want[None]
        wt = np.abs(w).reshape(n, -1)
        for j in range(len(gs)):
            tot = np.sum(wt[:, j] * np.linalg.norm(xs.reshape(n, -1), axis=1))
            err = np.linalg.norm((gs[j] - ws[j]).ravel())
            lev = 1 + int(np.ceil(np.log2(max(n, 2))))
            ctx.true('error of bounded sum', err <= tot * np.sqrt(max(d - 1, 1)) * lev * (1 + 1e-3) +
                     16 * ref.EPS[dtype] * dep * np.max(sc), 'error %.4g norms %.4g' % (err, tot))
        if n == 2:
            # One rounding of the true sum: quasi-optimality is exact.
            for j in range(len(gs)):
                x = ws[j] if len(raw) == 1 else ref.dense_to_tensor(ws[j], *raw)
                y = gs[j] if len(raw) == 1 else ref.dense_to_tensor(gs[j], *raw)
                tails = [ref.tail(s, lim[k + 1]) for k, s in enumerate(ref.unfold_svals(x))]
                bd = np.sqrt(sum(t * t for t in tails))
                err = np.linalg.norm((x - y).ravel())
                ctx.true('quasi-optimal sum of two', err <= bd * (1 + 1e-6) + 16 * ref.EPS[dtype] * dep * np.max(sc),
                         'error %.6g bound %.6g' % (err, bd))
