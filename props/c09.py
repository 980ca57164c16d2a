"""C09: orthogonalization of cores."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, qrmon

STRATA = [('l2r', 4), ('r2l', 4), ('batch', 4), 'single core', ('over', 2), 'deficient', 'zero', 'twice', 'long', 'tiny column']
QUICK = 5000
THOROUGH = 40000


def noise_floors(cores, l2r, dtype):
    """Magnitude of the rounding noise that fills dependent columns, per core.

    QR of a core with dependent columns leaves columns of rounding noise, and
    each further dependent core multiplies the noise by the precision. Squares
    of noise near the smallest representable numbers lose all accuracy, and QR
    of such columns need not be orthonormal in any implementation.
    """
    if not l2r:
        cores = [np.moveaxis(c, (0, -1), (-1, 0)) for c in cores[::-1]]
    left, floors, n = np.ones((1, 1)), [], 0
    scale = 1.
    for c in cores:
        m = np.tensordot(left, c.astype(float), 1).reshape(-1, c.shape[-1])
        s = np.linalg.svd(m, compute_uv=False)
        if s[0] > 0:
            n += bool(s[-1] < 1e3 * ref.EPS[dtype] * s[0])
            scale = s[0] * scale
            left = np.linalg.qr(m)[1] / s[0]
        else:
            left = np.zeros((1, c.shape[-1]))
        floors.append(min(scale, 1.) * ref.EPS[dtype] ** n)
    return floors if l2r else floors[::-1]


def orthogonality(ctx, inp, cores, l2r, dtype, twice):
    d = len(cores)
    floors = noise_floors(inp, l2r, dtype)
    if twice:
        # The first pass, in the other direction, leaves its noise too.
        low = min(noise_floors(inp, not l2r, dtype))
        floors = [f * low for f in floors]
    for k, c in enumerate(cores):
        if k == (d - 1 if l2r else 0) or floors[k] < 1e3 * ref.TINY[dtype] ** .5:
            continue
        m = c.astype(float)
        m = m.reshape(-1, m.shape[-1]) if l2r else m.reshape(m.shape[0], -1).T
        e = np.abs(m.T @ m - np.eye(m.shape[1])).max()
        ctx.true('orthonormal core', e <= 40 * ref.EPS[dtype] * (m.shape[0] + m.shape[1] + 10),
                 lambda: 'core %d of %d: deviation from identity %.3g' % (k, d, e))


def case(ctx, rng, st):
    kind = gen.pick(rng, ['tensor', 'matrix'], [2, 1])
    l2r = True if st in ('l2r', 'batch') else (False if st == 'r2l' else bool(rng.random() < .5))
    bs = gen.batch_size(rng) if st == 'batch' else None
    kw = {}
    if st == 'over':
        kw['rstyle'] = 'over'
    elif st == 'deficient':
        kw['style'] = 'deficient'
    elif st == 'zero':
        kw['style'] = 'zerocore'
    if st == 'single core':
        kw['d'] = 1
        if rng.random() < .4:
            bs, l2r = gen.batch_size(rng), True
    if st == 'long':
        kw['d'] = int(rng.integers(7, 11))
        kw['maxel'] = 3000
    if st == 'tiny column':
        l2r = True
        kw = dict(d=2, dtype='float32', style='normal')
    a = gen.obj(rng, kind, bs=bs, dhi=10, **kw)
    if st == 'tiny column':
        c = a.cores[0].copy()
        c[..., int(rng.integers(c.shape[-1]))] *= np.float32(1e-19 * rng.random())
        a = gen.wrap(rng, [c, a.cores[1]], None, 'tf', explicit=False)
        m = tf.constant(c.reshape(-1, c.shape[-1]))
        if not qrmon.accurate(m, *tf.linalg.qr(m)):
            ctx.key = qrmon.KEY
    ctx.note('%s left_to_right=%s' % (a.describe(), l2r))
    ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype, l2r)
    if l2r and rng.random() < .5:
        r = ctx.call('orthogonalize', t3f.orthogonalize_tt_cores, a.tt)
    else:
        r = ctx.call('orthogonalize', t3f.orthogonalize_tt_cores, a.tt, left_to_right=l2r)
    if st == 'twice' and bs is None:
        l2r = not l2r
        r = ctx.call('orthogonalize again', t3f.orthogonalize_tt_cores, r, left_to_right=l2r)
    mon.is_kind(ctx, r, a.batch)
    out = mon.cores_of(ctx, r)
    ctx.true('shape of result', ref.modes(out, a.batch) == a.raw, 'modes %s' % ref.modes(out, a.batch))
    rk, sz = ref.ranks(out, a.batch), [int(np.prod([g[k] for g in a.raw])) for k in range(len(a.raw[0]))]
    for k in range(1, len(sz)):
        ctx.true('rank does not grow', rk[k] <= a.ranks[k], 'ranks %s input %s' % (rk, a.ranks))
        lim = rk[k - 1] * sz[k - 1] if l2r else rk[k + 1] * sz[k]
        ctx.true('rank allowed by the modes', rk[k] <= lim, 'ranks %s modes %s' % (rk, sz))
    outs = [ref.element(out, i) for i in range(bs)] if a.batch else [out]
    if a.batch:
        ctx.true('batch size', all(c.shape[0] == bs for c in out), 'batch axes')
    for e, o in zip(a.elements(), outs):
        orthogonality(ctx, e, o, l2r, a.dtype, st == 'twice' and bs is None)
        x, y = ref.as_tensor(e), ref.as_tensor(o)
        err = np.linalg.norm((x - y).ravel())
        tol = 8 * ref.EPS[a.dtype] * ref.depth(e) * ref.interfaces_scale(e) + ref.TINY[a.dtype] * 1e3
        ctx.true('same tensor', err <= tol, lambda: 'distance %.4g tolerance %.3g' % (err, tol))
