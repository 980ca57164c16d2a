"""C16: determinant, log-determinant, inverse and Cholesky factor of Kronecker products."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('det', 4), ('slog', 4), ('inv', 4), ('chol', 4), ('singular', 2), ('long', 4), ('refused', 4), ('unknown batch', 3),
          ('traced', 2)]
QUICK = 6000
THOROUGH = 40000


def factor(rng, n, spd):
    """A factor with known singular values (condition at most 20) in float64, or one of small integers."""
    if n > 1 and rng.random() < .25:
        a = simple(rng, n, spd)
        if np.linalg.cond(a) < 20:
            return a
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    p, _ = np.linalg.qr(rng.standard_normal((n, n)))
    s = np.exp(rng.uniform(-1.5, 1.5, size=n))
    if spd:
        a = (q * s) @ q.T
        return (a + a.T) / 2
    a = (q * s) @ p.T
    if rng.random() < .5:
        a[:, 0] = -a[:, 0]
    return a


def simple(rng, n, spd):
    """Diagonal, permuted, triangular, skew and other matrices of small integers."""
    how = gen.pick(rng, ['diagonal', 'permuted', 'lower', 'upper', 'skew', 'symmetric', 'bordered', 'identity'])
    dg = np.diag(rng.integers(1, 4, size=n) * (1 if spd else rng.choice([-1, 1], size=n))).astype(float)
    b = rng.integers(-1, 2, size=(n, n)).astype(float)
    if how == 'diagonal':
        a = dg
    elif how == 'identity':
        a = np.eye(n)
    elif how == 'permuted':
        a = dg[rng.permutation(n)]
    elif how in ('lower', 'upper'):
        a = dg + (np.tril(b, -1) if how == 'lower' else np.triu(b, 1))
    elif how == 'skew':
        # Off-diagonal entries cancel.
        a = 2 * np.eye(n) + b - b.T
    elif how == 'bordered':
        a = dg.copy()
        a[0, -1] = 1.
    else:
        a = dg + b + b.T
    return a @ a.T if spd else a


def factors(rng, d, dtype, bs, spd=False, maxn=64, maxfac=6, sizes=None):
    if sizes is None:
        sizes = [int(v) for v in rng.integers(1, maxfac + 1, size=d)]
        while np.prod(sizes) > maxn:
            k = int(np.argmax(sizes))
            sizes[k] -= 1
    out = []
    for n in sizes:
        k = [factor(rng, n, spd) * (1 if spd or rng.random() < .8 else np.exp(rng.uniform(-1, 1)))
             for _ in range(bs or 1)]
        c = np.stack(k)[:, None, :, :, None]
        if bs is None:
            c = c[0]
        out.append(c.astype(gen.NPD[dtype]))
    return out, sizes


def badly_scaled(rng, cores, bs, spd):
    """Scales columns (and rows of symmetric factors) by powers of two, which is exact; elimination does not notice."""
    top = 40 if cores[0].dtype == np.float64 else 14
    out, scales = [], []
    for c in cores:
        n = c.shape[-2]
        e = rng.integers(-top, top + 1, size=(bs or 1, n))
        if rng.random() < .4:
            e[rng.random(e.shape) < .6] = 0
        s = 2. ** e
        v = (s if bs is not None else s[0]).astype(c.dtype)
        c = c * (v[:, None, None, :, None] if bs is not None else v[None, None, :, None])
        if spd:
            c = c * (v[:, None, :, None, None] if bs is not None else v[None, :, None, None])
        out.append(c)
        scales.append(s)
    return out, [[s[i] for s in scales] for i in range(bs or 1)]


def mats(cores, bs):
    """Per element list of factors, float64."""
    if bs is None:
        return [[c[0, :, :, 0].astype(float) for c in cores]]
    return [[c[i, 0, :, :, 0].astype(float) for c in cores] for i in range(bs)]


def kron(fs):
    r = np.ones((1, 1))
    for f in fs:
        r = np.kron(r, f)
    return r


def cond(fs):
    return float(np.prod([np.linalg.cond(f) for f in fs]))


def slog(fs):
    """Sign and logarithm from factors, with exact integer powers."""
    n = 1
    for f in fs:
        n *= f.shape[0]
    s, l, e = 1., 0., 0.
    for f in fs:
        a, b = np.linalg.slogdet(f)
        p = n // f.shape[0]
        s *= a ** (p % 2) if a != 0 else 0.
        l += float(p) * b
        g = f / np.maximum(np.max(np.abs(f), axis=0), 1e-300) if a != 0 else f
        e += float(p) * (abs(b) + np.linalg.cond(g) * f.shape[0] * 4 if a != 0 else 1)
    return s, l, e


def case(ctx, rng, st):
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    eps = ref.EPS[dtype]
    bs = gen.count(rng, int(rng.integers(1, 6)), hi=40) if rng.random() < .45 else None
    if st == 'unknown batch':
        bs = gen.count(rng, int(rng.integers(1, 6)), hi=40)
    fn = {'det': 'det', 'slog': 'slog', 'inv': 'inv', 'chol': 'chol', 'long': 'slog'}.get(
        st) or gen.pick(rng, ['det', 'slog', 'inv', 'chol'])
    lib = {'det': t3f.kronecker.determinant, 'slog': t3f.kronecker.slog_determinant, 'inv': t3f.kronecker.inv,
           'chol': t3f.kronecker.cholesky}[fn]
    if st == 'refused':
        d = int(rng.integers(1, 5))
        mode = gen.pick(rng, ['rank', 'rectangular', 'tensor', 'swapped'])
        good, sizes = factors(rng, d, dtype, bs, spd=True, maxn=32)
        ns, ms = list(sizes), list(sizes)
        rks = [1] * (d + 1)
        if mode == 'rank':
            if d == 1:
                d, ns, ms, rks = 2, [2, 3], [2, 3], [1, 1, 1]
            rks[int(rng.integers(1, d))] = int(rng.integers(2, 4))
        elif mode == 'rectangular':
            k = int(rng.integers(d))
            ms[k] += int(rng.integers(1, 3))
            if rng.random() < .5:
                ns, ms = ms, ns
        elif mode == 'swapped':
            # The whole matrix is square, the factors are not.
            ns, ms = [2, 3], [3, 2]
            rks = [1, 1, 1]
        raw = [ns, ms] if mode != 'tensor' else [ns]
        o = gen.obj(rng, raw=raw, rks=rks, bs=bs, dtype=dtype, style='normal')
        ctx.note('%s %s of %s' % (mode, fn, o.describe()))
        ctx.sig(st, mode, fn, raw, rks, bs)
        ctx.raises('not a Kronecker product of square factors: refused', lib, o.tt)
        ctx.call(fn, lib, gen.wrap(rng, good, bs).tt)
        return
    d = int(rng.integers(1, 7))
    if st == 'long':
        d = int(rng.integers(20, 61))
        dtype = 'float64' if rng.random() < .7 else dtype
        eps = ref.EPS[dtype]
        if rng.random() < .5:
            sz = [int(v) for v in rng.choice([1, 2, 3, 5], size=d)]
        else:
            # Odd sizes: the sign of every factor matters.
            sz = [int(v) for v in rng.choice([1, 3, 3, 5], size=d)]
        if rng.random() < .3:
            sz[int(rng.integers(d))] = 2
        lim = 1e300 if dtype == 'float64' else 1e35
        while np.prod([float(v) for v in sz]) * 1e3 > lim:
            sz.pop()
        cores, sizes = factors(rng, d, dtype, bs, sizes=sz)
    else:
        cores, sizes = factors(rng, d, dtype, bs, spd=fn == 'chol', maxn=48)
    if st == 'singular':
        fn = gen.pick(rng, ['det', 'slog'])
        lib = {'det': t3f.kronecker.determinant, 'slog': t3f.kronecker.slog_determinant}[fn]
        k = int(rng.integers(len(cores)))
        c = cores[k]
        sel = (slice(None) if bs is None or rng.random() < .5 else int(rng.integers(bs)),) if bs is not None else ()
        # An exactly zero column: the determinant of the factor is exactly zero.
        c[sel + (0, slice(None), int(rng.integers(sizes[k])), 0) if not (sel and isinstance(sel[0], slice)) else
          (slice(None), 0, slice(None), 0, 0)] = 0.
    scales = [[np.ones(n) for n in sizes] for _ in range(bs or 1)]
    scaled = st != 'singular' and fn in ('inv', 'chol', 'slog') and rng.random() < .3
    if scaled:
        cores, scales = badly_scaled(rng, cores, bs, fn == 'chol')
    els = mats(cores, bs)
    ctx.note('%s of factors %s bs=%s %s%s' % (fn, sizes, bs, dtype, ' scaled' if scaled else ''))
    ctx.sig(st, fn, sizes, bs, dtype)
    if st in ('unknown batch', 'traced'):
        cls = t3f.TensorTrainBatch if bs is not None else t3f.TensorTrain
        spec = []
        for c in cores:
            sh = list(c.shape)
            if st == 'unknown batch':
                sh[0] = None
            spec.append(tf.TensorSpec(sh, gen.TFD[dtype]))

        def g(*cs):
            r = lib(cls(list(cs)))
            return r.tt_cores if fn in ('inv', 'chol') else r
        g = tf.function(g, input_signature=spec)
        r = ctx.call(fn, g, *[tf.constant(c) for c in cores])
        if fn in ('inv', 'chol'):
            r = ctx.call('build', cls, list(r))
    else:
        r = ctx.call(fn, lib, gen.wrap(rng, cores, bs).tt)
    if fn == 'det':
        want, tol = [], []
        for fs in els:
            s, l, e = slog(fs)
            v = s * np.exp(l)
            want.append(v)
            tol.append(abs(v) * np.expm1(min(64 * eps * e, 50.)) + ref.TINY[dtype] * 1e3)
            if s == 0:
                tol[-1] = 0.
            n = np.prod(sizes)
            ls = [n // f.shape[0] * np.linalg.slogdet(f)[1] for f in fs if np.linalg.slogdet(f)[0] != 0]
            # Documented: partial products may leave the range of the type.
            if sum(abs(x) for x in ls) > (650. if dtype == 'float64' else 80.):
                ctx.skip('determinant may overflow')
        ctx.close('determinant', r, want if bs is not None else want[0], tol if bs is not None else tol[0])
    elif fn == 'slog':
        ctx.true('two results', isinstance(r, (tuple, list)) and len(r) == 2, 'not a pair')
        w = [slog(fs) for fs in els]
        sg = np.array([v[0] for v in w])
        lg = np.array([v[1] for v in w])
        tl = np.array([64 * eps * (v[2] + abs(v[1])) + 1e-300 for v in w])
        gs, gl = np.array(r[0]), np.array(r[1])
        ctx.close('sign', gs, sg if bs is not None else sg[0], 0.)
        if bs is None:
            gl, gs = gl[None], gs[None]
        ctx.true('shape of logarithm', gl.shape == lg.shape, lambda: '%s instead of %s' % (gl.shape, lg.shape))
        for i in range(len(w)):
            if sg[i] == 0:
                ctx.true('logarithm of zero', gl[i] == -np.inf, lambda: 'log-determinant %r of a singular matrix' % gl[i])
            else:
                ctx.close('logarithm', gl[i], lg[i], tl[i])
    else:
        # Scales are taken out, the answer scales with them row by row.
        sym = fn == 'chol'
        base = [[f / s / (s[:, None] if sym else 1.) for f, s in zip(fs, ss)] for fs, ss in zip(els, scales)]
        full = [kron(fs) for fs in els]
        cd = [cond(fs) for fs in base]
        rs = [kron([s[:, None] for s in ss]) for ss in scales]
        if fn == 'inv':
            rs = [1. / s for s in rs]
            want = [np.linalg.inv(kron(fs)) for fs in base]
        else:
            want = [kron([np.linalg.cholesky((f + f.T) / 2) for f in fs]) for fs in base]
        tol = [64 * eps * (16 + sum(sizes)) * c * np.linalg.norm(wv, 2) * s for c, wv, s in zip(cd, want, rs)]
        want = [wv * s for wv, s in zip(want, rs)]
        ctx.true('reported structure', [g.as_list() for g in r.get_raw_shape()] == [sizes, sizes] and
                 all(v == 1 for v in ref.ranks(mon.cores_of(ctx, r), bs is not None)), lambda: str(r))
        if bs is None:
            mon.tt_close(ctx, fn, r, False, want[0], tol[0])
        else:
            mon.tt_close(ctx, fn, r, True, np.stack(want), np.stack(tol))
        if fn == 'chol':
            v = mon.value(ctx, r, bs is not None)
            v = v if bs is not None else v[None]
            ctx.true('lower triangular', all(np.all(np.triu(x, 1) == 0) for x in v), 'entries above the diagonal')
            for x, a, t, s in zip(v, full, tol, rs):
                ctx.close('factor times its transpose', x @ x.T, (a + a.T) / 2, 4 * t * np.linalg.norm(x / s, 2) * s.T)
