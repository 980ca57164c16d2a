"""C23: dtype of every result and error at the level of that dtype, scalars of all forms, casts, mixed types refused."""
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian
import t3f.approximate
from vt import gen, ref, mon, ops
from props import c12

STRATA = [('float64', 6), ('float32', 3), ('batch', 4), ('scalars', 4), ('coefficients', 4), ('cast', 3),
          ('initializers', 4), ('mixing', 3), ('defaults', 2), ('variables', 1)]
QUICK = 5000
THOROUGH = 30000


def case(ctx, rng, st):
    if st in ('float64', 'float32', 'batch'):
        dt = st if st != 'batch' else gen.pick(rng, ['float64', 'float32'], [2, 1])
        n = gen.batch_size(rng) if st == 'batch' else None
        return registry(ctx, rng, dt, n)
    {'scalars': scalars, 'coefficients': coefficients, 'cast': casts, 'initializers': inits, 'mixing': mixing,
     'defaults': defaults, 'variables': variables}[st](ctx, rng)


def dtype(ctx, r, want, what):
    k = mon.kind_of(r)
    if k:
        ctx.true('dtype of every core', all(mon.dtype_name(c) == want for c in r.tt_cores),
                 lambda: '%s: %s instead of %s' % (what, [c.dtype for c in r.tt_cores], want))
    ctx.true('dtype', mon.dtype_name(r) == want, lambda: '%s: %s instead of %s' % (what, r.dtype, want))


def registry(ctx, rng, dt, n):
    inst = ops.draw(rng, gen.pick(rng, ops.names(batch=n is not None)), n, dt)
    ctx.note(inst.describe())
    ctx.sig(dt, inst.sig())
    if inst.name == 'cast':
        return
    res = ctx.call(inst.name, inst.run)
    for r in ops.flat_out(res):
        dtype(ctx, r, dt, inst.name)
    ops.check(ctx, inst, res, 'value at the precision of ' + dt)


VALUES = [1. / 3, -.1, 1e-3, np.pi, -7., 2. ** .5, 123456789.123, 1e-9, 0.7]


def scalars(ctx, rng):
    dt = gen.pick(rng, ['float64', 'float32'], [3, 1])
    bs = gen.batch_size(rng) if rng.random() < .3 else None
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=bs, dtype=dt, dhi=5, maxel=200, rmax=4, style='normal')
    v = float(gen.pick(rng, VALUES))
    form = gen.pick(rng, ['python', 'left', 'np64', 'np32', 'tf', 'array', 'multiply', 'int', 'neg', 'half'])
    w = v
    if form == 'left':
        f = lambda: v * o.tt
    elif form == 'python':
        f = lambda: o.tt * v
    elif form == 'np64':
        f = lambda: o.tt * np.float64(v)
    elif form == 'np32':
        w = float(np.float32(v))
        f = lambda: o.tt * np.float32(v)
    elif form == 'tf':
        w = float(gen.NPD[dt](v))
        f = lambda: o.tt * tf.constant(v, gen.TFD[dt])
    elif form == 'array':
        f = lambda: t3f.multiply(o.tt, np.array(v))
    elif form == 'multiply':
        f = lambda: t3f.multiply(o.tt, v)
    elif form == 'int':
        w = v = int(rng.integers(-9, 10))
        f = gen.pick(rng, [lambda: o.tt * v, lambda: v * o.tt])
    elif form == 'neg':
        w = v = -1.
        f = lambda: -o.tt
    else:
        # Linear combinations, as users write them.
        w = v + 1.
        f = lambda: v * o.tt + o.tt
    ctx.note('%s by %r of %s' % (form, v, o.describe()))
    ctx.sig('scalars', form, v, o.raw, o.ranks, bs, dt)
    r = ctx.call('scaling', f)
    dtype(ctx, r, dt, 'scaling')
    # Magnitude is shared through powers 1/d of the number: a few roundings per core.
    s = max(abs(float(v)), abs(w)) if form != 'half' else abs(v) + 1
    tol = mon.tol_for(dt, ref.depth(o.cores) + 60. + 8 * abs(np.log(max(s, 1e-30))), o.absdense() * s)
    ctx.close('value at the precision of ' + dt, mon.value(ctx, r, bs is not None), o.dense() * w, tol)


def coefficients(ctx, rng):
    """Coefficients given as Python lists or arrays keep the precision of the objects."""
    dt = gen.pick(rng, ['float64', 'float32'], [3, 1])
    how = gen.pick(rng, ['add_n_projected', 'project_sum', 'reduce_sum', 'mul_along', 'l2', 'cores', 'epsilon', 'renorm'])
    n = gen.batch_size(rng)
    npd = gen.NPD[dt]

    def coef(k):
        c = rng.choice(VALUES[:6], size=k) * rng.standard_normal(k)
        form = gen.pick(rng, ['list', 'tuple', 'array', 'tensor'])
        cc = c.astype(npd)
        return {'list': [float(x) for x in c], 'tuple': tuple(float(x) for x in c), 'array': cc,
                'tensor': tf.constant(cc)}[form], (c.astype(npd).astype(float)), form
    if how in ('add_n_projected', 'project_sum'):
        w = ops.point(rng, gen.pick(rng, ['tensor', 'matrix']), dt)
        objs = [gen.obj(rng, raw=w.raw, dtype=dt, rmax=3, style='normal') for _ in range(n)]
        c, cv, form = coef(n)
        ctx.sig(how, form, w.raw, w.ranks, n, dt)
        ctx.note('%s %s coefficients %r at %s' % (how, form, c, w.describe()))
        tens = [ops.tensor_of(ops.Elem(o.cores)) for o in objs]
        want = ops.to_dense(w._proj(sum(a * t for a, t in zip(cv, tens))), w.raw)
        s = sum(abs(a) * ref.interfaces_scale(o.cores) for a, o in zip(cv, objs))
        if how == 'project_sum':
            cores = stack(objs)
            if cores is None:
                ctx.skip('ranks differ')
            r = ctx.call(how, lambda: t3f.project_sum(t3f.TensorTrainBatch(cores), w.tt, c))
        else:
            r = ctx.call(how, lambda: t3f.add_n_projected([t3f.project(o.tt, w.tt) for o in objs], c))
        tol = mon.tol_for(dt, 300. + ref.depth(w.cores), 12 * w._proj.cond * s)
        dtype(ctx, r, dt, how)
        ctx.close('value at the precision of ' + dt, mon.value(ctx, r, False), want, tol, how)
        return
    kind = gen.pick(rng, ['tensor', 'matrix'])
    if how in ('reduce_sum', 'mul_along'):
        o = gen.obj(rng, kind, bs=n, dtype=dt, dhi=4, maxel=150, rmax=2, style='normal')
        c, cv, form = coef(n)
        if how == 'reduce_sum' and form == 'list':
            c = np.array(c, npd)
        ctx.sig(how, form, o.raw, o.ranks, n, dt)
        ctx.note('%s %s coefficients %r of %s' % (how, form, c, o.describe()))
        sh = [n] + [1] * (o.dense().ndim - 1)
        x = o.dense() * cv.reshape(sh)
        a = o.absdense() * np.abs(cv).reshape(sh)
        if how == 'mul_along':
            r = ctx.call(how, t3f.multiply_along_batch_dim, o.tt, c)
            ctx.close('value at the precision of ' + dt, mon.value(ctx, r, True), x, mon.tol_for(dt, ref.depth(o.cores) + 8, a))
        else:
            r = ctx.call(how, t3f.approximate.reduce_sum_batch, o.tt, 10000, c)
            s = sum(abs(b) * ref.interfaces_scale(e) for b, e in zip(cv, o.elements()))
            ctx.close('value at the precision of ' + dt, mon.value(ctx, r, False), x.sum(0), mon.tol_for(dt, 200. + ref.depth(o.cores), 4 * s))
        dtype(ctx, r, dt, how)
        return
    o = gen.obj(rng, kind, dtype=dt, dhi=5, maxel=300, rmax=4, style='normal')
    v = abs(float(gen.pick(rng, VALUES[:6])))
    ctx.sig(how, o.raw, o.ranks, v, dt)
    ctx.note('%s %r of %s' % (how, v, o.describe()))
    vd = float(npd(v))
    x, ifs = o.dense(), ref.interfaces_scale(o.cores)
    dep = ref.depth(o.cores) + 20
    n2 = float(np.sum(x ** 2))
    if how == 'l2':
        r = ctx.call(how, lambda: t3f.l2_regularizer(v)(o.tt))
        want, s = vd * n2, 2 * vd * ifs ** 2
    elif how == 'cores':
        r = ctx.call(how, lambda: t3f.cores_regularizer(lambda c: tf.reduce_sum(c ** 2), v)(o.tt))
        want = vd * sum(float(np.sum(c.astype(float) ** 2)) for c in o.cores)
        s = want * max(c.size for c in o.cores)
    elif how == 'epsilon':
        df = bool(rng.random() < .5)
        # A tiny tensor: the value is dominated by epsilon.
        sc = 1e-3 / max(1e-30, np.sqrt(n2)) ** 1.
        if dt == 'float32':
            sc = 1.
        cs = [o.cores[0] * npd(sc)] + [c for c in o.cores[1:]]
        x2 = float(np.sum(ref.dense(cs) ** 2))
        i2 = ref.interfaces_scale(cs)
        r = ctx.call(how, lambda: t3f.frobenius_norm(t3f.TensorTrain([tf.constant(c) for c in cs]), epsilon=v * 1e-3,
                                                     differentiable=df))
        e = float(npd(v * 1e-3))
        want = np.sqrt(x2 + e)
        s = (e + 2 * i2 ** 2 + float(np.sum(ref.absdense(cs) ** 2))) / want
    else:
        r = ctx.call(how, lambda: t3f.renormalize_tt_cores(o.tt, epsilon=v * 1e-30))
        dtype(ctx, r, dt, how)
        ctx.close('value at the precision of ' + dt, mon.value(ctx, r, False), x, mon.tol_for(dt, dep + 100, o.absdense()))
        return
    dtype(ctx, r, dt, how)
    ctx.close('value at the precision of ' + dt, r, want, mon.tol_for(dt, dep, s), how)


def stack(objs):
    d = len(objs[0].cores)
    if any([c.shape for c in o.cores] != [c.shape for c in objs[0].cores] for o in objs):
        # Pad the ranks with zeros.
        rk = [max(o.ranks[k] for o in objs) for k in range(d + 1)]
        out = []
        for k in range(d):
            cs = []
            for o in objs:
                c = o.cores[k]
                pad = [(0, rk[k] - c.shape[0])] + [(0, 0)] * (c.ndim - 2) + [(0, rk[k + 1] - c.shape[-1])]
                cs.append(np.pad(c, pad))
            out.append(tf.constant(np.stack(cs)))
        return out
    return [tf.constant(np.stack([o.cores[k] for o in objs])) for k in range(d)]


def casts(ctx, rng):
    dt = gen.pick(rng, ['float64', 'float32'])
    bs = gen.batch_size(rng) if rng.random() < .4 else None
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=bs, dtype=dt, dhi=6, maxel=300, style='normal')
    to = gen.pick(rng, ['float64', 'float32', 'float16'], [3, 3, 1])
    arg = gen.pick(rng, [tf.as_dtype(to), to]) if rng.random() < .3 else tf.as_dtype(to)
    ctx.note('to %r of %s' % (arg, o.describe()))
    ctx.sig('cast', to, o.raw, o.ranks, bs, dt)
    npt = np.dtype(to)
    r = ctx.call('cast', t3f.cast, o.tt, arg)
    mon.is_kind(ctx, r, bs is not None)
    dtype(ctx, r, to, 'cast')
    got = mon.cores_of(ctx, r)
    for k, (c, g) in enumerate(zip(o.cores, got)):
        # TensorFlow rounds float64 to float16 in two steps, through float32.
        ok = (g == c.astype(npt)) | (g == c.astype('float32').astype(npt)) if to == 'float16' else g == c.astype(npt)
        ctx.true('cast rounds each entry', g.dtype == npt and np.all(ok), lambda: 'core %d' % k)
    ctx.true('same number of cores', len(got) == len(o.cores), '')
    back = ctx.call('cast back', t3f.cast, r, tf.as_dtype(dt))
    dtype(ctx, back, dt, 'cast')
    for c, g in zip(got, mon.cores_of(ctx, back)):
        ctx.true('cast back', np.array_equal(c.astype(dt), g), '')
    mon.metadata(ctx, r, 'cast', dynamic=False)


def inits(ctx, rng):
    """Initializers asked for float64 draw float64 numbers."""
    dt = gen.pick(rng, ['float64', 'float32'], [4, 1])
    tfd = gen.TFD[dt]
    sh = [int(v) for v in rng.integers(2, 6, size=int(rng.integers(2, 5)))]
    m = [sh, [int(v) for v in rng.integers(2, 5, size=len(sh))]]
    b = int(rng.integers(1, 4))
    s = float(gen.pick(rng, [1., .5, .3, 2.]))
    mu = float(gen.pick(rng, [0., .25, -1.3]))
    rnd = {'random_tensor': lambda: t3f.random_tensor(sh, 3, stddev=s, dtype=tfd),
           'random_tensor_batch': lambda: t3f.random_tensor_batch(sh, 3, batch_size=b, stddev=s, dtype=tfd),
           'tensor_with_random_cores': lambda: t3f.tensor_with_random_cores(sh, 3, stddev=s, mean=mu, dtype=tfd),
           'tensor_batch_with_random_cores': lambda: t3f.tensor_batch_with_random_cores(
               sh, 3, batch_size=b, stddev=s, mean=mu, dtype=tfd),
           'random_matrix': lambda: t3f.random_matrix(m, 3, stddev=s, dtype=tfd),
           'random_matrix_batch': lambda: t3f.random_matrix_batch(m, 3, batch_size=b, stddev=s, dtype=tfd),
           'matrix_with_random_cores': lambda: t3f.matrix_with_random_cores(m, 3, stddev=s, mean=mu, dtype=tfd),
           'matrix_batch_with_random_cores': lambda: t3f.matrix_batch_with_random_cores(
               m, 3, batch_size=b, stddev=s, mean=mu, dtype=tfd),
           'glorot_initializer': lambda: t3f.glorot_initializer(m, 3, dtype=tfd),
           'he_initializer': lambda: t3f.he_initializer(m, 3, dtype=tfd),
           'lecun_initializer': lambda: t3f.lecun_initializer(m, 3, dtype=tfd)}
    fixed = {'tensor_ones': lambda: t3f.tensor_ones(sh, dtype=tfd), 'tensor_zeros': lambda: t3f.tensor_zeros(sh, dtype=tfd),
             'matrix_ones': lambda: t3f.matrix_ones(m, dtype=tfd), 'matrix_zeros': lambda: t3f.matrix_zeros(m, dtype=tfd),
             'eye': lambda: t3f.eye(sh, dtype=tfd)}
    name = gen.pick(rng, sorted(rnd) + sorted(fixed))
    ctx.note('%s %s stddev %r mean %r' % (name, m, s, mu))
    ctx.sig('inits', name, sh, m, dt, s, mu)
    r = ctx.call(name, rnd.get(name) or fixed[name])
    dtype(ctx, r, dt, name)
    if name in rnd and dt == 'float64':
        kept = False
        for c in mon.cores_of(ctx, r):
            full = c.astype(np.float32).astype(np.float64) != c
            # Cores that carry an offset exactly have a few plain entries.
            if np.mean(full) >= .5:
                kept = True
        ctx.true('random numbers use the full mantissa', kept, 'float64 cores hold float32 numbers')
    like = gen.pick(rng, [t3f.ones_like, t3f.zeros_like])
    l = ctx.call('like', like, r if mon.kind_of(r) == 'tt' else r[0])
    dtype(ctx, l, dt, 'ones_like or zeros_like')


def mixing(ctx, rng):
    """Objects of different dtypes are refused."""
    a32 = rng.random() < .5
    da, db = ('float32', 'float64') if a32 else ('float64', 'float32')
    kind = gen.pick(rng, ['tensor', 'matrix'])
    ba = gen.batch_size(rng) if rng.random() < .3 else None
    bb = ba if rng.random() < .5 else None
    d = int(rng.integers(2, 5))
    sq = [gen.sizes(rng, d, 12)] * 2
    raw = sq if kind == 'matrix' else [gen.sizes(rng, d, 60)]
    a = gen.obj(rng, raw=raw, dtype=da, bs=ba, rmax=3, style='normal')
    b = gen.obj(rng, raw=raw, dtype=db, bs=bb, rmax=3, style='normal')
    fs = [('add', lambda x: a.tt + x.tt), ('sub', lambda x: a.tt - x.tt), ('mul', lambda x: a.tt * x.tt),
          ('inner', lambda x: t3f.flat_inner(a.tt, x.tt))]
    if kind == 'matrix':
        fs.append(('matmul', lambda x: t3f.matmul(a.tt, x.tt)))
        if ba is None:
            fs.append(('dense', lambda x: t3f.matmul(a.tt, tf.ones([int(np.prod(sq[0])), 2], gen.TFD[x.dtype]))))
        col = [sq[0], [1] * d]
        u = gen.obj(rng, raw=col, dtype=da, rmax=2, style='normal')
        if bb is None:
            fs.append(('bilinear', lambda x: t3f.bilinear_form(x.tt, u.tt, u.tt)))
    if ba is not None and bb is not None:
        fs += [('pairwise', lambda x: t3f.pairwise_flat_inner(a.tt, x.tt))]
    if ba is None and bb is None:
        fs += [('project', lambda x: t3f.project(x.tt, a.tt)), ('add_n', lambda x: t3f.approximate.add_n([a.tt, x.tt], 3)),
               ('assign', lambda x: t3f.assign(t3f.get_variable('m', initializer=a.tt, dtype=gen.TFD[da]), x.tt))]
    if kind == 'tensor':
        fs.append(('constructor', lambda x: t3f.TensorTrain(
            [tf.constant(a.cores[0] if ba is None else a.cores[0][0])] + [tf.constant(c.astype(x.dtype)) if ba is None else
             tf.constant(c[0].astype(x.dtype)) for c in a.cores[1:]])))
    name, f = fs[int(rng.integers(len(fs)))]
    ctx.note('%s of %s and %s' % (name, a.describe(), b.describe()))
    ctx.sig('mixing', name, da, db, raw, ba, bb)
    ctx.raises('different dtypes are refused', f, b)
    # The same call with one dtype works.
    good = gen.obj(rng, raw=raw, dtype=da, bs=bb, rmax=3, style='normal')
    if name == 'assign':
        good = gen.obj(rng, raw=raw, dtype=da, bs=bb, rks=a.ranks, style='normal')
    r = ctx.call(name, f, good)
    dtype(ctx, r, da, name)


def defaults(ctx, rng):
    """Default arguments are of the right precision."""
    how = gen.pick(rng, ['norm', 'norm batch', 'renormalize zero'])
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dtype='float64', dhi=4, maxel=200, rmax=3, style='normal',
                bs=gen.batch_size(rng) if how == 'norm batch' else None)
    off = 1 if o.batch else 0
    n2 = np.sum((o.dense() ** 2).reshape(o.bs or 1, -1), 1)
    sc = 1e-3 / np.sqrt(max(1e-12, float(np.max(n2))))
    cs = [o.cores[0] * sc] + list(o.cores[1:])
    df = bool(rng.random() < .5)
    ctx.note('%s differentiable=%s of %s' % (how, df, o.describe()))
    ctx.sig('defaults', how, df, o.raw, o.ranks, o.bs)
    tt = (t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)([tf.constant(c) for c in cs])
    els = [cs] if not o.batch else [ref.element(cs, i) for i in range(o.bs)]
    x2 = np.array([np.sum(ref.dense(e) ** 2) for e in els])
    i2 = np.array([2 * ref.interfaces_scale(e) ** 2 + np.sum(ref.absdense(e) ** 2) for e in els])
    if how == 'renormalize zero':
        r = ctx.call(how, t3f.renormalize_tt_cores, tt)
        dtype(ctx, r, 'float64', how)
        return
    r = ctx.call(how, lambda: t3f.frobenius_norm(tt, differentiable=df))
    dtype(ctx, r, 'float64', how)
    want = np.sqrt(x2 + 1e-5)
    tol = mon.tol_for('float64', ref.depth(cs) + 20, (1e-5 + i2) / want)
    ctx.close('value at the precision of float64', r, want if off else want[0], tol if off else tol[0], how)


def variables(ctx, rng):
    dt = gen.pick(rng, ['float64', 'float32'])
    bs = gen.batch_size(rng) if rng.random() < .3 else None
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=bs, dtype=dt, dhi=5, maxel=200, style='normal', container='tf')
    p = gen.obj(rng, raw=o.raw, rks=o.ranks, bs=bs, dtype=dt, style='normal', container='tf')
    ctx.note('variable of ' + o.describe())
    ctx.sig('variables', o.raw, o.ranks, bs, dt)
    v = ctx.call('get_variable', t3f.get_variable, 'v', initializer=o.tt)
    dtype(ctx, v, dt, 'get_variable')
    for c, g in zip(o.cores, mon.cores_of(ctx, v)):
        ctx.true('variable holds every bit', np.array_equal(c, g) and g.dtype == c.dtype, 'get_variable')
    r = ctx.call('assign', t3f.assign, v, p.tt)
    dtype(ctx, r, dt, 'assign')
    for c, g in zip(p.cores, mon.cores_of(ctx, v)):
        ctx.true('variable holds every bit', np.array_equal(c, g) and g.dtype == c.dtype, 'assign')
