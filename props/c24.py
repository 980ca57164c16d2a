"""C24: returned penalties against scale times the dense or core-wise penalty, gradients of the core-wise one, scales refused."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('l2', 4), ('cores', 5), ('gradient', 3), ('zero scale', 1), ('bad scale', 2), ('variables', 2), ('reuse', 2)]
QUICK = 4000
THOROUGH = 24000


def scale_of(rng, dt):
    """(argument, value used by the library at dtype dt, name)."""
    v = float(gen.pick(rng, [.1, 1. / 3, 1., 2., 10., 1e-4, float(rng.uniform(0, 10))]))
    form = gen.pick(rng, ['float', 'np64', 'np32', 'tensor', 'array'])
    npd = gen.NPD[dt]
    if form == 'np32':
        v = float(np.float32(v))
    arg = {'float': v, 'np64': np.float64(v), 'np32': np.float32(v), 'tensor': tf.constant(v, gen.TFD[dt]),
           'array': np.array(v, npd)}[form]
    return arg, float(npd(v)), form


def core_penalty(rng):
    """(name, function of a core, numpy function, numpy derivative, error scale)."""
    p = float(rng.integers(2, 9)) / 4
    return gen.pick(rng, [
        ('squares', lambda c: tf.reduce_sum(c ** 2), lambda c: np.sum(c ** 2), lambda c: 2 * c),
        ('l2_loss', lambda c: tf.nn.l2_loss(c), lambda c: np.sum(c ** 2) / 2, lambda c: c),
        ('absolute', lambda c: tf.reduce_sum(tf.abs(c)), lambda c: np.sum(np.abs(c)), lambda c: np.sign(c)),
        ('sum', lambda c: tf.reduce_sum(c), lambda c: np.sum(c), lambda c: np.ones_like(c)),
        ('quartic', lambda c: tf.reduce_sum(c ** 4), lambda c: np.sum(c ** 4), lambda c: 4 * c ** 3),
        ('offset', lambda c: tf.reduce_sum((c - tf.cast(p, c.dtype)) ** 2), lambda c: np.sum((c - p) ** 2), lambda c: 2 * (c - p)),
        ('mean', lambda c: tf.reduce_mean(c ** 2), lambda c: np.mean(c ** 2), lambda c: 2 * c / c.size),
        ('constant', lambda c: tf.ones([], c.dtype), lambda c: 1., lambda c: np.zeros_like(c))])


def case(ctx, rng, st):
    dt = gen.pick(rng, ['float64', 'float32'], [3, 2])
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dtype=dt, dhi=6, maxel=400, rmax=4,
                container=None if st != 'gradient' else 'tf')
    scope = gen.pick(rng, [None, 'penalty']) if rng.random() < .3 else None
    kw = {} if scope is None else {'scope': scope}
    arg, v, form = scale_of(rng, dt)
    if st == 'bad scale':
        return bad(ctx, rng, o)
    if st == 'zero scale':
        z = gen.pick(rng, [0., np.float64(0.), np.float32(0.), -0.])
        ctx.note('%r on %s' % (z, o.describe()))
        ctx.sig(st, repr(z), o.raw)
        calls = []
        for r in (ctx.call('l2', t3f.l2_regularizer, z, **kw),
                  ctx.call('cores', t3f.cores_regularizer, lambda c: calls.append(1) or tf.reduce_sum(c), z, **kw)):
            ctx.true('a zero scale disables the regularizer', ctx.call('regularizer', r, o.tt) is None, 'got a penalty')
        return
    name, pf, pn, pd = core_penalty(rng)
    ctx.note('%s scale %s %r, %s of %s' % (st, form, v, name, o.describe()))
    ctx.sig(st, form, v, name, o.raw, o.ranks, dt, scope)
    if st == 'l2':
        r = ctx.call('l2_regularizer', t3f.l2_regularizer, arg, **kw)
        check_l2(ctx, r, o, v)
    elif st == 'cores':
        r = ctx.call('cores_regularizer', t3f.cores_regularizer, pf, arg, **kw)
        check_cores(ctx, r, o, v, pn)
    elif st == 'gradient':
        r = ctx.call('cores_regularizer', t3f.cores_regularizer, pf, arg, **kw)
        cs = [tf.Variable(c) for c in o.cores] if rng.random() < .5 else [tf.constant(c) for c in o.cores]
        tt = t3f.TensorTrain(cs, convert_to_tensors=False)
        with tf.GradientTape() as tape:
            tape.watch(cs)
            val = ctx.call('penalty', r, tt)
        g = tape.gradient(val, cs)
        for k, (a, c) in enumerate(zip(g, o.cores)):
            c = c.astype(float)
            want = v * pd(c)
            a = np.zeros_like(c) if a is None else np.asarray(a)
            ctx.close('gradient of the penalty', a, want, 16 * ref.EPS[dt] * (np.abs(want) + v * np.abs(pd(np.abs(c) + 2))), 'core %d' % k)
    elif st == 'variables':
        var = ctx.call('get_variable', t3f.get_variable, 'v', initializer=o.tt)
        p = gen.obj(rng, raw=o.raw, rks=o.ranks, dtype=dt, style='normal')
        r = ctx.call('l2_regularizer', t3f.l2_regularizer, arg, **kw)
        q = ctx.call('cores_regularizer', t3f.cores_regularizer, pf, arg, **kw)
        check_l2(ctx, r, o, v, var)
        check_cores(ctx, q, o, v, pn, var)
        ctx.call('assign', t3f.assign, var, p.tt)
        # The penalty follows the variable.
        check_l2(ctx, r, p, v, var)
        check_cores(ctx, q, p, v, pn, var)
    else:
        # One regularizer serves many objects of different shapes, also when traced; several do not interfere.
        arg2, v2, _ = scale_of(rng, dt)
        r, r2 = t3f.l2_regularizer(arg, **kw), t3f.l2_regularizer(arg2)
        q, q2 = t3f.cores_regularizer(pf, arg, **kw), t3f.cores_regularizer(pf, arg2)
        for _ in range(2):
            p = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dtype=dt, dhi=4, maxel=200, rmax=3)
            for x in (o, p):
                check_l2(ctx, r, x, v)
                check_l2(ctx, r2, x, v2)
                check_cores(ctx, q, x, v, pn)
                check_cores(ctx, q2, x, v2, pn)
        if rng.random() < .15:
            g = tf.function(lambda *c: [r(t3f.TensorTrain(list(c))), q(t3f.TensorTrain(list(c)))])
            a, b = ctx.call('traced', g, *[tf.constant(c) for c in o.cores])
            check_l2(ctx, lambda _: a, o, v)
            check_cores(ctx, lambda _: b, o, v, pn)


def check_l2(ctx, r, o, v, tt=None):
    got = ctx.call('l2 penalty', r, o.tt if tt is None else tt)
    ctx.true('dtype of the penalty', mon.dtype_name(got) == o.dtype, lambda: str(got.dtype))
    s = np.sum(o.absdense() ** 2) + 2 * ref.interfaces_scale(o.cores) ** 2
    ctx.close('l2 penalty', got, v * np.sum(o.dense() ** 2), mon.tol_for(o.dtype, ref.depth(o.cores) + 30, v * s))


def check_cores(ctx, r, o, v, pn, tt=None):
    got = ctx.call('core-wise penalty', r, o.tt if tt is None else tt)
    ctx.true('dtype of the penalty', mon.dtype_name(got) == o.dtype, lambda: str(got.dtype))
    cs = [c.astype(float) for c in o.cores]
    want = v * sum(pn(c) for c in cs)
    s = v * sum(np.abs(pn(np.abs(c))) + np.abs(pn(-np.abs(c))) + c.size for c in cs)
    ctx.close('core-wise penalty', got, want, mon.tol_for(o.dtype, 30. + max(c.size for c in cs) ** .5, s))


def bad(ctx, rng, o):
    z = gen.pick(rng, [-1., -.001, np.float64(-3.), np.float32(-.5), 1, 0, -2, np.int64(3), np.int32(1), True])
    ctx.note('scale %r (%s)' % (z, type(z).__name__))
    ctx.sig('bad', repr(z), type(z).__name__)
    ctx.raises('bad scale refused', lambda: t3f.l2_regularizer(z)(o.tt))
    ctx.raises('bad scale refused', lambda: t3f.cores_regularizer(lambda c: tf.reduce_sum(c), z)(o.tt))
    e = ctx.raises('bad scale refused', t3f.l2_regularizer, z)
    ctx.true('refused with ValueError', isinstance(e, ValueError), type(e).__name__)
    e = ctx.raises('bad scale refused', t3f.cores_regularizer, lambda c: tf.reduce_sum(c), z)
    ctx.true('refused with ValueError', isinstance(e, ValueError), type(e).__name__)
