"""C02: element-wise algebra."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('add', 3), ('sub', 3), ('multiply', 3), ('scale', 3), 'neg', 'same object', 'add/1core',
          'multiply/1core', 'long', ('expression', 2)]
QUICK = 7000
THOROUGH = 50000

# (batch size of a, batch size of b): None is a single TT.
PAIRS = [(None, None), ('n', 'n'), ('n', None), (None, 'n'), ('n', 1), (1, 'n'), (1, 1), (1, None),
         (None, 1)]


def bsizes(rng):
    a, b = gen.pick(rng, PAIRS, [4, 2, 2, 2, 2, 2, 1, 1, 1])
    n = gen.count(rng, int(gen.pick(rng, [2, 3, 4, 6, 9])), hi=40)
    return (n if a == 'n' else a), (n if b == 'n' else b)


def out_bs(a, b):
    if a is None and b is None:
        return None
    return max(a or 1, b or 1)


def pair(rng, ctx, d=None, maxel=900):
    kind = gen.pick(rng, ['tensor', 'matrix'])
    ba, bb = bsizes(rng)
    a = gen.obj(rng, kind, d=d, bs=ba, maxel=maxel)
    b = gen.partner(rng, a, bs=bb)
    ctx.note('a: ' + a.describe())
    ctx.note('b: ' + b.describe())
    return a, b, out_bs(ba, bb)


def bd(o, x, bs):
    """Dense value broadcast to the output batch."""
    if bs is None:
        return x
    if not o.batch:
        x = x[None]
    return np.broadcast_to(x, (bs,) + x.shape[1:])


def scalar(rng, dtype):
    """A number in one of the accepted forms: (library value, float value, label)."""
    v = gen.pick(rng, [2., -3., 0., -1., 1., .5, -0.1, 1e-3, 1e3, 3.7, -2.25, 1. / 3,
                       float(rng.standard_normal()), 1e6, -1e-6])
    form = gen.pick(rng, ['int', 'float', 'npf64', 'npf32', 'tfc', 'tfvar', 'npint', '0d', 'tf32',
                          'tfint'])
    if form in ('int', 'npint', 'tfint'):
        v = float(int(v)) if abs(v) < 1e7 else v
        x = int(v)
        if form == 'npint':
            x = np.int64(x)
        if form == 'tfint':
            x = tf.constant(x, tf.int32)
    elif form == 'float':
        x = float(v)
        if dtype == 'float32':
            v = float(np.float32(v))
    elif form == 'npf64':
        x = np.float64(v)
        if dtype == 'float32':
            v = float(np.float32(v))
    elif form == 'npf32':
        x = np.float32(v)
        v = float(x)
    elif form == 'tfc':
        x = tf.constant(v, gen.TFD[dtype])
        v = float(x.numpy())
    elif form == 'tf32':
        x = tf.constant(v, tf.float32)
        v = float(x.numpy())
    elif form == '0d':
        x = np.array(v)
        if dtype == 'float32':
            v = float(np.float32(v))
    else:
        x = tf.Variable(v, dtype=gen.TFD[dtype])
        v = float(x.numpy())
    return x, v, form


def case(ctx, rng, st):
    if st in ('neg',):
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, bs=gen.pick(rng, [None, 1, 3]))
        ctx.note(a.describe())
        ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype)
        r = ctx.call('-a', lambda: -a.tt)
        mon.tt_close(ctx, 'negation', r, a.batch, -a.dense(),
                     mon.tol_for(a.dtype, ref.depth(a.cores), a.absdense()))
        return
    if st == 'scale':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, bs=gen.pick(rng, [None, None, 1, 3, 4]), dhi=10)
        x, v, form = scalar(rng, a.dtype)
        how = gen.pick(rng, ['a*x', 'x*a', 'multiply'])
        if how == 'x*a' and form not in ('int', 'float'):
            how = 'a*x'
        ctx.note('%s x=%r (%s) %s' % (a.describe(), v, form, how))
        ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype, v, form, how)
        if how == 'a*x':
            r = ctx.call('a * %s' % form, lambda: a.tt * x)
        elif how == 'x*a':
            r = ctx.call('%s * a' % form, lambda: x * a.tt)
        else:
            r = ctx.call('multiply(a, %s)' % form, t3f.multiply, a.tt, x)
        # The number is split as its d-th root: d extra roundings of a power.
        dep = ref.depth(a.cores) + 40 * len(a.cores)
        mon.tt_close(ctx, 'scaling', r, a.batch, a.dense() * v,
                     mon.tol_for(a.dtype, dep, a.absdense() * abs(v)))
        return
    if st == 'same object':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        a = gen.obj(rng, kind, bs=gen.pick(rng, [None, 1, 3]), rmax=4)
        ctx.note(a.describe())
        ctx.sig(st, a.raw, a.ranks, a.bs, a.dtype)
        dep = ref.depth(a.cores, a.cores)
        x, ax = a.dense(), a.absdense()
        mon.tt_close(ctx, 'a+a', ctx.call('a+a', lambda: a.tt + a.tt), a.batch, 2 * x,
                     mon.tol_for(a.dtype, dep, 2 * ax))
        mon.tt_close(ctx, 'a-a', ctx.call('a-a', lambda: a.tt - a.tt), a.batch, 0 * x,
                     mon.tol_for(a.dtype, dep, 2 * ax))
        mon.tt_close(ctx, 'a*a', ctx.call('a*a', lambda: a.tt * a.tt), a.batch, x * x,
                     mon.tol_for(a.dtype, dep, ax * ax))
        return
    d = None
    maxel = 900
    if st.endswith('1core'):
        d = 1
    if st == 'long':
        d = int(rng.integers(7, 11))
        maxel = 1500
    a, b, bs = pair(rng, ctx, d, maxel)
    if st == 'long' and a.matrix:
        pass
    op = st.split('/')[0]
    if st == 'long':
        op = gen.pick(rng, ['add', 'sub', 'multiply'])
    if op == 'multiply' or st == 'expression':
        # Ranks multiply: keep them moderate.
        if max(a.ranks) * max(b.ranks) > 60:
            b = gen.obj(rng, 'x', bs=b.bs, dtype=a.dtype, raw=a.raw, rstyle='small')
    ctx.sig(st, a.raw, a.ranks, b.ranks, a.bs, b.bs, a.dtype)
    x, ax = bd(a, a.dense(), bs), bd(a, a.absdense(), bs)
    y, ay = bd(b, b.dense(), bs), bd(b, b.absdense(), bs)
    batch = bs is not None
    named = rng.random() < .5
    if op == 'add':
        f = (lambda: t3f.add(a.tt, b.tt)) if named else (lambda: a.tt + b.tt)
        mon.tt_close(ctx, 'sum', ctx.call('add', f), batch, x + y,
                     mon.tol_for(a.dtype, ref.depth(a.cores) + ref.depth(b.cores), ax + ay))
    elif op == 'sub':
        mon.tt_close(ctx, 'difference', ctx.call('a-b', lambda: a.tt - b.tt), batch, x - y,
                     mon.tol_for(a.dtype, ref.depth(a.cores) + ref.depth(b.cores), ax + ay))
    elif op == 'multiply':
        f = (lambda: t3f.multiply(a.tt, b.tt)) if named else (lambda: a.tt * b.tt)
        mon.tt_close(ctx, 'product', ctx.call('multiply', f), batch, x * y,
                     mon.tol_for(a.dtype, ref.depth(a.cores, b.cores), ax * ay))
    else:
        p = ctx.call('expression', lambda: a.tt * b.tt - (2 * a.tt + b.tt * (-.5)))
        mon.tt_close(ctx, 'expression', p, batch, x * y - (2 * x - .5 * y),
                     mon.tol_for(a.dtype, 2 * ref.depth(a.cores, b.cores) + 60 * len(a.cores),
                                 ax * ay + 2 * ax + ay), full=max(a.ranks) < 5)
