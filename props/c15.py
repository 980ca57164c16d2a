"""C15: initializers: shape, ranks, exact values, moments, independence of draws."""
import math
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('exact', 6), ('like', 4), ('shape', 8), ('entry moments', 4), ('core moments', 4), ('nn moments', 3),
          ('seed', 3), ('small moments', 1), ('mean', .5)]
QUICK = 2600
THOROUGH = 20000

CORE = {'tensor_with_random_cores': (False, False), 'matrix_with_random_cores': (True, False),
        'tensor_batch_with_random_cores': (False, True), 'matrix_batch_with_random_cores': (True, True)}
ENTRY = {'random_tensor': (False, False), 'random_matrix': (True, False),
         'random_tensor_batch': (False, True), 'random_matrix_batch': (True, True)}
NN = {'glorot_initializer': lambda i, o: 2. / (i + o), 'he_initializer': lambda i, o: 2. / i,
      'lecun_initializer': lambda i, o: 1. / i}
ALL = dict(list(CORE.items()) + list(ENTRY.items()) + [(k, (True, False)) for k in NN])
DT = [('float32', tf.float32), ('float64', tf.float64)]


def form1(rng, v):
    return [list(v), tuple(v), np.array(v), np.array(v, np.int32)][int(rng.integers(4))]


def form2(rng, n, m):
    if rng.random() < .5:
        if all(v == 1 for v in n):
            return [None, form1(rng, m)]
        if all(v == 1 for v in m):
            return (form1(rng, n), None) if rng.random() < .5 else [form1(rng, n), None]
    k = int(rng.integers(4))
    return [[list(n), list(m)], (tuple(n), tuple(m)), np.array([n, m]), [np.array(n), tuple(m)]][k]


def shape_of(rng, matrix, d, maxel=1200):
    same = rng.random() < .25
    if not matrix:
        n = gen.sizes(rng, d, maxel)
        if same:
            # Cores of equal sizes.
            n = [max(1, min(n) if rng.random() < .5 else 2)] * d
        return [n], form1(rng, n)
    n, m = gen.matrix_sizes(rng, d, maxel)
    if same:
        n, m = [int(rng.integers(1, 4))] * d, [int(rng.integers(1, 4))] * d
    return [n, m], form2(rng, n, m)


def rank_of(rng, d, hi=6):
    if rng.random() < .5:
        r = int(rng.integers(1, hi + 1))
        full = [1] + [r] * (d - 1) + [1]
        return full, (r if rng.random() < .6 else gen.pick(rng, [np.int64(r), np.int32(r), np.array(r)]))
    r = [1] + [int(v) for v in rng.integers(1, hi + 1, size=d - 1)] + [1]
    return r, form1(rng, r)


def meta(ctx, tt, raw, ranks, bs, dtype, what):
    """Requested shape, ranks, batch size and dtype, in cores and in reports."""
    mon.is_kind(ctx, tt, bs is not None, what)
    cores = mon.cores_of(ctx, tt, what)
    b = bs is not None
    want = [tuple(([bs] if b else []) + [ranks[k]] + [g[k] for g in raw] + [ranks[k + 1]]) for k in range(len(raw[0]))]
    ctx.true('shapes of cores', [c.shape for c in cores] == want,
             lambda: '%s: cores %s instead of %s' % (what, [c.shape for c in cores], want))
    ctx.true('dtype', all(c.dtype.name == dtype for c in cores) and tt.dtype.name == dtype,
             lambda: '%s: dtype %s' % (what, tt.dtype))
    if len(raw) == 1:
        sh = list(raw[0])
    else:
        sh = [math.prod(raw[0]), math.prod(raw[1])]
    if b:
        sh = [bs] + sh
        ctx.true('batch size', tt.batch_size == bs, lambda: '%s: batch size %s' % (what, tt.batch_size))
    ctx.true('reported shape', tt.get_shape().as_list() == sh, lambda: '%s: shape %s' % (what, tt.get_shape()))
    ctx.true('reported raw shape', [g.as_list() for g in tt.get_raw_shape()] == [list(g) for g in raw],
             lambda: '%s: raw shape %s' % (what, tt.get_raw_shape()))
    ctx.true('reported ranks', tt.get_tt_ranks().as_list() == list(ranks),
             lambda: '%s: ranks %s' % (what, tt.get_tt_ranks()))
    ctx.true('kind', tt.is_tt_matrix() == (len(raw) == 2), '%s: kind' % what)
    return cores


def norm2(cores):
    g = np.ones((1, 1))
    for c in cores:
        c = np.asarray(c, np.float64).reshape(c.shape[0], -1, c.shape[-1])
        g = np.einsum('ab,aic,bid->cd', g, c, c, optimize=True)
    return float(g[0, 0])


def inner(a, b):
    g = np.ones((1, 1))
    for x, y in zip(a, b):
        x = np.asarray(x, np.float64).reshape(x.shape[0], -1, x.shape[-1])
        y = np.asarray(y, np.float64).reshape(y.shape[0], -1, y.shape[-1])
        g = np.einsum('ab,aic,bid->cd', g, x, y, optimize=True)
    return float(g[0, 0])


def total(cores):
    g = np.ones((1, 1))
    for c in cores:
        g = g @ np.asarray(c, np.float64).reshape(c.shape[0], -1, c.shape[-1]).sum(1)
    return float(g[0, 0])


def elements(tt, cores):
    if isinstance(tt, t3f.TensorTrainBatch):
        return [[c[i] for c in cores] for i in range(cores[0].shape[0])]
    return [cores]


def big_shape(rng, matrix, d):
    """Modes of 2000..6000 entries per core."""
    if not matrix:
        n = [int(v) for v in rng.integers(2000, 6000, size=d)]
        return [n], form1(rng, n)
    n = [int(v) for v in rng.integers(30, 120, size=d)]
    m = [int(rng.integers(2000, 6000)) // v for v in n]
    if rng.random() < .3:
        n, m = m, n
    if rng.random() < .15:
        n, m = [int(v) for v in rng.integers(2000, 6000, size=d)], [1] * d
    elif rng.random() < .15:
        n, m = [1] * d, [int(v) for v in rng.integers(2000, 6000, size=d)]
    return [n, m], form2(rng, n, m)


def entry_stats(ctx, rng, draw, sizes, var, what, extra=1.):
    """Second moment and mean of entries over independent draws (elements).

    The deviation of the mean square of a product of independent normals is at
    most prod(1 + 2/n) - 1; bounds are at 8 deviations and more.
    """
    sd = np.sqrt(var)
    rel2 = np.prod([1 + 2. / n for n in sizes]) - 1
    els = draw
    q = [norm2(e) / np.prod([float(n) for n in sizes]) / var for e in els]
    dev = 8 * np.sqrt(rel2 / len(q)) * extra + 1e-4
    ctx.true('entry variance', abs(np.mean(q) - 1) <= dev,
             lambda: '%s: mean square of entries is %.4f of the requested variance (allowed 1 +- %.3f, %d draws)' % (
                 what, np.mean(q), dev, len(q)))
    lim = np.prod([12. / np.sqrt(n) for n in sizes])
    for e in els:
        m = total(e) / np.prod([float(n) for n in sizes]) / sd
        ctx.true('entry mean', abs(m) <= lim, lambda: '%s: mean of entries %.4g deviations, at most %.3g' % (what, m, lim))
    for i in range(1, len(els)):
        c = inner(els[i - 1], els[i]) / np.sqrt(norm2(els[i - 1]) * norm2(els[i]))
        ctx.true('draws are independent', abs(c) <= 3 * lim,
                 lambda: '%s: correlation %.3g of two draws, at most %.3g' % (what, c, 3 * lim))


def few_equal(a, b):
    """Different draws: a number of float32 meets itself by chance about once in 1e7 draws."""
    return a.size < 3 or np.sum(a == b) <= max(1, .01 * a.size)


def cores_independent(ctx, cores, what):
    for i in range(len(cores)):
        for j in range(i + 1, len(cores)):
            a, b = np.ravel(cores[i]).astype(float), np.ravel(cores[j]).astype(float)
            k = min(a.size, b.size)
            a, b = a[:k] - a[:k].mean(), b[:k] - b[:k].mean()
            if k < 6:
                continue
            if k < 1000:
                # Too few for correlations, enough to tell the same numbers up to scale and shift.
                d = np.sqrt(np.sum(a * a) * np.sum(b * b))
                ctx.true('cores are different draws', not d > 0 or abs(np.sum(a * b)) <= (1 - 1e-6) * d,
                         lambda: '%s: cores %d and %d hold the same numbers' % (what, i, j))
                continue
            c = abs(np.sum(a * b)) / np.sqrt(np.sum(a * a) * np.sum(b * b))
            ctx.true('cores are independent', c <= 8 / np.sqrt(k), lambda: '%s: correlation %.3g of cores %d, %d' % (
                what, c, i, j))


def call(ctx, rng, name, form, rform, dt, bs=None, **kw):
    kw = dict(kw)
    if bs is not None:
        kw['batch_size'] = bs if rng.random() < .7 else np.int64(bs)
    if rng.random() < .3:
        kw['name'] = 'some_name'
    f = getattr(t3f, name)
    if dt == tf.float32 and rng.random() < .4:
        pass
    else:
        kw['dtype'] = dt
    if rform is None:
        return lambda: ctx.call(name, f, form, **kw)
    if rng.random() < .5:
        return lambda: ctx.call(name, f, form, rform, **kw)
    return lambda: ctx.call(name, f, form, tt_rank=rform, **kw)


def case(ctx, rng, st):
    dname, dt = DT[int(rng.integers(2))]
    if st == 'exact':
        name = gen.pick(rng, ['tensor_ones', 'tensor_zeros', 'matrix_ones', 'matrix_zeros', 'eye', 'eye'])
        d = gen.ndims(rng, 1, 8 if name.startswith('tensor') else 6)
        matrix = not name.startswith('tensor')
        if name == 'eye':
            n = gen.sizes(rng, d, 35)
            raw, form = [n, n], form1(rng, n)
        else:
            raw, form = shape_of(rng, matrix, d)
        kw = {} if (dname == 'float32' and rng.random() < .5) else {'dtype': dt}
        ctx.note('%s(%r) %s' % (name, form, dname))
        ctx.sig(st, name, raw, type(form).__name__, dname)
        tt = ctx.call(name, getattr(t3f, name), form, **kw)
        cores = meta(ctx, tt, raw, [1] * (d + 1), None, dname, name)
        shp = raw[0] if not matrix else [math.prod(raw[0]), math.prod(raw[1])]
        want = np.ones(shp) if 'ones' in name else np.zeros(shp) if 'zeros' in name else np.eye(shp[0])
        ctx.close('exact values', ref.dense(cores), want, 0.)
        ctx.close('exact values (via full)', ctx.call('full', t3f.full, tt), want, 0.)
    elif st == 'like':
        kind = gen.pick(rng, ['tensor', 'matrix'])
        bs = gen.batch_size(rng) if rng.random() < .4 else None
        o = gen.obj(rng, kind, bs=bs, dtype=dname)
        if rng.random() < .2:
            # Values must not matter.
            o = gen.wrap(rng, [np.full_like(c, np.nan) for c in o.cores], bs)
        ones = rng.random() < .5
        traced = rng.random() < .2
        f = t3f.ones_like if ones else t3f.zeros_like
        ctx.note('%s of %s traced=%s' % (f.__name__, o.describe(), traced))
        ctx.sig(st, ones, o.raw, bs, dname, traced)
        d = len(o.raw[0])
        if traced:
            cls = t3f.TensorTrainBatch if bs is not None else t3f.TensorTrain
            g = tf.function(lambda *c: f(cls(list(c))).tt_cores)
            cs = ctx.call('traced like', g, *[tf.constant(c) for c in o.cores])
            tt = ctx.call('build', t3f.TensorTrain, list(cs))
        else:
            tt = ctx.call('like', f, o.tt)
        cores = meta(ctx, tt, o.raw, [1] * (d + 1), None, dname, f.__name__)
        dn = ref.dense(cores)
        ctx.close('exact values', dn, np.ones_like(dn) if ones else np.zeros_like(dn), 0.)
    elif st == 'shape':
        name = gen.pick(rng, sorted(ALL))
        matrix, batch = ALL[name]
        d = gen.ndims(rng, 1, 8 if not matrix else 6)
        raw, form = shape_of(rng, matrix, d, 4000)
        ranks, rform = rank_of(rng, d)
        if rng.random() < .1:
            ranks, rform = [1] + [2] * (d - 1) + [1], None
        bs = None
        if batch:
            bs = int(rng.integers(1, 6))
        kw = {}
        if name not in NN:
            if rng.random() < .5:
                kw['stddev'] = gen.pick(rng, [.5, 2, np.float32(.1), 1.])
            if rng.random() < .3:
                kw['mean'] = 0. if name in ENTRY else gen.pick(rng, [1., -3, np.float64(.5)])
        ctx.note('%s(%r, %r, batch_size=%s, %s) %s' % (name, form, rform, bs, kw, dname))
        ctx.sig(st, name, raw, ranks, bs, dname)
        f = call(ctx, rng, name, form, rform, dt, bs, **kw)
        saved = repr(form), repr(rform)
        a = f()
        ca = meta(ctx, a, raw, ranks, bs, dname, name)
        ctx.true('arguments unchanged', saved == (repr(form), repr(rform)), 'shape or rank argument changed')
        cb = meta(ctx, f(), raw, ranks, bs, dname, name)
        cores_independent(ctx, ca, name)
        for k in range(d):
            ctx.true('finite', bool(np.all(np.isfinite(ca[k]))), 'not finite')
            ctx.true('other draws', few_equal(ca[k], cb[k]),
                     lambda: 'core %d repeats in the next call' % k)
        if batch:
            for i in range(1, bs):
                ctx.true('elements differ', all(few_equal(c[i], c[0]) for c in ca),
                         'element %d repeats element 0' % i)
    elif st == 'entry moments':
        name = gen.pick(rng, sorted(ENTRY))
        matrix, batch = ENTRY[name]
        d = int(rng.integers(1, 7))
        raw, form = big_shape(rng, matrix, d)
        ranks, rform = rank_of(rng, d, 4 if d < 5 else 3)
        sd = float(10 ** rng.uniform(-1.5, 1.5))
        if rng.random() < .2:
            sd = 1.
        bs = int(rng.integers(1, 5)) if batch else None
        ctx.note('%s(%r, %r, stddev=%g, batch_size=%s)' % (name, form, rform, sd, bs))
        ctx.sig(st, name, raw, ranks, sd)
        kw = {} if sd == 1. else {'stddev': sd}
        f = call(ctx, rng, name, form, rform, dt, bs, **kw)
        els = []
        for _ in range(4):
            tt = f()
            cores = meta(ctx, tt, raw, ranks, bs, dname, name)
            els += elements(tt, cores)
        sizes = [int(np.prod([g[k] for g in raw])) for k in range(d)]
        entry_stats(ctx, rng, els, sizes, sd ** 2, name)
        cores_independent(ctx, cores, name)
    elif st == 'nn moments':
        name = gen.pick(rng, sorted(NN))
        d = int(rng.integers(1, 6))
        raw, form = big_shape(rng, True, d)
        ranks, rform = rank_of(rng, d, 4)
        ctx.note('%s(%r, %r)' % (name, form, rform))
        ctx.sig(st, name, raw, ranks)
        f = call(ctx, rng, name, form, rform, dt)
        els = []
        for _ in range(4):
            els.append(meta(ctx, f(), raw, ranks, None, dname, name))
        sizes = [int(np.prod([g[k] for g in raw])) for k in range(d)]
        var = NN[name](np.prod([float(v) for v in raw[0]]), np.prod([float(v) for v in raw[1]]))
        entry_stats(ctx, rng, els, sizes, var, name)
        cores_independent(ctx, els[0], name)
    elif st == 'core moments':
        name = gen.pick(rng, sorted(CORE))
        matrix, batch = CORE[name]
        d = int(rng.integers(1, 6))
        raw, form = big_shape(rng, matrix, d)
        ranks, rform = rank_of(rng, d, 4)
        sd = float(10 ** rng.uniform(-1.5, 1.5))
        mean = float(rng.uniform(-3, 3)) if rng.random() < .7 else 0.
        bs = int(rng.integers(1, 5)) if batch else None
        kw = {'stddev': sd, 'mean': mean}
        if rng.random() < .2:
            kw, sd, mean = {}, 1., 0.
        ctx.note('%s(%r, %r, batch_size=%s, %s)' % (name, form, rform, bs, kw))
        ctx.sig(st, name, raw, ranks, sd, mean)
        tt = call(ctx, rng, name, form, rform, dt, bs, **kw)()
        cores = meta(ctx, tt, raw, ranks, bs, dname, name)
        for c in (cores if not batch else [c[i] for c in cores for i in range(bs)]):
            z = (c.astype(float) - mean) / sd
            n = z.size
            # Rounding of the values themselves to float32 is far below these bounds.
            ctx.true('core mean', abs(z.mean()) <= 9 / np.sqrt(n) + 1e-5 * (1 + abs(mean) / sd),
                     lambda: '%s: mean off by %.4g deviations' % (name, z.mean()))
            ctx.true('core deviation', abs(np.mean(z * z) - 1) <= 9 * np.sqrt(2. / n) + 1e-4 * (1 + abs(mean) / sd),
                     lambda: '%s: second central moment %.4f of the requested' % (name, np.mean(z * z)))
        cores_independent(ctx, cores, name)
        if batch:
            for i in range(1, bs):
                cores_independent(ctx, [cores[0][i - 1], cores[0][i]], name + ' elements')
    elif st == 'mean':
        # Another mean than zero: either refused or obeyed.
        name = gen.pick(rng, sorted(ENTRY))
        matrix, batch = ENTRY[name]
        d = int(rng.integers(1, 4))
        raw, form = big_shape(rng, matrix, d)
        ranks, rform = rank_of(rng, d, 3)
        mean, sd = float(rng.uniform(.5, 3)) * (1 if rng.random() < .5 else -1), float(rng.uniform(.3, 2))
        bs = int(rng.integers(1, 4)) if batch else None
        kw = {'batch_size': bs} if batch else {}
        ctx.note('%s(%r, %r, mean=%g, stddev=%g)' % (name, form, rform, mean, sd))
        ctx.sig(st, name, raw, ranks)
        ctx.evals['mean refused or obeyed'] += 1
        try:
            tt = getattr(t3f, name)(form, rform, mean=mean, stddev=sd, dtype=dt, **kw)
        except Exception:
            return
        sizes = [int(np.prod([g[k] for g in raw])) for k in range(d)]
        lim = np.prod([12. / np.sqrt(n) for n in sizes])
        for e in elements(tt, meta(ctx, tt, raw, ranks, bs, dname, name)):
            m = total(e) / np.prod([float(n) for n in sizes])
            ctx.true('entry mean', abs(m - mean) <= (lim + .3) * (abs(mean) + sd) * .5,
                     lambda: '%s: mean of entries %.4g, requested %.4g' % (name, m, mean))
    elif st == 'small moments':
        # Small shapes, where the moments can only be seen over many draws.
        name = gen.pick(rng, sorted(ENTRY) + sorted(NN))
        matrix, batch = ALL[name]
        d = int(rng.integers(1, 4))
        if matrix:
            raw = [[int(v) for v in rng.integers(1, 5, size=d)], [int(v) for v in rng.integers(2, 6, size=d)]]
            form = form2(rng, *raw)
        else:
            raw = [[int(v) for v in rng.integers(2, 8, size=d)]]
            form = form1(rng, raw[0])
        ranks, rform = rank_of(rng, d, 4)
        kw = {}
        if name in NN:
            var = NN[name](float(np.prod(raw[0])), float(np.prod(raw[1])))
        else:
            sd = float(10 ** rng.uniform(-1, 1))
            kw = {'stddev': sd}
            var = sd ** 2
        ctx.note('%s(%r, %r, %s)' % (name, form, rform, kw))
        ctx.sig(st, name, raw, ranks)
        els = []
        if batch:
            tt = call(ctx, rng, name, form, rform, dt, 3000, **kw)()
            els = elements(tt, mon.cores_of(ctx, tt))
        else:
            f = call(ctx, rng, name, form, rform, dt, **kw)
            for _ in range(300):
                els.append(mon.cores_of(ctx, f()))
        sizes = [int(np.prod([g[k] for g in raw])) for k in range(d)]
        q = np.array([norm2(e) / np.prod(sizes) / var for e in els])
        # Heavier tails: eight deviations, with the deviation for the worst case (rank one).
        dev = 8 * np.sqrt((np.prod([1 + 2. / n for n in sizes]) - 1) / len(q)) * 1.3
        ctx.true('entry variance (small)', abs(q.mean() - 1) <= dev,
                 lambda: '%s: mean square %.3f of the requested variance, allowed 1 +- %.3f' % (name, q.mean(), dev))
    else:
        name = gen.pick(rng, sorted(ALL))
        matrix, batch = ALL[name]
        d = int(rng.integers(1, 6))
        raw, form = shape_of(rng, matrix, d)
        ranks, rform = rank_of(rng, d)
        bs = int(rng.integers(1, 4)) if batch else None
        f = call(ctx, rng, name, form, rform, dt, bs)
        if rng.random() < .3:
            g = tf.function(lambda: f().tt_cores)
            h = lambda: [np.array(c) for c in g()]
        else:
            h = lambda: [np.array(c) for c in f().tt_cores]
        ctx.note('%s(%r, %r, batch_size=%s)' % (name, form, rform, bs))
        ctx.sig(st, name, raw, ranks)
        s = int(rng.integers(1 << 30))
        tf.random.set_seed(s)
        a, b = h(), h()
        tf.random.set_seed(s)
        # A traced function keeps the stream it got when it was traced.
        if not isinstance(h, type(None)) and 'g' in locals():
            g = tf.function(lambda: f().tt_cores)
            tf.random.set_seed(s)
        a2, b2 = h(), h()
        ctx.true('same seed, same draws', all(np.array_equal(x, y) for x, y in zip(a + b, a2 + b2)),
                 'draws differ after setting the same seed')
        ctx.true('next call differs', all(np.mean(x == y) < .01 + .3 * (x.size < 4) for x, y in zip(a, b)),
                 'a second call repeats the first')
        tf.random.set_seed(s + 1)
        if 'g' in locals():
            g = tf.function(lambda: f().tt_cores)
            tf.random.set_seed(s + 1)
        c = h()
        ctx.true('other seed differs', all(np.mean(x == y) < .01 + .3 * (x.size < 4) for x, y in zip(a, c)),
                 'draws do not depend on the seed')
