"""C26: shape queries against dense arrays (eager and traced), batch axis round trips, broadcasting test, unravel_index, SVD replacement."""
import itertools
import math
import numpy as np
import tensorflow as tf
import t3f
import t3f.utils
from vt import gen, ref, mon

STRATA = [('queries', 6), ('derived', 3), ('traced', 3), ('huge', 2), ('batch axis', 3), ('broadcasting', 3), ('clean shape', 3),
          ('unravel', 4), ('eager mode', 1), ('svd', 2), ('single', 1)]
QUICK = 3000
THOROUGH = 18000


def case(ctx, rng, st):
    {'queries': queries, 'derived': derived, 'traced': traced, 'huge': huge, 'batch axis': batch_axis, 'broadcasting': broadcasting,
     'clean shape': clean, 'unravel': unravel, 'eager mode': eager_mode, 'svd': svd, 'single': single}[st](ctx, rng)


def some(rng, **kw):
    kw.setdefault('bs', gen.batch_size(rng) if rng.random() < .5 else None)
    return gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dhi=8, maxel=800, **kw)


def queries(ctx, rng):
    o = some(rng)
    ctx.note(o.describe())
    ctx.sig('queries', o.raw, o.ranks, o.bs, o.dtype, o.desc)
    mon.metadata(ctx, o.tt, o.describe())
    agree(ctx, o.tt, o.dense(), o.bs is not None)


def agree(ctx, tt, dense, batch):
    """Queries against the dense array itself."""
    sh = list(dense.shape)
    for name in ('shape', 'lazy_shape'):
        got, _ = mon._ints(ctx.call(name, getattr(t3f, name), tt))
        ctx.true('shape of the dense array', got == sh, lambda: '%s %s, dense array %s' % (name, got, sh))
    ctx.true('shape of the dense array', tt.get_shape().as_list() == sh, lambda: 'get_shape %s, dense array %s' % (tt.get_shape(), sh))
    ctx.true('shape of the dense array', list(ctx.call('full', t3f.full, tt).shape) == sh, 'full')
    if batch:
        for name in ('batch_size', 'lazy_batch_size'):
            got = int(ctx.call(name, getattr(t3f, name), tt))
            ctx.true('batch size of the dense array', got == sh[0], lambda: '%s %s' % (name, got))
    var = [isinstance(c, tf.Variable) for c in tt.tt_cores]
    if all(var) or not any(var):
        ctx.true('is_variable', ctx.call('is_variable', tt.is_variable) == var[0], 'cores are variables: %s' % var[0])
    for name in ('shape', 'raw_shape', 'tt_ranks'):
        r = ctx.call(name, getattr(t3f, name), tt)
        ctx.true('dynamic queries are integer tensors', isinstance(r, tf.Tensor) and r.dtype.is_integer, lambda: '%s: %r' % (name, type(r)))


def derived(ctx, rng):
    """Results of operations answer queries as well."""
    o = some(rng, rmax=3)
    fs = [('neg', lambda: -o.tt), ('scaled', lambda: o.tt * 2.), ('sum', lambda: o.tt + o.tt), ('product', lambda: o.tt * o.tt),
          ('cast', lambda: t3f.cast(o.tt, tf.float32)), ('rounded', lambda: t3f.round(o.tt, max_tt_rank=2)),
          ('orthogonalized', lambda: t3f.orthogonalize_tt_cores(o.tt)), ('renormalized', lambda: t3f.renormalize_tt_cores(o.tt)),
          ('variable', lambda: t3f.get_variable('q%d' % int(rng.integers(1 << 30)), initializer=o.tt))]
    if o.matrix:
        fs += [('transposed', lambda: t3f.transpose(o.tt)), ('gram', lambda: t3f.matmul(t3f.transpose(o.tt), o.tt))]
    if o.batch:
        fs += [('element', lambda: o.tt[0]), ('part', lambda: o.tt[:1]), ('concat', lambda: t3f.concat_along_batch_dim([o.tt, o.tt]))]
    else:
        fs += [('ones', lambda: t3f.ones_like(o.tt)), ('expanded', lambda: t3f.expand_batch_dim(o.tt))]
    name, f = fs[int(rng.integers(len(fs)))]
    ctx.note('%s of %s' % (name, o.describe()))
    ctx.sig('derived', name, o.raw, o.ranks, o.bs)
    r = ctx.call(name, f)
    cores, batch = mon.metadata(ctx, r, name)
    if name == 'variable':
        ctx.true('is_variable', r.is_variable() is True, 'not a variable')
    agree(ctx, r, ref.dense(cores, batch), batch)


def traced(ctx, rng):
    o = some(rng)
    unknown = o.batch and rng.random() < .7
    ctx.note('traced%s %s' % (' with unknown batch size' if unknown else '', o.describe()))
    ctx.sig('traced', unknown, o.raw, o.ranks, o.bs)
    seen = {}
    names = ['shape', 'raw_shape', 'tt_ranks', 'lazy_shape', 'lazy_raw_shape', 'lazy_tt_ranks'] + (
        ['batch_size', 'lazy_batch_size'] if o.batch else [])

    def f(*cs):
        tt = (t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)(list(cs))
        seen['shape'] = tt.get_shape().as_list()
        seen['raw'] = [g.as_list() for g in tt.get_raw_shape()]
        seen['ranks'] = tt.get_tt_ranks().as_list()
        seen['bs'] = tt.batch_size if o.batch else None
        seen['str'] = str(tt)
        seen['eager'] = t3f.utils.in_eager_mode()
        return [tf.convert_to_tensor(getattr(t3f, n)(tt)) for n in names]
    g = tf.function(f, input_signature=[tf.TensorSpec(([None] + list(c.shape[1:])) if unknown else c.shape, c.dtype) for c in o.cores])
    res = ctx.call('traced queries', g, *[tf.constant(c) for c in o.cores])
    sh = list(o.dense().shape)
    want = {'shape': sh, 'raw_shape': [v for r in o.raw for v in r], 'tt_ranks': list(o.ranks), 'batch_size': [o.bs]}
    for n, r in zip(names, res):
        got, _ = mon._ints(r)
        w = want[n.replace('lazy_', '')]
        ctx.true('traced ' + n, got == w, lambda: '%s: %s instead of %s' % (n, got, w))
    st = [None] + sh[1:] if unknown else sh
    ctx.true('static shape when traced', seen['shape'] == st, lambda: '%s instead of %s' % (seen['shape'], st))
    ctx.true('static raw shape when traced', seen['raw'] == [list(r) for r in o.raw], lambda: str(seen['raw']))
    ctx.true('static ranks when traced', seen['ranks'] == list(o.ranks), lambda: str(seen['ranks']))
    ctx.true('static batch size when traced', seen['bs'] == (None if unknown else o.bs), lambda: str(seen['bs']))
    if unknown:
        # Another batch size through the same graph.
        n2 = o.bs + 1
        res = ctx.call('traced queries', g, *[tf.constant(np.concatenate([c, c[:1]])) for c in o.cores])
        for n, r in zip(names, res):
            if n.endswith('batch_size'):
                ctx.true('traced ' + n, int(r) == n2, lambda: '%s: %s instead of %s' % (n, int(r), n2))
            elif n.endswith('shape') and 'raw' not in n:
                ctx.true('traced ' + n, mon._ints(r)[0][0] == n2, lambda: '%s: %s' % (n, r))


def huge(ctx, rng):
    if rng.random() < .3:
        return large(ctx, rng)
    d = int(rng.integers(20, 70))
    kind = gen.pick(rng, ['tensor', 'matrix'])
    bs = gen.batch_size(rng) if rng.random() < .4 else None
    raw = [[int(v) for v in rng.integers(2, 5, size=d)] for _ in range(1 if kind == 'tensor' else 2)]
    rks = [1] + [int(v) for v in rng.integers(1, 4, size=d - 1)] + [1]
    cores = gen.core_arrays(rng, raw, rks, 'float32', bs)[0]
    o = gen.wrap(rng, cores, bs, 'tf')
    ctx.note('%d cores, %s' % (d, kind))
    ctx.sig('huge', raw, rks, bs)
    tt = o.tt
    sh = []
    for g in raw:
        p = 1
        for v in g:
            p *= v
        sh.append(p)
    want = list(raw[0]) if kind == 'tensor' else sh
    if max(sh) < 2 ** 62 or kind == 'tensor':
        want = ([bs] if bs is not None else []) + want
        ctx.true('static shape', ctx.call('get_shape', tt.get_shape).as_list() == want, lambda: '%s instead of %s' % (tt.get_shape(), want))
    ctx.true('static raw shape', [g.as_list() for g in tt.get_raw_shape()] == raw, '')
    ctx.true('static ranks', tt.get_tt_ranks().as_list() == rks, '')
    for name, w in (('raw_shape', raw), ('lazy_raw_shape', raw), ('tt_ranks', rks), ('lazy_tt_ranks', rks)):
        got = np.asarray(ctx.call(name, getattr(t3f, name), tt)).tolist()
        ctx.true('dynamic ' + name, got == w, lambda: '%s: %s instead of %s' % (name, got, w))
    ctx.true('number of dimensions', tt.ndims() == d, '')


def large(ctx, rng):
    """Matrices with up to 2^31 rows and columns, whose numbers fit the integers of dynamic queries."""
    d = int(rng.integers(7, 21))
    raw = []
    for _ in range(2):
        g = [1] * d
        top, odd = 2 ** rng.uniform(20, 31), rng.random() < .6
        for _ in range(200):
            k, v = int(rng.integers(d)), int(gen.pick(rng, [3, 5, 7] if odd else [2, 3, 4, 5, 6, 7]))
            if math.prod(g) // g[k] * v < top:
                g[k] = v
        raw.append(g)
    if rng.random() < .4:
        raw[int(rng.integers(2))] = [1] * d
    bs = gen.batch_size(rng) if rng.random() < .4 else None
    rks = [1] + [int(v) for v in rng.integers(1, 3, size=d - 1)] + [1]
    o = gen.wrap(rng, gen.core_arrays(rng, raw, rks, 'float32', bs)[0], bs, 'tf')
    want = ([bs] if bs is not None else []) + [math.prod(g) for g in raw]
    ctx.note('matrix of shape %s' % want)
    ctx.sig('large', raw, rks, bs)
    ctx.true('static shape', ctx.call('get_shape', o.tt.get_shape).as_list() == want, lambda: '%s instead of %s' % (o.tt.get_shape(), want))
    for name in ('shape', 'lazy_shape'):
        got = np.asarray(ctx.call(name, getattr(t3f, name), o.tt)).tolist()
        ctx.true('shape of a large matrix', got == want, lambda: '%s: %s instead of %s' % (name, got, want))


def batch_axis(ctx, rng):
    bs = gen.pick(rng, [None, 1, 1, gen.batch_size(rng)])
    o = some(rng, bs=bs)
    ctx.note(o.describe())
    ctx.sig('batch axis', o.raw, o.ranks, o.bs, o.dtype)
    e = ctx.call('expand_batch_dim', t3f.expand_batch_dim, o.tt)
    mon.is_kind(ctx, e, True)
    cores, _ = mon.metadata(ctx, e, 'expanded')
    d = o.dense() if o.batch else o.dense()[None]
    ctx.true('expanding keeps the value', all(np.array_equal(a, b if o.batch else b[None]) for a, b in zip(cores, o.cores)), 'cores changed')
    ctx.close('expanded value', t3f.full(e), d, mon.tol_for(o.dtype, ref.depth(o.cores), o.absdense() if o.batch else o.absdense()[None]))
    e2 = ctx.call('expand_batch_dim', t3f.expand_batch_dim, e)
    ctx.true('expanding twice', [c.shape for c in mon.cores_of(ctx, e2)] == [c.shape for c in cores], 'a batch got another axis')
    s = ctx.call('squeeze_batch_dim', t3f.squeeze_batch_dim, e)
    mon.is_kind(ctx, s, o.batch and o.bs > 1)
    sc, sb = mon.metadata(ctx, s, 'squeezed')
    want = o.cores if not o.batch or o.bs > 1 else [c[0] for c in o.cores]
    ctx.true('squeezing undoes expanding', len(sc) == len(want) and all(np.array_equal(a, b) for a, b in zip(sc, want)), 'cores changed')
    s2 = ctx.call('squeeze_batch_dim', t3f.squeeze_batch_dim, o.tt)
    mon.is_kind(ctx, s2, o.batch and o.bs > 1)
    ctx.true('squeezing keeps the value', all(np.array_equal(a, b) for a, b in zip(mon.cores_of(ctx, s2), want)), 'cores changed')


def broadcasting(ctx, rng):
    raw = [gen.sizes(rng, gen.ndims(rng, 1, 4), 60)]
    if rng.random() < .5:
        raw = [raw[0], gen.sizes(rng, len(raw[0]), 20)]
    sizes = [gen.pick(rng, [None, 1, 2, 3, 3, 5, 'single']) for _ in range(2)]
    ctx.note('batch sizes %s' % sizes)
    ctx.sig('broadcasting', sizes, raw)

    def cores(n):
        return gen.core_arrays(rng, raw, [1] * (len(raw[0]) + 1), 'float32', n)[0]

    # None stands for a size unknown when tracing.
    out = []
    if None in sizes:
        def f(x, y):
            tts = []
            for n, cs in zip(sizes, (x, y)):
                tts.append(t3f.TensorTrain(list(cs)) if n == 'single' else t3f.TensorTrainBatch(list(cs)))
            out.append(t3f.is_batch_broadcasting_possible(*tts))
            return 0
        arrs = [cores(None) if n == 'single' else cores(n or 2) for n in sizes]
        spec = [[tf.TensorSpec([None] + list(c.shape[1:]) if n is None else c.shape, c.dtype) for c in cs] for n, cs in zip(sizes, arrs)]
        ctx.call('is_batch_broadcasting_possible', tf.function(f, input_signature=spec), *[[tf.constant(c) for c in cs] for cs in arrs])
    else:
        tts = [t3f.TensorTrain(cores(None)) if n == 'single' else t3f.TensorTrainBatch(cores(n)) for n in sizes]
        out.append(ctx.call('is_batch_broadcasting_possible', t3f.is_batch_broadcasting_possible, *tts))
    a, b = sizes
    if 'single' in sizes:
        want = True
    elif a is None and b is None:
        want = False
    else:
        want = a == b or a == 1 or b == 1
    ctx.true('broadcasting test', bool(out[0]) == want, lambda: 'said %s for %s' % (out[0], sizes))
    if None not in sizes:
        # The test predicts what happens.
        f = gen.pick(rng, [lambda: tts[0] + tts[1], lambda: tts[0] * tts[1], lambda: t3f.flat_inner(*tts)])
        if want:
            ctx.call('operation on broadcastable batches', f)
        else:
            ctx.raises('operation refused', f)


def clean(ctx, rng):
    d = int(rng.integers(1, 8))
    sh = [int(v) for v in rng.integers(1, 9, size=d)]
    m = [int(v) for v in rng.integers(1, 9, size=d)]
    forms = [('list', list(sh), [sh]), ('tuple', tuple(sh), [sh]), ('array', np.array(sh), [sh]), ('int32 array', np.array(sh, np.int32), [sh]),
             ('TensorShape', tf.TensorShape(sh), [sh]), ('tuple of one TensorShape', (tf.TensorShape(sh),), [sh]),
             ('list of one TensorShape', [tf.TensorShape(sh)], [sh]),
             ('2-d array', np.array([sh, m]), [sh, m]), ('lists', [list(sh), list(m)], [sh, m]), ('tuples', (tuple(sh), tuple(m)), [sh, m]),
             ('TensorShapes', (tf.TensorShape(sh), tf.TensorShape(m)), [sh, m]), ('list of TensorShapes', [tf.TensorShape(sh), tf.TensorShape(m)], [sh, m]),
             ('None', None, None), ('list of a list', [list(sh)], [sh])]
    name, arg, want = forms[int(rng.integers(len(forms)))]
    ctx.note('%s %s' % (name, arg))
    ctx.sig('clean', name, sh, m)
    r = ctx.call('clean_raw_shape', t3f.clean_raw_shape, arg)
    if want is None:
        ctx.true('no shape stays no shape', r is None, str(r))
        return
    ctx.true('cleaned shape', len(r) == len(want) and all(isinstance(g, tf.TensorShape) for g in r) and [g.as_list() for g in r] == want,
             lambda: '%s from %s' % (r, arg))
    r2 = ctx.call('clean_raw_shape', t3f.clean_raw_shape, r)
    ctx.true('cleaning again', [g.as_list() for g in r2] == want, str(r2))


def unravel(ctx, rng):
    big = rng.random() < .35
    d = int(rng.integers(1, 9))
    if big:
        sh = [int(v) for v in rng.integers(2, 60000, size=d)]
        while np.prod([float(v) for v in sh]) > 4e18:
            sh = sh[:-1]
    else:
        sh = [int(v) for v in rng.integers(1, 9, size=d)]
        if rng.random() < .2:
            sh = [1] * d
    tot = 1
    for v in sh:
        tot *= v
    n = int(rng.integers(1, 9))
    idx = np.array([int(rng.integers(0, tot)) for _ in range(n)], np.int64)
    idx[0] = tot - 1
    if n > 1:
        idx[1] = 0
    form = gen.pick(rng, ['tensor', 'array', 'list'])
    dt = np.int64 if big or rng.random() < .5 else np.int32
    i = idx.astype(dt)
    ctx.note('%s of %s in %s' % (form, idx.tolist(), sh))
    ctx.sig('unravel', sh, n, form, dt.__name__)
    arg = tf.constant(i) if form == 'tensor' else i
    s = tf.constant(sh, tf.as_dtype(dt)) if form == 'tensor' else np.array(sh, dt)
    r = np.asarray(ctx.call('unravel_index', t3f.utils.unravel_index, arg, s))
    want = []
    for v in idx.tolist():
        row = []
        for k in reversed(sh):
            row.append(v % k)
            v //= k
        want.append(row[::-1])
    ctx.true('row-major multi-index', r.shape == (n, len(sh)) and r.tolist() == want, lambda: '%s instead of %s' % (r.tolist(), want))
    if rng.random() < .1:
        g = tf.function(t3f.utils.unravel_index)
        r = np.asarray(ctx.call('traced unravel_index', g, tf.constant(i), tf.constant(sh, tf.as_dtype(dt))))
        ctx.true('row-major multi-index', r.tolist() == want, 'traced')


def eager_mode(ctx, rng):
    ctx.sig('eager', int(rng.integers(1 << 20)))
    f = t3f.utils.in_eager_mode
    ctx.true('eager mode', bool(ctx.call('in_eager_mode', f)) is True, 'said no in eager mode')
    with tf.Graph().as_default():
        ctx.true('graph mode', bool(ctx.call('in_eager_mode', f)) is False, 'said yes while building a graph')
    seen = []
    tf.function(lambda: seen.append(f()))()
    ctx.true('traced', bool(seen[0]) is False, 'said yes while tracing')
    ctx.true('eager mode again', bool(f()) is True, '')


def svd(ctx, rng):
    """The numpy replacement of the SVD behaves like the original and is installed once."""
    orig = tf.linalg.svd
    dt = gen.pick(rng, ['float64', 'float32'])
    lead = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3)))]
    m, n = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    x = rng.standard_normal(lead + [m, n]).astype(gen.NPD[dt])
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dtype=dt, dlo=1, dhi=4, maxel=150, rmax=3, style='normal',
                bs=gen.batch_size(rng) if rng.random() < .4 else None)
    full = bool(rng.random() < .3)
    ctx.note('svd of %s %s and round of %s' % (x.shape, dt, o.describe()))
    ctx.sig('svd', x.shape, dt, full, o.raw, o.bs)
    try:
        for _ in range(int(rng.integers(1, 3))):
            ctx.call('replace_tf_svd_with_np_svd', t3f.utils.replace_tf_svd_with_np_svd)
        ctx.true('original is kept', getattr(tf, 'original_svd', None) is orig, 'tf.original_svd is not the original function')
        s, u, v = ctx.call('svd', tf.linalg.svd, tf.constant(x), full_matrices=full)
        s0, u0, v0 = orig(tf.constant(x), full_matrices=full)
        for a, b, w in ((s, s0, 's'), (u, u0, 'u'), (v, v0, 'v')):
            ctx.true('shapes and dtypes of the SVD', list(a.shape) == list(b.shape) and a.dtype == b.dtype, lambda: '%s: %s %s' % (w, a.shape, a.dtype))
        tol = 200 * ref.EPS[dt] * np.linalg.norm(x)
        ctx.close('singular values', s, np.asarray(s0, float), tol)
        k = min(m, n)
        u, v, s = [np.asarray(t, float) for t in (u, v, s)]
        rec = np.einsum('...ik,...k,...jk->...ij', u[..., :k], s, v[..., :k])
        ctx.close('product of the factors', rec, x.astype(float), tol)
        r = ctx.call('round', t3f.round, o.tt, max_tt_rank=1000)
        s_ = np.array([ref.interfaces_scale(e) for e in o.elements()])
        s_ = s_.reshape([-1] + [1] * (o.dense().ndim - 1)) if o.batch else s_[0]
        ctx.close('rounding with the replacement', mon.value(ctx, r, o.batch), o.dense(), mon.tol_for(dt, ref.depth(o.cores) + 50, 4 * s_))
        if not o.batch and not o.matrix:
            t = ctx.call('to_tt_tensor', t3f.to_tt_tensor, tf.constant(o.dense().astype(gen.NPD[dt])), max_tt_rank=1000)
            ctx.close('decomposition with the replacement', mon.value(ctx, t, False), o.dense(), mon.tol_for(dt, 100, np.linalg.norm(o.dense()) * 4 + np.max(o.absdense())))
    finally:
        tf.linalg.svd = orig
        if hasattr(tf, 'original_svd'):
            del tf.original_svd


def single(ctx, rng):
    """Objects with one core, and sizes one, keep all axes."""
    bs = gen.pick(rng, [None, 1, 3])
    kind = gen.pick(rng, ['tensor', 'matrix'])
    n = int(gen.pick(rng, [1, 2, 7]))
    raw = [[n]] if kind == 'tensor' else [[n], [int(gen.pick(rng, [1, 2, 5]))]]
    o = gen.obj(rng, raw=raw, bs=bs)
    ctx.note(o.describe())
    ctx.sig('single', raw, bs, o.desc)
    mon.metadata(ctx, o.tt, 'one core')
    agree(ctx, o.tt, o.dense(), bs is not None)
