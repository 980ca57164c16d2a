"""C21: fingerprints of arguments, results and global state around calls; bitwise repetition, also from threads."""
import os
import random
import threading
import warnings
import numpy as np
import tensorflow as tf
import t3f
import t3f.riemannian
import t3f.approximate
from vt import gen, ref, mon, ops

STRATA = [('history', 6), ('shared', 6), ('lists', 5), ('initializers', 2), ('initializer arguments', 2), ('threads', 3), ('failed calls', 2)]
QUICK = 1600
THOROUGH = 7000


def raw(x):
    """Bytes of a result: kind, dtype, shapes and contents."""
    if isinstance(x, (list, tuple)):
        return tuple(raw(v) for v in x)
    k = mon.kind_of(x)
    if k:
        return (k,) + tuple(raw(c) for c in x.tt_cores)
    a = np.asarray(x.numpy() if hasattr(x, 'numpy') else x)
    return a.dtype.name, a.shape, a.tobytes()


def meta(tt):
    return (type(tt).__name__, [g.as_list() for g in tt.get_raw_shape()], tt.get_tt_ranks().as_list(),
            getattr(tt, 'batch_size', None), tt.dtype.name if hasattr(tt.dtype, 'name') else str(tt.dtype),
            tt.is_tt_matrix(), tt.ndims(), len(tt.tt_cores))


def snap(x):
    """Fingerprint of an argument of any type."""
    k = mon.kind_of(x)
    if k:
        return (meta(x), raw(x))
    if isinstance(x, dict):
        return {a: snap(b) for a, b in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(id(v) for v in x), tuple(snap(v) for v in x))
    if isinstance(x, np.ndarray):
        return (x.dtype.name, x.shape, x.strides, x.tobytes(), x.flags.writeable)
    if isinstance(x, (tf.Tensor, tf.Variable)):
        return raw(x)
    if isinstance(x, tf.SparseTensor):
        return raw([x.indices, x.values, x.dense_shape])
    if isinstance(x, tf.TensorShape):
        return tuple(x.as_list())
    return repr(x)


def world():
    """Global state no operation may touch."""
    s = np.random.get_state()
    return {'numpy random state': (s[0], s[1].tobytes()) + tuple(s[2:]),
            'python random state': random.getstate(),
            'tf.linalg.svd': id(tf.linalg.svd), 'tf.svd': id(tf.compat.v1.svd),
            'eager functions': tf.config.functions_run_eagerly(),
            'eager mode': tf.executing_eagerly(),
            'keras float': tf.keras.backend.floatx(),
            'numpy errors': tuple(sorted(np.geterr().items())),
            'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
            'warning filters': len(warnings.filters),
            'environment': hash(tuple(sorted(os.environ.items()))),
            'working directory': os.getcwd()}


class Watch(object):
    """Checks arguments, earlier results and global state after every call."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.args, self.results = [], []

    def arg(self, x, what):
        self.args.append((x, what, snap(x)))

    def result(self, r, what):
        self.results.append((r, what, snap(r) if not isinstance(r, (list, tuple)) else snap(list(r))))

    def call(self, what, f):
        w = world()
        r = self.ctx.call(what, f)
        self.after(what, w)
        self.result(r, what)
        return r

    def after(self, what, w):
        for x, name, s in self.args:
            self.ctx.true('arguments are unchanged', snap(x) == s, lambda: '%s changed %s' % (what, name))
        for r, name, s in self.results:
            new = snap(r) if not isinstance(r, (list, tuple)) else snap(list(r))
            same = new == s if not isinstance(r, (list, tuple)) else new[2] == s[2]
            self.ctx.true('earlier results are unchanged', same, lambda: '%s changed the result of %s' % (what, name))
        now = world()
        for k in w:
            self.ctx.true('global state is unchanged', now[k] == w[k], lambda: '%s changed: %s' % (what, k))


def same(ctx, what, a, b):
    ctx.true('repeated call is bit-identical', raw(a) == raw(b), lambda: '%s: a repeated call gave another result (%s)' % (
        what, diff(a, b)))


def diff(a, b):
    out = []
    for x, y in zip(ops.flat_out(a), ops.flat_out(b)):
        try:
            x, y = [np.concatenate([np.ravel(c) for c in ref.np_cores(v)]) if mon.kind_of(v) else np.ravel(np.asarray(v))
                    for v in (x, y)]
            out.append('largest difference %.3g' % np.max(np.abs(x - y)))
        except Exception as e:
            out.append(str(e)[:80])
    return ', '.join(out)


def tfseed(ctx, what, f):
    """A deterministic operation does not consume TensorFlow's random stream."""
    tf.random.set_seed(11)
    a = tf.random.uniform([3]).numpy()
    tf.random.set_seed(11)
    f()
    b = tf.random.uniform([3]).numpy()
    ctx.true('random stream is untouched', np.array_equal(a, b), lambda: '%s drew random numbers' % what)


def case(ctx, rng, st):
    {'history': history, 'shared': shared, 'lists': lists, 'initializers': inits, 'initializer arguments': init_args, 'threads': threads,
     'failed calls': failed}[st](ctx, rng)


def instances(ctx, rng, k):
    out = []
    for _ in range(k):
        n = gen.batch_size(rng) if rng.random() < .4 else None
        out.append(ops.draw(rng, gen.pick(rng, ops.names(batch=n is not None)), n))
    for i in out:
        ctx.note(i.describe())
    ctx.sig([i.sig() for i in out])
    return out


def prepared(rng, inst):
    """Objects and dense arguments; sometimes cores are variables."""
    tts = []
    for o in inst.objs:
        if rng.random() < .25:
            tts.append(gen.wrap(rng, o.cores, o.bs, 'var').tt)
        else:
            tts.append(o.tt)
    return tts, [tf.constant(d[0]) for d in inst.dens]


def history(ctx, rng):
    insts = instances(ctx, rng, 3)
    w = Watch(ctx)
    args = []
    for i in insts:
        tts, dens = prepared(rng, i)
        args.append((tts, dens))
        for j, t in enumerate(tts):
            w.arg(t, 'argument %d of %s' % (j, i.name))
        for j, t in enumerate(dens):
            w.arg(t, 'dense argument %d of %s' % (j, i.name))
    first = [w.call(i.name, lambda: i.run(*a)) for i, a in zip(insts, args)]
    for k in rng.permutation(len(insts)):
        i, a = insts[k], args[k]
        same(ctx, i.name, first[k], w.call(i.name, lambda: i.run(*a)))
    for i, r in zip(insts, first):
        ops.check(ctx, i, r, 'value')
    i = insts[0]
    tfseed(ctx, i.name, lambda: i.run(*args[0]))


def pool_ops(rng, o, p):
    """Operations that apply to any object (o) and a partner of the same shape (p)."""
    a, b = o.tt, p.tt
    d = len(o.cores)
    np_s = gen.NPD[o.dtype](1.7)
    f = [('full', lambda: t3f.full(a)), ('neg', lambda: -a), ('mul number', lambda: a * 3.), ('number mul', lambda: .3 * a),
         ('multiply by scalar', lambda: t3f.multiply(a, tf.constant(np_s))), ('add', lambda: a + b),
         ('add itself', lambda: a + a), ('sub', lambda: a - b), ('mul', lambda: a * b), ('square', lambda: a * a),
         ('inner', lambda: t3f.flat_inner(a, b)), ('inner itself', lambda: t3f.flat_inner(a, a)),
         ('norm', lambda: t3f.frobenius_norm(a)), ('norm2', lambda: t3f.frobenius_norm_squared(a)),
         ('norm2 diff', lambda: t3f.frobenius_norm_squared(a, differentiable=True)),
         ('cast', lambda: t3f.cast(a, tf.float32)), ('cast 64', lambda: t3f.cast(a, tf.float64)),
         ('orth', lambda: t3f.orthogonalize_tt_cores(a)), ('round', lambda: t3f.round(a)),
         ('round 1', lambda: t3f.round(a, max_tt_rank=1)), ('renormalize', lambda: t3f.renormalize_tt_cores(a)),
         ('raw_shape', lambda: t3f.raw_shape(a)), ('tt_ranks', lambda: t3f.tt_ranks(a)), ('str', lambda: str(a) and 0.),
         ('lazy_raw_shape', lambda: np.array(t3f.lazy_raw_shape(a))), ('lazy_tt_ranks', lambda: np.array(t3f.lazy_tt_ranks(a)))]
    if o.matrix:
        f += [('transpose', lambda: t3f.transpose(a)), ('matmul', lambda: t3f.matmul(t3f.transpose(a), b)),
              ('matmul left', lambda: t3f.matmul(a, t3f.transpose(b)))]
    else:
        idx = np.stack([rng.integers(0, s, 3) for s in o.raw[0]], 1)
        if o.batch:
            idx = np.concatenate([rng.integers(0, o.bs, (3, 1)), idx], 1)
        f.append(('gather', lambda: t3f.gather_nd(a, idx)))
    if o.batch:
        f += [('batch index', lambda: a[0]), ('gram', lambda: t3f.gram_matrix(a)),
              ('pairwise', lambda: t3f.pairwise_flat_inner(a, b)),
              ('concat', lambda: t3f.concat_along_batch_dim([a, a])),
              ('mul along', lambda: t3f.multiply_along_batch_dim(a, np.ones(o.bs, gen.NPD[o.dtype]))),
              ('reduce sum', lambda: t3f.approximate.reduce_sum_batch(a, 1000))]
        if d > 1:
            f += [('project', lambda: t3f.project(a, b[0])),
                  ('project sum', lambda: t3f.project_sum(a, b[0]))]
    else:
        f += [('orth r2l', lambda: t3f.orthogonalize_tt_cores(a, left_to_right=False)),
              ('ones like', lambda: t3f.ones_like(a)), ('zeros like', lambda: t3f.zeros_like(a)),
              ('expand', lambda: t3f.expand_batch_dim(a)), ('squeeze', lambda: t3f.squeeze_batch_dim(a)),
              ('add_n', lambda: t3f.approximate.add_n([a, b], 1000)),
              ('l2', lambda: t3f.l2_regularizer(.5)(a)),
              ('cores reg', lambda: t3f.cores_regularizer(lambda c: tf.reduce_sum(c ** 2), .5)(a))]
        if d > 1:
            f += [('project', lambda: t3f.project(b, a)), ('project on itself', lambda: t3f.project(a, a)),
                  ('gradients', lambda: t3f.gradients(lambda x: t3f.flat_inner(x, b), a, runtime_check=False)),
                  ('hessian', lambda: t3f.hessian_vector_product(lambda x: .5 * t3f.flat_inner(x, x), a, b,
                                                                 runtime_check=False))]

            def tangent():
                pr = t3f.project(b, a)
                return [t3f.tangent_space_to_deltas(pr), t3f.add_n_projected([pr, pr]),
                        t3f.pairwise_flat_inner_projected(t3f.expand_batch_dim(b) and t3f.project(t3f.expand_batch_dim(b), a),
                                                          t3f.project(t3f.expand_batch_dim(b), a))]
            f.append(('tangent', tangent))
    return f


def shared(ctx, rng):
    """Many operations on the same two objects."""
    bs = gen.batch_size(rng) if rng.random() < .4 else None
    kind = gen.pick(rng, ['tensor', 'matrix'])
    dt = gen.pick(rng, ['float64', 'float32'])
    o = gen.obj(rng, kind, bs=bs, dtype=dt, dhi=4, maxel=200, rmax=3, style='normal')
    p = gen.obj(rng, kind, raw=o.raw, bs=bs, dtype=dt, rmax=3, style='normal')
    ctx.note('%s and %s' % (o.describe(), p.describe()))
    ctx.sig('shared', o.raw, o.ranks, p.ranks, bs, dt, o.desc)
    w = Watch(ctx)
    w.arg(o.tt, 'the first object')
    w.arg(p.tt, 'the second object')
    fs = pool_ops(rng, o, p)
    sel = [int(k) for k in rng.permutation(len(fs))[:7]]
    first = {}
    for k in sel:
        first[k] = w.call(fs[k][0], fs[k][1])
    for k in rng.permutation(sel):
        same(ctx, fs[k][0], first[k], w.call(fs[k][0], fs[k][1]))
    k = sel[0]
    tfseed(ctx, fs[k][0], fs[k][1])
    # The inputs still have the values they were made of.
    for x in (o, p):
        ctx.true('value of the arguments', raw(x.tt)[1:] == tuple(raw(c) for c in x.cores), 'cores changed')


def lists(ctx, rng):
    """Caller-owned lists and arrays."""
    how = gen.pick(rng, ['constructor', 'round', 'to_tt_tensor', 'to_tt_matrix', 'add_n', 'concat', 'mul_along', 'gather',
                         'matmul', 'slice', 'project_sum', 'initializer', 'deltas', 'clean', 'dense', 'assign',
                         'reduce_sum', 'ranks'])
    dt = gen.pick(rng, ['float64', 'float32'])
    npd = gen.NPD[dt]
    bs = gen.batch_size(rng)
    w = Watch(ctx)
    o = gen.obj(rng, 'tensor', dtype=dt, dlo=2, dhi=4, maxel=150, rmax=3, style='normal')
    raw_ = o.raw
    seq = gen.pick(rng, [list, tuple, np.array])

    def owned(x, what):
        w.arg(x, what)
        return x

    if how == 'constructor':
        if rng.random() < .2:
            o.cores[0][0, 0, 0] = gen.pick(rng, [np.nan, np.inf])
        cores = owned([gen.pick(rng, [lambda v: gen.layout(rng, v.copy()), tf.constant, tf.Variable])(c) for c in o.cores],
                      'list of cores')
        sh, rk = owned(seq(raw_[0]), 'shape'), owned(seq(o.ranks), 'tt_ranks')
        f = lambda: t3f.TensorTrain(cores, sh, rk).tt_cores
    elif how in ('round', 'ranks'):
        rk = owned(seq([1] + [int(rng.integers(1, 4)) for _ in o.ranks[1:-1]] + [1]), 'max_tt_rank')
        w.arg(o.tt, 'object')
        f = lambda: t3f.round(o.tt, max_tt_rank=rk)
    elif how == 'to_tt_tensor':
        x = owned(gen.pick(rng, [lambda v: gen.layout(rng, v), tf.constant, tf.Variable])(o.dense().astype(npd)), 'dense')
        rk = owned(seq([1] + [2] * (len(raw_[0]) - 1) + [1]), 'max_tt_rank')
        f = lambda: t3f.to_tt_tensor(x, max_tt_rank=rk)
    elif how == 'to_tt_matrix':
        m = gen.obj(rng, 'matrix', dtype=dt, dhi=3, maxel=150, rmax=2)
        x = owned(gen.pick(rng, [lambda v: gen.layout(rng, v), tf.constant])(m.dense().astype(npd)), 'dense')
        sh = owned(gen.pick(rng, [lambda v: [list(g) for g in v], lambda v: tuple(tuple(g) for g in v), np.array])(m.raw), 'shape')
        f = lambda: t3f.to_tt_matrix(x, sh, max_tt_rank=3)
    elif how in ('add_n', 'concat'):
        tts = [gen.obj(rng, 'tensor', raw=raw_, dtype=dt, rmax=2, rks=o.ranks if how == 'concat' else None,
                       bs=bs if how == 'concat' else None, style='normal').tt
               for _ in range(int(rng.integers(1, 5)))]
        lst = owned(list(tts) if how == 'add_n' or rng.random() < .5 else tuple(tts), 'list of objects')
        f = (lambda: t3f.approximate.add_n(lst, max_tt_rank=3)) if how == 'add_n' else \
            (lambda: t3f.concat_along_batch_dim(lst))
    elif how in ('mul_along', 'reduce_sum', 'project_sum'):
        b = gen.obj(rng, 'tensor', raw=raw_, dtype=dt, rmax=2, bs=bs, style='normal')
        w.arg(b.tt, 'batch')
        cf = rng.standard_normal(bs).astype(npd)
        if how == 'mul_along' and rng.random() < .3:
            cf[int(rng.integers(bs))] = gen.pick(rng, [np.nan, np.inf, -0., 0.])
        cf = owned(gen.pick(rng, [lambda v: gen.layout(rng, v), tf.constant, np.array])(cf), 'weights')
        if how == 'mul_along':
            f = lambda: t3f.multiply_along_batch_dim(b.tt, cf)
        elif how == 'reduce_sum':
            cf = owned([float(v) for v in rng.standard_normal(bs)], 'coef') if dt == 'float32' and rng.random() < .5 else cf
            f = lambda: t3f.approximate.reduce_sum_batch(b.tt, max_tt_rank=2, coef=cf)
        else:
            w.arg(o.tt, 'point')
            f = lambda: t3f.project_sum(b.tt, o.tt, cf)
    elif how == 'gather':
        idx = np.stack([rng.integers(0, s, 4) for s in raw_[0]], 1)
        idx = owned(gen.pick(rng, [idx, idx.tolist(), tf.constant(idx)]), 'indices')
        f = lambda: t3f.gather_nd(o.tt, idx)
    elif how in ('matmul', 'dense'):
        m = gen.obj(rng, 'matrix', dtype=dt, dhi=3, maxel=100, rmax=2)
        w.arg(m.tt, 'matrix')
        x = owned(tf.constant(rng.standard_normal((m.dense().shape[1], 3)).astype(npd)), 'dense')
        f = lambda: t3f.matmul(m.tt, x)
    elif how == 'slice':
        key = tuple(slice(0, s) if i else 0 for i, s in enumerate(raw_[0]))
        w.arg(o.tt, 'object')
        f = lambda: o.tt[key]
    elif how == 'initializer':
        sh = owned(seq(raw_[0]), 'shape')
        rk = owned(seq([1] + [2] * (len(raw_[0]) - 1) + [1]), 'tt_rank')
        fs = [lambda: t3f.random_tensor(sh, rk), lambda: t3f.tensor_with_random_cores(sh, rk),
              lambda: t3f.random_tensor_batch(sh, rk, batch_size=2), lambda: t3f.tensor_ones(sh),
              lambda: t3f.tensor_zeros(sh), lambda: t3f.eye(sh),
              lambda: t3f.tensor_batch_with_random_cores(sh, rk, batch_size=2)]
        msh = owned(gen.pick(rng, [[list(raw_[0]), list(raw_[0])], (tuple(raw_[0]), None), [None, list(raw_[0])],
                                   np.array([raw_[0], raw_[0]])]), 'matrix shape')
        fs += [lambda: t3f.random_matrix(msh, rk), lambda: t3f.matrix_with_random_cores(msh, rk),
               lambda: t3f.matrix_ones(msh), lambda: t3f.matrix_zeros(msh),
               lambda: t3f.random_matrix_batch(msh, rk, batch_size=3), lambda: t3f.glorot_initializer(msh, rk),
               lambda: t3f.he_initializer(msh, rk), lambda: t3f.lecun_initializer(msh, rk),
               lambda: t3f.matrix_batch_with_random_cores(msh, rk, batch_size=3)]
        g = fs[int(rng.integers(len(fs)))]

        def f():
            tf.random.set_seed(5)
            return g()
    elif how == 'deltas':
        pr = t3f.project(gen.obj(rng, 'tensor', raw=raw_, dtype=dt, rmax=2, style='normal').tt, o.tt)
        ds = owned(t3f.tangent_space_to_deltas(pr), 'deltas')
        w.arg(o.tt, 'point')
        f = lambda: t3f.riemannian.deltas_to_tangent_space(ds, o.tt)
    elif how == 'clean':
        sh = owned(gen.pick(rng, [list(raw_[0]), tuple(raw_[0]), np.array(raw_[0]), [list(raw_[0])] * 2]), 'shape')
        f = lambda: [np.array(g.as_list()) for g in t3f.clean_raw_shape(sh)]
    else:
        v = t3f.get_variable('v', initializer=o.tt)
        new = gen.obj(rng, 'tensor', raw=raw_, rks=o.ranks, dtype=dt, style='normal')
        w.arg(new.tt, 'new value')
        w.arg(o.tt, 'initial value')
        f = lambda: t3f.assign(v, new.tt)
    ctx.note('%s on %s' % (how, o.describe()))
    ctx.sig('lists', how, o.raw, o.ranks, dt, bs)
    a = w.call(how, f)
    same(ctx, how, a, w.call(how, f))


def inits(ctx, rng):
    """Random initializers touch neither earlier results nor numpy's and Python's generators."""
    w = Watch(ctx)
    sh = gen.sizes(rng, gen.ndims(rng, 1, 4), 100)
    m = [list(v) for v in gen.matrix_sizes(rng, len(sh), 100)]
    b = gen.batch_size(rng)
    names = ['random_tensor', 'random_tensor_batch', 'tensor_with_random_cores', 'tensor_batch_with_random_cores',
             'random_matrix', 'random_matrix_batch', 'matrix_with_random_cores', 'matrix_batch_with_random_cores',
             'glorot_initializer', 'he_initializer', 'lecun_initializer', 'tensor_ones', 'eye']
    ctx.note('initializers of %s and %s' % (sh, m))
    ctx.sig('inits', sh, m, b)
    for _ in range(6):
        n = gen.pick(rng, names)
        kw = {'batch_size': b} if 'batch' in n else {}
        a = [m if 'matrix' in n or n[:2] in ('gl', 'he', 'le') else sh]
        if n not in ('tensor_ones', 'eye'):
            a.append(2)
        w.call(n, lambda: getattr(t3f, n)(*a, **kw))
    # A dense layer and a variable, too.
    w.call('get_variable', lambda: t3f.get_variable('x', initializer=w.results[0][0]))


def init_args(ctx, rng):
    """Shapes and ranks given to initializers stay as they were."""
    sh = gen.sizes(rng, gen.ndims(rng, 1, 4), 100)
    d = len(sh)
    m = [list(v) for v in gen.matrix_sizes(rng, d, 100)]
    tshapes = [list(sh), tuple(sh), np.array(sh)]
    mshapes = [[list(m[0]), list(m[1])], (tuple(m[0]), list(m[1])), [list(m[0]), None], [None, list(m[1])],
               (None, tuple(m[1])), np.array(m), [np.array(m[0]), np.array(m[1])], [tuple(m[0]), None]]
    rk = [1] + [int(rng.integers(1, 4)) for _ in range(d - 1)] + [1]
    ranks = [list(rk), tuple(rk), np.array(rk), 2]
    ctx.note('shapes %s and %s, ranks %s' % (sh, m, rk))
    ctx.sig('init args', sh, m, rk)
    for n in ['random_tensor', 'random_tensor_batch', 'tensor_with_random_cores', 'tensor_batch_with_random_cores',
              'random_matrix', 'random_matrix_batch', 'matrix_with_random_cores', 'matrix_batch_with_random_cores',
              'glorot_initializer', 'he_initializer', 'lecun_initializer', 'tensor_ones', 'tensor_zeros', 'matrix_ones',
              'matrix_zeros', 'eye']:
        matrix = 'matrix' in n or n[:2] in ('gl', 'he', 'le')
        kw = {'batch_size': 2} if 'batch' in n else {}
        for _ in range(2 if matrix else 1):
            w = Watch(ctx)
            s = gen.pick(rng, mshapes if matrix else tshapes)
            w.arg(s, 'shape')
            a = [s]
            if not (n.endswith('ones') or n.endswith('zeros') or n == 'eye'):
                r = gen.pick(rng, ranks)
                w.arg(r, 'tt_rank')
                a.append(r)
            one = w.call('%s(%r)' % (n, s), lambda: getattr(t3f, n)(*a, **kw))
            two = w.call('%s(%r)' % (n, s), lambda: getattr(t3f, n)(*a, **kw))
            ctx.true('same structure', meta(one) == meta(two), lambda: '%s(%r) twice: %s and %s' % (n, s, meta(one), meta(two)))
            g = lambda k: [1] * d if s[k] is None else [int(v) for v in s[k]]
            want = [g(0), g(1)] if matrix else [list(sh)] * (2 if n == 'eye' else 1)
            ctx.true('shape of the result', meta(one)[1] == want, lambda: '%s(%r) has shape %s' % (n, s, meta(one)[1]))


def threads(ctx, rng):
    insts = instances(ctx, rng, 4)
    args = [prepared(rng, i) for i in insts]
    want = [ctx.call(i.name, i.run, *a) for i, a in zip(insts, args)]
    for i, r in zip(insts, want):
        ops.check(ctx, i, r, 'value')
    orders = [[int(k) for k in rng.permutation(len(insts))] * 2 for _ in range(4)]
    got = [[None] * len(o) for o in orders]
    bar = threading.Barrier(len(orders))

    def run(t):
        bar.wait()
        for j, k in enumerate(orders[t]):
            try:
                got[t][j] = ('ok', insts[k].run(*args[k]))
            except Exception as e:
                got[t][j] = ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))
    ts = [threading.Thread(target=run, args=(t,)) for t in range(len(orders))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for t, o in enumerate(orders):
        for j, k in enumerate(o):
            how, r = got[t][j]
            ctx.true('call from a thread succeeds', how == 'ok', lambda: '%s: %s' % (insts[k].name, r))
            ctx.true('call from a thread is bit-identical', raw(r) == raw(want[k]),
                     lambda: '%s run by several threads gave another result (%s)' % (insts[k].name, diff(r, want[k])))


def failed(ctx, rng):
    """A refused call leaves its arguments as they were."""
    o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), dlo=2, dhi=4, maxel=150, rmax=3, style='normal')
    raw2 = [list(g) for g in o.raw]
    for g in raw2:
        g[-1] += 1
    p = gen.obj(rng, raw=raw2, dtype=o.dtype, rmax=3, style='normal')
    short = gen.obj(rng, raw=[g[:-1] for g in o.raw], dtype=o.dtype, rmax=3, style='normal')
    w = Watch(ctx)
    for x, n in ((o, 'first'), (p, 'second'), (short, 'shorter')):
        w.arg(x.tt, n)
    q = gen.pick(rng, [p, short])
    fs = [('add', lambda: t3f.add(o.tt, q.tt)), ('mul', lambda: t3f.multiply(o.tt, q.tt)),
          ('round', lambda: t3f.round(o.tt, max_tt_rank=[1, 2])), ('inner', lambda: t3f.flat_inner(o.tt, q.tt)),
          ('add_n', lambda: t3f.approximate.add_n([o.tt, q.tt, o.tt], 3)),
          ('project', lambda: t3f.project(q.tt, o.tt)), ('assign', lambda: t3f.assign(t3f.get_variable(
              'z', initializer=o.tt), q.tt))]
    fs = [f for f in fs]
    ctx.note('%s with %s' % (o.describe(), q.describe()))
    ctx.sig('failed', o.raw, o.ranks, q.raw)
    for k in rng.permutation(len(fs))[:4]:
        s = world()
        # Whether it is refused at all is the matter of C25.
        try:
            fs[k][1]()
        except Exception:
            ctx.true('refused', True)
        w.after('a refused ' + fs[k][0], s)
