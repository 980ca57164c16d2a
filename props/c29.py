"""C29: compiled functions whose arguments have TT-ranks or mode sizes unknown when tracing."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops, big
from props import c20

STRATA = [('ranks', 6), ('modes', 5), ('both', 4), ('some ranks', 4), ('some', 3), ('dense', 3), ('sizes', 2), ('chain', 4)]
QUICK = 1500
THOROUGH = 7000

# Operations which have to be told the TT-ranks (mode sizes) in advance may be refused when tracing.
NEED_RANKS = {'k_chol', 'k_det', 'k_inv', 'k_slog', 'reduce_sum', 'gradients', 'hvp', 'concat'}
NEED_MODES = {'ones_like', 'zeros_like', 'pairwise_mat', 'reduce_sum', 'gradients', 'hvp', 'sparse_inner'}
# The columns of one matrix go with the rows of another one.
PRODUCTS = {'matmul', 'two_mat', 'bilinear', 'project_matmul'}
# Operations without parameters other than the ones in the note: a function traced
# for one drawing works for another one.
FREE = ['full', 'neg', 'scale', 'scale_t', 'transpose', 'cast', 'norm2', 'norm', 'orth_l2r', 'orth_r2l', 'renorm',
        'expand_squeeze', 'expand', 'add', 'sub', 'mul', 'inner', 'matmul', 'tt_dense', 'dense_tt', 'bilinear',
        'two_mat', 'pairwise', 'gram', 'mul_along', 'batch_part', 'project', 'project_sum', 'project_matmul',
        'tangent_arith', 'tangent_gram', 'add_n', 'to_tt_tensor', 'k_det', 'k_inv', 'k_slog', 'k_chol']


def unknown_sizes(rng, st, o, side=None):
    """For each core which of its dimensions are unknown (the batch size apart).

    side: 0 or 1 if only the row (column) sizes of matrices may be unknown.
    """
    off = 1 if o.batch else 0
    d = len(o.cores)
    out = []
    for k, c in enumerate(o.cores):
        u = [False] * c.ndim
        for i in range(off, c.ndim):
            rank = i == off or i == c.ndim - 1
            edge = (i == off and k == 0) or (i == c.ndim - 1 and k == d - 1)
            if st == 'some' or (st == 'some ranks' and rank):
                u[i] = bool(rng.random() < (.15 if edge else .4))
            elif rank:
                # The first and the last TT-ranks are 1 anyway.
                u[i] = st in ('ranks', 'both') and (not edge or bool(rng.random() < .2))
            else:
                u[i] = st in ('modes', 'both') and (side is None or c.ndim - off == 3 or i == off + 1 + side)
        out.append(u)
    return out


def spec_of(c, u):
    return tf.TensorSpec([None if x else s for s, x in zip(c.shape, u)], c.dtype)


def fits(spec, arrays):
    return all(s.shape.rank == np.ndim(a) and s.dtype.as_numpy_dtype == a.dtype and
               all(x is None or x == y for x, y in zip(s.shape.as_list(), np.shape(a)))
               for s, a in zip(spec, arrays))


def run_case(ctx, rng, st):
    n = gen.batch_size(rng) if rng.random() < .4 else None
    again = bool(rng.random() < .5)
    if st == 'dense':
        name = gen.pick(rng, ['to_tt_tensor', 'to_tt_tensor', 'to_tt_matrix'])
    else:
        pool = [v for v in ops.names(batch=n is not None) if not v.startswith('to_tt') and (not again or v in FREE)]
        name = gen.pick(rng, pool)
    inst = ops.draw(rng, name, n)
    ub = ops.unknown_args(inst) if n is not None and rng.random() < .4 else None
    side = int(rng.integers(2)) if rng.random() < .3 else None
    specs, uk = [], []
    for i, o in enumerate(inst.objs):
        u = unknown_sizes(rng, st, o, side)
        if ub and ub[i]:
            for v in u:
                v[0] = True
        uk.append(u)
        specs.append([spec_of(c, v) for c, v in zip(o.cores, u)])
    dspecs = []
    for d, ax in inst.dens:
        u = [st == 'modes' or st == 'both' or (st in ('some', 'dense') and rng.random() < .5) for _ in d.shape]
        if ax is not None:
            # Weights of batch elements.
            u = [i == ax and bool(ub) for i in range(d.ndim)]
        dspecs.append(spec_of(d, u))
    off = [1 if o.batch else 0 for o in inst.objs]
    ranks = any(v[j] for u, f in zip(uk, off) for v in u for j in (f, -1))
    modes = any(any(v[f + 1:-1]) for u, f in zip(uk, off) for v in u)
    ctx.note('%s\nspecs %s %s' % (inst.describe(), [[s.shape.as_list() for s in c] for c in specs],
                                  [s.shape.as_list() for s in dspecs]))
    ctx.sig(st, inst.sig(), uk)
    g, kinds = c20.traced(inst, [specs, dspecs], bool(rng.random() < .25))
    # Sizes known for one argument only look different from those of the other one.
    if (ranks and name in NEED_RANKS) or ((modes or st == 'dense') and name in NEED_MODES) or \
            ((st == 'some' or side is not None and name in PRODUCTS) and modes and
             len(inst.objs) + len(inst.dens) > 1):
        try:
            g.get_concrete_function()
        except Exception:
            ctx.evals['refused when tracing'] += 1
            return
    c20.compare(ctx, inst, c20.call(ctx, inst, g, kinds))
    if name not in FREE or not again:
        return
    for _ in range(12 if name.startswith(('project', 'tangent')) else 60):
        two = ops.draw(rng, name, inst.n, inst.dtype, inst.objs and ('tensor' if len(inst.objs[0].raw) == 1 else
                                                                    'matrix') or None)
        if (two.note == inst.note and len(two.objs) == len(inst.objs) and len(two.dens) == len(inst.dens) and
                all(o.batch == p.batch and len(o.cores) == len(p.cores) and fits(s, p.cores)
                    for o, p, s in zip(inst.objs, two.objs, specs)) and
                fits(dspecs, [d[0] for d in two.dens])):
            break
    else:
        return
    ctx.note('then ' + two.describe())
    c20.compare(ctx, two, c20.call(ctx, two, g, kinds))
    ctx.evals['second call with other sizes'] += 1


def sizes(ctx, rng):
    """Sizes reported inside of a compiled function."""
    kind = gen.pick(rng, ['tensor', 'matrix'])
    bs = gen.batch_size(rng) if rng.random() < .5 else None
    o = gen.obj(rng, kind, bs=bs, dhi=6, maxel=3000)
    u = unknown_sizes(rng, gen.pick(rng, ['ranks', 'modes', 'both', 'some']), o, gen.pick(rng, [None, 0, 1]))
    if o.batch and rng.random() < .5:
        for v in u:
            v[0] = True
    spec = [spec_of(c, v) for c, v in zip(o.cores, u)]
    ctx.note('sizes of %s\nspecs %s' % (o.describe(), [s.shape.as_list() for s in spec]))
    ctx.sig('sizes', o.raw, o.ranks, o.bs, o.dtype, u)
    static = {}
    b = 1 if o.batch else 0

    def f(*cs):
        t = (t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)(list(cs))
        static['ranks'] = t.get_tt_ranks().as_list()
        static['raw'] = [s.as_list() for s in t.get_raw_shape()]
        static['shape'] = t.get_shape().as_list()
        static['other'] = (t.ndims(), t.is_tt_matrix(), t.dtype)
        static['batch'] = t.batch_size if o.batch else None
        out = {'ranks': t3f.tt_ranks(t), 'shape': t3f.shape(t), 'raw': t3f.raw_shape(t),
               'lazy_ranks': t3f.lazy_tt_ranks(t), 'lazy_shape': t3f.lazy_shape(t), 'lazy_raw': t3f.lazy_raw_shape(t)}
        if o.batch:
            out['batch'] = t3f.batch_size(t)
            out['lazy_batch'] = t3f.lazy_batch_size(t)
        return {k: tf.convert_to_tensor(v) for k, v in out.items()}
    got = ctx.call('sizes', tf.function(f, input_signature=spec, autograph=False), *[tf.constant(c) for c in o.cores])
    ranks, raw = list(o.ranks), [list(g) for g in o.raw]
    shape = raw[0] if kind == 'tensor' else [int(np.prod(g)) for g in raw]
    shape = ([o.bs] if o.batch else []) + shape
    want = {'ranks': ranks, 'raw': raw, 'shape': shape, 'batch': o.bs}
    for k, v in got.items():
        w = want[k.replace('lazy_', '')]
        ctx.true('dynamic ' + k, v.numpy().tolist() == w, '%s: %s instead of %s' % (k, v.numpy().tolist(), w))
    d = len(o.cores)
    # A size not given to the function may be reported as unknown, a given one is reported.
    wr = [None if u[k][b] else ranks[k] for k in range(d)] + [None if u[-1][-1] else ranks[-1]]
    for k in range(d + 1):
        v = static['ranks'][k]
        ctx.true('static ranks', v == ranks[k] or (v is None and (wr[k] is None or (k > 0 and u[k - 1][-1]))),
                 'TT-rank %d: %s instead of %s' % (k, v, ranks[k]))
    for i in range(len(raw)):
        w = [None if u[k][b + 1 + i] else raw[i][k] for k in range(d)]
        ctx.true('static raw shape', static['raw'][i] == w, '%s instead of %s' % (static['raw'][i], w))
    if kind == 'tensor':
        w = [None if u[k][b + 1] else raw[0][k] for k in range(d)]
    else:
        w = [None if any(u[k][b + 1 + i] for k in range(d)) else s for i, s in enumerate(shape[b:])]
    if o.batch:
        w = [None if u[0][0] else o.bs] + w
        ctx.true('static batch size', static['batch'] == w[0], '%s instead of %s' % (static['batch'], w[0]))
    ctx.true('static shape', static['shape'] == w, '%s instead of %s' % (static['shape'], w))
    ctx.true('other', static['other'] == (d, kind == 'matrix', gen.TFD[o.dtype]), str(static['other']))


def chain(ctx, rng):
    """A few operations one after another inside of a compiled function."""
    kind = gen.pick(rng, ['tensor', 'matrix'])
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 1])
    raw = ops.raw_of(rng, kind, 1, 4, 100)
    objs = [ops.mk(rng, raw, None, dtype, ops.ranks_for(rng, raw, 2, 'small')) for _ in range(2)]
    st = gen.pick(rng, ['ranks', 'modes', 'both', 'some ranks'])
    uk = [unknown_sizes(rng, st, o) for o in objs]
    spec = [[spec_of(c, v) for c, v in zip(o.cores, u)] for o, u in zip(objs, uk)]
    steps = []
    for _ in range(int(rng.integers(2, 5))):
        s = gen.pick(rng, ['add', 'sub', 'mul', 'round', 'orth', 'renorm', 'neg', 'scale', 'tt_svd', 'project'],
                     [2, 1, 1, 3, 2, 1, 1, 1, 1, 0])
        if s == 'mul' and 'mul' in [t[0] for t in steps]:
            s = 'round'
        if s == 'tt_svd' and kind == 'matrix' and st in ('modes', 'both'):
            # The result would have known sizes, the rest unknown ones.
            s = 'round'
        steps.append((s, int(rng.integers(2)), float(rng.uniform(.5, 2.))))
    end = gen.pick(rng, ['full', 'inner', 'norm'])
    ctx.note('%s\nspecs %s\nsteps %s, then %s' % ('; '.join(o.describe() for o in objs),
                                                 [[s.shape.as_list() for s in c] for c in spec], steps, end))
    ctx.sig('chain', [(o.raw, o.ranks) for o in objs], dtype, uk, steps, end)

    def f(tcores):
        tts = [t3f.TensorTrain(list(cs)) for cs in tcores]
        x = tts[0]
        for s, i, v in steps:
            if s == 'add':
                x = x + tts[i]
            elif s == 'sub':
                x = x - tts[i]
            elif s == 'mul':
                x = x * tts[i]
            elif s == 'round':
                x = t3f.round(x)
            elif s == 'orth':
                x = t3f.orthogonalize_tt_cores(x, left_to_right=v < 1.2)
            elif s == 'renorm':
                x = t3f.renormalize_tt_cores(x)
            elif s == 'neg':
                x = -x
            elif s == 'scale':
                x = v * x
            elif s == 'tt_svd':
                if kind == 'tensor':
                    x = t3f.to_tt_tensor(t3f.full(x), max_tt_rank=1000)
                else:
                    x = t3f.to_tt_matrix(t3f.full(x), raw, max_tt_rank=1000)
        if end == 'full':
            return t3f.full(x)
        if end == 'inner':
            return t3f.flat_inner(x, tts[1])
        return t3f.frobenius_norm_squared(x, differentiable=v < 1.2)

    cs = [[c.astype(float) for c in o.cores] for o in objs]
    x = cs[0]
    worst = ref.interfaces_scale(x)
    for s, i, v in steps:
        if s in ('add', 'sub'):
            x = big.add(x, cs[i] if s == 'add' else big.scale(cs[i], -1.))
        elif s == 'mul':
            x = big.mul(x, cs[i])
        elif s == 'neg':
            x = big.scale(x, -1.)
        elif s == 'scale':
            x = big.scale(x, float(np.float32(v)) if dtype == 'float32' else v)
        worst = max(worst, ref.interfaces_scale(x))
    dx = ref.dense(x)
    dep = 300. + ref.depth(x) + sum(sum(g) for g in raw)
    sc = worst * 4
    if end == 'full':
        want = dx
    elif end == 'inner':
        want = np.sum(dx * ref.dense(cs[1]))
        sc = sc * ref.interfaces_scale(cs[1]) * 2
    else:
        want = np.sum(dx ** 2)
        sc = sc * worst * 4
    got = ctx.call('chain', tf.function(f, input_signature=[spec], autograph=False),
                   [[tf.constant(c) for c in o.cores] for o in objs])
    ctx.close('traced value', np.asarray(got, float), want, np.broadcast_to(mon.tol_for(dtype, dep, sc), np.shape(want)))


def case(ctx, rng, st):
    if st == 'sizes':
        return sizes(ctx, rng)
    if st == 'chain':
        return chain(ctx, rng)
    return run_case(ctx, rng, st)
