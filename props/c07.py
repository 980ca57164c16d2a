"""C07: dense to TT conversion."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('tensor', 4), ('matrix', 3), ('exact', 3), ('restrictive', 3), ('restrictive matrix', 2), 'one axis',
          'special']
QUICK = 4000
THOROUGH = 30000


def graded(rng, sz, dtype):
    """A tensor with an unfolding whose singular values decay down to the precision of the type."""
    if len(sz) == 1:
        return rng.standard_normal(sz)
    k = int(rng.integers(1, len(sz)))
    m, n = int(np.prod(sz[:k])), int(np.prod(sz[k:]))
    r = min(m, n, int(rng.integers(2, 9)))
    u = np.linalg.qr(rng.standard_normal((m, r)))[0]
    v = np.linalg.qr(rng.standard_normal((n, r)))[0]
    digits = rng.uniform(3, 14 if dtype == 'float64' else 6.5)
    return (u * 10. ** -np.linspace(0, digits, r)).dot(v.T).reshape(sz)


def dense_input(rng, sz, dtype):
    """A dense tensor with a named spectrum."""
    style = gen.pick(rng, ['random', 'lowrank', 'decay', 'rank1', 'const', 'zero', 'sparse', 'ramp', 'hilbert',
                           'scaled', 'graded'], [4, 4, 3, 1, .5, .5, 1, 1, 1, 2, 2])
    if style == 'graded':
        return graded(rng, sz, dtype).astype(gen.NPD[dtype]), style
    if style == 'lowrank':
        rk = gen.rank_list(rng, sz, 'small')
        c, _ = gen.core_arrays(rng, [sz], rk, 'float64', None, 'normal')
        x = ref.dense(c)
    elif style == 'decay':
        x = 0.
        for j in range(4):
            c, _ = gen.core_arrays(rng, [sz], [1] * (len(sz) + 1), 'float64', None, 'normal')
            x = x + 10. ** (-j) * ref.dense(c)
    elif style == 'rank1':
        c, _ = gen.core_arrays(rng, [sz], [1] * (len(sz) + 1), 'float64', None, 'normal')
        x = ref.dense(c)
    elif style == 'const':
        x = np.full(sz, float(rng.standard_normal()))
    elif style == 'zero':
        x = np.zeros(sz)
    elif style == 'sparse':
        x = rng.standard_normal(sz) * (rng.random(sz) < .1)
    elif style == 'ramp':
        x = np.arange(np.prod(sz)).reshape(sz).astype(float)
    elif style == 'hilbert':
        x = 1. / (1. + sum(np.meshgrid(*[np.arange(s) for s in sz], indexing='ij')))
    else:
        x = rng.standard_normal(sz)
        if style == 'scaled':
            x = x * 10. ** rng.uniform(-8, 8)
    return x.astype(gen.NPD[dtype]), style


def bounds(rng, sz, restrictive):
    """(argument given to the library or absent, list of inner bounds)."""
    d = len(sz)
    feas = ref.feasible_ranks(sz)
    form = gen.pick(rng, ['int', 'list', 'array', 'npint', 'tuple'])
    if restrictive:
        if form in ('int', 'npint'):
            r = int(rng.integers(1, max(2, min(8, max(feas)) + 1)))
            b = [1] + [r] * (d - 1) + [1]
        else:
            b = [1] + [int(rng.integers(1, min(f, 8) + 1)) for f in feas[1:-1]] + [1]
    else:
        form = gen.pick(rng, ['int', 'list', 'array', 'npint', 'tuple', 'none', 'inf', 'npinf'])
        if form in ('none', 'inf', 'npinf'):
            b = [10 ** 9] * (d + 1)
            return {'none': None, 'inf': float('inf'), 'npinf': np.inf}[form], b, form
        if form in ('int', 'npint'):
            r = int(max(feas) + rng.integers(0, 5))
            b = [1] + [r] * (d - 1) + [1]
        else:
            b = [1] + [int(f + rng.integers(0, 4)) for f in feas[1:-1]] + [1]
    if form == 'int':
        return b[1] if d > 1 else int(rng.integers(1, 5)), b, form
    if form == 'npint':
        return np.int64(b[1] if d > 1 else 3), b, form
    if form == 'array':
        return np.array(b), b, form
    return (tuple(b) if form == 'tuple' else list(b)), b, form


def judge(ctx, r, x, sz, b, dtype, value_of, eps=0.):
    """Rank bounds and quasi-optimality. x: dense float64 tensor view of the input."""
    feas = ref.feasible_ranks(sz)
    cores = mon.cores_of(ctx, r)
    rk = ref.ranks(cores, False)
    for k in range(1, len(sz)):
        ctx.true('rank bound', rk[k] <= b[k], 'rank %s bound %s' % (rk, b))
        ctx.true('feasible rank', rk[k] <= feas[k], 'rank %s feasible %s' % (rk, feas))
    y = value_of(cores)
    ctx.true('finite', np.all(np.isfinite(y)), 'not finite')
    err = np.linalg.norm((y - x).ravel())
    sv = ref.unfold_svals(x)
    tails = [ref.tail(s, b[k + 1]) for k, s in enumerate(sv)]
    bound = np.sqrt(sum(t * t for t in tails))
    n = np.linalg.norm(x.ravel())
    bound = max(bound, eps * n)
    rnd = 40. * ref.EPS[dtype] * len(sz) * np.sqrt(max(sz)) * max(n, 0) * 4 + ref.TINY[dtype] * 1e3
    ctx.true('quasi-optimal error', err <= bound * (1 + 1e-6) + rnd,
             lambda: 'error %.6g, bound %.6g, rounding %.3g, norm %.6g' % (err, bound, rnd, n))
    return err, bound


def case(ctx, rng, st):
    d = 1 if st == 'one axis' else gen.ndims(rng, 1, 7)
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    matrix = 'matrix' in st or (st in ('exact', 'special') and rng.random() < .4)
    restr = st.startswith('restrictive') or (st in ('tensor', 'matrix') and rng.random() < .4)
    if matrix:
        d = min(d, 5)
        g = [list(v) for v in gen.matrix_sizes(rng, d, 1500)]
        sz = [a * b for a, b in zip(*g)]
    else:
        sz = gen.sizes(rng, d, 1500)
        g = None
    x, style = dense_input(rng, sz, dtype)
    if st == 'special':
        x = np.zeros(sz, gen.NPD[dtype]) if rng.random() < .5 else np.eye(sz[0], int(np.prod(sz[1:])) if d > 1 else 1
                                                                         ).reshape(sz).astype(gen.NPD[dtype])
        restr = False
    arg, b, form = bounds(rng, sz, restr)
    default = not restr and max(ref.feasible_ranks(sz)) <= 10 and rng.random() < .3
    inp = gen.pick(rng, ['tf', 'np', 'list'], [3, 2, .3])
    if dtype == 'float64' and inp == 'list':
        inp = 'np'
    ctx.note('%s sizes=%s groups=%s %s %s max_tt_rank=%s %s input=%s' % (
        'matrix' if matrix else 'tensor', sz, g, style, dtype, arg, form, inp))
    ctx.sig(st, sz, g, style, dtype, b, form)
    src = ref.tensor_to_dense(x, *g) if matrix else x
    if matrix and 1 in src.shape and rng.random() < .3:
        # A vector in the other orientation.
        src = src.T.copy()
    lib_in = tf.constant(src) if inp == 'tf' else (gen.layout(rng, src.copy()) if inp == 'np' else src.tolist())
    kw = {} if default else {'max_tt_rank': arg}
    eps = 0.
    if not restr and not default and rng.random() < .2:
        # A requested accuracy is kept.
        eps = gen.pick(rng, [0., 1e-3, 1e-8, .3])
        kw['epsilon'] = eps
    if default:
        b = [10] * (d + 1)
    if matrix:
        shape = gen.pick(rng, [g, tuple(tuple(v) for v in g), np.array(g)])
        r = ctx.call('to_tt_matrix', t3f.to_tt_matrix, lib_in, shape, **kw)
        value_of = lambda c: ref.dense_to_tensor(ref.dense(c), *g)
    else:
        r = ctx.call('to_tt_tensor', t3f.to_tt_tensor, lib_in, **kw)
        value_of = lambda c: ref.dense(c)
    mon.is_kind(ctx, r, False)
    ctx.true('dtype', r.dtype.name == dtype, r.dtype.name)
    cores = mon.cores_of(ctx, r)
    ctx.true('shape of result', ref.modes(cores, False) == (g or [sz]), 'modes %s' % ref.modes(cores, False))
    judge(ctx, r, x.astype(float), sz, b, dtype, value_of, eps)
    if inp == 'np':
        ctx.true('input unchanged', np.array_equal(lib_in, src), 'input array was changed')
