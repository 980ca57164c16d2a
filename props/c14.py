"""C14: Riemannian gradients and Hessian products."""
import numpy as np
import tensorflow as tf
import t3f
from t3f import ops as t3f_ops
from vt import gen, ref, mon
from props.c12 import get_point, to_dense

STRATA = [('gradient', 5), ('gradient traced', 1), ('hessian', 5), ('hessian traced', 1), ('refused', 2),
          ('gradient over', 1), ('gradient checked', 3), ('hessian checked', 2)]
QUICK = 1000
THOROUGH = 5000


class Term(object):
    """lib: function of a TT; val/grad/hv on dense x; gs/hs: scales of gradient and Hessian product."""

    def __init__(self, name, lib, val, grad, hv, vs, gs, hs):
        self.name, self.lib, self.val, self.grad, self.hv = name, lib, val, grad, hv
        self.vs, self.gs, self.hs = vs, gs, hs


def scaled(t, k):
    return Term('%.1g %s' % (k, t.name), lambda x: k * t.lib(x), lambda x: k * t.val(x), lambda x: k * t.grad(x),
                lambda x, v: k * t.hv(x, v), k * t.vs, k * t.gs, lambda V: k * t.hs(V))


def make_term(rng, w, dtype):
    """A random function of the tensor at point w."""
    raw = w.raw
    matrix = len(raw) == 2
    col = matrix and all(v == 1 for v in raw[1])
    opts = ['linear', 'quad', 'cubic', 'norm2', 'norm', 'prod', 'shift', 'exp', 'full']
    if not matrix:
        opts += ['gather', 'gather', 'slice']
    else:
        opts += ['transpose', 'matmul']
    if col:
        opts += ['bilinear', 'bilinear', 'two_mat']
    name = gen.pick(rng, opts)
    X = ref.interfaces_scale(w.cores)
    c = gen.obj(rng, raw=raw, dtype=dtype, rmax=3, rstyle='small', style='normal', container='tf')
    cd = c.dense()
    C = ref.interfaces_scale(c.cores)
    k = 1. / C
    if name == 'linear':
        return Term(name, lambda x: k * t3f.flat_inner(x, c.tt), lambda x: k * np.sum(x * cd), lambda x: k * cd,
                    lambda x, v: 0 * v, X, 1., lambda V: 0.)
    if name == 'quad':
        return Term(name, lambda x: .5 * (k * t3f.flat_inner(c.tt, x)) ** 2, lambda x: .5 * (k * np.sum(x * cd)) ** 2,
                    lambda x: k * k * np.sum(x * cd) * cd, lambda x, v: k * k * np.sum(v * cd) * cd, X * X, X, lambda V: V)
    if name == 'cubic':
        k = k / X
        return Term(name, lambda x: (k * t3f.flat_inner(c.tt, x)) ** 3, lambda x: (k * np.sum(x * cd)) ** 3,
                    lambda x: 3 * k ** 3 * np.sum(x * cd) ** 2 * cd,
                    lambda x, v: 6 * k ** 3 * np.sum(x * cd) * np.sum(v * cd) * cd, 1., 3 / X, lambda V: 6 * V / X ** 2)
    if name == 'norm2':
        return Term(name, lambda x: t3f.frobenius_norm_squared(x, differentiable=True), lambda x: np.sum(x * x),
                    lambda x: 2 * x, lambda x, v: 2 * v, X * X, 2 * X, lambda V: 2 * V)
    if name == 'norm':
        e = float(gen.pick(rng, [1., .1]))
        s = lambda x: np.sqrt(np.sum(x * x) + e)
        x0 = w.dense()
        s0 = s(x0)
        return Term(name, lambda x: t3f.frobenius_norm(x, epsilon=e, differentiable=True), s, lambda x: x / s(x),
                    lambda x, v: v / s(x) - x * np.sum(x * v) / s(x) ** 3, X * X / s0, X / s0 * (1 + X * X / s0 ** 2),
                    lambda V: (V / s0) * (1 + X * X / s0 ** 2) ** 2)
    if name == 'prod':
        return Term(name, lambda x: k * t3f.flat_inner(x * x, c.tt), lambda x: k * np.sum(x * x * cd),
                    lambda x: 2 * k * x * cd, lambda x, v: 2 * k * v * cd, X * X, 2 * X, lambda V: 2 * V)
    if name == 'shift':
        return Term(name, lambda x: t3f.frobenius_norm_squared(x - c.tt * k, differentiable=True),
                    lambda x: np.sum((x - k * cd) ** 2), lambda x: 2 * (x - k * cd), lambda x, v: 2 * v,
                    (X + 1) ** 2, 2 * (X + 1), lambda V: 2 * V)
    if name == 'exp':
        k = k / X
        return Term(name, lambda x: tf.exp(k * t3f.flat_inner(x, c.tt)), lambda x: np.exp(k * np.sum(x * cd)),
                    lambda x: k * np.exp(k * np.sum(x * cd)) * cd,
                    lambda x, v: k * k * np.exp(k * np.sum(x * cd)) * np.sum(v * cd) * cd, 3., 3. / X,
                    lambda V: 3 * V / X ** 2)
    if name == 'full':
        k = 1. / X
        return Term(name, lambda x: tf.reduce_sum(tf.sin(k * t3f.full(x))), lambda x: np.sum(np.sin(k * x)),
                    lambda x: k * np.cos(k * x), lambda x, v: -k * k * np.sin(k * x) * v,
                    np.sqrt(w.dense().size), k * np.sqrt(w.dense().size), lambda V: 4 * k * k * V)
    if name == 'gather':
        m = int(rng.integers(1, 8))
        idx = np.stack([rng.integers(0, s, size=m) for s in raw[0]], 1)
        wt = rng.standard_normal(m)
        sq = bool(rng.random() < .6)
        key = tuple(idx.T)
        wl = tf.constant(wt, gen.TFD[dtype])

        def scat(v):
            r = np.zeros(raw[0])
            np.add.at(r, key, v)
            return r
        if sq:
            return Term(name, lambda x: tf.reduce_sum(wl * t3f.gather_nd(x, idx) ** 2), lambda x: np.sum(wt * x[key] ** 2),
                        lambda x: scat(2 * wt * x[key]), lambda x, v: scat(2 * wt * v[key]), m * 3 * X * X, m * 6 * X,
                        lambda V: m * 6 * V)
        return Term(name, lambda x: tf.reduce_sum(wl * t3f.gather_nd(x, idx)), lambda x: np.sum(wt * x[key]),
                    lambda x: scat(wt), lambda x, v: 0 * v, m * 3 * X, m * 3., lambda V: 0.)
    if name == 'slice':
        j = int(rng.integers(len(raw[0])))
        i = int(rng.integers(raw[0][j]))
        key = tuple(i if q == j else slice(None) for q in range(len(raw[0])))

        def mask(v):
            r = np.zeros(raw[0])
            r[key] = v[key]
            return r
        return Term(name, lambda x: t3f.frobenius_norm_squared(x[key], differentiable=True), lambda x: np.sum(x[key] ** 2),
                    lambda x: 2 * mask(x), lambda x, v: 2 * mask(v), X * X, 2 * X, lambda V: 2 * V)
    if name == 'transpose':
        return Term(name, lambda x: k * t3f.flat_inner(t3f.transpose(x), t3f.transpose(c.tt)), lambda x: k * np.sum(x * cd),
                    lambda x: k * cd, lambda x, v: 0 * v, X, 1., lambda V: 0.)
    A = gen.obj(rng, raw=[raw[0], raw[0]], dtype=dtype, rmax=2, rstyle='small', style='normal', container='tf')
    Ad = A.dense()
    N = ref.interfaces_scale(A.cores)
    if name == 'matmul':
        k = 1. / N
        return Term(name, lambda x: k * k * t3f.frobenius_norm_squared(t3f.matmul(A.tt, x), differentiable=True),
                    lambda x: k * k * np.sum((Ad @ x) ** 2), lambda x: 2 * k * k * Ad.T @ (Ad @ x),
                    lambda x, v: 2 * k * k * Ad.T @ (Ad @ v), X * X, 2 * X, lambda V: 2 * V)
    if name == 'bilinear':
        k = 1. / N
        return Term(name, lambda x: k * t3f.bilinear_form(A.tt, x, x), lambda x: k * np.sum(x * (Ad @ x)),
                    lambda x: k * (Ad + Ad.T) @ x, lambda x, v: k * (Ad + Ad.T) @ v, X * X, 2 * X, lambda V: 2 * V)
    B = gen.obj(rng, raw=[raw[0], raw[0]], dtype=dtype, rmax=2, rstyle='small', style='normal', container='tf')
    M = Ad @ B.dense()
    k = 1. / N / ref.interfaces_scale(B.cores)
    return Term(name, lambda x: k * t3f_ops.bilinear_form_two_mat(x, A.tt, B.tt, x), lambda x: k * np.sum(x * (M @ x)),
                lambda x: k * (M + M.T) @ x, lambda x, v: k * (M + M.T) @ v, X * X, 2 * X, lambda V: 2 * V)


def project_dense(p, z, raw):
    t = z if len(raw) == 1 else ref.dense_to_tensor(z, *raw)
    return to_dense(p(t), raw)


def vector(ctx, rng, w, dtype):
    """A direction: any tensor, the point, or what came out of tangent spaces."""
    how = gen.pick(rng, ['any', 'point', 'projection', 'other projection', 'sum of projections'], [6, 1, 1, 2, 1])
    v = gen.obj(rng, raw=w.raw, dtype=dtype, rmax=4, style='normal')
    if how == 'any':
        return v
    if how == 'point':
        tt = w.tt
    elif how == 'projection':
        tt = ctx.call('project', t3f.project, v.tt, w.tt)
    else:
        # A point of the same ranks, far away or the same tensor with other cores.
        cs = [c if rng.random() < .2 else rng.standard_normal(c.shape).astype(c.dtype) for c in w.cores]
        u = gen.wrap(rng, cs)
        tt = ctx.call('project', t3f.project, v.tt, u.tt)
        if how == 'sum of projections':
            q = gen.obj(rng, raw=w.raw, dtype=dtype, rmax=2, style='normal')
            tt = ctx.call('add_n_projected', t3f.add_n_projected, [tt, ctx.call('project', t3f.project, q.tt, u.tt)])
    return gen.Obj(tt, [np.array(c) for c in mon.cores_of(ctx, tt)], None, how)


def core_functions(rng):
    return gen.pick(rng, [
        ('sum of squares of cores', lambda x: tf.add_n([tf.reduce_sum(c ** 2) for c in x.tt_cores])),
        ('norm plus first core', lambda x: t3f.frobenius_norm_squared(x, differentiable=True) *
         tf.reduce_sum(x.tt_cores[0] ** 2)),
        ('norm plus a core', lambda x: t3f.frobenius_norm_squared(x, differentiable=True) +
         tf.reduce_sum(x.tt_cores[-1] ** 2))])


def case(ctx, rng, st):
    check = 'checked' in st or st == 'refused'
    dtype = 'float64' if check else gen.pick(rng, ['float64', 'float32'], [3, 1])
    w, p = get_point(ctx, rng, dtype, over='over' in st, dhi=5)
    raw = w.raw
    if st == 'refused':
        name, f = core_functions(rng)
        h = rng.random() < .4
        ctx.note('%s of %s %s' % (name, w.describe(), 'hessian' if h else 'gradient'))
        ctx.sig(st, name, raw, w.ranks, h)
        v = gen.obj(rng, raw=raw, dtype=dtype, rstyle='small', style='normal', container='tf')
        # Only meaningful when the values at different sets of cores of the same tensor really differ.
        left = t3f.orthogonalize_tt_cores(w.tt)
        right = t3f.orthogonalize_tt_cores(left, left_to_right=False)
        deltas = [right.tt_cores[0]] + [tf.zeros_like(core) for core in right.tt_cores[1:]]
        v1 = float(f(w.tt))
        for o in (t3f.project(w.tt, w.tt), left, right, t3f.riemannian.deltas_to_tangent_space(deltas, w.tt)):
            v2 = float(f(o))
            if abs(v1 - v2) < 1e-3 * max(abs(v1), abs(v2)):
                ctx.skip('values for different cores are close')
        if h:
            ctx.raises('core-dependent function refused', t3f.hessian_vector_product, f, w.tt, v.tt)
            ctx.call('unchecked', t3f.hessian_vector_product, f, w.tt, v.tt, runtime_check=False)
        else:
            ctx.raises('core-dependent function refused', t3f.gradients, f, w.tt)
            ctx.call('unchecked', t3f.gradients, f, w.tt, runtime_check=False)
        return
    hess = st.startswith('hessian')
    terms = [make_term(rng, w, dtype) for _ in range(int(gen.pick(rng, [1, 2, 3], [4, 3, 1])))]
    if hess and all(t.name in ('linear', 'transpose') or (t.name == 'gather' and t.hs(1.) == 0) for t in terms):
        # The Hessian of a linear function is not defined by automatic differentiation (None).
        X = ref.interfaces_scale(w.cores)
        terms.append(Term('norm2', lambda x: t3f.frobenius_norm_squared(x, differentiable=True),
                          lambda x: np.sum(x * x), lambda x: 2 * x, lambda x, v: 2 * v, X * X, 2 * X, lambda V: 2 * V))
    if rng.random() < .3:
        # Functions of large or small values.
        k = float(10. ** rng.uniform(-5, 6))
        terms = [scaled(t, k) for t in terms]
    f = lambda x: sum(t.lib(x) for t in terms[1:]) + terms[0].lib(x) if len(terms) > 1 else terms[0].lib(x)
    x = w.dense()
    val = sum(t.val(x) for t in terms)
    vs = sum(t.vs for t in terms)
    if check and abs(val) < 1e-5 * vs:
        ctx.skip('function value vanishes')
    ctx.note('%s of %s; point %s cond %.1f' % (st, [t.name for t in terms], w.describe(), p.cond))
    dep = 2 * ref.depth(w.cores, w.cores) + 100
    kw = {} if check else {'runtime_check': False}
    if not check and dtype == 'float64' and abs(val) > 1e-3 * vs and rng.random() < .3:
        kw = {'runtime_check': True}
    traced = 'traced' in st
    if not hess:
        ctx.sig(st, [t.name for t in terms], raw, w.ranks, dtype)
        run = lambda tt: t3f.gradients(f, tt, **kw)
        want = project_dense(p, sum(t.grad(x) for t in terms), raw)
        sc = sum(t.gs for t in terms)
    else:
        v = vector(ctx, rng, w, dtype)
        V = ref.interfaces_scale(v.cores)
        ctx.note('vector: ' + v.describe())
        ctx.sig(st, [t.name for t in terms], raw, w.ranks, v.ranks, dtype)
        run = lambda tt: t3f.hessian_vector_product(f, tt, v.tt, **kw)
        pv = project_dense(p, v.dense(), raw)
        want = project_dense(p, sum(t.hv(x, pv) for t in terms), raw)
        sc = sum(t.hs(V) + t.gs * V / max(np.linalg.norm(x.ravel()), 1e-30) for t in terms)
    if traced:
        def g(*cores):
            return run(t3f.TensorTrain(list(cores))).tt_cores
        cs = ctx.call(st, lambda: tf.function(g)(*[tf.constant(c) for c in w.cores]))
        r = ctx.call('result', t3f.TensorTrain, list(cs))
    else:
        r = ctx.call(st, run, w.tt)
    tol = 64 * ref.EPS[dtype] * dep * p.cond ** (2 if hess else 1) * sc + ref.TINY[dtype] * 1e3
    mon.tt_close(ctx, 'projected Hessian product' if hess else 'projected gradient', r, False, want, tol, full=False)
    rk = ref.ranks(mon.cores_of(ctx, r), False)
    ctx.true('rank at most twice that of the point', all(a <= 2 * b for a, b in zip(rk[1:-1], w.ranks[1:-1])),
             'ranks %s point %s' % (rk, w.ranks))
