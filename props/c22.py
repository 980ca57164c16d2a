"""C22: automatic differentiation of functionals of operations against differences of the dense model."""
import copy
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops

NAMES = None
SKIP = ('orth_l2r', 'orth_r2l', 'round', 'l2_reg', 'ones_like', 'zeros_like', 'reduce_sum', 'add_n', 'to_tt_tensor',
        'to_tt_matrix', 'gradients', 'hvp')
# Linear in these arguments; the point of projection goes through QR.
ONLY = {'project': [0], 'project_sum': [0], 'project_matmul': [0, 2], 'tangent_gram': [0], 'tangent_arith': [0, 1]}
STRATA = [('single', 6), ('batch', 4), ('chain', 3)]
QUICK = 2200
THOROUGH = 6000


def names(batch):
    return [n for n in ops.names(batch) if n not in SKIP]


def draw(rng, st):
    n = gen.batch_size(rng) if st == 'batch' else None
    for _ in range(50):
        inst = ops.draw(rng, gen.pick(rng, names(st == 'batch')), n, gen.pick(rng, ['float64', 'float32'], [3, 1]))
        if st == 'chain' and inst.name == 'tangent_arith':
            # Results of two kinds.
            continue
        if (inst.diff or inst.name in ONLY) and (st != 'batch' or any(o.batch for o in inst.objs)):
            return inst


def model(inst, cores, dens):
    """Dense outputs for other cores (float64 arrays) and dense arguments."""
    m = copy.copy(inst)
    m.objs = []
    for o, c in zip(inst.objs, cores):
        x = gen.Obj(o.tt, c, o.bs)
        if hasattr(o, '_proj'):
            x._proj = o._proj
        m.objs.append(x)
    m.dens = [(d, ax) for d, (_, ax) in zip(dens, inst.dens)]
    return m


def derivative(f, poly):
    """Derivative at zero; exact for polynomials of degree four when poly."""
    h = 1. if poly else 2e-4
    d1 = (f(h) - f(-h)) / (2 * h)
    d2 = (f(2 * h) - f(-2 * h)) / (4 * h)
    return (4 * d1 - d2) / 3


def dense_of(r):
    return t3f.full(r) if mon.kind_of(r) else r


def evaluate(inst, tts, dens, ws, chain):
    outs = ops.flat_out(inst.run(tts, dens))
    s = 0.
    for r, w in zip(outs, ws):
        v = chain(r) if mon.kind_of(r) else r
        v = dense_of(v)
        s += tf.reduce_sum(v * tf.constant(w.astype(v.dtype.as_numpy_dtype)))
    return s


def case(ctx, rng, st):
    inst = draw(rng, st)
    want, _ = inst.expected()
    chain, cscale, note = (lambda r: r), 1., ''
    if st == 'chain':
        # The result goes through a further operation before it is measured.
        c = float(gen.pick(rng, [2., -.5]))
        note, chain, cscale = gen.pick(rng, [
            ('scaled', lambda r: r * c, c), ('negated twice', lambda r: -(-r), 1.),
            ('plus itself', lambda r: r + r, 2.), ('minus half of itself', lambda r: r - .5 * r, .5),
            ('expanded', lambda r: t3f.squeeze_batch_dim(t3f.expand_batch_dim(r)) if mon.kind_of(r) == 'tt' else r, 1.)])
    ws = [rng.standard_normal(w.shape) for w in want]
    if not inst.tt_out:
        cscale = 1.
    ctx.note('%s %s' % (inst.describe(), note))
    ctx.sig(st, note, inst.sig())
    how = gen.pick(rng, ['constants', 'variables', 'traced'], [4, 3, 1])
    mk = tf.Variable if how == 'variables' else tf.constant
    cores = [[mk(c) for c in o.cores] for o in inst.objs]
    if inst.alias:
        cores[inst.alias[1]] = cores[inst.alias[0]]
    dens = [tf.constant(d[0]) for d in inst.dens]
    # An object given twice is differentiated once.
    own = [i for i in range(len(cores)) if not inst.alias or i != inst.alias[1]]
    flat = [c for i in own for c in cores[i]] + [d for d in dens if d.dtype.is_floating]

    def grads():
        with tf.GradientTape() as tape:
            tape.watch(flat)
            tts = [(t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)(
                list(cs), convert_to_tensors=(how != 'variables')) for o, cs in zip(inst.objs, cores)]
            if inst.alias:
                tts[inst.alias[1]] = tts[inst.alias[0]]
            val = evaluate(inst, tts, dens, ws, chain)
        return [val] + [tf.zeros_like(x) if g is None else tf.convert_to_tensor(g)
                        for g, x in zip(tape.gradient(val, flat), flat)]
    res = ctx.call('differentiating %s' % inst.name, tf.function(grads) if how == 'traced' else grads)
    gs = [np.asarray(g, np.float64) for g in res[1:]]
    base_c = [[c.astype(np.float64) for c in o.cores] for o in inst.objs]
    base_d = [d[0].astype(np.float64) if d[0].dtype.kind == 'f' else d[0] for d in inst.dens]
    # Positions: (object, core) and (None, dense argument).
    pos = [(i, k) for i in own for k in range(len(inst.objs[i].cores))] + \
        [(None, k) for k, d in enumerate(dens) if d.dtype.is_floating]
    low = inst.cast or inst.dtype
    todo = list(range(len(pos)))
    if inst.name in ONLY:
        todo = [t for t in todo if pos[t][0] in ONLY[inst.name] or pos[t][0] is None]
    if len(todo) > 7:
        todo = [todo[int(v)] for v in rng.permutation(len(todo))[:7]]
    for t in todo:
        i, k = pos[t]
        x = base_d[k] if i is None else base_c[i][k]
        g = gs[t]
        ctx.true('shape of a gradient', g.shape == x.shape, lambda: '%s for an argument of shape %s' % (g.shape, x.shape))
        r = np.sqrt(np.mean(x ** 2)) or 1.
        if i is not None and inst.objs[i].batch:
            # The step suits every element.
            r = np.sqrt(np.mean(x ** 2, axis=tuple(range(1, x.ndim)), keepdims=True))
            r = np.where(r > 0, r, 1. if inst.poly else 0.)
        D = rng.standard_normal(x.shape) * r
        if inst.name == 'k_chol':
            a = D[..., 0, :, :, 0]
            D = ((a + np.swapaxes(a, -1, -2)) / 2).reshape(x.shape)

        def put(v):
            c, d = [list(cs) for cs in base_c], list(base_d)
            if i is None:
                d[k] = v
            else:
                c[i][k] = v
                if inst.alias and i == inst.alias[0]:
                    c[inst.alias[1]] = c[i]
            return model(inst, c, d)

        def f(h):
            w, _ = put(x + h * D).expected()
            return cscale * sum(float(np.sum(a * b)) for a, b in zip(w, ws))
        exp = derivative(f, inst.poly)
        # Error scale: the model's tolerance at the sum of absolute values.
        big = put(np.abs(x) + 2 * np.abs(D))
        if inst.name.startswith('k_'):
            big = put(x)
        big.cast = low
        _, tol = big.expected()
        s = sum(float(np.sum(np.abs(w) * tt)) for w, tt in zip(ws, tol)) * abs(cscale)
        tol = 16 * s + 1e-30
        if not inst.poly:
            tol = 200 * s + 1e-7 * (abs(exp) + s / ref.EPS[low] * 1e-1)
        got = float(np.sum(g * D))
        what = 'dense argument %d' % k if i is None else 'core %d of argument %d' % (k, i)
        ctx.close('gradient w.r.t. ' + ('dense argument' if i is None else 'core'), got, exp, tol,
                  '%s, derivative by %s' % (inst.name, what))
        if abs(exp) > 1e3 * tol:
            ctx.evals['non-zero derivative resolved'] += 1
