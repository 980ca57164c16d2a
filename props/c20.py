"""C20: traced calls against eager calls and dense results; unknown batch sizes."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops

STRATA = [('static', 6), ('static batch', 5), ('unknown batch', 6), ('two batches', 2), ('graph', 3), ('constants', 1),
          ('initializers', 1)]
QUICK = 1300
THOROUGH = 5000


def traced(inst, spec=None, autograph=True):
    kinds = []

    def f(tcores, dens):
        del kinds[:]
        tts = [(t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)(list(cs)) for o, cs in zip(inst.objs, tcores)]
        out = []
        for r in ops.flat_out(inst.run(tts, dens)):
            k = mon.kind_of(r)
            kinds.append(k)
            out.append(list(r.tt_cores) if k else r)
        return out
    return tf.function(f, input_signature=spec, autograph=autograph), kinds


def call(ctx, inst, g, kinds):
    res = ctx.call('traced ' + inst.name, g, [[tf.constant(c) for c in o.cores] for o in inst.objs],
                   [tf.constant(d[0]) for d in inst.dens])
    out = []
    for k, r in zip(kinds, res):
        out.append(r if k is None else (t3f.TensorTrainBatch if k == 'batch' else t3f.TensorTrain)(list(r)))
    return out


def compare(ctx, inst, res):
    ops.check(ctx, inst, res, 'traced value')
    eager = ops.flat_out(ctx.call('eager ' + inst.name, inst.run))
    _, tol = inst.expected()
    ctx.true('number of results', len(eager) == len(res), 'traced %d, eager %d' % (len(res), len(eager)))
    for a, b, t in zip(res, eager, tol):
        ctx.true('same kind', mon.kind_of(a) == mon.kind_of(b), lambda: '%s: traced %s, eager %s' % (
            inst.name, mon.kind_of(a), mon.kind_of(b)))
        ctx.true('same dtype', mon.dtype_name(a) == mon.dtype_name(b), lambda: '%s: traced %s, eager %s' % (
            inst.name, a.dtype, b.dtype))
        ctx.close('traced equals eager', ops.out_value(ctx, a), ops.out_value(ctx, b), 2 * t)


def case(ctx, rng, st):
    if st == 'initializers':
        return initializers(ctx, rng)
    if st == 'two batches':
        return two_batches(ctx, rng)
    if st == 'graph':
        return graph(ctx, rng)
    n = None if st == 'static' else gen.batch_size(rng)
    if st == 'constants':
        # Objects captured by the function instead of being passed.
        n = gen.batch_size(rng) if rng.random() < .4 else None
        inst = ops.draw(rng, gen.pick(rng, ops.names(batch=n is not None)), n)
        ctx.note(inst.describe())
        ctx.sig(st, inst.sig())
        kinds = []

        def f():
            del kinds[:]
            out = []
            for r in ops.flat_out(inst.run()):
                kinds.append(mon.kind_of(r))
                out.append(list(r.tt_cores) if kinds[-1] else r)
            return out
        res = ctx.call('traced ' + inst.name, tf.function(f))
        compare(ctx, inst, [r if k is None else (t3f.TensorTrainBatch if k == 'batch' else t3f.TensorTrain)(list(r))
                            for k, r in zip(kinds, res)])
        return
    short = st == 'unknown batch' and rng.random() < .3
    for _ in range(200):
        inst = ops.draw(rng, gen.pick(rng, ops.names(batch=n is not None)), n)
        if inst.alias and st == 'unknown batch':
            # Two batches of unknown size.
            continue
        if short and any(len(o.cores) > 1 for o in inst.objs):
            # Objects of one core.
            continue
        u = ops.unknown_args(inst) if st == 'unknown batch' else None
        if u or st != 'unknown batch':
            break
    else:
        ctx.skip('no operation')
    ctx.note('%s unknown=%s' % (inst.describe(), u))
    ctx.sig(st, inst.sig())
    g, kinds = traced(inst, ops.specs(inst, u))
    compare(ctx, inst, call(ctx, inst, g, kinds))
    # The same compiled function with other values (and another batch size).
    n2 = n
    if st == 'unknown batch':
        n2 = gen.batch_size(rng)
        if any(o.bs == 1 and not x for o, x in zip(inst.objs, u) if o.batch) and False:
            n2 = n
    old = [(o.bs, [c.shape for c in o.cores]) for o in inst.objs]
    for _ in range(40):
        inst.fresh(rng, n2)
        # fresh redraws which arguments are batches: take a drawing that fits the signature.
        ok = True
        for o, (b, sh), x in zip(inst.objs, old, u or [False] * len(old)):
            new = [c.shape for c in o.cores]
            if x:
                ok = ok and o.batch and [s[1:] for s in new] == [s[1:] for s in sh]
            else:
                ok = ok and o.bs == b and new == sh
        if ok:
            break
    else:
        return
    ctx.note('then ' + inst.describe())
    compare(ctx, inst, call(ctx, inst, g, kinds))
    ctx.evals['second call of a compiled function'] += 1
    if g.experimental_get_tracing_count() != 1:
        # input_signature makes a second trace impossible; nothing to compare.
        ctx.fail('tracing', 'traced %d times' % g.experimental_get_tracing_count())


def graph(ctx, rng):
    """A graph with placeholders run by a session, for several values."""
    tf1 = tf.compat.v1
    n = gen.batch_size(rng) if rng.random() < .5 else None
    inst = ops.draw(rng, gen.pick(rng, ops.names(batch=n is not None)), n)
    u = (ops.unknown_args(inst) if n is not None and rng.random() < .4 else None) or [False] * len(inst.objs)
    ctx.note('graph %s unknown=%s' % (inst.describe(), u))
    ctx.sig('graph', inst.sig(), u)

    def build():
        sp = ops.specs(inst, u)
        ph = [[tf1.placeholder(s.dtype, s.shape) for s in c] for c in sp[0]]
        pd = [tf1.placeholder(s.dtype, s.shape) for s in sp[1]]
        tts = [(t3f.TensorTrainBatch if o.batch else t3f.TensorTrain)(list(c)) for o, c in zip(inst.objs, ph)]
        res = ops.flat_out(inst.run(tts, pd))
        return ph, pd, [mon.kind_of(r) for r in res], [list(r.tt_cores) if mon.kind_of(r) else r for r in res]
    args = [(inst.objs, inst.dens)]
    sh = [(o.bs, [c.shape for c in o.cores]) for o in inst.objs], [d[0].shape for d in inst.dens]
    inst.fresh(rng, n)
    if sh == ([(o.bs, [c.shape for c in o.cores]) for o in inst.objs], [d[0].shape for d in inst.dens]):
        args.append((inst.objs, inst.dens))
    inst.objs, inst.dens = args[0]
    vals = []
    with tf.Graph().as_default():
        ph, pd, kinds, out = ctx.call('building ' + inst.name, build)
        with tf1.Session() as sess:
            for objs, dens in args:
                fd = {p: v for c, o in zip(ph, objs) for p, v in zip(c, o.cores)}
                fd.update({p: d[0] for p, d in zip(pd, dens)})
                vals.append((objs, dens, ctx.call('running ' + inst.name, sess.run, out, fd)))
    for objs, dens, res in vals:
        inst.objs, inst.dens = objs, dens
        compare(ctx, inst, [tf.constant(r) if k is None else (
            t3f.TensorTrainBatch if k == 'batch' else t3f.TensorTrain)([tf.constant(c) for c in r])
            for k, r in zip(kinds, res)])


def two_batches(ctx, rng):
    """Two batches, the size of at least one of them is unknown when tracing.

    Products assume equal sizes and assert this at run time. Other operations
    may be refused. Nothing may give a wrong value.
    """
    name = gen.pick(rng, ['mul', 'mul', 'mul', 'add', 'sub', 'inner', 'matmul'])
    kind = 'matrix' if name == 'matmul' else gen.pick(rng, ['tensor', 'matrix'])
    dtype = gen.pick(rng, ['float64', 'float32'], [3, 2])
    if name == 'matmul':
        g = [gen.sizes(rng, int(rng.integers(1, 4)), 12)]
        g += [gen.sizes(rng, len(g[0]), 12) for _ in range(2)]
        ra, rb = g[:2], g[1:]
    else:
        ra = rb = ops.raw_of(rng, kind, 1, 4, 100)
    na = gen.batch_size(rng)
    nb = na if rng.random() < .6 else gen.batch_size(rng)
    if rng.random() < .15:
        na, nb = gen.pick(rng, [(1, nb), (na, 1)])
    a = ops.mk(rng, ra, na, dtype, ops.ranks_for(rng, ra, 3))
    b = ops.mk(rng, rb, nb, dtype, ops.ranks_for(rng, rb, 3))
    ua, ub = gen.pick(rng, [(1, 1), (1, 1), (1, 0), (0, 1)])
    f, m, s = {'mul': (t3f.multiply, lambda x, y: x * y, lambda x, y: x * y),
               'add': (t3f.add, lambda x, y: x + y, lambda x, y: x + y),
               'sub': (lambda x, y: x - y, lambda x, y: x - y, lambda x, y: x + y),
               'inner': (t3f.flat_inner, lambda x, y: np.sum(x * y), lambda x, y: np.sum(x * y)),
               'matmul': (t3f.matmul, lambda x, y: x @ y, lambda x, y: x @ y)}[name]
    ctx.note('%s of %s (%s) and %s (%s)' % (name, a.describe(), 'unknown' if ua else 'known', b.describe(),
                                            'unknown' if ub else 'known'))
    ctx.sig('two batches', name, a.raw, a.ranks, na, b.ranks, nb, ua, ub, dtype)
    kinds = []

    def call(ca, cb):
        r = f(t3f.TensorTrainBatch(list(ca)), t3f.TensorTrainBatch(list(cb)))
        kinds.append(mon.kind_of(r))
        return list(r.tt_cores) if kinds[-1] else r
    sp = [[tf.TensorSpec([None if u else o.bs] + list(c.shape[1:]), c.dtype) for c in o.cores]
          for o, u in ((a, ua), (b, ub))]
    g = tf.function(call, input_signature=sp, autograph=False)
    args = [[tf.constant(c) for c in o.cores] for o in (a, b)]
    if name == 'mul' and na == nb:
        r = ctx.call('traced product', g, *args)
    else:
        try:
            r = g(*args)
        except Exception:
            ctx.evals['refused'] += 1
            return
    if na != nb and 1 not in (na, nb):
        ctx.fail('different sizes', 'batches of %d and %d elements gave a result' % (na, nb))
    n = max(na, nb)
    ea, eb = a.elements(), b.elements()
    pair = lambda i: (ea[i if na > 1 else 0], eb[i if nb > 1 else 0])
    want = np.stack([m(ref.dense(x), ref.dense(y)) for x, y in map(pair, range(n))])
    sc = np.stack([s(ref.absdense(x), ref.absdense(y)) for x, y in map(pair, range(n))])
    dep = 16. + ref.depth(a.cores, b.cores) + sum(sum(v) for v in a.raw) + sum(sum(v) for v in b.raw)
    tol = mon.tol_for(dtype, dep, sc)
    if name != 'inner':
        ctx.true('kind', kinds[-1] == 'batch', 'the product of batches is %s' % kinds[-1])
        ctx.close('traced value', ref.dense([c.numpy() for c in r], True), want, tol)
    else:
        ctx.close('traced value', np.asarray(r, float), want, tol)


def initializers(ctx, rng):
    """Fixed initializers and -like functions of batches of unknown size."""
    kind = gen.pick(rng, ['tensor', 'matrix'])
    bs = gen.batch_size(rng)
    o = gen.obj(rng, kind, bs=bs, dhi=5, maxel=300)
    ones = rng.random() < .5
    f = t3f.ones_like if ones else t3f.zeros_like
    ctx.note('%s of unknown batch %s' % (f.__name__, o.describe()))
    ctx.sig('initializers', ones, o.raw, o.dtype)
    g = tf.function(lambda *c: list(f(t3f.TensorTrainBatch(list(c))).tt_cores),
                    input_signature=[tf.TensorSpec([None] + list(c.shape[1:]), c.dtype) for c in o.cores])
    cs = [np.array(c) for c in ctx.call(f.__name__, g, *[tf.constant(c) for c in o.cores])]
    dn = ref.dense(cs)
    want = np.ones(o.dense().shape[1:]) * (1. if ones else 0.)
    ctx.close('traced value', dn, want, 0.)
    ctx.true('dtype', cs[0].dtype.name == o.dtype, 'dtype')
