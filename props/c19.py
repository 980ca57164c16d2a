"""C19: reported shapes, ranks, dtype and batch sizes against the cores; refusals of bad cores."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops

STRATA = [('op', 12), ('op batch', 10), ('traced op', 2), ('traced batch', 2), ('constructor', 6), ('defect', 8)]
QUICK = 2600
THOROUGH = 16000


def static_report(tt):
    r = {'shape': tt.get_shape().as_list(), 'raw': [g.as_list() for g in tt.get_raw_shape()],
         'ranks': tt.get_tt_ranks().as_list(), 'ndims': tt.ndims(), 'dtype': tt.dtype.name, 'matrix': tt.is_tt_matrix()}
    if isinstance(tt, t3f.TensorTrainBatch):
        r['bs'] = tt.batch_size
    return r


def agrees(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(agrees(x, y) for x, y in zip(a, b))
    return a is None or a == b


def check_traced(ctx, rng, inst, unknown):
    """Static reports of objects inside a traced function against the cores that come out."""
    seen = []

    def f(tcores, dens):
        del seen[:]
        tts = []
        for o, cs in zip(inst.objs, tcores):
            cls = t3f.TensorTrainBatch if o.batch else t3f.TensorTrain
            tts.append(cls(list(cs)))
        out = []
        for r in ops.flat_out(inst.run(tts, dens)):
            k = mon.kind_of(r)
            if k:
                seen.append((k, static_report(r)))
                q = [t3f.shape(r), t3f.raw_shape(r), t3f.tt_ranks(r)]
                if k == 'batch':
                    q.append(t3f.batch_size(r))
                out.append((list(r.tt_cores), q))
        return out
    spec = None
    tc = [[tf.constant(c) for c in o.cores] for o in inst.objs]
    dn = [tf.constant(d[0]) for d in inst.dens]
    if unknown:
        spec = ops.specs(inst, unknown)
    out = ctx.call('traced', tf.function(f, input_signature=spec), tc, dn)
    for (k, rep), (cores, q) in zip(seen, out):
        cls = t3f.TensorTrainBatch if k == 'batch' else t3f.TensorTrain
        tt = ctx.call('build', cls, list(cores))
        cores, batch, raw, rks = mon.structure(ctx, tt, inst.name)
        bs = cores[0].shape[0] if batch else None
        true = {'shape': mon.overall(raw, bs), 'raw': raw, 'ranks': rks, 'ndims': len(cores), 'dtype': cores[0].dtype.name,
                'matrix': len(raw) == 2, 'bs': bs}
        for key in rep:
            ctx.true('static report in a function', agrees(rep[key], true[key]),
                     lambda: '%s: %s reported %s, cores say %s' % (inst.name, key, rep[key], true[key]))
        want = [true['shape'], [v for g in raw for v in g], rks] + ([[bs]] if batch else [])
        for a, b in zip(q, want):
            ctx.true('dynamic report in a function', mon._ints(a)[0] == list(b),
                     lambda: '%s: dynamic query %s, cores say %s' % (inst.name, a, b))


def case(ctx, rng, st):
    if st in ('op', 'op batch'):
        n = None if st == 'op' else gen.batch_size(rng)
        name = gen.pick(rng, ops.names(batch=n is not None))
        inst = ops.draw(rng, name, n)
        ctx.note(inst.describe())
        ctx.sig(st, inst.sig())
        for o in inst.objs:
            mon.metadata(ctx, o.tt, 'argument')
        for r in ops.flat_out(ctx.call(name, inst.run)):
            if mon.kind_of(r):
                mon.metadata(ctx, r, 'result of ' + name)
                w, _ = inst.expected()
                if len(w) == 1:
                    ctx.true('shape is that of the dense result', tuple(r.get_shape().as_list()) == w[0].shape,
                             lambda: '%s: shape %s, dense result %s' % (name, r.get_shape(), w[0].shape))
            else:
                ctx.true('dense results', hasattr(r, 'dtype'), name)
    elif st.startswith('traced'):
        n = None if st == 'traced op' else gen.batch_size(rng)
        while True:
            name = gen.pick(rng, ops.names(batch=n is not None))
            inst = ops.draw(rng, name, n)
            if inst.tt_out:
                break
        unknown = ops.unknown_args(inst) if n is not None and rng.random() < .6 else None
        if inst.alias:
            # Two batches of unknown size.
            unknown = None
        ctx.note('%s unknown=%s' % (inst.describe(), unknown))
        ctx.sig(st, inst.sig(), unknown)
        check_traced(ctx, rng, inst, unknown)
    elif st == 'constructor':
        bs = gen.batch_size(rng) if rng.random() < .5 else None
        o = gen.obj(rng, gen.pick(rng, ['tensor', 'matrix']), bs=bs)
        ctx.note(o.describe())
        ctx.sig(st, o.raw, o.ranks, bs, o.desc)
        mon.metadata(ctx, o.tt, 'constructed object')
        ctx.true('value is kept', all(np.array_equal(a, b) for a, b in zip(mon.cores_of(ctx, o.tt), o.cores)), 'cores changed')
    else:
        defect(ctx, rng)


def defect(ctx, rng):
    bs = gen.batch_size(rng) if rng.random() < .5 else None
    kind = gen.pick(rng, ['tensor', 'matrix'])
    o = gen.obj(rng, kind, bs=bs, maxel=300, style='normal', dhi=5)
    cs = [c.copy() for c in o.cores]
    d, off = len(cs), 1 if bs is not None else 0
    raw, rks = [list(g) for g in o.raw], list(o.ranks)
    kw = {}
    modes = ['first rank', 'last rank', 'shape', 'shape long', 'shape short', 'ranks', 'ranks long', 'axes', 'kind of shape']
    if d > 1:
        modes += ['neighbours', 'neighbours', 'dtype', 'dtype', 'one core axes', 'ranks inner']
    if bs is not None:
        modes += ['batch_size', 'batch_size']
        if d > 1:
            modes += ['core batch', 'core batch']
    mode = gen.pick(rng, modes)
    k = int(rng.integers(d))

    def double(c, ax):
        return np.concatenate([c, c], ax)

    def shp(r):
        if len(r) == 1:
            return r[0] if rng.random() < .5 else tuple(r[0])
        return r if rng.random() < .5 else tuple(tuple(g) for g in r)
    if mode == 'first rank':
        cs[0] = double(cs[0], off)
    elif mode == 'last rank':
        cs[-1] = double(cs[-1], -1)
    elif mode == 'neighbours':
        k = int(rng.integers(d - 1))
        if rng.random() < .5:
            cs[k] = double(cs[k], -1)
        else:
            cs[k + 1] = double(cs[k + 1], off)
    elif mode == 'dtype':
        cs[k] = cs[k].astype('float32' if o.dtype == 'float64' else 'float64')
    elif mode == 'shape':
        g = int(rng.integers(len(raw)))
        raw[g][k] += int(gen.pick(rng, [1, 2])) if raw[g][k] == 1 or rng.random() < .5 else -1
        kw['shape'] = shp(raw)
    elif mode == 'shape long':
        for g in raw:
            g.append(int(gen.pick(rng, [1, 2])))
        kw['shape'] = shp(raw)
    elif mode == 'shape short':
        if d == 1:
            raw = [[g[0] + 1] for g in raw]
        else:
            raw = [g[:-1] for g in raw]
        kw['shape'] = shp(raw)
    elif mode == 'ranks':
        rks[int(gen.pick(rng, [0, d]))] += 1
        kw['tt_ranks'] = rks
    elif mode == 'ranks inner':
        rks[int(rng.integers(1, d))] += int(gen.pick(rng, [1, 2]))
        kw['tt_ranks'] = rks
    elif mode == 'ranks long':
        if rng.random() < .5:
            ctx.key = 'tt_ranks longer than the list of cores'
            kw['tt_ranks'] = rks + [1]
        else:
            kw['tt_ranks'] = rks[:-1]
    elif mode == 'axes':
        cs = [c[0] for c in cs] if off == 1 and rng.random() < .5 and kind == 'tensor' else [
            c.reshape((1, 1) + c.shape) if kind == 'matrix' else c.reshape((1,) * (3 - off) + c.shape) for c in cs]
        if cs[0].ndim - off in (3, 4):
            return ctx.skip('still valid')
    elif mode == 'one core axes':
        # One matrix core among tensor cores and the other way round.
        c = cs[k]
        cs[k] = c[..., None, :] if kind == 'tensor' else c.reshape(c.shape[:1 + off] + (-1, c.shape[-1]))
    elif mode == 'kind of shape':
        if kind == 'tensor':
            kw['shape'] = [raw[0], [1] * d] if rng.random() < .5 else [raw[0], raw[0]]
        else:
            kw['shape'] = [a * b for a, b in zip(*raw)]
            if d == 1 and False:
                return
    elif mode == 'batch_size':
        kw['batch_size'] = bs + 1 if bs == 1 or rng.random() < .5 else bs - 1
    elif mode == 'core batch':
        cs[k] = double(cs[k], 0) if bs == 1 or rng.random() < .5 else cs[k][:-1]
    if mode in ('first rank', 'last rank', 'neighbours', 'dtype', 'core batch', 'one core axes') and rng.random() < .5:
        # Explicit arguments that agree with the defective cores.
        left = [c.shape[off] for c in cs] + [cs[-1].shape[-1]]
        right = [cs[0].shape[off]] + [c.shape[-1] for c in cs]
        kw['tt_ranks'] = left if rng.random() < .5 else right
        if rng.random() < .5:
            kw['shape'] = shp(raw)
        if bs is not None and rng.random() < .5:
            kw['batch_size'] = bs
    cls = t3f.TensorTrainBatch if bs is not None else t3f.TensorTrain
    how = gen.pick(rng, ['np', 'tf', 'var'])
    wrap = {'np': lambda c: c, 'tf': tf.constant, 'var': tf.Variable}[how]
    if how == 'var':
        kw['convert_to_tensors'] = False
    ctx.note('%s (core %d) %s of %s, arguments %s' % (mode, k, how, o.describe(), kw))
    ctx.sig('defect', mode, o.raw, o.ranks, bs, k, how)
    ctx.raises('inconsistent cores refused', cls, [wrap(c) for c in cs], **kw)
    ctx.call('same without the defect', cls, [wrap(c) for c in o.cores],
             **({'convert_to_tensors': False} if how == 'var' else {}))
