"""C17: histories of creations, assignments, optimizer steps and reads against an exact model of cores."""
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon, ops

tf1 = tf.compat.v1
STRATA = [('eager', 6), ('function', 3), ('graph', 4), ('sharing', 3), ('regularizer graph', 2), ('regularizer eager', 1),
          ('refused', 2), ('operations', 6)]
QUICK = 1400
THOROUGH = 6500


class Var(object):
    def __init__(self, name, v, init, trainable):
        self.name, self.v, self.init, self.trainable = name, v, init, trainable
        self.model = [c.copy() for c in init.cores]
        self.bs = init.bs
        self.readers = {}


def new_init(rng, container=None):
    kind = gen.pick(rng, ['tensor', 'matrix'])
    bs = gen.count(rng, int(rng.integers(1, 4)), hi=20) if rng.random() < .3 else None
    many = int(rng.integers(6, 15 if kind == 'tensor' else 10)) if rng.random() < .05 else None
    return gen.obj(rng, kind, d=many, bs=bs, maxel=200, dhi=5, rmax=4, style=gen.pick(rng, ['normal', 'int', 'scaled']),
                   container=container)


def like(rng, model, bs, container=None):
    """An object of the same structure with other values."""
    cs = [rng.standard_normal(c.shape).astype(c.dtype) for c in model]
    if rng.random() < .25:
        gen.tie(rng, cs)
    return gen.wrap(rng, cs, bs, container)


def scale_of(model, bs):
    return ref.absdense(model, bs is not None)


def same(a, b):
    return len(a) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and np.array_equal(x, y)
                                    for x, y in zip(a, b))


def cores_np(tt):
    return [np.array(c.numpy()) for c in tt.tt_cores]


def check_all(ctx, live, frozen, when):
    for x in live:
        got = cores_np(x.v)
        ctx.true('variable holds its value', same(got, x.model), lambda: '%s: variable %s does not hold its value' % (
            when, x.name))
    for what, tt, cores in frozen:
        ctx.true('other objects unchanged', same(cores_np(tt), cores), lambda: '%s: %s changed' % (when, what))


def check_meta(ctx, x):
    v, i = x.v, x.init.tt
    mon.is_kind(ctx, v, x.bs is not None, 'variable')
    ctx.true('variable describes itself like the initializer', v.get_shape() == i.get_shape() and
             v.get_raw_shape() == i.get_raw_shape() and v.get_tt_ranks() == i.get_tt_ranks() and
             v.dtype == i.dtype and v.is_tt_matrix() == i.is_tt_matrix() and v.ndims() == i.ndims(),
             lambda: '%s vs %s' % (v, i))
    ctx.true('one variable per core', len(v.tt_cores) == len(i.tt_cores) and
             all(isinstance(c, tf.Variable) for c in v.tt_cores), 'cores are not variables')


def lib_read(ctx, rng, x):
    """A read through the library, against the model."""
    b = x.bs is not None
    dt = x.model[0].dtype.name
    dn = ref.dense(x.model, b)
    tol = mon.tol_for(dt, ref.depth(x.model), scale_of(x.model, x.bs))
    how = gen.pick(rng, ['full', 'twice', 'function', 'transpose', 'ident'])
    if how == 'full':
        ctx.close('read', ctx.call('full', t3f.full, x.v), dn, tol)
    elif how == 'twice':
        ctx.close('read', ctx.call('full', lambda: t3f.full(x.v * 2)), 2 * dn, 4 * tol)
    elif how == 'transpose' and len(ref.modes(x.model, b)) == 2:
        ctx.close('read', ctx.call('full', lambda: t3f.full(t3f.transpose(x.v))), np.swapaxes(dn, -1, -2),
                  np.swapaxes(tol, -1, -2))
    elif how == 'function':
        # Traced once, called after later assignments.
        if 'f' not in x.readers:
            x.readers['f'] = tf.function(lambda: t3f.full(x.v))
        ctx.close('read in a function', ctx.call('traced read', x.readers['f']), dn, tol)
    else:
        v = ctx.call('neg', lambda: -x.v)
        ctx.close('read', mon.value(ctx, v, b), -dn, tol)


def create(ctx, rng, live, frozen, names, mode):
    init = new_init(rng, gen.pick(rng, ['np', 'tf', 'var'], [2, 3, 1]))
    if live and rng.random() < .15:
        # From another variable.
        src = gen.pick(rng, live)
        init = gen.Obj(src.v, [c.copy() for c in src.model], src.bs)
    else:
        frozen.append(('initializer', init.tt, [c.copy() for c in init.cores]))
    name = gen.pick(rng, ['v', 'v_1', 'core', 'a/b', 'x', 'x1', 'x/core_0']) if mode == 'eager' and rng.random() < .4 \
        else 'v%d' % len(names)
    names.append(name)
    kw = {}
    tr = True
    if rng.random() < .4:
        tr = bool(rng.random() < .5)
        kw['trainable'] = tr
    if rng.random() < .3:
        kw['dtype'] = init.tt.dtype
    if rng.random() < .1:
        kw['validate_shape'] = bool(rng.random() < .5)
    v = ctx.call('get_variable', t3f.get_variable, name, initializer=init.tt, **kw)
    x = Var(name, v, init, tr)
    live.append(x)
    ctx.note('create %s %s %s' % (name, kw, init.describe()))
    check_meta(ctx, x)
    for c in v.tt_cores:
        ctx.true('trainable flag', c.trainable == tr, 'trainable is %s' % c.trainable)
    return x


def eager(ctx, rng, st):
    live, frozen, names = [], [], []
    create(ctx, rng, live, frozen, names, 'eager')
    ops = []
    for _ in range(int(rng.integers(5, 14))):
        op = gen.pick(rng, ['create', 'assign', 'assign_self', 'assign_other', 'step', 'read', 'assign_fn'],
                      [2, 4, 2, 1, 3, 4, 3 if st == 'function' else 1])
        x = gen.pick(rng, live)
        ops.append(op)
        b = x.bs is not None
        if op == 'create':
            if len(live) < 5:
                create(ctx, rng, live, frozen, names, 'eager')
        elif op == 'assign':
            o = like(rng, x.model, x.bs, gen.pick(rng, ['np', 'tf', 'var']))
            frozen.append(('assigned object', o.tt, [c.copy() for c in o.cores]))
            ctx.note('assign to %s' % x.name)
            r = ctx.call('assign', t3f.assign, x.v, o.tt)
            x.model = [c.copy() for c in o.cores]
            ctx.true('result of assign', same(cores_np(r), x.model) and mon.kind_of(r) == ('batch' if b else 'tt') and
                     r.get_tt_ranks() == x.v.get_tt_ranks(), 'assign returns another value')
        elif op == 'assign_self':
            # A value computed from the variable itself, of the same ranks.
            ctx.note('assign to %s from itself' % x.name)
            k = float(gen.pick(rng, [2., -.5, 1., 3.]))
            e = ctx.call('scale', lambda: x.v * k)
            want = cores_np(e)
            ctx.call('assign', t3f.assign, x.v, e)
            old = x.model
            x.model = want
            ctx.close('scaled value', ref.dense(x.model, b), k * ref.dense(old, b),
                      mon.tol_for(x.model[0].dtype.name, ref.depth(old), abs(k) * scale_of(old, x.bs)))
        elif op == 'assign_other':
            y = [z for z in live if z is not x and [c.shape for c in z.model] == [c.shape for c in x.model] and
                 z.model[0].dtype == x.model[0].dtype and z.bs == x.bs]
            if y:
                y = gen.pick(rng, y)
            else:
                o = like(rng, x.model, x.bs, 'tf')
                v = ctx.call('get_variable', t3f.get_variable, 'w%d' % len(names), initializer=o.tt)
                names.append('w')
                y = Var('w%d' % len(names), v, o, True)
                live.append(y)
            ctx.note('assign %s to %s' % (y.name, x.name))
            ctx.call('assign', t3f.assign, x.v, y.v)
            x.model = [c.copy() for c in y.model]
        elif op == 'assign_fn':
            ctx.note('assign to %s in a function' % x.name)
            if 'w' not in x.readers:
                cls = t3f.TensorTrainBatch if b else t3f.TensorTrain
                x.readers['w'] = tf.function(lambda *c: t3f.full(t3f.assign(x.v, cls(list(c)))))
            o = like(rng, x.model, x.bs, 'tf')
            r = ctx.call('traced assign', x.readers['w'], *[tf.constant(c) for c in o.cores])
            x.model = [c.copy() for c in o.cores]
            ctx.close('value of traced assign', r, ref.dense(x.model, b),
                      mon.tol_for(x.model[0].dtype.name, ref.depth(x.model), scale_of(x.model, x.bs)))
        elif op == 'step':
            tr = [z for z in live if z.trainable]
            if not tr:
                continue
            x = gen.pick(rng, tr)
            ctx.note('optimizer step on %s' % x.name)
            c = rng.standard_normal(ref.dense(x.model, x.bs is not None).shape)

            def loss():
                return tf.reduce_sum(t3f.full(x.v) * tf.constant(c, x.v.dtype))
            with tf.GradientTape() as t:
                l = ctx.call('loss', loss)
            g = t.gradient(l, list(x.v.tt_cores))
            ctx.true('all cores are watched', all(v is not None for v in g), 'a core of a trainable variable has no gradient')
            gm = max(float(np.max(np.abs(v.numpy()))) for v in g)
            # A power of two: the same number in every type; small against the gradient.
            lr = 2. ** -7 if gm == 0 else 2. ** int(np.clip(np.floor(-np.log2(gm)) - 3, -60, 0))
            opt = gen.pick(rng, ['sgd', 'manual'])
            if opt == 'sgd':
                tf.keras.optimizers.SGD(lr).apply_gradients(list(zip(g, x.v.tt_cores)))
            else:
                for cc, gg in zip(x.v.tt_cores, g):
                    cc.assign_sub(tf.cast(lr, cc.dtype) * gg)
            old = x.model
            x.model = cores_np(x.v)
            for a, m, gg in zip(old, x.model, g):
                gg = gg.numpy().astype(float)
                ctx.close('step', m, a - lr * gg, 8 * ref.EPS[a.dtype.name] * (np.abs(a) + np.abs(lr * gg)) + 1e-30)
        else:
            lib_read(ctx, rng, x)
        check_all(ctx, live, frozen, op)
    for x in live:
        lib_read(ctx, rng, x)
    check_all(ctx, live, frozen, 'end')
    ctx.sig(st, ops, [(x.name, [c.shape for c in x.model]) for x in live])


def operations(ctx, rng, st):
    """Any operation on variables, before and after assignments, gives what the current values give."""
    n = gen.batch_size(rng) if rng.random() < .4 else None
    inst = ops.draw(rng, gen.pick(rng, [k for k in ops.names(batch=n is not None) if not k.startswith('to_tt')]), n)
    ctx.note(inst.describe())
    how = gen.pick(rng, ['get_variable', 'raw', 'mixed'])
    vs = []
    for k, o in enumerate(inst.objs):
        cls = t3f.TensorTrainBatch if o.batch else t3f.TensorTrain
        if how == 'mixed' and rng.random() < .5:
            vs.append(None)
        elif how == 'raw':
            vs.append(cls([tf.Variable(c) for c in o.cores], convert_to_tensors=False))
        else:
            vs.append(ctx.call('get_variable', t3f.get_variable, 'v%d' % k, initializer=cls([tf.constant(c) for c in o.cores])))
    log = []
    f = None
    for step in range(int(rng.integers(2, 5))):
        if step:
            inst.fresh(rng, inst.n)
            for v, o in zip(vs, inst.objs):
                if v is None:
                    continue
                w = gen.pick(rng, ['assign', 'cores', 'function'])
                log.append(w)
                if w == 'assign':
                    cls = t3f.TensorTrainBatch if o.batch else t3f.TensorTrain
                    ctx.call('assign', t3f.assign, v, cls([tf.constant(c) for c in o.cores]))
                elif w == 'cores':
                    for a, c in zip(v.tt_cores, o.cores):
                        a.assign(c)
                else:
                    tf.function(lambda: [a.assign(c) for a, c in zip(v.tt_cores, o.cores)])()
        args = [o.tt if v is None else v for v, o in zip(vs, inst.objs)]
        dens = [tf.constant(d[0]) for d in inst.dens]
        for _ in range(int(rng.integers(1, 3))):
            ops.check(ctx, inst, ctx.call(inst.name, inst.run, args, dens), 'operation on variables')
        for v, o in zip(vs, inst.objs):
            if v is not None:
                ctx.true('variable holds its value', same(cores_np(v), o.cores), 'after %s' % inst.name)
    ctx.sig(st, inst.sig(), how, log)


def path(scopes, name):
    return '/'.join(list(scopes) + [name])


def in_scopes(scopes, reuse, f):
    if not scopes:
        if reuse:
            with tf1.variable_scope(tf1.get_variable_scope(), reuse=True):
                return f()
        return f()
    with tf1.variable_scope(scopes[0], reuse=True if reuse and len(scopes) == 1 else None):
        return in_scopes(scopes[1:], reuse and len(scopes) > 1, f)


def graph(ctx, rng, st):
    """v1 graph mode: values through sessions, two sessions at a time."""
    g = tf.Graph()
    with g.as_default():
        live, ops = [], []
        for k in range(int(rng.integers(1, 4))):
            o = new_init(rng, 'np')
            scopes = [gen.pick(rng, ['s', 't']) for _ in range(int(rng.integers(0, 3)))]
            tr = bool(rng.random() < .6)
            v = ctx.call('get_variable', in_scopes, scopes, False, lambda: t3f.get_variable(
                'v%d' % k, initializer=o.tt, trainable=tr))
            x = Var(path(scopes, 'v%d' % k), v, o, tr)
            x.scopes = scopes
            live.append(x)
            check_meta(ctx, x)
            ctx.note('create %s trainable=%s %s' % (x.name, tr, o.describe()))
            trv = tf1.trainable_variables()
            glob = tf1.global_variables()
            ctx.true('collections', all(any(c is y for y in glob) and any(c is y for y in trv) == tr for c in v.tt_cores),
                     'cores in wrong collections')
        ctx.true('number of variables', len(tf1.global_variables()) == sum(len(x.model) for x in live), 'extra variables')
        assigns, reads = [], []
        for x in live:
            x.read = ctx.call('full', t3f.full, x.v)
            x.ph = [tf1.placeholder(c.dtype, c.shape) for c in x.model]
            cls = t3f.TensorTrainBatch if x.bs is not None else t3f.TensorTrain
            kw = {'name': 'some_name'} if rng.random() < .3 else {}
            r = ctx.call('assign', t3f.assign, x.v, cls(x.ph), **kw)
            mon.is_kind(ctx, r, x.bs is not None, 'assign')
            x.asg = [tf.identity(c) for c in r.tt_cores]
            x.asg_full = ctx.call('full', t3f.full, r)
            if rng.random() < .3:
                # The same variable found again.
                y = ctx.call('reuse', in_scopes, x.scopes, True, lambda: t3f.get_variable(
                    x.name.split('/')[-1], dtype=x.v.dtype))
                x.read = ctx.call('full', t3f.full, y)
        init = tf1.global_variables_initializer()
        nsess = 2 if rng.random() < .4 else 1
        sess = [tf1.Session(graph=g, config=tf1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1))
                for _ in range(nsess)]
        try:
            for s in sess:
                s.run(init)
            models = [[[c.copy() for c in x.init.cores] for x in live] for _ in sess]
            for _ in range(int(rng.integers(3, 9))):
                si = int(rng.integers(nsess))
                s = sess[si]
                i = int(rng.integers(len(live)))
                x = live[i]
                op = gen.pick(rng, ['assign', 'read', 'init'], [4, 3, 1])
                ops.append((op, i, si))
                if op == 'assign':
                    o = like(rng, x.model, x.bs, 'np')
                    fd = dict(zip(x.ph, o.cores))
                    models[si][i] = [c.copy() for c in o.cores]
                    if rng.random() < .5:
                        got = s.run(x.asg, fd)
                        ctx.true('result of assign', same(got, o.cores), 'assign returns another value')
                    else:
                        got = s.run(x.asg_full, fd)
                        ctx.close('result of assign', got, o.dense(), mon.tol_for(o.dtype, ref.depth(o.cores), o.absdense()))
                elif op == 'init':
                    s.run(init)
                    models[si] = [[c.copy() for c in y.init.cores] for y in live]
                else:
                    m = models[si][i]
                    ctx.close('read', s.run(x.read), ref.dense(m, x.bs is not None),
                              mon.tol_for(m[0].dtype.name, ref.depth(m), scale_of(m, x.bs)))
                for sj in range(nsess):
                    for j, y in enumerate(live):
                        ctx.true('variable holds its value', same(sess[sj].run(list(y.v.tt_cores)), models[sj][j]),
                                 lambda: 'after %s of %s: variable %s' % (op, x.name, y.name))
        finally:
            for s in sess:
                s.close()
    ctx.sig(st, ops, [(x.name, [c.shape for c in x.model]) for x in live])


def sharing(ctx, rng, st):
    """Scopes and reuse: the model is a dictionary from full names to objects."""
    g = tf.Graph()
    with g.as_default():
        known, log = {}, []
        inits = {}
        for _ in range(int(rng.integers(6, 16))):
            scopes = [gen.pick(rng, ['s', 't', 's1']) for _ in range(int(rng.integers(0, 3)))]
            name = gen.pick(rng, ['v', 'v1', 'x', 's'])
            p = path(scopes, name)
            reuse = bool(rng.random() < .5)
            o = new_init(rng, 'np')
            given = (not reuse) or rng.random() < .4
            kw = {'initializer': o.tt} if given else {}
            if reuse and p in known:
                # The dtype of a reused variable defaults to float32.
                kw['dtype'] = known[p].dtype
            log.append((p, reuse, p in known, given))
            ctx.note('get %s reuse=%s initializer=%s known=%s' % (p, reuse, given, p in known))

            def f():
                return t3f.get_variable(name, **kw)
            n0 = len(tf1.global_variables())
            if reuse:
                if p in known:
                    v = ctx.call('reuse', in_scopes, scopes, True, f)
                    ctx.true('the existing variable is returned', v is known[p] or all(
                        a is b for a, b in zip(v.tt_cores, known[p].tt_cores)) and len(v.tt_cores) == len(known[p].tt_cores)
                        and v.get_shape() == known[p].get_shape() and mon.kind_of(v) == mon.kind_of(known[p]),
                        lambda: '%s: another variable' % p)
                else:
                    ctx.raises('missing variable refused', in_scopes, scopes, True, f)
                ctx.true('nothing created', len(tf1.global_variables()) == n0, '%s: variables were created' % p)
            elif p in known:
                ctx.raises('duplicate variable refused', in_scopes, scopes, False, f)
                ctx.true('nothing created', len(tf1.global_variables()) == n0, '%s: variables were created' % p)
            else:
                v = ctx.call('create', in_scopes, scopes, False, f)
                known[p] = v
                inits[p] = o
                ctx.true('cores created', len(tf1.global_variables()) == n0 + len(o.cores), 'wrong number of variables')
                ctx.true('name', v.name == p, lambda: 'name %s instead of %s' % (v.name, p))
        with tf1.Session(graph=g) as s:
            s.run(tf1.global_variables_initializer())
            for p, v in known.items():
                o = inits[p]
                ctx.true('initial value', same(s.run(list(v.tt_cores)), o.cores), '%s: not its initializer' % p)
    ctx.sig(st, log)


def penalty(rng, init):
    s = float(gen.pick(rng, [.1, 1., 2.5]))
    b = init.bs is not None
    if rng.random() < .5 and not b:
        dn = init.dense()
        sc = s * (ref.interfaces_scale(init.cores) ** 2)
        return t3f.l2_regularizer(s), s * np.sum(dn ** 2), sc
    val = s * sum(np.sum(c.astype(float) ** 2) for c in init.cores)
    return t3f.cores_regularizer(lambda c: tf.reduce_sum(c ** 2), s), val, val


def regularized(ctx, rng, st):
    if st.endswith('eager'):
        o = new_init(rng, 'tf')
        reg, val, sc = penalty(rng, o)
        calls = []

        def r(v):
            calls.append(v)
            return reg(v)
        v = ctx.call('get_variable with a regularizer', t3f.get_variable, 'v', initializer=o.tt, regularizer=r)
        x = Var('v', v, o, True)
        check_meta(ctx, x)
        ctx.true('variable holds its value', same(cores_np(v), o.cores), 'value')
        ctx.true('regularizer applied once', len(calls) == 1, '%d calls' % len(calls))
        ctx.close('penalty', reg(v), val, 64 * ref.EPS[o.dtype] * ref.depth(o.cores, o.cores) * sc + 1e-30)
        ctx.sig(st, o.raw, o.ranks, o.bs)
        return
    g = tf.Graph()
    with g.as_default():
        want, objs = [], []
        for k in range(int(rng.integers(1, 5))):
            o = new_init(rng, 'np')
            mode = gen.pick(rng, ['none', 'reg', 'reg', 'reg', 'zero'])
            kw = {}
            if mode == 'reg':
                kw['regularizer'], val, sc = penalty(rng, o)
                want.append((val, 64 * ref.EPS[o.dtype] * ref.depth(o.cores, o.cores) * sc + 1e-30))
            elif mode == 'zero':
                kw['regularizer'] = t3f.l2_regularizer(0.)
            with tf1.variable_scope(gen.pick(rng, ['a', 'b', 'a/b'])):
                v = ctx.call('get_variable', t3f.get_variable, 'v%d' % k, initializer=o.tt, **kw)
            ctx.note('v%d %s %s' % (k, mode, o.describe()))
            objs.append((o, v, mode))
            losses = tf1.get_collection(tf1.GraphKeys.REGULARIZATION_LOSSES)
            ctx.true('recorded once', len(losses) == len(want), lambda: '%d losses recorded, %d regularizers' % (
                len(losses), len(want)))
            if rng.random() < .4:
                with tf1.variable_scope(tf1.get_variable_scope(), reuse=True):
                    with tf1.variable_scope(v.name.rsplit('/', 1)[0], reuse=True):
                        ctx.call('reuse', t3f.get_variable, 'v%d' % k, dtype=v.dtype, **kw)
                ctx.true('not recorded again', len(tf1.get_collection(tf1.GraphKeys.REGULARIZATION_LOSSES)) == len(want),
                         'reuse records a loss again')
        with tf1.Session(graph=g) as s:
            s.run(tf1.global_variables_initializer())
            got = s.run(tf1.get_collection(tf1.GraphKeys.REGULARIZATION_LOSSES))
            for a, (w, t) in zip(got, want):
                ctx.close('recorded penalty', a, w, t)
    ctx.sig(st, [(o.raw, o.ranks, o.bs, m) for o, v, m in objs])


def refused(ctx, rng, st):
    mode = gen.pick(rng, ['no initializer', 'dtype', 'shape', 'ranks', 'assign dtype'])
    o = new_init(rng, 'tf')
    ctx.note('%s %s' % (mode, o.describe()))
    ctx.sig(st, mode, o.raw, o.ranks, o.bs)
    other = tf.float32 if o.dtype == 'float64' else tf.float64
    if mode == 'no initializer':
        ctx.raises('refused', t3f.get_variable, 'v')
        return
    if mode == 'dtype':
        ctx.raises('refused', t3f.get_variable, 'v', initializer=o.tt, dtype=other)
        ctx.call('get_variable', t3f.get_variable, 'v', initializer=o.tt, dtype=o.tt.dtype)
        return
    v = ctx.call('get_variable', t3f.get_variable, 'v', initializer=o.tt)
    good = like(rng, o.cores, o.bs, 'tf')
    if mode == 'assign dtype':
        bad = t3f.cast(good.tt, other)
    else:
        off = 1 if o.bs is not None else 0
        cs = [c.copy() for c in o.cores]
        if mode == 'shape' or len(cs) == 1:
            k = int(rng.integers(len(cs)))
            cs[k] = np.concatenate([cs[k], cs[k]], axis=1 + off)
        else:
            k = int(rng.integers(len(cs) - 1))
            cs[k] = np.concatenate([cs[k], cs[k]], axis=-1)
            cs[k + 1] = np.concatenate([cs[k + 1], cs[k + 1]], axis=off)
        bad = gen.wrap(rng, cs, o.bs, 'tf', explicit=False).tt
    ctx.raises('refused', t3f.assign, v, bad)
    ctx.call('assign', t3f.assign, v, good.tt)
    ctx.true('variable holds its value', same(cores_np(v), good.cores), 'value')


def case(ctx, rng, st):
    {'eager': eager, 'function': eager, 'graph': graph, 'sharing': sharing, 'regularizer graph': regularized,
     'regularizer eager': regularized, 'refused': refused, 'operations': operations}[st](ctx, rng, st)
