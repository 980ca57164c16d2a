"""C18: the TT dense layer against a dense layer with the same matrix and bias."""
import os
import shutil
import tempfile
import numpy as np
import tensorflow as tf
import t3f
from vt import gen, ref, mon

STRATA = [('forward', 8), ('gradient', 5), ('fit', 2), ('restore', 2), ('model', 3), ('independent', 3), ('initial', 3),
          ('refused', 2)]
QUICK = 1100
THOROUGH = 7000

E32 = ref.EPS['float32']
sig = lambda z: np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))


def softmax(z):
    e = np.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


# name: (value, derivative, Lipschitz constant)
ACT = {None: (lambda z: z, lambda z: np.ones_like(z), 1.),
       'linear': (lambda z: z, lambda z: np.ones_like(z), 1.),
       'relu': (lambda z: np.maximum(z, 0), lambda z: (z > 0) * 1., 1.),
       'tanh': (np.tanh, lambda z: 1 - np.tanh(z) ** 2, 1.),
       'sigmoid': (sig, lambda z: sig(z) * (1 - sig(z)), 1.),
       'softplus': (lambda z: np.logaddexp(0, z), sig, 1.),
       'elu': (lambda z: np.where(z > 0, z, np.expm1(np.minimum(z, 0))), lambda z: np.where(z > 0, 1, np.exp(np.minimum(z, 0))), 1.),
       'softmax': (softmax, None, 1.)}
INIT = {'glorot': lambda i, o: 2. / (i + o), 'he': lambda i, o: 2. / i, 'lecun': lambda i, o: 1. / i}


class Conf(object):
    def __init__(self, rng, big=False, inp=None, act='any'):
        d = int(rng.integers(1, 5))
        if inp is not None:
            d = len(inp)
        lo, hi = (1, 7) if not big else (20, 60)
        if big:
            d = int(rng.integers(1, 3))
        self.ins = [int(v) for v in rng.integers(lo, hi, size=d)] if inp is None else list(inp)
        self.outs = [int(v) for v in rng.integers(lo, hi, size=d)]
        for s in (self.ins, self.outs):
            while np.prod(s) > (200 if not big else 10 ** 7):
                s[int(np.argmax(s))] -= 1
        r = int(rng.integers(1, 5))
        if rng.random() < .5:
            self.ranks = [1] + [r] * (d - 1) + [1]
            self.rform = r
        else:
            self.ranks = [1] + [int(v) for v in rng.integers(1, 6, size=d - 1)] + [1]
            self.rform = gen.pick(rng, [list, tuple, np.array])(self.ranks)
        self.act = gen.pick(rng, sorted(ACT, key=str)) if act == 'any' else act
        self.bias = bool(rng.random() < .7)
        self.init = gen.pick(rng, sorted(INIT))
        self.b0 = float(gen.pick(rng, [.1, 0., -1.5, 2.]))
        self.kw = {}
        if not (isinstance(self.rform, int) and self.rform == 2) or rng.random() < .5:
            self.kw['tt_rank'] = self.rform
        if self.act is not None or rng.random() < .5:
            self.kw['activation'] = self.act
        if not self.bias or rng.random() < .5:
            self.kw['use_bias'] = self.bias
        if self.init != 'glorot' or rng.random() < .5:
            self.kw['kernel_initializer'] = self.init
        if self.b0 != .1 or rng.random() < .5:
            self.kw['bias_initializer'] = self.b0
        self.form = [gen.pick(rng, [list, tuple, np.array])(s) for s in (self.ins, self.outs)]
        self.n, self.m = int(np.prod(self.ins)), int(np.prod(self.outs))

    def __str__(self):
        return 'KerasDense(%s, %s, %s)' % (self.ins, self.outs, self.kw)

    def make(self, ctx):
        return ctx.call('constructor', lambda: t3f.nn.KerasDense(self.form[0], self.form[1], **self.kw))

    def sig(self):
        return self.ins, self.outs, self.ranks, self.act, self.bias, self.init


def isbias(w):
    return len(w.shape) == 1


def parts(ctx, conf, layer):
    """Cores and bias read from the layer's reported weights."""
    ws = [np.array(w.numpy() if hasattr(w, 'numpy') else w) for w in layer.trainable_weights]
    want = [(conf.ranks[k], conf.ins[k], conf.outs[k], conf.ranks[k + 1]) for k in range(len(conf.ins))]
    cores = [w for w in ws if w.ndim == 4]
    bias = [w for w in ws if w.ndim == 1]
    ctx.true('reported weights', [c.shape for c in cores] == want and len(bias) == int(conf.bias) and
             len(ws) == len(cores) + len(bias) and (not conf.bias or bias[0].shape == (conf.m,)),
             lambda: '%s: trainable weights %s' % (conf, [w.shape for w in ws]))
    ctx.true('all weights trainable', len(layer.weights) == len(ws) and not layer.non_trainable_weights,
             lambda: '%d weights, %d trainable' % (len(layer.weights), len(ws)))
    return cores, (bias[0].astype(float) if conf.bias else np.zeros(conf.m))


def forward(conf, cores, b, x):
    """Value and its error scale."""
    w = ref.dense(cores)
    z = x @ w + b
    a = np.abs(x) @ ref.absdense(cores) + np.abs(b)
    y = ACT[conf.act][0](z)
    zt = 8 * E32 * (ref.depth(cores) + conf.n) * a
    if conf.act == 'softmax':
        t = 8 * zt.max(-1, keepdims=True) * np.maximum(y, 1e-3) + 16 * E32
    else:
        t = zt * ACT[conf.act][2] + 16 * E32 * np.maximum(np.abs(y), E32) + 1e-30
        if conf.act == 'elu':
            # May be computed as exp(z) - 1.
            t = t + 4 * E32
    return z, y, t, zt


def rows(rng):
    return int(gen.pick(rng, [1, 2, 3, 7, 20, 100, int(rng.integers(100, 1500))]))


def randomize(rng, layer):
    """Other values for all weights."""
    for w in layer.trainable_weights:
        w.assign((rng.standard_normal(tuple(w.shape)) * .7).astype(np.float32))


def case(ctx, rng, st):
    if st == 'refused':
        conf = Conf(rng)
        mode = gen.pick(rng, ['initializer', 'activation', 'dims', 'input'])
        ctx.note('%s %s' % (mode, conf))
        ctx.sig(st, mode, conf.sig())
        kw = dict(conf.kw)
        if mode == 'initializer':
            kw['kernel_initializer'] = gen.pick(rng, ['uniform', 'Glorot', ''])
            ctx.raises('refused', t3f.nn.KerasDense, conf.form[0], conf.form[1], **kw)
        elif mode == 'activation':
            kw['activation'] = 'no_such_activation'
            ctx.raises('refused', lambda: t3f.nn.KerasDense(conf.form[0], conf.form[1], **kw)(tf.ones((2, conf.n))))
        elif mode == 'dims':
            ctx.raises('refused', t3f.nn.KerasDense, list(conf.ins) + [2], conf.form[1], **conf.kw)
        else:
            l = conf.make(ctx)
            ctx.raises('refused', lambda: l(tf.ones((3, conf.n + 1))))
        return
    if st == 'initial':
        conf = Conf(rng, big=True)
        ctx.note(str(conf))
        ctx.sig(st, conf.sig())
        qs = []
        for _ in range(3):
            cores, b = parts(ctx, conf, conf.make(ctx))
            if conf.bias:
                ctx.true('bias value', bool(np.all(b == np.float32(conf.b0))), lambda: 'bias %s' % b[:5])
            g = np.ones((1, 1))
            for c in cores:
                c = c.astype(float).reshape(c.shape[0], -1, c.shape[-1])
                g = np.einsum('ab,aic,bid->cd', g, c, c, optimize=True)
            qs.append(g[0, 0] / conf.n / conf.m / INIT[conf.init](float(conf.n), float(conf.m)))
            if len(qs) > 1:
                ctx.true('layers start differently', all(not np.array_equal(p, q) for p, q in zip(cores, last)),
                         'same initial cores')
            last = cores
        dev = 8 * np.sqrt((np.prod([1 + 2. / (a * b) for a, b in zip(conf.ins, conf.outs)]) - 1) / 3)
        ctx.true('initial variance', abs(np.mean(qs) - 1) <= dev,
                 lambda: '%s: variance %.3f of the promised, +- %.3f' % (conf, np.mean(qs), dev))
        return
    if st == 'gradient':
        conf = Conf(rng, act=gen.pick(rng, [None, 'tanh', 'sigmoid', 'softplus', 'relu', 'elu']))
    else:
        conf = Conf(rng)
    ctx.note(str(conf))
    ctx.sig(st, conf.sig())
    layer = conf.make(ctx)
    n = rows(rng)
    x = rng.standard_normal((n, conf.n)).astype(np.float32)
    if st in ('forward', 'gradient', 'model') and rng.random() < .3:
        # Rows of very different sizes.
        x = (x * 10. ** rng.uniform(-2, 2.5, size=(n, 1))).astype(np.float32)
    if st in ('forward', 'gradient'):
        if rng.random() < .7:
            randomize(rng, layer)
        if st == 'forward':
            if rng.random() < .03:
                # No rows at all.
                n, x = 0, x[:0]
            how = gen.pick(rng, ['tf', 'np', 'function', 'None'])
            ctx.note('rows %d, %s' % (n, how))
            if how == 'np':
                y = ctx.call('call', layer, x)
            elif how == 'function':
                y = ctx.call('call', tf.function(lambda v: layer(v)), tf.constant(x))
            elif how == 'None':
                f = tf.function(lambda v: layer(v), input_signature=[tf.TensorSpec([None, conf.n], tf.float32)])
                ctx.call('call', f, tf.constant(x[:1]))
                y = ctx.call('call', f, tf.constant(x))
                randomize(rng, layer)
                y = ctx.call('call', f, tf.constant(x))
            else:
                y = ctx.call('call', layer, tf.constant(x))
            cores, b = parts(ctx, conf, layer)
            z, want, tol, zt = forward(conf, cores, b, x)
            ctx.close('output', y, want, tol)
            ctx.true('number of parameters', layer.count_params() == sum(c.size for c in cores) + (conf.m if conf.bias else 0),
                     lambda: 'count_params %s' % layer.count_params())
            ctx.true('output shape', tuple(layer.compute_output_shape((n, conf.n))) == (n, conf.m), 'compute_output_shape')
            if hasattr(layer, 'matrix'):
                ctx.close('matrix attribute', ctx.call('full', t3f.full, layer.matrix), ref.dense(cores),
                          mon.tol_for('float32', ref.depth(cores), ref.absdense(cores)))
            return
        cores, b = parts(ctx, conf, layer)
        z, want, tol, zt = forward(conf, cores, b, x)
        if conf.act in ('relu', 'elu') and np.any(np.abs(z) <= 4 * zt):
            ctx.skip('kink')
        c = rng.standard_normal((n, conf.m))
        xt = tf.constant(x)

        def loss():
            return tf.reduce_sum(layer(xt) * tf.constant(c, tf.float32))
        tr = rng.random() < .3

        def grads():
            with tf.GradientTape() as t:
                t.watch(xt)
                l = loss()
            return t.gradient(l, [xt] + list(tvars))
        tvars = [w.value if not isinstance(w, tf.Variable) else w for w in layer.trainable_weights]
        g = ctx.call('gradient', tf.function(grads) if tr else grads)
        ctx.true('every weight has a gradient', all(v is not None for v in g), 'missing gradient')
        dz = c * ACT[conf.act][1](z)
        dza = np.abs(c) * 1.
        # Second derivatives of the activations are below one: error of z enters linearly.
        dzt = np.abs(c) * (zt + 16 * E32)
        w, wa = ref.dense(cores), ref.absdense(cores)
        k = 16 * E32 * (ref.depth(cores) + conf.n + conf.m + n)
        ctx.close('gradient of input', g[0], dz @ w.T, (k * dza + dzt) @ wa.T + 1e-30)
        got = [np.array(v) for v in g[1:]]
        gc = [v for v in got if v.ndim == 4]
        want = ref.core_grads(cores, x.T.astype(float) @ dz)
        tol = ref.core_grads(cores, np.abs(x).T.astype(float) @ (k * dza + dzt), absolute=True)
        for i in range(len(cores)):
            ctx.close('gradient of core', gc[i], want[i], tol[i] + 1e-30)
        if conf.bias:
            gb = [v for v in got if v.ndim == 1][0]
            ctx.close('gradient of bias', gb, dz.sum(0), (k * dza + dzt).sum(0) + 1e-30)
        return
    if st == 'independent':
        cf = [conf] + [conf if rng.random() < .5 else Conf(rng) for _ in range(2)]
        others = [layer] + [c.make(ctx) for c in cf[1:]]
        ctx.true('names differ', len({l.name for l in others}) == 3, 'layers share a name')
        before = [[np.array(w.numpy()) for w in l.trainable_weights] for l in others]
        k = int(rng.integers(3))
        l = others[k]
        if rng.random() < .5:
            randomize(rng, l)
        else:
            tv = [w.value if not isinstance(w, tf.Variable) else w for w in l.trainable_weights]
            with tf.GradientTape() as t:
                lo = tf.reduce_sum(l(tf.constant(rng.standard_normal((4, cf[k].n)).astype(np.float32))) ** 2)
            g = t.gradient(lo, tv)
            ctx.true('every weight has a gradient', all(v is not None for v in g), 'missing gradient')
            tf.keras.optimizers.SGD(.01).apply_gradients(list(zip(g, l.trainable_weights)))
        for j in range(3):
            if j != k:
                ctx.true('other layers unchanged', all(np.array_equal(a, w.numpy()) for a, w in zip(
                    before[j], others[j].trainable_weights)), 'layer %d changed' % j)
        y = ctx.call('call', layer, x)
        cores, b = parts(ctx, conf, layer)
        _, want, tol, _ = forward(conf, cores, b, x)
        ctx.close('output', y, want, tol)
        return
    # Models of one or two TT layers.
    confs = [conf]
    layers = [layer]
    if rng.random() < .5:
        c2 = Conf(rng, inp=conf.outs)
        confs.append(c2)
        layers.append(c2.make(ctx))
        ctx.note('then %s' % c2)

    def build(ls):
        if rng.random() < .5:
            m = tf.keras.Sequential(ls)
            m.build((None, conf.n))
        else:
            i = tf.keras.Input((conf.n,))
            o = i
            for l in ls:
                o = l(o)
            m = tf.keras.Model(i, o)
        return m
    model = ctx.call('model', build, layers)

    def expect(x):
        v = x.astype(float)
        t = None
        for c, l in zip(confs, layers):
            cores, b = parts(ctx, c, l)
            # Errors of earlier layers pass through the matrix.
            e = 0. if t is None else t @ ref.absdense(cores)
            _, v, t, _ = forward(c, cores, b, v)
            t = t + (e if c.act != 'softmax' else 8 * np.max(e))
        return v, t
    nw = sum(len(c.ins) + int(c.bias) for c in confs)
    ctx.true('weights of the model', len(model.trainable_weights) == nw, lambda: '%d weights of the model, expected %d' % (
        len(model.trainable_weights), nw))
    ctx.true('parameters of the model', model.count_params() == sum(
        sum(a * b * c * d for a, b, c, d in zip(q.ranks[:-1], q.ins, q.outs, q.ranks[1:])) + (q.m if q.bias else 0)
        for q in confs), 'count_params of the model')
    if st == 'model':
        y = ctx.call('predict', lambda: model.predict(x, verbose=0) if rng.random() < .3 else model(x))
        want, tol = expect(x)
        ctx.close('output of the model', y, want, tol)
        ctx.true('output shape', tuple(model.output_shape) == (None, confs[-1].m), lambda: str(model.output_shape))
    elif st == 'fit':
        opt = gen.pick(rng, ['SGD', 'Adam', 'RMSprop'])
        ctx.note('fit with %s' % opt)
        lr = 2. ** -8
        target = rng.standard_normal((n, confs[-1].m)).astype(np.float32)
        old = [np.array(w.numpy()) for w in model.trainable_weights]
        tv = [w.value if not isinstance(w, tf.Variable) else w for w in model.trainable_weights]
        with tf.GradientTape() as t:
            lo = tf.reduce_mean((model(x) - target) ** 2)
        g = [np.array(v) for v in t.gradient(lo, tv)]

        def fit():
            model.compile(getattr(tf.keras.optimizers, opt)(lr), loss='mse')
            return model.fit(x, target, batch_size=n, epochs=1, verbose=0, shuffle=False)
        h = ctx.call('fit', fit)
        new = [np.array(w.numpy()) for w in model.trainable_weights]
        lo = float(lo)
        ctx.close('reported loss', h.history['loss'][0], lo, 1e-4 * (abs(lo) + 1))
        for a, b, gg in zip(old, new, g):
            big = np.abs(gg) > 1e-3 * max(np.max(np.abs(gg)), 1e-6)
            if opt == 'SGD':
                ctx.close('step of fit', b, a - lr * gg, 1e-4 * lr * np.max(np.abs(gg)) + 4 * E32 * np.abs(a) + 1e-7 * lr)
            elif np.max(np.abs(gg)) > 1e-4:
                ctx.true('weights move', bool(np.any(a != b)), lambda: 'weight of shape %s is not updated' % (a.shape,))
                ctx.true('weights move downhill', float(np.sum((b - a) * gg)) < 0, 'a weight moves against its gradient')
        y = ctx.call('predict', lambda: model(x))
        want, tol = expect(x)
        ctx.close('output after fit', y, want, tol)
    else:
        for l in layers:
            randomize(rng, l)
        how = gen.pick(rng, ['set_weights', 'file', 'checkpoint'])
        ctx.note(how)
        y = np.array(model(x))
        others = [c.make(ctx) for c in confs]
        if how == 'set_weights':
            m2 = build(others)
            ctx.call(how, lambda: m2.set_weights(model.get_weights()))
        else:
            tmp = tempfile.mkdtemp(prefix='vt-c18-')
            try:
                if how == 'file':
                    m2 = build(others)
                    m2 = type(model)(others) if isinstance(model, tf.keras.Sequential) else None
                    if m2 is None:
                        i = tf.keras.Input((conf.n,))
                        o = i
                        for l in others:
                            o = l(o)
                        m2 = tf.keras.Model(i, o)
                    else:
                        m2.build((None, conf.n))
                    p = os.path.join(tmp, 'w.weights.h5')

                    def f():
                        model.save_weights(p)
                        m2.load_weights(p)
                    ctx.call(how, f)
                else:
                    m2 = build(others)
                    def f():
                        a = tf.train.Checkpoint(**{'l%d' % i: l for i, l in enumerate(layers)})
                        b = tf.train.Checkpoint(**{'l%d' % i: l for i, l in enumerate(others)})
                        q = a.write(os.path.join(tmp, 'ckpt'))
                        b.read(q).assert_consumed()
                    ctx.call(how, f)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        for l, o in zip(layers, others):
            ctx.true('weights restored', len(l.weights) == len(o.weights) and all(
                np.array_equal(a.numpy(), b.numpy()) for a, b in zip(l.weights, o.weights)), how + ': weights differ')
        ctx.close('output restored', m2(x), y, 8 * E32 * np.abs(y) + 1e-30)
