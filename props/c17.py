"""C17: scoring images with a neural network and training one - the network itself is a stand-in, what surrounds it is real."""
import json
import os
import sys
import time
import types

import numpy as np

from props.common import crash_fault, diff, gen_sched, mkarray, same, write_fault

META = {
    'runs': {'quick': 3000, 'thorough': 90000},
    'level': 'exploration',
    'rule': 'A run holds 1-3 images (3 or 4 bands, several data types and layouts) and networks with 1-6 outputs, and performs 2-6 operations: '
            'score an image chip by chip (chip and target sizes, overlaps, normalisation, a label to find, a progress ledger or none), train '
            'a network in a directory (layers, weights, epochs, a clock that may stand still or jump back), prepare generators and layers - '
            'plainly, with a network or ledger that fails at some chip, under a disk fault or process death, without memory, or two or three scorings and trainings '
            'from threads. Non-trivial: a fault fired, a process died, memory ran out or threads were interleaved.',
    'real': ['resippy image scoring, training and chipping', 'resippy file utilities', 'numpy', 'CPython I/O, libc, kernel tmpfs'],
    'stub': ['keras and tensorflow (not installed): networks, layers, generators and callbacks that record what they are asked and answer with fixed '
             'sums over the pixels they are given', 'scipy.misc.imresize (removed from scipy): its last implementation over Pillow', 'clock', 'disk outcomes (LD_PRELOAD seam)', 'thread scheduler',
             'numpy data allocator (fails on demand)'],
    'assumptions': ['keras numbers classes in alphabetical order and answers a batch of one chip with one row of outputs'],
}


# ------------------------------------------------------------------------------------------------ the stand-ins
class Thing(object):
    """a layer, an optimizer, a callback: remembers how it was made and what it was applied to"""
    def __init__(self, kind, a, k):
        self.kind, self.a, self.k, self.on, self.trainable = kind, a, k, None, True

    def __call__(self, x):
        self.on = x
        return self

    def chain(self):
        return [(self.kind, self.a, self.k)] + (self.on.chain() if isinstance(self.on, Thing) else [self.on])


def maker(kind):
    def make(*a, **k):
        return Thing(kind, a, k)
    return make


class Model(object):
    """a network: fixed sums over what it is shown"""
    def __init__(self, inputs=None, outputs=None, seed=0, n=1):
        self.input, self.output = inputs, outputs
        self.layers = [Thing('layer', (j,), {}) for j in range(4)]
        self.rs, self.n, self.fail = seed, n, None
        self.events, self.born = [], []
        if isinstance(inputs, dict) and 'children' in inputs:
            inputs['children'].append(self)

    def answer(self, batch):
        b = np.asarray(batch, float)
        out = []
        for q in range(self.n):
            w = np.cos(np.arange(b[0].size) * (q + 1) + self.rs % 17).reshape(b.shape[1:])
            out.append((b * w).reshape(len(b), -1).sum(1))
        return np.transpose(out)

    def predict(self, x, *a, **k):
        x = np.asarray(x)
        self.events.append(x.shape)
        if self.fail is not None and len(self.events) > self.fail:
            raise RuntimeError('the network gave up')
        if x.ndim != 4:
            raise ValueError('a batch of images has four dimensions')
        return self.answer(x)

    def load_weights(self, p, *a, **k):
        self.events.append(('weights', p))

    def compile(self, *a, **k):
        self.events.append(('compile', a, k))

    def fit_generator(self, generator, *a, **k):
        self.events.append(('fit', generator, a, k))
        # what the callbacks of keras do
        for c in k.get('callbacks') or []:
            if c.kind == 'ModelCheckpoint':
                path = c.a[0] if c.a else c.k['filepath']
                best = None
                for e, v in enumerate(self.losses(k.get('epochs', 1))):
                    if not c.k.get('save_best_only') or best is None or v < best:
                        best = v
                        with open(path, 'w') as f:
                            f.write(json.dumps([e, v, [q[1] for q in self.events if q[0] == 'weights']]))
        if self.fail is not None:
            raise RuntimeError('training diverged')

    def losses(self, n):
        return [round(float(v), 6) for v in np.random.RandomState(self.rs % (2 ** 31)).uniform(0, 1, n)]


class Data(object):
    """a directory of training images"""
    def __init__(self, names, n, batch):
        self.class_indices = {c: j for c, j in sorted(((c, j) for j, c in enumerate(sorted(names))), key=lambda q: hash_of(q[0]))}
        self.filenames = ['%d.png' % j for j in range(n)]
        self.batch_size = batch


def hash_of(s):
    return sum(ord(c) * 31 ** j for j, c in enumerate(s)) % 1009


class Augment(object):
    def __init__(self, *a, **k):
        self.a, self.k = a, k

    def flow_from_directory(self, *a, **k):
        return self, a, k


def bytescale(a):
    if a.dtype == np.uint8:
        return a
    lo, hi = a.min(), a.max()
    b = (a.astype(float) - lo) * (255. / ((hi - lo) or 1)) if np.isfinite(hi - lo) else np.zeros(a.shape)
    return (b.clip(0, 255) + .5).astype(np.uint8)


def imresize(arr, size, interp='bilinear', mode=None):
    from PIL import Image
    im = Image.fromarray(np.ascontiguousarray(bytescale(np.asarray(arr))))
    return np.array(im.resize((size[1], size[0]), resample={'nearest': 0, 'bilinear': 2, 'bicubic': 3}[interp]))


def img_to_array(img, *a, **k):
    x = np.asarray(img, dtype='float32')
    return x[:, :, None] if x.ndim == 2 else x


CLOCK = [1.5e9]
LOADED = []


def warm():
    import scipy
    names = ['keras', 'keras.applications', 'keras.applications.vgg16', 'keras.applications.vgg19', 'keras.applications.resnet50', 'keras_applications',
             'keras_applications.inception_v3', 'keras_applications.mobilenet', 'keras_applications.mobilenet_v2', 'keras.preprocessing',
             'keras.preprocessing.image', 'keras.layers', 'keras.models', 'keras.optimizers', 'keras.callbacks', 'keras.backend',
             'keras.backend.tensorflow_backend', 'tensorflow']
    m = {}
    for n in names:
        m[n] = sys.modules[n] = types.ModuleType(n)
        m[n].__path__ = []
        if '.' in n:
            setattr(m[n.rpartition('.')[0]], n.rpartition('.')[2], m[n])
    for a, n in (('keras.applications.vgg16', 'VGG16'), ('keras.applications.vgg19', 'VGG19'), ('keras.applications.resnet50', 'ResNet50'),
                 ('keras_applications.inception_v3', 'InceptionV3'), ('keras_applications.mobilenet', 'MobileNet'), ('keras_applications.mobilenet_v2', 'MobileNetV2'),
                 ('keras.layers', 'GlobalAveragePooling2D'), ('keras.layers', 'Dense'), ('keras.layers', 'Dropout'), ('keras.optimizers', 'Adam'),
                 ('keras.optimizers', 'SGD'), ('keras.callbacks', 'TensorBoard'), ('keras.callbacks', 'ModelCheckpoint'), ('tensorflow', 'ConfigProto_'),
                 ('tensorflow', 'GPUOptions'), ('tensorflow', 'Session'), ('keras.backend.tensorflow_backend', 'set_session')):
        setattr(m[a], n, maker(n))
    m['tensorflow'].ConfigProto = lambda *a, **k: types.SimpleNamespace(gpu_options=types.SimpleNamespace(allow_growth=False))
    m['tensorflow'].Tensor = Thing
    m['keras.optimizers'].Optimizer = Thing
    m['keras.models'].Model = Model
    m['keras.preprocessing.image'].img_to_array = img_to_array
    m['keras.preprocessing.image'].ImageDataGenerator = Augment
    m['keras.preprocessing.image'].DirectoryIterator = Data
    misc = sys.modules['scipy.misc'] = types.ModuleType('scipy.misc')
    misc.imresize = imresize
    scipy.misc = misc
    real = time.time
    time.time = lambda: CLOCK[0]
    try:
        import resippy.image_recognition.neural_net_model_scoring.keras_image_scoring as a
        import resippy.image_recognition.neural_net_model_training.keras_model_training as b
    finally:
        time.time = real
    LOADED[:] = [a, b]
    imresize(np.zeros((4, 4, 3), 'uint8'), (3, 3))


# ------------------------------------------------------------------------------------------------ what is asked
def gen_score(rng):
    return {'i': rng.randrange(3), 'cx': rng.randrange(1, 14), 'cy': rng.randrange(1, 14), 'tx': rng.choice([1, 2, 5, 8, None]), 'ty': rng.choice([1, 3, 5, 9, None]),
            'ox': rng.choice([None, 0, .25, .5, .34, .8]), 'oy': rng.choice([None, 0, .25, .5, .34, .8]), 'norm': rng.choice([None, 'divide_by_255', 'min_max_per_chip', 'none']),
            'n': rng.choice([1, 2, 2, 3, 6]), 'find': rng.random() < .5, 'ledger': rng.random() < .5, 'seed': rng.randrange(1 << 30), 'whole': rng.random() < .15}


def gen_train(rng):
    return {'dir': rng.choice(['out', 'out', 'deep/er', 'a b']), 'classes': rng.sample(['car', 'Truck', 'bus', 'van 2', 'zebra', 'águila', '10', '9'], rng.randrange(1, 6)),
            'n': rng.choice([1, 7, 20, 64]), 'nv': rng.choice([1, 5, 30]), 'batch': rng.choice([1, 4, 10]), 'batchv': rng.choice([1, 3, 10]), 'epochs': rng.choice([None, 1, 4]),
            'layers': rng.random() < .5, 'weights': rng.random() < .4, 'name': rng.random() < .4, 'loss': rng.random() < .3, 'seed': rng.randrange(1 << 30), 'clock': rng.choice([0, 0, 1, -3600, .001])}


def gen(rng, tier, i):
    items = [{'seed': rng.randrange(1 << 30), 'ny': rng.randrange(1, 40), 'nx': rng.randrange(1, 40), 'nb': rng.choice([3, 3, 4]),
              'dtype': rng.choice(['uint8', 'uint8', 'uint8', 'uint16', 'float32', 'float64']), 'mem': rng.choice('CCFV'),
              'look': rng.choice(['noise', 'noise', 'areas', 'gray'])} for _ in range(rng.randrange(1, 4))]
    ops = []
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        o = {'op': 'score' if k < .45 else 'train' if k < .7 else 'threads' if k < .85 else 'prepare', 's': gen_score(rng), 't': gen_train(rng),
             'more': [rng.choice([gen_score, gen_score, gen_train])(rng) for _ in range(rng.choice([1, 2]))]}
        k = rng.random()
        if o['op'] == 'score':
            if k < .2:
                o['fail'] = rng.randrange(12)
            elif k < .35:
                o['oom'] = {'pos': round(rng.random(), 4), 'persist': rng.random() < .4}
            elif k < .45:
                o['s']['ledger'] = str(rng.randrange(12))
        elif o['op'] == 'train' and k < .6:
            o['fault'] = crash_fault(rng) if rng.random() < .3 else write_fault(rng)
        elif o['op'] == 'train' and k < .7:
            o['fail'] = 0
        ops.append(o)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


def image(it):
    shape = (it['ny'], it['nx'], it['nb'])
    a = mkarray(it['seed'], shape, it['dtype'])
    if it['look'] != 'noise':                   # evenly coloured areas, perhaps with all bands alike here and there
        rs = np.random.RandomState(it['seed'] % (2 ** 31))
        few = np.abs(a.reshape(-1, it['nb'])[:4])
        few[~np.isfinite(few)] = 1
        few = few[np.arange(4) % len(few)]
        if it['look'] == 'gray':
            few[:2] = few[:1, :1]
        k = rs.randint(1, 9, 2)
        a = few[rs.randint(0, 4, (it['ny'] // k[0] + 1, it['nx'] // k[1] + 1))].repeat(k[0], 0).repeat(k[1], 1)[:it['ny'], :it['nx']].copy()
    if it['mem'] == 'F':
        a = np.asfortranarray(a)
    elif it['mem'] == 'V':
        b = np.zeros(tuple(2 * s for s in shape), a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in shape)]
        v[...] = a
        a = v
    return a


class Ledger(object):
    def __init__(self, fail):
        self.seen, self.fail = [], fail

    def set_status(self, text, percent):
        self.seen.append(percent)
        if self.fail is not None and len(self.seen) > self.fail:
            raise RuntimeError('nobody listens')


def scoring(img, s):
    """-> (callable, check(result) -> complaint or None)"""
    ny, nx = img.shape[:2]
    keep = img.copy()
    cy, cx = min(s['cy'], ny), min(s['cx'], nx)
    if s['whole']:
        cy, cx = ny, nx
    net = Model(seed=s['seed'], n=s['n'])
    net.fail = s.get('fail')
    names = ['l%d' % j for j in range(s['n'])]
    kw = {}
    ty, tx = 224, 224
    if s['ty'] or s['tx'] or ny * nx / max(1, (cy * cx)) > 40:        # keep it affordable
        ty, tx = s['ty'] or 6, s['tx'] or 6
        kw.update(target_chip_size_x=tx, target_chip_size_y=ty)
    ox = oy = .5
    if s['ox'] is not None:
        ox = kw['image_overlap_x_percent'] = s['ox']
    if s['oy'] is not None:
        oy = kw['image_overlap_y_percent'] = s['oy']
    if s['norm']:
        kw['normalize_method'] = s['norm']
    find = None
    if s['find']:
        find = s['seed'] % s['n']
        kw.update(labels=list(names), thing_to_find=names[find])
    elif s['seed'] % 5 == 0:
        kw.update(labels=list(names))
    book = None
    if s['ledger'] is not False:
        book = Ledger(None if s['ledger'] is True else int(s['ledger']))
        kw['atk_chain_ledger'] = book

    def do():
        return LOADED[0].chip_and_score_image(img, net, cx, cy, **kw)

    def chk(g):
        if not same(img, keep):
            return 'scoring changed the image: ' + diff(img, keep)
        scores, at = g
        at = [(int(y), int(x)) for y, x in at]
        ys, xs = sorted({y for y, _ in at}), sorted({x for _, x in at})
        if at != [(y, x) for y in ys for x in xs]:
            return 'chips at %s' % at[:6]
        for v, n, c, o in ((ys, ny, cy, oy), (xs, nx, cx, ox)):
            if v[0] != 0 or v[-1] != n - c or len(v) > 1 and max(np.diff(v)) > c - int(c * o):
                return 'chips at %s do not cover %d pixels by %d with an overlap of %s' % (v[:8], n, c, o)
        want = []
        for y, x in at:
            chip = imresize(keep[y:y + cy, x:x + cx, :3], (ty, tx)).astype('float32')
            if s['norm'] in (None, 'divide_by_255'):
                chip = chip / 255.
            elif s['norm'] == 'min_max_per_chip':
                with np.errstate(all='ignore'):
                    chip = (chip - chip.min()) / (chip.max() - chip.min())
            want.append(net.answer(chip[None])[0])
        want = np.array(want)
        if find is not None:
            want = want[:, find]
        shapes = [want.shape] + [np.squeeze(want).shape] * (find is None)
        have = np.asarray(scores, float)
        if have.shape not in shapes:
            return 'scores of shape %s instead of %s' % (have.shape, shapes)
        e = np.abs(have.ravel() - want.ravel())
        bad = ~((e <= 1e-3 * (1 + np.abs(want.ravel()))) | ~np.isfinite(want.ravel()))
        if bad.any():
            return 'score %d of %d is %r instead of %r' % (int(np.argmax(bad)), bad.size, have.ravel()[np.argmax(bad)], want.ravel()[np.argmax(bad)])
        if book and (book.seen != sorted(book.seen) or not book.seen or min(book.seen) < 0 or max(book.seen) > 100):
            return 'progress of %s' % book.seen[:9]
    return do, chk


def training(ctx, t, tag=''):
    rs = np.random.RandomState(t['seed'])
    out = ctx.path(t['dir'] + tag)
    base = Model(outputs='out', seed=t['seed'])
    base.input = {'children': []}
    train, val = Data(t['classes'], t['n'], t['batch']), Data(t['classes'], t['nv'], t['batchv'])
    kw = {}
    final = None
    if t['layers']:
        final = kw['final_model_layers'] = Thing('final', (), {})
    w = None
    if t['weights']:
        w = kw['model_weights_file'] = ctx.path('weights%d.h5' % rs.randint(9))
    name = 'trained_model.h5'
    if t['name']:
        name = kw['model_output_fname'] = 'my model.h5'
    epochs = 20
    if t['epochs']:
        epochs = kw['n_epochs'] = t['epochs']
    loss, opt, metrics = 'categorical_crossentropy', None, ['accuracy']
    if t['loss']:
        loss, opt, metrics = 'mse', Thing('SGD', (), {}), ['mae']
        kw.update(loss=loss, optimizer=opt, metrics=list(metrics))
    base.fail = t.get('fail')

    def do():
        CLOCK[0] += t['clock']
        return LOADED[1].train_model(base, train, val, out, **kw)

    def labels():
        with open(os.path.join(out, 'labels.txt'), encoding='utf-8', newline='') as f:
            return f.read().split('\n')

    def chk(_):
        order = [c for c, j in sorted(train.class_indices.items(), key=lambda q: q[1])]
        if [x.rstrip('\r') for x in labels()] not in (order, order + ['']):
            return 'labels %s instead of %s' % (labels(), order)
        net = base
        if final is not None:
            if len(base.input['children']) != 1:
                return '%d networks' % len(base.input['children'])
            net = base.input['children'][0]
            if net.output is not final or any(q[0] == 'fit' for q in base.events):
                return 'another network than that with the chosen layers was trained'
        elif base.input['children']:
            return 'another network was made'
        kinds = [q[0] for q in net.events]
        if kinds != ['weights'] * bool(w) + ['compile', 'fit']:
            return 'the network saw %s' % kinds
        if w and net.events[0][1] != w:
            return 'weights of %s' % net.events[0][1]
        c, f = net.events[-2], net.events[-1]
        if c[1] or c[2].get('loss') != loss or list(c[2].get('metrics')) != metrics or (opt and c[2].get('optimizer') is not opt) or c[2].get('optimizer').kind not in ('SGD' if opt else 'Adam'):
            return 'compiled with %s' % (c,)
        k = f[3]
        if f[1] is not train or k.get('validation_data') is not val or k.get('epochs') != epochs:
            return 'trained with other data, or %s epochs' % k.get('epochs')
        for a, d in ((k.get('steps_per_epoch'), train), (k.get('validation_steps'), val)):
            if not (abs(a - len(d.filenames) / d.batch_size) < 1 and a > 0):
                return '%s steps for %d images by %d' % (a, len(d.filenames), d.batch_size)
        with open(os.path.join(out, name)) as q:
            e, v, ws = json.load(q)
        ls = net.losses(epochs)
        if v != min(ls) or e != ls.index(v) or ws != [w] * bool(w):
            return 'the network that was stored is that of epoch %s (%s), weights %s' % (e, v, ws)
        board = [c for c in k['callbacks'] if c.kind == 'TensorBoard']
        d = board and board[0].k.get('log_dir')
        if not d or not os.path.isdir(d) or not d.startswith(os.path.join(out, '')):
            return 'logs in %s' % d
    return do, chk


def prepare(t):
    """generators, layers, stored networks: only passed on, but to the right place"""
    mod = LOADED[1]
    rs = np.random.RandomState(t['seed'])
    size, batch, scale = int(rs.randint(10, 300)), int(rs.randint(1, 50)), float(rs.uniform(0, 1))
    h, v = bool(rs.randint(2)), bool(rs.randint(2))
    kw = {}
    if rs.randint(2):
        kw = dict(batchsize=batch, rescale=scale, horizontal_flip=h, vertical_flip=v)
    else:
        batch, scale, h, v = 10, 1. / 255, False, False
    for (g, a, k), where, flips in zip(mod.setup_train_and_val_image_generators(size, '/train', '/val', **kw), ('/train', '/val'), ((h, v), (False, False))):
        if (a[0] if a else k.get('directory')) != where or tuple(k.get('target_size')) != (size, size) or k.get('batch_size') != batch or k.get('class_mode') != 'categorical':
            return 'images of %s: %s %s' % (where, a, k)
        if abs(g.k.get('rescale') - scale) > 1e-12 or (g.k.get('horizontal_flip', False), g.k.get('vertical_flip', False)) != flips:
            return 'images of %s are changed with %s' % (where, g.k)
    net = Model()
    mod.freeze_model_layers(net)
    if any(q.trainable for q in net.layers):
        return 'not all layers are frozen'
    mod.unfreeze_model_layers(net)
    if not all(q.trainable for q in net.layers):
        return 'not all layers are free'
    for fn, kind in ((mod.load_vgg16_model, 'VGG16'), (mod.load_vgg19_model, 'VGG19'), (mod.load_resnet50_model, 'ResNet50')):
        top = bool(rs.randint(2))
        g = fn('/w', top) if rs.randint(2) or not top else fn('/w')
        if g.kind != kind or g.a or g.k != {'weights': '/w', 'include_top': top}:
            return 'loaded %s %s %s' % (g.kind, g.a, g.k)
    net = Model(outputs='features')
    n, drop, dense = int(rs.randint(1, 9)), float(rs.uniform(0, 1)), int(rs.randint(1, 500))
    kw = dict(dropout=drop, dense_connections=dense) if rs.randint(2) else {}
    if not kw:
        drop, dense = .2, 128
    want = [('Dense', (n,), {'activation': 'softmax'}), ('Dropout', (drop,), {}), ('GlobalAveragePooling2D', (), {}), ('Dense', (dense,), {}), 'features']
    got = mod.create_final_dense_softmax_layer(net, n, **kw).chain()
    if got != want:
        return 'layers %s' % got
    d = Data(t['classes'], 3, 1)
    if mod.get_class_indices(d) != d.class_indices:
        return 'class indices %s' % mod.get_class_indices(d)


def run(case, ctx):
    CLOCK[0] = 1.5e9
    imgs = [image(it) for it in case['items']]
    keep = [a.copy() for a in imgs]
    held = []

    def verdict(what, sig, chk, g):
        try:
            p = chk(g)
        except (TypeError, ValueError, AttributeError, IndexError, KeyError, OSError) as e:
            p = 'malformed result (%s)' % ctx.exs(e)
        if p:
            ctx.violate(sig, '%s: %s' % (what, p))

    for n, o in enumerate(case['ops']):
        s, t = o['s'], o['t']
        img = imgs[s['i'] % len(imgs)]
        what = 'op %d %s' % (n, o['op'])
        with np.errstate(all='ignore'):
            if o['op'] == 'prepare':
                verdict(what, 'wrong-setup', lambda _: prepare(t), None)
            elif o['op'] == 'score':
                if 'fail' in o or s['ledger'] not in (True, False):
                    do, chk = scoring(img, dict(s, fail=o.get('fail')))
                    g = ctx.call(do)
                    ctx.log(what, 'failing', g[0])
                    if g[0] == 'ok':
                        verdict(what + ' with a network that fails', 'wrong-scores', chk, g[1])
                    else:
                        ctx.fired['network:fails' if 'fail' in o else 'ledger:fails'] += 1
                        ctx.probe('nontrivial')
                    s = dict(s, ledger=bool(s['ledger']))
                elif 'oom' in o:
                    do, chk = scoring(img, s)
                    g, k = ctx.allocations(do)
                    if g[0] == 'ok' and k:
                        do, chk = scoring(img, s)
                        g, fired = ctx.starved(min(k - 1, int(o['oom']['pos'] * k)), o['oom']['persist'], do)
                        ctx.log(what, fired, g[0])
                        if g[0] == 'ok':
                            verdict(what + ' without memory', 'wrong-scores', chk, g[1])
                        elif not fired:
                            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
                do, chk = scoring(img, s)
                g = ctx.call(do)
                ctx.log(what, g[0])
                if g[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
                verdict(what, 'wrong-scores', chk, g[1])
                held.append((np.asarray(g[1][0]), np.array(g[1][0]), g[1][1], list(g[1][1])))
            elif o['op'] == 'train':
                if 'fail' in o:
                    do, chk = training(ctx, dict(t, fail=0))
                    if t['layers']:
                        do()
                    else:
                        g = ctx.call(do)
                        ctx.fired['network:fails'] += 1
                        ctx.probe('nontrivial')
                        if g[0] == 'ok':
                            ctx.violate('failure-swallowed', '%s: the training failed, but the call returned' % what)
                elif o.get('fault'):
                    do, chk = training(ctx, t, ' rehearsal%d' % n)
                    _, tr = ctx.traced(do)
                    fl = ctx.place(o['fault'], tr)
                    do, chk = training(ctx, t)
                    if fl['action'] == 'crash':
                        ctx.log(what, ctx.crashy([fl], do))
                    else:
                        g, fired = ctx.faulty([fl], do)
                        ctx.log(what, fired, g[0])
                        if g[0] == 'ok':
                            verdict(what + ' under a disk fault', 'wrong-training', chk, g[1])
                        elif not fired:
                            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
                do, chk = training(ctx, t)
                g = ctx.call(do)
                ctx.log(what, g[0])
                if g[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
                verdict(what, 'wrong-training', chk, g[1])
            else:
                jobs = []
                for k, q in enumerate([s] + o['more']):
                    jobs.append(training(ctx, q, ' %d %d' % (n, k)) if 'dir' in q else scoring(imgs[q['i'] % len(imgs)], q))
                for j, r in zip(jobs, ctx.threads([(lambda sc, th, do=j[0]: do()) for j in jobs], case['sched'], est=400)):
                    if r[0] != 'ok':
                        ctx.violate('failed-in-threads', '%s: %s' % (what, ctx.exs(r[1])))
                    verdict(what, 'wrong-in-threads', j[1], r[1])
                ctx.probe('nontrivial')
        for a, b in zip(imgs, keep):
            if not same(a, b):
                ctx.violate('image-changed', '%s: %s' % (what, diff(a, b)))
        for a, b, c, d in held:
            if not same(a, b) or c != d:
                ctx.violate('earlier-result-changed', what)
