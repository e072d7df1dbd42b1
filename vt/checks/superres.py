"""P39: super-resolution of images (inference/sr_gui.py) with the real engine and kernels."""
import importlib.util
import os
import sys
import threading
import time
import types
import numpy as np
import onnx
from onnx import helper as oh, numpy_helper as nh
from onnx.reference import ReferenceEvaluator
from vt import faketorch_ops
from vt.checks import realrun
from vt.core import rng_for, quiet, scratch, REPO

PROP = 'P39'
RULE = ('random upscaling models (nearest scaling, convolutions with residuals and joins, values outside of the range) in both element types and images of random sizes in any order up to the given maximum, '
        'one after the other and from several threads with delays between the operators; non-trivial when the image is padded')
BUDGET = {'quick': 60, 'thorough': 300}
ASSUMPTIONS = ['tkinter, PIL and torch are replaced by stand-ins; reading and writing files, bicubic scaling and the windows are not judged',
               'the name of the model file tells its scale once']
MIN_EVENTS = {'images_processed': 300, 'images_padded': 150, 'images_from_threads': 60, 'pixels_compared': 100000}
_m = {}


class Picture:
    def __init__(self, a):
        self.a = np.asarray(a)

    @property
    def size(self):
        return self.a.shape[1], self.a.shape[0]

    def convert(self, mode):
        return self

    def resize(self, size, *a, **k):
        w, h = size
        if w < 1 or h < 1 or w != int(w) or h != int(h):
            raise ValueError('height and width must be > 0')
        return Picture(self.a[np.arange(h) * self.a.shape[0] // h][:, np.arange(w) * self.a.shape[1] // w])

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)


class Draw:
    def __init__(self, im):
        pass

    def textbbox(self, *a, **k):
        return (0, 0, 0, 0)

    def rectangle(self, *a, **k):
        pass
    text = rectangle


def delayed(cls):
    """a kernel that lets other threads in"""
    def run(inputs, outputs, attrs):
        time.sleep(0.0005)
        return cls.run(inputs, outputs, attrs)
    return types.SimpleNamespace(run=run, __name__=cls.__name__)


def module():
    if _m:
        return _m['m']
    inf = realrun.engine()
    tk = types.ModuleType('tkinter')
    for n in ('filedialog', 'messagebox', 'ttk'):
        sub = types.ModuleType('tkinter.' + n)
        setattr(tk, n, sub)
        sys.modules['tkinter.' + n] = sub
    sys.modules['tkinter'] = tk
    pil = types.ModuleType('PIL')
    im = types.ModuleType('PIL.Image')
    im.fromarray = lambda a, *k: Picture(np.array(a))
    im.BICUBIC = im.LANCZOS = im.BILINEAR = 3
    im.Resampling = types.SimpleNamespace(BICUBIC=3, LANCZOS=1, BILINEAR=2)
    im.Image = Picture
    itk = types.ModuleType('PIL.ImageTk')
    dr, fo = types.ModuleType('PIL.ImageDraw'), types.ModuleType('PIL.ImageFont')
    dr.Draw = Draw
    fo.truetype = fo.load_default = lambda *a, **k: None
    for n, v in (('Image', im), ('ImageTk', itk), ('ImageDraw', dr), ('ImageFont', fo)):
        setattr(pil, n, v)
        sys.modules['PIL.' + n] = v
    sys.modules['PIL'] = pil
    pkg = types.ModuleType('inference')
    pkg.__path__ = [os.path.join(REPO, 'inference')]
    pkg.infer = inf
    sys.modules['inference'], sys.modules['inference.infer'] = pkg, inf
    spec = importlib.util.spec_from_file_location('vt_sr_gui', os.path.join(REPO, 'inference', 'sr_gui.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    _m['m'] = m
    return m


def network(rng, scale, exact):
    nodes, inits, k = [], [], [0]

    def w(a):
        k[0] += 1
        inits.append(nh.from_array(np.asarray(a), f'w{k[0]}'))
        return f'w{k[0]}'

    def add(op, ins, **at):
        k[0] += 1
        nodes.append(oh.make_node(op, ins, [f't{k[0]}'], **at))
        return f't{k[0]}'

    def up(x, f):
        return add('Resize', [x, '', w(np.array([1, 1, f, f], np.float32))], mode='nearest')

    def conv(x, i, o, size=3, v=None):
        v = rng.uniform(-1, 1, (o, i, size, size)).astype(np.float32) / (size * size * i) ** .5 if v is None else v
        return add('Conv', [x, w(v), w(rng.uniform(-.1, .1, o).astype(np.float32) if size > 1 else np.zeros(o, np.float32))], kernel_shape=[size] * 2, strides=[1, 1], pads=[size // 2] * 4, dilations=[1, 1], group=1)
    x = 'input'
    if exact:
        if rng.random() < .5:
            x = conv(x, 3, 3, 1, np.eye(3, dtype=np.float32).reshape(3, 3, 1, 1)[rng.permutation(3)])
        y = up(x, scale)
    else:
        c = int(rng.integers(2, 5))
        x = conv(x, 3, c)
        for _ in range(int(rng.integers(0, 3))):
            a = add('LeakyRelu', [conv(x, c, c)], alpha=.2)
            x = add('Add', [x, a]) if rng.random() < .5 else conv(add('Concat', [x, a], axis=1), 2 * c, c)
        for f in ([2, 2] if scale == 4 else [scale]):
            x = add('LeakyRelu', [conv(up(x, f), c, c)], alpha=.2)
        x = conv(x, c, 3)
        y = add('Add', [x, up('input', scale)])
    g = oh.make_graph(nodes, 'sr', [oh.make_tensor_value_info('input', 1, [1, 3, 'h', 'w'])], [oh.make_tensor_value_info(y, 1, None)], inits)
    return oh.make_model(g, opset_imports=[oh.make_opsetid('', 18)], ir_version=9)


def cases(tier, seed):
    for i in range(700 if tier == 'quick' else 12000):
        yield ('sr', seed, i)
        if i % 3 == 0:
            yield ('threads', seed, i)
        if i % 4 == 0:
            yield ('pictures', seed, i)


def expected(ref, img, scale):
    h, w = img.shape[:2]
    p = np.pad(img, ((0, -h % 4), (0, -w % 4), (0, 0)), mode='reflect')
    y = ref.run(None, {'input': (p.astype(np.float32) / 255).transpose(2, 0, 1)[None]})[0][0]
    return (np.clip(y.astype(np.float64), 0, 1) * 255).transpose(1, 2, 0)[:h * scale, :w * scale]


def judge(mon, got, want, exact, half, what):
    mon.event('images_processed')
    if got.shape != want.shape or got.dtype != np.uint8:
        mon.violation('sr:shape', f'{what}: the result is {got.dtype} {got.shape}, not {want.shape}')
        return False
    mon.event('pixels_compared', got.size)
    d = np.abs(got.astype(np.float64) - want)
    # the nearest level; half precision leaves about one
    limit = .5 if exact else 2.5 if half else .52
    if d.max() > limit:
        i = np.unravel_index(d.argmax(), d.shape)
        mon.violation('sr:pixel', f'{what}: {int((d > limit).sum())} of {d.size} values are wrong; at {tuple(int(v) for v in i)} it is {int(got[i])} for {want[i]:.3f}')
        return False
    return True


def run(case, mon):
    kind, seed, i = case
    rng = rng_for('P39', kind, seed, i)
    m = module()
    t = sys.modules['torch']
    if kind == 'pictures':
        return pictures(rng, m, t, mon)
    scale = int(rng.choice([2, 3, 4]))
    exact, half = bool(rng.random() < .35), bool(rng.random() < .4)
    net = network(rng, scale, exact)
    ref = ReferenceEvaluator(net, new_ops=[realrun.Resize])
    name = str(rng.choice([f'net_x{scale}.onnx', f'{scale}x-net.onnx', f'RealNET_X{scale}plus.onnx'] + ['net.onnx'] * (scale == 4)))
    H, W = int(rng.integers(6, 30)), int(rng.integers(6, 30))
    what = f'{name} ({"exact" if exact else [n.op_type for n in net.graph.node]}, {"float16" if half else "float32"}, at most {H}x{W})'
    with scratch() as d:
        onnx.save(net, os.path.join(d, name))
        with quiet():
            e = m.SREngine(os.path.join(d, name), device='cpu', dtype=t.float16 if half else t.float32)
            e.initialize(max_height=H, max_width=W)
    if e.scale != scale:
        mon.violation('sr:scale', f'{what}: the scale is {e.scale}')
        return

    def image():
        h, w = (H, W) if rng.random() < .2 else (int(rng.integers(1, H + 1)), int(rng.integers(1, W + 1)))
        mode = rng.random()
        if mode < .2:
            return np.full((h, w, 3), int(rng.integers(0, 256)), np.uint8)
        return rng.integers(0, 256, (h, w, 3)).astype(np.uint8)
    if kind == 'sr':
        for k in range(4):
            img = image()
            if img.shape[0] % 4 or img.shape[1] % 4:
                mon.event('images_padded')
                mon.distinct((img.shape, scale, exact, half, len(net.graph.node)))
            before = img.copy()
            with quiet():
                got, ms = e.process(img)
            if not np.array_equal(img, before):
                mon.violation('sr:input', f'{what}: the caller\'s image is changed')
                return
            if not judge(mon, np.array(got), expected(ref, img, scale), exact, half, f'{what}, image {k} of {img.shape[:2]}'):
                return
            mon.sample({'model': what, 'image': list(img.shape)})
        return
    # several threads share the engine, as the threads of the window do
    jobs = [[image() for _ in range(3)] for _ in range(int(rng.integers(2, 4)))]
    results = {}
    reg = sys.modules['infer'].KernelRegistry
    get, old = reg.get, sys.getswitchinterval()
    errors = []

    def work(j):
        try:
            for k, img in enumerate(jobs[j]):
                results[j, k] = np.array(e.process(img)[0])
        except Exception as x:
            errors.append((j, x))
    threads = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(len(jobs))]
    reg.get = lambda n: delayed(get(n)) if get(n) is not None else None
    sys.setswitchinterval(1e-5)
    try:
        with quiet():
            for th in threads:
                th.start()
            for th in threads:
                th.join(30)
    finally:
        reg.get = get
        sys.setswitchinterval(old)
    if any(th.is_alive() for th in threads):
        mon.violation('sr:threads', f'{what}: {len(jobs)} threads with three images each do not come to an end')
        return
    if errors:
        mon.violation('sr:threads', f'{what}: thread {errors[0][0]} of {len(jobs)}: {type(errors[0][1]).__name__} {errors[0][1]}')
        return
    for (j, k), got in results.items():
        mon.event('images_from_threads')
        if not judge(mon, got, expected(ref, jobs[j][k], scale), exact, half, f'{what}, image {k} of thread {j} of {len(jobs)}'):
            return


def pictures(rng, m, t, mon):
    h, w = int(rng.integers(1, 20)), int(rng.integers(1, 20))
    img = rng.integers(0, 256, (h, w, 3)).astype(np.uint8)
    img.reshape(-1)[:256] = np.arange(256)[:img.size]
    kind = str(rng.choice(['float32', 'float16']))
    x = m.image_to_tensor(img, 'cpu', getattr(t, kind))
    if tuple(x.shape) != (1, 3, h, w) or x.a.dtype != kind or np.abs(x.a[0].transpose(1, 2, 0) * 255. - img).max() > .2:
        mon.violation('picture:tensor', f'the tensor of an image of {img.shape} is {x.a.dtype} {tuple(x.shape)} or has other values')
        return
    back = m.tensor_to_image(x)
    if back.dtype != np.uint8 or not np.array_equal(back, img):
        n = int((back != img).sum()) if back.shape == img.shape else back.shape
        mon.violation('picture:back', f'an image of {img.shape} turned into a {kind} tensor and back differs in {n} values')
        return
    mon.event('pictures_converted')
    f = int(rng.integers(2, 5))
    sr = rng.integers(0, 256, (h * f, w * f, 3)).astype(np.uint8)
    bic = rng.integers(0, 256, (h * f, w * f, 3)).astype(np.uint8) if rng.random() < .7 else None
    with quiet():
        g = np.array(m.make_comparison_grid(img, sr, bic) if bic is not None else m.make_comparison_grid(img, sr))
    parts = [img.repeat(f, 0).repeat(f, 1), sr] + ([bic] if bic is not None else [])
    mon.event('grids_compared')
    if not np.array_equal(g, np.concatenate(parts, axis=1)):
        mon.violation('picture:grid', f'the comparison of an image of {img.shape} scaled by {f} is no row of {len(parts)} pictures: {g.shape}')
