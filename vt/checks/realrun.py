"""P37: whole models on the repository's engine, memory pool and kernels together."""
import os
import sys
import importlib.util
import numpy as np
import onnx
from onnx import TensorProto as TP
from onnx.reference import ReferenceEvaluator
from onnx.reference.op_run import OpRun
from vt import faketorch_ops
from vt.checks import shapeengine as se
from vt.checks import kernels as single
from vt.checks.poolrun import sequence
from vt.core import rng_for, quiet, scratch, REPO

PROP = 'P37'
RULE = ('random image and sequence models over ranges of named dimensions, with operators of the engine in random order, weights used twice, constants on either side and sizes taken at run time, '
        'run by GraphInfer with the kernels at sequences of sizes; outputs against the reference evaluator')
BUDGET = {'quick': 60, 'thorough': 400}
ASSUMPTIONS = ['Resize is judged for nearest scaling to whole multiples and for linear half_pixel and align_corners', 'pooling with paddings above half of the window is refused by torch']
MIN_EVENTS = {'models_run': 20, 'model_outputs_compared': 200}
_e = {}


class Refused(Exception):
    pass


def interpolate(x, size=None, scale_factor=None, mode='nearest', align_corners=None):
    if mode not in ('nearest', 'bilinear') or size is None:
        raise faketorch_ops.Missing('interpolate ' + mode)
    a = x.a
    if len(size) != a.ndim - 2 or mode == 'bilinear' and a.ndim != 4:
        raise RuntimeError(f'size has {len(size)} entries for {a.ndim} dimensions and {mode}')
    if not all(isinstance(n, (int, np.integer)) for n in size):
        raise TypeError(f'size is no integer: {size}')
    if mode == 'nearest':
        if align_corners is not None:
            raise ValueError('align_corners is for the interpolating modes')
        if any(int(n) % v for n, v in zip(size, a.shape[2:])):
            raise Refused('scaled to no whole multiple')
        for ax, n in enumerate(size):
            a = np.take(a, np.arange(int(n)) * a.shape[ax + 2] // int(n), axis=ax + 2)
        return faketorch_ops.W(a)
    for ax, n in enumerate(size):
        v, n = a.shape[ax + 2], int(n)
        p = np.arange(n) * ((v - 1) / (n - 1) if n > 1 else 0.) if align_corners else np.maximum((np.arange(n) + .5) * v / n - .5, 0)
        lo = np.minimum(np.floor(p).astype(int), v - 1)
        hi = np.minimum(lo + 1, v - 1)
        t = (p - lo).reshape([-1 if j == ax + 2 else 1 for j in range(a.ndim)])
        a = np.take(a, lo, axis=ax + 2) * (1 - t) + np.take(a, hi, axis=ax + 2) * t
    return faketorch_ops.W(a.astype(x.a.dtype))


class Resize(OpRun):
    """the evaluator of the onnx package is wrong where a position meets a sample only but for rounding"""
    op_domain = ''

    def _run(self, x, roi=None, scales=None, sizes=None, mode=None, coordinate_transformation_mode=None, **rest):
        for ax in range(2, x.ndim):
            v = x.shape[ax]
            n = int(sizes[ax]) if sizes is not None and len(sizes) else int(np.floor(v * scales[ax]))
            p = np.arange(n) * ((v - 1) / (n - 1) if n > 1 else 0.) if coordinate_transformation_mode == 'align_corners' else (np.arange(n) + .5) * v / n - .5
            if mode == 'linear':
                x = np.apply_along_axis(lambda row: np.interp(p, np.arange(v), row), ax, x)
            else:
                x = np.take(x, np.clip(np.ceil(p - .5 - 1e-9), 0, v - 1).astype(int), axis=ax)
        return (x.astype(np.float32),)


def engine():
    if not _e:
        single.registry()
        sys.modules['torch.nn.functional'].interpolate = interpolate
        sys.modules['kernels'] = sys.modules['vt_kernels']
        for name in ('memory_pool', 'infer'):
            spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, 'inference', name + '.py'))
            m = sys.modules[name] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        _e['m'] = sys.modules['infer']
    return _e['m']


class Net(se.B):
    """the models of P14 with more operators"""
    def image_step(self):
        if self.rng.random() < .5:
            return super().image_step()
        self.more(self.pick(4))

    def seq_step(self):
        if self.rng.random() < .5:
            return super().seq_step()
        self.more(self.pick(3))

    def wr(self, *s):
        """a weight, sometimes one used before"""
        old = [n for n, a in self.inits.items() if a.shape == s and a.dtype == np.float32]
        if old and self.rng.random() < .3:
            return old[int(self.rng.integers(len(old)))]
        return self.w(self.rng.uniform(-1, 1, s).astype(np.float32))

    def more(self, x):
        r, d = self.rng, self.T[x]
        ax = 1 if self.image else 2
        if d[ax].var:
            return
        C, n = d[ax].f(None), len(d)
        i64 = lambda *v: self.w(np.array(v, np.int64))
        k = str(r.choice(['const', 'const', 'bn', 'unary', 'softmax', 'mean', 'gap', 'split', 'where', 'gather', 'unsqueeze', 'around', 'conv', 'clip', 'mul', 'head', 'expand', 'linear', 'sizes']))
        if k == 'const':
            s = [(1,), (C, 1, 1) if self.image else (C,), (1, C, 1, 1) if self.image else (1, 1, C), ()][int(r.integers(4))]
            op = str(r.choice(['Add', 'Sub', 'Mul', 'Div']))
            w = self.wr(*s)
            if op == 'Div':
                w = self.w((r.uniform(.5, 2, s) * r.choice([-1, 1])).astype(np.float32))
            self.add(op, [w, x] if op != 'Div' and r.random() < .3 else [x, w], list(d))
        elif k == 'bn' and self.image:
            v = self.w(r.uniform(.2, 2, C).astype(np.float32))
            self.add('BatchNormalization', [x, self.wr(C), self.wr(C), self.wr(C), v], list(d), epsilon=float(r.choice([1e-5, .1])))
        elif k == 'unary':
            op, at = [('LeakyRelu', {'alpha': .3}), ('LeakyRelu', {}), ('Tanh', {}), ('Neg', {}), ('Erf', {}), ('Identity', {}), ('Sigmoid', {})][int(r.integers(7))]
            self.add(op, [x], list(d), **at)
        elif k == 'softmax':
            self.add('Softmax', [x], list(d), axis=int(r.choice([1, -1, n - 1])))
        elif k == 'mean':
            a = int(r.integers(1, n))
            self.add(str(r.choice(['ReduceMean', 'ReduceSum', 'ReduceMax'])), [x, i64(a if r.random() < .5 else a - n)], [se.const(1) if j == a else q for j, q in enumerate(d)], keepdims=1)
        elif k == 'gap' and self.image:
            self.add('GlobalAveragePool', [x], [d[0], d[1], se.const(1), se.const(1)])
        elif k == 'split' and C >= 2:
            c = int(r.integers(1, C))
            outs = [f'p{self.k}a', f'p{self.k}b']
            for o, q in zip(outs, (c, C - c)):
                self.T[o] = [se.const(q) if j == ax else v for j, v in enumerate(d)]
            self.nodes.append(('Split', [x, i64(c, C - c)], outs, {'axis': ax}))
            self.k += 1
        elif k == 'where':
            # the larger or smaller of both: no jump where rounding might decide
            m, c = f'm{self.k}', self.w(np.array([.05], np.float32))
            self.nodes.append((str(r.choice(['Greater', 'Less'])), [x, c], [m], {}))
            self.add('Where', [m, x, c] if r.random() < .5 else [m, c, x], list(d))
        elif k == 'gather':
            idx = [int(v) for v in r.integers(-C, C, int(r.integers(1, 5)))]
            self.add('Gather', [x, i64(*idx)], [se.const(len(idx)) if j == ax else v for j, v in enumerate(d)], axis=ax)
        elif k == 'unsqueeze':
            a = int(r.integers(0, n + 1))
            u = f'u{self.k}'
            self.nodes.append(('Unsqueeze', [x, i64(a)], [u], {}))
            self.add('Squeeze', [u, i64(a)], list(d))
        elif k == 'around':
            p = [int(v) for v in r.permutation(n)]
            u = f'u{self.k}'
            self.nodes.append(('Transpose', [x], [u], {'perm': p}))
            self.add('Transpose', [u], list(d), perm=[int(v) for v in np.argsort(p)])
        elif k == 'conv' and self.image:
            depth = r.random() < .5
            o = C if depth else int(r.integers(1, 5))
            self.add('Conv', [x, self.wr(o, 1 if depth else C, 1, 1), self.wr(o)], [d[0], se.const(o), d[2], d[3]], kernel_shape=[1, 1], strides=[1, 1], pads=[0] * 4, dilations=[1, 1], group=C if depth else 1)
        elif k == 'clip':
            self.add('Clip', [x, self.w(np.array(-.3, np.float32)), self.w(np.array(.4, np.float32))], list(d))
        elif k == 'expand' and self.image:
            g, sh = f'g{self.k}', f's{self.k}e'
            self.nodes += [('GlobalAveragePool', [x], [g], {}), ('Shape', [x], [sh], {})]
            self.add('Expand', [g, sh], list(d))
        elif k in ('linear', 'sizes') and self.image:
            at = {'mode': 'linear', 'coordinate_transformation_mode': str(r.choice(['half_pixel', 'align_corners', 'pytorch_half_pixel']))}
            full = lambda q: q.at({v: e[1] for v, e in self.vars.items()})
            if k == 'sizes' and not d[0].var:
                h, w = int(r.integers(2, 25)), int(r.integers(2, 25))
                if r.random() < .4 and not d[2].var and not d[3].var:
                    h, w, at = full(d[2]) * 2, full(d[3]) * 3, {'mode': 'nearest'}
                if full(d[2]) * full(d[3]) * C < 3000:
                    self.add('Resize', [x, '', '', i64(full(d[0]), C, h, w)], [d[0], d[1], se.const(h), se.const(w)], **at)
            elif k == 'linear' and C * full(d[2]) * full(d[3]) < 3000:
                f = int(r.integers(2, 4))
                self.add('Resize', [x, '', self.w(np.array([1, 1, f, f], np.float32))], [d[0], d[1], se.apply(d[2], lambda v: v * f), se.apply(d[3], lambda v: v * f)], **at)
        elif k == 'mul':
            ys = [y for y, e in self.T.items() if len(e) == n and all(self.same(e[j], d[j]) for j in range(n))]
            self.add(str(r.choice(['Mul', 'Sub'])), [x, str(ys[int(r.integers(len(ys)))])], list(d))
        elif k == 'head' and self.image and r.random() < .4:
            g, f = f'g{self.k}', f'f{self.k}'
            self.nodes += [('GlobalAveragePool', [x], [g], {}), ('Flatten', [g], [f], {'axis': 1})]
            o, tr = int(r.integers(1, 5)), bool(r.random() < .5)
            if r.random() < .3:
                self.add('Gemm', [f, f], [d[0], d[0]], transB=1)
                return
            self.add('Gemm', [f, self.wr(o, C) if tr else self.wr(C, o), self.wr(o)][:2 + bool(r.random() < .6)], [d[0], se.const(o)], transB=int(tr), alpha=float(r.choice([1., .5])))


class Injected(RuntimeError):
    """what a kernel raises when the memory runs out"""


def failing(infer, e, x, rng, mon):
    """a forward of this size that fails, for an input which does not fit or inside a kernel"""
    given = {k: faketorch_ops.W(v.copy()) for k, v in x.items()}
    reg = infer.KernelRegistry
    get, left = reg.get, int(rng.integers(0, 6))
    q, k = rng.random(), list(given)[-1]
    if q < .15:
        given[k] = faketorch_ops.W(x[k][0])
    elif q < .6:
        given[k] = faketorch_ops.W(np.repeat(x[k], 60, axis=int(rng.integers(x[k].ndim))))
    else:
        def broken(name):
            nonlocal left
            left -= 1
            if left < 0:
                raise Injected('out of memory')
            return get(name)
        reg.get = broken
    try:
        with quiet():
            e.forward(given)
        mon.event('runs_meant_to_fail_which_did_not')
    except (RuntimeError, ValueError, IndexError, TypeError):
        mon.event('failed_runs')
    finally:
        reg.get = get


def cases(tier, seed):
    for i in range(1500 if tier == 'quick' else 20000):
        yield ('net', seed, i)


def run(case, mon):
    seed, i = case[1:]
    rng = rng_for('P37net', seed, i)
    infer = engine()
    b = Net(rng, small=True)
    if any(d.var and not se.classify(d.f, *b.vars[d.var]) for ds in b.T.values() for d in ds):
        mon.inconclusive('a dimension is neither affine nor scaled (P14)')
        return
    for op, ins, outs, at in b.nodes:
        if op in ('MaxPool', 'AveragePool') and (len(at['kernel_shape']) == 1 or any(2 * p > k for p, k in zip(at.get('pads', []), at['kernel_shape'] * 2))):
            mon.inconclusive('a pooling torch does not have')
            return
    m = b.model()
    ref = ReferenceEvaluator(m, new_ops=[Resize])
    kind, tol = [('float32', 1e-4), ('float64', 1e-4), ('float16', 3e-2)][int(rng.choice(3, p=[.7, .15, .15]))]
    what = f'{kind} {[(n[0], n[1], n[2], n[3]) for n in b.nodes]} of {b.desc} {b.vars}'
    names = [o.name for o in m.graph.output]
    with scratch() as d:
        f = os.path.join(d, 'm.onnx')
        onnx.save(m, f)
        with quiet():
            e = infer.GraphInfer(f, {k: tuple(v) for k, v in b.desc.items()}, {k: tuple(v) for k, v in b.vars.items()}, dtype=getattr(sys.modules['torch'], kind))
    given = {}
    try:
        for env in sequence(rng, b):
            x = {n: rng.uniform(-1, 1, [v if isinstance(v, int) else env[v] for v in dd]).astype(np.float32) for n, dd in b.desc.items()}
            for k, v in x.items():      # callers may write every step's values into the same tensors
                if k not in given or given[k].a.shape != v.shape or rng.random() < .3:
                    given[k] = faketorch_ops.W(v.copy())
                elif rng.random() < .7:
                    given[k].a[...] = v
                else:
                    x[k] = given[k].a.copy()
            want = dict(zip(names, ref.run(None, x)))
            if rng.random() < .25:
                failing(infer, e, x, rng, mon)
            with quiet():
                out = e.forward(given)
            for o, w in want.items():
                mon.event('model_outputs_compared')
                if o not in out:
                    mon.violation('model:missing', f'no output {o} of {what}')
                    return
                g = out[o].a
                if g.shape != w.shape or not np.allclose(g, w, rtol=10 * tol, atol=tol * max(1, np.abs(w).max()), equal_nan=True):
                    mon.violation('model', f'output {o} at {env} has the shape {g.shape} for {w.shape}' + (f' and differs by {np.abs(g - w).max():.3g}' if g.shape == w.shape else '') + f'; {what}')
                    return
    except Refused as x:
        mon.inconclusive(str(x))
        return
    mon.event('models_run')
    mon.distinct(('net', str(b.nodes)))
