"""P37: the computing kernels of the inference engine (inference/kernels.py)."""
import importlib.util
import os
import sys
import zlib
import numpy as np
import onnx
from onnx import helper, numpy_helper
from onnx.reference import ReferenceEvaluator
from vt import faketorch_ops
from vt.core import rng_for, quiet, REPO

PROP = 'P37'
RULE = ('every kernel on random shapes, attributes and values, its outputs poisoned before: the ONNX operators against the reference evaluator, the fused ones against their '
        'documented formulas, attention with a cache fed in random chunks against attention over the whole sequence; inputs must stay unchanged; non-trivial when the result is not constant')
BUDGET = {'quick': 60, 'thorough': 500}
ASSUMPTIONS = ['torch is replaced by a numpy stand-in with the restrictions of torch (index ranges, shapes of out=, dimensions of copy_)', 'float32 data', 'two spatial dimensions', 'no auto_pad, Resize left out']
MIN_EVENTS = {'kernel_runs': 10000, 'chunks_attended': 1000}
F32 = np.float32
_k = {}


def registry():
    if not _k:
        t, F = faketorch_ops.module()
        sys.modules['torch'], sys.modules['torch.nn'], sys.modules['torch.nn.functional'] = t, t.nn, F
        spec = importlib.util.spec_from_file_location('vt_kernels', os.path.join(REPO, 'inference', 'kernels.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules['vt_kernels'] = m
        spec.loader.exec_module(m)
        _k['r'], _k['t'] = m.KernelRegistry, t
    return _k['r'], _k['t']


OPS = {}


def op(*names):
    def w(f):
        for n in names:
            OPS[n] = f
        return f
    return w


def shape(rng, n=None, lo=1, hi=6):
    n = int(rng.integers(1, 5)) if n is None else n
    return [int(v) for v in rng.integers(lo, hi, n)]


def val(rng, s, scale=2.):
    return (rng.normal(0, scale, s)).astype(F32)


def I(*v):
    return np.array(v[0] if len(v) == 1 and isinstance(v[0], (list, tuple)) else v, np.int64)


def signed(rng, axis, n):
    return int(axis - n if rng.random() < .4 else axis)


def bc(rng, s):
    """a shape which broadcasts into s"""
    t = [1 if rng.random() < .3 else v for v in s]
    return t[int(rng.integers(len(t))):] if rng.random() < .4 else t


# every generator gives (inputs, attributes, opset)
@op('Add', 'Sub', 'Mul', 'Div', 'Equal', 'Greater', 'Less', 'Mod', 'Pow')
def _binary(rng, name):
    s = shape(rng)
    a, b = val(rng, s), val(rng, bc(rng, s))
    if rng.random() < .5 and name not in ('Sub', 'Div'):
        a, b = b, a
    at = {}
    if name in ('Equal', 'Greater', 'Less'):
        a, b = np.rint(a), np.rint(b)
    if name == 'Pow':
        a = np.abs(a) + F32(.1)
    if name == 'Mod':
        if rng.random() < .5:
            at['fmod'] = 1
            b = np.where(np.abs(b) < .1, F32(1.5), b)
        else:
            a, b = np.rint(a * 5).astype(np.int64), np.rint(b * 3).astype(np.int64)
            b[b == 0] = 3
    if name == 'Div':
        b = np.where(np.abs(b) < .1, F32(.5), b)
    return [a, b], at, 18


@op('Relu', 'Sigmoid', 'Tanh', 'Neg', 'Erf', 'Identity', 'Sqrt')
def _unary(rng, name):
    x = val(rng, shape(rng), 3)
    return [np.abs(x) if name == 'Sqrt' else x], {}, 18


@op('LeakyRelu')
def _leaky(rng, name):
    return [val(rng, shape(rng))], {'alpha': float(rng.choice([.1, .5, .02]))} if rng.random() < .7 else {}, 18


@op('Clip')
def _clip(rng, name):
    x = val(rng, shape(rng))
    lo, hi = np.float32(rng.uniform(-2, 0)), np.float32(rng.uniform(0, 2))
    if rng.random() < .2:
        hi = F32(0)
    if rng.random() < .2:
        lo = F32(0) if hi > 0 else F32(-1)
    k = rng.random()
    if k < .3:
        at = {n: float(v) for n, v in (('min', lo), ('max', hi)) if rng.random() < .7}
        return [x], at, 6
    return [[x, np.array(lo)], [x, np.array(lo), np.array(hi)], [x, None, np.array(hi)], [x]][int(rng.integers(4))], {}, 18


@op('Reshape')
def _reshape(rng, name):
    s = shape(rng)
    n = int(np.prod(s))
    k = int(rng.integers(3))
    if k == 0:
        t = [-1]
    elif k == 1:
        t = list(s)
        i = int(rng.integers(len(s)))
        t[i] = 0
        if rng.random() < .5:
            t[int(rng.integers(len(s)))] = -1
    else:
        f = [d for d in range(1, n + 1) if n % d == 0]
        d = int(rng.choice(f))
        t = [d, n // d]
        if rng.random() < .5:
            t[int(rng.integers(2))] = -1
    return [val(rng, s), I(t)], {}, 18


@op('Transpose')
def _transpose(rng, name):
    s = shape(rng)
    return [val(rng, s)], {'perm': [int(v) for v in rng.permutation(len(s))]} if rng.random() < .8 else {}, 18


@op('Flatten')
def _flatten(rng, name):
    s = shape(rng)
    a = int(rng.integers(-len(s), len(s) + 1))
    return [val(rng, s)], {'axis': a} if a != 1 or rng.random() < .5 else {}, 18


@op('Concat')
def _concat(rng, name):
    s = shape(rng)
    a = int(rng.integers(len(s)))
    xs = [val(rng, s[:a] + [int(rng.integers(1, 5))] + s[a + 1:]) for _ in range(int(rng.integers(1, 5)))]
    return xs, {'axis': signed(rng, a, len(s))}, 18


@op('Softmax')
def _softmax(rng, name):
    s = shape(rng)
    return [val(rng, s)], {'axis': signed(rng, int(rng.integers(len(s))), len(s))} if rng.random() < .7 else {}, 18


@op('Squeeze')
def _squeeze(rng, name):
    s = [1 if rng.random() < .5 else v for v in shape(rng, None, 2)]
    ones = [i for i, v in enumerate(s) if v == 1]
    k = rng.random()
    ax = [signed(rng, i, len(s)) for i in ones if rng.random() < .7]
    if not ax or k < .2:
        return [val(rng, s)], {}, 18
    return ([val(rng, s)], {'axes': ax}, 11) if k < .6 else ([val(rng, s), I(ax)], {}, 18)


@op('Unsqueeze')
def _unsqueeze(rng, name):
    s = shape(rng, int(rng.integers(1, 4)))
    c = int(rng.integers(1, 4))
    ax = [signed(rng, int(v), len(s) + c) for v in rng.permutation(len(s) + c)[:c]]
    if rng.random() < .4:       # the reference evaluator goes through these one after the other
        return [val(rng, s)], {'axes': sorted(v % (len(s) + c) for v in ax)}, 11
    return [val(rng, s), I(ax)], {}, 18


@op('Shape')
def _shape(rng, name):
    return [val(rng, shape(rng))], {}, 13


@op('Gather')
def _gather(rng, name):
    s = shape(rng)
    a = int(rng.integers(len(s)))
    i = rng.integers(-s[a] if rng.random() < .3 else 0, s[a], shape(rng, int(rng.choice([0, 1, 1, 2, 2, 3])))).astype(np.int64)
    return [val(rng, s), np.asarray(i)], {'axis': signed(rng, a, len(s))} if a or rng.random() < .5 else {}, 18


@op('GatherElements')
def _gatherel(rng, name):
    s = shape(rng)
    a = int(rng.integers(len(s)))
    t = [v if rng.random() < .6 else int(rng.integers(1, v + 1)) for v in s]
    t[a] = int(rng.integers(1, 6))
    i = rng.integers(-s[a] if rng.random() < .3 else 0, s[a], t).astype(np.int64)
    return [val(rng, s), i], {'axis': signed(rng, a, len(s))} if a or rng.random() < .5 else {}, 18


@op('Cast')
def _cast(rng, name):
    to = int(rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11]))
    x = np.minimum(np.abs(np.rint(val(rng, shape(rng), 90))), 127 if to == 3 else 255)
    return [-x if to in (3, 5, 6, 7) and rng.random() < .5 else x + F32(.25) if to in (1, 10, 11) else x], {'to': to}, 18


@op('Expand')
def _expand(rng, name):
    s = shape(rng)
    return [val(rng, bc(rng, s)), I(s)], {}, 18


@op('Tile')
def _tile(rng, name):
    s = shape(rng)
    return [val(rng, s), I([int(v) for v in rng.integers(1, 4, len(s))])], {}, 18


@op('Where')
def _where(rng, name):
    s = shape(rng)
    c = rng.random(bc(rng, s)) < .5
    return [c, val(rng, s), val(rng, bc(rng, s))], {}, 18


@op('ReduceMean', 'ReduceSum', 'ReduceMax')
def _reduce(rng, name):
    s = shape(rng)
    k = int(rng.integers(1, len(s) + 1))
    ax = [signed(rng, int(v), len(s)) for v in rng.permutation(len(s))[:k]]
    at = {'keepdims': int(rng.integers(2))} if rng.random() < .7 else {}
    x = val(rng, s)
    m = rng.random()
    if m < .2:
        return [x], at, 18
    if m < .6:
        return [x], dict(at, axes=ax), 11
    return [x, I(ax)], at, 18


@op('Slice')
def _slice(rng, name):
    s = shape(rng, None, 2, 8)
    k = int(rng.integers(1, len(s) + 1))
    ax = [int(v) for v in rng.permutation(len(s))[:k]]
    st, en, sp = [], [], []
    for a in ax:
        b = int(rng.integers(0, s[a]))
        e = int(rng.integers(b + 1, s[a] + 1))
        b, e = (b - s[a] if rng.random() < .3 else b), (2 ** 31 - 1 if e == s[a] and rng.random() < .5 else e - s[a] if e < s[a] and rng.random() < .3 else e)
        st.append(b)
        en.append(e)
        sp.append(int(rng.choice([1, 1, 2, 3])))
    sa = [signed(rng, a, len(s)) for a in ax]
    m = rng.random()
    if m < .25:
        return [val(rng, s)], {'starts': st, 'ends': en, 'axes': sa}, 9
    if m < .4 and ax == list(range(k)):
        return [val(rng, s), I(st), I(en)], {}, 18
    if m < .6:
        return [val(rng, s), I(st), I(en), I(sa)], {}, 18
    return [val(rng, s), I(st), I(en), I(sa), I(sp)], {}, 18


@op('Pad')
def _pad(rng, name):
    mode = str(rng.choice(['constant', 'constant', 'reflect', 'edge']))
    n = int(rng.integers(1, 5)) if mode == 'constant' else 4
    s = shape(rng, n, 3, 7)
    free = range(n) if mode == 'constant' else range(2, 4)
    b, e = [0] * n, [0] * n
    for i in free:
        b[i], e[i] = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    at = {} if mode == 'constant' and rng.random() < .5 else {'mode': mode}
    x = val(rng, s)
    if rng.random() < .4:
        if mode == 'constant' and rng.random() < .6:
            at['value'] = 1.5
        return [x], dict(at, pads=b + e), 2
    return [x, I(b + e)] + ([np.array(F32(-2.5))] if mode == 'constant' and rng.random() < .6 else []), at, 13


def window(rng, H, W, dil=True):
    k = [int(v) for v in rng.integers(1, 4, 2)]
    at = {'kernel_shape': k}
    if rng.random() < .7:
        at['strides'] = [int(v) for v in rng.integers(1, 4, 2)]
    if rng.random() < .6:
        p = [int(rng.integers(0, v // 2 + 1)) for v in k]
        at['pads'] = p + p
    return k, at


@op('Conv')
def _conv(rng, name):
    g = int(rng.choice([1, 1, 2, 3]))
    c, m = g * int(rng.integers(1, 3)), g * int(rng.integers(1, 4))
    H, W = [int(v) for v in rng.integers(5, 10, 2)]
    k = [int(v) for v in rng.integers(1, 4, 2)]
    at = {'kernel_shape': k}
    if rng.random() < .7:
        at['strides'] = [int(v) for v in rng.integers(1, 4, 2)]
    if rng.random() < .7:
        p = [int(v) for v in rng.integers(0, 4, 2)]
        at['pads'] = p + p if rng.random() < .6 else p + [int(v) for v in rng.integers(0, 4, 2)]
    if rng.random() < .5:
        at['dilations'] = [int(v) for v in rng.integers(1, 3, 2)]
    if g > 1 or rng.random() < .5:
        at['group'] = g
    ins = [val(rng, [int(rng.integers(1, 3)), c, H, W]), val(rng, [m, c // g] + k)]
    return ins + ([val(rng, [m])] if rng.random() < .6 else []), at, 18


@op('AveragePool', 'MaxPool')
def _pool(rng, name):
    H, W = [int(v) for v in rng.integers(4, 10, 2)]
    k, at = window(rng, H, W)
    if name == 'AveragePool' and rng.random() < .4:
        at['count_include_pad'] = 1
    return [val(rng, [int(rng.integers(1, 3)), int(rng.integers(1, 4)), H, W])], at, 18


@op('GlobalAveragePool')
def _gap(rng, name):
    return [val(rng, shape(rng, 4))], {}, 18


@op('BatchNormalization')
def _bn(rng, name):
    s = shape(rng, 4)
    v = lambda: val(rng, [s[1]])
    return [val(rng, s), v(), v(), v(), np.abs(v()) + F32(.1)], {'epsilon': float(rng.choice([1e-3, .1]))} if rng.random() < .6 else {}, 15


@op('Gemm')
def _gemm(rng, name):
    m, k, n = shape(rng, 3)
    at = {}
    if rng.random() < .5:
        at['alpha'] = float(rng.choice([.5, 2.]))
    if rng.random() < .5:
        at['beta'] = float(rng.choice([.5, -1.]))
    ta, tb = rng.random() < .4, rng.random() < .5
    if ta:
        at['transA'] = 1
    if tb:
        at['transB'] = 1
    ins = [val(rng, [k, m] if ta else [m, k]), val(rng, [n, k] if tb else [k, n])]
    if rng.random() < .7:
        ins.append(val(rng, [[n], [1, n], [m, n], [m, 1]][int(rng.integers(4))]))
    return ins, at, 18


@op('MatMul')
def _matmul(rng, name):
    b = shape(rng, int(rng.integers(0, 3)))
    m, k, n = shape(rng, 3)
    return [val(rng, b + [m, k]), val(rng, (b if rng.random() < .5 else []) + [k, n])], {}, 18


@op('LayerNormalization')
def _ln(rng, name):
    s = shape(rng, int(rng.integers(2, 5)), 2)
    ins = [val(rng, s), val(rng, s[-1:])] + ([val(rng, s[-1:])] if rng.random() < .6 else [])
    return ins, {'epsilon': float(rng.choice([1e-3, .1]))} if rng.random() < .6 else {}, 18


@op('Split')
def _split(rng, name):
    s = shape(rng, None, 2, 9)
    a = int(rng.integers(len(s)))
    n = int(rng.integers(1, min(4, s[a]) + 1))
    cut = sorted(int(v) for v in rng.permutation(np.arange(1, s[a]))[:n - 1])
    sizes = [b - c for c, b in zip([0] + cut, cut + [s[a]])]
    at = {'axis': signed(rng, a, len(s))} if a or rng.random() < .5 else {}
    k = rng.random()
    if k < .35:
        return [val(rng, s)], dict(at, split=sizes, _outs=n), 11
    if k < .7:
        return [val(rng, s), I(sizes)], dict(at, _outs=n), 13
    s[a] = n * int(rng.integers(1, 4))
    return [val(rng, s)], dict(at, _outs=n), 13


@op('TopK')
def _topk(rng, name):
    s = shape(rng)
    a = int(rng.integers(len(s)))
    x = (rng.permutation(int(np.prod(s))) - 3).reshape(s).astype(F32)
    k = int(rng.integers(1, s[a] + 1))
    at = {'axis': signed(rng, a, len(s)), '_outs': 2}
    if rng.random() < .5:
        at['largest'] = int(rng.integers(2))
    return [x, I([k])], at, 13


def private(v):
    return None if v is None else np.array(v)


def compare(mon, name, got, want, what, tol=1e-4):
    for j, (g, w) in enumerate(zip(got, want)):
        w = np.asarray(w)
        if not np.allclose(g.astype(np.float64), w.astype(np.float64), rtol=tol, atol=tol, equal_nan=True):
            mon.violation(f'{name}:value', f'{what}: output {j} is {np.array2string(g.ravel()[:12])}, by the definition {np.array2string(w.ravel()[:12])}')
            return False
    return True


def execute(mon, name, ins, outs, attrs, what, written=()):
    """kernel on poisoned outputs; None when its inputs changed"""
    reg, t = registry()
    if not reg.has(name):
        mon.violation(f'{name}:missing', f'no kernel is registered for {name}')
        return None
    if zlib.crc32(what.encode()) & 1:        # as read from a file
        attrs = {k: v.encode() if isinstance(v, str) else v for k, v in attrs.items()}
    ti = [None if v is None else faketorch_ops.W(np.array(v)) for v in ins]
    to = []
    for w in outs:
        a = np.empty(np.shape(w), np.asarray(w).dtype)
        a[...] = 77 if a.dtype != bool else True
        to.append(faketorch_ops.W(a))
    mon.event('kernel_runs')
    mon.event('kernel_' + name)
    try:
        with quiet():
            reg.get(name).run(ti, to, attrs)
    except faketorch_ops.Missing:
        raise
    except Exception as e:
        mon.violation(f'{name}:raised', f'{what}: {type(e).__name__}: {e}')
        return None
    for j, (v, x) in enumerate(zip(ins, ti)):
        if v is not None and j not in written and not np.array_equal(np.asarray(v), x.a, equal_nan=np.asarray(v).dtype.kind == 'f'):
            mon.violation(f'{name}:input', f'{what}: input {j} is changed')
            return None
    return [x.a for x in to], [None if x is None else x.a for x in ti]


def maxpool(x, k, s, p):
    a = np.pad(x, [(0, 0), (0, 0), (p[0], p[2]), (p[1], p[3])], constant_values=-np.inf)
    return np.array([[a[:, :, i:i + k[0], j:j + k[1]].max(axis=(2, 3)) for j in range(0, a.shape[3] - k[1] + 1, s[1])]
                     for i in range(0, a.shape[2] - k[0] + 1, s[0])]).transpose(2, 3, 0, 1)


def standard(rng, mon, name):
    ins, attrs, opset = OPS[name](rng, name)
    n = attrs.pop('_outs', 1)
    names = ['' if v is None else f'i{k}' for k, v in enumerate(ins)]
    node = helper.make_node(name, names, [f'o{k}' for k in range(n)], **attrs)
    full = node
    if name in ('AveragePool', 'MaxPool'):      # defaults spelled out for the reference evaluator
        full = helper.make_node(name, names, node.output, **{**{'strides': [1, 1], 'pads': [0, 0, 0, 0]}, **attrs})
    g = helper.make_graph([full], 'g', [helper.make_tensor_value_info(x, helper.np_dtype_to_tensor_dtype(np.asarray(v).dtype), np.shape(v)) for x, v in zip(names, ins) if x],
                          [helper.make_tensor_value_info(o, 1, None) for o in node.output])
    what = f'{name}-{opset} {attrs} of {[None if v is None else list(np.shape(v)) for v in ins]}' + ''.join(f' {np.asarray(v).tolist()}' for v in ins[1:] if v is not None and np.asarray(v).dtype == np.int64 and np.size(v) < 9)
    try:
        want = None if name == 'GatherElements' else ReferenceEvaluator(helper.make_model(g, opset_imports=[helper.make_opsetid('', opset)])).run(None, {x: v for x, v in zip(names, ins) if x})
    except Exception as e:
        mon.inconclusive('reference evaluator: ' + type(e).__name__)
        return
    if name == 'MaxPool':       # the reference evaluator takes the padding in another order
        want = [maxpool(ins[0], attrs['kernel_shape'], attrs.get('strides', [1, 1]), attrs.get('pads', [0, 0, 0, 0]))]
    if name == 'GatherElements':        # nor does it know smaller index tensors
        a = attrs.get('axis', 0) % ins[0].ndim
        want = [np.take_along_axis(ins[0][tuple(slice(0, n) if j != a else slice(None) for j, n in enumerate(ins[1].shape))], ins[1], axis=a)]
    want = [np.asarray(w) for w in want]
    if rng.random() < .6:       # the engine keeps every tensor in one element type
        want = [w.astype(F32) for w in want]
    import onnx_tool.node
    with quiet():
        at = onnx_tool.node.create_node(node).attr
    if name == 'Gemm' and attrs.get('transB'):
        reg, t = registry()
        given = list(ins)
        given[1] = reg.get(name).preprocess_weight('i1', faketorch_ops.W(np.array(ins[1])), at).a
    else:
        given = ins
    if name != 'Mod' and rng.random() < .4:     # the engine loads every constant in its own element type
        given = [v if v is None or np.asarray(v).dtype != np.int64 else np.asarray(v).astype(F32) for v in given]
    r = execute(mon, name, given, want, at, what)
    if r and compare(mon, name, r[0], want, what):
        if any(w.size > 1 and w.min() != w.max() for w in want):
            mon.distinct((what,) + tuple(np.asarray(v).tobytes() for v in ins if v is not None))
            mon.sample({'kernel': what})


# ---------------------------------------------------------------- fused kernels
def attention(q, k, v, heads, kv):
    """[B, S, heads*hd] each, causal, over everything at once"""
    B, S, D = q.shape
    hd = D // heads
    q = q.reshape(B, S, heads, hd).astype(np.float64)
    k, v = (np.repeat(x.reshape(B, S, kv, hd), heads // kv, axis=2).astype(np.float64) for x in (k, v))
    s = np.einsum('bihd,bjhd->bhij', q, k) / np.sqrt(hd)
    s = np.where(np.tril(np.ones((S, S), bool)), s, -np.inf)
    p = np.exp(s - s.max(-1, keepdims=True))
    return np.einsum('bhij,bjhd->bihd', p / p.sum(-1, keepdims=True), v).reshape(B, S, D)


def heads4(x, n):
    B, S, D = x.shape
    return np.ascontiguousarray(x.reshape(B, S, n, D // n).transpose(0, 2, 1, 3))


def sdpa(rng, mon):
    B, S, hd = int(rng.integers(1, 3)), int(rng.integers(1, 9)), int(rng.choice([2, 4, 8]))
    kv = int(rng.integers(1, 4))
    n = kv * int(rng.choice([1, 1, 2, 3]))
    q, k, v = val(rng, [B, S, n * hd], 1), val(rng, [B, S, kv * hd], 1), val(rng, [B, S, kv * hd], 1)
    want = attention(q, k, v, n, kv)
    four = rng.random() < .5
    at = {'head_num': n, 'head_size': hd}
    if kv != n or rng.random() < .5:
        at['kv_head_num'] = kv
    form = (lambda x, c: heads4(x, c)) if four else (lambda x, c: x)
    what = f'attention of {n} heads over {kv}, size {hd}, batch {B}, {S} tokens, {4 if four else 3} dimensions'
    if rng.random() < .4:
        r = execute(mon, 'SDPA', [form(q, n), form(k, kv), form(v, kv)], [want.astype(F32)], at, what)
        if r and compare(mon, 'SDPA', r[0], [want], what):
            mon.distinct((what, q.tobytes()))
        return
    layers = int(rng.integers(1, 4))
    layer = int(rng.integers(layers))
    at['layer_i'] = layer
    length = S + int(rng.integers(0, 4))
    cache = np.full((B, 2 * layers, length, kv * hd), 55, F32)
    done, parts = 0, []
    while done < S:
        c = int(rng.integers(1, S - done + 1))
        w = slice(done, done + c)
        past = np.array([done], F32 if rng.random() < .5 else np.int64)
        past = past.reshape([(1,), (), (1, 1)][int(rng.integers(3))])
        r = execute(mon, 'SDPA', [form(q[:, w], n), form(k[:, w], kv), form(v[:, w], kv), past, cache], [want[:, w].astype(F32)], at, what, written=(4,))
        mon.event('chunks_attended')
        parts.append(c)
        if not r or not compare(mon, 'SDPA', r[0], [want[:, w]], f'{what}, in chunks of {parts} with a cache of layer {layer} of {layers}'):
            return
        new = r[1][4]
        for l in range(2 * layers):
            exp = cache[:, l].copy()
            if l // 2 == layer:
                exp[:, w] = (k, v)[l % 2][:, w]
            if not np.array_equal(new[:, l], exp):
                mon.violation('SDPA:cache', f'{what}: after chunks of {parts} row {l} of the cache of layer {layer} of {layers} is not what was given')
                return
        cache = new
        done += c
    if len(parts) > 1:
        mon.distinct((what, q.tobytes(), tuple(parts)))
        mon.sample({'attention': what, 'chunks': parts})


def rope(rng, mon):
    B, S, half, n, top = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(6, 12))
    x = val(rng, [B, S, n, 2 * half])
    cos, sin = val(rng, [1, top, half], 1), val(rng, [1, top, half], 1)
    pos = rng.integers(0, top, [B, S]).astype(np.int64)
    c, s = cos[0][pos][:, :, None], sin[0][pos][:, :, None]
    a, b = x[..., :half], x[..., half:]
    y = np.concatenate([a * c - b * s, a * s + b * c], -1)
    if rng.random() < .5:
        cos, sin = cos[None], sin[None]
    if rng.random() < .5:
        pos = pos.astype(F32)
    if rng.random() < .5:
        x, y = np.ascontiguousarray(x.transpose(0, 2, 1, 3)), y.transpose(0, 2, 1, 3)
    else:
        x, y = x.reshape(B, S, -1), y.reshape(B, S, -1)
    what = f'rotary embedding of {list(x.shape)} with tables of {list(cos.shape)} at {pos.tolist()}'
    r = execute(mon, 'Rope', [x, cos, sin, pos], [y.astype(F32)], {}, what)
    if r and compare(mon, 'Rope', r[0], [y], what):
        mon.distinct((what, x.tobytes()))


def norm(rng, mon):
    s = shape(rng, int(rng.integers(2, 4)), 2)
    hd = s[-1]
    n = int(rng.choice([1, 1, 2, 4]))
    x, w = val(rng, s[:-1] + [n, hd]), val(rng, [hd])
    rms = rng.random() < .6
    b = val(rng, [hd]) if not rms and rng.random() < .6 else None
    eps = float(rng.choice([1e-6, 1e-3, .1]))
    a = x.astype(np.float64)
    if rms:
        y = a / np.sqrt((a * a).mean(-1, keepdims=True) + eps) * w
    else:
        y = (a - a.mean(-1, keepdims=True)) / np.sqrt(a.var(-1, keepdims=True) + eps) * w + (0 if b is None else b)
    x, y = x.reshape(s[:-1] + [n * hd]), y.reshape(s[:-1] + [n * hd])
    at = {'epsilon': eps}
    if rms:
        at['type'] = 'rms'
    what = f'{"rms" if rms else "layer"} normalization of {list(x.shape)} by weights of {hd}, epsilon {eps}'
    r = execute(mon, 'LayerNormalization', [x, w] + ([b] if b is not None else []), [y.astype(F32)], at, what)
    if r and compare(mon, 'LayerNormalization', r[0], [y], what):
        mon.distinct((what, x.tobytes()))


def fused(rng, mon):
    name = str(rng.choice(['Mad', 'Gelu', 'Silu', 'Layernrom', 'RangeGather', 'MatMul']))
    s = shape(rng, None, 2)
    x, at, tol = val(rng, s), {}, 1e-4
    if name == 'Mad':
        ins = [x, val(rng, bc(rng, s)), val(rng, bc(rng, s))]
        y = x * ins[1] + ins[2]
    elif name == 'Gelu':
        a = x.astype(np.float64)
        ins, y, tol = [x], .5 * a * (1 + np.tanh(np.sqrt(2 / np.pi) * (a + .044715 * a ** 3))), 2e-3
    elif name == 'Silu':
        ins, y = [x], x / (1 + np.exp(-x.astype(np.float64)))
    elif name == 'Layernrom':
        ins = [x, val(rng, s[-1:]), val(rng, s[-1:])]
        a = x.astype(np.float64)
        at = {'ReduceMean0_axes': [-1]} if rng.random() < .5 else {}
        y = (a - a.mean(-1, keepdims=True)) / np.sqrt(a.var(-1, keepdims=True) + 1e-5) * ins[1] + ins[2]
    elif name == 'MatMul':
        m, k, n = shape(rng, 3)
        ins = [val(rng, [m, k]), val(rng, [k, n]), val(rng, [n])]
        y = ins[0] @ ins[1] + ins[2]
    else:
        top, c, past = int(rng.integers(6, 12)), int(rng.integers(1, 5)), int(rng.integers(0, 5))
        n = int(rng.integers(1, top - past + 1))
        w = val(rng, [top, c])
        ins, y = [np.array(n, F32), None, None, None, w, np.array(past, F32)], w[past:past + n]
    what = f'{name} {at} of {[None if v is None else list(v.shape) for v in ins]}'
    r = execute(mon, name, ins, [np.asarray(y).astype(F32)], at, what)
    if r and compare(mon, name, r[0], [y], what, tol):
        mon.distinct((what, x.tobytes()))


def cases(tier, seed):
    n = 300 if tier == 'quick' else 9000
    names = sorted(OPS)
    for i in range(n):
        for o in names:
            yield (o, seed, i)
        for k, c in (('sdpa', 4), ('rope', 1), ('norm', 2), ('fused', 5)):
            for j in range(c):
                yield (k, seed, i + j * 100000)


def run(case, mon):
    kind, seed, i = case
    rng = rng_for('P37', kind, seed, i)
    if kind in OPS:
        standard(rng, mon, kind)
    else:
        {'sdpa': sdpa, 'rope': rope, 'norm': norm, 'fused': fused}[kind](rng, mon)
