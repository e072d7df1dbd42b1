"""Reference execution and comparison helpers (the ONNX reference evaluator is the trusted base)."""
import warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto

NP2ONNX = {np.dtype(k): v for k, v in {
    'float32': 1, 'uint8': 2, 'int8': 3, 'uint16': 4, 'int16': 5, 'int32': 6, 'int64': 7, 'bool': 9,
    'float16': 10, 'float64': 11, 'uint32': 12, 'uint64': 13}.items()}


def vi(name, arr, with_shape=True):
    return helper.make_tensor_value_info(name, helper.np_dtype_to_tensor_dtype(np.dtype(arr.dtype)), list(arr.shape) if with_shape else None)


def op_model(case, out_types=None):
    """one-node ModelProto of an OpCase; returns (model, feeds, output names)"""
    ins, names, inits, feeds, gin = case.inputs, [], [], {}, []
    for i, x in enumerate(ins):
        if x is None:
            names.append('')
            continue
        n = f'i{i}'
        names.append(n)
        if i in case.static:
            inits.append(numpy_helper.from_array(np.ascontiguousarray(x) if x.ndim else x, n))
        else:
            gin.append(vi(n, x))
            feeds[n] = x
    outs = [f'o{k}' for k in range(case.nout)]
    node = helper.make_node(case.op, names, outs, name='n0', **case.attrs)
    gout = [helper.make_tensor_value_info(o, 1, None) if out_types is None else helper.make_tensor_value_info(o, out_types[k], None) for k, o in enumerate(outs)]
    g = helper.make_graph([node], 'g', gin, gout, initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', case.opset)])
    m.ir_version = 8
    return m, feeds, outs


def reference(model, feeds, outputs=None):
    from onnx.reference import ReferenceEvaluator
    if any(o == '' for n in model.graph.node for o in n.output):
        from vt.modelgen import name_empty_outputs
        model = name_empty_outputs(model)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return [np.asarray(v) for v in ReferenceEvaluator(model).run(outputs, feeds)]


def onnx_inferred(model):
    """name -> (elem_type, dims) from onnx's own inference (second opinion)"""
    try:
        im = onnx.shape_inference.infer_shapes(model, data_prop=True, strict_mode=True)
    except Exception:
        return None
    res = {}
    for v in list(im.graph.value_info) + list(im.graph.output):
        tt = v.type.tensor_type
        if tt.HasField('shape'):
            dims = [d.dim_value if d.HasField('dim_value') else None for d in tt.shape.dim]
        else:
            dims = None
        res[v.name] = (tt.elem_type, dims)
    return res


def close(a, b, tol=1e-4):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
        return [v.encode() if isinstance(v, str) else v for v in a.ravel().tolist()] == [v.encode() if isinstance(v, str) else v for v in b.ravel().tolist()]
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        rtol = atol = tol
        if tol == 'pointwise':
            rtol, atol = 1e-5, 1e-7
        wide = np.complex128 if 'c' in (a.dtype.kind, b.dtype.kind) else np.float64
        with np.errstate(all='ignore'):
            return bool(np.allclose(a.astype(wide), b.astype(wide), rtol=rtol, atol=atol, equal_nan=True))
    return bool(np.array_equal(a, b))


def bitequal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def samerun(a, b):
    """results of two executions of the same computation: BLAS may round differently when an operand
    lies differently in memory, everything else is exact"""
    if bitequal(a, b):
        return True
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype or a.dtype.kind not in 'fc':
        return False
    with np.errstate(all='ignore'):
        fa, fb = np.isfinite(a), np.isfinite(b)
        if (fa != fb).any() or not np.array_equal(a[~fa], b[~fb], equal_nan=True):
            return False
        a, b = a[fa].astype(np.float64), b[fb].astype(np.float64)
        return bool(a.size == 0 or np.abs(a - b).max() <= 1e-5 * np.abs(a).max())


# ------------------------------------------------------------------ expected results of one operator
# Written from the ONNX operator documentation for operators whose reference implementation in the
# installed onnx is missing, restricted or wrong (each entry says which).

class Expect:
    __slots__ = ('shape', 'dtype', 'value')

    def __init__(self, shape, dtype, value=None):
        self.shape, self.dtype, self.value = [int(v) for v in shape], np.dtype(dtype), value


def _e(a):
    a = np.asarray(a)
    return Expect(a.shape, a.dtype, a)


def _gather_elements(c):     # the reference refuses index tensors smaller than the data
    x, idx = c.inputs
    ax = c.attrs.get('axis', 0)
    out = np.empty(idx.shape, x.dtype)
    for i in np.ndindex(*idx.shape):
        s = list(i)
        s[ax] = idx[i]
        out[i] = x[tuple(s)]
    return [_e(out)]


def _onehot(c):              # the reference refuses a depth of shape [1]
    idx, depth, vals = c.inputs
    d = int(np.asarray(depth).reshape(-1)[0])
    ax = c.attrs.get('axis', -1)
    r = idx.ndim + 1
    ax = ax + r if ax < 0 else ax
    hot = np.full(idx.shape + (d,), vals[0], vals.dtype)
    for i in np.ndindex(*idx.shape):
        v = int(idx[i])
        v = v + d if v < 0 else v
        if 0 <= v < d:
            hot[i + (v,)] = vals[1]
    return [_e(np.moveaxis(hot, -1, ax))]


def _expand(c):              # the reference cannot broadcast ranks below the data's
    x, s = c.inputs
    sh = np.broadcast_shapes(x.shape, tuple(int(v) for v in s))
    return [_e(np.broadcast_to(x, sh))]


def _unsqueeze(c):           # reference of opset 11 applies unsorted axes one by one
    x = c.inputs[0]
    axes = c.attrs['axes'] if 'axes' in c.attrs else c.inputs[1].tolist()
    return [_e(np.expand_dims(x, tuple(int(a) for a in axes)))]


def _squeeze(c):             # reference of opset 11 applies unsorted axes one by one
    x = c.inputs[0]
    axes = c.attrs.get('axes') if 'axes' in c.attrs else (c.inputs[1].tolist() if len(c.inputs) > 1 and c.inputs[1] is not None else None)
    return [_e(np.squeeze(x, None if axes is None else tuple(int(a) for a in axes)))]


def _pad(c):                 # the reference refuses negative pads
    x = c.inputs[0]
    r = x.ndim
    pads = c.attrs.get('pads')
    if pads is None:
        pads = [int(v) for v in c.inputs[1]]
    axes = list(range(r))
    if len(c.inputs) > 3 and c.inputs[3] is not None:
        axes = [int(a) % r for a in c.inputs[3]]
    b, e = [0] * r, [0] * r
    for k, a in enumerate(axes):
        b[a], e[a] = int(pads[k]), int(pads[k + len(axes)])
    mode = c.attrs.get('mode', 'constant')
    if any(max(0, -b[i]) + max(0, -e[i]) > x.shape[i] for i in range(r)):
        return None          # more taken away than there is
    x = x[tuple(slice(max(0, -b[i]), x.shape[i] - max(0, -e[i])) for i in range(r))]
    w = [(max(0, b[i]), max(0, e[i])) for i in range(r)]
    if mode == 'constant':
        v = c.attrs.get('value', 0)
        if len(c.inputs) > 2 and c.inputs[2] is not None:
            v = c.inputs[2].reshape(-1)[0]
        return [_e(np.pad(x, w, 'constant', constant_values=v))]
    if 0 in x.shape and any(sum(p) for p, n in zip(w, x.shape) if n == 0):
        return None          # nothing to copy from
    return [_e(np.pad(x, w, mode))]


def window_pads(c, x, k, st, dl):
    nd = len(k)
    ap = c.attrs.get('auto_pad', 'NOTSET')
    if ap in ('SAME_UPPER', 'SAME_LOWER'):
        beg, end = [], []
        for i in range(nd):
            out = -(-x[i] // st[i])
            t = max(0, (out - 1) * st[i] + (k[i] - 1) * dl[i] + 1 - x[i])
            beg.append(t // 2 if ap == 'SAME_UPPER' else t - t // 2)
            end.append(t - beg[-1])
        return beg, end
    p = c.attrs.get('pads', [0] * 2 * nd) if ap == 'NOTSET' else [0] * 2 * nd
    return list(p[:nd]), list(p[nd:])


def _pool(c):                # the reference of opset 12 mixes up pads of different axes
    x = c.inputs[0]
    k = c.attrs['kernel_shape']
    nd = len(k)
    st = c.attrs.get('strides', [1] * nd)
    dl = c.attrs.get('dilations', [1] * nd)
    beg, end = window_pads(c, x.shape[2:], k, st, dl)
    osz = []
    for i in range(nd):
        span = x.shape[2 + i] + beg[i] + end[i] - ((k[i] - 1) * dl[i] + 1)
        if c.attrs.get('ceil_mode', 0):
            o = -(-span // st[i]) + 1
            if (o - 1) * st[i] >= x.shape[2 + i] + beg[i]:
                o -= 1
        else:
            o = span // st[i] + 1
        osz.append(o)
    shape = list(x.shape[:2]) + osz
    if c.op != 'MaxPool':
        return [Expect(shape, x.dtype)]
    y = np.zeros(shape, x.dtype)
    ok = True
    for o in np.ndindex(*osz):
        sl = []
        for i in range(nd):
            pos = [o[i] * st[i] + j * dl[i] - beg[i] for j in range(k[i])]
            sl.append([p for p in pos if 0 <= p < x.shape[2 + i]])
        if any(len(v) == 0 for v in sl):
            ok = False      # a window without any input element has no defined maximum
            continue
        y[(slice(None), slice(None)) + o] = x[(slice(None), slice(None)) + np.ix_(*sl)].max(axis=tuple(range(2, 2 + nd)))
    res = [Expect(shape, x.dtype, y if ok else None)]
    if c.nout > 1:
        res[0].value = None
        res.append(Expect(shape, np.int64))
    return res


def _convt(c):               # the reference fails on many legal pads / group combinations
    x, w = c.inputs[0].shape, c.inputs[1].shape
    nd = len(x) - 2
    a = c.attrs
    st, dl = a.get('strides', [1] * nd), a.get('dilations', [1] * nd)
    op, p = a.get('output_padding', [0] * nd), a.get('pads', [0] * 2 * nd)
    if 'output_shape' in a:
        sp = list(a['output_shape'])
    elif str(a.get('auto_pad', '')).startswith('SAME'):
        sp = [st[i] * x[2 + i] for i in range(nd)]
    else:
        sp = [st[i] * (x[2 + i] - 1) + op[i] + (w[2 + i] - 1) * dl[i] + 1 - p[i] - p[i + nd] for i in range(nd)]
    return [Expect([x[0], w[1] * a.get('group', 1)] + sp, c.inputs[0].dtype)]


def _same(c):
    return [Expect(c.inputs[0].shape, c.inputs[0].dtype)]


def _randlike(c):
    return [Expect(c.inputs[0].shape, {1: np.float32, 11: np.float64}[c.attrs['dtype']] if 'dtype' in c.attrs else c.inputs[0].dtype)]


def _upsample(c):            # reference missing
    x = c.inputs[0]
    s = c.attrs['scales'] if 'scales' in c.attrs else c.inputs[1]
    return [Expect([int(np.floor(d * float(k))) for d, k in zip(x.shape, s)], x.dtype)]


def _resize(c):              # the reference fails with the axes attribute on some modes
    x = c.inputs[0]
    axes = [a % x.ndim for a in c.attrs.get('axes', range(x.ndim))]
    out = list(x.shape)
    if len(c.inputs) == 2:
        return [Expect([int(np.floor(d * float(v))) for d, v in zip(x.shape, c.inputs[1])], x.dtype)]
    if len(c.inputs) > 3 and c.inputs[3] is not None and c.inputs[3].size:
        policy = c.attrs.get('keep_aspect_ratio_policy', 'stretch')
        if policy != 'stretch':
            ratio = [int(v) / x.shape[a] for a, v in zip(axes, c.inputs[3])]
            q = min(ratio) if policy == 'not_larger' else max(ratio)
            for a in axes:
                out[a] = int(np.floor(q * x.shape[a] + 0.5))
            return [Expect(out, x.dtype)]
        for a, v in zip(axes, c.inputs[3]):
            out[a] = int(v)
    else:
        for a, v in zip(axes, c.inputs[2]):
            out[a] = int(np.floor(x.shape[a] * float(v)))
    return [Expect(out, x.dtype)]


def _mmi(c):                 # the reference subtracts a row zero point along the columns
    def zp(k):
        return c.inputs[k].astype(np.int32) if len(c.inputs) > k and c.inputs[k] is not None else np.int32(0)
    a, b, za, zb = c.inputs[0].astype(np.int32), c.inputs[1].astype(np.int32), zp(2), zp(3)
    return [_e(np.matmul(a - (za[:, None] if za.ndim == 1 and za.size > 1 else za), b - zb))]


def _qlmm(c):                # the reference rounds after adding the zero point; QuantizeLinear rounds before
    a, sa, za, b, sb, zb, sy, zy = c.inputs
    d = np.matmul(a.astype(np.int64) - za.astype(np.int64), b.astype(np.int64) - zb.astype(np.int64)) * (np.float64(sa) * np.float64(sb) / np.float64(sy))
    info = np.iinfo(zy.dtype)
    y = np.clip(np.rint(d) + zy, info.min, info.max).astype(zy.dtype)
    if any(np.frexp(v)[0] != .5 for v in (sa, sb, sy)) and (np.abs(np.abs(d - np.floor(d)) - .5) < 1e-4).any():
        return [Expect(y.shape, y.dtype)]      # a tie which single precision may have moved
    return [_e(y)]


def _scan(c):                # the reference only scans along the first axis
    from onnx.reference import ReferenceEvaluator
    body = c.attrs['body']
    ns, n = len(body.input) - c.attrs['num_scan_inputs'], c.attrs['num_scan_inputs']
    m = helper.make_model(body, opset_imports=[helper.make_opsetid('', max(c.opset, 13))], ir_version=8)
    for o in m.graph.output:
        o.type.tensor_type.ClearField('shape')
    ref = ReferenceEvaluator(m)

    def one(arrays, in_axes, out_axes, indir, outdir):
        states = list(arrays[:ns])
        scans = [np.moveaxis(a, x, 0) for a, x in zip(arrays[ns:], in_axes)]
        scans = [a[::-1] if d else a for a, d in zip(scans, indir)]
        outs = [[] for _ in body.output[ns:]]
        for t in range(len(scans[0])):
            res = ref.run(None, {v.name: np.asarray(a) for v, a in zip(body.input, states + [a[t] for a in scans])})
            states = res[:ns]
            for l, r in zip(outs, res[ns:]):
                l.append(r)
        outs = [np.stack(l[::-1] if d else l) for l, d in zip(outs, outdir)]
        return [np.asarray(a) for a in states] + [np.moveaxis(a, 0, x) for a, x in zip(outs, out_axes)]
    k = len(body.output) - ns
    if c.opset < 9:          # every tensor has a batch axis, the sequences are all as long as the tensors
        every = [one([a[b] for a in c.inputs[1:]], [0] * n, [0] * k, [0] * n, [0] * k) for b in range(len(c.inputs[1]))]
        return [_e(np.stack(v)) for v in zip(*every)]
    g = c.attrs.get
    return [_e(a) for a in one(c.inputs, g('scan_input_axes') or [0] * n, g('scan_output_axes') or [0] * k,
                               g('scan_input_directions') or [0] * n, g('scan_output_directions') or [0] * k)]


CUSTOM = {'Scan': _scan, 'MatMulInteger': _mmi, 'QLinearMatMul': _qlmm, 'Resize': _resize, 'GatherElements': _gather_elements, 'OneHot': _onehot, 'Expand': _expand, 'Unsqueeze': _unsqueeze, 'Squeeze': _squeeze,
          'Pad': _pad, 'MaxPool': _pool, 'AveragePool': _pool, 'ConvTranspose': _convt, 'LRN': _same, 'RandomUniformLike': _randlike,
          'RandomNormalLike': _randlike, 'Upsample': _upsample}


def _softmax_before13(c):    # all dimensions from the axis on are normalised together; the default axis is 1
    x = c.inputs[0].astype(np.float64)
    ax = c.attrs.get('axis', 1)
    ax = ax + x.ndim if ax < 0 else ax
    if ax > x.ndim:
        return None
    f = x.reshape(int(np.prod(x.shape[:ax])), -1) if x.size else x
    if x.size:
        e = np.exp(f - f.max(axis=1, keepdims=True))
        f = (e / e.sum(axis=1, keepdims=True)).reshape(x.shape)
    return [Expect(x.shape, c.inputs[0].dtype, f.astype(c.inputs[0].dtype))]


def expected(case, model, feeds, outs):
    """-> (list of Expect or None, reason). None: the oracles cannot decide this case."""
    inf = onnx_inferred(model)
    if case.op == 'Softmax' and case.opset < 13:
        exp = _softmax_before13(case)
        if exp is None:
            return None, 'not a legal axis'
    elif case.op in CUSTOM:
        exp = CUSTOM[case.op](case)
        if exp is None:
            return None, f'undefined: {case.op}'
    else:
        try:
            exp = [_e(a) for a in reference(model, feeds)]
        except Exception as e:
            return None, f'reference failed: {case.op} {type(e).__name__}'
        if case.op == 'BatchNormalization':    # the running statistics have the type of the given ones
            for e in exp[1:]:
                e.dtype = case.inputs[3].dtype
        if case.op == 'Dropout':               # the reference's training mode gives the type of the ratio
            exp[0].dtype = case.inputs[0].dtype
        if case.op == 'LayerNormalization':    # the reference gives the statistics the type of the data, they have the stash type
            for e in exp[1:]:
                e.dtype = np.dtype(np.float32)
    if inf and not (case.op in ('MaxPool', 'AveragePool') and case.attrs.get('ceil_mode')):
        # (ceil_mode: inference below opset 22 keeps windows which start in the padding, the spec text does not)
        for o, x in zip(outs, exp):
            if o in inf and inf[o][1] is not None:
                d = inf[o][1]
                if len(d) != len(x.shape) or any(v is not None and v != y for v, y in zip(d, x.shape)):
                    return None, f'oracles disagree: {case.key()}'
    return exp, ''
