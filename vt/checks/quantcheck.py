"""P19, P20, P21: weight quantization."""
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from vt import modelcmp as mc, hostgraph as hg
from vt.core import rng_for, quiet, scratch

PROP = None
RULES = {
    'P19': 'weights of rank 1-4 and types float16/32/64 (normal, one-sided, constant, zero, zero rows or blocks, huge, tiny, denormal, single outliers, halfway values) quantized with 2-8 bits, '
           'symmetric and asymmetric, per tensor, channel and block (blocks larger than and not dividing the row); every element de-quantized by hand; non-trivial when codes take several values',
    'P20': 'codes of every 4-bit value in every position of rows of 1-40 codes and tensors of rank 1-4, signed and unsigned, every integer element type, unpacked by hand; non-trivial when both nibbles vary',
    'P21': 'random models with weights used by MatMul, Gemm (transposed or not, as A, B or C), Add, Concat and Mul, private, shared, used twice by a node, used inside an If body or as model output, '
           'of ranks 1-3 and several types; some or all weights quantized, also while iterating over the weights of the graph; judged in memory and in the saved file; non-trivial when a weight was quantized',
}
MINS = {'P19': {'elements_compared': 200000, 'zero_groups': 300, 'settings': 60}, 'P20': {'codes_compared': 100000, 'odd_rows': 200, 'value_pairs': 256},
        'P21': {'weights_quantized': 1500, 'shared_quantized': 200, 'files_read_back': 500, 'untouched_compared': 1500, 'left_alone': 150}}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['the low nibble of a packed byte holds the earlier code', 'zero points are subtracted from codes, scales multiply']


def for_prop(p):
    global PROP, MIN_EVENTS, RULE
    PROP, MIN_EVENTS, RULE = p, MINS[p], RULES[p]


def cases(tier, seed):
    q = tier == 'quick'
    if PROP == 'P19':
        for i in range(16000 if q else 160000):
            yield ('error', seed, i)
    elif PROP == 'P20':
        yield ('pairs', seed, 0)
        for i in range(40000 if q else 400000):
            yield ('pack', seed, i)
    else:
        for i in range(8000 if q else 80000):
            yield ('graph', seed, i)


def weight(rng, shape, dt):
    n = int(np.prod(shape, dtype=int))
    k = int(rng.integers(9))
    if k == 0:
        a = rng.normal(size=shape)
    elif k == 1:
        a = rng.uniform(0, 1, shape) * (1 if rng.random() < .5 else -1) + (float(rng.integers(0, 3)) if rng.random() < .5 else 0)
    elif k == 2:
        a = np.full(shape, [0., 1., -1., .3, -7.25][int(rng.integers(5))])
    elif k == 3:
        a = rng.normal(size=shape)
        a *= rng.random(shape[:1] + (1,) * (len(shape) - 1)) < .5
    elif k == 4:
        top = float(np.finfo(dt).max) if dt != np.float64 else 1e300
        a = rng.uniform(-1, 1, shape) * top
    elif k == 5:
        lo = {np.float16: 6e-8, np.float32: 1e-44, np.float64: 1e-44}[dt]
        a = rng.normal(size=shape) * lo * 10 ** float(rng.uniform(0, 4))
    elif k == 6:
        a = rng.normal(size=shape) * 1e-3
        a.reshape(-1)[int(rng.integers(n))] = [100, -100][int(rng.integers(2))]
    elif k == 7:
        a = rng.integers(-15, 16, shape) / 2.
    else:
        a = rng.choice([-1., 1., 0.], shape)
    a = a.astype(dt)
    if len(shape) > 1 and rng.random() < .15:
        a[:, :int(rng.integers(1, shape[1] + 1))] = 0
    return a


def groups(shape, block):
    """index arrays: for every element the number of its scale"""
    if block == 0:
        return (), np.zeros(shape, int)
    if block == -1:
        return shape[:1], np.broadcast_to(np.arange(shape[0]).reshape((-1,) + (1,) * (len(shape) - 1)), shape)
    nb = -(-shape[1] // block)
    idx = np.arange(shape[0])[:, None] * nb + np.arange(shape[1])[None, :] // block
    return (shape[0], nb), np.broadcast_to(idx.reshape(shape[:2] + (1,) * (len(shape) - 2)), shape)


def judge(w, q, s, z, block, kind, bits, slack=0.0):
    """violation of the error bound, or None"""
    sshape, idx = groups(w.shape, block)
    q, s, z = np.asarray(q), np.asarray(s), np.asarray(z)
    if q.shape != w.shape:
        return 'code shape', f'codes have shape {q.shape}, the weight {w.shape}'
    if s.shape != sshape or (kind == 'asym' and z.shape != sshape):
        return 'scale shape', f'scales/zero points have shape {s.shape}/{z.shape} for weight {w.shape}, block {block}'
    s64 = s.astype(np.float64).reshape(-1)
    if not np.isfinite(s64).all() or (s64 <= 0).any():
        return 'scale value', f'scales {s64[:8]}'
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if kind == 'sym' else (0, 2 ** bits - 1)
    qi = q.astype(np.int64)
    if (qi != q).any() or qi.min(initial=0) < lo or qi.max(initial=0) > hi:
        return 'code range', f'codes span {qi.min()}..{qi.max()}, {bits} bits {kind} allow {lo}..{hi}'
    zz = z.astype(np.int64).reshape(-1) if kind == 'asym' else np.zeros(len(s64), int)
    if zz.min() < 0 or zz.max() > (hi if kind == 'asym' else 0):
        return 'zero point range', f'zero points {zz.min()}..{zz.max()}'
    w64 = w.astype(np.float64)
    step = s64[idx]
    back = (qi - zz[idx]) * step
    err = np.abs(back - w64)
    bad = err > .5 * step * (1 + 1e-4 + slack) + np.abs(w64) * (2e-6 + slack)
    if bad.any() or not np.isfinite(back).all():
        i = tuple(int(v) for v in np.argwhere(bad | ~np.isfinite(back))[0])
        return 'error', f'weight{list(i)} = {w64[i]!r} comes back as {back[i]!r}, step {step[i]!r} ({kind} {bits} bits, block {block}, {w.dtype}, shape {w.shape})'
    # the step is that of the range of its own group
    for g in range(len(s64)):
        v = w64[idx == g]
        rng_ = np.abs(v).max() / (2 ** (bits - 1) - 1) if kind == 'sym' else (max(v.max(), 0) - min(v.min(), 0)) / (2 ** bits - 1)
        if rng_ > 1.3e-38 and s64[g] > rng_ * (1 + 1e-4 + slack):
            return 'step', f'group {g} spans {v.min()}..{v.max()}, its step is {s64[g]} instead of {rng_} ({kind} {bits} bits, block {block}, shape {w.shape})'
        if rng_ == 0 and (back[idx == g] != 0).any():
            return 'zero', f'zero weights come back as {back[idx == g][:4]}'
    return None


SEEN = set()


def run_error(case, mon):
    from onnx_tool.quantization import quantize
    _, seed, i = case
    rng = rng_for('P19', seed, i)
    r = int(rng.choice([2, 2, 2, 3, 4, 1]))
    shape = tuple(int(rng.integers(1, (20 if r < 3 else 5) + (30 if k == r - 1 and r == 2 else 0))) for k in range(r))
    if rng.random() < .03:      # longer than any loop of a kernel is likely to be unrolled
        long = int(rng.choice([63, 64, 65, 127, 129, 255, 256, 257, 300, 513]))
        shape = [(long, 2), (2, long), (long,), (3, long, 2), (1, 2, long)][int(rng.integers(5))]
    r = len(shape)
    dt = [np.float32, np.float32, np.float16, np.float64][int(rng.integers(4))]
    w = weight(rng, shape, dt)
    modes = [0, -1] + ([1, 4, 16, 32, int(rng.choice([2, 3, 5, 7, 8, 64, 100, 128]))] if r > 1 else [])
    block = int(modes[int(rng.integers(len(modes)))])
    kind = ['sym', 'asym'][int(rng.integers(2))]
    bits = int(rng.choice([8, 4, 8, 4, 2, 3, 5, 6, 7]))
    keep = w.copy()
    with quiet(), np.errstate(all='ignore'):
        q, s, z = quantize(w, block, kind, bits)
    if keep.tobytes() != w.tobytes():
        mon.violation('input changed', f'quantize changed its argument ({kind} {bits} {block})')
    bad = judge(w, q, s, z, block, kind, bits)
    if bad:
        mon.violation(*bad)
        return
    mon.event('elements_compared', w.size)
    # the inverse the module itself offers
    from onnx_tool import quantization
    back = (quantization.symmetric_dequant if kind == 'sym' else quantization.asymmetric_dequant)
    ext = lambda a: np.asarray(a).reshape(-1)[groups(shape, block)[1]]
    mine = np.asarray(back(np.asarray(q), ext(s), ext(z)), np.float64)
    truth = (np.asarray(q).astype(np.float64) - (ext(z).astype(np.float64) if kind == 'asym' else 0)) * ext(s).astype(np.float64)
    if mine.shape != truth.shape or not np.allclose(mine, truth, rtol=2e-6 if s.dtype != np.float16 else 2e-3, atol=0):
        mon.violation('inverse', f'{kind}metric_dequant gives {mine.reshape(-1)[:4]}, the codes stand for {truth.reshape(-1)[:4]}')
    if (kind, bits, block) not in SEEN:
        SEEN.add((kind, bits, block))
        mon.event('settings')
    _, idx = groups(shape, block)
    zero = sum(1 for g in range(idx.max() + 1) if not w[idx == g].any())
    mon.event('zero_groups', zero)
    if len(np.unique(q)) > 1:
        mon.distinct((shape, str(w.dtype), block, kind, bits, len(np.unique(q)) // 2))
        mon.sample({'shape': shape, 'type': str(w.dtype), 'block': block, 'kind': kind, 'bits': bits, 'codes': [int(np.min(q)), int(np.max(q))]})


def unpack(p, n):
    p = np.asarray(p).astype(np.int64)
    out = np.zeros(p.shape[:-1] + (p.shape[-1] * 2,), np.int64)
    out[..., 0::2] = p & 15
    out[..., 1::2] = p >> 4
    return out[..., :n]


def check_pack(q, signed, mon, what):
    from onnx_tool.quantization import pack_4bits
    keep = q.copy()
    p = pack_4bits(q)
    n = q.shape[-1]
    if keep.tobytes() != q.tobytes():
        mon.violation('input changed', f'packing changed its argument ({what})')
        return
    if p.dtype != np.uint8 or p.shape != q.shape[:-1] + ((n + 1) // 2,):
        mon.violation('size', f'{what}: codes of shape {q.shape} are packed into {p.dtype}{p.shape}')
        return
    back = unpack(p, n)
    if signed:
        back = np.where(back > 7, back - 16, back)
    if (back != q).any():
        i = tuple(int(v) for v in np.argwhere(back != q)[0])
        mon.violation('code', f'{what}: code{list(i)} {q[i]} comes back as {back[i]}')
        return
    mon.event('codes_compared', q.size)
    mon.event('odd_rows', n % 2)


def run_pack(case, mon):
    kind, seed, i = case
    rng = rng_for('P20', seed, i)
    if kind == 'pairs':
        for signed in (False, True):
            v = np.arange(-8, 8) if signed else np.arange(16)
            a, b = np.meshgrid(v, v)
            q = np.stack([a.reshape(-1), b.reshape(-1)], 1)
            for dt in ([np.int8, np.int32, np.int64, np.int16] if signed else [np.uint8, np.int8, np.int32, np.int64, np.uint32, np.uint16]):
                check_pack(q.astype(dt), signed, mon, f'{dt.__name__} pairs')
            check_pack(q.reshape(-1).astype(np.int32), signed, mon, 'one row')
        mon.event('value_pairs', 256)
        mon.distinct('pairs')
        return
    signed = bool(rng.integers(2))
    r = int(rng.choice([2, 2, 1, 3, 4]))
    shape = tuple(int(rng.integers(1, 5)) for _ in range(r - 1)) + (int(rng.integers(1, 41)),)
    if rng.random() < .02:
        shape = shape[:-1] + (int(rng.choice([63, 64, 65, 127, 129, 255, 256, 257, 511, 1025])),)
        mon.event('long_rows')
    q = rng.integers(-8, 8, shape) if signed else rng.integers(0, 16, shape)
    dts = [np.int8, np.int16, np.int32, np.int64] + ([] if signed else [np.uint8, np.uint16])
    q = q.astype(dts[int(rng.integers(len(dts)))])
    if r > 1 and rng.random() < .2:
        q = np.asfortranarray(q)
    check_pack(q, signed, mon, f'{q.dtype}{shape}')
    mon.distinct((shape, str(q.dtype), signed))
    mon.sample({'shape': shape, 'type': str(q.dtype), 'signed': signed})


def build(rng):
    """model with weights in many roles; -> (model, weights, roles)"""
    nodes, inits, outs = [], {}, []
    ctr = [0]
    D = int(rng.choice([4, 6, 8, 12]))

    def name(p):
        ctr[0] += 1
        return f'{p}{ctr[0]}'

    def w(shape, dt=np.float32):
        pool = [k for k, v in inits.items() if v.shape == tuple(shape)]
        if pool and rng.random() < .3:
            return pool[int(rng.integers(len(pool)))]
        k = name('w')
        inits[k] = weight(rng, shape, dt) if rng.random() < .4 else rng.normal(size=shape).astype(dt)
        return k
    x = ['x']
    body = None
    for _ in range(int(rng.integers(3, 9))):
        src = x[int(rng.integers(len(x)))]
        op = ['MatMul', 'MatMul', 'Gemm', 'Gemm', 'Add', 'Mul', 'Relu', 'Concat', 'GemmC', 'If'][int(rng.integers(10))]
        o = name('t')
        at = {}
        ty = op
        if op == 'MatMul':
            ins = [src, w((D, D))] if rng.random() < .8 else [w((D, D)), w((D, D))]
        elif op == 'Gemm':
            tb = int(rng.integers(2))
            at = {'transB': tb} if tb or rng.random() < .5 else {}
            if rng.random() < .3:
                at['alpha'] = .5
            ins = [src, w((D, D))] + ([w((D,))] if rng.random() < .6 else [])
        elif op == 'GemmC':
            ty = 'Gemm'
            ins = [src, src, w((4, D))]
            at = {'transB': 0}
            ins = [w((4, D)) if rng.random() < .3 else src, w((D, D)), w((4, D))]
        elif op in ('Add', 'Mul'):
            ins = [src, w([(D,), (4, D), (1, D), (1, 4, D)][int(rng.integers(3))])]
            if rng.random() < .3:
                ins.reverse()
        elif op == 'Relu':
            ins = [src]
        elif op == 'Concat':
            a = w((4, D))
            nodes.append(helper.make_node('Concat', [a, src, a], [o + 'c'], name=name('n'), axis=0))
            ty, ins, at = 'MatMul', [name('w'), o + 'c'], {}
            inits[ins[0]] = rng.normal(size=(4, 12)).astype(np.float32)
        else:
            if body is not None:
                continue
            c = w((4, D))
            body = c
            bo = name('t')
            th = helper.make_graph([helper.make_node('Add', [src, c], [bo])], 'th', [], [helper.make_tensor_value_info(bo, TP.FLOAT, [4, D])])
            be = name('t')
            el = helper.make_graph([helper.make_node('Neg', [src], [be])], 'el', [], [helper.make_tensor_value_info(be, TP.FLOAT, [4, D])])
            cn = name('w')
            inits[cn] = np.array(True)
            ty, ins, at = 'If', [cn], {'then_branch': th, 'else_branch': el}
        if ty == 'MatMul' and len(ins) == 2 and all(k in inits for k in ins) and inits[ins[0]].shape == (D, D):
            nodes.append(helper.make_node('MatMul', ins, [o + 'm'], name=name('n')))
            ty, ins = 'MatMul', [src, o + 'm']
        nodes.append(helper.make_node(ty, ins, [o], name=name('n'), **at))
        x.append(o)
    outs = [x[-1]] + [v for v in x[1:-1] if rng.random() < .2]
    ws = list(inits)
    if ws and rng.random() < .2:
        outs.append(ws[int(rng.integers(len(ws)))])
    if rng.random() < .3:
        # weights which are no quantization target
        k = name('w')
        inits[k] = rng.integers(-9, 9, (4, D)).astype(np.int32)
        o = name('t')
        nodes.append(helper.make_node('Cast', [k], [o], name=name('n'), to=TP.FLOAT))
        outs.append(o)
    if len(ws) > 1 and rng.random() < .06:       # a weight or result called as the codes of another one will be
        a, b = (ws[int(k)] for k in rng.permutation(len(ws))[:2])
        b = b if rng.random() < .6 or len(x) < 2 else x[1]
        if b != body and not any(at.HasField('g') for n in nodes for at in n.attribute):
            to = a + ['_ot_q', '_ot_s', '_ot_z'][int(rng.integers(3))]
            inits = {to if k == b else k: v for k, v in inits.items()}
            outs = [to if o == b else o for o in outs]
            for n in nodes:
                n.input[:] = [to if t == b else t for t in n.input]
                n.output[:] = [to if t == b else t for t in n.output]
    dtn = {np.dtype(np.float32): TP.FLOAT, np.dtype(bool): TP.BOOL, np.dtype(np.int32): TP.INT32}
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', TP.FLOAT, [4, D])],
                          [helper.make_tensor_value_info(o, dtn[inits[o].dtype] if o in inits else TP.FLOAT, None) for o in dict.fromkeys(outs)],
                          [numpy_helper.from_array(np.asarray(a), k) for k, a in inits.items()])
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)], ir_version=8), inits, body


def attrs(n):
    return {a.name: a for a in n.attribute}


def judge_graph(m, inits, body, nodes, weights, chosen, setting, mon, where):
    block, kind, bits = setting
    outs = {o.name for o in m.graph.output}
    uses = {}
    for n in m.graph.node:
        for j, t in enumerate(n.input):
            if t in inits:
                uses.setdefault(t, []).append((n, j))
    expect = {}
    for t in chosen:
        w = inits[t]
        if w.ndim != 2 or w.dtype.kind != 'f' or t in outs or t == body or t not in uses:
            expect[t] = None
            continue
        lay = {n.op_type in ('Gemm', 'MatMul') and j == 1 and not any(a.name == 'transB' and a.i for a in n.attribute) for n, j in uses[t]}
        expect[t] = lay.pop() if len(lay) == 1 else None
    suf = ['_ot_q', '_ot_s', '_ot_z'][:3 if kind == 'asym' else 2]
    given = {t for n in m.graph.node for t in [*n.input, *n.output]} | set(inits)
    for t in expect:
        if t.endswith(('_ot_q', '_ot_s', '_ot_z')) or any(t + s in given for s in ('_ot_q', '_ot_s', '_ot_z')):      # taken for codes, or its codes would replace another tensor
            expect[t] = None
            mon.event('taken_names')
    have = {n.name: n for n in nodes}
    if [n.name for n in nodes] != [n.name for n in m.graph.node]:
        mon.violation('nodes', f'{where}: nodes {[n.name for n in nodes]}, were {[n.name for n in m.graph.node]}')
        return False
    for n in m.graph.node:
        r = have[n.name]
        want_in = []
        quantized = False
        for t in n.input:
            if expect.get(t) is not None:
                want_in += [t + s for s in suf]
                quantized = True
            else:
                want_in.append(t)
        if r.op_type != n.op_type or list(r.output) != list(n.output) or list(r.input) != want_in:
            mon.violation('connection', f'{where}: {r.op_type} {list(r.input)} -> {list(r.output)}, expected {n.op_type} {want_in} -> {list(n.output)}')
            return False
        a, b = attrs(n), attrs(r)
        extra = {k: b.pop(k) for k in list(b) if k.startswith('OTQ_')}
        if {k: mc.attr_key(v) for k, v in a.items()} != {k: mc.attr_key(v) for k, v in b.items()}:
            mon.violation('attributes', f'{where}: attributes of {n.op_type} {sorted(b)}, were {sorted(a)}')
            return False
        if quantized:
            got = {k: (v.s.decode() if v.type == v.STRING else v.i) for k, v in extra.items()}
            if got != {'OTQ_Block': block, 'OTQ_Type': kind, 'OTQ_Bits': bits}:
                mon.violation('setting', f'{where}: {n.op_type} {n.name} reads a quantized weight, its settings are {got}, quantized with {setting}')
                return False
        elif extra:
            mon.violation('attributes', f'{where}: {n.op_type} {n.name} reads no quantized weight and has {sorted(extra)}')
            return False
    for t, w in inits.items():
        tr = expect.get(t)
        if tr is None:
            if t in weights:
                h = weights[t]
                if h.dtype != w.dtype or h.shape != w.shape or h.tobytes() != np.ascontiguousarray(w).tobytes():
                    mon.violation('weight', f'{where}: weight {t} changed')
                    return False
                mon.event('untouched_compared')
            elif t in uses or t in outs or t == body:
                mon.violation('weight', f'{where}: weight {t} is gone ({"output" if t in outs else "body" if t == body else "used"})')
                return False
            mon.event('left_alone', t in chosen)
            continue
        if any(t + s not in weights for s in suf):
            mon.violation('missing', f'{where}: {[t + s for s in suf if t + s not in weights]} missing')
            return False
        if t in weights:
            mon.violation('left', f'{where}: {t} is still there')
            return False
        q, s = weights[t + '_ot_q'], weights[t + '_ot_s']
        z = weights[t + '_ot_z'] if kind == 'asym' else np.zeros_like(s, int)
        wt = w.T if tr else w
        if bits == 4:
            if q.dtype != np.uint8 or q.shape != (wt.shape[0], (wt.shape[1] + 1) // 2):
                mon.violation('packed', f'{where}: weight {wt.shape} is packed into {q.dtype}{q.shape}')
                return False
            q = unpack(q, wt.shape[1])
            if kind == 'sym':
                q = np.where(q > 7, q - 16, q)
        elif q.dtype != (np.uint8 if kind == 'asym' else np.int8):
            mon.violation('code type', f'{where}: {kind} {bits} bits codes are {q.dtype}')
            return False
        bad = judge(wt, q, s, z, block, kind, bits, 1e-3 if s.dtype == np.float16 else 0)
        if bad:
            mon.violation('quant ' + bad[0], f'{where}: {t}: {bad[1]} (scales {s.dtype})')
            return False
        mon.event('weights_quantized')
        mon.event('shared_quantized', len(uses[t]) > 1)
    return [t for t in expect if expect[t] is not None]


def run_graph(case, mon):
    import onnx_tool
    from onnx_tool.quantization import graph_quantize
    _, seed, i = case
    rng = rng_for('P21', seed, i)
    m, inits, body = build(rng)
    setting = (int(rng.choice([0, -1, 2, 4, 32])), ['sym', 'asym'][int(rng.integers(2))], int(rng.choice([4, 8])))
    names = list(inits)
    loop = rng.random() < .4
    chosen = names if loop else [t for t in names if rng.random() < .6]
    if not loop:
        chosen = [chosen[int(j)] for j in rng.permutation(len(chosen))]
    with quiet(), scratch() as d, np.errstate(all='ignore'):
        f = os.path.join(d, 'o.onnx')
        tm = onnx_tool.Model(m, {'constant_folding': False})
        g = tm.graph
        if loop:
            # as in benchmark/examples.py
            for key in g.initials:
                graph_quantize(g, key, *setting)
        else:
            for key in chosen:
                graph_quantize(g, key, *setting)
        rel = hg.relation_diff(g)
        nodes = [n.make_nodeproto() for n in g.nodemap.values()]
        held = {t: np.asarray(g.tensormap[t].numpy) for t in g.initials}
        io = (list(g.input), list(g.output))
        tm.save_model(f)
        r = onnx.load(f)
    done = judge_graph(m, inits, body, nodes, held, chosen, setting, mon, 'in memory')
    if done is False:
        return
    if rel:
        mon.violation('relations', rel[1])
        return
    used = {t for n in m.graph.node for t in n.input} | {t for n in m.graph.node for a in n.attribute if a.HasField('g') for b in a.g.node for t in b.input}
    want = (['x'] if 'x' in used else [], [o.name for o in m.graph.output])
    if io != want:
        mon.violation('interface', f'inputs/outputs {io}, were {want}')
        return
    back = {t.name: numpy_helper.to_array(t) for t in r.graph.initializer}
    if judge_graph(m, inits, body, list(r.graph.node), back, chosen, setting, mon, 'in the file') is False:
        return
    if [o.name for o in r.graph.output] != want[1]:
        mon.violation('interface', f'outputs of the file {[o.name for o in r.graph.output]}, were {want[1]}')
        return
    mon.event('files_read_back')
    if done:
        mon.distinct((setting, str([n.op_type for n in m.graph.node]), len(done)))
        mon.sample({'setting': setting, 'operators': [n.op_type for n in m.graph.node], 'quantized': done})


def run(case, mon):
    if case[0] == 'error':
        run_error(case, mon)
    elif case[0] in ('pairs', 'pack'):
        run_pack(case, mon)
    else:
        run_graph(case, mon)
