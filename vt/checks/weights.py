"""P07: weights are decoded and re-encoded bit-exactly."""
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from vt.core import rng_for, quiet, scratch

PROP = 'P07'
RULE = ('initializers, Constant nodes (value / value_int / value_ints / value_float / value_floats / value_string(s)) and tensor attributes of every ONNX element type in '
        'every storage form (raw bytes, typed field, external file loaded or not, sparse), of rank 0-4 including zero-sized, with hostile bit patterns (NaN '
        'payloads, infinities, signed zeros, denormals, integer extremes, non-ASCII strings); what the tool holds, what it re-encodes, and what a saved file holds '
        'are compared bit for bit with the generated array; non-trivial when the tensor has at least two different elements')
MIN_EVENTS = {'decoded_compared': 1000, 'reencoded_compared': 1000, 'saved_compared': 1000}
ASSUMPTIONS = ['onnx.numpy_helper / protobuf decode the standard storage forms correctly']
F32, F64, F16 = TensorProto.FLOAT, TensorProto.DOUBLE, TensorProto.FLOAT16
TYPES = {'float32': F32, 'float64': F64, 'float16': F16, 'int8': TensorProto.INT8, 'uint8': TensorProto.UINT8, 'int16': TensorProto.INT16,
         'uint16': TensorProto.UINT16, 'int32': TensorProto.INT32, 'uint32': TensorProto.UINT32, 'int64': TensorProto.INT64, 'uint64': TensorProto.UINT64,
         'bool': TensorProto.BOOL}
EXOTIC = {'bfloat16': TensorProto.BFLOAT16, 'complex64': TensorProto.COMPLEX64, 'complex128': TensorProto.COMPLEX128, 'f8e4m3fn': TensorProto.FLOAT8E4M3FN,
          'f8e5m2': TensorProto.FLOAT8E5M2, 'uint4': TensorProto.UINT4, 'int4': TensorProto.INT4}


def cases(tier, seed):
    n = 1000 if tier == 'quick' else 2500
    for t in list(TYPES) + ['string']:
        for i in range(n * 2):
            yield ('init', seed, t, i)
        for i in range(n):
            yield ('tensor', seed, t, i)
    for t in EXOTIC:
        for i in range(max(4, n // 4)):
            yield ('exotic', seed, t, i)
    for i in range(n):
        yield ('constattr', seed, '', i)
        yield ('external', seed, '', i)
    for i in range(max(4, n // 4)):
        yield ('sparse', seed, '', i)


def values(rng, t):
    ri = lambda a, b: int(rng.integers(a, b + 1))
    r = ri(0, 4)
    shape = tuple(ri(1, 4) for _ in range(r))
    if r and ri(0, 9) == 0:
        s = list(shape)
        s[ri(0, r - 1)] = 0
        shape = tuple(s)
    n = int(np.prod(shape, dtype=int))
    if t == 'string':
        a = np.array([['', 'abc', 'ä€', 'x y', 'end\0', '\0'][ri(0, 5)].encode() + bytes([ri(1, 255)]) * ri(0, 2) for _ in range(n)], dtype=object).reshape(shape)
        return a
    if t == 'bool':
        return rng.integers(0, 2, shape).astype(bool)
    dt = np.dtype(t)
    mode = ri(0, 3)
    if mode == 0 or dt.kind != 'f' and mode < 3:
        a = np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).reshape(shape).copy()      # any bit pattern
    elif dt.kind == 'f':
        pool = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(dt).tiny, np.finfo(dt).max, np.finfo(dt).smallest_subnormal, 1.5, -2.25], dtype=dt)
        a = pool[rng.integers(0, len(pool), shape)] if mode == 1 else rng.normal(size=shape).astype(dt)
        a = np.asarray(a, dtype=dt)
    else:
        info = np.iinfo(dt)
        pool = np.array([info.min, info.max, 0, 1, info.max - 1], dtype=dt)
        a = np.asarray(pool[rng.integers(0, len(pool), shape)])
    return a


def typed_proto(a, name, t):
    """the same tensor in its typed data field"""
    p = TensorProto()
    p.name = name
    p.dims.extend(a.shape)
    if t == 'string':
        p.data_type = TensorProto.STRING
        p.string_data.extend(list(a.reshape(-1)))
        return p
    p.data_type = TYPES[t]
    f = np.asarray(a).reshape(-1)
    if t == 'float32':
        p.float_data.extend(f.tolist())
    elif t == 'float64':
        p.double_data.extend(f.tolist())
    elif t == 'int64':
        p.int64_data.extend(f.tolist())
    elif t in ('uint32', 'uint64'):
        p.uint64_data.extend(f.tolist())
    elif t == 'float16':
        p.int32_data.extend(f.view(np.uint16).astype(np.int32).tolist())
    else:
        p.int32_data.extend(f.astype(np.int32).tolist())
    return p


def raw_proto(a, name, t):
    p = TensorProto()
    p.name = name
    p.dims.extend(a.shape)
    p.data_type = TYPES[t]
    p.raw_data = np.ascontiguousarray(a).tobytes()
    return p


def same(a, b, quiet_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'SO' or b.dtype.kind in 'SO':
        enc = lambda v: v.encode() if isinstance(v, str) else bytes(v)
        return a.shape == b.shape and [enc(v) for v in a.reshape(-1).tolist()] == [enc(v) for v in b.reshape(-1).tolist()]
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if quiet_nan and a.dtype.kind == 'f':
        na, nb = np.isnan(a), np.isnan(b)
        return bool((na == nb).all()) and np.ascontiguousarray(np.where(na, 0, a).astype(a.dtype)).tobytes() == np.ascontiguousarray(np.where(nb, 0, b).astype(a.dtype)).tobytes()
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def model_with(inits=(), nodes=(), outs=()):
    g = helper.make_graph(list(nodes), 'g', [helper.make_tensor_value_info('x', 1, [1])], [helper.make_tensor_value_info(o, 1, None) for o in outs], initializer=list(inits))
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17), helper.make_opsetid('acme', 1)])
    m.ir_version = 8
    return m


def saved_value(m, name):
    for t in m.graph.initializer:
        if t.name == name:
            return numpy_helper.to_array(t) if t.data_type != TensorProto.STRING else np.array(list(t.string_data), dtype=object).reshape(tuple(t.dims)), t.data_type
    return None, None


def run(case, mon):
    import onnx_tool
    from onnx_tool import tensor as T
    kind, seed, t, i = case
    rng = rng_for('P07', kind, seed, t, i)
    if kind == 'exotic':
        return exotic(case, mon, rng)
    if kind == 'constattr':
        return constattr(case, mon, rng)
    if kind == 'external':
        return external(case, mon, rng)
    if kind == 'sparse':
        return sparse(case, mon, rng)
    a = values(rng, t)
    forms = ['typed'] + (['raw'] if t != 'string' else [])
    form = forms[i % len(forms)]
    p = typed_proto(a, 'w', t) if form == 'typed' else raw_proto(a, 'w', t)
    dtp = p.data_type
    tag = f'{t}:{form}'
    # a typed float field passes through double precision, which may quieten a signalling NaN
    qn = form == 'typed'
    nontriv = a.size > 1 and len({bytes(np.asarray(v).tobytes()) if t != 'string' else v for v in a.reshape(-1)}) > 1
    if kind == 'tensor':
        before = p.SerializeToString(deterministic=True)
        with quiet():
            te = T.Tensor(p)
        mon.event('decoded_compared')
        if not same(te.numpy, a, qn):
            mon.violation(f'decode:{tag}', f'{a.dtype}{a.shape} held as {getattr(te.numpy, "dtype", None)}{np.shape(te.numpy)} {case}')
        if list(te.get_shape()) != list(a.shape) or (t != 'string' and np.dtype(te.dtype) != a.dtype):
            mon.violation(f'meta:{tag}', f'shape {te.get_shape()} dtype {te.dtype} expected {a.shape} {a.dtype} {case}')
        q = te.make_tensor_proto()
        mon.event('reencoded_compared')
        if q.data_type != dtp or tuple(q.dims) != a.shape or q.name != 'w':
            mon.violation(f'reencode-meta:{tag}', f'{q.data_type} {list(q.dims)} {q.name} expected {dtp} {a.shape} {case}')
        else:
            back = np.array(list(q.string_data), dtype=object).reshape(a.shape) if t == 'string' else numpy_helper.to_array(q)
            if not same(back, te.numpy if t != 'string' else a):
                mon.violation(f'reencode:{tag}', f'{a.dtype}{a.shape} {case}')
        if p.SerializeToString(deterministic=True) != before:
            mon.violation('source-changed', f'{case}')
        if t != 'string':
            with quiet():
                te2 = T.create_initial_Tensor('w', a)
            q = te2.make_tensor_proto()
            if q.data_type != dtp or not same(numpy_helper.to_array(q), a) or te2.proto is None or not same(numpy_helper.to_array(te2.proto), a):
                mon.violation(f'create:{t}', f'{case}')
            # updating keeps array and encoding together
            b = values(rng, t)
            te2.update_proto(b)
            if not same(numpy_helper.to_array(te2.proto), b) or list(te2.get_shape()) != list(b.shape):
                mon.violation(f'update:{t}', f'{case}')
            mon.event('reencoded_compared', 2)
        if nontriv:
            mon.distinct((tag, a.shape, a.tobytes() if t != 'string' else str(a.tolist())))
        mon.sample({'type': t, 'form': form, 'shape': list(a.shape)})
        return
    # a whole model: initializer, Constant, tensor attribute, optionally shape inference between
    variant = i % 4
    nodes, inits = [], []
    if variant in (0, 1):
        inits.append(p)
        nodes.append(helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme'))
    elif variant == 2:
        nodes.append(helper.make_node('Constant', [], ['w'], 'c', value=p))
        nodes.append(helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme'))
    else:
        nodes.append(helper.make_node('Blackbox', ['x'], ['y'], 'b', domain='acme', payload=p))
    m = model_with(inits, nodes, ['y'])
    with quiet(), scratch() as d:
        src, dst = os.path.join(d, 'a.onnx'), os.path.join(d, 'b.onnx')
        onnx.save(m, src)
        tm = onnx_tool.Model(src, {'constant_folding': variant == 2 and i % 8 >= 4})
        held = tm.graph.tensormap['w'].numpy if variant in (0, 1) else None
        tm.save_model(dst)
        if not os.path.exists(dst):
            mon.violation(f'nofile:{tag}', f'{case}')
            return
        n = onnx.load(dst)
    if held is not None:
        mon.event('decoded_compared')
        if not same(held, a, qn):
            mon.violation(f'decode:{tag}', f'{case}')
    mon.event('saved_compared')
    got, gdt = saved_value(n, 'w')
    if got is None:
        for nd in n.graph.node:
            for at in nd.attribute:
                if at.type == at.TENSOR:
                    gdt = at.t.data_type
                    got = np.array(list(at.t.string_data), dtype=object).reshape(tuple(at.t.dims)) if gdt == TensorProto.STRING else numpy_helper.to_array(at.t)
    if got is None:
        mon.violation(f'lost:{tag}:{variant}', f'{case}')
    elif gdt != dtp or not same(got, a, qn):
        mon.violation(f'saved:{tag}:{["init", "init", "constant", "attribute"][variant]}', f'{a.dtype}{a.shape} saved as {gdt} {got.shape} {case}')
    if nontriv:
        mon.distinct((tag, variant, a.shape, a.tobytes() if t != 'string' else str(a.tolist())))


def constattr(case, mon, rng):
    import onnx_tool
    ri = lambda a, b: int(rng.integers(a, b + 1))
    k = ri(0, 5)
    if k == 0:
        v = [ri(-2 ** 62, 2 ** 62), -2 ** 63, 2 ** 63 - 1][ri(0, 2)]
        at, want = {'value_int': v}, np.asarray(v, np.int64)
    elif k == 1:
        v = [ri(-2 ** 62, 2 ** 62) for _ in range(ri(1, 5))]
        at, want = {'value_ints': v}, np.asarray(v, np.int64)
    elif k == 2:
        v = np.float32(rng.normal() * 10.0 ** ri(-30, 30))
        at, want = {'value_float': float(v)}, np.asarray(v, np.float32)
    elif k == 3:
        v = rng.normal(size=ri(1, 5)).astype(np.float32)
        at, want = {'value_floats': v.tolist()}, v
    elif k == 4:
        at, want = {'value_string': 'héllo'}, None
    else:
        at, want = {'value_strings': ['a', 'bcd']}, None
    node = helper.make_node('Constant', [], ['w'], 'c', **at)
    m = model_with([], [node, helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme')], ['y'])
    fold = bool(case[3] % 2) and want is not None
    with quiet(), scratch() as d:
        dst = os.path.join(d, 'b.onnx')
        tm = onnx_tool.Model(m, {'constant_folding': fold})
        tm.save_model(dst)
        n = onnx.load(dst)
    mon.event('saved_compared')
    if fold:
        got, gdt = saved_value(n, 'w')
        if got is None:
            kept = [x for x in n.graph.node if x.op_type == 'Constant']
            got = None if not kept else want
        if got is None or not same(got, want):
            mon.violation(f'constant-folded:{list(at)[0]}', f'{got} expected {want} {case}')
    else:
        kept = [x for x in n.graph.node if x.op_type == 'Constant']
        if not kept or [a.SerializeToString(deterministic=True) for a in kept[0].attribute] != [a.SerializeToString(deterministic=True) for a in node.attribute]:
            mon.violation(f'constant-kept:{list(at)[0]}', f'{kept} {case}')
    mon.distinct(('constattr', str(at)))


def exotic(case, mon, rng):
    """element types numpy lacks: refused, or kept exactly"""
    import onnx_tool
    dt = EXOTIC[case[2]]
    n = int(rng.integers(1, 9))
    p = TensorProto()
    p.name, p.data_type = 'w', dt
    p.dims.append(n)
    width = {'bfloat16': 2 * n, 'complex64': 8 * n, 'complex128': 16 * n, 'f8e4m3fn': n, 'f8e5m2': n}.get(case[2], (n + 1) // 2)
    p.raw_data = rng.bytes(width)
    if case[3] % 3 == 1 and case[2] == 'bfloat16':
        p.ClearField('raw_data')
        p.int32_data.extend(int(v) for v in rng.integers(0, 2 ** 16, n))
    variant = case[3] % 2
    if variant:
        m = model_with([p], [helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme')], ['y'])
    else:
        m = model_with([], [helper.make_node('Constant', [], ['w'], 'c', value=p), helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme')], ['y'])
    with scratch() as d:
        dst = os.path.join(d, 'b.onnx')
        try:
            with quiet():
                tm = onnx_tool.Model(m, {'constant_folding': bool(case[3] % 4 > 1)})
                tm.save_model(dst)
        except Exception:
            mon.event('refused')
            mon.distinct(('exotic', case[2], variant, 'refused'))
            return
        q = onnx.load(dst)
    mon.event('exotic_accepted')
    cand = [t for t in q.graph.initializer if t.name == 'w'] + [a.t for x in q.graph.node for a in x.attribute if a.type == a.TENSOR]
    if not any(t.data_type == dt and list(t.dims) == [n] and np.asarray(numpy_helper.to_array(t)).tobytes() == np.asarray(numpy_helper.to_array(p)).tobytes() for t in cand):
        mon.violation(f'exotic:{case[2]}', f'accepted, but the saved file does not hold the values {case}')
    mon.distinct(('exotic', case[2], variant, n))


def external(case, mon, rng):
    import onnx_tool
    t = ['float32', 'int64', 'float16', 'int8', 'float64', 'uint8', 'bool'][case[3] % 7]
    a = np.asarray(rng.integers(-100, 100, (3, 5)) % 256 if t == 'uint8' else rng.integers(-100, 100, (3, 5))).astype(t)
    m = model_with([raw_proto(a, 'w', t)], [helper.make_node('Blackbox', ['x', 'w'], ['y'], 'b', domain='acme')], ['y'])
    with scratch() as d, quiet():
        src = os.path.join(d, 'a.onnx')
        onnx.save_model(m, src, save_as_external_data=True, all_tensors_to_one_file=True, location='a.bin', size_threshold=0)
        if case[3] % 2:
            tm = onnx_tool.Model(src)
        else:
            import pathlib
            tm = onnx_tool.Model(pathlib.Path(src))
        mon.event('decoded_compared')
        if not same(tm.graph.tensormap['w'].numpy, a):
            mon.violation(f'external:{t}', f'{case}')
        dst = os.path.join(d, 'sub', 'b.onnx')
        os.makedirs(os.path.dirname(dst))
        tm.save_model(dst)
        got, _ = saved_value(onnx.load(dst), 'w')
        mon.event('saved_compared')
        if got is None or not same(got, a):
            mon.violation(f'external-saved:{t}', f'{case}')
        # without the bytes at hand the values are unknown: refuse, or keep the reference
        lazy = onnx.load(src, load_external_data=False)
        dst2 = os.path.join(d, 'c.onnx')
        try:
            tm = onnx_tool.Model(lazy)
            held = tm.graph.tensormap['w'].numpy
        except Exception:
            mon.event('refused')
            return
        if held is not None and not same(held, a):
            mon.violation(f'external-unloaded:{t}', f'invented values {case}')
    mon.distinct(('external', t, a.tobytes()))


def sparse(case, mon, rng):
    import onnx_tool
    shape = [int(rng.integers(2, 6)) for _ in range(1 + case[3] // 2 % 2)]
    dense = np.zeros(shape, np.float32)
    n = dense.size
    pos = sorted(rng.choice(n, size=int(rng.integers(1, n)), replace=False).tolist())
    dense.reshape(-1)[pos] = rng.normal(size=len(pos)).astype(np.float32)
    idx = np.asarray(pos, np.int64)
    if case[3] % 5 > 2:
        idx = np.stack(np.unravel_index(idx, shape), -1).astype(np.int64)
    sp = helper.make_sparse_tensor(numpy_helper.from_array(dense.reshape(-1)[pos], 'w'), numpy_helper.from_array(idx, 'w_idx'), shape)
    const = case[3] % 2
    if const:
        m = model_with([], [helper.make_node('Constant', [], ['w'], 'c', sparse_value=sp), helper.make_node('Add', ['x', 'w'], ['y'], 'b')], ['y'])
    else:
        m = model_with([], [helper.make_node('Add', ['x', 'w'], ['y'], 'b')], ['y'])
        m.graph.sparse_initializer.append(sp)
    lab = 'constant' if const else 'initializer'
    with scratch() as d:
        dst = os.path.join(d, 'b.onnx')
        try:
            with quiet():
                tm = onnx_tool.Model(m)
                tm.save_model(dst)
        except Exception:
            mon.event('refused')
            return
        q = onnx.load(dst)
    mon.event('sparse_accepted')
    w, _ = saved_value(q, 'w')
    ok = w is not None and same(w, dense)
    ok = ok or [s.SerializeToString(deterministic=True) for s in q.graph.sparse_initializer] == [sp.SerializeToString(deterministic=True)]
    ok = ok or any(a.type == a.SPARSE_TENSOR and a.sparse_tensor == sp for x in q.graph.node for a in x.attribute)
    if not ok:
        mon.violation(f'sparse-{lab}', f'a sparse weight is neither kept, converted nor refused {case}')
    mon.distinct(('sparse', lab, n, tuple(pos)))
