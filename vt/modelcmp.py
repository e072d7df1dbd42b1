"""Structural comparison of ModelProtos, independent of the tool."""
import numpy as np
import onnx
from onnx import helper, numpy_helper


def attr_key(a):
    if a.type == a.TENSOR:
        return ('T', tensor_key(a.t))
    if a.type == a.GRAPH:
        return ('G', a.g.SerializeToString(deterministic=True))
    if a.type == a.FLOAT:
        return ('f', np.float32(a.f).tobytes())
    if a.type == a.FLOATS:
        return ('F', np.asarray(list(a.floats), np.float32).tobytes())
    if a.type == a.INT:
        return ('i', a.i)
    if a.type == a.INTS:
        return ('I', tuple(a.ints))
    if a.type == a.STRING:
        return ('s', a.s)
    if a.type == a.STRINGS:
        return ('S', tuple(a.strings))
    return ('?', a.SerializeToString(deterministic=True))


def tensor_key(t):
    """(type, dims, bytes) of a TensorProto read without the tool"""
    arr = numpy_helper.to_array(t)
    if arr.dtype == object:
        return (t.data_type, tuple(t.dims), tuple(x if isinstance(x, bytes) else str(x).encode() for x in arr.reshape(-1)))
    return (t.data_type, tuple(t.dims), np.ascontiguousarray(arr).tobytes())


def node_key(n, name=True):
    dom = ('' if n.domain == 'ai.onnx' else n.domain, n.overload)
    ins = list(n.input)
    outs = list(n.output)
    # trailing absent inputs/outputs mean the same as none
    while ins and ins[-1] == '':
        ins.pop()
    while outs and outs[-1] == '':
        outs.pop()
    return (n.op_type, dom, tuple(ins), tuple(outs), tuple(sorted((a.name, attr_key(a)) for a in n.attribute))) + ((n.name,) if name else ())


def node_diff(a, b):
    ka, kb = node_key(a), node_key(b)
    for lab, x, y in zip(('op_type', 'domain', 'inputs', 'outputs', 'attributes', 'name'), ka, kb):
        if x != y:
            if lab == 'attributes':
                da, db = dict(x), dict(y)
                names = [k for k in sorted(set(da) | set(db)) if da.get(k) != db.get(k)]
                return f'attribute:{names[0]}', f'{names}: {str([da.get(n) for n in names])[:300]} != {str([db.get(n) for n in names])[:300]}'
            return lab, f'{x} != {y}'
    return None


def dims_of(v):
    tt = v.type.tensor_type
    if not tt.HasField('shape'):
        return None
    return tuple(d.dim_value if d.HasField('dim_value') else (d.dim_param if d.HasField('dim_param') and d.dim_param else None) for d in tt.shape.dim)


def vkey(v):
    return (v.name, v.type.tensor_type.elem_type, dims_of(v))


def inits(g):
    return {t.name: tensor_key(t) for t in g.initializer}


def real_inputs(g):
    it = {t.name for t in g.initializer}
    return [v for v in g.input if v.name not in it]


def opsets(m):
    return sorted(('' if o.domain == 'ai.onnx' else o.domain, o.version) for o in m.opset_import)


def captured(g):
    """names a subgraph uses from outside"""
    own = {v.name for v in g.input} | {t.name for t in g.initializer}
    res = set()
    for n in g.node:
        own |= set(n.output)
    for n in g.node:
        res |= {i for i in n.input if i and i not in own}
        for a in n.attribute:
            if a.type == a.GRAPH:
                res |= {i for i in captured(a.g) if i not in own}
    res |= {o.name for o in g.output if o.name not in own}
    return res


def used_names(m):
    u = set()
    for n in m.graph.node:
        u |= set(n.input)
        for a in n.attribute:
            if a.type == a.GRAPH:
                u |= captured(a.g)
    u |= {o.name for o in m.graph.output}
    return u
