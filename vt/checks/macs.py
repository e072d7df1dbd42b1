"""P08: MACs reported for a node against an independent operation count."""
import numpy as np
from onnx import helper, numpy_helper
from vt import core, opcases, oracle, optool, costs
from vt import modelgen as mg
from vt.core import rng_for, quiet

PROP = 'P08'
RULE = ('random one-node models over every operator with a documented count, and random whole models; profiled by the real tool and compared node by '
        'node with a count over the executed shapes (contractions are counted by executing them on all-ones operands); distinct by operator, '
        'attributes and shapes; non-trivial when the expected count is positive')
ASSUMPTIONS = ['costs of functions without a single instruction (exp, log, division, ...) are the fixed per-element table in vt/costs.py',
               'elementwise work on rank-0 tensors counts nothing by the tool\'s convention and is not judged']
MIN_EVENTS = {'nodes_compared': 3000, 'big_nodes_compared': 1000}
BUDGET = {'quick': 90, 'thorough': 700}
OPS = [o for o in opcases.GEN if o in costs.UNIT or o in costs.REDUCE or o in costs.MOVE or o in (
    'MatMul', 'MatMulInteger', 'QLinearMatMul', 'Gemm', 'Einsum', 'Conv', 'ConvInteger', 'QLinearConv', 'ConvTranspose', 'MaxPool',
    'AveragePool', 'GlobalAveragePool', 'LRN', 'LayerNormalization', 'LSTM', 'GRU', 'Min', 'Max', 'Sum', 'Resize', 'Upsample')]
HEAVY = ['MatMul', 'Gemm', 'Einsum', 'Conv', 'ConvTranspose', 'LSTM', 'GRU', 'ConvInteger', 'QLinearConv', 'MatMulInteger', 'QLinearMatMul', 'MaxPool', 'AveragePool']


def cases(tier, seed):
    n = 600 if tier == 'quick' else 12000
    for i in range(n):
        for op in OPS:
            yield ('op', seed, op, i)
        for op in HEAVY:
            for j in range(3):
                yield ('op', seed, op, (j + 1) * 1000000 + i)
        for j in range(10):
            yield ('graph', seed, i * 10 + j)
        for j in range(2):
            yield ('big', seed, i * 2 + j)


def attrs_of(node):
    return {a.name: helper.get_attribute_value(a) for a in node.attribute}


def run(case, mon):
    if case[0] == 'op':
        return run_op(case, mon)
    if case[0] == 'big':
        return run_big(case, mon)
    return run_graph(case, mon)


def run_big(case, mon):
    """tensors beyond the integers of 32 bits; counted from the shapes"""
    import onnx_tool
    from vt import bigmodels
    m, b = bigmodels.make(rng_for('P08big', case[1], case[2]))
    with quiet():
        g = onnx_tool.Model(m, {'constant_folding': False}).graph
        g.shape_infer(None)
        g.profile()
    total = 0
    for nd in m.graph.node:
        if [list(g.tensormap[o].get_shape()) for o in nd.output] != [list(b.S[o]) for o in nd.output]:
            mon.violation(f'big:{nd.op_type}:shape', f'{nd.op_type} {[b.S[x] for x in nd.input]}: {[g.tensormap[o].get_shape() for o in nd.output]} instead of {[b.S[o] for o in nd.output]}')
            return
        got, want = g.nodemap[nd.name].macs, b.want[nd.name]
        mon.event('big_nodes_compared')
        mon.maximum('largest_count', want)
        if got != want:
            mon.violation(f'big:{nd.op_type}:macs', f'{nd.op_type}: reported {got}, counted {want}; inputs {[b.S[x] for x in nd.input]} {attrs_of(nd)}')
        total += got
    if abs(int(g.macs[0]) - total) > total * 1e-12:      # (the total is a float)
        mon.violation('total', f'model total {g.macs[0]} is not the sum of its nodes {total}')
    mon.distinct(('big', str(b.S)))


def run_op(case, mon):
    _, seed, op, i = case
    c = opcases.make(op, rng_for('macs', op, seed, i))
    model, feeds, outs = oracle.op_model(c)
    exp, why = oracle.expected(c, model, feeds, outs)
    if exp is None:
        mon.inconclusive(why)
        return
    ins = [None if x is None else list(x.shape) for x in c.inputs]
    outshapes = [list(e.shape) for e in exp]
    if any(0 in s for s in outshapes) or costs.scalar_involved(op, ins, outshapes):
        mon.inconclusive('rank-0 or empty tensor')
        return
    want = costs.cost(c.op, c.attrs, ins, outshapes)
    if want is None:
        return
    try:
        m = optool.load(model)
        with quiet():
            m.graph.shape_infer({k: v.copy() for k, v in feeds.items()})
            m.graph.profile()
        node = m.graph.nodemap['n0']
    except Exception as e:
        mon.violation(f'{c.key()}:raise', f'profiling of a legal node raised {e!r}\n{c.describe()}')
        return
    if not m.graph.valid_profile:
        mon.violation(f'{c.key()}:invalid', f'no valid profile\n{c.describe()}')
        return
    if list(m.graph.tensormap[outs[0]].get_shape()) != outshapes[0]:
        mon.inconclusive('output shape differs (P01)')
        return
    mon.event('nodes_compared')
    mon.event('op_' + op)
    got = node.macs
    if got != want:
        mon.violation(f'{c.key()}:macs', f'{op}: reported {got}, counted {want} (ratio {got / want if want else 0:.4f})\n{c.describe()} output {outshapes}')
    if m.graph.macs[0] != got:
        mon.violation('total', f'total {m.graph.macs[0]} != node {got}')
    if want:
        mon.distinct((op, sorted((k, str(v)) for k, v in c.attrs.items()), ins))
    if want and len(mon.samples) < 2:
        mon.sample({'node': c.describe(), 'counted': want, 'reported': got})


def run_graph(case, mon):
    import onnx_tool
    _, seed, i = case
    g = mg.generate(rng_for('P08g', seed, i), assign=1)
    m = g.model()
    feeds = g.feeds(0)
    try:
        ref = mg.execute(m, feeds)
    except Exception as e:
        mon.inconclusive(f'reference cannot execute: {type(e).__name__}')
        return
    shape = {k: list(np.asarray(v).shape) for k, v in list(ref.items()) + list(feeds.items())}
    for t in m.graph.initializer:
        shape[t.name] = list(t.dims)
    with quiet():
        tm = onnx_tool.Model(m, {'constant_folding': False, 'node_rename': False})
        tm.graph.shape_infer({k: v.copy() for k, v in feeds.items()})
        tm.graph.profile()
    total, exact = 0, True
    for nd in m.graph.node:
        if nd.name not in tm.graph.nodemap:
            mon.violation('missing', f'node {nd.name} is not profiled')
            continue
        got = tm.graph.nodemap[nd.name].macs
        ins = [shape.get(x) if x else None for x in nd.input]
        outs = [shape.get(x) if x else None for x in nd.output]
        named = [(x, s) for x, s in zip(nd.output, outs) if s is not None]
        if not named or outs[0] is None or any(x and shape.get(x) is None for x in nd.input):
            total += got
            continue
        if any(list(tm.graph.tensormap[x].get_shape()) != s for x, s in named) or any(0 in s for _, s in named):
            mon.inconclusive('output shape differs (P03) or empty')
            return
        want = costs.cost(nd.op_type, attrs_of(nd), ins, outs)
        total += got
        if want is None or costs.scalar_involved(nd.op_type, ins, outs):
            continue
        mon.event('nodes_compared')
        mon.event('graph_nodes_compared')
        if want:
            mon.distinct((nd.op_type, ins, str(attrs_of(nd))))
        if got != want:
            mon.violation(f'graph:{nd.op_type}:macs', f'{nd.op_type} {nd.name}: reported {got}, counted {want}; inputs {ins} outputs {outs} {attrs_of(nd)}')
    if tm.graph.macs[0] != total:
        mon.violation('total', f'model total {tm.graph.macs[0]} is not the sum of its nodes {total}')
