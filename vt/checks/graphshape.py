"""P03 (and the whole-graph part of P02): shapes and element types after shape inference of whole models."""
import numpy as np
from vt import modelgen as mg
from vt.core import rng_for, quiet

PROP = 'P03'
RULE = ('random models (3-20 templates: conv/bn/pool/matmul/gemm/attention, reshapes, splits, top-k, casts, where, and run-time shape '
        'subgraphs Shape->Gather/Slice->Concat->Reshape/Resize/Expand/Range/Slice) with 0-2 named dimensions, executed by the ONNX '
        'reference evaluator for 3 size assignments; every node output\'s inferred shape and element type is compared with the executed one; '
        'non-trivial when the model has a run-time shape subgraph or at least 6 nodes')
MIN_EVENTS = {'tensors_compared': 2000}
ASSUMPTIONS = ['the ONNX reference evaluator (onnx 1.23) is the trusted executor']
BUDGET = {'quick': 120, 'thorough': 800}
_prop = 'P03'


def for_prop(p):
    global _prop
    _prop = p


def cases(tier, seed):
    n = 6000 if tier == 'quick' else 60000
    for i in range(n):
        yield ('graph', seed, i)


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P03', seed, i)
    opt = {}
    if i % 4 == 1:
        opt = dict(dynamic=False)
    if i % 4 == 2:
        opt = dict(templ=[t for t in mg.Gen.TEMPL if t.startswith('dyn')] * 2 + ['conv', 'matmul', 'reshape', 'binary', 'concat', 'transpose'])
    shuffled = i % 7 == 3
    opt['value_info'] = i % 5 == 0
    opt['unnamed'] = i % 6 == 0
    g = mg.generate(rng, **opt)
    m = g.model()
    rename = i % 6 == 0
    cfg = {'constant_folding': bool(i % 3 == 0), 'node_rename': rename}
    ms = m
    if shuffled:
        ms = type(m)()
        ms.CopyFrom(m)
        perm = rng.permutation(len(m.graph.node))
        del ms.graph.node[:]
        ms.graph.node.extend([m.graph.node[int(k)] for k in perm])
        if any(not n.name for n in m.graph.node) and not rename:
            cfg['node_rename'] = True
    for a in range(g.k):
        feeds = g.feeds(a)
        try:
            ref = mg.execute(m, feeds)
        except Exception as e:
            mon.inconclusive(f'reference cannot execute: {type(e).__name__}')
            return
        with quiet():
            tm = onnx_tool.Model(ms, dict(cfg))
            if shuffled:
                tm.graph.graph_reorder_nodes()
            if not g.syms and i % 2:
                tm.graph.shape_infer()
            else:
                # values of float inputs do not matter for shapes
                given = {k: (np.zeros_like(v) if v.dtype.kind == 'f' else v.copy()) for k, v in feeds.items()}
                tm.graph.shape_infer(given)
        tg = tm.graph
        wrong = False       # a wrong tensor makes its successors wrong: report the first
        present = {o for n in tg.nodemap.values() for o in n.output}
        for nd in m.graph.node:
            for o in nd.output:
                if not o:
                    continue
                if o not in tg.tensormap:
                    if o in present or not cfg['constant_folding']:
                        mon.violation(f'missing:{nd.op_type}', f'{o} of {nd.op_type} has no tensor after inference, case {case}')
                    continue
                t = tg.tensormap[o]
                want = tuple(ref[o].shape)
                mon.event('tensors_compared')
                if wrong:
                    continue
                if _prop == 'P03':
                    if tuple(t.get_shape()) != want:
                        wrong = True
                        mon.violation(f'shape:{nd.op_type}', f'{o} of {nd.op_type} inferred {t.get_shape()}, executed {want}; sizes {g.syms} #{a} cfg {cfg}')
                else:
                    if np.dtype(t.dtype) != ref[o].dtype:
                        wrong = True
                        mon.violation(f'graph-dtype:{nd.op_type}', f'{o} of {nd.op_type} inferred {np.dtype(t.dtype)}, executed {ref[o].dtype}; cfg {cfg}')
                    if t.get_elementsize() != ref[o].dtype.itemsize:
                        wrong = True
                        mon.violation(f'graph-width:{nd.op_type}', f'{o} of {nd.op_type} element size {t.get_elementsize()}, executed {ref[o].dtype}; cfg {cfg}')
        mon.event('inferences')
    ops = tuple(n.op_type for n in m.graph.node)
    if len(ops) >= 6 or 'Shape' in ops:
        mon.distinct((ops, tuple(sorted(map(str, g.syms.items())))))
    mon.sample({'ops': list(ops), 'dims': {k: v for k, v in g.syms.items()}, 'inputs': [list(map(str, d)) for _, _, d in g.inputs]})
