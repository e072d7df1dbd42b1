"""P04, whole models: Graph.value_infer against executed values."""
import numpy as np
from vt import modelgen as mg
from vt.core import rng_for, quiet
from vt.oracle import close

PROP = 'P04'
RULE = ('random whole models evaluated with Graph.value_infer on random inputs (twice with different sizes on the same object); every tensor the tool '
        'computed is compared with the executed value')
MIN_EVENTS = {'graph_tensors_compared': 1000}
SENSITIVE = {'Cast', 'ArgMax', 'Greater', 'Less', 'GreaterOrEqual', 'TopK', 'Where', 'Div'}
TEMPL = ['unary', 'binary', 'variadic', 'matmul', 'attention', 'transpose', 'reshape', 'concat', 'split', 'slice', 'reduce', 'pad', 'where', 'cast', 'gather',
         'embed', 'dynreshape', 'dynexpand', 'dynrange', 'dynslice', 'tile', 'norm', 'topk', 'argmax', 'conv', 'bn']


def cases(tier, seed):
    for i in range(1500 if tier == 'quick' else 60000):
        yield ('values', seed, i)


def run(case, mon):
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P04g', seed, i)
    g = mg.generate(rng, 2, templ=TEMPL, quant=False)
    m = g.model()
    with quiet():
        tm = onnx_tool.Model(m, {'constant_folding': i % 2 == 0}).graph
    for a in (0, 1):
        feeds = g.feeds(a)
        try:
            ref = mg.execute(m, feeds)
        except Exception:
            mon.inconclusive('reference cannot execute')
            return
        if any(v.dtype.kind == 'f' and (not np.isfinite(v).all() or (np.abs(v) > 1e3).any()) for v in ref.values()):
            mon.event('models_with_extreme_values')
            return
        try:
            with quiet():
                res = tm.value_infer({k: v.copy() for k, v in feeds.items()})
        except NotImplementedError as e:
            mon.event('refused_by_tool')
            return
        inexact = False
        for nd in m.graph.node:
            for o in nd.output:
                if o not in tm.tensormap or tm.tensormap[o].numpy is None:
                    continue
                got, want = np.asarray(tm.tensormap[o].numpy), ref[o]
                mon.event('graph_tensors_compared')
                if got.shape != want.shape or not close(got, want, 2e-2 if want.dtype == np.float16 else 1e-3):
                    if inexact and any(n.op_type in SENSITIVE for n in m.graph.node):
                        mon.inconclusive('rounding in front of a discontinuous operator')
                    else:
                        mon.violation(f'graph-value:{nd.op_type}', f'{o} of {nd.op_type}: {got.shape} {got.reshape(-1)[:5]} executed {want.shape} {want.reshape(-1)[:5]} sizes {a} {case}')
                    return
                if want.dtype.kind == 'f' and not np.array_equal(got, want):
                    inexact = True
        for o, v in zip(tm.output, res):
            if v is not tm.tensormap[o].numpy:
                mon.violation('graph-value-return', f'{o} {case}')
    mon.distinct(tuple(n.op_type for n in m.graph.node))
    mon.sample({'ops': [n.op_type for n in m.graph.node][:30]})
