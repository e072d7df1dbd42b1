"""P05: constant folding preserves the model's function, folds exactly what constants determine."""
import os
import numpy as np
import onnx
from onnx import helper
from vt import modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.oracle import samerun, reference, close

PROP = 'P05'
RULE = ('random models with constant sub-expressions (initializers, Constant nodes, chains, shared constants, dequantised weights, constant graph outputs) '
        'loaded with constant_folding and saved; the saved file is executed against the original on random inputs, every folded tensor is compared with '
        'its executed value, and an independent constancy analysis of the original decides which nodes may and must disappear; non-trivial when at least one node folded')
MIN_EVENTS = {'folded_nodes': 1000, 'folded_tensors_compared': 1000}
ASSUMPTIONS = ['the ONNX reference evaluator is the trusted executor']

# operators whose evaluation the tool provides: their constant instances must disappear
FOLDABLE = {'Constant', 'Add', 'Sub', 'Mul', 'Div', 'Neg', 'Abs', 'Tanh', 'Sqrt', 'Exp', 'Relu', 'Sigmoid', 'Cast', 'Transpose', 'Reshape', 'Unsqueeze', 'Squeeze',
            'Concat', 'Slice', 'Gather', 'Shape', 'MatMul', 'Gemm', 'Identity', 'Tile', 'Expand', 'Range', 'ConstantOfShape', 'Where', 'Greater', 'Less',
            'GreaterOrEqual', 'Max', 'Min', 'ReduceSum', 'ReduceMean', 'ReduceMax', 'Flatten', 'Pad', 'Softmax', 'ArgMax', 'Erf', 'LeakyRelu', 'Clip', 'Sum'}
SENSITIVE = {'Cast', 'ArgMax', 'Greater', 'Less', 'GreaterOrEqual', 'TopK', 'Where', 'Div', 'Floor', 'Round', 'Ceil'}


def cases(tier, seed):
    n = 4000 if tier == 'quick' else 120000
    for i in range(n):
        yield ('fold', seed, i)


def constants(m):
    """names determined by constants only, and those whose derivation passes a DequantizeLinear"""
    const = {t.name for t in m.graph.initializer} | {''}
    dq, blocked = set(), set()
    for n in m.graph.node:
        if n.op_type.startswith('Random'):
            continue
        if all(i in const for i in n.input):
            const |= set(n.output)
            if n.op_type == 'DequantizeLinear' or any(i in dq for i in n.input):
                dq |= set(n.output)
            if n.op_type not in FOLDABLE or any(i in blocked for i in n.input):
                blocked |= set(n.output)
    return const, dq, blocked


def build(case):
    _, seed, i = case
    rng = rng_for('P05', seed, i)
    opt = dict(const_chain=True, constants=True, unnamed=False, shuffle=False, unused_init=i % 5 == 1)
    if i % 3 == 0:
        opt['integer'] = False
    g = mg.Gen(rng, 2, **opt)
    g.special = set()
    if i % 2:
        # a constant expression that takes part in the random templates like any other tensor
        g.inputs, keep = [], None
        w = g.init(g.farr((g.ri(1, 2), g.ri(2, 4), g.ri(2, 4))), as_constant=g.chance(0.3))
        for op in [g.pick(['Neg', 'Tanh', 'Abs', 'Relu']) for _ in range(g.ri(1, 2))]:
            w = g.op(op, [w], [g.S(w)], 'float32')[0]
    g.build()
    return rng, g, g.model()


def run(case, mon):
    import onnx_tool
    rng, g, m = build(case)
    const, dq, blocked = constants(m)
    feeds = [g.feeds(0), g.feeds(1)]
    try:
        refs = [mg.execute(m, f) for f in feeds]
    except Exception as e:
        mon.inconclusive('reference cannot execute')
        return
    with scratch() as d, quiet():
        dst = os.path.join(d, 'b.onnx')
        if case[2] % 5 == 0:
            src = os.path.join(d, 'a.onnx')
            onnx.save(m, src)
            onnx_tool.model_constant_folding(src, dst)
        else:
            tm = onnx_tool.Model(m, {'constant_folding': True})
            tm.save_model(dst)
        if not os.path.exists(dst):
            if all(o.name in const or o.name in feeds[0] for o in m.graph.output):      # no node is left
                mon.event('whole_model_constant')
            else:
                mon.violation('nothing-saved', f'{case}')
            return
        n = onnx.load(dst)
    left = {x.name: x for x in n.graph.node}
    exact = True
    folded = 0
    tame = all(np.isfinite(v).all() and (np.abs(v) < 1e3).all() for r in refs for v in r.values() if v.dtype.kind == 'f')
    if not tame:
        mon.event('models_with_extreme_values')     # rounding is amplified: values not compared
    wo = {t.name: onnx.numpy_helper.to_array(t) for t in n.graph.initializer}
    wi = {t.name: onnx.numpy_helper.to_array(t) for t in m.graph.initializer}
    for x in m.graph.node:
        outs = [o for o in x.output if o]
        isconst = all(o in const for o in outs)
        if x.name in left:
            y = left[x.name]
            df = mc.node_diff(x, y)
            if df:
                mon.violation(f'kept-node-changed:{df[0]}', f'{x.op_type} {df[1]} {case}')
            if isconst and not any(o in blocked for o in outs):
                mon.violation(f'not-folded:{x.op_type}', f'{x.name} depends on constants only but stays in the graph {case}')
            mon.event('kept_nodes')
        else:
            folded += 1
            mon.event('folded_nodes')
            if not isconst:
                mon.violation(f'runtime-node-folded:{x.op_type}', f'{x.name} {list(x.input)} depends on a run-time input but was removed {case}')
            if any(o in dq for o in outs):
                mon.violation(f'dequantized-weight-folded:{x.op_type}', f'{x.name} {case}')
            for o in outs:
                if o in wo:
                    mon.event('folded_tensors_compared')
                    r = refs[0][o]
                    if wo[o].shape != r.shape or wo[o].dtype != r.dtype:
                        mon.violation(f'folded-type:{x.op_type}', f'{o}: {wo[o].dtype}{wo[o].shape} executed {r.dtype}{r.shape} {case}')
                    elif tame and not close(wo[o], r, 1e-4):
                        if any(k.op_type in SENSITIVE for k in m.graph.node if any(q in const for q in k.output)) and r.dtype.kind in 'biu':
                            mon.inconclusive('rounding in front of a discontinuous operator')
                        else:
                            mon.violation(f'folded-value:{x.op_type}', f'{o}: {wo[o].reshape(-1)[:4]} executed {r.reshape(-1)[:4]} {case}')
                    if not samerun(wo[o], r):
                        exact = False
    for k, v in wi.items():
        if k in wo:
            mon.event('weights_compared')
            if not samerun(v, wo[k]):
                mon.violation('weight-changed', f'{k} {case}')
    for k in wo:
        if k not in wi and k not in const:
            mon.violation('runtime-value-became-weight', f'{k} {case}')
    a, b = [v.name for v in m.graph.output], [v.name for v in n.graph.output]
    if a != b:
        mon.violation('outputs', f'{a} -> {b} {case}')
        return
    a = [v.name for v in mc.real_inputs(n.graph)]
    if not set(a) <= {v.name for v in mc.real_inputs(m.graph)}:
        mon.violation('inputs-invented', f'{a} {case}')
        return
    try:
        onnx.checker.check_model(n)
    except Exception as e:
        mon.violation('invalid-model', f'{e} {case}')
        return
    for f, ref in zip(feeds, refs):
        if not tame:
            break
        try:
            got = reference(n, {k: v for k, v in f.items() if k in a})
        except Exception as e:
            mon.violation('folded-model-not-executable', f'{type(e).__name__} {e} {case}')
            return
        for o, v in zip([x.name for x in m.graph.output], got):
            mon.event('outputs_compared')
            if not close(v, ref[o], 1e-3):
                if any(x.op_type in SENSITIVE for x in m.graph.node):
                    mon.inconclusive('rounding in front of a discontinuous operator')
                else:
                    mon.violation('function', f'output {o} differs: {v.reshape(-1)[:4]} {ref[o].reshape(-1)[:4]} {case}')
    if folded:
        mon.distinct(tuple((x.op_type, x.name in left) for x in m.graph.node))
        mon.sample({'nodes': len(m.graph.node), 'folded': folded, 'folded_ops': sorted({x.op_type for x in m.graph.node if x.name not in left})})
