"""P18: folding BatchNormalization into Conv keeps the results."""
import os
import numpy as np
import onnx
from onnx import helper, TensorProto as TP, numpy_helper
from onnx.reference import ReferenceEvaluator
from vt.core import rng_for, quiet, scratch

PROP = 'P18'
RULE = ('random convolution nets (1 to 3 spatial dimensions, groups, dilations, with, without and with an omitted bias, float16/32/64) of Conv+BatchNormalization pairs with random epsilon, '
        'statistics and parameters; convolution results and weights shared with other nodes, graph outputs in every position, parameters computed at run time, training mode, '
        'parameters of Constant nodes, chains of BatchNormalization, BatchNormalization of transposed convolutions; ConvBNFusion on the graph and on its compute graph, file saved and executed; non-trivial when a node was folded')
MIN_EVENTS = {'folded': 600, 'outputs_compared': 800, 'shared_results': 60, 'shared_weights': 60, 'bn_graph_outputs': 100, 'transposed': 60}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['the onnx reference evaluator executes Conv and BatchNormalization faithfully']


def cases(tier, seed):
    n = 12000 if tier == 'quick' else 50000
    for i in range(n):
        yield (seed, i)


def build(rng):
    dt = [np.float32, np.float32, np.float32, np.float64, np.float16][int(rng.integers(5))]
    nd = [2, 2, 2, 1, 3][int(rng.integers(5))]
    c0 = int(rng.integers(1, 5))
    dims = [int(rng.integers(1, 3)), c0] + [int(v) for v in rng.integers(5, 10, nd)]
    nodes, inits, k = [], {}, [0]
    vals = {'x': dims}
    tags = set()

    def arr(a, const=True):
        k[0] += 1
        n = f'p{k[0]}'
        a = np.asarray(a, dt)
        if const and rng.random() < .1:
            nodes.append(helper.make_node('Constant', [], [n], name='c' + n, value=numpy_helper.from_array(a)))
            tags.add('constant')
        else:
            inits[n] = a
        return n

    def add(op, ins, n_out=1, **at):
        k[0] += 1
        o = [f't{k[0]}'] + [f't{k[0]}_{j}' for j in range(1, n_out)]
        nodes.append(helper.make_node(op, ins, o, name=f'{op}_{k[0]}' if rng.random() < .8 else f'n{k[0]}', **at))
        return o[0]
    weights, bns = [], []
    outs = []
    for _ in range(int(rng.integers(1, 5))):
        xs = list(vals)
        x = str(xs[-1] if rng.random() < .6 else xs[int(rng.integers(len(xs)))])
        d = vals[x]
        c = d[1]
        if rng.random() < .12:
            y = add(['Relu', 'Sigmoid', 'Neg'][int(rng.integers(3))], [x])
            vals[y] = d
            continue
        group = int(rng.choice([g for g in (1, 2, 3, 4) if c % g == 0]))
        if rng.random() < .5:
            group = 1
        ks = [int(v) for v in rng.integers(1, 4, nd)]
        m = group * int(rng.integers(1, 4))
        shared = [w for w in weights if w[1][1] * w[2] == c and all(a <= b for a, b in zip(w[1][2:], d[2:]))]
        if shared and rng.random() < .35:
            w, ws, group = shared[int(rng.integers(len(shared)))]
            m, ks = ws[0], list(ws[2:])
            tags.add('shared_weights')
        else:
            ws = [m, c // group] + ks
            w = arr(rng.uniform(-1, 1, ws))
            weights.append((w, ws, group))
        pads = [int(v) for v in rng.integers(0, 2, 2 * nd)]
        st = [int(v) for v in rng.integers(1, 3, nd)]
        dil = [2 if rng.random() < .2 and b >= 2 * a else 1 for a, b in zip(ks, d[2:])]
        out = [(v + pads[a] + pads[a + nd] - dil[a] * (ks[a] - 1) - 1) // st[a] + 1 for a, v in enumerate(d[2:])]
        if min(out) < 1 or np.prod(out) * m > 3000:
            continue
        ins = [x, w]
        r = rng.random()
        if r < .5:
            bias = [b for b in inits if inits[b].shape == (m,) and b.startswith('p')]
            ins.append(arr(rng.uniform(-1, 1, m)) if not bias or rng.random() < .7 else bias[int(rng.integers(len(bias)))])
        elif r < .6:
            ins.append('')
        at = dict(pads=pads, strides=st, dilations=dil, group=group)
        if rng.random() < .9:
            at['kernel_shape'] = ks
        y = add('Conv', ins, **at)
        yd = [d[0], m] + out
        if rng.random() < .12:       # a convolution whose weight is laid out the other way
            to = [a + b - 1 for a, b in zip(d[2:], ks)]
            m2 = c if rng.random() < .6 else int(rng.integers(1, 5))
            if np.prod(to) * m2 < 3000:
                nodes.pop()
                ins = [x, arr(rng.uniform(-1, 1, [c, m2] + ks))] + ([arr(rng.uniform(-1, 1, m2))] if rng.random() < .5 else [])
                y, m, yd = add('ConvTranspose', ins, **(dict(kernel_shape=ks) if rng.random() < .9 else {})), m2, [d[0], m2] + to
                tags.add('transposed')
        use = rng.random()
        if use < .15:
            vals[y] = yd
            tags.add('shared_results')
            if rng.random() < .5:
                z = add('Relu', [y])
                vals[z] = yd
        elif use < .25:
            outs.append(y)
            tags.add('shared_results')
        if rng.random() < .9:
            for _ in range(1 if rng.random() < .9 else 2):
                same = [b for b in bns if b[1] == m]
                if same and rng.random() < .3:
                    ps = same[0][0]
                else:
                    ps = [arr(rng.uniform(.2, 2, m)), arr(rng.uniform(-1, 1, m)), arr(rng.uniform(-1, 1, m)), arr(rng.uniform(.2, 2, m))]
                    bns.append((ps, m))
                    if rng.random() < .08:       # a parameter computed at run time
                        j = int(rng.integers(4))
                        z = add('ReduceMean', [x], keepdims=0)
                        one = arr(np.ones(m), False)
                        z = add('Mul', [z, one])
                        z = add('Abs', [z])
                        ps = list(ps)
                        ps[j] = add('Add', [z, arr(np.full(m, .5), False)])
                        tags.add('dynamic_parameters')
                at = {}
                if rng.random() < .7:
                    at['epsilon'] = float(rng.choice([1e-5, 1e-3, .1, .5]))
                if rng.random() < .3:
                    at['momentum'] = .7
                tr = rng.random() < .06
                if tr:
                    at['training_mode'] = 1
                    tags.add('training')
                y = add('BatchNormalization', [y, *ps], 3 if tr else 1, **at)
                if rng.random() < .1:
                    vals[y] = yd
        if rng.random() < .3:
            outs.append(y)
            tags.add('bn_graph_outputs')
        vals[y] = yd
    outs.append(list(vals)[-1] if list(vals)[-1] != 'x' else add('Neg', ['x']))
    outs = list(dict.fromkeys(outs))
    if rng.random() < .1 and inits:      # a weight that is also a result
        outs.append(str(rng.choice(sorted(inits))))
        tags.add('weight_output')
    T = helper.np_dtype_to_tensor_dtype(np.dtype(dt))
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', T, dims)], [helper.make_tensor_value_info(o, T, None) for o in outs],
                          [numpy_helper.from_array(a, n) for n, a in inits.items()])
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 18)]), dims, dt, tags


def run(case, mon):
    import onnx_tool
    from onnx_tool.fusion import ConvBNFusion
    rng = rng_for('P18', *case)
    m, dims, dt, tags = build(rng)
    raw = m.SerializeToString()
    x = rng.uniform(-1, 1, dims).astype(dt)
    names = [o.name for o in m.graph.output]
    with np.errstate(all='ignore'):
        want = dict(zip(names, ReferenceEvaluator(m).run(None, {'x': x})))
    with quiet(), scratch() as d:
        f = os.path.join(d, 'f.onnx')
        tm = onnx_tool.Model(m, {'constant_folding': bool(rng.random() < .5)})
        g = tm.graph
        if rng.random() < .3:
            g.shape_infer({'x': x})
            g = g.get_compute_graph()
            mon.event('compute_graphs')
        before = len(g.nodemap)
        ConvBNFusion(g)
        folded = before - len(g.nodemap)
        if rng.random() < .2:
            ConvBNFusion(g)
            folded = before - len(g.nodemap)
        if list(g.output) != names:
            mon.violation('outputs', f'graph outputs {g.output}, were {names}')
            return
        g.save_model(f, rawmodel=m)
        r = onnx.load(f)
    mon.event('folded', folded)
    for t in tags:
        mon.event(t)
    if m.SerializeToString() != raw:
        mon.violation('caller', 'the model passed in was changed')
    if [o.name for o in r.graph.output] != names:
        mon.violation('outputs', f'saved outputs {[o.name for o in r.graph.output]}, were {names}')
        return
    with np.errstate(all='ignore'):
        have = dict(zip(names, ReferenceEvaluator(r).run(None, {'x': x})))
    tol = {np.float16: 6e-2, np.float32: 2e-4, np.float64: 1e-9}[dt]
    for n, a in want.items():
        b = have[n]
        mon.event('outputs_compared')
        s = max(1.0, float(np.max(np.abs(a.astype(np.float64)))) if a.size else 1.0)
        if a.shape != b.shape or a.dtype != b.dtype:
            mon.violation('type', f'{n}: {b.dtype}{b.shape}, was {a.dtype}{a.shape} ({sorted(tags)})')
            return
        if not np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=tol, atol=tol * s, equal_nan=True):
            mon.violation('value', f'{n} differs by {np.max(np.abs(a.astype(np.float64) - b.astype(np.float64)))} of {s} ({np.dtype(dt)}, {sorted(tags)}, {folded} folded): '
                          + ' '.join(f'{q.op_type}({",".join(q.input)})->{",".join(q.output)}' for q in m.graph.node))
            return
    if folded:
        mon.distinct((str([(q.op_type, list(q.input), list(q.output)) for q in m.graph.node]), str(dims)))
        mon.sample({'nodes': [q.op_type for q in m.graph.node], 'folded': folded, 'tags': sorted(tags)})
