"""P15: the compute graph drops only shape computation."""
import numpy as np
from vt import modelgen as mg
from vt.core import rng_for, quiet
from vt.checks.plan import ordered

PROP = 'P15'
RULE = ('random whole models (vt/modelgen.py) with run-time shape subgraphs, some of whose results are also data or graph outputs, multi-output and dangling nodes, with '
        'and without folding; needed nodes are found by backward reachability over data inputs; non-trivial when nodes were dropped')
BUDGET = {'quick': 90, 'thorough': 700}
ASSUMPTIONS = ['inputs which ONNX defines as shape-like parameters (shapes, axes, indices, sizes, repeats, pads, k) are shape inputs']
MIN_EVENTS = {'nodes_compared': 5000, 'dropped_nodes': 1000}

# parameters that decide shapes or layout only: {op: input positions}
PARAM = {'Reshape': (1,), 'Resize': (1, 2, 3), 'Upsample': (1,), 'Expand': (1,), 'Slice': (1, 2, 3, 4), 'ConstantOfShape': (0,), 'Tile': (1,), 'Range': (0, 1, 2),
         'OneHot': (1,), 'TopK': (1,), 'Pad': (1, 3), 'NonMaxSuppression': (2,), 'Split': (1,), 'Unsqueeze': (1,), 'Squeeze': (1,)}
for _o in ('Sum', 'Mean', 'Max', 'Min', 'Prod', 'L1', 'L2', 'LogSum', 'LogSumExp', 'SumSquare'):
    PARAM['Reduce' + _o] = (1,)
STRICT = {'Reshape': (1,), 'Expand': (1,), 'ConstantOfShape': (0,), 'Tile': (1,)}


def cases(tier, seed):
    n = 12000 if tier == 'quick' else 60000
    for i in range(n):
        yield ('cg', seed, i)


def needed(nodes, outs, table):
    """names of the nodes whose results are used as data: nodes = [(name, op, inputs, outputs)]"""
    prod, used = {}, set()
    for n in nodes:
        for o in n[3]:
            if o:
                prod[o] = n
        used.update(x for x in n[2] if x)
    keep, todo = set(), [n for n in nodes if any(o in outs for o in n[3]) or not any(o in used for o in n[3])]
    while todo:
        n = todo.pop()
        if n[0] in keep:
            continue
        keep.add(n[0])
        for k, x in enumerate(n[2]):
            if k not in table.get(n[1], ()) and x in prod:
                todo.append(prod[x])
    return keep


def snap(g):
    return [(k, n.op_type, list(n.input), list(n.output)) for k, n in g.nodemap.items()]


def relations(g):
    p, c = {}, {}
    for k, n in g.nodemap.items():
        for o in n.output:
            if o:
                p.setdefault(o, []).append(k)
        for x in n.input:
            if x:
                c.setdefault(x, []).append(k)
    return p, c


def run(case, mon):
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P15', seed, i)
    g = mg.generate(rng, assign=2, dangling=bool(i % 3 == 0))
    m = g.model()
    feeds = [g.feeds(0), g.feeds(1)]
    fold = bool(rng.random() < .4)
    with quiet():
        tg = onnx_tool.Model(m, {'constant_folding': fold}).graph
        tg.graph_reorder_nodes()
        tg.shape_infer({k: v.copy() for k, v in feeds[0].items()})
    before = snap(tg)
    io = (list(tg.input), list(tg.output))
    shapes = {k: list(t.get_shape()) for k, t in tg.tensormap.items()}
    attrs = {k: repr(sorted(n.attr.items(), key=lambda x: x[0]))[:2000] for k, n in tg.nodemap.items()}
    with quiet():
        cg = tg.get_compute_graph()
    after = snap(cg)
    kept = {n[0] for n in after}
    must = needed(before, set(tg.output), PARAM)
    byname = {n[0]: n for n in before}
    mon.event('graphs')
    mon.event('nodes_compared', len(before))
    mon.event('dropped_nodes', len(before) - len(after))
    for n in before:
        if n[0] in must and n[0] not in kept:
            mon.violation('data-node-lost', f'{n} is used as data but was dropped; outputs {io[1]}; nodes {before}')
            return
    for n in after:
        if byname.get(n[0]) != n:
            mon.violation('node-changed', f'{byname.get(n[0])} -> {n}')
            return
        if repr(sorted(cg.nodemap[n[0]].attr.items(), key=lambda x: x[0]))[:2000] != attrs[n[0]]:
            mon.violation('attr-changed', f'{n}')
    if [n for n in before if n[0] in kept] != after:
        mon.violation('order-changed', f'{before} -> {after}')
    loose = needed(before, set(tg.output), STRICT)
    for n in before:
        if n[0] in kept and n[0] not in loose and n[1] != 'Constant':
            mon.event('undropped')
            mon.violation('shape-node-kept', f'{n} is used for shapes only but was kept; nodes {before}; outs {io[1]}')
            return
    if (list(cg.input), list(cg.output)) != io:
        mon.violation('interface', f'{io} -> {(cg.input, cg.output)}')
    if {k: list(t.get_shape()) for k, t in cg.tensormap.items()} != shapes:
        mon.violation('shapes', 'tensor shapes changed')
    p, c = relations(cg)
    for what, want, got in (('producedby', p, cg.producedby), ('consumedby', c, cg.consumedby)):
        got = {k: sorted(v) for k, v in got.items() if v}
        if got != {k: sorted(v) for k, v in want.items()}:
            mon.violation(f'relations-{what}', f'{got} but node list says {want}')
    dyn = [t for t in dict.fromkeys([*cg.input, *[o for n in after for o in n[3] if o]])]
    if len(set(cg.dynamics)) != len(cg.dynamics) or not set(dyn) <= set(cg.dynamics):
        mon.violation('dynamics', f'dynamics {cg.dynamics} of {dyn}')
    # the model itself stays as it was
    if snap(tg) != before or (list(tg.input), list(tg.output)) != io:
        mon.violation('original-changed', f'{len(before)} nodes before, {len(tg.nodemap)} after extraction')
        return
    with quiet():
        again = snap(tg.get_compute_graph())
        tg.shape_infer({k: v.copy() for k, v in feeds[1].items()})
    if again != after:
        mon.violation('repeat', 'a second extraction differs')
    if len(after) < len(before):
        mon.distinct((tuple(n[1] for n in before), tuple(n[1] for n in after), fold))
        mon.sample({'nodes': len(before), 'kept': len(after), 'dropped': sorted({byname[n[0]][1] for n in before if n[0] not in kept})})
