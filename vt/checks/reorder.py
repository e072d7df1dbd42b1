"""P13: reordering nodes gives a valid execution order of the same nodes."""
import os
import numpy as np
import onnx
from vt import modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.oracle import samerun, reference

PROP = 'P13'
RULE = ('random models with their node list shuffled (named and unnamed nodes, multi-output nodes, omitted optional inputs and outputs, duplicate inputs, '
        'nodes of constants only, dangling nodes, If nodes whose bodies take tensors of the graph), reordered through Graph.graph_reorder_nodes and through model_reorder_nodes; the order is judged as a '
        'permutation and against the producers of every input, the producer/consumer maps are recomputed and the saved model executed against the original; '
        'non-trivial when the shuffled order was not a valid one')
MIN_EVENTS = {'orders_judged': 1000, 'executions_compared': 500, 'bodies': 200}
ASSUMPTIONS = ['the onnx reference evaluator executes the original order faithfully']


def cases(tier, seed):
    n = 6000 if tier == 'quick' else 100000
    for i in range(n):
        yield ('shuffle', seed, i)


def valid_order(nodes, given):
    """first (node, tensor) violating the order"""
    avail, made = set(given), {o for n in nodes for o in n.output if o}
    for n in nodes:
        reads = list(n.input)
        for a in getattr(n, 'attribute', ()):
            if a.type == a.GRAPH:
                reads += sorted(mc.captured(a.g))
        for i in reads:
            if i and i in made and i not in avail:
                return n.name, i
        avail |= set(n.output)
    return None


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P13', seed, i)
    g = mg.generate(rng, assign=1, optout=i % 3 == 0, unnamed=i % 5 == 1, nodes=(3, 24), init_as_input=i % 7 == 2, unused_init=i % 4 == 0,
                    **({'templ': mg.Gen.TEMPL + ['optout'] * 12} if i % 3 == 0 else {}))
    m = g.model()
    body = False
    if i % 9 in (4, 7):
        from vt.checks.subgraph import add_body
        try:
            body = add_body(rng, m, g.feeds(0), mg.execute(m, g.feeds(0)))
        except Exception:
            mon.inconclusive('reference cannot execute')
            return
        mon.event('bodies', int(body))
    ms = onnx.ModelProto()
    ms.CopyFrom(m)
    perm = rng.permutation(len(m.graph.node))
    if i % 6 == 0:
        perm = np.arange(len(m.graph.node))[::-1]
    if i % 11 == 0:
        perm = np.arange(len(m.graph.node))
    del ms.graph.node[:]
    ms.graph.node.extend([m.graph.node[int(p)] for p in perm])
    given = {v.name for v in m.graph.input} | {t.name for t in m.graph.initializer}
    trivial = valid_order(ms.graph.node, given) is None
    feeds = g.feeds(0)
    rename = i % 5 == 1
    with quiet(), scratch() as d:
        dst = os.path.join(d, 'o.onnx')
        if i % 2 and not rename:
            onnx_tool.model_reorder_nodes(ms, dst)
        else:
            tm = onnx_tool.Model(ms, {'node_rename': rename})
            tm.graph.graph_reorder_nodes()
            judge_relations(tm.graph, mon, case)
            if i % 4 == 0:     # once more
                order = list(tm.graph.nodemap)
                tm.graph.graph_reorder_nodes()
                if valid_order([tm.graph.nodemap[k] for k in tm.graph.nodemap], given) or sorted(order) != sorted(tm.graph.nodemap):
                    mon.violation('again', f'reordering an ordered graph broke it {case}')
            if i % 8 == 0 and not body:
                tm.graph.shape_infer({k: v.copy() for k, v in feeds.items()})
            tm.save_model(dst)
        n = onnx.load(dst)
    strip = lambda nd: nd
    a, b = list(m.graph.node), list(n.graph.node)
    mon.event('orders_judged')
    if not trivial:
        mon.event('invalid_orders_repaired')

    def key(nd):
        k = onnx.NodeProto()
        k.CopyFrom(nd)
        if rename or i % 5 == 1:
            k.name = ''
        return mc.node_key(k)
    ka, kb = sorted(map(str, map(key, a))), sorted(map(str, map(key, b)))
    if ka != kb:
        lost = [k for k in ka if k not in kb]
        mon.violation('not-a-permutation' if len(ka) != len(kb) else 'node-changed', f'{len(a)} nodes -> {len(b)}; missing {lost[:3]} {case}')
        return
    bad = valid_order(b, given)
    if bad:
        mon.violation('order', f'node {bad[0]} is listed before the producer of {bad[1]} {case}')
        return
    if [o.name for o in n.graph.output] != [o.name for o in m.graph.output]:
        mon.violation('outputs', f'{[o.name for o in m.graph.output]} -> {[o.name for o in n.graph.output]} {case}')
        return
    if [o.name for o in mc.real_inputs(n.graph)] != [o.name for o in mc.real_inputs(m.graph)]:
        mon.violation('inputs', f'{[o.name for o in m.graph.input]} -> {[o.name for o in n.graph.input]} {case}')
        return
    try:
        ra = reference(m, feeds)
    except Exception:
        mon.inconclusive('reference cannot execute')
        return
    rb = reference(n, feeds)
    mon.event('executions_compared')
    for o, p, q in zip(m.graph.output, ra, rb):
        if not samerun(p, q):
            mon.violation('function', f'output {o.name} differs {case}')
    if not trivial:
        mon.distinct((tuple(x.op_type for x in m.graph.node), tuple(int(p) for p in perm)))
    mon.sample({'case': str(case), 'given': [x.op_type for x in ms.graph.node][:16], 'result': [x.op_type for x in b][:16]})


def judge_relations(g, mon, case):
    prod, cons = {}, {}
    for k, nd in g.nodemap.items():
        for o in nd.output:
            prod.setdefault(o, []).append(k)
        for o in nd.input:
            cons.setdefault(o, []).append(k)
    for lab, want, have in (('producedby', prod, g.producedby), ('consumedby', cons, g.consumedby)):
        for t, v in want.items():
            if t and sorted(have.get(t, [])) != sorted(v):
                mon.violation(f'relations-{lab}', f'{t}: {have.get(t)} expected {v} {case}')
        mon.event('relations_judged', len(want))
