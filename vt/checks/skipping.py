"""P32: skipping and removing nodes."""
import os
import numpy as np
import onnx
from onnx import helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from vt import hostgraph as hg, modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.checks.fusegraph import Wrong, attrs_of, node_attrs
from vt.oracle import samerun

PROP = 'P32'
RULE = ('random host graphs with pass-through and shape-only nodes (on graph inputs and outputs, in chains, with fan-out, repeated reads, several-output producers, shapes computed at '
        'run time or held as weights) skipped in random order or by removeShapeOps; remove_node, recursive removal and remove_subtree; executable models with Identity and Dropout on random '
        'edges skipped and executed. The expected graph is computed from the node list alone; non-trivial when a node was skipped or removed')
MIN_EVENTS = {'skipped': 3000, 'output_skips': 200, 'fan_out_skips': 300, 'removed': 1000, 'executions_compared': 300, 'kept_nodes': 20, 'kept_for_other_results': 50}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['the onnx reference evaluator executes the models faithfully']
SHAPE = ['Flatten', 'Reshape', 'Unsqueeze', 'Squeeze']


def cases(tier, seed):
    n = 12000 if tier == 'quick' else 120000
    for i in range(n):
        yield (['skip', 'shapeops', 'skip', 'remove', 'exec', 'shapeops', 'subtree'][i % 7], seed, i)


def with_pass(rng, h):
    """put pass-through nodes on some edges of a host"""
    k = 0
    nodes = []
    alias = {}
    outs = list(h['outs'])
    h['inits']['shp'] = np.ones(1, np.float32)
    passes = []

    def ps(x, name=None):
        nonlocal k
        k += 1
        o = name or f'q{k}'
        r = rng.random()
        op, ins = 'Identity', [x]
        if r < .3:
            op = ['Flatten', 'Squeeze'][int(rng.integers(2))]
        elif r < .6:
            op = ['Reshape', 'Unsqueeze', 'Squeeze'][int(rng.integers(3))]
            ins = [x, 'shp' if rng.random() < .5 or not made else str(rng.choice(made))]
        elif r < .7:
            op, ins = 'OpP', [x, '', 'shp']
        outs_ = [o] if rng.random() < .9 or op != 'Identity' else [o, '']
        if op == 'Identity' and rng.random() < .15:
            # another result (as the mask of a Dropout): unused, a model output, or used by a later node
            op, outs_ = 'OpQ', [o, o + 'm']
            if rng.random() < .3:
                outs.append(o + 'm')
            elif rng.random() < .5:
                made.append(o + 'm')
        nodes.append(dict(name=f's{k}', op=op, ins=ins, outs=outs_, attrs={'k': k}, domain=''))
        passes.append(f's{k}')
        return o
    made = []
    src = h['ins'] + list(h['inits'])
    cur = {t: t for t in src}
    for t in src:
        if rng.random() < .2:
            cur[t] = ps(t)
            made.append(cur[t])
    for n in h['nodes']:
        n = dict(n, ins=[(cur[t] if rng.random() < .8 else t) if t else '' for t in n['ins']])
        nodes.append(n)
        for t in n['outs']:
            if not t:
                continue
            made.append(t)
            cur[t] = t
            for _ in range(int(rng.integers(0, 3)) if rng.random() < .45 else 0):
                cur[t] = ps(cur[t])
                made.append(cur[t])
                if rng.random() < .15 and cur[t] not in outs:
                    outs.append(cur[t])
    h = dict(h, nodes=nodes, outs=outs)
    # some outputs are results of pass nodes
    for j, t in enumerate(list(h['outs'])):
        if rng.random() < .3 and cur.get(t, t) not in h['outs']:
            h['outs'][j] = cur.get(t, t)
    if rng.random() < .1:
        h['outs'].append(ps(str(rng.choice(h['ins']))))
    return h, passes


def simulate(state, outs, k, mon=None):
    """the node list after skipping k; None: k stays"""
    by = {n['name']: n for n in state}
    n = by[k]
    x, y = n['ins'][0], n['outs'][0]
    prod = {t for m in state for t in m['outs'] if t}
    if y in outs and (x not in prod or x in outs):
        return None
    if any(t in outs or any(t in m['ins'] for m in state) for t in n['outs'][1:] if t):
        if mon:
            mon.event('kept_for_other_results')
        return None
    a, b = (x, y) if y in outs else (y, x)
    new = []
    fan = 0
    for m in state:
        if m is n:
            continue
        fan += y in m['ins']
        new.append(dict(m, ins=[b if t == a else t for t in m['ins']], outs=[b if t == a else t for t in m['outs']]))
    if mon:
        mon.event('skipped')
        if y in outs:
            mon.event('output_skips')
        if fan > 1:
            mon.event('fan_out_skips')
    return new


def compare(state, outs, gin, g, what):
    have = {k: (n.op_type, list(n.input), list(n.output), node_attrs(n)) for k, n in g.nodemap.items()}
    want = {n['name']: (n['op'], n['ins'], n['outs'], n['akeys']) for n in state}
    if list(g.nodemap) != [n['name'] for n in state]:
        raise Wrong('nodes', f'nodes {list(g.nodemap)}, expected {[n["name"] for n in state]} after {what}')
    for k in have:
        if have[k] != want[k]:
            raise Wrong('edges', f'{k} is {have[k]}, expected {want[k]} after {what}')
    if list(g.output) != outs:
        raise Wrong('graph outputs', f'{g.output}, expected {outs} after {what}')
    if list(g.input) != gin:
        raise Wrong('graph inputs', f'{g.input}, were {gin} after {what}')
    d = hg.relation_diff(g)
    if d:
        raise Wrong('relations:' + d[0], f'{d[1]} after {what}')


def run(case, mon):
    import onnx_tool
    from onnx_tool.fusion import removeShapeOps
    kind, seed, i = case
    rng = rng_for('P32', seed, i)
    try:
        if kind == 'exec':
            return executable(rng, mon)
        h, passes = with_pass(rng, hg.host(rng, n=(3, 16)))
        m = hg.model(h)
        with quiet():
            g = onnx_tool.Model(m).graph
        state = [dict(n, akeys=attrs_of(n)) for n in h['nodes']]
        outs, gin = list(g.output), list(g.input)
        if outs != h['outs'] or not set(gin) <= set(h['ins']):
            raise Wrong('load', f'outputs {outs}, were {h["outs"]}; inputs {gin}')
        if kind == 'skip':
            todo = [str(x) for x in rng.permutation(passes)] if passes else []
            for k in todo[:int(rng.integers(1, len(todo) + 1)) if todo else 0]:
                with quiet():
                    g.skip_node(k)
                s = simulate(state, outs, k, mon)
                if s is None:
                    mon.event('kept_nodes')
                state = s if s is not None else state
                compare(state, outs, gin, g, f'skipping {k}')
        elif kind == 'shapeops':
            with quiet():
                r = removeShapeOps(g)
            if r is not g:
                raise Wrong('result', 'removeShapeOps returns another graph')
            for k in [n['name'] for n in state if n['op'] in SHAPE]:
                s = simulate(state, outs, k, mon)
                state = s if s is not None else state
            compare(state, outs, gin, g, 'removing shape operators')
        elif kind == 'remove':
            for _ in range(int(rng.integers(1, 4))):
                if not state:
                    break
                k = str(rng.choice([n['name'] for n in state]))
                rec = bool(rng.random() < .5)
                with quiet():
                    g.remove_node(k, recursive=rec)
                mon.event('removed')
                victim = next(n for n in state if n['name'] == k)
                state = [n for n in state if n['name'] != k]
                outs = [o for o in outs if o not in victim['outs']]
                # producers of the victim that nothing needs any more, transitively
                frontier = set(victim['ins']) - {''} if rec else set()
                while frontier:
                    read = {t for n in state for t in n['ins'] if t}
                    dead = [n for n in state if frontier & set(n['outs']) and not any(t in read or t in outs for t in n['outs'] if t)]
                    state = [n for n in state if n not in dead]
                    frontier = {t for n in dead for t in n['ins'] if t}
                compare(state, outs, gin, g, f'removing {k} (recursive={rec})')
        else:
            k = str(rng.choice([n['name'] for n in state]))
            with quiet():
                g.remove_subtree(k)
            mon.event('removed')
            gone = {k}
            while True:
                ts = {t for n in state if n['name'] in gone for t in n['outs'] if t}
                more = {n['name'] for n in state if ts & set(n['ins'])} - gone
                if not more:
                    break
                gone |= more
            outs = [o for o in outs if o not in ts]
            state = [n for n in state if n['name'] not in gone]
            compare(state, outs, gin, g, f'removing the subtree of {k}')
    except Wrong as e:
        mon.violation(e.key, e.msg + f' [{kind}]')
        return
    mon.distinct((kind, str(h)))
    mon.sample({'kind': kind, 'nodes': len(h['nodes']), 'left': len(state), 'outputs': outs})


def executable(rng, mon):
    """identities on random edges of a real model: skipping them changes no result"""
    import onnx_tool
    g0 = mg.generate(rng, assign=1, nodes=(3, 12))
    m = g0.model()
    gr = m.graph
    nodes, k, names, alias = [], 0, [], {}

    def ident(x):
        nonlocal k
        k += 1
        if rng.random() < .3:
            nodes.append(helper.make_node('Dropout', [x], [f'idt{k}'], name=f'skip{k}'))
        else:
            nodes.append(helper.make_node('Identity', [x], [f'idt{k}'], name=f'skip{k}'))
        names.append(f'skip{k}')
        return f'idt{k}'
    floats = {v.name for v in [*gr.input, *gr.value_info, *gr.output] if v.type.tensor_type.elem_type == TP.FLOAT}
    cur = {}
    for v in gr.input:
        if v.name in floats and rng.random() < .4:
            cur[v.name] = ident(v.name)
    outs = [o.name for o in gr.output]
    for n in list(gr.node):
        c = onnx.NodeProto()
        c.CopyFrom(n)
        if not any(a.HasField('g') for a in n.attribute):
            for j, t in enumerate(n.input):
                if t in cur and rng.random() < .8:
                    c.input[j] = cur[t]
        nodes.append(c)
        for t in n.output:
            if t in floats and rng.random() < .35:
                if t in outs and rng.random() < .5:
                    # the identity produces the graph output
                    c.output[list(c.output).index(t)] = t + '_pre'
                    nodes.append(helper.make_node('Identity', [t + '_pre'], [t], name=f'skip_{t}'))
                    names.append(f'skip_{t}')
                else:
                    cur[t] = ident(t)
                    if rng.random() < .3:
                        cur[t] = ident(cur[t])
    captured = set()
    for n in gr.node:
        for a in n.attribute:
            if a.HasField('g'):
                captured |= {t for q in a.g.node for t in q.input}
    del gr.node[:]
    gr.node.extend(nodes)
    feeds = g0.feeds(0)
    want = mg.execute(m, feeds)
    with quiet(), scratch() as d:
        tm = onnx_tool.Model(m)
        for s in [str(x) for x in rng.permutation(names)] if names else []:
            tm.graph.skip_node(s)
        left = [s for s in names if s in tm.graph.nodemap]
        f = os.path.join(d, 'o.onnx')
        tm.save_model(f)
        r = onnx.load(f)
    mon.event('skipped', len(names) - len(left))
    have = mg.execute(r, feeds)
    mon.event('executions_compared')
    for o in outs:
        if o not in have or not samerun(want[o], have[o]):
            raise Wrong('execution', f'output {o} differs after skipping {names}')
    prod = {t for n in r.graph.node for t in n.output}
    for s in left:
        n = next(q for q in r.graph.node if q.name == s)
        if n.output[0] in captured | set(outs):
            continue
        raise Wrong('not skipped', f'{s} is still there')
    if names:
        mon.distinct(('exec', tuple(q.op_type for q in gr.node)))
