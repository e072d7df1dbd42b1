"""P17: replacing a group of nodes by one fused node leaves the rest of the graph as it was."""
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper
from vt import hostgraph as hg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.checks import patterns
from vt.checks.reorder import valid_order

PROP = 'P17'
RULE = ('random host graphs, sequences of one to four fusions of random convex groups (one node to seven; groups holding graph outputs, several outputs, repeated and omitted '
        'operands) through fuse_subgraph_node_names, fuse_postop_node_names, fuse_subgraph_iotensors, pattern search and model_opfusion; the graph is compared with a '
        'model of the rewriting after every step, and the reordered, saved file is read back. Non-trivial when a group of two nodes or more was replaced')
MIN_EVENTS = {'fusions': 1500, 'groups_with_graph_outputs': 200, 'files_read_back': 300, 'attributes_compared': 1000, 'postop_fusions': 300, 'files_by_tensors': 200, 'taken_names': 100}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['a tensor of the group that nothing reads may or may not stay an output of the fused node']


def cases(tier, seed):
    n = 15000 if tier == 'quick' else 400000
    for i in range(n):
        yield (['nodes', 'nodes', 'post', 'io', 'pattern', 'api', 'mixed'][i % 7], seed, i)


def attrs_of(n):
    return {k: mc.attr_key(helper.make_attribute(k, v)) for k, v in n['attrs'].items()}


def node_attrs(n):
    return {a.name: mc.attr_key(a) for a in n.make_nodeproto().attribute}


class Wrong(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def cut(nodes, outs, group):
    """external inputs, needed outputs, unread outputs of a group"""
    inner = {t for n in nodes if n['name'] in group for t in n['outs'] if t}
    ext = {t for n in nodes if n['name'] in group for t in n['ins'] if t} - inner
    read = {t for n in nodes if n['name'] not in group for t in n['ins'] if t} | set(outs)
    inread = {t for n in nodes if n['name'] in group for t in n['ins'] if t}
    return ext, inner & read, inner - read - inread


def step(state, outs, gin, group, op, name, g, mon, post=None, attr_prefix=True):
    """check one replacement; returns the new state"""
    nodes = state
    by = {n['name']: n for n in nodes}
    ext, need, free = cut(nodes, outs, set(group))
    mon.event('fusions')
    if need & set(outs):
        mon.event('groups_with_graph_outputs')
    want = [n['name'] for n in nodes if n['name'] not in group] + [name]
    if sorted(g.nodemap) != sorted(want):
        raise Wrong('nodes', f'after fusing {group} as {name} the nodes are {sorted(g.nodemap)}')
    f = g.nodemap[name]
    if f.op_type != op:
        raise Wrong('operator', f'{group} became {f.op_type}, not {op}')
    if {t for t in f.input if t} != ext:
        raise Wrong('inputs', f'fused {group} reads {f.input}, the group reads {sorted(ext)}')
    fo = [t for t in f.output if t]
    if len(set(fo)) != len(fo) or not need <= set(fo) or not set(fo) <= need | free:
        raise Wrong('outputs', f'fused {group} produces {f.output}; used outside are {sorted(need)}, unread {sorted(free)}')
    if list(g.output) != list(outs):
        raise Wrong('graph outputs', f'graph outputs {g.output}, were {outs} (fusing {group})')
    if list(g.input) != list(gin):
        raise Wrong('graph inputs', f'graph inputs {g.input}, were {gin}')
    new = []
    for n in nodes:
        if n['name'] in group:
            continue
        h = g.nodemap[n['name']]
        if (h.op_type, list(h.input), list(h.output)) != (n['op'], n['ins'], n['outs']) or node_attrs(h) != n['akeys']:
            raise Wrong('other node', f'{n} became {h.op_type} {h.input} {h.output} {h.attr} (fusing {group})')
        new.append(n)
    d = hg.relation_diff(g)
    if d:
        raise Wrong('relations:' + d[0], f'{d[1]} after fusing {group}')
    new.append(dict(name=name, op=op, ins=list(f.input), outs=list(f.output), akeys=node_attrs(f)))
    return new


def run(case, mon):
    import onnx_tool
    from onnx_tool import fusion
    kind, seed, i = case
    rng = rng_for('P17', seed, i)
    h = hg.host(rng)
    m = hg.model(h)
    try:
        if kind == 'api':
            return api(rng, h, m, mon)
        with quiet():
            g = onnx_tool.Model(m).graph
        state = [dict(n, akeys=attrs_of(n)) for n in h['nodes']]
        outs, gin = list(g.output), list(g.input)
        if outs != h['outs'] or not set(gin) <= set(h['ins']):
            raise Wrong('load', f'loaded inputs {gin} outputs {outs}')
        big = 0
        for s in range(int(rng.integers(1, 5))):
            k = kind if kind != 'mixed' else str(rng.choice(['nodes', 'post', 'pattern']))
            cur = dict(h, nodes=[dict(n, attrs={}) for n in state])
            if len(state) < 2:
                break
            if k in ('nodes', 'post'):
                group = hg.convex(rng, cur)
                big = max(big, len(group))
                if k == 'nodes':
                    state = fuse_names(rng, g, state, outs, gin, group, f'f{s}' if rng.random() < .5 else group[int(rng.integers(len(group)))], mon)
                else:
                    group = [group[0]] + [str(x) for x in rng.permutation(group[1:])]
                    state = fuse_post(rng, g, state, outs, gin, group, mon)
            elif k == 'pattern':
                pat = fusion.createSerialPattern([str(x) for x in rng.choice(hg.OPS, int(rng.integers(2, 4)))])
                if rng.random() < .5:
                    pat = fusion.FusionPattern([dict(name='x', op='Any', attrs=[], inport=[], outport=[[0, 'y', 0]]),
                                                dict(name='y', op=[str(x) for x in rng.choice(hg.OPS, 2)], attrs=[], inport=[[0, 'x', 0]], outport=[])], bool(rng.random() < .5))
                with quiet():
                    groups = pat.search_pattern(g)
                for x, group in enumerate(groups):
                    if not convex_group(state, group):
                        mon.event('groups_not_convex')
                        continue
                    big = max(big, len(group))
                    if rng.random() < .5:
                        state = fuse_names(rng, g, state, outs, gin, group, group[0], mon)
                    else:
                        state = fuse_post(rng, g, state, outs, gin, group, mon)
            elif k == 'io':
                state, b = fuse_io(rng, g, dict(h, nodes=state), state, outs, gin, mon, s)
                big = max(big, b)
                if not convex_all(state):
                    break
        read_back(h, g, state, outs, gin, mon)
    except Wrong as e:
        mon.violation(e.key, e.msg + f' [{kind}]')
        return
    if big > 1:
        mon.distinct((kind, str(h), i))
        mon.sample({'kind': kind, 'nodes_before': len(h['nodes']), 'nodes_after': len(state), 'fused': [n['name'] for n in state if n['op'] == 'Fused']})


def convex_group(state, group):
    prod = {t: n['name'] for n in state for t in n['outs'] if t}
    pred = {n['name']: {prod[t] for t in n['ins'] if t in prod} for n in state}
    group = set(group)
    # is there a way from the group through others back into it?
    below, todo = set(), [n for n in pred if n not in group and pred[n] & group]
    while todo:
        v = todo.pop()
        if v in below:
            continue
        below.add(v)
        todo += [n for n in pred if n not in group and v in pred[n]]
    return not any(pred[n] & below for n in group)


def fuse_names(rng, g, state, outs, gin, group, name, mon):
    by = {n['name']: n for n in state}
    keep = bool(rng.random() < .6)
    order = [str(x) for x in rng.permutation(group)]
    left = [n['name'] for n in state if n['name'] not in group]
    if left and rng.random() < .1:       # a name which another node has
        name = left[int(rng.integers(len(left)))]
        mon.event('taken_names')
    with quiet():
        g.fuse_subgraph_node_names(list(order), 'Fused', name, keep)
    if name in left:
        new = [k for k in g.nodemap if k not in left]
        if len(new) != 1:
            raise Wrong('taken name', f'fusing {group} as {name}, which another node is called, leaves {sorted(g.nodemap)}')
        name = new[0]
    new = step(state, outs, gin, group, 'Fused', name, g, mon)
    have = new[-1]['akeys']
    want = {}
    if keep:
        for c, k in enumerate(order):
            for a, v in by[k]['akeys'].items():
                want[f'{by[k]["op"]}{c}_{a}'] = v
    mon.event('attributes_compared', len(want))
    if have != want:
        raise Wrong('attributes', f'fused {order} (keep_attr={keep}) has {have}, expected {want}')
    return new


def fuse_post(rng, g, state, outs, gin, group, mon):
    by = {n['name']: n for n in state}
    app = bool(rng.random() < .7)
    extra = {'extra_key': int(rng.integers(9))} if rng.random() < .3 else {}
    main = by[group[0]]
    with quiet():
        g.fuse_postop_node_names(list(group), app, **extra)
    mon.event('postop_fusions')
    new = step(state, outs, gin, group, main['op'], main['name'], g, mon)
    f = g.nodemap[main['name']]
    inner = {t for k in group for t in by[k]['outs'] if t}
    if not set(main['ins']) & inner and list(f.input[:len(main['ins'])]) != list(main['ins']):
        raise Wrong('operand positions', f'{main} fused with {group[1:]} reads {f.input}')
    want = dict(main['akeys'])
    count = want.pop('postop_count', ('i', 0))[1]
    for k, v in extra.items():
        want[k] = ('i', v)
    if app:
        for k in group[1:]:
            want[f'postop_{count}'] = ('s', by[k]['op'].encode())
            for a, v in by[k]['akeys'].items():
                want[f'postop_{count}_{a}'] = v
            count += 1
    want['postop_count'] = ('i', count)
    mon.event('attributes_compared', len(want))
    if new[-1]['akeys'] != want:
        raise Wrong('postop attributes', f'{group} gives {new[-1]["akeys"]}, expected {want}')
    return new


def between(h, ins, outs):
    """nodes reachable from ins but not from outs"""
    def reach(ts):
        seen, todo = set(), list(ts)
        while todo:
            t = todo.pop()
            for n in h['nodes']:
                if t in n['ins'] and n['name'] not in seen:
                    seen.add(n['name'])
                    todo += [o for o in n['outs'] if o]
        return seen
    return reach(ins) - reach(outs)


def fuse_io(rng, g, h, state, outs, gin, mon, s):
    """the part between two sets of tensors, and every other instance of it"""
    group = None
    for _ in range(12):
        made = [t for n in h['nodes'] for t in n['outs'] if t]
        a, b = [str(rng.choice(h['ins'] + made))], [str(rng.choice(made))]
        group = between(h, a, b)
        if 2 <= len(group) <= 6 and convex_group(state, group):
            break
        group = None
    if not group:
        return state, 0
    prefix = 'fx' if rng.random() < .6 else None
    before = set(g.nodemap)
    earlier = {k: (list(n.input), list(n.output)) for k, n in g.nodemap.items() if n.op_type == 'Fused'}
    with quiet():
        g.fuse_subgraph_iotensors(a, b, 'Fused', prefix, bool(rng.random() < .5))
    fused = [k for k, n in g.nodemap.items() if n.op_type == 'Fused' and earlier.get(k) != (list(n.input), list(n.output))]
    if not fused:
        if connected(state, group):
            raise Wrong('iotensors', f'the part {sorted(group)} between {a} and {b} was not fused')
        return state, 0
    gone = before - set(g.nodemap) | {k for k in fused if k in before}
    if connected(state, group) and not gone & group:
        raise Wrong('iotensors', f'the part {sorted(group)} between {a} and {b} was left alone')
    if len(gone) != len(fused) * len(group):
        raise Wrong('iotensors count', f'{len(fused)} groups of {len(group)} nodes, {len(gone)} nodes are gone')
    if not any(k.startswith('fx') for k in before) and sorted(fused) != sorted(fused if prefix is None else [f'{prefix}_{x}' for x in range(len(fused))]):
        raise Wrong('iotensors names', f'{fused} for prefix {prefix}')
    if list(g.output) != outs or list(g.input) != gin:
        raise Wrong('graph outputs', f'{g.input} {g.output}, were {gin} {outs}')
    if convex_all(state) and not convex_all([dict(name=k, ins=list(n.input), outs=list(n.output)) for k, n in g.nodemap.items()]):
        raise Wrong('iotensors cycle', f'fusing from {a} to {b} made nodes depend on their own results')
    d = hg.relation_diff(g)
    if d:
        raise Wrong('relations:' + d[0], d[1])
    if len(fused) == 1:
        new = step(state, outs, gin, gone, 'Fused', fused[0], g, mon)
        return new, len(group)
    made = {t for n in g.nodemap.values() for t in n.output if t}
    for n in state:
        if n['name'] in gone:
            continue
        f = g.nodemap.get(n['name'])
        if f is None or list(f.input) != n['ins'] or list(f.output) != n['outs']:
            raise Wrong('other node', f'{n} after fusing by tensors')
        for t in n['ins']:
            if t and t not in made and t not in gin and t not in h['inits']:
                raise Wrong('other node', f'{t} is produced by nothing after fusing by tensors')
    mon.event('fusions', len(fused))
    return [dict(name=k, op=n.op_type, ins=list(n.input), outs=list(n.output), akeys=node_attrs(n)) for k, n in g.nodemap.items()], len(group)


def connected(state, group):
    ns = [n for n in state if n['name'] in group]
    seen = {ns[0]['name']}
    while True:
        more = {b['name'] for a in ns if a['name'] in seen for b in ns if b['name'] not in seen
                and ({t for t in a['outs'] if t} & set(b['ins']) or {t for t in b['outs'] if t} & set(a['ins']))}
        if not more:
            return len(seen) == len(ns)
        seen |= more


def read_back(h, g, state, outs, gin, mon):
    """order, save, and read with onnx alone"""
    def acyclic():
        return convex_all(state)
    if not acyclic():
        mon.event('not_acyclic')
        return
    with quiet(), scratch() as d:
        g.graph_reorder_nodes()
        f = os.path.join(d, 'f.onnx')
        g.save_model(f, rawmodel=hg.model(h))
        r = onnx.load(f)
    mon.event('files_read_back')
    bad = valid_order(r.graph.node, set(h['ins']) | set(h['inits']))
    if bad:
        raise Wrong('file order', f'{bad} in the saved file')
    have = {n.name: (n.op_type, list(n.input), list(n.output), {a.name: mc.attr_key(a) for a in n.attribute}) for n in r.graph.node}
    want = {n['name']: (n['op'], list(n['ins']), list(n['outs']), n['akeys']) for n in state}

    def strip(v):
        o, i, u, a = v
        while i and i[-1] == '':
            i = i[:-1]
        while u and u[-1] == '':
            u = u[:-1]
        return o, i, u, a
    for k in sorted(set(have) | set(want)):
        if k not in have or k not in want or strip(have[k]) != strip(want[k]):
            raise Wrong('file nodes', f'node {k}: saved {have.get(k)}, fused graph {want.get(k)}')
    if [o.name for o in r.graph.output] != outs or [x.name for x in r.graph.input if x.name not in h['inits']] != gin:
        raise Wrong('file interface', f'inputs {[x.name for x in r.graph.input]}, outputs {[o.name for o in r.graph.output]}')
    inits = {t.name: numpy_helper.to_array(t) for t in r.graph.initializer}
    for n in state:
        for t in n['ins']:
            if t in h['inits'] and (t not in inits or not np.array_equal(inits[t], h['inits'][t])):
                raise Wrong('file weights', f'weight {t} of {n["name"]}: {inits.get(t)}, was {h["inits"][t]}')


def convex_all(state):
    prod = {t: n['name'] for n in state for t in n['outs'] if t}
    pred = {n['name']: {prod[t] for t in n['ins'] if t in prod} for n in state}
    while True:
        rm = [k for k, p in pred.items() if not p & set(pred)]
        if not rm:
            return not pred
        for k in rm:
            del pred[k]


def api_io(rng, h, m, mon):
    """model_opfusion by tensors gives the file which fusing the graph by tensors (judged by fuse_io) gives"""
    import onnx_tool
    state = [dict(n, akeys=attrs_of(n)) for n in h['nodes']]
    made = [t for n in h['nodes'] for t in n['outs'] if t]
    for _ in range(12):
        a, b = [str(rng.choice(h['ins'] + made))], [str(rng.choice(made))]
        group = between(h, a, b)
        if 2 <= len(group) <= 6 and convex_group(state, group) and connected(state, group):
            break
    else:
        return
    keep = bool(rng.random() < .5)
    with quiet(), scratch() as d:
        g = onnx_tool.Model(m).graph
        g.fuse_subgraph_iotensors(inputs=a, outputs=b, nodeop='Fused', name_prefix='fp', keep_attr=keep)
        if not [n for n in g.nodemap.values() if n.op_type == 'Fused']:
            return
        if not convex_all([dict(name=k, ins=list(n.input), outs=list(n.output)) for k, n in g.nodemap.items()]):
            raise Wrong('api cycle', f'fusing from {a} to {b} made nodes depend on their own results')
        g.graph_reorder_nodes()
        g.save_model(os.path.join(d, 'g.onnx'), rawmodel=m)
        f = os.path.join(d, 'f.onnx')
        onnx_tool.model_opfusion(m, 'Fused', 'fp', f, in_tensor_names=a, out_tensor_names=b, keep_attr=keep)
        want, got = onnx.load(os.path.join(d, 'g.onnx')), onnx.load(f)
    mon.event('files_by_tensors')
    bad = valid_order(got.graph.node, set(h['ins']) | set(h['inits']))
    if bad:
        raise Wrong('api order', str(bad))
    have, need = ({n.name: n for n in x.graph.node} for x in (got, want))
    if sorted(have) != sorted(need):
        raise Wrong('api nodes', f'{sorted(have)} after fusing from {a} to {b}, expected {sorted(need)}')
    for k in need:
        df = mc.node_diff(need[k], have[k])
        if df:
            raise Wrong('api nodes', str(df))
    if [o.name for o in got.graph.output] != h['outs']:
        raise Wrong('api outputs', f'{[o.name for o in got.graph.output]}, were {h["outs"]}')


def api(rng, h, m, mon):
    import onnx_tool
    api_io(rng, h, m, mon)
    group = hg.convex(rng, h)
    state = [dict(n, akeys=attrs_of(n)) for n in h['nodes']]
    keep = bool(rng.random() < .5)
    raw = m.SerializeToString()
    with quiet(), scratch() as d:
        f, src = os.path.join(d, 'f.onnx'), os.path.join(d, 'm.onnx')
        onnx.save(m, src)
        onnx_tool.model_opfusion(src if rng.random() < .5 else m, 'Fused', 'fused_0', f, nodenames=list(group), keep_attr=keep)
        r = onnx.load(f)
    if m.SerializeToString() != raw:
        raise Wrong('caller', 'model_opfusion changed its argument')
    mon.event('fusions')
    mon.event('files_read_back')
    ext, need, free = cut(state, h['outs'], set(group))
    have = {n.name: n for n in r.graph.node}
    if sorted(have) != sorted([n['name'] for n in state if n['name'] not in group] + ['fused_0']):
        raise Wrong('api nodes', f'{sorted(have)} after fusing {group}')
    f = have['fused_0']
    if set(f.input) - {''} != ext or not need <= set(f.output) or not set(f.output) - {''} <= need | free:
        raise Wrong('api edges', f'{group}: {f.input} -> {f.output}, needed {ext} -> {need}')
    made = {n.name: n for n in m.graph.node}
    for n in h['nodes']:
        if n['name'] not in group:
            df = mc.node_diff(made[n['name']], have[n['name']])
            if df:
                raise Wrong('api other node', str(df))
    bad = valid_order(r.graph.node, set(h['ins']) | set(h['inits']))
    if bad:
        raise Wrong('api order', str(bad))
    if [o.name for o in r.graph.output] != h['outs']:
        raise Wrong('api outputs', f'{[o.name for o in r.graph.output]}, were {h["outs"]}')
    if len(f.attribute) != (sum(len(n['attrs']) for n in state if n['name'] in group) if keep else 0):
        raise Wrong('api attributes', f'{len(f.attribute)} attributes (keep_attr={keep})')
    if len(group) > 1:
        mon.distinct(('api', str(h)))
