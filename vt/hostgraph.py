"""Random structural graphs (operators nobody executes) for rewriting checks."""
import numpy as np
from onnx import helper, TensorProto as TP, numpy_helper

OPS = ['OpA', 'OpB', 'OpC', 'OpD', 'OpE']


def host(rng, n=(4, 26), outs=True, omit=True, captures=False):
    k = int(rng.integers(*n))
    ins = [f'in{i}' for i in range(int(rng.integers(1, 4)))]
    inits = {f'w{i}': rng.integers(-9, 9, int(rng.integers(1, 4))).astype(np.float32) for i in range(int(rng.integers(0, 4)))}
    avail = ins + list(inits)
    nodes = []
    local = rng.random() < .6
    nops = int(rng.integers(2, len(OPS) + 1))
    for i in range(k):
        m = int(rng.integers(1, 4))
        pool = avail[-6:] if local else avail
        x = [str(pool[int(rng.integers(len(pool)))]) for _ in range(m)]
        if rng.random() < .3:
            x[-1] = str(rng.choice(avail))
        if rng.random() < .1:
            x.append(x[0])
        if outs and rng.random() < .03:
            x = []
        if omit and len(x) > 1 and rng.random() < .1:
            x[int(rng.integers(1, len(x)))] = ''
        y = [f't{i}'] + ([f't{i}b'] if outs and rng.random() < .2 else []) + ([f't{i}c'] if outs and rng.random() < .07 else [])
        if outs and omit and len(y) > 1 and rng.random() < .2:
            y[1] = '' if len(y) == 3 else y[1]
        attrs = {}
        if rng.random() < .7:
            attrs['k'] = int(rng.integers(0, 5))
        if rng.random() < .5:
            attrs['r'] = float(rng.integers(-4, 5)) / 4
        if rng.random() < .5:
            attrs['v'] = [int(v) for v in rng.integers(0, 4, int(rng.integers(1, 4)))]
        if rng.random() < .15:
            attrs['s'] = str(rng.choice(['up', 'down']))
        if rng.random() < .1:
            attrs['t'] = numpy_helper.from_array(rng.integers(-9, 9, (2, 2)).astype(np.float32), 'val')
        if rng.random() < .08:
            attrs['fs'] = [.5, 1.25]
        if rng.random() < .06:
            attrs[str(rng.choice(['name', 'input', 'output', 'op_type', 'attr', 'domain']))] = int(rng.integers(0, 3))
        nodes.append(dict(name=f'n{i}', op=OPS[int(rng.integers(nops))], ins=x, outs=y, attrs=attrs))
        avail += [t for t in y if t]
    made = [t for n in nodes for t in n['outs'] if t]
    used = {t for n in nodes for t in n['ins']}
    out = [t for t in made if t not in used and rng.random() < .85]
    out += [str(t) for t in made if t in used and rng.random() < .06]
    if not out:
        out = [made[-1]]
    if outs and rng.random() < .06:
        out.append(str(rng.choice(ins)))
    if outs and inits and rng.random() < .06:
        out.append(str(rng.choice(sorted(inits))))
    out = list(dict.fromkeys(out))
    if rng.random() < .3:
        rng.shuffle(out)
    out = [str(t) for t in out]
    return dict(nodes=nodes, ins=ins, inits=inits, outs=out)


def model(h, shuffle=None):
    nodes = []
    for n in h['nodes']:
        nodes.append(helper.make_node(n['op'], n['ins'], n['outs'], name=n['name'], domain=n.get('domain', 'test.ops')))
        nodes[-1].attribute.extend(helper.make_attribute(k, n['attrs'][k]) for k in sorted(n['attrs']) if n['attrs'][k] is not None)
    if shuffle is not None:
        nodes = [nodes[int(p)] for p in shuffle.permutation(len(nodes))]
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info(x, TP.FLOAT, [2]) for x in h['ins']],
                          [helper.make_tensor_value_info(x, TP.FLOAT, None) for x in h['outs']],
                          [numpy_helper.from_array(a, n) for n, a in h['inits'].items()])
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 18), helper.make_opsetid('test.ops', 1)])


def relations(nodes):
    prod, cons = {}, {}
    for name, ins, outs in nodes:
        for t in ins:
            if t:
                cons.setdefault(t, set()).add(name)
        for t in outs:
            if t:
                prod.setdefault(t, set()).add(name)
    return prod, cons


def relation_diff(g):
    """difference between the maps a graph keeps and its node list"""
    prod, cons = relations([(k, n.input, n.output) for k, n in g.nodemap.items()])
    for lab, want, have in (('producedby', prod, g.producedby), ('consumedby', cons, g.consumedby)):
        have = {t: set(v) for t, v in have.items() if v}
        for t in sorted(set(want) | set(have)):
            if want.get(t, set()) != have.get(t, set()):
                return lab, f'{lab}[{t}] is {sorted(have.get(t, set()))}, the node list says {sorted(want.get(t, set()))}'
    for k, n in g.nodemap.items():
        if n.name != k:
            return 'name', f'node {n.name} is listed as {k}'
    return None


def convex(rng, h, names=None):
    """a random convex group of nodes"""
    nodes = {n['name']: n for n in h['nodes']}
    prod = {t: n['name'] for n in h['nodes'] for t in n['outs'] if t}
    succ = {k: set() for k in nodes}
    for n in h['nodes']:
        for t in n['ins']:
            if t in prod:
                succ[prod[t]].add(n['name'])
    pred = {k: {a for a in succ if k in succ[a]} for k in succ}

    def reach(s, rel):
        seen, todo = set(), list(s)
        while todo:
            for v in rel[todo.pop()]:
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen
    seed = str(rng.choice(sorted(nodes)))
    group = {seed}
    for _ in range(int(rng.integers(0, 5))):
        near = sorted({v for g in group for v in succ[g] | pred[g]} - group)
        if not near:
            break
        group.add(str(rng.choice(near)))
        group |= reach(group, succ) & reach(group, pred)
    return [n['name'] for n in h['nodes'] if n['name'] in group]
