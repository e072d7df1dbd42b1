"""P16: fusion patterns match exactly the declared node groups."""
import numpy as np
from onnx import helper, TensorProto as TP, numpy_helper
from vt import hostgraph as hg
from vt.core import rng_for, quiet

PROP = 'P16'
RULE = ('random host graphs (fan-out, repeated and omitted operands, several outputs) and random connected patterns: taken from a part of the host and altered '
        '(operator, attribute bound, position), or free; links declared on one or both sides, by position or open (-1); with and without in-place fusion; the shipped patterns with '
        'their instances embedded in noise; create_descs_from_nodenames and createSerialPattern. Non-trivial when the pattern has two nodes or more and the host has an instance')
MIN_EVENTS = {'groups_judged': 1500, 'hosts_without_instance': 300, 'shipped_instances': 200, 'attribute_conditions': 500, 'inplace_searches': 200}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['patterns are connected', 'instances are enumerated by a backtracking matcher written from the documentation of patterns (data/GraphFusion.md)']


def cases(tier, seed):
    n = 30000 if tier == 'quick' else 400000
    for i in range(n):
        yield ('shipped' if i % 6 == 5 else 'descs' if i % 6 == 4 else 'random', seed, i)


def holds(attrs, cond):
    name, op = cond[0], cond[1]
    if name not in attrs:
        return False
    v = attrs[name]
    if len(cond) == 4:
        if cond[2] >= len(v):
            return False
        v, num = v[cond[2]], cond[3]
    else:
        num = cond[2]
    return {'<=': v <= num, '<': v < num, '>=': v >= num, '>': v > num, '==': v == num}[op]


class Oracle:
    """instances of a pattern, by definition"""
    def __init__(self, h, descs, inplace):
        self.nodes = {n['name']: n for n in h['nodes']}
        self.outs = set(h['outs'])
        self.descs = descs
        self.inplace = inplace
        self.links = []
        for d in descs:
            for p, o, q in d['outport']:
                self.links.append((d['name'], p, o, q))
            for p, o, q in d['inport']:
                self.links.append((o, q, d['name'], p))
        self.readers = {}
        for n in h['nodes']:
            for t in n['ins']:
                self.readers.setdefault(t, []).append(n['name'])

    def is_node(self, d, n):
        ops = d['op'] if isinstance(d['op'], list) else [d['op']]
        return (d['op'] == 'Any' or n['op'] in ops) and all(holds(n['attrs'], c) for c in d['attrs'])

    def linked(self, link, a, b):
        _, p, _, q = link
        a, b = self.nodes[a], self.nodes[b]
        for i, t in enumerate(a['outs']):
            if t and p in (-1, i) and any(t == u and q in (-1, j) for j, u in enumerate(b['ins'])):
                if not self.inplace or (len(self.readers[t]) == 1 and t not in self.outs):
                    return True
        return False

    def wrong(self, group):
        """why a reported group is not an instance"""
        if len(group) != len(self.descs):
            return f'{len(group)} nodes for {len(self.descs)} descriptions'
        if len(set(group)) != len(group):
            return 'a node appears twice'
        m = {}
        for d, name in zip(self.descs, group):
            if name not in self.nodes:
                return f'{name} is no node'
            n = self.nodes[name]
            if not self.is_node(d, n):
                return f'{name} ({n["op"]}, {n["attrs"]}) is not {d["op"]} with {d["attrs"]}'
            m[d['name']] = name
        for link in self.links:
            if not self.linked(link, m[link[0]], m[link[2]]):
                return f'link {link} does not hold for {m[link[0]]}, {m[link[2]]}'
        return None

    def instance(self, banned=(), budget=20000):
        """an instance avoiding the banned nodes, or None"""
        keys = [d['name'] for d in self.descs]
        order, rest = [keys[0]], keys[1:]
        while rest:
            k = next((k for k in rest if any({l[0], l[2]} == {k, p} for l in self.links for p in order)), rest[0])
            order.append(k)
            rest.remove(k)
        by = {d['name']: d for d in self.descs}
        steps = [0]

        def go(m):
            if len(m) == len(order):
                return dict(m)
            k = order[len(m)]
            for name, n in self.nodes.items():
                steps[0] += 1
                if steps[0] > budget:
                    return None
                if name in banned or name in m.values() or not self.is_node(by[k], n):
                    continue
                m[k] = name
                if all(self.linked(l, m[l[0]], m[l[2]]) for l in self.links if k in (l[0], l[2]) and l[0] in m and l[2] in m):
                    r = go(m)
                    if r:
                        return r
                del m[k]
            return None
        return go({})


MEMBERS = ['name', 'input', 'output', 'op_type', 'attr', 'domain']


def near_pattern(rng, h):
    """a pattern describing some part of the host, possibly altered"""
    nodes = {n['name']: n for n in h['nodes']}
    names = hg.convex(rng, h) if rng.random() < .7 else None
    if names is None:       # any connected part
        names = [str(rng.choice(sorted(nodes)))]
        for _ in range(int(rng.integers(1, 5))):
            ts = {t for k in names for t in nodes[k]['ins'] + nodes[k]['outs'] if t} - set(h['inits']) - set(h['ins'])
            near = sorted({k for k, n in nodes.items() if ts & set(n['ins'] + n['outs'])} - set(names))
            if not near:
                break
            names.append(str(rng.choice(near)))
    names = names[:6]
    rng.shuffle(names)
    names = [str(x) for x in names]
    edges = [(a, i, b, j) for a in names for b in names for i, t in enumerate(nodes[a]['outs']) if t for j, u in enumerate(nodes[b]['ins']) if t == u]
    descs = {k: dict(name=f'd{x}', op=nodes[k]['op'], attrs=[], inport=[], outport=[]) for x, k in enumerate(names)}
    keep = []
    # a spanning set of links, plus some of the others
    placed = {names[0]}
    while True:
        nxt = [e for e in edges if (e[0] in placed) != (e[2] in placed)]
        if not nxt:
            break
        e = nxt[int(rng.integers(len(nxt)))]
        keep.append(e)
        placed |= {e[0], e[2]}
    descs = {k: d for k, d in descs.items() if k in placed}
    p_all = rng.random()
    for e in edges:
        if e not in keep and e[0] in placed and e[2] in placed and rng.random() < p_all:
            keep.append(e)
    wild = rng.random() < .25
    both = rng.random() < .7
    for a, i, b, j in keep:
        if wild:
            i, j = (-1 if rng.random() < .6 else i), (-1 if rng.random() < .6 else j)
        if both or rng.random() < .5:
            descs[a]['outport'].append([i, descs[b]['name'], j])
            if both:
                descs[b]['inport'].append([j, descs[a]['name'], i])
        else:
            descs[b]['inport'].append([j, descs[a]['name'], i])
    blank = [(a, i, b, j) for a in placed for b in placed if a != b for i, t in enumerate(nodes[a]['outs']) if not t for j, u in enumerate(nodes[b]['ins']) if not u]
    if blank and rng.random() < .3:     # an omitted result and an omitted operand are no tensor
        a, i, b, j = sorted(blank)[int(rng.integers(len(blank)))]
        descs[a]['outport'].append([i, descs[b]['name'], j])
    for k, d in descs.items():
        if rng.random() < .4:
            at = nodes[k]['attrs']
            other = [q for q in at if q in MEMBERS or q in ('s', 'fs')]
            name = str(rng.choice(['k', 'r', 'v'] + sorted(other)))
            if name in MEMBERS or name == 's':
                # other values than the attribute's: other nodes
                d['attrs'].append([name, '==', at[name] if rng.random() < .8 else {'up': 'down', 'down': 'up'}[at[name]] if name == 's' else at[name] + 1])
            elif name == 'fs':
                x = int(rng.integers(0, 3))
                d['attrs'].append([name, str(rng.choice(['<=', '<', '>=', '>', '=='])), x, [.5, 1.25, 1.][x]])
            elif name == 'v' and 'v' in at:
                x = int(rng.integers(0, 3))
                d['attrs'].append(['v', str(rng.choice(['<=', '<', '>=', '>', '=='])), x, at['v'][x] if x < len(at['v']) and rng.random() < .7 else int(rng.integers(0, 4))])
            elif name in at:
                d['attrs'].append([name, str(rng.choice(['<=', '<', '>=', '>', '=='])), at[name] + (0 if rng.random() < .6 else int(rng.integers(-1, 2)))])
            else:
                d['attrs'].append([name, '<=' if name != 'v' else '>=', 2] if name != 'v' else ['v', '>=', 1, 1])
    descs = list(descs.values())
    # relax or spoil one thing
    r = rng.random()
    d = descs[int(rng.integers(len(descs)))]
    if r < .15:
        d['op'] = 'Any'
    elif r < .35:
        d['op'] = [d['op'], str(rng.choice(hg.OPS))]
    elif r < .45:
        d['op'] = str(rng.choice(hg.OPS))
    elif r < .55:
        for e in d['inport'] + d['outport']:
            if rng.random() < .5 and e[0] >= 0:
                e[0] = int(rng.integers(0, 3))
    return descs


def pattern_of(descs, inplace):
    from onnx_tool.fusion import FusionPattern
    import copy
    return FusionPattern(copy.deepcopy(descs), inplace)


def judge(h, descs, inplace, groups, mon, key, what=''):
    o = Oracle(h, descs, inplace)
    seen = {}
    for gr in groups:
        mon.event('groups_judged')
        w = o.wrong(gr)
        if w:
            mon.violation(key + ':wrong', f'{what}{gr} is reported for {descs}: {w}')
            return None
        for n in gr:
            if n in seen:
                mon.violation(key + ':overlap', f'{what}{n} belongs to {seen[n]} and {gr}')
                return None
            seen[n] = gr
    miss = o.instance(banned=seen)
    if miss:
        mon.violation(key + ':missed', f'{what}instance {miss} of {descs} shares no node with the reported groups {groups}')
        return None
    return o


def run(case, mon):
    import onnx_tool
    from onnx_tool import fusion
    kind, seed, i = case
    rng = rng_for('P16', seed, i)
    if kind == 'shipped':
        return shipped(rng, mon)
    h = hg.host(rng)
    m = hg.model(h, rng if rng.random() < .2 else None)
    with quiet():
        g = onnx_tool.Model(m).graph
    before = {k: (n.op_type, list(n.input), list(n.output)) for k, n in g.nodemap.items()}
    inplace = bool(rng.random() < .15)
    if kind == 'descs':
        if rng.random() < .5:
            names = hg.convex(rng, h)
            rng.shuffle(names)
            names = [str(x) for x in names]
            with quiet():
                descs = fusion.create_descs_from_nodenames(g, names)
            nodes = {n['name']: n for n in h['nodes']}
            edges = sorted((a, i, b, j) for a in names for b in names for i, t in enumerate(nodes[a]['outs']) if t for j, u in enumerate(nodes[b]['ins']) if t == u)
            if [(d['name'], d['op']) for d in descs] != [(k, nodes[k]['op']) for k in names]:
                mon.violation('descs:nodes', f'{descs} describes {names}')
                return
            for lab, have in (('outport', sorted((d['name'], p, o, q) for d in descs for p, o, q in d['outport'])),
                              ('inport', sorted((o, q, d['name'], p) for d in descs for p, o, q in d['inport']))):
                if have != edges:
                    mon.violation('descs:' + lab, f'{names}: {have} for the links {edges}')
                    return
        else:
            ops = [str(rng.choice(hg.OPS)) for _ in range(int(rng.integers(2, 5)))]
            if rng.random() < .6:        # a chain of the host
                nodes = {n['name']: n for n in h['nodes']}
                cur = nodes[str(rng.choice(sorted(nodes)))]
                ops = [cur['op']]
                while len(ops) < 4:
                    nx = [n for n in h['nodes'] if set(n['ins']) & {t for t in cur['outs'] if t}]
                    if not nx:
                        break
                    cur = nx[int(rng.integers(len(nx)))]
                    ops.append(cur['op'])
            with quiet():
                p = fusion.createSerialPattern(ops)
                groups = p.search_pattern(g)
            descs = [dict(name=str(k), op=op, attrs=[], inport=[[-1, str(k - 1), -1]] if k else [], outport=[[-1, str(k + 1), -1]] if k + 1 < len(ops) else [])
                     for k, op in enumerate(ops)]
            if judge(h, descs, False, groups, mon, 'serial') and groups:
                mon.distinct(('serial', tuple(ops), str(h)))
            return
    else:
        descs = near_pattern(rng, h)
    if len({frozenset((d['name'], o)) for d in descs for _, o, _ in d['inport'] + d['outport']}) < len(descs) - 1:
        mon.inconclusive('disconnected')
        return
    with quiet():
        p = pattern_of(descs, inplace)
        groups = p.search_pattern(g)
        again = p.search_pattern(g)
    if groups != again:
        mon.violation('again', f'a second search gives {again} after {groups}')
    if {k: (n.op_type, list(n.input), list(n.output)) for k, n in g.nodemap.items()} != before:
        mon.violation('changed', 'searching changed the graph')
    mon.event('conditions_on_member_names', sum(a[0] in MEMBERS for d in descs for a in d['attrs']))
    mon.event('conditions_on_strings', sum(a[0] == 's' for d in descs for a in d['attrs']))
    mon.event('attribute_conditions', sum(len(d['attrs']) for d in descs))
    if inplace:
        mon.event('inplace_searches')
    if not groups:
        mon.event('hosts_without_instance')
    if judge(h, descs, inplace, groups, mon, 'search') and groups and len(descs) > 1:
        mon.distinct((str(descs), str(h)))
        mon.sample({'pattern': descs, 'groups': groups, 'host_nodes': len(h['nodes']), 'inplace': inplace})


def shipped(rng, mon):
    """instances of the patterns of fusion.py, written out by hand, inside noise"""
    import onnx_tool
    from onnx_tool import fusion
    h = hg.host(rng, n=(3, 10), outs=False, omit=False)
    for n in h['nodes']:
        n['op'] = ['Sigmoid', 'Mul', 'Tanh', 'Sub', 'Neg'][hg.OPS.index(n['op'])]
        n['attrs'] = {}
        n['domain'] = ''
    t = [x for n in h['nodes'] for x in n['outs']]
    pick = lambda: str(rng.choice(h['ins'] + t))
    c = [0]
    inst = []

    def add(op, ins, **attrs):
        c[0] += 1
        h['nodes'].append(dict(name=f'p{c[0]}', op=op, ins=ins, outs=[f'q{c[0]}'], attrs=attrs, domain=''))
        return f'q{c[0]}'
    w = lambda: f'w{c[0]}x' if h['inits'].setdefault(f'w{c[0]}x', np.zeros(1, np.float32)) is not None else None
    name = str(rng.choice(['ConvBN', 'Conv_Res', 'MHAint8_Pattern', 'layernorm_pattern', 'Fused_Element']))
    exact = bool(rng.random() < .75)
    k = int(rng.integers(1, 8))
    for _ in range(int(rng.integers(1, 4))):
        first = c[0]
        x = pick()
        ok = exact
        if name == 'ConvBN':
            ks = [int(v) for v in rng.integers(1, 8, 2)] if exact else [[9, 1], [3, 8], [3]][int(rng.integers(3))]
            y = add('Conv', [x, w(), w()][:int(rng.integers(2, 4))], kernel_shape=ks, strides=[1] * len(ks))
            y = add('BatchNormalization', [y, w(), w(), w(), w()])
        elif name == 'Conv_Res':
            y = add('Conv', [x, w()])
            y = add('Add', [pick(), y] if exact else [y, pick()])
            if rng.random() < .5:
                y = add('Relu', [y])
            else:
                y = add('LeakyRelu', [y], alpha=.25)
        elif name == 'MHAint8_Pattern':
            y = add('QLinearMatMul', [x, w(), w(), pick(), w(), w(), w(), w()])
            y = add('DequantizeLinear', [y, w(), w()])
            y = add('Div', [y, w()] if exact else [w(), y])
            y = add('Add', [y, pick()])
            y = add('Softmax', [y])
            y = add('QuantizeLinear', [y, w(), w()])
            y = add('QLinearMatMul', [y, w(), w(), pick(), w(), w(), w(), w()])
        elif name == 'layernorm_pattern':
            m = add('ReduceMean', [x])
            s = add('Sub', [x, m])
            p = add('Pow', [s, w()])
            v = add('ReduceMean', [p])
            a = add('Add', [v, w()])
            q = add('Sqrt', [a])
            y = add('Div', [s if exact else p, q])
        else:
            y = add('Sigmoid', [x])
            y = add(str(rng.choice(['Relu', 'Add', 'LeakyRelu'])), [y] if exact else [pick(), y])
            ok = exact
        inst.append([f'p{j}' for j in range(first + 1, c[0] + 1)])
        if rng.random() < .3:
            add('Neg', [y])
        t.append(y)
    h['outs'] = list(dict.fromkeys(h['outs'] + [h['nodes'][-1]['outs'][0]]))
    with quiet():
        g = onnx_tool.Model(hg.model(h)).graph
        descs = getattr(fusion, name)
        groups = fusion.FusionPattern(descs).search_pattern(g)
    hn = dict(h)
    # what the pattern is documented to describe
    if name == 'MHAint8_Pattern':
        chain = ['QLinearMatMul', 'DequantizeLinear', 'Div', 'Add', 'Softmax', 'QuantizeLinear', 'QLinearMatMul']
        mine = [dict(name=str(j), op=op, attrs=[], inport=[], outport=[[0, str(j + 1), 0]] if j < 6 else []) for j, op in enumerate(chain)]
    elif name == 'layernorm_pattern':
        L = lambda n, op, *out: dict(name=n, op=op, attrs=[], inport=[], outport=list(out))
        mine = [L('m', 'ReduceMean', [0, 's', 1]), L('s', 'Sub', [0, 'p', 0], [0, 'd', 0]), L('p', 'Pow', [0, 'v', 0]), L('v', 'ReduceMean', [0, 'a', 0]),
                L('a', 'Add', [0, 'q', 0]), L('q', 'Sqrt', [0, 'd', 1]), L('d', 'Div')]
    elif name == 'ConvBN':
        mine = [dict(name='c', op='Conv', attrs=[['kernel_shape', o, j, v] for j in (0, 1) for o, v in (('<=', 7), ('>=', 1))], inport=[], outport=[[0, 'b', 0]]),
                dict(name='b', op='BatchNormalization', attrs=[], inport=[], outport=[])]
    elif name == 'Conv_Res':
        mine = [dict(name='c', op='Conv', attrs=[], inport=[], outport=[[0, 'a', 1]]), dict(name='a', op='Add', attrs=[], inport=[], outport=[[0, 'r', 0]]),
                dict(name='r', op=['Relu', 'LeakyRelu'], attrs=[], inport=[], outport=[])]
    else:
        mine = [dict(name='x', op='Any', attrs=[], inport=[], outport=[[0, 'r', 0]]), dict(name='r', op=['Relu', 'LeakyRelu', 'Add'], attrs=[], inport=[], outport=[])]
    if judge(hn, mine, False, groups, mon, 'shipped:' + name, name + ' '):
        if exact and name != 'Fused_Element':
            for gr in inst:
                mon.event('shipped_instances')
                if gr not in groups:
                    mon.violation('shipped:' + name + ':instance', f'{gr} is an instance, reported are {groups}')
        mon.distinct((name, str(h)))
