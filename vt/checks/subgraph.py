"""P25: splitting a model at given tensors, extracting nodes."""
import os, warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from vt import modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.oracle import samerun

PROP = 'P25'
RULE = ('random whole models (also with unnamed nodes, shuffled listing order, If bodies which take tensors of the graph, shared weights, omitted inputs) split at random input and output tensors (intermediate, '
        'graph inputs, graph outputs, unrelated and swapped ones), in memory and through model_subgraph files, and random node sets extracted by name; every part is compared node by node and executed with '
        'the tensors the parts before it produced; non-trivial when at least two parts hold nodes')
MIN_EVENTS = {'splits': 1000, 'parts_executed': 2000, 'nodes_compared': 10000, 'outputs_compared': 1500, 'extractions': 500, 'with_bodies': 100, 'shuffled': 100}
BUDGET = {'quick': 150, 'thorough': 750}
ASSUMPTIONS = ['the onnx reference evaluator executes parts and whole model alike']


def cases(tier, seed):
    n = 3500 if tier == 'quick' else 40000
    for i in range(n):
        yield ('split', seed, i)
        if i % 2:
            yield ('nodes', seed, i)


def add_body(rng, m, feeds, vals):
    """an If node whose branches take two tensors of the graph"""
    names = [k for k, v in vals.items() if v.dtype == np.float32 and v.size]
    names += [t.name for t in m.graph.initializer if t.data_type == TP.FLOAT]
    if not names:
        return False
    a, b = (names[int(rng.integers(len(names)))] for _ in range(2))
    pos = len(m.graph.node)
    nodes = list(m.graph.node)
    cn = 'if_cond'
    m.graph.initializer.append(numpy_helper.from_array(np.array(bool(rng.integers(2))), cn))
    th = helper.make_graph([helper.make_node('Neg', [a], ['if_th'])], 'th', [], [helper.make_tensor_value_info('if_th', TP.FLOAT, None)])
    el = helper.make_graph([helper.make_node('Abs', [b], ['if_el'])], 'el', [], [helper.make_tensor_value_info('if_el', TP.FLOAT, None)])
    nodes.append(helper.make_node('If', [cn], ['if_out'], name='the_if', then_branch=th, else_branch=el))
    nodes.append(helper.make_node('Relu', ['if_out'], ['if_last'], name='if_relu'))
    del m.graph.node[:]
    m.graph.node.extend(nodes)
    m.graph.output.append(helper.make_tensor_value_info('if_last', TP.FLOAT, None))
    return True


def reads(n):
    r = [t for t in n.input if t]
    for a in n.attribute:
        if a.type == a.GRAPH:
            r += sorted(mc.captured(a.g))
    return r


def key(n):
    return tuple(o for o in n.output)


def node_same(x, y, named):
    z = onnx.NodeProto()
    z.CopyFrom(y)
    if not x.name:
        z.name = ''
    return mc.node_diff(x, z)


def judge_part(p, m, whole, inits, mon, what, rest_reads):
    """part proto against the original nodes it holds"""
    names = {key(n): n for n in m.graph.node}
    for n in p.node:
        if key(n) not in names:
            mon.violation('node invented', f'{what}: {n.op_type} -> {list(n.output)} is no node of the model')
            return False
        d = node_same(names[key(n)], n, True)
        if d:
            mon.violation('node ' + d[0], f'{what}: {n.op_type}: {d[1]}')
            return False
        mon.event('nodes_compared')
    made = {o for n in p.node for o in n.output if o}
    used = {t for n in p.node for t in reads(n)}
    outs = {o.name for o in m.graph.output}
    want_in = {t for t in used if t not in made and t not in inits}
    have_in = [v.name for v in p.input]
    weights = {t.name: t for t in p.initializer}
    if set(have_in) - set(inits) != want_in or len(set(have_in)) != len(have_in):
        mon.violation('inputs', f'{what}: inputs {have_in}, the nodes need {sorted(want_in)}')
        return False
    have_out = [v.name for v in p.output]
    all_reads = {t for n in m.graph.node for t in reads(n)}
    want_out = {t for t in made if t in outs or t in rest_reads or t not in all_reads}
    if set(have_out) != want_out or len(set(have_out)) != len(have_out):
        mon.violation('outputs', f'{what}: outputs {have_out}, expected {sorted(want_out)}')
        return False
    for t in used & set(inits):
        if t not in weights:
            mon.violation('weight lost', f'{what}: weight {t}')
            return False
    for t, v in weights.items():
        if t not in inits or mc.tensor_key(v) != inits[t]:
            mon.violation('weight', f'{what}: weight {t} is not that of the model')
            return False
    return True


def execute(p, m, given, mon, what):
    mm = helper.make_model(p, opset_imports=list(m.opset_import), ir_version=m.ir_version)
    feeds = {v.name: given[v.name] for v in p.input if v.name in given and v.name not in {t.name for t in p.initializer}}
    try:
        with np.errstate(all='ignore'):
            r = ReferenceEvaluator(mm).run(None, feeds)
    except Exception as e:
        mon.violation('broken part', f'{what}: {e!r}')
        return None
    mon.event('parts_executed')
    return dict(zip([o.name for o in p.output], r))


def load(f, m, mon):
    p = onnx.load(f)
    ops = lambda x: sorted((o.domain, o.version) for o in x.opset_import)
    if ops(p) != ops(m) or p.ir_version != m.ir_version:
        mon.violation('operator set', f'{os.path.basename(f)} declares {ops(p)} ir {p.ir_version}, the model {ops(m)} ir {m.ir_version}')
    mon.event('files_with_the_operator_sets_of_the_model')
    return p.graph


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P25', seed, i, kind)
    g = mg.generate(rng, assign=1, unnamed=i % 5 == 1, nodes=(3, 12), init_as_input=i % 7 == 3)
    m = g.model()
    feeds = g.feeds(0)
    if any(n.op_type.startswith('Random') for n in m.graph.node):
        return
    bodies = False
    try:
        vals = mg.execute(m, feeds)
        if rng.random() < .2:
            bodies = add_body(rng, m, feeds, vals)
        with np.errstate(all='ignore'):
            outs = dict(zip([o.name for o in m.graph.output], ReferenceEvaluator(m).run(None, feeds)))
        if bodies:
            vals['if_out'] = outs['if_last'] if False else None
            full = onnx.ModelProto()
            full.CopyFrom(m)
            full.graph.output.append(helper.make_tensor_value_info('if_out', TP.FLOAT, None))
            with np.errstate(all='ignore'):
                vals['if_out'] = ReferenceEvaluator(full).run(None, feeds)[-1]
            vals['if_last'] = outs['if_last']
    except Exception:
        mon.event('not_executable_by_reference')
        return
    mon.event('with_bodies', bodies)
    if rng.random() < .2:
        # listed in another order
        nodes = [m.graph.node[int(j)] for j in rng.permutation(len(m.graph.node))]
        nodes = [onnx.NodeProto.FromString(n.SerializeToString()) for n in nodes]
        del m.graph.node[:]
        m.graph.node.extend(nodes)
        mon.event('shuffled')
    inits = {t.name: mc.tensor_key(t) for t in m.graph.initializer}
    m_keep = m.SerializeToString(deterministic=True)
    tensors = list(feeds) + [t for t in vals if t not in feeds]
    prod = [o for n in m.graph.node for o in n.output if o]
    tensors = list(dict.fromkeys([t for t in feeds] + prod))
    pick = lambda k: [tensors[int(j)] for j in rng.choice(len(tensors), min(k, len(tensors)), replace=False)]
    with quiet(), warnings.catch_warnings(), scratch() as d:
        warnings.simplefilter('ignore')
        src = os.path.join(d, 'mdl.onnx')
        onnx.save(m, src)
        if kind == 'nodes':
            tm = onnx_tool.Model(src)
            names = list(tm.graph.nodemap)
            chosen = [names[int(j)] for j in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
            keys = {tuple(tm.graph.nodemap[c].output) for c in chosen}
            if rng.random() < .5:
                p = tm.graph.get_onnxgraph_by_nodenames(chosen)
            else:
                if any(not n.name for n in m.graph.node):
                    pass
                onnx_tool.model_subgraph(src if rng.random() < .5 else tm.mproto, nodenames=chosen, save_folder=d)
                f = [x for x in os.listdir(d) if x.endswith('_subgraph.onnx')]
                if len(f) != 1:
                    mon.violation('file', f'files {f} after extracting {len(chosen)} nodes')
                    return
                p = load(os.path.join(d, f[0]), m, mon)
            parts = [p]
        else:
            ins, outs_ = pick(int(rng.integers(1, 3))), pick(int(rng.integers(1, 3)))
            pos = {t: j for j, t in enumerate(tensors)}
            if rng.random() < .7 and pos[ins[0]] > pos[outs_[0]]:
                ins, outs_ = outs_, ins
            if rng.random() < .1:
                outs_ = [m.graph.output[int(rng.integers(len(m.graph.output)))].name]
            if rng.random() < .5:
                tm = onnx_tool.Model(src)
                snap = [(k, list(n.input), list(n.output)) for k, n in tm.graph.nodemap.items()]
                lv = tm.graph.get_subgraph(list(ins), list(outs_))
                if [(k, list(n.input), list(n.output)) for k, n in tm.graph.nodemap.items()] != snap:
                    mon.violation('original', 'splitting changed the graph')
                    return
                parts = []
                for j, q in enumerate(lv):
                    f = os.path.join(d, f'p{j}.onnx')
                    q.save_model(f, rawmodel=tm.mproto)
                    if bool(len(q.nodemap)) != os.path.exists(f):
                        mon.violation('file', f'part {j} holds {len(q.nodemap)} nodes, file {os.path.exists(f)}')
                        return
                    parts.append(load(f, m, mon) if os.path.exists(f) else None)
            else:
                onnx_tool.model_subgraph(src if rng.random() < .5 else m, list(ins), list(outs_), save_folder=d)
                parts = []
                for j in range(3):
                    f = [x for x in os.listdir(d) if x.endswith(f'_level{j}.onnx')]
                    parts.append(load(os.path.join(d, f[0]), m, mon) if f else None)
    if m.SerializeToString(deterministic=True) != m_keep:
        mon.violation('caller', 'the model passed in was changed')
    if kind == 'nodes':
        have = [key(n) for n in parts[0].node]
        if sorted(have) != sorted(keys):
            mon.violation('extracted nodes', f'{len(keys)} nodes asked for, the subgraph holds {have}')
            return
        rest = {t for n in m.graph.node if key(n) not in keys for t in reads(n)}
        if not judge_part(parts[0], m, vals, inits, mon, 'extracted nodes', rest):
            return
        got = execute(parts[0], m, {**vals, **feeds}, mon, 'extracted nodes')
        if got is None:
            return
        for k, v in got.items():
            w = vals.get(k, outs.get(k))
            if w is not None and not samerun(v, w):
                mon.violation('value', f'extracted nodes compute another {k}')
                return
        mon.event('extractions')
        if len(keys) > 1:
            mon.distinct((kind, str([n.op_type for n in m.graph.node]), len(keys)))
        return
    seen = [key(n) for p in parts if p is not None for n in p.node]
    if sorted(seen) != sorted(key(n) for n in m.graph.node):
        lost = [key(n) for n in m.graph.node if key(n) not in seen]
        mon.violation('partition', f'nodes {lost} are in no part, {len(seen)} nodes in the parts, {len(m.graph.node)} in the model')
        return
    # what lies behind the outputs belongs to the last part, what lies behind the inputs to the second
    down = lambda ts: closure(m, set(ts))
    l2, l1 = down(outs_), down(ins)
    for j, p in enumerate(parts):
        want = {key(n) for n in m.graph.node if (2 if key(n) in l2 else 1 if key(n) in l1 else 0) == j}
        got = {key(n) for n in p.node} if p is not None else set()
        if want != got:
            mon.violation('level', f'part {j} of the split {ins} -> {outs_} holds {sorted(got)}, expected {sorted(want)}')
            return
    env = dict(feeds)
    for j, p in enumerate(parts):
        if p is None:
            continue
        what = f'part {j} of {ins} -> {outs_}'
        mine = {key(n) for n in p.node}
        rest = {t for n in m.graph.node if key(n) not in mine for t in reads(n)}
        if not judge_part(p, m, vals, inits, mon, what, rest):
            return
        miss = [v.name for v in p.input if v.name not in env and v.name not in inits]
        if miss:
            mon.violation('order', f'{what} needs {miss}, which no part before it gives')
            return
        got = execute(p, m, env, mon, what)
        if got is None:
            return
        env.update(got)
    for o, v in outs.items():
        if o in inits:
            continue
        if o not in env:
            mon.violation('output lost', f'no part gives {o}')
            return
        if not samerun(v, env[o]):
            mon.violation('value', f'the parts compute another {o}')
            return
        mon.event('outputs_compared')
    mon.event('splits')
    if sum(p is not None for p in parts) > 1:
        mon.distinct((kind, str([n.op_type for n in m.graph.node]), str(ins), str(outs_)))
        mon.sample({'operators': [n.op_type for n in m.graph.node][:15], 'at': [ins, outs_], 'parts': [len(p.node) if p is not None else 0 for p in parts]})


def closure(m, ts):
    ts = set(ts)
    res = set()
    grew = True
    while grew:
        grew = False
        for n in m.graph.node:
            if key(n) not in res and ts & set(reads(n)):
                res.add(key(n))
                ts |= {o for o in n.output if o}
                grew = True
    return res
