"""P31: fixed If branches, fixed TopK sizes, removal of dangling nodes."""
import os
import numpy as np
import onnx
from onnx import helper, TensorProto as TP, numpy_helper
from onnx.reference import ReferenceEvaluator
from vt import modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.oracle import bitequal

PROP = 'P31'
RULE = ('random models with If nodes (one to three results, branches with weights, captured tensors, results that are captured tensors or weights, repeated results, names shared between '
        'branches, nested If, shared and computed conditions), TopK nodes (k a weight, computed, shared between nodes or with other uses), and dead subgraphs, loaded with each option alone and together; '
        'the saved model is executed against an original whose conditions (or k) are set by hand; non-trivial when an If or a computed k was replaced or a dead node removed')
MIN_EVENTS = {'ifs': 500, 'topks': 300, 'dead_nodes': 300, 'executions_compared': 800, 'nested_ifs': 60, 'captured_results': 60, 'shared_names': 100}
BUDGET = {'quick': 150, 'thorough': 750}
ASSUMPTIONS = ['the onnx reference evaluator executes If and TopK faithfully']


def cases(tier, seed):
    n = 2500 if tier == 'quick' else 80000
    for i in range(n):
        yield (['if', 'topk', 'dangling', 'if', 'all'][i % 5], seed, i)


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.nodes, self.inits = [], {}
        self.vals = ['x', 'y']          # float [2, 6] tensors
        self.conds = []                 # condition tensors
        self.ks = []                    # k tensors
        self.tags = []
        self.ifs = 0
        self.named = rng.random() < .7

    def name(self, p='t'):
        self.k += 1
        return f'{p}{self.k}'

    def node(self, nodes, op, ins, outs=None, **at):
        outs = outs or [self.name()]
        nodes.append(helper.make_node(op, ins, outs, name=self.name('n_') if self.named else '', **at))
        return outs[0]

    def pick(self, vals=None):
        vals = vals or self.vals
        return str(vals[int(self.r.integers(len(vals)))])

    def weight(self, inits=None, name=None):
        n = name or self.name('w')
        (self.inits if inits is None else inits)[n] = self.r.uniform(-1, 1, (2, 6) if self.r.random() < .7 else (6,)).astype(np.float32)
        return n

    def plain(self):
        op = ['Add', 'Mul', 'Neg', 'Relu', 'Sub'][int(self.r.integers(5))]
        ins = [self.pick()] + ([self.pick() if self.r.random() < .5 else self.weight()] if op in ('Add', 'Mul', 'Sub') else [])
        self.vals.append(self.node(self.nodes, op, ins))

    def cond(self):
        if self.conds and self.r.random() < .3:
            self.tags.append('shared_conditions')
            return self.conds[int(self.r.integers(len(self.conds)))]
        # conditions are computed outside all branches
        s = self.node(self.nodes, 'ReduceSum', [self.pick([v for v in self.vals if v[0] in 'xyt'])], keepdims=0)
        z = self.name('w')
        self.inits[z] = np.float32(self.r.uniform(-1, 1))
        c = self.node(self.nodes, 'Greater', [s, z])
        if self.r.random() < .2:
            c = self.node(self.nodes, 'Not', [c])
        self.conds.append(c)
        return c

    def branch(self, n, depth, shared):
        """a body returning n [2, 6] floats"""
        nodes, inits = [], {}
        own = []
        p = shared or self.name('b')
        for j in range(int(self.r.integers(0, 4))):
            src = own + [self.pick(), self.pick()]
            op = ['Add', 'Mul', 'Neg', 'Relu'][int(self.r.integers(4))]
            ins = [self.pick(src)]
            if op in ('Add', 'Mul'):
                if self.r.random() < .5:
                    w = f'{p}_w{j}'
                    if self.r.random() < .3:
                        nodes.append(helper.make_node('Constant', [], [w], value=numpy_helper.from_array(self.r.uniform(-1, 1, (2, 6)).astype(np.float32))))
                    else:
                        self.weight(inits, w)
                    ins.append(w)
                else:
                    ins.append(self.pick(src))
            o = f'{p}_t{j}'
            nodes.append(helper.make_node(op, ins, [o], name=f'{p}_n{j}' if self.named else ''))
            own.append(o)
        if depth < 2 and self.r.random() < .25:
            self.tags.append('nested_ifs')
            outs = [f'{p}_i{j}' for j in range(int(self.r.integers(1, 3)))]
            self.iff(nodes, outs, depth + 1, own)
            own += outs
        outs = []
        for j in range(n):
            r = self.r.random()
            full = [w for w in inits if inits[w].shape == (2, 6)]
            if own and r < .65:
                outs.append(self.pick(own))
            elif full and r < .8:
                outs.append(self.pick(full))
                self.tags.append('weight_results')
            else:
                outs.append(self.pick())
                self.tags.append('captured_results')
        if len(set(outs)) < len(outs):
            self.tags.append('repeated_results')
        vi = [helper.make_tensor_value_info(o, TP.FLOAT, [2, 6]) for o in own[:1]] if self.r.random() < .2 else []
        return helper.make_graph(nodes, 'body', [], [helper.make_tensor_value_info(o, TP.FLOAT, [2, 6]) for o in outs],
                                 [numpy_helper.from_array(a, k) for k, a in inits.items()], value_info=vi)

    def iff(self, nodes, outs, depth=0, extra=()):
        c = self.cond() if depth == 0 or not self.conds or self.r.random() < .3 else self.conds[-1]
        save = list(self.vals)
        self.vals += list(extra)
        shared = None
        if self.r.random() < .3:
            shared = 'same' if depth == 0 else f'same{depth}'
            if shared and self.r.random() < .5:
                shared = self.name('same')
            self.tags.append('shared_names')
        then = self.branch(len(outs), depth, shared)
        els = self.branch(len(outs), depth, shared)
        self.vals = save
        self.ifs += depth == 0
        nodes.append(helper.make_node('If', [c], outs, name=self.name('if') if self.named else '', then_branch=then, else_branch=els))

    def topk(self):
        x = self.pick()
        r = self.r.random()
        if self.ks and r < .3:
            k = self.ks[int(self.r.integers(len(self.ks)))]
            self.tags.append('shared_k')
        elif r < .5:
            k = self.name('w')
            if self.r.random() < .25 and 'constant_fixed_topk_k' not in self.inits:
                # the name the tool gives its own weight, here of a weight with another use (as in a model saved by the tool)
                k = 'constant_fixed_topk_k'
                self.outs.append(self.node(self.nodes, 'Identity', [k]))
                self.tags.append('own_weight_name')
            self.inits[k] = np.array([int(self.r.integers(1, 6))], np.int64)
        else:
            s = self.node(self.nodes, 'Shape', [x])
            a, b = self.name('w'), self.name('w')
            self.inits[a], self.inits[b] = np.array([1], np.int64), np.array([int(self.r.integers(1, 5))], np.int64)
            q = self.node(self.nodes, 'Gather', [s, a], axis=0)
            k = self.node(self.nodes, 'Min', [q, b])
            self.tags.append('computed_k')
            if self.r.random() < .3:
                self.outs.append(self.node(self.nodes, 'Identity', [q]))
            if self.r.random() < .15:
                self.outs.append(k)
        self.ks.append(k)
        v, ix = self.name(), self.name()
        self.nodes.append(helper.make_node('TopK', [x, k], [v, ix], name=self.name('n_') if self.named else '', axis=-1, largest=int(self.r.integers(2))))
        if self.r.random() < .3:
            v = self.node(self.nodes, 'Relu', [v])
        self.outs.append(v)
        if self.r.random() < .5:
            self.outs.append(ix)
        self.topks = getattr(self, 'topks', 0) + 1

    outs = ()

    def dead(self):
        """nodes nothing needs: a chain from a live tensor, possibly joined, possibly feeding only each other"""
        x = self.pick()
        for _ in range(int(self.r.integers(1, 4))):
            x = self.node(self.nodes, ['Neg', 'Relu', 'Abs'][int(self.r.integers(3))], [x])
            self.deads.append(x)
            if self.r.random() < .3:
                self.deads.append(self.node(self.nodes, 'Add', [x, self.pick()]))

    def build(self, kind):
        self.outs, self.deads = [], []
        ops = {'if': ['if', 'plain'], 'topk': ['topk', 'plain'], 'dangling': ['dead', 'plain', 'plain', 'if'], 'all': ['if', 'topk', 'dead', 'plain']}[kind]
        for _ in range(int(self.r.integers(3, 9))):
            op = ops[int(self.r.integers(len(ops)))]
            if op == 'plain':
                self.plain()
            elif op == 'if':
                o = [self.name() for _ in range(int(self.r.integers(1, 4)))]
                self.iff(self.nodes, o)
                if len(o) > 1 and self.r.random() < .3:
                    self.plain()
                self.vals += o
            elif op == 'topk':
                self.topk()
            else:
                self.dead()
        made = [v for v in self.vals if v not in ('x', 'y')]
        self.outs += [v for v in made[-3:]]
        self.outs += [v for v in made[:-3] if self.r.random() < .2]
        if self.conds and self.r.random() < .15:
            self.outs.append(self.conds[0])
        if not self.outs:
            self.plain()
            self.outs.append(self.vals[-1])
        self.outs = list(dict.fromkeys(self.outs))
        kinds = {}
        for n in self.nodes:
            if n.op_type in ('Shape', 'Gather', 'Min') or (n.op_type == 'Identity' and (n.input[0] in kinds or n.input[0] == 'constant_fixed_topk_k')):
                kinds[n.output[0]] = TP.INT64
            if n.op_type == 'TopK':
                kinds[n.output[1]] = TP.INT64
            if n.op_type in ('Greater', 'Not'):
                kinds[n.output[0]] = TP.BOOL
        g = helper.make_graph(self.nodes, 'g', [helper.make_tensor_value_info(v, TP.FLOAT, [2, 6]) for v in ('x', 'y')],
                              [helper.make_tensor_value_info(o, kinds.get(o, TP.FLOAT), None) for o in self.outs],
                              [numpy_helper.from_array(np.asarray(a), k) for k, a in self.inits.items()])
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', 18)], ir_version=9)


def fix_conditions(m, branch):
    """the same model where every If takes one branch"""
    r = onnx.ModelProto()
    r.CopyFrom(m)

    def walk(g):
        for n in g.node:
            for a in n.attribute:
                if a.HasField('g'):
                    walk(a.g)
            if n.op_type == 'If':
                n.input[0] = 'fixed_condition'
    walk(r.graph)
    r.graph.initializer.append(numpy_helper.from_array(np.array(branch != 'else'), 'fixed_condition'))
    return r


def fix_k(m, k):
    r = onnx.ModelProto()
    r.CopyFrom(m)
    for n in r.graph.node:
        if n.op_type == 'TopK':
            n.input[1] = 'fixed_k'
    r.graph.initializer.append(numpy_helper.from_array(np.array([k], np.int64), 'fixed_k'))
    return r


def evaluate(g, env):
    """runs a graph with If nodes node by node (the reference evaluator loses tensors captured through two levels)"""
    env = dict(env)
    for t in g.initializer:
        env[t.name] = numpy_helper.to_array(t)
    for n in g.node:
        if n.op_type == 'If':
            at = {a.name: a.g for a in n.attribute}
            out = evaluate(at['then_branch' if bool(np.asarray(env[n.input[0]]).reshape(-1)[0]) else 'else_branch'], env)
        else:
            out = ReferenceEvaluator(n, opsets={'': 18}).run(None, {k: env[k] for k in n.input if k}) if n.input else \
                [numpy_helper.to_array(n.attribute[0].t)]
        env.update(zip(n.output, out))
    return [env[o.name] for o in g.output]


def execute(m, feeds):
    with np.errstate(all='ignore'):
        try:
            return ReferenceEvaluator(m).run(None, feeds)
        except RuntimeError as e:
            if 'Unable to find' not in str(e):
                raise
            return evaluate(m.graph, feeds)


def live(g):
    """names of tensors the declared outputs need"""
    need = {o.name for o in g.output}
    for n in reversed(g.node):
        if set(n.output) & need:
            need |= set(n.input)
            for a in n.attribute:
                if a.HasField('g'):
                    need |= captured(a.g)
    return need


def captured(g):
    s = {o.name for o in g.output}
    for n in g.node:
        s |= set(n.input)
        for a in n.attribute:
            if a.HasField('g'):
                s |= captured(a.g)
    return s


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P31', seed, i)
    b = Gen(rng)
    m = b.build(kind)
    cfg = {'constant_folding': bool(rng.random() < .3)}
    want = m
    if kind in ('if', 'all') or (kind == 'dangling' and rng.random() < .5):
        branch = ['else', 'then'][int(rng.integers(2))]
        cfg['if_fixed_branch'] = branch
        want = fix_conditions(want, branch)
        mon.event('ifs', b.ifs)
    k = 0
    if kind in ('topk', 'all'):
        k = int(rng.integers(1, 7))
        cfg['fixed_topk'] = k
        want = fix_k(want, k)
        mon.event('topks', getattr(b, 'topks', 0))
    if rng.random() < .15:
        cfg['remove_dangling'] = False
    raw = m.SerializeToString()
    feeds = {v: rng.uniform(-1, 1, (2, 6)).astype(np.float32) for v in ('x', 'y')}
    names = [o.name for o in m.graph.output]
    ref = dict(zip(names, execute(want, feeds)))
    for t in set(b.tags):
        mon.event(t)
    with quiet(), scratch() as d:
        f, src = os.path.join(d, 'o.onnx'), os.path.join(d, 'm.onnx')
        onnx.save(m, src)
        tm = onnx_tool.Model(src if rng.random() < .5 else m, cfg)
        n_loaded = len(tm.graph.nodemap)
        clean = kind in ('dangling', 'all') and cfg.get('remove_dangling', True)
        if clean:
            tm.graph.remove_dangling_nodes()
            mon.event('dead_nodes', n_loaded - len(tm.graph.nodemap))
        if not tm.graph.nodemap:
            mon.event('everything_folded')      # such a graph is not saved, with a warning
            return
        infer = rng.random() < .5 and not any(n.op_type == 'If' for n in tm.graph.nodemap.values())
        if infer:
            tm.graph.shape_infer({k_: v for k_, v in feeds.items()})
            shapes = {o: list(tm.graph.tensormap[o].get_shape()) for o in names}
        tm.save_model(f)
        r = onnx.load(f)
    if m.SerializeToString() != raw:
        mon.violation('caller', 'the model passed in was changed')
    have_names = [o.name for o in r.graph.output]
    if have_names != names if cfg.get('remove_dangling', True) else have_names[:len(names)] != names:
        mon.violation('outputs', f'outputs {have_names}, declared {names} ({cfg})')
        return
    if 'if_fixed_branch' in cfg and any(n.op_type == 'If' for n in r.graph.node):
        mon.violation('if left', f'an If is left with {cfg}')
        return
    # every needed tensor is there
    made = set()
    given = {t.name for t in r.graph.initializer} | {v.name for v in r.graph.input}
    for n in r.graph.node:
        for t in n.input:
            if t and t not in made and t not in given:
                mon.violation('missing', f'{n.op_type} {n.name} reads {t}, which nothing before it provides ({cfg}, {sorted(set(b.tags))})')
                return
        made |= set(n.output)
    given = {t.name: numpy_helper.to_array(t) for t in r.graph.initializer}
    try:
        have = dict(zip(have_names, execute(r, {v.name: feeds[v.name] for v in r.graph.input if v.name in feeds})))
    except Exception as e:
        mon.violation('broken', f'the saved model does not run: {e!r} ({cfg}, {sorted(set(b.tags))})')
        return
    mon.event('executions_compared')
    for o in names:
        if ref[o].dtype != have[o].dtype or ref[o].shape != have[o].shape or not np.allclose(ref[o], have[o], rtol=1e-5, atol=1e-6):
            mon.violation('value', f'{o} is {have[o].tolist()}, expected {ref[o].tolist()} ({cfg}, {sorted(set(b.tags))})')
            return
        if infer and shapes[o] != list(ref[o].shape):
            mon.violation('shape', f'{o} has shape {shapes[o]}, executed {ref[o].shape} ({cfg}, {sorted(set(b.tags))})')
            return
    need = live(r.graph)
    if clean:
        dead = [n for n in r.graph.node if not set(n.output) & need]
        if dead:
            mon.violation('dangling', f'{[(n.op_type, list(n.output)) for n in dead]} are left')
            return
    elif kind != 'dangling':
        # replacing a branch or k leaves nothing without a use that had one (branches may hold dead nodes of their own)
        was = live(m.graph) & {o for n in m.graph.node for o in n.output}
        need = set(have_names)
        dead = []
        for n in reversed(r.graph.node):
            if set(n.output) & need or not set(n.output) & was:
                need |= set(n.input)
            else:
                dead.append((n.op_type, list(n.output)))
        if dead:
            mon.violation('left over', f'{dead} are needed no more ({cfg})')
            return
    if b.ifs or 'computed_k' in b.tags or b.deads:
        mon.distinct((kind, str(cfg), str([n.op_type for n in m.graph.node]), str(sorted(set(b.tags)))))
        mon.sample({'kind': kind, 'options': cfg, 'features': sorted(set(b.tags)), 'nodes': [len(m.graph.node), len(r.graph.node)]})
