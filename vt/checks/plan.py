"""P11, P12: the compressed memory plan."""
import math
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from vt import modelgen as mg
from vt.core import rng_for, quiet

PROP = None
RULE = ('random directed acyclic graphs with fan-out, chains, repeated inputs, several outputs per node, omitted and unused outputs, outputs which are also inputs or '
        'consumed, scalars, several element types and tensor sizes from bytes to megabytes around the padding and split thresholds, and the random whole models of '
        'vt/modelgen.py (also their compute graphs), planned with several paddings; a case is non-trivial when some slot is reused')
BUDGET = {'quick': 90, 'thorough': 700}
ASSUMPTIONS = ['a tensor is alive from the step which produces it (graph inputs: from the start) to its last consumer, graph outputs to the end',
               'sizes are element count times element width of the executed tensor']
MIN_EVENTS = {}


def for_prop(p):
    global PROP, MIN_EVENTS
    PROP = p
    MIN_EVENTS = {'live_pairs_compared': 20000, 'slots_checked': 5000, 'plans_reusing_memory': 300} if p == 'P11' else {'slots_checked': 5000, 'replans_compared': 300, 'plans_reusing_memory': 300}


def cases(tier, seed):
    n = 15000 if tier == 'quick' else 200000
    for i in range(n):
        yield ('dag', seed, i)
        if i % 4 == 0:
            yield ('graph', seed, i)


DT = [np.float32, np.float32, np.float16, np.float64, np.int64, np.int8, np.uint8, np.int32, np.bool_]


class Dag:
    """a graph whose shapes are known by construction; only element-wise and layout operators, so that nothing needs executing"""

    def __init__(self, rng):
        self.rng, r = rng, rng
        self.T, self.nodes, self.inits, self.nin = {}, [], {}, []
        self.scale = int(r.choice([40, 300, 5000, 60000, 1000000]))
        if r.random() < .05:       # beyond the integers of 32 bits
            self.scale = [2 ** 33, 2 ** 42][int(r.integers(2))]
        self.k = 0
        for _ in range(int(r.integers(1, 4)) if r.random() < .93 else int(r.integers(8, 20))):
            n = f'x{self.k}'
            self.k += 1
            self.T[n] = (self.shape(), np.float32 if r.random() < .7 else DT[int(r.integers(len(DT) - 1))])
            self.nin.append(n)
        for _ in range(int(r.integers(3, 28))):
            self.step()
        used = {x for _, i, _, _ in self.nodes for x in i}
        produced = [o for _, _, os, _ in self.nodes for o in os if o]
        sinks = [t for t in produced if t not in used]
        outs = [t for t in sinks if r.random() < .8] or sinks[:1]
        inner = [t for t in produced if t in used]
        if inner and r.random() < .4:
            outs += [str(x) for x in r.choice(inner, min(len(inner), 2), replace=False)]
        for n in self.nin:
            if n not in used:
                outs.append(self.add('Identity', [n], [(self.T[n])])[0])
        if r.random() < .12:         # inputs which are results, too
            outs += [n for n in self.nin if n in used and r.random() < .5]
        r.shuffle(outs)
        self.outs = [str(o) for o in outs]

    def shape(self):
        r = self.rng
        if r.random() < .06:
            return ()
        t = int(max(1, r.integers(1, self.scale)))
        if r.random() < .3:
            t = int(r.choice([1, 15, 16, 17, 63, 64, 65, 1023, 1024, 1025, 1040, 2048]))
        f = [2, 3, 4, 5, 7]
        s = []
        for d in f:
            if t % d == 0 and r.random() < .5:
                s.append(d)
                t //= d
        s.append(t)
        return tuple(s)

    def add(self, op, ins, outs, **attr):
        names = []
        for o in outs:
            if o is None:
                names.append('')
                continue
            n = f't{self.k}'
            self.k += 1
            self.T[n] = o
            names.append(n)
        self.nodes.append((op, ins, names, attr))
        return names

    def pick(self, cond=lambda s, d: True):
        r = self.rng
        c = [n for n, (s, d) in self.T.items() if cond(s, d)]
        if not c:
            return None
        if r.random() < .6:
            c = c[-4:]
        return str(c[int(r.integers(len(c)))])

    def const(self, a):
        n = f'w{self.k}'
        self.k += 1
        self.inits[n] = np.asarray(a)
        return n

    def step(self):
        r = self.rng
        k = int(r.integers(0, 11))
        x = self.pick()
        s, d = self.T[x]
        fl = d in (np.float32, np.float64, np.float16)
        if k == 0 and fl:
            self.add('Relu', [x], [(s, d)])
        elif k == 1:
            to = DT[int(r.integers(len(DT)))]
            self.add('Cast', [x], [(s, to)], to=helper.np_dtype_to_tensor_dtype(np.dtype(to)))
        elif k in (2, 3) and d not in (np.bool_,):
            y = self.pick(lambda q, e: q == s and e == d)
            if r.random() < .15:
                y = x
            self.add(['Add', 'Mul', 'Sub'][int(r.integers(3))], [x, y], [(s, d)])
        elif k == 4 and len(s):
            ys = [x] + [self.pick(lambda q, e: len(q) == len(s) and q[1:] == s[1:] and e == d) for _ in range(int(r.integers(1, 3)))]
            tot = sum(self.T[y][0][0] for y in ys)
            if tot * math.prod(s[1:]) < 4 * self.scale + 4000:
                self.add('Concat', ys, [((tot,) + s[1:], d)], axis=0)
        elif k == 5 and len(s) and s[0] >= 2 and s[0] < 100000:
            n = int(r.integers(2, min(4, s[0]) + 1))
            parts = [s[0] // n] * (n - 1)
            parts.append(s[0] - sum(parts))
            self.add('Split', [x, self.const(np.array(parts, np.int64))], [((p,) + s[1:], d) for p in parts], axis=0)
        elif k == 6 and len(s):
            new = (math.prod(s),)
            self.add('Reshape', [x, self.const(np.array([-1], np.int64))], [(new, d)])
        elif k == 7 and len(s) > 1:
            p = [int(v) for v in r.permutation(len(s))]
            self.add('Transpose', [x], [(tuple(s[v] for v in p), d)], perm=p)
        elif k == 8 and fl and len(s):
            if r.random() < .5:
                self.add('ReduceMax', [x], [((1,) * len(s), d)], keepdims=1)
            else:
                self.add('ReduceMax', [x], [((), d)], keepdims=0)
        elif k == 9 and fl:
            # more than one output, the second omitted or unused
            q = r.random()
            second = None if q < .3 else (s, np.bool_)
            self.add('Dropout', [x], [(s, d)] if q > .8 else [(s, d), second])
        elif k == 10 and fl and math.prod(s) < 2000:
            n = int(r.integers(2, 40))
            self.add('Expand', [x, self.const(np.array((n,) + s, np.int64))], [((n,) + s, d)])
        else:
            self.add('Identity', [x], [(s, d)])

    def model(self, shuffle):
        et = lambda d: helper.np_dtype_to_tensor_dtype(np.dtype(d))
        nodes = [helper.make_node(op, i, o, name=f'n{j}_{op}', **a) for j, (op, i, o, a) in enumerate(self.nodes)]
        if shuffle:
            self.rng.shuffle(nodes)
        g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info(n, et(self.T[n][1]), self.T[n][0]) for n in self.nin],
                              [helper.make_tensor_value_info(n, et(self.T[n][1]), self.T[n][0]) for n in self.outs],
                              [numpy_helper.from_array(a, n) for n, a in self.inits.items()])
        m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)])
        m.ir_version = 8
        return m


def build(case):
    """(tool model, {tensor: bytes}, static names, listing order is already an execution order)"""
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P11', kind, seed, i)
    if kind == 'dag':
        d = Dag(rng)
        m = d.model(shuffle=i % 2 == 0)
        size = {n: math.prod(s) * np.dtype(t).itemsize for n, (s, t) in d.T.items()}
        feeds = None
        static = set(d.inits)
    else:
        g = mg.generate(rng, assign=1, dangling=True)
        m = g.model()
        feeds = g.feeds(0)
        q = helper.make_model(m.graph, opset_imports=m.opset_import)
        ref = mg.execute(ordered(m), feeds)
        size = {n: a.nbytes for n, a in {**ref, **feeds}.items()}
        static = {t.name for t in m.graph.initializer}
    return m, size, feeds, static, rng


def ordered(m):
    import onnx
    q = onnx.ModelProto()
    q.CopyFrom(m)
    have = {v.name for v in m.graph.input} | {t.name for t in m.graph.initializer} | {''}
    todo, out = list(m.graph.node), []
    while todo:
        k = next((j for j, n in enumerate(todo) if all(x in have for x in n.input)), None)
        if k is None:
            raise ValueError('cyclic')
        n = todo.pop(k)
        out.append(n)
        have.update(n.output)
    del q.graph.node[:]
    q.graph.node.extend(out)
    return q


def lifetimes(tg, size, outs):
    """[(name, first step, last step)] of the activations of a node list"""
    order = list(tg.nodemap.values())
    born, died = {}, {}
    produced = {o for n in order for o in n.output if o}
    for k, n in enumerate(order):
        for o in n.output:
            if o:
                born[o] = k
                died[o] = k
    for k, n in enumerate(order):
        for x in n.input:
            if x == '':
                continue
            if x not in produced and x in tg.input:
                born.setdefault(x, 0)
            if x in born:
                died[x] = max(k, died.get(x, 0))
    for x in tg.input:       # (read or not)
        if x in outs and x not in produced:
            born.setdefault(x, 0)
    for o in outs:
        if o in born:
            died[o] = len(order)
    return born, died


def judge(mon, tg, plan, pad, size, outs, label):
    mem, total = plan
    born, died = lifetimes(tg, size, outs)
    names = [n for n in born if size.get(n, 0) > 0]
    pads = {n: -(-size[n] // pad) * pad for n in names}
    for n in names:
        if n not in mem:
            mon.violation(f'unplanned{label}', f'{n} of {size[n]} bytes has no slot; scalar: {size[n] <= 8}')
            return None
    top = 0
    for n, (o, s) in mem.items():
        mon.event('slots_checked')
        top = max(top, o + s)
        if PROP == 'P11':
            if o < 0 or o + s > total:
                mon.violation(f'outside{label}', f'slot {n} [{o},{s}] of pool {total}')
            if n in size and s < size[n]:
                mon.violation(f'small{label}', f'slot {n} has {s} bytes, tensor {size[n]}')
        elif o % pad:
            mon.violation(f'alignment{label}', f'slot {n} at {o}, padding {pad}')
    live = sorted(((mem[n][0], mem[n][0] + size[n], n) for n in names))
    if PROP == 'P11':
        for a in range(len(live)):
            for b in range(a + 1, len(live)):
                x, y = live[a], live[b]
                if born[x[2]] <= died[y[2]] and born[y[2]] <= died[x[2]]:
                    mon.event('live_pairs_compared')
                    if x[1] > y[0] and y[1] > x[0]:
                        mon.violation(f'overlap{label}', f'{x} alive {born[x[2]]}..{died[x[2]]} and {y} alive {born[y[2]]}..{died[y[2]]} share bytes; outputs {outs}; nodes {[(n.op_type, n.input, n.output) for n in tg.nodemap.values()]}')
                        return None
    else:
        if total != top:
            mon.violation(f'pool-size{label}', f'pool {total}, highest byte {top}')
        steps = len(tg.nodemap) + 1
        peak = max([sum(size[n] for n in names if born[n] <= k <= died[n]) for k in range(steps)] or [0])
        mon.maximum('pool_over_peak', total / peak if peak else 1)
        if total < peak:
            mon.violation(f'below-peak{label}', f'pool {total}, live bytes {peak}')
        if total > sum(pads.values()):
            mon.violation(f'above-sum{label}', f'pool {total}, all padded tensors {sum(pads.values())}')
    reuse = total < sum(pads.values())
    if reuse:
        mon.event('plans_reusing_memory')
        mon.distinct((label, pad, tuple(sorted((born[n], died[n], pads[n]) for n in names))))
        mon.sample({'nodes': len(tg.nodemap), 'tensors': len(names), 'padding': pad, 'pool': total, 'sum_of_padded': sum(pads.values())})
    return True


def run(case, mon):
    import onnx_tool
    m, size, feeds, static, rng = build(case)
    outs = [o.name for o in m.graph.output]
    pad = int([64, 64, 16, 1, 256, 4096, 8192, 48][int(rng.integers(8))])
    fold = bool(rng.random() < .3)
    with quiet():
        tm = onnx_tool.Model(m, {'constant_folding': fold, 'verbose': bool(rng.random() < .2)})
        tg = tm.graph
        tg.graph_reorder_nodes()
        tg.shape_infer(None if feeds is None else {k: v.copy() for k, v in feeds.items()})
    for n, b in size.items():
        t = tg.tensormap.get(n)
        if t is not None and n and n not in static:
            if math.prod(t.get_shape()) * np.dtype(t.dtype).itemsize != b:
                mon.inconclusive('shapes or types differ (P02, P03)')
                return
    for cg in (False, True):
        if cg:
            if case[0] != 'graph':
                continue
            with quiet():
                tg = tg.get_compute_graph()
        with quiet():
            plan = tg.compress_memory(pad)
        mon.event('plans')
        mon.event('plans_above_2_31', plan[1] > 2 ** 31)
        o = [x for x in outs if x in tg.tensormap]
        ok = judge(mon, tg, plan, pad, size, o, ':compute' if cg else '')
        if PROP == 'P12':
            with quiet():
                again = tg.compress_memory(pad)
                tm2 = onnx_tool.Model(m, {'constant_folding': fold})
                t2 = tm2.graph
                t2.graph_reorder_nodes()
                t2.shape_infer(None if feeds is None else {k: v.copy() for k, v in feeds.items()})
                if cg:
                    t2 = t2.get_compute_graph()
                fresh = t2.compress_memory(pad)
            mon.event('replans_compared', 2)
            if again != plan:
                mon.violation('replan-same-object', 'planning again gives another plan')
            if fresh != plan:
                mon.violation('replan-fresh', f'planning a reloaded model gives another plan {plan[1]} {fresh[1]}')
        if not ok:
            return
