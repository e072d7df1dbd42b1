"""P14: the shape engine predicts what shape inference computes."""
import math, warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from vt.core import rng_for, quiet

PROP = 'P14'
RULE = ('random chains and joins of strided and padded convolutions and poolings, integer up-scaling, concatenation, padding, slicing, flattening and run-time '
        'shape subgraphs over one to three named dimensions with random ranges; every tensor dimension at every value of the range is known in closed form; '
        'non-trivial when a dimension varies')
BUDGET = {'quick': 90, 'thorough': 700}
ASSUMPTIONS = ['closed-form dimensions are cross-checked against the tool\'s own shape inference at sampled sizes; cases where these differ belong to P03']
MIN_EVENTS = {'dimensions_compared': 20000}


def cases(tier, seed):
    n = 2500 if tier == 'quick' else 60000
    for i in range(n):
        yield ('engine', seed, i)


class Dim:
    """a dimension as a function of one variable (or none)"""

    def __init__(self, var, f, form):
        self.var, self.f, self.form = var, f, form

    def at(self, env):
        return self.f(env[self.var]) if self.var else self.f(None)


def const(c):
    return Dim(None, lambda v, c=c: c, ('c', c))


def apply(d, g):
    if d.var is None:
        return const(g(d.f(None)))
    return Dim(d.var, lambda v, f=d.f: g(f(v)), None)


class B:
    def __init__(self, rng, small=False):
        self.rng = r = rng
        self.small = small
        self.T, self.nodes, self.inits, self.k = {}, [], {}, 0
        self.vars = {}
        self.desc = {}
        kind = r.random()
        big = r.random() < .5 and not small
        if kind < .7:       # image
            names = ['batch', 'h', 'w']
            for n in names[1:]:
                lo = int(r.integers(40, 260)) if big else int(r.integers(8, 16 if small else 40))
                self.vars[n] = (lo, lo + int(r.integers(1, 160 if big else 10 if small else 40)))
            if r.random() < .5:
                lo = int(r.integers(1, 3))
                self.vars['batch'] = (lo, lo + int(r.integers(1, 8)))
            c = int(r.integers(1, 4))
            d = ['batch' if 'batch' in self.vars else 1, c, 'h', 'w']
            if r.random() < .15:
                d[3] = 'h'
                self.vars.pop('w')
            elif r.random() < .15:
                d[3] = int(r.integers(40, 80))
                self.vars.pop('w')
            self.image = True
        else:               # sequence
            lo = int(r.integers(1, 30))
            self.vars['seq'] = (lo, lo + int(r.integers(1, 20 if small else 200 if r.random() < .98 else 5000)))
            if r.random() < .6:
                lo = int(r.integers(1, 3))
                self.vars['batch'] = (lo, lo + int(r.integers(1, 8)))
            d = ['batch' if 'batch' in self.vars else 2, 'seq', 8]
            self.image = False
        self.desc['x'] = d
        self.inp('x', d)
        if r.random() < .2:
            self.desc['x2'] = list(d)
            self.inp('x2', d)
        elif r.random() < .3:     # a second input with sizes of its own
            e = list(d)
            for i in range(1, len(d)):
                if isinstance(d[i], str):
                    lo = int(r.integers(8, 20))
                    e[i] = d[i] + '2'
                    self.vars[e[i]] = (lo, lo + int(r.integers(1, 12)))
            self.desc['x2'] = e
            self.inp('x2', e)
            self.desc = dict(sorted(self.desc.items(), reverse=bool(r.random() < .5)))
        steps = int(r.integers(2, 14))
        if r.random() < .15 and not small:       # many dimensions of their own
            steps = int(r.integers(20, 40))
        for _ in range(steps):
            (self.image_step if self.image else self.seq_step)()
        if r.random() < .3:
            self.reshape_tail()
        if r.random() < .15:
            self.rename()

    def rename(self):
        """variables called like numbers, like tensors or in other alphabets"""
        names = ['1', '2', '0', '3', 'x', 'w1', 't1', 'batch size', 'höhe', 'a/b:0', '-1', 'None']
        new = {v: names[int(k)] for v, k in zip(self.vars, self.rng.permutation(len(names)))}
        self.vars = {new[v]: q for v, q in self.vars.items()}
        self.desc = {t: [new.get(d, d) if isinstance(d, str) else d for d in ds] for t, ds in self.desc.items()}
        for d in {id(d): d for ds in self.T.values() for d in ds}.values():
            if d.var is not None:
                d.var = new[d.var]

    def inp(self, n, d):
        self.T[n] = [const(v) if isinstance(v, int) else Dim(v, lambda q: q, None) for v in d]

    def rand(self, s):
        return self.rng.uniform(-1, 1, s).astype(np.float32) if self.small else np.zeros(s, np.float32)

    def w(self, a):
        self.k += 1
        n = f'w{self.k}'
        self.inits[n] = np.asarray(a)
        return n

    def add(self, op, ins, dims, **attr):
        self.k += 1
        n = f't{self.k}'
        lo = [d.at({k: v[0] for k, v in self.vars.items()}) for d in dims]
        if min(lo) < 1:
            return None
        self.T[n] = dims
        self.nodes.append((op, ins, [n], attr))
        return n

    def pick(self, rank):
        c = [n for n, d in self.T.items() if len(d) == rank]
        if not c:
            return None
        if self.rng.random() < .75:
            c = c[-2:]
        return str(c[int(self.rng.integers(len(c)))])

    def image_step(self):
        r = self.rng
        x = self.pick(4)
        d = self.T[x]
        op = ['conv', 'pool', 'up', 'concat', 'pad', 'slice', 'relu', 'conv', 'addself', 'shapeup'][int(r.integers(10))]
        if op in ('conv', 'pool'):
            k = [int(v) for v in r.integers(1, 8 if r.random() < .2 else 4, 2)]
            s = [int(v) for v in r.integers(1, 3 if r.random() < .8 else 6, 2)]
            p = [int(v) for v in r.integers(0, 3, 4)]
            if r.random() < .1:
                k = s = [16, 16]
                p = [0] * 4
            p = [min(p[0], k[0] - 1), min(p[1], k[1] - 1), min(p[2], k[0] - 1), min(p[3], k[1] - 1)]
            if self.small and op == 'pool':     # the reference evaluator mishandles unequal pads
                p = [min(p[:2])] * 4
            dil = [1, 1]
            if op == 'conv' and r.random() < .15:
                dil = [2, 2]
            out = [apply(d[2 + a], lambda v, a=a: (v + p[a] + p[a + 2] - dil[a] * (k[a] - 1) - 1) // s[a] + 1) for a in (0, 1)]
            if op == 'conv':
                o = int(r.integers(1, 5))
                self.add('Conv', [x, self.w(self.rand((o, d[1].f(None), *k)))], [d[0], const(o), *out], kernel_shape=k, strides=s, pads=p, dilations=dil)
            else:
                self.add(['MaxPool', 'AveragePool'][int(r.integers(2))], [x], [d[0], d[1], *out], kernel_shape=k, strides=s, pads=p)
        elif op == 'up':
            f = int(r.integers(2, 4))
            if any(q.at({k: v[1] for k, v in self.vars.items()}) > 1500 for q in d[2:]):
                return
            self.add('Resize', [x, '', self.w(np.array([1, 1, f, f], np.float32))], [d[0], d[1], apply(d[2], lambda v: v * f), apply(d[3], lambda v: v * f)], mode='nearest')
        elif op == 'concat':
            ys = [n for n, e in self.T.items() if len(e) == 4 and all(self.same(e[a], d[a]) for a in (0, 2, 3))]
            y = str(ys[int(r.integers(len(ys)))])
            if r.random() < .6:
                self.add('Concat', [x, y], [d[0], const(d[1].f(None) + self.T[y][1].f(None)), d[2], d[3]], axis=1)
            elif all(self.same(self.T[y][a], d[a]) for a in range(4)):
                self.add('Concat', [x, y], [d[0], d[1], apply(d[2], lambda v: 2 * v), d[3]], axis=2)
        elif op == 'pad':
            p = [0, 0, *[int(v) for v in r.integers(0, 4, 2)], 0, 0, *[int(v) for v in r.integers(0, 4, 2)]]
            self.add('Pad', [x, self.w(np.array(p, np.int64))], [d[0], d[1], apply(d[2], lambda v: v + p[2] + p[6]), apply(d[3], lambda v: v + p[3] + p[7])])
        elif op == 'slice':
            a, b = int(r.integers(0, 3)), int(r.integers(0, 3))
            ends = [-b if b else 2 ** 31 - 1]
            self.add('Slice', [x, self.w(np.array([a], np.int64)), self.w(np.array(ends, np.int64)), self.w(np.array([2], np.int64))],
                     [d[0], d[1], apply(d[2], lambda v: v - a - b), d[3]])
        elif op == 'addself':
            ys = [n for n, e in self.T.items() if len(e) == 4 and all(self.same(e[a], d[a]) for a in range(4))]
            self.add('Add', [x, str(ys[int(r.integers(len(ys)))])], list(d))
        elif op == 'shapeup':
            # scale to the run-time size of another tensor
            ys = [n for n, e in self.T.items() if len(e) == 4 and e[2].var == d[2].var and e[3].var == d[3].var]
            y = str(ys[int(r.integers(len(ys)))])
            e = self.T[y]
            sh = f's{self.k}'
            self.nodes.append(('Shape', [y], [sh], {}))
            self.nodes.append(('Slice', [sh, self.w(np.array([2], np.int64)), self.w(np.array([4], np.int64))], [sh + 'a'], {}))
            self.nodes.append(('Shape', [x], [sh + 'x'], {}))
            self.nodes.append(('Slice', [sh + 'x', self.w(np.array([0], np.int64)), self.w(np.array([2], np.int64))], [sh + 'b'], {}))
            self.nodes.append(('Concat', [sh + 'b', sh + 'a'], [sh + 'c'], {'axis': 0}))
            self.add('Resize', [x, '', '', sh + 'c'], [d[0], d[1], e[2], e[3]], mode='nearest')
        else:
            self.add(['Relu', 'Sigmoid'][int(r.integers(2))], [x], list(d))

    def same(self, a, b):
        if a.var != b.var:
            return False
        if a.var is None:
            return a.f(None) == b.f(None)
        lo, hi = self.vars[a.var]
        return all(a.f(v) == b.f(v) for v in range(lo, hi + 1))

    def seq_step(self):
        r = self.rng
        x = self.pick(3)
        d = self.T[x]
        op = ['matmul', 'heads', 'concat', 'scores', 'slice', 'add', 'pool1', 'transpose'][int(r.integers(8))]
        D = d[2].f(None) if d[2].var is None else None
        if op == 'matmul' and D:
            o = int(r.integers(1, 9)) * 2
            self.add('MatMul', [x, self.w(self.rand((D, o)))], [d[0], d[1], const(o)])
        elif op == 'heads' and D and D % 2 == 0:
            # batch and sequence length taken at run time
            sh = f's{self.k}'
            self.nodes.append(('Shape', [x], [sh], {}))
            self.nodes.append(('Slice', [sh, self.w(np.array([0], np.int64)), self.w(np.array([2], np.int64))], [sh + 'a'], {}))
            self.nodes.append(('Concat', [sh + 'a', self.w(np.array([2, D // 2], np.int64))], [sh + 'c'], {'axis': 0}))
            self.add('Reshape', [x, sh + 'c'], [d[0], d[1], const(2), const(D // 2)])
        elif op == 'concat':
            n = self.w(np.zeros((1, 1, 1), np.float32))
            if d[1].at({k: v[1] for k, v in self.vars.items()}) < 2000:
                self.add('Concat', [x, x], [d[0], apply(d[1], lambda v: 2 * v), d[2]], axis=1)
        elif op == 'scores' and d[1].var:
            t = self.add('Transpose', [x], [d[0], d[2], d[1]], perm=[0, 2, 1])
            if D and t:
                self.add('MatMul', [x, t], [d[0], d[1], d[1]])
        elif op == 'slice':
            st = int(r.integers(1, 4))
            self.add('Slice', [x, self.w(np.array([0], np.int64)), self.w(np.array([2 ** 31 - 1], np.int64)), self.w(np.array([1], np.int64)), self.w(np.array([st], np.int64))],
                     [d[0], apply(d[1], lambda v: -(-v // st)), d[2]])
        elif op == 'pool1' and d[1].var and D:
            k, s = int(r.integers(1, 4)), int(r.integers(1, 4))
            t = self.add('Transpose', [x], [d[0], d[2], d[1]], perm=[0, 2, 1])
            if t:
                self.add('MaxPool', [t], [d[0], d[2], apply(d[1], lambda v: (v - k) // s + 1)], kernel_shape=[k], strides=[s])
        elif op == 'transpose':
            self.add('Transpose', [x], [d[1], d[0], d[2]], perm=[1, 0, 2])
        else:
            self.add('Relu', [x], list(d))

    def reshape_tail(self):
        x = self.pick(4) if self.image else self.pick(3)
        if x is None:
            return
        d = self.T[x]
        var = [i for i, q in enumerate(d) if q.var]
        if len([i for i in var if i >= 1]) <= 1:
            vs = [q for q in d[1:] if q.var]
            c = math.prod(q.f(None) for q in d[1:] if not q.var)
            out = apply(vs[0], lambda v: v * c) if vs else const(c)
            self.add('Flatten', [x], [d[0], out], axis=1)

    def model(self):
        nodes = [helper.make_node(op, i, o, name=f'n{j}', **a) for j, (op, i, o, a) in enumerate(self.nodes)]
        used = {x for n in nodes for x in n.input}
        outs = [n for n in self.T if n not in used and n not in self.desc] or [list(self.T)[-1]]
        for x in self.desc:
            if x not in used:
                nodes.append(helper.make_node('Identity', [x], [x + '_o'], name=x + '_id'))
                outs.append(x + '_o')
                self.T[x + '_o'] = self.T[x]
        vi = lambda n: helper.make_tensor_value_info(n, TP.FLOAT, [d.f(None) if not d.var else None for d in self.T[n]])
        g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info(n, TP.FLOAT, d) for n, d in self.desc.items()], [vi(n) for n in outs],
                              [numpy_helper.from_array(a, n) for n, a in self.inits.items()])
        m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 18)])
        m.ir_version = 8
        return m


def classify(f, lo, hi):
    """('affine', a, b), ('scale', a, c, b) for floor((v+c)/a)+b, or None"""
    vals = [f(v) for v in range(lo, hi + 1)]
    if len(set(vals)) == 1:
        return ('const',)
    n = len(vals)
    a = vals[1] - vals[0]
    if all(vals[i] == vals[0] + a * i for i in range(n)):
        return ('affine', a)
    for a in range(2, 33):
        for c in range(a):
            b = vals[0] - (lo + c) // a
            if all((lo + i + c) // a + b == vals[i] for i in range(n)):
                return ('scale', a, c)
    return None


def dkey(b, d):
    return (d.var, tuple(d.f(v) for v in range(b.vars[d.var][0], b.vars[d.var][1] + 1)))


def run(case, mon):
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P14', seed, i)
    b = B(rng)
    m = b.model()
    desc = {k: (tuple(v) if rng.random() < .5 else list(v)) for k, v in b.desc.items()}
    tm = onnx_tool.Model(m)
    with quiet(), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        tg = tm.graph
        if i % 4 == 3:
            # by the function of the package, which has to order the nodes itself
            ms = onnx.ModelProto()
            ms.CopyFrom(m)
            del ms.graph.node[:]
            ms.graph.node.extend([m.graph.node[int(j)] for j in np.random.default_rng([seed, i]).permutation(len(m.graph.node))])
            mon.event('regressions_of_shuffled_models')
            eng, _ = onnx_tool.model_shape_regress(ms, desc, {k: tuple(v) for k, v in b.vars.items()})
        else:
            if rng.random() < .5:
                tg.graph_reorder_nodes()
            eng = tg.shape_regress(desc, {k: tuple(v) for k, v in b.vars.items()})
    mon.event('regressions')
    mon.maximum('expressions', len(eng.tensor_epxr))
    inexact = any('dst key' in str(w.message) for w in caught)
    mon.event('regressions_with_a_warning', inexact)
    cls = {}
    for n, dims in b.T.items():
        for ax, d in enumerate(dims):
            if d.var:
                key = dkey(b, d)
                if key not in cls:
                    cls[key] = classify(d.f, *b.vars[d.var])
    # every value of each range at least once, other variables at random
    envs = []
    for k, (lo, hi) in b.vars.items():
        for v in range(lo, hi + 1):
            e = {q: int(rng.integers(r[0], r[1] + 1)) for q, r in b.vars.items()}
            e[k] = v
            envs.append(e)
    rng.shuffle(envs)
    # closed form against the tool's own inference
    for e in envs[:2]:
        with quiet():
            tg.shape_infer({n: np.zeros([v if isinstance(v, int) else e[v] for v in d], np.float32) for n, d in b.desc.items()})
        for n, dims in b.T.items():
            if list(tg.tensormap[n].get_shape()) != [d.at(e) for d in dims]:
                mon.inconclusive('shape inference differs from the closed form (P03)')
                return
    least = {k: v[0] for k, v in b.vars.items()}
    ends = [] if inexact else [least] + [{**least, k: v[1]} for k, v in b.vars.items()]
    for e in ends + envs[:400]:
        end = not inexact and sum(e[k] != v for k, v in least.items()) <= 1 and all(e[k] in b.vars[k] for k in e)
        for k, v in e.items():
            eng.update_variable(k, v)
        eng.update_variables()
        for n, dims in b.T.items():
            judged = [end or not d.var or bool(cls[dkey(b, d)]) for d in dims]
            mon.event('composed_dimensions_not_judged', len(dims) - sum(judged))
            mon.event('composed_dimensions_at_range_ends', sum(1 for d in dims if end and d.var and not cls[dkey(b, d)]))
            got = eng.get_tensorshape(n)
            want = [d.at(e) for d in dims]
            mon.event('dimensions_compared', sum(judged))
            if got != want:
                if len(got) != len(want):
                    mon.violation('rank', f'{n}: {got} for {want}')
                    return
                for ax, d in enumerate(dims):
                    if got[ax] != want[ax] and judged[ax]:
                        if d.var is None:
                            mon.violation('const', f'{n}[{ax}] predicted {got[ax]}, is {want[ax]}')
                            return
                        c = cls[dkey(b, d)] or ('composed',)
                        prod = next((nd for nd in b.nodes if n in nd[2]), None)
                        mon.violation(c[0], f'{n}[{ax}] ({c}) at {e} predicted {got[ax]}, is {want[ax]}; ranges {b.vars}; producer {prod}; expr { {k: (v[0], v[1].alpha, v[1].beta, v[1].factor, v[1].truncmode) for k, v in eng.tensor_epxr.items()} }')
                        return
    if any(d.var for dims in b.T.values() for d in dims):
        mon.distinct((str(b.nodes), str(b.vars)))
        mon.sample({'ranges': b.vars, 'ops': [n[0] for n in b.nodes], 'classes': sorted({str(c[:2]) if c else 'composed' for c in cls.values()})})
