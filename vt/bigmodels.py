"""Models whose tensors are too large to execute: shapes known by construction, all data are inputs declared with their shapes."""
import math
import numpy as np
from onnx import helper, numpy_helper
from vt import costs

UNARY = ['Relu', 'Sigmoid', 'Tanh', 'Exp', 'Neg', 'Abs', 'Sqrt', 'Softmax', 'LeakyRelu', 'Elu', 'HardSigmoid', 'Identity', 'Log', 'Floor']
DIMS = [1, 2, 3, 7, 64, 1000, 4096, 65535, 65536, 70001, 1 << 20, 3000017, 1 << 24]


class Big:
    def __init__(self, rng):
        self.r = rng
        self.dt = np.dtype([np.float32, np.float32, np.float16, np.float64][int(rng.integers(4))])
        self.S, self.nodes, self.ins, self.inits, self.k, self.want = {}, [], [], {}, 0, {}

    def pick(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def dim(self, most):
        return self.pick([d for d in DIMS if d <= most] or [1])

    def inp(self, shape):
        self.k += 1
        n = f'x{self.k}'
        self.S[n] = tuple(int(d) for d in shape)
        self.ins.append(n)
        return n

    def add(self, op, ins, outs, macs=None, **at):
        names = []
        for s in outs:
            self.k += 1
            names.append(f't{self.k}')
            self.S[names[-1]] = tuple(int(d) for d in s)
        node = helper.make_node(op, ins, names, name=f'n{self.k}', **at)
        shapes = [list(self.S[x]) if x else None for x in ins]
        self.want[node.name] = costs.cost(op, at, shapes, [list(s) for s in outs]) if macs is None else macs
        self.nodes.append(node)
        return names[0]

    def const(self, v):
        self.k += 1
        n = f'c{self.k}'
        self.inits[n] = np.asarray(v, np.int64)
        self.S[n] = self.inits[n].shape
        return n

    def step(self, x):
        s = self.S[x]
        room = max(1, 2 ** 46 // math.prod(s))
        k = self.pick(['unary', 'unary', 'binary', 'matmul', 'matmul', 'gemm', 'conv', 'conv', 'pool', 'reduce', 'transpose', 'reshape', 'concat', 'split', 'einsum', 'gap'])
        if k == 'unary':
            return self.add(self.pick(UNARY), [x], [s])
        if k == 'binary':
            c = int(self.r.integers(len(s) + 1))
            o = tuple(d if self.r.random() < .7 else 1 for d in s[c:])
            y = self.inp(o) if len(o) else x
            return self.add(self.pick(['Add', 'Mul', 'Sub', 'Div', 'Pow']), [x, y] if self.r.random() < .6 else [y, x], [s])
        if k == 'matmul' and len(s) >= 2:
            n = self.dim(room * s[-1])
            b = s[:-2] if self.r.random() < .4 else ()
            w = self.inp(b + (s[-1], n))
            out = s[:-1] + (n,)
            return self.add('MatMul', [x, w], [out], math.prod(out) * s[-1])
        if k == 'gemm' and len(s) == 2:
            n = self.dim(room * s[1])
            ta, tb = bool(self.r.integers(2)), bool(self.r.integers(2))
            m, kk = (s[1], s[0]) if ta else s
            if m * n > 2 ** 46:
                return self.add('Relu', [x], [s])
            ins = [x, self.inp((n, kk) if tb else (kk, n))]
            bias = self.r.random() < .5
            if bias:
                ins.append(self.inp((n,)))
            return self.add('Gemm', ins, [(m, n)], m * n * kk + (m * n if bias else 0), transA=int(ta), transB=int(tb))
        if k == 'conv' and len(s) in (3, 4) and s[1] > 1:
            co = self.dim(min(room * s[1], 1 << 20))
            g = self.pick([1, 1, s[1]] if co % s[1] == 0 else [1])
            ks = [self.pick([1, 2, 3]) for _ in s[2:]]
            st = [self.pick([1, 2]) for _ in s[2:]]
            if any(d < q for d, q in zip(s[2:], ks)):
                return self.add('Relu', [x], [s])
            out = (s[0], co) + tuple((d - q) // t + 1 for d, q, t in zip(s[2:], ks, st))
            ins = [x, self.inp((co, s[1] // g, *ks))]
            if self.r.random() < .5:
                ins.append(self.inp((co,)))
            return self.add('Conv', ins, [out], kernel_shape=ks, strides=st, group=g)
        if k == 'pool' and len(s) in (3, 4) and all(d >= 2 for d in s[2:]):
            return self.add(self.pick(['MaxPool', 'AveragePool']), [x], [s[:2] + tuple(d // 2 for d in s[2:])], kernel_shape=[2] * len(s[2:]), strides=[2] * len(s[2:]))
        if k == 'gap' and len(s) in (3, 4):
            return self.add('GlobalAveragePool', [x], [s[:2] + (1,) * len(s[2:])])
        if k == 'reduce' and len(s):
            return self.add(self.pick(['ReduceMean', 'ReduceMax', 'ReduceL2']), [x], [s[:-1] + (1,)], axes=[-1], keepdims=1)
        if k == 'transpose' and len(s) > 1:
            p = [int(v) for v in self.r.permutation(len(s))]
            return self.add('Transpose', [x], [tuple(s[v] for v in p)], perm=p)
        if k == 'reshape' and len(s) > 1:
            c = self.pick(range(1, len(s)))
            new = s[:c - 1] + (s[c - 1] * s[c],) + s[c + 1:]
            if len(new) > 1:
                return self.add('Reshape', [x, self.const(list(new[:-1]) + [-1])], [new])
        if k == 'concat' and len(s) and room > 4:
            y = self.inp(s[:-1] + (self.dim(s[-1]),))
            return self.add('Concat', [x, y], [s[:-1] + (s[-1] + self.S[y][-1],)], axis=-1)
        if k == 'split' and len(s) and s[-1] % 2 == 0:
            h = s[:-1] + (s[-1] // 2,)
            return self.add('Split', [x], [h, h], axis=len(s) - 1)
        if k == 'einsum' and len(s) == 3:
            n = self.dim(room * s[2])
            w = self.inp((s[0], s[2], n))
            return self.add('Einsum', [x, w], [(s[0], s[1], n)], s[0] * s[1] * s[2] * n, equation='bij,bjk->bik')
        return self.add('Relu', [x], [s])


def make(rng):
    b = Big(rng)
    shape, left = [], 2 ** int(rng.integers(20, 46))
    for _ in range(int(rng.integers(2, 5))):
        shape.append(b.dim(left))
        left //= shape[-1]
    b.r.shuffle(shape)
    cur = b.inp(shape)
    for _ in range(int(rng.integers(2, 9))):
        cur = b.step(cur)
    t = helper.np_dtype_to_tensor_dtype(b.dt)
    g = helper.make_graph(b.nodes, 'g', [helper.make_tensor_value_info(n, t, list(b.S[n])) for n in b.ins], [helper.make_tensor_value_info(cur, t, None)],
                          [numpy_helper.from_array(a, n) for n, a in b.inits.items()])
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)], ir_version=8), b


def arrays(b):
    """arrays of the shapes, without their memory"""
    z = np.zeros((), b.dt)
    return {n: b.inits[n] if n in b.inits else np.broadcast_to(z, s) for n, s in b.S.items()}
