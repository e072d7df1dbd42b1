"""Random whole models with concrete or named input dimensions.

A model is built step by step from templates.  Every tensor's shape is tracked for several assignments of
sizes to the named dimensions, so templates stay legal for all of them.  The trusted values come from executing
the finished model with the ONNX reference evaluator, never from this tracking.
"""
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from vt.oracle import NP2ONNX


ODD_NAMES = ['0', '1', '-1', 'Add', 'Conv', 'None', 'a b', 'x,y', 'x:0', 'é', '权重', 'a/b/c', 'a.b', '"', "it's", 'NaN', '_', '1e5', 'True', 'input', 'output', 'shape', 'constant_fixed_topk_k']


class Info:
    __slots__ = ('shapes', 'dtype', 'static', 'producer')

    def __init__(self, shapes, dtype, static=False, producer=None):
        self.shapes = [tuple(int(v) for v in s) for s in shapes]
        self.dtype = np.dtype(dtype)
        self.static = static
        self.producer = producer


DEFAULT = dict(
    nodes=(3, 14),          # template count
    dynamic=True,           # named input dimensions
    shape_chain=True,       # shapes computed from shapes
    const_chain=True,       # nodes on constants only
    optional=True,          # '' inputs
    dangling=True,          # nodes nobody uses
    shared=True,            # initializers used more than once
    constants=True,         # Constant nodes
    inner_outputs=True,     # graph outputs that are also consumed
    multi_out=True,
    integer=True,           # integer and bool data paths
    quant=True,             # QDQ weights
    spatial=True,           # conv/pool/resize
    dup_inputs=True,
    shuffle=False,
    unnamed=False,          # nodes without names
    value_info=False,
    init_as_input=False,
    unused_init=False,
    affine=False,           # only templates whose dims stay affine in one variable
    rank0=True,
    double=False,
    nsym=None,
    prefix='',
    odd_names=True,         # names which are numbers, paths, operators, ...
    optout=False,           # nodes which leave an earlier optional output unnamed
)


class Gen:
    def __init__(self, rng, assign=3, **opt):
        self.rng = rng
        self.o = dict(DEFAULT)
        self.o.update(opt)
        self.k = assign
        self.nodes, self.inits, self.inputs, self.T = [], {}, [], {}
        self.ctr = 0
        self.syms = {}
        self.used = {}
        self.order = []
        self.templates_used = []
        self.opset = self.o.get('opset') or (17 if rng.random() < 0.5 else 19)
        if self.opset < 19:
            self.o['quant'] = False

    # ---- helpers
    def name(self, base='t'):
        self.ctr += 1
        return f'{self.o["prefix"]}{base}{self.ctr}'

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return self.rng.random() < p

    def ri(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def farr(self, shape, lo=-1.0, hi=1.0, dtype='float32'):
        return np.asarray(self.rng.uniform(lo, hi, size=tuple(int(s) for s in shape)), dtype=dtype)

    def add_input(self, dims, dtype='float32', name=None):
        name = name or self.name('in')
        shapes = [[self.syms[d][a] if isinstance(d, str) else d for d in dims] for a in range(self.k)]
        self.inputs.append((name, np.dtype(dtype), list(dims)))
        self.T[name] = Info(shapes, dtype)
        self.order.append(name)
        return name

    def init(self, arr, name=None, as_constant=None):
        """a static tensor: initializer, or a Constant node"""
        arr = np.asarray(arr)
        if as_constant is None:
            as_constant = self.o['constants'] and self.chance(0.2)
        name = name or self.name('w')
        if as_constant:
            self.nodes.append(helper.make_node('Constant', [], [name], self.nname('Constant'), value=numpy_helper.from_array(arr, name + '_v')))
            self.T[name] = Info([arr.shape] * self.k, arr.dtype, False)
        else:
            self.inits[name] = arr
            self.T[name] = Info([arr.shape] * self.k, arr.dtype, True)
        return name

    def weight(self, shape, lo=-1.0, hi=1.0):
        """float weight, possibly shared, a Constant, constant chain or dequantised"""
        shape = tuple(int(s) for s in shape)
        if self.o['shared'] and self.chance(0.2):
            c = [n for n, a in self.inits.items() if a.shape == shape and a.dtype == np.float32 and n not in self.special]
            if c and (lo, hi) == (-1.0, 1.0):
                return self.pick(c)
        if self.o['quant'] and len(shape) >= 1 and self.chance(0.1):
            q = self.init(self.rng.integers(-100, 100, shape).astype('int8'), as_constant=False)
            s = self.init(np.float32(self.rng.uniform(0.005, 0.02)), as_constant=False)
            z = self.init(np.int8(self.ri(-3, 3)), as_constant=False)
            self.special |= {q, s, z}
            return self.op('DequantizeLinear', [q, s, z], [shape], 'float32')[0] if (lo, hi) == (-1.0, 1.0) else self.init(self.farr(shape, lo, hi))
        if self.o['const_chain'] and self.chance(0.12) and (lo, hi) == (-1.0, 1.0):
            w = self.init(self.farr(shape, -0.5, 0.5))
            r = self.ri(0, 3)
            if r == 0:
                c = self.init(np.asarray([1.5], dtype=np.float32)) if shape else self.init(np.float32(1.5))
                return self.op('Mul', [w, c], [shape], 'float32')[0]
            if r == 1:
                v = self.op('Neg', [w], [shape], 'float32')[0]
                return self.op('Tanh', [v], [shape], 'float32')[0]
            if r == 2 and len(shape) == 2:
                w2 = self.init(self.farr(shape[::-1], -1, 1))
                return self.op('Transpose', [w2], [shape], 'float32', perm=[1, 0])[0]
            d = self.init(self.farr(shape, -1, 1).astype('float64'))
            return self.op('Cast', [d], [shape], 'float32', to=1)[0]
        return self.init(self.farr(shape, lo, hi))

    def nname(self, op):
        self.ctr += 1
        if self.o['unnamed'] and self.chance(0.3):
            return ''
        if self.o['unnamed'] and self.chance(0.3):      # as the tool would name a node without a name
            n = f'{op}_{self.ri(0, 12)}'
            if n not in [x.name for x in self.nodes]:
                return n
        return f'{self.o["prefix"]}{op.lower()}_n{self.ctr}'

    def op(self, op, inputs, shapes_per_output, dtypes, domain=None, **attrs):
        """append a node; shapes_per_output: list (per output) of shape or list of k shapes"""
        outs = []
        if isinstance(dtypes, str):
            dtypes = [dtypes] * len(shapes_per_output)
        for sh, dt in zip(shapes_per_output, dtypes):
            n = self.name('t')
            if sh is None:
                outs.append('')
                continue
            if not (len(sh) == self.k and all(isinstance(s, (tuple, list)) for s in sh)) or len(sh) == 0:
                sh = [tuple(sh)] * self.k
            self.T[n] = Info(sh, dt)
            self.order.append(n)
            outs.append(n)
        node = helper.make_node(op, list(inputs), outs, self.nname(op), domain=domain, **attrs)
        self.nodes.append(node)
        for i in inputs:
            self.used[i] = self.used.get(i, 0) + 1
        self.templates_used.append(op)
        return outs

    def S(self, t):
        return self.T[t].shapes

    def each(self, f):
        return [tuple(f(a)) for a in range(self.k)]

    def const_dim(self, t, ax):
        return len({s[ax] for s in self.S(t)}) == 1

    def floats(self, rank=None, minrank=None, pred=None):
        c = []
        for n in self.order:
            i = self.T[n]
            if i.static or i.dtype != np.float32:
                continue
            r = len(i.shapes[0])
            if rank is not None and r != rank:
                continue
            if minrank is not None and r < minrank:
                continue
            if any(np.prod(s, dtype=np.int64) == 0 or np.prod(s, dtype=np.int64) > 20000 for s in i.shapes):
                continue
            if pred and not pred(n):
                continue
            c.append(n)
        if not c:
            return None
        # favour fresh and unused tensors so the graph grows in depth as well as breadth
        fresh = [n for n in c if n not in self.used]
        if fresh and self.chance(0.6):
            return self.pick(fresh)
        return self.pick(c[-8:]) if self.chance(0.7) else self.pick(c)

    # ---- templates
    def t_unary(self):
        x = self.floats()
        op = self.pick(['Relu', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Abs', 'Identity', 'Erf', 'HardSwish', 'Softmax', 'Sqrt', 'Clip', 'Softplus', 'Exp', 'HardSigmoid', 'Dropout'])
        a, ins = {}, [x]
        if op == 'Softmax':
            if len(self.S(x)[0]) == 0:
                op = 'Tanh'
            else:
                a = {'axis': self.ri(-len(self.S(x)[0]), len(self.S(x)[0]) - 1)}
        if op == 'LeakyRelu':
            a = {'alpha': 0.1}
        if op == 'Sqrt':
            x = self.op('Abs', [x], [self.S(x)], 'float32')[0]
            ins = [x]
        if op == 'Exp':
            x = self.op('Tanh', [x], [self.S(x)], 'float32')[0]
            ins = [x]
        if op == 'Clip':
            lo, hi = self.init(np.float32(-0.5)), self.init(np.float32(0.75))
            if self.o['optional'] and self.chance(0.4):
                ins = [x, '', hi]
            else:
                ins = [x, lo, hi]
        return self.op(op, ins, [self.S(x)], 'float32', **a)

    def t_binary(self):
        x = self.floats()
        op = self.pick(['Add', 'Mul', 'Sub', 'Add', 'Max', 'Min', 'Div'])
        sx = self.S(x)
        same = [n for n in self.order if not self.T[n].static and self.T[n].dtype == np.float32 and self.S(n) == sx and (n != x or self.o['dup_inputs'])]
        r = self.rng.random()
        if r < 0.55 and len(same) > 0:
            y = self.pick(same)
        elif r < 0.8 and len(sx[0]) and self.const_dim(x, -1):
            y = self.weight((sx[0][-1],))
        elif self.o['rank0']:
            y = self.weight(())
        else:
            y = self.weight((1,))
        if op == 'Div':
            y = self.op('Abs', [y], [self.S(y)], 'float32')[0]
            c = self.init(np.float32(1.0)) if self.o['rank0'] else self.init(np.ones(1, np.float32))
            y = self.op('Add', [y, c], [self.S(y) if self.S(y)[0] or self.o['rank0'] else [(1,)] * self.k], 'float32')[0]
        pair = [x, y] if self.chance(0.7) or len(sx[0]) < len(self.S(y)[0]) else [y, x]
        return self.op(op, pair, [self.each(lambda a: np.broadcast_shapes(sx[a], self.S(y)[a]))], 'float32')

    def t_variadic(self):
        x = self.floats()
        same = [n for n in self.order if not self.T[n].static and self.T[n].dtype == np.float32 and self.S(n) == self.S(x)]
        ins = [x] + [self.pick(same) for _ in range(self.ri(1, 2))]
        if not self.o['dup_inputs']:
            ins = list(dict.fromkeys(ins))
        return self.op(self.pick(['Sum', 'Max', 'Min']), ins, [self.S(x)], 'float32')

    def t_conv(self):
        x = self.floats(rank=4, pred=lambda n: self.const_dim(n, 1) and min(min(s[2:]) for s in self.S(n)) >= 2)
        if x is None:
            return self.t_unary()
        c = self.S(x)[0][1]
        g = self.pick([d for d in range(1, c + 1) if c % d == 0]) if self.chance(0.3) else 1
        oc = g * self.ri(1, max(1, 6 // g))
        k = [self.ri(1, 3), self.ri(1, 3)]
        st = [1, 1] if self.o['affine'] == 'unit' else [self.ri(1, 2), self.ri(1, 2)]
        p = [self.ri(0, k[0] - 1), self.ri(0, k[1] - 1), self.ri(0, k[0] - 1), self.ri(0, k[1] - 1)]
        m = min(min(s[2:]) for s in self.S(x))
        p = [max(p[0], k[0] - m), max(p[1], k[1] - m), p[2], p[3]]
        if self.o['affine'] and self.chance(0.7):      # keep sizes exact multiples
            k, p, st = self.pick([([3, 3], [1, 1, 1, 1], [1, 1]), ([1, 1], [0, 0, 0, 0], [1, 1]), ([3, 3], [1, 1, 1, 1], [2, 2]), ([2, 2], [0, 0, 0, 0], [2, 2])])
        w = self.weight((oc, c // g, *k))
        ins = [x, w] + ([self.weight((oc,))] if self.chance(0.5) else [])
        out = self.each(lambda a: (self.S(x)[a][0], oc) + tuple((self.S(x)[a][2 + i] + p[i] + p[2 + i] - k[i]) // st[i] + 1 for i in range(2)))
        y = self.op('Conv', ins, [out], 'float32', kernel_shape=k, strides=st, pads=p, group=g)[0]
        if self.chance(0.4):
            y = self.bn(y)
        return [y]

    def bn(self, x):
        c = self.S(x)[0][1]
        old, self.o['quant'] = self.o['quant'], False
        ws = [self.init(self.farr((c,), 0.5, 1.5)), self.init(self.farr((c,))), self.init(self.farr((c,))), self.init(self.farr((c,), 0.1, 1.0))]
        self.o['quant'] = old
        return self.op('BatchNormalization', [x] + ws, [self.S(x)], 'float32', **({'epsilon': 1e-3} if self.chance(0.5) else {}))[0]

    def t_bn(self):
        x = self.floats(minrank=2, pred=lambda n: self.const_dim(n, 1))
        return [self.bn(x)] if x else self.t_unary()

    def t_pool(self):
        x = self.floats(rank=4, pred=lambda n: min(min(s[2:]) for s in self.S(n)) >= 2)
        if x is None:
            return self.t_unary()
        op = self.pick(['MaxPool', 'AveragePool', 'GlobalAveragePool'])
        if op == 'GlobalAveragePool':
            return self.op(op, [x], [self.each(lambda a: self.S(x)[a][:2] + (1, 1))], 'float32')
        k = [2, 2]
        st = [self.ri(1, 2)] * 2
        out = self.each(lambda a: self.S(x)[a][:2] + tuple((d - 2) // st[0] + 1 for d in self.S(x)[a][2:]))
        return self.op(op, [x], [out], 'float32', kernel_shape=k, strides=st)

    def t_matmul(self):
        x = self.floats(minrank=2, pred=lambda n: self.const_dim(n, -1))
        if x is None:
            return self.t_unary()
        k, n = self.S(x)[0][-1], self.ri(1, 6)
        if len(self.S(x)[0]) == 2 and self.chance(0.4):
            tb = self.ri(0, 1)
            w = self.weight((n, k) if tb else (k, n))
            ins = [x, w] + ([self.weight((n,))] if self.chance(0.6) else [])
            return self.op('Gemm', ins, [self.each(lambda a: (self.S(x)[a][0], n))], 'float32', transB=tb)
        w = self.weight((k, n))
        return self.op('MatMul', [x, w], [self.each(lambda a: self.S(x)[a][:-1] + (n,))], 'float32')

    def t_attention(self):
        """dynamic x dynamic matmul"""
        x = self.floats(minrank=2)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        perm = list(range(r - 2)) + [r - 1, r - 2]
        t = self.op('Transpose', [x], [self.each(lambda a: [self.S(x)[a][p] for p in perm])], 'float32', perm=perm)[0]
        return self.op('MatMul', [x, t], [self.each(lambda a: self.S(x)[a][:-1] + (self.S(x)[a][-2],))], 'float32')

    def t_transpose(self):
        x = self.floats(minrank=2)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        perm = [int(v) for v in self.rng.permutation(r)]
        a = {'perm': perm} if self.chance(0.85) else {}
        if not a:
            perm = list(range(r))[::-1]
        return self.op('Transpose', [x], [self.each(lambda b: [self.S(x)[b][p] for p in perm])], 'float32', **a)

    def t_reshape(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        c = self.ri(0, 3)
        if c == 0:
            sh = self.init(np.asarray([0, -1], np.int64)) if r >= 2 else self.init(np.asarray([-1, 1], np.int64))
            out = self.each(lambda a: (self.S(x)[a][0], int(np.prod(self.S(x)[a][1:]))) if r >= 2 else (self.S(x)[a][0], 1))
            return self.op('Reshape', [x, sh], [out], 'float32')
        if c == 1:
            ax = self.ri(0, r)
            sh = self.init(np.asarray([ax], np.int64))
            return self.op('Unsqueeze', [x, sh], [self.each(lambda a: self.S(x)[a][:ax] + (1,) + self.S(x)[a][ax:])], 'float32')
        if c == 2:
            ones = [i for i in range(r) if all(s[i] == 1 for s in self.S(x))]
            if ones and r > 1:
                ax = self.pick(ones)
                sh = self.init(np.asarray([ax], np.int64))
                return self.op('Squeeze', [x, sh], [self.each(lambda a: self.S(x)[a][:ax] + self.S(x)[a][ax + 1:])], 'float32')
        ax = self.ri(0, r)
        return self.op('Flatten', [x], [self.each(lambda a: (int(np.prod(self.S(x)[a][:ax])), int(np.prod(self.S(x)[a][ax:]))))], 'float32', axis=ax)

    def t_concat(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        ok = [n for n in self.order if not self.T[n].static and self.T[n].dtype == np.float32 and len(self.S(n)[0]) == r
              and all(self.S(n)[a][:ax] == self.S(x)[a][:ax] and self.S(n)[a][ax + 1:] == self.S(x)[a][ax + 1:] for a in range(self.k))]
        if not self.o['dup_inputs']:
            ok = [n for n in ok if n != x] or [x]
        ys = [x] + [self.pick(ok) for _ in range(self.ri(1, 2))]
        if not self.o['dup_inputs']:
            ys = list(dict.fromkeys(ys))
        if len(ys) < 2:
            return self.t_unary()
        return self.op('Concat', ys, [self.each(lambda a: self.S(x)[a][:ax] + (sum(self.S(n)[a][ax] for n in ys),) + self.S(x)[a][ax + 1:])], 'float32',
                       axis=ax if self.chance(0.6) else ax - r)

    def t_split(self):
        if not self.o['multi_out']:
            return self.t_unary()
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        axs = [i for i in range(r) if self.const_dim(x, i) and self.S(x)[0][i] >= 2]
        if not axs:
            return self.t_unary()
        ax = self.pick(axs)
        d = self.S(x)[0][ax]
        a = self.ri(1, d - 1)
        sp = self.init(np.asarray([a, d - a], np.int64))
        outs = self.op('Split', [x, sp], [self.each(lambda b: self.S(x)[b][:ax] + (v,) + self.S(x)[b][ax + 1:]) for v in (a, d - a)], 'float32', axis=ax)
        return outs

    def t_slice(self):
        x = self.floats(minrank=1, pred=lambda n: any(min(s[i] for s in self.S(n)) >= 2 for i in range(len(self.S(n)[0]))))
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.pick([i for i in range(r) if min(s[i] for s in self.S(x)) >= 2])
        st, en, step = self.pick([(1, 2 ** 31 - 1, 1), (0, -1, 1), (0, 2 ** 31 - 1, 2), (-1, -2 ** 31, -1)] if not self.o['affine'] else [(1, 2 ** 31 - 1, 1), (0, -1, 1)])
        out = self.each(lambda a: self.S(x)[a][:ax] + (len(range(*slice(st if st != -1 else -1, en if en > -2 ** 31 else None, step).indices(self.S(x)[a][ax]))),) + self.S(x)[a][ax + 1:])
        ins = [x] + [self.init(np.asarray([v], np.int64)) for v in (st, en, ax)]
        if step != 1 or self.chance(0.5):
            ins.append(self.init(np.asarray([step], np.int64)))
        return self.op('Slice', ins, [out], 'float32')

    def t_reduce(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        kd = self.ri(0, 1)
        if not self.o['rank0'] and r == 1:
            kd = 1
        op = self.pick(['ReduceMean', 'ReduceMax', 'ReduceL2', 'ReduceSum'])
        out = self.each(lambda a: self.S(x)[a][:ax] + ((1,) if kd else ()) + self.S(x)[a][ax + 1:])
        if op == 'ReduceSum' or self.opset >= 18:
            return self.op(op, [x, self.init(np.asarray([ax], np.int64))], [out], 'float32', keepdims=kd)
        return self.op(op, [x], [out], 'float32', axes=[ax if self.chance(0.5) else ax - r], keepdims=kd)

    def t_pad(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        p = [self.ri(0, 1) for _ in range(2 * r)]
        ins = [x, self.init(np.asarray(p, np.int64))]
        if self.chance(0.4):
            ins.append(self.init(np.float32(0.5)))
        return self.op('Pad', ins, [self.each(lambda a: [d + p[i] + p[i + r] for i, d in enumerate(self.S(x)[a])])], 'float32')

    def t_norm(self):
        x = self.floats(minrank=2, pred=lambda n: self.const_dim(n, -1))
        if x is None:
            return self.t_unary()
        d = self.S(x)[0][-1]
        return self.op('LayerNormalization', [x, self.weight((d,)), self.weight((d,))], [self.S(x)], 'float32', axis=-1)

    def t_where(self):
        if not self.o['integer']:
            return self.t_unary()
        x = self.floats()
        z = self.init(np.float32(0.1)) if self.o['rank0'] else self.init(np.asarray([0.1], np.float32))
        sh = [s if s else self.S(z)[0] for s in self.S(x)]
        c = self.op(self.pick(['Greater', 'Less', 'GreaterOrEqual']), [x, z], [sh], 'bool')[0]
        y = self.op('Neg', [x], [self.S(x)], 'float32')[0]
        return self.op('Where', [c, x, y], [sh], 'float32')

    def t_cast(self):
        if not self.o['integer']:
            return self.t_unary()
        x = self.floats()
        dt = self.pick(['int32', 'int64', 'int8', 'float64', 'float16'] if self.o['double'] else ['int32', 'int64', 'float16'])
        h = self.op('Cast', [x], [self.S(x)], dt, to=NP2ONNX[np.dtype(dt)])[0]
        if self.chance(0.5):
            h = self.op('Add' if dt != 'int8' else 'Identity', [h, h] if dt != 'int8' else [h], [self.S(h)], dt)[0]
        return self.op('Cast', [h], [self.S(h)], 'float32', to=1)

    def t_argmax(self):
        if not self.o['integer']:
            return self.t_unary()
        x = self.floats(minrank=2)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        i = self.op('ArgMax', [x], [self.each(lambda a: self.S(x)[a][:ax] + (1,) + self.S(x)[a][ax + 1:])], 'int64', axis=ax, keepdims=1)[0]
        return self.op('Cast', [i], [self.S(i)], 'float32', to=1)

    def t_topk(self):
        if not (self.o['multi_out'] and self.o['integer']):
            return self.t_unary()
        x = self.floats(minrank=1, pred=lambda n: min(s[-1] for s in self.S(n)) >= 2)
        if x is None:
            return self.t_unary()
        k = self.init(np.asarray([self.ri(1, 2)], np.int64), as_constant=False)
        out = self.each(lambda a: self.S(x)[a][:-1] + (int(self.inits[k][0]),))
        v, i = self.op('TopK', [x, k], [out, out], ['float32', 'int64'], axis=-1)
        if self.chance(0.5):
            return [v] + self.op('Cast', [i], [out], 'float32', to=1)
        return [v]

    def t_embed(self):
        """integer input looked up in a table"""
        ids = [n for n, d, _ in self.inputs if d == np.int64]
        if not ids:
            return self.t_unary()
        i = self.pick(ids)
        v, e = 8, self.ri(2, 6)
        w = self.weight((v, e))
        return self.op('Gather', [w, i], [self.each(lambda a: self.S(i)[a] + (e,))], 'float32', axis=0)

    def t_gather(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        if self.o['rank0'] and self.chance(0.4) and r > 1:
            i, ish = self.init(np.asarray(0, np.int64)), ()
        else:
            i, ish = self.init(np.asarray([0, 0], np.int64)), (2,)
        return self.op('Gather', [x, i], [self.each(lambda a: self.S(x)[a][:ax] + ish + self.S(x)[a][ax + 1:])], 'float32', axis=ax)

    # shapes from shapes
    def dim_of(self, x, ax):
        """1-element int64 tensor holding a dimension; one computed before may be used again"""
        if (x, ax) in self.dims_known and self.chance(0.6):
            return self.dims_known[x, ax]
        self.dims_known[x, ax] = d = self.new_dim_of(x, ax)
        return d

    def new_dim_of(self, x, ax):
        s = self.op('Shape', [x], [(len(self.S(x)[0]),)], 'int64')[0]
        if self.chance(0.5):
            i = self.init(np.asarray(ax, np.int64)) if self.o['rank0'] else self.init(np.asarray([ax], np.int64))
            g = self.op('Gather', [s, i], [self.S(i)], 'int64', axis=0)[0]
            if self.o['rank0']:
                z = self.init(np.asarray([0], np.int64))
                return self.op('Unsqueeze', [g, z], [(1,)], 'int64')[0]
            return g
        b, e, z = (self.init(np.asarray([v], np.int64)) for v in (ax, ax + 1, 0))
        return self.op('Slice', [s, b, e, z], [(1,)], 'int64')[0]

    def t_dynreshape(self):
        x = self.floats(minrank=2)
        if x is None or not self.o['shape_chain']:
            return self.t_reshape()
        d = self.dim_of(x, 0)
        m = self.init(np.asarray([-1], np.int64))
        sh = self.op('Concat', [d, m], [(2,)], 'int64', axis=0)[0]
        return self.op('Reshape', [x, sh], [self.each(lambda a: (self.S(x)[a][0], int(np.prod(self.S(x)[a][1:]))))], 'float32')

    def t_dynresize(self):
        x = self.floats(rank=4)
        if x is None or not (self.o['shape_chain'] and self.o['optional'] and self.o['spatial']):
            return self.t_reshape()
        s = self.op('Shape', [x], [(4,)], 'int64')[0]
        z, two, four = (self.init(np.asarray([v], np.int64)) for v in (0, 2, 4))
        a = self.op('Slice', [s, z, two, z], [(2,)], 'int64')[0]
        b = self.op('Slice', [s, two, four, z], [(2,)], 'int64')[0]
        f = self.init(np.asarray([2, self.ri(1, 3)], np.int64), as_constant=False)
        b2 = self.op('Mul', [b, f], [(2,)], 'int64')[0]
        sz = self.op('Concat', [a, b2], [(4,)], 'int64', axis=0)[0]
        fv = self.inits[f]
        return self.op('Resize', [x, '', '', sz], [self.each(lambda q: self.S(x)[q][:2] + (self.S(x)[q][2] * int(fv[0]), self.S(x)[q][3] * int(fv[1])))], 'float32',
                       mode='nearest', coordinate_transformation_mode='asymmetric', nearest_mode='floor')

    def t_dynexpand(self):
        x = self.floats(minrank=1)
        if x is None or not self.o['shape_chain']:
            return self.t_unary()
        s = self.op('Shape', [x], [(len(self.S(x)[0]),)], 'int64')[0]
        if self.chance(0.5):
            e = self.op('ConstantOfShape', [s], [self.S(x)], 'float32', value=numpy_helper.from_array(np.asarray([0.25], np.float32)))[0]
        else:
            w = self.init(np.asarray([0.3], np.float32))
            e = self.op('Expand', [w, s], [self.S(x)], 'float32')[0]
        return self.op('Mul', [x, e], [self.S(x)], 'float32')

    def t_dynrange(self):
        x = self.floats(minrank=1)
        if x is None or not (self.o['shape_chain'] and self.o['rank0']):
            return self.t_unary()
        r = len(self.S(x)[0])
        s = self.op('Shape', [x], [(r,)], 'int64')[0]
        i = self.init(np.asarray(r - 1, np.int64))
        n = self.op('Gather', [s, i], [()], 'int64', axis=0)[0]
        z, o = self.init(np.asarray(0, np.int64)), self.init(np.asarray(1, np.int64))
        rg = self.op('Range', [z, n, o], [self.each(lambda a: (self.S(x)[a][-1],))], 'int64')[0]
        c = self.op('Cast', [rg], [self.S(rg)], 'float32', to=1)[0]
        return self.op('Add', [x, c], [self.S(x)], 'float32')

    def t_dynslice(self):
        x = self.floats(minrank=1, pred=lambda n: min(s[0] for s in self.S(n)) >= 2)
        if x is None or not self.o['shape_chain'] or self.o['affine']:
            return self.t_unary()
        d = self.dim_of(x, 0)
        two = self.init(np.asarray([2], np.int64))
        e = self.op('Div', [d, two], [(1,)], 'int64')[0]
        z = self.init(np.asarray([0], np.int64))
        return self.op('Slice', [x, z, e, z], [self.each(lambda a: (self.S(x)[a][0] // 2,) + self.S(x)[a][1:])], 'float32')

    def dynfloats(self, **kw):
        return self.floats(**kw) if self.o['shape_chain'] and not self.o['affine'] else None

    def t_dynscales(self):
        """Resize by scales which are computed (third of three inputs)"""
        x = self.floats(rank=4)
        if x is None or not (self.o['shape_chain'] and self.o['optional'] and self.o['spatial']):
            return self.t_unary()
        f = [self.ri(1, 3), self.ri(1, 3)]
        d = [self.op('Cast', [self.dim_of(x, a)], [(1,)], 'float32', to=1)[0] for a in (2, 3)]
        m = [self.op('Mul', [t, self.init(np.asarray([k], np.float32))], [(1,)], 'float32')[0] for t, k in zip(d, f)]
        q = [self.op('Div', [a, b], [(1,)], 'float32')[0] for a, b in zip(m, d)]
        sc = self.op('Concat', [self.init(np.asarray([1, 1], np.float32)), *q], [(4,)], 'float32', axis=0)[0]
        return self.op('Resize', [x, '', sc], [self.each(lambda a: self.S(x)[a][:2] + (self.S(x)[a][2] * f[0], self.S(x)[a][3] * f[1]))], 'float32',
                       mode='nearest', coordinate_transformation_mode='asymmetric', nearest_mode='floor')

    def t_dynonehot(self):
        x = self.dynfloats(minrank=1)
        if x is None or not self.o['rank0']:
            return self.t_unary()
        ax = self.ri(0, len(self.S(x)[0]) - 1)
        depth = self.op('Squeeze', [self.dim_of(x, ax)], [()], 'int64')[0]
        i = self.op('ArgMax', [x], [self.each(lambda a: self.S(x)[a][:ax] + self.S(x)[a][ax + 1:])], 'int64', axis=ax, keepdims=0)[0]
        v = self.init(np.asarray([0, 1], np.float32))
        h = self.op('OneHot', [i, depth, v], [self.S(x)], 'float32', axis=ax)[0]
        return self.op('Mul', [x, h], [self.S(x)], 'float32')

    def t_dyntopk(self):
        ax = -1
        x = self.dynfloats(minrank=1, pred=lambda n: min(s[ax] for s in self.S(n)) >= 2)
        if x is None or not self.o['multi_out']:
            return self.t_unary()
        k = self.op('Div', [self.dim_of(x, len(self.S(x)[0]) - 1), self.init(np.asarray([2], np.int64))], [(1,)], 'int64')[0]
        sh = self.each(lambda a: self.S(x)[a][:-1] + (self.S(x)[a][-1] // 2,))
        return self.op('TopK', [x, k], [sh, sh], ['float32', 'int64'], axis=ax)[:1]

    def t_dynpad(self):
        x = self.dynfloats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        h = self.op('Div', [self.dim_of(x, ax), self.init(np.asarray([2], np.int64))], [(1,)], 'int64')[0]
        before = self.chance(0.5)
        z = lambda n: [self.init(np.zeros(n, np.int64))] if n else []
        pads = z(ax) + [h] + z(2 * r - ax - 1) if before else z(r + ax) + [h] + z(r - ax - 1)
        p = self.op('Concat', pads, [(2 * r,)], 'int64', axis=0)[0]
        ins = [x, p] + ([self.init(np.asarray(0.5, np.float32))] if self.o['rank0'] and self.chance(0.4) else [])
        return self.op('Pad', ins, [self.each(lambda a: [d + (d // 2 if j == ax else 0) for j, d in enumerate(self.S(x)[a])])], 'float32')

    def t_dynsplit(self):
        x = self.dynfloats(minrank=1, pred=lambda n: min(s[-1] for s in self.S(n)) >= 2)
        if x is None or not self.o['multi_out']:
            return self.t_unary()
        r = len(self.S(x)[0])
        d = self.dim_of(x, r - 1)
        h = self.op('Div', [d, self.init(np.asarray([2], np.int64))], [(1,)], 'int64')[0]
        t = self.op('Sub', [d, h], [(1,)], 'int64')[0]
        p = self.op('Concat', [h, t], [(2,)], 'int64', axis=0)[0]
        return self.op('Split', [x, p], [self.each(lambda a: self.S(x)[a][:-1] + (self.S(x)[a][-1] // 2,)),
                                         self.each(lambda a: self.S(x)[a][:-1] + (self.S(x)[a][-1] - self.S(x)[a][-1] // 2,))], ['float32', 'float32'], axis=r - 1)

    def rank_of(self, x):
        s = self.op('Shape', [x], [(len(self.S(x)[0]),)], 'int64')[0]
        return self.op('Shape', [s], [(1,)], 'int64')[0]

    def t_dynaxes(self):
        """axes or repeats computed from the rank: Unsqueeze, Squeeze, reductions, Tile"""
        x = self.dynfloats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        kind = self.pick(['Unsqueeze', 'Squeeze', 'ReduceSum', 'ReduceMean', 'ReduceMax', 'Tile'])
        if kind in ('ReduceMean', 'ReduceMax') and self.opset < 18:
            kind = 'ReduceSum'
        if r == 1 and kind.startswith('Reduce') and not self.o['rank0']:
            kind = 'Unsqueeze'
        n = self.rank_of(x)
        if kind == 'Tile':
            if r > 3:
                return self.t_unary()
            rep = self.op('Concat', [self.init(np.ones(r - 1, np.int64)), n], [(r,)], 'int64', axis=0)[0] if r > 1 else n
            return self.op('Tile', [x, rep], [self.each(lambda a: self.S(x)[a][:-1] + (self.S(x)[a][-1] * r,))], 'float32')
        if kind == 'Unsqueeze':
            return self.op('Unsqueeze', [x, n], [self.each(lambda a: self.S(x)[a] + (1,))], 'float32')
        if kind == 'Squeeze':
            u = self.op('Unsqueeze', [x, n], [self.each(lambda a: self.S(x)[a] + (1,))], 'float32')[0]
            return self.op('Squeeze', [u, n], [self.S(x)], 'float32')
        last = self.op('Sub', [n, self.init(np.asarray([1], np.int64))], [(1,)], 'int64')[0]
        keep = self.ri(0, 1)
        return self.op(kind, [x, last], [self.each(lambda a: self.S(x)[a][:-1] + ((1,) if keep else ()))], 'float32', keepdims=keep)

    def t_dimdata(self):
        """a dimension which is used as a shape and as data"""
        x = self.dynfloats(minrank=1)
        if x is None:
            return self.t_unary()
        d = self.dim_of(x, self.ri(0, len(self.S(x)[0]) - 1))
        f = self.op('Cast', [d], [(1,)], 'float32', to=1)[0]
        return self.op('Div', [x, f], [self.S(x)], 'float32')

    def t_dynchain(self):
        """a size computed from a dimension by a chain of unusual integer arithmetic (operators whose values the tool computes)"""
        x = self.dynfloats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        ax = self.ri(0, r - 1)
        dims = [s[ax] for s in self.S(x)]
        d, v = self.dim_of(x, ax), list(dims)
        for _ in range(self.ri(1, 3)):
            step = getattr(self, 'c_' + self.pick(self.CHAIN))
            got = step(d, v)
            if got is not None and all(0 <= a <= 4000 for a in got[1]):
                d, v = got
        # into 1..dimension
        d = self.op('Max', [d, self.vec(1)], [(1,)], 'int64')[0]
        d = self.op('Min', [d, self.dim_of(x, ax)], [(1,)], 'int64')[0]
        v = [min(max(a, 1), m) for a, m in zip(v, dims)]
        cut = self.each(lambda a: self.S(x)[a][:ax] + (v[a],) + self.S(x)[a][ax + 1:])
        how = self.ri(0, 3)
        if how == 0 and self.o['multi_out']:
            return self.op('TopK', [x, d], [cut, cut], ['float32', 'int64'], axis=ax)[:1]
        if how == 1:
            e = self.op('Mul', [d, self.vec(-1)], [(1,)], 'int64')[0]
            return self.op('Slice', [x, e, self.vec(2 ** 31 - 1), self.vec(ax)], [cut], 'float32')
        if how == 2:
            m = self.op('ReduceMean', [x], [self.each(lambda a: (1,) * r)], 'float32', keepdims=1)[0]
            sh = self.op('Concat', [self.vec(1)] * ax + [d] + [self.vec(1)] * (r - 1 - ax), [(r,)], 'int64', axis=0)[0]
            return self.op('Expand', [m, sh], [self.each(lambda a: (1,) * ax + (v[a],) + (1,) * (r - 1 - ax))], 'float32')
        return self.op('Slice', [x, self.vec(0), d, self.vec(ax)], [cut], 'float32')

    CHAIN = ['nonzero', 'where', 'clamp', 'mod', 'reduce', 'cumsum', 'scatternd', 'range', 'split', 'float', 'absdiff', 'expand', 'shape2d', 'argmax', 'power', 'logic', 'pad',
             'gathernd', 'matmul', 'compress', 'onehot', 'trilu', 'subshape']

    def vec(self, *v):
        return self.init(np.asarray(v, np.int64))

    def i64(self, op, ins, shape, **attrs):
        return self.op(op, ins, [shape], 'int64', **attrs)[0]

    def pair(self, d, v):
        c = self.ri(1, 6)
        return (self.i64('Concat', [d, self.vec(c)], (2,), axis=0), c) if self.chance(0.5) else (self.i64('Concat', [self.vec(c), d], (2,), axis=0), c)

    def c_nonzero(self, d, v):
        if min(v) < 1 or max(v) > 300:
            return None
        one = self.pick([np.asarray([2], np.int64), np.asarray([1], np.float32)])
        c = self.op('ConstantOfShape', [d], [self.each(lambda a: (v[a],))], str(one.dtype), value=numpy_helper.from_array(one))[0]
        z = self.i64('NonZero', [c], self.each(lambda a: (1, v[a])))
        t = self.i64('Transpose', [z], self.each(lambda a: (v[a], 1)), perm=[1, 0])
        s = self.i64('Squeeze', [t, self.vec(1)], self.each(lambda a: (v[a],)))
        return self.i64('Gather', [s, self.vec(-1)], (1,), axis=0), [a - 1 for a in v]

    def c_where(self, d, v):
        k, m = self.ri(2, 7), self.ri(1, 5)
        c = self.op('Equal', [d, self.vec(k)], [(1,)], 'bool')[0]
        return self.i64('Where', [c, self.vec(m), d], (1,)), [m if a == k else a for a in v]

    def c_clamp(self, d, v):
        k = self.ri(1, 6)
        if self.chance(0.5):
            return self.i64('Max', [d, self.vec(k)], (1,)), [max(a, k) for a in v]
        return self.i64('Min', [self.vec(k), d], (1,)), [min(a, k) for a in v]

    def c_mod(self, d, v):
        k = self.ri(2, 5)
        return self.i64('Mod', [d, self.vec(k)], (1,)), [a % k for a in v]

    def c_reduce(self, d, v):
        p, c = self.pair(d, v)
        op, f = self.pick([('ReduceProd', lambda a: a * c), ('ReduceSum', lambda a: a + c), ('ReduceMax', lambda a: max(a, c)), ('ReduceMin', lambda a: min(a, c))])
        return self.i64(op, [p], (1,), keepdims=1), [f(a) for a in v]

    def c_cumsum(self, d, v):
        if not self.o['rank0']:
            return None
        p, c = self.pair(d, v)
        s = self.i64('CumSum', [p, self.init(np.asarray(0, np.int64))], (2,))
        return self.i64('Gather', [s, self.vec(1)], (1,), axis=0), [a + c for a in v]

    def c_scatternd(self, d, v):
        i = self.ri(0, 2)
        s = self.i64('ScatterND', [self.vec(1, 2, 3), self.init(np.asarray([[i]], np.int64)), d], (3,))
        return self.i64('Slice', [s, self.vec(i), self.vec(i + 1)], (1,)), v

    def c_range(self, d, v):
        if not self.o['rank0'] or min(v) < 1:
            return None
        n = self.i64('Squeeze', [d], ())
        z, o = self.init(np.asarray(0, np.int64)), self.init(np.asarray(1, np.int64))
        g = self.i64('Range', [z, n, o], self.each(lambda a: (v[a],)))
        if self.chance(0.5):
            return self.i64('ReduceMax', [g], (1,), keepdims=1), [a - 1 for a in v]
        return self.i64('Shape', [g], (1,)), v

    def c_split(self, d, v):
        if not self.o['multi_out']:
            return None
        c = self.i64('Concat', [self.vec(3), d, self.vec(5)], (3,), axis=0)
        a, b = self.op('Split', [c, self.vec(1, 2)], [(1,), (2,)], ['int64', 'int64'], axis=0)
        return self.i64('Gather', [b, self.vec(0)], (1,), axis=0), v

    def c_float(self, d, v):
        f = self.op('Cast', [d], [(1,)], 'float32', to=1)[0]
        op, g = self.pick([('Sqrt', np.sqrt), ('Mul', lambda a: a * np.float32(1.5)), ('Div', lambda a: a / np.float32(2))])
        ins = [f] if op == 'Sqrt' else [f, self.init(np.asarray([1.5 if op == 'Mul' else 2], np.float32))]
        f = self.op(op, ins, [(1,)], 'float32')[0]
        rop, rf = self.pick([('Floor', np.floor), ('Ceil', np.ceil), ('Round', np.round)])
        f = self.op(rop, [f], [(1,)], 'float32')[0]
        return self.i64('Cast', [f], (1,), to=7), [int(rf(g(np.float32(a)))) for a in v]

    def c_absdiff(self, d, v):
        k = self.ri(1, 9)
        s = self.i64('Sub', [d, self.vec(k)], (1,))
        if self.chance(0.5):
            s = self.i64('Neg', [s], (1,))
        return self.i64('Abs', [s], (1,)), [abs(a - k) for a in v]

    def c_expand(self, d, v):
        if self.chance(0.5):
            e = self.i64('Expand', [d, self.vec(2, 3)], (2, 3))
            f = self.i64('Slice', [self.i64('Flatten', [e], (1, 6), axis=0), self.vec(0, 2), self.vec(1, 3), self.vec(0, 1)], (1, 1))
            return self.i64('Squeeze', [f, self.vec(1)], (1,)), v
        t = self.i64('Tile', [d, self.vec(3)], (3,))
        return self.i64('Gather', [t, self.vec(2)], (1,), axis=0), v

    def c_shape2d(self, d, v):
        k = self.ri(2, 4)
        e = self.i64('Reshape', [self.i64('Concat', [d] * k, (k,), axis=0), self.vec(1, k)], (1, k))
        t = self.i64('Transpose', [e], (k, 1), perm=[1, 0])
        f = self.i64('Flatten', [t], (1, k), axis=0)
        q = self.i64('Squeeze', [f, self.vec(0)], (k,))
        return self.i64('Gather', [q, self.vec(k - 1)], (1,), axis=0), v

    def c_argmax(self, d, v):
        c = self.ri(1, 6)
        p = self.i64('Concat', [self.vec(c), d], (2,), axis=0)
        return self.i64('ArgMax', [p], (1,), axis=0, keepdims=1), [int(a > c) for a in v]

    def c_power(self, d, v):
        return self.i64('Pow', [d, self.vec(2)], (1,)), [a * a for a in v]

    def c_logic(self, d, v):
        lo, hi = self.ri(1, 4), self.ri(3, 7)
        less = self.pick(['Less', 'LessOrEqual'])
        a = self.op(less, [d, self.vec(lo)], [(1,)], 'bool')
        b = self.op(self.pick(['Greater', 'GreaterOrEqual']), [d, self.vec(hi)], [(1,)], 'bool')
        ta = [x < lo if less == 'Less' else x <= lo for x in v]
        tb = [x > hi if self.nodes[-1].op_type == 'Greater' else x >= hi for x in v]
        op, f = self.pick([('Or', lambda p, q: p or q), ('And', lambda p, q: p and q), ('Xor', lambda p, q: p != q)])
        c = self.op(op, [a[0], b[0]], [(1,)], 'bool')[0]
        t = [f(p, q) for p, q in zip(ta, tb)]
        if self.chance(0.4):
            c, t = self.op('Not', [c], [(1,)], 'bool')[0], [not q for q in t]
        if self.chance(0.5):
            k = self.i64('Cast', [c], (1,), to=7)
            return self.i64('Add', [d, k], (1,)), [x + int(q) for x, q in zip(v, t)]
        return self.i64('Where', [c, d, self.vec(2)], (1,)), [x if q else 2 for x, q in zip(v, t)]

    def c_pad(self, d, v):
        if not self.o['rank0']:
            return None
        p = self.i64('Pad', [d, self.vec(1, 2), self.init(np.asarray(3, np.int64))], (4,))
        return self.i64('ReduceSum', [p], (1,), keepdims=1), [a + 9 for a in v]

    def c_gathernd(self, d, v):
        p, c = self.pair(d, v)
        i = self.ri(0, 1)
        w = self.nodes[-1].input[0] == d
        return self.i64('GatherND', [p, self.init(np.asarray([[i]], np.int64))], (1,)), [(a if (i == 0) == w else c) for a in v]

    def c_matmul(self, d, v):
        p, c = self.pair(d, v)
        first = self.nodes[-1].input[0] == d
        w = [self.ri(1, 3), self.ri(0, 2)]
        m = self.i64('MatMul', [p, self.init(np.asarray(w, np.int64).reshape(2, 1))], (1,))
        return m, [(a * w[0] + c * w[1]) if first else (c * w[0] + a * w[1]) for a in v]

    def c_compress(self, d, v):
        p, c = self.pair(d, v)
        first = self.nodes[-1].input[0] == d
        return self.i64('Compress', [p, self.init(np.asarray([first, not first]))], (1,), axis=0), v

    def c_onehot(self, d, v):
        if not self.o['rank0'] or max(v) > 12:
            return None
        h = self.i64('OneHot', [d, self.init(np.asarray(13, np.int64)), self.vec(1, 4)], (1, 13), axis=-1)
        s = self.i64('ArgMax', [h], (1, 1), axis=1, keepdims=1)
        return self.i64('Reshape', [s, self.vec(-1)], (1,)), v

    def c_trilu(self, d, v):
        e = self.i64('Reshape', [self.i64('Concat', [d, self.vec(9), d, d], (4,), axis=0), self.vec(2, 2)], (2, 2))
        t = self.i64('Trilu', [e], (2, 2), upper=0)
        f = self.i64('Reshape', [t, self.vec(4)], (4,))
        return self.i64('ReduceMax', [f], (1,), keepdims=1), v

    def c_subshape(self, d, v):
        """the size of something made of this size"""
        if min(v) < 1 or max(v) > 300:
            return None
        c = self.op('ConstantOfShape', [d], [self.each(lambda a: (v[a],))], 'float32')[0]
        e = self.op('Concat', [c, self.init(np.asarray([1, 2], np.float32), as_constant=False)], [self.each(lambda a: (v[a] + 2,))], 'float32', axis=0)[0]
        return self.i64('Shape', [e], (1,)), [a + 2 for a in v]

    def t_tile(self):
        x = self.floats(minrank=1)
        if x is None:
            return self.t_unary()
        r = len(self.S(x)[0])
        rep = [1] * r
        rep[self.ri(0, r - 1)] = 2
        return self.op('Tile', [x, self.init(np.asarray(rep, np.int64))], [self.each(lambda a: [d * q for d, q in zip(self.S(x)[a], rep)])], 'float32')

    def t_static_resize(self):
        x = self.floats(rank=4)
        if x is None or not (self.o['spatial'] and self.o['optional']):
            return self.t_unary()
        sc = self.init(np.asarray([1, 1, 2, 2], np.float32), as_constant=False)
        self.special.add(sc)
        return self.op('Resize', [x, '', sc], [self.each(lambda q: self.S(x)[q][:2] + (self.S(x)[q][2] * 2, self.S(x)[q][3] * 2))], 'float32',
                       mode='nearest', coordinate_transformation_mode='asymmetric', nearest_mode='floor')

    def t_optout(self):
        """LSTM/GRU whose full sequence output is not named: outputs ('', last)"""
        if not (self.o['optout'] and self.o['optional']):
            return self.t_unary()
        x = self.floats(rank=3, pred=lambda n: self.const_dim(n, 2))
        if x is None:
            y = self.floats(minrank=1)
            if y is None:
                return self.t_unary()
            return self.op('Dropout', [y], [self.S(y)], 'float32')
        i, h = self.S(x)[0][2], self.ri(1, 3)
        kind = self.pick(['LSTM', 'GRU', 'RNN'])
        k = {'LSTM': 4, 'GRU': 3, 'RNN': 1}[kind]
        if kind == 'RNN':
            kind, k = 'GRU', 3
        w, r = self.weight((1, k * h, i)), self.weight((1, k * h, h))
        ins = [x, w, r]
        if self.chance(0.5):
            ins.append(self.weight((1, 2 * k * h)))
        elif self.chance(0.5):
            ins.append('')
        last = self.each(lambda a: (1, self.S(x)[a][1], h))
        outs = self.op(kind, ins, [None, last], 'float32', hidden_size=h)
        return outs[1:]

    TEMPL = ['unary', 'unary', 'binary', 'binary', 'variadic', 'conv', 'conv', 'bn', 'pool', 'matmul', 'matmul', 'attention', 'transpose', 'reshape', 'reshape', 'concat',
             'split', 'slice', 'reduce', 'pad', 'norm', 'where', 'cast', 'argmax', 'topk', 'embed', 'gather', 'dynreshape', 'dynresize', 'dynexpand', 'dynrange', 'dynslice', 'tile',
             'static_resize', 'optout', 'dynscales', 'dynonehot', 'dyntopk', 'dynpad', 'dynsplit', 'dynaxes', 'dimdata', 'dynchain', 'dynchain', 'dynchain']

    def build(self):
        o = self.o
        self.special = set()
        self.kept = []
        self.dims_known = {}
        kind = self.pick(['img', 'img', 'seq', 'mat', 'ids']) if o['spatial'] else self.pick(['seq', 'mat', 'ids'])
        if o['dynamic']:
            ns = o['nsym'] if o['nsym'] is not None else self.ri(0, 2)
        else:
            ns = 0
        for i in range(ns):
            lo = 4 if o['affine'] else 2
            if o['affine']:
                base = 4 * self.ri(1, 2)
                vals = [base + 4 * j for j in range(self.k)]
            else:
                vals = [self.ri(lo, 7) for _ in range(self.k)]
            self.syms['NHWQ'[i] if not o['prefix'] else o['prefix'] + 'NHWQ'[i]] = vals
        sy = list(self.syms)

        def D(i, v):
            # the i-th dimension of the first input is symbolic when there are enough symbols
            return v
        if kind == 'img':
            dims = [self.ri(1, 2), self.ri(1, 4), self.ri(3, 7), self.ri(3, 7)]
            for s, ax in zip(sy, [2, 3, 0, 3]):
                dims[ax] = s
            if len(sy) == 1 and self.chance(0.3):
                dims = [sy[0]] + [d if not isinstance(d, str) else 5 for d in dims[1:]]
        elif kind == 'seq':
            dims = [self.ri(1, 2), self.ri(2, 5), self.ri(2, 6)]
            for s, ax in zip(sy, [1, 0, 1, 0]):
                dims[ax] = s
        elif kind == 'mat':
            dims = [self.ri(1, 5), self.ri(2, 6)]
            for s, ax in zip(sy, [0, 1, 0, 1]):
                dims[ax] = s
        else:
            dims = [self.ri(1, 2), self.ri(2, 5)]
            for s, ax in zip(sy, [1, 0, 1, 0]):
                dims[ax] = s
        if kind == 'ids':
            self.add_input(dims, 'int64')
            self.t_embed()
        else:
            self.add_input(dims)
        while len(self.inputs) < 3 and self.chance(0.35):
            self.add_input(dims if self.chance(0.6) and kind != 'ids' else [self.ri(1, 4) for _ in range(self.ri(1, 3))])
        n = self.ri(*o['nodes'])
        templ = [t for t in self.TEMPL]
        if not o['spatial']:
            templ = [t for t in templ if t not in ('conv', 'pool', 'static_resize', 'dynresize', 'dynscales')]
        if not o['optout']:
            templ = [t for t in templ if t != 'optout']
        if o.get('templ'):
            templ = o['templ']
        for _ in range(n):
            getattr(self, 't_' + self.pick(templ))()
        return self.finish()

    def finish(self):
        o = self.o
        consumed = set()
        for nd in self.nodes:
            consumed |= set(nd.input)
        produced = [n for n in self.order if n not in [i[0] for i in self.inputs] and not self.T[n].static]
        sinks = [n for n in produced if n not in consumed]
        outs = []
        for s in sinks:
            if not o['dangling'] or self.chance(0.75):
                outs.append(s)
        if not outs:
            outs = [self.pick(sinks)] if sinks else [produced[-1]]
        if o['inner_outputs'] and self.chance(0.3):
            inner = [n for n in produced if n in consumed and n not in outs]
            if inner:
                outs.append(self.pick(inner))
        if o['inner_outputs'] and self.chance(0.08):     # an input or a weight which is a result, too
            given = [n for n, _, _ in self.inputs] + [n for n in self.inits if n in self.T]
            given = [n for n in given if n in consumed]
            if given:
                outs.append(self.pick(given))
        self.rng.shuffle(outs)
        self.outs = [str(x) for x in outs]
        # inputs nobody consumes cannot appear in the tool's graph; give them a consumer
        for n, d, dims in self.inputs:
            if n not in consumed:
                if o['inner_outputs'] and self.chance(.3):       # an input which only is a result
                    self.outs.append(n)
                    continue
                y = self.op('Identity', [n], [self.S(n)], str(d))[0]
                self.outs.append(y)
        nodes = list(self.nodes)
        if o['shuffle']:
            self.rng.shuffle(nodes)
        self.nodes = nodes
        if o['unused_init']:
            self.inits['unused_w'] = self.farr((3,))
        if self.o['odd_names'] and self.chance(0.1) and not self.o['prefix']:
            self.rename()
        return self

    def rename(self):
        """tensors and nodes called like numbers, like each other, like operators, like paths or in other alphabets"""
        old = list(dict.fromkeys([*self.order, *self.inits, *self.T, *(t for nd in self.nodes for t in [*nd.input, *nd.output] if t)]))
        kind = self.ri(0, 3)
        perm = self.rng.permutation(len(old))
        new = {}
        for t, k in zip(old, perm):
            k = int(k)
            odd = ODD_NAMES[k] if k < len(ODD_NAMES) else None
            new[t] = (str(k) if kind == 0 else odd or f'{t}' if kind == 1 else f'/model/layers.{k}/Add_output_0' if kind == 2 else f'{t}_' * (k % 3 + 1))
        if len(set(new.values())) < len(new):
            return
        self.order = [new[t] for t in self.order]
        self.inits = {new[t]: a for t, a in self.inits.items()}
        self.inputs = [(new[n], d, dims) for n, d, dims in self.inputs]
        self.T = {new[t]: i for t, i in self.T.items()}
        self.outs = [new[t] for t in self.outs]
        self.special = {new.get(t, t) for t in self.special}
        nn = self.rng.permutation(len(self.nodes))
        for nd, k in zip(self.nodes, nn):
            nd.input[:] = [new.get(t, t) for t in nd.input]
            nd.output[:] = [new.get(t, t) for t in nd.output]
            if nd.name:
                outs = [t for t in nd.output if t]
                nd.name = str(int(k)) if kind == 0 else outs[0] if kind in (1, 2) and outs else nd.name

    def model(self, out_info=True):
        gi = [helper.make_tensor_value_info(n, NP2ONNX[d], dims) for n, d, dims in self.inputs]
        go = []
        for n in self.outs:
            sh = self.S(n)
            given = [q for i, _, q in self.inputs if i == n]     # (a tensor has one declaration)
            dims = given[0] if given else [sh[0][i] if len({s[i] for s in sh}) == 1 else f'{n}_d{i}' for i in range(len(sh[0]))]
            go.append(helper.make_tensor_value_info(n, NP2ONNX[self.T[n].dtype], dims))
        inits = [numpy_helper.from_array(np.asarray(a), n) for n, a in self.inits.items()]
        if self.o['init_as_input']:
            for n, a in list(self.inits.items())[:2]:
                gi.append(helper.make_tensor_value_info(n, NP2ONNX[a.dtype], list(a.shape)))
        vi = []
        if self.o['value_info']:
            for n in self.order:
                if n in self.outs or n in [i[0] for i in self.inputs] or self.T[n].static:
                    continue
                sh = self.S(n)
                dims = [sh[0][i] if len({s[i] for s in sh}) == 1 else f'{n}_d{i}' for i in range(len(sh[0]))]
                vi.append(helper.make_tensor_value_info(n, NP2ONNX[self.T[n].dtype], dims))
        g = helper.make_graph(self.nodes, 'g', gi, go, initializer=inits, value_info=vi)
        ops = [helper.make_opsetid('', self.opset)]
        m = helper.make_model(g, opset_imports=ops)
        m.ir_version = 8
        return m

    def feeds(self, a, rng=None):
        rng = rng if rng is not None else self.rng
        f = {}
        for n, d, dims in self.inputs:
            sh = self.S(n)[a]
            if d.kind == 'i':
                f[n] = rng.integers(0, 8, sh).astype(d)
            else:
                f[n] = rng.uniform(-1, 1, sh).astype(d)
        return f


def generate(rng, assign=3, **opt):
    return Gen(rng, assign, **opt).build()


def name_empty_outputs(model):
    """copy in which omitted outputs get a name of their own (the reference evaluator would bind their value to '')"""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    k = 0
    for nd in m.graph.node:
        for i, o in enumerate(nd.output):
            if o == '':
                k += 1
                nd.output[i] = f'__omitted_{k}'
    return m


def with_all_outputs(model, names=None):
    """copy of the model in which every node output is a graph output"""
    m = name_empty_outputs(model)
    have = {o.name for o in m.graph.output}
    for nd in m.graph.node:
        for o in nd.output:
            if o and o not in have and (names is None or o in names):
                have.add(o)
                m.graph.output.append(helper.make_tensor_value_info(o, 1, None))
    return m


def execute(model, feeds):
    """{tensor name: value} of all node outputs, by the ONNX reference evaluator (nodes must be in order)"""
    from onnx.reference import ReferenceEvaluator
    import warnings
    m = with_all_outputs(model)
    names = [o.name for o in m.graph.output]
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        vals = ReferenceEvaluator(m).run(names, feeds)
    return {n: np.asarray(v) for n, v in zip(names, vals) if not n.startswith('__omitted_')}
