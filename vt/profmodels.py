"""Random models for profiling: shared, repeated, duplicated, differently stored weights of several element types."""
import ml_dtypes
import numpy as np
from onnx import helper, numpy_helper, TensorProto, SparseTensorProto

NP = {np.dtype('float32'): 1, np.dtype('uint8'): 2, np.dtype('int8'): 3, np.dtype('uint16'): 4, np.dtype('int16'): 5, np.dtype('uint32'): 12, np.dtype('uint64'): 13, np.dtype('int32'): 6, np.dtype('int64'): 7, np.dtype('bool'): 9,
      np.dtype('float16'): 10, np.dtype('float64'): 11, np.dtype(ml_dtypes.bfloat16): 16}
BF16 = np.dtype(ml_dtypes.bfloat16)


class B:
    def __init__(self, rng, names='plain', constants=True):
        self.g, self.nodes, self.inits, self.weights, self.values = rng, [], [], {}, []
        self.n, self.names, self.sparse, self.as_input, self.constants = 0, names, [], [], constants
        self.b, self.d = int(rng.integers(1, 4)), int(rng.choice([2, 3, 4, 6]))
        self.stored = {}          # weight name -> array

    def c(self, seq):
        return seq[int(self.g.integers(0, len(seq)))]

    def p(self, q):
        return bool(self.g.random() < q)

    def nm(self, base):
        self.n += 1
        if self.names == 'odd' and self.p(.4):
            return self.c(['{}, "{}"', '{}/{}', '{} {}', '{}:{}', '1e{1}', '{1}', '{}|{}', "{}'{}", '{},{}', '-{1}.5']).format(base, self.n) + ('' if self.p(.5) else f'_{self.n}')
        return f'{base}_{self.n}'

    def w(self, shape, dt='float32', key=None, values=None):
        """a weight: fresh or an already stored one of the same shape"""
        dt = np.dtype(dt)
        same = [k for k, a in self.stored.items() if a.shape == tuple(shape) and a.dtype == dt and values is None and k not in self.noshare]
        if same and self.p(.45):
            return self.c(same)
        name = self.nm('w')
        if values is not None:
            a = np.asarray(values, dt).reshape(shape)
            self.noshare.add(name)
        elif dt.kind in 'iu':
            a = self.g.integers(0, 3, size=tuple(shape)).astype(dt)
        else:
            a = self.g.uniform(-1, 1, size=tuple(shape)).astype(dt)
        self.stored[name] = a
        r = self.g.random()
        if r < .2 and self.constants:
            self.nodes.append(helper.make_node('Constant', [], [name], name=self.nm('const'), value=numpy_helper.from_array(a, name + 'v')))
        elif r < .25 and a.ndim >= 1 and dt == np.float32 and values is None:
            idx = np.flatnonzero(a.reshape(-1))
            self.sparse.append(helper.make_sparse_tensor(numpy_helper.from_array(a.reshape(-1)[idx], name), numpy_helper.from_array(idx.astype(np.int64)), list(a.shape)))
        else:
            self.inits.append(numpy_helper.from_array(a, name))
            if r < .35:
                self.as_input.append(helper.make_tensor_value_info(name, NP[dt], list(a.shape)))
        return name

    noshare = None

    def op(self, op, ins, nout=1, **at):
        outs = [self.nm('t') for _ in range(nout)]
        self.nodes.append(helper.make_node(op, ins, outs, name=self.nm(op), **at))
        return outs[0] if nout == 1 else outs

    def step(self, x, dt):
        b, d = self.b, self.d
        k = self.c(['matmul', 'gemm', 'add', 'mulscalar', 'addself', 'embed', 'gatherdyn', 'gatherboth', 'qdq', 'concat', 'topk', 'split', 'cast', 'layernorm',
                    'clip', 'relu', 'castw', 'wherew', 'addx', 'wplusw', 'dropout', 'reshape', 'where', 'less'])
        if k == 'matmul':
            return self.op('MatMul', [x, self.w([d, d], dt)])
        if k == 'gemm':
            ins = [x, self.w([d, d], dt)] + ([self.w([d], dt)] if self.p(.7) else [])
            return self.op('Gemm', ins, transB=int(self.p(.5)))
        if k == 'add':
            return self.op('Add', self.c([[x, self.w([d], dt)], [self.w([b, d], dt), x]]))
        if k == 'mulscalar':
            return self.op('Mul', [x, self.w([] if self.p(.5) else [1], dt)])
        if k == 'addself':
            return self.op('Add', [x, x])
        if k == 'wplusw':
            w = self.w([b, d], dt)
            return self.op('Sum', [w, x, w])
        if k == 'addx':
            return self.op('Mul', [x, self.c(self.values)])
        if k == 'embed':
            v = int(self.g.integers(2, 9))
            ids = self.op('Cast', [self.op('ReduceMax', [x, self.w([1], 'int64', values=[1])], keepdims=0)], to=7)
            ids = self.op('Mul', [ids, self.w([1], 'int64', values=[0])])
            e = self.op('Gather', [self.w([v, d], dt), ids], axis=0)
            return self.op('Add', [x, e])
        if k == 'gatherdyn':
            ax = self.c([0, 1, -1])
            n = b if ax == 0 else d
            ids = self.w([n], 'int64', values=self.g.integers(0, n, size=n))
            return self.op('Gather', [x, ids], axis=ax)
        if k == 'gatherboth':
            ids = self.op('Cast', [self.op('Mul', [self.op('ReduceMin', [x, self.w([1], 'int64', values=[-1])], keepdims=0), self.w([1], dt, values=[0])])], to=7)
            return self.op('Gather', [x, ids], axis=0)
        if k == 'qdq':
            if dt != 'float32':
                return self.op('Abs', [x])
            q = self.w([d, d], 'int8')
            s = self.w([], 'float32', values=0.05)
            return self.op('MatMul', [x, self.op('DequantizeLinear', [q, s])])
        if k == 'concat':
            y = self.op('Concat', [x, self.w([b, d], dt)], axis=1)
            return self.op('MatMul', [y, self.w([2 * d, d], dt)])
        if k == 'topk':
            v, i = self.op('TopK', [x, self.w([1], 'int64', values=[d])], nout=2)
            if self.p(.5):
                i = self.op('Cast', [i], to=NP[np.dtype(dt)])
                return self.op('Add', [v, i])
            return v
        if k == 'split':
            if d % 2:
                return self.op('Neg', [x])
            a, c = self.op('Split', [x], nout=2, axis=1)
            return self.op('Concat', [c, a], axis=1)
        if k == 'cast':
            y = self.op('Cast', [x], to=self.c([1, 10, 11, 6]))
            return self.op('Cast', [y], to=NP[np.dtype(dt)])
        if k == 'layernorm':
            return self.op('LayerNormalization', [x, self.w([d], dt)] + ([self.w([d], dt)] if self.p(.6) else []), axis=-1)
        if k == 'clip':
            lo = self.w([], dt, values=-1.0) if self.p(.5) else ''
            return self.op('Clip', [x, lo, self.w([], dt, values=1.0)])
        if k == 'dropout':
            return self.op('Dropout', [x], nout=2)[0] if self.p(.5) else self.op('Dropout', [x])
        if k == 'reshape':
            return self.op('Reshape', [self.op('Reshape', [x, self.w([1], 'int64', values=[-1])]), self.w([2], 'int64', values=[b, d])])
        if k == 'less':
            m = self.op('Less', [x, self.w([d], dt)])
            return self.op('Cast', [m], to=NP[np.dtype(dt)])
        if k == 'castw':
            w = self.w(self.c([[d], [b, d], [1]]), self.c(['uint8', 'int8', 'uint16', 'int16', 'uint32', 'uint64', 'int32', 'int64', 'float16', 'float64', 'float32']))
            return self.op('Mul', [x, self.op('Cast', [w], to=NP[np.dtype(dt)])])
        if k == 'wherew':
            return self.op('Where', [self.w([d], 'bool', values=self.g.integers(0, 2, size=d)), x, self.w([b, d], dt)])
        if k == 'where':
            m = self.op('Greater', [x, self.w([1], dt)])
            return self.op('Where', [m, x, self.w([b, d], dt)])
        return self.op('Relu', [x])


def make(rng, names='plain', constants=True, steps=None, bf16=False):
    q = B(rng, names, constants)
    q.noshare = set()
    dt = q.c(['float32', 'float32', 'float32', 'float64', 'float16'])
    if bf16 and q.p(.2):
        dt = BF16
    x = q.nm('x')
    q.values = [x]
    cur = x
    for _ in range(steps or int(rng.integers(2, 10))):
        y = q.step(cur, dt)
        q.values.append(y)
        cur = y if q.p(.8) else q.c(q.values)
    if q.p(.3):     # an unused weight
        q.inits.append(numpy_helper.from_array(np.ones((3, 5), np.float32), q.nm('unused')))
    outs = [cur] if cur != x else [q.op('Relu', [x])]
    gin = [helper.make_tensor_value_info(x, NP[np.dtype(dt)], [q.b, q.d])] + q.as_input
    gout = [helper.make_tensor_value_info(o, NP[np.dtype(dt)], [q.b, q.d]) for o in outs]
    g = helper.make_graph(q.nodes, 'g', gin, gout, initializer=q.inits, sparse_initializer=q.sparse)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 19)])
    m.ir_version = 9
    feeds = {x: rng.uniform(-2, 2, size=(q.b, q.d)).astype(dt)}
    return m, feeds, q


def dense(m, q):
    """copy with plain initializers, for the reference evaluator"""
    import onnx
    r = onnx.ModelProto()
    r.CopyFrom(m)
    names = [s.values.name for s in r.graph.sparse_initializer]
    del r.graph.sparse_initializer[:]
    r.graph.initializer.extend(numpy_helper.from_array(q.stored[n], n) for n in names)
    return r
