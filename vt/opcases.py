"""Random single-operator workloads: legal ONNX nodes with concrete inputs."""
import numpy as np

F32, F64, F16 = np.float32, np.float64, np.float16
I64, I32 = np.int64, np.int32
INTS = [np.int32, np.int64]
FLOATS = [np.float32, np.float64, np.float16]


class OpCase:
    __slots__ = ('op', 'attrs', 'inputs', 'static', 'nout', 'opset', 'domain', 'reg', 'tol', 'novalue')

    def __init__(self, op, inputs, attrs=None, static=(), nout=1, opset=17, reg='', tol=1e-4, novalue=False):
        self.op, self.inputs, self.attrs = op, inputs, attrs or {}
        self.static, self.nout, self.opset, self.reg, self.tol = set(static), nout, opset, reg, tol
        self.novalue = novalue

    def describe(self):
        return {'op': self.op, 'attrs': {k: (v.tolist() if isinstance(v, np.ndarray) else ' '.join(f'{n.op_type}({",".join(n.input)})->{n.output[0]}' for n in v.node) if hasattr(v, 'node') else str(v) if isinstance(v, bytes) else v) for k, v in self.attrs.items()},
                'inputs': [None if x is None else f'{x.dtype}{list(x.shape)}' + (f'={x.tolist()}' if x.dtype.kind in 'iu' and x.size <= 8 else '') for x in self.inputs],
                'static': sorted(self.static), 'nout': self.nout, 'opset': self.opset, 'reg': self.reg}

    def key(self):
        return f'{self.op}[{self.reg}]' if self.reg else self.op


class R:
    """small helpers over a numpy Generator"""

    def __init__(self, rng, zero=False):
        self.g = rng
        self.zero = zero    # make an empty dimension now and then

    def i(self, a, b):  # inclusive
        return int(self.g.integers(a, b + 1))

    def c(self, seq):
        return seq[int(self.g.integers(0, len(seq)))]

    def b(self, p=0.5):
        return bool(self.g.random() < p)

    def shape(self, lo=0, hi=4, dmax=5, one=0.2, dmin=1):
        s = [1 if self.b(one) and dmin <= 1 else self.i(dmin, dmax) for _ in range(self.i(lo, hi))]
        if self.zero and s:
            s[self.i(0, len(s) - 1)] = 0
        return s

    def arr(self, shape, dt=F32, lo=-3, hi=3, nz=False):
        dt = np.dtype(dt)
        if dt.kind == 'b':
            return self.g.random(shape) < 0.5 if True else None
        if dt.kind in 'iu':
            lo2 = max(lo, 0) if dt.kind == 'u' else lo
            a = np.asarray(self.g.integers(lo2, hi + 1, size=tuple(shape)), dtype=dt)
            if nz:
                a = np.where(a == 0, np.asarray(1, dt), a)
            return np.asarray(a, dtype=dt)
        a = np.asarray(self.g.uniform(lo, hi, size=tuple(shape)))
        if nz:
            a = np.where(np.abs(a) < 0.2, 0.7, a)
        return np.asarray(a, dtype=dt)

    def bool(self, shape):
        return np.asarray(self.g.random(tuple(shape)) < 0.5)

    def bshapes(self, n=2, hi=4, zero=0.0):
        """n mutually broadcastable shapes"""
        full = self.shape(0, hi)
        if zero and full and self.b(zero):
            full[self.i(0, len(full) - 1)] = 0
        out = []
        for k in range(n):
            cut = self.i(0, len(full)) if self.b(0.5) else 0
            s = full[cut:]
            s = [1 if self.b(0.25) else d for d in s]
            out.append(s)
        return out

    def subset(self, n, lo=1):
        k = self.i(min(lo, n), n)
        return sorted(int(v) for v in self.g.permutation(n)[:k])

    def negmix(self, axes, rank):
        return [a - rank if self.b(0.4) else a for a in axes]


GEN = {}


def gen(*names):
    def deco(f):
        for n in names:
            GEN[n] = f
        return f
    return deco


def i64(x):
    return np.asarray(x, dtype=I64)


# ---------------------------------------------------------------- elementwise
@gen('Add', 'Sub', 'Mul')
def g_arith(op, r):
    a, b = r.bshapes(2, zero=0.05)
    dt = r.c(FLOATS + INTS)
    return OpCase(op, [r.arr(a, dt), r.arr(b, dt)])


@gen('Div')
def g_div(op, r):
    a, b = r.bshapes(2)
    dt = r.c(FLOATS + INTS)
    if np.dtype(dt).kind == 'i':
        if r.b(0.6):
            return OpCase(op, [r.arr(a, dt, 0, 40), r.arr(b, dt, 1, 7)], reg='intpos')
        return OpCase(op, [r.arr(a, dt, -40, 40), r.arr(b, dt, -7, 7, nz=True)], reg='intneg')
    return OpCase(op, [r.arr(a, dt), r.arr(b, dt, nz=True)], reg='float', tol=1e-2 if dt == F16 else 1e-4)


@gen('Mod')
def g_mod(op, r):
    a, b = r.bshapes(2)
    if r.b(0.6):
        dt = r.c(INTS)
        if r.b(.3):
            return OpCase(op, [r.arr(a, dt, -20, 20), r.arr(b, dt, -7, 7, nz=True)], {'fmod': 1}, reg='intfmod')
        return OpCase(op, [r.arr(a, dt, -20, 20), r.arr(b, dt, -7, 7, nz=True)], {} if r.b(.8) else {'fmod': 0}, reg='int')
    return OpCase(op, [r.arr(a, F32), r.arr(b, F32, nz=True)], {'fmod': 1}, reg='fmod')


@gen('Min', 'Max')
def g_minmax(op, r):
    n = r.i(1, 4)
    dt = r.c(FLOATS + INTS)
    return OpCase(op, [r.arr(s, dt) for s in r.bshapes(n)], reg=f'n{min(n, 3)}')


@gen('Sum')
def g_sum(op, r):
    n = r.i(1, 4)
    return OpCase(op, [r.arr(s, F32) for s in r.bshapes(n)], reg=f'n{min(n, 3)}')


@gen('Neg', 'Abs')
def g_neg(op, r):
    return OpCase(op, [r.arr(r.shape(), r.c(FLOATS + INTS))])


@gen('Sign')
def g_sign(op, r):
    return OpCase(op, [r.arr(r.shape(), r.c(FLOATS + INTS))])


@gen('Ceil', 'Floor', 'Round', 'Exp', 'Sin', 'Cos', 'Tanh', 'Sigmoid', 'Atan', 'Softplus', 'Erf')
def g_un(op, r):
    dt = r.c([F32, F32, F64]) if op != 'Softplus' else F32
    if op in ('Erf',):
        dt = F32
    x = r.arr(r.shape(), dt)
    if op in ('Tanh', 'Sigmoid', 'Softplus', 'Erf', 'Atan') and r.b(0.2):
        x = r.arr(x.shape, dt, -200, 200)
    if op in ('Ceil', 'Floor', 'Round') and r.b(0.4):
        x = np.asarray(np.round(x * 2) / 2, dtype=dt)
    return OpCase(op, [x])


@gen('Log', 'Sqrt')
def g_pos(op, r):
    return OpCase(op, [r.arr(r.shape(), r.c([F32, F64]), 0.1, 5)])


@gen('Reciprocal')
def g_rec(op, r):
    return OpCase(op, [r.arr(r.shape(), F32, nz=True)])


@gen('Relu')
def g_relu(op, r):
    return OpCase(op, [r.arr(r.shape(), r.c([F32, F64, F16, I32]))])


@gen('Identity')
def g_ident(op, r):
    return OpCase(op, [r.arr(r.shape(), r.c([F32, F64, I64, np.uint8]))])


@gen('Elu')
def g_elu(op, r):
    at = {'alpha': float(np.float32(r.g.uniform(0.1, 2)))} if r.b(0.6) else {}
    return OpCase(op, [r.arr(r.shape(), F32)], at)


@gen('LeakyRelu')
def g_lrelu(op, r):
    at = {'alpha': float(np.float32(r.g.uniform(-0.5, 1.5)))} if r.b(0.6) else {}
    return OpCase(op, [r.arr(r.shape(), F32)], at)


@gen('HardSigmoid')
def g_hsig(op, r):
    at = {'alpha': float(np.float32(r.g.uniform(0.1, .5)))} if r.b(0.5) else {}
    if r.b(0.3):
        at['beta'] = 0.25
    return OpCase(op, [r.arr(r.shape(), F32, -6, 6)], at)


@gen('HardSwish')
def g_hsw(op, r):
    return OpCase(op, [r.arr(r.shape(), F32, -6, 6)])


@gen('Gelu')
def g_gelu(op, r):
    return OpCase(op, [r.arr(r.shape(), F32)], {'approximate': 'tanh'} if r.b() else {}, opset=20)


@gen('PRelu')
def g_prelu(op, r):
    s = r.shape(1, 4)
    sl = [1 if r.b(.5) else d for d in s]
    cut = r.i(0, len(s) - 1)
    return OpCase(op, [r.arr(s, F32), r.arr(sl[cut:], F32)], static=[1])


@gen('Pow')
def g_pow(op, r):
    a, b = r.bshapes(2)
    form = r.i(0, 5)
    if form == 0:
        return OpCase(op, [r.arr(a, r.c([F32, F64]), -3, 3), r.arr(b, r.c([I32, I64]), 0, 4)], reg='intexp')
    if form == 1:
        return OpCase(op, [r.arr(a, r.c([I32, I64]), -3, 3), r.arr(b, r.c([I32, I64]), 0, 4)], reg='ints')
    dt = r.c([F32, F32, F64])
    return OpCase(op, [r.arr(a, dt, 0.2, 3), r.arr(b, dt if r.b(.8) else r.c([F32, F64]), -2, 2)])


@gen('Softmax', 'LogSoftmax', 'Hardmax')
def g_softmax(op, r):
    s = r.shape(1, 4)
    at = {}
    reg = 'default_axis'
    if r.b(0.7):
        ax = r.i(0, len(s) - 1)
        at['axis'] = ax - len(s) if r.b(.4) else ax
        reg = 'axis'
    if op == 'Softmax' and r.b(.1):
        return OpCase(op, [r.arr(s, F32)], at, opset=11, reg='before13')
    return OpCase(op, [r.arr(s, F32, -200, 200) if r.b(0.2) and op != 'Hardmax' else r.arr(s, F32)], at, opset=r.c([13, 17]), reg=reg)


@gen('LpNormalization')
def g_lpn(op, r):
    s = r.shape(1, 4)
    return OpCase(op, [r.arr(s, F32)], {'axis': r.i(0, len(s) - 1), 'p': r.c([1, 2])} if r.b() else {})


@gen('InstanceNormalization')
def g_inorm(op, r):
    s = [r.i(1, 3), r.i(1, 4)] + r.shape(1, 2, dmin=2)
    return OpCase(op, [r.arr(s, F32), r.arr([s[1]]), r.arr([s[1]])], {'epsilon': 0.01} if r.b(.3) else {}, static=[1, 2])


@gen('Clip')
def g_clip(op, r):
    x = r.arr(r.shape(), r.c([F32, F32, F64, I32, I64, np.int8, np.uint8]))
    dt = x.dtype
    mode = r.c(['none', 'min', 'max', 'both', 'minonly2', 'attr6'])
    if mode == 'attr6':
        at = {k: v for k, v in (('min', -1.5), ('max', 0.75)) if r.b(.7)}
        return OpCase(op, [r.arr(x.shape, F32)], at, opset=6, reg=mode)
    lo = r.i(-2, 1) if dt.kind != 'u' else r.i(0, 1)
    lo, hi = np.asarray(lo, dt), np.asarray(r.i(lo, 3), dt)
    ins, st = [x], []
    if mode == 'min':
        ins += [lo, None]
        st = [1]
    elif mode == 'minonly2':
        ins += [lo]
        st = [1]
    elif mode == 'max':
        ins += [None, hi]
        st = [2]
    elif mode == 'both':
        ins += [lo, hi]
        st = [1, 2]
    return OpCase(op, ins, static=st, reg=mode)


@gen('Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal')
def g_cmp(op, r):
    a, b = r.bshapes(2, zero=0.05)
    dt = r.c([F32, F64, I32, I64])
    return OpCase(op, [r.arr(a, dt, -2, 2), r.arr(b, dt, -2, 2)])


@gen('And', 'Or', 'Xor')
def g_logic(op, r):
    a, b = r.bshapes(2)
    return OpCase(op, [r.bool(a), r.bool(b)])


@gen('Not')
def g_not(op, r):
    return OpCase(op, [r.bool(r.shape())])


@gen('Where')
def g_where(op, r):
    c, a, b = r.bshapes(3)
    dt = r.c([F32, I64, I32, F64])
    return OpCase(op, [r.bool(c), r.arr(a, dt), r.arr(b, dt)])


@gen('Cast')
def g_cast(op, r):
    import onnx
    T = onnx.TensorProto
    src = r.c([F32, F64, I32, I64, np.bool_, np.uint8, F16, np.int8])
    x = r.bool(r.shape()) if src == np.bool_ else r.arr(r.shape(), src, 0, 3)
    if r.b(.1):
        return OpCase(op, [x], {'to': int(r.c([T.BFLOAT16, T.FLOAT8E4M3FN, T.FLOAT8E5M2]))}, opset=19, reg='extended', novalue=True)
    return OpCase(op, [x], {'to': int(r.c([T.FLOAT, T.DOUBLE, T.INT32, T.INT64, T.BOOL, T.UINT8, T.INT8, T.FLOAT16, T.INT16, T.UINT16, T.UINT32, T.UINT64]))})


@gen('Dropout')
def g_dropout(op, r):
    x = r.arr(r.shape(), F32)
    if r.b(.2):
        return OpCase(op, [x], {'ratio': .3} if r.b(.8) else {}, nout=r.c([1, 2]), opset=10, reg='attr')
    if r.b(.4):
        t = r.c([None, False, True])
        return OpCase(op, [x, r.c([None, np.asarray(r.c([0, .4]), F32)])] + ([] if t is None else [np.asarray(t)]), {'seed': 3} if r.b(.2) else {}, static=r.c([[], [1, 2]]), nout=r.c([1, 2]),
                      reg='training' if t else 'inputs', novalue=bool(t))
    return OpCase(op, [x], nout=r.c([1, 2]), reg='infer')


@gen('CumSum')
def g_cumsum(op, r):
    s = r.shape(1, 4)
    ax = r.i(0, len(s) - 1)
    at = {}
    if r.b(.3):
        at['exclusive'] = 1
    if r.b(.3):
        at['reverse'] = 1
    return OpCase(op, [r.arr(s, r.c([F32, I64, I32])), i64(ax - len(s) if r.b(.3) else ax)], at, static=[1],
                  reg='plain' if not at else 'exclrev')


@gen('LRN')
def g_lrn(op, r):
    s = [r.i(1, 2), r.i(1, 6), r.i(1, 4), r.i(1, 4)]
    return OpCase(op, [r.arr(s)], {'size': r.c([1, 3, 5])})


@gen('LayerNormalization')
def g_ln(op, r):
    s = r.shape(1, 4)
    ax = r.i(0, len(s) - 1)
    at = {'axis': ax - len(s) if r.b() else ax} if r.b(.7) else {}
    if 'axis' not in at:
        ax = len(s) - 1
    n = r.c([1, 1, 1, 3])
    dt = r.c([F32, F32, F32, F16])
    ins = [r.arr(s, dt), r.arr(s[ax:], dt)] + ([r.arr(s[ax:], dt)] if r.b(.7) else [])
    if r.b(.3):
        at['epsilon'] = 0.01
    return OpCase(op, ins, at, static=list(range(1, len(ins))), nout=n, reg=('lastaxis' if ax == len(s) - 1 else 'multiaxis') + ('_stats' if n > 1 else ''))


@gen('BatchNormalization')
def g_bn(op, r):
    s = [r.i(1, 3), r.i(1, 4)] + r.shape(0, 3)
    c = s[1]
    at = {'epsilon': float(np.float32(r.c([1e-5, 1e-3, 0.1])))} if r.b() else {}
    ins = [r.arr(s), r.arr([c]), r.arr([c]), r.arr([c]), r.arr([c], F32, 0.1, 3)]
    if r.b(.2):
        at['training_mode'] = 1
        if r.b():
            at['momentum'] = 0.5
        return OpCase(op, ins, at, static=[1, 2, 3, 4], opset=15, nout=r.c([1, 3]), reg='training')
    return OpCase(op, ins, at, static=[1, 2, 3, 4])


# ---------------------------------------------------------------- data movement
@gen('Transpose')
def g_transpose(op, r):
    s = r.shape(0, 5)
    at = {'perm': [int(v) for v in r.g.permutation(len(s))]} if (r.b(.8) and len(s)) else {}
    return OpCase(op, [r.arr(s, r.c([F32, I64]))], at, reg='perm' if at else 'default')


@gen('Concat')
def g_concat(op, r):
    s = r.shape(1, 4, dmin=0 if r.b(.1) else 1)
    ax = r.i(0, len(s) - 1)
    ins = []
    dt = r.c([F32, I64, F64])
    for _ in range(r.i(1, 4)):
        t = list(s)
        t[ax] = r.i(1, 4)
        ins.append(r.arr(t, dt))
    return OpCase(op, ins, {'axis': ax - len(s) if r.b(.4) else ax})


@gen('Split')
def g_split(op, r):
    s = r.shape(1, 4, dmax=7)
    ax = r.i(0, len(s) - 1)
    n = r.i(1, min(4, max(1, s[ax])))
    at = {}
    form = r.c(['input', 'equal', 'uneven18', 'attr11'])
    if ax != 0 or r.b(.6):
        at['axis'] = ax - len(s) if r.b(.3) else ax
    cuts = sorted(int(v) for v in r.g.choice(np.arange(1, s[ax]), n - 1, replace=False)) if n > 1 else []
    sp = np.diff([0] + cuts + [s[ax]]).tolist()
    if form in ('input', 'attr11') and r.b(.2):
        for _ in range(r.i(1, 2)):
            sp.insert(r.i(0, len(sp)), 0)
        n = len(sp)
    if form == 'input':
        return OpCase(op, [r.arr(s), i64(sp)], at, static=[1], nout=n, opset=r.c([13, 17]), reg='input' + ('' if 'axis' in at else '_defaxis'))
    if form == 'attr11':
        at['split'] = [int(v) for v in sp]
        return OpCase(op, [r.arr(s)], at, nout=n, opset=11, reg='attr' + ('' if 'axis' in at else '_defaxis'))
    if form == 'equal':
        s[ax] = n * r.i(1, 3)
        return OpCase(op, [r.arr(s)], at, nout=n, opset=13, reg='equal' + ('' if 'axis' in at else '_defaxis'))
    at['num_outputs'] = n
    chunk = -(-s[ax] // n)
    if chunk * (n - 1) >= s[ax]:
        s[ax] = n * 2
    return OpCase(op, [r.arr(s)], at, nout=n, opset=18, reg='num_outputs' + ('' if 'axis' in at else '_defaxis'))


@gen('Slice')
def g_slice(op, r):
    s = r.shape(1, 5, dmax=6)
    axes = r.subset(len(s))
    starts, ends, steps = [], [], []
    usestep = r.b(.5)
    for a in axes:
        d = s[a]
        st = r.c([1, 1, 2, 3]) if not usestep or r.b(.5) else r.c([-1, -2])
        if not usestep:
            st = 1
        if st > 0:
            b, e = r.i(-d - 1, d), r.c([r.i(-d, d + 1), 2 ** 31 - 1, 2 ** 63 - 1, d])
        else:
            b, e = r.c([r.i(-d, d + 1), -1, 2 ** 31 - 1]), r.c([r.i(-d - 1, d - 1), -2 ** 63 + 1, -2 ** 31])
        starts.append(b)
        ends.append(e)
        steps.append(st)
    order = r.g.permutation(len(axes))
    axes = [axes[i] for i in order]
    starts, ends, steps = [starts[i] for i in order], [ends[i] for i in order], [steps[i] for i in order]
    neg = 'neg' if usestep and any(v < 0 for v in steps) else ''
    dt = r.c([F32, I64])
    x = r.arr(s, dt)
    it = r.c([I64, I64, I32])
    if it == I32:
        ends = [max(-2 ** 31, min(2 ** 31 - 1, e)) for e in ends]
        starts = [max(-2 ** 31, min(2 ** 31 - 1, e)) for e in starts]

    def iv(v):
        return np.asarray(v, dtype=it)
    if not usestep and r.b(.15):
        nz = min(len(s), len(axes))
        return OpCase(op, [x], {'starts': starts, 'ends': ends, 'axes': axes} if it == I64 else {'starts': [int(v) for v in starts], 'ends': [int(v) for v in ends], 'axes': axes}, opset=9, reg='attr')
    if not usestep and r.b(.3):
        k = len(axes)
        srt = list(range(k))
        full_s, full_e = [], []
        for a in range(len(s)):
            if a < k:
                d = s[a]
                full_s.append(r.i(-d, d))
                full_e.append(r.i(-d, d + 1))
        return OpCase(op, [x, iv(full_s), iv(full_e)], static=[1, 2], reg='3in')
    nax = r.negmix(axes, len(s))
    if not usestep:
        return OpCase(op, [x, iv(starts), iv(ends), iv(nax)], static=[1, 2, 3], reg='4in')
    if sorted(axes) == list(range(len(s))) and r.b(.3):
        o = np.argsort(axes)
        return OpCase(op, [x, iv([starts[i] for i in o]), iv([ends[i] for i in o]), None, iv([steps[i] for i in o])], static=[1, 2, 4], reg='5in_noaxes')
    return OpCase(op, [x, iv(starts), iv(ends), iv(nax), iv(steps)], static=[1, 2, 3, 4], reg='5in')


@gen('Gather')
def g_gather(op, r):
    s = r.shape(1, 4)
    ax = r.i(0, len(s) - 1)
    idx = r.arr(r.shape(0, 3), r.c([I64, I32]), -s[ax], s[ax] - 1)
    at = {}
    if ax or r.b():
        at['axis'] = ax - len(s) if r.b(.4) else ax
    return OpCase(op, [r.arr(s, r.c([F32, I64])), idx], at)


@gen('GatherElements')
def g_gatherel(op, r):
    s = r.shape(1, 4)
    ax = r.i(0, len(s) - 1)
    t = [r.i(1, d) for d in s]
    t[ax] = r.i(1, 5)
    at = {}
    if ax or r.b():
        at['axis'] = ax - len(s) if r.b(.4) else ax
    return OpCase(op, [r.arr(s, r.c([F32, I32, I64])), r.arr(t, r.c([I64, I32]), -s[ax], s[ax] - 1)], at)


@gen('GatherND')
def g_gathernd(op, r):
    s = r.shape(1, 4)
    b = r.i(0, len(s) - 1) if r.b(.3) else 0
    k = r.i(1, len(s) - b)
    idxs = s[:b] + r.shape(0, 2)
    idx = np.stack([r.arr(idxs, I64, -s[b + j], s[b + j] - 1) for j in range(k)], -1)
    return OpCase(op, [r.arr(s, r.c([F32, I64])), idx], {'batch_dims': b} if b else {}, reg='batch' if b else '')


@gen('ScatterND')
def g_scatternd(op, r):
    s = r.shape(1, 4)
    k = r.i(1, len(s))
    n = r.i(1, int(np.prod(s[:k])))
    flat = r.g.choice(int(np.prod(s[:k])), n, replace=False)
    idx = np.stack(np.unravel_index(flat, s[:k]), -1).astype(I64)
    dt = r.c([F32, I64])
    at = {}
    if r.b(.4):
        at['reduction'] = r.c(['add', 'mul', 'none', 'max', 'min'])
    if at.get('reduction', 'none') != 'none' and r.b(.5):
        idx = np.concatenate([idx, idx[:r.i(1, n)]])      # some places are met twice
        n = len(idx)
    if r.b(.2):
        idx = idx - np.asarray(s[:k], I64) * r.g.integers(0, 2, size=idx.shape)     # counted from the end
    return OpCase(op, [r.arr(s, dt), idx, r.arr([n] + s[k:], dt)], at, opset=18 if at.get('reduction') in ('max', 'min') else 16, reg=at.get('reduction', ''))


@gen('ScatterElements')
def g_scatterel(op, r):
    s = r.shape(1, 3)
    ax = r.i(0, len(s) - 1)
    t = [r.i(1, d) for d in s]
    t[ax] = 1
    return OpCase(op, [r.arr(s), r.arr(t, I64, 0, s[ax] - 1), r.arr(t)], {'axis': ax})


@gen('Reshape')
def g_reshape(op, r):
    s = r.shape(0, 4)
    v = int(np.prod(s)) if s else 1
    x = r.arr(s, r.c([F32, I64]))
    # factor v
    t, rest = [], v
    for _ in range(r.i(0, 3)):
        divs = [d for d in range(1, rest + 1) if rest % d == 0]
        d = r.c(divs)
        t.append(d)
        rest //= d
    t.append(rest)
    r.g.shuffle(t)
    t = [int(q) for q in t]
    reg = 'plain'
    if v == 1 and r.b(.2):
        t = []
        reg = 'toscalar'
    elif r.b(.4):
        t[r.i(0, len(t) - 1)] = -1
        reg = 'minus1'
    if t and reg != 'toscalar':
        for i in range(min(len(t), len(s))):
            if t[i] == s[i] and r.b(.5):
                t[i] = 0
    if r.b(.06):
        k = r.i(1, 3)
        s = [r.i(1, 3) for _ in range(k)]
        s[r.i(0, k - 1)] = 0
        t = [r.i(1, 4) for _ in range(r.i(1, 3))]
        t[r.i(0, len(t) - 1)] = 0
        return OpCase(op, [r.arr(s), i64(t)], {'allowzero': 1}, static=[1], reg='allowzero')
    return OpCase(op, [x, i64(t)], static=[1], reg=reg)


@gen('Flatten')
def g_flatten(op, r):
    s = r.shape(1, 4)
    at = {}
    reg = 'default'
    if r.b(.8):
        ax = r.i(0, len(s))
        if r.b(.3) and ax < len(s):
            at['axis'] = ax - len(s)
            reg = 'neg'
        else:
            at['axis'] = ax
            reg = 'pos'
    return OpCase(op, [r.arr(s)], at, reg=reg)


@gen('Squeeze')
def g_squeeze(op, r):
    s = r.shape(1, 5, one=.6)
    ones = [i for i, d in enumerate(s) if d == 1]
    if not ones:
        s[0] = 1
        ones = [0]
    axes = sorted(r.g.permutation(ones)[:r.i(1, len(ones))].tolist())
    if r.b(.5):
        axes = [int(v) for v in r.g.permutation(axes)]
    axes = r.negmix(axes, len(s))
    form = r.c(['input', 'attr', 'all'])
    reg = form + ('_neg' if any(a < 0 for a in axes) and form != 'all' else '')
    if form == 'input':
        return OpCase(op, [r.arr(s), i64(axes)], static=[1], opset=13, reg=reg)
    if form == 'attr':
        return OpCase(op, [r.arr(s)], {'axes': axes}, opset=11, reg=reg)
    return OpCase(op, [r.arr(s)], {}, opset=r.c([11, 13]), reg=reg)


@gen('Unsqueeze')
def g_unsqueeze(op, r):
    s = r.shape(0, 3)
    k = r.i(1, 3)
    n = len(s) + k
    axes = [int(v) for v in r.g.permutation(n)[:k]]
    axes = r.negmix(axes, n)
    if r.b():
        return OpCase(op, [r.arr(s), i64(axes)], static=[1], opset=13, reg='input')
    return OpCase(op, [r.arr(s)], {'axes': axes}, opset=11, reg='attr')


@gen('Expand')
def g_expand(op, r):
    a, b = r.bshapes(2)
    if not b:
        b = [1]
    return OpCase(op, [r.arr(a, r.c([F32, I64, np.bool_ if False else F32])), i64(b)], static=[1])


@gen('Tile')
def g_tile(op, r):
    s = r.shape(1, 4)
    return OpCase(op, [r.arr(s, r.c([F32, I64])), i64([r.i(1, 3) for _ in s])], static=[1])


@gen('Pad')
def g_pad(op, r):
    s = r.shape(1, 4, dmin=2)
    mode = r.c(['constant', 'constant', 'edge', 'reflect', 'wrap'])
    if mode in ('reflect', 'wrap'):
        p = [r.i(0, min(s[k % len(s)] - 1, 3)) for k in range(2 * len(s))]
    else:
        p = [r.i(0, 2) for _ in range(2 * len(s))]
    neg = False
    if mode == 'constant' and r.b(.2):
        for k in range(len(s)):
            if r.b(.7):
                p[k + r.c([0, len(s)])] = -1
                neg = True
    at = {}
    if mode != 'constant' or r.b(.4):
        at['mode'] = mode
    if r.b(.25) and mode != 'wrap':
        at['pads'] = p
        if mode == 'constant' and r.b():
            at['value'] = 1.5
        return OpCase(op, [r.arr(s)], at, opset=2, reg='attr_' + ('neg_' if neg else '') + mode + ('' if 'mode' in at else '_default'))
    ins, st = [r.arr(s), i64(p)], [1]
    if mode == 'constant' and r.b(.5):
        ins.append(np.asarray(2.5, F32))
        st.append(2)
    if r.b(.3):
        axes = [int(v) for v in r.g.permutation(len(s))[:r.i(1, len(s))]]
        ins = [ins[0], i64([p[a] for a in axes] + [p[a + len(s)] for a in axes]), ins[2] if len(ins) > 2 else None, i64(r.negmix(axes, len(s)))]
        return OpCase(op, ins, at, static=[1, 3] + ([2] if ins[2] is not None else []), opset=18 if mode != 'wrap' else 19, reg='axes_' + ('neg_' if neg else '') + mode + ('' if 'mode' in at else '_default'))
    return OpCase(op, ins, at, static=st, opset=13 if mode != 'wrap' else 19, reg=('neg_' if neg else '') + mode + ('' if 'mode' in at else '_default'))


@gen('DepthToSpace')
def g_d2s(op, r):
    b = r.i(1, 3)
    s = [r.i(1, 2), b * b * r.i(1, 3), r.i(1, 3), r.i(1, 3)]
    return OpCase(op, [r.arr(s)], {'blocksize': b, 'mode': r.c(['DCR', 'CRD'])})


@gen('Shape')
def g_shape(op, r):
    return OpCase(op, [r.arr(r.shape(0, 5), r.c([F32, I64]))], opset=13)


@gen('Shape15')
def g_shape15(op, r):
    s = r.shape(1, 5)
    at = {}
    if r.b(.7):
        at['start'] = r.i(-len(s), len(s))
    if r.b(.7):
        at['end'] = r.i(-len(s), len(s))
    return OpCase('Shape', [r.arr(s)], at, opset=15, reg='startend' if at else '')


@gen('ConstantOfShape')
def g_cos(op, r):
    import onnx
    s = r.shape(0, 4)
    at = {}
    reg = 'default'
    if r.b(.7):
        dt = np.dtype(r.c([F32, I64, I32, F64, F16, bool, np.int8, np.uint8, np.int16, np.uint16, np.uint32, np.uint64]))
        reg = 'value'
        v = np.asarray(r.i(0 if dt.kind in 'ub' else -3, 3), dtype=dt)
        if r.b(.2):
            reg = 'scalar-value'
        else:
            v = v.reshape(1)
        at['value'] = onnx.numpy_helper.from_array(v)
    return OpCase(op, [i64(s)], at, static=[0], reg=reg)


@gen('Range')
def g_range(op, r):
    dt = r.c([I64, I32, F32, F64, np.int16])
    if np.dtype(dt).kind == 'i':
        d = r.c([1, 2, 3, -1, -2])
        a = r.i(-5, 5)
        b = a + d * r.i(0, 5) + (r.i(0, 1))
    else:
        d = r.c([0.5, 1.0, -0.5])
        a = float(r.i(-3, 3))
        b = a + d * r.i(0, 6)
    return OpCase(op, [np.asarray(a, dt), np.asarray(b, dt), np.asarray(d, dt)], static=[0, 1, 2])


@gen('OneHot')
def g_onehot(op, r):
    s = r.shape(0, 3)
    d = r.i(2, 5)
    at = {}
    if r.b(.7):
        at['axis'] = r.i(-len(s) - 1, len(s))
    vals = r.c([np.asarray([0, 1], F32), np.asarray([-1, 3], F32), np.asarray([0, 1], I64), np.asarray([2, 5], I32)])
    if r.b(.2):
        return OpCase(op, [r.arr(s, r.c([I64, I32]), -d - 3, d + 2), np.asarray(d, r.c([I64, I32])), vals], at, static=[1, 2], reg='outside')
    return OpCase(op, [r.arr(s, I64, -d, d - 1), np.asarray(d, I64) if r.b() else i64([d]), vals], at, static=[1, 2],
                  reg='std' if vals.dtype == F32 and vals[0] == 0 else 'values')


@gen('Trilu')
def g_trilu(op, r):
    s = r.shape(2, 4)
    ins, st = [r.arr(s, r.c([F32, I64]))], []
    if r.b():
        ins.append(np.asarray(r.i(-2, 2), I64))
        st = [1]
    return OpCase(op, ins, {'upper': r.i(0, 1)} if r.b(.7) else {}, static=st)


@gen('Compress')
def g_compress(op, r):
    s = r.shape(1, 3)
    at = {}
    if r.b(.7):
        ax = r.i(0, len(s) - 1)
        at['axis'] = ax - len(s) if r.b(.3) else ax
        n = s[ax]
    else:
        n = int(np.prod(s))
    c = r.bool([r.i(1, n)])
    if not c.any() and r.b():
        c[0] = True
    return OpCase(op, [r.arr(s), c], at, static=[1] if r.b(.7) else [], reg='' if c.any() else 'nothing')


@gen('NonZero')
def g_nonzero(op, r):
    x = r.arr(r.shape(1, 3), r.c([F32, I64, I32]), -1, 1)
    x = np.asarray(np.round(x), x.dtype)
    if not x.any():
        if r.b(.9):
            x = np.ones_like(x)
        else:
            return OpCase(op, [np.zeros_like(x)], reg='all-zero' if x.size else 'empty')
    return OpCase(op, [x])


@gen('TopK')
def g_topk(op, r):
    s = r.shape(1, 4, dmin=2)
    ax = r.i(0, len(s) - 1)
    at = {}
    reg = 'axis'
    if r.b(.7):
        at['axis'] = ax - len(s) if r.b(.4) else ax
    else:
        ax = len(s) - 1
        reg = 'default_axis'
    k = r.i(0 if r.b(.1) else 1, s[ax])
    if r.b(.12):
        return OpCase(op, [r.arr(s)], dict(at, k=k), nout=2, opset=9, reg='attr_' + reg)
    if r.b(.2):
        at['largest'] = 0
    if r.b(.1):
        at['sorted'] = 0
    x = r.arr(s, r.c([F32, F32, F64, I64, I32]))
    if r.b(.3):
        x = np.round(x)          # equal elements: the lower index comes first
    return OpCase(op, [x, i64([k])], at, static=[1], nout=2, reg=reg)


@gen('ArgMax')
def g_argmax(op, r):
    s = r.shape(1, 4)
    at = {}
    ax = r.i(0, len(s) - 1)
    if r.b(.7):
        at['axis'] = ax - len(s) if r.b(.4) else ax
    if r.b():
        at['keepdims'] = r.i(0, 1)
    x = r.arr(s, r.c([F32, F32, F64, I32, I64]))
    if r.b(.3):
        x = np.round(x)
        if r.b(.5):
            at['select_last_index'] = 1
    return OpCase(op, [x], at, reg='last' if 'select_last_index' in at else '')


@gen('Resize')
def g_resize(op, r):
    s = [r.i(1, 2), r.i(1, 3)] + [r.i(2, 6) for _ in range(r.c([2, 2, 2, 1, 3]))]
    mode = r.c(['nearest', 'linear', 'cubic']) if len(s) == 4 else r.c(['nearest', 'linear'])
    at = {'mode': mode} if (mode != 'nearest' or r.b()) else {}
    at['coordinate_transformation_mode'] = r.c(['half_pixel', 'asymmetric', 'align_corners'])
    if mode == 'nearest':
        at['nearest_mode'] = r.c(['floor', 'ceil', 'round_prefer_floor'])
    if r.b(.1):
        at['coordinate_transformation_mode'] = 'tf_crop_and_resize'
        if r.b():
            at['extrapolation_value'] = 2.
        roi = np.asarray([0.] * 2 + [r.c([0., .25, .5]) for _ in s[2:]] + [1.] * 2 + [r.c([.75, 1.]) for _ in s[2:]], r.c([F32, F64]))
        if r.b():
            return OpCase(op, [r.arr(s), roi, None, i64(s[:2] + [r.i(1, 10) for _ in s[2:]])], at, static=[1, 3], opset=13, reg='crop_sizes')
        return OpCase(op, [r.arr(s), roi, np.asarray([1, 1] + [float(r.c([0.5, 1, 2, 3])) for _ in s[2:]], F32)], at, static=[1, 2], opset=13, reg='crop_scales')
    if r.b(.15):
        at['coordinate_transformation_mode'] = 'pytorch_half_pixel'
    elif r.b(.1) and mode != 'nearest':
        at['exclude_outside'] = r.i(0, 1)
    if mode == 'cubic' and r.b(.3):
        at['cubic_coeff_a'] = -.5
    if r.b(.12):
        at['keep_aspect_ratio_policy'] = r.c(['not_larger', 'not_smaller', 'stretch'])
        reg = 'policy_' + at['keep_aspect_ratio_policy']
        if r.b():
            axes = list(range(2, len(s)))
            at['axes'] = [a - len(s) if r.b(.3) else a for a in axes]
            return OpCase(op, [r.arr(s), None, None, i64([r.i(1, 10) for _ in axes])], at, static=[3], opset=18, reg=reg + '_axes')
        return OpCase(op, [r.arr(s), None, None, i64([v if r.b(.7) else v * 2 for v in s[:2]] + [r.i(1, 10) for _ in s[2:]])], at, static=[3], opset=18, reg=reg)
    if r.b(.1):
        sc = np.asarray([1, 1] + [float(r.c([0.5, 1, 1.5, 2, 3])) for _ in s[2:]], F32)
        return OpCase(op, [r.arr(s), sc], {'mode': mode if mode != 'cubic' else 'linear'}, static=[1], opset=10, reg='opset10')
    if r.b():
        sc = np.asarray([1, 1] + [float(r.c([0.5, 1, 1.5, 2, 3, 2.25])) for _ in s[2:]], F32)
        # float32 scale * integer size must not sit on an integer boundary the two sides could round differently
        return OpCase(op, [r.arr(s), None, sc], at, static=[2], opset=13, reg='scales' + ('' if 'mode' in at else '_default_mode'))
    if r.b(.25):
        axes = list(range(2, len(s)))
        if r.b(.3):
            axes = axes[::-1]
        at['axes'] = [a - len(s) if r.b(.3) else a for a in axes]
        if r.b():
            return OpCase(op, [r.arr(s), None, None, i64([r.i(1, 10) for _ in axes])], at, static=[3], opset=18, reg='sizes_axes')
        return OpCase(op, [r.arr(s), None, np.asarray([float(r.c([0.5, 1, 2, 3])) for _ in axes], F32)], at, static=[2], opset=18, reg='scales_axes')
    sz = s[:2] + [r.i(1, 10) for _ in s[2:]]
    if r.b(.7):
        ins, st = [r.arr(s), None, None, i64(sz)], [3]
    else:
        ins, st = [r.arr(s), np.zeros([0], F32), np.zeros([0], F32), i64(sz)], [1, 2, 3]
    return OpCase(op, ins, at, static=st, opset=13, reg='sizes' + ('' if 'mode' in at else '_default_mode'))


@gen('Upsample')
def g_upsample(op, r):
    s = [r.i(1, 2), r.i(1, 3), r.i(2, 6), r.i(2, 6)]
    sc = np.asarray([1, 1, r.c([1, 1.5, 2, 3]), r.c([1, 2, 2.5])], F32)
    at = {'mode': r.c(['nearest', 'linear'])} if r.b(.7) else {}
    if r.b(.25):
        return OpCase(op, [r.arr(s)], dict(at, scales=[float(v) for v in sc]), opset=7, reg='attr')
    return OpCase(op, [r.arr(s), sc], at, static=[1], opset=9)


@gen('GridSample')
def g_grid(op, r):
    if r.b(.3):
        s = [r.i(1, 2), r.i(1, 3)] + [r.i(1, 4) for _ in range(3)]
        return OpCase(op, [r.arr(s), r.arr([s[0]] + [r.i(1, 4) for _ in range(3)] + [3], F32, -1, 1)], {'align_corners': r.i(0, 1)} if r.b() else {}, opset=20, reg='3d')
    s = [r.i(1, 2), r.i(1, 3), r.i(2, 4), r.i(2, 4)]
    return OpCase(op, [r.arr(s), r.arr([s[0], r.i(1, 4), r.i(1, 4), 2], F32, -1, 1)], opset=16)


# ---------------------------------------------------------------- reductions
@gen('ReduceMean', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2')
def g_reduce(op, r):
    s = r.shape(1, 4)
    axes = r.subset(len(s))
    if r.b(.4):
        axes = [int(v) for v in r.g.permutation(axes)]
    axes = r.negmix(axes, len(s))
    at = {}
    if r.b():
        at['keepdims'] = r.i(0, 1)
    x = r.arr(s, r.c([F32, F32, F64, F32] + ([I32, I64] if op != 'ReduceMean' else []) + ([np.int8, np.uint8] if op in ('ReduceMin', 'ReduceMax') else [])), -2, 2)
    form = r.c(['attr', 'attr', 'none', 'input18'])
    if form == 'attr':
        at['axes'] = axes
        return OpCase(op, [x], at, opset=13, reg='attr')
    if form == 'none':
        return OpCase(op, [x], at, opset=13, reg='noaxes')
    if r.b(.15) and op != 'ReduceSum':
        if r.b():
            at['noop_with_empty_axes'] = r.i(0, 1)
        return OpCase(op, [x] if r.b() else [x, i64([])], at, static=[1], opset=18, reg='noop' if at.get('noop_with_empty_axes') else 'emptyaxes')
    return OpCase(op, [x, i64(axes)], at, static=[1], opset=18, reg='input')


@gen('ReduceSum')
def g_reducesum(op, r):
    c = g_reduce(op, r)
    if c.opset == 18:
        c.opset = 13
    elif 'axes' in c.attrs:
        c.opset = 11
    if c.reg == 'input' and r.b(.15):
        c.inputs[1] = i64([])
        c.reg = 'emptyaxes'
        if r.b():
            c.attrs['noop_with_empty_axes'] = 1
            c.reg = 'noop'
    return c


# ---------------------------------------------------------------- contractions
@gen('MatMul')
def g_matmul(op, r):
    k = r.i(1, 5)
    if r.b(.2):
        a = r.c([[k], [r.i(1, 4), k], [r.i(1, 3), r.i(1, 4), k]])
        b = r.c([[k], [k, r.i(1, 4)], [r.i(1, 3), k, r.i(1, 4)]])
        if len(a) > 1 and len(b) > 1:
            b = [k]
        return OpCase(op, [r.arr(a), r.arr(b)], reg='1d')
    ba, bb = r.bshapes(2, hi=2)
    dt = r.c([F32, F32, F64, I64, I32])
    return OpCase(op, [r.arr(ba + [r.i(1, 5), k], dt), r.arr(bb + [k, r.i(1, 5)], dt)], static=[1] if r.b() else [], reg='nd')


@gen('Gemm')
def g_gemm(op, r):
    m, k, n = r.i(1, 5), r.i(1, 5), r.i(1, 5)
    at = {}
    ta, tb = r.b(), r.b()
    if ta or r.b(.3):
        at['transA'] = int(ta)
    if tb or r.b(.3):
        at['transB'] = int(tb)
    if r.b(.4):
        at['alpha'] = 0.5
    if r.b(.4):
        at['beta'] = r.c([2.0, 2.0, 0.5, 0.0])
    ins = [r.arr([k, m] if ta else [m, k]), r.arr([n, k] if tb else [k, n])]
    if r.b(.7):
        ins.append(r.arr(r.c([[n], [1, n], [m, 1], [m, n], [1], []])))
    return OpCase(op, ins, at, static=[1] + ([2] if len(ins) > 2 else []) if r.b(.7) else [], reg='alphabeta' if 'alpha' in at or 'beta' in at else '')


@gen('Einsum')
def g_einsum(op, r):
    d = {c: r.i(1, 4) for c in 'bhijkdAZ'}
    eq = r.c(['ij,jk->ik', 'bij,bjk->bik', 'bhid,bhjd->bhij', 'bhij,bhjd->bhid', 'ij,ij->ij', 'ij,jk', 'bij,jk->bik', 'i,j->ij', 'ij,ij->', 'bhid,hdk->bik',
              '...ij,...jk->...ik', 'ij->ji', 'bij->bj', 'ij,jk,kd->id', 'ii->i', 'ii', 'bii->bi', 'ij , jk -> ik', 'iA,AZ->iZ', 'kZ,Aj', 'ji', 'i,i->', ',i->i',
              '...ij->...', '...ij->ij...', '...i->i', 'ij...', '...ij,jk...->...ik', 'i...j,j->i...', 'b...,b...->...b', '...,...->...', '...ij,jk->...ik',
              'i...->...', '...ij,...j', 'b...i,b...i->b...', '...ij,...jk,k'])
    lhs = eq.replace(' ', '').split('->')[0].split(',')
    ins = []
    ell = r.shape(1, 2) if r.b(.8) else []
    for t in lhs:
        head, e, tail = t.partition('...')
        ins.append(r.arr([d[c] for c in head] + (ell if e else []) + [d[c] for c in tail]))
    reg = 'ellipsis' if '...' in eq else ('unary' if len(lhs) == 1 else ('3op' if len(lhs) == 3 else 'binary'))
    if '...' in eq and (any('...' in t and not t.startswith('...') for t in lhs) or '->' in eq and not eq.split('->')[1].startswith('...')):
        reg += '_moved'
    if '->' not in eq:
        reg += '_implicit'
    return OpCase(op, ins, {'equation': eq}, reg=reg)


def convdims(r, nd, transpose=False):
    x = [r.i(4, 8) if nd < 3 else r.i(3, 5) for _ in range(nd)]
    k = [r.i(1, 3) for _ in range(nd)]
    st = [r.i(1, 3) for _ in range(nd)]
    dl = [r.i(1, 2) for _ in range(nd)]
    return x, k, st, dl


def conv_attrs(r, nd, k, st, dl, auto_ok=True):
    at = {}
    reg = f'{nd}d'
    if r.b(.7):
        at['strides'] = st
    if r.b(.5):
        at['dilations'] = dl
        reg += '_dil'
    if r.b(.6):
        at['kernel_shape'] = k
    if auto_ok and r.b(.25):
        at['auto_pad'] = r.c(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
        reg += '_' + at['auto_pad']
    elif r.b(.7):
        at['pads'] = [r.i(0, 2) for _ in range(2 * nd)]
    return at, reg


def eff(x, k, d):
    return (k - 1) * d + 1


def fix_conv(x, k, at):
    """make sure each output dim is at least 1"""
    nd = len(x)
    d = at.get('dilations', [1] * nd)
    p = at.get('pads', [0] * 2 * nd)
    for i in range(nd):
        need = eff(0, k[i], d[i]) - p[i] - p[i + nd]
        if x[i] < need:
            x[i] = need
    return x


@gen('Conv')
def g_conv(op, r):
    nd = r.c([2, 2, 2, 1, 3])
    x, k, st, dl = convdims(r, nd)
    at, reg = conv_attrs(r, nd, k, st, dl)
    x = fix_conv(x, k, at)
    g = r.c([1, 1, 2, 3])
    ci, co = g * r.i(1, 2), g * r.i(1, 2)
    if g > 1:
        at['group'] = g
        reg += '_group'
    ins = [r.arr([r.i(1, 2), ci] + x), r.arr([co, ci // g] + k)]
    if r.b():
        ins.append(r.arr([co]))
    return OpCase(op, ins, at, static=list(range(1, len(ins))), reg=reg, novalue=False)


@gen('ConvTranspose')
def g_convt(op, r):
    nd = r.c([2, 2, 1, 3])
    x = [r.i(2, 5) for _ in range(nd)]
    k = [r.i(1, 3) for _ in range(nd)]
    at = {}
    reg = f'{nd}d'
    st = [1] * nd
    dl = [1] * nd
    if r.b(.7):
        st = at['strides'] = [r.i(1, 3) for _ in range(nd)]
    if r.b(.4):
        dl = at['dilations'] = [r.i(1, 2) for _ in range(nd)]
    if r.b(.5):
        p = [min(r.i(0, 1), k[i % nd] - 1) for i in range(2 * nd)]
        at['pads'] = p
    if r.b(.3):
        at['output_padding'] = [r.i(0, max(0, max(st[i], dl[i]) - 1)) for i in range(nd)]
        reg += '_opad'
    if r.b(.5):
        at['kernel_shape'] = k
    if r.b(.2):
        at['auto_pad'] = r.c(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'])
        if at['auto_pad'] != 'NOTSET':
            at.pop('pads', None)
        if at['auto_pad'].startswith('SAME'):
            at.pop('output_padding', None)
            k = [max(kk, -(-(ss - 1) // dd) + 1) for kk, ss, dd in zip(k, st, dl)]   # the kernel covers a stride
            if 'kernel_shape' in at:
                at['kernel_shape'] = k
        reg += '_' + at['auto_pad']
    g = r.c([1, 1, 2])
    if g > 1:
        at['group'] = g
    ci, co = g * r.i(1, 2), r.i(1, 3)
    if r.b(.15):
        at.pop('output_padding', None)
        at.pop('pads', None)
        at.pop('auto_pad', None)
        at['output_shape'] = [st[i] * (x[i] - 1) + (k[i] - 1) * dl[i] + 1 - r.i(0, k[i] - 1) for i in range(nd)]
        reg += '_oshape'
    ins = [r.arr([r.i(1, 2), ci] + x), r.arr([ci, co] + k)]
    if r.b():
        ins.append(r.arr([co * g]))
    return OpCase(op, ins, at, static=list(range(1, len(ins))), reg=reg)


@gen('MaxPool', 'AveragePool')
def g_pool(op, r):
    nd = r.c([2, 2, 2, 1, 3])
    x, k, st, dl = convdims(r, nd)
    k = [r.i(1, 3) for _ in range(nd)]
    at = {'kernel_shape': k}
    reg = f'{nd}d'
    if r.b(.7):
        at['strides'] = st
    if r.b(.2):
        at['auto_pad'] = r.c(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
        reg += '_' + at['auto_pad']
    elif r.b(.6):
        at['pads'] = [r.i(0, max(0, k[i % nd] - 1)) for i in range(2 * nd)]
        reg += '_pads'
    opset = 12
    if op == 'MaxPool' and r.b(.35):
        at['dilations'] = dl
        reg += '_dil'
        x = [max(v, eff(0, kk, d)) for v, kk, d in zip(x, k, dl)]
    if r.b(.3) and 'auto_pad' not in at:
        at['ceil_mode'] = 1
        reg += '_ceil'
    if op == 'AveragePool' and r.b(.3):
        at['count_include_pad'] = 1
    if op == 'AveragePool' and r.b(.2):
        at['dilations'] = dl
        reg += '_dil'
        opset = 19
        x = [max(v, eff(0, kk, d)) for v, kk, d in zip(x, k, dl)]
    x = [max(v, kk) for v, kk in zip(x, k)]
    nout = 1
    if op == 'MaxPool' and r.b(.1):
        nout = 2
        reg += '_indices'
    return OpCase(op, [r.arr([r.i(1, 2), r.i(1, 3)] + x)], at, opset=opset, nout=nout, reg=reg)


@gen('GlobalAveragePool')
def g_gap(op, r):
    return OpCase(op, [r.arr([r.i(1, 3), r.i(1, 4)] + [r.i(1, 5) for _ in range(r.c([2, 2, 1, 3]))])])


# ---------------------------------------------------------------- recurrent, quantised, detection
def rnn(op, r, gates):
    s, b, i, h = r.i(1, 4), r.i(1, 3), r.i(1, 4), r.i(1, 4)
    d = r.c([1, 2])
    at = {'hidden_size': h}
    if d == 2:
        at['direction'] = 'bidirectional'
    elif r.b(.3):
        at['direction'] = r.c(['forward', 'reverse'])
    ins = [r.arr([s, b, i]), r.arr([d, gates * h, i], F32, -1, 1), r.arr([d, gates * h, h], F32, -1, 1)]
    st = [1, 2]
    if r.b(.7):
        ins.append(r.arr([d, 2 * gates * h], F32, -1, 1))
        st.append(3)
        if r.b(.4):
            ins += [np.asarray([r.i(1, s) for _ in range(b)], I32) if r.b(.3) else None, r.arr([d, b, h])]
        elif r.b(.15):
            ins += [np.asarray([r.i(1, s) for _ in range(b)], I32)]
    if r.b(.15):
        at['clip'] = 2.5
    if r.b(.15):
        at['activations'] = {4: ['Tanh', 'Sigmoid', 'Relu'], 3: ['Sigmoid', 'Relu'], 1: ['Relu']}[gates] * d
    reg = ''
    if r.b(.25):
        at['layout'] = 1
        reg = 'batchfirst'
        ins = [np.swapaxes(x, 0, 1).copy() if k in (0, 5) and x is not None else x for k, x in enumerate(ins)]
    if r.b(.2):
        at.pop('hidden_size')
    return ins, at, st, reg


@gen('LSTM')
def g_lstm(op, r):
    ins, at, st, reg = rnn(op, r, 4)
    if len(ins) == 6 and r.b():
        ins.append(r.arr(ins[5].shape))
        if r.b(.3):
            ins.append(r.arr([ins[1].shape[0], 3 * ins[2].shape[2]], F32, -1, 1))
    if r.b(.1):
        at['input_forget'] = 1
    return OpCase(op, ins, at, static=st, nout=r.c([1, 2, 3]), opset=14, reg=reg)


@gen('GRU')
def g_gru(op, r):
    ins, at, st, reg = rnn(op, r, 3)
    if r.b(.3):
        at['linear_before_reset'] = 1
    return OpCase(op, ins, at, static=st, nout=r.c([1, 2]), opset=14, reg=reg)


@gen('QuantizeLinear')
def g_ql(op, r):
    s = r.shape(1, 4)
    zdt = r.c([np.uint8, np.int8])
    if r.b(.2):
        return OpCase(op, [r.arr(s), np.asarray(0.05, F32)], static=[1], opset=13, reg='nozp')
    if r.b(.15):
        return OpCase(op, [r.arr(s), np.asarray(0.05, F32)], {'output_dtype': r.c([2, 3])}, static=[1], opset=21, reg='nozp_type')
    if r.b(.6):
        return OpCase(op, [r.arr(s), np.asarray(0.05, F32), np.asarray(3, zdt)], static=[1, 2], opset=13)
    ax = r.i(0, len(s) - 1)
    return OpCase(op, [r.arr(s), r.arr([s[ax]], F32, .01, .1), r.arr([s[ax]], zdt, 0, 3)], {'axis': ax}, static=[1, 2], opset=13, reg='axis')


@gen('DequantizeLinear')
def g_dql(op, r):
    s = r.shape(1, 4)
    zdt = r.c([np.uint8, np.int8])
    x = r.arr(s, zdt, 0, 100)
    if r.b(.4):
        ins = [x, np.asarray(0.05, F32)]
        return OpCase(op, ins, static=[1], opset=19, reg='nozp')
    if r.b(.3):
        ax = r.i(0, len(s) - 1)
        return OpCase(op, [x, r.arr([s[ax]], F32, .01, .1), r.arr([s[ax]], zdt, 0, 3)], {'axis': ax}, static=[1, 2], opset=19, reg='axis')
    if r.b(.2):
        return OpCase(op, [x, np.asarray(0.05, F16)], static=[1], opset=19, reg='half', tol=1e-2)
    return OpCase(op, [x, np.asarray(0.05, F32), np.asarray(3, zdt)], static=[1, 2], opset=19)


@gen('MatMulInteger')
def g_mmi(op, r):
    k = r.i(1, 5)
    ba, bb = r.bshapes(2, hi=1)
    ins = [r.arr(ba + [r.i(1, 4), k], np.uint8, 0, 9), r.arr(bb + [k, r.i(1, 4)], np.int8, -9, 9)]
    st = [1]
    if r.b(.2):
        ins[1] = r.arr(ins[1].shape, np.uint8, 0, 200)
    if r.b():
        za = r.arr([ins[0].shape[-2]], np.uint8, 0, 5) if r.b(.3) and ins[0].ndim == 2 else np.asarray(r.i(0, 5), np.uint8)
        zb = r.arr([ins[1].shape[-1]], ins[1].dtype, 0, 3) if r.b(.3) and ins[1].ndim == 2 else np.asarray(r.i(0, 3), ins[1].dtype)
        form = r.i(0, 2)
        ins += [[za, zb], [za], [None, zb]][form]
        st += [[2, 3], [2], [3]][form]
        return OpCase(op, ins, static=st, opset=13, reg='rowzero' if za.ndim and form < 2 else 'zero')
    return OpCase(op, ins, static=st, opset=13)


@gen('QLinearMatMul')
def g_qlmm(op, r):
    k = r.i(1, 5)
    ba, bb = r.bshapes(2, hi=1)
    ta, tb = r.c([np.uint8, np.uint8, np.int8]), r.c([np.uint8, np.uint8, np.int8])
    top = r.c([9, 9, 120])
    z = lambda t: np.asarray(r.i(0, 3), t)
    sc = lambda: np.asarray(r.c([.1, .1, .25, .5]), F32)
    return OpCase(op, [r.arr(ba + [r.i(1, 4), k], ta, -top, top), sc(), z(ta), r.arr(bb + [k, r.i(1, 4)], tb, -top, top), sc(), z(tb), sc(), z(ta)],
                  static=[1, 2, 3, 4, 5, 6, 7], opset=13)


@gen('QLinearConv')
def g_qlconv(op, r):
    nd = r.c([2, 2, 1])
    x, k, st, dl = convdims(r, nd)
    at, reg = conv_attrs(r, nd, k, st, dl)
    x = fix_conv(x, k, at)
    z = lambda: np.asarray(1, np.uint8)
    sc = lambda: np.asarray(.1, F32)
    g = r.c([1, 1, 2])
    ci, co = g * r.i(1, 2), g * r.i(1, 2)
    if g > 1:
        at['group'] = g
        reg += '_group'
    ins = [r.arr([1, ci] + x, np.uint8, 0, 9), sc(), z(), r.arr([co, ci // g] + k, np.uint8, 0, 9), sc(), z(), sc(), z()]
    if r.b():
        ins.append(r.arr([co], I32, -3, 3))
    return OpCase(op, ins, at, static=list(range(1, len(ins))), opset=10, reg=reg)


@gen('ConvInteger')
def g_convint(op, r):
    nd = r.c([2, 2, 1])
    x, k, st, dl = convdims(r, nd)
    at, reg = conv_attrs(r, nd, k, st, dl)
    x = fix_conv(x, k, at)
    g = r.c([1, 1, 2])
    ci, co = g * r.i(1, 2), g * r.i(1, 2)
    if g > 1:
        at['group'] = g
        reg += '_group'
    ins = [r.arr([1, ci] + x, np.uint8, 0, 9), r.arr([co, ci // g] + k, np.uint8, 0, 9)]
    return OpCase(op, ins, at, static=[1], opset=10, reg=reg)


@gen('RoiAlign')
def g_roi(op, r):
    n = r.i(1, 3)
    at = {'sampling_ratio': 2} if r.b(.8) else {}
    if r.b(.75):
        at['output_height'] = r.i(1, 3)
    if r.b(.75):
        at['output_width'] = r.i(1, 3)
    if r.b(.3):
        at['mode'] = 'max'
    if r.b(.3):
        at['spatial_scale'] = 0.5
    return OpCase(op, [r.arr([2, r.i(1, 3), 5, 5]), r.arr([n, 4], F32, 0, 4), r.arr([n], I64, 0, 1)], at, opset=10)


@gen('RandomUniformLike', 'RandomNormalLike')
def g_rand(op, r):
    return OpCase(op, [r.arr(r.shape())], {'dtype': r.c([1, 11])} if r.b() else {}, novalue=True)


@gen('Constant')
def g_const(op, r):
    import onnx
    k = r.c(['value', 'value_float', 'value_int', 'value_floats', 'value_ints', 'sparse_value', 'value_string', 'value_strings'])
    if k == 'value':
        v = onnx.numpy_helper.from_array(r.arr(r.shape(), r.c([F32, I64, I32, F64])))
    elif k == 'value_float':
        v = 1.5
    elif k == 'value_int':
        v = 7
    elif k == 'value_floats':
        v = [0.5, 1.5]
    elif k == 'value_ints':
        v = [1, 2, 3]
    elif k == 'value_string':
        v = 'ab'
    elif k == 'value_strings':
        v = ['ab', 'c', ''][:r.i(1, 3)]
    else:
        s = [r.i(1, 4) for _ in range(r.i(1, 3))]
        total = int(np.prod(s))
        at = np.sort(r.g.permutation(total)[:r.i(1, total)])
        idx = at if r.b() else np.stack(np.unravel_index(at, s), 1)
        vals = r.arr([len(at)], r.c([F32, I64, F64]), nz=True)
        v = onnx.helper.make_sparse_tensor(onnx.numpy_helper.from_array(vals, 'v'), onnx.numpy_helper.from_array(np.ascontiguousarray(idx, dtype=I64), 'i'), s)
    return OpCase(op, [], {k: v}, opset=13, reg=k)


_OPT = {}


def optional_inputs(op, opset):
    """for every formal input: may it be omitted?"""
    if (op, opset) not in _OPT:
        import onnx
        res = []
        try:
            for f in onnx.defs.get_schema(op, opset).inputs:
                res.append(f.option == onnx.defs.OpSchema.FormalParameterOption.Optional)
                if f.option == onnx.defs.OpSchema.FormalParameterOption.Variadic:
                    res = []
                    break
        except Exception:
            res = []
        _OPT[op, opset] = res
    return _OPT[op, opset]


@gen('Scan')
def g_scan(op, r):
    """a body over random elements of the scanned tensors and carried states"""
    from onnx import helper as h, numpy_helper as nh, TensorProto as TP
    dt = r.c([F32, F32, F64, I64, I32])
    el = h.np_dtype_to_tensor_dtype(np.dtype(dt))
    old = r.b(.15)                       # the form of opset 8: a batch axis and the lengths of the sequences
    nst, nsc = r.i(0, 2), r.i(1, 3)
    n = r.i(1, 4)                        # iterations
    batch = r.i(1, 3)
    nodes, inits, ins, outs, vis = [], [], [], [], []
    at = {'num_scan_inputs': nsc}

    def decl(name, s):
        # the body may declare the full shape, the rank or nothing of its inputs
        k = r.i(0, 3)
        return h.make_tensor_value_info(name, el, list(s) if k < 2 else [None if r.b() else d for d in s] if k == 2 else None)
    shapes = {}
    for i in range(nst):
        shapes[f's{i}'] = tuple(r.shape(0, 3))
    for i in range(nsc):
        shapes[f'x{i}'] = shapes[f's{i}'] if i < nst and r.b(.6) else tuple(r.shape(0, 3))
    binputs = [decl(k, v) for k, v in shapes.items()]
    cnt = [0]

    def add(op, ins, **kw):
        cnt[0] += 1
        nodes.append(h.make_node(op, ins, [f't{cnt[0]}'], name=f'b{cnt[0]}', **kw))
        return f't{cnt[0]}'

    def const(a):
        cnt[0] += 1
        inits.append(nh.from_array(np.asarray(a), f'c{cnt[0]}'))
        return f'c{cnt[0]}'
    shapes0 = dict(shapes)
    types = {k: dt for k in shapes}

    def step(x):
        s = shapes[x]
        k = r.i(0, 6)
        if k == 0:
            y, t = add('Add', [x, const(r.arr(s, dt))]), s
        elif k == 1 and len(s):
            p = [int(v) for v in r.g.permutation(len(s))]
            y, t = add('Transpose', [x], perm=p), tuple(s[v] for v in p)
        elif k == 2 and len(s):
            a = r.i(0, len(s) - 1)
            y, t = add('Concat', [x, x], axis=a), s[:a] + (2 * s[a],) + s[a + 1:]
        elif k == 3 and 0 not in s:
            y, t = add('Reshape', [x, const(np.array([-1], np.int64))]), (int(np.prod(s)),)
        elif k == 4 and dt in (F32, F64) and len(s) >= 1:
            m = r.i(1, 4)
            y, t = add('MatMul', [x, const(r.arr([s[-1], m], dt))]), s[:-1] + (m,)
        elif k == 5:
            y, t = add('Shape', [x]), (len(s),)
            types[y] = np.int64
        else:
            y, t = add('Neg', [x]) if types[x] == dt else add('Identity', [x]), s
        types.setdefault(y, types[x])
        shapes[y] = t
        return y
    names = list(shapes)
    for i in range(nst):
        s = f's{i}'
        same = [x for x in names if x[0] == 'x' and shapes[x] == shapes[s]]
        y = add('Add', [s, r.c(same)]) if same and r.b(.8) else add(r.c(['Identity', 'Neg']), [s])
        shapes[y], types[y] = shapes[s], dt
        outs.append(y)
    pool = [k for k in shapes if types[k] == dt]
    for i in range(r.i(0 if nst else 1, 3)):
        y = r.c(pool)
        for _ in range(r.i(0, 3)):
            if types[y] != dt:
                break
            y = step(y)
        outs.append(y)
    bouts = [h.make_tensor_value_info(o, h.np_dtype_to_tensor_dtype(np.dtype(types[o])), None) for o in outs]
    nsco = len(outs) - nst
    body = h.make_graph(nodes, 'body', binputs, bouts, inits)
    at['body'] = body
    arrays = []
    axes = [0] * nsc
    if not old:
        axes = [r.i(0, len(shapes0[f'x{i}'])) for i in range(nsc)] if r.b() else axes
        if any(axes) or r.b(.2):
            at['scan_input_axes'] = [a - len(shapes0[f'x{i}']) - 1 if r.b(.4) else a for i, a in enumerate(axes)]
        if r.b():
            at['scan_input_directions'] = [r.i(0, 1) for _ in range(nsc)]
        if nsco and r.b():
            at['scan_output_axes'] = [r.i(-len(shapes[o]) - 1, len(shapes[o])) for o in outs[nst:]]
        if nsco and r.b():
            at['scan_output_directions'] = [r.i(0, 1) for _ in range(nsco)]
    for i in range(nst):
        arrays.append(r.arr(([batch] if old else []) + list(shapes0[f's{i}']), dt))
    for i in range(nsc):
        s = list(shapes0[f'x{i}'])
        s.insert(axes[i], n)
        arrays.append(r.arr(([batch] if old else []) + s, dt))
    if old:
        arrays.insert(0, None)
    return OpCase(op, arrays, at, nout=len(outs), opset=8 if old else r.c([9, 11, 13, 16, 19, 21]), reg='attr_body_old' if old else 'attr_body')


def make(op, rng):
    state = rng.bit_generator.state
    try:
        c = GEN[op](op, R(rng, zero=rng.random() < 0.04))
    except ValueError:      # the generator cannot do without elements
        rng.bit_generator.state = state
        c = GEN[op](op, R(rng))
    if op == 'Scan':        # its body is written for these inputs
        return c
    if rng.random() < 0.12:
        # omitted optional inputs may be spelled out as empty names
        opt = optional_inputs(op, c.opset)[len(c.inputs):]
        if opt and all(opt):
            c.inputs = list(c.inputs) + [None] * int(rng.integers(1, len(opt) + 1))
            c.reg += '_trailing'
    k = rng.random()
    if k < 0.04 and c.reg != 'all-zero':
        bfloat16(op, c)
    elif k < 0.12 and c.op in MOVING:
        retype(c, rng)
    elif k < 0.3:
        anytype(c, rng)
    elif k < 0.46 and c.op in POINTWISE:
        extremes(c, rng)
    if rng.random() < 0.12:
        otherversion(c, rng)
    if rng.random() < 0.1:
        spelled(c, rng)
    if c.op in POINTWISE and c.tol == 1e-4:
        c.tol = 'pointwise'     # no accumulated rounding: only the last digits may differ
    return c


POINTWISE = ('Ceil', 'Floor', 'Round', 'Exp', 'Sin', 'Cos', 'Tanh', 'Sigmoid', 'Atan', 'Softplus', 'Erf', 'Log', 'Sqrt', 'Reciprocal', 'Relu', 'Identity', 'Abs', 'Neg',
             'LeakyRelu', 'Elu', 'Clip', 'HardSigmoid', 'HardSwish', 'Gelu', 'PRelu', 'Add', 'Sub', 'Mul', 'Div', 'Min', 'Max', 'Where', 'Less', 'LessOrEqual', 'Greater',
             'Equal', 'Sign', 'Sum', 'Pow', 'ReduceMax', 'ReduceMin', 'Concat', 'Slice', 'Gather', 'Transpose', 'Tile', 'Expand', 'Pad')
EXTREMES = (np.inf, -np.inf, 1e30, -1e30, 60., -60., 12., -12., 3e-39, -0., 1e-6)


def extremes(c, rng):
    """some elements of the float inputs at the ends of the number range"""
    xs = [k for k, x in enumerate(c.inputs) if x is not None and x.dtype in (F32, F64) and x.size and k not in c.static]
    if not xs:
        return
    c.inputs = list(c.inputs)
    for k in xs:
        x = np.array(c.inputs[k])
        at = rng.random(x.shape) < 0.5
        with np.errstate(all='ignore'):
            # (Clip before opset 11 has the largest finite numbers as its default bounds)
            x[at] = np.array(EXTREMES[2:] if c.op == 'Clip' else EXTREMES, x.dtype)[rng.integers(0, len(EXTREMES) - 2 * (c.op == 'Clip'), int(at.sum()))]
        c.inputs[k] = np.abs(x) if c.op in ('Log', 'Sqrt') else x
    c.reg += '_ends'


MOVING = ('Identity', 'Transpose', 'Concat', 'Split', 'Slice', 'Gather', 'GatherElements', 'GatherND', 'ScatterElements', 'ScatterND', 'Reshape', 'Flatten', 'Squeeze',
          'Unsqueeze', 'Expand', 'Tile', 'Pad', 'DepthToSpace', 'Trilu', 'Compress', 'Where', 'Shape', 'Equal', 'ArgMax', 'Not', 'NonZero', 'Dropout')
TYPES = ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'double')


def retype(c, rng):
    """operators which only move elements, with elements of another type"""
    import onnx
    s = onnx.defs.get_schema(c.op, c.opset)
    allowed = {t.type_param_str: t.allowed_type_strs for t in s.type_constraints}
    first = 1 if c.op == 'Where' else 0
    t = s.inputs[first].type_str
    if c.attrs.get('reduction', 'none') not in ('none', b'none') or c.reg.startswith('attr_'):
        return
    types = [k for k in TYPES if f'tensor({k})' in allowed.get(t, ())]
    if not types:
        return
    dt = np.dtype({'double': 'float64'}.get(x := types[int(rng.integers(len(types)))], x))
    c.inputs = list(c.inputs)
    for k, x in enumerate(c.inputs):
        if x is not None and s.inputs[min(k, len(s.inputs) - 1)].type_str == t:
            c.inputs[k] = np.asarray(np.abs(x) if dt.kind in 'ub' else x).astype(dt)
    if c.op == 'NonZero' and not np.any(c.inputs[0]):
        c.reg = 'all-zero'          # the input of a known finding, whatever the type is
        return
    c.reg += '_' + dt.name


ALLTYPES = ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float', 'double', 'string')
WORDS = np.array(['', 'a', 'b', 'ab', 'Ω', '0', 'long text', 'A'], object)


def anytype(c, rng):
    """the inputs of one type parameter in any other type the operator takes"""
    import onnx
    try:
        s = onnx.defs.get_schema(c.op, c.opset)
    except Exception:
        return
    allowed = {t.type_param_str: t.allowed_type_strs for t in s.type_constraints}
    of = {}
    for k, x in enumerate(c.inputs):
        if x is not None:
            of.setdefault(s.inputs[min(k, len(s.inputs) - 1)].type_str, []).append(k)
    pars = []
    for t in sorted(of):
        types = [k for k in ALLTYPES if f'tensor({k})' in allowed.get(t, ())]
        if len(types) > 1:
            pars.append((t, types))
    if not pars or c.reg.startswith('attr_') or c.reg in ('all-zero', 'before13') or (c.op, c.reg) == ('Dropout', 'training'):
        return
    t, types = pars[int(rng.integers(len(pars)))]
    x = types[int(rng.integers(len(types)))]
    dt = np.dtype({'double': 'float64', 'float': 'float32', 'string': object}.get(x, x))
    if c.op == 'Gemm' and dt.kind in 'iu' and any(c.attrs.get(a, 1) % 1 for a in ('alpha', 'beta')):
        return      # no defined rounding
    c.inputs = list(c.inputs)
    for k in of[t]:
        v = c.inputs[k]
        if v.dtype == dt:
            continue
        if x == 'string':
            c.inputs[k] = np.asarray(WORDS[rng.integers(0, len(WORDS), v.shape)], object).reshape(v.shape)
        else:
            with np.errstate(all='ignore'):
                c.inputs[k] = np.asarray(np.abs(v) if dt.kind in 'ub' and v.dtype.kind in 'if' else v).astype(dt)
    if c.op == 'NonZero' and not np.any(c.inputs[0]):
        c.reg = 'all-zero'
        return
    if dt == F16 or c.tol == 1e-4 and any(v is not None and v.dtype == F16 for v in c.inputs):
        c.tol = 2e-2
    c.reg += '_as_' + x


def accepts(s, c):
    import onnx
    if s.deprecated or any(a not in s.attributes for a in c.attrs) or any(a.required and n not in c.attrs for n, a in s.attributes.items()):
        return False
    if not s.min_input <= len(c.inputs) <= s.max_input or not s.min_output <= c.nout <= s.max_output:
        return False
    allowed = {t.type_param_str: t.allowed_type_strs for t in s.type_constraints}
    bound = {}
    for k, x in enumerate(c.inputs):
        f = s.inputs[min(k, len(s.inputs) - 1)]
        if x is None:
            if f.option != onnx.defs.OpSchema.FormalParameterOption.Optional:
                return False
            continue
        t = onnx.helper.tensor_dtype_to_string(onnx.helper.np_dtype_to_tensor_dtype(x.dtype)).split('.')[1].lower() if x.dtype.kind not in 'OSU' else 'string'
        if f'tensor({t})' not in allowed.get(f.type_str, {f.type_str}):
            return False
        if bound.setdefault(f.type_str, t) != t and (f.option != onnx.defs.OpSchema.FormalParameterOption.Variadic or f.is_homogeneous):
            return False
    return True


def spelled(c, rng):
    """attributes which have a default value, with this value"""
    import onnx
    try:
        s = onnx.defs.get_schema(c.op, c.opset)
    except Exception:
        return
    # (the reference computes another MaxPool when it is given auto_pad or storage_order)
    if c.reg in ('all-zero', 'before13') or c.op == 'MaxPool':
        return
    names = [n for n, a in sorted(s.attributes.items()) if n not in c.attrs and a.default_value.type != onnx.AttributeProto.UNDEFINED]
    some = [n for n in names if rng.random() < .5]
    if some:
        v = {n: onnx.helper.get_attribute_value(s.attributes[n].default_value) for n in some}
        c.attrs = dict(c.attrs, **{n: x.decode() if isinstance(x, bytes) else x for n, x in v.items()})
        c.reg += '_spelled'


def otherversion(c, rng):
    """the same node in another version of the operator set which takes it"""
    import onnx
    if c.op in ('Softmax', 'LogSoftmax', 'Hardmax', 'Scan') or c.reg in ('all-zero', 'before13'):
        return
    vs = []
    for v in range(7, 26):
        try:
            s = onnx.defs.get_schema(c.op, v)
        except Exception:
            continue
        # (the reference takes 9 to 13 of BatchNormalization for training)
        if v != c.opset and accepts(s, c) and not (c.op == 'BatchNormalization' and s.since_version == 9):
            vs.append(v)
    if vs:
        c.opset = vs[int(rng.integers(len(vs)))]
        c.reg += f'_opset{c.opset}'


def bfloat16(op, c):
    """the single precision inputs in bfloat16 instead, where the operator takes it (judged by shape and type, not by value)"""
    import onnx, ml_dtypes
    s = onnx.defs.get_schema(c.op, c.opset)
    allowed = {t.type_param_str: t.allowed_type_strs for t in s.type_constraints}
    f = [k for k, x in enumerate(c.inputs) if x is not None and x.dtype == F32]
    par = [s.inputs[min(k, len(s.inputs) - 1)].type_str for k in f]
    if f and all('tensor(bfloat16)' in allowed.get(t, ()) for t in par):
        c.inputs = list(c.inputs)
        for k in f:
            c.inputs[k] = c.inputs[k].astype(ml_dtypes.bfloat16)
        c.novalue = True
        c.reg += '_bf16'
