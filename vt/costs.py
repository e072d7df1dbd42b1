"""Operation counts of ONNX operators after data/Profile.md, written independently of the tool.

One count per a*b+c step, one per other elementary instruction (compare, add, multiply, bias addition), padding included.
Contractions are measured, not derived: the operation is executed on all-ones operands, where the sum of the outputs is the
number of multiply-add steps.  Functions without one instruction (exp, log, sin, div ...) have the fixed costs below."""
import math
import numpy as np

DIV, EXP, LOG, SIN, SQRT = 4, 32, 43, 39, 24
TANH = EXP + 2 + DIV
# instructions per output element
UNIT = {'Add': 1, 'Sub': 1, 'Mul': 1, 'Div': DIV, 'Mod': 1, 'Neg': 1, 'Abs': 1, 'Ceil': 1, 'Floor': 1, 'Round': 1, 'Sign': 1,
        'Less': 1, 'LessOrEqual': 1, 'Greater': 1, 'GreaterOrEqual': 1, 'Equal': 1, 'Not': 1, 'And': 1, 'Or': 1, 'Xor': 1,
        'Relu': 1, 'Clip': 2, 'LeakyRelu': 2, 'PRelu': 2, 'HardSigmoid': 4, 'HardSwish': 5, 'Reciprocal': DIV,
        'Exp': EXP, 'Sigmoid': EXP, 'Log': LOG, 'Sqrt': SQRT, 'Pow': EXP, 'Sin': SIN, 'Cos': SIN, 'Tanh': 2 * TANH,
        'Atan': 2 * (SQRT + 4 + DIV), 'Softmax': EXP + DIV, 'LogSoftmax': EXP + DIV + 1 + LOG, 'Softplus': EXP + 1 + LOG,
        'Elu': EXP + 3, 'Gelu': EXP + 2, 'BatchNormalization': SQRT + DIV + 3, 'InstanceNormalization': 3 + DIV,
        'LpNormalization': EXP + 1, 'CumSum': 1, 'QuantizeLinear': 2, 'DequantizeLinear': 2, 'NonZero': 1}
# one instruction per element of the input
REDUCE = {'ReduceMean': 1, 'ReduceSum': 1, 'ReduceProd': 1, 'ReduceMin': 1, 'ReduceMax': 1, 'ReduceL2': 1 + SQRT}
MOVE = {'Reshape', 'Transpose', 'Flatten', 'Squeeze', 'Unsqueeze', 'Concat', 'Split', 'Slice', 'Expand', 'Tile', 'Pad', 'Identity',
        'Cast', 'Shape', 'Constant', 'ConstantOfShape', 'DepthToSpace', 'Gather', 'GatherND', 'GatherElements', 'ScatterND',
        'ScatterElements', 'Dropout', 'Trilu', 'Where'}


def vol(s):
    return math.prod(s)


def _ones(s):
    return np.ones(tuple(s), np.int64)


def _einsum_points(eq, ins):
    """points of the index space: every label once, the broadcast dimensions of '...' once"""
    size, ell = {}, {}
    for term, s in zip(eq.replace(' ', '').split('->')[0].split(','), ins):
        front, dots, back = term.partition('...')
        s = list(s)
        mid = s[len(front):len(s) - len(back)]
        pairs = list(zip(front, s)) + (list(zip(back, s[len(s) - len(back):])) if back else [])
        for c, v in pairs:
            size[c] = v if size.get(c, 1) == 1 else size[c]
        for k, v in enumerate(reversed(mid)):
            ell[k] = v if ell.get(k, 1) == 1 else ell[k]
    return vol(size.values()) * vol(ell.values())


def cost(op, attrs, ins, outs):
    """ins: executed shape per input, None where omitted; outs: executed shapes. None: no documented count."""
    n = vol(outs[0]) if outs and outs[0] is not None else None
    has = lambda k: k < len(ins) and ins[k] is not None
    if op in ('MatMul', 'MatMulInteger'):
        return int(np.matmul(_ones(ins[0]), _ones(ins[1])).sum())
    if op == 'QLinearMatMul':
        return int(np.matmul(_ones(ins[0]), _ones(ins[3])).sum())
    if op == 'Gemm':
        a, b = _ones(ins[0]), _ones(ins[1])
        a = a.T if attrs.get('transA', 0) else a
        b = b.T if attrs.get('transB', 0) else b
        return int((a @ b).sum()) + (n if has(2) else 0)
    if op == 'Einsum':
        eq = attrs['equation']
        eq = eq.decode() if isinstance(eq, bytes) else eq
        return _einsum_points(eq, ins) * max(1, len(ins) - 1)
    if op in ('Conv', 'ConvInteger', 'QLinearConv'):
        w = ins[3] if op == 'QLinearConv' else ins[1]
        bias = {'Conv': has(2), 'ConvInteger': False, 'QLinearConv': has(8)}[op]
        g = attrs.get('group', 1)
        x = ins[0]
        return n * (x[1] // g) * vol(w[2:]) + (n if bias else 0)
    if op == 'ConvTranspose':
        g = attrs.get('group', 1)
        return n * (ins[0][1] // g) * vol(ins[1][2:]) + (n if has(2) else 0)
    if op in ('MaxPool', 'AveragePool'):
        return n * vol(attrs['kernel_shape'])
    if op == 'GlobalAveragePool':
        return vol(ins[0]) + DIV * n
    if op == 'LRN':
        return n * (DIV + EXP + 1 + attrs['size'])
    if op == 'LayerNormalization':
        ax = attrs.get('axis', -1)
        ax = ax + len(ins[0]) if ax < 0 else ax
        return 7 * vol(ins[0]) + (1 + SQRT + DIV) * vol(ins[0][:ax])
    if op in ('LSTM', 'GRU'):
        k = 4 if op == 'LSTM' else 3
        s, b, i = ins[0]
        d, h = ins[2][0], ins[2][2]
        steps = s * b * d
        c = steps * k * h * (i + h)                       # W*x and R*h of every gate
        c += steps * 2 * k * h if has(3) else 0           # both biases
        c += steps * h * k                                # sum of the two products
        # activations and state update, per hidden unit
        c += steps * h * (3 * EXP + 2 * TANH + 4 if op == 'LSTM' else 2 * EXP + TANH + 5)
        return c
    if op in ('Min', 'Max'):
        return n * max(1, len(ins) - 1)
    if op == 'Sum':
        return n * (len(ins) - 1)
    if op in ('Resize', 'Upsample'):
        m = attrs.get('mode', 'nearest')
        m = m.decode() if isinstance(m, bytes) else m
        return n * {'nearest': 0, 'linear': 4, 'cubic': 8}[m]
    if op in REDUCE:
        return vol(ins[0]) * REDUCE[op]
    if op in UNIT:
        return n * UNIT[op]
    if op in MOVE:
        return 0
    return None


def scalar_involved(op, ins, outs):
    """the tool counts elementwise work on rank-0 tensors as nothing; contractions are not concerned"""
    if op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        return False
    return any(s is not None and len(s) == 0 for s in outs[:1]) or (op in REDUCE and len(ins[0]) == 0)
