"""P30: sparsity of weights, judged by counting."""
import csv
import os
import numpy as np
from onnx import helper, numpy_helper, TensorProto as TP
from vt.core import rng_for, quiet, scratch

PROP = 'P30'
RULE = ('weights of rank 1-5 and all searched element types (and others) with random, row, column and square block sparsity, noise, signed zeros and block sizes in and out of step '
        'with the shape, some just below and above the size which is searched; read as weights of models (plain, sparse, folded from constants, rewritten by BatchNormalization folding) '
        'with their report, and searched on their own at small sizes; zero elements and zero blocks are counted one by one; non-trivial when the ratio is above 0 and below 1; '
        'distinct by shape, type, ratio and reported block')
ASSUMPTIONS = ['the zero of a uint8 weight is 128 (tensor.py), only weights of rank 2 and 4 with more than 4096 elements are searched, blocks from a ratio above 0.4']
MIN_EVENTS = {'weights_judged': 3000, 'blocks_judged': 800, 'square_blocks': 60, 'report_rows': 300, 'rewritten_weights': 30, 'folded_weights': 30}
BUDGET = {'quick': 90, 'thorough': 700}
SEARCHED = ['float32', 'float64', 'float16', 'int32', 'int8', 'uint8']


def cases(tier, seed):
    n = 12000 if tier == 'quick' else 400000
    for i in range(n):
        yield ('alone', seed, i)
        if i % 3 == 0:
            yield ('model', seed, i)


def weight(rng, big=False, rank=None, dt=None):
    r = lambda a, b: int(rng.integers(a, b + 1))
    c = lambda s: s[r(0, len(s) - 1)]
    dt = dt or c(SEARCHED if rng.random() < .9 else ['int64', 'int16', 'uint16', 'bool'])
    rank = rank or c([2, 2, 2, 4, 4, 4, 1, 3, 5])
    if big:
        a, b = c([32, 48, 64, 96, 100, 128, 24, 16, 12]), c([32, 64, 65, 96, 128, 40, 80])
        if rank == 1:
            shape = [c([4096, 4097, 5000])]
        elif rank == 2:
            shape = [a, max(b, 4096 // a + r(0, 2))]
        else:
            rest = [c([1, 3, 2, 5]) for _ in range(rank - 2)]
            shape = [a, max(8, c([b, 8, 16, -(-4097 // (a * int(np.prod(rest))))]))] + rest
            if np.prod(shape) < 3500:
                shape[1] = -(-4097 // (a * int(np.prod(rest))))
        if rank in (2, 4) and rng.random() < .08:        # just at the size which is searched
            shape = [c([(17, 241), (241, 17), (1, 4097), (4097, 1), (64, 64), (2, 2049)]), c([(241, 17, 1, 1), (17, 241, 1, 1), (16, 16, 4, 4), (1, 4097, 1, 1)])][rank // 2 - 1]
            shape = list(shape)
    else:
        shape = [c([1, 2, 4, 8, 16, 32, 6, 12, 3, 24, 40]) for _ in range(min(rank, 2))] + [r(1, 3) for _ in range(rank - 2)]
    keep = np.ones(shape, bool)
    zero = 128 if dt == 'uint8' else 0
    for _ in range(r(1, 3)):
        kind = c(['free', 'row', 'col', 'square', 'row', 'col', 'square', 'rect', 'some'])
        p = c([.2, .45, .5, .6, .75, .9, 1.0])
        if rank < 2 or kind == 'free':
            keep &= rng.random(shape) >= p * c([.3, 1])
            continue
        s = 2 ** r(1, 5)
        ba, bb = {'row': (1, s), 'col': (s, 1), 'square': (s, s), 'rect': (s, 2 ** r(1, 4)), 'some': (r(1, 6), r(1, 6))}[kind]
        na, nb = -(-shape[0] // ba), -(-shape[1] // bb)
        blk = rng.random([na, nb] + shape[2:]) >= p
        keep &= np.repeat(np.repeat(blk, ba, 0), bb, 1)[:shape[0], :shape[1]]
        if rng.random() < .6:
            break
    if rng.random() < .5:       # noise
        keep |= rng.random(shape) < c([.01, .03, .05, .1])
    if dt == 'bool':
        return keep
    if np.dtype(dt).kind == 'f':
        v = rng.choice([-1.5, .25, 3., 1e-7 if dt != 'float16' else 6e-8], shape).astype(dt)
        if rng.random() < .1:
            v[rng.random(shape) < .05] = np.nan
        z = np.where(rng.random(shape) < (.5 if rng.random() < .2 else 0), -0.0, 0.0).astype(dt)
        return np.where(keep, v, z).astype(dt)
    v = rng.integers(1, 100, shape)
    v = np.where(rng.random(shape) < c([0, 0, .1]), 0 if zero else 100, v)
    return np.where(keep, v, zero).astype(dt)


def zeros(a):
    return a == (128 if a.dtype == np.uint8 else 0)


def blocks(z, ba, bb):
    """(zero blocks, blocks) of ba x bb over the first two axes, or None when they do not divide the shape"""
    if z.shape[0] % ba or z.shape[1] % bb:
        return None
    n = 0
    total = 0
    for i in range(0, z.shape[0], ba):
        s = z[i:i + ba].all(0)                   # [cols, ...]
        t = s.reshape((s.shape[0] // bb, bb) + s.shape[1:]).all(1)
        n += int(t.sum())
        total += t.size
    return n, total


def judge(a, sp, searched, mon, desc):
    """one reported sparsity against the values"""
    z = zeros(a)
    want = int(z.sum()) / a.size if a.size else 0
    ratio = float(sp['ratio'])
    mon.event('weights_judged')
    if a.ndim not in (2, 4) or a.dtype.name not in SEARCHED or not searched:
        # not searched: either nothing is reported or the truth
        if ratio != 0 and abs(ratio - want) > 1e-9:
            mon.violation('ratio:unsearched', f'{desc}: ratio {ratio}, {want} of the elements are zero')
        mon.event('not_searched')
        if ratio == 0:
            return
    elif abs(ratio - want) > 1e-9:
        mon.violation(f'ratio:{a.dtype}:{a.ndim}', f'{desc}: ratio {ratio}, {want} of the elements are zero')
        return
    ba, bb = (int(x) for x in sp['blocksize'])
    br = float(sp['blockratio'])
    if want <= .4:
        if (ba, bb) != (1, 1):
            mon.violation('block:dense', f'{desc}: block {ba}x{bb} reported at a ratio of {want}')
        return
    if a.ndim not in (2, 4):
        return
    mon.event('blocks_judged')
    mon.event('square_blocks', ba == bb > 1)
    mon.event('axis_blocks', ba != bb)
    got = blocks(z, ba, bb)
    if got is None:
        mon.violation('block:shape', f'{desc}: block {ba}x{bb} does not divide the shape')
        return
    exact = got[0] / got[1]
    if abs(exact - br) > 1e-9:
        mon.violation(f'block-ratio:{a.ndim}', f'{desc}: {br} of the {ba}x{bb} blocks reported as zero, {exact} are ({got[0]} of {got[1]})')
        return

    def fits(x, y):
        g = blocks(z, x, y)
        if g is None:
            return False
        d = g[0] / g[1] - (want - .1)
        return None if abs(d) < 1e-9 else d > 0
    if fits(ba, bb) is False and (ba, bb) != (1, 1):
        mon.violation('block:loss', f'{desc}: block {ba}x{bb} has {exact} zero blocks, the ratio is {want}')
    s = max(ba, bb)
    if fits(2 * s, 1) or fits(1, 2 * s):
        mon.violation('block:larger', f'{desc}: block {ba}x{bb} reported, {2 * s} also stays within 0.1 of {want}')
    elif fits(s, s) and s > 1 and (ba, bb) != (s, s):
        mon.violation('block:square', f'{desc}: block {ba}x{bb} reported, {s}x{s} also stays within 0.1 of {want}')


def run(case, mon):
    kind, seed, i = case
    rng = rng_for('P30', kind, seed, i)
    if kind == 'alone':
        from onnx_tool.tensor import Tensor
        for _ in range(4):
            a = weight(rng)
            with quiet():
                t = Tensor(numpy_helper.from_array(a, 'w'))
                t.sparsity_search(thres_size=0)
            judge(a, t.sparsity, True, mon, f'{a.dtype}{list(a.shape)} alone, case {case}')
            r = float(zeros(a).mean())
            if 0 < r < 1:
                mon.distinct((str(a.dtype), a.shape, round(r, 4), tuple(t.sparsity['blocksize'])))
        return
    model(case, rng, mon)


def model(case, rng, mon):
    import onnx_tool
    from onnx_tool import fusion
    nodes, inits, gin, gout = [], [], [], []
    N, p = helper.make_node, lambda q=.5: rng.random() < q
    names, plain = {}, {}
    rewritten = {}
    folded = {}
    for j in range(int(rng.integers(1, 5))):
        kind = ['matmul', 'gemm', 'conv', 'where', 'bn', 'const', 'fold', 'sparse', 'two'][int(rng.integers(9))]
        w = f'w{j}'
        x, y = f'x{j}', f'y{j}'
        if kind in ('conv', 'bn'):
            a = weight(rng, True, 4, 'float32')
            gin.append(helper.make_tensor_value_info(x, TP.FLOAT, [1, a.shape[1], 8, 8]))
            nodes.append(N('Conv', [x, w], [y], f'n{j}', kernel_shape=list(a.shape[2:])))
            if kind == 'bn':
                k = a.shape[0]
                sc = rng.choice([0, 1., 2.], k, p=[.3, .4, .3]).astype(np.float32)
                for q, v in (('s', sc), ('b', np.zeros(k, np.float32)), ('m', np.zeros(k, np.float32)), ('v', np.ones(k, np.float32))):
                    inits.append(numpy_helper.from_array(v, f'{q}{j}'))
                nodes.append(N('BatchNormalization', [y] + [f'{q}{j}' for q in 'sbmv'], [f'z{j}'], f'b{j}'))
                y = f'z{j}'
                rewritten[w] = sc
        elif kind == 'gemm':
            a = weight(rng, True, 2, 'float32')
            gin.append(helper.make_tensor_value_info(x, TP.FLOAT, [2, a.shape[0]]))
            nodes.append(N('Gemm', [x, w], [y], f'n{j}'))
        elif kind in ('matmul', 'const', 'fold', 'sparse'):
            a = weight(rng, True, 2, 'float32')
            gin.append(helper.make_tensor_value_info(x, TP.FLOAT, [2, a.shape[0]]))
            nodes.append(N('MatMul', [x, w], [y], f'n{j}'))
        elif kind == 'two':         # several weights of one node
            a = weight(rng, True, None, 'float32')
            more = []
            for q in range(int(rng.integers(1, 3))):
                v = weight(rng, True, None, 'float32') if p(.4) else a[rng.permutation(len(a))] * (rng.random(a.shape) < rng.uniform(.3, 1)).astype('float32')
                more.append(f'w{j}_{q}')
                names[more[-1]] = v.astype('float32')
                inits.append(numpy_helper.from_array(names[more[-1]], more[-1]))
            same = [q for q in more if names[q].shape == a.shape]
            gin.append(helper.make_tensor_value_info(x, TP.FLOAT, list(a.shape)))
            ins = [x, w, *same]
            ins = [ins[q] for q in rng.permutation(len(ins))]
            nodes.append(N('Sum', ins, [y], f'n{j}'))
            for q in [q for q in more if q not in same]:
                gin.append(helper.make_tensor_value_info(f'x{q}', TP.FLOAT, list(names[q].shape)))
                nodes.append(N('Mul', [q, f'x{q}'], [f'y{q}'], f'n{q}'))
                gout.append(helper.make_tensor_value_info(f'y{q}', TP.FLOAT, None))
        else:
            a = weight(rng, True)
            gin.append(helper.make_tensor_value_info(x, helper.np_dtype_to_tensor_dtype(a.dtype), list(a.shape)))
            gin.append(helper.make_tensor_value_info(f'c{j}', TP.BOOL, list(a.shape)))
            nodes.append(N('Where', [f'c{j}', x, w], [y], f'n{j}'))
        names[w] = a
        gout.append(helper.make_tensor_value_info(y, helper.np_dtype_to_tensor_dtype(a.dtype), None))
        if kind == 'const':
            nodes.insert(0, N('Constant', [], [w], f'k{j}', value=numpy_helper.from_array(a, 'v')))
            folded[w] = a
        elif kind == 'fold':
            h = f'h{j}'
            inits.append(numpy_helper.from_array(np.ascontiguousarray(a.T), h))
            plain[h] = np.ascontiguousarray(a.T)
            nodes.insert(0, N('Transpose', [h], [w], f'k{j}'))
            folded[w] = a
        elif kind == 'sparse' and np.isfinite(a).all():
            idx = np.nonzero(a.reshape(-1))[0].astype(np.int64)
            inits.append(('sparse', helper.make_sparse_tensor(numpy_helper.from_array(a.reshape(-1)[idx], w), numpy_helper.from_array(idx, ''), list(a.shape))))
        else:
            inits.append(numpy_helper.from_array(a, w))
    g = helper.make_graph(nodes, 'g', gin, gout, initializer=[t for t in inits if not isinstance(t, tuple)], sparse_initializer=[t[1] for t in inits if isinstance(t, tuple)])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)])
    m.ir_version = 8
    fold = bool(p())
    with quiet(), scratch() as d:
        tm = onnx_tool.Model(m, {'constant_folding': fold})
        tg = tm.graph
        if rewritten and p(.7):
            fusion.ConvBNFusion(tg)
            for w, sc in rewritten.items():
                if not any(n.op_type == 'BatchNormalization' and n.input[1] == 's' + w[1:] for n in tg.nodemap.values()):
                    names[w] = tg.tensormap[w].numpy
                    mon.event('rewritten_weights')
        tg.shape_infer()
        tg.profile()
        f = os.path.join(d, 'r.csv')
        tg.print_node_map(f)
        rows = list(csv.reader(open(f)))
    known = {w: a for w, a in names.items() if fold or w not in folded}
    for w, a in known.items():
        t = tg.tensormap.get(w)
        if t is None or t.sparsity is None:
            mon.violation('no-sparsity', f'weight {w} {a.dtype}{list(a.shape)} has no sparsity; case {case}')
            return
        judge(a, t.sparsity, a.size > 4096, mon, f'{a.dtype}{list(a.shape)} weight {w} of a model, case {case}')
        mon.event('folded_weights', w in folded)
        r = float(zeros(a).mean())
        if 0 < r < 1:
            mon.distinct((str(a.dtype), a.shape, round(r, 4), tuple(t.sparsity['blocksize'])))
    head = rows[0]
    if not fold:
        known.update(plain)
    searched = {w: a for w, a in known.items() if a.ndim in (2, 4) and a.size > 4096 and a.dtype.name in SEARCHED}
    if any(zeros(a).mean() > .4 for a in searched.values()) and 'Sparse Ratio' not in head:
        mon.violation('report:columns', f'a weight is sparse, the report has columns {head}; case {case}')
        return
    if 'Sparse Ratio' not in head:
        return
    at = {h: k for k, h in enumerate(head)}
    for row in rows[1:]:
        n = tg.nodemap.get(row[0])
        if n is None or any(i in folded and not fold for i in n.input):
            continue
        best = {'blocksize': (1, 1), 'blockratio': 0, 'ratio': 0}
        for i in n.input:
            t = tg.tensormap[i]
            if i in known and t.sparsity['ratio'] > best['ratio']:
                best = t.sparsity
        want = ['x'.join(str(x) for x in best['blocksize']), '{:.2%}'.format(best['blockratio']), '{:.2%}'.format(best['ratio'])]
        got = [row[at[h]] for h in ('Sparse Pattern', 'Sparse Block Ratio', 'Sparse Ratio')]
        mon.event('report_rows')
        if got != want:
            mon.violation('report:row', f'node {row[0]}: reported {got}, its sparsest weight has {want}; case {case}')
    mon.sample({'operators': [n.op_type for n in nodes], 'weights': {w: f'{a.dtype}{list(a.shape)} zeros {float(zeros(a).mean()):.3f} block {tg.tensormap[w].sparsity["blocksize"]}' for w, a in known.items()}})
