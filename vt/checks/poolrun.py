"""P35: executing a model inside its compressed memory pool."""
import os
import numpy as np
import onnx
from onnx import helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from vt import faketorch
from vt.checks import shapeengine as se
from vt.core import rng_for, quiet, scratch, REPO

PROP = 'P35'
RULE = ('random image and sequence models over ranges of named dimensions (vt/checks/shapeengine.py) with random weights; a runtime of this check places every tensor at '
        'its planned offset in a poisoned byte pool with shapes from the shape engine, and the repository\'s inference/infer.py and memory_pool.py run with '
        'a numpy stand-in for torch, some in half precision, with a scalar input outside of the pool or with a state (kv_cache) in its own pool that stays between calls; the views of MemoryPool are checked for their place, their refusals and what writing changes; sequences of sizes including the smallest and the largest; a case is non-trivial when the pool is smaller than the sum of its tensors')
BUDGET = {'quick': 100, 'thorough': 750}
ASSUMPTIONS = ['single operators are computed by the ONNX reference evaluator', 'torch is replaced by a numpy stand-in of the operations used; the torch kernels themselves are not run']
MIN_EVENTS = {'tensor_reads_checked': 2000, 'outputs_compared': 500, 'engine_outputs_compared': 300, 'engines_with_a_state': 60, 'engines_with_a_scalar': 50, 'half_precision_runs': 100, 'writes_checked': 300, 'plans_refused': 300, 'planned_views': 200}


def cases(tier, seed):
    n = 600 if tier == 'quick' else 30000
    for i in range(n):
        yield ('pool', seed, i)
        yield ('engine', seed, i)
        if i % 3 == 0:
            yield ('views', seed, i)


_cache = {}


def attr_of(a):
    return {k: (v if not isinstance(v, np.ndarray) else v) for k, v in a.items()}


def kernel(op, attrs, ins, out_shape):
    """one operator; an input that only the shape computation knew is replaced by the known output shape"""
    if op == 'Reshape' or op == 'Flatten':
        return [ins[0].reshape(out_shape)]
    if op == 'Expand':
        return [np.broadcast_to(ins[0], out_shape)]
    if op == 'Resize' and len(ins) == 4 and ins[3] is None:
        ins = [ins[0], None, None, np.array(out_shape, np.int64)]
    names = [f'i{k}' if a is not None else '' for k, a in enumerate(ins)]
    key = (op, repr(sorted(attrs.items(), key=lambda x: x[0])), tuple((str(a.dtype), a.ndim) if a is not None else None for a in ins))
    if key not in _cache:
        if len(_cache) > 400:
            _cache.clear()
        n = helper.make_node(op, names, ['o'], **attrs)
        g = helper.make_graph([n], 'k', [helper.make_tensor_value_info(x, helper.np_dtype_to_tensor_dtype(a.dtype), [None] * a.ndim) for x, a in zip(names, ins) if x],
                              [helper.make_tensor_value_info('o', TP.FLOAT, None)])
        _cache[key] = ReferenceEvaluator(helper.make_model(g, opset_imports=[helper.make_opsetid('', 18)]))
    return _cache[key].run(None, {x: a for x, a in zip(names, ins) if x})


INTEGER = {'Slice': (1, 2, 3, 4), 'Pad': (1, 3), 'Split': (1,), 'Squeeze': (1,), 'Unsqueeze': (1,), 'Gather': (1,), 'Tile': (1,), 'Resize': (3,),
           'ReduceMean': (1,), 'ReduceSum': (1,), 'ReduceMax': (1,)}


def arg(op, k, t):
    """the engine keeps every constant as floating point: a kernel converts indices itself"""
    if t is None:
        return None
    return indices(t.a) if k in INTEGER.get(op, ()) else t.a.copy()


def indices(a):
    """the largest integers are infinite in half precision"""
    return np.clip(np.asarray(a, np.float64), -2**31, 2**31).astype(np.int64)


class Registry:
    """kernel registry handed to the repository's inference engine"""
    @staticmethod
    def get(op):
        class K:
            @staticmethod
            def run(inputs, outputs, attrs):
                dt = outputs[0].a.dtype
                ins = [arg(op, k, t) for k, t in enumerate(inputs)]
                res = kernel(op, attrs, [a.astype(dt) if a is not None and a.dtype.kind == 'f' else a for a in ins], outputs[0].a.shape)
                for t, v in zip(outputs, res):
                    if t.a.shape != np.shape(v):
                        raise Mismatch(f'{op}: planned output shape {t.a.shape}, computed {np.shape(v)}')
                    t.a[...] = v
        return K

    @staticmethod
    def registered_ops():
        return []


class Mismatch(Exception):
    pass


def sequence(rng, b):
    lo = {k: v[0] for k, v in b.vars.items()}
    hi = {k: v[1] for k, v in b.vars.items()}
    seq = [{k: int(rng.integers(v[0], v[1] + 1)) for k, v in b.vars.items()} for _ in range(3)] + [lo, hi]
    rng.shuffle(seq)
    seq = [dict(s) for s in seq]
    seq.append(dict(seq[0]))        # the same size again
    seq.append(dict(seq[-1]))
    return seq


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P35', seed, i)
    b = se.B(rng, small=True)
    if kind == 'views':
        return views_case(b, rng, mon)
    for dims in b.T.values():
        for d in dims:
            if d.var and not se.classify(d.f, *b.vars[d.var]):
                mon.inconclusive('a dimension is neither affine nor scaled (P14)')
                return
    m = b.model()
    desc = {k: list(v) for k, v in b.desc.items()}
    ref = ReferenceEvaluator(m)
    feeds, wants = [], []
    for env in sequence(rng, b):
        f = {n: rng.uniform(-1, 1, [v if isinstance(v, int) else env[v] for v in d]).astype(np.float32) for n, d in b.desc.items()}
        feeds.append((env, f))
        wants.append(dict(zip([o.name for o in m.graph.output], ref.run(None, f))))
    (pool_case if kind == 'pool' else engine_case)(b, m, desc, feeds, wants, rng, mon)


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5, equal_nan=True)


def pool_case(b, m, desc, feeds, wants, rng, mon):
    import onnx_tool
    rg = {k: tuple(v) for k, v in b.vars.items()}
    with quiet():
        if rng.random() < .5:
            with scratch() as d:
                f = os.path.join(d, 'm.onnx')
                onnx.save(m, f)
                eng, cg = onnx_tool.model_shape_regress(f, desc, rg)
        else:
            g = onnx_tool.Model(m, {'constant_folding': bool(rng.random() < .5)}).graph
            g.graph_reorder_nodes()
            eng = g.shape_regress(desc, rg)
            for k, v in b.vars.items():
                eng.update_variable(k, v[1])
            g.shape_infer({k: v.astype(np.float32) for k, v in eng.generate_input().items()})
            cg = g.get_compute_graph()
        mem, total = cg.compress_memory()
    weights = {t.name: onnx.numpy_helper.to_array(t) for t in m.graph.initializer}
    pool = np.full(total, 0xCD, np.uint8)
    for (env, f), want in zip(feeds, wants):
        for k, v in env.items():
            eng.update_variable(k, v)
        eng.update_variables()

        def view(t):
            shape = tuple(eng.get_tensorshape(t))
            o, s = mem[t]
            n = int(np.prod(shape)) * 4
            mon.event('views_checked')
            if n > s or o + n > total:
                raise Mismatch(f'{t} of shape {shape} needs {n} bytes, its slot is [{o},{s}] of {total} at {env} in {b.vars}')
            return pool[o:o + n].view(np.float32).reshape(shape)
        shadow = {}
        try:
            for t, a in f.items():
                v = view(t)
                if v.shape != a.shape:
                    raise Mismatch(f'input {t}: {v.shape} for {a.shape}')
                v[...] = a
                shadow[t] = a.copy()
            for name, nd in cg.nodemap.items():
                ins = []
                for x in nd.input:
                    if x in weights:
                        ins.append(weights[x])
                    elif x in shadow:
                        v = view(x)
                        mon.event('tensor_reads_checked')
                        if not np.array_equal(v, shadow[x], equal_nan=True):
                            raise Mismatch(f'{x}, read by {nd.op_type}, was overwritten while alive at {env}')
                        ins.append(v.copy())
                    else:
                        ins.append(None)
                outs = [view(o) for o in nd.output]
                res = kernel(nd.op_type, nd.attr, ins, outs[0].shape)
                for o, v, r in zip(nd.output, outs, res):
                    if v.shape != np.shape(r):
                        raise Mismatch(f'{o} ({nd.op_type}) planned {v.shape}, computed {np.shape(r)} at {env}')
                    v[...] = r
                    shadow[o] = np.array(r)
            for o, w in want.items():
                mon.event('outputs_compared')
                v = view(o)
                if not same(v, w):
                    raise Mismatch(f'output {o} differs at {env}')
        except Mismatch as e:
            mon.violation('pool', str(e))
            return
    if total < sum(s for _, s in mem.values()):
        mon.distinct((str(b.nodes), str(b.vars)))
        mon.sample({'nodes': len(cg.nodemap), 'pool': total, 'slots': sum(s for _, s in mem.values()), 'sizes': [e for e, _ in feeds]})


def with_state(b, m, rng):
    """a scalar input which is no part of the pool (n_past) and a state of fixed size (kv_cache) which has a pool of its own"""
    names = [t for t, d in b.T.items() if len(d) in (3, 4)]
    nodes, ins, outs, kept = [], [], [], {}
    if rng.random() < .4:
        ins.append(helper.make_tensor_value_info('n_past', TP.FLOAT, []))
        t = str(rng.choice(names))
        nodes.append(helper.make_node('Add', [t, 'n_past'], ['past_added']))
        outs.append('past_added')
    if rng.random() < .5:
        shape = [int(v) for v in rng.integers(1, 30, 3)]
        ins.append(helper.make_tensor_value_info('kv_cache', TP.FLOAT, shape))
        kept['kv_cache'] = shape
        nodes.append(helper.make_node('ReduceMax', ['kv_cache'], ['kv_max'], keepdims=1))
        for k in range(int(rng.integers(1, 4))):
            nodes.append(helper.make_node('Add', [str(rng.choice(names)), 'kv_max'], [f'kv_added{k}']))
            outs.append(f'kv_added{k}')
        if rng.random() < .5:
            nodes.append(helper.make_node('Neg', ['kv_cache'], ['kv_neg']))
            outs.append('kv_neg')
    at = rng.permutation(len(nodes)) if rng.random() < .5 and 'kv_cache' not in kept else range(len(nodes))
    for k in at:
        m.graph.node.append(nodes[k])
    m.graph.input.extend(ins)
    m.graph.output.extend(helper.make_tensor_value_info(o, TP.FLOAT, None) for o in outs)
    return [i.name for i in ins], kept


def private(cg, feeds, weights, shapes, dt):
    """the compute graph with a buffer of its own for every tensor"""
    env = {k: v.astype(dt) for k, v in feeds.items()}
    for nd in cg.nodemap.values():
        ins = []
        for k, x in enumerate(nd.input):
            if x in weights:
                a = weights[x].astype(dt)
            elif x in env:
                a = env[x]
            else:
                a = None
            ins.append(indices(a) if a is not None and k in INTEGER.get(nd.op_type, ()) else a)
        for o, v in zip(nd.output, kernel(nd.op_type, nd.attr, ins, tuple(shapes(nd.output[0])))):
            env[o] = np.asarray(v).astype(dt)
    return env


def reused_behind(cg, plan, o):
    """the plan gives the slot of a consumed model output to a tensor produced behind its last consumer"""
    order = list(cg.nodemap.values())
    users = [i for i, nd in enumerate(order) if o in nd.input]
    if not users or o not in plan or o not in cg.output:
        return False
    a, n = plan[o]
    later = [t for nd in order[users[-1] + 1:] for t in nd.output if t in plan]
    return any(plan[t][0] < a + n and a < plan[t][0] + plan[t][1] for t in later)


def engine_case(b, m, desc, feeds, wants, rng, mon):
    infer, torch = faketorch.install(REPO, Registry)
    scalars, kept = with_state(b, m, rng)
    half = rng.random() < .2
    if scalars:
        ref = ReferenceEvaluator(m)
        fixed = {k: rng.uniform(-1, 1, s).astype(np.float32) for k, s in kept.items()}
        for k, (env, f) in enumerate(feeds):
            if k and rng.random() < .3:
                fixed = {x: rng.uniform(-1, 1, s).astype(np.float32) for x, s in kept.items()}
            for x in scalars:
                f[x] = fixed[x] if x in fixed else np.asarray(rng.uniform(-1, 1), np.float32)
            wants[k] = dict(zip([o.name for o in m.graph.output], ref.run(None, f)))
    if 'n_past' in scalars:
        mon.event('engines_with_a_scalar')
    if kept:
        mon.event('engines_with_a_state')
    weights = {t.name: onnx.numpy_helper.to_array(t) for t in m.graph.initializer}
    if len({tuple(str(x) for x in d) for d in desc.values()}) > 1:
        mon.event('engines_with_different_inputs')
    with scratch() as d, quiet():
        f = os.path.join(d, 'm.onnx')
        onnx.save(m, f)
        try:
            eng = infer.GraphInfer(f, {k: tuple(v) for k, v in desc.items()}, {k: tuple(v) for k, v in b.vars.items()}, **({'dtype': torch.float16} if half else {}))
            last = {}
            for (env, x), want in zip(feeds, wants):
                given = {k: torch.from_numpy(v.copy()) for k, v in x.items() if not (k in kept and k in last and last[k] is v)}     # a state stays where it is
                last.update({k: x[k] for k in kept})
                out = eng.forward(given, debug=bool(rng.random() < .1), profile=bool(rng.random() < .1))
                if half:
                    alone = private(eng._cg, x, weights, eng.get_tensor_shape, np.float16)
                    want = {o: alone[o] for o in want}
                    mon.event('half_precision_runs')
                for o, w in want.items():
                    mon.event('engine_outputs_compared')
                    if o not in out:
                        raise Mismatch(f'no output {o}')
                    if not same(out[o].a, w):
                        if kept and reused_behind(eng._cg, eng.pool._compress_mem, o):
                            mon.violation('kv-plan-output-reused', f'output {o} is overwritten by a tensor planned into its slot behind its last consumer')
                            return
                        raise Mismatch(f'output {o} differs at {env} (sequence {[e for e, _ in feeds]}); shapes {out[o].a.shape} {w.shape}')
        except Mismatch as e:
            mon.violation('engine', str(e))
            return
    mon.distinct(('engine', str(b.nodes), str(b.vars)))


def extent(pool, t):
    """first and last byte of a view in the pool"""
    a, base = t.a, pool.pool.a
    lo = a.__array_interface__['data'][0] - base.__array_interface__['data'][0]
    return lo, lo + a.size * a.itemsize


def raises(kinds, f, *a, **k):
    try:
        f(*a, **k)
    except kinds:
        return True
    return False


def views_case(b, rng, mon):
    """the pool handed out by the repository: where its views lie, what they refuse, what writing through them changes"""
    import onnx_tool
    infer, torch = faketorch.install(REPO, Registry)
    import sys
    mp = sys.modules['memory_pool']
    m = b.model()
    desc, rg = {k: tuple(v) for k, v in b.desc.items()}, {k: tuple(v) for k, v in b.vars.items()}
    try:
        with scratch() as d, quiet():
            f = os.path.join(d, 'm.onnx')
            onnx.save(m, f)
            if rng.random() < .5:
                dt = torch.float32
                pool, eng = mp.create_memory_pool_from_model(f, desc, rg)
                mem, total = pool._compress_mem, pool.compress_size
                for k, v in b.vars.items():
                    eng.update_variable(k, int(rng.integers(v[0], v[1] + 1)))
                eng.update_variables()
                for t in mem:
                    s = tuple(eng.get_tensorshape(t))
                    v = pool.get(t, s)
                    if tuple(v.shape) != s or not inside(extent(pool, v), mem[t]):
                        raise Mismatch(f'{t} of shape {s}: view {v.shape} at {extent(pool, v)}, slot {mem[t]}')
                    mon.event('planned_views')
            else:
                dt = [torch.float32, torch.float16, torch.float64, torch.int64][int(rng.integers(4))]
                mem, total, at = {}, 0, 0
                for k in range(int(rng.integers(1, 8))):
                    size = int(rng.integers(1, 9)) * 64
                    mem[f't{k}'] = [at, size]
                    total = max(total, at + size)
                    at = at + size if rng.random() < .6 else int(rng.integers(0, total // 64 + 1)) * 64
                pool = mp.MemoryPool(mem, total, dtype=dt)
        es = dt.np.itemsize
        if len(pool) != len(mem) or set(pool.keys()) != set(mem) or dict(pool.items()) != mem or pool.compress_size != total:
            raise Mismatch('the pool does not list its plan')
        for t in list(mem)[:6]:
            o, s = mem[t]
            n = s // es
            for v in (pool.get(t), pool[t]):
                if v.shape != (n,) or extent(pool, v) != (o, o + n * es):
                    raise Mismatch(f'{t}: whole view {v.shape} at {extent(pool, v)}, slot {mem[t]}')
            shape = shape_of(rng, int(rng.integers(1, n + 1)))
            v = pool.get(t, shape=shape if rng.random() < .5 else list(shape)) if rng.random() < .7 else pool.get_batch(t, shape[0], shape[1:] or None)
            if tuple(v.shape) != tuple(shape) or extent(pool, v) != (o, o + int(np.prod(shape)) * es):
                raise Mismatch(f'{t}: view {v.shape} at {extent(pool, v)}, asked for {shape} in {mem[t]}')
            for bad in ((n + 1,), (n, 2), (2, n, 1)):
                if not raises((ValueError, RuntimeError), pool.get, t, shape=bad):
                    raise Mismatch(f'{t}: a view of {bad} elements of {es} bytes in the slot {mem[t]}')
            if not raises((ValueError, RuntimeError), pool.get_batch, t, n + 1) or not raises((ValueError, RuntimeError), pool.get_batch, t, 2, [n]):
                raise Mismatch(f'{t}: a batch beyond the slot {mem[t]}')
            # writing changes the slot only
            before = pool.pool.a.copy()
            val = (rng.uniform(-50, 50, shape)).astype(dt.np)
            how = int(rng.integers(3))
            if how == 0:
                v.copy_(torch.from_numpy(val.copy()))
            elif how == 1:
                pool.fill_tensor(t, val)
            else:
                pool.fill_tensor(t, torch.from_numpy(val.copy()))
            before[o:o + val.nbytes] = np.frombuffer(val.tobytes(), np.uint8)
            mon.event('writes_checked')
            if not np.array_equal(before, pool.pool.a):
                raise Mismatch(f'writing {val.nbytes} bytes to {t} at {mem[t]} changed {np.flatnonzero(before != pool.pool.a)[:5].tolist()}')
            if t not in pool or 'no such tensor' in pool or not raises(KeyError, pool.get, 'no such tensor'):
                raise Mismatch('a tensor outside of the plan')
        # plans which do not fit are refused
        t = list(mem)[int(rng.integers(len(mem)))]
        o, s = mem[t]
        for slot, size in (([o, s], o + s - 1), ([total, s], total), ([-64, s], total), ([o, 0], total), ([o, -64], total), ([o, s], 0), ([total - s + 1, s], total)):
            if not raises(ValueError, mp.MemoryPool, dict(mem, **{t: slot}), size, dtype=dt):
                raise Mismatch(f'a slot {slot} in a pool of {size} bytes is accepted')
            mon.event('plans_refused')
        pool.zero_()
        if pool.pool.a.any():
            raise Mismatch('zero_ leaves data')
    except Mismatch as e:
        mon.violation('views', str(e))
        return
    except (ValueError, RuntimeError, KeyError) as e:
        mon.violation('views', f'{e!r} for a legal use of the pool {mem if len(str(mem)) < 300 else ""}')
        return
    mon.distinct(('views', str(sorted(mem.items()))))


def inside(e, slot):
    return slot[0] <= e[0] and e[1] <= slot[0] + slot[1]


def shape_of(rng, n):
    """a shape of at most n elements"""
    s = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(1, n + 1))
        s.append(k)
        n = max(1, n // k)
    return tuple(int(v) for v in rng.permutation(s))
