"""P33: requests which cannot be carried out are refused, and nothing is presented as their result."""
import copy
import os
import warnings
import numpy as np
from vt import modelgen as mg, profmodels as pm, opcases, oracle
from vt.core import rng_for, scratch
import io
import contextlib

PROP = 'P33'
RULE = ('random models with an input dimension made symbolic, unknown or negative, or an input without any shape, inferred without feeding that input; single operators and models fed with operands which cannot be '
        'broadcast, multiplied, reshaped or expanded (ONNX strict shape inference and the reference evaluator both refuse them); random sequences of succeeding and failing inferences, '
        'profiles and reports on one graph, watched by a monitor of the last inference and the last profile; unusable arguments of the profiling and editing calls; distinct by model, defect and sequence')
ASSUMPTIONS = ['operand shapes are only expected to be refused where they are combined by broadcasting, matrix products, reshaping or expanding']
MIN_EVENTS = {'unresolved_refused': 300, 'operands_refused': 500, 'sequence_steps': 2000, 'reports_watched': 400, 'arguments_refused': 100, 'controls_accepted': 400}
BUDGET = {'quick': 150, 'thorough': 800}

BROADCAST = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod', 'Min', 'Max', 'Sum', 'And', 'Or', 'Xor', 'Equal', 'Greater', 'GreaterOrEqual', 'Less', 'LessOrEqual', 'Where', 'Expand']
PRODUCT = ['MatMul', 'MatMulInteger', 'QLinearMatMul', 'Gemm']
RESHAPE = ['Reshape']
OTHER = ['RoiAlign', 'Unsqueeze', 'Concat', 'Conv', 'Squeeze']
OPS = BROADCAST + PRODUCT + RESHAPE + OTHER


def cases(tier, seed):
    n = 3000 if tier == 'quick' else 40000
    k = 150 if tier == 'quick' else 1500
    for i in range(n):
        yield ('unresolved', seed, i)
        yield ('sequence', seed, i)
        if i % 2 == 0:
            yield ('runtime', seed, i)
        if i % 3 == 0:
            yield ('arguments', seed, i)
    for i in range(k):
        for op in OPS:
            yield ('operands', seed, i, op)


@contextlib.contextmanager
def listening():
    """what the tool prints and warns about"""
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
            heard = type('Heard', (), {'out': '', 'warned': []})()
            try:
                yield heard
            finally:
                heard.out = buf.getvalue()
                heard.warned = [str(x.message) for x in w]


def run(case, mon):
    {'unresolved': unresolved, 'sequence': sequence, 'runtime': runtime, 'arguments': arguments, 'operands': operands}[case[0]](case, mon)


TABLE = ('Forward_MACs', 'Forward_FLOPs', 'Total')


def nothing_presented(g, d, mon, why):
    """a graph whose inference failed gives no profile and no report, and says so"""
    path = os.path.join(d, 'after' + ('.csv' if len(why) % 2 else '.txt'))
    with listening() as h:
        try:
            g.profile()
            refused = False
        except Exception:
            refused = True
    if not refused and not h.warned:
        mon.violation('profile without inference', f'profile() says nothing after a failed inference: {why}')
    if g.valid_profile:
        mon.violation('valid profile', f'a profile is presented as valid after a failed inference: {why}')
    if g.valid_shape:
        mon.violation('valid shape', f'shapes are presented as valid after a failed inference: {why}')
    for f in (None, path):
        with listening() as h:
            try:
                g.print_node_map(f)
                refused = False
            except Exception:
                refused = True
        mon.event('reports_watched')
        if any(t in h.out for t in TABLE) or os.path.exists(path):
            mon.violation('report after failure', f'a report is given after a failed inference: {why}')
            return
        if not refused and not h.warned:
            mon.violation('silent report', f'print_node_map() says nothing after a failed inference: {why}')


def refused_by_api(m, feeds, d, mon, why, key):
    """model_profile raises and writes nothing"""
    import onnx_tool
    rep, sav = os.path.join(d, 'r.txt'), os.path.join(d, 's.onnx')
    with listening() as h:
        try:
            onnx_tool.model_profile(m, feeds, save_profile=rep, save_model=sav)
            ok = True
        except (Exception, SystemExit):
            ok = False
    if ok:
        mon.violation(f'accepted: {key}', f'model_profile carried out what cannot be carried out: {why}; report {os.path.exists(rep)}, model {os.path.exists(sav)}; warnings {h.warned[:3]}')
        return False
    left = [f for f in (rep, sav) if os.path.exists(f)]
    if left:
        mon.violation(f'files: {key}', f'files were written although the call failed: {[os.path.basename(f) for f in left]}: {why}')
    return True


def some_model(rng):
    if rng.random() < .7:
        g = mg.generate(rng, assign=2)
        return g.model(), g.feeds(0)
    m, feeds, _ = pm.make(rng)
    return m, feeds


def unresolved(case, mon):
    """one input dimension is not known"""
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P33', 'unresolved', seed, i)
    c = lambda s: s[int(rng.integers(len(s)))]
    m, feeds = some_model(rng)
    # every input gets the shape of its feed, so that nothing has to be fed
    stored = {t.name for t in m.graph.initializer} | {t.values.name for t in m.graph.sparse_initializer}
    ins = [v for v in m.graph.input if v.name not in stored and v.name in feeds]
    for v in ins:
        v.type.tensor_type.ClearField('shape')
        v.type.tensor_type.shape.SetInParent()
        for s in np.asarray(feeds[v.name]).shape:
            v.type.tensor_type.shape.dim.add().dim_value = int(s)
    ok = [v for v in ins if len(v.type.tensor_type.shape.dim)]
    if not ok:
        mon.inconclusive('no input with dimensions')
        return
    values = {k: v for k, v in feeds.items() if np.asarray(v).dtype.kind != 'f'}   # these decide shapes
    v = c(ok)
    while v.name in values and len(ok) > 1 and rng.random() < .7:
        v = c(ok)
    dim = c(list(v.type.tensor_type.shape.dim))
    how = c(['symbol', 'symbol', 'unknown', 'minus', 'empty symbol', 'no shape'])
    if how == 'symbol':
        dim.dim_param = c(['N', 'batch', 'x', '?', '0', '-1', '224', 'None'])
    elif how == 'unknown':
        dim.Clear()
    elif how == 'minus':
        dim.dim_value = c([-1, -1, -3, -224, -2 ** 31])
    elif how == 'empty symbol':
        dim.dim_param = ''
    else:
        v.type.tensor_type.ClearField('shape')
    partial = {k: a for k, a in feeds.items() if k != v.name and (k in values or rng.random() < .5)}
    if rng.random() < .2:
        partial['unrelated'] = np.zeros((2, 3), np.float32)
    arg = partial or None
    why = f'{how} dimension of {v.name} {str(dim).strip()!r} unresolved (fed {sorted(partial)}); case {case}'
    with scratch() as d:
        with listening():
            g = onnx_tool.Model(m).graph
        with listening() as h:
            try:
                g.shape_infer(arg)
                ok = True
            except Exception:
                ok = False
        if ok:
            mon.violation(f'accepted: {how}', f'inference accepts: {why}')
            return
        nothing_presented(g, d, mon, why)
        if not refused_by_api(m, arg, d, mon, why, how):
            return
        mon.event('unresolved_refused')
        mon.event('unresolved_' + how.replace(' ', '_'))
        # fed, it is carried out
        with listening() as h:
            g.shape_infer(feeds)
            g.profile()
            g.print_node_map()
        if not any(t in h.out for t in TABLE) or not g.valid_profile:
            mon.violation('not accepted', f'no report although every input is fed: {why}')
        mon.event('controls_accepted')
    mon.distinct((how, len(partial), v.name, [n.op_type for n in m.graph.node]))


def impossible(model, feeds):
    """ONNX itself refuses the model with these operands, twice"""
    from onnx import shape_inference
    n = model.graph.node[0]
    if n.op_type == 'Conv':
        from onnx import numpy_helper
        have = dict(feeds, **{t.name: numpy_helper.to_array(t) for t in model.graph.initializer})
        x, w = have.get(n.input[0]), have.get(n.input[1])
        group = next((a.i for a in n.attribute if a.name == 'group'), 1)
        return x is not None and w is not None and (x.ndim != w.ndim or w.shape[1] * group != x.shape[1])
    bare = copy.deepcopy(model)
    for o in bare.graph.output:
        o.ClearField('type')     # the declared element type of the output is not what is judged
    try:
        shape_inference.infer_shapes(bare, check_type=True, strict_mode=True, data_prop=True)
        return False
    except Exception:
        pass
    try:
        with listening():
            oracle.reference(model, feeds)
        return False
    except Exception:
        return True


def possible(model, feeds):
    try:
        with listening():
            oracle.reference(model, feeds)
        return True
    except Exception:
        return False


def operands(case, mon):
    """one operand of a single operator does not fit"""
    import onnx_tool
    _, seed, k, op = case
    rng = rng_for('P33', 'operands', op, seed, k)
    c = opcases.make(op, rng)
    idx = [j for j, x in enumerate(c.inputs) if x is not None and x.ndim > 0]
    if op == 'Gemm':
        idx = [j for j in idx if j < 2] or idx
    if not idx:
        mon.inconclusive('no operand with dimensions')
        return
    for _ in range(8):
        j = idx[int(rng.integers(len(idx)))]
        x = c.inputs[j]
        s = list(x.shape)
        ax = int(rng.integers(len(s)))
        s[ax] = max(2, s[ax]) + int(rng.integers(1, 4))
        c2 = copy.copy(c)
        c2.inputs = list(c.inputs)
        c2.inputs[j] = np.resize(x, s).astype(x.dtype) if x.size else np.zeros(s, x.dtype)
        try:
            model, feeds, outs = oracle.op_model(c2)
        except Exception:
            continue
        if impossible(model, feeds):
            break
    else:
        mon.inconclusive('the changed operands fit as well')
        return
    for p in range(2):
        if p and rng.random() < .5:
            # the operands are of the right shape when the model is loaded, and wrong when it is run
            sym = copy.deepcopy(model)
            for v in sym.graph.input:
                for n, dd in enumerate(v.type.tensor_type.shape.dim):
                    dd.dim_param = f'{v.name}{n}'
            model = sym
        with listening():
            g = onnx_tool.Model(model).graph
        with listening():
            try:
                g.shape_infer(feeds)
                ok = True
            except Exception:
                ok = False
        why = f'{op} with operands {[None if x is None else x.shape for x in c2.inputs]}: {c2.describe()}'
        if ok:
            mon.violation(f'accepted: {op}', f'inferred as {[g.tensormap[o].get_shape() for o in outs]}: {why}')
            return
        mon.event('operands_refused')
    with scratch() as d:
        nothing_presented(g, d, mon, why)
        refused_by_api(model, feeds, d, mon, why, op)
    mon.distinct((op, [None if x is None else x.shape for x in c2.inputs]))


CONSTRUCTED = ('conv', 'small conv', 'small pool', 'crop')      # no size of the output is possible; the evaluator does not always say so


def symbolic_sum(rng):
    """a chain whose operands fit for some sizes only; (model, good feeds, bad feeds)"""
    from onnx import helper, numpy_helper, TensorProto as TP
    N, V = helper.make_node, helper.make_tensor_value_info
    c = lambda s: s[int(rng.integers(len(s)))]
    n, k = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    kind = c(['add', 'matmul', 'gemm', 'reshape', 'where', 'expand', 'mul3', 'concat', 'squeeze', 'conv', 'small conv', 'small pool', 'crop'])
    nodes, inits = [N('Relu', ['a'], ['ra'], 'first')], []
    ins = {'a': [n, k]}
    bad = {}
    if kind == 'add':
        ins['b'] = [n, k]
        nodes.append(N('Add', ['ra', 'b'], ['t'], 'mid'))
        bad['b'] = c([[n + 1, k], [n, k + 2], [k + 3]])
    elif kind == 'matmul':
        ins['b'] = [k, 3]
        nodes.append(N('MatMul', ['ra', 'b'], ['t'], 'mid'))
        bad['b'] = c([[k + 1, 3], [k + 5, 3]])
    elif kind == 'gemm':
        inits.append(numpy_helper.from_array(rng.uniform(-1, 1, (5, k)).astype(np.float32), 'w'))
        nodes.append(N('Gemm', ['ra', 'w'], ['t'], 'mid', transB=1))
        bad['a'] = [n, k + 1]
    elif kind == 'reshape':
        inits.append(numpy_helper.from_array(np.array([n * k]), 's'))
        nodes.append(N('Reshape', ['ra', 's'], ['t'], 'mid'))
        bad['a'] = [n + 1, k]
    elif kind == 'where':
        ins['b'] = [k]
        nodes += [N('Greater', ['ra', 'b'], ['q'], 'cmp'), N('Where', ['q', 'ra', 'b'], ['t'], 'mid')]
        bad['b'] = [k + 1]
    elif kind == 'expand':
        inits.append(numpy_helper.from_array(np.array([n, k]), 's'))
        nodes.append(N('Expand', ['ra', 's'], ['t'], 'mid'))
        bad['a'] = c([[n + 1, k], [n, k + 1]])
    elif kind == 'concat':
        ins['b'] = [n, k + 1]
        nodes.append(N('Concat', ['ra', 'b'], ['t'], 'mid', axis=c([1, -1])))
        bad['b'] = [n + 1, k + 1]
    elif kind == 'squeeze':
        ins['a'] = [1, n, k]
        nodes.append(N('Flatten', ['ra'], ['f'], 'mid0', axis=1) if rng.random() < .3 else N('Abs', ['ra'], ['f'], 'mid0'))
        inits.append(numpy_helper.from_array(np.array([0]), 's'))
        nodes.append(N('Squeeze', ['f', 's'], ['t'], 'mid'))
        bad['a'] = [c([2, 3]), n, k]
    elif kind in ('conv', 'small conv', 'small pool'):
        sp = int(rng.integers(1, 4))
        kr, pad, grp = [int(rng.integers(2, 6)) for _ in range(sp)], int(rng.integers(0, 2)), int(rng.integers(1, 3))
        dil = int(rng.integers(1, 3))
        size = [(q - 1) * dil + 1 + int(rng.integers(0, 4)) for q in kr]
        ins['a'] = [n, 2 * grp] + size
        inits.append(numpy_helper.from_array(rng.uniform(-1, 1, [2 * grp, 2] + kr).astype(np.float32), 'w'))
        at = dict(pads=[pad] * 2 * sp, dilations=[dil] * sp, kernel_shape=kr)
        if kind == 'conv':
            bad['a'] = [n, c([2 * grp + 1, 4 * grp, 1])] + size
        else:
            ax = int(rng.integers(sp))
            need = (kr[ax] - 1) * dil + 1 - 2 * pad
            size2 = list(size)
            size2[ax] = max(1, need - 2)
            bad['a'] = [n, 2 * grp] + size2
            if need < 3 or size2[ax] + 2 * pad - (kr[ax] - 1) * dil - 1 >= -1:
                bad['a'] = None
        if kind == 'small pool':
            nodes.append(N('MaxPool', ['ra'], ['t'], 'mid', dilations=[dil] * sp, kernel_shape=kr))
            if bad['a'] is not None:
                bad['a'][2 + ax] = max(1, need + 2 * pad - 2)
                if need + 2 * pad < 3:
                    bad['a'] = None
        else:
            nodes.append(N('Conv', ['ra', 'w'], ['t'], 'mid', group=grp, **at))
        if bad['a'] is None:
            return symbolic_sum(rng)
    elif kind == 'crop':
        inits.append(numpy_helper.from_array(np.array([-2, 0, 0, 0]), 's'))
        nodes.append(N('Pad', ['ra', 's'], ['t'], 'mid'))
        bad['a'] = [1, k]
    else:
        ins['b'], ins['e'] = [1, k], [n, 1]
        nodes += [N('Mul', ['ra', 'b'], ['t0'], 'm0'), N('Mul', ['t0', 'e'], ['t'], 'mid')]
        bad['e'] = [n + 2, 1]
    nodes.append(N('Abs', ['t'], ['y'], 'last'))
    rank = lambda k: bad.get(k, ins[k]) if len(bad.get(k, ins[k])) == len(ins[k]) else None
    g = helper.make_graph(nodes, 'g', [V(k, TP.FLOAT, [f'{k}{j}' for j in range(len(s))]) for k, s in ins.items()], [V('y', TP.FLOAT, None)], initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)])
    m.ir_version = 8
    f = lambda o: {k: np.zeros(o.get(k, s), np.float32) for k, s in ins.items()}
    return m, f({}), f(bad), kind


def sequence(case, mon):
    """one graph, inferences which work and fail; a report is only given for the last inference"""
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P33', 'sequence', seed, i)
    c = lambda s: s[int(rng.integers(len(s)))]
    m, good, bad, kind = symbolic_sum(rng)
    if not possible(m, good) or kind not in CONSTRUCTED and possible(m, bad):
        mon.inconclusive('the operands of the bad feeds fit')
        return
    with listening():
        g = onnx_tool.Model(m, {'constant_folding': bool(rng.random() < .3)}).graph
    shapes = profiled = False      # what the last inference and the last profile of it gave
    names = sorted(good)
    trace = []
    with scratch() as d:
        for s in range(int(rng.integers(3, 14))):
            step = c(['good', 'good', 'bad', 'none', 'partial', 'profile', 'profile', 'profile', 'report', 'report', 'report', 'regress'])
            trace.append(step)
            why = f'{kind}: {" ".join(trace)}; case {case}'
            mon.event('sequence_steps')
            if step in ('good', 'bad'):
                with listening():
                    try:
                        g.shape_infer(good if step == 'good' else bad)
                        ok = True
                    except Exception:
                        ok = False
                shapes = ok
                profiled = False
                if ok != (step == 'good'):
                    mon.violation(f'inference of {step}', f'inference with {"fitting" if step == "good" else "unfitting"} operands {"succeeded" if ok else "failed"}: {why}')
                    return
            elif step in ('none', 'partial'):
                # earlier feeds may still be in place; only the outcome the tool reports is used
                fresh = not any(t in trace[:-1] for t in ('good', 'bad', 'partial', 'regress'))
                with listening():
                    try:
                        g.shape_infer({names[0]: good[names[0]]} if step == 'partial' else None)
                        ok = True
                    except Exception:
                        ok = False
                if ok and fresh and (step == 'none' or len(names) > 1):
                    mon.violation('inference of nothing', f'inference succeeded although inputs were never fed: {why}')
                    return
                shapes, profiled = ok, False
            elif step == 'regress':
                with listening():
                    try:
                        g.shape_regress({k: [f'{k}{j}' for j in range(v.ndim)] for k, v in good.items()}, {names[0] + '0': (1, 4)})
                        ok = True
                    except Exception:
                        ok = False
                if ok:
                    mon.violation('regress of nothing', f'shape_regress succeeded with variables without a range: {why}')
                    return
                shapes = shapes and bool(g.valid_shape)    # the ranges are looked at before anything is inferred
                profiled = profiled and shapes and bool(g.valid_profile)
            elif step == 'profile':
                with listening() as h:
                    try:
                        g.profile()
                        refused = False
                    except Exception:
                        refused = True
                if shapes:
                    if refused or not g.valid_profile:
                        mon.violation('profile refused', f'no profile although inference succeeded: {why}')
                        return
                elif g.valid_profile or not refused and not h.warned:
                    mon.violation('profile without inference', f'profile() after a failed or missing inference {"is presented as valid" if g.valid_profile else "says nothing"}: {why}')
                    return
                profiled = shapes
            else:
                f = c([None, os.path.join(d, f'r{s}.txt'), os.path.join(d, f'r{s}.csv')])
                with listening() as h:
                    try:
                        g.print_node_map(f, **c([{}, {'metric': 'FLOPs'}, {'exclude_ops': ['Relu']}]))
                        refused = False
                    except Exception:
                        refused = True
                given = any(t in h.out for t in TABLE) or f is not None and os.path.exists(f)
                mon.event('reports_watched')
                if given and not profiled:
                    mon.violation('stale report', f'a report is given although nothing was profiled since the last {"" if shapes else "(failed) "}inference: {why}')
                    return
                if profiled and not given:
                    mon.violation('report refused', f'no report of a valid profile: {why}')
                    return
                if not given and not refused and not h.warned:
                    mon.violation('silent report', f'neither a report nor a warning: {why}')
                    return
            if bool(g.valid_shape) != shapes or g.valid_profile and not profiled:
                mon.violation('flags', f'valid_shape={g.valid_shape} valid_profile={g.valid_profile}, the last inference {"succeeded" if shapes else "failed"}, profiled since: {profiled}: {why}')
                return
    mon.event('controls_accepted', trace.count('good'))
    mon.distinct((kind, tuple(trace)))
    mon.sample({'kind': kind, 'steps': trace})


def runtime(case, mon):
    """sizes which fit are accepted and those which do not are refused, by the high-level calls"""
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P33', 'runtime', seed, i)
    m, good, bad, kind = symbolic_sum(rng)
    if not possible(m, good) or kind not in CONSTRUCTED and possible(m, bad):
        mon.inconclusive('the operands of the bad feeds fit')
        return
    with scratch() as d:
        why = f'{kind} with { {k: v.shape for k, v in bad.items()} }; case {case}'
        if not refused_by_api(m, bad, d, mon, why, kind):
            return
        mon.event('operands_refused')
        rep = os.path.join(d, 'ok.txt')
        with listening():
            onnx_tool.model_profile(m, good, save_profile=rep)
        if not os.path.exists(rep):
            mon.violation('not accepted', f'no report for operands which fit: {why}')
        mon.event('controls_accepted')
        # sizes of the regression for which the operands never fit
        if kind in ('add', 'matmul', 'where', 'mul3') and rng.random() < .5:
            desc = {k: [int(x) for x in v.shape] for k, v in bad.items()}
            desc['a'][0] = 'n'
            n = bad['a'].shape[0]
            with listening():
                try:
                    onnx_tool.model_shape_regress(m, desc, {'n': (n, n + 4)})
                    ok = True
                except Exception:
                    ok = False
            if ok and kind in ('matmul', 'where'):
                mon.violation('regress', f'shape_regress accepts operands which do not fit: {why}')
            mon.event('regressions_refused', not ok)
    mon.distinct((kind, [v.shape for v in bad.values()]))


def arguments(case, mon):
    """arguments which cannot be used"""
    import onnx_tool
    from onnx import TensorProto as TP
    _, seed, i = case
    rng = rng_for('P33', 'arguments', seed, i)
    c = lambda s: s[int(rng.integers(len(s)))]
    m, feeds = some_model(rng)
    what = c(['exclude', 'metric', 'io rank', 'object', 'garbage', 'missing', 'unknown op', 'custom domain'])
    why = f'{what}; case {case}'
    with scratch() as d:
        rep, sav = os.path.join(d, 'r.txt'), os.path.join(d, 's.onnx')
        with listening() as h:
            ok = True
            try:
                if what == 'exclude':
                    onnx_tool.model_profile(m, feeds, exclude_ops=c([{'NoSuchOp'}, ['conv'], {'Add', 'Convv'}, {''}]), save_profile=rep, save_model=sav)
                elif what == 'metric':
                    g = onnx_tool.Model(m).graph
                    g.shape_infer(feeds)
                    g.profile()
                    g.print_node_map(rep, metric=c(['macs', 'Flops', '', 'OPs']))
                elif what == 'io rank':
                    vs = [v for v in list(m.graph.input) + list(m.graph.output) if v.type.tensor_type.HasField('shape')]
                    v = c(vs)
                    k = len(v.type.tensor_type.shape.dim) + c([1, 2, -1])
                    if k < 1:
                        k += 3
                    onnx_tool.model_io_modify(m, sav, {v.name: 'x'.join(['3'] * k)})
                elif what == 'object':
                    onnx_tool.model_profile(c([3, None, {'graph': 1}, m.graph, [m], b'abc']), None, save_profile=rep, save_model=sav)
                elif what == 'garbage':
                    p = os.path.join(d, 'g.onnx')
                    with open(p, 'wb') as f:
                        f.write(bytes(255 - (x % 200) for x in range(1, 300)))
                    onnx_tool.model_profile(p, None, save_profile=rep, save_model=sav)
                elif what == 'missing':
                    onnx_tool.model_profile(os.path.join(d, 'none.onnx'), None, save_profile=rep, save_model=sav)
                else:
                    # an operator nobody knows in the middle of the model
                    n = m.graph.node[int(rng.integers(len(m.graph.node)))]
                    n.op_type = c(['MyOp', 'Foo', 'conv'])
                    if what == 'custom domain':
                        n.domain = 'my.domain'
                        o = m.opset_import.add()
                        o.domain, o.version = 'my.domain', 1
                    onnx_tool.model_profile(m, feeds, save_profile=rep, save_model=sav)
            except (Exception, SystemExit):
                ok = False
        if ok:
            mon.violation(f'accepted: {what}', f'an unusable argument was accepted: {why}; warnings {h.warned[:3]}')
        elif os.path.exists(rep) or os.path.exists(sav):
            mon.violation(f'files: {what}', f'files were written by a call which failed: {why}')
        if what in ('unknown op', 'custom domain') and not any(n.op_type in w for w in h.warned):
            mon.violation('unknown operator', f'the operator {n.op_type} is unknown, and no warning names it: {h.warned[:3]}; {why}')
        mon.event('arguments_refused')
        mon.event('arguments_' + what.replace(' ', '_'))
    mon.distinct((what, i % 7))
