"""P29: callers' objects and source files stay as they are; files appear only where asked for."""
import copy
import hashlib
import os
import pathlib
import sys
import warnings
import numpy as np
from vt import modelgen as mg, profmodels as pm, hostgraph as hg, opcases, oracle
from vt.core import rng_for, quiet, scratch

PROP = 'P29'
RULE = ('every public operation (loading from a model object, a path or a Path with and without external data, inference, profiling and reports, memory plans, shape regression, '
        'saving, exporting, folding, simplifying, reordering, cutting, fusing, removing, quantizing, serializing, editing interfaces, building and profiling language models) with '
        'random models and arguments, and every operator evaluated on its own; arguments are snapshotted byte for byte (also arrays which refuse writing), every opening, creation, '
        'renaming and deletion of a file is recorded by an audit hook and the working directory is compared; distinct by model and operations')
ASSUMPTIONS = ['byte code caches and /dev/null are not output files']
MIN_EVENTS = {'arguments_compared': 5000, 'source_files_compared': 1000, 'files_written_as_asked': 500, 'operators_evaluated': 2000}
BUDGET = {'quick': 150, 'thorough': 800}


def cases(tier, seed):
    n = 2400 if tier == 'quick' else 40000
    k = 40 if tier == 'quick' else 900
    for i in range(n):
        yield ('api', seed, i)
        if i % 4 == 0:
            yield ('builder', seed, i)
        if i % 2 == 0:
            yield ('arrays', seed, i)
    for i in range(k):
        for op in opcases.GEN:
            yield ('op', seed, i, op)


# ---------------------------------------------------------------- monitors

_log = None


def _hook(event, args):
    if _log is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        writes = any(c in mode for c in 'wax+') if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if writes:
            _log.append(('write', path))
    elif event in ('os.mkdir', 'os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.utime', 'os.symlink', 'os.link', 'shutil.rmtree'):
        _log.append((event, args[0]))
    elif event in ('os.rename', 'shutil.move', 'shutil.copyfile', 'shutil.copytree'):
        _log.append((event, args[0]))
        _log.append((event, args[1]))


_installed = False


class Watch:
    """records the file operations of a block"""

    def __enter__(self):
        global _log, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _log = self.log = []
        return self

    def __exit__(self, *a):
        global _log
        _log = None


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + '/'] = None
        for x in files:
            p = os.path.join(root, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = hashlib.md5(f.read()).hexdigest()
    return out


def snap(x):
    if isinstance(x, np.ndarray):
        return ('array', id(x), str(x.dtype), x.shape, x.strides, x.flags.writeable, x.tobytes() if x.dtype.kind != 'O' else repr(x.tolist()))
    if isinstance(x, dict):
        return ('dict', [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, set):
        return ('set', sorted(map(repr, x)))
    if hasattr(x, 'SerializeToString'):
        return ('proto', x.SerializeToString(deterministic=True))
    return (type(x).__name__, repr(x))


def what(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == 'dict' and [k for k, _ in a[1]] == [k for k, _ in b[1]]:
            return '; '.join(f'{k}: {what(x, y)}' for (k, x), (_, y) in zip(a[1], b[1]) if x != y)
        if a[0] == 'array':
            return f'array {a[2:4]} changed' if a[1] == b[1] else 'array replaced by another one'
        if a[0] == 'proto':
            return f'{len(a[1])} -> {len(b[1])} bytes'
    return f'{str(a)[:150]} -> {str(b)[:150]}'


def guard(name, args, call, d, asked, mon, case):
    """runs call; args: objects of the caller by name; asked: files and directories (ending in /) it may write, relative to d"""
    before = {k: snap(v) for k, v in args.items()}
    files = listing(d)
    cwd = os.getcwd()
    os.makedirs(os.path.join(d, 'cwd'), exist_ok=True)
    files = listing(d)
    err = None
    try:
        os.chdir(os.path.join(d, 'cwd'))
        with Watch() as w, quiet(), np.errstate(all='ignore'):
            try:
                out = call()
            except Exception as e:
                err, out = e, None
    finally:
        os.chdir(cwd)
    for k, v in args.items():
        mon.event('arguments_compared')
        now = snap(v)
        if now != before[k]:
            mon.violation(f'{name}: {k} changed', f'{name} changed its caller\'s {k}: {what(before[k], now)}; case {case}')
    after = listing(d)
    allowed = lambda p: any(p == a or (a.endswith('/') and (p + '/' == a or p.startswith(a))) or (a.startswith(p) and p.endswith('/')) for a in asked)
    for p in set(files) | set(after):
        if files.get(p, 0) != after.get(p, 0):
            if p in files and p not in after:
                mon.violation(f'{name}: file removed', f'{name} removed {p}; case {case}')
            elif not allowed(p):
                mon.violation(f'{name}: {"file changed" if p in files else "file not asked for"}', f'{name} wrote {p}, asked for {sorted(asked)}; case {case}')
            else:
                mon.event('files_written_as_asked')
    mon.event('source_files_compared', sum(p.startswith('src/') for p in files))
    root = os.path.realpath(d)
    for ev, p in w.log:
        try:
            q = os.path.realpath(os.path.join(d, 'cwd', os.fsdecode(p)))
        except TypeError:
            continue
        mon.event('file_operations_watched')
        if '__pycache__' in q or q == '/dev/null':
            continue
        if not q.startswith(root + '/'):
            mon.violation(f'{name}: outside', f'{name}: {ev} {q}, outside of the directories it was given; case {case}')
        elif not allowed(os.path.relpath(q, root)) and not allowed(os.path.relpath(q, root) + '/'):
            mon.violation(f'{name}: {ev}', f'{name}: {ev} {os.path.relpath(q, root)}, asked for {sorted(asked)}; case {case}')
    mon.event('operations')
    if err is not None:
        mon.event('operations_refused')
        mon.event(f'refused_{name}')
    if isinstance(err, ValueError) and 'read-only' in str(err):
        mon.violation(f'{name}: writes', f'{name} tries to write into its caller\'s array: {err}; case {case}')
    return out


# ---------------------------------------------------------------- cases

def run(case, mon):
    {'api': api, 'builder': builder, 'arrays': arrays, 'op': one_op}[case[0]](case, mon)


def one_op(case, mon):
    """an operator evaluated and inferred with its caller's own arrays"""
    import onnx_tool
    _, seed, k, op = case
    c = opcases.make(op, rng_for('op', 'foot', op, seed, k))
    model, feeds, outs = oracle.op_model(c)
    raw = model.SerializeToString(deterministic=True)
    ro = k % 2 == 0
    feeds = {n: np.array(v, order='C') for n, v in feeds.items()}
    for v in feeds.values():
        v.flags.writeable = not ro
    before = snap(feeds)
    with quiet(), np.errstate(all='ignore'):
        for how in ('value_infer', 'shape_infer', 'value_infer'):
            g = None
            try:
                g = onnx_tool.Model(model).graph if g is None else g
                stored = {n: snap(g.tensormap[n].numpy)[2:] for n in g.initials}
                getattr(g, how)(feeds)
            except ValueError as e:
                if 'read-only' in str(e):
                    mon.violation(f'{op} writes', f'{how} of {op} writes into its caller\'s array: {e}; {c.describe()}')
            except NotImplementedError:
                pass
            except Exception:
                mon.event('operator_refused')
            if snap(feeds) != before:
                mon.violation(f'{op} changes input', f'{how} of {op} changed its caller\'s arrays: {what(before, snap(feeds))}; {c.describe()}')
                return
            if g is not None:
                for n in stored:
                    if n in g.initials and snap(g.tensormap[n].numpy)[2:] != stored[n]:
                        mon.violation(f'{op} changes weight', f'{how} of {op} changed the weight {n} it reads; {c.describe()}')
                        return
            mon.event('operators_evaluated')
    if model.SerializeToString(deterministic=True) != raw:
        mon.violation(f'{op} changes model', f'{op}: the model object was changed; {c.describe()}')
    mon.distinct((op, sorted((a, str(v)) for a, v in c.attrs.items()), [None if x is None else (str(x.dtype), x.shape) for x in c.inputs]))


def some_model(rng):
    from vt.checks import convbn, saveload
    r = rng.random()
    desc = rg = feeds = None
    if r < .45:
        g = mg.generate(rng, assign=2)
        m, feeds = g.model(), g.feeds(0)
        if g.syms:
            desc = {n: [int(d) if not isinstance(d, str) else d for d in dims] for n, _, dims in g.inputs}
            rg = {s: (min(v), max(v)) for s, v in g.syms.items()}
    elif r < .65:
        m, feeds, _ = pm.make(rng)
    elif r < .8:
        m, dims, dt, _ = convbn.build(rng)
        feeds = {'x': rng.uniform(-1, 1, dims).astype(dt)}
    elif r < .9:
        h = hg.host(rng)
        m = hg.model(h)
    else:
        m = control_flow(rng)
    return m, feeds, desc, rg


def control_flow(rng):
    """an If or Loop whose bodies read outer tensors, and a TopK"""
    from onnx import helper, numpy_helper, TensorProto as TP
    N = helper.make_node
    br = [helper.make_graph([N('Add', ['h', 'w'], [f'b{j}'], f'nb{j}'), N('Relu' if j else 'Neg', [f'b{j}'], [f'o{j}'], f'nr{j}')], f'body{j}', [], [helper.make_tensor_value_info(f'o{j}', TP.FLOAT, None)])
          for j in range(2)]
    nodes = [N('Abs', ['x'], ['h'], 'abs'), N('If', ['c'], ['y'], 'if', then_branch=br[0], else_branch=br[1]), N('TopK', ['y', 'k'], ['v', 'i'], 'top', axis=-1), N('Identity', ['v'], ['z'], 'end')]
    m = helper.make_model(helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', TP.FLOAT, [2, 6]), helper.make_tensor_value_info('c', TP.BOOL, [])],
                                            [helper.make_tensor_value_info('z', TP.FLOAT, None), helper.make_tensor_value_info('i', TP.INT64, None)],
                                            initializer=[numpy_helper.from_array(rng.uniform(-1, 1, (6,)).astype(np.float32), 'w'), numpy_helper.from_array(np.array([3]), 'k')]),
                          opset_imports=[helper.make_opsetid('', 17)])
    m.ir_version = 8
    return m


def api(case, mon):
    import onnx
    import onnx_tool
    from onnx_tool import fusion, quantization, serialization
    _, seed, i = case
    rng = rng_for('P29', seed, i)
    m, feeds, desc, rg = some_model(rng)
    c = lambda s: s[int(rng.integers(len(s)))]
    ops = sorted({n.op_type for n in m.graph.node})
    names = [n.name for n in m.graph.node]
    tensors = [o for n in m.graph.node for o in n.output if o]
    inits = [t.name for t in m.graph.initializer]
    with scratch() as d:
        os.mkdir(os.path.join(d, 'src'))
        src = os.path.join(d, 'src', 'model.onnx')
        ext = rng.random() < .25
        if ext:
            onnx.save_model(copy_of(m), src, save_as_external_data=True, location='weights.bin', size_threshold=0)
        else:
            onnx.save_model(m, src)
        form = c(['proto', 'proto', 'path', 'pathlib'])
        M = {'proto': m, 'path': src, 'pathlib': pathlib.Path(src)}[form]
        cfg = {}
        for k, v in (('constant_folding', True), ('verbose', True), ('node_rename', True), ('if_fixed_branch', 'then'), ('fixed_topk', 2), ('remove_dangling', False)):
            if rng.random() < .25:
                cfg[k] = v
        if feeds is not None:
            feeds = {k: np.array(v) for k, v in feeds.items()}
            if rng.random() < .4:
                for v in feeds.values():
                    v.flags.writeable = False
        caller = {'model': m, 'configuration': cfg}
        if feeds is not None:
            caller['input arrays'] = feeds
        done = []

        def go(name, call, asked=(), **args):
            done.append(name)
            return guard(name, {**caller, **args}, call, d, set(asked), mon, case)
        tm = go('load', lambda: onnx_tool.loadmodel(M, cfg))
        if tm is None:
            return
        g = tm.graph
        for _ in range(int(rng.integers(3, 8))):
            k = c(['infer', 'infer', 'value', 'profile', 'report', 'plan', 'regress', 'compute', 'save', 'api_profile', 'export', 'fold', 'reorder_api', 'io', 'part', 'fuse_api', 'quant',
                   'convbn', 'serial', 'edit', 'dump', 'subgraph', 'patterns', 'fuse', 'reload'])
            ex = {c(ops) for _ in range(int(rng.integers(0, 3)))}
            ex = c([set, list])(ex)
            out = c(['out.onnx', 'deep.v1.onnx', 'm'])
            o = os.path.join(d, out)
            fresh = lambda: onnx_tool.Model(M, cfg)
            if k == 'infer':
                go(k, lambda: g.shape_infer(feeds))
            elif k == 'value' and feeds is not None:
                go(k, lambda: g.value_infer(feeds))
            elif k == 'profile':
                go(k, lambda: g.profile(exclude_ops=ex), excluded=ex)
            elif k == 'report':
                f = c([None, 'r.csv', 'r.txt'])
                go(k, lambda: g.print_node_map(f and os.path.join(d, f), c(['MACs', 'FLOPs']), ex), [f] if f else [], excluded=ex)
            elif k == 'plan':
                go(k, lambda: g.compress_memory(int(c([1, 64]))))
            elif k == 'regress' and rg:
                ds, r = {a: c([list, tuple])(b) for a, b in desc.items()}, {a: c([list, tuple])(b) for a, b in rg.items()}
                eng = go(k, lambda: onnx_tool.model_shape_regress(M, ds, r) if rng.random() < .5 else (fresh().graph.shape_regress(ds, r), None), description=ds, ranges=r)
                if eng is not None and eng[0] is not None:
                    e = eng[0]
                    def use():
                        for s in rg:
                            e.update_variable(s, rg[s][1])
                        e.update_variables()
                        e.generate_input()
                    go('engine', use, description=ds, ranges=r)
                    go('serialize_engine', lambda: serialization.serialize_shape_engine(e, o), [out], description=ds)
                    mx = {s: b[1] for s, b in rg.items()}
                    plan = go('plan', lambda: g.compress_memory()) if g.valid_shape else None
                    if plan is not None:
                        go('serialize_plan', lambda: serialization.serialize_memory_compression(plan, mx, o), [out], plan=plan, maxima=mx)
            elif k == 'compute':
                go(k, lambda: g.get_compute_graph())
            elif k == 'save':
                go(k, lambda: tm.save_model(o, shape_only=bool(rng.random() < .3), no_shape=bool(rng.random() < .3)), [out])
            elif k == 'api_profile':
                f = c([None, 'r.csv', 'r.txt'])
                s = c([None, out])
                valid = {n for n in ex if not n.startswith('Op')}
                hid = c([None, set(['Identity']), onnx_tool.NoMacsOps])
                go(k, lambda: onnx_tool.model_profile(M, feeds, exclude_ops=valid, hidden_ops=hid, mcfg=cfg, save_profile=f and os.path.join(d, f), save_model=s and o),
                   [x for x in (f, s) if x], excluded=valid, hidden=hid)
            elif k == 'export':
                f = c(['tensors', None])
                tn = c([None, inits, inits[:2] + ['no such']])
                go(k, lambda: onnx_tool.model_export_tensors_numpy(M, tn, f and os.path.join(d, f), bool(rng.random() < .5)), ['tensors/' if f else 'cwd/'], names=tn)
            elif k == 'fold':
                go(k, lambda: onnx_tool.model_constant_folding(M, o), [out])
            elif k == 'reorder_api':
                go(k, lambda: onnx_tool.model_reorder_nodes(M, o), [out])
            elif k == 'io':
                custom = {}
                for v in list(m.graph.input) + list(m.graph.output):
                    n = len(v.type.tensor_type.shape.dim)
                    if n and rng.random() < .6:
                        custom[v.name] = 'x'.join(c(['N', 'h', '3', '17']) for _ in range(n + (rng.random() < .1)))
                go(k, lambda: onnx_tool.model_io_modify(M, o, custom), [out], request=custom)
            elif k == 'part':
                sub = names[:len(names) // 2 + 1]
                ins, outs = [v.name for v in m.graph.input], [c(tensors)]
                dst = c(['parts/', None])
                if dst:
                    os.makedirs(os.path.join(d, 'parts'), exist_ok=True)
                kw = {'nodenames': sub} if rng.random() < .5 else {'in_tensor_names': ins, 'out_tensor_names': outs}
                if dst:
                    kw['save_folder'] = os.path.join(d, 'parts')
                stem = '' if form == 'proto' else 'model'
                where = 'parts' if dst else 'cwd'
                asked = [f'{where}/{stem}_subgraph.onnx'] if 'nodenames' in kw else [f'{where}/{stem}_level{j}.onnx' for j in range(3)]
                go(k, lambda: onnx_tool.model_subgraph(M, **kw), asked, node_names=sub, inputs=ins, outputs=outs)
            elif k == 'fuse_api':
                sub = names[:2]
                go(k, lambda: onnx_tool.model_opfusion(M, 'Fused', 'fused_0', o, nodenames=sub, keep_attr=bool(rng.random() < .5)), [out], node_names=sub)
            elif k == 'quant':
                def quantize():
                    q = fresh()
                    for t in list(q.graph.initials):
                        quantization.graph_quantize(q.graph, t, int(c([-1, 0, 32])), c(['sym', 'asym']), int(c([4, 8])))
                    q.save_model(o)
                go(k, quantize, [out])
            elif k == 'convbn':
                def fold():
                    q = fresh()
                    if feeds is not None and rng.random() < .5:
                        q.graph.shape_infer(feeds)
                    fusion.ConvBNFusion(q.graph)
                    q.save_model(o)
                go(k, fold, [out])
            elif k == 'serial':
                go(k, lambda: serialization.serialize_graph(g, o), [out])
            elif k == 'dump':
                ask = [c(tensors) for _ in range(2)]
                def dump():
                    q = fresh()
                    q.graph.add_dump_tensors(ask)
                    q.save_model(o)
                go(k, dump, [out], names=ask)
            elif k == 'edit':
                data = rng.uniform(-1, 1, (3, 2)).astype(np.float32)
                def edit():
                    q = fresh()
                    q.graph.add_initial('new_weight', data)
                    q.graph.add_dynamic('new_input', data)
                    n = c(list(q.graph.nodemap))
                    if rng.random() < .5:
                        q.graph.skip_node(n)
                    else:
                        q.graph.remove_node(n, bool(rng.random() < .5))
                    q.graph.remove_dangling_nodes()
                    fusion.removeShapeOps(q.graph)
                    q.save_model(o)
                go(k, edit, [out], data=data)
            elif k == 'subgraph':
                ins, outs, sub = [v.name for v in m.graph.input], [c(tensors)], names[:3]
                go(k, lambda: (g.get_subgraph(ins, outs), g.get_onnxgraph_by_nodenames(sub)), inputs=ins, outputs=outs, node_names=sub)
            elif k == 'patterns':
                pats = {n: getattr(fusion, n) for n in ('ConvBN', 'Fused_Element', 'Conv_Res', 'layernorm_pattern')}
                go(k, lambda: [fusion.FusionPattern(p, bool(rng.random() < .3)).search_pattern(g) for p in pats.values()], patterns=pats)
                sub = list(g.nodemap)[:3]
                descs = go('describe', lambda: fusion.create_descs_from_nodenames(g, sub), node_names=sub)
                if descs:
                    go('search', lambda: fusion.FusionPattern(descs).search_pattern(g), descriptions=descs)
            elif k == 'fuse':
                sub = names[:2]
                post = [c(names) for _ in range(2)]
                def fuse():
                    q = fresh().graph
                    q.fuse_subgraph_node_names(sub, 'F', 'f0', True)
                    q.fuse_postop_node_names(post, True)
                go(k, fuse, node_names=sub, chain=post)
            elif k == 'reload':
                tm = go('load', lambda: onnx_tool.Model(M, cfg)) or tm
                g = tm.graph
        if not ext and form == 'proto':
            pass
    mon.distinct((tuple(n.op_type for n in m.graph.node), tuple(done), form))
    mon.sample({'operators': [n.op_type for n in m.graph.node], 'given as': form, 'operations': done})


def copy_of(m):
    import onnx
    n = onnx.ModelProto()
    n.CopyFrom(m)
    return n


def builder(case, mon):
    from onnx_tool import llm, model_configs
    from onnx_tool.device import Devices
    from vt.checks import llm as chk, history
    _, seed, i = case
    rng = rng_for('P29', 'builder', seed, i)
    c = lambda s: s[int(rng.integers(len(s)))]
    if rng.random() < .3:
        cfg = getattr(model_configs, c(history.NAMED))
    else:
        cfg = chk.config(c(chk.ARCHS), rng)
    size = [int(rng.integers(1, 3)), int(rng.integers(1, 9))]
    table = {k: v for k, v in vars(llm).items() if k in ('ArchMap', 'WeightMap')}
    with scratch() as d:
        base = {'configuration': cfg, 'sizes': size, 'devices': Devices, 'tables': table}
        done = []

        def go(name, call, asked=(), **args):
            done.append(name)
            return guard('builder ' + name, {**base, **args}, call, d, set(asked), mon, case)
        b = go('make', lambda: llm.Builder(**cfg))
        wm = copy.deepcopy(llm.WeightMap) if rng.random() < .4 else None
        go('build', lambda: b.build_graph(size, wm), weight_names=wm)
        if rng.random() < .5:
            go('cache', lambda: b.add_kv_cache(60, 3))
        for _ in range(3):
            st, dv = c([None] + history.SETTINGS), c([None] + list(Devices.values()))
            go('profile', lambda: b.profile(st, dv), settings=st, device=dv)
            f = c([None, 'r.csv', 'r.txt'])
            go('report', lambda: b.print_profile(f and os.path.join(d, f)), [f] if f else [])
        if cfg.get('hidden_size', cfg.get('n_embd', 9999)) < 300:
            go('save', lambda: b.save_graph(os.path.join(d, 'm.onnx')), ['m.onnx'])
        go('name', lambda: b.get_filename())
        img = [3, 28, 28]
        vcfg = dict(cfg, vision_config={'hidden_size': 8, 'num_hidden_layers': 1, 'num_attention_heads': 2, 'intermediate_size': 12, 'patch_size': 14})
        def see():
            v = llm.Builder(**vcfg)
            v.build_vision_graph(img)
        go('vision', see, image=img, vision_configuration=vcfg)
    mon.distinct(('builder', tuple(sorted((k, str(v)) for k, v in cfg.items())), tuple(done)))


def arrays(case, mon):
    """functions taking arrays"""
    from onnx_tool import quantization as q, tensor as t
    _, seed, i = case
    rng = rng_for('P29', 'arrays', seed, i)
    c = lambda s: s[int(rng.integers(len(s)))]
    shape = [int(x) for x in rng.integers(1, 9, int(c([1, 2, 2, 2, 3])))]
    w = rng.uniform(-2, 2, shape).astype(c([np.float32, np.float16, np.float64]))
    w[rng.random(shape) < c([0, .5, 1])] = 0
    if rng.random() < .5:
        w.flags.writeable = False
    codes = rng.integers(-8, 8, shape).astype(np.int8)
    big = np.zeros([72, 64], np.float32)
    big[: int(rng.integers(72))] = 1
    with scratch() as d:
        go = lambda name, call, **args: guard(name, {'weight': w, 'codes': codes, **args}, call, d, set(), mon, case)
        for kind in ('sym', 'asym'):
            for bits in (4, 8):
                block = int(c([-1, 0, 2, 4, 32]))
                go('quantize', lambda: q.quantize(w, block, kind, bits))
        go('pack', lambda: q.pack_4bits(codes))
        go('range', lambda: q.find_min_max(w, int(c([-1, 0, 4]))))
        go('sparsity', lambda: t.narray_calc_sparsity(w))
        go('blocks', lambda: t.search_sparse_blocksize(big, t.narray_calc_sparsity(big), .1), big=big)
        def tensors():
            x = t.create_initial_Tensor('x', w)
            x.make_tensor_proto()
            x.make_value_proto()
            x.sparsity_search(thres_size=1)
            y = t.create_dynamic_Tensor('y', w)
            y.update_tensor(w)
            y.update_proto(w)
            y.get_numpy()
            return x, y
        go('tensors', tensors)
    mon.distinct(('arrays', tuple(shape), str(w.dtype), i))
