"""P06: load + save keeps the model's function and interface."""
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto, TensorProto as TP
from vt import modelgen as mg, modelcmp as mc, opcases
from vt.core import rng_for, quiet, scratch
from vt.oracle import op_model, samerun, reference

PROP = 'P06'
RULE = ('(a) random models with named/fixed dimensions, shared, unused and input-declared initializers, optional inputs, inner outputs, unnamed nodes, '
        'value_info; (b) one-node models of every supported operator with generated attributes; (c) unknown and custom-domain operators with every '
        'attribute kind (also attributes called like members of the tool\'s nodes), functions and their overloads, control-flow bodies capturing outer tensors. Each is loaded, optionally shape-inferred, saved (plain, shape_only, no_shape), '
        're-read with onnx only and compared node by node, attribute by attribute, weight by weight, and executed on random inputs')
MIN_EVENTS = {'saved_files': 1000, 'nodes_compared': 5000, 'entries_which_are_no_tensors': 100, 'functions_compared': 50}
ASSUMPTIONS = ['the onnx package reads and executes the saved file faithfully']


def cases(tier, seed):
    n = 5000 if tier == 'quick' else 150000
    k = 20 if tier == 'quick' else 1500
    for i in range(n):
        yield ('model', seed, i)
    for op in sorted(opcases.GEN):
        for i in range(k):
            yield ('op', seed, op, i)
    for i in range(n // 3):
        yield ('exotic', seed, i)
    yield ('unused_input', seed, 0)


def beyond(rng, ri, cur, nodes, inits, ins, outs, fns, doms):
    """values which are no tensors, element types numpy has not, loops, functions of the model"""
    T = helper.make_tensor_value_info
    kinds = [int(k) for k in rng.permutation(7)[:ri(1, 3)]]
    if 0 in kinds:
        nodes.append(helper.make_node('SequenceConstruct', [cur, 'x', cur], ['seq'], 'seqc'))
        outs.append(helper.make_tensor_sequence_value_info('seq', 1, [2, 3] if ri(0, 1) else None))
    if 1 in kinds:
        ins.append(helper.make_tensor_sequence_value_info('parts', 1, [3]))
        inits.append(numpy_helper.from_array(np.asarray(ri(0, 1), np.int64), 'which'))
        nodes.append(helper.make_node('SequenceAt', ['parts', 'which'], ['part'], 'seqa'))
        outs.append(T('part', 1, [3]))
    if 2 in kinds:
        ins.append(helper.make_value_info('maybe', helper.make_optional_type_proto(helper.make_tensor_type_proto(1, [3]))))
        nodes.append(helper.make_node('OptionalHasElement', ['maybe'], ['has'], 'opt'))
        outs.append(T('has', TP.BOOL, []))
    if 3 in kinds:
        tp = [TP.COMPLEX64, TP.INT4, TP.UINT4, TP.BFLOAT16, TP.FLOAT8E4M3FN, TP.STRING, TP.COMPLEX128][ri(0, 6)]
        dims = [['n', 3], [2], []][ri(0, 2)]
        ins.append(T('odd', tp, dims))
        nodes.append(helper.make_node('Identity', ['odd'], ['same'], 'ident'))
        outs.append(T('same', tp, dims))
    if 4 in kinds:
        b = helper.make_graph([helper.make_node('Add', ['carried', 'x'], ['sum'], 'lba'), helper.make_node('Identity', ['go'], ['go2'], 'lbi')], 'body',
                              [T('it', TP.INT64, []), T('go', TP.BOOL, []), T('carried', 1, [2, 3])], [T('go2', TP.BOOL, []), T('sum', 1, [2, 3])])
        inits += [numpy_helper.from_array(np.asarray(ri(0, 3), np.int64), 'trips'), numpy_helper.from_array(np.asarray(True), 'cond')]
        nodes.append(helper.make_node('Loop', ['trips', 'cond', cur], ['looped'], 'loop', body=b))
        outs.append(T('looped', 1, [2, 3]))
    if 5 in kinds or 6 in kinds:
        doms.append(('local.fn', ri(1, 3)))
        body = [helper.make_node('Add', ['a', 'a'], ['s']), helper.make_node('LeakyRelu', ['s'], ['b'])]
        if ri(0, 1):
            at = onnx.AttributeProto(name='alpha', type=onnx.AttributeProto.FLOAT, ref_attr_name='slope')
            body[1].attribute.append(at)
            fns.append(helper.make_function('local.fn', 'Twice', ['a'], ['b'], body, [helper.make_opsetid('', 17)], attributes=['slope']))
            nodes.append(helper.make_node('Twice', [cur], ['called_y'], 'called', domain='local.fn', slope=.25))
        else:
            fns.append(helper.make_function('local.fn', 'Twice', ['a'], ['b'], body, [helper.make_opsetid('', 17)]))
            nodes.append(helper.make_node('Twice', [cur], ['called_y'], 'called', domain='local.fn'))
        if ri(0, 2) == 0:  # two functions of one name
            for v in ('', 'half'):
                fns.append(helper.make_function('local.fn', 'Chosen', ['a'], ['b'], [helper.make_node('Neg' if v else 'Abs', ['a'], ['b'])], [helper.make_opsetid('', 17)], overload=v))
            nodes.append(helper.make_node('Chosen', [cur], ['chosen'], 'chosen', domain='local.fn', overload=['', 'half'][ri(0, 1)]))
            outs.append(T('chosen', 1, [2, 3]))
            nodes.append(nodes.pop(-2))
        if ri(0, 2) == 0:
            fns.append(helper.make_function('local.fn', 'Unused', ['a'], ['b'], [helper.make_node('Neg', ['a'], ['b'])], [helper.make_opsetid('', 17)]))


MEMBERS = ['name', 'input', 'output', 'attr', 'proto', 'op_type', 'constant', 'shape_calc', 'value_infer', 'make_nodeproto', 'nextnodes', 'prevnodes', 'static_inputs', 'macs',
           'add_default_value', 'set_attr', 'domain', 'axes', 'shape_infer', '__class__', '']


def rare(rng, ri):
    t = numpy_helper.from_array(rng.normal(size=2).astype(np.float32), 'rt')
    g = helper.make_graph([helper.make_node('Relu', ['rx'], ['ry'], 'rn')], 'rg', [], [helper.make_tensor_value_info('ry', 1, None)])
    k = ri(0, 9)
    if k == 0:
        return [t, t]
    if k == 1:
        return helper.make_sparse_tensor(t, numpy_helper.from_array(np.array([1, 4]), 'ri'), [6])
    if k == 2:
        return helper.make_tensor_type_proto(1, ['n', 2])
    if k == 3:
        return [helper.make_sequence_type_proto(helper.make_tensor_type_proto(7, None))]
    if k == 4:
        return b'\xff\x00\xfe'
    if k == 5:
        return [float('nan'), float('inf'), -0.]
    if k == 6:
        return 2 ** 63 - 1
    if k == 7:
        return [b'', b'\x80', 'ü'.encode()]
    if k == 8:
        g.node[0].input[0] = 'x'
        return g
    return float('inf')


def exotic(rng):
    """operators the tool does not know, custom domains, all attribute kinds, bodies capturing outer tensors"""
    ri = lambda a, b: int(rng.integers(a, b + 1))
    nodes, inits = [], []
    x = 'x'
    cur = x
    doms = [('', 17)]
    w = numpy_helper.from_array(rng.normal(size=(3,)).astype(np.float32), 'w')
    inits.append(w)
    for k in range(ri(1, 4)):
        kind = ri(0, 5)
        out = f'y{k}'
        nm = f'n{k}'
        if kind in (0, 1, 2):
            at = {}
            if ri(0, 1): at['i'] = ri(-2 ** 40, 2 ** 40)
            if ri(0, 1): at['f'] = float(np.float32(rng.normal()))
            if ri(0, 1): at['s'] = 'text_%d' % ri(0, 9)
            if ri(0, 1): at['ints'] = [ri(-5, 5) for _ in range(ri(1, 4))]
            if ri(0, 1): at['floats'] = [float(np.float32(v)) for v in rng.normal(size=ri(1, 4))]
            if ri(0, 1): at['strings'] = ['a', 'bc']
            if ri(0, 1): at['t'] = numpy_helper.from_array(rng.integers(-5, 5, (2, ri(0, 3))).astype([np.int64, np.float16, np.uint8, np.bool_][ri(0, 3)]), 'tt')
            dom = ['com.acme', 'com.microsoft', ''][kind]
            opn = ['FancyOp', 'FusedThing', 'UnknownOp'][kind]
            if dom and (dom, 1) not in doms:
                doms.append((dom, 1))
            nd = helper.make_node(opn, [cur, 'w'] + ([''] + [cur] if ri(0, 1) else []), [out], nm, domain=dom, **at)
            while ri(0, 2) == 0:
                # attributes may have any name, as those of the members of a class, and be of rarer kinds
                a = helper.make_attribute(MEMBERS[ri(0, len(MEMBERS) - 1)] if ri(0, 1) else f'rare{len(nd.attribute)}', rare(rng, ri))
                if all(b.name != a.name for b in nd.attribute):
                    nd.attribute.append(a)
            if ri(0, 1):
                a = onnx.AttributeProto()
                a.name = 'empty'
                a.type = [a.INTS, a.FLOATS, a.STRINGS][ri(0, 2)]
                nd.attribute.append(a)
            nodes.append(nd)
            runnable = False
        elif kind == 3:
            nodes.append(helper.make_node('Relu', [cur], [out], nm, domain='ai.onnx' if False else ''))
        else:
            cname = f'c{k}'
            inits.append(numpy_helper.from_array(np.asarray(bool(ri(0, 1))), cname))
            cap = f'cap{k}'
            inits.append(numpy_helper.from_array(rng.normal(size=(3,)).astype(np.float32), cap))
            tb = helper.make_graph([helper.make_node('Add', [cur, cap], [f'tb{k}'], f'tbn{k}')], 'tb', [], [helper.make_tensor_value_info(f'tb{k}', 1, None)])
            eb = helper.make_graph([helper.make_node('Mul', [cur, cap], [f'eb{k}'], f'ebn{k}')], 'eb', [], [helper.make_tensor_value_info(f'eb{k}', 1, None)])
            nodes.append(helper.make_node('If', [cname], [out], nm, then_branch=tb, else_branch=eb))
        cur = out
    ins, outs, fns = [], [], []
    if ri(0, 2) == 0:
        beyond(rng, ri, cur, nodes, inits, ins, outs, fns, doms)
        cur = nodes[-1].output[0] if nodes[-1].name == 'called' else cur
    if all('x' not in n.input for n in nodes):
        nodes.insert(0, helper.make_node('Identity', ['x'], ['x0'], 'id0'))
        nodes.append(helper.make_node('Add', [cur, 'x0'], ['last'], 'addl'))
        cur = 'last'
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', 1, [2, 3])] + ins, [helper.make_tensor_value_info(cur, 1, [2, 3])] + outs, initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid(d, v) for d, v in doms], functions=fns)
    m.ir_version = 10 if any(f.name == 'Chosen' for f in fns) else ri(7, 9)
    return m


def build(case):
    kind, seed = case[0], case[1]
    if kind == 'model':
        i = case[2]
        rng = rng_for('P06', seed, i)
        g = mg.generate(rng, assign=2, value_info=i % 5 == 0, unnamed=i % 6 == 1, init_as_input=i % 4 == 2, unused_init=i % 3 == 1, double=True)
        m = g.model()
        for v in m.graph.output:        # some dimensions of unknown size without a name
            for dd in v.type.tensor_type.shape.dim:
                if dd.HasField('dim_param') and rng.random() < 0.3 and v.name not in [q.name for q in m.graph.input]:
                    dd.ClearField('dim_param')
        return rng, m, [g.feeds(0), g.feeds(1)], True
    if kind == 'op':
        op, i = case[2], case[3]
        rng = rng_for('P06o', seed, op, i)
        c = opcases.make(op, rng)
        m, feeds, outs = op_model(c)
        m.ir_version = 9
        return rng, m, [feeds], True
    rng = rng_for('P06e', seed, case[2])
    m = exotic(rng)
    run = all(n.op_type in ('Relu', 'If', 'Add', 'Identity', 'Twice', 'Loop', 'SequenceConstruct', 'SequenceAt') and n.domain in ('', 'local.fn') for n in m.graph.node)
    feeds = {'x': rng.normal(size=(2, 3)).astype(np.float32)}
    for v in m.graph.input:
        if v.name == 'parts':
            feeds['parts'] = [rng.normal(size=3).astype(np.float32) for _ in range(2)]
        elif v.name != 'x':
            run = False
    return rng, m, [feeds], run


def unused_input(mon):
    import onnx_tool
    g = helper.make_graph([helper.make_node('Relu', ['x'], ['y'], 'r')], 'g', [helper.make_tensor_value_info(n, 1, [2, 3]) for n in ('x', 'spare')],
                          [helper.make_tensor_value_info('y', 1, [2, 3])])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)])
    with scratch() as d, quiet():
        onnx_tool.Model(m).save_model(os.path.join(d, 'b.onnx'))
        n = onnx.load(os.path.join(d, 'b.onnx'))
    if [v.name for v in n.graph.input] == ['x']:
        mon.violation('input-lost-unused', 'a graph input no node consumes is missing from the saved model')
    elif [v.name for v in n.graph.input] != ['x', 'spare']:
        mon.violation('input-lost', str([v.name for v in n.graph.input]))


def run(case, mon):
    import onnx_tool
    if case[0] == 'unused_input':
        return unused_input(mon)
    rng, m, feeds, runnable = build(case)
    mode = case[-1] % 4
    inferred = False
    with scratch() as d:
        src = os.path.join(d, 'a.onnx')
        use_file = case[-1] % 2 == 0
        if use_file:
            onnx.save(m, src)
            before = open(src, 'rb').read()
        keep = m.SerializeToString(deterministic=True)
        with quiet():
            tm = onnx_tool.Model(src if use_file else m)
            dst = os.path.join(d, 'b.onnx')
            shape_only, no_shape = mode == 1 and case[0] != 'exotic', mode == 2
            if case[0] == 'model' and case[2] % 3 == 0:
                tm.graph.shape_infer({k: v.copy() for k, v in feeds[0].items()})
                inferred = True
            if inferred and case[2] // 12 % 2:
                # the same through the function which infers, profiles and saves
                mon.event('saved_by_model_profile')
                onnx_tool.model_profile(src if use_file else m, {k: v.copy() for k, v in feeds[0].items()}, mcfg={'verbose': False}, save_profile=os.path.join(d, 'p.txt'),
                                        save_model=dst, shape_only=shape_only, no_shape=no_shape)
            else:
                tm.save_model(dst, shape_only=shape_only, no_shape=no_shape)
        if not os.path.exists(dst):
            mon.violation(f'nofile:{case[0]}', f'nothing saved {case}')
            return
        n = onnx.load(dst)
    mon.event('saved_files')
    asgiven = n
    if inferred and case[2] // 12 % 2:
        # that function lists the nodes in an execution order (P13), so they are matched by what they produce
        pos = {tuple(x.output): j for j, x in enumerate(m.graph.node)}
        asgiven = onnx.ModelProto()
        asgiven.CopyFrom(n)
        nodes = sorted(n.graph.node, key=lambda x: pos.get(tuple(x.output), len(pos)))
        del asgiven.graph.node[:]
        asgiven.graph.node.extend(nodes)
    compare(case, mon, m, asgiven, shape_only, no_shape, inferred, feeds, tm)
    if m.SerializeToString(deterministic=True) != keep:
        # a saved copy must be compared with the model as given
        mon.violation('caller-model', f'the model object handed in was changed {case}')
    if runnable and not shape_only:
        for f in feeds[:1] if inferred else feeds:
            try:
                a = reference(m, f)
            except Exception as e:
                mon.event('not_executable_by_reference')
                break
            try:
                b = reference(n, f)
            except Exception as e:
                mon.violation(f'saved-not-executable:{case[0]}', f'{type(e).__name__} {e} {case}')
                break
            rnd = any(x.op_type.startswith('Random') for x in m.graph.node)
            for o, p, q in zip(m.graph.output, a, b):
                pairs = list(zip(p, q)) if isinstance(p, list) else [(p, q)]
                if isinstance(p, list) and len(p) != len(q) or not rnd and not all(samerun(*t) for t in pairs):
                    mon.violation(f'function:{case[0]}', f'output {o.name} differs after save {case}')
            mon.event('executions_compared')
    sig = tuple((x.op_type, tuple(a.name for a in x.attribute)) for x in m.graph.node)
    mon.distinct((sig, mode))
    mon.sample({'case': str(case), 'ops': [x.op_type for x in m.graph.node][:20], 'mode': ['plain', 'shape_only', 'no_shape', 'plain'][mode]})


def compare(case, mon, m, n, shape_only, no_shape, inferred, feeds, tm):
    try:
        onnx.checker.check_model(n)
    except Exception as e:
        try:
            onnx.checker.check_model(m)
        except Exception:
            e = None
        if e is not None and not shape_only:
            mon.violation(f'invalid:{str(e).splitlines()[0][:60]}', f'{e} {case}')
    if len(m.graph.node) != len(n.graph.node):
        mon.violation('node-count', f'{[x.op_type for x in m.graph.node]} -> {[x.op_type for x in n.graph.node]} {case}')
        return
    for x, y in zip(m.graph.node, n.graph.node):
        y2 = onnx.NodeProto()
        y2.CopyFrom(y)
        if not x.name:
            y2.name = ''
        df = mc.node_diff(x, y2)
        mon.event('nodes_compared')
        if df:
            mon.violation(f'node-{df[0]}' if df[0] in ('inputs', 'outputs', 'name', 'domain', 'op_type') else f'{df[0]}:{x.op_type}', f'{x.op_type}: {df[1]} {case}')
    if mc.opsets(m) != mc.opsets(n):
        mon.violation('opsets', f'{mc.opsets(m)} -> {mc.opsets(n)} {case}')
    if m.ir_version != n.ir_version:
        mon.violation('ir_version', f'{m.ir_version} -> {n.ir_version}')
    if sorted(f.SerializeToString() for f in m.functions) != sorted(f.SerializeToString() for f in n.functions):
        mon.violation('functions', f'{[f.name for f in m.functions]} -> {[f.name for f in n.functions]} {case}')
    mon.event('functions_compared', len(m.functions))
    used = mc.used_names(m)
    wi, wo = mc.inits(m.graph), mc.inits(n.graph)
    if shape_only:
        if wo:
            mon.violation('shape_only-weights', f'{list(wo)} kept {case}')
    else:
        for k, v in wi.items():
            if k in used:
                mon.event('weights_compared')
                if k not in wo:
                    mon.violation('weight-lost', f'{k} {case}')
                elif wo[k] != v:
                    mon.violation('weight-changed', f'{k} {v[:2]} -> {wo[k][:2]} {case}')
        extra = set(wo) - set(wi)
        if extra:
            mon.violation('weight-invented', f'{extra} {case}')
    ia, ib = [mc.vkey(v) for v in mc.real_inputs(m.graph)], [mc.vkey(v) for v in mc.real_inputs(n.graph)]
    if shape_only:
        for v in ib:
            if v[0] in wi and (v[1] != wi[v[0]][0] or (v[2] or ()) != wi[v[0]][1]):
                mon.violation('shape_only-decl', f'{v} {wi[v[0]][:2]} {case}')
        ib = [v for v in ib if v[0] not in wi]
    oa, ob = [mc.vkey(v) for v in m.graph.output], [mc.vkey(v) for v in n.graph.output]
    for lab, a, b in (('input', ia, ib), ('output', oa, ob)):
        if [v[0] for v in a] != [v[0] for v in b]:
            lost = [v[0] for v in a if v[0] not in [w[0] for w in b]]
            new = [v[0] for v in b if v[0] not in [w[0] for w in a]]
            mon.violation(f'{lab}-' + ('lost' if lost else 'invented' if new else 'order'), f'{[v[0] for v in a]} -> {[v[0] for v in b]} {case}')
            continue
        full = {v.name: v for v in [*n.graph.input, *n.graph.output]}
        for v in (mc.real_inputs(m.graph) if lab == 'input' else m.graph.output):
            if v.type.WhichOneof('value') != 'tensor_type' and case[0] == 'exotic':
                mon.event('entries_which_are_no_tensors')
                if full[v.name].type != v.type:
                    mon.violation(f'{lab}-type', f'{v} -> {full[v.name]} {case}')
        for v, w in zip(a, b):
            mon.event('io_entries_compared')
            if v[1] != w[1] and v[1] and case[0] != 'op' and not (inferred and lab == 'output'):
                mon.violation(f'{lab}-type', f'{v} -> {w} {case}')
            if case[0] == 'op' and lab == 'output':
                continue        # generated without declared output shapes
            if not inferred and v[2] != w[2]:
                mon.violation(f'{lab}-dims', f'{v} -> {w} {case}')
    if no_shape and len(n.graph.value_info):
        mon.violation('no_shape-shapes', f'{len(n.graph.value_info)} kept {case}')
    if not no_shape and not inferred:
        have = {v.name: mc.vkey(v) for v in n.graph.value_info}
        for v in m.graph.value_info:
            mon.event('value_infos_compared')
            k = mc.vkey(v)
            if k[0] not in have:
                mon.violation('value_info-lost', f'{k} {case}')
            elif have[k[0]] != k:
                mon.violation('value_info-changed', f'{k} -> {have[k[0]]} {case}')
    if inferred and not no_shape:
        try:
            ref = mg.execute(m, feeds[0])
        except Exception:
            return
        for v in list(n.graph.value_info) + list(n.graph.output):
            if v.name in ref:
                k = mc.vkey(v)
                mon.event('saved_shapes_compared')
                if k[2] is not None and tuple(k[2]) != ref[v.name].shape or (k[2] is None and ref[v.name].shape != ()):
                    mon.violation('saved-shape', f'{k} executed {ref[v.name].shape} {case}')
                if k[1] != helper.np_dtype_to_tensor_dtype(ref[v.name].dtype):
                    mon.violation('saved-type', f'{k} executed {ref[v.name].dtype} {case}')
        have = {v.name for v in n.graph.value_info} | {v.name for v in n.graph.output}
        for k in ref:
            if k not in have:
                mon.violation('saved-shape-missing', f'{k} {case}')
