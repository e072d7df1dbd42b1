"""P24: exported tensors, edited interfaces."""
import os, warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from vt import modelgen as mg, modelcmp as mc
from vt.core import rng_for, quiet, scratch
from vt.checks import saveload, weights as W

PROP = 'P24'
RULE = ('export: models with weights of every numpy element type, typed or raw, as initializers, named with slashes, blanks, dots and near-colliding names, all of them, named subsets, missing and repeated names, '
        'with and without fp16, into new, nested, existing or no folder: every file read back with numpy.load and matched one to one with the weights; '
        'io: random models, random dimensions of random inputs and outputs set to sizes or names, the saved file compared entry by entry with the same model edited by hand, wrong ranks must be refused without a file; '
        'dump: tensors added as outputs, values of old and new outputs compared; non-trivial: at least two weights / at least one entry edited')
MIN_EVENTS = {'files_compared': 3000, 'io_edits': 500, 'entries_edited': 700, 'refusals': 50, 'dumped_tensors': 500, 'folders_listed': 800}
BUDGET = {'quick': 150, 'thorough': 750}
ASSUMPTIONS = ['element types which numpy files cannot name (strings, bfloat16, float8, int4) are not exported here']

TYPES = [t for t in W.TYPES]


def cases(tier, seed):
    n = 6000 if tier == 'quick' else 30000
    for i in range(n):
        yield ('export', seed, i)
        yield ('io', seed, i)
        if i % 2:
            yield ('dump', seed, i)


STEMS = ['w', 'a/b', 'a_b', 'a\\b', '/lead', 'dir/sub/w', 'a.b', 'w.npy', 'x y', 'a_b_', 'w_', 'ünï', 'layer.0/weight', '..', '.', 'a:b', 'W', "it's", 'a//b', 'a__b', '0', '-o', '~', '*?']


def clean(name):
    return name.replace('/', '_').replace('\\', '_')


def export(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P24', seed, i, kind)
    names = [STEMS[int(j)] for j in rng.permutation(len(STEMS))[:int(rng.integers(1, 9))]]
    arrs, inits, nodes = {}, [], []
    cur = 'x'
    for j, nm in enumerate(names):
        t = TYPES[int(rng.integers(len(TYPES)))]
        a = W.values(rng, t)
        arrs[nm] = a
        inits.append(W.typed_proto(a, nm, t) if rng.random() < .5 else W.raw_proto(a, nm, t))
        nodes.append(helper.make_node('Blackbox', [cur, nm], [f'y{j}'], f'b{j}', domain='acme'))
        cur = f'y{j}'
    m = W.model_with(inits, nodes, [cur])
    for v in m.graph.initializer:
        if v.name in arrs and rng.random() < .2:
            m.graph.input.append(helper.make_tensor_value_info(v.name, v.data_type, list(v.dims)))
    keep = m.SerializeToString(deterministic=True)
    fp16 = bool(rng.random() < .3)
    asked = None
    r = rng.random()
    if r < .45:
        asked = [names[int(j)] for j in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
        if rng.random() < .3:
            asked.insert(int(rng.integers(len(asked) + 1)), 'no such tensor')
        if rng.random() < .15:
            asked.append(asked[0])
    folder = [None, 'out', 'out/deep/er', '.', 'exists'][int(rng.integers(5))]
    cwd = os.getcwd()
    with quiet(), scratch() as d:
        os.makedirs(os.path.join(d, 'cwd', 'exists'))
        os.chdir(os.path.join(d, 'cwd'))
        try:
            src = m
            if rng.random() < .5:
                src = os.path.join(d, 'm.onnx')
                onnx.save(m, src)
            fld = os.path.join(d, 'cwd', folder) if folder and rng.random() < .5 else folder
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                onnx_tool.model_export_tensors_numpy(src, tensornames=None if asked is None else list(asked), savefolder=fld, fp16=fp16)
            told = any('no such tensor' in str(w.message) for w in rec)
        finally:
            os.chdir(cwd)
        target = os.path.normpath(os.path.join(d, 'cwd', folder or '.'))
        found, stray = {}, []
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                if root == target and f.endswith('.npy'):
                    found[f] = np.load(p)
                elif f != 'm.onnx':
                    stray.append(os.path.relpath(p, d))
    mon.event('folders_listed')
    if stray:
        mon.violation('stray', f'files {stray} written outside the folder {folder}')
    if m.SerializeToString(deterministic=True) != keep:
        mon.violation('caller', 'the model passed in was changed')
    if asked is not None and 'no such tensor' in asked and not told:
        mon.violation('missing name', 'an unknown tensor name was ignored without a word')
    want = [n for n in dict.fromkeys(names if asked is None else asked) if n in arrs]
    if len(found) != len(want):
        mon.violation('files', f'{len(want)} weights {want} exported to {sorted(found)}')
        return
    left = dict(found)
    # exact names first, so that near-equal names are matched with their own file
    for n in sorted(want, key=lambda n: -len(clean(n))):
        a = arrs[n]
        if fp16 and a.dtype in (np.float32, np.float64):
            with np.errstate(all='ignore'):
                a = a.astype(np.float16)
        ok = None
        for f in left:
            base = f[:-len('.npy')]
            if base.rstrip('_') == clean(n).rstrip('_') and W.same(left[f], a, True):
                ok = f
                if base == clean(n):
                    break
        if ok is None:
            f = [x for x in left if x[:-4].rstrip('_') == clean(n).rstrip('_')]
            mon.violation('exported', f'weight {n} {a.dtype}{a.shape} fp16={fp16}: ' + (f'file {f[0]} holds {left[f[0]].dtype}{left[f[0]].shape} or other values' if f else f'no file in {sorted(left)}'))
            return
        del left[ok]
        mon.event('files_compared')
    if len(want) > 1:
        mon.distinct((kind, tuple(want), str([arrs[n].dtype for n in want]), fp16))
    mon.sample({'case': str(case), 'files': sorted(found)[:6], 'fp16': fp16})


def randspec(rng, dims):
    out = []
    for v in dims:
        r = rng.random()
        if r < .3 and v is not None and str(v) and 'x' not in str(v):
            out.append(str(v))
        elif r < .65:
            out.append(str(int([1, 2, 3, 7, 16, 224, 1000000, 0][int(rng.integers(8))])))
        else:
            out.append(['N', 'batch', 'h', 'width', 'seq_len', 'C1', 'dim.0', 'a b', 'N'][int(rng.integers(9))])
    return out


def io(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P24', seed, i, kind)
    g = mg.generate(rng, assign=1, nodes=(2, 9), unnamed=i % 5 == 1, value_info=i % 3 == 0, double=True)
    m = g.model()
    inits = {t.name for t in m.graph.initializer}
    both = {v.name for v in m.graph.input} & {v.name for v in m.graph.output}
    for v in list(m.graph.input) + list(m.graph.output):
        for dd in v.type.tensor_type.shape.dim:
            if rng.random() < .1 and v.name not in both and v.name not in inits:
                dd.Clear()
    entries = [v for v in list(m.graph.input) + list(m.graph.output) if v.name not in inits and v.name not in both and v.type.tensor_type.HasField('shape')]
    if not entries:
        return
    # a tensor which is listed in value_info too would be described twice
    chosen = [entries[int(j)] for j in rng.permutation(len(entries))[:int(rng.integers(1, min(4, len(entries)) + 1))]]
    want = onnx.ModelProto()
    want.CopyFrom(m)
    spec, edited = {}, 0
    dims_of = lambda v: [dd.dim_param if dd.HasField('dim_param') else dd.dim_value if dd.HasField('dim_value') else None for dd in v.type.tensor_type.shape.dim]
    chosen = [v for v in chosen if len(dims_of(v))]
    if not chosen:
        return
    for v in chosen:
        s = randspec(rng, dims_of(v))
        if rng.random() < .5 and len(chosen) > 1 and not edited:
            pass
        spec[v.name] = 'x'.join(s)
        for lst in (want.graph.input, want.graph.output):
            for w in lst:
                if w.name == v.name:
                    for dd, x in zip(w.type.tensor_type.shape.dim, s):
                        if x.isdigit():
                            dd.dim_value = int(x)
                        else:
                            dd.dim_param = x
        edited += 1
    refuse = rng.random() < .12
    if refuse:
        v = chosen[int(rng.integers(len(chosen)))]
        spec[v.name] += 'x3'
    if rng.random() < .05:
        spec = {} if not refuse else spec
        if not refuse:
            want.CopyFrom(m)
    keep = m.SerializeToString(deterministic=True)
    given = dict(spec)
    with quiet(), scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        src = m
        if i % 2:
            src = os.path.join(d, 'm.onnx')
            onnx.save(m, src)
            raw = open(src, 'rb').read()
        dst = os.path.join(d, 'out.onnx')
        try:
            onnx_tool.model_io_modify(src, dst, spec)
            failed = None
        except Exception as e:
            failed = e
        n = onnx.load(dst) if os.path.exists(dst) else None
        if i % 2 and open(src, 'rb').read() != raw:
            mon.violation('caller', 'the source file was changed')
    if m.SerializeToString(deterministic=True) != keep or spec != given:
        mon.violation('caller', 'the arguments passed in were changed')
    if refuse:
        mon.event('refusals')
        if failed is None or n is not None:
            mon.violation('refusal', f'an edit with a wrong number of dimensions was accepted: {spec} raised {failed!r}, file {n is not None}')
        return
    if failed is not None or n is None:
        mon.violation('edit fails', f'{spec}: {failed!r}, file {n is not None}')
        return
    mon.event('io_edits')
    mon.event('entries_edited', len(spec))
    saveload.compare(('io', seed, i), mon, want, n, False, False, False, [], None)
    mon.distinct((kind, tuple(sorted(spec.items()))))
    mon.sample({'case': str(case), 'spec': spec})


def dump(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P24', seed, i, kind)
    g = mg.generate(rng, assign=1, nodes=(2, 9))
    m = g.model()
    if any(n.op_type.startswith('Random') for n in m.graph.node):
        return
    feeds = g.feeds(0)
    try:
        vals = mg.execute(m, feeds)
    except Exception:
        mon.event('not_executable_by_reference')
        return
    prod = [o for n in m.graph.node for o in n.output if o]
    outs = [o.name for o in m.graph.output]
    ask = [prod[int(j)] for j in rng.permutation(len(prod))[:int(rng.integers(1, 4))]]
    if rng.random() < .3:
        ask.append(outs[0])
    rest = [t.name for t in m.graph.initializer] + [t.name for t in m.graph.input]
    used = {t for n in m.graph.node for t in n.input}
    rest = [t for t in dict.fromkeys(rest) if t in used]
    if rest and rng.random() < .4:        # an input or a weight
        ask.insert(int(rng.integers(len(ask) + 1)), rest[int(rng.integers(len(rest)))])
        prod = prod + rest
        vals = {**{t.name: numpy_helper.to_array(t) for t in m.graph.initializer}, **feeds, **vals}
    if rng.random() < .2:
        ask.append('no such tensor')
    with quiet(), scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tm = onnx_tool.Model(m)
        if i % 3 == 0:
            tm.graph.shape_infer({k: v.copy() for k, v in feeds.items()})
        tm.graph.add_dump_tensors(list(ask))
        dst = os.path.join(d, 'o.onnx')
        tm.save_model(dst)
        n = onnx.load(dst)
    want = outs + [t for t in dict.fromkeys(ask) if t in prod and t not in outs]
    have = [o.name for o in n.graph.output]
    if have != want:
        mon.violation('dumped outputs', f'outputs {have}, expected {want}')
        return
    if len(n.graph.node) != len(m.graph.node):
        mon.violation('dumped nodes', f'{len(m.graph.node)} nodes -> {len(n.graph.node)}')
        return
    try:
        got = dict(zip(have, saveload.reference(n, feeds)))
    except Exception as e:
        mon.violation('dumped model', f'{e!r}')
        return
    for t in want:
        if t not in vals:
            continue
        mon.event('dumped_tensors')
        if not saveload.samerun(got[t], vals[t]):
            mon.violation('dumped value', f'{t} of {case}')
            return
    mon.distinct((kind, str([x.op_type for x in m.graph.node]), tuple(ask)))


def run(case, mon):
    {'export': export, 'io': io, 'dump': dump}[case[0]](case, mon)
