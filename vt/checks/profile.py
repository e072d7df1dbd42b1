"""P09, P10: memory, totals, parameters and the printed report of a profile."""
import csv, io, math, os
import numpy as np
from onnx import helper, numpy_helper
from vt import modelgen as mg, profmodels as pm, bigmodels as bm
from vt.core import rng_for, quiet, scratch

PROP = None
RULE = ''
BUDGET = {'quick': 90, 'thorough': 700}
ASSUMPTIONS = ['rank-0 tensors may count as no element or as one element, consistently within a node',
               'a node consuming a static tensor which other nodes compute from constants (without folding) is not judged',
               'a Gather of a weight touches one slice of it per index']
MIN_EVENTS = {}


def for_prop(p):
    global PROP, RULE, MIN_EVENTS
    PROP = p
    common = ('random models with shared, repeated, Constant-node, sparse and input-overridable weights of several element types (vt/profmodels.py) and the random '
              'whole models of vt/modelgen.py, loaded with and without folding, profiled with random excluded operators; ')
    if p == 'P09':
        RULE = common + 'each node\'s memory is compared with the bytes of its executed outputs and stored weights, totals with sums, and every figure of the console, ' \
                        'text and CSV report is parsed back and compared; non-trivial when the model has weights and more than one element type or an exclusion'
        MIN_EVENTS = {'node_memory_compared': 2000, 'report_figures_compared': 5000}
    else:
        RULE = common + 'node parameters, their sum and the de-duplicated total are compared with counts over the file; non-trivial when a weight is shared'
        MIN_EVENTS = {'node_params_compared': 2000, 'models_with_shared_weight': 50}


def cases(tier, seed):
    n = 9000 if tier == 'quick' else 90000
    for i in range(n):
        yield ('prof', seed, i)
        if i % 3 == 0:
            yield ('graph', seed, i)
        if i % 8 == 0:
            yield ('big', seed, i)


def vol(s, scalar):
    return scalar if len(s) == 0 else math.prod(s)


def run(case, mon):
    import onnx_tool
    kind, seed, i = case
    rng = rng_for('P09', kind, seed, i)
    if kind == 'prof':
        m, feeds, q = pm.make(rng, names='odd' if i % 3 == 0 else 'plain', bf16=True)
        dm = pm.dense(m, q)
    elif kind == 'big':
        m, big = bm.make(rng)
        dm, feeds = m, {}
    else:
        g = mg.generate(rng, assign=1)
        m = dm = g.model()
        feeds = g.feeds(0)
    try:
        ref = mg.execute(dm, feeds) if kind != 'big' else bm.arrays(big)
    except Exception as e:
        mon.inconclusive(f'reference cannot execute: {type(e).__name__}')
        return
    # what the file says
    stored = {t.name: numpy_helper.to_array(t) for t in dm.graph.initializer}
    const, derived = {}, set()
    for nd in dm.graph.node:
        if nd.op_type == 'Constant':
            const[nd.output[0]] = ref[nd.output[0]]
        elif all(x in stored or x in const or x in derived or x == '' for x in nd.input):
            derived.update(o for o in nd.output if o)
    fold = i % 2 == 1
    static = {**stored, **const}
    array = {**ref, **static, **feeds}
    byname = {}
    for nd in dm.graph.node:
        byname.setdefault(nd.name, nd)
    if any(a.size == 0 for a in array.values()):
        mon.inconclusive('empty tensor')
        return
    with quiet():
        tm = onnx_tool.Model(m, {'constant_folding': fold})
        tg = tm.graph
        tg.graph_reorder_nodes()
        tg.shape_infer({k: v.copy() for k, v in feeds.items()} if kind != 'big' else None)
    if fold:
        # static are the results of the nodes which folding has removed
        kept = {o for n in tg.nodemap.values() for o in n.output}
        static.update({k: ref[k] for k in derived if k not in kept})
        derived &= kept
    for nd in dm.graph.node:
        for o in nd.output:
            if o in tg.tensormap and o and (tuple(tg.tensormap[o].get_shape()) != array[o].shape or np.dtype(tg.tensormap[o].dtype) != array[o].dtype):
                mon.inconclusive('shapes or types differ (P02, P03)')
                return
    ops = sorted({n.op_type for n in tg.nodemap.values()})
    excl = None
    if rng.random() < .5 and ops:
        excl = {str(o) for o in rng.permutation(ops)[:int(rng.integers(1, 3))]}
        excl = [None, set, list, tuple][int(rng.integers(1, 4))](excl)
    # a profile must not depend on what was profiled before
    if rng.random() < .3:
        with quiet():
            tg.profile(exclude_ops={ops[0]} if rng.random() < .5 and ops else None)
    with quiet():
        tg.profile(exclude_ops=excl)
    if not tg.valid_profile:
        mon.violation('no-profile', f'profile of {ops} is not valid')
        return
    covered = [k for k, n in tg.nodemap.items() if not excl or n.op_type not in excl]
    ambiguous = False
    uses = {}
    for k in tg.nodemap:
        nd = byname.get(k)
        if nd is None:
            mon.inconclusive('renamed nodes')
            return
        for x in nd.input:
            if x in static:
                uses[x] = uses.get(x, 0) + 1
        if any(x in derived for x in nd.input):
            ambiguous = True
            continue
        if k not in covered:
            continue
        tn = tg.nodemap[k]
        sins = [array[x] for x in nd.input if x in static]
        if PROP == 'P10':
            mon.event('node_params_compared')
            want = [sum(vol(a.shape, s) for a in sins) for s in (0, 1)]
            if tn.params not in want:
                mon.violation(f'node-params:{nd.op_type}', f'{k} ({nd.op_type}): params {tn.params}, weights {[(x, array[x].shape) for x in nd.input if x in static]}; fold={fold}')
        else:
            mon.event('node_memory_compared')
            outs = [array[o] for o in nd.output if o]
            if nd.op_type == 'Gather':
                w = sum(a.itemsize * vol(outs[0].shape, 0) for a in [array[nd.input[0]]] if nd.input[0] in static)
                w1 = sum(a.itemsize * vol(outs[0].shape, 1) for a in [array[nd.input[0]]] if nd.input[0] in static)
                if nd.input[1] in static:
                    w += vol(array[nd.input[1]].shape, 0) * 8 * (array[nd.input[1]].itemsize // 8 or .5)
                    w1 += array[nd.input[1]].nbytes
                ws = (w, w1)
            else:
                ws = [sum(vol(a.shape, s) * a.itemsize for a in sins) for s in (0, 1)]
            want = [sum(vol(a.shape, s) * a.itemsize for a in outs) + ws[s] for s in (0, 1)]
            if tn.memory not in want:
                mon.violation(f'node-memory:{nd.op_type}', f'{k} ({nd.op_type}): memory {tn.memory}, outputs {[(a.dtype.name, a.shape) for a in outs]} weights {[(a.dtype.name, a.shape) for a in sins]} want {want}')
    shared = any(c > 1 for c in uses.values())
    if shared:
        mon.event('models_with_shared_weight')
    if PROP == 'P10':
        got = sum(tg.nodemap[k].params for k in covered)
        if tg.params != got:
            mon.violation('params-total', f'total {tg.params} is not the sum {got}; excluded {excl}')
        if not ambiguous:
            mon.event('dedup_compared')
            want = [sum(vol(array[x].shape, s) for x in uses) for s in (0, 1)]
            if tg.dedup_params not in want:
                mon.violation('dedup', f'dedup {tg.dedup_params}, distinct weights used {[(x, array[x].shape, n) for x, n in uses.items()]} = {want}; fold={fold}; constants {list(const)}')
        if shared:
            mon.distinct((tuple(n.op_type for n in dm.graph.node), tuple(sorted(uses.values())), fold, str(excl)))
            mon.sample({'ops': ops, 'uses': uses, 'params': int(tg.params), 'dedup': int(tg.dedup_params)})
        return
    for what, total in (('macs', tg.macs[0]), ('memory', tg.memory), ('params', tg.params)):
        s = sum(getattr(tg.nodemap[k], what) for k in covered)
        mon.event('totals_compared')
        if kind == 'big' and what == 'macs' and abs(int(total) - s) <= s * 1e-12:
            continue        # (a float)
        if s != total:
            mon.violation(f'total:{what}', f'model total {total}, sum over covered nodes {s}; excluded {excl}')
    report(mon, tg, covered, excl, rng, i)
    if len(static) and (excl or len({a.dtype for a in array.values()}) > 1):
        mon.distinct((tuple(n.op_type for n in dm.graph.node), str(excl), fold, tuple(a.shape for a in array.values())))
        mon.sample({'ops': ops, 'excluded': sorted(excl) if excl else None, 'memory': float(tg.memory), 'covered': len(covered)})





def parse_text(text):
    lines = text.rstrip('\n').split('\n')
    k = next(j for j, l in enumerate(lines) if l and set(l) <= {'-', ' '})
    spans, pos = [], 0
    for part in lines[k].split('  '):
        spans.append((pos, pos + len(part)))
        pos += len(part) + 2
    spans[-1] = (spans[-1][0], None)

    def cut(l):
        return [l[a:b].strip() for a, b in spans]
    return cut(lines[k - 1]), [cut(l) for l in lines[k + 1:]]


def report(mon, tg, covered, excl, rng, i):
    metric = 'FLOPs' if rng.random() < .3 else 'MACs'
    form = ['csv', 'txt', 'console'][i % 3]
    with scratch() as d, quiet() as buf:
        if form == 'console':
            tg.print_node_map(None, metric=metric, exclude_ops=excl)
            text = buf.getvalue()
        else:
            f = os.path.join(d, 'p.' + form)
            tg.print_node_map(f, metric=metric, exclude_ops=excl)
            text = open(f, newline='').read()
    if form == 'csv':
        rows = list(csv.reader(io.StringIO(text)))
        header, rows = rows[0], rows[1:]
    else:
        if 'Weight Tensors Sharing' in text:
            text = text[text.rindex('*' * 64) + 64:]
        header, rows = parse_text(text)
    names = [r[0] for r in rows]
    end = names.index('Total') if 'Total' in names else None
    if end is None:
        mon.violation('report:total', f'no Total row in the {form} report')
        return
    if [n for n in names[:end]] != [k.strip() if form != 'csv' else k for k in covered]:
        mon.violation('report:rows', f'{form} report lists {names[:end]}, profiled nodes are {covered}')
        return
    col = {h: j for j, h in enumerate(header)}
    fac = 2 if metric == 'FLOPs' else 1
    num = lambda s: float(s.replace(',', '')) if '.' in s or 'e' in s else int(s.replace(',', ''))

    def figure(row, h, want, what):
        mon.event('report_figures_compared')
        if form == 'csv' and not row[col[h]].replace('.', '', 1).isdigit():
            mon.violation(f'report:{h}:plain', f'CSV report {what}: {h} = {row[col[h]]!r} is no plain number')
            return
        got = num(row[col[h]])
        if got != want:
            mon.violation(f'report:{h}', f'{form} report {what}: {h} {got}, profile has {want}')

    def percent(row, h, part, total, what):
        mon.event('report_figures_compared')
        s = row[col[h]]
        if not s.endswith('%'):
            mon.violation(f'report:{h}', f'{form} report {what}: {h} = {s!r}')
            return
        want = 100 * part / total if total else 0
        if abs(float(s[:-1]) - want) > 0.0051:
            mon.violation(f'report:{h}', f'{form} report {what}: {h} {s}, profile has {want}')
    need = ['Name', 'Type', 'Forward_' + metric, 'FPercent', 'Memory', 'MPercent', 'Params', 'PPercent', 'InShape', 'OutShape']
    if any(h not in col for h in need):
        mon.violation('report:columns', f'{form} report has columns {header}')
        return
    for r, k in zip(rows, covered):
        n = tg.nodemap[k]
        if r[col['Type']] != n.op_type:
            mon.violation('report:Type', f'{form}: {k} listed as {r[col["Type"]]}')
        figure(r, 'Forward_' + metric, int(n.macs) * fac, k)
        figure(r, 'Memory', int(n.memory), k)
        figure(r, 'Params', int(n.params), k)
        percent(r, 'FPercent', n.macs, tg.macs[0], k)
        percent(r, 'MPercent', n.memory, tg.memory, k)
        percent(r, 'PPercent', n.params, tg.params, k)
        for h, name in (('InShape', (list(n.input) or [''])[0]), ('OutShape', (list(n.output) or [''])[0])):
            mon.event('report_figures_compared')
            s = tg.tensormap[name].get_shape() if name else []
            want = 'x'.join(str(v) for v in s) or '0'
            if r[col[h]] != want:
                mon.violation(f'report:{h}', f'{form} report {k}: {h} {r[col[h]]}, tensor {name} has {s}')
    tot = rows[end]
    figure(tot, 'Forward_' + metric, int(round(tg.macs[0])) * fac, 'Total')
    figure(tot, 'Memory', int(tg.memory), 'Total')
    figure(tot, 'Params', int(tg.params), 'Total')
    extra = rows[end + 1:]
    if tg.dedup_params != tg.params:
        if len(extra) != 1 or extra[0][0] != 'Dedup_Params':
            mon.violation('report:dedup', f'no Dedup_Params row although {tg.dedup_params} != {tg.params}')
        else:
            figure(extra[0], 'Params', int(tg.dedup_params), 'Dedup_Params')
    elif extra:
        mon.violation('report:extra', f'rows after Total: {extra}')
