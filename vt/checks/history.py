"""P28: results depend on the model, configuration and inputs given, not on what the process or the object did before.

Every query of a random history is answered twice: in the history (one process, long-lived objects) and by a fresh object in a process
which did nothing else.  Some cases repeat the history in new interpreters with other hash seeds."""
import io
import json
import os
import pickle
import signal
import subprocess
import sys
import warnings
import contextlib
import numpy as np
from vt import modelgen as mg, profmodels as pm, hostgraph as hg, oracle
from vt.core import rng_for, scratch, VERIF, REPO

PROP = 'P28'
RULE = ('random histories of 6-16 steps over long-lived graphs of random models (shape inference, value inference, profiling with exclusions and its report, memory plans, '
        'saving and shape regression at changing input sizes, failing inferences between them), API calls (profile, folding, reordering, quantizing, fusing, serializing) and '
        'language-model builders (building, caches, profiling with several settings and devices); each answer is compared with the one a fresh object gives in a forked '
        'process which did nothing else; plus new interpreters with other hash seeds; non-trivial when a query follows another of its object; distinct by steps and models')
ASSUMPTIONS = ['values computed by the host numpy may differ in rounding with the memory layout of the operands (oracle.samerun)']
MIN_EVENTS = {'answers_compared': 2000, 'repeated_on_one_object': 1000, 'sizes_changed': 300, 'after_a_failure': 80, 'builder_answers': 300, 'hash_seed_answers': 60}
BUDGET = {'quick': 200, 'thorough': 800}


def cases(tier, seed):
    n = 320 if tier == 'quick' else 9000
    for i in range(n):
        yield ('graphs', seed, i)
        if i % 2 == 0:
            yield ('builders', seed, i)
        if i % 32 == 0:
            yield ('hash', seed, i)


# ---------------------------------------------------------------- processes

def forked(f, *args):
    """result of f(*args) in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(100)
            try:
                out = pickle.dumps(('ok', f(*args)))
            except BaseException as e:
                import traceback
                out = pickle.dumps(('failed', traceback.format_exc(limit=-4)))
            with os.fdopen(w, 'wb') as p:
                p.write(out)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as p:
            data = p.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('no answer')
    kind, val = pickle.loads(data)
    if kind == 'failed':
        raise RuntimeError(val)
    return val


# ---------------------------------------------------------------- what the queries run on

class World:
    """models of a case; deterministic in the case"""

    def __init__(self, case):
        rng = rng_for('P28', *case)
        self.kind = case[0]
        self.models = []
        if self.kind == 'builders':
            return self.builders(rng)
        for k in range(3):
            r = rng.random()
            if k == 0 or r < .5:
                opt = dict(dynamic=False) if rng.random() < .15 else {}
                if rng.random() < .3:
                    opt['templ'] = [t for t in mg.Gen.TEMPL if t.startswith('dyn')] * 2 + ['conv', 'matmul', 'reshape', 'binary', 'concat', 'transpose']
                g = mg.generate(rng, assign=4, **opt)
                m, feeds = g.model(), [g.feeds(a) for a in range(g.k)]
                syms = bool(g.syms)
                desc = {n: [int(d) if not isinstance(d, str) else d for d in dims] for n, _, dims in g.inputs} if syms else None
                rg = {s: (min(v), max(v)) for s, v in g.syms.items()} if syms else None
            elif r < .85:
                m, feeds, _ = pm.make(rng)
                feeds, desc, rg = [feeds], None, None
            else:
                h = hg.host(rng)
                m = hg.model(h)
                feeds, desc, rg = [None], None, None
            self.models.append((m, feeds, desc, rg, {'constant_folding': bool(rng.random() < .4), 'node_rename': bool(rng.random() < .1)}))
        self.queries = []
        n = int(rng.integers(6, 17))
        while len(self.queries) < n:
            self.queries.append(self.query(rng))

    def query(self, rng):
        c = lambda s: s[int(rng.integers(len(s)))]
        k = 0 if rng.random() < .55 else int(rng.integers(len(self.models)))
        m, feeds, desc, rg, cfg = self.models[k]
        a = int(rng.integers(len(feeds)))
        ops = sorted({n.op_type for n in m.graph.node})
        excl = [c(ops) for _ in range(int(rng.integers(0, 3)))]
        kind = c(['infer'] * 3 + ['profile'] * 4 + ['plan'] * 3 + ['value'] * 2 + ['save'] * 2 + ['bad'] * 2 + ['compute', 'regress', 'regress', 'api_profile', 'api_profile',
                                                                                                          'fold', 'reorder', 'quant', 'fuse', 'convbn', 'serial', 'part', 'outputs'])
        if feeds[0] is None and kind in ('infer', 'profile', 'plan', 'value', 'save', 'bad', 'api_profile', 'serial', 'outputs', 'compute'):     # operators of no kind
            kind = c(['reorder', 'fuse', 'part', 'fold'])
        if kind == 'regress' and (not rg or k != 0):
            kind = 'infer'
        if kind in ('api_profile',):
            return (kind, k, a, excl if rng.random() < .6 else None, bool(rng.random() < .3), c(['csv', 'txt']))
        if kind == 'profile':
            return (kind, k, a, excl if rng.random() < .4 else None, c(['MACs', 'FLOPs']))
        if kind == 'plan':
            return (kind, k, a, int(c([1, 16, 64, 64, 256])))
        if kind == 'bad':
            return (kind, k, a, int(rng.integers(1 << 30)))
        if kind == 'quant':
            return (kind, k, c(['sym', 'asym']), int(c([4, 8])), int(c([-1, 0, 32])))
        return (kind, k, a)

    def builders(self, rng):
        from vt.checks import llm
        c = lambda s: s[int(rng.integers(len(s)))]
        self.models = []
        for _ in range(3):
            cfg = llm.config(c(llm.ARCHS), rng)
            mode = c(['plain', 'cache', 'text'])
            B, S = int(rng.integers(1, 3)), int(rng.integers(1, 12))
            self.models.append((cfg, B, S, mode == 'cache', int(rng.integers(0, 9)), bool(rng.random() < .5)))
        self.queries = []
        for _ in range(int(rng.integers(5, 13))):
            k = 0 if rng.random() < .5 else int(rng.integers(3))
            kind = c(['build', 'prof', 'prof', 'prof', 'report', 'step', 'named', 'export', 'plan'])
            if kind == 'export' and not self.models[k][5]:      # writing a file puts the nodes in order
                kind = 'plan'
            q = (kind, k)
            if kind in ('prof', 'report'):
                q += (c([None, None, 0, 1, 2]), c([None, 0, 1, 2, 3]))
            if kind == 'step':
                q += (int(rng.integers(0, 20)), int(rng.integers(1, 5)))
            if kind == 'named':
                q += (c(NAMED),)
            self.queries.append(q)


NAMED = ['phi2', 'gpt2', 'gptj_6b', 'Llama3_8B', 'QWen_7B', 'phi3_mini', 'yi_34B', 'Phi_3_small_8k_instruct']
SETTINGS = [{'Compute': {'MM': 'FP16', 'MHA': 'FP16', 'Others': 'FP32'}, 'Bits': {'MM': 4.5, 'MHA': 8, 'Others': 16}},
            {'Compute': {'MM': 'INT8', 'MHA': 'FP16', 'Others': 'FP32'}, 'Bits': {'MM': 8, 'MHA': 16, 'Others': 32}},
            {'Compute': {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}, 'Bits': {'MM': 16, 'MHA': 16, 'Others': 16}}]


def number(x):
    x = float(x)
    return int(x) if x == int(x) else x


def dims(s):
    return tuple(x if isinstance(x, str) else int(x) for x in s)


def arr(a):
    return None if a is None else np.array(a)


def file_of(path):
    import onnx
    from onnx import numpy_helper
    m = onnx.load(path)
    vi = {v.name: (v.type.tensor_type.elem_type, tuple(d.dim_param or d.dim_value for d in v.type.tensor_type.shape.dim) if v.type.tensor_type.HasField('shape') else None)
          for v in list(m.graph.input) + list(m.graph.output) + list(m.graph.value_info)}
    return {'nodes': [(n.name, n.op_type, tuple(n.input), tuple(n.output), sorted(a.SerializeToString() for a in n.attribute)) for n in m.graph.node],
            'info': {n: v for n, v in vi.items() if v[1] not in (None, ())},   # a scalar may be listed without a shape
             'inputs': [v.name for v in m.graph.input], 'outputs': [v.name for v in m.graph.output],
            'weights': {t.name: (t.data_type, tuple(t.dims), t.SerializeToString()) for t in m.graph.initializer}}


def given(feeds):
    return None if feeds is None else {k: v.copy() for k, v in feeds.items()}


def shapes(g):
    return {n: (dims(t.get_shape()), np.dtype(t.dtype).name if t.dtype is not None else None) for n, t in g.tensormap.items()
            if n in g.input or any(n in nd.output for nd in ())} | {o: (dims(g.tensormap[o].get_shape()), np.dtype(g.tensormap[o].dtype).name if g.tensormap[o].dtype is not None else None)
                                                                   for nd in g.nodemap.values() for o in nd.output if o in g.tensormap and o}


def figures(g):
    return {'macs': number(g.macs[0]), 'params': number(g.params), 'memory': number(g.memory), 'dedup': number(g.dedup_params)}


def node_figures(g, names):
    return {n: (number(g.nodemap[n].macs), number(g.nodemap[n].params), number(g.nodemap[n].memory), dims(g.nodemap[n].inshape), dims(g.nodemap[n].outshape)) for n in names}


def report(f, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*args, **kw)
    return buf.getvalue()


class Run:
    """answers queries; keeps the long-lived objects"""

    def __init__(self, world, keep):
        self.w = world
        self.keep = keep
        self.objs = {}

    def obj(self, k):
        import onnx_tool
        if not self.keep:
            self.objs = {}
        if k not in self.objs:
            m, feeds, desc, rg, cfg = self.w.models[k]
            self.objs[k] = onnx_tool.Model(m, dict(cfg))
        return self.objs[k]

    def answer(self, q):
        buf = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                if self.w.kind == 'builders':
                    return ('ok', self.build_answer(q))
                return ('ok', self.graph_answer(q))
            except Exception as e:
                return ('error', type(e).__name__, str(e)[:300])

    def graph_answer(self, q):
        import onnx_tool
        kind, k = q[:2]
        m, feeds, desc, rg, cfg = self.w.models[k]
        if kind in ('infer', 'profile', 'plan', 'value', 'save', 'compute', 'bad', 'outputs'):
            tm = self.obj(k)
            g = tm.graph
            f = given(feeds[q[2]])
            if kind == 'bad':       # a failing inference in between
                rng = rng_for('bad', q[3])
                if f:
                    n = sorted(f)[int(rng.integers(len(f)))]
                    s = [int(x) for x in rng.integers(1, 9, max(1, f[n].ndim + int(rng.integers(-1, 2))))]
                    f[n] = np.ones(s, f[n].dtype)
                try:
                    g.shape_infer(f)
                    if rng.random() < .5:
                        g.profile()
                except Exception:
                    pass
                return None
            if kind == 'value':
                if f is None:
                    return None
                return [arr(x) for x in g.value_infer(f)]
            g.shape_infer(f)
            if kind == 'infer':
                return shapes(g)
            if kind == 'profile':
                g.profile(exclude_ops=q[3])
                names = [n for n in g.nodemap if not q[3] or g.nodemap[n].op_type not in q[3]]
                text = report(g.print_node_map, None, q[4], q[3])
                return {'nodes': node_figures(g, names), 'totals': figures(g), 'report': text}
            if kind == 'plan':
                return g.compress_memory(q[3])
            if kind == 'compute':
                cg = g.get_compute_graph()
                return [(n.name, n.op_type, tuple(n.input), tuple(n.output)) for n in cg.nodemap.values()]
            if kind == 'outputs':
                return {o: arr(g.tensormap[o].numpy) if g.nodemap[g.producedby[o][0]].shape_calc else None for n in g.nodemap.values() for o in n.output if o in g.producedby}
            with scratch() as d:
                p = os.path.join(d, 'm.onnx')
                tm.save_model(p)
                return file_of(p)
        if kind == 'regress':
            g = self.obj(k).graph
            eng = g.shape_regress({n: list(s) for n, s in desc.items()}, dict(rg))
            out = {}
            for j, (lo, hi) in enumerate([(0, 0), (1, 0), (1, 1)]):
                for i, s in enumerate(sorted(rg)):
                    a, b = rg[s]
                    eng.update_variable(s, b if (lo, hi)[i % 2] else a)
                eng.update_variables()
                out[j] = {t: dims(eng.get_tensorshape(t)) for n in g.nodemap.values() for t in n.output if eng.get_tensor_desc(t) is not None}
            return out
        with scratch() as d:
            p = os.path.join(d, 'm.onnx')
            if kind == 'api_profile':
                r = os.path.join(d, 'r.' + q[5])
                ops = {n for n in (q[3] or []) if not n.startswith('Fused')}
                kw = {'hidden_ops': None} if q[4] else {}
                onnx_tool.model_profile(m, given(feeds[q[2]]), exclude_ops=ops or None, save_profile=r, save_model=p, **kw)
                return {'report': open(r).read(), 'file': file_of(p)}
            if kind == 'fold':
                onnx_tool.model_constant_folding(m, p)
                return file_of(p)
            if kind == 'reorder':
                onnx_tool.model_reorder_nodes(m, p)
                return file_of(p)
            tm = onnx_tool.Model(m, dict(cfg))
            g = tm.graph
            if kind == 'quant':
                from onnx_tool.quantization import graph_quantize
                for t in list(g.initials):
                    if g.tensormap[t].numpy is not None and g.tensormap[t].numpy.dtype.kind == 'f' and g.tensormap[t].numpy.ndim:
                        graph_quantize(g, t, q[4], q[2], q[3])
                tm.save_model(p)
                return file_of(p)
            if kind == 'fuse':
                from onnx_tool import fusion
                found = {}
                for name in ('ConvBN', 'Fused_Element', 'Conv_Res', 'layernorm_pattern'):
                    found[name] = fusion.FusionPattern(getattr(fusion, name)).search_pattern(g)
                    for nodes in found[name]:
                        g.fuse_subgraph_node_names(nodes, name, nodes[0], True)
                tm.save_model(p)
                return {'found': {a: [list(x) for x in b] for a, b in found.items()}, 'file': file_of(p)}
            if kind == 'convbn':
                from onnx_tool.fusion import ConvBNFusion
                ConvBNFusion(g)
                tm.save_model(p)
                return file_of(p)
            if kind == 'part':
                names = [n.name for n in m.graph.node]
                onnx_tool.model_subgraph(m, nodenames=names[len(names) // 3:2 * len(names) // 3 + 1], save_folder=d)
                return {f: file_of(os.path.join(d, f)) for f in sorted(os.listdir(d))}
            if kind == 'serial':
                from onnx_tool.serialization import serialize_graph
                g.shape_infer(given(feeds[q[2]]))
                serialize_graph(g.get_compute_graph(), p)
                return open(p, 'rb').read()
        raise AssertionError(kind)

    def builder(self, k):
        from onnx_tool import llm
        if not self.keep:
            self.objs = {}
        if k not in self.objs:
            cfg, B, S, cached, past, order = self.w.models[k]
            b = llm.Builder(**cfg)
            b.build_graph([B, S])
            if cached:
                b.add_kv_cache(S + past + 40, past)
            if order:
                b.graph.graph_reorder_nodes()
            self.objs[k] = b
        return self.objs[k]

    def build_answer(self, q):
        from onnx_tool import llm, model_configs
        from onnx_tool.device import Devices
        kind, k = q[:2]
        cfg, B, S, cached, past, order = self.w.models[k]
        if kind in ('build', 'named'):
            b = llm.Builder(**(cfg if kind == 'build' else getattr(model_configs, q[2])))
            b.build_graph([B, S])
            b.profile()
            g = b.graph
            return {'kv': number(b.kv_params), 'totals': figures(g), 'weights': sorted((n, dims(g.tensormap[n].get_shape())) for n in g.initials), 'llm': b.llm_profile,
                    'attrs': {n: sorted((a, repr(v)) for a, v in nd.attr.items()) for n, nd in g.nodemap.items()} if kind == 'build' else None}
        b = self.builder(k)
        g = b.graph
        if kind == 'step' and not cached:
            kind = 'prof'
            q = ('prof', k, None, 0)

        def sizes(n, p):
            feed = {'ids': np.zeros([B, n], np.int64)}
            if 'position' in g.tensormap:
                feed['position'] = np.zeros([B, n], np.int64)
            if cached:
                b.set_past_kv_length(p)
            g.shape_infer(feed)
        if kind == 'step':
            sizes(q[3], q[2])
            b.profile()
            return {'totals': figures(g), 'nodes': node_figures(g, g.nodemap)}
        sizes(S, past)
        if kind in ('prof', 'report'):
            dev = None if q[3] is None else Devices[sorted(Devices)[q[3] % len(Devices)]]
            b.profile(None if q[2] is None else SETTINGS[q[2]], dev)
            if kind == 'report':
                return {'text': report(b.print_profile), 'file': report(g.print_node_map)}
            return {'totals': figures(g), 'nodes': node_figures(g, g.nodemap), 'llm': b.llm_profile, 'mem': b.context_mem, 'kv': number(b.kv_params), 'lat': {n: nd.llm_profile for n, nd in g.nodemap.items()}}
        if kind == 'plan':
            return g.compress_memory()
        with scratch() as d:
            p = os.path.join(d, 'm.onnx')
            b.save_graph(p)
            f = file_of(p)
            return f


def history(case):
    w = World(case)
    r = Run(w, True)
    return [r.answer(q) for q in w.queries]


def fresh(case, q):
    return Run(World(case), False).answer(q)


# ---------------------------------------------------------------- judging

def differ(a, b, path=''):
    """first difference of two answers, or None"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.dtype != b.dtype or a.shape != b.shape:
            return f'{path}: {summary(a)} / {summary(b)}'
        return None if oracle.samerun(a, b) else f'{path}: values {summary(a)} / {summary(b)}'
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f'{path}: {summary(a)} / {summary(b)}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{path}: only one has {sorted(map(str, set(a) ^ set(b)))[:5]}'
        for k in a:
            d = differ(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} / {len(b)} entries'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and (a != a and b != b or abs(a - b) <= 1e-12 * abs(a)):
        return None
    if a != b:
        if isinstance(a, str) and '\n' in a:
            for x, y in zip(a.split('\n'), b.split('\n')):
                if x != y:
                    return f'{path}: line {" ".join(x.split())[:200]!r} / {" ".join(y.split())[:200]!r}'
        return f'{path}: {summary(a)} / {summary(b)}'
    return None


def summary(x):
    if isinstance(x, np.ndarray):
        return f'{x.dtype}{list(x.shape)} {x.reshape(-1)[:4].tolist()}'
    return repr(x)[:200]


def where(d):
    """mechanism part of a difference: its path without names"""
    p = d.split(':')[0]
    return '.'.join(s for s in p.split('.')[:2]).strip('.').split('[')[0]


def run(case, mon):
    import onnx_tool
    from onnx_tool import llm, fusion, quantization, serialization    # loaded, not used, before forking
    if case[0] == 'hash':
        return run_hash(case, mon)
    w = World(case)
    got = forked(history, case)
    cache = {}
    failed = False
    last = {}
    for i, (q, a) in enumerate(zip(w.queries, got)):
        if q[0] == 'bad':
            failed = True
            continue
        if repr(q) not in cache:
            cache[repr(q)] = forked(fresh, case, q)
        want = cache[repr(q)]
        mon.event('answers_compared')
        if w.kind == 'builders':
            mon.event('builder_answers')
        if q[1] in last:
            mon.event('repeated_on_one_object')
            mon.event('sizes_changed', len(q) > 2 and last[q[1]] != q[2])
        if failed:
            mon.event('after_a_failure')
        if a[0] == 'error':
            mon.event('errors_answered')
        last[q[1]] = q[2] if len(q) > 2 else None
        if a[0] == 'error' and want[0] == 'error':
            if a[1] != want[1]:
                mon.violation(f'error:{q[0]}', f'{q} after {w.queries[:i]}: {a[1:]}, alone {want[1:]}; case {case}')
            continue
        d = differ(a, want)
        if d:
            mon.violation(f'history:{q[0]}:{where(d) if a[0] == want[0] else "fails"}', f'{q} answered after {w.queries[:i]}, then by a fresh object in a fresh process: {d}; case {case}')
            break
    mon.distinct((tuple(map(repr, w.queries)), case[0], tuple(describe(m) for m in w.models)))
    mon.sample({'steps': [repr(q) for q in w.queries], 'models': [describe(m)[:200] for m in w.models]})


def describe(m):
    if isinstance(m[0], dict):
        return repr(sorted((k, str(v)) for k, v in m[0].items()))
    return ' '.join(n.op_type for n in m[0].graph.node)


def digest(x):
    """text form of an answer which does not depend on the process"""
    import hashlib
    def norm(v):
        if isinstance(v, np.ndarray):
            return ('a', str(v.dtype), v.shape, np.round(v.astype(float), 3).tolist() if v.dtype.kind == 'f' else v.tolist()) if v.dtype.kind != 'f' else ('a', str(v.dtype), v.shape)
        if isinstance(v, dict):
            return [(str(k), norm(v[k])) for k in sorted(v, key=str)]
        if isinstance(v, (list, tuple)):
            return [norm(y) for y in v]
        if isinstance(v, bytes):
            return hashlib.md5(v).hexdigest()
        return v
    return json.dumps(norm(x), default=str)


def run_hash(case, mon):
    sub = [('graphs', case[1], case[2] * 1000 + j) for j in range(3)] + [('builders', case[1], case[2] * 1000 + 7)]
    outs = []
    for hs in ('0', '1', '77'):
        env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv[1])\nfrom vt.checks import history\nhistory.main(sys.argv[2])', VERIF, json.dumps(sub)],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=110)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-800:])
        outs.append([json.loads(l) for l in p.stdout.decode().splitlines() if l.startswith('[')])
    for j, s in enumerate(sub):
        w = World(s)
        for i, q in enumerate(w.queries):
            if q[0] == 'bad':
                continue
            mon.event('hash_seed_answers')
            vals = [o[j][i] for o in outs]
            if any(v != vals[0] for v in vals):
                other = next(v for v in vals if v != vals[0])
                at = next((n for n, (x, y) in enumerate(zip(vals[0], other)) if x != y), 0)
                mon.violation(f'process:{q[0]}', f'{q} of {s} is answered differently by interpreters with other hash seeds: ...{vals[0][max(0, at - 80):at + 120]}... / ...{other[max(0, at - 80):at + 120]}...')
                break
    mon.distinct(case)


def main(text):
    from vt.core import setup_path
    setup_path()
    import onnx_tool
    for s in json.loads(text):
        s = tuple(s)
        r = history(s)
        sys.stdout.write(json.dumps([digest(a) for a in r]) + '\n')
