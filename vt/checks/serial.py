"""P22, P23: serialized compute graphs, shape engines and memory plans, decoded by a reader of the documented layout.

All integers little endian, strings in UTF-8 and terminated by a zero byte.
  .cg  i32 nodes; per node: name, operator, i32 inputs, names.., i32 outputs, names.., i32 attributes, per attribute: name, i32 count, i32 type, values
       i32 weights; per weight: name, array
       array: i32 type, i32 rank, i32 dims.., elements
       types: 0 int32, 1 float32, 2 string, 3 float16, 4 float64, 5 int8, 6 uint8, 7 int16, 8 uint16, 9 int64, 10 array (attributes only)
  .se  i32 variables, names..; i32 tensors: name, i32 rank, per dimension: i32 type (0 int32 | 2 variable), value
       i32 expressions: variable, source variable, f32 alpha, f32 beta, i32 factor, i32 truncation
  .cm  i64 pool size; i64 tensors: name, i64 offset, i64 size; i64 variables: name, i64 largest value
"""
import math, os, struct, warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from vt import modelgen as mg
from vt.core import rng_for, quiet, scratch

PROP = None
RULES = {
    'P22': 'models of custom and standard operators with every attribute kind (64-bit extremes, empty lists, special floats, empty and non-ASCII strings, tensors), omitted inputs and outputs, weights of '
           'every storable type and rank 0-4 (empty ones too), and compute graphs of random models before and after fusing and quantizing, written, decoded byte by byte and compared with the model; objects the '
           'format cannot hold must be refused without touching the file; non-trivial when attributes or weights were decoded',
    'P23': 'shape engines regressed from random models (decoded expressions evaluated at values of every variable and compared with the engine and the dimensions it gives) and memory plans of random models and of '
           'random sizes up to 2**60; non-trivial when an expression or a tensor was decoded',
}
MINS = {'P22': {'attributes_compared': 10000, 'weights_compared': 5000, 'nodes_compared': 15000, 'refused': 100, 'fused_graphs': 200, 'large_graphs': 100, 'quantized_graphs': 100},
        'P23': {'expressions_compared': 2000, 'shapes_derived': 20000, 'plans_compared': 500, 'planned_tensors': 5000, 'large_plans': 30}}
BUDGET = {'quick': 120, 'thorough': 750}
ASSUMPTIONS = ['the layout written in vt/checks/serial.py, derived from the writer, is the documented one']
TYPES = {0: np.int32, 1: np.float32, 3: np.float16, 4: np.float64, 5: np.int8, 6: np.uint8, 7: np.int16, 8: np.uint16, 9: np.int64}


def for_prop(p):
    global PROP, MIN_EVENTS, RULE
    PROP, MIN_EVENTS, RULE = p, MINS[p], RULES[p]


def cases(tier, seed):
    q = tier == 'quick'
    if PROP == 'P22':
        for i in range(6000 if q else 80000):
            yield ('raw', seed, i)
            if i % 2 == 0:
                yield ('model', seed, i)
            if i % 10 == 0:
                yield ('refuse', seed, i)
    else:
        for i in range(1500 if q else 12000):
            yield ('engine', seed, i)
        for i in range(4500 if q else 50000):
            yield ('plan' if i % 3 else 'bigplan', seed, i)


MEMBERS = ['name', 'input', 'output', 'op_type', 'attr', 'domain', 'proto', 'prevnodes', 'nextnodes', 'shape_infer']


class Truncated(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.b, self.p = data, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Truncated(f'needs {n} bytes at {self.p} of {len(self.b)}')
        self.p += n
        return self.b[self.p - n:self.p]

    def i(self, n=4):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def f(self):
        return struct.unpack('<f', self.take(4))[0]

    def s(self):
        e = self.b.find(b'\0', self.p)
        if e < 0:
            raise Truncated('string without end')
        v = self.b[self.p:e]
        self.p = e + 1
        return v

    def array(self):
        t = self.i()
        if t not in TYPES:
            raise Truncated(f'array type {t}')
        shape = [self.i() for _ in range(self.i())]
        n = math.prod(shape)
        dt = np.dtype(TYPES[t])
        return np.frombuffer(self.take(n * dt.itemsize), dt).reshape(shape)

    def value(self, t):
        return self.s() if t == 2 else self.i() if t == 0 else self.i(8) if t == 9 else np.float32(self.f()) if t == 1 else self.array() if t == 10 else self.bad(t)

    def bad(self, t):
        raise Truncated(f'value type {t}')

    def graph(self):
        nodes = []
        for _ in range(self.i()):
            name, op = self.s(), self.s()
            ins = [self.s() for _ in range(self.i())]
            outs = [self.s() for _ in range(self.i())]
            at = {}
            for _ in range(self.i()):
                k = self.s()
                n, t = self.i(), self.i()
                at[k] = (t, [self.value(t) for _ in range(n)])
            nodes.append((name, op, ins, outs, at))
        weights = []
        for _ in range(self.i()):
            k = self.s()
            weights.append((k, self.array()))
        return nodes, weights

    def engine(self):
        var = [self.s() for _ in range(self.i())]
        desc = {}
        for _ in range(self.i()):
            k = self.s()
            desc[k] = [self.value(self.i()) for _ in range(self.i())]
        ex = []
        for _ in range(self.i()):
            ex.append((self.s(), self.s(), self.f(), self.f(), self.i(), self.i()))
        return var, desc, ex

    def plan(self):
        pool = self.i(8)
        m = {}
        order = []
        for _ in range(self.i(8)):
            k = self.s()
            m[k] = (self.i(8), self.i(8))
            order.append(k)
        mx = {}
        for _ in range(self.i(8)):
            k = self.s()
            mx[k] = self.i(8)
        return pool, m, mx, order

    def end(self):
        if self.p != len(self.b):
            raise Truncated(f'{len(self.b) - self.p} bytes left')


def flat(v):
    """list of plain values of an attribute"""
    if isinstance(v, (list, tuple)):
        vs = list(v)
    elif isinstance(v, (onnx.AttributeProto,)):
        raise TypeError
    elif hasattr(v, '__iter__') and not isinstance(v, (str, bytes, np.ndarray, TP)):
        vs = list(v)
    else:
        vs = [v]
    return [numpy_helper.to_array(x) if isinstance(x, TP) else x.encode() if isinstance(x, str) else x for x in vs]


def same(want, t, have):
    if len(want) != len(have):
        return False
    for a, b in zip(want, have):
        if isinstance(a, bytes):
            if t != 2 or a != b:
                return False
        elif isinstance(a, np.ndarray):
            if t != 10 or a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                return False
        elif isinstance(a, (float, np.floating)):
            if t != 1 or np.float32(a).tobytes() != np.float32(b).tobytes():
                return False
        else:
            if t not in (0, 9) and not (t == 1 and any(isinstance(x, float) for x in want)) or int(a) != b:
                return False
    return True


def judge(decoded, nodes, weights, mon, what):
    """nodes: (name, op, ins, outs, {attr: values}); weights: {name: array}"""
    dn, dw = decoded
    if len(dn) != len(nodes):
        mon.violation('node count', f'{what}: {len(dn)} nodes decoded, {len(nodes)} in the graph')
        return False
    for d, n in zip(dn, nodes):
        w = (n[0].encode(), n[1].encode(), [x.encode() for x in n[2]], [x.encode() for x in n[3]])
        if d[:4] != w:
            mon.violation('node', f'{what}: decoded {d[:4]}, the graph has {w}')
            return False
        if {k.decode() for k in d[4]} != set(n[4]):
            mon.violation('attribute names', f'{what}: {n[1]} has attributes {sorted(n[4])}, decoded {sorted(d[4])}')
            return False
        for k, v in d[4].items():
            want = n[4][k.decode()]
            if not same(want, v[0], v[1]):
                mon.violation('attribute', f'{what}: {n[1]}.{k.decode()} = {str(want)[:200]}, decoded type {v[0]} {str(v[1])[:200]}')
                return False
            mon.event('attributes_compared')
        mon.event('nodes_compared')
    if sorted(k for k, _ in dw) != sorted(k.encode() for k in weights):
        mon.violation('weight names', f'{what}: weights {sorted(weights)}, decoded {sorted(k for k, _ in dw)}')
        return False
    for k, a in dw:
        w = weights[k.decode()]
        if a.dtype != w.dtype or a.shape != w.shape or a.tobytes() != np.ascontiguousarray(w).tobytes():
            mon.violation('weight', f'{what}: weight {k.decode()} {w.dtype}{w.shape} decoded as {a.dtype}{a.shape} (bytes {"differ" if a.shape == w.shape else "-"})')
            return False
        mon.event('weights_compared')
    return True


ALPHA = ['', 'a', 'W_0', '/blk/0', 'päß', '名', 'x y', 'a.b:0', 'tail ']


SIZES = [255, 256, 257, 300, 1000, 32768, 65535, 65536, 70000]      # counts around the limits of narrower integers


def count(rng, most=70000):
    v = [x for x in SIZES if x <= most]
    return v[int(rng.integers(len(v)))]


def longname(rng):
    return ['n', 'é', '名', 'ab/'][int(rng.integers(4))] * count(rng, 70000 if rng.random() < .2 else 1000)


def manyvalued(rng):
    n = count(rng, 70000 if rng.random() < .2 else 1000)
    k = int(rng.integers(4))
    if k == 0:
        return helper.make_attribute('k', [int(v) for v in rng.integers(-2 ** 31, 2 ** 31, n)], attr_type=onnx.AttributeProto.INTS)
    if k == 1:
        return helper.make_attribute('k', [float(v) for v in rng.standard_normal(n).astype(np.float32)], attr_type=onnx.AttributeProto.FLOATS)
    if k == 2:
        return helper.make_attribute('k', [f's{v}' for v in range(n)], attr_type=onnx.AttributeProto.STRINGS)
    return helper.make_attribute('k', longname(rng))


def attribute(rng, refuse=None):
    k = int(rng.integers(9))
    ri = lambda: int([0, 1, -1, 127, 2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 1 << 40][int(rng.integers(11))] if rng.random() < .6 else rng.integers(-1000, 1000))
    rf = lambda: float(np.float32([0., -0., 1.5, math.inf, -math.inf, math.nan, 1e-45, 3.4e38, .1][int(rng.integers(9))]))
    rs = lambda: ALPHA[int(rng.integers(len(ALPHA)))]
    n = int(rng.integers(0, 5))
    if k == 0:
        return helper.make_attribute('k', ri())
    if k == 1:
        return helper.make_attribute('k', [ri() for _ in range(n)], attr_type=onnx.AttributeProto.INTS)
    if k == 2:
        return helper.make_attribute('k', rf())
    if k == 3:
        return helper.make_attribute('k', [rf() for _ in range(n)], attr_type=onnx.AttributeProto.FLOATS)
    if k == 4:
        return helper.make_attribute('k', rs())
    if k == 5:
        return helper.make_attribute('k', [rs() for _ in range(n)], attr_type=onnx.AttributeProto.STRINGS)
    if k == 6:
        return helper.make_attribute('k', numpy_helper.from_array(array(rng), 't'))
    if k == 7:
        return helper.make_attribute('k', int(rng.integers(2)))
    return helper.make_attribute('k', [int(v) for v in rng.integers(0, 5, n + 1)])


def array(rng):
    shape = tuple(int(v) for v in rng.integers(0 if rng.random() < .1 else 1, 5, int(rng.integers(0, 5))))
    if rng.random() < .02:
        shape = (count(rng),) if rng.random() < .5 else tuple(int(v) for v in rng.integers(1, 3, int(rng.integers(5, 12))))
    dt = np.dtype(list(TYPES.values())[int(rng.integers(len(TYPES)))])
    return np.frombuffer(rng.bytes(int(np.prod(shape, dtype=int)) * dt.itemsize), dt).reshape(shape).copy()


def values_of(a):
    v = helper.get_attribute_value(a)
    return flat(v)


def run_raw(case, mon):
    import onnx_tool
    from onnx_tool.serialization import serialize_graph
    kind, seed, i = case
    rng = rng_for('P22' + kind, seed, i)
    nodes, inits, have = [], {}, ['x']
    # one dimension larger than usual
    large = ['nodes', 'inputs', 'outputs', 'attributes', 'weights', 'values', 'names'][int(rng.integers(7))] if rng.random() < .03 else ''
    for j in range(count(rng, 300) if large == 'nodes' else int(rng.integers(1, 8))):
        ins = []
        for _ in range(count(rng, 1000) if large in ('inputs', 'weights') and j == 0 else int(rng.integers(1, 5))):
            r = rng.random() * (.4 if large == 'weights' else 1)
            if r < .4:
                n = f'{ALPHA[int(rng.integers(len(ALPHA)))]}w{len(inits)}'
                inits[n] = array(rng)
                ins.append(n)
            elif r < .5 and ins:
                ins.append('')
            else:
                ins.append(have[int(rng.integers(len(have)))])
        while ins and not ins[-1]:
            ins.pop()
        outs = [f't{j}_{k}{ALPHA[int(rng.integers(len(ALPHA)))]}' if k == 0 or rng.random() < .8 else '' for k in range(count(rng, 1000) if large == 'outputs' and j == 0 else int(rng.integers(1, 4)))]
        if large == 'names':
            outs[0] = f'{j}' + longname(rng)
        op = ['Custom', 'MyOp', 'Relu', 'FusedThing'][int(rng.integers(4))]
        n = helper.make_node(op if large != 'names' else 'Custom' + longname(rng), ins, outs, name=f'n{j}' + (longname(rng) if large == 'names' else ALPHA[int(rng.integers(len(ALPHA)))]), domain='' if op == 'Relu' and large != 'names' else 'my.domain')
        members = rng.random() < .1     # attributes called like members of a node
        for q in range(count(rng, 1000) if large == 'attributes' and j == 0 else int(rng.integers(0, 6))):
            a = attribute(rng) if large != 'values' else manyvalued(rng)
            a.name = MEMBERS[q] if members and q < len(MEMBERS) else f'att{q}' + (longname(rng) if large == 'names' else '')
            n.attribute.append(a)
        nodes.append(n)
        have += [o for o in outs if o]
    mon.event('large_graphs', bool(large))
    bad = None
    if kind == 'refuse':
        bad = ['graph', 'weight', 'zero', 'tensor'][int(rng.integers(4))]
        n = nodes[int(rng.integers(len(nodes)))]
        if bad == 'graph':
            n.attribute.append(helper.make_attribute('body', helper.make_graph([], 'b', [], [])))
        elif bad == 'weight':
            w = [np.array([True]), np.array([1], np.uint32), np.array([1], np.uint64)][int(rng.integers(3))]
            inits['bad'] = w
            n.input.append('bad')
        elif bad == 'zero':
            n.attribute.append(helper.make_attribute('s', b'a\0b'))
        else:
            n.attribute.append(helper.make_attribute('t', numpy_helper.from_array(np.array([True, False]), 't')))
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', TP.FLOAT, [1])], [helper.make_tensor_value_info(have[-1], TP.FLOAT, None)],
                          [numpy_helper.from_array(a, k) for k, a in inits.items()])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 17), helper.make_opsetid('my.domain', 1)], ir_version=8)
    with quiet(), scratch() as d:
        f = os.path.join(d, 'o.cg')
        tm = onnx_tool.Model(m, {'constant_folding': False})
        if bad:
            with open(f, 'wb') as h:
                h.write(b'before')
            try:
                serialize_graph(tm.graph, f)
            except ValueError:
                mon.event('refused')
                if open(f, 'rb').read() != b'before':
                    mon.violation('refused file', f'a graph with an unsupported {bad} was refused after its file had been overwritten')
                return
            data = open(f, 'rb').read()
        else:
            serialize_graph(tm.graph, f)
            data = open(f, 'rb').read()
    try:
        r = Reader(data)
        dec = r.graph()
        r.end()
    except Truncated as e:
        mon.violation('undecodable', f'{kind}{" " + bad if bad else ""}: {e}')
        return
    if bad:
        mon.violation('not refused', f'a graph with an unsupported {bad} was written')
        return
    want = [(n.name, n.op_type, list(n.input), list(n.output), {a.name: values_of(a) for a in n.attribute}) for n in nodes]
    if judge(dec, want, inits, mon, 'raw model'):
        mon.distinct((len(nodes), str([len(n.attribute) for n in nodes]), str([(a.dtype.str, a.shape) for a in inits.values()])))
        mon.sample({'operators': [n.op_type for n in nodes], 'attributes': [a.name for n in nodes for a in n.attribute][:8], 'bytes': len(data)})


def run_model(case, mon):
    import onnx_tool
    from onnx_tool.serialization import serialize_graph
    from onnx_tool.quantization import graph_quantize
    _, seed, i = case
    rng = rng_for('P22model', seed, i)
    mm = mg.generate(rng, 2, nodes=(4, 14))
    m = mm.model()
    feeds = mm.feeds(0)
    what = 'compute graph'
    with quiet(), warnings.catch_warnings(), scratch() as d:
        warnings.simplefilter('ignore')
        tm = onnx_tool.Model(m)
        g = tm.graph
        g.shape_infer(feeds)
        if rng.random() < .7:
            g = g.get_compute_graph()
        if rng.random() < .5:
            # fuse some element-wise consumers into their producers
            k = 0
            for a in list(g.nodemap):
                if a not in g.nodemap:
                    continue
                o = g.nodemap[a].output
                if len(o) != 1 or o[0] in g.output:
                    continue
                c = g.consumedby.get(o[0], [])
                if len(c) == 1 and g.nodemap[c[0]].op_type in ('Relu', 'Add', 'Mul', 'Sigmoid', 'Clip') and rng.random() < .7:
                    try:
                        g.fuse_postop_node_names([a, c[0]], bool(rng.integers(2)))
                        k += 1
                    except Exception:
                        return      # fusing is judged by P17
            mon.event('fused_graphs', k > 0)
            what += ' fused' if k else ''
        if rng.random() < .3:
            before = len(g.initials)
            for t in list(g.initials):
                graph_quantize(g, t, -1, ['sym', 'asym'][int(rng.integers(2))], int(rng.choice([4, 8])))
            mon.event('quantized_graphs', len(g.initials) != before)
        f = os.path.join(d, 'o.cg')
        held = {t: np.asarray(g.tensormap[t].numpy) for t in g.initials}
        ok = all(a.dtype in [np.dtype(t) for t in TYPES.values()] for a in held.values())
        try:
            serialize_graph(g, f)
        except ValueError:
            bodies = any(isinstance(v, onnx.GraphProto) for n in g.nodemap.values() for v in n.attr.values())
            badt = any(isinstance(x, TP) and numpy_helper.to_array(x).dtype not in [np.dtype(t) for t in TYPES.values()] for n in g.nodemap.values() for v in n.attr.values() for x in [v])
            if ok and not bodies and not badt:
                raise
            mon.event('refused')
            if os.path.exists(f):
                mon.violation('refused file', 'a refused graph left a file')
            return
        data = open(f, 'rb').read()
    try:
        r = Reader(data)
        dec = r.graph()
        r.end()
    except Truncated as e:
        mon.violation('undecodable', f'{what}: {e} ({[n.op_type for n in m.graph.node]})')
        return
    want = [(k, n.op_type, list(n.input), list(n.output), {a: flat(v) for a, v in n.attr.items()}) for k, n in g.nodemap.items()]
    if judge(dec, want, held, mon, what):
        mon.distinct(('model', str([n[1] for n in want]), what))


def value(ex, x):
    _, _, alpha, beta, factor, trunc = ex
    y = alpha * x + beta if factor == 0 else x / alpha + beta
    return math.ceil(y) if trunc == 0 else math.floor(y)


def run_engine(case, mon):
    import onnx_tool
    from onnx_tool.serialization import serialize_shape_engine
    from vt.checks.shapeengine import B
    _, seed, i = case
    rng = rng_for('P23engine', seed, i)
    b = B(rng)
    m = b.model()
    with quiet(), warnings.catch_warnings(), scratch() as d:
        warnings.simplefilter('ignore')
        g = onnx_tool.Model(m).graph
        eng = g.shape_regress({k: list(v) for k, v in b.desc.items()}, {k: tuple(v) for k, v in b.vars.items()})
        f = os.path.join(d, 'o.se')
        serialize_shape_engine(eng, f)
        data = open(f, 'rb').read()
    try:
        r = Reader(data)
        var, desc, exs = r.engine()
        r.end()
    except Truncated as e:
        mon.violation('undecodable', f'shape engine: {e}')
        return
    if sorted(var) != sorted(k.encode() for k in eng.variables):
        mon.violation('variables', f'variables {list(eng.variables)}, decoded {var}')
        return
    want = {k.encode(): [int(v) if isinstance(v, (int, np.integer)) else v.encode() for v in dd] for k, dd in eng.tensor_desc.items()}
    if want != desc:
        k = [k for k in want if desc.get(k) != want[k]] or [k for k in desc if k not in want]
        mon.violation('description', f'{k[0]}: {want.get(k[0])}, decoded {desc.get(k[0])}')
        return
    if [(e[0], e[1]) for e in exs] != [(k.encode(), v[0].encode()) for k, v in eng.tensor_epxr.items()]:
        mon.violation('expression', f'expressions {[(k, v[0]) for k, v in eng.tensor_epxr.items()]}, decoded {[(e[0], e[1]) for e in exs]}')
        return
    for e in exs:
        x = eng.tensor_epxr[e[0].decode()][1]
        if (np.float32(x.alpha), np.float32(x.beta), x.factor, x.truncmode) != (np.float32(e[2]), np.float32(e[3]), e[4], e[5]):
            mon.violation('expression', f'{e[0]}: {(x.alpha, x.beta, x.factor, x.truncmode)}, decoded {e[2:]}')
            return
        mon.event('expressions_compared')
    # a runtime reading the file derives the shapes the engine derives
    keys = [k for k in b.vars]
    for _ in range(12):
        env = {k: int(rng.integers(lo, hi + 1)) if rng.random() < .8 else int([lo, hi][int(rng.integers(2))]) for k, (lo, hi) in b.vars.items()}
        for k in keys:
            eng.update_variable(k, env[k])
        eng.update_variables()
        have = {k.encode(): v for k, v in env.items()}
        for e in exs:
            have[e[0]] = value(e, have[e[1]])
        for t, dd in desc.items():
            got = [v if isinstance(v, int) else have[v] for v in dd]
            w = eng.get_tensorshape(t.decode())
            if got != list(w):
                mon.violation('shape', f'{t.decode()} at {env}: the engine gives {list(w)}, the decoded file {got}')
                return
            mon.event('shapes_derived')
    if exs:
        mon.distinct((str(b.vars), str([e[2:] for e in exs])))
        mon.sample({'variables': [v.decode() for v in var], 'expressions': [[e[0].decode(), e[1].decode(), *e[2:]] for e in exs[:3]]})


def run_plan(case, mon):
    import onnx_tool
    from onnx_tool.serialization import serialize_memory_compression
    kind, seed, i = case
    rng = rng_for('P23' + kind, seed, i)
    if kind == 'plan':
        mm = mg.generate(rng, 2, nodes=(3, 14))
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g = onnx_tool.Model(mm.model()).graph
            g.shape_infer(mm.feeds(0))
            if rng.random() < .5:
                g = g.get_compute_graph()
            plan = g.compress_memory()
        mx = {f'd{k}': int(rng.integers(1, 5000)) for k in range(int(rng.integers(0, 4)))}
    else:
        big = lambda: int(rng.integers(0, 2 ** int(rng.integers(1, 61))))
        t = int if rng.random() < .6 else np.int64
        large = rng.random() < .04
        nm = lambda: longname(rng) if large and rng.random() < .05 else ALPHA[int(rng.integers(len(ALPHA)))]
        mp = {nm() + str(k): [t(big()), t(big())] for k in range(count(rng, 70000 if rng.random() < .1 else 1000) if large else int(rng.integers(0, 12)))}
        mon.event('large_plans', large)
        plan = (mp, t(big()))
        mx = {nm() + str(k): t(big()) for k in range(count(rng, 1000) if large and rng.random() < .5 else int(rng.integers(0, 4)))}
    with quiet(), scratch() as d:
        f = os.path.join(d, 'o.cm')
        serialize_memory_compression(plan, mx, f)
        data = open(f, 'rb').read()
    try:
        r = Reader(data)
        pool, mp, mxd, order = r.plan()
        r.end()
    except Truncated as e:
        mon.violation('undecodable', f'memory plan: {e}')
        return
    if pool != plan[1]:
        mon.violation('pool', f'pool size {plan[1]}, decoded {pool}')
        return
    want = {k.encode(): (int(v[0]), int(v[1])) for k, v in plan[0].items()}
    if mp != want or len(order) != len(want):
        k = [k for k in {**want, **mp} if mp.get(k) != want.get(k)][0]
        mon.violation('slot', f'{k}: slot {want.get(k)}, decoded {mp.get(k)}')
        return
    if mxd != {k.encode(): int(v) for k, v in mx.items()}:
        mon.violation('largest values', f'{mx}, decoded {mxd}')
        return
    mon.event('plans_compared')
    mon.event('planned_tensors', len(want))
    mon.maximum('largest_offset', max([v[0] for v in want.values()], default=0))
    if want:
        mon.distinct((kind, str(sorted(want.values()))))
        mon.sample({'pool': int(pool), 'slots': [[k.decode(), *v] for k, v in list(want.items())[:3]]})


def run(case, mon):
    {'raw': run_raw, 'refuse': run_raw, 'model': run_model, 'engine': run_engine, 'plan': run_plan, 'bigplan': run_plan}[case[0]](case, mon)
