"""P34: the command line gives what the API gives, and fails loudly."""
import os
import re
import runpy
import subprocess
import sys
import traceback
import numpy as np
from vt.core import rng_for, scratch, REPO
from vt.checks.footprint import listing, some_model

PROP = 'P34'
RULE = ('invocations of every mode with random options (long and short names, any order, text and csv reports, excluded operators, fed shapes and values in all element types, tensor selections, '
        'half precision, interface edits, missing options, unknown names, unreadable values, missing and broken files) over random models; each runs as a process of its own - the module executed as '
        '__main__ in a fork, every twelfth through the interpreter as "python -m onnx_tool" - in an empty directory and its exit status, console output and every file are compared with those of the '
        'corresponding API call in another directory; distinct by mode, options and model')
ASSUMPTIONS = ['times printed by the tool are not compared']
MIN_EVENTS = {'invocations': 600, 'files_compared': 300, 'failures_compared': 80, 'reports_compared': 150, 'interpreter_invocations': 30}
BUDGET = {'quick': 150, 'thorough': 800}

TYPES = {'f16': np.float16, 'f32': np.float32, 'f64': np.float64, 'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64, 'uint8': np.uint8, 'bool': np.bool_}
MODES = ['profile'] * 6 + ['export_tensors'] * 2 + ['constant_folding'] * 2 + ['io_modify'] * 3 + ['broken']


def cases(tier, seed):
    n = 900 if tier == 'quick' else 12000
    for i in range(n):
        yield ('cli', seed, i)


def fed_model(rng):
    """values of inputs decide shapes"""
    from onnx import helper, numpy_helper, TensorProto as TP
    N, V = helper.make_node, helper.make_tensor_value_info
    nodes, inputs, feeds, sym = [], [], {}, {}
    c = lambda s: s[int(rng.integers(len(s)))]
    pre = c(['', 'in_', 'src/', 'a.b.'])
    x = pre + 'x'
    h, w = int(rng.integers(2, 7)) * 2, int(rng.integers(2, 7)) * 2
    inputs.append(V(x, TP.FLOAT, [1, 4, c(['h', 'H_in', -1, h]), c(['w', w])]))
    for v in (inputs[0].type.tensor_type.shape.dim[2],):
        if v.dim_value == -1 or v.dim_value >= 2 ** 63:
            v.Clear()
    feeds[x] = np.zeros((1, 4, h, w), np.float32)
    cur, chan, plain = x, 4, True
    inits = []
    for k in range(int(rng.integers(1, 4))):
        r = rng.random()
        name = f'{pre}v{k}'
        if r < .35 and plain:
            sc = np.array([1, 1, c([.5, .25, 2, 1.5, 3]), c([.5, 2, .75])], np.float32)
            inputs.append(V(name, TP.FLOAT, [4]))
            feeds[name] = sc
            nodes.append(N('Resize', [cur, '', name], [f't{k}'], f'n{k}', mode='nearest'))
            cur = f't{k}'
        elif r < .5:
            inputs.append(V(name, TP.INT64, [c([2, 'm'])]))
            feeds[name] = np.array([c([1, 4]), -1], np.int64)
            nodes.append(N('Reshape', [cur, name], [f't{k}'], f'n{k}'))
            cur, plain = f't{k}', False
        elif r < .65:
            inputs.append(V(name, TP.INT32, [1]))
            feeds[name] = np.array([c([2, 3])], np.int32)
            nodes += [N('Cast', [name], [f'c{k}'], f'nc{k}', to=TP.INT64), N('Tile', [f'e{k}', f'c{k}'], [f'r{k}'], f'nr{k}'), N('ReduceProd', [f'r{k}'], [f'p{k}'], f'np{k}', keepdims=1),
                      N('Unsqueeze', [cur, f'z{k}'], [f'u{k}'], f'nu{k}'), N('Concat', [f'u{k}'] * 1, [f'q{k}'], f'nq{k}', axis=0), N('Flatten', [f'q{k}'], [f't{k}'], f'n{k}', axis=1),
                      N('ConstantOfShape', [f'c{k}'], [f'f{k}'], f'nf{k}')]
            inits += [numpy_helper.from_array(np.array([1.0], np.float32), f'e{k}'), numpy_helper.from_array(np.array([0]), f'z{k}')]
            cur, plain = f't{k}', False
        elif r < .72:
            n = int(rng.integers(2, 9))
            inputs.append(V(name, TP.BOOL, [n]))
            feeds[name] = rng.random(n) < .5
            nodes += [N('NonZero', [name], [f'd{k}'], f'nd{k}'), N('Transpose', [f'd{k}'], [f'dt{k}'], f'ndt{k}')]
        elif r < .82:
            dt, tp = c([(np.float16, TP.FLOAT16), (np.float64, TP.DOUBLE), (np.int8, TP.INT8), (np.uint8, TP.UINT8), (np.int16, TP.INT16), (np.bool_, TP.BOOL), (np.int32, TP.INT32), (np.int64, TP.INT64)])
            n = int(rng.integers(2, 9))
            inputs.append(V(name, tp, ['k', n]))
            feeds[name] = np.zeros((int(rng.integers(1, 5)), n), dt)
            nodes += [N('Identity', [name], [f'd{k}'], f'nd{k}'), N('Transpose', [f'd{k}'], [f'dt{k}'], f'ndt{k}')]
        elif plain:
            co = int(rng.integers(1, 6))
            inits.append(numpy_helper.from_array(rng.uniform(-1, 1, (co, chan, 1, 1)).astype(np.float32), f'w{k}'))
            nodes.append(N('Conv', [cur, f'w{k}'], [f't{k}'], f'conv/{k}'))
            cur, chan = f't{k}', co
        else:
            nodes.append(N('Relu', [cur], [f't{k}'], f'n{k}'))
            cur = f't{k}'
    nodes.append(N('Identity', [cur], ['y'], 'last'))
    used = {i for n in nodes for i in n.input} | {o for n in nodes for o in n.output}
    outs = [V('y', TP.FLOAT, None)] + [V(n.output[0], TP.FLOAT, None) for n in nodes if n.op_type in ('ConstantOfShape',)]
    g = helper.make_graph(nodes, 'g', [v for v in inputs if v.name in used], outs, initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)])
    m.ir_version = 8
    return m, {k: v for k, v in feeds.items()}


def typed(a):
    for k, t in TYPES.items():
        if a.dtype == t:
            return k
    return None


def feed_text(name, a, rng):
    """name:type:shape[:data] and the array it stands for"""
    t = typed(a)
    if t is None or a.ndim == 0 or ':' in name:
        return None
    s = 'x'.join(str(d) for d in a.shape)
    zero = not np.any(a != 0)
    if zero and (a.size > 8 or rng.random() < .8) or a.size == 0:
        return f'{name}:{t}:{s}', a
    if a.size > 16:
        return None
    vals = [repr(int(v) if a.dtype == bool else v.item()) for v in a.reshape(-1)]
    if any('x' in v or ':' in v or 'n' in v for v in vals):
        return None
    if a.ndim == 1 and rng.random() < .3:
        s = '-1'
    return f'{name}:{t}:{s}:' + 'x'.join(vals), a


def plan(rng, i):
    """(model or None, argv, API call as (function, args, kwargs), description)"""
    c = lambda s: s[int(rng.integers(len(s)))]
    mode = MODES[i % len(MODES)]
    if rng.random() < .5:
        m, feeds = fed_model(rng)
    else:
        m, feeds, _, _ = some_model(rng)
    name = c(['m.onnx', 'net.v2.onnx', 'sub/net.onnx', 'my model.onnx', 'weights'])
    opts = [[c(['-i', '--in']), name]]
    if mode != 'profile' or rng.random() < .5:
        opts.append([c(['-m', '--mode']), mode if mode != 'broken' else 'profile'])
    out = c([None, 'o.onnx', 'res/o.onnx', 'o'])
    desc = [mode]
    if mode in ('profile', 'broken'):
        kw = {'exclude_ops': None, 'save_profile': None, 'save_model': out, 'dynamic_shapes': None}
        if out:
            opts.append([c(['-o', '--out']), out])
        if rng.random() < .4:
            ops = sorted({n.op_type for n in m.graph.node})
            pick = [c(ops + ['Conv', 'Add', 'Mod']) for _ in range(int(rng.integers(1, 3)))]
            pick = list(dict.fromkeys(pick))
            if rng.random() < .15:
                pick.append(c(['NoSuchOp', 'conv', '']))
            opts.append([c(['-e', '--exclude-ops']), ','.join(pick)])
            kw['exclude_ops'] = set(pick)
            desc.append('exclude')
        f = c([None, None, 'r.txt', 'r.csv', 'deep/r.txt', 'r'])
        if f:
            opts.append([c(['-f', '--file']), f])
            kw['save_profile'] = f
            desc.append(f)
        if rng.random() < .9 and feeds:
            texts, arrs = [], {}
            for k in rng.permutation(sorted(feeds)):
                k = str(k)
                a = np.asarray(feeds[k])
                if a.dtype.kind == 'f' and np.any(a != 0) and (a.size > 8 or rng.random() < .5) and 'v' not in k:
                    a = np.zeros_like(a)
                t = feed_text(k, a, rng)
                if t is not None and rng.random() < .95:
                    texts.append(t[0])
                    arrs[k] = t[1]
            if rng.random() < .1:
                texts.append('unknown:f32:2x3')
                arrs['unknown'] = np.zeros((2, 3), np.float32)
            r = rng.random()
            if texts and r < .12:
                # an entry nobody can understand
                j = int(rng.integers(len(texts)))
                p = texts[j].split(':')
                how = c(['type', 'shape', 'data', 'count'])
                if how == 'type':
                    p[1] = c(['fp8', 'float', 'i32', 'F32', 'string', ''])
                elif how == 'shape':
                    p[2] = c(['2xx3', 'NxC', '2,3', ''])
                elif how == 'data':
                    p = p[:3] + ['x'.join(['1.0e'] * max(1, arrs[list(arrs)[0]].size))]
                else:
                    p = p[:2] + ['2x3', '1x2']
                texts[j] = ':'.join(p)
                arrs = None
                desc.append('unreadable ' + how)
            if texts:
                opts.append([c(['-d', '--dynamic_shapes'])] + texts)
                kw['dynamic_shapes'] = arrs
                desc.append(tuple(sorted(t.split(':')[1] + str(len(t.split(':'))) for t in texts if len(t.split(':')) > 1)))
                if arrs is None:
                    kw = None
        call = ('model_profile', [name], kw)
    elif mode == 'export_tensors':
        names = [t.name for t in m.graph.initializer]
        kw = {'tensornames': None, 'savefolder': None, 'fp16': False}
        if names and rng.random() < .6:
            pick = [str(x) for x in rng.choice(names, size=int(rng.integers(1, len(names) + 1)), replace=bool(rng.random() < .2))]
            pick = [p for p in pick if not p.startswith('-')]
            if rng.random() < .3:
                pick.append('missing')
            if pick:
                opts.append(['--names'] + pick)
                kw['tensornames'] = pick
        if rng.random() < .7:
            kw['savefolder'] = c(['dump', 'a/b', '.'])
            opts.append([c(['-o', '--out']), kw['savefolder']])
        if rng.random() < .5:
            opts.append(['--fp16'])
            kw['fp16'] = True
        call = ('model_export_tensors_numpy', [name], kw)
        desc.append((kw['tensornames'] is None, kw['savefolder'], kw['fp16']))
    elif mode == 'constant_folding':
        if out:
            opts.append([c(['-o', '--out']), out])
        call = ('model_constant_folding', [name, out], {})
    else:
        io = {}
        for v in list(m.graph.input) + list(m.graph.output):
            if not v.type.tensor_type.HasField('shape') or ':' in v.name:
                continue
            k = len(v.type.tensor_type.shape.dim)
            if k and rng.random() < .6:
                if rng.random() < .1:
                    k += 1
                io[v.name] = 'x'.join(c(['N', 'h', 'w', 'batch', '3', '8', '224', '1']) for _ in range(k))
        if out:
            opts.append([c(['-o', '--out']), out])
        if io:
            opts.append([c(['-d', '--dynamic_shapes'])] + [f'{k}:{v}' for k, v in io.items()])
        call = ('model_io_modify', [name, out, io or None], {})
        desc.append(len(io))
    if mode == 'broken':
        how = c(['missing', 'garbage', 'mode', 'option', 'noinput', 'directory', 'text'])
        desc.append(how)
        call = (call[0], call[1], None)
        if how == 'mode':
            opts = [o for o in opts if o[0] not in ('-m', '--mode')] + [['-m', 'fold']]
        elif how == 'option':
            opts.append(['--no-such-option'])
        elif how == 'noinput':
            opts = opts[1:]
        m = how
    order = rng.permutation(len(opts))
    argv = [a for j in order for a in opts[j]]
    # an option with a list swallows what follows, positional arguments do not exist
    return m, name, argv, call, tuple(map(str, desc)) + tuple(sorted(o[0].lstrip('-')[0] for o in opts))


def spawn(work, cwd, log):
    """exit status and console output of work() in a process of its own"""
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 77
        try:
            fd = os.open(log + '.out', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            fe = os.open(log + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1), os.dup2(fe, 2)
            sys.stdout = open(1, 'w', closefd=False)
            sys.stderr = open(2, 'w', closefd=False)
            os.chdir(cwd)
            try:
                work()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush(), sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    with open(log + '.out', errors='replace') as f:
        out = f.read()
    with open(log + '.err', errors='replace') as f:
        err = f.read()
    return os.waitstatus_to_exitcode(st), out, err


def untimed(text):
    """console output without what the clock decides"""
    lines = []
    for l in text.splitlines():
        if re.search(r'time|\d(\.\d+)?(e-?\d+)? ?s\b', l, re.I) or re.match(r'^\{.*\}$', l):
            l = re.sub(r'\d+(\.\d+)?(e[-+]?\d+)?', '#', l)
        lines.append(l)
    return '\n'.join(lines)


def write_model(m, path):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    if isinstance(m, str):
        if m == 'missing' or m in ('mode', 'option', 'noinput'):
            return
        if m == 'directory':
            os.makedirs(path)
        else:
            with open(path, 'wb') as f:
                f.write({'garbage': bytes(range(255, 0, -1)) * 7, 'text': b'{"model": 1}\n'}[m])
        return
    import onnx
    onnx.save_model(m, path)


def run(case, mon):
    import onnx_tool
    _, seed, i = case
    rng = rng_for('P34', seed, i)
    m, name, argv, call, desc = plan(rng, i)
    fn, args, kw = call
    with scratch() as d:
        for side in ('api', 'cli'):
            os.makedirs(f'{d}/{side}/res'), os.makedirs(f'{d}/{side}/deep')
            write_model(m, f'{d}/{side}/{name}')
        before = listing(f'{d}/cli')
        # the command line
        real = i % 12 == 0

        def main():
            sys.argv = ['onnx_tool'] + argv
            runpy.run_module('onnx_tool.__main__', run_name='__main__', alter_sys=True)
        if real:
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-m', 'onnx_tool'] + argv, cwd=f'{d}/cli', env=env, capture_output=True, text=True, errors='replace', stdin=subprocess.DEVNULL)
            got = (p.returncode, p.stdout, p.stderr)
            mon.event('interpreter_invocations')
        else:
            got = spawn(main, f'{d}/cli', f'{d}/clilog')
        mon.event('invocations')
        mon.event(f'mode_{desc[0]}')
        after = listing(f'{d}/cli')
        what = f'{" ".join(a[:60] for a in argv)}; case {case}'
        if kw is None:
            # nothing the API could be asked for
            mon.event('failures_compared')
            if got[0] == 0:
                mon.violation(f'accepted: {desc[0]} {" ".join(x for x in desc if x.startswith("unreadable")) or desc[-1] if desc[0] != "broken" else desc[-1]}',
                              f'exit status 0 for an invocation which cannot be carried out: {what}; output {got[1][-300:]}')
            if after != before:
                mon.violation('files after failure', f'files were written although the invocation cannot be carried out: {set(after) - set(before)}; {what}')
            mon.distinct(desc)
            return

        def api():
            getattr(onnx_tool, fn)(*args, **kw)
        want = spawn(api, f'{d}/api', f'{d}/apilog')
        expect = listing(f'{d}/api')
        if (got[0] == 0) != (want[0] == 0):
            mon.violation('exit status', f'exit status {got[0]}, the API call {"succeeds" if want[0] == 0 else "fails"}: {what}\nCLI: {got[2][-500:]}\nAPI: {want[2][-500:]}')
            return
        if want[0] != 0:
            mon.event('failures_compared')
        if after != expect:
            diff = sorted(k for k in set(after) | set(expect) if after.get(k, 0) != expect.get(k, 0))
            kind = 'missing file' if any(k not in after for k in diff) else 'additional file' if any(k not in expect for k in diff) else 'file differs'
            mon.violation(f'{desc[0]}: {kind}', f'{diff} differ from what {fn} writes: {what}')
        mon.event('files_compared', len(expect) - len(before))
        if untimed(got[1]) != untimed(want[1]):
            mon.violation(f'{desc[0]}: console', f'the output differs from that of {fn}: {what}\nCLI {got[1][:500]}\nAPI {want[1][:500]}')
        if want[0] == 0 and fn == 'model_profile':
            mon.event('reports_compared')
            # a report went where it was asked to go
            f = kw['save_profile']
            if f is None and 'Total' not in got[1] or f is not None and not after.get(f):
                mon.violation('no report', f'no report was given: {what}')
        mon.distinct((desc, tuple(n.op_type for n in m.graph.node)))
        mon.sample({'argv': argv, 'exit': got[0], 'files': sorted(set(after) - set(before))})
