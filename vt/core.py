"""Runner shared by all checks.

A check module has
    PROP    property id
    RULE    text for the evidence file: how cases are made, what makes one non-trivial
    def cases(tier, seed) -> list of picklable tuples (kind, sub-seed, ...)
    def run(case, mon)    executes the real code under the case's workload and judges what was observed

`run` tells the monitor what it saw:
    mon.event(kind, n)         observations made (counted, goes to the evidence)
    mon.distinct(signature)    signature of a non-trivial case
    mon.sample(obj)            written-out example
    mon.violation(key, msg)    the oracle rejected the observation; key names the mechanism
    mon.inconclusive(reason)   the oracle could not decide (counted, never an alarm)
"""
import os, sys, json, time, signal, traceback, zlib, io, contextlib, warnings, importlib, multiprocessing, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '120'))


def setup_path():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import onnx_tool
    got = os.path.realpath(os.path.dirname(os.path.dirname(onnx_tool.__file__)))
    if got != os.path.realpath(REPO):
        raise SystemExit(f'harness error: onnx_tool imported from {got}, not {REPO}')


def rng_for(*parts):
    import numpy
    ints = []
    for p in parts:
        if isinstance(p, str):
            ints.append(zlib.crc32(p.encode()))
        else:
            ints.append(int(p) & 0xffffffff)
    return numpy.random.default_rng(ints)


class CaseTimeout(BaseException):
    pass


class Mon:
    def __init__(self):
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.viol = []          # (key, msg, case)
        self.inconc = {}
        self.evaluations = 0
        self.case = None
        self.harness_errors = []
        self.max = {}

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def maximum(self, kind, v):
        v = float(v)
        if kind not in self.max or v > self.max[kind]:
            self.max[kind] = v

    def distinct(self, sig):
        self.sigs.add(zlib.crc32(repr(sig).encode()) | (zlib.adler32(repr(sig).encode()) << 32))

    def sample(self, obj, cap=4):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, key, msg):
        key = str(key).replace(' ', '_')
        if sum(1 for v in self.viol if v[0] == key) < 3:
            self.viol.append((key, str(msg)[:1500], self.case))
        else:
            self.event('violations_not_listed')

    def inconclusive(self, reason):
        self.inconc[reason] = self.inconc.get(reason, 0) + 1

    def merge(self, o):
        for k, v in o.events.items():
            self.event(k, v)
        for k, v in o.inconc.items():
            self.inconc[k] = self.inconc.get(k, 0) + v
        for k, v in o.max.items():
            self.maximum(k, v)
        self.sigs |= o.sigs
        for s in o.samples:
            self.sample(s, 6)
        self.viol += o.viol
        self.evaluations += o.evaluations
        self.harness_errors += o.harness_errors


@contextlib.contextmanager
def quiet():
    """Silence the tool's prints; hand back what it printed."""
    buf = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(buf):
            yield buf


def run_case(mod, case, mon, modidx=0):
    mon.case = (modidx, case)
    mon.evaluations += 1

    def onalarm(sig, frm):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, mon)
    except CaseTimeout:
        tb = traceback.format_exc(limit=-6)
        if os.sep + 'onnx_tool' + os.sep in tb:
            mon.violation(f'hang:{case[0]}', f'the tool did not return within {CASE_TIMEOUT}s on a tiny case\n{tb}')
        else:
            mon.inconclusive('case timeout outside the tool')
    except MemoryError:
        mon.inconclusive('memory')
    except Exception as e:
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        intool = [f for f in frames if os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep)]
        text = traceback.format_exc()[-3000:]
        if type(e).__name__ == 'Missing':
            mon.inconclusive('an operation the stand-ins do not know: ' + str(e)[:60])
        elif intool:
            # legal workload, the tool itself raised and no oracle had foreseen it
            root = e
            while root.__context__ is not None:
                root = root.__context__
            fr = [f for f in traceback.extract_tb(root.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            where = os.path.basename(fr[-1].filename)[:-3] + '.' + fr[-1].name if fr else ''
            mon.violation(f'crash:{case[0]}:{type(root).__name__}:{where}', text)
        elif isinstance(e, (ImportError, NameError, MemoryError, AssertionError)) or isinstance(e, AttributeError) and isinstance(getattr(e, 'obj', None), type(os)):
            mon.harness_errors.append((case, text))    # the harness and the tree do not fit together: no verdict
        else:
            # the tool returned, and what it returned cannot be read: a file that was not written, a model that does not execute, a missing entry
            mon.violation(f'unreadable:{case[0]}:{type(e).__name__}', text)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(args):
    modnames, chunk, deadline = args
    import numpy
    numpy.seterr(all='ignore')
    warnings.simplefilter('ignore')
    mods = [importlib.import_module(n) for n in modnames]
    mon = Mon()
    skipped = 0
    for c in chunk:
        if time.time() > deadline:
            skipped += 1
            continue
        run_case(mods[c[0]], c[1], mon, c[0])
    mon.event('cases_skipped_by_deadline', skipped)
    return mon


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = line.split(None, 3)
                prop = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                known[(prop, key)] = f[3] if len(f) > 3 else ''
            elif line.startswith('fixed:'):
                fixed.append(line)
    return known, fixed


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        elif argv[i] == '--replay':
            i += 1
            replay = argv[i]
        elif argv[i] == '--seed':
            i += 1
            seed = int(argv[i])
        i += 1
    setup_path()
    from vt import registry
    modnames = registry.MODULES[prop]
    mods = [importlib.import_module(n) for n in modnames]
    for mod in mods:
        if hasattr(mod, 'for_prop'):
            mod.for_prop(prop)
    t0 = time.time()
    if replay:
        mi, case = json.load(open(replay))['case']
        mon = Mon()
        run_case(mods[mi], totuple(case), mon, mi)
        for k, m, c in mon.viol:
            print('REPLAY', k, m)
        for c, t in mon.harness_errors:
            print('HARNESS', t)
        print('violations:', len(mon.viol))
        return 1 if mon.viol else 0
    sample = int(os.environ.get('VERIF_SAMPLE', '1'))    # development: a part of the cases only
    lists = [[(k, c) for c in mod.cases(tier, seed)][seed % sample::sample] for k, mod in enumerate(mods)]
    # interleave, so a deadline cuts every module alike
    cases = [c for _, c in sorted(((j / max(1, len(l)), k), c) for k, l in enumerate(lists) for j, c in enumerate(l))] if len(lists) > 1 else lists[0]
    budget = max(getattr(mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 700) for mod in mods)
    deadline = t0 + budget
    nproc = min(int(os.environ.get('VERIF_PROCS', '8')), max(1, len(cases)))
    mon = Mon()
    if nproc <= 1 or any(getattr(mod, 'SERIAL', False) for mod in mods):
        mon.merge(_worker((modnames, cases, deadline)))
    else:
        nchunk = min(len(cases), nproc * 8)
        chunks = [cases[k::nchunk] for k in range(nchunk)]
        mp = multiprocessing.get_context('fork')
        with mp.Pool(nproc) as pool:
            # a worker that is killed outright would make a plain map() wait for ever
            res = pool.map_async(_worker, [(modnames, c, deadline) for c in chunks], chunksize=1)
            try:
                for m in res.get(timeout=budget + CASE_TIMEOUT + 60):
                    mon.merge(m)
            except multiprocessing.TimeoutError:
                print('check error: workers did not finish')
                return 3
    for mod in mods:
        if hasattr(mod, 'finish'):
            mod.finish(mon, tier, seed)
    known, _ = load_known()
    # every listed finding of this property is announced; observed or not is stated
    seen_known, new = {}, []
    for key, msg, case in mon.viol:
        if (prop, key) in known:
            seen_known[key] = msg
        else:
            new.append((key, msg, case))
    for (p, key), text in known.items():
        if p == prop:
            print(f'KNOWN-FINDING: property={prop} {key}: {text}' + ('' if key in seen_known else ' (not exercised in this run)'))
    wall = time.time() - t0
    cov = {
        'evaluations': mon.evaluations,
        'distinct_nontrivial': len(mon.sigs),
        'rule': ' || '.join(mod.RULE for mod in mods),
        'samples': mon.samples[:6],
        'observed_events': dict(sorted(mon.events.items())),
        'inconclusive': mon.inconc,
        'known_findings_observed': sorted(seen_known),
    }
    if mon.max:
        cov['maxima'] = mon.max
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': sorted({x for mod in mods for x in getattr(mod, 'ASSUMPTIONS', [])}), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        done = set()
        for key, msg, case in new:
            if key in done:
                continue
            done.add(key)
            path = os.path.join(VERIF, 'replays', f'{prop}-{zlib.crc32(key.encode()):08x}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'case': case, 'message': msg, 'seed': seed, 'tier': tier}, f, indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  key={key}\n  ' + msg.replace('\n', '\n  '))
        rc = 1
    elif mon.harness_errors:
        print(f'check error: {len(mon.harness_errors)} harness errors; first:')
        print(mon.harness_errors[0][0])
        print(mon.harness_errors[0][1])
        rc = 4
    need = {k: n for mod in mods for k, n in getattr(mod, 'MIN_EVENTS', {}).items()}
    if rc == 0 and sample == 1:
        for k, n in need.items():
            if mon.events.get(k, 0) < n:
                print(f'check error: monitor saw only {mon.events.get(k, 0)} "{k}" events, expected at least {n}')
                rc = 5
    print(f'{prop} {tier} seed={seed}: {mon.evaluations} cases, {len(mon.sigs)} distinct, '
          f'{len(new)} new violations, {len(seen_known)} known, {sum(mon.inconc.values())} inconclusive, {wall:.1f}s')
    return rc


def totuple(x):
    if isinstance(x, list):
        return tuple(totuple(v) for v in x)
    return x


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vt_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
