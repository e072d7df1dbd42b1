"""P01, P02, P04: one node at a time against the operator's definition."""
import numpy as np
from vt import core, opcases, oracle, optool

PROP = None
WHAT = None
BUDGET = {'quick': 120, 'thorough': 700}
ASSUMPTIONS = [
    'the onnx reference evaluator, or the definition written out in vt/oracle.py for the operators listed there, is the trusted semantics; '
    'a case where it and onnx shape inference disagree is inconclusive',
    'float results are compared with relative and absolute tolerance 1e-4 (1e-2 for float16)',
    'a NotImplementedError from value evaluation is a refusal, not a wrong value',
]
MIN_EVENTS = {}


def for_prop(prop):
    global PROP, WHAT, RULE, MIN_EVENTS
    PROP = prop
    WHAT = {'P01': 'shape', 'P02': 'dtype', 'P04': 'value'}[prop]
    RULE = ('random one-node ONNX models over every registered ONNX operator (attributes, optional inputs, ranks, static or run-time operands, any allowed element type, any operator-set version taking the node, attributes spelled out with their defaults, drawn by '
            'vt/opcases.py); the real Model is loaded and inferred and the recorded output ' + WHAT + ' is compared with the operator definition; a case counts as '
            'distinct by (operator, attributes, input shapes and types), and as non-trivial when the oracle decided it')
    MIN_EVENTS = {f'{WHAT}_compared': 1000, 'other_element_types': 100, 'other_operator_sets': 100, 'explicit_defaults': 100}


RULE = ''


def cases(tier, seed):
    n = {'quick': 1000, 'thorough': 40000}[tier]
    if WHAT == 'value':
        n = {'quick': 700, 'thorough': 30000}[tier]
    # round robin over operators so that a deadline cuts all of them equally
    return [(op, seed, k) for k in range(n) for op in opcases.GEN]


def ndt(d):
    try:
        d = np.dtype(d)
        return np.dtype(object) if d.kind in 'SU' else d      # all ways to hold strings
    except Exception:
        return d


def run(case, mon):
    op, seed, k = case
    c = opcases.make(op, core.rng_for('op', op, seed, k))
    model, feeds, outs = oracle.op_model(c)
    exp, why = oracle.expected(c, model, feeds, outs)
    if exp is None:
        mon.inconclusive(why)
        return
    sig = (op, sorted((a, str(v)) for a, v in c.attrs.items()), [None if x is None else (str(x.dtype), x.shape) for x in c.inputs], sorted(c.static))
    d = c.describe()
    if WHAT == 'value' and (c.novalue or all(e.value is None for e in exp)):
        mon.event('no_reference_value')
        return
    mon.event(f'op_{op}')
    for mark, ev in (('_as_', 'other_element_types'), ('_opset', 'other_operator_sets'), ('_spelled', 'explicit_defaults'), ('_ends', 'ends_of_the_number_range')):
        if mark in c.reg:
            mon.event(ev)
    if len(mon.samples) < 2:
        mon.sample(d)
    if WHAT == 'value':
        try:
            got, _ = optool.tool_values(model, feeds, outs)
        except NotImplementedError:
            mon.event('value_refused')
            return
        except Exception as e:
            mon.violation(f'{c.key()}:raise', f'value inference of a legal node raised {e!r}\n{d}')
            return
        for o, e in zip(outs, exp):
            if e.value is None:
                continue
            mon.event('value_compared')
            g = got[o]
            if g is None:
                mon.violation(f'{c.key()}:novalue', f'no value computed for {o}\n{d}')
            elif not oracle.close(g, e.value, 2e-2 if e.dtype == np.float16 else c.tol):
                mon.violation(f'{c.key()}:value', f'{o}: tool {np.asarray(g).tolist()} reference {e.value.tolist()}\n{d}')
            elif ndt(np.asarray(g).dtype) != ndt(e.dtype):
                mon.violation(f'{c.key()}:vdtype', f'{o}: tool {np.asarray(g).dtype} reference {e.dtype}\n{d}')
        mon.distinct(sig)
        return
    try:
        got, _ = optool.tool_shapes(model, feeds, outs)
    except Exception as e:
        # P01 judges whether shape inference works at all, P02 only what it recorded
        if WHAT == 'shape':
            mon.violation(f'{c.key()}:raise', f'shape inference of a legal node raised {e!r}\n{d}')
        else:
            mon.inconclusive('shape inference raised')
        return
    for o, e in zip(outs, exp):
        if o not in got:
            mon.violation(f'{c.key()}:missing', f'{o} not inferred\n{d}')
            continue
        mon.event(f'{WHAT}_compared')
        if WHAT == 'shape' and list(got[o][0]) != e.shape:
            mon.violation(f'{c.key()}:shape', f'{o}: tool {got[o][0]} reference {e.shape}\n{d}')
        if WHAT == 'dtype' and ndt(got[o][1]) != ndt(e.dtype):
            mon.violation(f'{c.key()}:dtype', f'{o}: tool {got[o][1]} reference {e.dtype}\n{d}')
    mon.distinct(sig)
