"""P26 / P27: language models built from a configuration, compared with what the configuration alone implies (vt/llmspec.py)."""
import copy
import csv
import os
import numpy as np
from vt import llmspec
from vt.core import rng_for, quiet, scratch

PROP = 'P26'
RULE = ('random small configurations of every supported architecture (heads, grouped heads, explicit head sizes, biases, expert counts, ranks, layer type patterns, alternative '
        'spellings and omitted options) and every predefined configuration, for random batch, prompt and cache lengths and decode steps after the prompt; the expected numbers come '
        'from the configuration alone; a case is non-trivial when its graph was profiled; distinct by architecture, options and sizes')
ASSUMPTIONS = ['linear attention is counted as documented (quadratic in the sequence), hyper-connections and multi-token prediction are not modelled (llm.py)',
               'one normalization row per token is counted for head norms']
MIN_EVENTS = {'profiles_compared': 300}


def for_prop(p):
    global PROP, MIN_EVENTS
    PROP = p
    MIN_EVENTS = {'P26': {'profiles_compared': 300, 'decode_steps_compared': 100}, 'P27': {'latencies_compared': 300, 'cache_sizes_compared': 200}}[p]


ARCHS = list(llmspec.ARCH) + ['MistralForCausalLM']


def cases(tier, seed):
    for k in range(len(PREDEFINED)):
        yield ('known', seed, k)
    n = 1200 if tier == 'quick' else 12000
    for i in range(n):
        for a in ARCHS:
            yield ('config', a, seed, i)
    for i in range(n):
        yield ('vision', seed, i)


# published parameter counts of the predefined configurations (weights only)
PREDEFINED = {'phi3_mini': 3821079552, 'QWen_7B': 7615616512, 'Llama3_8B': 8030261248, 'phi2': 2779683840, 'Qwen2_72B_Instruct': 72706203648,
              'llama_31_70B': 70553706496, 'Phi_3_medium_4k_instruct': 13960238080, 'Phi_3_small_8k_instruct': None, 'gptj_6b': 6050882784,
              'yi_34B': 34388917248, 'gpt2': 124439808 + 50257 * 768, 'llama2_7b': 6738415616}


def config(arch, rng):
    r = lambda a, b: int(rng.integers(a, b + 1))
    p = lambda q=.5: bool(rng.random() < q)
    kv = r(1, 4)
    n = kv * r(1, 4)
    d = 2 * r(1, 8)
    h = n * d
    c = {'architectures': [arch], 'hidden_size': h, 'num_attention_heads': n, 'num_key_value_heads': kv, 'num_hidden_layers': r(1, 4), 'vocab_size': r(60, 200),
         'intermediate_size': r(3, 60), 'hidden_act': ['silu', 'gelu_new'][r(0, 1)]}
    c['rms_norm_eps' if llmspec.ARCH.get(arch, {}).get('norm', 'rms') == 'rms' else 'layer_norm_eps'] = 1e-5
    if p():
        c['head_dim'] = 2 * r(1, 10)
    if p():
        c['max_position_embeddings'] = r(8, 60)
    if p(.3):
        c['rope_theta'] = 500000.0
    if p(.3):
        c['name'] = 'some/model'
    if p(.3):
        c['_name_or_path'] = 'x/y'
    if p(.2):
        c['tie_word_embeddings'] = False
    if arch.startswith('Phi3'):
        c['model_type'] = 'phi3small' if 'Small' in arch else 'phi3'
    elif p():
        c['model_type'] = 'some'
    if arch in ('LlamaForCausalLM', 'MistralForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Phi3ForCausalLM'):
        if p(.4):
            c['attention_bias'] = p()
        if p(.4):
            c['mlp_bias'] = p()
    elif p(.25):
        c[['attention_bias', 'mlp_bias'][r(0, 1)]] = p()
    if p(.2):
        c['final_logit_softcapping'] = 30.0
    if p(.2):
        c['attn_logit_softcapping'] = 50.0
    spec = llmspec.ARCH.get(arch, {})
    if spec.get('rope', True) and p(.3):
        D = c.get('head_dim', h // n)
        k = r(1, D // 2)
        if p():
            c['rotary_dim'] = 2 * k
        else:
            c['partial_rotary_factor'] = [.25, .4, .5, .75][r(0, 3)]
    if 'Qwen3_5' in arch or p(.15):
        if not spec.get('mla') or p():
            c['layer_types'] = [['linear_attention', 'full_attention'][r(0, 1)] for _ in range(c['num_hidden_layers'])]
            if spec.get('norm', 'rms') != 'rms':
                del c['layer_types']
            elif p(.25):
                # a list of another length: what it does not name is full attention
                c['layer_types'] = (c['layer_types'] + ['linear_attention'] * 2)[:r(0, c['num_hidden_layers'] + 2)]
    if c.get('layer_types') and p(.8):
        c.update(linear_num_key_heads=r(1, 4), linear_num_value_heads=r(1, 8), linear_key_head_dim=r(1, 12), linear_value_head_dim=r(1, 12), linear_conv_kernel_dim=r(2, 5))
    if spec.get('mlp') == 'moe':
        c['num_experts' if p(.7) else 'num_local_experts'] = e = r(2, 24)
        c['num_experts_per_tok'] = r(1, min(6, e)) if p(.8) else r(1, e)
        if p(.7):
            c['moe_intermediate_size'] = r(2, 40)
        if spec.get('shared') and p(.7):
            c['shared_expert_intermediate_size'] = r(2, 40)
        if p(.1):
            for k in ('num_experts', 'num_local_experts'):
                c.pop(k, None)
    if spec.get('mla'):
        g = [k for k in range(1, n + 1) if (n * c.get('head_dim', h // n)) % k == 0]
        c.update(q_lora_rank=r(2, 20), o_lora_rank=r(2, 20), o_groups=g[r(0, len(g) - 1)], rope_head_dim=2 * r(0, c.get('head_dim', h // n) // 2), window_size=r(2, 40),
                 compress_ratio=[0, 2, 4, 8][r(0, 3)], index_n_heads=r(1, 6), index_head_dim=r(2, 12), index_topk=r(1, 20))
        c['num_key_value_heads'] = kv if p() else 1
        if p(.2):
            del c[['q_lora_rank', 'o_lora_rank', 'window_size', 'compress_ratio', 'index_n_heads', 'index_head_dim', 'index_topk'][r(0, 6)]]
    if arch == 'GPT2LMHeadModel':
        if p():
            c['n_positions'] = r(40, 90)
        if p():
            del c['intermediate_size']
    if arch in ('GPT2LMHeadModel', 'GPTJForCausalLM') and p(.7):    # the spellings of their own configurations
        for a, b in (('hidden_size', 'n_embd'), ('num_attention_heads', 'n_head'), ('num_hidden_layers', 'n_layer'), ('hidden_act', 'activation_function')):
            c[b] = c.pop(a)
        del c['num_key_value_heads']
        c.pop('layer_types', None)
        if 'intermediate_size' in c:
            v = c.pop('intermediate_size')
            c['n_inner'] = v if p() else None
        c['layer_norm_epsilon'] = c.pop('layer_norm_eps')
    if arch == 'Phi3SmallForCausalLM' and p():
        c['ff_intermediate_size'] = c.pop('intermediate_size')
        c['layer_norm_epsilon'] = c.pop('layer_norm_eps')
    items = list(c.items())
    return dict(items[i] for i in rng.permutation(len(items)))


def volume(s):
    return int(np.prod([int(x) for x in s])) if len(s) else 1


def compare(key, what, got, want, mon, scalars=0):
    """scalars: constants without dimensions, which may or may not be counted"""
    if not int(want) <= int(got) <= int(want) + scalars:
        mon.violation(key, f'{what}: {int(got)}, the configuration implies {int(want)} (difference {int(got) - int(want)})')
        return False
    return True


def check_profile(b, e, desc, mon, cached):
    """numbers of the profile just made against the expectation e"""
    g = b.graph
    arch = e.cfg.c['architectures'][0]
    if PROP == 'P26':
        nodes = list(g.nodemap.values())
        by = {}
        for n in nodes:
            by.setdefault(n.op_type, 0)
            by[n.op_type] += n.macs
        fused = sum(by.get(k, 0) for k in ('MatMul', 'MoE', 'MLA', 'GDN'))
        ok = compare(f'matmul-macs:{arch}', f'{desc}: multiply-adds of projections, experts and fused attention', fused, e.mm, mon)
        ok &= compare(f'attention-macs:{arch}', f'{desc}: multiply-adds of attention', by.get('SDPA', 0), e.att, mon)
        ok &= compare(f'other-macs:{arch}', f'{desc}: other operations', sum(v for k, v in by.items() if k not in ('MatMul', 'MoE', 'MLA', 'GDN', 'SDPA')), e.other, mon)
        compare('total-macs', f'{desc}: total MACs', g.macs[0], e.macs, mon)
        weights = {}
        for name in g.initials:
            weights[name] = volume(g.tensormap[name].get_shape())
        want = e.params + e.rope
        total = sum(v for n, v in weights.items() if len(g.tensormap[n].get_shape()))
        scalars = sum(len(g.tensormap[n].get_shape()) == 0 for n in weights)
        tied = e.cfg.tied and total == want
        if e.cfg.tied and total == want - e.head:
            want = total
        compare(f'parameters:{arch}', f'{desc}: parameters stored in the graph', total, want, mon)
        compare('parameter-total', f'{desc}: parameters reported (each weight once)', g.dedup_params, total, mon, scalars)
        if tied:
            mon.violation('tied-head-counted-twice', f'{desc}: tie_word_embeddings is set, the head is still counted as {e.head} parameters of its own')
        reads = [i for n in nodes for i in n.input]
        for n in set(weights) - set(reads):
            mon.violation('weight-unread', f'{desc}: weight {n} is read by no node')
        mon.event('profiles_compared')
        mon.event('weights_counted', len(weights))
        if cached:
            mon.event('decode_steps_compared')


def run(case, mon):
    kind = case[0]
    from onnx_tool import llm
    from onnx_tool.device import Devices
    if kind == 'known':
        return known(list(PREDEFINED)[case[2]], mon)
    if kind == 'vision':
        return vision_case(case, mon)
    _, arch, seed, i = case
    rng = rng_for('P26', arch, seed, i)
    c = config(arch, rng)
    tie = rng.random() < .05 or i == 0 and arch == 'LlamaForCausalLM'
    if tie:
        c['tie_word_embeddings'] = True
    given = copy.deepcopy(c)
    B, S = int(rng.integers(1, 4)), int(rng.integers(1, 20))
    past = int(rng.integers(0, 20))
    ctx = S + past + int(rng.integers(0, 30))
    mode = ['plain', 'cache', 'decode'][i % 3]
    with quiet():
        b = llm.Builder(**c)
        b.build_graph([B, S])
    if c != given:
        mon.violation('config-changed', f'{arch}: the configuration was changed')
    mla_cached = llmspec.ARCH.get(arch, {}).get('mla') and mode != 'plain'
    if mode == 'plain':
        past = 0
    else:
        with quiet():
            b.add_kv_cache(ctx, past if mode == 'cache' else 0)
        if mode == 'decode':
            past = 0
    step(b, given, B, S, past, f'{describe(given)} batch {B} prompt {S} cached {past}', mon, rng, built=True)
    if mode == 'decode':
        done = S
        for _ in range(3):
            k = int(rng.integers(1, 4))
            if done + k > ctx:
                break
            with quiet():
                b.set_past_kv_length(done)
                feed = {'ids': np.zeros([B, k], np.int64)}
                if 'position' in b.graph.tensormap:
                    feed['position'] = np.zeros([B, k], np.int64)
                b.graph.shape_infer(feed)
                if not b.graph.valid_shape:
                    mon.violation('decode-shape', f'{describe(given)}: shape inference of a decode step failed')
                    return
            step(b, given, B, k, done, f'{describe(given)} batch {B} decode {k} cached {done}', mon, rng)
            done += k
    if PROP == 'P26' and i % 4 == 0 and not mla_cached:
        exported(b, mode, mon, describe(given))
    mon.distinct((PROP, tuple(sorted((k, str(v)) for k, v in given.items())), B, S, mode))
    mon.sample({'configuration': {k: v for k, v in given.items()}, 'batch': B, 'prompt': S, 'mode': mode})


def exported(b, mode, mon, desc):
    """the saved file has the same nodes and, read back, the same operation counts"""
    import onnx
    import onnx_tool
    g = b.graph
    shapes = {n: [int(x) for x in g.tensormap[n].get_shape()] for n in g.input}
    nodes = sorted((n.name, n.op_type, tuple(n.input), tuple(n.output)) for n in g.nodemap.values())
    macs = g.macs[0]
    with scratch() as d:
        f = os.path.join(d, 'm.onnx')
        with quiet():
            b.save_graph(f)
        m = onnx.load(f)
        if sorted((n.name, n.op_type, tuple(n.input), tuple(n.output)) for n in m.graph.node) != nodes:
            mon.violation('export-nodes', f'{desc}: the saved file has other nodes than the graph')
        feed = {k: np.zeros(v, np.int64 if k in ('ids', 'position', 'n_past') else np.float32) for k, v in shapes.items()}
        if 'n_past' in feed:
            feed['n_past'] = g.tensormap['n_past'].get_numpy()
        with quiet():
            r = onnx_tool.Model(f, {'constant_folding': False}).graph
            r.shape_infer(feed)
            r.profile()
        if r.macs[0] != macs:
            mon.violation('export-macs', f'{desc}: the saved file profiles to {r.macs[0]} MACs, the built graph to {macs}')
    mon.event('exports_compared')


def describe(c):
    return ', '.join(f'{k}={v}' for k, v in sorted(c.items()) if k not in ('name', '_name_or_path', 'model_type', 'rope_theta'))


def step(b, c, B, S, past, desc, mon, rng, built=False):
    e = llmspec.expect(c, B, S, past)
    mla = e.cfg.has('mla') and past > 0 and not all(e.cfg.linear)
    if PROP == 'P26':
        with quiet():
            b.graph.valid_shape = True
            b.graph.profile()
        if mla:
            if b.graph.macs[0] == llmspec.expect(c, B, S, 0).macs:
                mon.violation('mla-ignores-cache', f'{desc}: latent attention is counted as though nothing was cached')
            else:
                mon.violation('mla-decode', f'{desc}: {b.graph.macs[0]} MACs, without a cache {llmspec.expect(c, B, S, 0).macs}')
            return
        check_profile(b, e, desc, mon, past > 0)
        return
    if built:
        mon.event('cache_sizes_compared')
        compare(f'kv-cache:{e.cfg.c["architectures"][0]}', f'{desc}: elements of the key/value cache', b.kv_params, e.kv_cache, mon)
    latencies(b, c, e, desc, mon, rng, mla)


def latencies(b, c, e, desc, mon, rng, mla):
    from onnx_tool.device import Devices
    dev_name = [None, *Devices][int(rng.integers(len(Devices) + 1))]
    dev = copy.deepcopy(Devices[dev_name]) if dev_name else None
    if dev and rng.random() < .3:
        dev['LinkBandwidth'] = float([0, 1, 50, 900][int(rng.integers(4))])
        if rng.random() < .8:
            dev['Number'] = int(rng.integers(1, 9))
    types = ['FP32', 'FP16', 'INT8', 'BF16']
    cfg = {'Compute': {k: types[int(rng.integers(4))] for k in ('MM', 'MHA', 'Others')},
           'Bits': {k: [4, 4.5, 8, 16, 32][int(rng.integers(5))] for k in ('MM', 'MHA', 'Others')}}
    if rng.random() < .2:
        cfg = None
    given = copy.deepcopy((cfg, dev))
    with quiet():
        b.profile(cfg, dev)
    if (cfg, dev) != given:
        mon.violation('arguments-changed', f'{desc}: profile changed its configuration or device')
    used = cfg or {'Compute': dict(MM='FP32', MHA='FP32', Others='FP32'), 'Bits': dict(MM=4.5, MHA=16, Others=32)}
    nodes = list(b.graph.nodemap.values())
    rows = [(n.op_type, n.macs, n.io_params, n.static_params, getattr(n, 'kv_size', 0) if n.op_type == 'SDPA' else 0) for n in nodes]
    want = llmspec.latency(rows, used, dev)
    near = lambda a, b: abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    for n, (f, m, t) in zip(nodes, want['per']):
        p = n.llm_profile
        got = p['Device']['latency'][2] if dev else 0
        if not (near(p['FLOPs'], f) and near(p['Memory'], m) and near(got, t)):
            mon.violation(f'node-time:{n.op_type}', f'{desc} on {dev_name} {dev} {used}: {n.name} has {p["FLOPs"]} FLOPs, {p["Memory"]} bytes, {got} s, expected {f}, {m}, {t}')
            break
    if not near(b.llm_profile[0], want['flops']) or not near(b.llm_profile[1], want['mem']) or not near(b.llm_profile[2], want['latency']):
        mon.violation('latency-total', f'{desc} on {dev_name}: totals {b.llm_profile}, expected {want["flops"]}, {want["mem"]}, {want["latency"]}')
    pools = want['pools']
    wp = [pools['MM'], pools['MHA'], pools['Others'], sum(pools.values())]
    if not all(near(a, x) for a, x in zip(b.context_mem, wp)):
        mon.violation('context-memory', f'{desc}: memory {b.context_mem}, expected {wp}')
    # the keys and values each layer reads, and the weights a forward pass touches, from the configuration
    got = [r[4] for r in rows if r[0] == 'SDPA']
    if [int(x) for x in got] != e.kv:
        mon.violation('kv-per-layer', f'{desc}: keys and values read per layer {got}, expected {e.kv}')
    act = sum(r[3] for r in rows)
    compare(f'activated:{e.cfg.c["architectures"][0]}', f'{desc}: activated parameters', act, e.active + e.rope_active, mon, int(e.cfg.cap is not None))
    moe = [n for n in nodes if n.op_type == 'MoE']
    mon.event('latencies_compared')
    mon.event('operators_timed', len(nodes))
    if moe:
        mon.event('expert_layers_compared', len(moe))
    if rng.random() < .25:
        report(b, nodes, want, dev, desc, mon, rng)


def report(b, nodes, want, dev, desc, mon, rng):
    with scratch() as d:
        f = os.path.join(d, 'r.csv')
        with quiet():
            b.print_profile(f)
        rows = list(csv.reader(open(f)))
    head, body = rows[0], rows[1:]
    if len(body) != len(nodes) + 1:
        mon.violation('report-rows', f'{desc}: {len(body)} rows for {len(nodes)} nodes')
        return
    timed = dev is not None
    for r, n, (fl, m, t) in zip(body, nodes, want['per']):
        row = dict(zip(head, r))
        bad = row['Name'] != n.name or int(float(row['FLOPs'])) != int(fl) or int(float(row['Memory(bytes)'])) != int(m)
        col = [k for k in head if k.startswith('Projected Latency')]
        if timed:
            unit = 1e3 if '(ms)' in col[0] else 1
            bad = bad or abs(float(row[col[0]]) - t * unit) > 1e-5
        if bad:
            mon.violation('report-row', f'{desc}: row {row}, node {n.name} {fl} {m} {t}')
            return
    row = dict(zip(head, body[-1]))
    if abs(float(row['FLOPs']) - want['flops']) > 1 or abs(float(row['Memory(bytes)']) - want['mem']) > 1 + 1e-9 * want['mem']:
        mon.violation('report-total', f'{desc}: {row}, expected {want["flops"]} {want["mem"]}')
    if timed and abs(float(row[col[0]]) - want['latency'] * unit) > 1e-5 + 1e-6 * want['latency'] * unit:
        mon.violation('report-total', f'{desc}: {row}, expected {want["latency"]} s')
    mon.event('reports_compared')


def known(name, mon):
    """the predefined configurations against published parameter counts"""
    from onnx_tool import llm
    c = getattr(llm, name)
    rng = rng_for('P26', name)
    with quiet():
        b = llm.Builder(**copy.deepcopy(c))
        b.build_graph([1, 1024])
    e = llmspec.expect(c, 1, 1024)
    if PREDEFINED[name] and abs(e.params - PREDEFINED[name]) > 13 * e.cfg.L:      # slice constants of fused projections
        raise AssertionError(f'oracle: {name} has {PREDEFINED[name]} published parameters, computed {e.params}')
    step(b, c, 1, 1024, 0, name, mon, rng, built=True)
    with quiet():
        b.add_kv_cache(4096, 0)
        b.set_past_kv_length(1024)
        feed = {'ids': np.zeros([1, 1], np.int64)}
        if 'position' in b.graph.tensormap:
            feed['position'] = np.zeros([1, 1], np.int64)
        b.graph.shape_infer(feed)
    step(b, c, 1, 1, 1024, name + ' decode', mon, rng)
    mon.distinct((PROP, name))


def vision_case(case, mon):
    from onnx_tool import llm
    _, seed, i = case
    rng = rng_for('P26v', seed, i)
    r = lambda a, b: int(rng.integers(a, b + 1))
    c = config('Qwen3_5ForConditionalGeneration', rng)
    heads = r(1, 4)
    c.update(vision_hidden_size=heads * r(2, 8), vision_num_layers=r(1, 3), vision_num_heads=heads, vision_patch_size=r(2, 5))
    if r(0, 1):
        c['vision_intermediate_size'] = r(3, 30)
    if r(0, 1):
        c['vision_head_dim'] = r(1, 9)
    if r(0, 1):
        c['projector_hidden_dim'] = r(3, 30)
    if r(0, 2):
        c['projector_type'] = ['mlp', 'linear'][r(0, 1)]
    shape = [r(1, 4), c['vision_patch_size'] * r(1, 5) + r(0, 1), c['vision_patch_size'] * r(1, 5) + r(0, 1)]
    e = llmspec.vision(c, *shape)
    with quiet():
        b = llm.Builder(**c)
        b.build_vision_graph(list(shape))
        b.graph.valid_shape = True
        b.graph.profile()
    g = b.graph
    desc = f'vision {shape} ' + ', '.join(f'{k}={v}' for k, v in c.items() if 'vision' in k or 'projector' in k or k == 'hidden_size')
    if PROP == 'P26':
        by = {}
        for n in g.nodemap.values():
            by[n.op_type] = by.get(n.op_type, 0) + n.macs
        compare('vision-matmul', f'{desc}: projections', by.get('MatMul', 0) + by.get('Conv', 0), e.mm, mon)
        compare('vision-attention', f'{desc}: attention', by.get('SDPA', 0), e.att, mon)
        compare('vision-macs', f'{desc}: total MACs', g.macs[0], e.macs, mon)
        compare('vision-parameters', f'{desc}: parameters', g.dedup_params, e.params, mon)
        built, first = g.macs[0], {k: [int(x) for x in t.get_shape()] for k, t in g.tensormap.items()}
        with quiet():
            g.shape_infer({'pixel_values': np.zeros([1, *shape], np.float32)})
            g.profile()
        last = {k: [int(x) for x in t.get_shape()] for k, t in g.tensormap.items() if k in first}
        if g.macs[0] != built or last != first:
            mon.violation('vision-inferred', f'{desc}: built with {built} MACs, inferred for the same image {g.macs[0]}; '
                          f'{[(k, first[k], v) for k, v in last.items() if v != first[k]][:3]}')
        mon.event('vision_graphs_inferred')
        out = [int(x) for x in g.tensormap[g.output[0]].get_shape()]
        if out != [1, e.tokens, c['hidden_size']]:
            mon.violation('vision-output', f'{desc}: output {out}, expected {[1, e.tokens, c["hidden_size"]]}')
        mon.event('profiles_compared')
    else:
        dev = None
        rows = [(n.op_type, n.macs, n.io_params, n.static_params, getattr(n, 'kv_size', 0) if n.op_type == 'SDPA' else 0) for n in g.nodemap.values()]
        with quiet():
            b.profile()
        want = llmspec.latency(rows, b.DefaultCfg, None)
        if abs(b.llm_profile[1] - want['mem']) > 1e-9 * want['mem']:
            mon.violation('vision-memory', f'{desc}: {b.llm_profile}, expected {want["mem"]}')
        mon.event('latencies_compared')
    mon.distinct((PROP, 'vision', tuple(shape), tuple(sorted((k, str(v)) for k, v in c.items() if 'vision' in k or 'proj' in k))))
