"""P38: text generation with a language model (inference/llm_infer.py on the real engine and kernels)."""
import importlib.util
import os
import sys
import types
import numpy as np
from vt import faketorch_ops
from vt.core import rng_for, quiet, scratch, REPO

PROP = 'P38'
_m = {}
F32 = np.float32


class Handle:
    def __init__(self, path, framework=None, device=None):
        self.d = dict(np.load(path + '.npz'))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def keys(self):
        return list(self.d)

    def get_tensor(self, k):
        return faketorch_ops.W(self.d[k].copy())


class Words:
    """one token per word 'tN'"""
    def __init__(self, eos, skip=()):
        self.eos_token_id, self.pad_token_id = eos, eos

    def encode(self, text, **k):
        return [int(w[1:]) for w in text.split()]

    spy = None

    def decode(self, ids, skip_special_tokens=False, **k):
        if self.spy is not None:
            self.spy.append(list(ids))
        return ' '.join(f't{int(i)}' for i in ids if not (skip_special_tokens and int(i) == self.eos_token_id))


def module():
    if _m:
        return _m['m'], _m['t']
    t, F = faketorch_ops.module()
    sys.modules['torch'], sys.modules['torch.nn'], sys.modules['torch.nn.functional'] = t, t.nn, F
    st = types.ModuleType('safetensors')
    st.safe_open = Handle
    sys.modules['safetensors'] = st
    tr = types.ModuleType('transformers')
    tr.AutoTokenizer = type('AutoTokenizer', (), {'from_pretrained': staticmethod(lambda *a, **k: _m['words'])})
    sys.modules['transformers'] = tr
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = None
    for name in ('memory_pool', 'kernels', 'infer', 'llm_infer'):
        spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, 'inference', name + '.py'))
        out = importlib.util.module_from_spec(spec)
        sys.modules[name] = out
        spec.loader.exec_module(out)
    _m['m'], _m['t'] = out, t
    return out, t


# ---------------------------------------------------------------- the model by its definition
def weights(rng, c):
    h, n, kv, d, f, v = c['hidden_size'], c['num_attention_heads'], c['num_key_value_heads'], c['head_dim'], c['intermediate_size'], c['vocab_size']
    w = {}
    mat = lambda *s: (rng.normal(0, 1, s) / np.sqrt(s[-1]) * 1.5).astype(F32)
    vec = lambda s: rng.uniform(.5, 1.5, s).astype(F32)
    w['model.embed_tokens.weight'] = rng.normal(0, 1, (v, h)).astype(F32)
    arch = c['architectures'][0]
    for i in range(c['num_hidden_layers']):
        p = f'model.layers.{i}.'
        w[p + 'input_layernorm.weight'], w[p + 'post_attention_layernorm.weight'] = vec(h), vec(h)
        for k, o in (('q', n * d), ('k', kv * d), ('v', kv * d)):
            w[p + f'self_attn.{k}_proj.weight'] = mat(o, h)
            if biased(c):
                w[p + f'self_attn.{k}_proj.bias'] = rng.normal(0, .5, o).astype(F32)
        w[p + 'self_attn.o_proj.weight'] = mat(h, n * d)
        if c.get('attention_bias'):
            w[p + 'self_attn.o_proj.bias'] = rng.normal(0, .5, h).astype(F32)
        if arch.startswith('Qwen3'):
            w[p + 'self_attn.q_norm.weight'], w[p + 'self_attn.k_norm.weight'] = vec(d), vec(d)
        w[p + 'mlp.gate_proj.weight'], w[p + 'mlp.up_proj.weight'], w[p + 'mlp.down_proj.weight'] = mat(f, h), mat(f, h), mat(h, f)
        if c.get('mlp_bias'):
            for k, o in (('gate', f), ('up', f), ('down', h)):
                w[p + f'mlp.{k}_proj.bias'] = rng.normal(0, .5, o).astype(F32)
    w['model.norm.weight'] = vec(h)
    if not c.get('tie_word_embeddings'):
        w['lm_head.weight'] = mat(v, h)
    return w


def biased(c):
    return c.get('attention_bias', c['architectures'][0].startswith('Qwen2'))


def logits(w, c, ids):
    f = {k: v.astype(np.float64) for k, v in w.items()}
    n, kv, d = c['num_attention_heads'], c['num_key_value_heads'], c['head_dim']
    rms = lambda x, g: x / np.sqrt((x * x).mean(-1, keepdims=True) + c['rms_norm_eps']) * g
    S = len(ids)
    ang = np.arange(S)[:, None] / c.get('rope_theta', 1e4) ** (np.arange(0, d, 2) / d)[None]
    cos, sin = np.cos(ang)[:, None], np.sin(ang)[:, None]

    def rope(x):
        a, b = x[..., :d // 2], x[..., d // 2:]
        return np.concatenate([a * cos - b * sin, b * cos + a * sin], -1)
    x = f['model.embed_tokens.weight'][ids]
    for i in range(c['num_hidden_layers']):
        p = f'model.layers.{i}.'
        h = rms(x, f[p + 'input_layernorm.weight'])
        q, k, v = [(h @ f[p + f'self_attn.{a}_proj.weight'].T + f.get(p + f'self_attn.{a}_proj.bias', 0)).reshape(S, -1, d) for a in 'qkv']
        if p + 'self_attn.q_norm.weight' in f:
            q, k = rms(q, f[p + 'self_attn.q_norm.weight']), rms(k, f[p + 'self_attn.k_norm.weight'])
        q, k = rope(q), rope(k)
        k, v = np.repeat(k, n // kv, 1), np.repeat(v, n // kv, 1)
        s = np.einsum('qhd,khd->hqk', q, k) / np.sqrt(d)
        s = np.where(np.tril(np.ones((S, S), bool)), s, -np.inf)
        s = np.exp(s - s.max(-1, keepdims=True))
        s /= s.sum(-1, keepdims=True)
        x = x + np.einsum('hqk,khd->qhd', s, v).reshape(S, n * d) @ f[p + 'self_attn.o_proj.weight'].T + f.get(p + 'self_attn.o_proj.bias', 0)
        h = rms(x, f[p + 'post_attention_layernorm.weight'])
        g, u = [h @ f[p + f'mlp.{a}_proj.weight'].T + f.get(p + f'mlp.{a}_proj.bias', 0) for a in ('gate', 'up')]
        x = x + (g / (1 + np.exp(-g)) * u) @ f[p + 'mlp.down_proj.weight'].T + f.get(p + 'mlp.down_proj.bias', 0)
    return rms(x, f['model.norm.weight']) @ f.get('lm_head.weight', f['model.embed_tokens.weight']).T


def config(rng):
    arch = str(rng.choice(['Qwen3ForCausalLM', 'Qwen2ForCausalLM', 'LlamaForCausalLM']))
    kv = int(rng.choice([1, 2]))
    n = kv * int(rng.choice([1, 2, 3]))
    d = int(rng.choice([4, 6, 8]))
    h = int(rng.choice([8, 12, 20])) if arch.startswith('Qwen3') else n * d
    c = dict(name='tiny', architectures=[arch], hidden_size=h, num_attention_heads=n, num_key_value_heads=kv, num_hidden_layers=int(rng.integers(1, 4)), intermediate_size=int(rng.integers(5, 30)),
                head_dim=d, vocab_size=int(rng.integers(20, 60)), hidden_act='silu', max_position_embeddings=int(rng.choice([64, 256])), rms_norm_eps=float(rng.choice([1e-6, 1e-5, .02])),
                rope_theta=float(rng.choice([1e4, 1e6])), tie_word_embeddings=bool(rng.random() < .5))
    if not arch.startswith('Qwen2') and rng.random() < .5:
        c['attention_bias'] = bool(rng.random() < .5)
    if arch.startswith('Llama') and rng.random() < .3:
        c['mlp_bias'] = bool(rng.random() < .7)
    if not c['tie_word_embeddings'] and rng.random() < .3:
        del c['tie_word_embeddings']
    if c['rope_theta'] == 1e4 and rng.random() < .5:
        del c['rope_theta']
    return c


RULE = ('tiny Qwen2, Qwen3 and Llama models with random sizes and weights, exported by the Builder with and without a cache, run by LLMInfer on the real engine and kernels: the logits of every step '
        'against a float64 computation of the whole sequence written out here, the tokens chosen, where the text ends, several prompts one after the other, sequences fed in random chunks, '
        'and the command line; non-trivial when at least two different tokens were generated')
BUDGET = {'quick': 90, 'thorough': 500}
ASSUMPTIONS = ['torch, safetensors and the tokenizer are replaced by stand-ins', 'float32 on the CPU', 'sequences within the lengths the model was exported for',
               'tokens whose logits are within 0.001 of the best may be chosen']
MIN_EVENTS = {'steps_compared': 3000, 'texts_checked': 1000, 'chunks_fed': 600, 'command_lines': 100, 'cache_models': 200, 'plain_models': 100, 'draws_compared': 300}


def cases(tier, seed):
    for i in range(900 if tier == 'quick' else 30000):
        yield ('main' if i % 6 == 5 else 'model', seed, i)


def need(mon, key, ok, msg):
    if not ok:
        mon.violation(key, msg)
    return bool(ok)


def close(mon, got, want, what):
    got, want = np.asarray(got, np.float64), np.asarray(want)
    if got.shape != want.shape:
        mon.violation('logits', f'{what}: logits of the shape {got.shape}, the model has {want.shape}')
        return False
    err = np.abs(got - want).max() if np.isfinite(got).all() else np.inf
    need(mon, 'logits', err <= 2e-3 * max(1, np.abs(want).max()), f'{what}: the logits differ from those of the model by {err:.3g} (they go up to {np.abs(want).max():.3g})')
    return err <= 2e-3


class Watch:
    """the tokens a run of the engine was fed and the logits it gave"""
    def __init__(self, e):
        self.log, self.e = [], e
        self.real = e.engine.forward

        def forward(*a, **k):
            feed = a[0] if a else k['inputs']
            out = self.real(*a, **k)
            self.log.append((feed['ids'].a[0].tolist(), out[e.logits_name].a[0].copy()))
            return out
        e.engine.forward = forward


def ended(w, c, tokens, eos, kw):
    """could the token after these be the end token (which is not part of the text anyway)"""
    row = logits(w, c, tokens)[-1]
    if kw.get('temperature', 0) > 0 and kw.get('top_k') != 1:
        return not kw.get('top_k') or row[eos] >= np.sort(row)[-kw['top_k']] - 1e-3
    return row[eos] >= row.max() - 1e-3 * max(1, abs(row.max()))


def judge(mon, w, c, prompt, tokens, text, kw, eos, words, what):
    """the tokens of a finished text"""
    mon.event('texts_checked')
    if not need(mon, 'prompt', tokens[:len(prompt)] == prompt, f'{what}: the text starts with {tokens[:len(prompt)]}, the prompt is {prompt}'):
        return
    new = tokens[len(prompt):]
    room = max(0, kw['max_length'] - len(prompt))
    if eos in new:
        need(mon, 'end', new.index(eos) == len(new) - 1, f'{what}: {new} goes on after the end token {eos}')
        need(mon, 'length', len(new) <= room, f'{what}: {len(new)} tokens generated, at most {room} were left')
    elif len(new) < room and eos >= 0 and ended(w, c, tokens, eos, kw):
        mon.event('end_tokens_left_out')
    else:
        need(mon, 'length', len(new) == room, f'{what}: {len(new)} tokens generated without an end token, {room} were left of max_length {kw["max_length"]} after a prompt of {len(prompt)}')
    if text is not None:
        need(mon, 'text', text == words.decode(tokens, skip_special_tokens=True), f'{what}: the text {text!r} is not that of the tokens {tokens}')
    if not new:
        return
    ref = logits(w, c, tokens)
    for j, tok in enumerate(new):
        row = ref[len(prompt) + j - 1]
        greedy = kw.get('temperature', 0) == 0 or kw.get('top_k') == 1
        limit = row.max() if greedy else np.sort(row)[-kw['top_k']] if kw.get('top_k') else -np.inf
        if not need(mon, 'choice', row[tok] >= limit - 1e-3 * max(1, abs(limit)) if np.isfinite(limit) else True,
                         f'{what}: token {j} after the prompt is {tok} with the logit {row[tok]:.4f}; the best is {int(row.argmax())} with {row.max():.4f}, the limit {limit:.4f}'):
            return
        mon.event('tokens_judged')


def model_case(rng, mon):
    m, t = module()
    from onnx_tool.llm import Builder
    c = config(rng)
    w = weights(rng, c)
    cache = rng.random() < .65
    S = int(rng.integers(8, 20))
    ctx = int(rng.choice([S, S + 1, S + 13]))
    words = Words(-1)
    with scratch() as d:
        np.savez(os.path.join(d, 'm.safetensors.npz'), **w)
        with quiet():
            b = Builder(**c)
            b.build_graph([1, S])
            if cache:
                b.add_kv_cache(ctx, 0)
            b.save_graph(os.path.join(d, 'm.onnx'))
            _m['words'] = words
            e = m.LLMInfer(os.path.join(d, 'm.onnx'), model_name='tiny', safetensors_path=os.path.join(d, 'm.safetensors'), weight_map=m.get_qwen3_weight_map(c), device='cpu',
                           dtype=t.float32, max_seq_len=S, config=c)
    mon.event('cache_models' if cache else 'plain_models')
    watch = Watch(e)
    base = f'{c["architectures"][0]} {({k: v for k, v in c.items() if isinstance(v, (int, float)) and not k.startswith("max")})} cache={ctx if cache else None} length={S}'
    for r in range(int(rng.integers(2, 5))):
        n = int(rng.integers(1, S - 3))
        prompt = rng.integers(0, c['vocab_size'], n).tolist()
        kw = dict(max_length=int(rng.choice([n, n + 1, rng.integers(n, S + 1), S, max(1, n - 1)])), verbose=bool(rng.random() < .3), profile=bool(rng.random() < .2))
        mode = rng.random()
        if mode < .3:
            kw['temperature'] = float(rng.choice([.3, 1., 2.]))
            kw['top_k'] = int(rng.choice([0, 1, 1, 2, 5]))
        elif mode < .4:
            kw['top_k'] = 3
        words.eos_token_id = -1
        if rng.random() < .4:
            seq = list(prompt)
            for _ in range(int(rng.integers(1, max(2, kw['max_length'] - n + 1)))):
                seq.append(int(logits(w, c, seq)[-1].argmax()))
            words.eos_token_id = seq[-1]
        what = f'{base}; text {r} {prompt} {kw} end={words.eos_token_id}'
        faketorch_ops.RANDOM[0] = rng
        if rng.random() < .25:      # a text given up for a token the model does not have
            bad = list(prompt)
            bad[int(rng.integers(len(bad)))] = c['vocab_size'] + 3
            try:
                with quiet():
                    e.generate(' '.join(f't{i}' for i in bad), **kw)
            except (IndexError, RuntimeError, ValueError):
                mon.event('texts_given_up')
            watch.log.clear()
        watch.log.clear()
        seen = []
        words.spy = seen
        drawn = faketorch_ops.DRAWN
        drawn.clear()
        with quiet():
            text = e.generate(' '.join(f't{i}' for i in prompt), **kw)
        tokens = [int(v) for v in seen[-1]]
        judge(mon, w, c, prompt, tokens, text, kw, words.eos_token_id, words, what)
        mon.sample({'model': base, 'prompt': prompt, 'tokens': tokens, 'arguments': {k: v for k, v in kw.items()}})
        # the runs of the engine: the last ones belong to this text
        new = len(tokens) - n
        steps = new + (words.eos_token_id >= 0 and words.eos_token_id not in tokens[n:] and new < kw['max_length'] - n)
        log = watch.log[len(watch.log) - steps:] if new else []
        ref = logits(w, c, tokens) if new else None
        if kw.get('temperature', 0) > 0 and len(drawn) == new:
            for j, p in enumerate(drawn):
                row = ref[n + j - 1] / kw['temperature']
                best = np.sort(row)[-kw['top_k']:] if kw['top_k'] else row
                if len(best) < len(row) and best[0] - np.sort(row)[-len(best) - 1] < 1e-2:
                    continue
                q = np.where(row >= best[0], np.exp(row - row.max()), 0) if kw['top_k'] else np.exp(row - row.max())
                q /= q.sum()
                mon.event('draws_compared')
                need(mon, 'draw', p.shape == q.shape and np.abs(p - q).max() < 1e-2, f'{what}: step {j} draws with probabilities which differ by {np.abs(p - q).max() if p.shape == q.shape else p.shape} from the softmax of the logits over the temperature')
        for j, (ids, out) in enumerate(log):
            mon.event('steps_compared')
            have = tokens[:n + j]
            if j and cache:
                ok = need(mon, 'fed', ids == have[-1:] or ids == have, f'{what}: step {j} is fed {ids}, the sequence is {have}')
            else:
                ok = need(mon, 'fed', ids == have, f'{what}: step {j} is fed {ids}, the sequence is {have}')
            if not ok or not close(mon, out[-1], ref[n + j - 1], f'{what}: step {j}'):
                return
        if len(set(tokens[n:])) > 1:
            mon.distinct((c['architectures'][0], bool(cache), n, new, kw.get('temperature', 0) > 0, r))
    if cache:
        chunks(rng, mon, e, w, c, S, base)


def chunks(rng, mon, e, w, c, S, base):
    """one sequence fed in pieces: every position has the logits of the whole sequence"""
    W = faketorch_ops.W
    n = int(rng.integers(2, S + 1))
    ids = rng.integers(0, c['vocab_size'], n)
    ref = logits(w, c, ids)
    at, cuts = 0, []
    while at < n:
        k = int(rng.integers(1, n - at + 1))
        cuts.append(k)
        feed = dict(ids=W(ids[None, at:at + k].copy()), position=W(np.arange(at, at + k)[None]), n_past=W(np.array(at, np.int64)))
        if not at:
            feed['kv_cache'] = W(np.zeros(e.engine._cg.tensormap['kv_cache'].get_shape(), F32))
        with quiet():
            out = e.engine.forward(feed, debug=False)[e.logits_name].a[0].copy()
        mon.event('chunks_fed')
        if not close(mon, out, ref[at:at + k], f'{base}: the sequence {ids.tolist()} in the pieces {cuts}'):
            return
        at += k


def main_case(rng, mon):
    m, t = module()
    import json
    c = config(rng)
    w = weights(rng, c)
    words = Words(-1)
    seen = words.spy = []
    n = int(rng.integers(1, 6))
    prompt = rng.integers(0, c['vocab_size'], n).tolist()
    kw = dict(max_length=n + int(rng.integers(1, 8)))
    with scratch() as d:
        where = os.path.join(d, 'some-model')
        os.mkdir(where)
        c2 = dict(c)
        if c['hidden_size'] == c['num_attention_heads'] * c['head_dim'] and rng.random() < .5:
            c2.pop('head_dim')
        with open(os.path.join(where, 'config.json'), 'w') as f:
            json.dump(c2, f)
        open(os.path.join(where, 'model.safetensors'), 'w').close()
        np.savez(os.path.join(where, 'model.safetensors.npz'), **w)
        _m['words'] = words
        argv = sys.argv
        for again in range(int(rng.integers(1, 3))):      # the second run finds the exported model
            sys.argv = ['llm_infer.py', str(rng.choice(['--model-dir', '--model-name'])), where, '--prompt', ' '.join(f't{i}' for i in prompt), '--max-len', str(kw['max_length']), '--device', 'cpu']
            seen.clear()
            try:
                with quiet():
                    m.main()
            finally:
                sys.argv = argv
            mon.event('command_lines')
            judge(mon, w, c, prompt, [int(v) for v in seen[-1]], None, kw, -1, words, f'command line {c} {prompt} {kw} run {again}')
    mon.distinct(('main', c['architectures'][0], n, kw['max_length']))


def run(case, mon):
    kind, seed, i = case
    rng = rng_for('P38', kind, seed, i)
    (main_case if kind == 'main' else model_case)(rng, mon)
