"""Transformer language models: parameters, operation counts, key/value cache sizes and times computed from the configuration alone.

Written from the published architectures and from the descriptions in onnx_tool/llm.py and node.py (docstrings), not from the builder's
graph: nothing here looks at a graph."""
import numpy as np

DIV, EXP, SQRT, SIN = 4, 32, 24, 39
TANH = EXP + 2 + DIV
NORM_EL, NORM_ROW = 7, 1 + SQRT + DIV          # per element / per normalized row
ROPE_EL, SILU_EL, GELU_EL = 2 * SIN + 2, EXP + 1, EXP + 2

# architecture -> what its blocks are made of
ARCH = {
    'LlamaForCausalLM': dict(norm='rms', mlp='gated'),
    'Qwen2ForCausalLM': dict(norm='rms', mlp='gated', qkv_bias=True),
    'Qwen3ForCausalLM': dict(norm='rms', mlp='gated', qk_norm=True),
    'Qwen3_5ForConditionalGeneration': dict(norm='rms', mlp='gated', qk_norm=True, gated=True),
    'Qwen3_5MoeForCausalLM': dict(norm='rms', mlp='moe', qk_norm=True, gated=True, shared=True, shared_gate=True),
    'DeepSeekV4ForCausalLM': dict(norm='rms', mlp='moe', mla=True, shared=True),
    'MiniMaxM2ForCausalLM': dict(norm='rms', mlp='moe', qk_norm=True),
    'Phi3ForCausalLM': dict(norm='rms', mlp='fused', fused_qkv=True),
    'PhiForCausalLM': dict(norm='ln', mlp='plain', qkv_bias=True, o_bias=True, mlp_bias=True, head_bias=True, parallel=True),
    'Phi3SmallForCausalLM': dict(norm='scale', mlp='fused', fused_qkv=True),
    'GPTJForCausalLM': dict(norm='ln', mlp='plain', mlp_bias=True, head_bias=True, parallel=True),
    'GPT2LMHeadModel': dict(norm='ln', mlp='plain', fused_qkv=True, qkv_bias=True, o_bias=True, mlp_bias=True, rope=False, positions=True),
}


class Cfg:
    """the configuration under its usual names"""
    def __init__(self, c):
        self.c = c
        a = dict(ARCH.get(c['architectures'][0], ARCH['LlamaForCausalLM']))
        g = lambda *names, d=None: next((c[n] for n in names if n in c), d)
        self.H = g('hidden_size', 'n_embd')
        self.N = g('num_attention_heads', 'n_head')
        self.KV = g('num_key_value_heads', 'n_head')
        self.L = g('num_hidden_layers', 'n_layer')
        self.V = c['vocab_size']
        self.I = g('intermediate_size', 'ff_intermediate_size', 'n_inner')
        if self.I is None:
            self.I = 4 * self.H
        self.D = g('head_dim', d=self.H // self.N)
        if 'attention_bias' in c:
            a['qkv_bias'] = a['o_bias'] = c['attention_bias']
        if 'mlp_bias' in c:
            a['mlp_bias'] = c['mlp_bias']
        self.a = a
        self.npos = g('n_positions', d=1024)
        self.maxpos = g('max_position_embeddings', d=4096)
        self.rot = g('rotary_dim', d=int(self.D * g('partial_rotary_factor', d=1)))
        self.act = g('hidden_act', 'activation_function')
        self.linear = [t == 'linear_attention' for t in c.get('layer_types', [])][:self.L]
        self.linear += [False] * (self.L - len(self.linear))
        self.cap = c.get('final_logit_softcapping')
        self.tied = bool(c.get('tie_word_embeddings'))
        # experts
        self.E = g('num_experts', 'num_local_experts', d=256)
        self.K = g('num_experts_per_tok', d=8)
        self.MI = g('moe_intermediate_size', d=self.I)
        self.SI = g('shared_expert_intermediate_size', d=self.MI)
        # latent attention
        self.QR, self.OR, self.OG, self.RD = g('q_lora_rank', d=1024), g('o_lora_rank', d=1024), g('o_groups', d=8), g('rope_head_dim', d=64)
        self.W, self.CR = g('window_size', d=128), g('compress_ratio', d=0)
        self.IN, self.ID, self.IT = g('index_n_heads', d=64), g('index_head_dim', d=128), g('index_topk', d=512)
        # linear attention
        self.LK, self.LV = g('linear_num_key_heads', d=self.KV), g('linear_num_value_heads', d=2 * self.KV)
        self.LKD, self.LVD, self.LC = g('linear_key_head_dim', d=self.D), g('linear_value_head_dim', d=self.D), g('linear_conv_kernel_dim', d=4)

    def has(self, k, d=False):
        return self.a.get(k, d)

    def kind(self, i):
        return 'gdn' if self.linear[i] else 'mla' if self.has('mla') else 'mha'


class Tally:
    """params and multiply-adds of named parts"""
    def __init__(self):
        self.params, self.mm, self.att, self.other, self.active = 0, 0, 0, 0, 0
        self.kv = []                    # elements of keys and values each attention layer reads

    def linear(self, rows, fin, fout, bias):
        self.params += fin * fout + (fout if bias else 0)
        self.active += fin * fout + (fout if bias else 0)
        self.mm += rows * fin * fout

    def weight(self, n, active=None):
        self.params += n
        self.active += n if active is None else active

    def norm(self, c, rows, width):
        self.weight(width * (2 if c.has('norm') == 'ln' else 1))
        self.other += rows * (width * NORM_EL + NORM_ROW)


def head_norm(t, rows, heads, dim, fold):
    """normalization of every head by its own root mean square; the weight is shared by the heads"""
    t.weight(dim)
    t.other += rows * (heads * dim * NORM_EL + NORM_ROW * (1 if fold else heads))


def mlp(t, c, R, bias):
    kind = c.has('mlp')
    if kind == 'gated':
        t.linear(R, c.H, c.I, bias), t.linear(R, c.H, c.I, bias), t.linear(R, c.I, c.H, bias)
        t.other += R * c.I * (act_cost(c.act) + 1)
    elif kind == 'fused':
        t.linear(R, c.H, 2 * c.I, bias), t.linear(R, c.I, c.H, bias)
        t.other += R * c.I * GELU_EL
    else:
        t.linear(R, c.H, c.I, bias), t.linear(R, c.I, c.H, bias)
        t.other += R * c.I * act_cost(c.act)


def act_cost(a):
    return {'silu': SILU_EL, 'gelu_new': GELU_EL, 'gegelu': GELU_EL}[a]


def moe(t, c, R):
    one = 3 * c.H * c.MI
    t.weight(c.H * c.E)
    t.weight(c.E * one, min(c.E, R * c.K) * one)
    m = R * c.H * c.E + R * c.K * one + R * c.K * c.MI * (EXP + 1 + 1)
    if c.has('shared'):
        t.weight(3 * c.H * c.SI)
        m += R * 3 * c.H * c.SI + R * c.SI * (EXP + 1 + 1)
        if c.has('shared_gate'):
            t.weight(c.H)
            m += R * c.H * (EXP + 1)
    m += R * c.H
    t.mm += m


def mla(t, c, B, S):
    R, H, N, D, CR = B * S, c.H, c.N, c.D, c.CR
    t.weight(H * c.QR + c.QR + c.QR * N * D + H * D + D + c.OG * c.OR * (N * D // c.OG) + H * c.OG * c.OR)
    rms, rope = 2 + 2 + SQRT + DIV, 2 * SIN + 2
    m = R * H * c.QR + R * c.QR * rms + R * c.QR * N * D + R * N * D * (2 + 1 + SQRT + DIV)
    m += R * H * D + R * D * rms
    blocks = S // CR if CR > 0 else 0
    if CR > 0:
        m += R * H * D + B * blocks * CR * D * (EXP + DIV + 1 + 1) + B * blocks * D * rms + B * blocks * c.RD * rope
    if CR == 4:
        m += 2 * R * H * c.ID + B * blocks * CR * c.ID * (EXP + DIV + 1 + 1) + B * blocks * c.ID * rms + B * blocks * c.RD * rope
        m += R * c.QR * c.IN * c.ID + R * c.IN * c.RD * rope
        m += R * c.IN * c.ID * blocks + R * c.IN * blocks * 2 + R * H * c.IN
        if blocks > 1:
            m += R * blocks * int(np.log2(blocks))
    m += R * N * c.RD * rope + R * c.RD * rope
    T = min(c.W, S) + blocks + min(c.IT, blocks) if CR > 0 else S
    m += R * N * T * (2 * D + EXP + DIV)
    m += R * c.OG * (N * D // c.OG) * c.OR + R * c.OG * c.OR * H
    t.mm += m


def gdn(t, c, B, S):
    R = B * S
    ko, vo = c.LK * c.LKD, c.LV * c.LVD
    t.linear(R, c.H, ko, c.has('qkv_bias')), t.linear(R, c.H, ko, c.has('qkv_bias')), t.linear(R, c.H, vo, c.has('qkv_bias'))
    head_norm(t, R, c.LK, c.LKD, True), head_norm(t, R, c.LK, c.LKD, True)
    t.mm += 2 * R * ko * c.LC + R * S * ko + R * S * vo + R * vo * (EXP + 1)
    t.linear(R, vo, c.H, c.has('o_bias'))


def attention(t, c, B, S, past):
    R, T = B * S, S + past
    qo, ko = c.N * c.D, c.KV * c.D
    b = c.has('qkv_bias')
    if c.has('fused_qkv'):
        t.linear(R, c.H, qo + 2 * ko, b)
        t.weight(3 * 4)                 # begin, end, axis and step of the three slices
    else:
        t.linear(R, c.H, qo * (2 if c.has('gated') else 1), b), t.linear(R, c.H, ko, b), t.linear(R, c.H, ko, b)
        if c.has('gated'):
            t.weight(2 * 4)
    if c.has('qk_norm'):
        head_norm(t, R, c.N, c.D, True), head_norm(t, R, c.KV, c.D, True)
    if c.has('rope', True):
        t.other += R * (qo + ko) * ROPE_EL
    t.att += B * c.N * S * T * (2 * c.D + EXP + DIV)
    t.kv.append(B * T * ko * 2)
    if c.has('gated'):
        t.other += R * qo * (SILU_EL + 1)
    t.linear(R, qo, c.H, c.has('o_bias'))


def expect(config, B, S, past=0):
    c = Cfg(config)
    t = Tally()
    R = B * S
    t.weight(c.V * c.H, R * c.H)
    if c.has('positions'):
        t.weight(c.npos * c.H, R * c.H)
        t.other += R * c.H
    for i in range(c.L):
        k = c.kind(i)
        t.norm(c, R, c.H)
        {'gdn': lambda: gdn(t, c, B, S), 'mla': lambda: mla(t, c, B, S), 'mha': lambda: attention(t, c, B, S, past)}[k]()
        if not c.has('parallel'):
            t.norm(c, R, c.H)
        moe(t, c, R) if c.has('mlp') == 'moe' else mlp(t, c, R, c.has('mlp_bias'))
        t.other += 2 * R * c.H
    t.norm(c, R, c.H)
    t.linear(R, c.H, c.V, c.has('head_bias'))
    if c.cap is not None:               # its bound is a scalar
        t.other += R * c.V * (TANH + 1 + DIV)
    t.rope = 0
    if c.has('rope', True) and any(c.kind(i) == 'mha' for i in range(c.L)):
        t.rope = 2 * c.maxpos * (c.rot // 2)
    # cosine and sine rows each rotation reads
    t.rope_active = 2 * 2 * sum(c.kind(i) == 'mha' for i in range(c.L)) * min(S, c.maxpos) * (c.rot // 2) if t.rope else 0
    t.macs = t.mm + t.att + t.other
    per = c.D if c.has('mla') else c.KV * c.D
    t.kv_cache = B * (S + past) * 2 * per * sum(k != 'gdn' for k in map(c.kind, range(c.L)))
    t.head = c.V * c.H
    t.cfg = c
    return t


def vision(config, C, Hh, Ww):
    """ViT with a convolutional patch embedding, learned positions, pre-norm blocks and a projector to the width of the language model"""
    g = lambda n, d: config.get(n, d)
    W, L, N, P = g('vision_hidden_size', 1024), g('vision_num_layers', 24), g('vision_num_heads', 16), g('vision_patch_size', 14)
    I, D, H = g('vision_intermediate_size', 4 * W), g('vision_head_dim', W // N), config['hidden_size']
    T = (Hh // P) * (Ww // P)
    t = Tally()
    ln = lambda: (t.weight(2 * W), setattr(t, 'other', t.other + T * (W * NORM_EL + NORM_ROW)))
    t.weight(C * P * P * W)
    t.mm += T * W * C * P * P
    t.weight(3)                         # target shape of the flattening reshape
    t.weight(T * W)
    t.other += T * W
    for _ in range(L):
        ln()
        t.linear(T, W, 3 * N * D, True)
        t.weight(3 * 4)
        t.att += N * T * T * (2 * D + EXP + DIV)
        t.linear(T, N * D, W, True)
        ln()
        t.linear(T, W, I, True)
        t.other += T * I * GELU_EL
        t.linear(T, I, W, True)
        t.other += 2 * T * W
    ln()
    if g('projector_type', 'mlp') == 'mlp':
        PD = g('projector_hidden_dim', H)
        t.linear(T, W, PD, True)
        t.other += T * PD * GELU_EL
        t.linear(T, PD, H, True)
    else:
        t.linear(T, W, H, True)
    t.macs = t.mm + t.att + t.other
    t.tokens = T
    return t


def latency(nodes, cfg, dev):
    """nodes: (op, macs, io elements, weight elements, cached elements); seconds, bytes per pool"""
    comp, bits = cfg['Compute'], cfg['Bits']
    lat = mem = flops = 0
    pools = dict(MM=0, MHA=0, Others=0)
    link = (dev or {}).get('LinkBandwidth', 0) * 1e9
    num = dev.get('Number', 1) if dev and link else 1
    per = []
    for op, macs, io, w, kv in nodes:
        group = 'MM' if op in ('MatMul', 'MoE', 'MLA', 'GDN') else 'MHA' if op == 'SDPA' else 'Others'
        weights = kv if group == 'MHA' else w
        wb = 'MM' if op == 'Gather' else group
        m = io * bits['Others'] / 8 + weights * bits[wb] / 8
        pools[wb] += weights * bits[wb] / 8
        flops += 2 * macs
        mem += m
        n = 0
        if dev:
            rate = dev.get(comp[group], dev['FP32']) * 1e9
            share = num if group != 'Others' else 1
            n = max(2 * macs / rate / share, m / (dev['Bandwidth'] * 1e9) / share)
            if num > 1 and group != 'Others':
                n += io * bits['Others'] / 8 / link
        lat += n
        per.append((2 * macs, m, n))
    return dict(flops=flops, mem=mem, latency=lat, pools=pools, per=per)
