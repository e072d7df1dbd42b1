"""the torch operations /repo/inference/kernels.py uses (and their usual relatives), on numpy arrays and with torch's own restrictions"""
import math
import types
import numpy as np
from vt.faketorch import Missing, Tensor, module as base_module, dtype as Dtype


KINDS = {}


def kind(d):
    return KINDS[np.dtype(d)]


def W(a):
    a = np.asarray(a)
    return Tensor(a, kind(a.dtype))


def arr(x):
    return x.a if isinstance(x, Tensor) else x


def is_float(a):
    return np.dtype(a).kind == 'f'


def pair(a, b):
    """operands in the type torch computes with"""
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        ts = [a.a.dtype, b.a.dtype]
        fl = [t for t in ts if is_float(t)]
        t = np.result_type(*fl) if fl else np.result_type(*ts)
        return a.a.astype(t, copy=False), b.a.astype(t, copy=False)
    x, s = (a, b) if isinstance(a, Tensor) else (b, a)
    t = x.a.dtype
    if isinstance(s, float) and not is_float(t):
        t = np.dtype(np.float32)
    elif isinstance(s, (int, np.integer)) and not isinstance(s, bool) and t.kind == 'b':
        t = np.dtype(np.int64)
    u = np.asarray(s).astype(t)
    return (x.a.astype(t, copy=False), u) if x is a else (u, x.a.astype(t, copy=False))


def put(r, out=None):
    r = np.asarray(r)
    if out is None:
        return W(r)
    if out.a.shape != r.shape:
        raise RuntimeError(f'out= has the shape {list(out.a.shape)}, the result {list(r.shape)}: torch would give the output memory of its own')
    rank = 'biuf'
    if rank.index(r.dtype.kind if r.dtype.kind != 'u' else 'i') > rank.index(out.a.dtype.kind if out.a.dtype.kind != 'u' else 'i'):
        raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {out.a.dtype}")
    out.a[...] = r
    return out


def bcast(f):
    def g(a, b, out=None, alpha=1, **k):
        if k:
            raise Missing(str(k))
        x, y = pair(a, b)
        try:
            return put(f(x, y if isinstance(alpha, int) and alpha == 1 else y * np.asarray(alpha).astype(y.dtype)), out)
        except ValueError as e:
            raise RuntimeError(str(e))
    return g


def _div(x, y):
    return (x.astype(np.float32) / y.astype(np.float32)) if not is_float(x.dtype) else x / y


def div(a, b, out=None, rounding_mode=None):
    x, y = pair(a, b)
    if rounding_mode is None:
        return put(_div(x, y), out)
    r = x / y
    return put((np.floor(r) if rounding_mode == 'floor' else np.trunc(r)).astype(x.dtype), out)


def tofloat(a):
    return a if is_float(a.dtype) else a.astype(np.float32)


def unary(f, fl=True):
    def g(x, out=None):
        a = tofloat(x.a) if fl else x.a
        return put(np.asarray(f(a)).astype(a.dtype if fl else None, copy=False) if fl else f(a), out)
    return g


_erf = np.vectorize(math.erf, otypes=[np.float64])


def sig(a):
    return 1 / (1 + np.exp(-a.astype(np.float64)))


def dims(dim, nd):
    d = [dim] if isinstance(dim, (int, np.integer)) else list(dim)
    for v in d:
        if not isinstance(v, (int, np.integer)):
            raise TypeError('dim must be int')
        if not -max(nd, 1) <= v < max(nd, 1):
            raise IndexError('Dimension out of range')
    return tuple(v % max(nd, 1) for v in d)


def reduction(f, need_dim, flt):
    def g(x, dim=None, keepdim=False, dtype=None, out=None, **k):
        if k:
            raise Missing(str(k))
        if dim is None and keepdim and need_dim:
            raise TypeError('received an invalid combination of arguments: keepdim without dim')
        if flt and not is_float(x.a.dtype):
            raise RuntimeError('mean(): could not infer output dtype. Input dtype must be floating')
        empty = dim is None or (not isinstance(dim, (int, np.integer)) and len(dim) == 0)
        d = tuple(range(x.a.ndim)) if empty else dims(dim, x.a.ndim)
        if len(set(d)) != len(d):
            raise RuntimeError('dim appears multiple times')
        a = x.a.astype(np.float64) if is_float(x.a.dtype) else x.a
        r = f(a, axis=d, keepdims=bool(keepdim))
        return put(np.asarray(r).astype(x.a.dtype if is_float(x.a.dtype) or f is np.max or f is np.min else np.int64), out)
    return g


def var(x, dim=None, unbiased=True, keepdim=False, correction=None):
    d = tuple(range(x.a.ndim)) if dim is None else dims(dim, x.a.ndim)
    dd = (1 if unbiased else 0) if correction is None else correction
    return W(np.var(x.a.astype(np.float64), axis=d, keepdims=keepdim, ddof=dd).astype(x.a.dtype))


def mm(a, b, out=None):
    if a.a.ndim != 2 or b.a.ndim != 2:
        raise RuntimeError('self must be a matrix')
    return matmul(a, b, out)


def matmul(a, b, out=None):
    if a.a.dtype != b.a.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype')
    try:
        return put(np.matmul(a.a.astype(np.float64), b.a.astype(np.float64)).astype(a.a.dtype), out)
    except ValueError as e:
        raise RuntimeError(str(e))


def cat(ts, dim=0, out=None, axis=None):
    dim = dim if axis is None else axis
    try:
        return put(np.concatenate([t.a for t in ts], axis=dim), out)
    except ValueError as e:
        raise RuntimeError(str(e))


def index_select(x, dim, index, out=None):
    if index.a.ndim > 1:
        raise IndexError('index_select(): Index is supposed to be a vector')
    if index.a.dtype.kind != 'i':
        raise RuntimeError('index_select(): Expected dtype int32 or int64 for index')
    d = dims(dim, x.a.ndim)[0]
    i = np.atleast_1d(index.a)
    if i.size and (i.min() < 0 or i.max() >= x.a.shape[d]):
        raise IndexError('index out of range in self')
    return put(np.take(x.a, i, axis=d), out)


def gather(x, dim, index, out=None):
    d = dims(dim, x.a.ndim)[0]
    i = index.a
    if i.dtype != np.int64:
        raise RuntimeError('gather(): Expected dtype int64 for index')
    if i.ndim != x.a.ndim or any(i.shape[k] > x.a.shape[k] for k in range(i.ndim) if k != d):
        raise RuntimeError('Size does not match at dimension')
    if i.size and (i.min() < 0 or i.max() >= x.a.shape[d]):
        raise RuntimeError('index out of bounds')
    cut = tuple(slice(0, i.shape[k]) if k != d else slice(None) for k in range(i.ndim))
    return put(np.take_along_axis(x.a[cut], i, axis=d), out)


def where(c, a=None, b=None, out=None):
    if a is None:
        raise Missing('where with one argument')
    if c.a.dtype != np.bool_:
        raise RuntimeError('where expected condition to be a boolean tensor')
    x, y = pair(a, b)
    return put(np.where(c.a, x, y), out)


def clamp(x, min=None, max=None, out=None):
    a = x.a
    if isinstance(min, float) or isinstance(max, float):
        a = tofloat(a)
    lo, hi = (None if v is None else np.asarray(arr(v)).astype(a.dtype) for v in (min, max))
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return put(r, out)


def softmax(x, dim=None, dtype=None):
    d = dims(dim, x.a.ndim)[0]
    a = x.a.astype(np.float64)
    e = np.exp(a - a.max(axis=d, keepdims=True))
    return W((e / e.sum(axis=d, keepdims=True)).astype(x.a.dtype))


def topk(x, k, dim=-1, largest=True, sorted=True):
    d = dims(dim, x.a.ndim)[0]
    if not 0 <= k <= x.a.shape[d]:
        raise RuntimeError('selected index k out of range')
    o = np.argsort(-x.a if largest else x.a, axis=d, kind='stable')
    o = np.take(o, range(k), axis=d)
    return W(np.take_along_axis(x.a, o, axis=d)), W(o.astype(np.int64))


def split(x, size, dim=0):
    d = dims(dim, x.a.ndim)[0]
    n = x.a.shape[d]
    sizes = [min(size, n - o) for o in range(0, n, size)] if isinstance(size, int) else list(size)
    if sum(sizes) != n:
        raise RuntimeError('split_with_sizes expects split_sizes to sum exactly')
    out, o = [], 0
    for s in sizes:
        out.append(x.narrow(d, o, s))
        o += s
    return tuple(out)


def chunk(x, n, dim=0):
    size = x.a.shape[dims(dim, x.a.ndim)[0]]
    return split(x, max(1, -(-size // n)), dim)


# ---------------------------------------------------------------- torch.nn.functional
def two(v):
    v = [v, v] if isinstance(v, (int, np.integer)) else list(v)
    if len(v) == 1:
        v = v * 2
    if len(v) != 2 or any(not isinstance(e, (int, np.integer)) for e in v):
        raise RuntimeError('expected two integers')
    return v


def windows(a, kh, kw, s, d):
    """[N, C, OH, OW, kh, kw] views"""
    v = np.lib.stride_tricks.sliding_window_view(a, ((kh - 1) * d[0] + 1, (kw - 1) * d[1] + 1), axis=(2, 3))
    return v[:, :, ::s[0], ::s[1], ::d[0], ::d[1]]


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if isinstance(padding, str):
        raise Missing('padding by name')
    s, p, d = two(stride), two(padding), two(dilation)
    if x.a.ndim != 4 or w.a.ndim != 4 or x.a.shape[1] != w.a.shape[1] * groups or w.a.shape[0] % groups:
        raise RuntimeError('shapes of conv2d')
    a = np.pad(x.a.astype(np.float64), [(0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])])
    kh, kw = w.a.shape[2:]
    if (kh - 1) * d[0] + 1 > a.shape[2] or (kw - 1) * d[1] + 1 > a.shape[3]:
        raise RuntimeError("Kernel size can't be greater than actual input size")
    v = windows(a, kh, kw, s, d)
    n, m = w.a.shape[1], w.a.shape[0] // groups
    r = np.concatenate([np.einsum('nchwij,mcij->nmhw', v[:, g * n:(g + 1) * n], w.a[g * m:(g + 1) * m].astype(np.float64)) for g in range(groups)], axis=1)
    if bias is not None:
        r = r + bias.a.astype(np.float64)[:, None, None]
    return W(r.astype(x.a.dtype))


def conv1d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    one = lambda v: v if isinstance(v, int) else list(v)[0]
    r = conv2d(W(x.a[:, :, None]), W(w.a[:, :, None]), bias, (1, one(stride)), (0, one(padding)), (1, one(dilation)), groups)
    return W(r.a[:, :, 0])


def pooled(x, k, stride, padding, dilation, ceil_mode, how, include):
    k, p, d = two(k), two(padding), two(dilation)
    s = k if stride is None or (not isinstance(stride, int) and len(stride) == 0) else two(stride)
    if any(p[i] > k[i] // 2 for i in (0, 1)):
        raise RuntimeError('pad should be at most half of effective kernel size')
    H = x.a.shape[2:]
    size = []
    for i in (0, 1):
        span = H[i] + 2 * p[i] - (d[i] * (k[i] - 1) + 1)
        o = (-(-span // s[i]) if ceil_mode else span // s[i]) + 1
        if ceil_mode and (o - 1) * s[i] >= H[i] + p[i]:
            o -= 1
        if o < 1:
            raise RuntimeError('Output size is too small')
        size.append(o)
    out = np.empty(x.a.shape[:2] + tuple(size), np.float64)
    a = x.a.astype(np.float64)
    for i in range(size[0]):
        for j in range(size[1]):
            hs, ws = i * s[0] - p[0], j * s[1] - p[1]
            hh = [h for h in range(hs, hs + d[0] * (k[0] - 1) + 1, d[0]) if 0 <= h < H[0]]
            ww = [w for w in range(ws, ws + d[1] * (k[1] - 1) + 1, d[1]) if 0 <= w < H[1]]
            v = a[:, :, hh][:, :, :, ww]
            if how == 'max':
                out[:, :, i, j] = v.max(axis=(2, 3))
            else:
                n = len(hh) * len(ww)
                if include:
                    n = (min(hs + k[0], H[0] + p[0]) - hs) * (min(ws + k[1], H[1] + p[1]) - ws)
                out[:, :, i, j] = v.sum(axis=(2, 3)) / n
    return W(out.astype(x.a.dtype))


def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    if divisor_override is not None:
        raise Missing('divisor_override')
    return pooled(x, kernel_size, stride, padding, 1, ceil_mode, 'avg', count_include_pad)


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    if return_indices:
        raise Missing('return_indices')
    return pooled(x, kernel_size, stride, padding, dilation, ceil_mode, 'max', False)


def adaptive_avg_pool2d(x, size):
    if two(size) != [1, 1]:
        raise Missing('adaptive_avg_pool2d')
    return W(x.a.astype(np.float64).mean(axis=(2, 3), keepdims=True).astype(x.a.dtype))


def pad(x, pad, mode='constant', value=None):
    pad = list(pad)
    if any(not isinstance(v, (int, np.integer)) for v in pad):
        raise TypeError('pad(): argument pad must be tuple of ints')
    if len(pad) % 2 or len(pad) // 2 > x.a.ndim:
        raise RuntimeError('Padding length')
    per = [(0, 0)] * x.a.ndim
    for i in range(len(pad) // 2):
        per[x.a.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    if mode == 'constant':
        a = x.a[tuple(slice(max(0, -b), x.a.shape[i] - max(0, -e)) for i, (b, e) in enumerate(per))]
        return W(np.pad(a, [(max(b, 0), max(e, 0)) for b, e in per], constant_values=0 if value is None else value))
    if len(pad) // 2 >= x.a.ndim or len(pad) // 2 not in (1, 2, 3) or x.a.ndim - len(pad) // 2 > 2:
        raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    if any(v < 0 for v in pad):
        raise Missing('negative reflection')
    return W(np.pad(x.a, per, mode={'reflect': 'reflect', 'replicate': 'edge', 'circular': 'wrap'}[mode]))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=.1, eps=1e-5):
    if training:
        raise Missing('training')
    f = lambda v: v.a.astype(np.float64).reshape([1, -1] + [1] * (x.a.ndim - 2))
    r = (x.a - f(running_mean)) / np.sqrt(f(running_var) + eps)
    r = r * f(weight) if weight is not None else r
    r = r + f(bias) if bias is not None else r
    return W(r.astype(x.a.dtype))


def layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    ax = tuple(range(-len(shape), 0))
    a = x.a.astype(np.float64)
    r = (a - a.mean(axis=ax, keepdims=True)) / np.sqrt(a.var(axis=ax, keepdims=True) + eps)
    r = r * weight.a if weight is not None else r
    r = r + bias.a if bias is not None else r
    return W(r.astype(x.a.dtype))


def gelu(x, approximate='none'):
    a = x.a.astype(np.float64)
    r = .5 * a * (1 + (_erf(a / math.sqrt(2)) if approximate == 'none' else np.tanh(math.sqrt(2 / math.pi) * (a + .044715 * a ** 3))))
    return W(np.asarray(r).astype(x.a.dtype))


# ---------------------------------------------------------------- tensors
def squeeze(x, dim=None):
    if dim is None:
        return W(x.a.squeeze())
    d = [k for k in dims(dim, x.a.ndim) if x.a.shape[k] == 1]
    return W(x.a.squeeze(tuple(d)))


def unsqueeze(x, dim):
    if not -x.a.ndim - 1 <= dim <= x.a.ndim:
        raise IndexError('Dimension out of range')
    return W(np.expand_dims(x.a, dim))


def spread(s):
    s = list(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple)) else list(s)
    if any(not isinstance(v, (int, np.integer)) for v in s):
        raise TypeError('sizes must be ints')
    return s


def expand(x, *s):
    s = spread(s)
    n = len(s) - x.a.ndim
    if n < 0:
        raise RuntimeError('the number of sizes provided must be greater or equal to the number of dimensions')
    s = [x.a.shape[i - n] if v == -1 and i >= n else v for i, v in enumerate(s)]
    try:
        return W(np.broadcast_to(x.a, s))
    except ValueError as e:
        raise RuntimeError(str(e))


def repeat(x, *s):
    s = spread(s)
    if len(s) < x.a.ndim:
        raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
    return W(np.tile(x.a, s))


def repeat_interleave(x, n, dim=None):
    return W(np.repeat(x.a, arr(n), axis=dim))


def getitem(x, k):
    f = lambda v: v.a if isinstance(v, Tensor) else v
    ks = k if isinstance(k, tuple) else (k,)
    if any(isinstance(v, slice) and v.step is not None and v.step <= 0 for v in ks):
        raise ValueError('step must be greater than zero')
    r = x.a[tuple(f(v) for v in ks)]
    return W(r)


def inplace(f):
    def g(x, *a, **k):
        r = f(x, *a, **k)
        try:
            x.a[...] = r.a
        except ValueError as e:
            raise RuntimeError(str(e))
        return x
    return g


def copy_(x, o, non_blocking=False):
    if o.a.ndim > x.a.ndim:
        raise RuntimeError('The expanded size must match: too many dimensions')
    try:
        x.a[...] = o.a
    except ValueError as e:
        raise RuntimeError(str(e))
    return x


def as_type(name):
    def g(x):
        d = np.dtype(name)
        return x if x.a.dtype == d else W(x.a.astype(d))
    return g


def to(x, *a, dtype=None, device=None, **k):
    for v in a:
        if isinstance(v, Dtype):
            dtype = v
    return x if dtype is None or dtype.np == x.a.dtype else W(x.a.astype(dtype.np))


def argreduce(f):
    def g(x, dim=None, keepdim=False):
        if dim is None:
            return W(np.asarray(f(x.a), np.int64))
        return W(np.asarray(f(x.a, axis=dim, keepdims=keepdim), np.int64))
    return g


def scatter_(x, dim, index, src):
    if index.a.size and (index.a.min() < 0 or index.a.max() >= x.a.shape[dim]):
        raise RuntimeError('index out of bounds')
    np.put_along_axis(x.a, index.a, np.asarray(arr(src), x.a.dtype), dim)
    return x


RANDOM, DRAWN = [np.random.default_rng(0)], []


def multinomial(x, n, replacement=False):
    p = np.asarray(x.a, np.float64)
    if p.ndim != 1 or n != 1:
        raise Missing('multinomial of this shape')
    if not np.isfinite(p).all() or (p < 0).any() or p.sum() <= 0:
        raise RuntimeError('probability tensor contains either `inf`, `nan` or element < 0')
    DRAWN.append(p / p.sum())
    return W(np.array([RANDOM[0].choice(len(p), p=DRAWN[-1])], np.int64))


def module():
    t = base_module()
    F = types.ModuleType('torch.nn.functional')
    nn = types.ModuleType('torch.nn')
    nn.functional, t.nn = F, nn
    for n in ('int16',):
        setattr(t, n, Dtype(n))
    t.double = t.float64
    t.float, t.half, t.long, t.int = t.float32, t.float16, t.int64, t.int32
    for n in ('float32', 'float64', 'float16', 'int32', 'int64', 'int16', 'uint8', 'int8', 'bool'):
        KINDS[np.dtype(n)] = getattr(t, n)

    def tensor(v, dtype=None, device=None):
        a = np.array(arr(v), dtype.np if dtype else None)
        return W(a.astype(np.float32) if dtype is None and a.dtype == np.float64 else a)
    t.tensor = tensor
    both = dict(
        add=bcast(np.add), sub=bcast(np.subtract), mul=bcast(np.multiply), div=div, true_divide=div, pow=bcast(np.power), eq=bcast(np.equal), ne=bcast(np.not_equal),
        gt=bcast(np.greater), lt=bcast(np.less), ge=bcast(np.greater_equal), le=bcast(np.less_equal), maximum=bcast(np.maximum), minimum=bcast(np.minimum),
        fmod=bcast(np.fmod), remainder=bcast(np.remainder), neg=unary(np.negative, False), abs=unary(np.abs, False), sqrt=unary(np.sqrt),
        rsqrt=unary(lambda a: 1 / np.sqrt(a)), exp=unary(np.exp), log=unary(np.log), tanh=unary(np.tanh), sigmoid=unary(sig), erf=unary(_erf), square=unary(np.square, False),
        reciprocal=unary(np.reciprocal), floor=unary(np.floor, False), relu=unary(lambda a: np.maximum(a, 0), False), mean=reduction(np.mean, True, True), sum=reduction(np.sum, True, False),
        amax=reduction(np.max, False, False), amin=reduction(np.min, False, False), var=var, mm=mm, matmul=matmul, cat=cat, concat=cat, index_select=index_select, gather=gather,
        where=where, clamp=clamp, clip=clamp, softmax=softmax, topk=topk, split=split, chunk=chunk, squeeze=squeeze, unsqueeze=unsqueeze, repeat_interleave=repeat_interleave,
        flip=lambda x, *d: W(np.flip(x.a, spread(d))), permute=lambda x, *d: W(x.a.transpose(spread(d))), transpose=lambda x, a, b: W(x.a.swapaxes(a, b)),
        triu=lambda x, diagonal=0: W(np.triu(x.a, diagonal)), tril=lambda x, diagonal=0: W(np.tril(x.a, diagonal)), numel=lambda x: x.a.size, clone=lambda x: W(x.a.copy()),
        masked_fill=lambda x, m, v: W(np.where(m.a, np.asarray(arr(v), x.a.dtype), x.a)), logical_not=lambda x: W(~x.a.astype(bool)),
        argmax=argreduce(np.argmax), argmin=argreduce(np.argmin),
        scatter_=scatter_, multinomial=multinomial, reshape=lambda x, *s: Tensor.reshape(x, *s), index_fill=None, movedim=lambda x, a, b: W(np.moveaxis(x.a, a, b)), broadcast_to=lambda x, s: expand(x, s))
    both.pop('index_fill')
    for n, f in both.items():
        setattr(t, n, f)
        if n not in ('cat', 'concat', 'numel', 'reshape', 'clone', 'where'):
            setattr(Tensor, n, f)
    for n in ('add', 'sub', 'mul', 'div', 'clamp', 'relu', 'sqrt', 'neg', 'masked_fill', 'exp', 'pow', 'triu'):
        setattr(Tensor, n + '_', inplace(both[n]))
    rev = lambda f: (lambda x, o: f(o, x))
    for n, f in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('pow', 'pow'), ('matmul', 'matmul'), ('mod', 'remainder')):
        setattr(Tensor, f'__{n}__', both[f])
        setattr(Tensor, f'__r{n}__', rev(both[f]))
    for n in ('gt', 'lt', 'ge', 'le', 'eq', 'ne'):
        setattr(Tensor, f'__{n}__', both[n])
    Tensor.__hash__ = object.__hash__
    Tensor.__neg__ = both['neg']
    Tensor.__getitem__ = getitem
    Tensor.copy_ = copy_
    Tensor.expand, Tensor.repeat, Tensor.to = expand, repeat, to
    Tensor.expand_as = lambda x, o: expand(x, *o.a.shape)
    for n, d in (('long', 'int64'), ('int', 'int32'), ('float', 'float32'), ('bool', 'bool'), ('half', 'float16'), ('double', 'float64')):
        setattr(Tensor, n, as_type(d))
    t.full = lambda s, v, dtype=None, device=None: W(np.full(s, v, dtype.np if dtype else np.float32 if isinstance(v, float) else np.int64))
    t.ones = lambda *s, dtype=None, device=None: W(np.ones(spread(s), dtype.np if dtype else np.float32))
    t.zeros = lambda *s, dtype=None, device=None: W(np.zeros(spread(s), dtype.np if dtype else np.float32))
    t.zeros_like, t.ones_like, t.empty_like = (lambda f: lambda x, **k: W(f(x.a)))(np.zeros_like), (lambda f: lambda x, **k: W(f(x.a)))(np.ones_like), lambda x, **k: W(np.full_like(x.a, 77))
    t.arange = lambda *a, dtype=None, device=None: W(np.arange(*a, dtype=dtype.np if dtype else None))
    t.stack = lambda ts, dim=0: W(np.stack([x.a for x in ts], dim))
    t.einsum = lambda s, *a: W(np.einsum(s, *[x.a for x in (a[0] if isinstance(a[0], (list, tuple)) else a)]))
    for n, f in dict(conv2d=conv2d, conv1d=conv1d, avg_pool2d=avg_pool2d, max_pool2d=max_pool2d, adaptive_avg_pool2d=adaptive_avg_pool2d, pad=pad, batch_norm=batch_norm, layer_norm=layer_norm,
                     gelu=gelu, softmax=softmax, relu=both['relu'], sigmoid=both['sigmoid'], tanh=both['tanh'],
                     silu=lambda x: W((x.a * sig(x.a)).astype(x.a.dtype)), leaky_relu=lambda x, negative_slope=.01: W(np.where(x.a >= 0, x.a, x.a * np.asarray(negative_slope, x.a.dtype))),
                     linear=lambda x, w, b=None: W((x.a @ w.a.T + (b.a if b is not None else 0)).astype(x.a.dtype))).items():
        setattr(F, n, f)

    def missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Missing('the stand-in for torch has no ' + name)
    t.__getattr__ = F.__getattr__ = missing
    return t, F
