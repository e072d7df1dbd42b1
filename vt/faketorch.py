"""the few torch operations /repo/inference/{memory_pool,infer}.py use, on numpy arrays"""
import sys, types
import numpy as np


class Missing(AttributeError):
    """this stand-in does not know the operation: nothing can be said about the code"""


class dtype:
    def __init__(self, np_type):
        self.np = np.dtype(np_type)

    def __repr__(self):
        return 'torch.' + self.np.name


class Tensor:
    def __init__(self, a, dt):
        self.a, self.dtype = a, dt

    shape = property(lambda self: self.a.shape)

    def numel(self):
        return self.a.size

    def element_size(self):
        return self.a.itemsize

    def dim(self):
        return self.a.ndim

    def __len__(self):
        return len(self.a)

    def __getitem__(self, k):
        return Tensor(self.a[k], self.dtype)

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, Tensor) else v

    def view(self, *s, dtype=None):
        if len(s) == 1 and isinstance(s[0], globals()['dtype']):
            dtype, s = s[0], ()
        if s:
            return self.reshape(*s)
        try:
            return Tensor(self.a.view(dtype.np), dtype)
        except ValueError as e:
            raise RuntimeError(str(e))

    nelement = numel
    ndim = property(lambda self: self.a.ndim)
    device = property(lambda self: 'cpu')

    def size(self, k=None):
        return self.a.shape if k is None else self.a.shape[k]

    def data_ptr(self):
        return self.a.__array_interface__['data'][0]

    def narrow(self, axis, start, length):
        if start < 0 or start + length > self.a.shape[axis]:
            raise RuntimeError('start + length exceeds dimension size')
        return Tensor(self.a[(slice(None),) * axis + (slice(start, start + length),)], self.dtype)

    def clone(self):
        return Tensor(self.a.copy(), self.dtype)

    def detach(self):
        return self

    cpu = detach

    def numpy(self):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def item(self):
        return self.a.item()

    def is_contiguous(self):
        return self.a.flags.c_contiguous

    def fill_(self, v):
        self.a[...] = v
        return self

    def reshape(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
        try:
            r = self.a.reshape(s)
        except ValueError as e:
            raise RuntimeError(str(e))
        return Tensor(r, self.dtype)

    def flatten(self):
        return self.reshape(-1)

    def copy_(self, o):
        try:
            self.a[...] = o.a
        except ValueError as e:
            raise RuntimeError(str(e))
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def contiguous(self):
        return Tensor(np.ascontiguousarray(self.a), self.dtype)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Missing('the stand-in for torch tensors has no ' + name)

    T = property(lambda self: Tensor(self.a.T, self.dtype))

    def to(self, device=None, dtype=None):
        if dtype is None or dtype.np == self.a.dtype:
            return self
        return Tensor(self.a.astype(dtype.np), dtype)


def module():
    t = types.ModuleType('torch')
    t.Tensor, t.dtype = Tensor, dtype
    kinds = {}
    for n in ('float32', 'float64', 'float16', 'int32', 'int64', 'uint8', 'int8', 'bool'):
        kinds[np.dtype(n)] = dtype(n)
        setattr(t, n, kinds[np.dtype(n)])
    t.tensor = lambda v, dtype=None: Tensor(np.array(v, dtype.np), dtype)

    def empty(n, dtype=None, device=None):
        a = np.empty(n, dtype.np)
        a.view(np.uint8)[...] = 0xCD         # nobody may rely on fresh memory
        return Tensor(a, dtype)
    t.empty = empty
    t.zeros = lambda *s, dtype=kinds[np.dtype('float32')], device=None: Tensor(np.zeros(s[0] if len(s) == 1 else s, dtype.np), dtype)
    t.as_tensor = lambda v, dtype=None, device=None: v if isinstance(v, Tensor) else Tensor(np.asarray(v, dtype.np if dtype else None), dtype or kinds[np.asarray(v).dtype])
    t.is_tensor = lambda v: isinstance(v, Tensor)
    t.Size = tuple
    t.from_numpy = lambda a: Tensor(a, kinds[a.dtype])

    def missing(name):
        if name.startswith('__') or name == 'xpu':
            raise AttributeError(name)
        raise Missing('the stand-in for torch has no ' + name)
    t.__getattr__ = missing
    return t


def install(repo, kernels):
    """import /repo/inference/infer.py with this torch and the given kernel registry"""
    import importlib.util, os
    if 'vt_infer' in sys.modules:
        return sys.modules['vt_infer'], sys.modules['torch']
    sys.modules['torch'] = module()
    k = types.ModuleType('kernels')
    k.KernelRegistry = kernels
    sys.modules['kernels'] = k
    out = None
    for name in ('memory_pool', 'infer'):
        spec = importlib.util.spec_from_file_location(name, os.path.join(repo, 'inference', name + '.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        out = m
    sys.modules['vt_infer'] = out
    return out, sys.modules['torch']
