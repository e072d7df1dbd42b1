"""Run one operator case through the real tool."""
import numpy as np
from vt.core import quiet


def load(model, cfg=None):
    import onnx_tool
    with quiet():
        return onnx_tool.Model(model, cfg or {})


def tool_shapes(model, feeds, outs):
    """loads the model, infers with the given input arrays; returns {out: (shape, dtype)}"""
    m = load(model)
    g = m.graph
    with quiet():
        g.shape_infer({k: v.copy() for k, v in feeds.items()})
    return {o: (g.tensormap[o].get_shape(), g.tensormap[o].dtype) for o in outs if o in g.tensormap}, m


def tool_values(model, feeds, outs):
    m = load(model)
    g = m.graph
    with quiet():
        g.value_infer({k: v.copy() for k, v in feeds.items()})
    return {o: g.tensormap[o].numpy for o in outs}, m
