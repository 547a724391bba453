"""Symbolic documents: nested dictionaries and lists of bounded shape whose leaves are unknown strings and whose optional
attributes may or may not be there."""
from .interp import DictObj, ListObj
from .terms import T, TRUE, mk, const


class Sym:
    """an unknown value, drawn by `draw(rng)` when structures are sampled"""
    def __init__(self, name, draw):
        self.name, self.draw = name, draw


class Opt:
    """an attribute that may be absent"""
    def __init__(self, name, value, p=0.6):
        self.name, self.value, self.p = name, value, p


def build(I, st, d):
    if isinstance(d, T):
        return d
    if isinstance(d, Sym):
        return mk('sym', d.name)
    if isinstance(d, dict):
        out = []
        for k, v in d.items():
            if isinstance(v, Opt):
                out.append(('v', const(k), build(I, st, v.value), mk('bsym', v.name)))
            else:
                out.append(('v', const(k), build(I, st, v), TRUE))
        return I.new(st, DictObj(out))
    if isinstance(d, list):
        return I.new(st, ListObj([('v', build(I, st, x), TRUE) for x in d]))
    return const(d)


def leaves(d, syms, opts):
    if isinstance(d, Sym):
        syms[d.name] = d.draw
    elif isinstance(d, Opt):
        opts[d.name] = d.p
        leaves(d.value, syms, opts)
    elif isinstance(d, dict):
        for v in d.values():
            leaves(v, syms, opts)
    elif isinstance(d, list):
        for v in d:
            leaves(v, syms, opts)


def instance(d, syms, flags):
    """the concrete document for reporting"""
    if isinstance(d, Sym):
        return syms[d.name]
    if isinstance(d, dict):
        return {k: instance(v.value if isinstance(v, Opt) else v, syms, flags) for k, v in d.items()
                if not isinstance(v, Opt) or flags[v.name]}
    if isinstance(d, list):
        return [instance(v, syms, flags) for v in d]
    return d
