"""Evaluation of closed terms over dates, so that loops over days of a known range are followed."""
from fractions import Fraction

from . import terms as tm
from .terms import T, const

OPS = set('const kw dtf dtm dt + - * / // % neg lt le gt ge eq ne not and or int float str strcat strm fmt abs round conv strfmt'.split())
_closed = {}


def closed(t):
    r = _closed.get(t)
    if r is None:
        if t.op == 'const':
            r = (True, False)
        elif t.op not in OPS:
            r = (False, False)
        else:
            xs = [closed(a) for a in t.args if isinstance(a, T)]
            r = (all(x[0] for x in xs), t.op in ('dtf', 'dtm', 'dt') or any(x[1] for x in xs))
        _closed[t] = r
    return r


def fold(t):
    """the constant a closed term over dates stands for, or the term"""
    if not isinstance(t, T) or closed(t) != (True, True):
        return t
    from .model import Fault, Model, Undet
    try:
        v = Model({}, {}, {}, 0).ev(t, {})
    except (Fault, Undet):
        return t
    if isinstance(v, bool) or isinstance(v, str):
        return const(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return const(int(v))
    return t
