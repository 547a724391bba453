"""Obligations about SpotMarket: the optimisation problem built, what follows it and the results returned agree with the
reference market (nemsa/spec/market_spec.py) for every client program of the bank."""
import re
import textwrap

from . import bank, gen, lp
from . import frames as fr
from .check import Obligation
from .scen import Run


class Scenario(Obligation):
    rule = ('the optimisation problem (variables, bounds, costs, constraints, special ordered sets; up to renaming of ids), later '
            'solver calls, returned tables and raised errors equal the reference in every structure')

    def __init__(self, name, body, tables, aspects, weight=1.0, gen=None, bands=None, validate=False):
        super().__init__(name)
        self.body, self.tables, self.aspects, self.weight = body, tables, aspects, weight
        self.opts = gen or {}
        self.bands = bands
        self.validate = validate
        self.schemas = None

    def schema(self):
        base = with_ten() if self.bands == 10 else gen.TABLES
        return {n: base[n.split('__')[0]] for n in self.tables}

    def source(self):
        return 'def scenario(%s):\n' % ', '.join(self.tables) + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec):
        r = Run(validate=self.validate)
        m = r.load('market_spec') if spec else r.module('nempy.markets')
        args = [r.table(n, *s) for n, s in self.schema().items()]
        r.run(self.source(), env={'markets': m}, args=args)
        return r

    def prepare(self):
        fr.SORTED.clear()
        self.A, self.B = self.side(False), self.side(True)
        self.sorted = set(fr.SORTED)
        self.funcs = functions(self.A)

    def structure(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        kw = {'opts': self.opts}
        if self.bands == 10:
            kw['bands'] = tuple(str(i) for i in range(1, 11))
        w = gen.world(k, self.schema(), **kw)
        return lp.compare(self.A, self.B, w, k, self.aspects, self.stats), lambda: w.rows

    def describe(self):
        return self.source()


def with_ten():
    return gen.with_bands(10)


def functions(run):
    return {f for f in run.I.fn_seen if f.startswith('nempy')}


def obligations():
    out = {}
    for p, ns in bank.PROPS.items():
        out[p] = [Scenario(**bank.B[n]) for n in ns]
    return out
