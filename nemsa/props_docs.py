"""Obligations about NEMDE files: what is read from a document agrees with the reference, for every value in it."""
import random
import textwrap

from . import docs, gen_docs, lp
from .check import Obligation
from .model import Fault, Model, Undet
from .props_inputs import observe
from .props_market import functions
from .scen import Run
from .terms import FALSE, TRUE, const, mk

SHAPES = 40


class World:
    def __init__(self, doc, seed):
        rng = random.Random(seed)
        syms, opts = {}, {}
        docs.leaves(doc, syms, opts)
        self.doc = doc
        self.syms = {k: d(rng) for k, d in syms.items()}
        self.flags = {k: rng.random() < p for k, p in opts.items()}

    def model(self, salt):
        return Model({}, dict(self.flags), dict(self.syms), salt)


def files(doc_of):
    """what reading files and parsing them gives"""
    return {'xmltodict.parse': doc_of, 'os.path.exists': lambda I, f, a, k, st: TRUE,
            'os.path.isfile': lambda I, f, a, k, st: TRUE}


class DocClient(Obligation):
    rule = 'tables, values and errors read from a document equal the reference for every value and optional attribute'
    shapes = SHAPES

    def __init__(self, name, body, mod='nempy.historical_inputs.xml_cache', spec='xml_spec', var='xml_cache', quirk=None, weight=1.0,
                 make=None):
        super().__init__(name)
        self.body, self.mod, self.spec, self.var, self.quirk, self.weight = body, mod, spec, var, quirk, weight
        self.make = make or (lambda seed: gen_docs.Shape(seed).document())

    def source(self):
        return 'def scenario():\n' + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, doc, spec):
        def parse(I, f, a, k, st):
            return docs.build(I, st, doc), st
        r = Run(intercepts=files(parse))
        m = r.load(spec) if spec else r.module(self.mod)
        env = {self.var: m}
        self.extra(r, env, spec)
        r.run(self.source(), env=env, args=[])
        return r

    def extra(self, r, env, spec):
        pass

    def prepare(self):
        self.cache = {}
        self.funcs = set()
        self.analyse(0)

    def analyse(self, k):
        c = self.cache.get(k)
        if c is None:
            doc = self.make(k)
            c = self.cache[k] = (doc, self.side(doc, None), self.side(doc, self.spec),
                                 self.side(doc, self.quirk) if self.quirk else None)
            self.funcs = sorted(set(self.funcs) | set(functions(c[1])))
        return c

    def structure(self, k):
        doc, a, b, q = self.analyse(k % self.shapes)
        w = World(doc, k)
        d = observe(a, b, w, k, self.stats)
        if d and q is not None and not observe(a, q, w, k):
            d = ['KNOWN ' + str(x) for x in d]
        return d, lambda: {'document': docs.instance(doc, w.syms, w.flags)}

    def describe(self):
        return self.source()


NEW = "x = xml_cache.XMLCacheManager('cache')\nx.load_interval('2024/07/10 12:05:00')\n"
ECOLS = "['DUID', 'BIDTYPE', 'DIRECTION', 'MAXAVAIL', 'RAMPDOWNRATE', 'RAMPUPRATE'] + ['BANDAVAIL' + str(i) for i in range(1, 11)]"
FCOLS = "['DUID', 'BIDTYPE', 'DIRECTION', 'MAXAVAIL', 'ENABLEMENTMIN', 'ENABLEMENTMAX', 'LOWBREAKPOINT', 'HIGHBREAKPOINT'] + ['BANDAVAIL' + str(i) for i in range(1, 11)]"


def read(name, call, **kw):
    return DocClient(name, NEW + 'return x.%s()\n' % call, **kw)


class RhsClient(DocClient):
    rule = 'right-hand sides, reported dependants and errors equal the reference evaluation for every value'

    def __init__(self, name, body, weight=1.0, **kw):
        super().__init__(name, NEW + 'c = rhs_calculator.RHSCalc(x)\n' + body, weight=weight,
                         make=lambda seed: gen_docs.Equations(seed, **kw).document())

    def extra(self, r, env, spec):
        env['rhs_calculator'] = r.load('rhs_spec') if spec else r.module('nempy.historical_inputs.rhs_calculator')


def obligations():
    out = {}
    out['C22'] = [
        read('unit initial conditions', 'get_unit_initial_conditions'),
        read('fast start parameters', 'get_unit_fast_start_parameters'),
        DocClient('energy volume bids', NEW + "b = x.get_unit_volume_bids()\nreturn b[b['BIDTYPE'] == 'ENERGY'].loc[:, %s]\n" % ECOLS),
        DocClient('FCAS volume bids', NEW + "b = x.get_unit_volume_bids()\nreturn b[b['BIDTYPE'] != 'ENERGY'].loc[:, %s]\n" % FCOLS),
        read('volume bid fields absent from the file', 'get_unit_volume_bids', quirk='xml_quirk'),
        read('price bids', 'get_unit_price_bids'),
        read('forecasts', 'get_UIGF_values'),
        read('violations', 'get_violations'),
        read('violation prices', 'get_constraint_violation_prices'),
        read('intervention flag', 'is_intervention_period'),
        read('constraint right-hand sides', 'get_constraint_rhs'),
        read('constraint types', 'get_constraint_type'),
        read('region terms', 'get_constraint_region_lhs'),
        read('unit terms', 'get_constraint_unit_lhs'),
        read('interconnector terms', 'get_constraint_interconnector_lhs'),
        read('market interconnector availability', 'get_market_interconnector_link_bid_availability'),
        read('service prices', 'get_service_prices'),
        DocClient('reading twice', NEW + "a = x.get_constraint_unit_lhs()\nb = x.get_unit_initial_conditions()\nc = x.get_constraint_rhs()\n"
                  "return a, b, c, x.get_constraint_unit_lhs(), x.get_unit_initial_conditions(), x.get_constraint_rhs()\n"),
    ]
    out['C24'] = [o for o in out['C22'] if o.name in ('energy volume bids', 'FCAS volume bids', 'price bids', 'unit terms', 'region terms',
                                                      'constraint types', 'service prices')]
    kinds = "[('A0', 'A'), ('S0', 'S'), ('I0', 'I'), ('W1', 'W'), ('U0', 'T'), ('E1', 'E'), ('I0', 'M'), ('I0', 'N')]"
    out['C31'] = [
        RhsClient('equations without groups', "return c.compute_constraint_rhs('C0')\n", groups=False, weight=3),
        RhsClient('equations with groups', "return c.compute_constraint_rhs('C0')\n", weight=2),
        RhsClient('several equations', "return c.compute_constraint_rhs(['C0'])\n", groups=False),
        RhsClient('computing twice', "a = c.compute_constraint_rhs('C0')\nb = c.compute_constraint_rhs('C0')\nreturn a, b\n"),
        RhsClient('operands missing from the stack and branches', "return c.compute_constraint_rhs('C0')\n", errors=True, groups=False),
        RhsClient('NEMDE values', "return c.get_nemde_rhs('C0')\n"),
        RhsClient('dependants', "return [c.get_rhs_constraint_equations_that_depend_value(i, t) for i, t in %s]\n" % kinds),
    ] + [
        RhsClient('overriding a value of type ' + t, "a = c.compute_constraint_rhs('C0')\nc.update_spd_id_value(%r, %r, '77.5')\n"
                  "return a, c.compute_constraint_rhs('C0')\n" % (i, t), groups=False)
        for i, t in [('A0', 'A'), ('W0', 'W'), ('U0', 'T'), ('E0', 'E'), ('I0', 'M'), ('I0', 'N'), ('R0', 'R'), ('X0', 'X'), ('U9', 'T'), ('I0', 'Q')]
    ]
    return out
