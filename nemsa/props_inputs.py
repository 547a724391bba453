"""Obligations about the historical input classes: what they return from given AEMO records agrees with the reference."""
import textwrap

from . import frames as fr
from . import gen_inputs, lp
from .check import Obligation
from .model import Fault, NotUnique, Undet
from .props_market import functions
from .scen import Run
from .terms import mk

IMPL = {'units': 'nempy.historical_inputs.units', 'interconnectors': 'nempy.historical_inputs.interconnectors',
        'demand': 'nempy.historical_inputs.demand', 'constraints': 'nempy.historical_inputs.constraints',
        'loaders': 'nempy.historical_inputs.loaders', 'time_sequential': 'nempy.time_sequential',
        'names': 'nempy.historical_inputs.aemo_to_nempy_name_mapping'}


def observe(impl, spec, world, salt, stats=None):
    """differences between two runs of a client in one structure"""
    A, B = lp.Side(impl, world.model(salt)), lp.Side(spec, world.model(salt))
    for s in (A, B):
        s.observe_raise()
    if A.raised or B.raised:
        if bool(A.raised) != bool(B.raised):
            if A.raised:
                return ['raises %s at %s, reference does not raise' % (A.raised.name, A.raised.site)]
            return ['does not raise; reference raises %s' % B.raised.name]
        if A.raised.name != B.raised.name:
            return ['raises %s at %s; reference raises %s' % (A.raised.name, A.raised.site, B.raised.name)]
        return []
    try:
        rb = lp.value(B.m, spec.result)
    except Fault as e:
        raise Undet('reference: %s' % e)
    try:
        ra = lp.value(A.m, impl.result)
    except Fault as e:
        raise Undet('value: %s' % e)
    if stats is not None:
        stats['results'] = stats.get('results', 0) + 1
    return lp.result_diff(ra, rb) if ra != rb else []


class Client(Obligation):
    rule = 'tables, values and errors returned to the client program equal the reference in every structure'

    def __init__(self, name, body, tables, mod, spec, weight=1.0, opts=None, syms=()):
        super().__init__(name)
        self.syms = syms
        self.body, self.tables, self.mod, self.spec, self.weight, self.opts = body, tables, mod, spec, weight, opts or {}

    def source(self):
        t = [x for x in self.tables] + list(self.syms)
        head = 'def scenario(%s):\n' % ', '.join(['interval'] + t)
        head += '    loader = Loader(interval, {%s})\n' % ', '.join('%r: %s' % (x, x) for x in t)
        return head + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec):
        r = Run()
        ldr = r.load('loader_stub')
        m = r.load(self.spec) if spec else r.module(IMPL[self.mod])
        args = [mk('sym', 'interval')] + [r.table(n, *gen_inputs.TABLES[n]) for n in self.tables] + [mk('sym', n) for n in self.syms]
        r.run(self.source(), env={self.mod: m, 'Loader': r.I.get(r.st, ldr.env).vars['Loader']}, args=args)
        return r

    def prepare(self):
        self.denied = set()
        for k in range(40):
            self.analyse()
            try:
                for j in range(6):
                    self.decide(j * 7919 + 5)
            except NotUnique as e:
                self.denied.add(e.site)
                continue
            except (Undet, Fault):
                pass
            break
        self.funcs = functions(self.A)

    def analyse(self):
        fr.SORTED.clear()
        fr.LOOKUP = self.denied
        try:
            self.A, self.B = self.side(False), self.side(True)
        finally:
            fr.LOOKUP = None
        self.sorted = set(fr.SORTED)

    def structure(self, k):
        for _ in range(8):
            try:
                return self.decide(k)
            except NotUnique as e:
                if e.site in self.denied:
                    raise
                self.denied.add(e.site)
                self.analyse()
        raise Undet('joins')

    def decide(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        w = gen_inputs.world(k, {n: gen_inputs.TABLES[n] for n in self.tables}, opts=self.opts)
        return observe(self.A, self.B, w, k, self.stats), lambda: {'tables': w.rows, 'symbols': w.syms}

    def describe(self):
        return self.source()


UT = ['price', 'volume', 'fast', 'initial', 'uigf', 'details', 'agc']
UNEW = 'u = units.UnitData(loader)\n'


def unit(name, body, extra=(), **kw):
    return Client(name, UNEW + body, UT + list(extra), 'units', 'units_spec', **kw)


IT = ['icon', 'idef', 'mnspbids', 'mnsp']
CT = ['rhs', 'ctype', 'ulhs', 'rlhs', 'ilhs']


def inter(name, body, extra=(), **kw):
    return Client(name, 'x = interconnectors.InterconnectorData(loader)\n' + body, IT + list(extra), 'interconnectors', 'inputs_spec', **kw)


def con(name, body, **kw):
    return Client(name, 'x = constraints.ConstraintData(loader)\n' + body, CT, 'constraints', 'inputs_spec', **kw)


def obligations():
    out = {}
    bids = [
        unit('processed volume and price bids', 'return u.get_processed_bids()\n', weight=3),
    ]
    traps = [
        unit('regulation trapeziums', 'u.get_processed_bids()\nu.add_fcas_trapezium_constraints()\nreturn u.get_fcas_regulation_trapeziums()\n', weight=3),
        unit('contingency trapeziums', 'u.get_processed_bids()\nu.add_fcas_trapezium_constraints()\nreturn u.get_contingency_services()\n', weight=2),
        unit('max availability', 'u.get_processed_bids()\nu.add_fcas_trapezium_constraints()\nreturn u.get_fcas_max_availability()\n', weight=2),
        unit('bids and trapeziums after one another', 'v, p = u.get_processed_bids()\nu.add_fcas_trapezium_constraints()\n'
             'a = u.get_fcas_max_availability()\nb = u.get_fcas_regulation_trapeziums()\nc = u.get_contingency_services()\n'
             'v2, p2 = u.get_processed_bids()\nreturn v, p, a, b, c, v2, p2\n', weight=1),
    ]
    order = [
        unit('trapeziums before bids are processed', 'u.add_fcas_trapezium_constraints()\nreturn 1\n'),
        unit('maximum availability before trapeziums', 'u.get_processed_bids()\nreturn u.get_fcas_max_availability()\n'),
        unit('regulation trapeziums before trapeziums', 'u.get_processed_bids()\nreturn u.get_fcas_regulation_trapeziums()\n'),
        unit('contingency trapeziums before trapeziums', 'u.get_processed_bids()\nreturn u.get_contingency_services()\n'),
    ]
    out['C26'] = traps + bids + order
    out['C27'] = bids + traps
    out['C28'] = [
        unit('modes before the unconstrained run', 'return u.get_fast_start_profiles_for_dispatch()\n'),
        unit('modes after the unconstrained run', 'return u.get_fast_start_profiles_for_dispatch(undisp)\n', ['undisp'], weight=3),
        unit('modes after the unconstrained run, all columns', 'return u.get_fast_start_profiles_for_dispatch(undisp, return_all_columns=True)\n', ['undisp'], weight=2),
        unit('modes before the unconstrained run, all columns', 'return u.get_fast_start_profiles_for_dispatch(return_all_columns=True)\n'),
        unit('modes before and after', 'a = u.get_fast_start_profiles_for_dispatch()\nb = u.get_fast_start_profiles_for_dispatch(undisp)\n'
             'return a, b, u.get_fast_start_profiles_for_dispatch(undisp)\n', ['undisp']),
    ]
    out['C29'] = [
        unit('unit information', 'return u.get_unit_info()\n'),
        unit('bid ramp rates', 'return u.get_bid_ramp_rates()\n'),
        unit('telemetered ramp rates', 'return u.get_scada_ramp_rates()\n'),
        unit('telemetered ramp rates with initial output', 'return u.get_scada_ramp_rates(inlude_initial_output=True)\n'),
        unit('initial output', 'return u.get_initial_unit_output()\n'),
        unit('availability', 'return u.get_unit_bid_availability()\n'),
        unit('forecast limits', 'return u.get_unit_uigf_limits()\n'),
        unit('getters after bid processing', 'u.get_processed_bids()\nreturn u.get_unit_info(), u.get_bid_ramp_rates(), u.get_scada_ramp_rates(), '
             'u.get_initial_unit_output(), u.get_unit_bid_availability(), u.get_unit_uigf_limits()\n'),
    ]
    LM = ['regionsum', 'lossfactor', 'lossmodel']
    out['C29'] += [
        inter('interconnector definitions', 'return x.get_interconnector_definitions()\n', weight=2),
        inter('loss functions', 'a, b = x.get_interconnector_loss_model()\nreturn a\n', LM, weight=2),
        inter('loss function break points', 'a, b = x.get_interconnector_loss_model()\nreturn b\n', LM),
        inter('definitions before and after the loss model', 'd = x.get_interconnector_definitions()\na, b = x.get_interconnector_loss_model()\n'
              'return d, a, b, x.get_interconnector_definitions()\n', LM),
        Client('loss functions from coefficients', 'return interconnectors.create_loss_functions(lcoef, dcoef, ldemand)\n',
               ['lcoef', 'dcoef', 'ldemand'], 'interconnectors', 'inputs_spec'),
        Client('operational demand', 'x = demand.DemandData(loader)\na = x.get_operational_demand()\nreturn a, x.get_operational_demand()\n',
               ['regionsum'], 'demand', 'inputs_spec'),
    ]
    out['C30'] = [
        con('right-hand sides and types', 'return x.get_rhs_and_type()\n'),
        con('generic constraints only', 'return x.get_rhs_and_type_excluding_regional_fcas_constraints()\n', weight=2),
        con('FCAS requirements', 'return x.get_fcas_requirements()\n', weight=2),
        con('left-hand sides', 'return x.get_unit_lhs(), x.get_interconnector_lhs(), x.get_region_lhs()\n'),
        con('violation costs', 'return x.get_violation_costs()\n'),
        con('prices by kind and over-constrained rerun', 'return x.get_constraint_violation_prices(), x.is_over_constrained_dispatch_rerun()\n',
            syms=('prices', 'ocd')),
        con('all of them', 'a = x.get_fcas_requirements()\nb = x.get_rhs_and_type()\nc = x.get_unit_lhs()\nd = x.get_violation_costs()\n'
            'e = x.get_rhs_and_type_excluding_regional_fcas_constraints()\nreturn a, b, c, d, e, x.get_region_lhs(), x.get_fcas_requirements()\n'),
    ]
    out['C33'] = [
        Client('ramp rate parameters from the last interval', 'return time_sequential.construct_ramp_rate_parameters(last_dispatch, ts_ramp)\n',
               ['last_dispatch', 'ts_ramp'], 'time_sequential', 'inputs_spec'),
        Client('ramp rate parameters from energy dispatch without a service column',
               "d = last_dispatch[last_dispatch['service'] == 'energy'].loc[:, ['unit', 'dispatch']]\n"
               'return time_sequential.construct_ramp_rate_parameters(d, ts_ramp)\n',
               ['last_dispatch', 'ts_ramp'], 'time_sequential', 'inputs_spec'),
        Client('seed ramp rate parameters', 'return time_sequential.create_seed_ramp_rate_parameters(ts_init, ts_ramp)\n',
               ['ts_init', 'ts_ramp'], 'time_sequential', 'inputs_spec'),
    ]
    names = ('ENERGY TOTALCLEARED RAISEREG LOWERREG RAISE1SEC RAISE6SEC RAISE60SEC RAISE5MIN LOWER1SEC LOWER6SEC LOWER60SEC LOWER5MIN DUID '
             'BIDTYPE DISPATCHTYPE DIRECTION MAXAVAIL UIGF INITIALMW MinLoadingMW CurrentMode CurrentModeTime T1 T2 T3 T4 LOSSFACTOR '
             'CONNECTIONPOINTID REGIONID INTERCONNECTORID LOSSCONSTANT LOSSFLOWCOEFFICIENT FROMREGIONLOSSSHARE DEMANDCOEFFICIENT '
             'LOSSSEGMENT MWBREAKPOINT RAMPUPRATE RAMPDOWNRATE SCADARAMPUPRATE SCADARAMPDOWNRATE GENERATOR LOAD').split()
    ren = "t = names_table.loc[:, ['k', 'NAME']]\nt.columns = ['DUID', %r]\nreturn names.map_aemo_column_names_to_nempy_names(t)\n"
    nm = lambda n, body: Client(n, body.replace('names_table', 'names_'), ['names_'], 'names', 'names_spec')
    out['C24'] = [
        nm('column names', "import pandas as pd\nout = []\nfor n in %r:\n    t = names_table.loc[:, ['k', 'v']]\n    t = t.rename(columns={'v': n})\n"
           "    if n != 'DUID':\n        t = t.rename(columns={'k': 'DUID'})\n    else:\n        t = t.rename(columns={'k': 'BIDTYPE'})\n"
           "    out.append(names.map_aemo_column_names_to_nempy_names(t))\nreturn out\n" % names),
        nm('values of a column', "return names.map_aemo_column_values_to_nempy_name(names_table, 'NAME')\n"),
        nm('values of another column', "return names.map_aemo_column_values_to_nempy_name(names_table, 'OTHER')\n"),
    ] + [nm('column without a nempy name ' + c, ren % c) for c in ['UNHEARD', 'unit', 'RAISE', 'duid', 'T5', 'BANDAVAIL1']] + bids + traps + out['C28'][:1] \
        + out['C29'] + out['C30']
    return out
