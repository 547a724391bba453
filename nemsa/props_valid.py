"""C18: which input tables the market's methods reject, and that a rejected table leaves the market as it was."""
import math
import random
import re
import textwrap
from fractions import Fraction as F

from . import frames as fr
from . import gen, lp
from .check import Obligation
from .interp import State
from .model import NAN, Tok, Undet, canon
from .props_market import functions
from .scen import Run, snap
from .terms import NONE

# column -> (kind, always required?, restrictions); 'typed' marks a column required exactly if unit_info has dispatch types
NUM = ('num', True, ('real',))
POS = ('num', True, ('real', 'nonneg'))
BANDS = tuple(str(i) for i in range(1, 11))
S = {
    'unit_info': {'unit': ('str', True, ()), 'region': ('str', True, ('names',)), 'loss_factor': ('num', False, ('real', 'nonneg')),
                  'dispatch_type': ('str', False, ('names',))},
    'volume_bids': {'unit': ('str', True, ('names',)), 'dispatch_type': ('str', 'typed', ('names',)), 'service': ('str', False, ('names',)),
                    **{b: ('num', b == '1', ('real', 'nonneg')) for b in BANDS}},
    'price_bids': {'unit': ('str', True, ('names',)), 'dispatch_type': ('str', 'typed', ('names',)), 'service': ('str', False, ('names',)),
                   **{b: ('num', b == '1', ('real',)) for b in BANDS}},
    'unit_limits': {'unit': ('str', True, ('names',)), 'dispatch_type': ('str', 'typed', ('names',)), 'capacity': ('num', True, ())},
    'uigf': {'unit': ('str', True, ('names',)), 'capacity': ('num', True, ())},
    'ramp': {'unit': ('str', True, ('names',)), 'dispatch_type': ('str', 'typed', ('names',)), 'initial_output': NUM, 'ramp_up_rate': NUM,
             'ramp_down_rate': NUM},
    'scada': {'unit': ('str', True, ('names',)), 'scada_ramp_up_rate': ('num', False, ()), 'scada_ramp_down_rate': ('num', False, ())},
    'scada_reg': {'unit': ('str', True, ('names',)), 'initial_output': ('num', True, ()), 'scada_ramp_up_rate': ('num', True, ()),
                  'scada_ramp_down_rate': ('num', True, ())},
    'fsp': {'unit': ('str', True, ('names',)), 'end_mode': ('int', True, ('nonneg',)), 'time_in_end_mode': POS, 'mode_two_length': POS,
            'mode_four_length': POS, 'min_loading': POS},
    'fsp_first': {'unit': ('str', True, ('names',)), 'current_mode': ('int', True, ('nonneg',))},
    'fsp_second': {'unit': ('str', True, ('names',)), 'end_mode': ('int', True, ('nonneg',)), 'min_loading': POS,
                   'time_since_end_of_mode_two': ('num', True, ('nonneg',))},
    'demand': {'region': ('str', True, ('names',)), 'demand': NUM},
    'fcas': {'set': ('str', True, ()), 'region': ('str', True, ('names',)), 'service': ('str', True, ('names',)), 'volume': NUM,
             'type': ('str', False, ('names',))},
    'fmax': {'unit': ('str', True, ('names',)), 'service': ('str', True, ('names', 'energy')), 'max_availability': POS,
             'dispatch_type': ('str', False, ('names',))},
    'trap': {'unit': ('str', True, ('names',)), 'service': ('str', True, ('names', 'energy', 'raise_reg', 'lower_reg')), 'max_availability': POS,
             'enablement_min': NUM, 'low_break_point': NUM, 'high_break_point': NUM, 'enablement_max': NUM,
             'dispatch_type': ('str', False, ('names',))},
    'rtrap': {'unit': ('str', True, ('names',)), 'service': ('str', True, ('names', 'energy', 'raise_6s', 'lower_1s')), 'max_availability': POS,
              'enablement_min': NUM, 'low_break_point': NUM, 'high_break_point': NUM, 'enablement_max': NUM,
              'dispatch_type': ('str', False, ('names',))},
    'inter': {'interconnector': ('str', True, ()), 'link': ('str', False, ()), 'to_region': ('str', True, ('names',)),
              'from_region': ('str', True, ('names',)), 'max': NUM, 'min': NUM, 'generic_constraint_factor': ('int', False, ('one',)),
              'from_region_loss_factor': ('num', False, ('real', 'nonneg')), 'to_region_loss_factor': ('num', False, ('real', 'nonneg'))},
    'lossf': {'interconnector': ('str', True, ()), 'link': ('str', False, ()), 'loss_function': ('fun', True, ()),
              'from_region_loss_share': ('num', True, ('real', 'nonneg', 'max1'))},
    'bps': {'interconnector': ('str', True, ()), 'link': ('str', False, ()), 'loss_segment': ('int', True, ()), 'break_point': NUM},
    'gen': {'set': ('str', True, ()), 'type': ('str', True, ()), 'rhs': NUM},
    'gu': {'set': ('str', True, ()), 'unit': ('str', True, ('names',)), 'service': ('str', True, ('names',)), 'coefficient': NUM},
    'gr': {'set': ('str', True, ()), 'region': ('str', True, ('names',)), 'service': ('str', True, ('names',)), 'coefficient': NUM},
    'gi': {'set': ('str', True, ()), 'interconnector': ('str', True, ()), 'coefficient': NUM},
    'fcas_cost': {'set': ('str', True, ()), 'cost': NUM},
    'gen_cost': {'set': ('str', True, ()), 'cost': NUM},
}
BASE = {'fsp_first': 'fsp', 'fsp_second': 'fsp'}


def base(n):
    return n.split('__')[0]


def sch(n):
    return S[base(n)]


DTYPE = {'num': 'numpy.float64', 'int': 'numpy.int64', 'str': 'object', 'fun': 'object'}
WRONG = {'num': ['object', 'numpy.int64'], 'int': ['object', 'numpy.float64'], 'str': ['numpy.float64'], 'fun': ['numpy.float64']}


class World(gen.World):
    """a structure whose table under test is valid or invalid in one way"""

    def __init__(self, rng, tables, bad, opts):
        self.bad = bad
        bands = sorted({c.rstrip('?') for n in tables for c in tables[n][0] if c.rstrip('?').isdigit()}, key=int)
        super().__init__(rng, tables, bands=bands, opts=opts)
        self.types = {(n, c): DTYPE[sch(n)[c][0]] for n in tables for c in sch(n)}
        self.types = {k: v for k, v in self.types.items() if not k[1].isdigit() or k[1] in bands}
        for n in [n for n in tables if base(n) == 'price_bids']:
            for x in self.rows[n]:
                bs = sorted((b for b in x if b.isdigit()), key=int)
                for b, v in zip(bs, sorted(x[b] for b in bs)):
                    x[b] = v
        self.what = self.corrupt(self.rows[bad]) if rng.random() < 0.8 else None

    def fix_flags(self):
        typed = self.flags['hascol:unit_info.dispatch_type']
        for n in self.schemas:
            for c in sch(n):
                k = 'hascol:%s.%s' % (n, c)
                if k in self.flags:
                    need = sch(n)[c][1]
                    if need == 'typed':
                        self.flags[k] = typed
                    elif need:
                        self.flags[k] = True
            if 'hascol:%s.OTHER' % n in self.flags:
                self.flags['hascol:%s.OTHER' % n] = False

    def t_fsp_first(self, n):
        return self.t_fsp(n)

    t_fsp_second = t_fsp_first

    def corrupt(self, rows):
        r, n = self.r, self.bad
        cols = [c.rstrip('?') for c in self.schemas[n][0]]
        here = [c for c in sch(n) if c in cols and self.flags.get('hascol:%s.%s' % (n, c), True)]
        ways = ['extra', 'missing']
        if rows:
            ways += ['repeat', 'repeat', 'type', 'value', 'value', 'value'] + (['fall', 'fall'] if base(n) == 'price_bids' else [])
        way = r.choice(ways)
        if way == 'extra':
            self.flags['hascol:%s.OTHER' % n] = True
            for x in rows:
                x['OTHER'] = F(1)
            return 'a column that is not allowed'
        if way == 'missing':
            need = [c for c in here if sch(n)[c][1] in (True, 'typed') and c + '?' in self.schemas[n][0]]
            if not need:
                return None
            c = r.choice(need)
            self.flags['hascol:%s.%s' % (n, c)] = False
            for x in rows:
                del x[c]
            return 'no column %s' % c
        if way == 'repeat':
            keys = [k for k in self.schemas[n][1] if k in here]
            x = dict(r.choice(rows))
            for c in here:
                if c not in keys and sch(n)[c][0] == 'num' and r.random() < 0.7 and not c.isdigit():
                    x[c] = x[c] / 2
            rows.append(x)
            return 'two rows for %s' % [x[k] for k in keys]
        if way == 'type':
            c = r.choice(here)
            k = sch(n)[c][0]
            self.types[n, c] = r.choice(WRONG[k])
            if k in ('str', 'fun'):
                if k == 'str' and c in self.schemas[n][1] or r.random() < 0.5:
                    r.choice(rows)[c] = F(7)
                else:
                    for x in rows:
                        x[c] = F(7)
            return 'column %s of another type' % c
        if way == 'fall':
            bs = sorted((b for b in here if b.isdigit()), key=int)
            if len(bs) < 2:
                return None
            i = r.randrange(len(bs) - 1)
            x = r.choice(rows)
            x[bs[i + 1]] = x[bs[i]] - F(1, 100)
            return 'a price lower than that of the band before'
        cs = [(c, w) for c in here for w in sch(n)[c][2]]
        if not cs:
            return None
        c, w = r.choice(cs)
        x = r.choice(rows)
        x[c] = {'names': 'X9', 'real': r.choice([math.inf, -math.inf, NAN]), 'nonneg': F(-1, 100), 'max1': F(101, 100), 'one': F(0)}.get(w, w)
        return '%s = %s' % (c, x[c])

    def model(self, salt):
        m = super().model(salt)

        def typeof(m, t, env):
            v = m.ev(t.args[0], env)
            return ('ext', 'builtins.str' if isinstance(v, str) else 'builtins.function' if isinstance(v, Tok) else 'builtins.float')
        m.hooks['type'] = typeof
        m.hooks['callable'] = lambda m, t, env: isinstance(m.ev(t.args[0], env), Tok)
        m.hooks['dtype'] = lambda m, t, env: ('ext', self.types[t.args])
        return m


class Tables(Obligation):
    rule = ('the call raises an error exactly if the table has a missing, unexpected, wrongly typed or repeated key column, a disallowed name '
            'or value; and on the way to that error no attribute or table of the market has changed')

    def __init__(self, name, pre, call, tables, bad, weight=1.0, opts=None, bands=('1', '2', '10'), fixed=False):
        super().__init__(name)
        self.bands, self.fixed = bands, fixed
        self.pre, self.call, self.bad, self.weight, self.opts = pre, call, bad, weight, dict(opts or {}, bad_bdu=0)
        order = list(S)
        self.tables = sorted(tables, key=lambda n: (order.index(base(n)), n))

    def schema(self):
        out = {}
        for n in self.tables:
            cols, pk = gen.with_bands(10)[BASE.get(base(n), base(n))]
            cols = [c.rstrip('?') + '?' for c in cols if c.rstrip('?') in sch(n) and (not c.rstrip('?').isdigit() or c.rstrip('?') in self.bands)]
            if n == self.bad:
                out[n] = ([c[:-1] if self.fixed and c[:-1].isdigit() else c for c in cols] + ['OTHER?'], pk)
            else:
                out[n] = ([c if sch(n)[c[:-1]][1] in (False, 'typed') and not (self.fixed and c[:-1].isdigit()) else c[:-1] for c in cols], pk)
        return out

    def source(self):
        return 'import _sa\ndef scenario(%s):\n' % ', '.join(self.tables) + textwrap.indent(self.pre + '_sa.mark(m)\n' + self.call, '    ')

    def prepare(self):
        fr.SORTED.clear()
        self.mark = None

        def mark(I, f, a, k, st):
            self.mark = (a[0], State(dict(st.heap), st.pc), len(I.raises))
            return NONE
        r = self.A = Run(validate=True, intercepts={'_sa.mark': mark})
        m = r.module('nempy.markets')
        args = [r.table(n, c, None if n == self.bad else pk) for n, (c, pk) in self.schema().items()]
        r.run(self.source(), env={'markets': m}, args=args)
        self.sorted = set(fr.SORTED)
        self.funcs = functions(r)
        self.before = self.state(self.mark[1])

    def state(self, st):
        if self.mark[0] is NONE:
            return None
        return snap(self.mark[0], st, self.A.I)

    def structure(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        w = World(random.Random(k), self.schema(), self.bad, self.opts)
        s = lp.Side(self.A, w.model(k))
        s.observe_raise()
        out = []
        r = s.raised
        i = self.A.I.raises.index(r) if r else None
        if r and i < self.mark[2]:
            raise Undet('raised before the call at %s' % r.site)
        if not r and w.what:
            out = ['accepts a table with ' + w.what]
        elif r and not w.what:
            out = ['rejects a valid table: %s at %s' % (r.name, r.site)]
        elif r and self.before is not None:
            a, b = self.before[2], self.state(State(dict(r.heap), r.pc))[2]
            for n in sorted(set(a) | set(b)):
                if n not in a or n not in b:
                    out.append('attribute %s appears or disappears before the error at %s' % (n, r.site))
                elif self.differs(s.m, a[n], b[n]):
                    out.append('attribute %s has changed before the error at %s' % (n, r.site))
        return out, lambda: {'tables': w.rows, 'invalid': w.what}

    def differs(self, m, a, b):
        if a is b or repr(a) == repr(b):
            return False
        return canon(lp.value(m, a)) != canon(lp.value(m, b))

    def describe(self):
        return self.source()


def obligations():
    N = "m = markets.SpotMarket(['R1', 'R2'], unit_info)\n"
    V = N + 'm.set_unit_volume_bids(volume_bids)\n'
    U, UV = ['unit_info'], ['unit_info', 'volume_bids']
    out = [Tables('unit_info', 'm = None\n', "m = markets.SpotMarket(['R1', 'R2'], unit_info)\n", U, 'unit_info')]

    def t(bad, call, pre=N, tabs=U, name=None, again=True, **kw):
        """the table `bad` of the call is invalid; with and without the feature having been set before"""
        tabs = list(tabs)
        rest = [x for x in re.findall(r'\w+', call.split('(', 1)[1]) if x in S and x not in tabs and x != bad]
        out.append(Tables(name or bad, pre, 'm.%s\n' % call, tabs + rest + [bad], bad, **kw))
        if again:
            second = re.sub(r'\b%s\b(?=[,)])' % bad, bad + '__2', call)
            out.append(Tables((name or bad) + ' set before', pre + 'm.%s\n' % call, 'm.%s\n' % second, tabs + rest + [bad, bad + '__2'],
                              bad + '__2', weight=0.5, **kw))
    R = dict(opts=dict(services=['raise_reg', 'lower_reg']))
    C = dict(opts=dict(services=['raise_reg', 'lower_reg', 'raise_6s', 'lower_5min']))
    I = V + 'm.set_interconnectors(inter)\n'
    t('volume_bids', 'set_unit_volume_bids(volume_bids)')
    t('price_bids', 'set_unit_price_bids(price_bids)', V, UV)
    t('volume_bids', 'set_unit_volume_bids(volume_bids)', name='volume_bids ten bands', bands=BANDS, fixed=True)
    t('price_bids', 'set_unit_price_bids(price_bids)', V, UV, name='price_bids ten bands', bands=BANDS, fixed=True)
    t('price_bids', 'set_unit_price_bids(price_bids)', V, UV, name='price_bids four bands', bands=('1', '2', '5', '10'), again=False)
    t('unit_limits', 'set_unit_bid_capacity_constraints(unit_limits)', V, UV)
    t('uigf', 'set_unconstrained_intermittent_generation_forecast_constraint(uigf)', V, UV)
    t('ramp', 'set_unit_ramp_rate_constraints(ramp)', V, UV)
    t('scada', 'set_unit_ramp_rate_constraints(ramp, scada)', V, UV)
    t('fsp_first', "set_unit_ramp_rate_constraints(ramp, scada, fsp_first, 'fast_start_first_run')", V, UV, 'first run profiles')
    t('fsp_second', "set_unit_ramp_rate_constraints(ramp, scada, fsp_second, 'fast_start_second_run')", V, UV, 'second run profiles')
    t('fsp', 'set_fast_start_constraints(fsp)', V, UV)
    t('demand', 'set_demand_constraints(demand)', V, UV)
    t('fcas', 'set_fcas_requirements_constraints(fcas)', V, UV, **C)
    t('fmax', 'set_fcas_max_availability(fmax)', V, UV, **C)
    t('scada_reg', 'set_joint_ramping_constraints_reg(scada_reg)', V, UV, **R)
    t('fsp_first', "set_joint_ramping_constraints_reg(scada_reg, fsp_first, 'fast_start_first_run')", V, UV, 'first run profiles for regulation', **R)
    t('fsp_second', "set_joint_ramping_constraints_reg(scada_reg, fsp_second, 'fast_start_second_run')", V, UV,
      'second run profiles for regulation', **R)
    t('trap', 'set_joint_capacity_constraints(trap)', V, UV, **C)
    t('rtrap', 'set_energy_and_regulation_capacity_constraints(rtrap)', V, UV, **R)
    t('inter', 'set_interconnectors(inter)', V, UV)
    t('lossf', 'set_interconnector_losses(lossf, bps)', I, UV + ['inter'])
    t('bps', 'set_interconnector_losses(lossf, bps)', I, UV + ['inter', 'lossf'])
    t('gen', 'set_generic_constraints(gen)', V, UV)
    t('gu', 'link_units_to_generic_constraints(gu)', V, UV)
    t('gr', 'link_regions_to_generic_constraints(gr)', V, UV)
    t('gi', 'link_interconnectors_to_generic_constraints(gi)', V, UV)
    t('fcas_cost', "make_constraints_elastic('fcas', fcas_cost)", V + 'm.set_fcas_requirements_constraints(fcas)\n', UV + ['fcas'], **C)
    t('gen_cost', "make_constraints_elastic('generic', gen_cost)", V + 'm.set_generic_constraints(gen)\n', UV + ['gen'])
    return {'C18': out}
