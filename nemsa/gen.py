"""Small random relational structures that satisfy the documented input contracts of the market methods."""
import random
from fractions import Fraction as F

from .model import Model, NAN, Tok

SERVICES = ['energy', 'raise_reg', 'lower_reg', 'raise_6s', 'raise_60s', 'raise_5min', 'lower_6s', 'lower_60s',
            'lower_5min', 'raise_1s', 'lower_1s']
CONTINGENCY = SERVICES[3:]
REG = SERVICES[1:3]
REGIONS = ['R1', 'R2']
UNITS = ['U1', 'U2', 'U3']
TYPES = ['<=', '>=', '=']

TABLES = {
    'unit_info': (['unit', 'region', 'loss_factor?', 'dispatch_type?'], ['unit', 'dispatch_type']),
    'volume_bids': (['unit', 'service?', 'dispatch_type?', '1', '2?', '10?'], ['unit', 'service', 'dispatch_type']),
    'price_bids': (['unit', 'service?', 'dispatch_type?', '1', '2?', '10?'], ['unit', 'service', 'dispatch_type']),
    'unit_limits': (['unit', 'dispatch_type?', 'capacity'], ['unit', 'dispatch_type']),
    'uigf': (['unit', 'capacity'], ['unit']),
    'ramp': (['unit', 'dispatch_type?', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'], ['unit', 'dispatch_type']),
    'scada': (['unit', 'scada_ramp_up_rate?', 'scada_ramp_down_rate?'], ['unit']),
    'scada_reg': (['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate'], ['unit']),
    'fsp': (['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading',
             'current_mode', 'time_since_end_of_mode_two'], ['unit']),
    'demand': (['region', 'demand'], ['region']),
    'fcas': (['set', 'region', 'service', 'volume', 'type?'], ['set', 'region', 'service']),
    'fcas_cost': (['set', 'cost'], ['set']),
    'fmax': (['unit', 'service', 'max_availability', 'dispatch_type?'], ['unit', 'service', 'dispatch_type']),
    'trap': (['unit', 'service', 'dispatch_type?', 'max_availability', 'enablement_min', 'low_break_point',
              'high_break_point', 'enablement_max'], ['unit', 'service', 'dispatch_type']),
    'rtrap': (['unit', 'service', 'dispatch_type?', 'max_availability', 'enablement_min', 'low_break_point',
               'high_break_point', 'enablement_max'], ['unit', 'service', 'dispatch_type']),
    'inter': (['interconnector', 'link?', 'to_region', 'from_region', 'max', 'min', 'generic_constraint_factor?',
               'from_region_loss_factor?', 'to_region_loss_factor?'], ['interconnector', 'link']),
    'lossf': (['interconnector', 'link?', 'loss_function', 'from_region_loss_share'], ['interconnector', 'link']),
    'bps': (['interconnector', 'link?', 'loss_segment', 'break_point'], ['interconnector', 'link', 'loss_segment']),
    'gen': (['set', 'type', 'rhs'], ['set']),
    'gen_cost': (['set', 'cost'], ['set']),
    'gu': (['set', 'unit', 'service', 'coefficient'], ['set', 'unit', 'service']),
    'gr': (['set', 'region', 'service', 'coefficient'], ['set', 'region', 'service']),
    'gi': (['set', 'interconnector', 'coefficient'], ['set', 'interconnector']),
}
BAND_TABLES = ('volume_bids', 'price_bids')


def with_bands(n):
    """table schemas with n capacity bands (all but the first optional)"""
    t = dict(TABLES)
    for k in BAND_TABLES:
        t[k] = (['unit', 'service?', 'dispatch_type?', '1'] + ['%d?' % i for i in range(2, n + 1)], TABLES[k][1])
    return t


class World:
    """one random structure"""

    def __init__(self, rng, tables, bands=('1', '2', '10'), opts=None):
        self.r = rng
        self.schemas = tables
        self.flags = {}
        self.rows = {}
        self.opts = opts or {}
        self.bands = bands
        self.sides = []
        p = rng.random()
        for n in tables:
            for c in tables[n][0]:
                if c.endswith('?'):
                    absent = 0.12 if p < 0.7 else 0.4
                    if c[:-1] == 'dispatch_type':
                        absent /= 2
                    self.flags['hascol:%s.%s' % (n, c[:-1])] = rng.random() >= absent
        self.fix_flags()
        self.units()
        for n in tables:
            base = n.split('__')[0]
            rows = getattr(self, 't_' + base)(n)
            keep = [c.rstrip('?') for c in tables[n][0] if not c.endswith('?') or self.flags['hascol:%s.%s' % (n, c[:-1])]]
            pk = [k for k in tables[n][1] if k in keep]
            seen, out = set(), []
            for x in rows:
                k = tuple(x[c] for c in pk)
                if k in seen and pk:
                    continue
                seen.add(k)
                out.append({c: x[c] for c in keep})
            rng.shuffle(out)
            self.rows[n] = out

    def fix_flags(self):
        pass

    @staticmethod
    def peer(n, other):
        """the table `other` that goes with table n (the first or second set)"""
        return other + n[n.index('__'):] if '__' in n else other

    def has(self, n, c):
        return self.flags.get('hascol:%s.%s' % (n, c), True)

    # ---------------------------------------------------------------- values
    def num(self, lo=-4, hi=9):
        r = self.r
        if r.random() < 0.5:
            return F(r.randint(lo, hi))
        return F(r.randint(lo * 60, hi * 60), r.choice([7, 11, 12, 13, 60, 1]))

    def pos(self, hi=9):
        r = self.r
        if r.random() < 0.15:
            return F(0)
        if r.random() < 0.5:
            return F(r.randint(1, hi))
        return F(r.randint(1, hi * 60), r.choice([7, 11, 12, 13]))

    def strict(self, hi=9):
        return self.pos(hi) or F(3)

    def share(self):
        return self.r.choice([F(0), F(1), F(1, 2), F(3, 10), F(2, 7)])

    # ---------------------------------------------------------------- units
    def units(self):
        r = self.r
        self.typed = self.has('unit_info', 'dispatch_type')
        n = r.choice([1, 2, 2, 3, 3])
        us = r.sample(UNITS, n)
        self.info = []
        for u in us:
            region = r.choice(REGIONS)
            if not self.typed:
                kinds = ['generator']
            else:
                kinds = r.choice([['generator'], ['generator'], ['load'], ['generator', 'load'], ['generator', 'load']])
            for k in kinds:
                self.info.append({'unit': u, 'dispatch_type': k, 'region': region,
                                  'loss_factor': F(1) if self.opts.get('ties') and r.random() < 0.7 else
                                  r.choice([F(1), F(9, 10), F(21, 20), self.strict(2)])})
        self.sides = [(x['unit'], x['dispatch_type']) for x in self.info]
        self.bdu = {u for u in us if sum(1 for x in self.sides if x[0] == u) == 2}
        self.us = us

    def t_unit_info(self, n):
        return [dict(x) for x in self.info]

    def pick(self, xs, p=0.7):
        return [x for x in xs if self.r.random() < p]

    def pick_units(self, p=0.75):
        """both sides of a bidirectional unit or neither"""
        us = [u for u in self.us if self.r.random() < p]
        return [s for s in self.sides if s[0] in us]

    def t_volume_bids(self, n):
        r = self.r
        out = []
        services = SERVICES if self.has(n, 'service') else ['energy']
        want = self.opts.get('services')
        for u in self.us:
            if r.random() < 0.1:
                continue
            sides = [s for s in self.sides if s[0] == u]
            bad = r.random() < self.opts.get('bad_bdu', 0.02)
            for i, (u, k) in enumerate(sides):
                if bad and i:
                    continue
                extra = [] if services == ['energy'] else r.sample(services[1:], r.choice([0, 1, 2]))
                if want:
                    extra = [s for s in want if s in services[1:] and r.random() < 0.7]
                for s in ['energy'] + extra:
                    if s == 'energy' and not bad and len(sides) == 1 and r.random() < 0.07:
                        continue
                    row = {'unit': u, 'dispatch_type': k, 'service': s}
                    for b in self.bands:
                        row[b] = r.choice([F(0), F(1, 10000), F(1, 100000), F(2), F(2), self.pos(), self.pos(), self.pos()])
                    out.append(row)
        if not out:
            u, k = self.sides[0]
            for u, k in [s for s in self.sides if s[0] == u]:
                out.append(dict({'unit': u, 'dispatch_type': k, 'service': 'energy'}, **{b: self.pos() for b in self.bands}))
        self.volumes = out
        return [dict(x) for x in out]

    def t_price_bids(self, n):
        r = self.r
        out = []
        for x in self.volumes:
            row = {'unit': x['unit'], 'dispatch_type': x['dispatch_type'], 'service': x['service']}
            flat = r.random() < (0.9 if self.opts.get('ties') else 0.4)
            for b in self.bands:
                row[b] = r.choice([F(3), F(3), F(3), F(5), F(3001, 1000), F(6)]) if flat else self.num(-9, 30)
            out.append(row)
        return self.break_sides(out, 'bad_bdu_price')

    def break_sides(self, out, opt):
        """drop one side of a bidirectional unit"""
        if self.bdu and self.r.random() < self.opts.get(opt, 0):
            u, k = self.r.choice(sorted(self.bdu)), self.r.choice(['generator', 'load'])
            out = [x for x in out if (x['unit'], x['dispatch_type']) != (u, k)]
        return out

    def t_unit_limits(self, n):
        return [{'unit': u, 'dispatch_type': k, 'capacity': self.pos()} for u, k in self.pick(self.sides, 0.8)]

    def t_uigf(self, n):
        return [{'unit': u, 'capacity': self.pos()} for u in self.pick(self.us, 0.8)]

    def t_ramp(self, n):
        out = []
        for u, k in self.pick_units(0.85):
            init = self.pos(20) if k == 'generator' or u not in self.bdu else self.num(-20, 3)
            if u in self.bdu and self.r.random() < 0.5:
                init = F(self.r.choice([-20, -3, 0, 3, 20]))
            out.append({'unit': u, 'dispatch_type': k, 'initial_output': init,
                        'ramp_up_rate': self.r.choice([F(0), F(36), F(60), self.pos(90), self.strict(200)]),
                        'ramp_down_rate': self.r.choice([F(0), F(36), F(60), self.pos(90), self.strict(200)])})
        for u in self.bdu:      # one physical initial output
            x = [o for o in out if o['unit'] == u]
            for o in x:
                o['initial_output'] = x[0]['initial_output']
        return self.break_sides(out, 'bad_bdu_ramp')

    def nan(self, v, p=0.3):
        return NAN if self.r.random() < p else v

    def t_scada(self, n):
        return [{'unit': u, 'scada_ramp_up_rate': self.nan(self.pos(120)), 'scada_ramp_down_rate': self.nan(self.pos(120))}
                for u in self.pick(self.us)]

    def t_scada_reg(self, n):
        return [{'unit': u, 'scada_ramp_up_rate': self.strict(120), 'scada_ramp_down_rate': self.strict(120),
                 'initial_output': self.num(-9, 20)} for u in self.pick(self.us, 0.9)]

    def t_fsp(self, n):
        r = self.r
        out = []
        for u in self.pick(self.us, 0.85):
            end = r.choice([0, 1, 2, 3, 4, 5])
            out.append({'unit': u, 'end_mode': F(end), 'current_mode': F(r.choice([0, 1, 2, 3, 4])),
                        'time_in_end_mode': F(r.choice([0, 1, 2, 3, 5])), 'mode_two_length': F(r.choice([1, 2, 3, 5, 8])),
                        'mode_four_length': F(r.choice([1, 2, 3, 5, 8])), 'min_loading': self.pos(),
                        'time_since_end_of_mode_two': NAN if r.random() < 0.5 else F(r.choice([0, 1, 2, 3, 4]))})
        return out

    def t_demand(self, n):
        return [{'region': x, 'demand': self.num()} for x in self.pick(REGIONS, 0.8)]

    def t_fcas(self, n):
        r = self.r
        out = []
        for s in r.sample(['F1', 'F2', 'F3'], r.choice([1, 2, 3])):
            v, t = self.pos(), r.choice(TYPES)
            for svc in r.sample(SERVICES[1:], r.choice([1, 1, 2])) if r.random() < 0.6 else r.sample(['raise_reg', 'lower_5min'], 1):
                for reg in self.pick(REGIONS, 0.8):
                    out.append({'set': s, 'region': reg, 'service': svc, 'volume': v, 'type': t})
        return out

    def t_fcas_cost(self, n):
        return [{'set': s, 'cost': self.pos(30)} for s in self.pick(['F1', 'F2', 'F3'], 0.9)]

    def t_gen_cost(self, n):
        return [{'set': s, 'cost': self.pos(30)} for s in self.pick(['G1', 'G2', 'F1'], 0.9)]

    def pairs(self, services, p=0.5):
        out = []
        for u, k in self.sides:
            for s in services:
                if self.r.random() < p:
                    out.append((u, k, s))
        return out

    def offered(self, services):
        """(unit, side, service) mostly among the services that were bid"""
        bid = [(x['unit'], x['dispatch_type'], x['service']) for x in getattr(self, 'volumes', []) if x['service'] in services]
        return list(dict.fromkeys([b for b in bid if self.r.random() < 0.85] + self.pairs(services, 0.08)))

    def t_fmax(self, n):
        return [{'unit': u, 'dispatch_type': k, 'service': s, 'max_availability': self.pos()}
                for u, k, s in self.offered(SERVICES[1:])]

    def trapezium(self, bdu_load=False):
        r = self.r
        emin = self.pos(5)
        lo = emin + self.pos(4)
        hi = lo + self.pos(4)
        emax = hi + self.pos(4)
        if bdu_load:
            emin, lo, hi, emax = -emax, -hi, -lo, -emin
        return {'max_availability': self.strict(), 'enablement_min': emin, 'low_break_point': lo,
                'high_break_point': hi, 'enablement_max': emax}

    def t_trap(self, n):
        return [dict({'unit': u, 'dispatch_type': k, 'service': s}, **self.trapezium(u in self.bdu and self.r.random() < 0.5))
                for u, k, s in self.offered(CONTINGENCY)]

    def t_rtrap(self, n):
        return [dict({'unit': u, 'dispatch_type': k, 'service': s}, **self.trapezium(u in self.bdu and self.r.random() < 0.5))
                for u, k, s in self.offered(REG)]

    def inters(self, linked):
        r = self.r
        if not hasattr(self, '_inters'):
            self._inters = {}
        if linked not in self._inters:
            out = []
            for i in r.sample(['I1', 'I2'], r.choice([1, 2])):
                a, b = ('R1', 'R2') if r.random() < 0.5 else ('R2', 'R1')
                if linked and r.random() < 0.6:
                    out.append((i, 'LA', a, b))
                    out.append((i, 'LB', b, a))
                else:
                    out.append((i, i, a, b))
            self._inters[linked] = out
        return self._inters[linked]

    def t_inter(self, n):
        r = self.r
        out = []
        for i, l, a, b in self.inters(self.has(n, 'link')):
            out.append({'interconnector': i, 'link': l, 'to_region': a, 'from_region': b, 'max': self.pos(20),
                        'min': F(0) if l != i else -self.pos(20), 'generic_constraint_factor': F(r.choice([1, -1])),
                        'from_region_loss_factor': r.choice([F(1), F(9, 10), F(21, 20)]),
                        'to_region_loss_factor': r.choice([F(1), F(9, 10), F(19, 20)])})
        return out

    def t_lossf(self, n):
        linked = self.has(self.peer(n, 'inter'), 'link')
        out = []
        for i, l, a, b in self.inters(linked):
            if not self.has(n, 'link') and l != i:
                continue
            if self.r.random() < 0.9:
                out.append({'interconnector': i, 'link': l, 'from_region_loss_share': self.share(),
                            'loss_function': Tok(('fn', i, l))})
        self.lossy = [(x['interconnector'], x['link']) for x in out]
        return out

    def t_bps(self, n):
        out = []
        for i, l in self.lossy:
            if not self.has(n, 'link') and l != i:
                continue
            k = self.r.choice([2, 3, 4, 5])
            xs = sorted(self.r.sample(range(-20, 21), k))
            for j, x in enumerate(xs):
                out.append({'interconnector': i, 'link': l, 'loss_segment': F(j), 'break_point': F(x)})
        return out

    def sets(self):
        return ['G1', 'G2']

    def t_gen(self, n):
        return [{'set': s, 'type': self.r.choice(TYPES), 'rhs': self.num()} for s in self.pick(self.sets(), 0.85)]

    def t_gu(self, n):
        out = []
        for s in self.pick(self.sets() + (['F1'] if 'fcas' in self.schemas else []), 0.75):
            for u in self.us:
                for svc in ['energy', self.r.choice(SERVICES[1:]), 'raise_reg']:
                    if self.r.random() < 0.5:
                        out.append({'set': s, 'unit': u, 'service': svc, 'coefficient': self.num(-3, 3)})
        return out

    def t_gr(self, n):
        out = []
        for s in self.pick(self.sets() + (['F1'] if 'fcas' in self.schemas else []), 0.75):
            for reg in REGIONS:
                for svc in ['energy', self.r.choice(SERVICES[1:]), 'raise_reg']:
                    if self.r.random() < 0.4:
                        out.append({'set': s, 'region': reg, 'service': svc, 'coefficient': self.num(-3, 3)})
        return out

    def t_gi(self, n):
        out = []
        for s in self.pick(self.sets() + (['F1'] if 'fcas' in self.schemas else []), 0.75):
            for i in ['I1', 'I2']:
                if self.r.random() < 0.6:
                    out.append({'set': s, 'interconnector': i, 'coefficient': self.num(-3, 3)})
        return out

    def model(self, salt):
        return Model(self.rows, dict(self.flags), {}, salt)


def world(seed, tables, **kw):
    return World(random.Random(seed), tables, **kw)
