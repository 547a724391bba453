"""Small random relational structures for the historical input classes."""
import random
from fractions import Fraction as F

from .model import Model, NAN

BANDS = [str(i) for i in range(1, 11)]
BIDTYPES = ['ENERGY', 'RAISEREG', 'LOWERREG', 'RAISE6SEC', 'RAISE1SEC', 'RAISE60SEC', 'RAISE5MIN', 'LOWER6SEC', 'LOWER1SEC',
            'LOWER60SEC', 'LOWER5MIN']
REGIONS = ['NSW1', 'VIC1', 'TAS1']
TABLES = {
    'price': (['DUID', 'BIDTYPE', 'DIRECTION'] + ['PRICEBAND' + b for b in BANDS], ['DUID', 'BIDTYPE', 'DIRECTION']),
    'volume': (['DUID', 'BIDTYPE', 'DIRECTION', 'MAXAVAIL', 'ENABLEMENTMIN', 'ENABLEMENTMAX', 'LOWBREAKPOINT', 'HIGHBREAKPOINT']
               + ['BANDAVAIL' + b for b in BANDS] + ['RAMPDOWNRATE', 'RAMPUPRATE'], ['DUID', 'BIDTYPE', 'DIRECTION']),
    'initial': (['DUID', 'TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'], ['DUID']),
    'uigf': (['DUID', 'UIGF'], ['DUID']),
    'details': (['DUID', 'START_DATE', 'CONNECTIONPOINTID', 'REGIONID', 'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR',
                 'SECONDARY_TLF'], ['DUID']),
    'agc': (['SETTLEMENTDATE', 'DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX',
             'LOWERREGENABLEMENTMIN'], ['DUID']),
    'fast': (['DUID', 'MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'], ['DUID']),
    'undisp': (['unit', 'service', 'dispatch'], ['unit', 'service']),
    'regionsum': (['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], ['REGIONID']),
    'icon': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT',
              'IMPORTLIMIT', 'EXPORTLIMIT'], ['INTERCONNECTORID']),
    'idef': (['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], ['INTERCONNECTORID']),
    'lossfactor': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'REGIONID', 'DEMANDCOEFFICIENT'], ['INTERCONNECTORID', 'REGIONID']),
    'lossmodel': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'LOSSSEGMENT', 'MWBREAKPOINT'], ['INTERCONNECTORID', 'LOSSSEGMENT']),
    'mnspbids': (['interconnector', 'to_region', 'availability'], ['interconnector', 'to_region']),
    'mnsp': (['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'FROMREGION', 'TOREGION', 'FROM_REGION_TLF', 'TO_REGION_TLF',
              'LHSFACTOR', 'MAXCAPACITY'], ['INTERCONNECTORID', 'LINKID']),
    'rhs': (['set', 'rhs'], ['set']),
    'ctype': (['set', 'type', 'cost'], ['set']),
    'ulhs': (['set', 'unit', 'service', 'coefficient'], ['set', 'unit', 'service']),
    'rlhs': (['set', 'region', 'service', 'coefficient'], ['set', 'region', 'service']),
    'ilhs': (['set', 'interconnector', 'coefficient'], ['set', 'interconnector']),
    'last_dispatch': (['unit', 'dispatch_type', 'service', 'dispatch'], ['unit', 'dispatch_type', 'service']),
    'ts_ramp': (['unit', 'ramp_up_rate', 'ramp_down_rate'], ['unit']),
    'lcoef': (['interconnector', 'loss_constant', 'flow_coefficient', 'from_region_loss_share'], ['interconnector']),
    'dcoef': (['interconnector', 'region', 'demand_coefficient'], ['interconnector', 'region']),
    'ldemand': (['region', 'loss_function_demand'], ['region']),
    'names_': (['k', 'NAME', 'OTHER', 'v'], ['k']),
    'ts_init': (['unit', 'initial_output'], ['unit']),
}
TRADE = ['ENOF', 'LDOF', 'DROF', 'BDOF', 'L5RE', 'R5RE', 'R5MI', 'L5MI', 'R60S', 'L60S', 'R6SE', 'L6SE', 'R1SE', 'L1SE']


class World:
    def __init__(self, rng, tables, opts=None):
        self.r = rng
        self.opts = opts or {}
        self.flags = {}
        self.syms = {}
        self.rows = {}
        self.units()
        self.inters = None
        for n in tables:
            rows = getattr(self, 't_' + n)()
            pk = tables[n][1]
            seen, out = set(), []
            for x in rows:
                k = tuple(x[c] for c in pk)
                if k in seen:
                    continue
                seen.add(k)
                out.append({c: x[c] for c in tables[n][0]})
            rng.shuffle(out)
            self.rows[n] = out
        self.syms['interval'] = rng.choice(['2019/01/02 00:05:00', '2023/07/07 13:35:00', '2023/07/07 13:40:00',
                                            '2023/07/07 13:45:00', '2024/07/10 12:05:00', '2023/07/08 00:00:00'])

    def num(self, lo=-4, hi=9):
        r = self.r
        if r.random() < 0.5:
            return F(r.randint(lo, hi))
        return F(r.randint(lo * 60, hi * 60), r.choice([7, 11, 12, 13, 60, 1]))

    def pos(self, hi=9):
        return F(0) if self.r.random() < 0.15 else abs(self.num(1, hi)) or F(1)

    def nan(self, v, p=0.25):
        return NAN if self.r.random() < p else v

    def units(self):
        r = self.r
        self.us = r.sample(['U1', 'U2', 'U3', 'U4'], r.choice([1, 2, 3]))
        self.kind = {u: r.choice(['GENERATOR', 'LOAD', 'BIDIRECTIONAL', 'BIDIRECTIONAL', 'WDR', 'NORMALLY_ON_LOAD', 'GENERATOR'])
                     for u in self.us}
        self.sides = []
        for u in self.us:
            k = self.kind[u]
            for d in (['GENERATOR', 'LOAD'] if k == 'BIDIRECTIONAL' else ['LOAD'] if k == 'LOAD' else ['GENERATOR']):
                self.sides.append((u, d))
        self.bids = []
        for u, d in self.sides:
            types = ['ENERGY'] if r.random() < 0.93 else []
            for t in types + r.sample(BIDTYPES[1:], r.choice([0, 1, 2, 3])) + (['RAISEREG', 'LOWERREG'] if r.random() < 0.6 else []):
                if (u, t, d) not in self.bids:
                    self.bids.append((u, t, d))
        self.init = {u: self.nan(r.choice([self.pos(20), self.num(-20, 20), F(1, 10 ** 6), -F(1, 10 ** 6), F(0),
                                           F(5) + F(4, 10 ** 6)]), 0.03) for u in self.us}
        self.semi = [u for u in self.us if self.kind[u] == 'GENERATOR' and r.random() < 0.5]

    def t_price(self):
        return [dict({'DUID': u, 'BIDTYPE': t, 'DIRECTION': d}, **{'PRICEBAND' + b: self.num(-9, 30) for b in BANDS}) for u, t, d in self.bids]

    def trapezium(self, u, d):
        r = self.r
        x = [self.num(-20, 20) if self.kind[u] == 'BIDIRECTIONAL' else self.pos(20) for _ in range(4)]
        if r.random() < 0.6 and self.init[u] == self.init[u]:
            i = self.init[u]
            x = [i - self.pos(6), i - self.pos(3) if r.random() < 0.5 else i + self.pos(2), i + self.pos(5), i + self.pos(9)]
        x.sort()
        if r.random() < 0.15:
            x[1] = x[0]
        if r.random() < 0.15:
            x[2] = x[3]
        if r.random() < 0.1:
            x[r.choice([0, 3])] = F(r.choice([0, 5]))
            x.sort()
        return dict(zip(['ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX'], x))

    def t_volume(self):
        r = self.r
        out = []
        for u, t, d in self.bids:
            row = {'DUID': u, 'BIDTYPE': t, 'DIRECTION': d, 'MAXAVAIL': self.pos(20) if t == 'ENERGY' else r.choice([F(0), self.pos(20), self.pos(20), self.pos(9)]),
                   'RAMPDOWNRATE': self.pos(200), 'RAMPUPRATE': self.pos(200)}
            row.update(self.trapezium(u, d))
            if t == 'ENERGY' and r.random() < 0.5:
                row['MAXAVAIL'] = F(40)
            zero = r.random()
            for b in BANDS:
                row['BANDAVAIL' + b] = F(0) if zero < 0.12 or (zero < 0.3 and b != '10') else self.pos()
            if self.kind[u] != 'BIDIRECTIONAL' and r.random() < 0.6:
                row['DIRECTION'] = None
            out.append(row)
        return out

    def t_initial(self):
        r = self.r
        return [{'DUID': u, 'TRADERTYPE': self.kind[u], 'INITIALMW': self.init[u],
                 'RAMPUPRATE': self.nan(r.choice([F(0), self.pos(99), self.pos(99), self.pos(300)])), 'RAMPDOWNRATE': self.nan(r.choice([F(0), self.pos(99), self.pos(99), self.pos(300)])),
                 'AGCSTATUS': self.nan(F(r.choice([0, 1, 1])), 0.1)} for u in self.us]

    def t_uigf(self):
        return [{'DUID': u, 'UIGF': self.pos(20)} for u in self.semi]

    def t_details(self):
        r = self.r
        return [{'DUID': u, 'START_DATE': '2019/01/01 00:00:00', 'CONNECTIONPOINTID': 'CP' + u, 'REGIONID': r.choice(REGIONS),
                 'TRANSMISSIONLOSSFACTOR': r.choice([F(1), F(9, 10), F(11, 10)]), 'DISTRIBUTIONLOSSFACTOR': r.choice([F(1), F(99, 100)]),
                 'SECONDARY_TLF': self.nan(r.choice([F(1), F(8, 10), F(12, 10)]), 0.4)} for u in self.us if r.random() < 0.93]

    def t_agc(self):
        r = self.r

        def lim(u):
            i = self.init[u] if self.init[u] == self.init[u] else F(3)
            lo, hi = r.choice([F(0), i - self.pos(5), self.pos(9), -self.pos(5)]), r.choice([F(0), i + self.pos(5), self.pos(20), -self.pos(5)])
            return self.nan(lo, 0.07), self.nan(hi, 0.07)
        out = []
        for u in self.us:
            a, b = lim(u), lim(u)
            out.append({'SETTLEMENTDATE': 'S', 'DUID': u, 'RAISEREGENABLEMENTMIN': a[0], 'RAISEREGENABLEMENTMAX': a[1],
                        'LOWERREGENABLEMENTMIN': b[0], 'LOWERREGENABLEMENTMAX': b[1]})
        return out

    def t_fast(self):
        r = self.r
        ints = [0, 1, 2, 3, 4, 5, 6, 10]
        out = []
        for u in self.us:
            if r.random() < 0.9:
                m = r.choice([0, 0, 1, 2, 3, 4])
                ts = [F(r.choice(ints)) for _ in range(4)]
                t = F(0) if m == 0 else F(r.randint(0, int(ts[m - 1])))
                out.append({'DUID': u, 'MinLoadingMW': self.pos(), 'CurrentMode': F(m), 'CurrentModeTime': t, 'T1': ts[0],
                            'T2': ts[1], 'T3': ts[2], 'T4': ts[3]})
        return out

    def t_undisp(self):
        r = self.r
        out = []
        for u in self.us:
            if r.random() < 0.92:
                out.append({'unit': u, 'service': 'energy', 'dispatch': r.choice([F(0), self.pos(), self.pos(), F(1, 100)])})
            if r.random() < 0.6:
                out.append({'unit': u, 'service': r.choice(['raise_reg', 'lower_5min']), 'dispatch': self.pos()})
        return out

    # ---------------------------------------------------------------- interconnectors, demand
    def net(self):
        if self.inters is None:
            r = self.r
            self.inters = []
            for i in r.sample(['NSW1-QLD1', 'VIC1-NSW1', 'T-V-MNSP1', 'X-MNSP2'], r.choice([1, 2, 3])):
                a, b = r.sample(REGIONS, 2)
                self.inters.append((i, 'MNSP' if 'MNSP' in i else 'REGULATED', a, b))
            self.links = []
            for i, k, a, b in self.inters:
                if k == 'MNSP':
                    self.links += [(i, i + 'F', a, b, F(1)), (i, i + 'B', b, a, F(-1))]
        return self.inters

    def t_regionsum(self):
        return [{'SETTLEMENTDATE': 'S', 'REGIONID': x, 'TOTALDEMAND': self.num(0, 90), 'DEMANDFORECAST': self.num(-9, 9),
                 'INITIALSUPPLY': self.num(0, 90)} for x in REGIONS if self.r.random() < 0.95]

    def t_icon(self):
        return [{'INTERCONNECTORID': i, 'EFFECTIVEDATE': 'E', 'FROMREGIONLOSSSHARE': self.r.choice([F(0), F(1, 2), F(3, 10)]),
                 'LOSSCONSTANT': self.num(), 'ICTYPE': k, 'LOSSFLOWCOEFFICIENT': self.num(), 'IMPORTLIMIT': self.num(-20, 200),
                 'EXPORTLIMIT': self.num(-20, 200)} for i, k, a, b in self.net()]

    def t_idef(self):
        return [{'INTERCONNECTORID': i, 'REGIONFROM': a, 'REGIONTO': b} for i, k, a, b in self.net()] + \
               [{'INTERCONNECTORID': 'OLD', 'REGIONFROM': 'NSW1', 'REGIONTO': 'VIC1'}] * (self.r.random() < 0.3)

    def t_lossfactor(self):
        return [{'INTERCONNECTORID': i, 'EFFECTIVEDATE': 'E', 'REGIONID': x, 'DEMANDCOEFFICIENT': self.num()} for i, k, a, b in self.net() for x in REGIONS
                if self.r.random() < 0.5]

    def t_lossmodel(self):
        out = []
        for i, k, a, b in self.net():
            for j in range(1, self.r.choice([2, 3, 4])):
                out.append({'INTERCONNECTORID': i, 'EFFECTIVEDATE': 'E', 'LOSSSEGMENT': F(j), 'MWBREAKPOINT': self.num(-90, 90)})
        return out

    def t_lcoef(self):
        return [{'interconnector': i, 'loss_constant': self.num(), 'flow_coefficient': self.num(), 'from_region_loss_share': self.num()}
                for i, k, a, b in self.net()]

    def t_dcoef(self):
        return [{'interconnector': i, 'region': x, 'demand_coefficient': self.num()} for i, k, a, b in self.net() for x in REGIONS
                if self.r.random() < 0.5]

    def t_ldemand(self):
        return [{'region': x, 'loss_function_demand': self.num(0, 90)} for x in REGIONS if self.r.random() < 0.95]

    def t_mnspbids(self):
        self.net()
        return [{'interconnector': i, 'to_region': b, 'availability': self.nan(self.pos(90), 0.2)} for i, l, a, b, f in self.links if self.r.random() < 0.9]

    def t_mnsp(self):
        self.net()
        return [{'INTERCONNECTORID': i, 'LINKID': l, 'EFFECTIVEDATE': 'E', 'FROMREGION': a, 'TOREGION': b, 'FROM_REGION_TLF': self.num(1, 2),
                 'TO_REGION_TLF': self.num(1, 2), 'LHSFACTOR': f, 'MAXCAPACITY': self.pos(90)} for i, l, a, b, f in self.links]

    # ---------------------------------------------------------------- constraints
    def sets(self):
        return ['C1', 'C2', 'C3', 'C4']

    def t_rhs(self):
        return [{'set': s, 'rhs': self.num()} for s in self.sets() if self.r.random() < 0.8]

    def t_ctype(self):
        return [{'set': s, 'type': self.r.choice(['LE', 'EQ', 'GE']), 'cost': self.pos(99)} for s in self.sets() if self.r.random() < 0.95]

    def lhs(self, col, ids):
        out = []
        for s in self.sets():
            for i in ids:
                if self.r.random() < 0.35:
                    row = {'set': s, col: i, 'coefficient': self.num()}
                    row['service'] = self.r.choice(TRADE)
                    out.append(row)
        return out

    def t_ulhs(self):
        return self.lhs('unit', self.us)

    def t_rlhs(self):
        return self.lhs('region', REGIONS) if self.r.random() < 0.9 else []

    def t_ilhs(self):
        return self.lhs('interconnector', ['I1', 'I2'])

    # ---------------------------------------------------------------- time sequential
    def t_last_dispatch(self):
        out = []
        for u in self.us:
            for s in ['energy', 'raise_reg', 'lower_6s']:
                if self.r.random() < 0.8:
                    out.append({'unit': u, 'dispatch_type': 'generator', 'service': s, 'dispatch': self.num(0, 50)})
        return out

    def t_ts_ramp(self):
        return [{'unit': u, 'ramp_up_rate': self.pos(90), 'ramp_down_rate': self.pos(90)} for u in self.us if self.r.random() < 0.85]

    def t_ts_init(self):
        return [{'unit': u, 'initial_output': self.num(0, 50)} for u in self.us if self.r.random() < 0.85]

    def t_names_(self):
        pool = BIDTYPES + ['TOTALCLEARED', 'GENERATOR', 'LOAD']
        out = [{'k': 'k%d' % i, 'NAME': self.r.choice(pool), 'OTHER': self.r.choice(pool), 'v': self.num(0, 50)} for i in range(self.r.randint(0, 6))]
        if out and self.r.random() < 0.15:
            self.r.choice(out)['NAME'] = 'UNHEARD'
        return out

    def model(self, salt):
        m = Model(self.rows, dict(self.flags), dict(self.syms), salt)
        return m


def world(seed, tables, **kw):
    return World(random.Random(seed), tables, **kw)
