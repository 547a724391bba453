"""Reference: interconnector, demand and constraint data derived from AEMO records, and ramp rates between intervals."""
import pandas as pd

SERVICE = {'ENOF': 'energy', 'LDOF': 'energy', 'DROF': 'energy', 'BDOF': 'energy', 'R5RE': 'raise_reg', 'L5RE': 'lower_reg',
           'R1SE': 'raise_1s', 'L1SE': 'lower_1s', 'R6SE': 'raise_6s', 'L6SE': 'lower_6s', 'R60S': 'raise_60s', 'L60S': 'lower_60s',
           'R5MI': 'raise_5min', 'L5MI': 'lower_5min'}
KIND = {'LE': '<=', 'EQ': '=', 'GE': '>='}


class DemandData:
    def __init__(self, loader):
        self.loader = loader

    def get_operational_demand(self):
        d = self.loader.get_regional_loads().copy()
        d = d.rename(columns={'REGIONID': 'region', 'TOTALDEMAND': 'demand'})
        return d.loc[:, ['region', 'demand']]


class InterconnectorData:
    def __init__(self, loader):
        self.loader = loader

    def regulated(self):
        p = self.loader.get_interconnector_constraint_parameters().copy()
        d = self.loader.get_interconnector_definitions().copy()
        p = p[p['ICTYPE'] == 'REGULATED'].copy()
        x = pd.merge(d.loc[:, ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO']], p.loc[:, ['INTERCONNECTORID', 'IMPORTLIMIT', 'EXPORTLIMIT']],
                     on='INTERCONNECTORID')
        x['interconnector'] = x['INTERCONNECTORID']
        x['link'] = x['INTERCONNECTORID']
        x['from_region'] = x['REGIONFROM']
        x['to_region'] = x['REGIONTO']
        x['min'] = 0 - x['IMPORTLIMIT']
        x['max'] = x['EXPORTLIMIT']
        x['from_region_loss_factor'] = 1.0
        x['to_region_loss_factor'] = 1.0
        x['generic_constraint_factor'] = 1
        return x

    def links(self):
        p = self.loader.get_interconnector_constraint_parameters().copy()
        m = self.loader.get_market_interconnectors().copy()
        b = self.loader.get_market_interconnector_link_bid_availability().copy()
        p = p[p['ICTYPE'] == 'MNSP'].copy()
        m = pd.merge(m, p.loc[:, ['INTERCONNECTORID']], on='INTERCONNECTORID')
        m = m.rename(columns={'INTERCONNECTORID': 'interconnector', 'LINKID': 'link', 'FROMREGION': 'from_region', 'TOREGION': 'to_region',
                              'FROM_REGION_TLF': 'from_region_loss_factor', 'TO_REGION_TLF': 'to_region_loss_factor',
                              'LHSFACTOR': 'generic_constraint_factor'})
        m = pd.merge(m, b, on=['interconnector', 'to_region'])
        m['max'] = m['availability'].fillna(m['MAXCAPACITY'])
        m['min'] = 0.0
        return m

    def get_interconnector_definitions(self):
        cols = ['interconnector', 'link', 'from_region', 'to_region', 'min', 'max', 'from_region_loss_factor', 'to_region_loss_factor',
                'generic_constraint_factor']
        return pd.concat([self.regulated().loc[:, cols], self.links().loc[:, cols]])

    def get_interconnector_loss_model(self):
        p = self.loader.get_interconnector_constraint_parameters().copy()
        f = self.loader.get_interconnector_loss_parameters().copy()
        s = self.loader.get_interconnector_loss_segments().copy()
        d = self.loader.get_regional_loads().copy()
        d['load'] = d['INITIALSUPPLY'] + d['DEMANDFORECAST']
        f = pd.merge(f, d.loc[:, ['REGIONID', 'load']], on='REGIONID')
        f['demand_part'] = f['load'] * f['DEMANDCOEFFICIENT']
        f = f.groupby('INTERCONNECTORID', as_index=False).agg({'demand_part': 'sum'})
        p = pd.merge(p.loc[:, ['INTERCONNECTORID', 'LOSSCONSTANT', 'LOSSFLOWCOEFFICIENT', 'FROMREGIONLOSSSHARE']], f, on='INTERCONNECTORID', how='left')
        p['demand_part'] = p['demand_part'].fillna(0.0)
        p['slope'] = p['LOSSCONSTANT'] + p['demand_part'] - 1
        links = self.get_interconnector_definitions()
        links['INTERCONNECTORID'] = links['interconnector']
        p = pd.merge(links.loc[:, ['interconnector', 'link', 'generic_constraint_factor', 'INTERCONNECTORID']], p, on='INTERCONNECTORID')
        p['from_region_loss_share'] = p['FROMREGIONLOSSSHARE'].where(p['interconnector'] != 'T-V-MNSP1', 1.0)
        p['loss_function'] = p.apply(lambda x: loss(x['slope'], x['LOSSFLOWCOEFFICIENT'], x['generic_constraint_factor']), axis=1)
        s = pd.merge(links.loc[:, ['interconnector', 'link', 'generic_constraint_factor', 'INTERCONNECTORID']],
                     s.loc[:, ['INTERCONNECTORID', 'LOSSSEGMENT', 'MWBREAKPOINT']], on='INTERCONNECTORID')
        s['loss_segment'] = s['LOSSSEGMENT'] * s['generic_constraint_factor']
        s['break_point'] = s['MWBREAKPOINT'] * s['generic_constraint_factor']
        return (p.loc[:, ['interconnector', 'link', 'loss_function', 'from_region_loss_share']],
                s.loc[:, ['interconnector', 'link', 'loss_segment', 'break_point']])


def loss(slope, quadratic, direction):
    return lambda flow: slope * (flow * direction) + quadratic * (flow * direction) * (flow * direction) / 2


def create_loss_functions(interconnector_coefficients, demand_coefficients, demand):
    f = pd.merge(demand_coefficients, demand, on='region')
    f['part'] = f['loss_function_demand'] * f['demand_coefficient']
    f = f.groupby('interconnector', as_index=False).agg({'part': 'sum'})
    p = pd.merge(interconnector_coefficients, f, on='interconnector', how='left')
    p['part'] = p['part'].fillna(0.0)
    p['loss_function'] = p.apply(lambda x: loss(x['loss_constant'] + x['part'] - 1, x['flow_coefficient'], 1), axis=1)
    return p.loc[:, ['interconnector', 'loss_function', 'from_region_loss_share']]


class ConstraintData:
    def __init__(self, loader):
        self.loader = loader
        rhs = loader.get_constraint_rhs().copy()
        kind = loader.get_constraint_type().copy()
        self.costs = kind.loc[:, ['set', 'cost']]
        rhs = pd.merge(rhs, kind.loc[:, ['set', 'type']], on='set')
        rhs['type'] = rhs['type'].apply(lambda x: KIND[x])
        self.rhs = rhs
        self.unit = loader.get_constraint_unit_lhs().copy()
        self.unit['service'] = self.unit['service'].apply(lambda x: SERVICE[x])
        self.region = loader.get_constraint_region_lhs().copy()
        self.region['service'] = self.region['service'].apply(lambda x: SERVICE[x])
        self.inter = loader.get_constraint_interconnector_lhs()

    def get_rhs_and_type(self):
        return self.rhs

    def get_rhs_and_type_excluding_regional_fcas_constraints(self):
        return self.rhs[~self.rhs['set'].isin(list(self.region['set']))]

    def get_unit_lhs(self):
        return self.unit

    def get_region_lhs(self):
        return self.region

    def get_interconnector_lhs(self):
        return self.inter

    def get_fcas_requirements(self):
        r = pd.merge(self.rhs, self.region.loc[:, ['set', 'service', 'region']], on='set')
        r['volume'] = r['rhs']
        return r.loc[:, ['set', 'service', 'region', 'type', 'volume']]

    def get_violation_costs(self):
        return self.costs

    def get_constraint_violation_prices(self):
        return self.loader.get_constraint_violation_prices()

    def is_over_constrained_dispatch_rerun(self):
        return self.loader.is_over_constrained_dispatch_rerun()


def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
    e = last_interval_dispatch.copy()
    if 'service' in e.columns:
        e = e[e['service'] == 'energy'].copy()
    e['initial_output'] = e['dispatch']
    r = pd.merge(ramp_rates, e.loc[:, ['unit', 'initial_output']], on='unit', how='left')
    r['initial_output'] = r['initial_output'].fillna(0.0)
    return r


def create_seed_ramp_rate_parameters(historical_dispatch, as_bid_ramp_rates):
    return pd.merge(as_bid_ramp_rates, historical_dispatch, on='unit')
