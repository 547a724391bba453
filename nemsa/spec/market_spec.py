"""Reference meaning of the market-building methods.

Same public methods as nempy.markets.SpotMarket, written as directly as possible: a market is a set of variables
(`vars`), costs (`obj`), constraints (`cons`) and coefficients (`lhs`, `links`), each under the name of the feature that
made it.  It is interpreted by the analyser, never run.
"""
import numpy as np
import pandas as pd
import _sa


class ModelBuildError(Exception):
    pass


def default(df, col, value):
    df = df.copy()
    if col not in df.columns:
        df[col] = value
    return df


def bands_of(df, ids):
    return [c for c in df.columns if c not in ids]


def key(df, name):
    df = df.copy()
    df[name] = _sa.rowid(df)
    return df


BID = ['unit', 'service', 'dispatch_type']


class SpotMarket:
    def __init__(self, market_regions, unit_info, dispatch_interval=5):
        unit_info = default(unit_info, 'loss_factor', 1.0)
        unit_info = default(unit_info, 'dispatch_type', 'generator')
        self.info = unit_info
        self.dt = dispatch_interval / 60
        self.dispatch_interval = dispatch_interval
        n = unit_info.groupby('unit', as_index=False).size()
        self.bdu = n[n['size'] == 2]['unit']
        self.vars = {}
        self.obj = {}
        self.cons = {}
        self.market_cons = {}
        self.lhs = {}           # constraint_id, variable_id, coefficient
        self.unit_links = {}    # constraint_id, unit, service, dispatch_type, coefficient
        self.region_links = {}  # constraint_id, region, service, coefficient
        self.dynamic = {}       # constraint_id, type, rhs_variable_id
        self.generic = {}
        self.inter = None
        self.loss_shares = None
        self.region_vars = {}
        self.objective_value = None
        self.solver_name = 'CBC'

    # ---------------------------------------------------------------- helpers
    def both_sides(self, df):
        if 'service' in df.columns:
            df = df[df['service'] == 'energy']
        df = df[df['unit'].isin(self.bdu)]
        if len(df['unit']) != len(set(df['unit'])) * 2:
            raise ModelBuildError('bidirectional')

    def put(self, group, rows, links, violation_cost):
        """rows: constraint_id, type, rhs; links: constraint_id, unit, service, dispatch_type, coefficient"""
        self.forget(group)
        self.cons[group] = rows
        self.unit_links[group] = links
        if violation_cost is not None:
            self.make_constraints_elastic(group, violation_cost)

    def forget(self, group):
        self.cons.pop(group, None)
        self.unit_links.pop(group, None)
        self.soften_none(group)

    def soften_none(self, group):
        self.vars.pop(group + '_deficit', None)
        self.obj.pop(group + '_deficit', None)
        self.lhs.pop(group + '_deficit', None)

    def simple(self, df, rhs, sense):
        df = default(df, 'service', 'energy')
        df = default(df, 'dispatch_type', 'generator')
        rows = key(df, 'constraint_id')
        rows['type'] = sense
        rows['rhs'] = rhs
        links = rows.loc[:, ['constraint_id', 'unit', 'service', 'dispatch_type']]
        links['coefficient'] = 1.0
        return rows, links

    # ---------------------------------------------------------------- bids
    def set_unit_volume_bids(self, volume_bids):
        self.both_sides(volume_bids)
        v = default(volume_bids, 'service', 'energy')
        v = default(v, 'dispatch_type', 'generator')
        v = pd.melt(v, id_vars=BID, value_vars=bands_of(v, BID), var_name='capacity_band', value_name='upper_bound')
        v = v[v['upper_bound'] >= 0.0001]
        v = key(v, 'variable_id')
        v['lower_bound'] = 0.0
        v['type'] = 'continuous'
        self.vars['bids'] = v

    def set_unit_price_bids(self, price_bids):
        self.need_volume_bids()
        self.both_sides(price_bids)
        p = default(price_bids, 'service', 'energy')
        p = default(p, 'dispatch_type', 'generator')
        p = pd.melt(p, id_vars=BID, value_vars=bands_of(p, BID), var_name='capacity_band', value_name='bid')
        c = pd.merge(self.vars['bids'], p, on=BID + ['capacity_band'])
        c = pd.merge(c, self.info.loc[:, ['unit', 'dispatch_type', 'loss_factor']], on=['unit', 'dispatch_type'])
        sign = np.where(c['dispatch_type'] == 'load', -1.0, 1.0)
        c['cost'] = np.where(c['service'] == 'energy', sign * c['bid'] / c['loss_factor'], c['bid'])
        self.obj['bids'] = c

    def need_volume_bids(self):
        if 'bids' not in self.vars:
            raise ModelBuildError('no volume bids')

    # ---------------------------------------------------------------- unit limits
    def set_unit_bid_capacity_constraints(self, unit_limits, violation_cost=None):
        self.need_volume_bids()
        rows, links = self.simple(unit_limits, unit_limits['capacity'], '<=')
        # the limit of the load side of a bidirectional unit is on its consumption, which enters unit sums negatively
        bdu_load = links['unit'].isin(self.bdu) & (links['dispatch_type'] == 'load')
        links['coefficient'] = np.where(bdu_load, -1.0, 1.0)
        self.put('unit_bid_capacity', rows, links, violation_cost)

    def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
        self.need_volume_bids()
        rows, links = self.simple(unit_limits, unit_limits['capacity'], '<=')
        self.put('uigf_capacity', rows, links, violation_cost)

    # ---------------------------------------------------------------- ramping
    def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
                                       run_type='no_fast_start_units', violation_cost=None):
        self.both_sides(ramp_details)
        r = default(ramp_details, 'dispatch_type', 'generator')
        one = r[~r['unit'].isin(self.bdu)]
        g = r[r['unit'].isin(self.bdu) & (r['dispatch_type'] == 'generator')]
        l = r[r['unit'].isin(self.bdu) & (r['dispatch_type'] == 'load')]
        g = g.rename(columns={'ramp_up_rate': 'gen_up', 'ramp_down_rate': 'gen_down', 'initial_output': 'gen_initial'})
        l = l.rename(columns={'ramp_up_rate': 'load_up', 'ramp_down_rate': 'load_down', 'initial_output': 'load_initial'})
        two = pd.merge(g.loc[:, ['unit', 'gen_up', 'gen_down', 'gen_initial']],
                       l.loc[:, ['unit', 'load_up', 'load_down', 'load_initial']], on='unit')
        dt = self.dt

        def up(x):
            """from consumption: unwind the load at its ramp down rate, then generate at the generator's ramp up rate"""
            if x['load_initial'] >= 0.0:
                return x['gen_up']
            if x['load_down'] == 0.0:
                return 0.0
            t0 = -x['load_initial'] / x['load_down']
            if abs(t0) >= dt:
                return x['load_down']
            return ((dt - abs(t0)) * x['gen_up'] - x['load_initial']) / dt

        def down(x):
            if x['gen_initial'] <= 0.0:
                return x['load_up']
            if x['gen_down'] == 0.0:
                return 0.0
            t0 = x['gen_initial'] / x['gen_down']
            if abs(t0) >= dt:
                return x['gen_down']
            return ((dt - abs(t0)) * x['load_up'] + x['gen_initial']) / dt

        two['ramp_up_rate'] = two.apply(up, axis=1)
        two['ramp_down_rate'] = two.apply(down, axis=1)
        two['initial_output'] = two['load_initial']
        two = two.loc[:, ['unit', 'ramp_up_rate', 'ramp_down_rate', 'initial_output']]
        if scada_ramp_rates is not None:
            one = self.telemetered(one, scada_ramp_rates)
            two = self.telemetered(two, scada_ramp_rates)
        one = self.fast_start_ramping(one, fast_start_profiles, run_type)
        up_rows, up_links = self.simple(one, one['initial_output'] + one['ramp_up_rate'] * dt, '<=')
        dn_rows, dn_links = self.simple(one, one['initial_output'] - one['ramp_down_rate'] * dt, '>=')
        self.put('ramp_up', up_rows, up_links, violation_cost)
        self.put('ramp_down', dn_rows, dn_links, violation_cost)
        self.forget('bidirectional_ramp_up')
        self.forget('bidirectional_ramp_down')
        if not two.empty:
            rows, links = self.two_sided(two, two['initial_output'] + two['ramp_up_rate'] * dt, '<=')
            self.put('bidirectional_ramp_up', rows, links, violation_cost)
            rows, links = self.two_sided(two, two['initial_output'] - two['ramp_down_rate'] * dt, '>=')
            self.put('bidirectional_ramp_down', rows, links, violation_cost)

    def two_sided(self, df, rhs, sense):
        rows = key(df, 'constraint_id')
        rows['type'] = sense
        rows['rhs'] = rhs
        a = rows.loc[:, ['constraint_id', 'unit']]
        a['service'] = 'energy'
        a['coefficient'] = 1.0
        b = a.copy()
        a['dispatch_type'] = 'generator'
        b['dispatch_type'] = 'load'
        return rows, pd.concat([a, b])

    def telemetered(self, r, scada):
        r = pd.merge(r, scada, on='unit', how='left')
        if 'scada_ramp_up_rate' in r.columns:
            r['ramp_up_rate'] = np.fmin(r['ramp_up_rate'], r['scada_ramp_up_rate'])
        if 'scada_ramp_down_rate' in r.columns:
            r['ramp_down_rate'] = np.fmin(r['ramp_down_rate'], r['scada_ramp_down_rate'])
        return r

    def fast_start_ramping(self, r, profiles, run_type):
        if run_type == 'no_fast_start_units':
            return r
        if run_type == 'fast_start_first_run':
            off = profiles[profiles['current_mode'].isin([0, 1, 2])]
            return r[~r['unit'].isin(off['unit'])]
        if run_type == 'fast_start_second_run':
            off = profiles[profiles['end_mode'].isin([0, 1, 2])]
            r = r[~r['unit'].isin(off['unit'])]
            left = profiles[~profiles['time_since_end_of_mode_two'].isna()]
            a = pd.merge(r, left.loc[:, ['unit', 'min_loading', 'time_since_end_of_mode_two']], on='unit')
            ceiling = a['min_loading'] + a['time_since_end_of_mode_two'] * (a['ramp_up_rate'] / 60)
            a['ramp_up_rate'] = (ceiling - a['initial_output']) * (60 / self.dispatch_interval)
            return pd.concat([a, r[~r['unit'].isin(left['unit'])]])
        raise ValueError('run_type')

    # ---------------------------------------------------------------- fast start
    def set_fast_start_constraints(self, fast_start_profiles, violation_cost=None):
        p = pd.merge(self.info.loc[:, ['unit', 'dispatch_type']], fast_start_profiles, on='unit')
        m1 = p[p['end_mode'].isin([0, 1])]
        m2 = p[p['end_mode'] == 2]
        m3 = p[p['end_mode'] == 3]
        m4 = p[p['end_mode'] == 4]
        t2 = m2['time_in_end_mode'] / m2['mode_two_length'] * m2['min_loading']
        t4 = m4['min_loading'] - m4['time_in_end_mode'] / m4['mode_four_length'] * m4['min_loading']
        parts = [self.simple(m1, 0.0, '<='), self.simple(m2, t2, '<='), self.simple(m2, t2, '>='),
                 self.simple(m3, m3['min_loading'], '>='), self.simple(m4, t4, '>=')]
        rows = pd.concat([x[0] for x in parts])
        links = pd.concat([x[1] for x in parts])
        self.forget('fast_start')
        if not rows.empty:
            self.put('fast_start', rows, links, violation_cost)

    def remove_fast_start_constraints(self):
        self.forget('fast_start')

    # ---------------------------------------------------------------- regional requirements
    def put_market(self, group, rows, links, violation_cost):
        self.soften_none(group)
        self.market_cons[group] = rows
        self.region_links[group] = links
        if violation_cost is not None:
            self.make_constraints_elastic(group, violation_cost)

    def set_demand_constraints(self, demand, violation_cost=None):
        rows = key(demand, 'constraint_id')
        rows['type'] = '='
        rows['rhs'] = rows['demand']
        links = rows.loc[:, ['constraint_id', 'region']]
        links['service'] = 'energy'
        links['coefficient'] = 1.0
        self.put_market('demand', rows, links, violation_cost)

    def set_fcas_requirements_constraints(self, fcas_requirements, violation_cost=None):
        f = default(fcas_requirements, 'type', '=')
        rows = f.loc[:, ['set', 'volume', 'type']].drop_duplicates('set')
        rows = key(rows, 'constraint_id')
        rows['rhs'] = rows['volume']
        links = pd.merge(f.loc[:, ['set', 'region', 'service']], rows.loc[:, ['set', 'constraint_id']], on='set')
        links['coefficient'] = 1.0
        self.put_market('fcas', rows, links, violation_cost)

    # ---------------------------------------------------------------- FCAS units
    def set_fcas_max_availability(self, fcas_max_availability, violation_cost=None):
        rows, links = self.simple(fcas_max_availability, fcas_max_availability['max_availability'], '<=')
        self.put('fcas_max_availability', rows, links, violation_cost)

    def set_joint_ramping_constraints_reg(self, scada_ramp_rates, fast_start_profiles=None,
                                          run_type='no_fast_start_units', violation_cost=None):
        r = scada_ramp_rates.rename(columns={'scada_ramp_up_rate': 'ramp_up_rate', 'scada_ramp_down_rate': 'ramp_down_rate'})
        r = self.fast_start_ramping(r, fast_start_profiles, run_type)
        for service, rate, sign, sense, flipped in [('raise_reg', 'ramp_up_rate', 1.0, '<=', '>='),
                                                    ('lower_reg', 'ramp_down_rate', -1.0, '>=', '<=')]:
            offers = self.vars['bids']
            offers = offers[offers['service'] == service].loc[:, ['unit', 'dispatch_type', 'service']].drop_duplicates()
            offers = pd.merge(offers, r, on='unit')
            one = offers[~offers['unit'].isin(self.bdu)]
            two = offers[offers['unit'].isin(self.bdu)]
            group = 'joint_ramping_' + service
            self.forget(group)
            self.forget(group + '_bdu')
            if not one.empty:
                rows = key(one, 'constraint_id')
                # a load does the opposite of a generator
                s = np.where(rows['dispatch_type'] == 'load', -1.0 * sign, sign)
                rows['type'] = np.where(rows['dispatch_type'] == 'load', flipped, sense)
                rows['rhs'] = rows['initial_output'] + s * (rows[rate] * self.dt)
                reg = rows.loc[:, ['constraint_id', 'unit', 'service', 'dispatch_type']]
                reg['coefficient'] = np.where(reg['dispatch_type'] == 'load', -1.0 * sign, sign)
                energy = reg.copy()
                energy['service'] = 'energy'
                energy['coefficient'] = 1.0
                self.put(group, rows, pd.concat([reg, energy]), violation_cost)
            if not two.empty:
                rows = key(two.loc[:, ['unit', 'initial_output', rate]].drop_duplicates('unit'), 'constraint_id')
                rows['type'] = sense
                rows['rhs'] = rows['initial_output'] + sign * (rows[rate] * self.dt)
                reg = pd.merge(two.loc[:, ['unit', 'service', 'dispatch_type']], rows.loc[:, ['unit', 'constraint_id']], on='unit')
                reg['coefficient'] = sign
                energy = reg.copy()
                energy['service'] = 'energy'
                energy['coefficient'] = 1.0
                self.put(group + '_bdu', rows, pd.concat([reg, energy]), violation_cost)

    def set_joint_capacity_constraints(self, contingency_trapeziums, violation_cost=None):
        t = default(contingency_trapeziums, 'dispatch_type', 'generator')
        bdu = t['unit'].isin(self.bdu)
        up = key(t, 'constraint_id')
        up['type'] = '<='
        up['rhs'] = up['enablement_max']
        up['slope'] = (up['enablement_max'] - up['high_break_point']) / up['max_availability']
        dn = key(t, 'constraint_id')
        dn['type'] = '>='
        dn['rhs'] = dn['enablement_min']
        dn['slope'] = (dn['low_break_point'] - dn['enablement_min']) / dn['max_availability']
        links = []
        for c, sign in [(up, 1.0), (dn, -1.0)]:
            ids = c.loc[:, ['constraint_id', 'unit', 'dispatch_type']]
            energy = ids.copy()
            energy['service'] = 'energy'
            energy['coefficient'] = 1.0
            cont = c.loc[:, ['constraint_id', 'unit', 'dispatch_type', 'service', 'slope']]
            cont['coefficient'] = sign * cont['slope']
            reg = ids.copy()
            if sign > 0:
                reg['service'] = np.where(reg['dispatch_type'] == 'generator', 'raise_reg', 'lower_reg')
            else:
                reg['service'] = np.where(reg['dispatch_type'] == 'generator', 'lower_reg', 'raise_reg')
            reg['coefficient'] = sign
            energy2 = energy[energy['unit'].isin(self.bdu)].copy()
            energy2['dispatch_type'] = 'load'
            reg2 = reg[reg['unit'].isin(self.bdu)].copy()
            reg2['dispatch_type'] = 'load'
            links += [energy, cont, reg, energy2, reg2]
        self.put('joint_capacity', pd.concat([up, dn]), pd.concat(links), violation_cost)

    def set_energy_and_regulation_capacity_constraints(self, regulation_trapeziums, violation_cost=None):
        t = default(regulation_trapeziums, 'dispatch_type', 'generator')
        up = key(t, 'constraint_id')
        up['type'] = '<='
        up['rhs'] = up['enablement_max']
        up['slope'] = (up['enablement_max'] - up['high_break_point']) / up['max_availability']
        dn = key(t, 'constraint_id')
        dn['type'] = '>='
        dn['rhs'] = dn['enablement_min']
        dn['slope'] = -1.0 * (dn['low_break_point'] - dn['enablement_min']) / dn['max_availability']
        links = []
        for c in [up, dn]:
            reg = c.loc[:, ['constraint_id', 'unit', 'service', 'dispatch_type', 'slope']]
            reg['coefficient'] = reg['slope']
            energy = reg.copy()
            energy['service'] = 'energy'
            energy['coefficient'] = 1.0
            links += [reg, energy]
        self.put('energy_and_regulation_capacity', pd.concat([up, dn]), pd.concat(links), violation_cost)

    # ---------------------------------------------------------------- interconnectors
    def set_interconnectors(self, interconnector_directions_and_limits):
        d = interconnector_directions_and_limits.copy()
        if 'link' not in d.columns:
            d['link'] = d['interconnector']
        d = default(d, 'from_region_loss_factor', 1.0)
        d = default(d, 'to_region_loss_factor', 1.0)
        d = default(d, 'generic_constraint_factor', 1)
        v = key(d, 'variable_id')
        v['lower_bound'] = v['min']
        v['upper_bound'] = v['max']
        v['type'] = 'continuous'
        self.inter = d
        self.vars['interconnectors'] = v
        to = v.loc[:, ['variable_id']]
        to['region'] = v['to_region']
        to['coefficient'] = v['to_region_loss_factor']
        frm = v.loc[:, ['variable_id']]
        frm['region'] = v['from_region']
        frm['coefficient'] = -1.0 * v['from_region_loss_factor']
        m = pd.concat([to, frm])
        m['service'] = 'energy'
        self.region_vars['interconnectors'] = m

    def set_interconnector_losses(self, loss_functions, interpolation_break_points):
        if 'interconnectors' not in self.vars:
            raise ModelBuildError('no interconnectors')
        f = loss_functions.copy()
        b = interpolation_break_points.copy()
        if 'link' not in f.columns:
            f['link'] = f['interconnector']
        if 'link' not in b.columns:
            b['link'] = b['interconnector']
        L = ['interconnector', 'link']
        flow = self.vars['interconnectors']
        self.loss_shares = f.loc[:, L + ['from_region_loss_share']]
        loss = pd.merge(flow.loc[:, L + ['lower_bound', 'upper_bound', 'type', 'from_region', 'to_region']],
                        f.loc[:, L + ['from_region_loss_share']], on=L)
        loss = key(loss, 'variable_id')
        biggest = np.where(loss['upper_bound'].abs() >= loss['lower_bound'].abs(), loss['upper_bound'].abs(), loss['lower_bound'].abs())
        loss['upper_bound'] = biggest
        loss['lower_bound'] = -1.0 * biggest
        w = key(b, 'variable_id')
        w['lower_bound'] = 0.0
        w['upper_bound'] = 1.0
        w['type'] = 'continuous'
        self.vars['interconnector_losses'] = loss
        self.vars['interpolation_weights'] = w
        # losses are charged to the two ends
        a = loss.loc[:, ['variable_id']]
        a['region'] = loss['from_region']
        a['coefficient'] = -1.0 * loss['from_region_loss_share']
        z = loss.loc[:, ['variable_id']]
        z['region'] = loss['to_region']
        z['coefficient'] = -1.0 * (1.0 - loss['from_region_loss_share'])
        m = pd.concat([a, z])
        m['service'] = 'energy'
        self.region_vars['interconnector_losses'] = m
        # sum of weights, flow and losses as combinations of the weights
        links = w.loc[:, L].drop_duplicates()
        one = key(links, 'constraint_id')
        one['type'] = '='
        one['rhs'] = 1.0
        self.cons['interpolation_weights'] = one
        lhs_one = pd.merge(w.loc[:, L + ['variable_id']], one.loc[:, L + ['constraint_id']], on=L)
        lhs_one['coefficient'] = 1.0
        is_flow = pd.merge(key(links, 'constraint_id'), flow.loc[:, L + ['variable_id']], on=L)
        is_flow['rhs_variable_id'] = is_flow['variable_id']
        is_flow = is_flow.loc[:, L + ['constraint_id', 'rhs_variable_id']]
        is_flow['type'] = '='
        lhs_flow = pd.merge(w.loc[:, L + ['variable_id', 'break_point']], is_flow.loc[:, L + ['constraint_id']], on=L)
        lhs_flow['coefficient'] = lhs_flow['break_point']
        is_loss = pd.merge(key(links, 'constraint_id'), loss.loc[:, L + ['variable_id']], on=L)
        is_loss['rhs_variable_id'] = is_loss['variable_id']
        is_loss = is_loss.loc[:, L + ['constraint_id', 'rhs_variable_id']]
        is_loss['type'] = '='
        lhs_loss = pd.merge(w.loc[:, L + ['variable_id', 'break_point']], is_loss.loc[:, L + ['constraint_id']], on=L)
        lhs_loss = pd.merge(lhs_loss, f.loc[:, L + ['loss_function']], on=L)
        lhs_loss['coefficient'] = lhs_loss.apply(lambda x: x['loss_function'](x['break_point']), axis=1)
        self.dynamic['losses'] = pd.concat([is_flow, is_loss])
        self.lhs['losses'] = pd.concat([lhs_one, lhs_flow, lhs_loss])

    # ---------------------------------------------------------------- generic constraints
    def set_generic_constraints(self, generic_constraint_parameters, violation_cost=None):
        self.soften_none('generic')
        self.cons['generic'] = key(generic_constraint_parameters, 'constraint_id')
        if violation_cost is not None:
            self.make_constraints_elastic('generic', violation_cost)

    def link_units_to_generic_constraints(self, unit_coefficients):
        self.generic['unit'] = unit_coefficients.copy()

    def link_regions_to_generic_constraints(self, region_coefficients):
        self.generic['region'] = region_coefficients.copy()

    def link_interconnectors_to_generic_constraints(self, interconnector_coefficients):
        self.generic['interconnectors'] = interconnector_coefficients.copy()

    # ---------------------------------------------------------------- softening
    def make_constraints_elastic(self, constraints_key, violation_cost):
        if constraints_key in self.market_cons:
            rows = self.market_cons[constraints_key].copy()
        elif constraints_key in self.cons:
            rows = self.cons[constraints_key].copy()
        else:
            raise ModelBuildError('unknown constraints')
        if isinstance(violation_cost, (int, float)) and not isinstance(violation_cost, bool):
            rows['cost'] = violation_cost
        elif isinstance(violation_cost, pd.DataFrame):
            rows = pd.merge(rows, violation_cost.loc[:, ['set', 'cost']], on='set')
        else:
            raise ValueError('violation cost')
        rows = rows.loc[:, ['constraint_id', 'type', 'cost']]
        raising = rows[rows['type'].isin(['>=', '='])].copy()
        raising['coefficient'] = 1.0
        lowering = rows[rows['type'].isin(['<=', '='])].copy()
        lowering['coefficient'] = -1.0
        v = key(pd.concat([raising, lowering]), 'variable_id')
        v['lower_bound'] = 0.0
        v['upper_bound'] = np.inf
        v['type'] = 'continuous'
        self.soften_none(constraints_key)
        if not v.empty:
            self.vars[constraints_key + '_deficit'] = v
            self.obj[constraints_key + '_deficit'] = v
            self.lhs[constraints_key + '_deficit'] = v

    def set_tie_break_constraints(self, cost):
        p = self.obj['bids']
        p = p[p['service'] == 'energy']
        p = p.loc[:, ['variable_id', 'unit', 'dispatch_type', 'capacity_band', 'cost', 'upper_bound']]
        p = pd.merge(p, self.info.loc[:, ['unit', 'dispatch_type', 'region']], on=['unit', 'dispatch_type'])
        pairs = pd.merge(p, p, on=['cost', 'region', 'dispatch_type'])
        pairs = pairs[pairs['unit_x'] < pairs['unit_y']]
        pairs = key(pairs, 'constraint_id')
        pairs['type'] = '='
        pairs['rhs'] = 0.0
        a = pairs.loc[:, ['constraint_id']]
        a['variable_id'] = pairs['variable_id_x']
        a['coefficient'] = 1.0 / pairs['upper_bound_x']
        b = pairs.loc[:, ['constraint_id']]
        b['variable_id'] = pairs['variable_id_y']
        b['coefficient'] = -1.0 / pairs['upper_bound_y']
        self.cons['tie_break'] = pairs
        self.lhs['tie_break'] = pd.concat([a, b])
        self.make_constraints_elastic('tie_break', cost)

    # ---------------------------------------------------------------- dispatch
    def coefficients(self):
        out = [x.loc[:, ['constraint_id', 'variable_id', 'coefficient']] for x in self.lhs.values()]
        if 'bids' in self.vars:
            b = self.vars['bids'].loc[:, ['variable_id', 'unit', 'service', 'dispatch_type']]
            b = pd.merge(b, self.info.loc[:, ['unit', 'dispatch_type', 'region']], on=['unit', 'dispatch_type'])
            load = (b['service'] == 'energy') & (b['dispatch_type'] == 'load')
            b['unit_sign'] = np.where(load & b['unit'].isin(self.bdu), -1.0, 1.0)
            b['region_sign'] = np.where(load, -1.0, 1.0)
            for links in self.unit_links.values():
                m = pd.merge(links.loc[:, ['constraint_id', 'unit', 'service', 'dispatch_type', 'coefficient']], b, on=BID)
                m['coefficient'] = m['coefficient'] * m['unit_sign']
                out.append(m.loc[:, ['constraint_id', 'variable_id', 'coefficient']])
            r = b.loc[:, ['variable_id', 'region', 'service']]
            r['sign'] = b['region_sign']
            out += self.regional(r)
            out += self.generic_terms(b)
        for m in self.region_vars.values():
            r = m.loc[:, ['variable_id', 'region', 'service']]
            r['sign'] = m['coefficient']
            out += self.regional(r)
        out += self.generic_flows()
        return out

    def regional(self, r):
        out = []
        for links in self.region_links.values():
            m = pd.merge(links.loc[:, ['constraint_id', 'region', 'service', 'coefficient']], r, on=['region', 'service'])
            m['coefficient'] = m['coefficient'] * m['sign']
            out.append(m.loc[:, ['constraint_id', 'variable_id', 'coefficient']])
        return out

    def sets(self):
        out = []
        if 'generic' in self.cons:
            out.append(self.cons['generic'].loc[:, ['set', 'constraint_id']])
        if 'fcas' in self.market_cons:
            out.append(self.market_cons['fcas'].loc[:, ['set', 'constraint_id']])
        return out

    def generic_terms(self, b):
        out = []
        for ids in self.sets():
            if 'unit' in self.generic:
                m = pd.merge(self.generic['unit'], ids, on='set')
                m = pd.merge(m, b, on=['unit', 'service'])
                m['coefficient'] = m['coefficient'] * m['unit_sign']
                out.append(m.loc[:, ['constraint_id', 'variable_id', 'coefficient']])
            if 'region' in self.generic:
                m = pd.merge(self.generic['region'], ids, on='set')
                m = pd.merge(m, b.loc[:, ['variable_id', 'region', 'service']], on=['region', 'service'])
                out.append(m.loc[:, ['constraint_id', 'variable_id', 'coefficient']])
        return out

    def generic_flows(self):
        out = []
        if 'interconnectors' in self.generic and 'interconnectors' in self.vars:
            for ids in self.sets():
                m = pd.merge(self.generic['interconnectors'], ids, on='set')
                v = self.vars['interconnectors'].loc[:, ['interconnector', 'variable_id', 'generic_constraint_factor']]
                m = pd.merge(m, v, on='interconnector')
                m['coefficient'] = m['coefficient'] * m['generic_constraint_factor']
                out.append(m.loc[:, ['constraint_id', 'variable_id', 'coefficient']])
        return out

    def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None,
                 fcas_market_ceiling_price=None, allow_over_constrained_dispatch_re_run=False):
        if allow_over_constrained_dispatch_re_run:
            if energy_market_ceiling_price is None or energy_market_floor_price is None or fcas_market_ceiling_price is None:
                raise ValueError('price limits')
        if not self.vars:
            raise ModelBuildError('no variables')
        _sa.event('solver', self.solver_name)
        _sa.event('add_variables', pd.concat([v.loc[:, ['variable_id', 'lower_bound', 'upper_bound', 'type']] for v in self.vars.values()]))
        if self.obj:
            _sa.event('add_objective_function', pd.concat([o.loc[:, ['variable_id', 'cost']] for o in self.obj.values()]))
        rows = [c.loc[:, ['constraint_id', 'type', 'rhs']] for c in list(self.cons.values()) + list(self.market_cons.values())]
        for d in self.dynamic.values():
            d = d.copy()
            d['rhs'] = _sa.apply('solver_variable', d['rhs_variable_id'])
            rows.append(d.loc[:, ['constraint_id', 'type', 'rhs']])
        coefficients = self.coefficients()
        if rows and coefficients:
            _sa.event('add_constraints', pd.concat(coefficients), pd.concat(rows))
        if 'interpolation_weights' in self.vars:
            _sa.event('sos2', self.vars['interpolation_weights'], ['interconnector', 'link'], 'loss_segment')
        if 'interconnectors' in self.vars:
            s = self.vars['interconnectors']
            s = s[s['interconnector'] != s['link']]
            if not s.empty:
                s = s.copy()
                s['sos_id'] = s['interconnector']
                _sa.event('sos1', s)
        _sa.event('optimize_mip')
        for g in self.vars:
            v = self.vars[g].copy()
            v['value'] = _sa.apply('xval', v['variable_id'])
            self.vars[g] = v
        for g in self.cons:
            c = self.cons[g].copy()
            c['slack'] = _sa.apply('slack', c['constraint_id'])
            self.cons[g] = c
        if 'interconnector_losses' in self.vars:
            self.fix_for_pricing()
        _sa.event('optimize_linear')
        for g in self.market_cons:
            c = self.market_cons[g].copy()
            c['price'] = _sa.apply('dual', c['constraint_id'], 1)
            self.market_cons[g] = c
        if allow_over_constrained_dispatch_re_run:
            self.over_constrained(energy_market_ceiling_price, energy_market_floor_price, fcas_market_ceiling_price)
        self.objective_value = _sa.value('objective_value')

    def fix_for_pricing(self):
        """only the three interpolation weights closest to the flow, and links in use, stay free"""
        L = ['interconnector', 'link']
        w = pd.merge(self.vars['interpolation_weights'].loc[:, L + ['variable_id', 'break_point']],
                     self.vars['interconnectors'].loc[:, L + ['value']], on=L)
        w['distance'] = (w['break_point'] - w['value']).abs()
        w = w.loc[:, L + ['variable_id', 'distance']]
        pairs = pd.merge(w, w, on=L)
        closer = pairs[pairs['distance_y'] < pairs['distance_x']]
        closer = closer.loc[:, ['variable_id_x', 'variable_id_y']].drop_duplicates()
        n = closer.groupby('variable_id_x', as_index=False).size()
        out = n[n['size'] >= 3].rename(columns={'variable_id_x': 'variable_id'})
        _sa.event('disable_variables', out.loc[:, ['variable_id']])
        f = self.vars['interconnectors']
        f = f[(f['interconnector'] != f['link']) & (f['value'] == 0.0)]
        _sa.event('disable_variables', f.loc[:, ['variable_id']])

    def over_constrained(self, ceiling, floor, fcas_ceiling):
        limit = False
        if 'fcas' in self.market_cons:
            if self.market_cons['fcas']['price'].max() >= fcas_ceiling:
                limit = True
        if 'demand' in self.market_cons:
            if self.market_cons['demand']['price'].max() >= ceiling:
                limit = True
            if self.market_cons['demand']['price'].min() <= floor:
                limit = True
        violated = []
        for g in ['generic_deficit', 'fcas_deficit']:
            if g in self.vars:
                v = self.vars[g]
                if v['value'].max() > 0.0001 or v['value'].min() < -0.0001:
                    violated.append(v)
        if limit and violated:
            v = pd.concat(violated)
            v = v[v['value'] != 0.0]
            v['relax'] = -1.0 * (v['value'] + 0.01) * v['coefficient']
            v.apply(lambda x: _sa.event('update_rhs', x['constraint_id'], x['relax']), axis=1)
            _sa.event('optimize_linear')
            for g in self.market_cons:
                c = self.market_cons[g].copy()
                c['price'] = _sa.apply('dual', c['constraint_id'], 2)
                self.market_cons[g] = c

    # ---------------------------------------------------------------- results
    def get_elastic_constraints_violation_degree(self, constraints_key):
        if constraints_key + '_deficit' in self.vars:
            return self.vars[constraints_key + '_deficit']['value'].sum()
        return 0.0

    def get_unit_dispatch(self):
        b = self.vars['bids'].loc[:, BID + ['value']].rename(columns={'value': 'dispatch'})
        return b.groupby(BID, as_index=False).sum()

    def get_energy_prices(self):
        return self.market_cons['demand'].loc[:, ['region', 'price']]

    def get_fcas_prices(self):
        p = pd.merge(self.region_links['fcas'].loc[:, ['region', 'service', 'constraint_id']],
                     self.market_cons['fcas'].loc[:, ['constraint_id', 'price']], on='constraint_id')
        return p.loc[:, ['region', 'service', 'price']].groupby(['region', 'service'], as_index=False).sum()

    def get_interconnector_flows(self):
        L = ['interconnector', 'link']
        f = self.vars['interconnectors'].loc[:, L + ['value']].rename(columns={'value': 'flow'})
        if 'interconnector_losses' in self.vars:
            l = self.vars['interconnector_losses'].loc[:, L + ['value']].rename(columns={'value': 'losses'})
            f = pd.merge(f, l, how='left', on=L)
        return f

    def get_region_dispatch_summary(self):
        d = self.get_unit_dispatch()
        d = d[d['service'] == 'energy']
        d = pd.merge(d, self.info.loc[:, ['unit', 'region', 'dispatch_type']], on=['unit', 'dispatch_type'])
        d['dispatch'] = np.where(d['dispatch_type'] == 'load', -1 * d['dispatch'], d['dispatch'])
        out = d.loc[:, ['region', 'dispatch']].groupby('region', as_index=False).sum()
        if self.inter is None:
            return out
        L = ['interconnector', 'link']
        f = pd.merge(self.inter, self.get_interconnector_flows(), on=L)
        a = f.loc[:, L]
        a['region'] = f['to_region']
        a['inflow'] = f['flow']
        # what arrives (leaves) at the reference node differs from the flow by the loss factor
        a['transmission_losses'] = np.where(f['flow'] >= 0.0, f['flow'] * (1 - f['to_region_loss_factor']),
                                            f['flow'].abs() - f['flow'].abs() / f['to_region_loss_factor'])
        b = f.loc[:, L]
        b['region'] = f['from_region']
        b['inflow'] = -1 * f['flow']
        b['transmission_losses'] = np.where(f['flow'] <= 0.0, f['flow'].abs() * (1 - f['from_region_loss_factor']),
                                            f['flow'].abs() - f['flow'].abs() / f['from_region_loss_factor'])
        ends = pd.concat([a, b])
        e = ends.loc[:, ['region', 'inflow', 'transmission_losses']].groupby('region', as_index=False).sum()
        out = pd.merge(out, e, how='outer', on='region').fillna(0.0)
        if self.loss_shares is not None:
            s = pd.merge(self.loss_shares, f, on=L)
            x = s.loc[:, L]
            x['region'] = s['from_region']
            x['interconnector_losses'] = s['losses'] * s['from_region_loss_share']
            y = s.loc[:, L]
            y['region'] = s['to_region']
            y['interconnector_losses'] = s['losses'] * (1 - s['from_region_loss_share'])
            l = pd.concat([x, y]).loc[:, ['region', 'interconnector_losses']].groupby('region', as_index=False).sum()
            out = pd.merge(out, l, how='left', on='region').fillna(0.0)
        return out

    def get_fcas_availability(self):
        parts = []
        for g in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_capacity',
                  'energy_and_regulation_capacity', 'bidirectional_ramp_up', 'bidirectional_ramp_down',
                  'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu']:
            if g in self.cons:
                parts.append(pd.merge(self.unit_links[g].loc[:, ['constraint_id', 'unit', 'service', 'coefficient']],
                                      self.cons[g].loc[:, ['constraint_id', 'slack', 'type']], on='constraint_id'))
        s = pd.concat(parts)
        s = s[s['service'] != 'energy']
        helps = ((s['coefficient'] < 0.0) & (s['type'] == '<=')) | ((s['coefficient'] > 0.0) & (s['type'] == '>='))
        flat = s['coefficient'].abs() < 1e-05
        s['room'] = np.where(helps | flat, np.inf, s['slack'].abs() / s['coefficient'].abs())
        s = s.loc[:, ['unit', 'service', 'room']].groupby(['unit', 'service'], as_index=False).min()
        a = pd.merge(s, self.get_unit_dispatch(), on=['unit', 'service'])
        a['availability'] = a['dispatch'] + a['room']
        return a.loc[:, ['unit', 'service', 'availability']]
