"""Reference meaning of nempy.historical_inputs.units.  Interpreted by the analyser, never run."""
import numpy as np
import pandas as pd

SERVICE = {'ENERGY': 'energy', 'RAISEREG': 'raise_reg', 'LOWERREG': 'lower_reg', 'RAISE6SEC': 'raise_6s',
           'RAISE1SEC': 'raise_1s', 'RAISE60SEC': 'raise_60s', 'RAISE5MIN': 'raise_5min', 'LOWER6SEC': 'lower_6s',
           'LOWER1SEC': 'lower_1s', 'LOWER60SEC': 'lower_60s', 'LOWER5MIN': 'lower_5min'}
SIDE = {'GENERATOR': 'generator', 'LOAD': 'load'}
BANDS = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '10']
BID = ['DUID', 'BIDTYPE', 'DIRECTION']
TRAP = ['MAXAVAIL', 'ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX']
REG = ['RAISEREG', 'LOWERREG']


class MethodCallOrderError(Exception):
    pass


def isnan(x):
    return x != x


def telemetered(r):
    if r['BIDTYPE'] == 'RAISEREG':
        return r['RAISEREGENABLEMENTMIN'], r['RAISEREGENABLEMENTMAX'], r['UPRATE']
    return r['LOWERREGENABLEMENTMIN'], r['LOWERREGENABLEMENTMAX'], r['DNRATE']


def scaled(r):
    """max availability, enablement min, low break point, high break point, enablement max after scaling"""
    avail, emin, lo, hi, emax = r['MAXAVAIL'], r['ENABLEMENTMIN'], r['LOWBREAKPOINT'], r['HIGHBREAKPOINT'], r['ENABLEMENTMAX']
    if r['BIDTYPE'] in REG:
        tmin, tmax, rate = telemetered(r)
        if tmin > 0.0 and tmin > emin:
            lo = lo + (tmin - emin)
            emin = tmin
        if tmax > 0.0 and tmax < emax:
            hi = hi - (emax - tmax)
            emax = tmax
        if not isnan(rate) and rate != 0:
            ramp = rate * 5 / 60
            if avail > ramp:
                lo = emin + (lo - emin) * ramp / avail
                hi = emax - (emax - hi) * ramp / avail
                avail = ramp
    if r['BIDTYPE'] != 'ENERGY' and not isnan(r['UIGF']) and emax > r['UIGF']:
        hi = hi - (emax - r['UIGF'])
        emax = r['UIGF']
    return avail, emin, lo, hi, emax


def offered(r):
    """some of the service is offered and the energy availability reaches the enablement minimum"""
    some = False
    for b in BANDS:
        if r['BANDAVAIL' + b] > 0.0:
            some = True
    return some and r['MAXAVAIL'] > 0.0 and (isnan(r['CAP']) or r['CAP'] >= r['ENABLEMENTMIN'])


def enabled(r):
    emin, emax = r['ENABLEMENTMIN'], r['ENABLEMENTMAX']
    if not r['OFFERED']:
        return False
    if r['BIDTYPE'] in REG and r['AGCSTATUS'] == 0.0:
        return False
    if r['TRADERTYPE'] != 'BIDIRECTIONAL':
        initial = r['INITIALMW']
        if initial < 0.0:
            initial = 0.0
        initial = round(initial, 5)
        return emax >= 0.0 and emin <= initial and initial <= emax
    initial = round(r['INITIALMW'], 5)
    low, high = emin, emax
    if r['DIRECTION'] == 'GENERATOR':
        if not emax >= 0.0:
            return False
        if r['BIDTYPE'] not in REG:
            if -1 * r['LOADCAP'] > emax:
                return False
        elif not isnan(r['LOADMIN']):
            low = r['LOADMIN']
    else:
        if not emin <= 0.0:
            return False
        if r['BIDTYPE'] in REG:
            if -1 * r['CAP'] > emax:
                return False
            if not isnan(r['GENMAX']):
                high = r['GENMAX']
    return low <= initial and initial <= high


class UnitData:
    def __init__(self, loader):
        self.loader = loader
        self.price = loader.get_unit_price_bids()
        v = loader.get_unit_volume_bids()
        own = self.price.loc[:, BID].rename(columns={'DIRECTION': 'PRICEDIRECTION'})
        v = pd.merge(v, own, how='left', on=['DUID', 'BIDTYPE'])
        v = v[v['DIRECTION'].isna() | v['PRICEDIRECTION'].isna() | (v['DIRECTION'] == v['PRICEDIRECTION'])].copy()
        v['DIRECTION'] = np.where(v['DIRECTION'].isna(), v['PRICEDIRECTION'], v['DIRECTION'])
        self.volume = v.drop(columns='PRICEDIRECTION')
        self.fast = loader.get_unit_fast_start_parameters()
        self.initial = loader.get_unit_initial_conditions()
        self.uigf = loader.get_UIGF_values()
        self.details = loader.get_unit_details()
        self.bids = None
        self.traps = None

    def energy(self):
        return self.volume[self.volume['BIDTYPE'] == 'ENERGY']

    def get_unit_bid_availability(self):
        e = self.energy()
        if self.loader.interval < '2023/07/07 13:40':
            e = e[~e['DUID'].isin(self.uigf['DUID'])]
        return pd.DataFrame({'unit': e['DUID'], 'dispatch_type': e['DIRECTION'].apply(lambda x: SIDE[x]), 'capacity': e['MAXAVAIL']})

    def get_unit_uigf_limits(self):
        return pd.DataFrame({'unit': self.uigf['DUID'], 'capacity': self.uigf['UIGF']})

    def get_bid_ramp_rates(self):
        e = pd.merge(self.energy(), self.initial.loc[:, ['DUID', 'INITIALMW']], on='DUID')
        return pd.DataFrame({'unit': e['DUID'], 'dispatch_type': e['DIRECTION'].apply(lambda x: SIDE[x]),
                             'initial_output': e['INITIALMW'], 'ramp_up_rate': e['RAMPUPRATE'], 'ramp_down_rate': e['RAMPDOWNRATE']})

    def get_scada_ramp_rates(self, inlude_initial_output=False):
        i = self.initial
        i = i[~i['RAMPUPRATE'].isna() | ~i['RAMPDOWNRATE'].isna()]
        out = pd.DataFrame({'unit': i['DUID'], 'scada_ramp_up_rate': i['RAMPUPRATE'], 'scada_ramp_down_rate': i['RAMPDOWNRATE']})
        if inlude_initial_output:
            out['initial_output'] = i['INITIALMW']
        return out

    def get_initial_unit_output(self):
        return pd.DataFrame({'unit': self.initial['DUID'], 'initial_output': self.initial['INITIALMW']})

    def get_unit_info(self):
        d = self.price.loc[:, ['DUID', 'DIRECTION']].drop_duplicates()
        d = pd.merge(d, self.details, on='DUID')
        d = pd.merge(d, self.initial.loc[:, ['DUID', 'TRADERTYPE']], on='DUID')

        def lf(r):
            if r['TRADERTYPE'] == 'BIDIRECTIONAL' and r['DIRECTION'] == 'GENERATOR' and not isnan(r['SECONDARY_TLF']):
                return r['SECONDARY_TLF'] * r['DISTRIBUTIONLOSSFACTOR']
            return r['TRANSMISSIONLOSSFACTOR'] * r['DISTRIBUTIONLOSSFACTOR']
        return pd.DataFrame({'unit': d['DUID'], 'dispatch_type': d['DIRECTION'].apply(lambda x: SIDE[x]), 'region': d['REGIONID'],
                             'loss_factor': d.apply(lf, axis=1)})

    def process(self):
        """scaled volume bids, and which of them may be enabled"""
        b = self.volume.copy()
        agc = self.loader.get_agc_enablement_limits().loc[:, ['DUID', 'RAISEREGENABLEMENTMIN', 'RAISEREGENABLEMENTMAX',
                                                             'LOWERREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX']]
        b = b.drop(columns=['RAMPUPRATE', 'RAMPDOWNRATE'])
        b = pd.merge(b, agc, on='DUID')
        i = self.initial.loc[:, ['DUID', 'TRADERTYPE', 'INITIALMW', 'AGCSTATUS', 'RAMPUPRATE', 'RAMPDOWNRATE']]
        i = i.rename(columns={'RAMPUPRATE': 'UPRATE', 'RAMPDOWNRATE': 'DNRATE'})
        b = pd.merge(b, i, on='DUID')
        b = pd.merge(b, self.uigf, on='DUID', how='left')
        cap = self.get_unit_bid_availability()
        cap['DIRECTION'] = np.where(cap['dispatch_type'] == 'load', 'LOAD', 'GENERATOR')
        cap = pd.DataFrame({'DUID': cap['unit'], 'DIRECTION': cap['DIRECTION'], 'CAP': cap['capacity']})
        b = pd.merge(b, cap, on=['DUID', 'DIRECTION'], how='left')
        load = cap[cap['DIRECTION'] == 'LOAD']
        b = pd.merge(b, pd.DataFrame({'DUID': load['DUID'], 'LOADCAP': load['CAP']}), on='DUID', how='left')
        b['S0'] = b.apply(lambda r: scaled(r)[0], axis=1)
        b['S1'] = b.apply(lambda r: scaled(r)[1], axis=1)
        b['S2'] = b.apply(lambda r: scaled(r)[2], axis=1)
        b['S3'] = b.apply(lambda r: scaled(r)[3], axis=1)
        b['S4'] = b.apply(lambda r: scaled(r)[4], axis=1)
        b['MAXAVAIL'] = b['S0']
        b['ENABLEMENTMIN'] = b['S1']
        b['LOWBREAKPOINT'] = b['S2']
        b['HIGHBREAKPOINT'] = b['S3']
        b['ENABLEMENTMAX'] = b['S4']
        b['OFFERED'] = b.apply(lambda r: offered(r), axis=1)
        reg = b[(b['TRADERTYPE'] == 'BIDIRECTIONAL') & b['BIDTYPE'].isin(REG) & b['OFFERED']]
        g, l = reg[reg['DIRECTION'] == 'GENERATOR'], reg[reg['DIRECTION'] == 'LOAD']
        g = pd.DataFrame({'DUID': g['DUID'], 'BIDTYPE': g['BIDTYPE'], 'GENMAX': g['ENABLEMENTMAX']})
        l = pd.DataFrame({'DUID': l['DUID'], 'BIDTYPE': l['BIDTYPE'], 'LOADMIN': l['ENABLEMENTMIN']})
        b = pd.merge(b, g, on=['DUID', 'BIDTYPE'], how='left')
        b = pd.merge(b, l, on=['DUID', 'BIDTYPE'], how='left')
        b['KEEP'] = b.apply(lambda r: True if r['BIDTYPE'] == 'ENERGY' else enabled(r), axis=1)
        return b[b['KEEP']]

    def table(self, d, stem):
        out = pd.DataFrame({'unit': d['DUID'], 'service': d['BIDTYPE'].apply(lambda x: SERVICE[x]),
                            'dispatch_type': d['DIRECTION'].apply(lambda x: SIDE[x])})
        for c in BANDS:
            out[c] = d[stem + c]
        return out

    def get_processed_bids(self):
        self.bids = self.process()
        info = self.get_unit_info()
        v = self.bids
        p = self.price
        kept = pd.merge(p[p['BIDTYPE'] != 'ENERGY'], v.loc[:, BID], on=BID)
        p = pd.concat([p[p['BIDTYPE'] == 'ENERGY'], kept])
        v, p = self.table(v, 'BANDAVAIL'), self.table(p, 'PRICEBAND')
        v = v[v['unit'].isin(info['unit'])]
        p = pd.merge(p, info.loc[:, ['unit', 'dispatch_type', 'loss_factor']], on=['unit', 'dispatch_type'])
        for c in BANDS:
            p[c] = np.where(p['service'] == 'energy', p[c] * p['loss_factor'], p[c])
        return v, p.drop(columns='loss_factor')

    def add_fcas_trapezium_constraints(self):
        if self.bids is None:
            raise MethodCallOrderError('order')
        b = self.bids[self.bids['BIDTYPE'] != 'ENERGY']
        self.traps = pd.DataFrame({
            'unit': b['DUID'], 'service': b['BIDTYPE'].apply(lambda x: SERVICE[x]), 'dispatch_type': b['DIRECTION'].apply(lambda x: SIDE[x]),
            'max_availability': b['MAXAVAIL'], 'enablement_min': b['ENABLEMENTMIN'], 'low_break_point': b['LOWBREAKPOINT'],
            'high_break_point': b['HIGHBREAKPOINT'], 'enablement_max': b['ENABLEMENTMAX']})

    def get_fcas_max_availability(self):
        if self.traps is None:
            raise MethodCallOrderError('order')
        return self.traps.loc[:, ['unit', 'service', 'dispatch_type', 'max_availability']]

    def get_fcas_regulation_trapeziums(self):
        if self.traps is None:
            raise MethodCallOrderError('order')
        return self.traps[self.traps['service'].isin(['raise_reg', 'lower_reg'])]

    def get_contingency_services(self):
        if self.traps is None:
            raise MethodCallOrderError('order')
        return self.traps[~self.traps['service'].isin(['raise_reg', 'lower_reg'])]

    def get_fast_start_profiles_for_dispatch(self, unconstrained_dispatch=None, return_all_columns=False):
        f = self.fast
        p = pd.DataFrame({'unit': f['DUID'], 'min_loading': f['MinLoadingMW'], 'current_mode': f['CurrentMode'],
                          'time_in_current_mode': f['CurrentModeTime'], 'mode_one_length': f['T1'], 'mode_two_length': f['T2'],
                          'mode_three_length': f['T3'], 'mode_four_length': f['T4']})
        if unconstrained_dispatch is not None:
            e = unconstrained_dispatch[unconstrained_dispatch['service'] == 'energy']
            p = pd.merge(p, e.loc[:, ['unit', 'dispatch']], on='unit')
            p['end_mode'] = p.apply(lambda r: advance(r)[0], axis=1)
            p['time_in_end_mode'] = p.apply(lambda r: advance(r)[1], axis=1)
            p['time_since_end_of_mode_two'] = p.apply(lambda r: advance(r)[2], axis=1)
            p = p.drop(columns='dispatch')
            if not return_all_columns:
                p = p.loc[:, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading',
                              'time_since_end_of_mode_two']]
        elif not return_all_columns:
            p = p.loc[:, ['unit', 'current_mode']]
        return p


def advance(r):
    mode, spent, left = r['current_mode'], r['time_in_current_mode'], 5.0
    since_two = np.nan
    if mode == 0 and r['dispatch'] > 0.0:
        mode = 1
    if mode == 1 and r['mode_one_length'] - spent < left:
        left = left - (r['mode_one_length'] - spent)
        mode, spent = 2, 0.0
    if mode == 2 and r['mode_two_length'] - spent < left:
        left = left - (r['mode_two_length'] - spent)
        mode, spent = 3, 0.0
        since_two = left
    if mode == 3 and r['mode_three_length'] - spent < left:
        left = left - (r['mode_three_length'] - spent)
        mode, spent = 4, 0.0
    time = spent + left
    if mode == 0:
        time = 0.0
    if mode == 4 and time > r['mode_four_length']:
        time = r['mode_four_length']
    return mode, time, since_two
