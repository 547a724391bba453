"""Reference: what is read from a NEMDE file."""
import numpy as np
import pandas as pd
import xmltodict

SERVICE = {'ENOF': 'ENERGY', 'LDOF': 'ENERGY', 'DROF': 'ENERGY', 'BDOF': 'ENERGY', 'R5RE': 'RAISEREG', 'L5RE': 'LOWERREG',
           'R1SE': 'RAISE1SEC', 'L1SE': 'LOWER1SEC', 'R6SE': 'RAISE6SEC', 'L6SE': 'LOWER6SEC', 'R60S': 'RAISE60SEC',
           'L60S': 'LOWER60SEC', 'R5MI': 'RAISE5MIN', 'L5MI': 'LOWER5MIN'}
SIDE = {'GEN': 'GENERATOR', 'LOAD': 'LOAD'}
VOLUME = [('MAXAVAIL', '@MaxAvail'), ('ENABLEMENTMIN', '@EnablementMin'), ('ENABLEMENTMAX', '@EnablementMax'),
          ('LOWBREAKPOINT', '@LowBreakpoint'), ('HIGHBREAKPOINT', '@HighBreakpoint'), ('BANDAVAIL1', '@BandAvail1'),
          ('BANDAVAIL2', '@BandAvail2'), ('BANDAVAIL3', '@BandAvail3'), ('BANDAVAIL4', '@BandAvail4'), ('BANDAVAIL5', '@BandAvail5'),
          ('BANDAVAIL6', '@BandAvail6'), ('BANDAVAIL7', '@BandAvail7'), ('BANDAVAIL8', '@BandAvail8'), ('BANDAVAIL9', '@BandAvail9'),
          ('BANDAVAIL10', '@BandAvail10'), ('RAMPDOWNRATE', '@RampDnRate'), ('RAMPUPRATE', '@RampUpRate')]
VIOLATIONS = {'regional_demand': '@TotalAreaGenViolation', 'interocnnector': '@TotalInterconnectorViolation',
              'generic_constraint': '@TotalGenericViolation', 'ramp_rate': '@TotalRampRateViolation',
              'unit_capacity': '@TotalUnitMWCapacityViolation', 'energy_constraint': '@TotalEnergyConstrViolation',
              'energy_offer': '@TotalEnergyOfferViolation', 'fcas_profile': '@TotalASProfileViolation',
              'fast_start': '@TotalFastStartViolation', 'mnsp_ramp_rate': '@TotalMNSPRampRateViolation',
              'msnp_offer': '@TotalMNSPOfferViolation', 'mnsp_capacity': '@TotalMNSPCapacityViolation', 'ugif': '@TotalUIGFViolation'}
PRICES = {'regional_demand': '@EnergyDeficitPrice', 'interocnnector': '@InterconnectorPrice', 'generic_constraint': '@GenericConstraintPrice',
          'ramp_rate': '@RampRatePrice', 'unit_capacity': '@CapacityPrice', 'energy_offer': '@OfferPrice', 'fcas_profile': '@ASProfilePrice',
          'fcas_max_avail': '@ASMaxAvailPrice', 'fcas_enablement_min': '@ASEnablementMinPrice', 'fcas_enablement_max': '@ASEnablementMaxPrice',
          'fast_start': '@FastStartPrice', 'mnsp_ramp_rate': '@MNSPRampRatePrice', 'msnp_offer': '@MNSPOfferPrice',
          'mnsp_capacity': '@MNSPCapacityPrice', 'uigf': '@UIGFSurplusPrice', 'voll': '@VoLL', 'tiebreak': '@TieBreakPrice'}
REGION = {'@EnergyPrice': 'ENERGY', '@R5Price': 'RAISE5MIN', '@L5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC',
          '@R6Price': 'RAISE6SEC', '@L6Price': 'LOWER6SEC', '@R1Price': 'RAISE1SEC', '@L1Price': 'LOWER1SEC'}


def every(x):
    """the items at a place that may hold one item or several"""
    if isinstance(x, list):
        return x
    return [x]


def table(columns, rows):
    return pd.DataFrame({c: [r[i] for r in rows] for i, c in enumerate(columns)})


class XMLCacheManager:
    def __init__(self, cache_folder):
        self.doc = None

    def load_interval(self, interval):
        self.doc = xmltodict.parse('')['NEMSPDCaseFile']
        self.inputs = self.doc['NemSpdInputs']
        self.outputs = self.doc['NemSpdOutputs']
        self.xml = {'NEMSPDCaseFile': self.doc}

    def is_intervention_period(self):
        return isinstance(self.outputs['PeriodSolution'], list)

    def get_unit_initial_conditions(self):
        mw = 'WhatIfInitialMW' if self.is_intervention_period() else 'InitialMW'
        rows = []
        for t in self.inputs['TraderCollection']['Trader']:
            v = {mw: np.nan, 'SCADARampUpRate': np.nan, 'SCADARampDnRate': np.nan, 'AGCStatus': np.nan}
            for c in t['TraderInitialConditionCollection']['TraderInitialCondition']:
                v[c['@InitialConditionID']] = float(c['@Value'])
            rows.append([t['@TraderID'], t['@TraderType'], v[mw], v['SCADARampUpRate'], v['SCADARampDnRate'], v['AGCStatus']])
        return table(['DUID', 'TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'], rows)

    def get_unit_fast_start_parameters(self):
        out = {'DUID': [], 'MinLoadingMW': [], 'CurrentMode': [], 'CurrentModeTime': [], 'T1': [], 'T2': [], 'T3': [], 'T4': []}
        for t in self.inputs['TraderCollection']['Trader']:
            if '@CurrentMode' in t:
                out['DUID'].append(t['@TraderID'])
                out['MinLoadingMW'].append(int(t['@MinLoadingMW']))
                out['CurrentMode'].append(int(t['@WhatIfCurrentMode'] if '@WhatIfCurrentMode' in t else t['@CurrentMode']))
                out['CurrentModeTime'].append(int(t['@WhatIfCurrentModeTime'] if '@WhatIfCurrentModeTime' in t else t['@CurrentModeTime']))
                for n in ['T1', 'T2', 'T3', 'T4']:
                    out[n].append(int(t['@' + n]))
        return pd.DataFrame(out)

    def get_unit_volume_bids(self):
        out = {'DUID': [], 'BIDTYPE': [], 'DIRECTION': []}
        for n, _ in VOLUME:
            out[n] = []
        for t in self.inputs['PeriodCollection']['Period']['TraderPeriodCollection']['TraderPeriod']:
            for b in every(t['TradeCollection']['Trade']):
                out['DUID'].append(t['@TraderID'])
                out['BIDTYPE'].append(SERVICE[b['@TradeType']])
                out['DIRECTION'].append(SIDE[b['@Direction']] if '@Direction' in b else None)
                for n, a in VOLUME:
                    out[n].append(float(b[a]) if a in b else np.nan)
        return pd.DataFrame(out)

    def get_unit_price_bids(self):
        out = {'DUID': [], 'BIDTYPE': [], 'DIRECTION': []}
        for i in range(1, 11):
            out['PRICEBAND' + str(i)] = []
        for t in self.inputs['TraderCollection']['Trader']:
            s = t['TradePriceStructureCollection']['TradePriceStructure']['TradeTypePriceStructureCollection']['TradeTypePriceStructure']
            for b in every(s):
                out['DUID'].append(t['@TraderID'])
                out['BIDTYPE'].append(SERVICE[b['@TradeType']])
                if '@Direction' in b:
                    out['DIRECTION'].append(SIDE[b['@Direction']])
                else:
                    out['DIRECTION'].append('LOAD' if t['@TraderType'] == 'LOAD' else 'GENERATOR')
                for i in range(1, 11):
                    a = '@PriceBand' + str(i)
                    out['PRICEBAND' + str(i)].append(float(b[a]) if a in b else None)
        return pd.DataFrame(out)

    def get_UIGF_values(self):
        out = {'DUID': [], 'UIGF': []}
        for t in self.inputs['PeriodCollection']['Period']['TraderPeriodCollection']['TraderPeriod']:
            if '@UIGF' in t:
                out['DUID'].append(t['@TraderID'])
                out['UIGF'].append(float(t['@UIGF']))
        return pd.DataFrame(out)

    def get_violations(self):
        period, case = {}, {}
        for s in every(self.outputs['PeriodSolution']):
            if not self.is_intervention_period() or s['@Intervention'] == '0':
                period = s
        for s in every(self.outputs['CaseSolution']):
            if not self.is_intervention_period() or s['@Intervention'] == '0':
                case = s
        return {n: float(period[a] if a in period else case[a]) for n, a in VIOLATIONS.items()}

    def get_constraint_violation_prices(self):
        return {n: float(self.inputs['Case'][a]) for n, a in PRICES.items()}

    def get_constraint_rhs(self):
        out = {'set': [], 'rhs': []}
        for c in self.outputs['ConstraintSolution']:
            if c['@Intervention'] == '0':
                out['set'].append(c['@ConstraintID'])
                out['rhs'].append(float(c['@RHS']))
        return pd.DataFrame(out)

    def get_constraint_type(self):
        cs = self.inputs['GenericConstraintCollection']['GenericConstraint']
        return table(['set', 'type', 'cost'], [[c['@ConstraintID'], c['@Type'], float(c['@ViolationPrice'])] for c in cs])

    def lhs(self, place, names):
        rows = []
        for c in self.inputs['GenericConstraintCollection']['GenericConstraint']:
            f = c['LHSFactorCollection']
            if f is not None:
                if place in f:
                    for t in every(f[place]):
                        rows.append([c['@ConstraintID']] + [t[n] for n in names] + [float(t['@Factor'])])
        return rows

    def get_constraint_region_lhs(self):
        return table(['set', 'region', 'service', 'coefficient'], self.lhs('RegionFactor', ['@RegionID', '@TradeType']))

    def get_constraint_unit_lhs(self):
        return table(['set', 'unit', 'service', 'coefficient'], self.lhs('TraderFactor', ['@TraderID', '@TradeType']))

    def get_constraint_interconnector_lhs(self):
        return table(['set', 'interconnector', 'coefficient'], self.lhs('InterconnectorFactor', ['@InterconnectorID']))

    def get_market_interconnector_link_bid_availability(self):
        rows = []
        for i in self.inputs['PeriodCollection']['Period']['InterconnectorPeriodCollection']['InterconnectorPeriod']:
            if i['@MNSP'] == '1':
                for o in i['MNSPOfferCollection']['MNSPOffer']:
                    rows.append([i['@InterconnectorID'], o['@RegionID'], float(o['@MaxAvail'])])
        return table(['interconnector', 'to_region', 'availability'], rows)

    def get_service_prices(self):
        out = {'region': [], 'service': [], 'price': []}
        for r in self.outputs['RegionSolution']:
            for a, s in REGION.items():
                if a in r:
                    out['region'].append(r['@RegionID'])
                    out['service'].append(s)
                    out['price'].append(float(r[a]))
        return pd.DataFrame(out)
