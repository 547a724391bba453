"""Reference variant: a bid field absent from the file repeats the preceding field (a recorded finding)."""
import pandas as pd
import xmltodict

SERVICE = {'ENOF': 'ENERGY', 'LDOF': 'ENERGY', 'DROF': 'ENERGY', 'BDOF': 'ENERGY', 'R5RE': 'RAISEREG', 'L5RE': 'LOWERREG',
           'R1SE': 'RAISE1SEC', 'L1SE': 'LOWER1SEC', 'R6SE': 'RAISE6SEC', 'L6SE': 'LOWER6SEC', 'R60S': 'RAISE60SEC',
           'L60S': 'LOWER60SEC', 'R5MI': 'RAISE5MIN', 'L5MI': 'LOWER5MIN'}
SIDE = {'GEN': 'GENERATOR', 'LOAD': 'LOAD'}
VOLUME = [('MAXAVAIL', '@MaxAvail'), ('ENABLEMENTMIN', '@EnablementMin'), ('ENABLEMENTMAX', '@EnablementMax'),
          ('LOWBREAKPOINT', '@LowBreakpoint'), ('HIGHBREAKPOINT', '@HighBreakpoint'), ('BANDAVAIL1', '@BandAvail1'),
          ('BANDAVAIL2', '@BandAvail2'), ('BANDAVAIL3', '@BandAvail3'), ('BANDAVAIL4', '@BandAvail4'), ('BANDAVAIL5', '@BandAvail5'),
          ('BANDAVAIL6', '@BandAvail6'), ('BANDAVAIL7', '@BandAvail7'), ('BANDAVAIL8', '@BandAvail8'), ('BANDAVAIL9', '@BandAvail9'),
          ('BANDAVAIL10', '@BandAvail10'), ('RAMPDOWNRATE', '@RampDnRate'), ('RAMPUPRATE', '@RampUpRate')]


class XMLCacheManager:
    def __init__(self, cache_folder):
        self.doc = None

    def load_interval(self, interval):
        self.doc = xmltodict.parse('')['NEMSPDCaseFile']

    def get_unit_volume_bids(self):
        out = {'DUID': [], 'BIDTYPE': [], 'DIRECTION': []}
        for n, _ in VOLUME:
            out[n] = []
        for t in self.doc['NemSpdInputs']['PeriodCollection']['Period']['TraderPeriodCollection']['TraderPeriod']:
            bids = t['TradeCollection']['Trade']
            if not isinstance(bids, list):
                bids = [bids]
            for b in bids:
                out['DUID'].append(t['@TraderID'])
                out['BIDTYPE'].append(SERVICE[b['@TradeType']])
                out['DIRECTION'].append(SIDE[b['@Direction']] if '@Direction' in b else None)
                last = b['@MaxAvail']
                for n, a in VOLUME:
                    if a in b:
                        last = b[a]
                    out[n].append(float(last))
        return pd.DataFrame(out)
