"""Reference for the market management database."""
import pandas as pd
import numpy as np

SCHEMA = {
    'DISPATCHREGIONSUM': ('interval', ['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], []),
    'DISPATCHLOAD': ('interval', ['SETTLEMENTDATE', 'DUID', 'DISPATCHMODE', 'AGCSTATUS', 'INITIALMW', 'TOTALCLEARED', 'RAMPDOWNRATE', 'RAMPUPRATE',
                     'AVAILABILITY', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX',
                     'LOWERREGENABLEMENTMIN', 'SEMIDISPATCHCAP', 'LOWER5MIN', 'LOWER60SEC', 'LOWER6SEC', 'LOWER1SEC', 'RAISE5MIN',
                     'RAISE60SEC', 'RAISE6SEC', 'RAISE1SEC', 'LOWERREG', 'RAISEREG', 'RAISEREGAVAILABILITY',
                     'RAISE6SECACTUALAVAILABILITY', 'RAISE1SECACTUALAVAILABILITY', 'RAISE60SECACTUALAVAILABILITY',
                     'RAISE5MINACTUALAVAILABILITY', 'RAISEREGACTUALAVAILABILITY', 'LOWER6SECACTUALAVAILABILITY',
                     'LOWER1SECACTUALAVAILABILITY', 'LOWER60SECACTUALAVAILABILITY', 'LOWER5MINACTUALAVAILABILITY',
                     'LOWERREGACTUALAVAILABILITY'], []),
    'DISPATCHPRICE': ('interval', ['SETTLEMENTDATE', 'REGIONID', 'ROP', 'RAISE6SECROP', 'RAISE1SECROP', 'RAISE60SECROP', 'RAISE5MINROP',
                      'RAISEREGROP', 'LOWER6SECROP', 'LOWER1SECROP', 'LOWER60SECROP', 'LOWER5MINROP', 'LOWERREGROP'], []),
    'DISPATCHCONSTRAINT': ('interval', ['SETTLEMENTDATE', 'CONSTRAINTID', 'RHS', 'GENCONID_EFFECTIVEDATE', 'GENCONID_VERSIONNO', 'LHS',
                           'VIOLATIONDEGREE', 'MARGINALVALUE'], []),
    'DISPATCHINTERCONNECTORRES': ('interval', ['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'], []),
    'DUDETAILSUMMARY': ('dated', ['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID',
                        'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'], ['DUID']),
    'DUDETAIL': ('versioned', ['DUID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGISTEREDCAPACITY'], ['DUID']),
    'MNSP_INTERCONNECTOR': ('versioned', ['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION',
                            'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'], ['INTERCONNECTORID', 'LINKID']),
    'INTERCONNECTORCONSTRAINT': ('interconnector', ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT',
                                 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'], ['INTERCONNECTORID']),
    'LOSSMODEL': ('interconnector', ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'], ['INTERCONNECTORID']),
    'LOSSFACTORMODEL': ('interconnector', ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'], ['INTERCONNECTORID']),
    'GENCONDATA': ('constraint', ['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'CONSTRAINTTYPE', 'GENERICCONSTRAINTWEIGHT'],
                   ['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'SPDREGIONCONSTRAINT': ('constraint', ['REGIONID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE', 'FACTOR'],
                            ['REGIONID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE']),
    'SPDCONNECTIONPOINTCONSTRAINT': ('constraint', ['CONNECTIONPOINTID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE', 'FACTOR'],
                                     ['CONNECTIONPOINTID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE']),
    'SPDINTERCONNECTORCONSTRAINT': ('constraint', ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'FACTOR'],
                                    ['INTERCONNECTORID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO']),
    'INTERCONNECTOR': ('all', ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], []),
}
KEYS = {'DISPATCHREGIONSUM': ['SETTLEMENTDATE', 'REGIONID'], 'DISPATCHLOAD': ['SETTLEMENTDATE', 'DUID'], 'DISPATCHPRICE': ['SETTLEMENTDATE', 'REGIONID'],
        'DISPATCHCONSTRAINT': ['SETTLEMENTDATE', 'CONSTRAINTID'], 'DISPATCHINTERCONNECTORRES': ['INTERCONNECTORID', 'SETTLEMENTDATE']}


def _rows_in_force(d, keys, now):
    d = d[d['EFFECTIVEDATE'] <= now]
    day = d.groupby(keys, as_index=False).agg({'EFFECTIVEDATE': 'max'})
    d = pd.merge(d, day, on=keys + ['EFFECTIVEDATE'])
    version = d.groupby(keys, as_index=False).agg({'VERSIONNO': 'max'})
    return pd.merge(d, version, on=keys + ['VERSIONNO'])


class _MissingData(Exception):
    pass


class Table:
    def __init__(self, name, con, kind, columns, keys):
        self.name, self.con, self.kind, self.columns, self.keys = name, con, kind, columns, keys

    def get_data(self, now=None):
        d = self.con.table(self.name)
        if self.kind == 'interval':
            return d[d['SETTLEMENTDATE'] == now]
        if self.kind == 'by interval':
            return d[d['INTERVAL_DATETIME'] == now]
        if self.kind == 'by day':
            # the market day of an interval: the one that started with the interval ending at 04:05
            from datetime import datetime, timedelta
            t = datetime.strptime(now, '%Y/%m/%d %H:%M:%S') - timedelta(minutes=245)
            return d[d['SETTLEMENTDATE'] == t.strftime('%Y/%m/%d') + ' 00:00:00']
        if self.kind == 'dated':
            d = d[(d['START_DATE'] <= now) & self.ends(d, now)]
            last = d.groupby(self.keys, as_index=False).agg({'START_DATE': 'max'})
            return pd.merge(d, last, on=self.keys + ['START_DATE'])
        if self.kind == 'versioned':
            return _rows_in_force(d, self.keys, now).loc[:, self.columns]
        if self.kind == 'interconnector':
            res = self.con.table('DISPATCHINTERCONNECTORRES')
            res = res[res['SETTLEMENTDATE'] == now].loc[:, ['INTERCONNECTORID']]
            return pd.merge(_rows_in_force(d, self.keys, now), res, on=['INTERCONNECTORID']).loc[:, self.columns]
        if self.kind == 'constraint':
            c = self.con.table('DISPATCHCONSTRAINT')
            c = c[c['SETTLEMENTDATE'] == now].loc[:, ['CONSTRAINTID', 'GENCONID_EFFECTIVEDATE', 'GENCONID_VERSIONNO']]
            d = pd.merge(d, c, left_on=['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO'],
                         right_on=['CONSTRAINTID', 'GENCONID_EFFECTIVEDATE', 'GENCONID_VERSIONNO'])
            return d.loc[:, self.columns]
        return d

    def ends(self, d, now):
        if self.con.ignore_end:     # the recorded finding: the end date of a record is not looked at
            return d['START_DATE'] <= now
        return d['END_DATE'] > now

    def url(self, year, month):
        m = str(month).zfill(2)
        base = ('http://nemweb.com.au/Data_Archive/Wholesale_Electricity/MMSDM/' + str(year) + '/MMSDM_' + str(year) + '_' + m
                + '/MMSDM_Historical_Data_SQLLoader/DATA/')
        if year * 12 + month >= 2024 * 12 + 8:
            return base + 'PUBLIC_ARCHIVE%23' + self.name + '%23FILE01%23' + str(year) + m + '010000.zip'
        return base + 'PUBLIC_DVD_' + self.name + '_' + str(year) + m + '010000.zip'

    def fetch(self, year, month):
        import requests
        import _sql
        r = requests.get(self.url(year, month))
        if r.status_code != 200:
            raise _MissingData()
        return _sql.csv(r.content)

    def add_data(self, year, month):
        d = self.fetch(year, month)
        if 'INTERVENTION' in d.columns:
            d = d[d['INTERVENTION'] == 0]
        d = d.loc[:, [c for c in self.columns if c in d.columns]]
        d = d.drop_duplicates(subset=KEYS[self.name])
        d.to_sql(self.name, con=self.con, if_exists='append', index=False)

    def set_data(self, year, month):
        if self.kind == 'constraint':
            return self.set_history(year, month)
        d = self.fetch(year, month)
        for c in self.columns:
            if c not in d.columns:
                d[c] = np.nan
        d.loc[:, self.columns].to_sql(self.name, con=self.con, if_exists='replace', index=False)

    def set_history(self, year, month):
        """rows of the latest month and, of earlier months, those whose key is not in a later one"""
        got = None
        for m in range(year * 12 + month - 1, 2010 * 12 - 1, -1):
            try:
                d = self.fetch(m // 12, m % 12 + 1)
            except _MissingData:
                continue
            if any([c not in d.columns for c in self.columns]):
                continue
            d = d.loc[:, self.columns]
            if got is None:
                got = d
            else:
                seen = got.loc[:, self.keys].drop_duplicates()
                seen['seen'] = 1
                d = pd.merge(d, seen, how='left', on=self.keys)
                got = pd.concat([got, d[d['seen'].isna()].drop('seen', axis=1)])
        if got is not None:
            got.to_sql(self.name, con=self.con, if_exists='replace', index=False)


def make(name, con):
    kind, columns, keys = SCHEMA[name]
    return Table(name, con, kind, columns, keys)


class DBManager:
    def __init__(self, con):
        self.con = con
        self.DISPATCHREGIONSUM = make('DISPATCHREGIONSUM', con)
        self.DISPATCHLOAD = make('DISPATCHLOAD', con)
        self.DISPATCHPRICE = make('DISPATCHPRICE', con)
        self.DISPATCHCONSTRAINT = make('DISPATCHCONSTRAINT', con)
        self.DISPATCHINTERCONNECTORRES = make('DISPATCHINTERCONNECTORRES', con)
        self.DUDETAILSUMMARY = make('DUDETAILSUMMARY', con)
        self.DUDETAIL = make('DUDETAIL', con)
        self.MNSP_INTERCONNECTOR = make('MNSP_INTERCONNECTOR', con)
        self.INTERCONNECTORCONSTRAINT = make('INTERCONNECTORCONSTRAINT', con)
        self.LOSSMODEL = make('LOSSMODEL', con)
        self.LOSSFACTORMODEL = make('LOSSFACTORMODEL', con)
        self.GENCONDATA = make('GENCONDATA', con)
        self.SPDREGIONCONSTRAINT = make('SPDREGIONCONSTRAINT', con)
        self.SPDCONNECTIONPOINTCONSTRAINT = make('SPDCONNECTIONPOINTCONSTRAINT', con)
        self.SPDINTERCONNECTORCONSTRAINT = make('SPDINTERCONNECTORCONSTRAINT', con)
        self.INTERCONNECTOR = make('INTERCONNECTOR', con)

    def create_tables(self):
        for t in self.con.names():
            pass

    def populate(self, start_year, start_month, end_year, end_month, verbose=True):
        for m in range(start_year * 12 + start_month - 2, end_year * 12 + end_month):
            for t in [self.DISPATCHINTERCONNECTORRES, self.DISPATCHREGIONSUM, self.DISPATCHLOAD, self.DISPATCHCONSTRAINT, self.DISPATCHPRICE]:
                t.add_data(m // 12, m % 12 + 1)
        for t in [self.INTERCONNECTOR, self.LOSSFACTORMODEL, self.LOSSMODEL, self.DUDETAILSUMMARY, self.INTERCONNECTORCONSTRAINT,
                  self.MNSP_INTERCONNECTOR, self.DUDETAIL]:
            t.set_data(end_year, end_month)


def InputsBySettlementDate(table_name, table_columns, table_primary_keys, con):
    return Table(table_name, con, 'interval', table_columns, [])


def InputsByIntervalDateTime(table_name, table_columns, table_primary_keys, con):
    return Table(table_name, con, 'by interval', table_columns, [])


def InputsByDay(table_name, table_columns, table_primary_keys, con):
    return Table(table_name, con, 'by day', table_columns, [])
