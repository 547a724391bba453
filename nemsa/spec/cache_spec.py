"""Reference for the cache of NEMDE files."""
import os
import requests
import zipfile
import io
import xmltodict
from time import sleep
from datetime import datetime, timedelta


VIOLATIONS = {'regional_demand': '@TotalAreaGenViolation', 'interocnnector': '@TotalInterconnectorViolation',
              'generic_constraint': '@TotalGenericViolation', 'ramp_rate': '@TotalRampRateViolation',
              'unit_capacity': '@TotalUnitMWCapacityViolation', 'energy_constraint': '@TotalEnergyConstrViolation',
              'energy_offer': '@TotalEnergyOfferViolation', 'fcas_profile': '@TotalASProfileViolation',
              'fast_start': '@TotalFastStartViolation', 'mnsp_ramp_rate': '@TotalMNSPRampRateViolation',
              'msnp_offer': '@TotalMNSPOfferViolation', 'mnsp_capacity': '@TotalMNSPCapacityViolation', 'ugif': '@TotalUIGFViolation'}


class MissingDataError(Exception):
    pass


class XMLCacheManager:
    def __init__(self, folder):
        self.cache_folder = folder
        self.xml = None
        self.interval = None

    def minutes_and_day(self):
        t = datetime.strptime(self.interval, '%Y/%m/%d %H:%M:%S')
        day = t - timedelta(minutes=245)
        return (day.hour * 60 + day.minute) // 5 + 1, str(day.year), str(day.month).zfill(2), str(day.day).zfill(2)

    def get_file_name(self):
        n, y, m, d = self.minutes_and_day()
        stem = 'NEMSPDOutputs_' + y + m + d + str(n).zfill(3) + '00'
        if not os.path.exists(self.cache_folder + '/' + stem + '.loaded') and os.path.exists(self.cache_folder + '/' + stem + '_OCD.loaded'):
            return stem + '_OCD.loaded'
        return stem + '.loaded'

    def get_file_path(self):
        return self.cache_folder + '/' + self.get_file_name()

    def interval_inputs_in_cache(self):
        return os.path.exists(self.get_file_path())

    def url(self):
        n, y, m, d = self.minutes_and_day()
        return ('https://www.nemweb.com.au/Data_Archive/Wholesale_Electricity/NEMDE/' + y + '/NEMDE_' + y + '_' + m
                + '/NEMDE_Market_Data/NEMDE_Files/NemSpdOutputs_' + y + m + d + '_loaded.zip')

    def load_interval(self, interval):
        self.interval = interval
        if not self.interval_inputs_in_cache():
            try:
                zipfile.ZipFile(io.BytesIO(requests.get(self.url()).content)).extractall(self.cache_folder)
            except zipfile.BadZipFile:
                sleep(200)
                zipfile.ZipFile(io.BytesIO(requests.get(self.url()).content)).extractall(self.cache_folder)
            if not self.interval_inputs_in_cache():
                raise MissingDataError()
        self.xml = xmltodict.parse(open(self.get_file_path()).read())

    def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
        day = datetime(start_year, start_month, start_day, 12) - timedelta(days=1)
        while day <= datetime(end_year, end_month, end_day, 12):
            self.load_interval(day.strftime('%Y/%m/%d %H:%M:%S'))
            day = day + timedelta(days=1)

    def populate(self, start_year, start_month, end_year, end_month, verbose=True):
        last = datetime(end_year + end_month // 12, end_month % 12 + 1, 1) - timedelta(days=1)
        self.populate_by_day(start_year, start_month, last.year, last.month, 1, last.day)

    def find_intervals_with_violations(self, limit, start_year, start_month, end_year, end_month):
        at = datetime(start_year, start_month, 1)
        end = datetime(end_year + 1, 1, 1) if end_month == 12 else datetime(end_year, end_month + 1, 1)
        found = {}
        while at <= end and len(found) < limit:
            name = at.strftime('%Y/%m/%d %H:%M:%S')
            self.interval = name
            if self.interval_inputs_in_cache():
                out = xmltodict.parse(open(self.get_file_path()).read())['NEMSPDCaseFile']['NemSpdOutputs']
                names = [n for n in VIOLATIONS if float(out['PeriodSolution'].get(VIOLATIONS[n], out['CaseSolution'].get(VIOLATIONS[n]))) > 0.0]
                if len(names) > 0:
                    found[name] = names
            at = at + timedelta(minutes=5)
        return found
