"""Sources of raw inputs whose answers are uninterpreted functions of the interval."""
from pathlib import Path
import _sa


class Xml:
    def __init__(self):
        self.interval = 'none'
        self.cache_folder = 'cache_OCD'

    def load_interval(self, interval):
        self.interval = interval

    def get_file_name(self):
        return _sa.apply('answer', self.interval, 'file')

    def get_file_path(self):
        return Path('cache_OCD') / self.get_file_name()

    def get_unit_initial_conditions(self):
        return _sa.apply('answer', self.interval, 'get_unit_initial_conditions')

    def get_unit_volume_bids(self):
        return _sa.apply('answer', self.interval, 'get_unit_volume_bids')

    def get_unit_price_bids(self):
        return _sa.apply('answer', self.interval, 'get_unit_price_bids')

    def get_UIGF_values(self):
        return _sa.apply('answer', self.interval, 'get_UIGF_values')

    def get_violations(self):
        return _sa.apply('answer', self.interval, 'get_violations')

    def get_constraint_violation_prices(self):
        return _sa.apply('answer', self.interval, 'get_constraint_violation_prices')

    def get_constraint_rhs(self):
        return _sa.apply('answer', self.interval, 'get_constraint_rhs')

    def get_constraint_type(self):
        return _sa.apply('answer', self.interval, 'get_constraint_type')

    def get_constraint_region_lhs(self):
        return _sa.apply('answer', self.interval, 'get_constraint_region_lhs')

    def get_constraint_unit_lhs(self):
        return _sa.apply('answer', self.interval, 'get_constraint_unit_lhs')

    def get_constraint_interconnector_lhs(self):
        return _sa.apply('answer', self.interval, 'get_constraint_interconnector_lhs')

    def get_market_interconnector_link_bid_availability(self):
        return _sa.apply('answer', self.interval, 'get_market_interconnector_link_bid_availability')

    def get_unit_fast_start_parameters(self):
        return _sa.apply('answer', self.interval, 'get_unit_fast_start_parameters')


class Table:
    def __init__(self, name):
        self.name = name

    def get_data(self, date_time='always'):
        return _sa.apply('answer', date_time, self.name)


class Db:
    def __init__(self):
        self.DISPATCHREGIONSUM = Table('DISPATCHREGIONSUM')
        self.DISPATCHLOAD = Table('DISPATCHLOAD')
        self.DISPATCHPRICE = Table('DISPATCHPRICE')
        self.DISPATCHCONSTRAINT = Table('DISPATCHCONSTRAINT')
        self.DISPATCHINTERCONNECTORRES = Table('DISPATCHINTERCONNECTORRES')
        self.DUDETAILSUMMARY = Table('DUDETAILSUMMARY')
        self.DUDETAIL = Table('DUDETAIL')
        self.MNSP_INTERCONNECTOR = Table('MNSP_INTERCONNECTOR')
        self.INTERCONNECTORCONSTRAINT = Table('INTERCONNECTORCONSTRAINT')
        self.LOSSMODEL = Table('LOSSMODEL')
        self.LOSSFACTORMODEL = Table('LOSSFACTORMODEL')
        self.GENCONDATA = Table('GENCONDATA')
        self.SPDREGIONCONSTRAINT = Table('SPDREGIONCONSTRAINT')
        self.SPDCONNECTIONPOINTCONSTRAINT = Table('SPDCONNECTIONPOINTCONSTRAINT')
        self.SPDINTERCONNECTORCONSTRAINT = Table('SPDINTERCONNECTORCONSTRAINT')
        self.INTERCONNECTOR = Table('INTERCONNECTOR')
