"""A raw inputs loader whose tables are given."""


class Loader:
    def __init__(self, interval, tables):
        self.interval = interval
        self.tables = tables

    def get_unit_price_bids(self):
        return self.tables['price']

    def get_unit_volume_bids(self):
        return self.tables['volume']

    def get_unit_fast_start_parameters(self):
        return self.tables['fast']

    def get_unit_initial_conditions(self):
        return self.tables['initial']

    def get_UIGF_values(self):
        return self.tables['uigf']

    def get_unit_details(self):
        return self.tables['details']

    def get_agc_enablement_limits(self):
        return self.tables['agc']

    def get_regional_loads(self):
        return self.tables['regionsum']

    def get_interconnector_constraint_parameters(self):
        return self.tables['icon']

    def get_interconnector_definitions(self):
        return self.tables['idef']

    def get_interconnector_loss_parameters(self):
        return self.tables['lossfactor']

    def get_interconnector_loss_segments(self):
        return self.tables['lossmodel']

    def get_market_interconnector_link_bid_availability(self):
        return self.tables['mnspbids']

    def get_market_interconnectors(self):
        return self.tables['mnsp']

    def get_constraint_rhs(self):
        return self.tables['rhs']

    def get_constraint_type(self):
        return self.tables['ctype']

    def get_constraint_unit_lhs(self):
        return self.tables['ulhs']

    def get_constraint_region_lhs(self):
        return self.tables['rlhs']

    def get_constraint_interconnector_lhs(self):
        return self.tables['ilhs']

    def get_constraint_violation_prices(self):
        return self.tables['prices']

    def is_over_constrained_dispatch_rerun(self):
        return self.tables['ocd']
