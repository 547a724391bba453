"""Reference: which source each raw input comes from."""


class RawInputsLoader:
    def __init__(self, nemde_xml_cache_manager, market_management_system_database):
        self.xml = nemde_xml_cache_manager
        self.db = market_management_system_database
        self.interval = None

    def set_interval(self, interval):
        self.interval = interval
        self.xml.load_interval(interval)

    def get_unit_initial_conditions(self):
        return self.xml.get_unit_initial_conditions()

    def get_unit_volume_bids(self):
        return self.xml.get_unit_volume_bids()

    def get_unit_price_bids(self):
        return self.xml.get_unit_price_bids()

    def get_UIGF_values(self):
        return self.xml.get_UIGF_values()

    def get_violations(self):
        return self.xml.get_violations()

    def get_constraint_violation_prices(self):
        return self.xml.get_constraint_violation_prices()

    def get_constraint_rhs(self):
        return self.xml.get_constraint_rhs()

    def get_constraint_type(self):
        return self.xml.get_constraint_type()

    def get_constraint_region_lhs(self):
        return self.xml.get_constraint_region_lhs()

    def get_constraint_unit_lhs(self):
        return self.xml.get_constraint_unit_lhs()

    def get_constraint_interconnector_lhs(self):
        return self.xml.get_constraint_interconnector_lhs()

    def get_market_interconnector_link_bid_availability(self):
        return self.xml.get_market_interconnector_link_bid_availability()

    def get_unit_fast_start_parameters(self):
        return self.xml.get_unit_fast_start_parameters()

    def get_unit_details(self):
        return self.db.DUDETAILSUMMARY.get_data(self.interval)

    def get_agc_enablement_limits(self):
        return self.db.DISPATCHLOAD.get_data(self.interval)

    def get_market_interconnectors(self):
        return self.db.MNSP_INTERCONNECTOR.get_data(self.interval)

    def get_interconnector_constraint_parameters(self):
        return self.db.INTERCONNECTORCONSTRAINT.get_data(self.interval)

    def get_interconnector_definitions(self):
        return self.db.INTERCONNECTOR.get_data()

    def get_regional_loads(self):
        return self.db.DISPATCHREGIONSUM.get_data(self.interval)

    def get_interconnector_loss_segments(self):
        return self.db.LOSSMODEL.get_data(self.interval)

    def get_interconnector_loss_parameters(self):
        return self.db.LOSSFACTORMODEL.get_data(self.interval)

    def is_over_constrained_dispatch_rerun(self):
        return 'OCD' in self.xml.get_file_name()
