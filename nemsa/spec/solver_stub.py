"""Contract of nempy's solver interface: calls are recorded as events, answers are uninterpreted values.

InterfaceToSolver itself is decided against this contract by property C16.
"""
import _sa


class _Model:
    def __init__(self, name, owner):
        self.name = name
        self.owner = owner
        self.objective_value = _sa.value('objective_value')

    def optimize(self):
        self.owner.version = self.owner.version + 1
        _sa.event('optimize_' + self.name)
        return 'OPTIMAL'


class InterfaceToSolver:
    def __init__(self, solver_name='CBC'):
        _sa.event('solver', solver_name)
        self.version = 0
        self.variables = _sa.value('solver_variables')
        self.mip_model = _Model('mip', self)
        self.linear_mip_model = _Model('linear', self)

    def add_variables(self, decision_variables):
        _sa.event('add_variables', decision_variables)

    def add_objective_function(self, objective_function):
        _sa.event('add_objective_function', objective_function)

    def add_constraints(self, constraints_lhs, constraints_type_and_rhs):
        _sa.event('add_constraints', constraints_lhs, constraints_type_and_rhs)

    def add_sos_type_1(self, sos_variables):
        _sa.event('sos1', sos_variables)

    def add_sos_type_2(self, sos_variables, sos_id_columns, position_column):
        _sa.event('sos2', sos_variables, sos_id_columns, position_column)

    def optimize(self):
        _sa.event('optimize_mip')

    def get_optimal_values_of_decision_variables(self, variable_definitions):
        return _sa.apply('xval', variable_definitions['variable_id'])

    def get_optimal_values_of_decision_variables_lin(self, variable_definitions):
        return _sa.apply('xlin', variable_definitions['variable_id'], self.version)

    def get_slack_in_constraints(self, constraints_type_and_rhs):
        return _sa.apply('slack', constraints_type_and_rhs['constraint_id'])

    def price_constraints(self, constraint_ids_to_price):
        costs = {}
        for id in constraint_ids_to_price:
            costs[id] = _sa.apply('dual', id, self.version)
        return costs

    def update_rhs(self, constraint_id, violation_degree):
        _sa.event('update_rhs', constraint_id, violation_degree)

    def update_variable_bounds(self, new_bounds):
        _sa.event('update_variable_bounds', new_bounds)

    def disable_variables(self, variables):
        _sa.event('disable_variables', variables)
