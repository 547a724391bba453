"""Reference: two copies of the market model are kept, the one that is dispatched and the one that is priced."""
from mip import Model, xsum, minimize, CONTINUOUS, OptimizationStatus, BINARY, CBC, GUROBI


class InterfaceToSolver:
    def __init__(self, solver_name='CBC'):
        kinds = {'CBC': CBC, 'GUROBI': GUROBI}
        if solver_name not in kinds:
            raise ValueError()
        self.mip_model = Model('market', solver_name=kinds[solver_name])
        self.linear_mip_model = Model('market', solver_name=kinds[solver_name])
        self.variables = {}

    def add_variables(self, d):
        for i, lb, ub, t in zip(d['variable_id'], d['lower_bound'], d['upper_bound'], d['type']):
            kind = {'continuous': CONTINUOUS, 'binary': BINARY}[t]
            self.variables[i] = self.mip_model.add_var(lb=lb, ub=ub, var_type=kind, name=str(i))
            self.linear_mip_model.add_var(lb=lb, ub=ub, var_type=kind, name=str(i))

    def var(self, i):
        return self.mip_model.var_by_name(str(i))

    def add_sos_type_1(self, d):
        for k, g in d.groupby('sos_id'):
            self.mip_model.add_sos([(self.var(i), 1.0) for i in g['variable_id']], 1)

    def add_sos_type_2(self, d, ids, position):
        for k, g in d.groupby(ids):
            self.mip_model.add_sos([(self.var(i), p) for i, p in zip(g['variable_id'], g[position])], 2)

    def add_objective_function(self, d):
        total = minimize(sum([self.var(i) * c for i, c in zip(d['variable_id'], d['cost'])]))
        self.mip_model.objective = total
        self.linear_mip_model.objective = total

    def add_constraints(self, lhs, d):
        for c, g in lhs.groupby('constraint_id'):
            row = d[d['constraint_id'] == c]
            for kind, rhs in zip(row['type'], row['rhs']):
                x = sum([self.var(i) * a for i, a in zip(g['variable_id'], g['coefficient'])])
                if kind == '<=':
                    con = x <= rhs
                elif kind == '>=':
                    con = x >= rhs
                elif kind == '=':
                    con = x == rhs
                else:
                    raise ValueError()
                self.mip_model.add_constr(con, name=str(c))
                self.linear_mip_model.add_constr(con, name=str(c))

    def optimize(self):
        if self.mip_model.optimize() != OptimizationStatus.OPTIMAL:
            raise ValueError()

    def get_optimal_values_of_decision_variables(self, d):
        return d['variable_id'].apply(lambda i: self.mip_model.var_by_name(str(i)).x)

    def get_optimal_values_of_decision_variables_lin(self, d):
        return d['variable_id'].apply(lambda i: self.linear_mip_model.var_by_name(str(i)).x)

    def get_slack_in_constraints(self, d):
        return d['constraint_id'].apply(lambda i: getattr(self.mip_model.constr_by_name(str(i)), 'slack', 0.0))

    def price_constraints(self, ids):
        return {i: self.linear_mip_model.constr_by_name(str(i)).pi for i in ids}

    def update_rhs(self, i, by):
        c = self.linear_mip_model.constr_by_name(str(i))
        c.rhs = c.rhs + by

    def update_variable_bounds(self, d):
        for i, lb, ub in zip(d['variable_id'], d['lower_bound'], d['upper_bound']):
            v = self.mip_model.var_by_name(str(i))
            v.lb = lb
            v.ub = ub

    def disable_variables(self, d):
        for i in d['variable_id']:
            v = self.linear_mip_model.var_by_name(str(i))
            v.lb = 0.0
            v.ub = 0.0
