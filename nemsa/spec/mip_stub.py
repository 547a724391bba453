"""Contract of python-mip as nempy uses it: what is done to a model is recorded, answers are uninterpreted."""
import _sa
import _mip


class _Solver:
    def set_mip_gap_abs(self, gap):
        pass

    def set_mip_gap(self, gap):
        pass


class Model:
    def __init__(self, name='', sense='MIN', solver_name='', solver=None):
        self.id = _mip.number()
        self.solver = _Solver()
        self.objective = 0.0
        self.objective_value = _mip.answer('objective', self.id)
        self.constrs = []
        self.vars = []
        _sa.event('model', self.id, solver_name)

    def add_var(self, name='', lb=0.0, ub=float('inf'), obj=0.0, var_type='C', column=None):
        if name == '':
            name = _mip.unnamed()
        _sa.event('var', self.id, name, lb, ub, obj, var_type)
        return _sa.apply('mipvar', name, self.id)

    def add_constr(self, lin_expr, name='', priority=None):
        _sa.event('con', self.id, name, lin_expr)
        return _sa.apply('mipcon', name, self.id)

    def add_sos(self, sos, sos_type):
        _sa.event('sos', self.id, sos, sos_type)

    def var_by_name(self, name):
        return _sa.apply('mipvar', name, self.id)

    def constr_by_name(self, name):
        return _sa.apply('mipcon', name, self.id)

    def optimize(self, max_seconds=float('inf'), max_nodes=1, max_solutions=1, max_seconds_same_incumbent=1, max_nodes_same_incumbent=1,
                 relax=False):
        _sa.event('solve', self.id, self.objective)
        return _mip.answer('status', self.id)

    def remove(self, x):
        _sa.event('remove', self.id)

    def copy(self):
        return Model('copy')
