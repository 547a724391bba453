"""C16: what nempy's solver interface does to the two python-mip models, and what it reads back from them."""
import random
import textwrap
from fractions import Fraction as F

from . import frames as fr
from . import lp
from .check import Obligation
from .interp import Ref
from .model import Fault, Model, NAN, Undet, canon, h
from .props_market import functions
from .scen import Run, snap
from .terms import NONE, T, const, ite, mk

TABLES = {
    'v': (['variable_id', 'lower_bound', 'upper_bound', 'type'], ['variable_id']),
    'cost': (['variable_id', 'cost'], ['variable_id']),
    'lhs': (['constraint_id', 'variable_id', 'coefficient', 'k'], ['k']),
    'rhs': (['constraint_id', 'type', 'rhs'], ['constraint_id']),
    'rhsv': (['constraint_id', 'type', 'rhs_variable_id'], ['constraint_id']),
    'sos1': (['variable_id', 'sos_id'], ['variable_id']),
    'sos2': (['interconnector', 'link', 'position', 'variable_id'], ['variable_id']),
    'some_v': (['variable_id', 'lower_bound', 'upper_bound'], ['variable_id']),
    'some_c': (['constraint_id', 'by'], ['constraint_id']),
}
STATUS = ['OPTIMAL'] * 5 + ['INFEASIBLE', 'UNBOUNDED', 'FEASIBLE', 'NO_SOLUTION_FOUND', 'ERROR', 'INT_INFEASIBLE']


class World:
    def __init__(self, seed, tables, status=True):
        r = self.r = random.Random(seed)
        ids = r.sample(range(0, 12), r.randint(1, 6))
        cids = r.sample(range(0, 12), r.randint(1, 4))
        rows = {}
        n = lambda: F(r.randint(-60, 60), r.choice([1, 1, 7, 12]))
        rows['v'] = [{'variable_id': F(i), 'lower_bound': n(), 'upper_bound': r.choice([n(), float('inf')]),
                      'type': r.choice(['continuous', 'continuous', 'binary'])} for i in ids]
        rows['cost'] = [{'variable_id': F(i), 'cost': n()} for i in r.sample(ids, r.randint(1, len(ids)))]
        rows['lhs'] = [{'constraint_id': F(r.choice(cids)), 'variable_id': F(r.choice(ids)), 'coefficient': n(), 'k': F(k)}
                       for k in range(r.randint(1, 9))]
        kinds = ['<=', '>=', '='] + (['=='] if r.random() < 0.1 else [])
        rows['rhs'] = [{'constraint_id': F(c), 'type': r.choice(kinds), 'rhs': n()} for c in cids]
        rows['rhsv'] = [{'constraint_id': F(c), 'type': r.choice(kinds), 'rhs_variable_id': F(r.choice(ids))} for c in cids]
        rows['sos1'] = [{'variable_id': F(i), 'sos_id': F(r.randint(0, 1))} for i in r.sample(ids, r.randint(1, len(ids)))]
        rows['sos2'] = [{'variable_id': F(i), 'interconnector': r.choice('IJ'), 'link': r.choice(['I', 'L']), 'position': n()}
                        for i in r.sample(ids, r.randint(1, len(ids)))]
        rows['some_v'] = [{'variable_id': F(i), 'lower_bound': n(), 'upper_bound': n()} for i in r.sample(ids, r.randint(1, len(ids)))]
        rows['some_c'] = [{'constraint_id': F(i), 'by': n()} for i in r.sample(cids, r.randint(1, len(cids)))]
        self.rows = {t: rows[t] for t in tables}
        for t in self.rows.values():
            r.shuffle(t)
        self.syms = {'status': 'mip.OptimizationStatus.' + (r.choice(STATUS) if status else 'OPTIMAL')}

    def model(self, salt):
        return Model(self.rows, {}, dict(self.syms), salt)


def mip_run():
    """an abstract run in which python-mip is replaced by its contract"""
    r = Run(solver='real')
    r.count = 0
    r.solves = {}

    def number(I, f, a, k, st):
        r.count += 1
        return const(r.count)

    def unnamed(I, f, a, k, st):
        r.count += 1
        return const('unnamed %d' % r.count)

    def answer(I, f, a, k, st):
        what = I.libs.cval(a[0], st)
        return mk('sym', 'status') if what == 'status' else mk('mipget', what, const(''), I.libs.scalar(a[1], st), const(0))

    def get(I, o, name, st):
        mid = o.args[1]
        return mk('mipget', name, o.args[0], mid, const(r.solves.get(mid, 0)))

    def put(I, o, name, v, st):
        r.events.append(type(ev0)(name, [o, v], st.pc, tuple(I.genstack), I.site(), I.fname(), 0))

    def event(I, f, a, k, st):
        if I.libs.cval(a[0], st) == 'solve':
            r.solves[I.libs.scalar(a[1], st)] = r.solves.get(I.libs.scalar(a[1], st), 0) + 1
        return r._event(I, f, a, k, st)

    def xsum(I, f, a, k, st):
        return I.libs.call_builtin('sum', [a[0]], {}, st)

    from .scen import Ev as E
    ev0 = E(None, [], None, (), '', '', 0)
    ics = r.I.intercepts
    ics.update({'_mip.number': number, '_mip.unnamed': unnamed, '_mip.answer': answer, '_mip.get': get, '_mip.set': put,
                '_sa.event': event, 'mip.xsum': xsum, 'mip.minimize': lambda I, f, a, k, st: mk('sense', 'min', I.libs.scalar(a[0], st)),
                'mip.maximize': lambda I, f, a, k, st: mk('sense', 'max', I.libs.scalar(a[0], st))})
    stub = r.load('mip_stub')
    cls = r.I.get(r.st, stub.env).vars['Model']
    ics['mip.Model'] = lambda I, f, a, k, st: I.call(cls, a, k, st)
    return r


class Replay(lp.Side):
    """the models as they are each time they are solved"""

    def replay(self):
        m = self.m
        roles = {}
        for e in self.run.events:
            if e.kind == 'solve' and e.args[0] not in roles and list(self.occurrences(e)):
                roles[e.args[0]] = len(roles)
        m.hooks['mipvar'] = lambda m, t, env: F(h('mv', canon(m.ev(t.args[0], env)), m.salt) % 2003 - 1001, 7)
        m.hooks['mipcon'] = lambda m, t, env: ('con', canon(m.ev(t.args[0], env)))
        m.hooks['mipin'] = lambda m, t, env: bool(h('in', canon(m.ev(t.args[0], env)), m.salt) % 3)

        def get(m, t, env):
            attr, name, mid, k = t.args
            if mid not in roles:
                raise Undet('answer of a model that is not solved')
            if attr in ('x', 'pi', 'slack', 'rc', 'objective') and not m.ev(k, env) and attr != 'objective':
                raise Undet('answer before solving')
            return F(h(attr, canon(m.ev(name, env)), roles[mid], canon(m.ev(k, env)), m.salt) % 4001 - 2000, 3)
        m.hooks['mipget'] = get
        state, out = {}, []
        for e in self.run.events:
            for env in self.occurrences(e):
                a = e.args
                mid = a[0].args[1] if e.kind in ('lb', 'ub', 'rhs', 'obj', 'var_type', 'name') else a[0]
                if mid not in roles:
                    continue
                s = state.setdefault(mid, {'vars': {}, 'cons': {}, 'sos': [], 'solver': None})
                val = lambda x: canon(lp.num(m.ev(x, env)))
                if e.kind == 'model':
                    s['solver'] = val(a[1])
                elif e.kind == 'var':
                    n = val(a[1])
                    if str(n).find('unnamed') >= 0 and val(a[4]) == canon(F(0)):
                        continue
                    if n in s['vars']:
                        raise Undet('two variables of one name')
                    s['vars'][n] = [val(a[2]), val(a[3]), val(a[5]), val(a[4])]
                elif e.kind == 'con':
                    n = val(a[1])
                    if n in s['cons']:
                        raise Undet('two constraints of one name')
                    s['cons'][n] = self.constraint(a[2], env)
                elif e.kind == 'sos':
                    items = lp.value(m, a[1], env)
                    s['sos'].append((repr(sorted(items[1], key=repr)), val(a[2])))
                elif e.kind in ('lb', 'ub', 'rhs'):
                    n = val(a[0].args[0])
                    if e.kind == 'rhs':
                        s['cons'][n] = (s['cons'].get(n), 'rhs changed', val(a[1]))
                    else:
                        s['vars'].setdefault(n, [None, None, None, None])[e.kind == 'ub'] = val(a[1])
                elif e.kind == 'solve':
                    o = a[1]
                    ob = ('min', val(o)) if not (isinstance(o, T) and o.op == 'sense') else (o.args[0], val(o.args[1]))
                    out.append((roles[mid], {'solver': s['solver'], 'objective': ob, 'vars': sorted((repr(k), repr(v)) for k, v in s['vars'].items()),
                                             'cons': sorted((repr(k), repr(v)) for k, v in s['cons'].items()), 'sos': sorted(s['sos'])}))
                else:
                    out.append((e.kind, repr([val(x) for x in a[1:]])))
        return out

    def constraint(self, t, env):
        m = self.m
        if t.op == 'ite':
            return self.constraint(t.args[1] if m.truth(t.args[0], env) else t.args[2], env)
        if t.op == 'not':
            k = self.constraint(t.args[0], env)
            raise Undet('negated constraint')
        if t.op not in ('le', 'ge', 'eq', 'lt', 'gt'):
            raise Undet('constraint ' + t.op)
        a, b = lp.num(m.ev(t.args[0], env)), lp.num(m.ev(t.args[1], env))
        d = m.bin('-', a, b)
        op = t.op
        if op in ('ge', 'gt'):
            op, d = {'ge': 'le', 'gt': 'lt'}[op], m.bin('-', F(0), d)
        if op == 'eq':
            d = max(d, m.bin('-', F(0), d))
        return (op, canon(d))


def compare(A, B, w, salt, stats):
    a, b = Replay(A, w.model(salt)), Replay(B, w.model(salt))
    for s in (a, b):
        s.observe_raise()
    if a.raised or b.raised:
        if bool(a.raised) != bool(b.raised):
            return ['raises %s at %s, reference does not raise' % (a.raised.name, a.raised.site)] if a.raised else \
                ['does not raise; reference raises ' + b.raised.name]
        return [] if a.raised.name == b.raised.name else ['raises %s at %s; reference raises %s' % (a.raised.name, a.raised.site, b.raised.name)]
    x, y = a.replay(), b.replay()
    names = {0: 'the dispatch model', 1: 'the pricing model'}
    for p, q in zip(x + [None] * len(y), y + [None] * len(x)):
        if p == q:
            continue
        if p is None or q is None or p[0] != q[0] or not isinstance(p[1], dict):
            return ['solver calls differ: %s, reference %s' % (lp.pretty(p), lp.pretty(q))]
        for k in p[1]:
            if p[1][k] != q[1][k]:
                u, v = (lp.multiset_diff(map(repr, p[1][k]), map(repr, q[1][k])) if isinstance(p[1][k], list) else (p[1][k], q[1][k]))
                return ['%s is solved with other %s: nempy %s; reference %s' % (names.get(p[0], 'model'), k, lp.pretty(u), lp.pretty(v))]
    stats['solves compared'] = stats.get('solves compared', 0) + len(x)
    ra, rb = lp.value(a.m, A.result), lp.value(b.m, B.result)
    return lp.result_diff(ra, rb) if ra != rb else []


class Interface(Obligation):
    rule = ('every variable (bounds, type), constraint (expression, sense), special ordered set and the objective of both models at each '
            'solve, and every value read back, equal the reference')

    def __init__(self, name, body, tables, weight=1.0, status=False):
        super().__init__(name)
        self.body, self.tables, self.weight, self.status = body, tables, weight, status

    def source(self):
        return 'def scenario(%s):\n' % ', '.join(self.tables) + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec):
        r = mip_run()
        m = r.load('solver_spec') if spec else r.module('nempy.spot_market_backend.solver_interface')
        args = [r.table(n, *TABLES[n]) for n in self.tables]
        r.run(self.source(), env={'si': m}, args=args)
        return r

    def prepare(self):
        fr.SORTED.clear()
        self.A, self.B = self.side(False), self.side(True)
        self.sorted = set(fr.SORTED)
        self.funcs = functions(self.A)

    def structure(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        w = World(k, self.tables, self.status)
        return compare(self.A, self.B, w, k, self.stats), lambda: {'tables': w.rows, 'symbols': w.syms}

    def describe(self):
        return self.source()


S = 's = si.InterfaceToSolver()\n'
V = 's.add_variables(v)\n'
C = 's.add_constraints(lhs, rhs)\n'
GO = 's.optimize()\ns.linear_mip_model.optimize()\n'


def obligations():
    o = Interface
    out = [
        o('variables', S + V + GO, ['v']),
        o('objective', S + V + 's.add_objective_function(cost)\n' + GO, ['v', 'cost']),
        o('constraints', S + V + C + GO, ['v', 'lhs', 'rhs'], weight=3),
        o('constraints with variables on both sides', S + V + "rhsv['rhs'] = rhsv.apply(lambda x: s.variables[x['rhs_variable_id']], axis=1)\n"
          's.add_constraints(lhs, rhsv)\n' + GO, ['v', 'lhs', 'rhsv'], weight=2),
        o('special ordered sets of type 1', S + V + 's.add_sos_type_1(sos1)\n' + GO, ['v', 'sos1']),
        o('special ordered sets of type 2', S + V + "s.add_sos_type_2(sos2, ['interconnector', 'link'], 'position')\n" + GO, ['v', 'sos2']),
        o('status of the solver', S + V + C + GO + 'return 1\n', ['v', 'lhs', 'rhs'], status=True),
        o('unknown solver', "s = si.InterfaceToSolver('HIGHS')\n" + V + GO, ['v']),
        o('other solver', "s = si.InterfaceToSolver('GUROBI')\n" + V + GO, ['v']),
        o('values', S + V + GO + "some_v['value'] = s.get_optimal_values_of_decision_variables(some_v)\n"
          "some_v['price'] = s.get_optimal_values_of_decision_variables_lin(some_v)\nreturn some_v\n", ['v', 'some_v']),
        o('slacks', S + V + C + GO + "some_c['slack'] = s.get_slack_in_constraints(some_c)\nreturn some_c\n", ['v', 'lhs', 'rhs', 'some_c']),
        o('prices', S + V + C + GO + "return s.price_constraints(list(some_c['constraint_id']))\n", ['v', 'lhs', 'rhs', 'some_c']),
        o('changed right-hand sides', S + V + C + GO + "some_c.apply(lambda x: s.update_rhs(x['constraint_id'], x['by']), axis=1)\n"
          "s.linear_mip_model.optimize()\nreturn s.price_constraints(list(some_c['constraint_id']))\n", ['v', 'lhs', 'rhs', 'some_c']),
        o('changed bounds', S + V + 's.update_variable_bounds(some_v)\n' + GO, ['v', 'some_v']),
        o('disabled variables', S + V + 's.optimize()\ns.disable_variables(some_v)\ns.linear_mip_model.optimize()\n', ['v', 'some_v']),
        o('objective value', S + V + 's.add_objective_function(cost)\n' + GO + 'return s.mip_model.objective_value\n', ['v', 'cost']),
        o('everything', S + V + 's.add_objective_function(cost)\n' + C + 's.add_sos_type_1(sos1)\n' + GO, ['v', 'cost', 'lhs', 'rhs', 'sos1']),
    ]
    return {'C16': out}
