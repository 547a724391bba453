"""What a scenario does, in one finite relational structure: the optimisation problem handed to the solver, what is read
back, the tables returned and the exceptions raised - in a form that does not depend on generated ids or row order."""
import math
from fractions import Fraction

from . import terms as tm
from .frames import Frame, Series
from .model import Lam, Model, Undet, Fault, Tok, canon, h, hval, isnan, NAN, Row
from .terms import T

BUILD = ('add_variables', 'add_objective_function', 'add_constraints', 'sos1', 'sos2')


def num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    return v


def short(v):
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else '%.6g' % float(v)
    if isinstance(v, tuple) and v and v[0] == 'id':
        b = __import__('re').findall(r"'melt\d+', '(\w+)'", str(v[2]))
        return '.'.join('%s[%s]' % tuple(r) if isinstance(r, tuple) and len(r) == 2 else str(r)[:40] for r in v[3:-1]) + (
            ' band ' + b[0] if b else '')
    return str(v)[:80]


class LP:
    """variables, constraints and special ordered sets of one side in one structure"""

    def __init__(self):
        self.vars = {}      # id -> (lb, ub, type)
        self.cost = {}      # id -> cost
        self.cons = {}      # id -> (type, rhs, {var: coef}, rhs_var)
        self.sos = []       # (kind, {var: position})
        self.problems = []
        self.vcol = {}
        self.ccol = {}
        self.lines = {}

    def colour(self, use_cost=True):
        """Weisfeiler-Lehman refinement: a name for every variable and constraint that only depends on the problem"""
        v = {k: h('v', canon(b), canon(self.cost.get(k, 0)) if use_cost else 0) for k, b in self.vars.items()}
        nodes = {('c', k): (h('c', canon(c[0]), canon(c[1])), c[2]) for k, c in self.cons.items()}
        for i, (kind, members) in enumerate(self.sos):
            nodes[('s', i)] = (h('s', kind), members)
        inc = {k: [] for k in v}
        for n, (c0, co) in nodes.items():
            for x, a in co.items():
                inc.setdefault(x, []).append((n, canon(a)))
                v.setdefault(x, h('undeclared'))
        c = {n: x[0] for n, x in nodes.items()}
        # an equation with zero right hand side means the same with all signs changed
        free = {n for n in nodes if n[0] == 'c' and self.cons[n[1]][0] == '=' and self.cons[n[1]][1] == 0
                and all(isinstance(a, Fraction) for a in nodes[n][1].values())}
        for _ in range(4):
            c2, sign = {}, {}
            for n in nodes:
                pos = sorted((v[x], repr(canon(a))) for x, a in nodes[n][1].items())
                sign[n] = 1
                if n in free:
                    neg = sorted((v[x], repr(canon(-a))) for x, a in nodes[n][1].items())
                    sign[n] = 0 if pos == neg else 1 if pos < neg else -1
                    pos = min(pos, neg)
                c2[n] = h(c[n], pos)
            s_ = lambda n, a: a if n not in free else abs(a) if sign[n] == 0 else a * sign[n]
            v2 = {x: h(v[x], sorted((c[n], repr(s_(n, a))) for n, a in inc[x])) for x in v}
            c, v = c2, v2
        self.vcol = v
        self.ccol = {n[1]: x for n, x in c.items() if n[0] == 'c'}
        self.scol = sorted(x for n, x in c.items() if n[0] == 's')

    def con_text(self, k):
        t, rhs, co = self.cons[k][:3]
        body = ' + '.join('%s*%s' % (short(a), short(x)) for x, a in sorted(co.items(), key=repr)[:8])
        return '%s %s %s  [row %s]' % (body or '0', t, short(rhs), short(k))

    def var_text(self, k):
        b = self.vars.get(k)
        return '%s in [%s, %s] %s cost %s' % ((short(k),) + (tuple(short(x) for x in b) if b else ('?', '?', '?'))
                                              + (short(self.cost.get(k, 0)),))


class Side:
    """one scenario run (implementation or reference) seen in one structure"""

    def __init__(self, run, model, use_cost=True):
        self.run, self.m = run, model
        self.lps = {}       # run number -> problem
        self.kinds = []
        self.other = []
        self.raised = None
        self.use_cost = use_cost

    def holds(self, t):
        return self.m.truth(t, {})

    def observe_raise(self, later=False):
        """later: errors that depend on what the solver answers are looked at again when the answers are known"""
        for e in self.run.I.lost:
            for _ in self.occurrences(e):
                raise Undet('effects of %s' % e.name)
        und = None
        out = []
        for r in self.run.I.raises:
            try:
                if self.holds(r.pc):
                    out.append(r)
            except (Undet, Fault) as e:
                und = und or e
        if out:
            self.raised = out[0]
            return
        if und and not (later and str(und).split()[-1] in ('xval', 'xlin', 'slack', 'dual')):
            raise und

    def occurrences(self, e):
        gens = tuple(g for gs, _ in e.gens for g in gs)
        if gens:
            guard = tm.conj(e.pc, *[c for _, c in e.gens])
            for env in self.m.envs(gens, guard, {}):
                yield env
        elif self.holds(e.pc):
            yield {}

    def build(self):
        self.later = []
        for e in self.run.events:
            if e.kind not in BUILD:
                self.later.append(e)
                if e.kind == 'solver' and self.holds(e.pc):
                    self.lps[e.run] = LP()
                continue
            self.lp = self.lps.get(e.run)
            for env in self.occurrences(e):
                if self.lp is None:
                    raise Undet('problem built before the solver interface')
                self.kinds.append(e.kind)
                getattr(self, 'b_' + e.kind)(e, env)
        for lp in self.lps.values():
            lp.colour(self.use_cost)

    def rows(self, a, cols, env=None):
        if not isinstance(a, Frame):
            raise Undet('argument is not a table')
        out = self.m.frame(a, cols, env=env)
        for r in out:
            for c in cols:
                if c not in r:
                    raise Undet('column %s absent' % c)
        return out

    def b_add_variables(self, e, env):
        for r in self.rows(e.args[0], ['variable_id', 'lower_bound', 'upper_bound', 'type'], env):
            k = canon(r['variable_id'])
            if k in self.lp.vars:
                self.lp.problems.append(('duplicate variable id', short(r['variable_id']), e.site))
            self.lp.vars[k] = (canon(num(r['lower_bound'])), canon(num(r['upper_bound'])), r['type'])

    def b_add_objective_function(self, e, env):
        for r in self.rows(e.args[0], ['variable_id', 'cost'], env):
            k = canon(r['variable_id'])
            c = num(r['cost'])
            self.lp.cost[k] = self.m.bin('+', self.lp.cost[k], c) if k in self.lp.cost else c

    def b_add_constraints(self, e, env):
        lp = self.lp
        lhs = {}
        for r in self.rows(e.args[0], ['constraint_id', 'variable_id', 'coefficient'], env):
            d = lhs.setdefault(canon(r['constraint_id']), {})
            k = canon(r['variable_id'])
            c = num(r['coefficient'])
            d[k] = self.m.bin('+', d[k], c) if k in d else c
        for r in self.rows(e.args[1], ['constraint_id', 'type', 'rhs'], env):
            k = canon(r['constraint_id'])
            if k in lp.cons:
                lp.problems.append(('duplicate constraint id', short(r['constraint_id']), e.site))
            co = lhs.get(k)
            if not co:
                continue
            co = {x: a for x, a in co.items() if not (isinstance(a, Fraction) and a == 0)}
            rhs = num(r['rhs'])
            if isinstance(rhs, Tok) and rhs[:1] == ('svar',):
                x = rhs[1]
                co = dict(co)
                co[x] = self.m.bin('-', co.get(x, Fraction(0)), Fraction(1))
                rhs = Fraction(0)
            lp.cons[k] = (r['type'], canon(rhs), co)

    def b_sos1(self, e, env):
        g = {}
        for r in self.rows(e.args[0], ['variable_id', 'sos_id'], env):
            g.setdefault(canon(r['sos_id']), {})[canon(r['variable_id'])] = Fraction(1)
        for k in g:
            self.lp.sos.append(('sos1', g[k]))

    def b_sos2(self, e, env):
        cols, pos = e.args[1], e.args[2]
        names = [x[1].value if isinstance(x[1], T) else x[1] for x in cols[1]] if isinstance(cols, tuple) else None
        pos = pos.value if isinstance(pos, T) else pos
        if names is None:
            raise Undet('sos2 columns')
        g = {}
        for r in self.rows(e.args[0], ['variable_id', pos] + names, env):
            g.setdefault(canon(tuple(r[n] for n in names)), {})[canon(r['variable_id'])] = r[pos]
        for k in g:
            self.lp.sos.append(('sos2', g[k]))

    def after(self):
        """events after the problem is built, in order"""
        for e in self.later:
            self.lp = self.lps.get(e.run)
            occ = list(self.occurrences(e))
            if not occ:
                continue
            bag = []
            for env in occ:
                if e.kind == 'disable_variables':
                    bag += [('var', self.vname(r['variable_id'])) for r in self.rows(e.args[0], ['variable_id'], env)]
                elif e.kind == 'update_rhs':
                    bag.append((self.cname(self.m.ev(e.args[0], env)), canon(num(self.m.ev(e.args[1], env)))))
                else:
                    bag.append(tuple(canon(self.m.ev(a, env)) if isinstance(a, T) else ('?',) for a in e.args))
            if e.kind == 'update_rhs' and self.other and self.other[-1][0] == e.kind:
                self.other[-1] = (e.kind, sorted(self.other[-1][1] + bag, key=repr), e.site)
                continue
            if e.kind == 'disable_variables':
                bag = sorted(set(bag))
                if self.other and self.other[-1][0] == e.kind:
                    self.other[-1] = (e.kind, sorted(set(self.other[-1][1]) | set(bag)), e.site)
                    continue
                if not bag:
                    continue
            self.other.append((e.kind, sorted(bag, key=repr), e.site))

    def vname(self, k):
        k = canon(k)
        if k not in self.lp.vcol:
            return ('unknown variable', repr(k)[:60])
        return self.lp.vcol[k]

    def cname(self, k):
        k = canon(k)
        return self.lp.ccol.get(k, ('dropped',))


def install(m, side):
    """solver answers as functions of the canonical name of the variable/constraint"""
    def problem(t):
        n = m.ev(t.args[-1], {})
        if n not in side.lps:
            raise Undet('answer of a solver that did not run')
        return side.lps[n]

    def vn(k, t):
        k = canon(k)
        lp = problem(t)
        if k in lp.vcol:
            return h(lp.vcol[k], m.ev(t.args[-1], {}))
        raise Undet('value of an unknown variable')

    def cn(k, t):
        return h(problem(t).ccol.get(canon(k), h('dropped')), m.ev(t.args[-1], {}))

    def answer(kind, n, *extra):
        x = h(kind, n, m.salt, *extra)
        mode = h('answers', kind, m.salt) % 3
        if mode == 1:       # mostly ordinary answers, so that one extreme one can be seen on its own
            return Fraction([0, 0, 1, 0, 0, 5, 60, 0, -120, 101][x % 10])
        return Fraction([0, 0, 1, -1, 2, 5, 60, 120, -120, 101][x % 10]) if (x >> 8) % 2 else \
            Fraction((x >> 16) % 2001 - 1000, 1 + (x >> 40) % 7)

    def xval(m, t, env):
        k = m.ev(t.args[0], env)
        return NAN if isnan(k) else answer('x', vn(k, t))

    def xlin(m, t, env):
        k = m.ev(t.args[0], env)
        return NAN if isnan(k) else answer('xl', vn(k, t), canon(m.ev(t.args[1], env)))

    def slack(m, t, env):
        k = m.ev(t.args[0], env)
        return NAN if isnan(k) else answer('s', cn(k, t))

    def dual(m, t, env):
        k = m.ev(t.args[0], env)
        return NAN if isnan(k) else answer('d', cn(k, t), canon(m.ev(t.args[1], env)))

    m.hooks.update(xval=xval, xlin=xlin, slack=slack, dual=dual)
    for k in [k for k, v in m.memo.items() if isinstance(v, Exception)]:
        del m.memo[k]


def base_hooks(m):
    def svar(m, t, env):
        return Tok(('svar', canon(m.ev(t.args[0], env))))
    m.hooks['solver_variable'] = svar
    item = m.item

    def sitem(o, k):
        if isinstance(o, Tok) and o == ('sym', 'solver_variables'):
            return Tok(('svar', canon(k)))
        return item(o, k)
    m.item = sitem


SAMPLES = (Fraction(0), Fraction(7, 3), Fraction(-11, 5), Fraction(40))


def value(m, v, env=None):
    """a returned value as a comparable structure; tables as bags of rows"""
    env = env or {}
    if isinstance(v, Frame):
        rows = m.frame(v, env=env)
        return ('table', sorted((tuple(sorted((str(c), cell(m, x)) for c, x in r.items())) for r in rows), key=repr))
    if isinstance(v, Series):
        return ('series', sorted((cell(m, x) for x in m.series(v)), key=repr))
    if isinstance(v, T):
        return cell(m, m.ev(v, env))
    if isinstance(v, tuple) and v:
        if v[0] == 'list':
            out = []
            for it in v[1]:
                if it[0] == 'v':
                    if len(it) > 2 and isinstance(it[2], T) and not m.truth(it[2], env):
                        continue
                    out.append(value(m, it[1], env))
                elif it[0] == 'each':
                    for e in m.envs(it[1], it[2], env):
                        out.append(value(m, it[3], e))
                else:
                    raise Undet('list part')
            return ('list', out)
        if v[0] == 'tuple':
            return ('list', [value(m, x, env) for x in v[1]])
        if v[0] == 'dict':
            out = {}
            for e in v[1]:
                if e[0] == 'v':
                    if m.truth(e[3], env):
                        out[repr(cell(m, m.ev(e[1], env)) if isinstance(e[1], T) else e[1])] = value(m, e[2], env)
                elif e[0] == 'each':
                    for en in m.envs(e[1], e[2], env):
                        out[repr(cell(m, m.ev(e[3], en)) if isinstance(e[3], T) else e[3])] = value(m, e[4], en)
                else:
                    raise Undet('dict part')
            return ('dict', sorted(out.items()))
        if v[0] == 'alt':
            for c, x in v[1]:
                if m.truth(c, env):
                    return value(m, x, env)
            raise Undet('no alternative')
    if v is None:
        return None
    raise Undet('value %s' % (v[0] if isinstance(v, tuple) and v else type(v).__name__,))


def cell(m, x):
    if isinstance(x, Lam):
        return ('function',) + tuple(canon(num(m.apply_lam(x, p))) for p in SAMPLES)
    return canon(num(x))


def multiset_diff(a, b):
    from collections import Counter
    ca, cb = Counter(a), Counter(b)
    return list((ca - cb).elements()), list((cb - ca).elements())


def raised_diff(A, B, aspects):
    """None: neither side raises"""
    if not A.raised and not B.raised:
        return None
    if bool(A.raised) != bool(B.raised):
        if A.raised:
            return ['raises %s at %s, reference does not raise' % (A.raised.name, A.raised.site)]
        return ['does not raise; reference raises %s' % B.raised.name] if 'raise' in aspects else []
    if A.raised.name != B.raised.name and 'raise' in aspects:
        return ['raises %s at %s; reference raises %s' % (A.raised.name, A.raised.site, B.raised.name)]
    return []


def compare(impl, spec, world, salt=0, aspects=('lp', 'cost', 'after', 'result', 'raise'), stats=None):
    """differences between the two sides in this structure ([]: none)"""
    A, B = Side(impl, world.model(salt), 'cost' in aspects), Side(spec, world.model(salt), 'cost' in aspects)
    for s in (A, B):
        base_hooks(s.m)
        s.observe_raise(True)
    d = raised_diff(A, B, aspects)
    if d is not None:
        return d
    for s in (A, B):
        s.build()
    if len(A.lps) != len(B.lps):
        raise Undet('number of solver runs')
    # number the problems from one on both sides
    diffs = []
    for s in (A, B):
        s.lps = dict(s.lps)
    for i, (na, nb) in enumerate(zip(sorted(A.lps), sorted(B.lps))):
        if na != nb:
            raise Undet('solver runs not aligned')
        x, y = A.lps[na], B.lps[nb]
        diffs = ['%s %s (%s)' % p for p in x.problems[:3]] or lp_diff(x, y, 'cost' in aspects)
        if diffs:
            if len(A.lps) > 1:
                diffs = ['dispatch %d: %s' % (i + 1, d) for d in diffs]
            break
    if diffs:
        if 'lp' not in aspects:
            raise Undet('the optimisation problem itself differs: ' + diffs[0][:120])
        return diffs
    if stats is not None:
        stats['variables'] = stats.get('variables', 0) + sum(len(x.vars) for x in A.lps.values())
        stats['constraints'] = stats.get('constraints', 0) + sum(len(x.cons) for x in A.lps.values())
    for s in (A, B):
        install(s.m, s)
        s.observe_raise()
    d = raised_diff(A, B, aspects)
    if d is not None:
        return d
    if 'after' in aspects:
        A.after()
        B.after()
        ka, kb = [(k, b) for k, b, s in A.other], [(k, b) for k, b, s in B.other]
        if ka != kb:
            for x, y in zip(ka + [None] * len(kb), kb + [None] * len(ka)):
                if x != y:
                    site = next((s for k, b, s in A.other if x and (k, b) == x), '')
                    diffs.append('after the problem is built: %s, reference %s %s' % (str(x)[:160], str(y)[:160], site))
                    break
    if 'result' in aspects and not diffs:
        ra, rb = value(A.m, impl.result), value(B.m, spec.result)
        if ra != rb:
            diffs += result_diff(ra, rb)
        if stats is not None:
            stats['results'] = stats.get('results', 0) + 1
    return diffs


UNORDERED = False       # the rows come from a database, which promises no order: depending on it is a difference


def order_only(x, y):
    """a value that depends on an order of rows the analysis does not know is no difference"""
    if UNORDERED:
        return
    n = [sum(repr(r).count("'amb'") for r in z) for z in (x, y)]
    if n[0] > n[1]:
        raise Undet('value depends on row order')


def result_diff(a, b, where='returned value'):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == 'list' and len(a[1]) == len(b[1]):
            out = []
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                if x != y:
                    out += result_diff(x, y, '%s[%d]' % (where, i))
            return out
        if a[0] in ('table', 'series'):
            x, y = multiset_diff([repr(r) for r in a[1]], [repr(r) for r in b[1]])
            order_only(x, y)
            return ['%s: rows only in nempy %s; only in reference %s' % (where, pretty(x[:2]), pretty(y[:2]))]
        if a[0] == 'dict':
            da, db = dict(a[1]), dict(b[1])
            ks = [k for k in sorted(set(da) | set(db)) if da.get(k) != db.get(k)]
            return ['%s: key %s: %s, reference %s' % (where, ks[0], pretty(da.get(ks[0], 'absent')), pretty(db.get(ks[0], 'absent')))]
    order_only([a], [b])
    return ['%s: %s, reference %s' % (where, pretty(a), pretty(b))]


def pretty(x):
    import re
    s = x if isinstance(x, str) else repr(x)
    s = re.sub(r"Fraction\((-?\d+), 1\)", r'\1', s)
    s = re.sub(r"Fraction\((-?\d+), (\d+)\)", r'\1/\2', s)
    return s[:300]


def shape(c):
    co = [repr(canon(a)) for a in c[2].values()]
    if c[0] == '=' and c[1] == 0 and all(isinstance(a, Fraction) for a in c[2].values()):
        co = min(sorted(co), sorted(repr(canon(-a)) for a in c[2].values()))
    return repr((canon(c[0]), c[1], sorted(co)))


def lp_diff(A, B, use_cost):
    diffs = []
    # variables first: if the declared variables differ nothing else can be matched
    va, vb = [(canon(b), canon(A.cost.get(k, 0)) if use_cost else 0) for k, b in A.vars.items()], \
             [(canon(b), canon(B.cost.get(k, 0)) if use_cost else 0) for k, b in B.vars.items()]
    x, y = multiset_diff([repr(z) for z in va], [repr(z) for z in vb])
    order_only(x, y)
    if x or y:
        return ['variables (bounds, type%s) only in nempy: %s; only in reference: %s' % (
            ', cost' if use_cost else '', pretty(x[:3]), pretty(y[:3]))]
    sa, sb = [shape(c) for c in A.cons.values()], [shape(c) for c in B.cons.values()]
    x, y = multiset_diff(sa, sb)
    order_only(x, y)
    if x or y:
        ka = [k for k, s in zip(A.cons, sa) if s in x][:2]
        kb = [k for k, s in zip(B.cons, sb) if s in y][:2]
        return ['constraints only in nempy: %s; only in reference: %s' % ([A.con_text(k) for k in ka], [B.con_text(k) for k in kb])]
    x, y = multiset_diff(A.ccol.values(), B.ccol.values())
    if x or y:
        ka = [k for k, c in A.ccol.items() if c in x][:2]
        kb = [k for k, c in B.ccol.items() if c in y][:2]
        return ['constraints apply to different variables: nempy %s; reference %s' % ([A.con_text(k) for k in ka], [B.con_text(k) for k in kb])]
    if A.scol != B.scol:
        return ['special ordered sets differ: nempy %s; reference %s' % (
            [(k, len(s)) for k, s in A.sos], [(k, len(s)) for k, s in B.sos])]
    x, y = multiset_diff(A.vcol.values(), B.vcol.values())
    if x or y:
        return ['variables play different roles: %s' % [A.var_text(k) for k, c in A.vcol.items() if c in x][:2]]
    return diffs
