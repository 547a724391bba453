"""C21: effect analysis.  Every store into an object the caller owns is found while the client programs are interpreted; a
store that can happen and changes the table is a violation, at the site of the store."""
import textwrap

from . import bank, gen, gen_inputs, lp
from . import frames as fr
from .check import Obligation
from .interp import FrameObj
from .model import Fault, Undet
from .props_market import Scenario, functions
from .props_inputs import IMPL
from .scen import Run
from .terms import FALSE, mk


def check_tables(r, m, owned):
    """changed caller tables in one structure"""
    s = lp.Side(r, m)
    s.observe_raise()
    out = []
    stores = [x for x in r.I.mutations if x[0] in owned]
    if s.raised:
        for org, ref, pc, gens, site, fn, old, new in stores:
            if gens:
                raise Undet('store under a loop before an error')
            if m.truth(pc, {}) and differ(m, old, new):
                out.append('%s modifies the table %s of its caller at %s, then raises %s' % (fn, org, site, s.raised.name))
        return out
    lp.install(m, s)
    for n in owned:
        ref, f = r.inputs[n]
        o = r.fst.heap[ref.oid]
        if o.frame is not f and differ(m, f, o.frame):
            at = sorted({(x[5], x[4]) for x in stores if x[0] == n})
            out.append('table %s of the caller is modified: %s' % (n, ', '.join('%s at %s' % a for a in at)))
    return out


def differ(m, a, b):
    if cols(m, a) != cols(m, b):
        return True
    return lp.value(m, a) != lp.value(m, b)


def cols(m, f):
    return {n for n, (t, p) in f.cols.items() if m.truth(p, {})}


class Unchanged(Scenario):
    rule = 'effect analysis: no store reachable from the call changes a table the caller passed (rows, columns or values)'
    single = True

    def prepare(self):
        fr.SORTED.clear()
        self.A = self.side(False)
        self.sorted = set(fr.SORTED)
        self.funcs = functions(self.A)
        self.owned = [n for n in self.tables if any(x[0] == n and x[2] is not FALSE for x in self.A.I.mutations)]
        self.stats['tables passed'] = len(self.tables)
        self.stats['tables with reaching stores'] = len(self.owned)
        self.structures = bool(self.owned)
        if self.A.fst is None and not self.A.I.raises:
            raise Undet('no outcome')
        return []

    def structure(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        kw = {'opts': self.opts}
        if self.bands == 10:
            kw['bands'] = tuple(str(i) for i in range(1, 11))
        w = gen.world(k, self.schema(), **kw)
        return check_tables(self.A, w.model(k), self.owned), lambda: w.rows


class UnchangedInputs(Unchanged):
    def __init__(self, name, body, tables, mod, loader=()):
        Obligation.__init__(self, name)
        self.body, self.tables, self.mod, self.loader, self.opts, self.bands = body, tables, mod, list(loader), {}, None

    def source(self):
        t = self.tables + self.loader
        head = 'def scenario(%s):\n' % ', '.join(['interval'] + t)
        head += '    loader = Loader(interval, {%s})\n' % ', '.join('%r: %s' % (x, x) for x in self.loader)
        return head + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec):
        r = Run()
        ldr = r.load('loader_stub')
        m = r.module(IMPL[self.mod])
        args = [mk('sym', 'interval')] + [r.table(n, *gen_inputs.TABLES[n]) for n in self.tables] \
            + [r.table(n, *gen_inputs.TABLES[n], origin=False) for n in self.loader]
        r.run(self.source(), env={self.mod: m, 'Loader': r.I.get(r.st, ldr.env).vars['Loader']}, args=args)
        return r

    def structure(self, k):
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        w = gen_inputs.world(k, {n: gen_inputs.TABLES[n] for n in self.tables + self.loader}, opts={})
        return check_tables(self.A, w.model(k), self.owned), lambda: {'tables': w.rows}


def obligations():
    out = []
    for n in bank.B:
        kw = dict(bank.B[n])
        out.append(Unchanged(**kw))
    UT = ['price', 'volume', 'fast', 'initial', 'uigf', 'details', 'agc']
    out += [
        UnchangedInputs('fast start modes', 'u = units.UnitData(loader)\nreturn u.get_fast_start_profiles_for_dispatch(undisp)\n', ['undisp'],
                        'units', UT),
        UnchangedInputs('fast start modes, all columns', 'u = units.UnitData(loader)\n'
                        'return u.get_fast_start_profiles_for_dispatch(undisp, return_all_columns=True)\n', ['undisp'], 'units', UT),
        UnchangedInputs('ramp rates from the last interval', 'return time_sequential.construct_ramp_rate_parameters(last_dispatch, ts_ramp)\n',
                        ['last_dispatch', 'ts_ramp'], 'time_sequential'),
        UnchangedInputs('seed ramp rates', 'return time_sequential.create_seed_ramp_rate_parameters(ts_init, ts_ramp)\n',
                        ['ts_init', 'ts_ramp'], 'time_sequential'),
        UnchangedInputs('loss functions', 'return interconnectors.create_loss_functions(lcoef, dcoef, ldemand)\n',
                        ['lcoef', 'dcoef', 'ldemand'], 'interconnectors'),
    ]
    return {'C21': out}
