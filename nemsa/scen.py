"""Scenario driver: interprets a client of nempy (source text) abstractly and collects what reaches the observation
points (solver calls, returned tables, raised exceptions)."""
import ast
import os
import textwrap

from . import frames as fr
from . import interp as ip
from . import libs
from . import terms as tm
from .frames import Series, Frame
from .interp import Interp, State, ModVal, FuncVal, FnCtx, FrameObj, ListObj, DictObj, Obj, Ref, Tup, Alt, Ext, ClassVal
from .terms import T, TRUE, FALSE, NONE, mk, const, conj

HERE = os.path.dirname(os.path.abspath(__file__))
SPECDIR = os.path.join(HERE, 'spec')
SRC = os.environ.get('NEMSA_SRC', '/repo/src/nempy')


def snap(v, st, I, depth=0):
    """heap-independent copy of a value"""
    v = I.simp(v, st)
    if isinstance(v, Ref):
        o = I.get(st, v)
        if isinstance(o, FrameObj):
            return o.frame
        if isinstance(o, ListObj):
            return ('list', [(it[0],) + tuple(snap(x, st, I, depth + 1) if k == (1 if it[0] == 'v' else 3) else x
                                              for k, x in enumerate(it) if k) for it in o.items])
        if isinstance(o, DictObj):
            out = []
            for e in o.entries:
                if e[0] == 'v':
                    out.append(('v', e[1], snap(e[2], st, I, depth + 1), e[3]))
                elif e[0] == 'each':
                    out.append(('each', e[1], e[2], e[3], snap(e[4], st, I, depth + 1)))
                else:
                    out.append(e)
            return ('dict', out)
        if isinstance(o, Obj):
            if depth > 6:
                return ('obj', o.cls.name, {})
            return ('obj', o.cls.name, {k: snap(x, st, I, depth + 1) for k, x in o.attrs.items()})
        return ('heap', type(o).__name__)
    if isinstance(v, Tup):
        return ('tuple', [snap(x, st, I, depth + 1) for x in v.items])
    if isinstance(v, Alt):
        f = I.frame_of(v, st)
        if f is not None:
            return f
        return ('alt', [(c, snap(x, st, I, depth + 1)) for c, x in v.alts])
    return v


class Ev:
    def __init__(self, kind, args, pc, gens, site, func, run):
        self.kind, self.args, self.pc, self.gens, self.site, self.func, self.run = kind, args, pc, gens, site, func, run


class Run:
    """one abstract run of a scenario"""

    def __init__(self, solver='stub', validate=False, intercepts=None, src=None):
        ics = dict(intercepts or {})
        ics.setdefault('_sa.event', self._event)
        ics.setdefault('_sa.apply', self._apply)
        ics.setdefault('_sa.value', self._value)
        ics.setdefault('_sa.rowid', self._rowid)
        ics.setdefault('_sa.flag', self._flag)
        ics.setdefault('_sa.snap', self._snapret)
        if not validate:
            ics.setdefault('nempy.spot_market_backend.dataframe_validator.DataFrameSchema.validate',
                           lambda I, f, a, k, st: NONE)
        self.I = Interp(src or SRC, ics)
        self.st = State({}, TRUE)
        self.events = []
        self.serial = 0     # problems handed to the solver so far
        self.solver = solver
        d = ModVal('<driver>', os.path.join(SPECDIR, 'driver.py'))
        d.env = self.I.new(self.st, ip.Env({}, None))
        f = FuncVal(ast.parse('pass'), d, None, '<driver>')
        self.I.cur.append(FnCtx(f, d.env))
        self.result = None
        self.inputs = {}

    # ---------------- intercepts
    def _event(self, I, f, args, kwargs, st):
        kind = I.libs.cval(args[0], st)
        if kind == 'solver':
            self.serial += 1
        self.events.append(Ev(kind, [snap(a, st, I) for a in args[1:]], st.pc, tuple(I.genstack), I.site(), I.fname(),
                              self.serial))
        return NONE

    def _apply(self, I, f, args, kwargs, st):
        op = I.libs.cval(args[0], st)
        x = I.simp(args[1], st)
        rest = [I.libs.scalar(a, st) for a in args[2:]]
        if op in ('xval', 'xlin', 'slack', 'dual'):
            rest.append(const(self.serial))
        if isinstance(x, Series):
            return x.map(lambda t: mk(op, t, *rest))
        return mk(op, I.libs.scalar(x, st), *rest)

    def _value(self, I, f, args, kwargs, st):
        name = I.libs.cval(args[0], st)
        if name == 'objective_value':
            name = '%s %d' % (name, self.serial)
        return mk('sym', name)

    def _flag(self, I, f, args, kwargs, st):
        return mk('bsym', I.libs.cval(args[0], st))

    def _rowid(self, I, f, args, kwargs, st):
        """a fresh row identity per row of a table"""
        F = I.frame_of(args[0], st)
        sp = fr.token('rid')
        return Series(F.branches, [fr.pos_term(sp, b) for b in F.branches], F.order, F.labels, 'series', F.index)

    def _snapret(self, I, f, args, kwargs, st):
        return args[0]

    # ---------------- set-up
    def load(self, name, path=None, src=None):
        m = ModVal(name, path or os.path.join(SPECDIR, name + '.py'))
        if src is None:
            with open(m.path) as fh:
                src = fh.read()
        self.I.modules[name] = m
        self.I.load_module(m, src, self.st)
        return m

    def module(self, name):
        m = self.I.module(name, self.st)
        if self.solver == 'stub' and 'solver_stub' not in self.I.modules:
            sm = self.I.modules.get('nempy.spot_market_backend.solver_interface')
            if sm is not None:
                stub = self.load('solver_stub')
                cls = self.I.get(self.st, stub.env).vars['InterfaceToSolver']
                env = self.I.get(self.st, sm.env)
                v = dict(env.vars)
                v['InterfaceToSolver'] = cls
                self.st.heap[sm.env.oid] = ip.Env(v, env.parent)
        return m

    def table(self, name, columns, pk=None, origin=True):
        """columns: list of names; 'x?' marks a column that may be absent"""
        cols = {}
        for c in columns:
            if c.endswith('?'):
                cols[c[:-1]] = mk('bsym', 'hascol:%s.%s' % (name, c[:-1]))
            else:
                cols[c] = TRUE
        if pk:
            fr.PKS[name] = tuple(pk)
        else:
            fr.PKS.pop(name, None)
        f = fr.input_frame(name, cols)
        ref = self.I.frame_ref(self.st, f, origin=name if origin else None)
        self.inputs[name] = (ref, f)
        return ref

    def run(self, src, fn='scenario', env=None, args=None):
        """interpret function `fn` of the scenario text; env: names available to it"""
        src = textwrap.dedent(src)
        m = ModVal('scenario_' + fn, os.path.join(SPECDIR, 'scenario.py'))
        m.env = None
        self.I.modules[m.name] = m
        self.I.load_module(m, src, self.st)
        e = self.I.get(self.st, m.env)
        v = dict(e.vars)
        v.update(env or {})
        self.st.heap[m.env.oid] = ip.Env(v, e.parent)
        f = v[fn]
        res, st = self.I.call(f, list(args or []), {}, self.st)
        self.ret, self.fst = res, st
        if st is not None:
            self.result = snap(res, st, self.I)
        return self.result
