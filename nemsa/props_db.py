"""C25: what is read from the market management database, and what is written to it from downloaded months."""
import ast
import datetime as dt
import os
import random
import re
import textwrap
from fractions import Fraction as F

from . import frames as fr
from . import lp, sql
from .check import Obligation
from .interp import Tup, ListObj
from .model import Fault, Model, Undet, canon, h
from .props_cache import happenings
from .props_inputs import observe
from .props_market import functions
from .scen import Run, SPECDIR
from .terms import NONE, T, const, ite, mk

with open(os.path.join(SPECDIR, 'db_spec.py')) as fh:
    _tree = ast.parse(fh.read())
SCHEMA = next(ast.literal_eval(n.value) for n in _tree.body if isinstance(n, ast.Assign) and n.targets[0].id == 'SCHEMA')
PK = {n: (k or {'DISPATCHREGIONSUM': ['REGIONID'], 'DISPATCHLOAD': ['DUID'], 'DISPATCHPRICE': ['REGIONID'], 'DISPATCHCONSTRAINT': ['CONSTRAINTID'],
                'DISPATCHINTERCONNECTORRES': ['INTERCONNECTORID'], 'INTERCONNECTOR': ['INTERCONNECTORID']}[n]) for n, (kind, c, k) in SCHEMA.items()}
for n, (kind, c, k) in SCHEMA.items():
    PK[n] = list(PK[n]) + [x for x in ('SETTLEMENTDATE', 'START_DATE', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT') if x in c and x not in PK[n]]
PK['LOSSFACTORMODEL'].append('REGIONID')
for n in PK:
    PK[n] = list(dict.fromkeys(PK[n]))
EXAMPLES = {'BYINT': (['INTERVAL_DATETIME', 'DUID', 'VALUE'], ['INTERVAL_DATETIME', 'DUID']),
            'BYDAY': (['SETTLEMENTDATE', 'DUID', 'VALUE'], ['SETTLEMENTDATE', 'DUID'])}
DATES = {'SETTLEMENTDATE', 'EFFECTIVEDATE', 'START_DATE', 'END_DATE', 'GENCONID_EFFECTIVEDATE', 'INTERVAL_DATETIME'}
POOL = {'DUID': 'AB', 'REGIONID': 'NQ', 'INTERCONNECTORID': 'IJ', 'LINKID': 'LM', 'GENCONID': 'CD', 'CONSTRAINTID': 'CD', 'CONNECTIONPOINTID': 'PQ',
        'BIDTYPE': ['ENERGY', 'RAISEREG'], 'LOSSSEGMENT': [F(1), F(2)], 'VERSIONNO': [F(1), F(2), F(10)], 'GENCONID_VERSIONNO': [F(1), F(2), F(10)],
        'INTERVENTION': [F(0), F(0), F(1)]}


def fmt(t):
    return t.strftime('%Y/%m/%d %H:%M:%S')


class World:
    def __init__(self, seed, tables, flags, syms):
        r = self.r = random.Random(seed)
        now = dt.datetime(2019, 3, 2, r.choice([0, 4, 4, 12, 23]), r.choice([0, 5, 55]))
        self.syms = {}
        pool = [now + dt.timedelta(minutes=m) for m in (-5, 0, 0, 0, 5, -1440, 1440)] + [dt.datetime(2019, 3, d) for d in (1, 2, 3)] + \
               [dt.datetime(2018, 10, 9), dt.datetime(2999, 1, 1)]
        self.dates = [fmt(t) for t in r.sample(pool, 5)] + [fmt(now)]
        for s in syms:
            self.syms[s] = fmt(now) if s == syms[0] else r.choice(self.dates)
        self.flags = {k: r.random() < 0.7 for k in flags}
        self.rows = {n: self.table(*spec) for n, spec in tables.items()}

    def cell(self, c):
        r = self.r
        if c in DATES:
            return r.choice(self.dates)
        if c in POOL:
            return r.choice(POOL[c])
        return F(r.randint(-50, 50), r.choice([1, 7]))

    def table(self, cols, pk):
        out = {}
        for _ in range(self.r.choice([0, 1, 2, 4, 7, 9])):
            row = {c.rstrip('?'): self.cell(c.rstrip('?')) for c in cols}
            out[tuple(row[c] for c in pk) if pk else len(out)] = row
        return list(out.values())

    def model(self, salt):
        return Model(self.rows, dict(self.flags), dict(self.syms), salt)


URL = re.compile(r'(?:PUBLIC_DVD_(?P<a>\w+?)_|PUBLIC_ARCHIVE%23(?P<b>\w+)%23FILE01%23)(?P<y>\d{4})(?P<m>\d\d)010000\.zip$')


class DbClient(Obligation):
    rule = 'tables returned and stored, downloads requested and errors raised equal the reference in every structure'

    def __init__(self, name, body, tables=(), syms=('now',), weight=1.0, months=None, missing=(), quirk=False, optional=(), covers=False):
        super().__init__(name)
        self.body, self.syms, self.weight, self.months, self.missing, self.quirk = body, list(syms), weight, months or {}, missing, quirk
        self.optional, self.covers = optional, covers
        self.tables = list(tables)

    def source(self):
        head = 'def scenario(%s):\n' % ', '.join(self.syms + self.tables)
        head += '    con = Connection({%s})\n' % ', '.join('%r: %s' % (t, t) for t in self.tables)
        if self.quirk:
            head += '    con.ignore_end = QUIRK\n'
        return head + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec, quirk=False):
        r = Run()
        self.csv = getattr(self, 'csv', {})
        stub = r.load('sql_stub')
        v = r.I.get(r.st, stub.env).vars
        cache = {}

        def run(I, f, a, k, st):
            text, holes = [], []
            t = I.libs.scalar(a[1], st)
            for p in (t.args if t.op == 'strcat' else [t]):
                if p.op == 'const':
                    text.append(p.value)
                else:
                    text.append('\x01%d\x01' % len(holes))
                    holes.append(p)
            text = ''.join(text)
            key = (text, len(holes))
            if key not in cache:
                try:
                    lines = sql.body(text)
                except sql.Unsupported as e:
                    raise RuntimeError('SQL: %s' % e)
                src = 'import pandas as pd\ndef q(%s):\n' % ', '.join(['con', 'params'] + ['hole%d' % i for i in range(len(holes))])
                m = r.load('query%d' % len(cache), src=src + ''.join('    %s\n' % x for x in lines))
                cache[key] = I.get(r.st, m.env).vars['q'], m
                st.heap[m.env.oid] = r.st.heap[m.env.oid]
            f, m = cache[key]
            if m.env.oid not in st.heap:
                st.heap[m.env.oid] = r.st.heap[m.env.oid]
            return I.call(f, [a[0], a[2] if len(a) > 2 else Tup([])] + holes, {}, st)

        def key(url):
            t = URL.search(url)
            if not t:
                return None
            n = t.group('a') or t.group('b')
            y, m = int(t.group('y')), int(t.group('m'))
            new = y * 12 + m >= 2024 * 12 + 8
            ok = 'http://nemweb.com.au/Data_Archive/Wholesale_Electricity/MMSDM/%d/MMSDM_%d_%02d/MMSDM_Historical_Data_SQLLoader/DATA/' % (y, y, m)
            if bool(t.group('b')) != new or not url.startswith(ok) or n not in SCHEMA:
                return None
            return n, y, m

        def status(I, f, a, k, st):
            u = I.libs.cval(a[0], st)
            q = key(u)
            if q is None or q[0] in self.missing or (self.months and q[1:] not in self.months):
                return const(404)
            return ite(mk('bsym', 'published %s %d %d' % q), const(200), const(404))

        def csv(I, f, a, k, st):
            n, y, m = key(I.libs.cval(a[0], st))
            name = '%s_%d_%d' % (n, y, m)
            kind, cols, keys = SCHEMA[n]
            cols = [c + '?' if c in self.optional else c for c in cols] + ['I', 'OTHER'] + (['INTERVENTION?'] if kind == 'interval' else [])
            self.csv[name] = (cols, [] if kind == 'interval' else PK[n])
            fr.PKS.pop(name, None)
            if kind != 'interval':
                fr.PKS[name] = tuple(PK[n])
            present = {}
            for c in cols:
                present[c.rstrip('?')] = mk('bsym', 'hascol:%s.%s' % (name, c[:-1])) if c.endswith('?') else const(True)
            return I.frame_ref(st, fr.input_frame(name, present)), st

        ics = r.I.intercepts
        ics.update({'_sql.run': run, '_sql.status': status, '_sql.csv': csv})
        for p, n in {'pandas.read_sql_query': 'read', 'pandas.read_sql': 'read', '_sql.to_sql': 'to_sql', 'requests.get': 'get',
                     'zipfile.ZipFile': 'zip_file', 'io.BytesIO': 'bytes_io', 'pandas.read_csv': 'read_csv'}.items():
            ics[p] = lambda I, f, a, k, st, n=n: I.call(v[n], a, k, st)
        m = r.load('db_spec') if spec else r.module('nempy.historical_inputs.mms_db')
        env = {'db': m, 'Connection': v['Connection'], 'QUIRK': const(quirk)}
        args = [mk('sym', s) for s in self.syms] + [r.table(n, *self.spec_of(n)) for n in self.tables]
        r.run(self.source(), env=env, args=args)
        return r

    def spec_of(self, n):
        return EXAMPLES[n] if n in EXAMPLES else (SCHEMA[n][1], PK[n])

    def prepare(self):
        fr.SORTED.clear()
        self.A, self.B = self.side(False), self.side(True)
        self.Q = self.side(True, True) if self.quirk else None
        self.sorted = set(fr.SORTED)
        self.funcs = functions(self.A)
        self.flags = set()
        for r in (self.A, self.B):
            for t in list(T._tab.values()):
                if t.op == 'bsym' and isinstance(t.args[0], str) and (t.args[0].startswith('published') or t.args[0].startswith('hascol')):
                    self.flags.add(t.args[0])
        self.flags = sorted(self.flags)

    def structure(self, k):
        lp.UNORDERED = True
        fr.SORTED.clear()
        fr.SORTED.update(self.sorted)
        tabs = {n: self.spec_of(n) for n in self.tables}
        tabs.update(self.csv)
        w = World(k, tabs, self.flags, self.syms)
        where = lambda: {'tables': w.rows, 'symbols': w.syms, 'flags': w.flags}
        a, b = lp.Side(self.A, w.model(k)), lp.Side(self.B, w.model(k))
        if self.covers:
            w.flags = {f: True for f in w.flags}
            a, b = lp.Side(self.A, w.model(k)), lp.Side(self.B, w.model(k))
            for s in (a, b):
                s.observe_raise()
            if a.raised:
                return ['raises %s at %s' % (a.raised.name, a.raised.site)], where
            got = {x for x in happenings(a) if x[0] == 'get'}
            miss = sorted({x for x in happenings(b) if x[0] == 'get'} - got)
            return (['not downloaded: %s' % miss[0][1]] if miss else []), where
        d = observe(self.A, self.B, w, k, self.stats)
        if d and self.Q is not None and not observe(self.A, self.Q, w, k):
            d = ['KNOWN ' + str(x) for x in d]
        return d, where

    def describe(self):
        return self.source()


M = 'm = db.DBManager(con)\n'


def tables_for(n):
    kind = SCHEMA[n][0]
    extra = {'interconnector': ['DISPATCHINTERCONNECTORRES'], 'constraint': ['DISPATCHCONSTRAINT']}.get(kind, [])
    return [n] + extra


def example(cls, name):
    cols, pk = EXAMPLES[name]
    return 't = db.%s(table_name=%r, table_columns=%r, table_primary_keys=%r, con=con)\n' % (cls, name, cols, pk)


def obligations():
    o = DbClient
    out = []
    for n, (kind, cols, keys) in SCHEMA.items():
        arg = '' if kind == 'all' else 'now'
        out.append(o('reading ' + n, M + 'return m.%s.get_data(%s)\n' % (n, arg), tables_for(n), quirk=kind == 'dated'))
    out += [
        o('reading by interval date time', example('InputsByIntervalDateTime', 'BYINT') + 'return t.get_data(now)\n', ['BYINT']),
        o('reading by market day', example('InputsByDay', 'BYDAY') + 'return t.get_data(now)\n', ['BYDAY'], weight=2),
        o('reading twice', M + 'a = m.LOSSMODEL.get_data(now)\nb = m.LOSSMODEL.get_data(then)\nreturn a, b\n', tables_for('LOSSMODEL'), ['now', 'then']),
        o('reading two tables', M + 'a = m.DUDETAIL.get_data(now)\nb = m.MNSP_INTERCONNECTOR.get_data(now)\nc = m.LOSSFACTORMODEL.get_data(now)\nreturn a, b, c\n',
          ['DUDETAIL', 'MNSP_INTERCONNECTOR', 'LOSSFACTORMODEL', 'DISPATCHINTERCONNECTORRES'], weight=.5),
        o('adding a month', M + "m.DISPATCHREGIONSUM.add_data(2019, 3)\nreturn con.table('DISPATCHREGIONSUM'), m.DISPATCHREGIONSUM.get_data(now)\n",
          ['DISPATCHREGIONSUM']),
        o('adding two months', M + "m.DISPATCHPRICE.add_data(2024, 7)\nm.DISPATCHPRICE.add_data(2024, 8)\nreturn con.table('DISPATCHPRICE')\n",
          ['DISPATCHPRICE']),
        o('adding constraints', M + "m.DISPATCHCONSTRAINT.add_data(2019, 12)\nreturn con.table('DISPATCHCONSTRAINT')\n", ['DISPATCHCONSTRAINT']),
        o('setting a table', M + "m.DUDETAIL.set_data(2025, 1)\nreturn con.table('DUDETAIL'), m.DUDETAIL.get_data(now)\n", ['DUDETAIL']),
        o('setting a table with missing columns', M + "m.DUDETAILSUMMARY.set_data(2019, 3)\nreturn con.table('DUDETAILSUMMARY')\n", ['DUDETAILSUMMARY'],
          optional=['SECONDARY_TLF', 'SCHEDULE_TYPE']),
        o('setting a table from its history', M + "m.GENCONDATA.set_data(2010, 3)\nreturn con.table('GENCONDATA')\n", ['GENCONDATA']),
        o('setting a table from an older history', M + "m.SPDREGIONCONSTRAINT.set_data(2011, 1)\nreturn con.table('SPDREGIONCONSTRAINT')\n",
          ['SPDREGIONCONSTRAINT'], months={(2010, 10), (2011, 1), (2010, 12)}),
    ]
    hist = [n for n in SCHEMA if SCHEMA[n][0] == 'constraint']
    for y0, m0, y1, m1 in [(2019, 1, 2019, 1), (2019, 3, 2019, 5), (2018, 11, 2019, 2), (2018, 12, 2018, 12), (2024, 7, 2024, 8)]:
        out.append(o('populating %d/%d to %d/%d' % (y0, m0, y1, m1), M + 'm.populate(%d, %d, %d, %d, verbose=False)\n' % (y0, m0, y1, m1),
                     missing=hist, covers=True, weight=.1))
    out.append(Loader('raw inputs and their sources'))
    return {'C25': out}


def answer(k, at, name):
    return ('%s OCD %s' if k % 2 else '%s %s') % (at, name)


class Loader(Obligation):
    rule = 'each raw input is the one of its own source, for the interval last set'

    def side(self, spec):
        r = Run()
        src = r.load('sources_stub')
        v = r.I.get(r.st, src.env).vars
        m = r.load('loaders_spec') if spec else r.module('nempy.historical_inputs.loaders')
        r.run(self.source(), env={'loaders': m, 'Xml': v['Xml'], 'Db': v['Db']}, args=[mk('sym', 't'), mk('sym', 'u')])
        return r

    def source(self):
        calls = ', '.join('l.%s()' % m for m in self.methods())
        return 'def scenario(t, u):\n    x = Xml()\n    l = loaders.RawInputsLoader(x, Db())\n    l.set_interval(t)\n    a = [%s]\n    l.set_interval(u)\n' \
               '    b = [%s]\n    x.load_interval(t)\n    l.set_interval(u)\n    return a, b, [%s]\n' % (calls, calls, calls)

    def methods(self):
        with open(os.path.join(SPECDIR, 'loaders_spec.py')) as fh:
            cls = ast.parse(fh.read()).body[-1]
        return [f.name for f in cls.body if isinstance(f, ast.FunctionDef) and f.name not in ('__init__', 'set_interval')]

    def prepare(self):
        self.A, self.B = self.side(False), self.side(True)
        self.funcs = functions(self.A)

    def structure(self, k):
        w = World(k, {}, [], ['t', 'u'])

        class W:
            def model(self, salt):
                m = w.model(salt)
                m.hooks['answer'] = lambda m, t, env: answer(k, *(m.ev(x, env) for x in t.args))
                return m
        return observe(self.A, self.B, W(), k, self.stats), lambda: {'symbols': w.syms}

    def describe(self):
        return self.source()
