"""C23: which file an interval is read from, where it is downloaded from, and what a population of the cache fetches."""
import datetime as dt
import os
import random
import textwrap

from . import lp
from .check import Obligation
from .model import Fault, Model, Undet, canon, h
from .props_market import functions
from .scen import Run, SPECDIR
from .spec import xml_names
from .terms import const, mk

STUBS = {'os.path.exists': 'exists', 'os.path.isfile': 'exists', 'pathlib.Path': 'path', 'Path': 'path', 'builtins.open': 'fopen',
         'requests.get': 'get', 'zipfile.ZipFile': 'zip_file', 'io.BytesIO': 'bytes_io', 'time.sleep': 'sleep', 'xmltodict.parse': 'parse'}


def file_run(concrete, docs=None):
    """an abstract run in which files, downloads and zip files are replaced by their contract"""
    r = Run()
    with open(os.path.join(SPECDIR, 'files_stub.py')) as fh:
        src = fh.read() + '\n\nworld = World(%r)\n' % concrete
    if docs is not None:
        src += 'world.docs = %r\n' % docs
        r.I.while_limit = 1000
    stub = r.load('files_stub', src=src)
    v = r.I.get(r.st, stub.env).vars
    for p, n in STUBS.items():
        r.I.intercepts[p] = lambda I, f, a, k, st, n=n: I.call(v[n], a, k, st)
    r.I.exact.add('zipfile.BadZipFile')
    return r


def moment(r):
    edges = [(4, 0), (4, 5), (4, 10), (0, 0), (0, 5), (23, 55), (3, 55), (12, 0)]
    y = r.choice([2013, 2018, 2019, 2020, 2024])
    d = dt.datetime(y, 1, 1) + dt.timedelta(days=r.choice([0, 0, 1, 30, 31, 58, 59, 60, 364, 365, r.randint(0, 364)]))
    hm = r.choice(edges) if r.random() < 0.6 else (r.randint(0, 23), 5 * r.randint(0, 11))
    return d.replace(hour=hm[0], minute=hm[1])


class World:
    def __init__(self, seed, names):
        r = random.Random(seed)
        self.syms = {n: moment(r).strftime('%Y/%m/%d %H:%M:%S') for n in names}

    def model(self, salt):
        m = Model({}, {}, dict(self.syms), salt)
        r = random.Random(salt)
        p, q = r.choice([0, 2, 5, 9]), r.choice([3, 9, 9])

        def exists(m, t, env):
            path, n = m.ev(t.args[0], env), m.ev(t.args[1], env)
            return h('exists', canon(path), canon(n), salt) % 10 < (p if n == 0 else q)
        m.hooks['fexists'] = exists
        m.hooks['badzip'] = lambda m, t, env: h('bad', canon(m.ev(t.args[0], env)), salt) % 4 == 0
        for op in ('ftext', 'content', 'parsed'):
            m.hooks[op] = lambda m, t, env, op=op: op + repr([canon(m.ev(x, env)) for x in t.args])
        return m


def happenings(side):
    out = []
    for e in side.run.events:
        if e.kind == 'sleep':
            continue
        for env in side.occurrences(e):
            out.append((e.kind, tuple(repr(canon(side.m.ev(x, env))) for x in e.args)))
    return out


class CacheClient(Obligation):
    rule = 'files looked up, addresses downloaded, folders extracted to, values returned and errors raised equal the reference'

    def __init__(self, name, body, intervals=('t',), weight=1.0):
        super().__init__(name)
        self.body, self.intervals, self.weight = body, list(intervals), weight

    def source(self):
        return 'def scenario(%s):\n' % ', '.join(self.intervals) + textwrap.indent(textwrap.dedent(self.body), '    ')

    def side(self, spec, concrete=False, env=None):
        r = file_run(concrete)
        m = r.load('cache_spec') if spec else r.module('nempy.historical_inputs.xml_cache')
        e = {'xml_cache': m}
        e.update(env or {})
        r.run(self.source(), env=e, args=[mk('sym', n) for n in self.intervals])
        return r

    def prepare(self):
        self.A, self.B = self.side(False), self.side(True)
        self.funcs = functions(self.A)

    def structure(self, k):
        w = World(k, self.intervals)
        a, b = lp.Side(self.A, w.model(k)), lp.Side(self.B, w.model(k))
        return self.compare(a, b), lambda: {'interval': w.syms, 'salt': k}

    def compare(self, a, b):
        for s in (a, b):
            s.observe_raise()
        x, y = happenings(a), happenings(b)
        ra, rb = a.raised, b.raised
        if bool(ra) != bool(rb):
            return ['raises %s at %s, reference does not raise' % (ra.name, ra.site)] if ra else ['does not raise; reference raises ' + rb.name]
        if ra and ra.name != rb.name:
            return ['raises %s at %s; reference raises %s' % (ra.name, ra.site, rb.name)]
        if x != y:
            i = next(i for i, (p, q) in enumerate(zip(x + [None], y + [None])) if p != q)
            return ['step %d: %s; reference %s' % (i, (x + ['nothing'])[i], (y + ['nothing'])[i])]
        self.stats['steps'] = self.stats.get('steps', 0) + len(x)
        if ra:
            return []
        va, vb = lp.value(a.m, self.A.result), lp.value(b.m, self.B.result)
        return lp.result_diff(va, vb) if va != vb else []

    def describe(self):
        return self.source()


class Populate(CacheClient):
    rule = 'every market day of the range and the one before it is downloaded, and no other'
    shapes = 24

    def __init__(self, name, by_day, weight=1.0):
        super().__init__(name, '', [], weight)
        self.by_day = by_day
        self.cache = {}

    def call(self, k):
        r = random.Random(k * 2 + self.by_day)
        start = moment(r)
        if self.by_day:
            end = start + dt.timedelta(days=r.choice([0, 0, 1, 2, 5, 9]))
            return ("x.populate_by_day(start_year=%d, start_month=%d, end_year=%d, end_month=%d, start_day=%d, end_day=%d, verbose=False)\n"
                    % (start.year, start.month, end.year, end.month, start.day, end.day))
        end = start + dt.timedelta(days=r.choice([0, 0, 31]))
        return 'x.populate(%d, %d, %d, %d, verbose=%r)\n' % (start.year, start.month, end.year, end.month, r.random() < .5)

    def prepare(self):
        self.funcs = set()
        self.analyse(0)

    def analyse(self, k):
        if k not in self.cache:
            self.body = "x = xml_cache.XMLCacheManager('cache')\n" + self.call(k)
            a, b = self.side(False, True), self.side(True, True)
            self.cache[k] = (self.body, a, b)
            self.funcs = sorted(set(self.funcs) | set(functions(a)))
        return self.cache[k]

    def structure(self, k):
        body, A, B = self.analyse(k % self.shapes)
        a, b = lp.Side(A, World(k, []).model(k)), lp.Side(B, World(k, []).model(k))
        for s in (a, b):
            s.observe_raise()
        if a.raised:
            return ['raises %s at %s' % (a.raised.name, a.raised.site)], lambda: {'call': body}
        got = {x for x in happenings(a) if x[0] == 'get'}
        want = {x for x in happenings(b) if x[0] == 'get'}
        self.stats['market days'] = self.stats.get('market days', 0) + len(want)
        miss = sorted(want - got)
        more = sorted(got - want)
        return (['not downloaded: %s' % miss[0][1]] if miss else ['downloaded though outside the range: %s' % more[0][1]] if more else []), \
            lambda: {'call': body}


class Search(CacheClient):
    rule = 'intervals found and violations named equal the reference'
    single = True
    shapes = 9

    def __init__(self, name, weight=1.0):
        super().__init__(name, '', [], weight)
        self.cache = {}

    def prepare(self):
        self.funcs = set()
        self.analyse(0)

    def document(self, r, bad):
        names = xml_names.VIOLATIONS
        of = r.sample(names, r.choice([1, 1, 2])) if bad else []
        case = {n: '%.1f' % (r.randint(1, 90) / 10) if n in of else r.choice(['0', '0.0', '-1.5']) for n in names}
        split = r.random() < 0.5
        period = {n: v for n, v in case.items() if not split or n in names[:9]}
        if split:
            case = {n: v for n, v in case.items() if n in names[9:]}
        return {'NEMSPDCaseFile': {'NemSpdOutputs': {'PeriodSolution': period, 'CaseSolution': case}}}

    def file(self, at, r):
        n = at - dt.timedelta(minutes=245)
        return 'NEMSPDOutputs_%s%03d00%s.loaded' % (n.strftime('%Y%m%d'), (n.hour * 60 + n.minute) // 5 + 1, r.choice(['', '', '_OCD']))

    def analyse(self, k):
        if k not in self.cache:
            r = random.Random(k)
            y, m = r.choice([2018, 2020]), r.choice([1, 6, 12])
            start = dt.datetime(y, m, 1)
            limit = r.choice([1, 2, 3])
            docs = {}
            # from shape 6 on the range is the single instant at which the month before ends
            last = (y, m) if k < 6 else (y - (m == 1), (m - 2) % 12 + 1)
            for i in range(46):
                x = r.random()
                if x < 0.7 or i >= 40 or k >= 6:
                    docs[self.file(start + dt.timedelta(minutes=5 * i), r)] = self.document(r, x < 0.3 or i >= 40 or k >= 6)
            self.body = ("x = xml_cache.XMLCacheManager('cache')\nfound = x.find_intervals_with_violations(%d, %d, %d, %d, %d)\n"
                         "return {k: sorted(v) for k, v in found.items()}\n" % (limit, y, m, *last))
            a, b = self.sides(docs)
            self.cache[k] = (self.body, a, b)
            self.funcs = sorted(set(self.funcs) | set(functions(a)))
        return self.cache[k]

    def sides(self, docs):
        out = []
        for spec in (False, True):
            r = file_run(True, docs)
            m = r.load('cache_spec') if spec else r.module('nempy.historical_inputs.xml_cache')
            r.run(self.source(), env={'xml_cache': m})
            out.append(r)
        return out

    def structure(self, k):
        body, A, B = self.analyse(k % self.shapes)
        a, b = lp.Side(A, World(k, []).model(k)), lp.Side(B, World(k, []).model(k))
        for s in (a, b):
            s.observe_raise()
        if a.raised:
            return ['raises %s at %s' % (a.raised.name, a.raised.site)], lambda: {'call': body}
        va, vb = lp.value(a.m, A.result), lp.value(b.m, B.result)
        self.stats['searches'] = self.stats.get('searches', 0) + 1
        return (lp.result_diff(va, vb) if va != vb else []), lambda: {'call': body}


N = "x = xml_cache.XMLCacheManager('cache')\n"


def obligations():
    return {'C23': [
        CacheClient('loading an interval', N + 'x.load_interval(t)\nreturn x.xml, x.interval\n', weight=2),
        CacheClient('loading two intervals', N + 'x.load_interval(t)\nx.load_interval(u)\nreturn x.xml\n', ['t', 'u']),
        CacheClient('file of an interval', N + 'x.interval = t\nreturn x.get_file_name(), str(x.get_file_path()), x.interval_inputs_in_cache()\n'),
        Populate('populating by day', True),
        Populate('populating by month', False),
        Search('searching for violations'),
    ]}
