"""Contract of an sqlite3 connection: named tables, statements run as table operations."""
import pandas as pd
import _sa
import _sql


class OperationalError(Exception):
    pass


class Connection:
    def __init__(self, tables):
        self.tables = tables
        self.keys = {}
        self.ignore_end = False

    def table(self, name):
        return self.tables[name]

    def create(self, name, d):
        if name in self.tables:
            raise OperationalError('table exists')
        self.tables[name] = d

    def put(self, name, d):
        self.tables[name] = d

    def key(self, name, k):
        self.keys[name] = k

    def drop(self, name):
        if name in self.tables:
            del self.tables[name]

    def join(self, a, b, how, pairs):
        return pd.merge(a, b, how=how, left_on=[x if x in a.columns else y for x, y in pairs],
                        right_on=[y if x in a.columns else x for x, y in pairs])

    def cursor(self):
        return self

    def execute(self, sql, params=()):
        return _sql.run(self, sql, params)

    def commit(self):
        pass

    def rollback(self):
        pass

    def close(self):
        pass


def read(sql, con, params=(), **k):
    return _sql.run(con, sql, params)


def to_sql(d, name, con, schema=None, if_exists='fail', index=True, **k):
    _sa.event('store', name, if_exists, index)
    if index:
        raise ValueError('stored index')
    if if_exists == 'replace':
        con.tables[name] = d.copy()
    elif if_exists == 'append':
        if name in con.tables:
            con.tables[name] = pd.concat([con.tables[name], d])
        else:
            con.tables[name] = d.copy()
    else:
        raise ValueError('table exists')


class _Response:
    def __init__(self, url):
        self.content = url
        self.status_code = _sql.status(url)
        self.ok = self.status_code == 200


def get(url, *a, **k):
    _sa.event('get', url)
    return _Response(url)


class _Zip:
    def __init__(self, content):
        self.content = content

    def namelist(self):
        return [self.content]

    def open(self, name, *a, **k):
        return self.content


def zip_file(content, *a, **k):
    return _Zip(content)


def bytes_io(x):
    return x


def read_csv(x, skiprows=None, **k):
    d = pd.concat([_sql.csv(x), pd.DataFrame({'I': ['C']})])
    if skiprows != 1:
        d = d.rename(columns={'SETTLEMENTDATE': 'C.1'})
    return d
