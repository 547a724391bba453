"""The SQL nempy sends to its database, translated to table operations which the interpreter follows."""
import re

KW = set('select from where group by order inner join left using on and or not as create table temp temporary drop if exists primary key '
         'max min distinct between asc desc limit delete insert count sum union all is null in cross outer having'.split())


class Unsupported(Exception):
    pass


def tokens(s):
    out = []
    pos = 0
    rx = re.compile(r"\s+|--[^\n]*|(?P<str>'(?:[^']|'')*')|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_\x01][A-Za-z_0-9\x01]*|\"[^\"]*\"|`[^`]*`|\[[^\]]*\])"
                    r"|(?P<op><=|>=|<>|!=|==|[=<>(),.;*?])")
    while pos < len(s):
        m = rx.match(s, pos)
        if not m:
            raise Unsupported('character %r' % s[pos])
        pos = m.end()
        if m.lastgroup == 'id' and m.group('id').lower() in KW:
            out.append(('kw', m.group('id').lower()))
        elif m.lastgroup == 'id':
            out.append(('id', m.group('id').strip('"`[]')))
        elif m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Parser:
    """emits the lines of a function body; every select leaves a table in a fresh variable"""

    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.n = 0
        self.params = 0
        self.lines = []

    def peek(self, *ws):
        return self.i < len(self.t) and self.t[self.i][1] in ws and self.t[self.i][0] in ('kw', 'op')

    def take(self, *ws):
        if self.peek(*ws):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, w):
        if not self.take(w):
            raise Unsupported('expected %s near %s' % (w, self.t[self.i:self.i + 4]))

    def name(self):
        if self.i < len(self.t) and (self.t[self.i][0] == 'id' or self.t[self.i][1] in ('temp', 'key', 'all')):
            self.i += 1
            return self.t[self.i - 1][1]
        raise Unsupported('name expected near %s' % (self.t[self.i:self.i + 4],))

    def fresh(self):
        self.n += 1
        return 't%d' % self.n

    def emit(self, s):
        self.lines.append(s)

    def column(self):
        c = self.name()
        if self.take('.'):
            c = self.name()
        return c

    def names(self):
        self.need('(')
        out = [self.column()]
        while self.take(','):
            out.append(self.column())
        self.need(')')
        return out

    # -------------------------------------------------- statements
    def statement(self):
        if self.take('drop'):
            self.need('table')
            if self.take('if'):
                self.need('exists')
            n = self.name()
            self.emit("con.drop(%r)" % n)
            self.emit("return None")
        elif self.take('create'):
            self.take('temporary', 'temp')
            self.need('table')
            if self.take('if'):
                raise Unsupported('if not exists')
            n = self.name()
            if self.take('as'):
                v = self.select()
                self.emit("con.create(%r, %s)" % (n, v))
            else:
                self.need('(')
                cols, keys = [], []
                while True:
                    if self.take('primary'):
                        self.need('key')
                        keys = self.names()
                    else:
                        cols.append(self.name())
                        while not self.peek(',', ')'):
                            self.i += 1
                    if not self.take(','):
                        break
                self.need(')')
                self.emit("con.create(%r, pd.DataFrame({%s}))" % (n, ', '.join('%r: []' % c for c in cols)))
                self.emit("con.key(%r, %r)" % (n, keys))
            self.emit("return None")
        elif self.take('delete'):
            self.need('from')
            n = self.name()
            if self.take('where'):
                self.emit("con.put(%r, con.table(%r)[~(%s)])" % (n, n, self.cond("con.table(%r)" % n)))
            else:
                self.emit("con.put(%r, con.table(%r).iloc[0:0])" % (n, n))
            self.emit("return None")
        else:
            self.emit("return " + self.select())
        self.take(';')
        if self.i < len(self.t):
            raise Unsupported('text after the statement: %s' % (self.t[self.i:self.i + 4],))
        return self.lines

    def select(self):
        self.need('select')
        distinct = self.take('distinct')
        items = [self.item()]
        while self.take(','):
            items.append(self.item())
        self.need('from')
        v = self.source()
        if self.take('where'):
            w = self.fresh()
            self.emit("%s = %s[%s]" % (w, v, self.cond(v)))
            v = w
        group = None
        if self.take('group'):
            self.need('by')
            group = [self.column()]
            while self.take(','):
                group.append(self.column())
        if any(x[0] == 'agg' for x in items) or group is not None:
            v = self.grouped(v, items, group or [])
        elif items != [('star',)]:
            if any(x[0] == 'star' for x in items):
                raise Unsupported('star among columns')
            w = self.fresh()
            self.emit("%s = %s.loc[:, %r]" % (w, v, [x[1] for x in items]))
            ren = {x[1]: x[2] for x in items if x[2] != x[1]}
            if ren:
                self.emit("%s = %s.rename(columns=%r)" % (w, w, ren))
            v = w
        if distinct:
            w = self.fresh()
            self.emit("%s = %s.drop_duplicates()" % (w, v))
            v = w
        if self.take('order'):
            self.need('by')
            cols, asc = [], []
            while True:
                cols.append(self.column())
                asc.append(self.take('asc', 'desc') != 'desc')
                if not self.take(','):
                    break
            w = self.fresh()
            self.emit("%s = %s.sort_values(%r, ascending=%r)" % (w, v, cols, asc))
            v = w
        if self.peek('limit', 'union', 'having'):
            raise Unsupported(self.t[self.i][1])
        return v

    def item(self):
        if self.take('*'):
            return ('star',)
        f = self.take('max', 'min', 'count', 'sum')
        if f:
            self.need('(')
            if self.take('*'):
                raise Unsupported('count')
            c = self.column()
            self.need(')')
            a = c
            if self.take('as'):
                a = self.name()
            elif self.i < len(self.t) and self.t[self.i][0] == 'id':
                a = self.name()
            return ('agg', c, a, f)
        c = self.column()
        a = c
        if self.take('as'):
            a = self.name()
        return ('col', c, a)

    def grouped(self, v, items, group):
        aggs = [x for x in items if x[0] == 'agg']
        bare = [x for x in items if x[0] == 'col' and x[1] not in group]
        w = self.fresh()
        if len(aggs) != 1 or aggs[0][3] not in ('max', 'min') or not group:
            raise Unsupported('grouping')
        _, c, a, f = aggs[0]
        if bare:
            # other columns come from the row that holds the extreme value
            self.emit("%s = %s.sort_values(%r, ascending=%r).drop_duplicates(subset=%r, keep='last')" % (w, v, c, f == 'max', group))
        else:
            self.emit("%s = %s.groupby(%r, as_index=False).agg({%r: %r})" % (w, v, group, c, f))
        cols = [x[1] for x in items]
        if len(set(cols)) != len(cols) or (a != c and a in cols):
            raise Unsupported('column twice')
        self.emit("%s = %s.loc[:, %r].rename(columns=%r)" % (w, w, cols, {x[1]: x[2] for x in items if x[1] != x[2]}))
        return w

    def table(self):
        if self.take('('):
            if self.peek('select'):
                v = self.select()
            else:
                v = self.source()
            self.need(')')
        else:
            v = self.fresh()
            self.emit("%s = con.table(%r)" % (v, self.name()))
        if self.take('as'):
            self.name()
        elif self.i < len(self.t) and self.t[self.i][0] == 'id':
            self.name()
        return v

    def source(self):
        v = self.table()
        while self.peek('inner', 'join', 'left', ','):
            how = 'inner'
            if self.take('left'):
                how = 'left'
                self.take('outer')
            else:
                self.take('inner')
            self.need('join')
            u = self.table()
            w = self.fresh()
            if self.take('using'):
                self.emit("%s = pd.merge(%s, %s, how=%r, on=%r)" % (w, v, u, how, self.names()))
            else:
                self.need('on')
                pairs = [self.pair()]
                while self.take('and'):
                    pairs.append(self.pair())
                self.emit("%s = con.join(%s, %s, %r, %r)" % (w, v, u, how, pairs))
            v = w
        return v

    def pair(self):
        par = self.take('(')
        a = self.column()
        if not self.take('=', '=='):
            raise Unsupported('join condition')
        b = self.column()
        if par:
            self.need(')')
        return (a, b)

    # -------------------------------------------------- conditions
    def cond(self, v):
        a = self.conj(v)
        while self.take('or'):
            a = '(%s | %s)' % (a, self.conj(v))
        return a

    def conj(self, v):
        a = self.atom(v)
        while self.take('and'):
            a = '(%s & %s)' % (a, self.atom(v))
        return a

    def atom(self, v):
        if self.take('not'):
            return '(~%s)' % self.atom(v)
        if self.peek('('):
            self.i += 1
            c = self.cond(v)
            self.need(')')
            return c
        a = self.operand(v)
        if self.take('between'):
            lo = self.operand(v)
            self.need('and')
            return '((%s >= %s) & (%s <= %s))' % (a, lo, a, self.operand(v))
        op = self.take('=', '==', '<', '<=', '>', '>=', '<>', '!=')
        if not op:
            raise Unsupported('condition')
        return '(%s %s %s)' % (a, {'=': '==', '<>': '!='}.get(op, op), self.operand(v))

    def operand(self, v):
        k, x = self.t[self.i]
        if k == 'op' and x == '?':
            self.i += 1
            self.params += 1
            return 'params[%d]' % (self.params - 1)
        if k == 'num':
            self.i += 1
            return x
        if k == 'str':
            self.i += 1
            x = x[1:-1].replace("''", "'")
            parts = re.split('(\x01[0-9]+\x01)', x)
            if len(parts) > 1:
                return '(' + ' + '.join('hole%s' % p.strip('\x01') if p.startswith('\x01') else repr(p) for p in parts if p) + ')'
            return repr(x)
        return '%s[%r]' % (v, self.column())


def body(text):
    return Parser(text).statement()
