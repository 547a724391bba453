"""Random interpretation of value terms.

Two terms (the extracted one and the specified one) are compared by interpreting both over the same randomly chosen
finite relational structures (Gulwani & Necula's random interpretation, lifted from scalars to relations).  Numbers are
exact rationals, so algebraically equal expressions always agree and only a real difference can be observed.
The program under analysis is never executed: only terms extracted from its source are interpreted here.
"""
import datetime as _dt
import hashlib
import math
from fractions import Fraction

from . import frames as fr
from . import terms as tm
from .terms import T

NAN = float('nan')


class Undet(Exception):
    """value unknown to the analysis"""


class NotUnique(Undet):
    """a join taken for a lookup has several partners"""
    def __init__(self, site):
        super().__init__('several partners at ' + str(site))
        self.site = site


class Fault(Exception):
    """the program would raise here (type error, missing key)"""


class Tok(tuple):
    """uninterpreted value"""
    __slots__ = ()


class Lam:
    """function of one argument"""
    __slots__ = ('body', 'env')

    def __init__(self, body, env):
        self.body, self.env = body, env


class Row:
    __slots__ = ('rid', 'cols')

    def __init__(self, rid, cols):
        self.rid, self.cols = rid, cols


def isnan(v):
    return isinstance(v, float) and v != v


def isnum(v):
    return isinstance(v, (Fraction, float, int)) and not isinstance(v, bool)


def asnum(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    return v


def cval(v):
    """python constant -> model value"""
    if v is tm.NAN_SENTINEL:
        return NAN
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return v
        return Fraction(repr(v))
    if isinstance(v, tuple):
        return tuple(cval(x) for x in v)
    return v


def canon(v):
    """hashable canonical key of a value"""
    if isinstance(v, float):
        if v != v:
            return ('nan',)
        return ('f', repr(v))
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (list,)):
        return ('l',) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple(sorted(((repr(canon(k)), canon(x)) for k, x in v.items()), key=lambda z: z[0]))
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    return v


def h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def hval(*parts):
    """pseudo-random rational for an uninterpreted function application"""
    n = h(*parts)
    return Fraction(n % 20011 - 10005, 1 + (n >> 20) % 97)


_FREE = {}


def free(t):
    r = _FREE.get(t)
    if r is None:
        r = _FREE[t] = _free(t)
    return r


def _free(t):
    if t.op in ('cell', 'gen'):
        return frozenset((t.args[0],))
    if t.op == 'sameg':
        return frozenset(t.args)
    if t.op == 'lamx':
        return frozenset((-1,))
    if t.op == 'lam':
        return free(t.args[0]) - {-1}
    s = set()
    if t.op == 'br':
        for a in t.args[1:]:
            if isinstance(a, T):
                s |= free(a)
        for g, tab in reversed(t.args[0]):
            s.discard(g)
            s |= free(tab)
        return frozenset(s)
    for a in t.args:
        if isinstance(a, T):
            s |= free(a)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    s |= free(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            s |= free(y)
    return frozenset(s)


_PLAN = {}


def plan(gens, guard, bound):
    """literals of the guard by the earliest generator after which they can be evaluated"""
    key = (gens, guard, bound)
    p = _PLAN.get(key)
    if p is None:
        lits = guard.args if guard.op == 'and' else (() if guard is tm.TRUE else (guard,))
        todo = [(x, free(x)) for x in lits]
        have = set(bound)
        p = []
        ids = {g for g, _ in gens}
        first = [x for x, f in todo if not (f & ids - have)]
        p.append(first)
        todo = [(x, f) for x, f in todo if x not in first]
        # greedy generator order: tables must only depend on generators already chosen
        rest = list(gens)
        order = []
        while rest:
            best = None
            for k, (g, tab) in enumerate(rest):
                if free(tab) & {x for x, _ in rest} - {g}:
                    continue
                n = sum(1 for x, f in todo if not ((f & ids) - have - {g}))
                if best is None or n > best[0]:
                    best = (n, k)
            k = best[1] if best else 0
            g, tab = rest.pop(k)
            have.add(g)
            order.append((g, tab))
            ready = [x for x, f in todo if not ((f & ids) - have)]
            ready.sort(key=lambda z: (0 if z.op in ('eq', 'in', 'sameg') else 2 if z.op == 'agg' or z.op == 'not' else 1))
            todo = [(x, f) for x, f in todo if x not in ready]
            p.append(ready)
        p = (order, p, [x for x, _ in todo])
        _PLAN[key] = p
    return p


class Model:
    def __init__(self, tables=None, flags=None, syms=None, salt=0):
        self.tables = {n: [Row((n, i), dict(r, **{fr.POS: Fraction(i)})) for i, r in enumerate(rows)] for n, rows in (tables or {}).items()}
        self.flags = flags or {}
        self.syms = syms or {}
        self.salt = salt
        self.memo = {}
        self.hooks = {}
        self.steps = 0

    # ------------------------------------------------------------ terms
    def ev(self, t, env):
        op = t.op
        if op == 'const':
            return cval(t.value)
        f = free(t)
        key = (t.id, tuple(env[g].rid for g in sorted(f)) if f else ()) if f or op != 'cell' else None
        m = self.memo
        if key in m:
            r = m[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        try:
            r = self._ev(t, env)
        except (Undet, Fault) as e:
            m[key] = e
            raise
        m[key] = r
        return r

    def truth(self, t, env):
        v = self.ev(t, env)
        return self.asbool(v)

    def asbool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Tok):
            return bool(h('truth', v, self.salt) & 1)
        if v is None:
            return False
        if isnan(v):
            return True
        return bool(v)

    def _ev(self, t, env):
        op, a = t.op, t.args
        meth = getattr(self, 'o_' + op, None)
        if meth is not None:
            return meth(t, env)
        if op in _ARITH:
            return self.arith(t, env)
        if op in tm.CMPS:
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return self.cmp(op, x, y)
        if op in self.hooks:
            return self.hooks[op](self, t, env)
        if op == 'top':
            raise Undet(a[1])
        if op in ('undef',):
            raise Fault('unbound')
        raise Undet('operation ' + op)

    def o_cell(self, t, env):
        row = env[t.args[0]]
        try:
            return row.cols[t.args[1]]
        except KeyError:
            raise Fault('column %s' % (t.args[1],))
        except TypeError:
            raise Undet('cell')

    def o_bsym(self, t, env):
        n = t.args[0]
        if n not in self.flags:
            self.flags[n] = bool(h('flag', n, self.salt) & 1)
        return self.flags[n]

    def o_sym(self, t, env):
        n = t.args[0]
        if n in self.syms:
            v = self.syms[n]
            if callable(v):
                v = v(self)
            return v
        return Tok(('sym', n))

    def o_and(self, t, env):
        und = None
        for x in t.args:
            try:
                if not self.truth(x, env):
                    return False
            except (Undet, Fault) as e:
                und = und or e
        if und:
            raise und
        return True

    def o_or(self, t, env):
        und = None
        for x in t.args:
            try:
                if self.truth(x, env):
                    return True
            except (Undet, Fault) as e:
                und = und or e
        if und:
            raise und
        return False

    def o_not(self, t, env):
        return not self.truth(t.args[0], env)

    def o_truth(self, t, env):
        return self.truth(t.args[0], env)

    def o_ite(self, t, env):
        return self.ev(t.args[1] if self.truth(t.args[0], env) else t.args[2], env)

    def o_eq(self, t, env):
        return self.same(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def same(self, x, y):
        if isnan(x) or isnan(y):
            return False
        if isinstance(x, bool) and isnum(y):
            x = Fraction(int(x))
        if isinstance(y, bool) and isnum(x):
            y = Fraction(int(y))
        if isinstance(x, Tok) != isinstance(y, Tok):
            return False
        return x == y

    def o_sameg(self, t, env):
        return env[t.args[0]].rid == env[t.args[1]].rid

    def o_in(self, t, env):
        x = self.ev(t.args[0], env)
        return any(self.same(x, cval(v)) for v in t.args[1])

    def o_isna(self, t, env):
        v = self.ev(t.args[0], env)
        return v is None or isnan(v)

    def cmp(self, op, x, y):
        if isnan(x) or isnan(y):
            return False
        x, y = asnum(x), asnum(y)
        if isinstance(x, Tok) or isinstance(y, Tok):
            if isinstance(x, Tok) and x and x[0] in ('id', 'lastid') or isinstance(y, Tok) and y and y[0] in ('id', 'lastid'):
                raise Undet('order of generated ids')
            if x == y:
                return op in ('le', 'ge')
            if op in ('gt', 'le'):
                r = h('lt', canon(y), canon(x), self.salt) & 1
                return bool(r) if op == 'gt' else not r
            r = h('lt', canon(x), canon(y), self.salt) & 1
            return bool(r) if op == 'lt' else not r
        try:
            return bool(tm.apply_cmp(op, x, y))
        except TypeError:
            raise Fault('comparison of unlike types')

    def arith(self, t, env):
        return self.bin(t.op, self.ev(t.args[0], env), self.ev(t.args[1], env))

    def bin(self, op, x, y):
        x, y = asnum(x), asnum(y)
        if isinstance(x, Tok) or isinstance(y, Tok):
            return self.tokop(op, x, y)
        if x is None or y is None:
            if op in ('fmin', 'fmax'):
                return y if x is None else x
            return NAN
        if isinstance(x, dict) or isinstance(y, dict):
            raise Fault('arithmetic on a dict')
        if isinstance(x, str) or isinstance(y, str):
            if op == '+' and isinstance(x, str) and isinstance(y, str):
                return x + y
            raise Fault('arithmetic on text')
        if op == '**':
            if isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 64 and (x or y >= 0):
                return x ** int(y)
            if y == Fraction(1, 2) and isinstance(x, Fraction):
                return hval('sqrt', x)
            return self.tokop(op, x, y)
        if op == '%' and not y:
            return NAN
        if isinstance(x, _dt.timedelta) and isinstance(y, _dt.timedelta) and op == '/':
            us = _dt.timedelta(microseconds=1)
            return Fraction(x // us, y // us) if y else NAN
        if isinstance(x, _dt.timedelta) and isinstance(y, Fraction) and op in '*//':
            y = int(y) if y.denominator == 1 else float(y)
        if isinstance(y, _dt.timedelta) and isinstance(x, Fraction) and op == '*':
            x = int(x) if x.denominator == 1 else float(x)
        try:
            r = tm.apply_bin(op, x, y)
        except TypeError:
            raise Fault('operand types')
        if isinstance(r, int):
            r = Fraction(r)
        return r

    def tokop(self, op, x, y):
        # lastid + 1 and friends stay symbolic; everything else becomes a pseudo-random number
        if isinstance(x, Tok) and x and x[0] in ('id', 'lastid') or isinstance(y, Tok) and y and y[0] in ('id', 'lastid'):
            return Tok(('lastid', op, canon(x), canon(y)))
        if isnan(x) or isnan(y):
            return NAN
        if op in ('+', '*', 'min2', 'max2', 'fmin', 'fmax') and repr(canon(x)) > repr(canon(y)):
            x, y = y, x
        return Tok((op, canon(x), canon(y)))

    def numbering(self, sp):
        """numbers 0.. of the rows of a label space, in row order"""
        key = ('space', sp)
        if key not in self.memo:
            e = fr.SPACES.get(sp)
            if e is None:
                raise Undet('row numbers')
            d = {}
            for b in e[1]:
                for env in self.envs(b.gens, b.guard, {}):
                    d[(repr(b.bid),) + tuple(env[g].rid for g, _ in b.gens)] = len(d)
            self.memo[key] = d
        return self.memo[key]

    def o_pos(self, t, env):
        sp, bid = t.args[0], t.args[1]
        rids = tuple(env[g.args[0]].rid for g in t.args[2:])
        if sp.startswith('rid'):
            return Tok(('id', sp, bid) + rids + (Fraction(0),))
        while True:
            e = fr.SPACES.get(sp)
            if e is None:
                raise Undet('row numbers')
            if e[0] == 'rows':
                break
            sp, bid, indexed = e[1].get(bid) or self.undet('row numbers')
            if indexed:
                raise Undet('row numbers')
        try:
            return Fraction(self.numbering(sp)[(bid,) + rids])
        except KeyError:
            raise Undet('row numbers')

    def undet(self, why):
        raise Undet(why)

    def o_lastid(self, t, env):
        best = None
        for sp, off in t.args[0]:
            n = len(self.numbering(sp))
            if n:
                v = self.bin('+', self.ev(off, env), Fraction(n - 1))
                best = v if best is None or v > best else best
        return NAN if best is None else best

    def o_gen(self, t, env):
        return Tok(('rid',) + (env[t.args[0]].rid,))

    def o_tuple(self, t, env):
        return tuple(self.ev(x, env) for x in t.args)

    o_row = o_tuple

    # ------------------------------------------------------------ relations
    def table(self, tab, env):
        f = free(tab)
        key = ('tab', tab.id, tuple(env[g].rid for g in sorted(f)) if f else ())
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._table(tab, env)
        except (Undet, Fault) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def _table(self, tab, env):
        op = tab.op
        if op == 'input':
            if tab.args[0] not in self.tables:
                raise Undet('table ' + str(tab.args[0]))
            return self.tables[tab.args[0]]
        if op == 'distinct':
            keys = tab.args[1]
            out, seen = [], set()
            for vals in self.bag(tab.args[0], env):
                k = canon(tuple(vals))
                if k not in seen:
                    seen.add(k)
                    out.append(Row(('d', k), dict(zip(keys, vals))))
            return out
        if op == 'iter':
            v = self.ev(tab.args[0], env)
            if isinstance(v, (list, tuple)) and not isinstance(v, Tok):
                return [Row(('it', i, canon(x) if not isinstance(x, (dict, list)) else id(x)), {'item': x, fr.POS: Fraction(i)})
                        for i, x in enumerate(v)]
            if isinstance(v, dict):
                return [Row(('it', i, canon(x)), {'item': x, fr.POS: Fraction(i)}) for i, x in enumerate(v)]
            if isinstance(v, str):
                return [Row(('it', i, x), {'item': x, fr.POS: Fraction(i)}) for i, x in enumerate(v)]
            if isinstance(v, Tok):
                raise Undet('iteration over an unknown value')
            raise Fault('iteration over %s' % type(v).__name__)
        if op == 'dictiter':
            v = self.ev(tab.args[0], env)
            if isinstance(v, dict):
                return [Row(('kv', i, canon(k)), {'key': k, 'value': x, fr.POS: Fraction(i)}) for i, (k, x) in enumerate(v.items())]
            raise Undet('iteration over an unknown dict')
        if op == 'range':
            v = self.o_range(tab, env)
            return [Row(('it', i, x), {'item': x, fr.POS: Fraction(i)}) for i, x in enumerate(v)]
        if op == 'ite':
            return self.table(tab.args[1] if self.truth(tab.args[0], env) else tab.args[2], env)
        if op == 'whileseq':
            raise Undet('while loop')
        raise Undet('generator ' + op)

    def envs(self, gens, guard, env):
        order, lits, left = plan(gens, guard, frozenset(free(guard) - {g for g, _ in gens}))
        if not self.holds(lits[0], env):
            return
        yield from self._envs(order, lits, 0, env)

    def holds(self, lits, env):
        und = None
        for x in lits:
            try:
                if not self.truth(x, env):
                    return False
            except (Undet, Fault) as e:
                und = und or e
        if und is not None:
            raise und
        return True

    def _envs(self, order, lits, i, env):
        if i == len(order):
            yield env
            return
        g, tab = order[i]
        for row in self.table(tab, env):
            e = dict(env)
            e[g] = row
            if self.holds(lits[i + 1], e):
                yield from self._envs(order, lits, i + 1, e)

    def bag(self, rel, env):
        """list of value tuples of a rel/br term"""
        out = []
        for b in (rel.args if rel.op == 'rel' else (rel,)):
            if b.op != 'br':
                if b.op == 'ite':
                    b = b.args[1] if self.truth(b.args[0], env) else b.args[2]
                    if b.op in ('rel', 'br'):
                        out += self.bag(b, env)
                        continue
                raise Undet('relation ' + b.op)
            for e in self.envs(b.args[0], b.args[1], env):
                out.append(tuple(self.ev(v, e) for v in b.args[2:]))
        return out

    def o_agg(self, t, env):
        kind, rel = t.args[0], t.args[1]
        if kind == 'exists':
            und = None
            for b in rel.args:
                try:
                    for e in self.envs(b.args[0], b.args[1], env):
                        return True
                except (Undet, Fault) as ex:
                    und = und or ex
            if und:
                raise und
            return False
        vals = self.bag(rel, env)
        if kind == 'le1':
            if len(vals) > 1:
                raise NotUnique(t.args[2])
            return True
        if kind == 'count':
            return Fraction(len(vals))
        if kind == 'nunique':
            return Fraction(len({canon(v) for v in vals if not (len(v) == 1 and isnan(v[0]))}))
        if kind in ('first_by', 'last_by'):
            return self.first_by(kind, vals, t.args[2])
        xs = [v[0] for v in vals]
        if kind == 'only':
            if len(xs) > 1:
                raise NotUnique(t.args[2])
            if not xs:
                raise Fault('empty selection')
            return xs[0]
        if kind in ('first', 'last'):
            r = self.pick(kind, xs)
            if isinstance(r, Tok) and r[:1] == ('amb',) and fr.SORTED and fr.inputs_of(rel, set(), set()) & fr.SORTED:
                raise Undet('value depends on row order')
            return r
        ns = [asnum(x) for x in xs if not isnan(x) and x is not None]
        if any(isinstance(x, Tok) for x in ns):
            if kind in ('min', 'max', 'sum') and len(ns) == 1:
                return ns[0]
            if any(x and isinstance(x, Tok) and x[0] in ('id', 'lastid') for x in ns):
                if kind in ('max', 'min'):
                    return Tok(('lastid', kind) + tuple(sorted((canon(x) for x in ns), key=repr)))
            return Tok((kind,) + tuple(sorted((canon(x) for x in ns), key=repr)))
        if kind == 'sum':
            return sum(ns, Fraction(0))
        if kind in ('min', 'max'):
            if not ns:
                return NAN
            try:
                return min(ns) if kind == 'min' else max(ns)
            except TypeError:
                raise Fault('comparison of unlike types')
        if kind == 'mean':
            return sum(ns, Fraction(0)) / len(ns) if ns else NAN
        if kind == 'prod':
            r = Fraction(1)
            for x in ns:
                r *= x
            return r
        if kind == 'median':
            ns.sort()
            n = len(ns)
            return NAN if not n else ns[n // 2] if n % 2 else (ns[n // 2 - 1] + ns[n // 2]) / 2
        raise Undet('aggregate ' + kind)

    def pick(self, kind, xs, mark='amb'):
        if not xs:
            raise Fault('empty selection')
        cs = {canon(x) for x in xs}
        if len(cs) == 1:
            return xs[0]
        return Tok((mark, kind) + tuple(sorted(cs, key=repr)))

    def first_by(self, kind, vals, asc):
        if not vals:
            raise Fault('empty selection')
        if len({canon(v[0]) for v in vals}) == 1:
            return vals[0][0]
        best = []
        for v in vals:
            if not best:
                best = [v]
                continue
            c = self.keycmp(v[1:], best[0][1:], asc)
            if kind == 'last_by':
                c = -c
            if c < 0:
                best = [v]
            elif c == 0:
                best.append(v)
        return self.pick(kind, [v[0] for v in best], 'tie')

    def keycmp(self, a, b, asc):
        for x, y, up in zip(a, b, asc):
            if isnan(x) and isnan(y):
                continue
            if isnan(x):
                return 1
            if isnan(y):
                return -1
            if isinstance(x, Tok) or isinstance(y, Tok):
                if x == y:
                    continue
                raise Undet('order of unknown values')
            if x == y:
                continue
            try:
                lt = x < y
            except TypeError:
                raise Fault('comparison of unlike types')
            return (-1 if lt else 1) * (1 if up else -1)
        return 0

    def o_sortednth(self, t, env):
        vs = [self.ev(x, env) for x in t.args[1:]]
        if any(isinstance(v, Tok) for v in vs):
            if len({canon(v) for v in vs}) > 1:
                raise Undet('order of unknown values')
            return vs[0]
        try:
            return sorted(vs)[t.args[0]]
        except TypeError:
            raise Fault('comparison of unlike types')

    def o_dup(self, t, env):
        raise Undet('duplicated')

    def o_position(self, t, env):
        raise Undet('position')

    # ------------------------------------------------------------ containers and text
    def o_getitem(self, t, env):
        o, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return self.item(o, k)

    def item(self, o, k):
        if isinstance(o, Tok):
            return Tok(('item', canon(o), canon(k)))
        if isinstance(o, dict):
            if k in o:
                return o[k]
            raise Fault('KeyError %r' % (k,))
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Fraction) and k.denominator == 1:
                try:
                    return o[int(k)]
                except IndexError:
                    raise Fault('IndexError')
            raise Fault('TypeError: index')
        if o is None or isnum(o):
            raise Fault('TypeError: subscript')
        raise Undet('subscript')

    def o_haskey(self, t, env):
        o, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(o, Tok):
            return bool(h('haskey', canon(o), canon(k), self.salt) & 1)
        if isinstance(o, str):
            if isinstance(k, str):
                return k in o
            raise Fault('TypeError')
        if isinstance(o, dict):
            return k in o
        if isinstance(o, (list, tuple)):
            return any(self.same(x, k) for x in o)
        raise Fault('TypeError: not a container')

    def o_slice(self, t, env):
        o = self.ev(t.args[0], env)
        lo, hi, step = [self.ev(x, env) if isinstance(x, T) else None for x in t.args[1:4]]
        if isinstance(o, Tok):
            return Tok(('slice', o, canon(lo), canon(hi)))
        if isinstance(o, (str, list, tuple)):
            return o[slice(*[None if x is None else int(x) for x in (lo, hi, step)])]
        raise Fault('TypeError: slice')

    def o_len(self, t, env):
        o = self.ev(t.args[0], env)
        if isinstance(o, Tok):
            return hval('len', canon(o), self.salt)
        if isinstance(o, (str, list, tuple, dict)):
            return Fraction(len(o))
        raise Fault('TypeError: len')

    def o_range(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        if any(not isinstance(x, Fraction) for x in a):
            raise Undet('range')
        return [Fraction(i) for i in range(*[int(x) for x in a])]

    def text(self, v, spec=''):
        if isinstance(v, str):
            return format(v, spec) if spec else v
        if v is None:
            return 'None'
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            try:
                return format(int(v), spec) if spec else str(int(v))
            except ValueError:
                pass
        if isinstance(v, (_dt.datetime, _dt.timedelta, _dt.date)):
            return format(v, spec) if spec else str(v)
        return None

    def o_strfmt(self, t, env):
        v = self.ev(t.args[0], env)
        sp = t.args[1] if isinstance(t.args[1], str) else self.ev(t.args[1], env)
        s = self.text(v, sp)
        return s if s is not None else Tok(('strfmt', canon(v), sp))

    def o_strcat(self, t, env):
        vs = [self.ev(x, env) for x in t.args]
        if all(isinstance(v, str) for v in vs):
            return ''.join(vs)
        if any(v is None or isnum(v) for v in vs):
            raise Fault('TypeError: text concatenation')
        out = []
        for v in vs:        # flatten nested concatenations
            out += list(v[1:]) if isinstance(v, Tok) and v and v[0] == 'strcat' else [canon(v)]
        return Tok(('strcat',) + tuple(out))

    def o_pctfmt(self, t, env):
        s = t.args[0].value
        vs = [self.ev(x, env) for x in t.args[1:]]
        py = [int(v) if isinstance(v, Fraction) and v.denominator == 1 else float(v) if isinstance(v, Fraction) else v for v in vs]
        if any(isinstance(v, Tok) for v in vs):
            return Tok(('pctfmt', s) + tuple(canon(v) for v in vs))
        try:
            return s % tuple(py)
        except Exception:
            raise Fault('format')

    def o_join(self, t, env):
        vs = [self.ev(x, env) for x in t.args]
        if all(isinstance(v, str) for v in vs):
            return vs[0].join(vs[1:])
        return Tok(('join',) + tuple(canon(v) for v in vs))

    def o_strm(self, t, env):
        name = t.args[0]
        o = self.ev(t.args[1], env)
        args = [self.ev(x, env) for x in t.args[2:]]
        if isinstance(o, Tok) or any(isinstance(x, Tok) for x in args):
            return Tok(('strm', name, canon(o)) + tuple(canon(x) for x in args))
        if not isinstance(o, str):
            raise Fault('AttributeError: %s' % name)
        try:
            r = getattr(o, name)(*[int(x) if isinstance(x, Fraction) else x for x in args])
        except (TypeError, ValueError, AttributeError):
            raise Fault('text method')
        return Fraction(r) if isinstance(r, int) and not isinstance(r, bool) else r

    def o_conv(self, t, env):
        kind = t.args[0]
        v = self.ev(t.args[1], env)
        return self.convert(kind, v)

    def convert(self, kind, v):
        if kind in ('float', 'float64'):
            if isnum(v) or isinstance(v, bool):
                return asnum(v)
            if isinstance(v, str):
                try:
                    return Fraction(v.strip())
                except ValueError:
                    try:
                        return float(v)
                    except ValueError:
                        raise Fault('ValueError: float')
            if isinstance(v, Tok):
                return v
            raise Fault('TypeError: float')
        if kind in ('int', 'int64'):
            if isinstance(v, bool):
                return Fraction(int(v))
            if isinstance(v, Fraction):
                return Fraction(int(v))
            if isinstance(v, str):
                try:
                    return Fraction(int(v))
                except ValueError:
                    raise Fault('ValueError: int')
            if isinstance(v, Tok):
                return Tok(('int', v))
            raise Fault('int')
        if kind == 'bool':
            return self.asbool(v)
        if kind == 'str':
            s = self.text(v)
            return s if s is not None else Tok(('strfmt', canon(v), ''))
        return Tok(('conv', kind, canon(v)))

    def o_np(self, t, env):
        name = t.args[0]
        a = [self.ev(x, env) for x in t.args[1:]]
        x = asnum(a[0])
        if isinstance(x, Tok) or not isnum(x):
            if isnan(x):
                return NAN
            return Tok(('np', name) + tuple(canon(v) for v in a))
        if isnan(x):
            return NAN
        if name == 'abs':
            return abs(x)
        if name in ('ceil', 'floor') and isinstance(x, Fraction):
            return Fraction(math.ceil(x) if name == 'ceil' else math.floor(x))
        if name == 'sign':
            return Fraction((x > 0) - (x < 0))
        if name == 'round' and isinstance(x, Fraction):
            return Fraction(round(x, int(a[1]) if len(a) > 1 and a[1] is not None else 0))
        if name in ('isinf',):
            return x in (math.inf, -math.inf)
        if name in ('isfinite',):
            return x not in (math.inf, -math.inf)
        return Tok(('np', name) + tuple(canon(v) for v in a))

    def o_lam(self, t, env):
        return Lam(t.args[0], {g: env[g] for g in free(t)})

    def apply_lam(self, f, x):
        e = dict(f.env)
        e[-1] = Row(('x', canon(x)), {'x': x})
        return self.ev(f.body, e)

    def o_lamx(self, t, env):
        return env[-1].cols['x']

    def o_call(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        if isinstance(a[0], Lam):
            if len(a) != 2:
                raise Fault('TypeError')
            return self.apply_lam(a[0], a[1])
        if any(isnan(x) for x in a):
            return NAN
        return hval('call', *[canon(x) for x in a])

    def o_func(self, t, env):
        return Tok(('func', t.args[0]))

    o_funcval = o_func

    def o_kw(self, t, env):
        return ('kw', t.args[0], self.ev(t.args[1], env))

    def o_callable(self, t, env):
        v = self.ev(t.args[0], env)
        return isinstance(v, Lam) or isinstance(v, Tok) and v[:1] in (('func',), ('fn',))

    def o_isinstance(self, t, env):
        v = self.ev(t.args[0], env)
        k = t.args[1]
        if isinstance(v, Tok):
            return bool(h('isinstance', canon(v), k, self.salt) & 1)
        pt = {'str': str, 'list': list, 'dict': dict, 'tuple': tuple, 'bool': bool}.get(k)
        if pt:
            return isinstance(v, pt)
        if k in ('float', 'int', 'Number', 'float64', 'int64'):
            raise Undet('numeric type test')
        return False

    def o_type(self, t, env):
        if 'type' in self.hooks:
            return self.hooks['type'](self, t, env)
        v = self.ev(t.args[0], env)
        for n, p in (('str', str), ('list', list), ('dict', dict), ('bool', bool), ('tuple', tuple)):
            if isinstance(v, p) and not isinstance(v, Tok):
                return ('ext', 'builtins.' + n)
        if v is None:
            return ('ext', 'builtins.NoneType')
        raise Undet('type')

    def o_typeis(self, t, env):
        v = self.ev(t.args[0], env)
        k = t.args[1]
        m = {'str': str, 'list': list, 'dict': dict, 'NoneType': type(None), 'tuple': tuple, 'bool': bool}
        if isinstance(v, Tok):
            return False
        if k in m:
            return type(v) is m[k]
        raise Undet('type test')

    # ------------------------------------------------------------ time
    def pyargs(self, xs):
        args, kw = [], {}
        for x in xs:
            if isinstance(x, tuple) and not isinstance(x, Tok) and len(x) == 3 and x[0] == 'kw':
                kw[x[1]] = self.py(x[2])
            else:
                args.append(self.py(x))
        return args, kw

    def py(self, v):
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else float(v)
        return v

    def frompy(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float):
            return cval(v)
        return v

    def o_dtf(self, t, env):
        name = t.args[0]
        xs = [self.ev(x, env) for x in t.args[1:]]
        args, kw = self.pyargs(xs)
        if any(isinstance(x, Tok) for x in list(args) + list(kw.values())):
            return Tok(('dtf', name) + tuple(canon(x) for x in xs))
        try:
            if name == 'strptime':
                return _dt.datetime.strptime(*args, **kw)
            if name == 'datetime':
                return _dt.datetime(*args, **kw)
            if name == 'timedelta':
                return _dt.timedelta(*args, **kw)
            if name == 'date':
                return _dt.date(*args, **kw)
            if name == 'time':
                return _dt.time(*args, **kw)
            if name == 'combine':
                return _dt.datetime.combine(*args, **kw)
            if name == 'to_datetime' and isinstance(args[0], str):
                return _dt.datetime.fromisoformat(args[0].replace('/', '-'))
            if name == 'isoformat':
                return args[0].isoformat(*args[1:], **kw)
            if name in ('fromisoformat',):
                return _dt.datetime.fromisoformat(args[0])
        except (TypeError, ValueError):
            raise Fault('time value')
        raise Undet('time function ' + name)

    def o_dtm(self, t, env):
        name = t.args[0]
        o = self.ev(t.args[1], env)
        xs = [self.ev(x, env) for x in t.args[2:]]
        args, kw = self.pyargs(xs)
        if isinstance(o, Tok) or any(isinstance(x, Tok) for x in args):
            return Tok(('dtm', name, canon(o)) + tuple(canon(x) for x in xs))
        try:
            return self.frompy(getattr(o, name)(*args, **kw))
        except (TypeError, ValueError, AttributeError):
            raise Fault('time method')

    def o_dt(self, t, env):
        o = self.ev(t.args[1], env)
        if isinstance(o, Tok):
            return Tok(('dt', t.args[0], canon(o)))
        try:
            return self.frompy(getattr(o, t.args[0]))
        except AttributeError:
            raise Fault('AttributeError: ' + t.args[0])

    def o_fs(self, t, env):
        v = self.ev(t.args[1], env)
        return bool(h('fs', t.args[0], canon(v), self.salt) & 1)

    def o_mcall(self, t, env):
        xs = [self.ev(x, env) if isinstance(x, T) else x for x in t.args]
        return Tok(('mcall',) + tuple(canon(x) for x in xs))

    def o_extobj(self, t, env):
        return Tok(('ext',) + tuple(canon(self.ev(x, env)) if isinstance(x, T) else x for x in t.args))

    def o_xop(self, t, env):
        return Tok(('xop',) + tuple(canon(self.ev(x, env)) if isinstance(x, T) else x for x in t.args))

    def o_attr(self, t, env):
        o = self.ev(t.args[0], env)
        return Tok(('attr', canon(o), t.args[1]))

    # ------------------------------------------------------------ tables
    def frame(self, f, cols=None, pc=None, env=None):
        """rows of an abstract frame as dicts"""
        env = env or {}
        out = []
        names = [c for c in (cols or f.cols) if c in f.cols and self.truth(f.cols[c][1], env)]
        for i, b in enumerate(f.branches):
            for e in self.envs(b.gens, b.guard, env):
                out.append({c: self.ev(f.cols[c][0][i], e) for c in names})
        return out

    def series(self, s, env=None):
        out = []
        for b, t in zip(s.branches, s.terms):
            for e in self.envs(b.gens, b.guard, env or {}):
                out.append(self.ev(t, e))
        return out


_ARITH = tm.BINOPS
