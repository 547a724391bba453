"""Hash-consed value terms (the value numbers of the analysis).

A term is (op, args); args are terms or plain hashable python data.  Constructors fold constants and normalise
booleans, nothing else: semantic equality is left to compare.py.
"""
import math
from fractions import Fraction

NAN = float('nan')


class T:
    __slots__ = ('op', 'args', 'id', '_gens', '_leaf', '_hastop')
    _tab = {}
    _n = 0

    def __repr__(self):
        return pretty(self)

    @property
    def is_const(self):
        return self.op == 'const'

    @property
    def value(self):
        return self.args[1]


def mk(op, *args):
    key = (op,) + tuple(args)
    t = T._tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.id = T._n
        t._gens = None
        t._leaf = None
        t._hastop = None
        T._n += 1
        T._tab[key] = t
    return t


def const(v):
    if isinstance(v, float) and v != v:
        return mk('const', 'nan', NAN_SENTINEL)
    if isinstance(v, bool):
        return mk('const', 'bool', v)
    return mk('const', type(v).__name__, v)


class _Nan(float):
    """a NaN that is equal to itself as a dict key"""
    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, _Nan)

    def __ne__(self, o):
        return not isinstance(o, _Nan)


NAN_SENTINEL = _Nan('nan')
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
NANC = const(NAN)
_topn = [0]


def top(reason):
    _topn[0] += 1
    return mk('top', _topn[0], reason)


def is_nan_const(t):
    return t.op == 'const' and t.args[0] == 'nan'


def has_top(t):
    if t._hastop is None:
        t._hastop = t.op == 'top' or any(isinstance(a, T) and has_top(a) for a in t.args)
    return t._hastop


def top_reasons(t, acc=None):
    acc = set() if acc is None else acc
    if not has_top(t):
        return acc
    if t.op == 'top':
        acc.add(t.args[1])
    for a in t.args:
        if isinstance(a, T):
            top_reasons(a, acc)
    return acc


_gid = [0]


def fresh_gid():
    _gid[0] += 1
    return _gid[0]


def gens_of(t):
    """all generator ids occurring (free or bound) in t"""
    if t._gens is None:
        s = set()
        if t.op in ('cell', 'gen'):
            s.add(t.args[0])
        elif t.op == 'br':
            for g, tab in t.args[0]:
                s.add(g)
                s |= gens_of(tab)
        elif t.op == 'sameg':
            s.update(t.args)
        for a in t.args:
            if isinstance(a, T):
                s |= gens_of(a)
        t._gens = frozenset(s)
    return t._gens


def bound_gens(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen:
        return acc
    seen.add(t)
    if t.op == 'br':
        for g, tab in t.args[0]:
            acc.add(g)
            bound_gens(tab, acc, seen)
    for a in t.args:
        if isinstance(a, T):
            bound_gens(a, acc, seen)
    return acc


def free_gens(t):
    return gens_of(t) - bound_gens(t)


def subst(t, m, memo=None):
    """rename generators by m: gid -> gid"""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    g = gens_of(t)
    if not any(k in g for k in m):
        memo[t] = t
        return t
    if t.op == 'br':
        gens = tuple((m.get(gg, gg), subst(tab, m, memo)) for gg, tab in t.args[0])
        r = mk('br', gens, *[subst(a, m, memo) for a in t.args[1:]])
    elif t.op in ('cell', 'gen'):
        r = mk(t.op, m.get(t.args[0], t.args[0]), *t.args[1:])
    elif t.op == 'sameg':
        a, b = sorted((m.get(t.args[0], t.args[0]), m.get(t.args[1], t.args[1])))
        r = TRUE if a == b else mk('sameg', a, b)
    else:
        r = rebuild(t, [subst(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def replace(t, m, memo=None):
    """replace sub-terms by m: T -> T (used for equality-class representatives and placeholders)"""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == 'br':
        gens = tuple((g, replace(tab, m, memo)) for g, tab in t.args[0])
        r = mk('br', gens, *[replace(a, m, memo) for a in t.args[1:]])
    elif not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        new = [replace(a, m, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
    memo[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == 'and':
        return conj(*args)
    if op == 'or':
        return disj(*args)
    if op == 'not':
        return neg(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'eq':
        return eq(*args)
    if op in BINOPS or op in CMPS:
        return app(op, *args)
    if op == 'rel':
        return mk('rel', *args)
    return mk(op, *args)


def contains(t, sub, seen=None):
    if t is sub:
        return True
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op == 'br':
        for g, tab in t.args[0]:
            if contains(tab, sub, seen):
                return True
    return any(isinstance(a, T) and contains(a, sub, seen) for a in t.args)


# ---------------------------------------------------------------- booleans
def truthy_const(t):
    v = t.value
    if v is NAN_SENTINEL:
        return True
    return bool(v)


BOOL_OPS = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'not', 'isna', 'hascol', 'sameg', 'in', 'isinstance',
            'haskey', 'truth', 'exists', 'callable', 'typeis', 'nonempty'}


def as_bool(t):
    if t.op == 'const':
        return TRUE if truthy_const(t) else FALSE
    if t.op in BOOL_OPS or t.op == 'top':
        return t
    if t.op == 'agg' and t.args[0] == 'exists':
        return t
    if t.op == 'bsym':
        return t
    if t.op == 'ite':
        return ite(t.args[0], as_bool(t.args[1]), as_bool(t.args[2]))
    return mk('truth', t)


_neg = {}


def neg(a):
    r = _neg.get(a)
    if r is None:
        r = _neg[a] = _negate(a)
    return r


def _negate(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return disj(*[neg(x) for x in a.args])
    if a.op == 'or':
        return conj(*[neg(x) for x in a.args])
    if a.op == 'const':
        return FALSE if truthy_const(a) else TRUE
    if a.op == 'ite' and a.args[1].op in BOOL_OPS | {'const'}:
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    return mk('not', a)


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        if x.op == op:
            for y in x.args:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
        elif x not in seen:
            seen.add(x)
            out.append(x)
    return out


def conj(*xs):
    out = _flat('and', xs)
    if any(x is FALSE for x in out):
        return FALSE
    out = [x for x in out if x is not TRUE]
    s = set(out)
    consts = {}
    for x in out:
        if x.op == 'not' and x.args[0] in s:
            return FALSE
        if x.op == 'eq' and x.args[1].op == 'const' and x.args[0].op != 'const':
            prev = consts.get(x.args[0])
            if prev is not None and prev is not x.args[1] and prev.value != x.args[1].value:
                return FALSE
            consts[x.args[0]] = x.args[1]
    if consts:
        new = []
        changed = False
        for x in out:
            if x.op == 'not' and x.args[0].op == 'eq' and x.args[0].args[1].op == 'const' and x.args[0].args[0] in consts:
                if consts[x.args[0].args[0]].value == x.args[0].args[1].value:
                    return FALSE
                changed = True
                continue
            if x.op == 'in' and x.args[0] in consts:
                if not any(_ceq(consts[x.args[0]].value, c) for c in x.args[1]):
                    return FALSE
                changed = True
                continue
            if x.op == 'not' and x.args[0].op == 'in' and x.args[0].args[0] in consts:
                if any(_ceq(consts[x.args[0].args[0]].value, c) for c in x.args[0].args[1]):
                    return FALSE
                changed = True
                continue
            new.append(x)
        if changed:
            out = new
    # absorb: a and (a or b) -> a ; a and (not a or b) -> a and b
    s = set(out)
    res = []
    ch = False
    for x in out:
        if x.op == 'or':
            if any(y in s for y in x.args):
                ch = True
                continue
            ys = [y for y in x.args if neg(y) not in s]
            if len(ys) != len(x.args):
                ch = True
                x = disj(*ys)
        res.append(x)
    if ch:
        return conj(*res)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda z: z.id)
    return mk('and', *out)


def disj(*xs):
    out = _flat('or', xs)
    if any(x is TRUE for x in out):
        return TRUE
    out = [x for x in out if x is not FALSE]
    s = set(out)
    for x in out:
        if x.op == 'not' and x.args[0] in s:
            return TRUE
    # absorption: a or (a and b) -> a ; a or (not a and b) -> a or b
    res = []
    ch = False
    for x in out:
        if x.op == 'and':
            if any(y in s for y in x.args):
                ch = True
                continue
            ys = [y for y in x.args if neg(y) not in s]
            if len(ys) != len(x.args):
                ch = True
                x = conj(*ys)
        res.append(x)
    if ch:
        return disj(*res)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a and c) or (not a and c) -> c   (common at joins)
    if len(out) == 2 and all(x.op == 'and' for x in out):
        a, b = set(out[0].args), set(out[1].args)
        common = a & b
        if common:
            rest = disj(conj(*(a - common)), conj(*(b - common)))
            if rest is TRUE:
                return conj(*common)
    out.sort(key=lambda z: z.id)
    return mk('or', *out)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    isb = lambda z: z is TRUE or z is FALSE or z.op in BOOL_OPS or z.op == 'bsym'
    if isb(a) and isb(b):
        if a is TRUE:
            return disj(c, b)
        if a is FALSE:
            return conj(neg(c), b)
        if b is TRUE:
            return disj(neg(c), a)
        if b is FALSE:
            return conj(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def assume(t, facts, memo=None):
    """simplify boolean/ite structure of t under the set of literals `facts`"""
    if not facts:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in facts:
        r = TRUE
    elif t.op == 'not' and t.args[0] in facts:
        r = FALSE
    elif neg(t) in facts if t.op not in ('const', 'ite', 'and', 'or') and t.op in BOOL_OPS else False:
        r = FALSE
    elif t.op == 'and':
        r = conj(*[assume(x, facts, memo) for x in t.args])
    elif t.op == 'or':
        r = disj(*[assume(x, facts, memo) for x in t.args])
    elif t.op == 'not':
        r = neg(assume(t.args[0], facts, memo))
    elif t.op == 'ite':
        r = ite(assume(t.args[0], facts, memo), assume(t.args[1], facts, memo), assume(t.args[2], facts, memo))
    else:
        r = t
    memo[t] = r
    return r


def literals(t):
    if t.op == 'and':
        return set(t.args)
    if t is TRUE:
        return set()
    return {t}


# ---------------------------------------------------------------- scalars
BINOPS = {'+', '-', '*', '/', '//', '%', '**', 'min2', 'max2', 'fmin', 'fmax'}
CMPS = {'lt', 'le', 'gt', 'ge'}


def _ceq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def eq(a, b):
    if a.op == 'const' and b.op == 'const':
        if is_nan_const(a) or is_nan_const(b):
            return FALSE
        return TRUE if _ceq(a.value, b.value) else FALSE
    if a.op == 'const':
        a, b = b, a
    if a.op == 'ite' and b.op == 'const':
        x, y = eq(a.args[1], b), eq(a.args[2], b)
        if x in (TRUE, FALSE) or y in (TRUE, FALSE):
            return ite(a.args[0], x, y)
    ra, rb = rowid_parts(a), rowid_parts(b)
    if ra and rb:
        (sa, ba, ga, oa), (sb, bb, gb, ob) = ra, rb
        if sa == sb and oa is ob:
            if ba != bb or len(ga) != len(gb):
                return FALSE
            return conj(*[TRUE if x == y else mk('sameg', *sorted((x, y))) for x, y in zip(ga, gb)])
        if sa != sb:
            return FALSE    # distinct allocations are disjoint: that is property C01's own obligation
    if (ra and b.op == 'const') or (rb and a.op == 'const'):
        pass
    if a.op != 'const' and b.op != 'const' and a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def rowid_parts(t):
    """t == pos(space, bid, gens...) [+ offset] -> (space, bid, gens, offset)"""
    if t.op == 'pos':
        return t.args[0], t.args[1], tuple(x.args[0] for x in t.args[2:]), const(0)
    if t.op == '+' and t.args[0].op == 'pos':
        p = t.args[0]
        return p.args[0], p.args[1], tuple(x.args[0] for x in p.args[2:]), t.args[1]
    if t.op == '+' and t.args[1].op == 'pos':
        p = t.args[1]
        return p.args[0], p.args[1], tuple(x.args[0] for x in p.args[2:]), t.args[0]
    return None


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool)


def fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return NAN
        return math.inf if a > 0 else -math.inf


def apply_bin(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        if isinstance(a, float) or isinstance(b, float):
            try:
                return a * b
            except OverflowError:
                return math.inf
        return a * b
    if op == '/':
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return fdiv(a, b)
        return a / b
    if op == '//':
        return a // b if b else NAN
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    if op in ('min2', 'max2'):
        if a != a or b != b:
            return NAN
        return (a if a <= b else b) if op == 'min2' else (a if a >= b else b)
    if op in ('fmin', 'fmax'):
        if a != a:
            return b
        if b != b:
            return a
        return (a if a <= b else b) if op == 'fmin' else (a if a >= b else b)
    raise KeyError(op)


def _exact(op, a, b, r):
    x, y = Fraction(repr(a)), Fraction(repr(b))
    q = x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y
    return q == Fraction(repr(r))


def apply_cmp(op, a, b):
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    return a >= b


def raw(v):
    return NAN if v is NAN_SENTINEL else v


def app(op, a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            if op in CMPS:
                return const(bool(apply_cmp(op, raw(a.value), raw(b.value))))
            r = apply_bin(op, raw(a.value), raw(b.value))
            if isinstance(r, float) and op in '+-*/' and math.isfinite(r) and not _exact(op, raw(a.value), raw(b.value), r):
                return mk(op, a, b)     # left for the evaluator, which computes with fractions
            return const(r)
        except Exception:
            return mk(op, a, b)
    if op == '+':
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and x.value == 0 and num(x.value) and x.value is not NAN_SENTINEL:
                if y.op == 'pos' or rowid_parts(y):
                    return y
        # (pos + off) + c -> pos + (off + c)
        if rowid_parts(a) and a.op == '+' and not rowid_parts(b):
            p, o = (a.args[0], a.args[1]) if a.args[0].op == 'pos' else (a.args[1], a.args[0])
            return mk('+', p, app('+', o, b))
        if rowid_parts(b) and not rowid_parts(a):
            return app('+', b, a)
    if op in CMPS and a.op == 'ite' and b.op == 'const' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
        return ite(a.args[0], app(op, a.args[1], b), app(op, a.args[2], b))
    return mk(op, a, b)


def ne(a, b):
    return neg(eq(a, b))


def isin_const(t, values):
    values = tuple(values)
    if t.op == 'const':
        return TRUE if any(_ceq(t.value, v) for v in values) else FALSE
    if t.op == 'ite':
        a, b = isin_const(t.args[1], values), isin_const(t.args[2], values)
        return ite(t.args[0], a, b)
    if not values:
        return FALSE
    if len(values) == 1:
        return eq(t, const(values[0]))
    try:
        values = tuple(sorted(set(values), key=lambda v: (type(v).__name__, repr(v))))
    except Exception:
        pass
    return mk('in', t, values)


def isna(t):
    if t.op == 'const':
        return TRUE if (is_nan_const(t) or t.value is None) else FALSE
    if t.op == 'ite':
        return ite(t.args[0], isna(t.args[1]), isna(t.args[2]))
    if t.op in BOOL_OPS or t.op == 'pos':
        return FALSE
    return mk('isna', t)


# ---------------------------------------------------------------- relations inside terms
def br(gens, guard, *vals):
    return mk('br', tuple(gens), guard, *vals)


def rel(branches):
    return mk('rel', *[b for b in branches if b.args[1] is not FALSE])


def exists(branches):
    """exists over a list of 'br' terms; splits branches and factors out what does not depend on bound gens"""
    parts = []
    for b in branches:
        gens, guard = b.args[0], b.args[1]
        if guard is FALSE:
            continue
        ids = {g for g, _ in gens}
        if not gens:
            parts.append(guard)
            continue
        disjuncts = guard.args if guard.op == 'or' else (guard,)
        for d in disjuncts:
            inner, outer = [], []
            for lit in (d.args if d.op == 'and' else (d,)):
                (inner if gens_of(lit) & ids else outer).append(lit)
            e = mk('agg', 'exists', mk('rel', mk('br', gens, conj(*inner))))
            parts.append(conj(e, *outer))
    return disj(*parts)


def agg(kind, branches):
    """branches: br terms with exactly one value (none for count)"""
    bs = [b for b in branches if b.args[1] is not FALSE]
    return mk('agg', kind, mk('rel', *bs))


# ---------------------------------------------------------------- printing
_INFIX = {'+': '+', '-': '-', '*': '*', '/': '/', '//': '//', '%': '%', '**': '**', 'eq': '==', 'lt': '<', 'le': '<=',
          'gt': '>', 'ge': '>='}


def pretty(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'const':
        return 'NaN' if a[0] == 'nan' else repr(a[1])
    if op == 'cell':
        return '%s.%s' % (gname(a[0]), a[1])
    if op == 'gen':
        return gname(a[0])
    if op in ('sym', 'bsym'):
        return str(a[0])
    if op in _INFIX:
        return '(%s %s %s)' % (pretty(a[0], d), _INFIX[op], pretty(a[1], d))
    if op == 'and':
        return '(' + ' and '.join(pretty(x, d) for x in a) + ')'
    if op == 'or':
        return '(' + ' or '.join(pretty(x, d) for x in a) + ')'
    if op == 'not':
        return 'not ' + pretty(a[0], d)
    if op == 'ite':
        return '(%s if %s else %s)' % (pretty(a[1], d), pretty(a[0], d), pretty(a[2], d))
    if op == 'in':
        return '%s in %r' % (pretty(a[0], d), list(a[1]))
    if op == 'top':
        return '<unknown: %s>' % a[1]
    if op == 'br':
        return '{%s | %s: %s}' % (', '.join('%s in %s' % (gname(g), pretty(tab, d)) for g, tab in a[0]),
                                  pretty(a[1], d), ', '.join(pretty(x, d) for x in a[2:]))
    if op == 'rel':
        return ' + '.join(pretty(x, d) for x in a)
    if op == 'agg':
        return '%s%s' % (a[0], pretty(a[1], d))
    if op == 'input':
        return str(a[0])
    if op == 'pos':
        return 'row#%s' % a[0]
    if op == 'getitem':
        return '%s[%s]' % (pretty(a[0], d), pretty(a[1], d))
    if op == 'attr':
        return '%s.%s' % (pretty(a[0], d), a[1])
    return '%s(%s)' % (op, ', '.join(pretty(x, d) for x in a))


def gname(g):
    return 'r%d' % g
