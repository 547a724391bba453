"""Abstract tables.

A table is a tuple of guarded row schemas (`Branch`): for every assignment of rows to the branch's generators for
which its guard holds, the table has one row whose columns are given by terms.  `labels` and `order` are identity
tokens for the row index and the row sequence; column assignment between tables is resolved through them the way
pandas aligns, and anything that cannot be resolved becomes an unknown value.
"""
from . import terms as tm
from .terms import (T, mk, const, conj, disj, neg, ite, eq, isna, TRUE, FALSE, NANC, NONE, top, subst, gens_of)

_tok = [0]


def token(prefix='t'):
    _tok[0] += 1
    return '%s%d' % (prefix, _tok[0])


MERGED = {}     # label space of a conditional table -> [(condition, label space in that case)]
SPACES = {}     # row label space -> how its labels are numbered


class Branch:
    __slots__ = ('gens', 'guard', 'bid')

    def __init__(self, gens, guard, bid):
        self.gens = tuple(gens)
        self.guard = guard
        self.bid = bid

    def with_guard(self, g):
        return Branch(self.gens, g, self.bid)


class Unsupported(Exception):
    pass


class MissingColumn(Exception):
    def __init__(self, name):
        self.name = name


class Series:
    def __init__(self, branches, terms, order, labels, kind='series', index=None, name=None, sort=None):
        self.branches = tuple(branches)
        self.terms = tuple(terms)
        assert len(self.branches) == len(self.terms)
        self.order = order
        self.labels = labels
        self.kind = kind
        self.index = index      # None: opaque labels; else tuple of terms (one label value per branch)
        self.name = name
        self.sort = sort
        self.okey = None
        self.mutable = False

    def like(self, terms, kind=None, name=None):
        s = Series(self.branches, terms, self.order, self.labels, kind or self.kind, self.index, name or self.name,
                   self.sort)
        s.okey = self.okey
        return s

    def map(self, fn):
        return self.like([fn(t) for t in self.terms])

    def brs(self, value=True):
        if value:
            return [tm.br(b.gens, b.guard, t) for b, t in zip(self.branches, self.terms)]
        return [tm.br(b.gens, b.guard) for b in self.branches]


class Frame:
    def __init__(self, branches, cols, order, labels, index=None, sort=None):
        self.branches = tuple(branches)
        self.cols = dict(cols)      # name -> (terms tuple, presence T)
        self.order = order
        self.labels = labels
        self.index = index
        self.sort = sort
        self.okey = None            # [(terms per branch, ascending)]: keys that put the rows in the order they are in
        if labels not in SPACES:
            SPACES[labels] = ('rows', self.branches)
        self.ddsrc = None           # (labels, keys, source frame) of a drop_duplicates that made new row labels
        self.cols0 = None
        self.index_names = None

    def like(self, cols=None, branches=None, labels=None, order=None, index='same', sort='same'):
        f = Frame(self.branches if branches is None else branches, self.cols if cols is None else cols,
                  order or self.order, labels or self.labels, self.index if index == 'same' else index,
                  self.sort if sort == 'same' else sort)
        f.index_names = self.index_names
        if branches is None and labels is None:
            f.ddsrc, f.cols0 = self.ddsrc, self.cols0
        if branches is None and (sort == 'same' or sort is self.sort):
            f.okey = self.okey
        return f

    def col(self, name):
        if name not in self.cols:
            raise MissingColumn(name)
        terms, pres = self.cols[name]
        s = Series(self.branches, terms, self.order, self.labels, 'series', self.index, name, self.sort)
        s.okey = self.okey
        return s

    def pres(self, name):
        return self.cols[name][1] if name in self.cols else FALSE

    def brs(self, names=()):
        return [tm.br(b.gens, b.guard, *[self.cols[n][0][i] for n in names]) for i, b in enumerate(self.branches)]

    def index_series(self):
        if self.index is not None:
            return Series(self.branches, self.index, self.order, self.labels, 'index', self.index, None, self.sort)
        return Series(self.branches, [pos_term(self.labels, b) for b in self.branches], self.order, self.labels,
                      'index', None, None, self.sort)


def pos_term(space, b):
    return mk('pos', space, repr(b.bid), *[mk('gen', g) for g, _ in b.gens])


def empty_frame():
    return Frame((), {}, token('o'), token('l'))


def input_frame(name, columns, extra_guard=None):
    """columns: dict name -> presence term.  One generator over the rows of the input table."""
    g = tm.fresh_gid()
    b = Branch(((g, mk('input', name)),), TRUE, ('in', name))
    cols = {c: ((mk('cell', g, c),), p) for c, p in columns.items()}
    return in_order(Frame((b,), cols, token('o'), token('l')), [((mk('cell', g, POS),), True)])


POS = '#row'        # the place of a row in its input table


def listed(branches):
    """order keys of rows made one after the other, the generators of each from the outside in"""
    ks = []
    for i, b in enumerate(branches):
        if any(tab.op not in ('input', 'iter', 'dictiter', 'range') for _, tab in b.gens):
            return None
        ks.append([const(i)] + [mk('cell', g, POS) for g, _ in b.gens])
    n = max([len(k) for k in ks], default=0)
    return [(tuple(k[j] if j < len(k) else const(0) for k in ks), True) for j in range(n)]


def in_order(f, okey):
    f.okey = okey
    return f


# ------------------------------------------------------------------ generator renaming
def refresh(branch, termlists):
    m = {}
    gens = []
    for g, tab in branch.gens:
        n = tm.fresh_gid()
        m[g] = n
    memo = {}
    for g, tab in branch.gens:
        gens.append((m[g], subst(tab, m, memo)))
    return (Branch(gens, subst(branch.guard, m, memo), branch.bid),
            [subst(t, m, memo) for t in termlists])


# ------------------------------------------------------------------ alignment
def align(series, branches, labels, order):
    """terms of `series` for each of `branches` (a table with the given labels/order tokens)"""
    if series.kind in ('array', 'list'):
        same = series.order == order
    else:
        same = series.labels == labels
    if not same:
        m = MERGED.get(series.labels) if series.kind == 'series' else None
        if m is not None:
            return align_merged(series, branches, labels, order, m)
        return [top('row alignment between tables with different indexes') for _ in branches]
    byid = {b.bid: (b, t) for b, t in zip(series.branches, series.terms)}
    out = []
    for b in branches:
        hit = byid.get(b.bid)
        if hit is None:
            out.append(NANC)
            continue
        sb, t = hit
        if sb.gens != b.gens:
            out.append(top('row alignment: generators differ'))
            continue
        if sb.guard is b.guard or sb.guard is TRUE or implied(sb.guard, b.guard):
            out.append(t)
        elif series.kind in ('array', 'list'):
            out.append(top('positional alignment of differently filtered rows'))
        else:
            out.append(ite(sb.guard, t, NANC))
    return out


def align_merged(series, branches, labels, order, m):
    """series belongs to a table that is one of several under exclusive conditions: resolve it in each"""
    out = [top('row alignment between tables with different indexes') for _ in branches]
    for k, (c, lab) in reversed(list(enumerate(m))):
        if lab != labels and lab not in MERGED:
            continue
        sel = [(b, t) for b, t in zip(series.branches, series.terms) if b.bid[1] == k]
        sub = Series([Branch(b.gens, b.guard, b.bid[2]) for b, _ in sel], [t for _, t in sel], order, lab)
        ts = align(sub, [x.with_guard(conj(x.guard, c)) for x in branches], labels, order)
        out = [ite(c, a, b) for a, b in zip(ts, out)]
    return out


def implied(g, by):
    """literals of g are a subset of those of by"""
    if g is TRUE:
        return True
    lits = tm.literals(by)
    return all(x in lits for x in tm.literals(g))


def set_col(f, name, value, facts=()):
    if isinstance(value, Series):
        terms = align(value, f.branches, f.labels, f.order)
        if not f.branches and not f.cols and value.branches:
            # assigning a column to an empty frame creates the rows
            return in_order(Frame(value.branches, {name: (tuple(value.terms), TRUE)}, value.order, value.labels), value.okey)
    else:
        terms = [value for _ in f.branches]
    cols = dict(f.cols)
    cols[name] = (tuple(terms), TRUE)
    return f.like(cols=cols)


def select(f, names):
    cols = {}
    missing = []
    for n in names:
        if n not in f.cols:
            raise MissingColumn(n)
        cols[n] = f.cols[n]
    return f.like(cols=cols)


def filter_rows(f, mask):
    """mask: Series of booleans aligned with f, or list of terms"""
    if isinstance(mask, Series):
        ms = align(mask, f.branches, f.labels, f.order)
        ms = [FALSE if tm.is_nan_const(m) else tm.as_bool(m) for m in ms]
    else:
        ms = mask
    keep = []
    for i, (b, m) in enumerate(zip(f.branches, ms)):
        facts = tm.literals(b.guard)
        m = tm.assume(m, facts)
        g = conj(b.guard, m)
        if g is FALSE:
            continue
        keep.append((i, b.with_guard(g)))
    idx = [i for i, _ in keep]
    brs = [b for _, b in keep]
    if isinstance(f, Series):
        return in_order(Series(brs, [f.terms[i] for i in idx], token('o'), f.labels, f.kind,
                               tuple(f.index[i] for i in idx) if f.index is not None else None, f.name,
                               pick_sort(f.sort, idx)), pick_sort(f.okey, idx))
    cols = {n: (tuple(t[i] for i in idx), p) for n, (t, p) in f.cols.items()}
    return in_order(Frame(brs, cols, token('o'), f.labels,
                          tuple(f.index[i] for i in idx) if f.index is not None else None,
                          pick_sort(f.sort, idx)), pick_sort(f.okey, idx))


def pick_sort(sort, idx):
    if sort is None:
        return None
    return [(tuple(ts[i] for i in idx), asc) for ts, asc in sort]


def reset_index(f, drop=True):
    if isinstance(f, Series):
        return in_order(Series(f.branches, f.terms, f.order, token('l'), f.kind, None, f.name, f.sort), f.okey)
    cols = dict(f.cols)
    if not drop and f.index is not None:
        raise Unsupported('reset_index keeping a named index')
    return in_order(Frame(f.branches, cols, f.order, token('l'), None, f.sort), f.okey)


def guard_scope(frame, cond):
    """restrict all rows by a condition"""
    if cond is TRUE:
        return frame
    return filter_rows(frame, [cond] * len(frame.branches))


# ------------------------------------------------------------------ merge / concat
LOOKUP = None       # None, or the set of merge sites that may match several rows (other merges are read as lookups)
SITE = ['']


def exclusive(a, b, depth=6):
    """can two guards not hold together?"""
    if conj(a, b) is FALSE:
        return True
    if depth:
        for x, y in ((a, b), (b, a)):
            for lit in (x.args if x.op == 'and' else (x,)):
                if lit.op == 'or' and all(exclusive(d, y, depth - 1) for d in lit.args):
                    return True
    return False


def coalesce(branches, cols):
    """join branches over the same generators whose guards exclude each other into one branch"""
    out = []        # [branch, {col: term}]
    joined = False
    names = list(cols)
    for i, b in enumerate(branches):
        row = {n: cols[n][i] for n in names}
        for k, (ob, orow) in enumerate(out):
            if ob.gens == b.gens and exclusive(ob.guard, b.guard):
                la = set(ob.guard.args if ob.guard.op == 'and' else (ob.guard,))
                lb = set(b.guard.args if b.guard.op == 'and' else (b.guard,))
                ra, rb = conj(*sorted(la - lb, key=lambda t: t.id)), conj(*sorted(lb - la, key=lambda t: t.id))
                g = conj(*[x for x in (ob.guard.args if ob.guard.op == 'and' else (ob.guard,)) if x in lb],
                         TRUE if neg(ra) is rb or neg(rb) is ra else disj(ra, rb))
                out[k] = [Branch(b.gens, g, ('j', ob.bid, b.bid)), {n: ite(rb, row[n], orow[n]) for n in names}]
                joined = True
                break
        else:
            out.append([b, row])
    return [b for b, _ in out], {n: [r[n] for _, r in out] for n in names}, joined


def lookup_merge(l, r, how, left_on, right_on, names):
    """every left row has at most one partner (checked when the terms are evaluated)"""
    sure = keyed(r, right_on)
    outb, rows, kept = [], [], []
    tag = token('m')
    for i, lb in enumerate(l.branches):
        parts = []
        for j, rb in enumerate(r.branches):
            rn = list(r.cols)
            nb, ts = refresh(rb, [r.cols[n][0][j] for n in rn])
            rt = dict(zip(rn, ts))
            g = conj(nb.guard, *[eq(l.cols[a][0][i], rt[b]) for a, b in zip(left_on, right_on)])
            if g is not FALSE:
                parts.append((nb, g, rt))
        ex = tm.exists([tm.br(nb.gens, g) for nb, g, rt in parts])
        g = conj(lb.guard, ex) if how == 'inner' else lb.guard
        if g is FALSE:
            continue
        if parts and not sure:      # the match must be unique even if no column of the right table is used
            g = conj(g, mk('agg', 'le1', mk('rel', *[tm.br(nb.gens, c) for nb, c, rt in parts]), SITE[0]))
        outb.append(Branch(lb.gens, g, (tag, lb.bid)))
        kept.append(i)
        row = {}
        for out, side, n, p in names:
            if side == 'r':
                v = mk('agg', 'only', mk('rel', *[tm.br(nb.gens, c, rt[n]) for nb, c, rt in parts]), SITE[0])
                if how != 'inner':
                    v = ite(ex, v, NANC)
            else:
                v = l.cols[n][0][i]
            row[out] = ite(p, v, row[out]) if out in row else v
        rows.append(row)
    cols = {}
    for out, side, n, p in names:
        pres = disj(p, cols[out][1]) if out in cols else p
        cols[out] = (tuple(row[out] for row in rows), pres)
    return in_order(Frame(outb, cols, token('o'), token('l')), pick_sort(l.okey, kept))


def merge(l, r, how='inner', left_on=None, right_on=None, suffixes=('_x', '_y')):
    for k in left_on:
        if k not in l.cols:
            raise MissingColumn(k)
    for k in right_on:
        if k not in r.cols:
            raise MissingColumn(k)
    shared = {a for a, b in zip(left_on, right_on) if a == b}
    names = []      # (outname, 'l'/'r'/'k', name, presence)
    for n, (t, p) in l.cols.items():
        if n in shared:
            names.append((n, 'k', n, p))
        elif n in r.cols:
            pr = r.cols[n][1]
            both = conj(p, pr)
            if both is not FALSE:
                names.append((n + suffixes[0], 'l', n, both))
            only = conj(p, neg(pr))
            if only is not FALSE:
                names.append((n, 'l', n, only))
        else:
            names.append((n, 'l', n, p))
    for n, (t, p) in r.cols.items():
        if n in shared:
            continue
        if n in l.cols:
            pl = l.cols[n][1]
            both = conj(p, pl)
            if both is not FALSE:
                names.append((n + suffixes[1], 'r', n, both))
            only = conj(p, neg(pl))
            if only is not FALSE:
                names.append((n, 'r', n, only))
        else:
            names.append((n, 'r', n, p))
    if LOOKUP is not None and how in ('inner', 'left') and SITE[0] not in LOOKUP:
        return lookup_merge(l, r, how, left_on, right_on, names)
    rnames = list(r.cols)
    outb, rows = [], []
    ranked = how in ('inner', 'left') and l.okey is not None and r.okey is not None
    place = []      # order keys per row: those of the left row, then those of the right row
    tag = token('m')
    for i, lb in enumerate(l.branches):
        for j, rb in enumerate(r.branches):
            nb, ts = refresh(rb, [r.cols[n][0][j] for n in rnames] + [k[j] for k, _ in r.okey or ()])
            rt = dict(zip(rnames, ts))
            keys = [eq(l.cols[a][0][i], rt[b]) for a, b in zip(left_on, right_on)]
            g = conj(lb.guard, nb.guard, *keys)
            if g is FALSE:
                continue
            outb.append(Branch(lb.gens + nb.gens, g, (tag, lb.bid, rb.bid)))
            place.append([k[i] for k, _ in l.okey or ()] + ts[len(rnames):])
            row = {}
            for out, side, n, p in names:
                v = rt[n] if side == 'r' else l.cols[n][0][i]
                if out in row:
                    row[out] = ite(p, v, row[out])
                else:
                    row[out] = v
            rows.append(row)
    def unmatched(a, akeys, b, bkeys, side):
        for i, ab in enumerate(a.branches):
            ex = []
            for j, bb in enumerate(b.branches):
                nb, ts = refresh(bb, [b.cols[n][0][j] for n in bkeys])
                ks = [eq(a.cols[x][0][i], t) for x, t in zip(akeys, ts)]
                g = conj(nb.guard, *ks)
                ex.append(tm.br(nb.gens, g))
            g = conj(ab.guard, neg(tm.exists(ex)))
            if g is FALSE:
                continue
            outb.append(Branch(ab.gens, g, (tag, side, ab.bid)))
            place.append([k[i] for k, _ in a.okey or ()] + [const(0)] * len(r.okey or ()))
            row = {}
            for out, sd, n, p in names:
                if sd == 'k':
                    v = a.cols[n][0][i]
                elif sd == side:
                    v = a.cols[n][0][i]
                else:
                    v = NANC
                row[out] = ite(p, v, row[out]) if out in row else v
            rows.append(row)
    if how in ('left', 'outer'):
        unmatched(l, left_on, r, right_on, 'l')
    if how in ('right', 'outer'):
        unmatched(r, right_on, l, left_on, 'r')
    cols = {}
    for out, side, n, p in names:
        pres = disj(p, cols[out][1]) if out in cols else p
        cols[out] = (tuple(row[out] for row in rows), pres)
    okey = None
    if ranked:
        okey = [(tuple(p[k] for p in place), asc) for k, (_, asc) in enumerate(l.okey + r.okey)]
    return in_order(Frame(outb, cols, token('o'), token('l')), okey)


def concat(frames):
    """frames: list of (Frame, presence condition)"""
    names = []
    for f, c in frames:
        for n in f.cols:
            if n not in names:
                names.append(n)
    outb = []
    cols = {n: [] for n in names}
    pres = {n: FALSE for n in names}
    tag = token('c')
    place = []
    slots = concat_slots([f for f, c in frames if f.branches])
    for k, (f, c) in enumerate(frames):
        for i, b in enumerate(f.branches):
            g = conj(b.guard, c)
            if g is FALSE:
                continue
            outb.append(Branch(b.gens, g, (tag, k, b.bid)))
            if slots is not None:
                own = dict(zip(slots[1][id(f)], f.okey))
                place.append([const(k)] + [own[j][0][i] if j in own else const(0) for j in range(len(slots[0]))])
            for n in names:
                if n in f.cols:
                    t, p = f.cols[n]
                    cols[n].append(ite(p, t[i], NANC))
                else:
                    cols[n].append(NANC)
        for n in f.cols:
            pres[n] = disj(pres[n], conj(c, f.cols[n][1]))
    # the same generator ids may occur in several branches: harmless, generators are bound per branch
    lab = token('l')
    asc = [True] + list(slots[0]) if slots is not None else []
    if LOOKUP is not None:
        b2, c2, joined = coalesce(outb, dict(cols, **{'%s%d' % (POS, j): [p[j] for p in place] for j in range(len(asc))}))
        if joined:
            okey = [(tuple(c2.pop('%s%d' % (POS, j))), a) for j, a in enumerate(asc)] or None
            return in_order(Frame(b2, {n: (tuple(v), pres[n]) for n, v in c2.items()}, token('o'), lab), okey)
    # rows keep the labels they had
    SPACES[lab] = ('concat', {repr((tag, k, b.bid)): (f.labels, repr(b.bid), f.index is not None)
                              for k, (f, c) in enumerate(frames) for b in f.branches})
    okey = [(tuple(p[j] for p in place), a) for j, a in enumerate(asc)] or None
    return in_order(Frame(outb, {n: (tuple(v), pres[n]) for n, v in cols.items()}, token('o'), lab), okey)


def concat_slots(frames):
    """(directions of the order keys of tables put one below the other, the keys each table uses) or None"""
    if any(f.okey is None for f in frames):
        return None
    dirs, use = [], {}
    for f in frames:
        at, mine = 0, []
        for _, asc in f.okey:
            while at < len(dirs) and dirs[at] != asc:
                at += 1
            if at == len(dirs):
                dirs.append(asc)
            mine.append(at)
            at += 1
        use[id(f)] = mine
    return dirs, use


def melt(f, id_vars, value_vars, var_name, value_name):
    """value_vars: list of (name, presence)"""
    outb, rows, place = [], [], []
    tag = token('melt')
    for k, (v, p) in enumerate(value_vars):
        if v not in f.cols:
            raise MissingColumn(v)
        for i, b in enumerate(f.branches):
            g = conj(b.guard, p)
            if g is FALSE:
                continue
            outb.append(Branch(b.gens, g, (tag, v, b.bid)))
            place.append([const(k)] + [o[i] for o, _ in f.okey or ()])
            row = {n: f.cols[n][0][i] for n in id_vars}
            row[var_name] = const(v)
            row[value_name] = f.cols[v][0][i]
            rows.append(row)
    names = list(id_vars) + [var_name, value_name]
    okey = None
    if f.okey is not None:
        okey = [(tuple(p[j] for p in place), a) for j, a in enumerate([True] + [a for _, a in f.okey])]
    return in_order(Frame(outb, {n: (tuple(r[n] for r in rows), f.cols[n][1] if n in id_vars else TRUE) for n in names},
                          token('o'), token('l')), okey)


# ------------------------------------------------------------------ grouping
PKS = {}        # input table name -> primary key columns


def keyed(f, keys):
    """do the key columns determine the row (single branch, primary keys of all generators included)?"""
    if len(f.branches) != 1:
        return False
    b = f.branches[0]
    kt = set()
    for k in keys:
        t = f.cols[k][0][0]
        kt.add(t)
        # a key column built as ite(present, cell, default) still determines the cell where it is present
        if t.op == 'ite':
            kt.add(t)
    eqs = [x for x in tm.literals(b.guard) if x.op == 'eq']
    for g, tab in b.gens:
        if tab.op == 'input':
            pk = PKS.get(tab.args[0])
        elif tab.op == 'distinct':
            pk = tab.args[1]
        else:
            return False
        if pk is None:
            return False
        for c in pk:
            cell = mk('cell', g, c)
            if cell in kt:
                continue
            ok = any((x.args[0] is cell and (x.args[1].op == 'const' or x.args[1] in kt)) or
                     (x.args[1] is cell and x.args[0] in kt) for x in eqs)
            if not ok:
                # optional key column that may be absent from the input altogether
                if any(t.op == 'ite' and tm.contains(t, cell) for t in kt):
                    continue
                return False
    return True


def distinct_gen(f, keys):
    """generator over the distinct key tuples of f -> (gid, table, {key: cell})"""
    relt = mk('rel', *[tm.br(b.gens, b.guard, *[f.cols[k][0][i] for k in keys]) for i, b in enumerate(f.branches)])
    table = mk('distinct', relt, tuple(keys))
    g = tm.fresh_gid()
    return g, table, {k: mk('cell', g, k) for k in keys}


def group_frame(f, keys):
    """sub-table of one generic group: returns (g, table, cells, Frame restricted to the group)"""
    g, table, cells = distinct_gen(f, keys)
    brs, idx = [], []
    termlists = {n: [] for n in f.cols}
    for i, b in enumerate(f.branches):
        ts = [f.cols[n][0][i] for n in f.cols]
        nb, nts = refresh(b, ts)
        row = dict(zip(f.cols, nts))
        gd = conj(nb.guard, *[eq(row[k], cells[k]) for k in keys])
        if gd is FALSE:
            continue
        brs.append(Branch(nb.gens, gd, b.bid))
        for n in f.cols:
            termlists[n].append(row[n])
    sub = Frame(brs, {n: (tuple(v), f.cols[n][1]) for n, v in termlists.items()}, token('o'), f.labels)
    return g, table, cells, sub


def group_agg(f, keys, aggs, as_index=False):
    """aggs: list of (outname, colname, kind)"""
    if not f.branches:
        names = list(keys) + [o for o, _, _ in aggs]
        return Frame((), {n: ((), TRUE) for n in names}, token('o'), token('l'))
    g, table, cells, sub = group_frame(f, keys)
    cols = {}
    if not as_index:
        for k in keys:
            cols[k] = ((cells[k],), TRUE)
    for out, c, kind in aggs:
        if kind in ('size',):
            t = tm.agg('count', sub.brs(()))
        else:
            t = agg_series(sub.col(c), kind)
        cols[out] = ((t,), f.cols[c][1] if c in f.cols else TRUE)
    b = Branch(((g, table),), TRUE, ('grp', token('g')))
    index = None
    if as_index:
        if len(keys) == 1:
            index = (cells[keys[0]],)
        else:
            index = (mk('tuple', *[cells[k] for k in keys]),)
    return in_order(Frame((b,), cols, token('o'), token('l'), index), [((cells[k],), True) for k in keys])


def by_order(f, keys, cells, skipna=False):
    """value of a column (or of an order key) in the first or last row of a group, for a table whose order is known"""
    okey = f.okey if f.okey is not None else f.sort

    def fn(n, keep):
        brs = []
        for i, b in enumerate(f.branches):
            t = okey[n][0][i] if isinstance(n, int) else f.cols[n][0][i]
            ts = [t] + [f.cols[k][0][i] for k in keys] + [s[0][i] for s in okey]
            nb, nts = refresh(b, ts)
            gd = conj(nb.guard, *[eq(t, cells[k]) for t, k in zip(nts[1:1 + len(keys)], keys)])
            if skipna:
                gd = conj(gd, neg(isna(nts[0])))
            if gd is not FALSE:
                brs.append(tm.br(nb.gens, gd, nts[0], *nts[1 + len(keys):]))
        v = mk('agg', keep + '_by', mk('rel', *brs), tuple(bool(a) for _, a in okey))
        return ite(tm.exists([tm.br(*b.args[:2]) for b in brs]), v, NANC) if skipna else v
    return fn


def agg_series(s, kind):
    if kind in ('any',):
        return tm.exists([tm.br(b.gens, conj(b.guard, tm.as_bool(t))) for b, t in zip(s.branches, s.terms)])
    if kind in ('all',):
        return neg(tm.exists([tm.br(b.gens, conj(b.guard, neg(tm.as_bool(t)))) for b, t in zip(s.branches, s.terms)]))
    if kind == 'count':
        return tm.agg('count', [tm.br(b.gens, conj(b.guard, neg(isna(t)))) for b, t in zip(s.branches, s.terms)])
    if kind in ('max', 'min') and s.terms and all(tm.rowid_parts(t) for t in s.terms):
        if kind == 'max':
            parts = sorted({(tm.rowid_parts(t)[0], tm.rowid_parts(t)[3].id, tm.rowid_parts(t)[3]) for t in s.terms})
            sps = {p[0] for p in parts}
            full = {(repr(b.bid), b.gens, b.guard) for sp in sps if sp in SPACES and SPACES[sp][0] == 'rows'
                    for b in SPACES[sp][1]}
            if all(SPACES.get(sp, '?')[0] == 'rows' for sp in sps) and \
                    full == {(repr(b.bid), b.gens, b.guard) for b in s.branches}:
                return mk('lastid', tuple((sp, off) for sp, _, off in parts))
    if kind in ('sum', 'min', 'max', 'mean', 'first', 'last', 'nunique', 'median', 'std', 'prod'):
        return tm.agg(kind, s.brs())
    raise Unsupported('aggregation ' + str(kind))


def drop_duplicates(f, subset=None, keep='first'):
    if isinstance(f, Series):
        fr = in_order(Frame(f.branches, {'v': (f.terms, TRUE)}, f.order, f.labels), f.okey)
        return drop_duplicates(fr, ['v']).col('v')
    keys = list(subset) if subset is not None else list(f.cols)
    for k in keys:
        if k not in f.cols:
            raise MissingColumn(k)
    if not f.branches:
        return f.like(order=token('o'))
    if keyed(f, keys):
        return f.like(order=token('o'))
    g, table, cells, sub = group_frame(f, keys)
    cols = {}
    pick = by_order(f, keys, cells) if f.okey is not None or f.sort is not None else None
    for n in f.cols:
        if n in cells:
            cols[n] = ((cells[n],), f.cols[n][1])
        elif pick is not None:
            cols[n] = ((pick(n, keep),), f.cols[n][1])
        else:
            cols[n] = ((tm.agg('first' if keep == 'first' else 'last', sub.col(n).brs()),), f.cols[n][1])
    b = Branch(((g, table),), TRUE, ('dd', token('g')))
    okey = None
    if f.okey is not None:
        okey = [((pick(j, keep),), a) for j, (_, a) in enumerate(f.okey)]
    return in_order(Frame((b,), cols, token('o'), token('l')), okey)


def unique(s):
    fr = in_order(Frame(s.branches, {'v': (s.terms, TRUE)}, s.order, s.labels), s.okey)
    out = drop_duplicates(fr, ['v'])
    t = out.cols['v'][0]
    return in_order(Series(out.branches, t, out.order, out.labels, 'array'), out.okey)


def isin_series(t, s):
    """is the scalar term t among the values of series s (generators refreshed)?"""
    ex = []
    for b, v in zip(s.branches, s.terms):
        nb, (nv,) = refresh(b, [v])
        ex.append(tm.br(nb.gens, conj(nb.guard, eq(t, nv))))
    return tm.exists(ex)


def rank_before(f, i):
    """number of rows of f strictly before row schema i in f's sort order"""
    order = f.okey if f.okey is not None else f.sort
    if order is None:
        raise Unsupported('position in an unsorted table')
    out = []
    for j, b in enumerate(f.branches):
        ts = [st[j] for st, _ in order]
        nb, nts = refresh(b, ts)
        less = FALSE
        prefix = TRUE
        for (st, asc), t in zip(order, nts):
            less = disj(less, conj(prefix, tm.app('lt' if asc else 'gt', t, st[i])))
            prefix = conj(prefix, eq(t, st[i]))
        out.append(tm.br(nb.gens, conj(nb.guard, less)))
    return tm.agg('count', out)


def other_row(f, keys, i, keep):
    """is there another row with the same keys before (keep 'first'), after ('last') or anywhere (False) than row schema i?"""
    out = []
    for j, b in enumerate(f.branches):
        ts = [t[j] for t, _ in f.okey]
        nb, nts = refresh(b, ts + [f.cols[k][0][j] for k in keys])
        ks = nts[len(ts):]
        same = TRUE
        for k, t in zip(keys, ks):
            u = f.cols[k][0][i]
            same = conj(same, disj(eq(t, u), conj(isna(t), isna(u))))
        before, after, prefix = FALSE, FALSE, TRUE
        for (st, asc), t in zip(f.okey, nts):
            before = disj(before, conj(prefix, tm.app('lt' if asc else 'gt', t, st[i])))
            after = disj(after, conj(prefix, tm.app('gt' if asc else 'lt', t, st[i])))
            prefix = conj(prefix, eq(t, st[i]))
        where = {'first': before, 'last': after}.get(keep, disj(before, after))
        out.append(tm.br(nb.gens, conj(nb.guard, same, where)))
    return tm.exists(out)


SORTED = set()      # input tables whose rows were put in a chosen order somewhere


def inputs_of(t, acc, seen):
    if t in seen:
        return acc
    seen.add(t)
    if t.op == 'input':
        acc.add(t.args[0])
    for a in t.args:
        if isinstance(a, T):
            inputs_of(a, acc, seen)
        elif isinstance(a, tuple):
            for x in a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        inputs_of(y, acc, seen)
    return acc


def note_sort(f):
    for b in f.branches:
        for _, tab in b.gens:
            inputs_of(tab, SORTED, set())


def sort_values(f, by, ascending=True, stable=False):
    note_sort(f)
    asc = ascending if isinstance(ascending, (list, tuple)) else [ascending] * len(by)
    if isinstance(f, Series):
        return Series(f.branches, f.terms, token('o'), f.labels, f.kind, f.index, f.name, [(f.terms, asc[0])])
    for k in by:
        if k not in f.cols:
            raise MissingColumn(k)
    keys = [(f.cols[k][0], a) for k, a in zip(by, asc)]
    # rows that tie keep their order when there are several keys (with one key pandas does not promise it)
    okey = keys + f.okey if f.okey is not None and (stable or len(by) > 1) else None
    return in_order(f.like(order=token('o'), sort=keys), okey)


def iloc_slice(f, start, stop):
    """rows start:stop (non-negative constants or None)"""
    ms = []
    for i, b in enumerate(f.branches):
        r = rank_before(f, i)
        m = TRUE
        if start:
            m = conj(m, tm.app('ge', r, const(start)))
        if stop is not None:
            m = conj(m, tm.app('lt', r, const(stop)))
        ms.append(m)
    return filter_rows(f, ms)


# ------------------------------------------------------------------ joins at control-flow merges
_MF = {}


def merge_frames(c, a, b):
    """the frame that is a when c holds, else b (memoised: the same join seen twice is the same table)"""
    if a is b:
        return a
    k = (c, id(a), id(b))
    hit = _MF.get(k)
    if hit is None:
        hit = _MF[k] = (_merge_frames(c, a, b), a, b)
    return hit[0]


def _merge_frames(c, a, b):
    same = (a.order == b.order and a.labels == b.labels and len(a.branches) == len(b.branches) and
            all(x.bid == y.bid and x.gens == y.gens and x.guard is y.guard for x, y in zip(a.branches, b.branches)))
    if same:
        cols = {}
        names = list(a.cols) + [n for n in b.cols if n not in a.cols]
        for n in names:
            if n in a.cols and n in b.cols:
                ta, pa = a.cols[n]
                tb, pb = b.cols[n]
                if ta == tb and pa is pb:
                    cols[n] = a.cols[n]
                else:
                    cols[n] = (tuple(ite(c, x, y) for x, y in zip(ta, tb)), ite(c, pa, pb))
            elif n in a.cols:
                cols[n] = (a.cols[n][0], conj(c, a.cols[n][1]))
            else:
                cols[n] = (b.cols[n][0], conj(neg(c), b.cols[n][1]))
        okey = a.okey
        if okey is not None and b.okey is not None and okey != b.okey:
            okey = None
            if [x for _, x in a.okey] == [x for _, x in b.okey]:
                okey = [(tuple(ite(c, x, y) for x, y in zip(ta, tb)), asc) for (ta, asc), (tb, _) in zip(a.okey, b.okey)]
        return in_order(Frame(a.branches, cols, a.order, a.labels, a.index, a.sort), b.okey and okey)
    # one is a filtered version of the other with the same row schemas?
    r = concat([(a, c), (b, neg(c))])
    MERGED[r.labels] = [(c, a.labels), (neg(c), b.labels)]
    return r


def merge_series(c, a, b):
    if a is b:
        return a
    if a.kind == b.kind and a.order == b.order and a.labels == b.labels and len(a.branches) == len(b.branches) and \
            all(x.bid == y.bid and x.gens == y.gens and x.guard is y.guard for x, y in zip(a.branches, b.branches)):
        return a.like([ite(c, x, y) for x, y in zip(a.terms, b.terms)])
    fa = Frame(a.branches, {'v': (a.terms, TRUE)}, a.order, a.labels)
    fb = Frame(b.branches, {'v': (b.terms, TRUE)}, b.order, b.labels)
    f = concat([(fa, c), (fb, neg(c))])
    MERGED[f.labels] = [(c, a.labels), (neg(c), b.labels)]
    return Series(f.branches, f.cols['v'][0], f.order, f.labels, a.kind)
