"""Abstract semantics of the pandas / numpy operations."""
import re
from . import terms as tm
from . import frames as fr
from .terms import T, mk, const, conj, disj, neg, ite, eq, TRUE, FALSE, NONE, NANC, top, as_bool, isna
from .frames import Frame, Series, Branch, Unsupported, MissingColumn, token
from .interp import (Ref, Tup, Alt, FuncVal, ClassVal, Ext, Bound, GroupBy, Loc, RowIdx, ListObj, DictObj, FrameObj, Obj, State)

AGGS = {'sum', 'max', 'min', 'mean', 'first', 'last', 'count', 'nunique', 'any', 'all', 'median', 'prod', 'std'}


BINOPS = {'add': 'Add', 'sub': 'Sub', 'subtract': 'Sub', 'mul': 'Mult', 'multiply': 'Mult', 'div': 'Div',
          'divide': 'Div', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod', 'floordiv': 'FloorDiv'}


class Used(dict):
    """keyword arguments that remember which of them the model looked at"""
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def get(self, k, default=None):
        self.seen.add(k)
        return dict.get(self, k, default)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *a):
        self.seen.add(k)
        return dict.pop(self, k, *a)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def values(self):
        self.seen.update(dict.keys(self))
        return dict.values(self)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)


ANY = object()
DEFAULTS = {        # values of a keyword argument that need no handling
    'copy': ANY, 'deep': ANY, 'validate': ANY, 'observed': ANY, 'group_keys': (True,), 'sort': ANY, 'verify_integrity': ANY,
    'axis': (0, 'index'), 'dropna': (True,), 'skipna': (True,), 'numeric_only': (False,), 'inplace': (False,),
    'how': ('any',), 'keep': ('first',), 'ascending': (True,), 'na_position': ('last',), 'errors': ('raise',),
    'regex': (False,), 'level': (None,), 'min_count': (0, -1), 'na_action': (None,), 'include_groups': ANY,
    'result_type': (None,), 'kind': ANY, 'raw': (False,), 'ignore_index': ANY, 'dtype': ANY, 'limit': (None,),
    'downcast': ANY, 'suffixes': (('_x', '_y'),), 'left_index': (False,), 'right_index': (False,), 'indicator': (False,),
    'names': ANY, 'case': (True,), 'casting': ANY, 'join': ('outer',), 'fill_value': (None,), 'allow_duplicates': ANY,
    'if_exists': ANY, 'index': ANY, 'con': ANY, 'name': ANY, 'by': (None,), 'ignore_index_': ANY, 'weights': (None,),
    'ddof': (1,), 'base': (10,), 'thresh': (None,), 'subset': (None,), 'convert_dtype': ANY, 'squeeze': (False,),
    'expand': ANY, 'n': (-1,), 'flags': (0,), 'keys': (None,), 'engine': ANY, 'method': (None,),
}


def tracked(fn):
    def call(self, *a):
        kw = a[-2]
        if not kw or isinstance(kw, Used):
            return fn(self, *a)
        kw = Used(kw)
        r = fn(self, *a[:-2], kw, a[-1])
        for k in dict.keys(kw):
            if k in kw.seen:
                continue
            ok = DEFAULTS.get(k, ())
            v = dict.get(kw, k)
            if ok is ANY or isinstance(v, T) and v.op == 'const' and any(v.value is x or type(v.value) is type(x) and v.value == x for x in ok):
                continue
            raise Unsupported('argument %s of %s' % (k, [x for x in a if isinstance(x, str)][:1]))
        return r
    call.__doc__ = fn.__doc__
    return call


class Pandas:
    def __init__(self, libs):
        self.L = libs
        self.I = libs.I

    def ref(self, st, f):
        return self.I.frame_ref(st, f)

    # ------------------------------------------------------------ attributes
    def frame_attr(self, ref, f, name, st):
        from .libs import Columns
        if name == 'columns':
            return Columns([(n, p) for n, p in ((n, tm.assume(p, st.facts)) for n, (t, p) in f.cols.items())
                            if p is not FALSE]), st
        if name in ('loc', 'iloc', 'at', 'iat'):
            return Loc(ref, {'at': 'loc', 'iat': 'iloc'}.get(name, name)), st
        if name == 'empty':
            return neg(tm.exists(f.brs(()))), st
        if name == 'index':
            return f.index_series(), st
        if name == 'shape':
            return Tup([self.L.length(ref, st), self.L.length(Columns([(n, p) for n, (t, p) in f.cols.items()]), st)]), st
        if name == 'values':
            return ref, st
        if name in f.cols and name not in FRAME_METHODS:
            return self.frame_getitem(ref, f, const(name), st)
        if name == 'T':
            raise Unsupported('transpose')
        if name == 'dtypes':
            return Bound(ref, 'dtypes'), st
        return Bound(ref, name), st

    def series_attr(self, s, name, st):
        from .libs import StrAcc
        if name == 'values' or name == 'array':
            return fr.in_order(Series(s.branches, s.terms, s.order, s.labels, 'array', None, s.name, s.sort), s.okey), st
        if name in ('str', 'dt'):
            return StrAcc(s, name), st
        if name in ('loc', 'iloc', 'at', 'iat'):
            return Loc(s, {'at': 'loc', 'iat': 'iloc'}.get(name, name)), st
        if name == 'empty':
            return neg(tm.exists(s.brs(False))), st
        if name == 'index':
            if s.index is not None:
                return Series(s.branches, s.index, s.order, s.labels, 'index', s.index, None, s.sort), st
            return Series(s.branches, [fr.pos_term(s.labels, b) for b in s.branches], s.order, s.labels, 'index'), st
        if name == 'dtype':
            return self.dtype(s), st
        if name == 'is_unique':
            return self.is_unique(s), st
        if name == 'size':
            return self.L.count(s.branches), st
        if name == 'name':
            return const(s.name), st
        if name == 'shape':
            return Tup([self.L.count(s.branches)]), st
        if name in ('is_monotonic_increasing', 'is_monotonic'):
            return top('monotonic'), st
        return Bound(s, name), st

    def dtype(self, s):
        """the dtype of a column: that of the input column it comes from, or of the constants it holds"""
        ds = set()
        for b, t in zip(s.branches, s.terms):
            ds.add(self.term_dtype(t, dict(b.gens)))
        if len(ds) == 1:
            return ds.pop()
        return top('dtype')

    def term_dtype(self, t, gens):
        if t.op == 'ite':
            return tm.ite(t.args[0], self.term_dtype(t.args[1], gens), self.term_dtype(t.args[2], gens))
        if t.op == 'cell':
            tab = gens.get(t.args[0])
            if tab is not None and tab.op == 'input':
                return mk('dtype', tab.args[0], t.args[1])
        if t.op == 'const':
            v = tm.raw(t.value)
            if isinstance(v, bool):
                return const(('ext', 'numpy.bool_'))
            if isinstance(v, (int, float)):
                return const(('ext', 'numpy.int64' if isinstance(v, int) else 'numpy.float64'))
            if isinstance(v, str):
                return const(('ext', 'object'))
        return top('dtype')

    def is_unique(self, s):
        return eq(tm.agg('nunique', s.brs()), self.L.count(s.branches))

    def frame_setattr(self, ref, f, name, v, st):
        if name == 'columns':
            ns = self.L.names(v, st)
            old = list(f.cols)
            if len(ns) != len(old):
                raise Unsupported('columns assignment')
            cols = {}
            for (n, p), o in zip(ns, old):
                cols[n] = f.cols[o]
            self.I.put(st, ref, FrameObj(f.like(cols=cols), self.I.get(st, ref).origin))
            return
        if name == 'index':
            v = self.I.simp(v, st)
            if isinstance(v, Series):
                v = v.like(v.terms, kind='array')
                idx = tuple(fr.align(v, f.branches, f.labels, f.order))
                self.I.put(st, ref, FrameObj(f.like(index=idx, labels=token('l')), self.I.get(st, ref).origin))
            else:
                self.I.put(st, ref, FrameObj(f.like(index=None, labels=token('l')), self.I.get(st, ref).origin))
            return
        self.frame_setitem(ref, self.I.get(st, ref), const(name), v, st)

    # ------------------------------------------------------------ subscripts
    def need(self, f, name, st):
        """KeyError when the column may be missing"""
        p = f.cols[name][1] if name in f.cols else FALSE
        p = tm.assume(p, st.facts)
        if p is TRUE:
            return st
        return self.L.raise_if(st, neg(p), 'KeyError')

    def frame_getitem(self, ref, f, k, st):
        if isinstance(k, T):
            k = tm.assume(k, st.facts)
            if k.op == 'const':
                st = self.need(f, k.value, st)
                if st is None:
                    return None, None
                s = f.col(k.value)
                s.owner = ref
                return s, st
            if k.op == 'ite':
                a, s1 = self.frame_getitem(ref, f, k.args[1], State(st.heap, conj(st.pc, k.args[0])))
                b, s2 = self.frame_getitem(ref, f, k.args[2], State(st.heap, conj(st.pc, neg(k.args[0]))))
                if s1 is None:
                    return b, s2
                if s2 is None:
                    return a, s1
                return fr.merge_series(k.args[0], a, b), st
            # a column name taken from the data: one of the columns
            r = None
            for n in f.cols:
                c = eq(k, const(n))
                if c is FALSE:
                    continue
                s = f.col(n)
                r = s if r is None else s.like([ite(c, x, y) for x, y in zip(s.terms, r.terms)])
            if r is None:
                raise Unsupported('unknown column')
            return r, st
        mf = self.I.frame_of(k, st)
        if mf is not None:
            cols = {n: (tuple(ite(as_bool(mt), t, NANC) for mt, t in zip(mf.cols[n][0], ts)), p)
                    for n, (ts, p) in f.cols.items() if n in mf.cols}
            return self.ref(st, f.like(cols=cols)), st
        if isinstance(k, Series):
            return self.ref(st, self.filter(f, k)), st
        if isinstance(k, tuple) and k[0] == 'slice':
            return self.iloc_get(f, k, st)
        if isinstance(k, Ref) and self.masklist(k, st):
            return self.ref(st, self.filter(f, self.list_series(k, f, st))), st
        ns = self.L.names(k, st)
        return self.select(f, ns, st)

    def select(self, f, ns, st):
        cols = {}
        for n, p in ns:
            if n not in f.cols:
                st = self.L.raise_if(st, p, 'KeyError')
                if st is None:
                    return None, None
                continue
            fp = tm.assume(f.cols[n][1], st.facts)
            if p is not TRUE and fp is not TRUE:
                q = conj(p, fp)
            else:
                st = self.L.raise_if(st, conj(p, neg(fp)), 'KeyError')
                if st is None:
                    return None, None
                q = p
            cols[n] = (f.cols[n][0], tm.assume(q, st.facts))
        return self.ref(st, f.like(cols=cols)), st

    def masklist(self, k, st):
        o = self.I.get(st, k)
        return isinstance(o, ListObj) and o.items and all(i[0] == 'each' for i in o.items)

    def filter(self, f, mask):
        if mask.kind == 'series' and mask.labels != f.labels and mask.order == f.order:
            mask = mask.like(mask.terms, kind='array')
        return fr.filter_rows(f, mask)

    def counted(self, v, branches, st):
        """terms of a column given by consecutive numbers (range, np.arange), or a list made from them, in row order"""
        cell, val, rng = None, None, v
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if not isinstance(o, ListObj) or o.kind != 'list' or len(o.items) != 1 or o.items[0][0] != 'each':
                return None
            _, gens, guard, val = o.items[0]
            val = self.I.simp(val, st)
            if len(gens) != 1 or guard is not TRUE or gens[0][1].op != 'iter' or not isinstance(val, T):
                return None
            cell, rng = mk('cell', gens[0][0], 'item'), gens[0][1].args[0]
        if not (isinstance(rng, T) and rng.op == 'range' and len(rng.args) == 2):
            return None
        lab = token('l')
        fr.SPACES[lab] = ('rows', tuple(branches))
        terms = [tm.app('+', fr.pos_term(lab, b), rng.args[0]) for b in branches]
        return terms if cell is None else [tm.replace(val, {cell: t}) for t in terms]

    def list_series(self, v, f, st):
        """a list (or array) as a column of f"""
        ts = self.counted(v, f.branches, st)
        if ts is not None:
            return Series(f.branches, ts, f.order, f.labels, 'array')
        items = self.L.iterate(v, st)
        if f.branches and len(items) == len(f.branches):
            out = []
            for it, b in zip(items, f.branches):
                if it[0] == 'v' and not b.gens:
                    out.append(self.L.scalar(it[1], st))
                    continue
                if it[0] != 'each' or [t for _, t in it[1]] != [t for _, t in b.gens] and len(it[1]) != len(b.gens):
                    raise Unsupported('list as column')
                m = {a: x for (a, _), (x, _) in zip(it[1], b.gens)}
                if any(tm.subst(t, m) is not t2 for (_, t), (_, t2) in zip(it[1], b.gens)):
                    raise Unsupported('list as column: different rows')
                if tm.subst(it[2], m) is not b.guard:
                    raise Unsupported('list as column: different rows')
                out.append(self.L.scalar(self.L.subst_value(it[3], m, st), st))
            return Series(f.branches, out, f.order, f.labels, 'array')
        if not f.cols and not f.branches:
            fr2, _ = self.frame_from_cols([('v', v, TRUE)], st)
            return fr2.col('v')
        raise Unsupported('list as column')

    def frame_setitem(self, ref, ob, k, v, st):
        f = ob.frame
        v = self.I.simp(v, st)
        mf = self.I.frame_of(k, st) if not isinstance(k, tuple) else None
        if mf is not None:
            vt = self.L.scalar(v, st)
            cols = {n: (tuple(ite(as_bool(m), vt, t) for m, t in zip(mf.cols[n][0], ts)) if n in mf.cols else ts, p)
                    for n, (ts, p) in f.cols.items()}
            self.I.put(st, ref, FrameObj(f.like(cols=cols), ob.origin))
            return
        if isinstance(k, (Ref, Tup)):
            ns = [n for n, p in self.L.names(k, st)]
            vf = self.I.frame_of(v, st)
            if vf is not None:
                for n, m in zip(ns, list(vf.cols)):
                    f = fr.set_col(f, n, vf.col(m))
            else:
                for n in ns:
                    f = fr.set_col(f, n, self.L.scalar(v, st))
            self.I.put(st, ref, FrameObj(f, ob.origin))
            return
        if isinstance(k, Series):
            cols = {n: (tuple(ite(as_bool(m), self.L.scalar(v, st), t) for m, t in zip(k.terms, ts)), p)
                    for n, (ts, p) in f.cols.items()}
            self.I.put(st, ref, FrameObj(f.like(cols=cols), ob.origin))
            return
        if isinstance(k, T) and k.op == 'ite':
            f1 = self.setcol(f, k.args[1].value, v, st)
            f2 = self.setcol(f, k.args[2].value, v, st)
            self.I.put(st, ref, FrameObj(fr.merge_frames(k.args[0], f1, f2), ob.origin))
            return
        name = self.L.cval(k, st)
        try:
            nf = self.setcol(f, name, v, st)
        except Unsupported as e:
            nf = fr.set_col(f, name, top(str(e)))
        self.I.put(st, ref, FrameObj(nf, ob.origin))

    def setcol(self, f, name, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Series):
            if not f.branches and not f.cols:
                return fr.in_order(Frame(v.branches, {name: (v.terms, TRUE)}, v.order, v.labels, v.index), v.okey)
            if v.kind == 'index':
                v = v.like(v.terms, kind='array')
            if v.kind == 'series' and v.labels != f.labels and getattr(f, 'ddsrc', None) and f.ddsrc[0] == v.labels:
                terms = self.dd_align(f, v)
                return fr.set_col(f, name, Series(f.branches, terms, f.order, f.labels))
            if v.kind == 'series' and v.labels != f.labels and v.index is not None and f.index is not None:
                out = []
                for t in f.index:
                    brs = []
                    for b, vt, it in zip(v.branches, v.terms, v.index):
                        nb, (nv, ni) = fr.refresh(b, [vt, it])
                        brs.append(tm.br(nb.gens, conj(nb.guard, eq(ni, t)), nv))
                    ex = tm.exists([tm.br(b.args[0], b.args[1]) for b in brs])
                    out.append(ite(ex, tm.agg('first', brs), NANC))
                return fr.set_col(f, name, Series(f.branches, out, f.order, f.labels))
            return fr.set_col(f, name, v)
        vf = self.I.frame_of(v, st)
        if vf is not None:
            if len(vf.cols) == 1:
                return fr.set_col(f, name, vf.col(list(vf.cols)[0]))
            raise Unsupported('frame as column')
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, ListObj):
                return fr.set_col(f, name, self.list_series(v, f, st))
        if isinstance(v, Alt):
            r = None
            for c, x in reversed(v.alts):
                x = self.setcol(f, name, x, st)
                r = x if r is None else fr.merge_frames(c, x, r)
            return r
        if isinstance(v, T) and v.op == 'range':
            terms = self.counted(v, f.branches, st)
            if terms is None:
                raise Unsupported('range as column')
            return fr.set_col(f, name, Series(f.branches, terms, f.order, f.labels, 'array'))
        return fr.set_col(f, name, self.L.scalar(v, st))

    def dd_align(self, f, v):
        """value of v (labels of the source of a drop_duplicates) for the first row of each duplicate group"""
        labels, keys, src = f.ddsrc
        terms = []
        for i, b in enumerate(f.branches):
            cells = {k: f.cols0[k][i] for k in keys}
            brs = []
            byid = {sb.bid: (sb, j) for j, sb in enumerate(src.branches)}
            for vb, vt in zip(v.branches, v.terms):
                if vb.bid not in byid:
                    continue
                sb, j = byid[vb.bid]
                nb, ts = fr.refresh(vb, [vt] + [src.cols[k][0][j] for k in keys] + [sb.guard])
                brs.append(tm.br(nb.gens, conj(nb.guard, ts[-1], *[eq(t, cells[k]) for t, k in zip(ts[1:-1], keys)]), ts[0]))
            terms.append(tm.agg('first', brs))
        return terms

    def series_getitem(self, s, k, st):
        if isinstance(k, RowIdx):
            r = k.take(s)
            return (r if r is not None else top('rows of another table')), st
        if isinstance(k, Series):
            return fr.filter_rows(s, k), st
        if isinstance(k, tuple) and k[0] == 'slice':
            f = self.to_frame(s)
            r, st = self.iloc_get(f, k, st)
            return self.I.frame_of(r, st).col('v'), st
        if isinstance(k, T):
            if s.kind in ('array', 'index') or s.index is None:
                if k.op == 'const' and k.value in (0, -1):
                    return self.first(s, 'first' if k.value == 0 else 'last', st)
                if s.index is None:
                    return top('series element'), st
            brs = []
            for b, t, it in zip(s.branches, s.terms, s.index):
                nb, (nt, ni) = fr.refresh(b, [t, it])
                brs.append(tm.br(nb.gens, conj(nb.guard, eq(ni, k)), nt))
            ex = tm.exists([tm.br(b.args[0], b.args[1]) for b in brs])
            st = self.L.raise_if(st, neg(ex), 'KeyError')
            return tm.agg('first', brs), st
        return top('series subscript'), st

    def first(self, s, kind, st):
        ex = tm.exists(s.brs(False))
        ex = tm.assume(ex, st.facts)
        st = self.L.raise_if(st, neg(ex), 'IndexError')
        if st is None:
            return None, None
        return self.first_term(s, kind), st

    def first_term(self, s, kind):
        if len(s.branches) == 1 and not s.branches[0].gens:
            return s.terms[0]
        order = s.okey if s.okey is not None else s.sort
        if order is not None:
            brs = []
            for i, (b, t) in enumerate(zip(s.branches, s.terms)):
                brs.append(tm.br(b.gens, b.guard, t, *[k[i] for k, a in order]))
            return mk('agg', kind + '_by', mk('rel', *brs), tuple(bool(a) for _, a in order))
        return tm.agg(kind, s.brs())

    def to_frame(self, s, name='v'):
        return fr.in_order(Frame(s.branches, {name: (s.terms, TRUE)}, s.order, s.labels, s.index, s.sort), s.okey)

    def loc_get(self, loc, k, st):
        o = loc.obj
        if isinstance(o, Series):
            if loc.kind == 'iloc':
                return self.iloc_series(o, k, st)
            if isinstance(k, Series):
                return fr.filter_rows(o, k), st
            return self.series_getitem(o, k, st)
        f = self.I.frame_of(o, st)
        if f is None:
            return top('loc'), st
        rows, cols = k, None
        if isinstance(k, tuple) and k[0] == 'tuple':
            rows, cols = k[1][0], k[1][1]
        if isinstance(cols, tuple) and cols[0] == 'slice' and all(x is None for x in cols[1:]):
            cols = None
        if isinstance(rows, FuncVal):
            rows, st = self.I.call(rows, [o], {}, st)
            if st is None:
                return None, None
            rows = self.I.simp(rows, st)
        if loc.kind == 'iloc':
            if cols is not None:
                if isinstance(cols, T) and cols.op == 'const':
                    r = self.iloc_series(f.col(list(f.cols)[cols.value]), rows, st)
                    return r
                raise Unsupported('iloc columns')
            return self.iloc_get(f, rows, st)
        isall = isinstance(rows, tuple) and rows[0] == 'slice' and rows[1] is None and rows[2] is None
        if isall:
            sub = f
        elif isinstance(rows, Series) and (rows.kind != 'index'):
            if self.isbool(rows):
                sub = self.filter(f, rows)
            else:
                sub = self.by_labels(f, rows)
        elif isinstance(rows, Series):
            sub = self.by_index(f, rows)
        elif isinstance(rows, T) and f.index is not None:
            sub = fr.filter_rows(f, [eq(t, rows) for t in f.index])
            if cols is not None and isinstance(cols, T):
                st = self.need(sub, self.L.cval(cols, st), st)
                if st is None:
                    return None, None
                s = sub.col(self.L.cval(cols, st))
                ex = tm.exists(s.brs(False))
                st = self.L.raise_if(st, neg(ex), 'KeyError')
                if st is None:
                    return None, None
                return self.first_term(s, 'first'), st
            from .libs import Row
            return Row({n: (tm.agg('first', sub.col(n).brs()), p) for n, (t, p) in sub.cols.items()}, rows), st
        elif isinstance(rows, Ref) and self.masklist(rows, st):
            sub = self.filter(f, self.list_series(rows, f, st))
        elif isinstance(rows, Ref) and f.index is not None:
            m = [self.L.contains(rows, t, st) for t in f.index]
            sub = fr.filter_rows(f, m)
        elif isinstance(rows, T) and rows.op == 'const' and rows.value == 0 and f.index is None:
            return self.iloc_get(f, rows, st) if cols is None else self.first(f.col(self.L.cval(cols, st)), 'first', st)
        else:
            raise Unsupported('loc')
        if cols is None or (isinstance(cols, tuple) and cols[0] == 'slice'):
            return self.ref(st, sub), st
        return self.frame_getitem(self.ref(st, sub), sub, cols, st)

    def isbool(self, s):
        from .interp import is_boolish
        return all(is_boolish(t) or (t.op in ('truth', 'top')) or (t.op == 'cell') for t in s.terms)

    def by_index(self, f, idx):
        # index of a filtered version of the same table
        ms = []
        byid = {b.bid: b for b in idx.branches}
        if idx.labels != f.labels:
            raise Unsupported('loc by foreign index')
        for b in f.branches:
            o = byid.get(b.bid)
            ms.append(FALSE if o is None else o.guard if o.gens == b.gens else top('loc'))
        return fr.filter_rows(f, ms)

    def by_labels(self, f, s):
        raise Unsupported('loc by labels')

    def iloc_series(self, s, k, st):
        if isinstance(k, T) and k.op == 'const':
            if k.value == 0:
                return self.first(s, 'first', st)
            if k.value == -1:
                return self.first(s, 'last', st)
            return top('iloc'), st
        if isinstance(k, tuple) and k[0] == 'slice':
            f = self.to_frame(s)
            r, st = self.iloc_get(f, k, st)
            return self.I.frame_of(r, st).col('v'), st
        return top('iloc'), st

    def iloc_get(self, f, k, st):
        from .libs import Row
        if isinstance(k, T) and k.op == 'const' and k.value in (0, -1):
            kind = 'first' if k.value == 0 else 'last'
            ex = tm.exists(f.brs(()))
            st = self.L.raise_if(st, neg(ex), 'IndexError')
            if st is None:
                return None, None
            return Row({n: (self.first_term(f.col(n), kind), p) for n, (t, p) in f.cols.items()}), st
        if isinstance(k, tuple) and k[0] == 'slice':
            lo, hi, step = [None if x is None else self.L.cval(x, st) for x in k[1:]]
            if lo in (None, 0) and hi is None and step is None:
                return self.ref(st, f), st
            if step is None and (lo is None or lo >= 0) and (hi is None or hi >= 0):
                return self.ref(st, self.head(f, lo or 0, hi)), st
            if step is None and lo in (None, 0) and hi == -1 and f.sort is None and f.branches and not f.branches[-1].gens \
                    and f.branches[-1].guard is TRUE:
                return self.ref(st, fr.filter_rows(f, [TRUE] * (len(f.branches) - 1) + [FALSE])), st
        raise Unsupported('iloc')

    def head(self, f, lo, hi):
        if f.sort is None and f.okey is None:
            if all(not b.gens and b.guard is TRUE for b in f.branches):
                keep = list(range(len(f.branches)))[lo:hi]
                return fr.filter_rows(f, [TRUE if i in keep else FALSE for i in range(len(f.branches))])
            raise Unsupported('rows by position in an unsorted table')
        return fr.iloc_slice(f, lo, hi)

    def loc_set(self, loc, k, v, st):
        o = loc.obj
        if isinstance(o, Series):
            ow = getattr(o, 'owner', None)
            self.I.event(st, 'chained', 'assignment to a column copy', [])
            return
        if not isinstance(o, Ref):
            raise Unsupported('loc assignment')
        ob = self.I.get(st, o)
        f = ob.frame
        rows, cols = k, None
        if isinstance(k, tuple) and k[0] == 'tuple':
            rows, cols = k[1][0], k[1][1]
        if cols is None or (isinstance(cols, tuple) and cols[0] == 'slice'):
            ns = [(n, TRUE) for n in f.cols]
        else:
            ns = self.L.names(cols, st)
        if isinstance(rows, tuple) and rows[0] == 'slice' and rows[1] is None and rows[2] is None:
            masks = [TRUE for _ in f.branches]
        elif isinstance(rows, Series):
            if rows.kind == 'index':
                byid = {b.bid: b for b in rows.branches}
                masks = [byid[b.bid].guard if b.bid in byid else FALSE for b in f.branches] \
                    if rows.labels == f.labels else [top('loc') for _ in f.branches]
            else:
                r = rows
                if r.kind == 'series' and r.labels != f.labels and r.order == f.order:
                    r = r.like(r.terms, kind='array')
                masks = [as_bool(m) if not tm.is_nan_const(m) else FALSE
                         for m in fr.align(r, f.branches, f.labels, f.order)]
        elif isinstance(rows, T) and f.index is not None:
            masks = [eq(t, rows) for t in f.index]
        else:
            masks = [top('loc assignment') for _ in f.branches]
        vf = self.I.frame_of(v, st)
        for j, (n, there) in enumerate(ns):
            old = f.cols[n][0] if n in f.cols else tuple(NANC for _ in f.branches)
            if isinstance(v, Series):
                if v.kind == 'array':
                    # positional among the selected rows
                    vt = []
                    byid = {b.bid: (b, t) for b, t in zip(v.branches, v.terms)}
                    for b, m in zip(f.branches, masks):
                        h = byid.get(b.bid)
                        if h and h[0].gens == b.gens and (h[0].guard is conj(b.guard, tm.assume(m, tm.literals(b.guard)))
                                                          or v.order == f.order):
                            vt.append(h[1])
                        else:
                            vt.append(top('positional assignment'))
                else:
                    vt = fr.align(v, f.branches, f.labels, f.order)
            elif vf is not None:
                vt = fr.align(vf.col(list(vf.cols)[j]), f.branches, f.labels, f.order)
            elif isinstance(v, Ref):
                vt = [top('list assignment')] * len(f.branches)
            else:
                vt = [self.L.scalar(v, st)] * len(f.branches)
            new = tuple(ite(tm.assume(conj(there, m), tm.literals(b.guard)), x, y) for b, m, x, y in zip(f.branches, masks, vt, old))
            cols2 = dict(f.cols)
            cols2[n] = (new, TRUE if there is TRUE else tm.disj(there, f.cols[n][1] if n in f.cols else FALSE))
            f = f.like(cols=cols2)
        self.I.put(st, o, FrameObj(f, ob.origin))

    # ------------------------------------------------------------ operators
    def pair(self, a, b, st):
        """(series skeleton, terms a, terms b)"""
        a, b = self.I.simp(a, st), self.I.simp(b, st)
        a, b = self.conv_operand(a, st), self.conv_operand(b, st)
        if isinstance(a, Series) and isinstance(b, Series):
            kindlist = ('array', 'list', 'index')
            if a.kind in kindlist and b.kind == 'series':
                ta = fr.align(a.like(a.terms, kind='array'), b.branches, b.labels, b.order)
                return b, ta, b.terms
            if b.kind in kindlist:
                b2 = b.like(b.terms, kind='array')
                if a.kind in kindlist:
                    return a, a.terms, fr.align(b2, a.branches, a.labels, a.order)
                return a, a.terms, fr.align(b2, a.branches, a.labels, a.order)
            if a.labels != b.labels:
                if a.index is not None and b.index is not None:
                    return a, a.terms, self.index_align(a, b)
                return a, a.terms, fr.align(b, a.branches, a.labels, a.order)
            # union of labels; result rows where either is missing are NaN: only exact when same rows
            return a, a.terms, fr.align(b, a.branches, a.labels, a.order)
        if isinstance(a, Series):
            t = self.L.scalar(b, st)
            return a, a.terms, [t] * len(a.terms)
        t = self.L.scalar(a, st)
        return b, [t] * len(b.terms), b.terms

    def conv_operand(self, v, st):
        from .libs import ExtObj
        if isinstance(v, ExtObj):
            return self.L.ext_term(v, st)
        return v

    def index_align(self, a, b):
        out = []
        for t in a.index:
            brs = []
            for bb, vt, it in zip(b.branches, b.terms, b.index):
                nb, (nv, ni) = fr.refresh(bb, [vt, it])
                brs.append(tm.br(nb.gens, conj(nb.guard, eq(ni, t)), nv))
            ex = tm.exists([tm.br(x.args[0], x.args[1]) for x in brs])
            out.append(ite(ex, tm.agg('first', brs), NANC))
        return out

    def binop(self, op, a, b, st):
        fa, fb = self.I.frame_of(a, st), self.I.frame_of(b, st)
        if fa is not None or fb is not None:
            if fa is not None and fb is not None:
                cols = {n: (tuple(self.L.scalar_op(op, x, y) for x, y in zip(fa.cols[n][0], fr.align(
                    fb.col(n), fa.branches, fa.labels, fa.order))), p) for n, (t, p) in fa.cols.items() if n in fb.cols}
                return self.ref(st, fa.like(cols=cols))
            if fa is not None and isinstance(b, T):
                return self.ref(st, self.map_frame(fa, lambda t: self.L.scalar_op(op, t, b)))
            if fb is not None and isinstance(a, T):
                return self.ref(st, self.map_frame(fb, lambda t: self.L.scalar_op(op, a, t)))
            raise Unsupported('frame arithmetic')
        sk, ta, tb = self.pair(a, b, st)
        return sk.like([self.L.scalar_op(op, x, y) for x, y in zip(ta, tb)])

    def compare(self, op, a, b, st):
        fa = self.I.frame_of(a, st)
        fb = self.I.frame_of(b, st)
        if fa is not None and isinstance(b, T):
            return self.ref(st, self.map_frame(fa, lambda t: self.L.scalar_cmp(op, t, b)))
        if fa is not None or fb is not None:
            raise Unsupported('frame comparison')
        sk, ta, tb = self.pair(a, b, st)
        return sk.like([self.L.scalar_cmp(op, x, y) for x, y in zip(ta, tb)])

    def map_frame(self, f, fn):
        return f.like(cols={n: (tuple(fn(t) for t in ts), p) for n, (ts, p) in f.cols.items()})

    # ------------------------------------------------------------ pandas functions
    @tracked
    def call(self, p, args, kwargs, st):
        parts = p.split('.')
        n = parts[-1]
        if parts[0] in ('pandas', 'pd'):
            if n == 'merge':
                return self.merge(args[0], args[1], args[2:], kwargs, st)
            if n == 'concat':
                return self.concat(args[0], kwargs, st)
            if n == 'DataFrame':
                return self.dataframe(args, kwargs, st)
            if n in ('from_dict', 'from_records'):
                return self.dataframe(args, kwargs, st)
            if n == 'Series':
                return self.mkseries(args, kwargs, st)
            if n == 'melt':
                return self.frame_method(args[0], self.I.frame_of(args[0], st), 'melt', args[1:], kwargs, st)
            if n in ('isna', 'isnull', 'notna', 'notnull'):
                v = self.I.simp(args[0], st)
                if isinstance(v, Series):
                    return self.series_method(v, n, [], {}, st)
                f = self.I.frame_of(v, st)
                if f is not None:
                    return self.frame_method(v, f, n, [], {}, st)
                t = isna(self.L.scalar(v, st))
                return (t if n.startswith('is') else neg(t)), st
            if n == 'to_numeric':
                v = self.I.simp(args[0], st)
                if isinstance(v, Series):
                    return v.map(lambda t: self.L.conv('float', t)), st
                return self.L.conv('float', self.L.scalar(v, st)), st
            if n in ('set_option', 'reset_option'):
                return NONE, st
            if n in ('Timestamp', 'to_datetime'):
                v = self.I.simp(args[0], st)
                if isinstance(v, Series):
                    return v.map(lambda t: mk('dtf', 'to_datetime', t)), st
                return mk('dtf', 'to_datetime', *[self.L.scalar(a, st) for a in args]), st
            if n == 'Timedelta':
                ts = [self.L.scalar(a, st) for a in args] + [mk('kw', k, self.L.scalar(v, st)) for k, v in sorted(kwargs.items())]
                return mk('dtf', 'timedelta', *ts), st
            if n == 'unique':
                return fr.unique(args[0]), st
            return self.L.call_other(p, args, kwargs, st)
        return self.numpy(p, n, args, kwargs, st)

    def numpy(self, p, n, args, kwargs, st):
        args = [self.I.simp(a, st) for a in args]
        if n == 'where' and len(args) == 3:
            c, a, b = args
            ser = [x for x in args if isinstance(x, Series)]
            if not ser:
                ct = self.I.truth(c, st)
                return self.I.merge_val(ct, a, b), st
            sk = ser[0]
            ts = []
            for x in (c, a, b):
                if isinstance(x, Series):
                    ts.append(self.positional(x, sk))
                else:
                    ts.append([self.L.scalar(x, st)] * len(sk.branches))
            return Series(sk.branches, [ite(as_bool(x) if not tm.is_nan_const(x) else TRUE, y, z) for x, y, z in zip(*ts)],
                          sk.order, sk.labels, 'array'), st
        if n == 'select':
            conds = [i[1] for i in self.L.iterate(args[0], st)]
            vals = [i[1] for i in self.L.iterate(args[1], st)]
            d = args[2] if len(args) > 2 else kwargs.get('default', const(0))
            acc = d
            for c, v in reversed(list(zip(conds, vals))):
                acc, st = self.numpy(p, 'where', [c, v, acc], {}, st)
            return acc, st
        if n in ('fmin', 'fmax', 'minimum', 'maximum', 'add', 'subtract', 'multiply', 'divide', 'logical_and',
                 'logical_or'):
            a, b = args[:2]
            op = {'fmin': 'fmin', 'fmax': 'fmax', 'minimum': 'min2', 'maximum': 'max2', 'add': '+', 'subtract': '-',
                  'multiply': '*', 'divide': '/'}.get(n)
            fn = (lambda x, y: tm.app(op, x, y)) if op else \
                (lambda x, y: (conj if n == 'logical_and' else disj)(as_bool(x), as_bool(y)))
            if isinstance(a, Series) or isinstance(b, Series):
                sk, ta, tb = self.pair(a, b, st)
                return sk.like([fn(x, y) for x, y in zip(ta, tb)]), st
            return fn(self.L.scalar(a, st), self.L.scalar(b, st)), st
        if n in ('isnan',):
            v = args[0]
            return (v.map(isna) if isinstance(v, Series) else isna(self.L.scalar(v, st))), st
        if n in ('logical_not', 'invert'):
            return self.L.unop('Invert', args[0], st), st
        if n in ('abs', 'absolute', 'fabs', 'sqrt', 'floor', 'ceil', 'exp', 'log', 'sign'):
            return self.L.npfun(n, args[0], st), st
        if n in ('array', 'asarray'):
            v = args[0]
            if isinstance(v, Series):
                return v.like(v.terms, kind='array'), st
            return v, st
        if n in ('sum', 'max', 'min', 'any', 'all', 'mean', 'nanmax', 'nanmin', 'nansum', 'amax', 'amin'):
            n2 = {'nanmax': 'max', 'nanmin': 'min', 'nansum': 'sum', 'amax': 'max', 'amin': 'min'}.get(n, n)
            if isinstance(args[0], Series):
                return self.series_method(args[0], n2, [], {}, st)
            return self.L.reduce(n2, args[:1], {}, st), st
        if n == 'round':
            return self.L.round(args[0], args[1] if len(args) > 1 else kwargs.get('decimals', const(0)), st), st
        if n == 'arange':
            ts = [self.L.scalar(a, st) for a in args]
            return mk('range', *(ts if len(ts) > 1 else [const(0)] + ts)), st
        if n in ('unique',):
            return fr.unique(args[0]), st
        if n in ('clip',):
            return self.series_method(args[0], 'clip', args[1:], kwargs, st) if isinstance(args[0], Series) else (
                tm.app('min2', tm.app('max2', self.L.scalar(args[0], st), self.L.scalar(args[1], st)),
                       self.L.scalar(args[2], st)), st)
        if n in ('float64', 'int64', 'float32', 'str_', 'int32'):
            if isinstance(args[0], Series):
                return self.series_method(args[0], 'astype', [const('float' if n.startswith('float') else 'int')], {}, st)
            return self.L.conv('float' if n.startswith('float') else 'int', self.L.scalar(args[0], st)), st
        if n in ('isclose',):
            return top('isclose'), st
        if n == 'vectorize':
            return args[0], st
        raise Unsupported(p)

    def positional(self, x, sk):
        if x.order == sk.order:
            y = x.like(x.terms, kind='array')
            return fr.align(y, sk.branches, sk.labels, sk.order)
        if x.labels == sk.labels and len(x.branches) == len(sk.branches) and all(
                a.gens == b.gens and a.guard is b.guard for a, b in zip(x.branches, sk.branches)):
            return x.terms
        return [top('arrays of different rows') for _ in sk.branches]

    def mkseries(self, args, kwargs, st):
        data = args[0] if args else kwargs.get('data')
        data = self.I.simp(data, st)
        if isinstance(data, Series):
            return data, st
        if isinstance(data, Ref) and isinstance(self.I.get(st, data), DictObj):
            o = self.I.get(st, data)
            brs, ts, idx = [], [], []
            tag = token('s')
            for i, e in enumerate(o.entries):
                if e[0] == 'v':
                    brs.append(Branch((), e[3], (tag, i)))
                    ts.append(self.L.scalar(e[2], st))
                    idx.append(e[1])
                elif e[0] == 'each':
                    brs.append(Branch(e[1], e[2], (tag, i)))
                    ts.append(self.L.scalar(e[4], st))
                    idx.append(e[3])
                else:
                    raise Unsupported('Series of unknown dict')
            return Series(brs, ts, token('o'), token('l'), 'series', tuple(idx)), st
        idx = self.I.simp(kwargs.get('index', args[1] if len(args) > 1 else NONE), st)
        if isinstance(idx, Series) and idx.kind == 'index':
            if isinstance(data, T) and data.op != 'range':
                ts = [data] * len(idx.branches)
            else:
                ts = self.list_series(data, Frame(idx.branches, {'v': (idx.terms, TRUE)}, idx.order, idx.labels), st).terms \
                    if isinstance(data, Ref) else self.counted(data, idx.branches, st)
                if ts is None:
                    raise Unsupported('Series with an index')
            s = Series(idx.branches, ts, idx.order, idx.labels, 'series', idx.index)
            s.okey = idx.okey
            return s, st
        if idx is not NONE:
            raise Unsupported('Series with an index')
        f, _ = self.frame_from_cols([('v', data, TRUE)], st)
        return f.col('v'), st

    def dataframe(self, args, kwargs, st):
        d = bindn(['data', 'index', 'columns'], args, kwargs)
        data = self.I.simp(d.get('data', NONE), st)
        colnames = d.get('columns')
        if data is NONE or (self.L.is_obj(data, st, ListObj) and not self.I.get(st, data).items) or \
                (self.L.is_obj(data, st, DictObj) and not self.I.get(st, data).entries):
            cols = {n: ((), TRUE) for n, p in self.L.names(colnames, st)} if colnames is not None else {}
            return self.ref(st, Frame((), cols, token('o'), token('l'))), st
        f = self.I.frame_of(data, st)
        if f is not None:
            if colnames is not None:
                return self.select(f, self.L.names(colnames, st), st)
            return self.ref(st, f), st
        if isinstance(data, Series):
            n = data.name or 0
            return self.ref(st, self.to_frame(data, n)), st
        if isinstance(data, Ref):
            o = self.I.get(st, data)
            if isinstance(o, DictObj):
                ents = []
                for e in o.entries:
                    if e[0] != 'v':
                        raise Unsupported('DataFrame of data-dependent columns')
                    ents.append((e[1].value, e[2], e[3]))
                f, st = self.frame_from_cols(ents, st)
                if colnames is not None:
                    return self.select(f, self.L.names(colnames, st), st)
                return self.ref(st, f), st
            if isinstance(o, ListObj):
                return self.frame_from_rows(o, colnames, st), st
        if isinstance(data, T) and data.op not in ('top', 'const'):
            # table handed over by a library object: rows are opaque records
            g = tm.fresh_gid()
            cell = mk('cell', g, 'item')
            b = Branch(((g, mk('iter', data)),), TRUE, ('rec', token('r')))
            if colnames is not None:
                ns = self.L.names(colnames, st)
                return self.ref(st, Frame((b,), {n: ((mk('getitem', cell, const(i)),), TRUE) for i, (n, _) in enumerate(ns)},
                                          token('o'), token('l'))), st
        raise Unsupported('DataFrame constructor')

    def frame_from_rows(self, o, colnames, st):
        tag = token('d')
        brs, rows, pres = [], [], {}
        names = [n for n, p in self.L.names(colnames, st)] if colnames is not None else None
        order = []
        for i, it in enumerate(o.items):
            if it[0] == 'top':
                raise Unsupported('DataFrame of unknown list')
            gens, guard, v = ((), it[2], it[1]) if it[0] == 'v' else it[1:]
            v = self.I.simp(v, st)
            row = {}
            if isinstance(v, Ref) and isinstance(self.I.get(st, v), DictObj):
                for e in self.I.get(st, v).entries:
                    if e[0] != 'v':
                        raise Unsupported('DataFrame of unknown records')
                    row[e[1].value] = ite(e[3], self.L.scalar(e[2], st), NANC) if e[3] is not TRUE else self.cellval(e[2], st)
            elif isinstance(v, Tup) or self.L.is_obj(v, st, ListObj):
                vals = [x[1] for x in self.L.iterate(v, st)]
                ns = names or list(range(len(vals)))
                row = {n: self.cellval(x, st) for n, x in zip(ns, vals)}
            elif isinstance(v, T) and names and len(names) == 1:
                row = {names[0]: v}
            elif hasattr(v, 'cols'):
                row = {n: t for n, (t, p) in v.cols.items()}
            else:
                raise Unsupported('DataFrame row')
            for n in row:
                if n not in order:
                    order.append(n)
            brs.append(Branch(gens, guard, (tag, i)))
            rows.append(row)
        if names:
            order = names
        return self.ref(st, fr.in_order(Frame(brs, {n: (tuple(r.get(n, NANC) for r in rows), TRUE) for n in order}, token('o'),
                                              token('l')), fr.listed(brs)))

    def cellval(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, FuncVal):
            return mk('funcval', v)
        return self.L.scalar(v, st)

    def frame_from_cols(self, ents, st):
        """ents: [(name, value, presence)]"""
        tag = token('d')
        shape = None
        first_series = None
        lists = {}
        for n, v, p in ents:
            v = self.I.simp(v, st)
            if isinstance(v, Series):
                if first_series is None:
                    first_series = v
            elif isinstance(v, (Tup,)) or self.L.is_obj(v, st, ListObj) or (isinstance(v, T) and v.op in ('range',)):
                items = self.L.iterate(v, st)
                if any(i[0] == 'top' for i in items):
                    raise Unsupported('column from a list of unknown length')
                lists[n] = items
                sh = [('v', i[2]) if i[0] == 'v' else ('each', i[1], i[2]) for i in items]
                if shape is None or len(sh) > len(shape):
                    shape = sh
            elif isinstance(v, Alt) and all(isinstance(x, (Ref, Tup)) for _, x in v.alts):
                raise Unsupported('column list alternatives')
        cols = {}
        if first_series is not None:
            sk = first_series
            brs, order, labels, index = sk.branches, sk.order, sk.labels, sk.index
            if sk.kind != 'series':
                labels = token('l')
        elif shape is not None:
            brs = [Branch((), s[1], (tag, i)) if s[0] == 'v' else Branch(s[1], s[2], (tag, i)) for i, s in enumerate(shape)]
            order, labels, index = token('o'), token('l'), None
        else:
            brs, order, labels, index = [Branch((), TRUE, (tag, 0))], token('o'), token('l'), None
        base = Frame(brs, {}, order, labels, index)
        for n, v, p in ents:
            v = self.I.simp(v, st)
            if isinstance(v, Series):
                if v.kind == 'series':
                    if v.labels == sk.labels:
                        ts = fr.align(v, brs, sk.labels, order)
                    else:
                        ts = [top('columns with different indexes')] * len(brs)
                else:
                    ts = fr.align(v.like(v.terms, kind='array'), brs, labels, order)
            elif n in lists and first_series is not None and self.counted(v, brs, st) is not None:
                ts = self.counted(v, brs, st)
            elif n in lists:
                items = lists[n]
                if len(items) != len(brs):
                    if all(i[0] == 'v' and i[2] is TRUE for i in items) and all(not b.gens and b.guard is TRUE for b in brs):
                        self.L.raise_if(st, TRUE, 'ValueError')
                    raise Unsupported('columns of different length')
                ts = []
                for it, b in zip(items, brs):
                    if it[0] == 'v':
                        if b.gens or it[2] is not b.guard:
                            raise Unsupported('column lists of different shape')
                        ts.append(self.cellval(it[1], st))
                    else:
                        if it[1] == b.gens and it[2] is b.guard:
                            ts.append(self.cellval(it[3], st))
                        elif len(it[1]) == len(b.gens):
                            m = {a: x for (a, _), (x, _) in zip(it[1], b.gens)}
                            if tm.subst(it[2], m) is not b.guard or any(tm.subst(t, m) is not t2 for (_, t), (_, t2) in zip(it[1], b.gens)):
                                raise Unsupported('column lists over different rows')
                            ts.append(self.cellval(self.L.subst_value(it[3], m, st), st))
                        else:
                            raise Unsupported('column lists over different rows')
            elif isinstance(v, Alt) and first_series is not None:
                col = self.setcol(Frame(brs, {'__': (tuple(NANC for _ in brs), TRUE)}, order, labels, index), n, v, st)
                if len(col.branches) != len(brs):
                    raise Unsupported('column alternatives')
                ts = col.cols[n][0]
            else:
                ts = [self.cellval(v, st)] * len(brs)
            cols[n] = (tuple(ts), p)
        okey = first_series.okey if first_series is not None else fr.listed(brs)
        return fr.in_order(Frame(brs, cols, order, labels, index), okey), st

    # ------------------------------------------------------------ merge / concat
    def merge(self, l, r, args, kwargs, st):
        d = bindn(['how', 'on', 'left_on', 'right_on', 'left_index', 'right_index', 'sort', 'suffixes', 'copy',
                   'indicator', 'validate'], args, kwargs)
        lf, rf = self.I.frame_of(l, st), self.I.frame_of(r, st)
        if isinstance(r, Series) and r.name:
            rf = self.to_frame(r, r.name)
        if lf is None or rf is None:
            raise Unsupported('merge of unknown tables')
        how = self.L.cval(d.get('how', const('inner')), st)
        suf = self.L.cval(d['suffixes'], st) if 'suffixes' in d else ('_x', '_y')
        if 'on' in d and d['on'] is not NONE:
            lo = ro = self.names1(d['on'], st)
        elif 'left_on' in d:
            lo = self.names1(d['left_on'], st)
            if 'right_on' in d:
                ro = self.names1(d['right_on'], st)
            else:
                rf = rf.like(cols=dict(rf.cols, __idx=(rf.index, TRUE)))
                ro = ['__idx']
        elif how == 'cross':
            lo = ro = []
            how = 'inner'
        elif 'left_index' in d:
            if lf.index is None or rf.index is None:
                raise Unsupported('merge on index')
            raise Unsupported('merge on index')
        else:
            lo = []
            for n, (t, p) in lf.cols.items():
                if n in rf.cols:
                    both = tm.assume(conj(p, rf.cols[n][1]), st.facts)
                    if both is FALSE:
                        continue
                    if both is not TRUE:
                        raise Unsupported('merge on columns that may be missing')
                    lo.append(n)
            ro = lo
        for f, ks in ((lf, lo), (rf, ro)):
            for k in ks:
                st = self.need(f, k, st)
                if st is None:
                    return None, None
        lf = drop_absent(lf, st)
        rf = drop_absent(rf, st)
        ind = d.get('indicator')
        if ind is not None and ind is not FALSE:
            out = self.merge_indicator(lf, rf, how, lo, ro, suf)
        else:
            fr.SITE[0] = str(self.I.site())
            out = fr.merge(lf, rf, how, lo, ro, suf)
        if '__idx' in out.cols:
            out = out.like(cols={n: c for n, c in out.cols.items() if n != '__idx'})
        # keys of a left_on/right_on merge with different names: both kept (pandas), shared handled
        return self.ref(st, out), st

    def merge_indicator(self, lf, rf, how, lo, ro, suf):
        mark = lambda f, n: f.like(cols=dict(f.cols, **{n: (tuple(const(1) for _ in f.branches), TRUE)}))
        fr.SITE[0] = str(self.I.site())
        out = fr.merge(mark(lf, '__l'), mark(rf, '__r'), how, lo, ro, suf)
        l, r = out.cols['__l'][0], out.cols['__r'][0]
        ts = []
        for x, y in zip(l, r):
            ts.append(ite(isna(x), const('right_only'), ite(isna(y), const('left_only'), const('both'))))
        cols = {n: c for n, c in out.cols.items() if n not in ('__l', '__r')}
        cols['_merge'] = (tuple(ts), TRUE)
        return out.like(cols=cols)

    def names1(self, v, st):
        out = []
        for n, p in self.L.names(v, st):
            if p is not TRUE:
                raise Unsupported('key column list depends on optional columns')
            out.append(n)
        return out

    def concat(self, objs, kwargs, st):
        axis = kwargs.get('axis', const(0))
        axis = self.L.cval(axis, st)
        objs = self.I.simp(objs, st)
        if isinstance(objs, Ref) and isinstance(self.I.get(st, objs), DictObj):
            objs, st = self.L.dict_method(objs, self.I.get(st, objs), 'values', [], {}, st)
        items = self.L.iterate(objs, st)
        if any(i[0] == 'top' for i in items):
            raise Unsupported('concat of unknown list')
        st = self.L.raise_if(st, neg(self.I.nonempty_items(items)), 'ValueError')
        if st is None:
            return None, None
        if axis in (1, 'columns'):
            fs = []
            for i in items:
                v = self.I.simp(i[1], st) if i[0] == 'v' else None
                fs.append(self.to_frame(v, v.name) if isinstance(v, Series) else self.I.frame_of(v, st))
            if any(f is None for f in fs):
                raise Unsupported('concat axis=1')
            cols = {}
            base = fs[0]
            for f in fs:
                for n, (t, p) in f.cols.items():
                    cols[n] = (tuple(fr.align(f.col(n), base.branches, base.labels, base.order)), p)
            return self.ref(st, base.like(cols=cols)), st
        parts = []
        anyser = False
        for i in items:
            gens, guard, v = ((), i[2], i[1]) if i[0] == 'v' else i[1:]
            v = self.I.simp(v, st)
            alts = v.alts if isinstance(v, Alt) else [(TRUE, v)]
            for c, x in alts:
                if x is NONE:
                    continue
                if isinstance(x, Series):
                    anyser = True
                    f = self.to_frame(x, 0)
                else:
                    f = self.I.frame_of(x, st)
                if f is None:
                    raise Unsupported("concat of unknown table")
                f = drop_absent(f, st)
                if gens:
                    brs = [Branch(tuple(gens) + b.gens, conj(guard, b.guard), b.bid) for b in f.branches]
                    f = f.like(branches=brs, labels=token('l'), order=token('o'))
                    parts.append((f, c if not tm.gens_of(c) else TRUE))
                else:
                    parts.append((f, conj(c, guard)))
        out = fr.concat([(f, tm.assume(c, st.facts)) for f, c in parts if tm.assume(c, st.facts) is not FALSE])
        if anyser:
            return out.col(0), st
        return self.ref(st, out), st

    # ------------------------------------------------------------ methods
    @tracked
    def frame_method(self, ref, f, name, args, kwargs, st):
        L, I = self.L, self.I
        m = getattr(self, 'f_' + name, None)
        if m is not None:
            return m(ref, f, args, kwargs, st)
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'count', 'nunique'):
            axis = kwargs.get('axis', args[0] if args else const(0))
            axis = L.cval(axis, st)
            if axis in (1, 'columns'):
                return self.row_reduce(f, name, st, self.skips(kwargs, st)), st
            if not self.skips(kwargs, st):
                raise Unsupported('skipna=False over columns')
            from .libs import Row
            return Row({n: (fr.agg_series(f.col(n), name), p) for n, (t, p) in f.cols.items()}), st
        if name in BINOPS and len(args) >= 1 and kwargs.get('fill_value') is None:
            if I.frame_of(args[0], st) is not None or isinstance(args[0], T):
                return self.binop(BINOPS[name], ref, args[0], st), st
            axis = L.cval(kwargs.get('axis', args[1] if len(args) > 1 else const('columns')), st)
            if axis in (0, 'index') and isinstance(args[0], Series) and args[0].kind == 'series':
                ts = None
                new = {}
                for n, (t, p) in f.cols.items():
                    sk, ta, tb = self.pair(f.col(n), args[0], st)
                    new[n] = (tuple(L.scalar_op(BINOPS[name], x, y) for x, y in zip(ta, tb)), p)
                    ts = sk
                if ts is not None and len(ts.branches) == len(f.branches):
                    return self.ref(st, f.like(cols=new)), st
        raise Unsupported('DataFrame.' + name)

    def skips(self, kwargs, st):
        return bool(self.L.cval(kwargs['skipna'], st)) if 'skipna' in kwargs else True

    def row_reduce(self, f, name, st, skipna=True):
        out = []
        for i, b in enumerate(f.branches):
            acc = None
            miss = disj(*[conj(p, isna(ts[i])) for ts, p in f.cols.values()]) if not skipna and f.cols else FALSE
            for n, (ts, p) in f.cols.items():
                t = ts[i]
                if p is not TRUE:
                    t = ite(p, t, NANC)
                if name in ('max', 'min'):
                    acc = t if acc is None else tm.app('fmax' if name == 'max' else 'fmin', acc, t)
                elif name == 'sum':
                    t = ite(isna(t), const(0), t)
                    acc = t if acc is None else tm.app('+', acc, t)
                elif name == 'any':
                    acc = as_bool(t) if acc is None else disj(acc, as_bool(t))
                elif name == 'all':
                    acc = as_bool(t) if acc is None else conj(acc, as_bool(t))
                else:
                    raise Unsupported('row ' + name)
            out.append(ite(miss, NANC, acc) if acc is not None and miss is not FALSE else acc)
        return Series(f.branches, out, f.order, f.labels, 'series', f.index)

    def f_merge(self, ref, f, args, kwargs, st):
        return self.merge(ref, args[0], args[1:], kwargs, st)

    def f_copy(self, ref, f, args, kwargs, st):
        return self.ref(st, f), st

    def f_head(self, ref, f, args, kwargs, st):
        n = self.L.cval(args[0], st) if args else 5
        return self.ref(st, self.head(f, 0, n)), st

    def f_tail(self, ref, f, args, kwargs, st):
        n = self.L.cval(args[0], st) if args else 5
        order = f.okey if f.okey is not None else f.sort
        if order is None:
            raise Unsupported('tail of an unsorted table')
        g = fr.iloc_slice(f.like(sort=[(k, not a) for k, a in order]), 0, n)
        g.sort, g.okey = [(k, not a) for k, a in g.sort], None
        if f.okey is not None:
            g.okey = g.sort
        return self.ref(st, g), st

    def f_rename(self, ref, f, args, kwargs, st):
        mp = kwargs.get('columns', args[0] if args and 'axis' in kwargs else None)
        if mp is None:
            return self.ref(st, f), st
        mp = self.I.simp(mp, st)
        if isinstance(mp, Ref):
            o = self.I.get(st, mp)
            cols = {}
            ren = {}
            for e in o.entries:
                if e[0] != 'v' or e[1].op != 'const':
                    raise Unsupported('rename by data')
                ren[e[1].value] = (e[2], e[3])
            for n, c in f.cols.items():
                if n in ren:
                    t, p = ren[n]
                    t = self.L.scalar(t, st)
                    if p is not TRUE or t.op != 'const':
                        raise Unsupported('conditional rename')
                    new = t.value
                    if new in f.cols and new not in ren and new != n:
                        q = tm.assume(f.cols[new][1], st.facts)
                        if q is not FALSE and conj(q, c[1]) is not FALSE:
                            raise Unsupported('rename onto an existing column')
                    if new in cols:
                        cols[new] = (tuple(ite(c[1], a, b) for a, b in zip(c[0], cols[new][0])), disj(c[1], cols[new][1]))
                    else:
                        cols[new] = c
                elif n in cols:
                    cols[n] = (tuple(ite(c[1], a, b) for a, b in zip(c[0], cols[n][0])), disj(c[1], cols[n][1]))
                else:
                    cols[n] = c
        elif isinstance(mp, (FuncVal, Ext)):
            cols = {}
            for n, c in f.cols.items():
                v, st = self.I.call(mp, [const(n)], {}, st)
                cols[self.L.cval(v, st)] = c
        else:
            raise Unsupported('rename')
        nf = f.like(cols=cols)
        return self.inplace(ref, nf, kwargs, st)

    def inplace(self, ref, nf, kwargs, st):
        if 'inplace' in kwargs and kwargs['inplace'] is TRUE:
            self.I.put(st, ref, FrameObj(nf, self.I.get(st, ref).origin))
            return NONE, st
        return self.ref(st, nf), st

    def f_drop(self, ref, f, args, kwargs, st):
        cols = kwargs.get('columns')
        if cols is None:
            axis = kwargs.get('axis', args[1] if len(args) > 1 else const(0))
            if self.L.cval(axis, st) not in (1, 'columns'):
                lab = self.I.simp(args[0] if args else kwargs.get('index', kwargs.get('labels')), st)
                if isinstance(lab, Series) and lab.kind == 'index':
                    byid = {b.bid: b.guard for b in lab.branches}
                    if lab.labels != f.labels:
                        raise Unsupported('drop rows by foreign index')
                    return self.inplace(ref, fr.filter_rows(f, [neg(byid.get(b.bid, FALSE)) for b in f.branches]), kwargs, st)
                raise Unsupported('drop rows')
            cols = args[0] if args else kwargs.get('labels')
        ns = self.L.names(cols, st)
        new = dict(f.cols)
        ignore = 'errors' in kwargs and self.L.cval(kwargs['errors'], st) == 'ignore'
        for n, p in ns:
            if n not in new:
                if ignore:
                    continue
                st = self.L.raise_if(st, p, 'KeyError')
                if st is None:
                    return None, None
                continue
            q = tm.assume(new[n][1], st.facts)
            if q is not TRUE and not ignore:
                st = self.L.raise_if(st, conj(p, neg(q)), 'KeyError')
                if st is None:
                    return None, None
            if p is TRUE:
                del new[n]
            else:
                new[n] = (new[n][0], conj(q, neg(p)))
        return self.inplace(ref, f.like(cols=new), kwargs, st)

    def f_groupby(self, ref, f, args, kwargs, st):
        by = self.I.simp(args[0] if args else kwargs.get('by'), st)
        if isinstance(by, Series):
            raise Unsupported('groupby a series')
        keys = self.names1(by, st)
        for k in keys:
            st = self.need(f, k, st)
            if st is None:
                return None, None
        ai = kwargs.get('as_index', args[2] if len(args) > 2 else TRUE)
        # rows with a missing key are dropped by groupby
        ff = fr.filter_rows(f, [conj(*[neg(isna(f.cols[k][0][i])) for k in keys]) for i in range(len(f.branches))]) \
            if kwargs.get('dropna', TRUE) is TRUE else f
        g = GroupBy(ff, keys, ai is TRUE, None, isinstance(by, T))
        return g, st

    def f_drop_duplicates(self, ref, f, args, kwargs, st):
        sub = kwargs.get('subset', args[0] if args else NONE)
        keep = self.L.cval(kwargs.get('keep', const('first')), st)
        f = drop_absent(f, st)
        keys = None
        if sub is not NONE:
            keys = []
            for n, p in self.L.names(sub, st):
                p = self.I.simp(p, st)
                if p is not TRUE and not (n in f.cols and f.cols[n][1] is p):
                    raise Unsupported('key column list depends on optional columns')
                keys.append(n)
        ks = keys or list(f.cols)
        if any(f.cols[k][1] is not TRUE for k in ks if k in f.cols):
            # absent columns do not take part: treat them as constant
            f2 = f.like(cols={n: (tuple(ite(p, t, NONE) for t in ts), p) for n, (ts, p) in f.cols.items()})
        else:
            f2 = f
        if keep is False:
            raise Unsupported('drop_duplicates(keep=False)')
        out = self.dedup(f2, ks, keep)
        return self.inplace(ref, out, kwargs, st)

    def dedup(self, f, keys, keep='first'):
        for k in keys:
            if k not in f.cols:
                raise MissingColumn(k)
        out = fr.drop_duplicates(f, keys, keep)
        if out.labels != f.labels:
            out.ddsrc = (f.labels, tuple(keys), f)
            out.cols0 = {k: out.cols[k][0] for k in keys}
        return out

    def f_duplicated(self, ref, f, args, kwargs, st):
        sub = kwargs.get('subset', args[0] if args else NONE)
        keys = self.names1(sub, st) if sub is not NONE else list(f.cols)
        keep = kwargs.get('keep', const('first'))
        keep = self.L.cval(keep, st)
        for k in keys:
            if k not in f.cols:
                raise MissingColumn(k)
        if f.okey is not None:
            fr.note_sort(f)
            s = Series(f.branches, [fr.other_row(f, keys, i, keep) for i in range(len(f.branches))], f.order, f.labels, index=f.index)
            s.okey = f.okey
            return s, st
        s = Series(f.branches, [mk('dup', mk('row', *[f.cols[k][0][i] for k in keys]),
                                   mk('rel', *f.brs(keys)), str(keep)) for i in range(len(f.branches))],
                   f.order, f.labels)
        s.dupinfo = (f, keys, keep)
        return s, st

    def f_sort_values(self, ref, f, args, kwargs, st):
        by = self.names1(args[0] if args else kwargs['by'], st)
        asc = kwargs.get('ascending', args[2] if len(args) > 2 else TRUE)
        asc = self.L.cval(asc, st)
        kind = self.L.cval(kwargs.get('kind', NONE), st)
        nf = fr.sort_values(f, by, asc, kind in ('stable', 'mergesort'))
        return self.inplace(ref, nf, kwargs, st)

    def f_sort_index(self, ref, f, args, kwargs, st):
        if f.index is not None:
            fr.note_sort(f)
            return self.inplace(ref, f.like(order=token('o'), sort=[(f.index, True)]), kwargs, st)
        return self.inplace(ref, fr.in_order(f.like(order=token('o')), None), kwargs, st)

    def f_reset_index(self, ref, f, args, kwargs, st):
        drop = self.L.cval(kwargs.get('drop', FALSE), st)
        cols = dict(f.cols)
        if not drop:
            if f.index is None:
                cols = dict([('index', (tuple(fr.pos_term(f.labels, b) for b in f.branches), TRUE))] + list(cols.items()))
            else:
                names = getattr(f, 'index_names', None) or ['index']
                new = {}
                for j, n in enumerate(names):
                    new[n] = (tuple(t.args[j] if t.op == 'tuple' and len(names) > 1 else t for t in f.index), TRUE)
                new.update(cols)
                cols = new
        nf = fr.in_order(Frame(f.branches, cols, f.order, token('l'), None, f.sort), f.okey)
        return self.inplace(ref, nf, kwargs, st)

    def f_set_index(self, ref, f, args, kwargs, st):
        k = self.names1(args[0] if args else kwargs['keys'], st)
        for n in k:
            st = self.need(f, n, st)
            if st is None:
                return None, None
        if len(k) == 1:
            idx = f.cols[k[0]][0]
        else:
            idx = tuple(mk('tuple', *[f.cols[n][0][i] for n in k]) for i in range(len(f.branches)))
        drop = self.L.cval(kwargs.get('drop', TRUE), st)
        nf = Frame(f.branches, {n: c for n, c in f.cols.items() if n not in k or not drop}, f.order, token('l'), idx, f.sort)
        nf.okey = f.okey
        nf.index_names = list(k)
        return self.inplace(ref, nf, kwargs, st)

    def f_isna(self, ref, f, args, kwargs, st):
        return self.ref(st, self.map_frame(f, isna)), st
    f_isnull = f_isna

    def f_notna(self, ref, f, args, kwargs, st):
        return self.ref(st, self.map_frame(f, lambda t: neg(isna(t)))), st
    f_notnull = f_notna

    def f_fillna(self, ref, f, args, kwargs, st):
        v = self.I.simp(args[0] if args else kwargs['value'], st)
        if isinstance(v, Ref) and isinstance(self.I.get(st, v), DictObj):
            d = {e[1].value: self.L.scalar(e[2], st) for e in self.I.get(st, v).entries}
            nf = f.like(cols={n: (tuple(ite(isna(t), d[n], t) for t in ts) if n in d else ts, p)
                              for n, (ts, p) in f.cols.items()})
        else:
            t0 = self.L.scalar(v, st)
            nf = self.map_frame(f, lambda t: ite(isna(t), t0, t))
        return self.inplace(ref, nf, kwargs, st)

    def f_dropna(self, ref, f, args, kwargs, st):
        sub = kwargs.get('subset', NONE)
        keys = self.names1(sub, st) if sub is not NONE else list(f.cols)
        how = self.L.cval(kwargs.get('how', args[1] if len(args) > 1 else const('any')), st)
        if args and args[0] not in (const(0), const('index')) or how not in ('any', 'all'):
            raise Unsupported('dropna')
        keep = conj if how == 'any' else disj
        nf = fr.filter_rows(f, [keep(*[neg(isna(f.cols[k][0][i])) if f.cols[k][1] is TRUE else
                                       (disj if how == 'any' else conj)(neg(f.cols[k][1]) if how == 'any' else f.cols[k][1],
                                                                        neg(isna(f.cols[k][0][i]))) for k in keys])
                                for i in range(len(f.branches))])
        return self.inplace(ref, nf, kwargs, st)

    def f_apply(self, ref, f, args, kwargs, st):
        from .libs import Row
        fn = args[0] if args else kwargs['func']
        axis = kwargs.get('axis', args[1] if len(args) > 1 else const(0))
        extra = list(self.I.simp(kwargs['args'], st).items) if 'args' in kwargs else []
        kw = {k: v for k, v in kwargs.items() if k not in ('axis', 'args', 'func', 'raw', 'result_type')}
        if self.L.cval(axis, st) not in (1, 'columns'):
            raise Unsupported('apply over columns')
        out = []
        series_rows = []
        for i, b in enumerate(f.branches):
            idx = f.index[i] if f.index is not None else fr.pos_term(f.labels, b)
            row = Row({n: (ts[i], p) for n, (ts, p) in f.cols.items()}, idx)
            r = self.L.generic(b.gens, b.guard, st, lambda s: self.I.call(fn, [row] + extra, kw, s))
            if r is None:
                out.append(NANC)
                continue
            r = self.I.simp(r, st)
            if isinstance(r, Row):
                series_rows.append(r)
            elif isinstance(r, T):
                out.append(r)
            else:
                out.append(self.L.scalar(r, st))
        if series_rows and len(series_rows) == len(f.branches):
            names = []
            for r in series_rows:
                for n in r.cols:
                    if n not in names:
                        names.append(n)
            cols = {n: (tuple(r.cols[n][0] if n in r.cols else NANC for r in series_rows), TRUE) for n in names}
            return self.ref(st, f.like(cols=cols)), st
        return Series(f.branches, out, f.order, f.labels, 'series', f.index), st

    def f_melt(self, ref, f, args, kwargs, st):
        d = bindn(['id_vars', 'value_vars', 'var_name', 'value_name'], args, kwargs)
        f = drop_absent(f, st)
        idv = self.L.names(d['id_vars'], st) if 'id_vars' in d and d['id_vars'] is not NONE else []
        if 'value_vars' in d and d['value_vars'] is not NONE:
            vv = self.L.names(d['value_vars'], st)
        else:
            vv = [(n, p) for n, (t, p) in f.cols.items() if n not in [x for x, _ in idv]]
        vn = self.L.cval(d.get('var_name', const('variable')), st)
        val = self.L.cval(d.get('value_name', const('value')), st)
        for n, p in idv:
            if p is TRUE:
                st = self.need(f, n, st)
                if st is None:
                    return None, None
        for n, p in vv:
            if n not in f.cols:
                st = self.L.raise_if(st, p, 'KeyError')
                if st is None:
                    return None, None
        vv2 = []
        for n, p in vv:
            if n in f.cols:
                q = tm.assume(f.cols[n][1], st.facts)
                if p is TRUE and q is not TRUE:
                    st = self.L.raise_if(st, neg(q), 'KeyError')
                    if st is None:
                        return None, None
                    q = TRUE
                vv2.append((n, conj(p, q)))
        out = fr.melt(f, [n for n, p in idv if n in f.cols], vv2, vn, val)
        for n, p in idv:
            if p is not TRUE and n in out.cols:
                out.cols[n] = (out.cols[n][0], conj(p, out.cols[n][1]))
        return self.ref(st, out), st

    def f_to_dict(self, ref, f, args, kwargs, st):
        orient = self.L.cval(kwargs.get('orient', args[0] if args else const('dict')), st)
        I = self.I
        if orient in ('records', 'record'):
            items = []
            for i, b in enumerate(f.branches):
                d = I.new(st, DictObj([('v', const(n), ts[i], p) for n, (ts, p) in f.cols.items()]))
                items.append(('each', b.gens, b.guard, d) if b.gens else ('v', d, b.guard))
            return I.new(st, ListObj(items)), st
        if orient == 'list':
            ents = []
            for n, (ts, p) in f.cols.items():
                v = I.new(st, ListObj([('each', b.gens, b.guard, t) if b.gens else ('v', t, b.guard)
                                       for b, t in zip(f.branches, ts)]))
                ents.append(('v', const(n), v, p))
            return I.new(st, DictObj(ents)), st
        idx = f.index if f.index is not None else [fr.pos_term(f.labels, b) for b in f.branches]
        if orient == 'index':
            ents = []
            for i, b in enumerate(f.branches):
                d = I.new(st, DictObj([('v', const(n), ts[i], p) for n, (ts, p) in f.cols.items()]))
                ents.append(('each', b.gens, b.guard, idx[i], d) if b.gens else ('v', idx[i], d, b.guard))
            return I.new(st, DictObj(ents)), st
        ents = []
        for n, (ts, p) in f.cols.items():
            d = I.new(st, DictObj([('each', b.gens, b.guard, idx[i], ts[i]) if b.gens else ('v', idx[i], ts[i], b.guard)
                                   for i, b in enumerate(f.branches)]))
            ents.append(('v', const(n), d, p))
        return I.new(st, DictObj(ents)), st

    def f_assign(self, ref, f, args, kwargs, st):
        for n, v in kwargs.items():
            v = self.I.simp(v, st)
            if isinstance(v, FuncVal):
                r = self.ref(st, f)
                v, st = self.I.call(v, [r], {}, st)
                if st is None:
                    return None, None
            f = self.setcol(f, n, v, st)
        return self.ref(st, f), st

    def f_astype(self, ref, f, args, kwargs, st):
        t = self.I.simp(args[0] if args else kwargs['dtype'], st)
        if isinstance(t, Ref) and isinstance(self.I.get(st, t), DictObj):
            cols = dict(f.cols)
            for e in self.I.get(st, t).entries:
                n = e[1].value
                if n in cols:
                    cols[n] = (tuple(self.astype(x, e[2]) for x in cols[n][0]), cols[n][1])
            return self.ref(st, f.like(cols=cols)), st
        return self.ref(st, self.map_frame(f, lambda x: self.astype(x, t))), st

    def astype(self, x, t):
        nm = t.path.split('.')[-1] if isinstance(t, Ext) else str(t.value) if isinstance(t, T) and t.op == 'const' else '?'
        if nm.startswith('float'):
            return self.L.conv('float', x)
        if nm.startswith('int'):
            return x if tm.rowid_parts(x) else self.L.conv('int', x)
        if nm.startswith('str'):
            return self.L.conv('str', x)
        if nm.startswith('bool'):
            return as_bool(x)
        if nm in ('object', 'category'):
            return x
        return top('astype')

    def f_iterrows(self, ref, f, args, kwargs, st):
        from .libs import Row
        items = []
        for i, b in enumerate(f.branches):
            idx = f.index[i] if f.index is not None else fr.pos_term(f.labels, b)
            row = Row({n: (ts[i], p) for n, (ts, p) in f.cols.items()}, idx)
            v = Tup([idx, row])
            items.append(('each', b.gens, b.guard, v) if b.gens else ('v', v, b.guard))
        return self.I.new(st, ListObj(items)), st

    def f_itertuples(self, ref, f, args, kwargs, st):
        from .libs import Row
        items = []
        for i, b in enumerate(f.branches):
            row = Row({n: (ts[i], p) for n, (ts, p) in f.cols.items()})
            items.append(('each', b.gens, b.guard, row) if b.gens else ('v', row, b.guard))
        return self.I.new(st, ListObj(items)), st

    def f_items(self, ref, f, args, kwargs, st):
        return self.I.new(st, ListObj([('v', Tup([const(n), f.col(n)]), p) for n, (t, p) in f.cols.items()])), st

    def f_keys(self, ref, f, args, kwargs, st):
        return self.frame_attr(ref, f, 'columns', st)

    def f_get(self, ref, f, args, kwargs, st):
        n = self.L.cval(args[0], st)
        other = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        if n in f.cols:
            there = tm.assume(f.cols[n][1], st.facts)
            if there is TRUE:
                return f.col(n), st
            if there is not FALSE:
                other = self.I.simp(other, st)
                if isinstance(other, T) and other is not NONE:
                    s = f.col(n)
                    return Alt([(there, s), (neg(there), other)]), st
                raise Unsupported('get')
        return other, st

    def f_pop(self, ref, f, args, kwargs, st):
        n = self.L.cval(args[0], st)
        st = self.need(f, n, st)
        if st is None:
            return None, None
        s = f.col(n)
        self.I.put(st, ref, FrameObj(f.like(cols={k: c for k, c in f.cols.items() if k != n}), self.I.get(st, ref).origin))
        return s, st

    def f_insert(self, ref, f, args, kwargs, st):
        self.frame_setitem(ref, self.I.get(st, ref), args[1], args[2], st)
        return NONE, st

    def f_to_sql(self, ref, f, args, kwargs, st):
        if '_sql.to_sql' in self.I.intercepts:
            return self.I.intercepts['_sql.to_sql'](self.I, None, [ref] + list(args), kwargs, st)
        self.I.event(st, 'to_sql', 'to_sql', [f] + list(args), kwargs)
        return NONE, st

    def f_to_numpy(self, ref, f, args, kwargs, st):
        return ref, st

    def f_query(self, ref, f, args, kwargs, st):
        v, st = self.f_eval(ref, f, args, kwargs, st)
        if st is None:
            return None, None
        if not isinstance(v, Series):
            raise Unsupported('query')
        return self.ref(st, self.filter(f, v)), st

    def f_eval(self, ref, f, args, kwargs, st):
        import ast
        q = self.L.cval(args[0] if args else kwargs['expr'], st)
        if not isinstance(q, str) or '`' in q or '\n' in q:
            raise Unsupported('eval')
        from .interp import Env
        try:
            tree = ast.parse(q.replace('@', '__at_'), mode='eval').body
        except SyntaxError:
            raise Unsupported('eval')

        class Fix(ast.NodeTransformer):
            def visit_BoolOp(self, n):
                self.generic_visit(n)
                op = ast.BitAnd() if isinstance(n.op, ast.And) else ast.BitOr()
                r = n.values[0]
                for x in n.values[1:]:
                    r = ast.BinOp(r, op, x)
                return r

            def visit_UnaryOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Not):
                    n.op = ast.Invert()
                return n

            def visit_Compare(self, n):
                self.generic_visit(n)
                r, left = None, n.left
                for op, right in zip(n.ops, n.comparators):
                    if isinstance(op, (ast.In, ast.NotIn)) or isinstance(right, ast.List) and isinstance(op, (ast.Eq, ast.NotEq)):
                        c = ast.Call(ast.Attribute(left, 'isin', ast.Load()), [right], [])
                        if isinstance(op, (ast.NotIn, ast.NotEq)):
                            c = ast.UnaryOp(ast.Invert(), c)
                    else:
                        c = ast.Compare(left, [op], [right])
                    r, left = c if r is None else ast.BinOp(r, ast.BitAnd(), c), right
                return r
        tree = ast.fix_missing_locations(Fix().visit(tree))
        env0 = self.I.cur[-1].env
        e = self.I.get(st, env0)
        vars = {n: f.col(n) for n in f.cols}
        for k, v in e.vars.items():
            vars['__at_' + k] = v
        newenv = self.I.new(st, Env(vars, env0))
        ctx = self.I.cur[-1]
        save = ctx.env
        ctx.env = newenv
        try:
            v, st = self.I.ev(tree, st)
        finally:
            ctx.env = save
        return v, st

    def f_where(self, ref, f, args, kwargs, st, invert=False):
        c = self.I.simp(args[0], st)
        other = args[1] if len(args) > 1 else kwargs.get('other', NANC)
        mf = self.I.frame_of(c, st)
        ot = self.L.scalar(other, st)
        cols = {}
        for n, (ts, p) in f.cols.items():
            ms = mf.cols[n][0] if mf is not None else fr.align(c, f.branches, f.labels, f.order)
            cols[n] = (tuple(ite(as_bool(m), t, ot) if not invert else ite(as_bool(m), ot, t) for m, t in zip(ms, ts)), p)
        return self.ref(st, f.like(cols=cols)), st

    def f_mask(self, ref, f, args, kwargs, st):
        return self.f_where(ref, f, args, kwargs, st, True)

    def f_isin(self, ref, f, args, kwargs, st):
        return self.ref(st, f.like(cols={n: (tuple(self.isin(t, args[0], st) for t in ts), p) for n, (ts, p) in f.cols.items()})), st

    def f_join(self, ref, f, args, kwargs, st):
        rf = self.I.frame_of(args[0], st)
        if isinstance(args[0], Series):
            rf = self.to_frame(args[0], args[0].name)
        on = kwargs.get('on')
        how = self.L.cval(kwargs.get('how', const('left')), st)
        if rf is None or rf.index is None:
            raise Unsupported('join')
        if on is not None:
            k = self.names1(on, st)[0]
            left = f
        elif f.index is not None:
            k = '__k'
            left = f.like(cols=dict(f.cols, __k=(f.index, TRUE)))
        else:
            raise Unsupported('join')
        r2 = rf.like(cols=dict(rf.cols, __idx=(rf.index, TRUE)))
        fr.SITE[0] = str(self.I.site())
        out = fr.merge(left, r2, how, [k], ['__idx'])
        out = out.like(cols={n: c for n, c in out.cols.items() if n not in ('__idx', '__k')})
        return self.ref(st, out), st

    def f_agg(self, ref, f, args, kwargs, st):
        raise Unsupported('DataFrame.agg')
    f_aggregate = f_agg

    def f_pipe(self, ref, f, args, kwargs, st):
        return self.I.call(args[0], [ref] + list(args[1:]), kwargs, st)

    def f_filter(self, ref, f, args, kwargs, st):
        if 'items' in kwargs:
            ns = [(n, p) for n, p in self.L.names(kwargs['items'], st) if n in f.cols]
            return self.select(f, ns, st)
        raise Unsupported('filter')

    def f_reindex(self, ref, f, args, kwargs, st):
        if 'columns' in kwargs:
            cols = {}
            fill = self.L.scalar(kwargs['fill_value'], st) if 'fill_value' in kwargs else NANC
            for n, p in self.L.names(kwargs['columns'], st):
                if n in f.cols:
                    ts, there = f.cols[n]
                    there = tm.assume(there, st.facts)
                    cols[n] = (ts if there is TRUE else tuple(ite(there, t, fill) for t in ts), p)
                else:
                    cols[n] = (tuple(fill for _ in f.branches), p)
            return self.ref(st, f.like(cols=cols)), st
        raise Unsupported('reindex')

    def f_replace(self, ref, f, args, kwargs, st):
        cols = {}
        for n, (ts, p) in f.cols.items():
            s, st = self.series_method(f.col(n), 'replace', args, kwargs, st)
            cols[n] = (s.terms, p)
        return self.ref(st, f.like(cols=cols)), st

    def f_round(self, ref, f, args, kwargs, st):
        nd = self.L.scalar(args[0], st) if args else const(0)
        return self.ref(st, self.map_frame(f, lambda t: mk('np', 'round', t, nd))), st

    def f_abs(self, ref, f, args, kwargs, st):
        return self.ref(st, self.map_frame(f, lambda t: mk('np', 'abs', t))), st

    def f_transpose(self, ref, f, args, kwargs, st):
        raise Unsupported('transpose')

    def f_stack(self, ref, f, args, kwargs, st):
        raise Unsupported('stack')

    def f_itercols(self, *a):
        raise Unsupported('x')

    # ------------------------------------------------------------ series methods
    def isin(self, t, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Series):
            return fr.isin_series(t, v)
        if isinstance(v, Alt):
            return disj(*[conj(c, self.isin(t, x, st)) for c, x in v.alts])
        if isinstance(v, Ref) and isinstance(self.I.get(st, v), ListObj):
            items = self.I.get(st, v).items
            if all(i[0] == 'v' and i[2] is TRUE and isinstance(i[1], T) and i[1].op == 'const' for i in items):
                return tm.isin_const(t, [i[1].value for i in items])
            # several conditional constants
            return self.L.contains_items(items, t, st)
        return self.L.contains(v, t, st)

    @tracked
    def series_method(self, s, name, args, kwargs, st):
        L, I = self.L, self.I
        args = [I.simp(a, st) for a in args]
        if name in ('isna', 'isnull'):
            return s.map(isna), st
        if name in ('notna', 'notnull'):
            return s.map(lambda t: neg(isna(t))), st
        if name == 'isin':
            v = args[0] if args else kwargs['values']
            return s.map(lambda t: self.isin(t, v, st)), st
        if name in ('copy', 'to_numpy', 'astype', 'squeeze', 'infer_objects', 'convert_dtypes'):
            if name == 'astype':
                ty = args[0] if args else kwargs['dtype']
                return s.map(lambda x: self.astype(x, ty)), st
            if name == 'to_numpy':
                return s.like(s.terms, kind='array'), st
            return s, st
        if name in ('tolist', 'to_list'):
            return I.new(st, ListObj(L.iterate(s, st))), st
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'count', 'nunique', 'first', 'last', 'median', 'std', 'prod'):
            r = fr.agg_series(s, name)
            if not self.skips(kwargs, st):
                if name not in ('sum', 'max', 'min', 'mean', 'prod'):
                    raise Unsupported('skipna=False')
                r = ite(tm.exists([tm.br(b.gens, conj(b.guard, isna(t))) for b, t in zip(s.branches, s.terms)]), NANC, r)
            return r, st
        if name in ('apply', 'map'):
            fn = args[0] if args else kwargs.get('func', kwargs.get('arg'))
            if isinstance(fn, Ref) and isinstance(I.get(st, fn), DictObj):
                ents = I.get(st, fn).entries
                out = []
                for t in s.terms:
                    pres, v = L.lookup(ents, t, st)
                    out.append(NANC if v is None else ite(pres, L.scalar(v, st), NANC))
                return s.like(out), st
            if isinstance(fn, Series):
                out = []
                for t in s.terms:
                    brs = []
                    for b, vt, it in zip(fn.branches, fn.terms, fn.index or ()):
                        nb, (nv, ni) = fr.refresh(b, [vt, it])
                        brs.append(tm.br(nb.gens, conj(nb.guard, eq(ni, t)), nv))
                    ex = tm.exists([tm.br(b.args[0], b.args[1]) for b in brs])
                    out.append(ite(ex, tm.agg('first', brs), NANC))
                return s.like(out), st
            if isinstance(fn, T) and fn.op == 'sym' and name == 'map':
                return s.map(lambda t: ite(mk('haskey', fn, t), mk('getitem', fn, t), NANC)), st
            out = []
            for b, t in zip(s.branches, s.terms):
                r = L.generic(b.gens, b.guard, st, lambda z: I.call(fn, [t] + list(args[1:]) + (
                    list(kwargs['args'].items) if 'args' in kwargs else []), {k: v for k, v in kwargs.items()
                                                                          if k not in ('args', 'func', 'na_action')}, z))
                out.append(NANC if r is None else r if isinstance(r, T) else L.scalar(r, st))
            return s.like(out), st
        if name == 'fillna':
            v = args[0] if args else kwargs.get('value')
            if isinstance(v, Series):
                ts = fr.align(v, s.branches, s.labels, s.order)
            else:
                ts = [L.scalar(v, st)] * len(s.terms)
            return s.like([ite(isna(t), d, t) for t, d in zip(s.terms, ts)]), st
        if name in ('where', 'mask'):
            c = args[0]
            o = args[1] if len(args) > 1 else kwargs.get('other', NANC)
            if isinstance(c, Series):
                cs = fr.align(c if c.kind == 'series' else c.like(c.terms, kind='array'), s.branches, s.labels, s.order)
            else:
                raise Unsupported('Series.where')
            os = fr.align(o, s.branches, s.labels, s.order) if isinstance(o, Series) else [L.scalar(o, st)] * len(s.terms)
            if name == 'where':
                return s.like([ite(as_bool(x), t, y) for x, t, y in zip(cs, s.terms, os)]), st
            return s.like([ite(as_bool(x), y, t) for x, t, y in zip(cs, s.terms, os)]), st
        if name == 'combine_first':
            ts = fr.align(args[0], s.branches, s.labels, s.order)
            return s.like([ite(isna(t), d, t) for t, d in zip(s.terms, ts)]), st
        if name == 'abs':
            return L.npfun('abs', s, st), st
        if name == 'round':
            return L.round(s, args[0] if args else kwargs.get('decimals', const(0)), st), st
        if name == 'clip':
            d = bindn(['lower', 'upper'], args, kwargs)
            out = list(s.terms)
            for key, op in (('lower', 'max2'), ('upper', 'min2')):
                if key in d and d[key] is not NONE:
                    v = d[key]
                    ts = fr.align(v, s.branches, s.labels, s.order) if isinstance(v, Series) else [L.scalar(v, st)] * len(out)
                    out = [tm.app(op, a, b) for a, b in zip(out, ts)]
            return s.like(out), st
        if name == 'between':
            inc = kwargs.get('inclusive', args[2] if len(args) > 2 else const('both'))
            inc = L.cval(inc, st)
            lo = self.pair(s, args[0], st)[2]
            hi = self.pair(s, args[1], st)[2]
            return s.like([conj(tm.app('ge' if inc in ('both', 'left', True) else 'gt', t, a),
                                tm.app('le' if inc in ('both', 'right', True) else 'lt', t, b))
                           for t, a, b in zip(s.terms, lo, hi)]), st
        if name == 'unique':
            return fr.unique(s), st
        if name == 'drop_duplicates':
            return self.dedup(self.to_frame(s), ['v']).col('v'), st
        if name == 'duplicated':
            return self.f_duplicated(None, self.to_frame(s), [], kwargs, st)
        if name == 'value_counts':
            f = fr.group_agg(self.to_frame(s), ['v'], [('n', 'v', 'size')], as_index=True)
            return f.col('n'), st
        if name == 'reset_index':
            if L.cval(kwargs.get('drop', FALSE), st):
                return fr.reset_index(s), st
            nm = kwargs.get('name')
            nm = L.cval(nm, st) if nm is not None else (s.name if s.name is not None else 0)
            f = self.to_frame(s, nm)
            f.index_names = getattr(s, 'index_names', None)
            return self.f_reset_index(None, f, [], {}, st)
        if name == 'to_frame':
            nm = args[0] if args else kwargs.get('name')
            nm = L.cval(nm, st) if nm is not None else (s.name if s.name is not None else 0)
            f = self.to_frame(s, nm)
            f.index_names = getattr(s, 'index_names', None)
            return self.ref(st, f), st
        if name == 'rename':
            return s.like(s.terms, name=L.cval(args[0], st) if args else None), st
        if name == 'to_dict':
            idx = s.index if s.index is not None else [fr.pos_term(s.labels, b) for b in s.branches]
            ents = [('each', b.gens, b.guard, i, t) if b.gens else ('v', i, t, b.guard)
                    for b, i, t in zip(s.branches, idx, s.terms)]
            return I.new(st, DictObj(ents)), st
        if name in ('items', 'iteritems'):
            idx = s.index if s.index is not None else [fr.pos_term(s.labels, b) for b in s.branches]
            return I.new(st, ListObj([('each', b.gens, b.guard, Tup([i, t])) if b.gens else ('v', Tup([i, t]), b.guard)
                                      for b, i, t in zip(s.branches, idx, s.terms)])), st
        if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return self.compare({'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}[name],
                                s, args[0], st), st
        if name in BINOPS:
            if 'fill_value' in kwargs:
                raise Unsupported('fill_value')
            return self.binop(BINOPS[name], s, args[0], st), st
        if name == 'rsub':
            return self.binop('Sub', args[0], s, st), st
        if name == 'dropna':
            return fr.filter_rows(s, [neg(isna(t)) for t in s.terms]), st
        if name == 'sort_values':
            return fr.sort_values(s, None, L.cval(kwargs.get('ascending', TRUE), st) if 'ascending' in kwargs else [True]) \
                if 'ascending' not in kwargs else fr.sort_values(s, ['v'], L.cval(kwargs['ascending'], st)), st
        if name == 'replace':
            a = args[0] if args else kwargs.get('to_replace')
            if isinstance(a, Ref) and isinstance(I.get(st, a), DictObj):
                out = []
                for t in s.terms:
                    pres, v = L.lookup(I.get(st, a).entries, t, st)
                    out.append(t if v is None else ite(pres, L.scalar(v, st), t))
                return s.like(out), st
            v = args[1] if len(args) > 1 else kwargs.get('value')
            if isinstance(a, T):
                vt = L.scalar(v, st)
                return s.map(lambda t: ite(eq(t, a) if not tm.is_nan_const(a) else isna(t), vt, t)), st
            raise Unsupported('replace')
        if name in ('head', 'tail'):
            n = L.cval(args[0], st) if args else 5
            f = self.to_frame(s)
            r, st = (self.f_head if name == 'head' else self.f_tail)(None, f, args, kwargs, st)
            return I.frame_of(r, st).col('v'), st
        if name == 'item':
            return self.first(s, 'first', st)
        if name == 'equals':
            return top('equals'), st
        if name == 'get':
            return self.series_getitem(s, args[0], st)
        if name in ('keys',):
            return self.series_attr(s, 'index', st)
        if name == 'to_sql':
            return NONE, st
        if name == 'groupby':
            raise Unsupported('Series.groupby')
        raise Unsupported('Series.' + name)

    @tracked
    def acc_method(self, acc, name, args, kwargs, st):
        from .libs import Columns
        if isinstance(acc.s, Columns):
            return Columns([(getattr(n, name)(*[self.L.cval(a, st) for a in args]), p) for n, p in acc.s.names]), st
        if name == 'contains':
            pat = self.L.scalar(args[0], st)
            if kwargs.get('regex', TRUE) is not FALSE and not (pat.op == 'const' and isinstance(pat.value, str) and re.fullmatch(r'[\w \-]*', pat.value)):
                raise Unsupported('regular expression')
            if 'na' in kwargs:
                na = self.L.scalar(kwargs['na'], st)
                return acc.s.map(lambda t: ite(isna(t), na, mk('haskey', t, pat))), st
            return acc.s.map(lambda t: mk('haskey', t, pat)), st
        out = []
        for t in acc.s.terms:
            v, st = self.L.t_method(t, name, args, kwargs, st)
            out.append(self.L.scalar(v, st))
        return acc.s.like(out), st

    def row_method(self, row, name, args, kwargs, st):
        from .libs import Row
        if name in ('max', 'min', 'sum', 'any', 'all'):
            f = Frame([Branch((), TRUE, ('row',))], {n: ((t,), p) for n, (t, p) in row.cols.items()}, token('o'), token('l'))
            return self.row_reduce(f, name, st).terms[0], st
        if name == 'get':
            n = self.L.cval(args[0], st)
            if n in row.cols:
                return row.cols[n][0], st
            return args[1] if len(args) > 1 else NONE, st
        if name == 'to_dict':
            return self.I.new(st, DictObj([('v', const(n), t, p) for n, (t, p) in row.cols.items()])), st
        if name in ('isna', 'isnull', 'notna'):
            fn = isna if name != 'notna' else (lambda t: neg(isna(t)))
            return Row({n: (fn(t), p) for n, (t, p) in row.cols.items()}, row.index), st
        if name in ('items',):
            return self.I.new(st, ListObj([('v', Tup([const(n), t]), p) for n, (t, p) in row.cols.items()])), st
        if name == 'copy':
            return row, st
        if name == '_asdict':
            return self.I.new(st, DictObj([('v', const(n), t, p) for n, (t, p) in row.cols.items()])), st
        if name in ('tolist', 'to_list'):
            return self.I.new(st, ListObj([('v', t, p) for n, (t, p) in row.cols.items()])), st
        raise Unsupported('row.' + name)

    # ------------------------------------------------------------ groupby
    @tracked
    def group_method(self, g, name, args, kwargs, st):
        f = g.frame
        L = self.L
        vals = g.sel if g.sel is not None else [n for n in f.cols if n not in g.keys]
        if name in ('agg', 'aggregate'):
            aggs = []
            if args:
                a = self.I.simp(args[0], st)
                if isinstance(a, Ref) and isinstance(self.I.get(st, a), DictObj):
                    for e in self.I.get(st, a).entries:
                        k = self.I.simp(e[2], st)
                        aggs.append((e[1].value, e[1].value, self.aggname(k, st)))
                elif isinstance(a, (T, Ext, FuncVal)):
                    aggs = [(n, n, self.aggname(a, st)) for n in vals]
                else:
                    raise Unsupported('agg')
            for n, v in kwargs.items():
                if isinstance(v, Tup):
                    aggs.append((n, L.cval(v.items[0], st), self.aggname(v.items[1], st)))
                else:
                    aggs.append((n, vals[0], self.aggname(v, st)))
            for o, c, k in aggs:
                st = self.need(f, c, st)
                if st is None:
                    return None, None
            return self.gagg(g, aggs, st), st
        if name in AGGS:
            aggs = [(n, n, name) for n in vals]
            return self.gagg(g, aggs, st), st
        if name == 'size':
            if g.as_index:
                r = self.mkgroup(f, g.keys, [('size', g.keys[0], 'size')], True)
                s = r.col('size')
                s.index_names = g.keys
                return s, st
            return self.ref(st, self.mkgroup(f, g.keys, [('size', g.keys[0], 'size')], False)), st
        if name == 'transform':
            kind = self.aggname(args[0], st)
            col = vals[0]
            out = []
            for i, b in enumerate(f.branches):
                brs = []
                for j, c in enumerate(f.branches):
                    nb, ts = fr.refresh(c, [f.cols[col][0][j]] + [f.cols[k][0][j] for k in g.keys])
                    brs.append(tm.br(nb.gens, conj(nb.guard, *[eq(t, f.cols[k][0][i]) for t, k in zip(ts[1:], g.keys)]), ts[0]))
                if kind in ('size', 'count'):
                    out.append(mk('agg', 'count', mk('rel', *[tm.br(x.args[0], x.args[1] if kind == 'size' else conj(
                        x.args[1], neg(isna(x.args[2])))) for x in brs])))
                elif kind in ('any', 'all'):
                    raise Unsupported('transform any')
                else:
                    out.append(tm.agg(kind, brs))
            return Series(f.branches, out, f.order, f.labels), st
        if name == 'apply':
            fn = args[0]
            gid, table, cells, sub = fr.group_frame(f, g.keys)
            inc = kwargs.get('include_groups', TRUE)
            subv = sub
            if inc is FALSE:
                subv = sub.like(cols={n: c for n, c in sub.cols.items() if n not in g.keys})
            if g.sel is not None:
                subv = subv.like(cols={n: subv.cols[n] for n in g.sel})
            arg = subv.col(g.sel[0]) if getattr(g, 'sel1', False) else self.ref(st, subv)
            gens = ((gid, table),)
            extra = list(args[1:])
            r = L.generic(gens, TRUE, st, lambda s: self.I.call(fn, [arg] + extra, {k: v for k, v in kwargs.items() if k != 'include_groups'}, s))
            r = self.I.simp(r, st) if r is not None else NANC
            rf = self.I.frame_of(r, st)
            if rf is not None:
                brs = [Branch(gens + b.gens, b.guard, ('ga', b.bid)) for b in rf.branches]
                out = Frame(brs, rf.cols, token('o'), token('l'))
                out.group_cells = cells
                return self.ref(st, out), st
            if isinstance(r, Series):
                brs = [Branch(gens + b.gens, b.guard, ('ga', b.bid)) for b in r.branches]
                return Series(brs, r.terms, token('o'), token('l')), st
            from .libs import Row
            b = Branch(gens, TRUE, ('grp', token('g')))
            if isinstance(r, Row):
                raise Unsupported('groupby apply returning a row')
            t = L.scalar(r, st)
            if t.op == 'top':
                return t, st
            idx = (cells[g.keys[0]],) if len(g.keys) == 1 else (mk('tuple', *[cells[k] for k in g.keys]),)
            if g.as_index:
                s = Series((b,), [t], token('o'), token('l'), 'series', idx,
                           g.sel[0] if getattr(g, 'sel1', False) else None)
                s.index_names = g.keys
                return s, st
            cols = {k: ((cells[k],), TRUE) for k in g.keys}
            cols[None] = ((t,), TRUE)
            return self.ref(st, Frame((b,), cols, token('o'), token('l'))), st
        if name == 'cumcount':
            raise Unsupported('cumcount')
        if name in ('ngroup', 'rank', 'cumsum', 'shift', 'diff', 'head', 'tail', 'nth', 'idxmax', 'idxmin'):
            if name in ('head', 'tail') and args and L.cval(args[0], st) == 1:
                return self.ref(st, self.dedup(f, g.keys, 'first' if name == 'head' else 'last')), st
            raise Unsupported('groupby.' + name)
        if name == 'filter':
            fn = args[0]
            gid, table, cells, sub = fr.group_frame(f, g.keys)
            r = L.generic(((gid, table),), TRUE, st, lambda s: self.I.call(fn, [self.ref(s, sub)], {}, s))
            c = self.I.truth(r, st)
            ms = []
            for i, b in enumerate(f.branches):
                ms.append(tm.replace(c, {cells[k]: f.cols[k][0][i] for k in g.keys}))
            return self.ref(st, fr.filter_rows(f, ms)), st
        raise Unsupported('groupby.' + name)

    def aggname(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, T) and v.op == 'const':
            return v.value
        if isinstance(v, Ext):
            return {'amax': 'max', 'amin': 'min'}.get(v.path.split('.')[-1], v.path.split('.')[-1])
        raise Unsupported('aggregation function')

    def mkgroup(self, f, keys, aggs, as_index):
        if (f.sort is not None or f.okey is not None) and any(k in ('first', 'last') for _, _, k in aggs) and f.branches:
            g, table, cells, sub = fr.group_frame(f, keys)
            srt = fr.by_order(f, keys, cells, True)
            cols = {}
            if not as_index:
                for k in keys:
                    cols[k] = ((cells[k],), TRUE)
            for out, c, kind in aggs:
                t = srt(c, kind) if kind in ('first', 'last') else fr.agg_series(sub.col(c), kind)
                cols[out] = ((t,), f.cols[c][1])
            b = Branch(((g, table),), TRUE, ('grp', token('g')))
            idx = None
            if as_index:
                idx = (cells[keys[0]],) if len(keys) == 1 else (mk('tuple', *[cells[k] for k in keys]),)
            return Frame((b,), cols, token('o'), token('l'), idx)
        return fr.group_agg(f, keys, aggs, as_index)

    def gagg(self, g, aggs, st):
        r = self.mkgroup(g.frame, g.keys, aggs, g.as_index)
        if g.as_index:
            r.index_names = list(g.keys)
            if getattr(g, 'sel1', False) and len(aggs) == 1:
                s = r.col(aggs[0][0])
                s.index_names = list(g.keys)
                return s
        return self.ref(st, r)


FRAME_METHODS = {n[2:] for n in dir(Pandas) if n.startswith('f_')} | {'sum', 'max', 'min', 'mean', 'any', 'all', 'count',
                                                                       'nunique', 'values', 'index', 'size'}


def bindn(names, args, kwargs):
    d = dict(zip(names, args))
    d.update(kwargs)
    return d


def drop_absent(f, st):
    cols = {}
    ch = False
    for n, (t, p) in f.cols.items():
        q = tm.assume(p, st.facts)
        if q is FALSE:
            ch = True
            continue
        if q is not p:
            ch = True
        cols[n] = (t, q)
    return f.like(cols=cols) if ch else f
