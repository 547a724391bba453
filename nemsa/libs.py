"""Abstract semantics of python builtins and of the library calls nempy makes (everything except DataFrames)."""
import ast
import datetime as _dt
from . import terms as tm
from . import frames as fr
from .fold import fold
from .terms import T, mk, const, conj, disj, neg, ite, eq, TRUE, FALSE, NONE, NANC, top, as_bool, isna
from .frames import Frame, Series, Branch, Unsupported, MissingColumn
from .interp import (Ref, Tup, Alt, Env, FuncVal, ClassVal, ModVal, Ext, Bound, GroupBy, Loc, RowIdx, UNBOUND, ListObj, DictObj,
                     FrameObj, Obj, Env, State, Raise, is_boolish)

BUILTINS = set('''abs all any bool callable dict enumerate filter float format frozenset getattr hasattr hash id int
isinstance issubclass iter len list map max min next object open print range repr reversed round set setattr slice
sorted staticmethod classmethod property str sum super tuple type vars zip Exception ValueError KeyError TypeError
IndexError AttributeError RuntimeError StopIteration NotImplementedError ZeroDivisionError AssertionError ImportError
ModuleNotFoundError OSError IOError FileNotFoundError LookupError ArithmeticError BaseException NotImplemented
input UserWarning Warning DeprecationWarning FutureWarning RuntimeWarning'''.split())

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**'}
CMP = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}
STR_METHODS = set('''upper lower strip lstrip rstrip split rsplit replace find rfind index startswith endswith zfill
join format title capitalize isdigit isnumeric count ljust rjust center splitlines encode decode casefold partition
rpartition isalpha isupper swapcase removeprefix removesuffix'''.split())


class Row:
    """one generic row: column -> (term, presence)"""
    __slots__ = ('cols', 'index')

    def __init__(self, cols, index=None):
        self.cols, self.index = cols, index


class Columns:
    """df.columns: names with presence"""
    __slots__ = ('names',)

    def __init__(self, names):
        self.names = list(names)


class StrAcc:
    __slots__ = ('s', 'kind')

    def __init__(self, s, kind):
        self.s, self.kind = s, kind


class ExtObj:
    """instance of a library object the analysis follows by name only"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, tuple(args)

    def __eq__(self, o):
        return isinstance(o, ExtObj) and o.kind == self.kind and o.args == self.args

    def __hash__(self):
        return hash((self.kind, self.args))


def bind(names, args, kwargs):
    d = dict(zip(names, args))
    for k, v in kwargs.items():
        d[k] = v
    return d


class Libs:
    def __init__(self, interp):
        self.I = interp
        from .pdlib import Pandas
        self.pd = Pandas(self)

    # ------------------------------------------------------------ small helpers
    def builtin(self, name):
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name in ('__name__', '__file__'):
            return const('<module>')
        return top('undefined name ' + name)

    def cval(self, v, st):
        """python value of a constant"""
        v = self.I.simp(v, st)
        if isinstance(v, T):
            v = tm.assume(v, st.facts)
            if v.op == 'const':
                return tm.raw(v.value)
        if isinstance(v, Tup):
            return tuple(self.cval(x, st) for x in v.items)
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, ListObj):
                out = []
                for it in o.items:
                    if it[0] == 'v' and tm.assume(it[2], st.facts) is TRUE:
                        out.append(self.cval(it[1], st))
                    elif it[0] == 'v' and tm.assume(it[2], st.facts) is FALSE:
                        continue
                    else:
                        raise Unsupported('list with unknown content')
                return out
        raise Unsupported('constant expected')

    def names(self, v, st):
        """[(column name, presence)] of a column list value"""
        v = self.I.simp(v, st)
        if isinstance(v, T) and v.op == 'const':
            return [(v.value, TRUE)]
        if isinstance(v, Columns):
            return [(n, p) for n, p in ((n, tm.assume(p, st.facts)) for n, p in v.names) if p is not FALSE]
        if isinstance(v, Tup):
            return [(self.cval(x, st), TRUE) for x in v.items]
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, ListObj):
                out = []
                for it in o.items:
                    if it[0] != 'v':
                        raise Unsupported('column list depends on data')
                    p = tm.assume(it[2], st.facts)
                    if p is FALSE:
                        continue
                    x = self.I.simp(it[1], st)
                    if isinstance(x, T) and x.op == 'ite':
                        # conditional name
                        for c, leaf in ite_leaves(x):
                            if leaf.op != 'const':
                                raise Unsupported('column name')
                            out.append((leaf.value, conj(p, c)))
                        continue
                    out.append((self.cval(x, st), p))
                return out
            if isinstance(o, DictObj):
                return [(e[1].value, e[3]) for e in o.entries if e[0] == 'v' and e[1].op == 'const']
        if isinstance(v, Alt):
            out = []
            for c, x in v.alts:
                out += [(n, conj(p, c)) for n, p in self.names(x, st)]
            return merge_names(out)
        raise Unsupported('column list expected')

    def raise_if(self, st, cond, exc):
        """record exc when cond holds; returns the state in which it does not (or None)"""
        cond = tm.assume(cond, st.facts)
        if cond is FALSE:
            return st
        bad = State(st.heap, conj(st.pc, cond))
        if bad.pc is not FALSE:
            self.I.do_raise(bad, exc, self.I.node)
        ok = conj(st.pc, neg(cond))
        if ok is FALSE:
            return None
        return State(st.heap, ok)

    def is_obj(self, v, st, kind):
        return isinstance(v, Ref) and isinstance(self.I.get(st, v), kind)

    lam_depth = 0

    def scalar(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, T):
            return v
        if isinstance(v, Alt):
            r = None
            for c, x in reversed(v.alts):
                x = self.scalar(x, st)
                r = x if r is None else ite(c, x, r)
            return r
        if isinstance(v, Ext):
            return const(('ext', v.path))
        if isinstance(v, Tup):
            return mk('tuple', *[self.scalar(x, st) for x in v.items])
        if isinstance(v, FuncVal):
            return self.lam(v, st)
        return top('not a scalar')

    def lam(self, f, st):
        """a function of one argument as a value: its result for a generic argument"""
        a = getattr(f.node, 'args', None)
        if a is None or len(a.args) != 1 or f.cls is not None or a.vararg or a.kwarg or self.lam_depth > 3:
            return mk('func', f.qual)
        n = len(self.I.raises)
        s = State(dict(st.heap), st.pc)
        self.lam_depth += 1
        try:
            r, s2 = self.I.call(f, [mk('lamx', 1)], {}, s)
        finally:
            self.lam_depth -= 1
        del self.I.raises[n:]
        if s2 is None:
            return mk('func', f.qual)
        return mk('lam', self.scalar(r, s2))

    def keyterm(self, v, st):
        return self.scalar(v, st)

    # run fn for a generic element; effects on pre-existing objects are ignored (reported unknown if they matter)
    def generic(self, gens, guard, st, fn):
        s = State(dict(st.heap), conj(st.pc, guard))
        if s.pc is FALSE:
            return None
        rm = len(self.I.raises)
        mm = len(self.I.maybe_errors)
        if gens:
            self.I.genstack.append((gens, guard))
        try:
            v, s2 = fn(s)
        finally:
            if gens:
                self.I.genstack.pop()
        basel = st.facts
        for i in range(rm, len(self.I.raises)):
            r = self.I.raises[i]
            rp = conj(guard, *[x for x in tm.literals(r.pc) if x not in basel])
            pc = conj(st.pc, tm.exists([tm.br(gens, rp)])) if gens else conj(st.pc, rp)
            self.I.raises[i] = Raise(pc, r.exc, r.heap, r.site, r.func)
        if s2 is not None:
            for k, o in s2.heap.items():
                if k not in st.heap:
                    st.heap[k] = o
                elif st.heap[k] is not o and not isinstance(o, Env):
                    old = st.heap[k]
                    self.I.put(st, Ref(k), self.I.wrap_obj(old, o, gens, guard, {g for g, _ in gens}))
        if s2 is None:
            return top('always raises')
        return v

    # ------------------------------------------------------------ iteration
    def distinct_keys(self, entries):
        """can every entry of a dictionary be taken to have a key of its own?"""
        each = [e for e in entries if e[0] == 'each']
        if not each:
            return True
        if len(each) > 1 or any(e[0] == 'v' and e[1].op != 'const' for e in entries):
            return all(e[1][-1][1].op not in ('input', 'distinct') for e in each)
        e = each[0]
        if any(t.op not in ('input', 'distinct') for _, t in e[1]):
            return True         # rows of unknown provenance
        f = fr.Frame((fr.Branch(e[1], e[2], 'd'),), {'k%d' % i: ((t,), TRUE) for i, t in
                                                    enumerate(e[3].args if e[3].op == 'tuple' else [e[3]])}, fr.token('o'), fr.token('l'))
        return fr.keyed(f, list(f.cols))

    def distinct(self, items, st):
        """the members of a set, each once"""
        if all(i[0] == 'top' or i[0] == 'v' and isinstance(i[1], T) and i[1].op == 'const' for i in items) and \
                len({i[1] for i in items}) == len(items):
            return items
        if len(items) == 1 and items[0][0] == 'v':
            return items
        if any(i[0] == 'top' for i in items):
            return [('top', 'set')]
        brs, ts = [], []
        tag = fr.token('set')
        for k, i in enumerate(items):
            v = self.I.simp(i[1] if i[0] == 'v' else i[3], st)
            if not isinstance(v, T):
                return [('top', 'set')]
            brs.append(fr.Branch((), i[2], (tag, k)) if i[0] == 'v' else fr.Branch(i[1], i[2], (tag, k)))
            ts.append(v)
        u = fr.unique(Series(brs, ts, fr.token('o'), fr.token('l'), 'array'))
        return [('each', b.gens, b.guard, t) if b.gens else ('v', t, b.guard) for b, t in zip(u.branches, u.terms)]

    def iterate(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            self.I.note_read(v)
            if isinstance(o, ListObj):
                if o.kind == 'set':
                    return self.distinct(list(o.items), st)
                return list(o.items)
            if isinstance(o, DictObj):
                out = []
                if not self.distinct_keys(o.entries):
                    return [('top', 'dict with repeated keys')]
                for e in o.entries:
                    if e[0] == 'v':
                        out.append(('v', e[1], e[3]))
                    elif e[0] == 'each':
                        out.append(('each', e[1], e[2], e[3]))
                    else:
                        out.append(e)
                return out
            if isinstance(o, FrameObj):
                return [('v', const(n), p) for n, (t, p) in o.frame.cols.items()]
            if isinstance(o, Obj):
                return [('top', 'iteration over an object')]
        if isinstance(v, Tup):
            return [('v', x, TRUE) for x in v.items]
        if isinstance(v, Columns):
            return [('v', const(n), p) for n, p in v.names]
        if isinstance(v, Series):
            if len(v.branches) > 1 and any(b.gens == () for b in v.branches) is False and False:
                return [('top', 'iteration')]
            return [('each', b.gens, b.guard, t) if b.gens else ('v', t, b.guard) for b, t in
                    zip(v.branches, v.terms)]
        if isinstance(v, GroupBy):
            f = v.frame
            if not f.branches:
                return []
            g, table, cells, sub = fr.group_frame(f, v.keys)
            key = cells[v.keys[0]] if v.single else Tup([cells[k] for k in v.keys])
            return [('each', ((g, table),), TRUE, Tup([key, self.I.frame_ref(st, sub)]))]
        if isinstance(v, Row):
            return [('v', const(n), p) for n, (t, p) in v.cols.items()]
        if isinstance(v, T):
            v = tm.assume(v, st.facts)
            if v.op == 'const' and isinstance(v.value, (str, tuple)):
                return [('v', const(x), TRUE) for x in v.value]
            if v.op == 'range' :
                return [('each',) + self._iter_gen(v)]
            if v.op == 'tuple':
                return [('v', x, TRUE) for x in v.args]
            if v.op == 'ite':
                out = []
                for c, leaf in ite_leaves(v):
                    for it in self.iterate(leaf, st):
                        out.append(_cond(it, c))
                return out
            if v.op == 'top':
                return [('top', v.args[1])]
            return [('each',) + self._iter_gen(v)]
        if isinstance(v, Alt):
            out = []
            for c, x in v.alts:
                if x is NONE:
                    continue
                for it in self.iterate(x, st):
                    out.append(_cond(it, c))
            return out
        return [('top', 'iteration over ' + type(v).__name__)]

    def _iter_gen(self, v):
        g = tm.fresh_gid()
        return ((g, mk('iter', v)),), TRUE, mk('cell', g, 'item')

    senv = ()

    def subst_env(self, ref, m, st):
        """the variables a closure captured, with row variables renamed; the same reference when nothing changes"""
        if ref is None or ref.oid in self.senv:
            return ref
        try:
            env = self.I.get(st, ref)
        except KeyError:
            return ref
        old, self.senv = self.senv, self.senv + (ref.oid,)
        try:
            parent = self.subst_env(env.parent, m, st)
            new, changed = {}, parent is not env.parent
            for n, x in env.vars.items():
                y = self.subst_value(x, m, st) if isinstance(x, (T, Tup, FuncVal, Alt)) else x
                changed = changed or not (y is x or isinstance(x, Tup) and y.items == x.items)
                new[n] = y
            return self.I.new(st, Env(new, parent)) if changed else ref
        finally:
            self.senv = old

    def subst_value(self, v, m, st):
        if isinstance(v, RowIdx):
            return v.subst(m)
        if isinstance(v, T):
            return tm.subst(v, m)
        if isinstance(v, Tup):
            return Tup([self.subst_value(x, m, st) for x in v.items])
        if isinstance(v, Series):
            return subst_series(v, m)
        if isinstance(v, Row):
            return Row({n: (tm.subst(t, m), p) for n, (t, p) in v.cols.items()},
                       tm.subst(v.index, m) if isinstance(v.index, T) else v.index)
        if isinstance(v, FuncVal):
            env = self.subst_env(v.env, m, st)
            if env is v.env:
                return v
            return FuncVal(v.node, v.module, env, v.name, v.cls, v.defaults, v.kwdefaults, v.kind)
        if isinstance(v, Alt):
            return Alt([(tm.subst(c, m), self.subst_value(x, m, st)) for c, x in v.alts])
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, FrameObj):
                nf = subst_frame(o.frame, m)
                if nf is o.frame:
                    return v
                return self.I.new(st, FrameObj(nf, o.origin))
            if isinstance(o, ListObj):
                items = [self._subst_item(i, m, st) for i in o.items]
                if items == list(o.items):
                    return v
                return self.I.new(st, ListObj(items, o.kind, o.origin))
            if isinstance(o, DictObj):
                ents = []
                for e in o.entries:
                    if e[0] == 'v':
                        ents.append(('v', tm.subst(e[1], m), self.subst_value(e[2], m, st), tm.subst(e[3], m)))
                    elif e[0] == 'each':
                        ents.append(('each', subst_gens(e[1], m), tm.subst(e[2], m), tm.subst(e[3], m),
                                     self.subst_value(e[4], m, st)))
                    else:
                        ents.append(e)
                if ents == list(o.entries):
                    return v
                return self.I.new(st, DictObj(ents, o.origin, o.default))
            if isinstance(o, Obj):
                at = {k: self.subst_value(x, m, st) for k, x in o.attrs.items()}
                if at == o.attrs:
                    return v
                return self.I.new(st, Obj(o.cls, at))
        return v

    def _subst_item(self, it, m, st):
        if it[0] == 'v':
            return ('v', self.subst_value(it[1], m, st), tm.subst(it[2], m))
        if it[0] == 'each':
            return ('each', subst_gens(it[1], m), tm.subst(it[2], m), self.subst_value(it[3], m, st))
        return it

    def unpack(self, v, n, st):
        v = self.I.simp(v, st)
        if isinstance(v, Tup):
            if len(v.items) == n:
                return list(v.items)
            return [top('unpacking') for _ in range(n)]
        if isinstance(v, T) and v.op == 'tuple' and len(v.args) == n:
            return list(v.args)
        if isinstance(v, T):
            if v.op == 'ite':
                a, b = self.unpack(v.args[1], n, st), self.unpack(v.args[2], n, st)
                return [ite(v.args[0], x, y) for x, y in zip(a, b)]
            if v.op == 'agg' and v.args[0] in ('first', 'last'):
                outs = []
                for i in range(n):
                    brs = []
                    for b in v.args[1].args:
                        x = b.args[2]
                        if x.op != 'tuple' or len(x.args) != n:
                            return [top('unpacking') for _ in range(n)]
                        brs.append(tm.br(b.args[0], b.args[1], x.args[i]))
                    outs.append(tm.agg(v.args[0], brs))
                return outs
            return [mk('getitem', v, const(i)) if v.op != 'top' else v for i in range(n)]
        if isinstance(v, Alt):
            parts = [(c, self.unpack(x, n, st)) for c, x in v.alts]
            res = parts[-1][1]
            for c, p in reversed(parts[:-1]):
                res = [self.I.merge_val(c, a, b) for a, b in zip(p, res)]
            return res
        if isinstance(v, (Ref, Series, Columns)):
            items = self.iterate(v, st)
            if len(items) == n and all(i[0] == 'v' for i in items):
                return [i[1] for i in items]
        return [top('unpacking') for _ in range(n)]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        o = self.I.simp(o, st)
        if isinstance(o, Alt):
            f = self.I.frame_of(o, st)
            if f is not None:
                o = self.I.frame_ref(st, f)
            else:
                return self._alt(o, st, lambda x, s: self.getattr(x, name, s))
        if isinstance(o, ModVal):
            env = self.I.get(st, o.env)
            if name in env.vars:
                return env.vars[name], st
            sub = self.I.module(o.name + '.' + name, st)
            if sub is not None:
                return sub, st
            st2 = self.raise_if(st, TRUE, 'AttributeError')
            return None, st2
        if isinstance(o, ClassVal):
            v = o.find(name)
            if v is not None:
                return v, st
            if name == '__name__':
                return const(o.name), st
            return Ext(o.qual + '.' + name), st
        if isinstance(o, Ext):
            if name == '__name__':
                return const(o.path.split('.')[-1]), st
            return self.ext_attr(o.path + '.' + name), st
        if isinstance(o, Ref):
            ob = self.I.get(st, o)
            if isinstance(ob, Obj):
                if name in ob.attrs:
                    for r in self.I.readers:
                        r.add((o.oid, name, id(ob.attrs[name])))
                    return self.I.simp(ob.attrs[name], st), st
                v = ob.cls.find(name) if isinstance(ob.cls, ClassVal) else None
                if isinstance(v, FuncVal):
                    if v.kind == 'property':
                        return self.I.call_func(v, [o], {}, st)
                    if v.kind == 'static':
                        return v, st
                    return Bound(o, name, v), st
                if v is not None:
                    return v, st
                if name == '__dict__':
                    return self.I.dict_ref(st, list(ob.attrs.items())), st
                if name == '__class__':
                    return ob.cls, st
                if isinstance(ob.cls, ClassVal) and any(isinstance(b, Ext) for b in ob.cls.bases):
                    return Bound(o, name), st
                self.I.do_raise(st, 'AttributeError', self.I.node)
                return None, None
            if isinstance(ob, FrameObj):
                return self.pd.frame_attr(o, ob.frame, name, st)
            return Bound(o, name), st
        if isinstance(o, Series):
            return self.pd.series_attr(o, name, st)
        if isinstance(o, Columns):
            if name in ('values', 'array'):
                return o, st
            if name == 'str':
                return StrAcc(o, 'str'), st
            return Bound(o, name), st
        if isinstance(o, GroupBy):
            if name == 'indices' and o.frame.branches:
                g, table, cells = fr.distinct_gen(o.frame, o.keys)
                key = cells[o.keys[0]] if len(o.keys) == 1 else mk('tuple', *[cells[k] for k in o.keys])
                return self.I.new(st, DictObj([('each', ((g, table),), TRUE, key, RowIdx(o.frame, o.keys, cells))])), st
            if name == 'indices':
                return self.I.new(st, DictObj([])), st
            if name in o.frame.cols and name not in ('sum', 'max', 'min', 'first', 'last', 'count', 'size'):
                return GroupBy(o.frame, o.keys, o.as_index, [name], o.single), st
            return Bound(o, name), st
        if isinstance(o, Row):
            if name in o.cols:
                t, p = o.cols[name]
                return t, st
            if name in ('index',):
                return Columns([(n, p) for n, (t, p) in o.cols.items()]), st
            if name == 'name':
                return o.index if o.index is not None else top('row label'), st
            return Bound(o, name), st
        if isinstance(o, StrAcc):
            return Bound(o, name), st
        if isinstance(o, ExtObj):
            if o.kind == 'super':
                cls, ref = o.args
                for b in cls.bases:
                    if isinstance(b, ClassVal):
                        f = b.find(name)
                        if isinstance(f, FuncVal):
                            return Bound(ref, name, f), st
                return ExtObj('noop'), st
            return Bound(o, name), st
        if isinstance(o, FuncVal):
            if name == '__name__':
                return const(o.name), st
            return top('function attribute'), st
        if isinstance(o, T):
            if o is NONE:
                self.I.do_raise(st, 'AttributeError', self.I.node)
                return None, None
            if o.op == 'top':
                return Bound(o, name), st
            if o.op in ('mipvar', 'mipcon') and '_mip.get' in self.I.intercepts:
                return self.I.intercepts['_mip.get'](self.I, o, name, st), st
            if name in STR_METHODS or name in T_METHODS:
                return Bound(o, name), st
            if name in DT_FIELDS:
                return fold(mk('dt', name, o)), st
            return Bound(o, name), st
        return Bound(o, name), st

    def _alt(self, v, st, fn):
        res, rst = None, None
        for c, x in reversed(v.alts):
            s = State(dict(st.heap), conj(st.pc, c))
            if s.pc is FALSE:
                continue
            r, s = fn(x, s)
            if s is None:
                continue
            if rst is None:
                res, rst = r, s
            else:
                res, rst = self.I.merge_val(c, r, res), self.I.merge_states(c, s, rst, st.pc)
        return res, rst

    def ext_attr(self, path):
        if path in ('numpy.nan', 'np.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan', 'pandas.NA', 'pandas.NaT'):
            return NANC
        if path in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            return const(float('inf'))
        if path in ('math.pi', 'numpy.pi'):
            return const(3.141592653589793)
        if path in ('os.sep',):
            return const('/')
        if path.startswith('mip.') and path.split('.')[-1].isupper():
            return const(path)
        return Ext(path)

    def wrong_columns(self, o, v, st):
        f = self.I.frame_of(self.I.simp(o, st), st)
        if f is None or any(tm.assume(c[1], st.facts) is not TRUE for c in f.cols.values()):
            return False
        try:
            ns = self.names(v, st)
        except Exception:
            return False
        return all(p is TRUE for _, p in ns) and len(ns) != len(f.cols)

    def setattr(self, o, name, v, st):
        o = self.I.simp(o, st)
        if isinstance(o, Ref):
            ob = self.I.get(st, o)
            if isinstance(ob, Obj):
                at = dict(ob.attrs)
                at[name] = v
                self.I.put(st, o, Obj(ob.cls, at))
                return
            if isinstance(ob, FrameObj):
                self.pd.frame_setattr(o, ob.frame, name, v, st)
                return
        if isinstance(o, Alt):
            self._alt_set(o, st, lambda x, s: self.setattr(x, name, v, s))
            return
        if isinstance(o, T) and o.op in ('mipvar', 'mipcon') and '_mip.set' in self.I.intercepts:
            self.I.intercepts['_mip.set'](self.I, o, name, self.scalar(v, st), st)
            return
        self.I.event(st, 'setattr', name, [o, v])

    def _alt_set(self, o, st, fn):
        for c, x in o.alts:
            s = State(dict(st.heap), conj(st.pc, c))
            fn(x, s)
            for k, ob in s.heap.items():
                old = st.heap.get(k)
                if old is None:
                    st.heap[k] = ob
                elif old is not ob:
                    st.heap[k] = self.I.merge_obj(c, ob, old, s, st)

    # ------------------------------------------------------------ dicts
    def lookup(self, entries, k, st):
        """-> (presence, value) of key k"""
        val, pres = None, FALSE
        for e in entries:
            if e[0] == 'v':
                c = tm.assume(conj(e[3], eq(e[1], k)), st.facts)
                if c is FALSE:
                    continue
                val = e[2] if (val is None or c is TRUE) else self.I.merge_val(c, e[2], val)
                pres = disj(pres, c)
            elif e[0] == 'each':
                ids = {g for g, _ in e[1]}
                m = {g: tm.fresh_gid() for g in ids}
                gens = subst_gens(e[1], m)
                gd = conj(tm.subst(e[2], m), eq(tm.subst(e[3], m), k))
                if gd is FALSE:
                    continue
                if st.facts and False:
                    pass
                ex = tm.exists([tm.br(gens, gd)])
                v = self.subst_value(e[4], m, st)
                v = self.pick_value(v, gens, gd, st)
                val = v if val is None else self.I.merge_val(ex, v, val)
                pres = disj(pres, ex)
            else:
                val = top(e[1])
                pres = disj(pres, top(e[1]))
        return tm.assume(pres, st.facts), val

    def pick_value(self, v, gens, guard, st, kind='last'):
        ids = {g for g, _ in gens}
        if isinstance(v, T):
            if not tm.gens_of(v) & ids:
                return v
            return tm.agg(kind, [tm.br(gens, guard, v)])
        if isinstance(v, Tup):
            return Tup([self.pick_value(x, gens, guard, st, kind) for x in v.items])
        if isinstance(v, (Ext, FuncVal, ClassVal)):
            return v
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, ListObj):
                items = []
                for it in o.items:
                    if it[0] == 'v':
                        items.append(('each', gens, conj(guard, it[2]), it[1]))
                    elif it[0] == 'each':
                        items.append(('each', tuple(gens) + tuple(it[1]), conj(guard, it[2]), it[3]))
                    else:
                        items.append(it)
                return self.I.new(st, ListObj(items, o.kind))
            if isinstance(o, DictObj):
                ents = []
                for e in o.entries:
                    if e[0] == 'v' and not (tm.gens_of(e[1]) & ids):
                        ents.append(('v', e[1], self.pick_value(e[2], gens, conj(guard, e[3]), st, kind),
                                     tm.exists([tm.br(gens, conj(guard, e[3]))]) if tm.gens_of(e[3]) & ids else e[3]))
                    elif e[0] == 'v':
                        ents.append(('each', gens, conj(guard, e[3]), e[1], e[2]))
                    elif e[0] == 'each':
                        ents.append(('each', tuple(gens) + tuple(e[1]), conj(guard, e[2]), e[3], e[4]))
                    else:
                        ents.append(e)
                return self.I.new(st, DictObj(ents, None, o.default))
            if isinstance(o, FrameObj):
                f = o.frame
                brs = [Branch(tuple(gens) + b.gens, conj(guard, b.guard), b.bid) for b in f.branches]
                return self.I.frame_ref(st, f.like(branches=brs, labels=fr.token('l'), order=fr.token('o')))
        return top('value chosen by a data-dependent key')

    def pairs_to_entries(self, items, st):
        ents = []
        for it in items:
            if it[0] == 'v':
                k, v = self.unpack(it[1], 2, st)
                k = self.keyterm(k, st)
                if it[2] is TRUE:
                    ents = [e for e in ents if not (e[0] == 'v' and e[1] is k)]
                ents.append(('v', k, v, it[2]))
            elif it[0] == 'each':
                k, v = self.unpack(it[3], 2, st)
                ents.append(('each', it[1], it[2], self.keyterm(k, st), v))
            else:
                ents.append(it)
        return ents

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k, st):
        o = self.I.simp(o, st)
        if isinstance(o, Alt):
            f = self.I.frame_of(o, st)
            if f is not None:
                o = self.I.frame_ref(st, f)
            else:
                return self._alt(o, st, lambda x, s: self.getitem(x, k, s))
        if isinstance(k, Alt) and not isinstance(o, (Series, Loc)):
            ks = self.I.simp(k, st)
            if isinstance(ks, Alt) and all(isinstance(x, T) for _, x in ks.alts):
                k = self.scalar(ks, st)
            else:
                k = ks
        if isinstance(o, Ref):
            ob = self.I.get(st, o)
            if isinstance(ob, DictObj):
                kt = self.keyterm(k if not (isinstance(k, tuple) and k[0] == 'tuple') else Tup(k[1]), st)
                if not any(e[0] == 'v' and e[1] is kt and e[3] is TRUE for e in ob.entries):
                    self.I.note_read(o)
                pres, v = self.lookup(ob.entries, kt, st)
                if ob.default is not None and pres is not TRUE:
                    dv, st = self.I.call(ob.default, [], {}, st)
                    if v is None:
                        self.I.put(st, o, DictObj(ob.entries + (('v', kt, dv, TRUE),), ob.origin, ob.default))
                        return dv, st
                    return self.I.merge_val(pres, v, dv), st
                if pres is FALSE or v is None:
                    self.I.do_raise(st, 'KeyError', self.I.node)
                    return None, None
                st = self.raise_if(st, neg(pres), 'KeyError')
                return (self.I.simp(v, st) if st else None), st
            if isinstance(ob, ListObj):
                if isinstance(k, Series):
                    return self.take(ob, k, st)
                return self.list_getitem(ob, k, st)
            if isinstance(ob, FrameObj):
                return self.pd.frame_getitem(o, ob.frame, k, st)
            if isinstance(ob, Obj):
                m = ob.cls.find('__getitem__')
                if isinstance(m, FuncVal):
                    return self.I.call_func(m, [o, k], {}, st)
            return top('subscript'), st
        if isinstance(o, Tup):
            if isinstance(k, tuple) and k[0] == 'slice':
                lo, hi, step = [None if x is None else self.cval(x, st) for x in k[1:]]
                return Tup(o.items[slice(lo, hi, step)]), st
            if isinstance(k, T) and k.op == 'const':
                try:
                    return o.items[k.value], st
                except Exception:
                    self.I.do_raise(st, 'IndexError', self.I.node)
                    return None, None
            return top('tuple index'), st
        if isinstance(o, Series):
            return self.pd.series_getitem(o, k, st)
        if isinstance(o, Loc):
            return self.pd.loc_get(o, k, st)
        if isinstance(o, GroupBy):
            ns = [n for n, p in self.names(k, st)]
            single = isinstance(k, T)
            g = GroupBy(o.frame, o.keys, o.as_index, ns, o.single)
            g.sel1 = single
            return g, st
        if isinstance(o, Row):
            if isinstance(k, Ref) or (isinstance(k, tuple)):
                ns = self.names(k, st)
                return Row({n: o.cols[n] for n, p in ns if n in o.cols}, o.index), st
            if isinstance(k, T) and k.op == 'const':
                if k.value not in o.cols:
                    self.I.do_raise(st, 'KeyError', self.I.node)
                    return None, None
                t, p = o.cols[k.value]
                st = self.raise_if(st, neg(p), 'KeyError')
                return t, st
            if isinstance(k, T):
                r = None
                for n, (t, p) in o.cols.items():
                    c = conj(p, eq(k, const(n)))
                    if c is FALSE:
                        continue
                    r = t if r is None else ite(c, t, r)
                if r is not None:
                    return r, st
            return top('row item'), st
        if isinstance(o, Columns):
            if isinstance(k, T) and k.op == 'const' and all(p is TRUE for _, p in o.names):
                return const(o.names[k.value][0]), st
            return top('column position'), st
        if isinstance(o, StrAcc):
            return o.s.map(lambda t: mk('getitem', t, self.scalar(k, st))), st
        if isinstance(o, T):
            return self.t_getitem(o, k, st)
        if isinstance(o, ExtObj):
            return mk('getitem', self.ext_term(o, st), self.scalar(k, st)), st
        if isinstance(o, Ext):
            return o, st        # typing subscripts
        return top('subscript of ' + type(o).__name__), st

    def ext_term(self, o, st):
        return mk('extobj', o.kind, *[a if isinstance(a, (T, str)) else self.scalar(a, st) for a in o.args])

    def t_getitem(self, o, k, st):
        if o.op == 'top':
            return o, st
        if o.op == 'ite' and not (isinstance(k, tuple)):
            a, _ = self.t_getitem(o.args[1], k, st)
            b, _ = self.t_getitem(o.args[2], k, st)
            return ite(o.args[0], a, b), st
        if isinstance(k, tuple) and k[0] == 'slice':
            lo, hi, step = [NONE if x is None else self.scalar(x, st) for x in k[1:]]
            if o.op == 'const' and all(x.op == 'const' for x in (lo, hi, step)):
                return const(o.value[slice(lo.value, hi.value, step.value)]), st
            return mk('slice', o, lo, hi, step), st
        k = self.scalar(k, st) if not isinstance(k, tuple) else top('index')
        if o.op == 'const' and k.op == 'const':
            try:
                return const(o.value[k.value]), st
            except Exception:
                self.I.do_raise(st, 'IndexError', self.I.node)
                return None, None
        if o.op == 'tuple' and k.op == 'const' and isinstance(k.value, int):
            return o.args[k.value], st
        if o.op == 'stored':
            # stored(base, key, value): functional update of an opaque object
            c = eq(o.args[1], k)
            if c is TRUE:
                return o.args[2], st
            b, st = self.t_getitem(o.args[0], k, st)
            return ite(c, o.args[2], b), st
        hk = mk('haskey', o, k)
        self.I.maybe_errors.append(('KeyError', st.pc, o, k, self.I.site()))
        return mk('getitem', o, k), st

    def list_getitem(self, ob, k, st):
        if isinstance(k, tuple) and k[0] == 'slice':
            lo, hi, step = [None if x is None else self.cval(x, st) for x in k[1:]]
            if all(i[0] == 'v' and i[2] is TRUE for i in ob.items):
                return self.I.new(st, ListObj(ob.items[slice(lo, hi, step)], ob.kind)), st
            if lo in (None, 0) and hi is None and step is None:
                return self.I.new(st, ListObj(ob.items, ob.kind)), st
            if all(i[0] == 'v' for i in ob.items) and len(ob.items) <= 12 and step in (None, 1):
                ps = [i[2] for i in ob.items]
                out = []
                for j, it in enumerate(ob.items):
                    c = it[2]
                    for bound, after in ((lo, False), (hi, True)):
                        if bound is None:
                            continue
                        # the member is in the slice: at least lo members before it / fewer than hi, counting from either end
                        side, k = (ps[:j], bound) if bound >= 0 else (ps[j + 1:], -bound)
                        few = disj(*[exactly(side, x) for x in range(min(k, len(side) + 1))])
                        c = conj(c, few if after == (bound >= 0) else neg(few))
                    if c is not FALSE:
                        out.append(('v', it[1], c))
                return self.I.new(st, ListObj(out, ob.kind)), st
            return self.I.new(st, ListObj([('top', 'slice of a data-dependent list')])), st
        if isinstance(k, T) and k.op == 'const' and isinstance(k.value, int):
            i = k.value
            if all(x[0] == 'v' and tm.assume(x[2], st.facts) is TRUE for x in ob.items):
                try:
                    return ob.items[i][1], st
                except IndexError:
                    self.I.do_raise(st, 'IndexError', self.I.node)
                    return None, None
            # first / last of a conditional list
            if i in (0, -1):
                seq = list(ob.items) if i == 0 else list(reversed(ob.items))
                ne = self.I.nonempty_items(ob.items)
                ne = tm.assume(ne, st.facts)
                st = self.raise_if(st, neg(ne), 'IndexError')
                if st is None:
                    return None, None
                val = None
                for it in reversed(seq):
                    if it[0] == 'v':
                        val = it[1] if val is None else self.I.merge_val(it[2], it[1], val)
                    elif it[0] == 'each':
                        ex = tm.exists([tm.br(it[1], it[2])])
                        pv = self.pick_value(it[3], it[1], it[2], st, 'first' if i == 0 else 'last')
                        val = pv if val is None else self.I.merge_val(ex, pv, val)
                    else:
                        val = top(it[1])
                return val, st
            if all(x[0] == 'v' for x in ob.items) and len(ob.items) <= 12 and i >= 0:
                # element i of a list with optional members
                val = None
                tot = FALSE
                for j, it in enumerate(ob.items):
                    before = [x[2] for x in ob.items[:j]]
                    c = conj(it[2], exactly(before, i))
                    if c is FALSE:
                        continue
                    val = it[1] if val is None else self.I.merge_val(c, it[1], val)
                    tot = disj(tot, c)
                if val is not None:
                    st = self.raise_if(st, neg(tot), 'IndexError')
                    return val, st
            return top('list element'), st
        return top('list index'), st

    def setitem(self, o, k, v, st):
        o = self.I.simp(o, st)
        if isinstance(o, Alt):
            self._alt_set(o, st, lambda x, s: self.setitem(x, k, v, s))
            return
        if isinstance(o, Ref):
            ob = self.I.get(st, o)
            if isinstance(ob, DictObj):
                kt = self.keyterm(k if not (isinstance(k, tuple) and k[0] == 'tuple') else Tup(k[1]), st)
                ents = []
                done = False
                for e in ob.entries:
                    if e[0] == 'v' and e[1] is kt:
                        ents.append(('v', kt, v, TRUE))
                        done = True
                    else:
                        ents.append(e)
                if not done:
                    ents.append(('v', kt, v, TRUE))
                else:
                    # later symbolic keys would shadow: move to the end if any
                    if any(e[0] != 'v' or e[1].op != 'const' for e in ents):
                        ents = [e for e in ents if not (e[0] == 'v' and e[1] is kt)] + [('v', kt, v, TRUE)]
                self.I.put(st, o, DictObj(ents, ob.origin, ob.default))
                return
            if isinstance(ob, ListObj):
                if isinstance(k, T) and k.op == 'const' and all(i[0] == 'v' and i[2] is TRUE for i in ob.items):
                    items = list(ob.items)
                    try:
                        items[k.value] = ('v', v, TRUE)
                    except IndexError:
                        self.I.do_raise(st, 'IndexError', self.I.node)
                        return
                    self.I.put(st, o, ListObj(items, ob.kind, ob.origin))
                else:
                    self.I.put(st, o, ListObj([('top', 'list store')], ob.kind, ob.origin))
                return
            if isinstance(ob, FrameObj):
                self.pd.frame_setitem(o, ob, k, v, st)
                return
        if isinstance(o, Loc):
            self.pd.loc_set(o, k, v, st)
            return
        self.I.event(st, 'setitem', 'store', [o if not isinstance(o, ExtObj) else self.ext_term(o, st), k, v])

    def delitem(self, o, k, st):
        o = self.I.simp(o, st)
        if isinstance(o, Ref):
            ob = self.I.get(st, o)
            if isinstance(ob, DictObj):
                kt = self.keyterm(k, st)
                ents = []
                for e in ob.entries:
                    if e[0] == 'v':
                        c = eq(e[1], kt)
                        p = conj(e[3], neg(c))
                        if p is not FALSE:
                            ents.append(('v', e[1], e[2], p))
                    elif e[0] == 'each':
                        ents.append(('each', e[1], conj(e[2], neg(eq(e[3], kt))), e[3], e[4]))
                    else:
                        ents.append(e)
                self.I.put(st, o, DictObj(ents, ob.origin, ob.default))
                return
            if isinstance(ob, FrameObj):
                f = ob.frame
                self.I.put(st, o, FrameObj(f.like(cols={n: c for n, c in f.cols.items() if n != self.cval(k, st)}),
                                           ob.origin))
                return
            if isinstance(ob, ListObj) and isinstance(k, T) and k.op == 'const' and \
                    all(i[0] == 'v' and i[2] is TRUE for i in ob.items):
                items = list(ob.items)
                try:
                    del items[k.value]
                except IndexError:
                    self.I.do_raise(st, 'IndexError', self.I.node)
                    return
                self.I.put(st, o, ListObj(items, ob.kind, ob.origin))
                return
        self.I.event(st, 'delitem', 'del', [o, k])

    # ------------------------------------------------------------ operators
    def binop(self, opname, a, b, st):
        a, b = self.I.simp(a, st), self.I.simp(b, st)
        if isinstance(a, Series) or isinstance(b, Series) or self.is_obj(a, st, FrameObj) or self.is_obj(b, st, FrameObj):
            return self.pd.binop(opname, a, b, st)
        if isinstance(a, Alt):
            return self.I.lift(a, st, lambda x, s: self.binop(opname, x, b, s))
        if isinstance(b, Alt):
            return self.I.lift(b, st, lambda x, s: self.binop(opname, a, x, s))
        la, lb = self.is_obj(a, st, ListObj), self.is_obj(b, st, ListObj)
        if la and lb:
            oa, ob = self.I.get(st, a), self.I.get(st, b)
            if opname == 'Add' or opname == 'BitOr':
                return self.I.new(st, ListObj(oa.items + ob.items, oa.kind))
            if opname in ('Sub', 'BitAnd') and oa.kind == 'set':
                items = []
                for it in oa.items:
                    c = self.contains_items(ob.items, it[1] if it[0] == 'v' else it[3], st)
                    c = neg(c) if opname == 'Sub' else c
                    items.append(_cond(it, c))
                return self.I.new(st, ListObj(items, oa.kind))
        if la and opname == 'Mult' and isinstance(b, T) and b.op == 'const':
            return self.I.new(st, ListObj(self.I.get(st, a).items * b.value))
        if isinstance(a, (Columns,)) and lb and opname == 'Add':
            return self.I.new(st, ListObj([tuple(i) for i in self.iterate(a, st)] + list(self.I.get(st, b).items)))
        if la and isinstance(b, Columns) and opname == 'Add':
            return self.I.new(st, ListObj(list(self.I.get(st, a).items) + self.iterate(b, st)))
        if isinstance(a, Tup) and isinstance(b, Tup) and opname == 'Add':
            return Tup(a.items + b.items)
        if opname == 'Mod' and isinstance(a, T) and a.op == 'const' and isinstance(a.value, str):
            return self.pct_format(a.value, b, st)
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return self.ext_binop(opname, a, b, st)
        return self.scalar_op(opname, self.scalar(a, st), self.scalar(b, st))

    def ext_binop(self, opname, a, b, st):
        ta = self.ext_term(a, st) if isinstance(a, ExtObj) else self.scalar(a, st)
        tb = self.ext_term(b, st) if isinstance(b, ExtObj) else self.scalar(b, st)
        return mk('xop', opname, ta, tb)

    def scalar_op(self, opname, a, b):
        if opname in OPS:
            if opname == 'Add' and (is_str(a) or is_str(b)):
                return self.strcat([a, b])
            return tm.app(OPS[opname], a, b)
        if opname == 'BitAnd':
            return conj(as_bool(a), as_bool(b))
        if opname == 'BitOr':
            return disj(as_bool(a), as_bool(b))
        if opname == 'BitXor':
            a, b = as_bool(a), as_bool(b)
            return disj(conj(a, neg(b)), conj(neg(a), b))
        return top('operator ' + opname)

    def unop(self, op, v, st):
        v = self.I.simp(v, st)
        f = self.I.frame_of(v, st)
        if f is not None:
            return self.I.frame_ref(st, self.pd.map_frame(f, lambda t: self.scalar_unop(op, t)))
        if isinstance(v, Series):
            return v.map(lambda t: self.scalar_unop(op, t))
        if isinstance(v, Alt):
            return self.I.lift(v, st, lambda x, s: self.unop(op, x, s))
        return self.scalar_unop(op, self.scalar(v, st))

    def scalar_unop(self, op, t):
        if op == 'USub':
            return tm.app('*', const(-1), t) if t.op != 'const' else const(-tm.raw(t.value))
        if op == 'UAdd':
            return t
        if op == 'Invert':
            return neg(as_bool(t))
        if op == 'Not':
            return neg(as_bool(t))
        return top('operator ' + op)

    def compare(self, opname, a, b, st):
        a, b = self.I.simp(a, st), self.I.simp(b, st)
        if opname in ('Is', 'IsNot'):
            r = self.is_same(a, b, st)
            return r if opname == 'Is' else neg(r)
        if opname in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            return r if opname == 'In' else neg(r)
        if isinstance(a, Series) or isinstance(b, Series) or self.is_obj(a, st, FrameObj) or self.is_obj(b, st, FrameObj):
            return self.pd.compare(opname, a, b, st)
        if isinstance(a, Alt):
            return self.I.lift(a, st, lambda x, s: self.compare(opname, x, b, s))
        if isinstance(b, Alt):
            return self.I.lift(b, st, lambda x, s: self.compare(opname, a, x, s))
        if isinstance(a, Tup) and isinstance(b, Tup) and opname in ('Eq', 'NotEq'):
            r = conj(*[as_bool(self.compare('Eq', x, y, st)) for x, y in zip(a.items, b.items)]) \
                if len(a.items) == len(b.items) else FALSE
            return r if opname == 'Eq' else neg(r)
        if isinstance(a, Tup) and isinstance(b, Tup) and opname in ('Lt', 'LtE', 'Gt', 'GtE'):
            if not a.items or not b.items:
                n, m = len(a.items), len(b.items)
                return const({'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[opname])
            first = as_bool(self.compare(opname[:2], a.items[0], b.items[0], st))
            same = as_bool(self.compare('Eq', a.items[0], b.items[0], st))
            return disj(first, conj(same, as_bool(self.compare(opname, Tup(a.items[1:]), Tup(b.items[1:]), st))))
        if isinstance(a, (Ref, Columns)) and isinstance(b, (Ref, Columns)) and opname in ('Eq', 'NotEq'):
            if isinstance(a, Ref) and a == b:
                r = TRUE
            else:
                r = self.list_eq(a, b, st)
            return r if opname == 'Eq' else neg(r)
        if opname in CMP and self.is_obj(a, st, ListObj) and self.is_obj(b, st, ListObj) and self.I.get(st, a).kind == 'set' \
                and self.I.get(st, b).kind == 'set':
            lo, hi = (a, b) if opname in ('Lt', 'LtE') else (b, a)
            r = self.list_method(lo, self.I.get(st, lo), 'issubset', [hi], {}, st)[0]
            if opname in ('Lt', 'Gt'):
                r = conj(r, neg(self.list_method(hi, self.I.get(st, hi), 'issubset', [lo], {}, st)[0]))
            return r
        if isinstance(a, Ref) and isinstance(b, T) or isinstance(b, Ref) and isinstance(a, T):
            x = a if isinstance(a, T) else b
            if x.op == 'const' and opname in ('Eq', 'NotEq'):
                return FALSE if opname == 'Eq' else TRUE
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return mk('truth', self.ext_binop(opname, a, b, st))
        return self.scalar_cmp(opname, self.scalar(a, st), self.scalar(b, st), st)

    def list_eq(self, a, b, st):
        ia, ib = self.iterate(a, st), self.iterate(b, st)
        if all(x[0] == 'v' and x[2] is TRUE for x in ia + ib):
            if len(ia) != len(ib):
                return FALSE
            return conj(*[as_bool(self.compare('Eq', x[1], y[1], st)) for x, y in zip(ia, ib)])
        return top('list comparison')

    def scalar_cmp(self, opname, a, b, st=None):
        if opname == 'Eq':
            return eq(a, b)
        if opname == 'NotEq':
            return neg(eq(a, b))
        return tm.app(CMP[opname], a, b)

    def is_same(self, a, b, st):
        if isinstance(a, Alt):
            return disj(*[conj(c, self.is_same(x, b, st)) for c, x in a.alts])
        if isinstance(b, Alt):
            return self.is_same(b, a, st)
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return TRUE
            if a.op == 'const' and b.op == 'const':
                return TRUE if a.value is b.value else FALSE
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                if x.op == 'ite':
                    return ite(x.args[0], self.is_same(x.args[1], NONE, st), self.is_same(x.args[2], NONE, st))
                if x.op in ('sym', 'getitem', 'call', 'cell', 'agg', 'mcall', 'xattr'):
                    return mk('typeis', x, 'NoneType')
                return FALSE
            if b.op == 'const' and isinstance(b.value, bool):
                return as_bool(a) if b.value else neg(as_bool(a))
            return eq(a, b)
        if isinstance(a, T) != isinstance(b, T):
            return FALSE
        return TRUE if a == b else FALSE

    def contains_items(self, items, x, st):
        out = []
        for it in items:
            if it[0] == 'v':
                out.append(conj(it[2], as_bool(self.eqv(it[1], x, st))))
            elif it[0] == 'each':
                m = {g: tm.fresh_gid() for g, _ in it[1]}
                gens = subst_gens(it[1], m)
                v = self.subst_value(it[3], m, st)
                out.append(tm.exists([tm.br(gens, conj(tm.subst(it[2], m), as_bool(self.eqv(v, x, st))))]))
            else:
                out.append(top(it[1]))
        return disj(*out)

    def eqv(self, a, b, st):
        r = self.compare('Eq', a, b, st)
        return r if isinstance(r, T) else top('comparison')

    def contains(self, b, a, st):
        if isinstance(b, Alt):
            return disj(*[conj(c, self.contains(x, a, st)) for c, x in b.alts])
        if isinstance(b, Columns):
            out = []
            at = self.scalar(a, st)
            for n, p in b.names:
                out.append(conj(p, eq(at, const(n))))
            return disj(*out)
        if isinstance(b, Ref):
            o = self.I.get(st, b)
            self.I.note_read(b)
            if isinstance(o, ListObj):
                if all(i[0] == 'v' and i[2] is TRUE and isinstance(i[1], T) and i[1].op == 'const' for i in o.items) \
                        and isinstance(a, T):
                    return tm.isin_const(a, [i[1].value for i in o.items])
                return self.contains_items(o.items, a, st)
            if isinstance(o, DictObj):
                pres, v = self.lookup(o.entries, self.keyterm(a, st), st)
                return pres
            if isinstance(o, FrameObj):
                return self.contains(Columns([(n, p) for n, (t, p) in o.frame.cols.items()]), a, st)
        if isinstance(b, Tup):
            return disj(*[as_bool(self.eqv(x, a, st)) for x in b.items])
        if isinstance(b, Row):
            return self.contains(Columns([(n, p) for n, (t, p) in b.cols.items()]), a, st)
        if isinstance(b, Series):
            if b.kind == 'series' and b.index is None:
                return top('membership in a row index')
            if b.kind == 'series':
                b = b.like(b.index)
            return fr.isin_series(self.scalar(a, st), b)
        if isinstance(b, T):
            at = self.scalar(a, st)
            if b.op == 'const' and at.op == 'const':
                try:
                    return TRUE if at.value in b.value else FALSE
                except Exception:
                    return top('in')
            if b.op == 'stored':
                return disj(eq(b.args[1], at), self.contains(b.args[0], a, st))
            if b.op == 'ite':
                return ite(b.args[0], self.contains(b.args[1], a, st), self.contains(b.args[2], a, st))
            if b.op == 'top':
                return b
            return mk('haskey', b, at)
        if isinstance(b, ExtObj):
            return mk('haskey', self.ext_term(b, st), self.scalar(a, st))
        return top('in')

    def list_extend(self, ref, v, st):
        o = self.I.get(st, ref)
        self.I.put(st, ref, ListObj(o.items + tuple(self.iterate(v, st)), o.kind, o.origin))

    # ------------------------------------------------------------ strings
    def strcat(self, parts):
        out = []
        for p in parts:
            if p.op == 'strcat':
                out += list(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == 'const' and res and res[-1].op == 'const' and isinstance(p.value, str) and \
                    isinstance(res[-1].value, str):
                res[-1] = const(res[-1].value + p.value)
            elif p.op == 'const' and p.value == '':
                continue
            else:
                res.append(p)
        if not res:
            return const('')
        if len(res) == 1 and (res[0].op == 'const' or is_str(res[0])):
            return res[0]
        for i, p in enumerate(res):
            if p.op == 'ite' and len(res) <= 8 and all(x.op == 'const' for _, x in ite_leaves(p)):
                return ite(p.args[0], self.strcat(res[:i] + [p.args[1]] + res[i + 1:]),
                           self.strcat(res[:i] + [p.args[2]] + res[i + 1:]))
        return mk('strcat', *res)

    def fmt_part(self, v, spec, st):
        t = self.scalar(v, st) if not isinstance(v, ExtObj) else self.ext_term(v, st)
        sp = spec.value if isinstance(spec, T) and spec.op == 'const' else ''
        if t.op == 'const':
            try:
                return const(format(t.value, sp))
            except Exception:
                return top('format')
        if t.op == 'ite' and all(x.op == 'const' for _, x in ite_leaves(t)):
            return ite(t.args[0], self.fmt_part(t.args[1], spec, st), self.fmt_part(t.args[2], spec, st))
        if sp == '' and is_str(t):
            return t
        return mk('strfmt', t, sp)

    def pct_format(self, s, b, st):
        vals = list(b.items) if isinstance(b, Tup) else [b]
        if all(isinstance(v, T) and v.op == 'const' and isinstance(v.value, (int, str)) for v in vals):
            try:
                return const(s % tuple(v.value for v in vals))
            except (TypeError, ValueError):
                pass
        parts = s.split('%s')
        if len(parts) == len(vals) + 1 and '%' not in ''.join(parts):
            out = [const(parts[0])]
            for v, p in zip(vals, parts[1:]):
                out += [self.fmt_part(v, None, st), const(p)]
            return self.strcat(out)
        return mk('pctfmt', const(s), *[self.scalar(v, st) for v in vals])

    def str_format(self, s, args, kwargs, st):
        import string
        out = []
        auto = 0
        try:
            pieces = list(string.Formatter().parse(s))
        except ValueError:
            return top('format')
        for lit, field, spec, conv in pieces:
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == '':
                key = auto
                auto += 1
            elif field.isdigit():
                key = int(field)
            else:
                key = field
            if isinstance(key, int):
                if key >= len(args):
                    return top('format arguments')
                v = args[key]
            else:
                if key not in kwargs:
                    return top('format arguments')
                v = kwargs[key]
            if '{' in (spec or ''):
                return top('format spec')
            out.append(self.fmt_part(v, const(spec or ''), st))
        return self.strcat(out)

    # ------------------------------------------------------------ method calls
    def call_method(self, obj, name, args, kwargs, st):
        obj = self.I.simp(obj, st)
        if isinstance(obj, Alt):
            return self._alt(obj, st, lambda x, s: self.call_method(x, name, args, kwargs, s))
        if isinstance(obj, Ref):
            o = self.I.get(st, obj)
            if isinstance(o, ListObj):
                return self.list_method(obj, o, name, args, kwargs, st)
            if isinstance(o, DictObj):
                return self.dict_method(obj, o, name, args, kwargs, st)
            if isinstance(o, FrameObj):
                return self.pd.frame_method(obj, o.frame, name, args, kwargs, st)
            if isinstance(o, Obj):
                if name == '__init__':
                    return NONE, st
                self.I.event(st, 'mcall', name, [obj] + list(args), kwargs)
                return top('method %s of %s' % (name, getattr(o.cls, 'name', '?'))), st
        if isinstance(obj, Series):
            return self.pd.series_method(obj, name, args, kwargs, st)
        if isinstance(obj, GroupBy):
            return self.pd.group_method(obj, name, args, kwargs, st)
        if isinstance(obj, StrAcc):
            return self.pd.acc_method(obj, name, args, kwargs, st)
        if isinstance(obj, Columns):
            if name in ('tolist', 'to_list', 'copy', '__iter__', 'unique'):
                return self.I.new(st, ListObj(self.iterate(obj, st))), st
            if name in ('isin',):
                raise Unsupported('columns.isin')
            if name in ('difference', 'drop'):
                rm = {n for n, p in self.names(args[0], st)}
                return Columns([(n, p) for n, p in obj.names if n not in rm]), st
            if name == 'intersection':
                keep = dict(self.names(args[0], st))
                return Columns([(n, conj(p, keep[n])) for n, p in obj.names if n in keep]), st
            return top('columns.' + name), st
        if isinstance(obj, Row):
            return self.pd.row_method(obj, name, args, kwargs, st)
        if isinstance(obj, Tup):
            if name == 'index' or name == 'count':
                return top('tuple method'), st
        if isinstance(obj, ExtObj):
            return self.ext_method(obj, name, args, kwargs, st)
        if isinstance(obj, T):
            return self.t_method(obj, name, args, kwargs, st)
        return top('method %s of %s' % (name, type(obj).__name__)), st

    def list_method(self, ref, o, name, args, kwargs, st):
        if name not in ('append', 'add', 'extend', 'update'):
            self.I.note_read(ref)
        if name in ('append', 'add'):
            it = ('v', args[0], TRUE)
            if o.kind == 'set' and isinstance(args[0], T):
                pass
            self.I.put(st, ref, ListObj(o.items + (it,), o.kind, o.origin))
            return NONE, st
        if name in ('extend', 'update'):
            self.I.put(st, ref, ListObj(o.items + tuple(self.iterate(args[0], st)), o.kind, o.origin))
            return NONE, st
        if name == 'insert':
            i = args[0]
            if isinstance(i, T) and i.op == 'const' and (i.value == 0 or all(x[0] == 'v' and x[2] is TRUE for x in o.items)):
                items = list(o.items)
                items.insert(i.value, ('v', args[1], TRUE))
                self.I.put(st, ref, ListObj(items, o.kind, o.origin))
            else:
                self.I.put(st, ref, ListObj([('top', 'insert')], o.kind, o.origin))
            return NONE, st
        if name == 'pop':
            i = args[0].value if args and isinstance(args[0], T) and args[0].op == 'const' else (-1 if not args else None)
            if i is not None and all(x[0] == 'v' and x[2] is TRUE for x in o.items):
                if not o.items or i >= len(o.items):
                    self.I.do_raise(st, 'IndexError', self.I.node)
                    return None, None
                items = list(o.items)
                v = items.pop(i)
                self.I.put(st, ref, ListObj(items, o.kind, o.origin))
                return v[1], st
            self.I.put(st, ref, ListObj([('top', 'pop')], o.kind, o.origin))
            return top('pop'), st
        if name in ('remove', 'discard'):
            x = args[0]
            items = []
            found = FALSE
            for it in o.items:
                if it[0] == 'v':
                    e = as_bool(self.eqv(it[1], x, st))
                    c = conj(e, neg(found))
                    found = disj(found, conj(it[2], e))
                    it = ('v', it[1], conj(it[2], neg(c)))
                    if it[2] is FALSE:
                        continue
                elif it[0] == 'each':
                    e = as_bool(self.eqv(it[3], x, st))
                    found = disj(found, tm.exists([tm.br(it[1], conj(it[2], e))]))
                    it = ('each', it[1], conj(it[2], neg(e)), it[3])
                items.append(it)
            if name == 'remove':
                st2 = self.raise_if(st, neg(found), 'ValueError')
                if st2 is None:
                    return None, None
                st = st2
            self.I.put(st, ref, ListObj(items, o.kind, o.origin))
            return NONE, st
        if name in ('copy', 'union', 'difference', 'intersection'):
            if name == 'copy':
                return self.I.new(st, ListObj(o.items, o.kind)), st
            other = self.I.new(st, ListObj(self.iterate(args[0], st), 'set'))
            r = self.binop({'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd'}[name],
                           self.I.new(st, ListObj(o.items, 'set')), other, st)
            return r, st
        if name in ('sort', 'reverse', 'clear'):
            if name == 'clear':
                self.I.put(st, ref, ListObj((), o.kind, o.origin))
            elif name == 'reverse':
                self.I.put(st, ref, ListObj(tuple(reversed(o.items)), o.kind, o.origin))
            else:
                self.I.put(st, ref, ListObj(o.items, o.kind, o.origin))
            return NONE, st
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            a = o.items
            b = self.iterate(args[0], st)
            if name == 'issuperset':
                a, b = b, a
            out = []
            for it in a:
                if it[0] == 'top':
                    return top(it[1]), st
                x = it[1] if it[0] == 'v' else it[3]
                c = self.contains_items(b, x, st)
                c = neg(c) if name != 'isdisjoint' else c
                out.append(conj(it[2], c) if it[0] == 'v' else tm.exists([tm.br(it[1], conj(it[2], c))]))
            return neg(disj(*out)), st
        if name == 'index' and all(x[0] == 'v' and x[2] is TRUE for x in o.items) and isinstance(args[0], T):
            r = None
            for i, it in reversed(list(enumerate(o.items))):
                c = as_bool(self.eqv(it[1], args[0], st))
                if c is FALSE:
                    continue
                r = const(i) if r is None else ite(c, const(i), r)
            if r is not None:
                return r, st
        if name == 'count':
            return tm.agg('sum', [b for b in (self._count_br(it, args[0], st) for it in o.items) if b is not None]), st
        return top('list.' + name), st

    def _count_br(self, it, x, st):
        if it[0] == 'v':
            return tm.br((), conj(it[2], as_bool(self.eqv(it[1], x, st))), const(1))
        if it[0] == 'each':
            return tm.br(it[1], conj(it[2], as_bool(self.eqv(it[3], x, st))), const(1))
        return tm.br((), top(it[1]), const(1))

    def dict_method(self, ref, o, name, args, kwargs, st):
        if name != 'update':
            self.I.note_read(ref)
        if name in ('items', 'values', 'keys'):
            items = []
            if not self.distinct_keys(o.entries):
                return self.I.new(st, ListObj([('top', 'dict with repeated keys')])), st
            for e in o.entries:
                if e[0] == 'v':
                    x = {'items': Tup([e[1], e[2]]), 'values': e[2], 'keys': e[1]}[name]
                    items.append(('v', x, e[3]))
                elif e[0] == 'each':
                    x = {'items': Tup([e[3], e[4]]), 'values': e[4], 'keys': e[3]}[name]
                    items.append(('each', e[1], e[2], x))
                else:
                    items.append(e)
            return self.I.new(st, ListObj(items)), st
        if name == '__getitem__':
            return self.getitem(ref, args[0], st)
        if name == '__contains__':
            return self.lookup(o.entries, self.keyterm(args[0], st), st)[0], st
        if name in ('get', 'setdefault'):
            k = self.keyterm(args[0], st)
            d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            pres, v = self.lookup(o.entries, k, st)
            if name == 'setdefault':
                self.setitem(ref, k, v if pres is TRUE else d if v is None else self.I.merge_val(pres, v, d), st)
            if pres is TRUE:
                return v, st
            if pres is FALSE or v is None:
                return d, st
            return self.I.merge_val(pres, v, d), st
        if name == 'pop':
            k = self.keyterm(args[0], st)
            pres, v = self.lookup(o.entries, k, st)
            self.delitem(ref, k, st)
            if len(args) > 1:
                if v is None:
                    return args[1], st
                return self.I.merge_val(pres, v, args[1]), st
            if v is None:
                self.I.do_raise(st, 'KeyError', self.I.node)
                return None, None
            st = self.raise_if(st, neg(pres), 'KeyError')
            return v, st
        if name == 'update':
            for src in args:
                src = self.I.simp(src, st)
                if isinstance(src, Ref) and isinstance(self.I.get(st, src), DictObj):
                    ents = list(self.I.get(st, ref).entries)
                    for e in self.I.get(st, src).entries:
                        if e[0] == 'v' and e[3] is TRUE:
                            ents = [x for x in ents if not (x[0] == 'v' and x[1] is e[1])]
                        ents.append(e)
                    self.I.put(st, ref, DictObj(ents, o.origin, o.default))
                else:
                    self.I.put(st, ref, DictObj(o.entries + (('top', 'dict.update'),), o.origin, o.default))
            for k, v in kwargs.items():
                self.setitem(ref, const(k), v, st)
            return NONE, st
        if name == 'copy':
            return self.I.new(st, DictObj(o.entries, None, o.default)), st
        if name == 'clear':
            self.I.put(st, ref, DictObj((), o.origin, o.default))
            return NONE, st
        return top('dict.' + name), st

    def t_method(self, o, name, args, kwargs, st):
        if o.op == 'top':
            return o, st
        if o.op == 'const' and isinstance(o.value, str):
            if name == 'format':
                return self.str_format(o.value, args, kwargs, st), st
            if name == 'join':
                items = self.iterate(args[0], st)
                if all(i[0] == 'v' and i[2] is TRUE for i in items):
                    out = []
                    for j, i in enumerate(items):
                        if j:
                            out.append(o)
                        out.append(self.scalar(i[1], st))
                    return self.strcat(out), st
                return mk('join', o, *[self.scalar(i[1], st) if i[0] == 'v' else
                                       mk('each', mk('br', tuple(i[1]), i[2], self.scalar(i[3], st))) if i[0] == 'each'
                                       else top('join') for i in items]), st
        if name in STR_METHODS:
            ts = [self.scalar(a, st) for a in args]
            if o.op == 'const' and (o.value is None or isinstance(o.value, float)):
                return o, st
            if o.op == 'const' and all(t.op == 'const' for t in ts):
                try:
                    r = getattr(o.value, name)(*[t.value for t in ts])
                    if isinstance(r, list):
                        return self.I.list_ref(st, [const(x) for x in r]), st
                    return const(r), st
                except Exception:
                    return top('string method'), st
            if o.op == 'ite':
                a, _ = self.t_method(o.args[1], name, args, kwargs, st)
                b, _ = self.t_method(o.args[2], name, args, kwargs, st)
                return self.I.merge_val(o.args[0], a, b), st
            if name in ('startswith', 'endswith'):
                return as_bool(mk('strm', name, o, *ts)), st
            return mk('strm', name, o, *ts), st
        if name in ('items', 'keys', 'values') and not args:
            g = tm.fresh_gid()
            gens = ((g, mk('dictiter', o)),)
            k, v = mk('cell', g, 'key'), mk('cell', g, 'value')
            x = {'items': Tup([k, v]), 'values': v, 'keys': k}[name]
            return self.I.new(st, ListObj([('each', gens, TRUE, x)])), st
        if name == 'get':
            k = self.scalar(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            return self.I.merge_val(mk('haskey', o, k), mk('getitem', o, k), d), st
        if name == 'copy' or name == '__copy__':
            return o, st
        if name in ('strftime', 'isoformat', 'date', 'time', 'timestamp', 'weekday', 'replace', 'total_seconds',
                    'timetuple', 'isoweekday', 'toordinal', 'round', 'item', 'to_pydatetime', 'combine', 'hour'):
            if name in ('item', 'to_pydatetime'):
                return o, st
            ts = [self.scalar(a, st) for a in args] + [mk('kw', k, self.scalar(v, st)) for k, v in sorted(kwargs.items())]
            return fold(mk('dtm', name, o, *ts)), st
        ts = []
        for a in args:
            ts.append(self.scalar(a, st) if not isinstance(a, ExtObj) else self.ext_term(a, st))
        for k, v in sorted(kwargs.items()):
            ts.append(mk('kw', k, self.scalar(v, st)))
        self.I.event(st, 'mcall', name, [o] + list(args), kwargs)
        return mk('mcall', o, name, *ts), st

    def ext_method(self, o, name, args, kwargs, st):
        if o.kind == 'noop':
            return NONE, st
        self.I.event(st, 'xcall', o.kind + '.' + name, [o] + list(args), kwargs)
        if name in ('cursor', '__enter__'):
            return ExtObj(o.kind + '.' + name, o.args), st
        if o.kind == 'Path' and name in ('mkdir',):
            return NONE, st
        ts = [a if isinstance(a, ExtObj) else self.scalar(a, st) for a in args]
        return ExtObj(o.kind + '.' + name, tuple(o.args) + tuple(ts)), st

    # ------------------------------------------------------------ library functions
    def call_ext(self, f, args, kwargs, st):
        if isinstance(f, T):
            if f.op == 'ite':
                v1, _ = self.call_ext(f.args[1], args, kwargs, st)
                v2, _ = self.call_ext(f.args[2], args, kwargs, st)
                return ite(f.args[0], v1, v2), st
            if f.op == 'top':
                return f, st
            if f is NONE or f.op == 'const':
                self.I.do_raise(st, 'TypeError', self.I.node)
                return None, None
            if any(isinstance(a, Series) for a in args):
                s = [a for a in args if isinstance(a, Series)][0]
                return s.map(lambda t: mk('call', f, t)) if len(args) == 1 else top('call'), st
            return mk('call', f, *[self.scalar(a, st) for a in args]), st
        if isinstance(f, ExtObj):
            return top('call of library object'), st
        if not isinstance(f, Ext):
            return top('call of ' + type(f).__name__), st
        p = f.path
        if p in self.I.intercepts:
            r = self.I.intercepts[p](self.I, f, args, kwargs, st)
            if r is not NotImplemented:
                return r if isinstance(r, tuple) else (r, st)
        if p.startswith('builtins.'):
            return self.call_builtin(p[9:], args, kwargs, st)
        root = p.split('.')[0]
        if root in ('pandas', 'numpy', 'np', 'pd'):
            return self.pd.call(p, args, kwargs, st)
        return self.call_other(p, args, kwargs, st)

    def call_other(self, p, args, kwargs, st):
        I = self.I
        if p in ('copy.copy', 'copy.deepcopy'):
            return self.deepcopy(args[0], st), st
        if p in ('collections.defaultdict',):
            return I.new(st, DictObj((), None, args[0] if args else None)), st
        if p in ('collections.OrderedDict',):
            return self.call_builtin('dict', args, kwargs, st)
        if p in ('warnings.warn', 'logging.info', 'logging.debug', 'logging.warning', 'time.sleep', 'doctest.testmod',
                 'sys.stdout.flush'):
            return NONE, st
        if p == 'logging.getLogger':
            return ExtObj('noop'), st
        if p.startswith('math.') and all(isinstance(a, T) for a in args):
            nm = p.split('.')[-1]
            if nm == 'isnan':
                return isna(args[0]), st
            return mk('np', nm, *args), st
        if p == 'functools.reduce':
            items = self.iterate(args[1], st)
            if all(i[0] == 'v' and i[2] is TRUE for i in items):
                vals = [i[1] for i in items]
                acc = args[2] if len(args) > 2 else vals.pop(0)
                for v in vals:
                    acc, st = I.call(args[0], [acc, v], {}, st)
                    if st is None:
                        return None, None
                return acc, st
        if p.split('.')[-1] in ('datetime', 'timedelta', 'time', 'strptime', 'date', 'combine', 'isoformat',
                                'fromisoformat') and p.split('.')[0] in ('datetime', 'timedelta', 'time', 'date'):
            ts = [self.scalar(a, st) for a in args] + [mk('kw', k, self.scalar(v, st)) for k, v in sorted(kwargs.items())]
            return mk('dtf', p.split('.')[-1], *ts), st
        if p == 'os.path.join':
            ts = [self.scalar(a, st) for a in args]
            out = []
            for j, t in enumerate(ts):
                if j:
                    out.append(const('/'))
                out.append(t)
            return self.strcat(out), st
        if p == 'os.path.exists' or p == 'os.path.isfile' or p == 'os.path.isdir':
            return as_bool(mk('fs', p.split('.')[-1], self.scalar(args[0], st))), st
        if p.startswith('mip.') and p in ('mip.xsum',):
            return ExtObj('xsum', args), st
        I.event(st, 'extcall', p, args, kwargs)
        ts = []
        for a in args:
            if isinstance(a, ExtObj):
                ts.append(a)
            else:
                ts.append(self.scalar(a, st))
        for k, v in sorted(kwargs.items()):
            ts.append(mk('kw', k, self.scalar(v, st)))
        return ExtObj(p, ts), st

    def deepcopy(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, FrameObj):
                return self.I.frame_ref(st, o.frame)
            if isinstance(o, ListObj):
                return self.I.new(st, ListObj([(i[0], self.deepcopy(i[1], st), i[2]) if i[0] == 'v' else i
                                               for i in o.items], o.kind))
            if isinstance(o, DictObj):
                return self.I.new(st, DictObj([(e[0], e[1], self.deepcopy(e[2], st), e[3]) if e[0] == 'v' else e
                                               for e in o.entries], None, o.default))
            if isinstance(o, Obj):
                return self.I.new(st, Obj(o.cls, {k: self.deepcopy(x, st) for k, x in o.attrs.items()}))
        if isinstance(v, Alt):
            return Alt([(c, self.deepcopy(x, st)) for c, x in v.alts])
        return v

    def call_builtin(self, n, args, kwargs, st):
        I = self.I
        if n.endswith('Error') or n in ('Exception', 'Warning', 'UserWarning', 'StopIteration', 'BaseException'):
            return mk('exc', 'builtins.' + n), st
        if n in ('print', 'setattr'):
            if n == 'setattr':
                self.setattr(args[0], self.cval(args[1], st), args[2], st)
            return NONE, st
        if n == 'len':
            return self.length(args[0], st), st
        if n in ('max', 'min', 'sum', 'any', 'all'):
            if n in ('max', 'min') and len(args) == 1 and 'default' not in kwargs:
                v = I.simp(args[0], st)
                ne = None
                if isinstance(v, Series):
                    ne = tm.exists(v.brs(False))
                elif isinstance(v, Ref):
                    items = self.iterate(v, st)
                    if not any(i[0] == 'top' for i in items):
                        ne = I.nonempty_items(items)
                if ne is not None:
                    st = self.raise_if(st, neg(ne), 'ValueError')
                    if st is None:
                        return None, None
            return self.reduce(n, args, kwargs, st), st
        if n in ('float', 'int', 'str', 'bool', 'repr'):
            return self.convert(n, args, st), st
        if n == 'abs':
            return self.npfun('abs', args[0], st), st
        if n == 'round':
            nd = args[1] if len(args) > 1 else const(0)
            return self.round(args[0], nd, st), st
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter', 'reversed'):
            if not args:
                return I.new(st, ListObj((), 'set' if n in ('set', 'frozenset') else 'list')), st
            v = I.simp(args[0], st)
            if n == 'tuple' and isinstance(v, Tup):
                return v, st
            items = self.iterate(v, st)
            if n == 'reversed':
                items = list(reversed(items))
            if n == 'sorted' and all(i[0] == 'v' and i[2] is TRUE and isinstance(i[1], T) and i[1].op == 'const'
                                     for i in items) and 'key' not in kwargs:
                try:
                    items = sorted(items, key=lambda i: i[1].value)
                except TypeError:
                    pass
            elif n == 'sorted' and items and all(i[0] == 'v' and i[2] is TRUE and isinstance(i[1], T) for i in items) \
                    and not kwargs and len(items) <= 8:
                ts = tuple(i[1] for i in items)
                items = [('v', mk('sortednth', k, *ts), TRUE) for k in range(len(ts))]
            if n in ('set', 'frozenset'):
                seen, out = set(), []
                for i in items:
                    if i[0] == 'v' and isinstance(i[1], T) and i[2] is TRUE:
                        if i[1] in seen:
                            continue
                        seen.add(i[1])
                    out.append(i)
                items = out
            return I.new(st, ListObj(items, 'set' if n in ('set', 'frozenset') else 'list')), st
        if n == 'dict':
            ents = []
            if args:
                v = I.simp(args[0], st)
                if isinstance(v, Ref) and isinstance(I.get(st, v), DictObj):
                    ents = list(I.get(st, v).entries)
                elif isinstance(v, Series):
                    return self.pd.series_method(v, 'to_dict', [], {}, st)
                elif isinstance(v, T):
                    return v, st
                else:
                    ents = self.pairs_to_entries(self.iterate(v, st), st)
            for k, v in kwargs.items():
                ents = [e for e in ents if not (e[0] == 'v' and e[1] is const(k))] + [('v', const(k), v, TRUE)]
            return I.new(st, DictObj(ents)), st
        if n == 'zip':
            return self.zip(args, st), st
        if n == 'enumerate':
            items = self.iterate(args[0], st)
            start = self.cval(args[1], st) if len(args) > 1 else self.cval(kwargs['start'], st) if 'start' in kwargs else 0
            out = []
            exact = True
            for i, it in enumerate(items):
                if it[0] == 'v':
                    exact = exact and it[2] is TRUE
                    out.append(('v', Tup([const(start + i) if exact else top('position'), it[1]]), it[2]))
                elif it[0] == 'each':
                    exact = False
                    idx = mk('position', mk('br', tuple(it[1]), it[2]), const(start))
                    out.append(('each', it[1], it[2], Tup([idx, it[3]])))
                else:
                    out.append(it)
            return I.new(st, ListObj(out)), st
        if n == 'range':
            ts = [fold(self.scalar(a, st)) for a in args]
            if all(t.op == 'const' for t in ts):
                r = range(*[int(t.value) for t in ts])
                if len(r) <= 64:
                    return I.list_ref(st, [const(i) for i in r]), st
            if len(ts) == 1:
                ts = [const(0)] + ts
            return mk('range', *ts), st
        if n == 'isinstance':
            return self.isinst(args[0], args[1], st), st
        if n == 'type':
            return self.typeof(args[0], st), st
        if n == 'callable':
            v = I.simp(args[0], st)
            if isinstance(v, (FuncVal, Bound, ClassVal)):
                return TRUE, st
            if isinstance(v, T) and v.op != 'const':
                return mk('callable', v), st
            return FALSE, st
        if n == 'getattr':
            nm = args[1]
            if isinstance(nm, T) and nm.op == 'const':
                if len(args) > 2:
                    o = I.simp(args[0], st)
                    if isinstance(o, Ref) and isinstance(I.get(st, o), Obj):
                        ob = I.get(st, o)
                        if nm.value not in ob.attrs and ob.cls.find(nm.value) is None:
                            return args[2], st
                    if isinstance(o, T) and o.op in ('mipvar', 'mipcon'):
                        v, st = self.getattr(o, nm.value, st)
                        return ite(mk('mipin', *o.args), v, self.scalar(args[2], st)), st
                return self.getattr(args[0], nm.value, st)
            return top('getattr'), st
        if n == 'hasattr':
            o = I.simp(args[0], st)
            if isinstance(o, Ref) and isinstance(I.get(st, o), Obj) and isinstance(args[1], T):
                ob = I.get(st, o)
                return const(args[1].value in ob.attrs or ob.cls.find(args[1].value) is not None), st
            if isinstance(args[1], T) and args[1].op == 'const':
                ob = I.get(st, o) if isinstance(o, Ref) else o
                kind = str if isinstance(o, T) and o.op == 'const' and isinstance(o.value, str) else list if isinstance(ob, ListObj) else \
                    dict if isinstance(ob, DictObj) else tuple if isinstance(ob, Tup) else None
                if kind:
                    return const(hasattr(kind, str(args[1].value))), st
            return top('hasattr'), st
        if n == 'vars' and len(args) == 1:
            return self.getattr(args[0], '__dict__', st)
        if n == 'super':
            c = I.cur[-1]
            cls = c.func.cls
            k = len(I.cur) - 1
            while cls is None and k > 0:
                k -= 1
                cls = I.cur[k].func.cls
            env = I.get(st, I.cur[k].env)
            selfv = env.vars.get('self')
            return ExtObj('super', (cls, selfv)), st
        if n in ('map', 'filter'):
            out = []
            for it in self.iterate(args[1], st):
                if it[0] == 'top':
                    out.append(it)
                    continue
                gens, guard, val = ((), it[2], it[1]) if it[0] == 'v' else it[1:]
                r = self.generic(gens, guard, st, lambda s: I.call(args[0], [val], {}, s))
                if r is None:
                    continue
                if n == 'filter':
                    guard = conj(guard, I.truth(r, st))
                    r = val
                out.append(('each', gens, guard, r) if gens else ('v', r, guard))
            return I.new(st, ListObj(out)), st
        if n == 'next':
            a0 = getattr(I.node, 'args', None)
            if not a0 or not isinstance(a0[0], (ast.GeneratorExp, ast.Call)):
                raise Unsupported('next of an iterator held in a variable')
            items = self.iterate(args[0], st)
            ne = tm.assume(I.nonempty_items(items), st.facts)
            if ne is TRUE or len(args) < 2:
                if len(args) < 2 and ne is not TRUE:
                    st = self.raise_if(st, neg(ne), 'StopIteration')
                    if st is None:
                        return None, None
                return self.list_getitem(ListObj(items), const(0), st)
            if ne is FALSE:
                return args[1], st
            v, s2 = self.list_getitem(ListObj(items), const(0), State(st.heap, conj(st.pc, ne)))
            if s2 is None:
                return args[1], st
            return I.merge_val(ne, v, args[1]), st
        if n == 'open':
            I.event(st, 'open', 'open', args, kwargs)
            return ExtObj('file', [self.scalar(a, st) for a in args]), st
        if n == 'object':
            return ExtObj('object'), st
        if n in ('format',):
            return self.fmt_part(args[0], args[1] if len(args) > 1 else None, st), st
        return top('builtin ' + n), st

    def zip(self, args, st):
        lists = [self.iterate(a, st) for a in args]
        n = min((len(l) for l in lists), default=0)
        ser = [self.I.simp(a, st) for a in args]
        if all(isinstance(a, Series) for a in ser) and len({a.order for a in ser}) == 1:
            b0 = ser[0].branches
            if all(len(s.branches) == len(b0) and all(x.bid == y.bid and x.guard is y.guard
                                                     for x, y in zip(s.branches, b0)) for s in ser):
                items = []
                for i, b in enumerate(b0):
                    items.append(('each', b.gens, b.guard, Tup([s.terms[i] for s in ser])))
                return self.I.new(st, ListObj(items))
        if all(all(i[0] == 'v' and i[2] is TRUE for i in l) for l in lists):
            return self.I.list_ref(st, [Tup([l[k][1] for l in lists]) for k in range(n)])
        rest = [l for l in lists if not self.repeated(l, st)]
        if rest and len(rest) < len(lists) and len({id(l) for l in rest}) == len(rest):
            base = self.zip([a for a, l in zip(args, lists) if not self.repeated(l, st)], st) if len(rest) > 1 else None
            items = self.iterate(base, st) if base is not None else [
                ('v', Tup([i[1]]), i[2]) if i[0] == 'v' else ('each', i[1], i[2], Tup([i[3]])) if i[0] == 'each' else i for i in rest[0]]
            return self.I.new(st, ListObj([self.weave(i, lists, self.length(base or [a for a, l in zip(args, lists) if l is rest[0]][0], st), st) for i in items]))
        if len(lists) == 2 and all(i[0] == 'v' for l in lists for i in l) and max(len(l) for l in lists) <= 12 and not (
                len(lists[0]) == len(lists[1]) and all(x[2] is y[2] for x, y in zip(*lists))):
            out = []
            for i, x in enumerate(lists[0]):
                for j, y in enumerate(lists[1]):
                    a, b = [z[2] for z in lists[0][:i]], [z[2] for z in lists[1][:j]]
                    c = conj(x[2], y[2], disj(*[conj(exactly(a, k), exactly(b, k)) for k in range(min(i, j) + 1)]))
                    if c is not FALSE:
                        out.append(('v', Tup([x[1], y[1]]), c))
            return self.I.new(st, ListObj(out))
        if len({len(l) for l in lists}) == 1:
            out = []
            for k in range(n):
                its = [l[k] for l in lists]
                if all(i[0] == 'v' for i in its) and len({i[2] for i in its}) == 1:
                    out.append(('v', Tup([i[1] for i in its]), its[0][2]))
                    continue
                if all(i[0] == 'each' for i in its):
                    base = its[0]
                    vals = [base[3]]
                    ok = True
                    for other in its[1:]:
                        if [t for _, t in other[1]] != [t for _, t in base[1]]:
                            ok = False
                            break
                        m = {a: b for (a, _), (b, _) in zip(other[1], base[1])}
                        if tm.subst(other[2], m) is not base[2]:
                            ok = False
                            break
                        vals.append(self.subst_value(other[3], m, st))
                    if ok:
                        out.append(('each', base[1], base[2], Tup(vals)))
                        continue
                return self.I.new(st, ListObj([('top', 'zip of unrelated sequences')]))
            return self.I.new(st, ListObj(out))
        return self.I.new(st, ListObj([('top', 'zip of unrelated sequences')]))

    def repeated(self, l, st):
        """one value per element of a range, the same for each"""
        if len(l) != 1 or l[0][0] != 'each' or l[0][2] is not TRUE or len(l[0][1]) != 1:
            return False
        (b, it), v = l[0][1][0], l[0][3]
        return isinstance(v, T) and v.op == 'const' and isinstance(it, T) and it.op == 'iter' and it.args[0].op == 'range' \
            and len(it.args[0].args) == 2 and it.args[0].args[0] == const(0)

    def weave(self, item, lists, n, st):
        if item[0] == 'top':
            return item
        vals = list((item[1] if item[0] == 'v' else item[3]).items)
        fits = lambda l: mk('le', n, l[0][1][0][1].args[0].args[1])
        out = Tup([ite(fits(l), l[0][3], tm.top('zip of sequences of other lengths')) if self.repeated(l, st) else vals.pop(0) for l in lists])
        return ('v', out, item[2]) if item[0] == 'v' else (item[0], item[1], item[2], out)

    def length(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Alt):
            r = None
            for c, x in reversed(v.alts):
                x = self.length(x, st)
                r = x if r is None else ite(c, x, r)
            return r
        f = self.I.frame_of(v, st)
        if f is not None:
            return self.count(f.branches)
        if isinstance(v, Series):
            return self.count(v.branches)
        if isinstance(v, RowIdx):
            return mk('agg', 'count', mk('rel', *[tm.br(gens, gd) for _, gens, gd in v.rows]))
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, (ListObj, DictObj)):
                self.I.note_read(v)
                seq = o.items if isinstance(o, ListObj) else [
                    ('v', e[1], e[3]) if e[0] == 'v' else ('each', e[1], e[2], e[3]) if e[0] == 'each' else e
                    for e in o.entries]
                if any(i[0] == 'top' for i in seq):
                    return top('length')
                if all(i[0] == 'v' and i[2] is TRUE for i in seq) and not (
                        isinstance(o, ListObj) and o.kind == 'set' and
                        any(not (isinstance(i[1], T) and i[1].op == 'const') for i in seq)):
                    return const(len(seq))
                if isinstance(o, ListObj) and o.kind == 'set' or isinstance(o, DictObj):
                    kinds = 'nunique'
                    return mk('agg', 'nunique', mk('rel', *[
                        tm.br(() if i[0] == 'v' else i[1], i[2], self.scalar(i[1] if i[0] == 'v' else i[3], st)) for i in seq]))
                return mk('agg', 'count', mk('rel', *[tm.br(() if i[0] == 'v' else i[1], i[2]) for i in seq]))
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, Columns):
            if all(p is TRUE for _, p in v.names):
                return const(len(v.names))
            return mk('agg', 'count', mk('rel', *[tm.br((), p) for _, p in v.names]))
        if isinstance(v, T):
            if v.op == 'const':
                try:
                    return const(len(v.value))
                except TypeError:
                    pass
            return mk('len', v)
        if isinstance(v, ExtObj):
            return mk('len', self.ext_term(v, st))
        return top('len')

    def count(self, branches):
        if all(not b.gens and b.guard is TRUE for b in branches):
            return const(len(branches))
        return mk('agg', 'count', mk('rel', *[tm.br(b.gens, b.guard) for b in branches]))

    def take(self, ob, k, st):
        """elements of a list at the positions of an integer array, for lists computed position by position from 0"""
        if len(ob.items) == 1 and ob.items[0][0] == 'each' and len(ob.items[0][1]) == 1 and ob.items[0][2] is TRUE:
            _, ((g, tab),), _, v = ob.items[0]
            if tab.op == 'iter' and tab.args[0].op == 'range' and tab.args[0].args[0] == const(0) and len(tab.args[0].args) == 2 \
                    and isinstance(v, T):
                hi = tab.args[0].args[1]
                bad = tm.exists([tm.br(b.gens, conj(b.guard, neg(tm.app('lt', t, hi)))) for b, t in zip(k.branches, k.terms)])
                st = self.raise_if(st, bad, 'IndexError')
                if st is None:
                    return None, None
                cell = mk('cell', g, 'item')
                return k.map(lambda t: tm.replace(v, {cell: t})), st
        return top('array subscript'), st

    def reduce(self, n, args, kwargs, st):
        v = self.I.simp(args[0], st)
        if n in ('max', 'min') and len(args) > 1:
            ts = [self.scalar(a, st) for a in args]
            r = ts[0]
            for t in ts[1:]:
                r = tm.app('max2' if n == 'max' else 'min2', r, t)
            return r
        if isinstance(v, Series):
            if n == 'sum' and len(args) > 1:
                return tm.app('+', self.scalar(args[1], st), fr.agg_series(v, n))
            if n in ('max', 'min') and 'default' in kwargs:
                return ite(tm.exists(v.brs(False)), fr.agg_series(v, n), self.scalar(kwargs['default'], st))
            return fr.agg_series(v, n)
        items = self.iterate(v, st)
        if any(i[0] == 'top' for i in items):
            return top('%s of unknown sequence' % n)
        if n in ('any', 'all'):
            out = []
            for i in items:
                if i[0] == 'v':
                    t = self.I.truth(i[1], st)
                    out.append(conj(i[2], t if n == 'any' else neg(t)))
                else:
                    t = self.I.truth(i[3], st)
                    out.append(tm.exists([tm.br(i[1], conj(i[2], t if n == 'any' else neg(t)))]))
            return disj(*out) if n == 'any' else neg(disj(*out))
        if all(i[0] == 'v' and i[2] is TRUE for i in items) and items:
            ts = [self.scalar(i[1], st) for i in items]
            r = ts[0]
            for t in ts[1:]:
                r = tm.app({'max': 'max2', 'min': 'min2', 'sum': '+'}[n], r, t)
            if n == 'sum' and len(args) > 1:
                r = tm.app('+', self.scalar(args[1], st), r)
            return r
        if any(isinstance(i[1] if i[0] == 'v' else i[3], (Ref, ExtObj)) for i in items):
            return top('%s over objects' % n)
        brs = [tm.br(() if i[0] == 'v' else i[1], i[2], self.scalar(i[1] if i[0] == 'v' else i[3], st)) for i in items]
        vals = [b.args[2] for b in brs]
        if n == 'max' and vals and all(t.op == 'lastid' for t in vals):
            parts = []
            for t in vals:
                parts += list(t.args[0])
            return mk('lastid', tuple(sorted(set(parts), key=lambda x: (x[0], x[1].id))))
        r = tm.agg(n, brs)
        if n in ('max', 'min') and 'default' in kwargs:
            return ite(tm.exists([tm.br(b.args[0], b.args[1]) for b in brs]), r, self.scalar(kwargs['default'], st))
        if n == 'sum' and len(args) > 1:
            r = tm.app('+', self.scalar(args[1], st), r)
        return r

    def convert(self, n, args, st):
        if not args:
            return const({'float': 0.0, 'int': 0, 'str': '', 'bool': False, 'repr': ''}[n])
        v = self.I.simp(args[0], st)
        if n == 'bool':
            return self.I.truth(v, st)
        if n == 'str' and isinstance(v, Ref) and isinstance(self.I.get(st, v), Obj):
            m = self.I.get(st, v).cls.find('__str__')
            if m is not None:
                return self.I.call(m, [v], {}, st)[0]
        if isinstance(v, ExtObj):
            if n == 'str':
                return mk('strfmt', self.ext_term(v, st), '')
            return mk('conv', n, self.ext_term(v, st))
        t = self.scalar(v, st)
        return self.conv(n, t)

    def conv(self, n, t):
        if t.op == 'const' and t is not NONE:
            try:
                return const({'float': float, 'int': int, 'str': str, 'repr': repr}[n](tm.raw(t.value)))
            except Exception:
                return mk('conv', n, t)
        if t.op == 'ite':
            return ite(t.args[0], self.conv(n, t.args[1]), self.conv(n, t.args[2]))
        if n in ('str',):
            return t if is_str(t) else fold(mk('strfmt', t, ''))
        if n == 'float' and (t.op in ('+', '-', '*', '/', 'agg') or t.op == 'conv' and t.args[0] == 'float'):
            return t
        return fold(mk('conv', n, t))

    def npfun(self, name, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Series):
            return v.map(lambda t: self.sfun(name, t))
        if isinstance(v, Alt):
            return self.I.lift(v, st, lambda x, s: self.npfun(name, x, s))
        return self.sfun(name, self.scalar(v, st))

    def sfun(self, name, t):
        if t.op == 'const' and isinstance(t.value, (int, float)):
            import math
            try:
                x = tm.raw(t.value)
                return const({'abs': abs, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'exp': math.exp,
                              'log': math.log, 'absolute': abs}[name](x))
            except Exception:
                pass
        if t.op == 'top':
            return t
        return mk('np', 'abs' if name in ('absolute', 'fabs') else name, t)

    def round(self, v, nd, st):
        v = self.I.simp(v, st)
        ndt = self.scalar(nd, st)
        if isinstance(v, Series):
            return v.map(lambda t: mk('np', 'round', t, ndt))
        t = self.scalar(v, st)
        if t.op == 'const' and ndt.op == 'const':
            try:
                return const(round(tm.raw(t.value), ndt.value))
            except Exception:
                pass
        return mk('np', 'round', t, ndt)

    def isinst(self, v, cls, st):
        v, cls = self.I.simp(v, st), self.I.simp(cls, st)
        if isinstance(cls, Tup):
            return disj(*[self.isinst(v, c, st) for c in cls.items])
        if isinstance(v, Alt):
            return disj(*[conj(c, self.isinst(x, cls, st)) for c, x in v.alts])
        name = cls.path if isinstance(cls, Ext) else cls.qual if isinstance(cls, ClassVal) else None
        if name is None:
            return top('isinstance')
        short = name.split('.')[-1]
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, FrameObj):
                return const(short == 'DataFrame')
            if isinstance(o, ListObj):
                return const(short == o.kind)
            if isinstance(o, DictObj):
                return const(short in ('dict', 'Mapping', 'defaultdict') )
            if isinstance(o, Obj):
                return const(isinstance(cls, ClassVal) and o.cls.is_sub(cls))
        if isinstance(v, Series):
            return const(short == {'series': 'Series', 'array': 'ndarray', 'index': 'Index'}.get(v.kind))
        if isinstance(v, Tup):
            return const(short == 'tuple')
        if isinstance(v, (FuncVal, Bound)):
            return const(short in ('Callable', 'FunctionType'))
        if isinstance(v, T):
            if v.op == 'const':
                x = tm.raw(v.value)
                names = {c.__name__ for c in type(x).__mro__}
                return const(short in names or (short in ('Number', 'Real') and isinstance(x, (int, float))))
            if v.op == 'ite':
                return ite(v.args[0], self.isinst(v.args[1], cls, st), self.isinst(v.args[2], cls, st))
            if is_str(v):
                return const(short == 'str')
            if v.op in ('dtf', 'dtm') and v.args[0] in ('datetime', 'strptime', 'combine'):
                return const(short in ('datetime', 'date'))
            if v.op == 'agg' and v.args[0] in ('count', 'nunique'):
                return const(short == 'int')
            if v.op == 'top':
                return v
            return mk('isinstance', v, short)
        return FALSE

    def typeof(self, v, st):
        v = self.I.simp(v, st)
        if isinstance(v, Ref):
            o = self.I.get(st, v)
            if isinstance(o, FrameObj):
                return Ext('pandas.DataFrame')
            if isinstance(o, ListObj):
                return Ext('builtins.' + o.kind)
            if isinstance(o, DictObj):
                return Ext('builtins.dict')
            return o.cls
        if isinstance(v, Series):
            return Ext('pandas.Series')
        if isinstance(v, Tup):
            return Ext('builtins.tuple')
        if isinstance(v, T):
            if v.op == 'const':
                return Ext('builtins.' + type(tm.raw(v.value)).__name__)
            return mk('type', v)
        if isinstance(v, Alt):
            return self.I.lift(v, st, lambda x, s: self.typeof(x, s))
        return top('type')


DT_FIELDS = {'year', 'month', 'day', 'hour', 'minute', 'second', 'days', 'seconds', 'microsecond'}
T_METHODS = {'get', 'items', 'keys', 'values', 'copy', 'strftime', 'date', 'isoformat', 'total_seconds', 'append'}


# ------------------------------------------------------------------ helpers
def ite_leaves(t, c=TRUE):
    if t.op == 'ite':
        return ite_leaves(t.args[1], conj(c, t.args[0])) + ite_leaves(t.args[2], conj(c, neg(t.args[0])))
    return [(c, t)]


def merge_names(out):
    d = {}
    for n, p in out:
        d[n] = disj(d[n], p) if n in d else p
    return list(d.items())


def exactly(conds, k):
    """exactly k of conds hold"""
    if k < 0 or k > len(conds):
        return FALSE
    if not conds:
        return TRUE if k == 0 else FALSE
    return disj(conj(conds[0], exactly(conds[1:], k - 1)), conj(neg(conds[0]), exactly(conds[1:], k)))


def is_str(t):
    if t.op == 'const':
        return isinstance(t.value, str)
    if t.op in ('strcat', 'strfmt', 'pctfmt', 'join'):
        return True
    if t.op == 'strm':
        return t.args[0] not in ('find', 'rfind', 'count', 'index', 'startswith', 'endswith', 'split')
    if t.op == 'dtm':
        return t.args[0] in ('isoformat', 'strftime')
    if t.op == 'ite':
        return is_str(t.args[1]) and is_str(t.args[2])
    return False


def _cond(it, c):
    if it[0] == 'v':
        return ('v', it[1], conj(it[2], c))
    if it[0] == 'each':
        return ('each', it[1], conj(it[2], c), it[3])
    return it


def subst_gens(gens, m):
    return tuple((m.get(g, g), tm.subst(t, m)) for g, t in gens)


def subst_frame(f, m):
    memo = {}
    brs, ch = [], False
    for b in f.branches:
        g2 = tuple((m.get(g, g), tm.subst(t, m, memo)) for g, t in b.gens)
        gd = tm.subst(b.guard, m, memo)
        if g2 != b.gens or gd is not b.guard:
            ch = True
        brs.append(Branch(g2, gd, b.bid))
    cols = {}
    for n, (ts, p) in f.cols.items():
        t2 = tuple(tm.subst(t, m, memo) for t in ts)
        p2 = tm.subst(p, m, memo)
        if any(x is not y for x, y in zip(t2, ts)):
            ch = True
        cols[n] = (t2, p2)
    if not ch:
        return f
    idx = tuple(tm.subst(t, m, memo) for t in f.index) if f.index is not None else None
    return Frame(brs, cols, f.order, f.labels, idx, None)


def subst_series(s, m):
    f = Frame(s.branches, {'v': (s.terms, TRUE)}, s.order, s.labels, s.index)
    g = subst_frame(f, m)
    if g is f:
        return s
    return Series(g.branches, g.cols['v'][0], s.order, s.labels, s.kind, g.index, s.name)
