"""Abstract interpreter: walks the syntax tree of the analysed modules and computes gated value-flow summaries.

No analysed code is imported or run.  Branches on unknown conditions are both walked and joined with if-then-else
terms, loops over data are walked once for a generic element.
"""
import ast
import builtins
import os
from . import terms as tm
from . import frames as fr
from .fold import fold
from .terms import T, mk, const, conj, disj, neg, ite, TRUE, FALSE, NONE, NANC, top, as_bool
from .frames import Frame, Series, Unsupported, MissingColumn


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return 'Ref(%d)' % self.oid


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(('tup', self.items))


class Alt:
    """value that is alts[i][1] when alts[i][0] holds (conditions disjoint and exhaustive)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)


class FuncVal:
    def __init__(self, node, module, env, name, cls=None, defaults=None, kwdefaults=None, kind='func'):
        self.node, self.module, self.env, self.name, self.cls = node, module, env, name, cls
        self.defaults, self.kwdefaults, self.kind = defaults or [], kwdefaults or {}, kind

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, (self.cls.name + '.' if self.cls else '') + self.name)


class ClassVal:
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, self.name)

    def find(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def is_sub(self, other):
        if self is other:
            return True
        for b in self.bases:
            if isinstance(b, ClassVal) and b.is_sub(other):
                return True
            if isinstance(b, Ext) and isinstance(other, Ext) and (b.path == other.path or other.path == 'builtins.Exception'):
                return True
        return False


class ModVal:
    def __init__(self, name, path):
        self.name, self.path, self.env, self.loaded = name, path, None, False


class Ext:
    """something from a library"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Bound:
    __slots__ = ('obj', 'name', 'func')

    def __init__(self, obj, name, func=None):
        self.obj, self.name, self.func = obj, name, func


class Row:
    """generic row `i` of a frame"""
    __slots__ = ('frame', 'i')

    def __init__(self, frame, i):
        self.frame, self.i = frame, i


class GroupBy:
    def __init__(self, frame, keys, as_index=True, sel=None, single=False):
        self.frame, self.keys, self.as_index, self.sel, self.single = frame, keys, as_index, sel, single


class RowIdx:
    """positions of the rows of one group"""
    def __init__(self, frame, keys, cells, rows=None):
        self.frame, self.keys, self.cells = frame, keys, cells
        if rows is None:
            rows = []
            for i, b in enumerate(frame.branches):
                m = {g: tm.fresh_gid() for g, _ in b.gens}
                gens = tuple((m[g], tm.subst(tab, m)) for g, tab in b.gens)
                gd = tm.conj(tm.subst(b.guard, m), *[tm.eq(tm.subst(frame.cols[k][0][i], m), cells[k]) for k in keys])
                rows.append((m, gens, gd))
        self.rows = rows

    def subst(self, m):
        cells = {k: tm.subst(c, m) for k, c in self.cells.items()}
        return RowIdx(self.frame, self.keys, cells,
                      [(a, tuple((g, tm.subst(t, m)) for g, t in gens), tm.subst(gd, m)) for a, gens, gd in self.rows])

    def take(self, s):
        if len(s.branches) != len(self.rows) or any(a.bid != b.bid or a.gens != b.gens for a, b in zip(s.branches, self.frame.branches)):
            return None
        brs, ts = [], []
        for b, t, (m, gens, gd) in zip(s.branches, s.terms, self.rows):
            if gd is not tm.FALSE:
                brs.append(fr.Branch(gens, gd, b.bid))
                ts.append(tm.subst(t, m))
        return fr.Series(brs, ts, ('idx', id(self)), ('idx', id(self)), 'array')


class Loc:
    __slots__ = ('obj', 'kind')

    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class Unbound:
    pass


UNBOUND = Unbound()


# ------------------------------------------------------------------ heap objects (immutable; replaced on update)
class ListObj:
    __slots__ = ('items', 'kind', 'origin')

    def __init__(self, items, kind='list', origin=None):
        self.items = tuple(items)       # ('v', value, pres) | ('each', gens, guard, value) | ('top', reason)
        self.kind = kind                # list | set
        self.origin = origin


class Maybe:
    __slots__ = ('name', 'value', 'cond')

    def __init__(self, name, value, cond):
        self.name, self.value, self.cond = name, value, cond


class DictObj:
    __slots__ = ('entries', 'origin', 'default')

    def __init__(self, entries, origin=None, default=None):
        self.entries = tuple(entries)   # ('v', keyT, value, pres) | ('each', gens, guard, keyT, value) | ('top', r)
        self.origin = origin
        self.default = default


class FrameObj:
    __slots__ = ('frame', 'origin')

    def __init__(self, frame, origin=None):
        self.frame, self.origin = frame, origin


class Obj:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Env:
    __slots__ = ('vars', 'parent')

    def __init__(self, vars, parent=None):
        self.vars, self.parent = vars, parent


class State:
    __slots__ = ('heap', 'pc', '_facts')

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc
        self._facts = None

    def fork(self):
        return State(dict(self.heap), self.pc)

    @property
    def facts(self):
        if self._facts is None:
            self._facts = tm.literals(self.pc)
        return self._facts


class Raise:
    def __init__(self, pc, exc, heap, site, func):
        self.pc, self.exc, self.heap, self.site, self.func = pc, exc, heap, site, func

    @property
    def name(self):
        return exc_name(self.exc)


def exc_name(e):
    if isinstance(e, Obj):
        return e.cls.name
    if isinstance(e, ClassVal):
        return e.name
    if isinstance(e, Ext):
        return e.path.split('.')[-1]
    if isinstance(e, str):
        return e
    return '?'


class Event:
    def __init__(self, kind, name, args, kwargs, pc, gens, site, func, seq):
        self.kind, self.name, self.args, self.kwargs = kind, name, args, kwargs
        self.pc, self.gens, self.site, self.func, self.seq = pc, gens, site, func, seq

    def __repr__(self):
        return 'Event(%s %s %s)' % (self.kind, self.name, self.site)


class FnCtx:
    def __init__(self, func, env):
        self.func, self.env = func, env
        self.returns = []
        self.loops = []
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


class AnalysisError(Exception):
    pass


class Interp:
    MAX_DEPTH = 60

    def __init__(self, src_root, intercepts=None):
        self.src_root = src_root
        self.modules = {}
        self.intercepts = intercepts or {}
        self.exact = set()      # library exceptions raised only where a stub raises them
        self.raises = []
        self.events = []
        self.lost = []          # calls whose effects the analysis could not follow
        self.maybe_errors = []
        self.depth = 0
        self.genstack = []
        self.readers = []       # containers read inside the loops over data being walked
        self._oid = 0
        self.base_heap = {}
        self.fn_seen = {}
        self.mutations = []
        self.cur = []       # stack of FnCtx
        self.node = None
        self.symkinds = {}
        from . import libs
        self.libs = libs.Libs(self)

    # -------------------------------------------------------------- heap
    def new(self, st, obj):
        self._oid += 1
        st.heap[self._oid] = obj
        return Ref(self._oid)

    def get(self, st, ref):
        return st.heap[ref.oid]

    def put(self, st, ref, obj):
        old = st.heap.get(ref.oid)
        org = getattr(old, 'origin', None)
        if org:
            self.mutations.append((org, ref, st.pc, tuple(self.genstack), self.site(), self.fname(),
                                   getattr(old, 'frame', None), getattr(obj, 'frame', None)))
        st.heap[ref.oid] = obj

    def site(self):
        n = self.node
        mod = self.cur[-1].func.module if self.cur else None
        f = os.path.relpath(mod.path, os.path.dirname(self.src_root)) if mod and mod.path else '?'
        return '%s:%s' % (f, getattr(n, 'lineno', '?'))

    def fname(self):
        return self.cur[-1].func.qual if self.cur else '?'

    def frame_ref(self, st, f, origin=None):
        return self.new(st, FrameObj(f, origin))

    def list_ref(self, st, values, kind='list'):
        return self.new(st, ListObj([('v', v, TRUE) for v in values], kind))

    def dict_ref(self, st, pairs):
        return self.new(st, DictObj([('v', const(k) if not isinstance(k, T) else k, v, TRUE) for k, v in pairs]))

    def event(self, st, kind, name, args=(), kwargs=None):
        self.events.append(Event(kind, name, tuple(args), dict(kwargs or {}), st.pc, tuple(self.genstack), self.site(),
                                 self.fname(), len(self.events)))

    # -------------------------------------------------------------- modules
    def module(self, name, st):
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')
        base = os.path.join(self.src_root, *rel[1:]) if rel[0] == 'nempy' else None
        if base is None:
            return None
        path = base + '.py'
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
        if not os.path.exists(path):
            return None
        m = ModVal(name, path)
        self.modules[name] = m
        with open(path) as fh:
            src = fh.read()
        self.load_module(m, src, st)
        return m

    def load_module(self, m, src, st):
        tree = ast.parse(src)
        m.env = self.new(st, Env({}, None))
        self.base_heap[m.env.oid] = True
        m.tree = tree
        f = FuncVal(tree, m, None, '<module>')
        ctx = FnCtx(f, m.env)
        self.cur.append(ctx)
        try:
            s = self.exec_block(tree.body, st)
            if s is not None and s is not st:
                st.heap.clear()
                st.heap.update(s.heap)
        finally:
            self.cur.pop()
        m.loaded = True

    # -------------------------------------------------------------- environments
    def lookup(self, name, st):
        ref = self.cur[-1].env
        while ref is not None:
            env = self.get(st, ref)
            if name in env.vars:
                return env.vars[name]
            ref = env.parent
        m = self.cur[-1].func.module
        env = self.get(st, m.env)
        if name in env.vars:
            return env.vars[name]
        return self.libs.builtin(name)

    def assign_name(self, name, value, st):
        ctx = self.cur[-1]
        ref = ctx.env
        env = self.get(st, ref)
        nl = getattr(ctx, 'nonlocals', None)
        if nl and name in nl:
            r = env.parent
            while r is not None:
                e = self.get(st, r)
                if name in e.vars:
                    v = dict(e.vars)
                    v[name] = value
                    st.heap[r.oid] = Env(v, e.parent)
                    return
                r = e.parent
        v = dict(env.vars)
        v[name] = value
        st.heap[ref.oid] = Env(v, env.parent)

    # -------------------------------------------------------------- joining
    def merge_val(self, c, a, b, st1=None, st2=None):
        if a is b:
            return a
        if a is UNBOUND or b is UNBOUND:
            x = b if a is UNBOUND else a
            u = mk('undef', 'unbound')
            if isinstance(x, T):
                return ite(c, u, x) if a is UNBOUND else ite(c, x, u)
            return x
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, st1, st2) for x, y in zip(a.items, b.items)])
        if isinstance(a, Series) and isinstance(b, Series):
            return fr.merge_series(c, a, b)
        if type(a) is type(b) and not isinstance(a, (Alt,)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        alts = []
        for cond, v in ((c, a), (neg(c), b)):
            if isinstance(v, Alt):
                for cc, x in v.alts:
                    g = conj(cond, cc)
                    if g is not FALSE:
                        alts.append((g, x))
            else:
                alts.append((cond, v))
        # fold equal alternatives
        out = []
        for g, x in alts:
            for k, (h, y) in enumerate(out):
                if x is y or (type(x) is type(y) and isinstance(x, (Ref, T, Ext, Tup)) and x == y):
                    out[k] = (disj(h, g), y)
                    break
                if isinstance(x, T) and isinstance(y, T) and not (x is NONE or y is NONE):
                    out[k] = (disj(h, g), ite(g, x, y))
                    break
            else:
                out.append((g, x))
        if len(out) == 1:
            return out[0][1]
        return Alt(out)

    def merge_obj(self, c, a, b, st1, st2):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        if isinstance(a, Env):
            vars = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                vars[k] = self.merge_val(c, a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND), st1, st2)
            return Env(vars, a.parent)
        if isinstance(a, FrameObj):
            return FrameObj(fr.merge_frames(c, a.frame, b.frame), a.origin)
        if isinstance(a, Obj):
            attrs = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                attrs[k] = self.merge_val(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND), st1, st2)
            return Obj(a.cls, attrs)
        if isinstance(a, ListObj):
            items = []
            n = 0
            while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
                items.append(a.items[n])
                n += 1
            ra, rb = a.items[n:], b.items[n:]
            if len(ra) == len(rb) and all(x[0] == 'v' and y[0] == 'v' and x[2] is y[2] for x, y in zip(ra, rb)):
                items += [('v', self.merge_val(c, x[1], y[1], st1, st2), x[2]) for x, y in zip(ra, rb)]
            else:
                items += [cond_item(x, c) for x in ra] + [cond_item(y, neg(c)) for y in rb]
            return ListObj(items, a.kind, a.origin)
        if isinstance(a, DictObj):
            ents = []
            bmap = {e[1]: e for e in b.entries if e[0] == 'v'}
            seen = set()
            for e in a.entries:
                if e[0] == 'v' and e[1] in bmap:
                    f = bmap[e[1]]
                    seen.add(e[1])
                    if e == f:
                        ents.append(e)
                    else:
                        ents.append(('v', e[1], self.merge_val(c, e[2], f[2], st1, st2), ite(c, e[3], f[3])))
                elif e in b.entries:
                    ents.append(e)
                else:
                    ents.append(cond_entry(e, c))
            for f in b.entries:
                if f[0] == 'v' and f[1] in seen or f in a.entries:
                    continue
                ents.append(cond_entry(f, neg(c)))
            return DictObj(ents, a.origin, a.default)
        return a

    def merge_states(self, c, s1, s2, base_pc):
        """join: s1 holds when c, s2 otherwise"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k, o1 in h1.items():
            o2 = h2.get(k)
            if o2 is None or o2 is o1:
                heap[k] = o1
            else:
                heap[k] = self.merge_obj(c, o1, o2, s1, s2)
        for k, o2 in h2.items():
            if k not in heap:
                heap[k] = o2
        pc = disj(s1.pc, s2.pc)
        if pc.op == 'or' or pc is TRUE:
            common = tm.literals(s1.pc) & tm.literals(s2.pc)
            rest = disj(conj(*(tm.literals(s1.pc) - common)), conj(*(tm.literals(s2.pc) - common)))
            pc = conj(*common, rest)
        return State(heap, pc)

    # -------------------------------------------------------------- values helpers
    def simp(self, v, st):
        if isinstance(v, Alt):
            facts = st.facts
            out = []
            for c, x in v.alts:
                c2 = tm.assume(c, facts)
                if c2 is FALSE:
                    continue
                if c2 is TRUE:
                    return x
                out.append((c2, x))
            if len(out) == 1:
                return out[0][1]
            return Alt(out) if out else v
        return v

    def frame_of(self, v, st):
        """resolve to an abstract Frame or None"""
        v = self.simp(v, st)
        if isinstance(v, Ref):
            o = self.get(st, v)
            if isinstance(o, FrameObj):
                return o.frame
            return None
        if isinstance(v, Alt):
            fs = [(c, self.frame_of(x, st)) for c, x in v.alts]
            if all(f is not None for _, f in fs):
                r = fs[-1][1]
                for c, f in reversed(fs[:-1]):
                    r = fr.merge_frames(c, f, r)
                return r
        return None

    def lift(self, v, st, fn):
        """apply fn(value, state) to each alternative and join the results"""
        v = self.simp(v, st)
        if not isinstance(v, Alt):
            return fn(v, st)
        res = None
        for c, x in reversed(v.alts):
            r = fn(x, st)
            res = r if res is None else self.merge_val(c, r, res)
        return res

    def truth(self, v, st):
        v = self.simp(v, st)
        if isinstance(v, T):
            return tm.assume(as_bool(fold(v)), st.facts)
        if isinstance(v, Alt):
            return disj(*[conj(c, self.truth(x, st)) for c, x in v.alts])
        if isinstance(v, Ref):
            o = self.get(st, v)
            self.note_read(v)
            if isinstance(o, ListObj):
                return self.nonempty_items(o.items)
            if isinstance(o, DictObj):
                return disj(*[(e[3] if e[0] == 'v' else tm.exists([tm.br(e[1], e[2])]) if e[0] == 'each' else
                               top('dict')) for e in o.entries])
            if isinstance(o, FrameObj):
                return top('truth value of a DataFrame')
            return TRUE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Series):
            return top('truth value of a Series')
        return TRUE

    def nonempty_items(self, items):
        out = []
        for it in items:
            if it[0] == 'v':
                out.append(it[2])
            elif it[0] == 'each':
                out.append(tm.exists([tm.br(it[1], it[2])]))
            else:
                out.append(top('list'))
        return disj(*out)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for s in stmts:
            st = self.exec(s, st)
            if st is None:
                return None
        return st

    def exec(self, n, st):
        self.node = n
        meth = getattr(self, 'x_' + type(n).__name__, None)
        if meth is None:
            raise AnalysisError('statement %s not supported (%s)' % (type(n).__name__, self.site()))
        try:
            return meth(n, st)
        except MissingColumn as e:
            self.do_raise(st, 'KeyError', n)
            return None

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        v, s2 = self.ev(n.value, st)
        if isinstance(v, T) and v.op == 'top' and isinstance(n.value, ast.Call) and s2 is not None:
            self.lose(s2, v.args[1])
        return s2

    def lose(self, st, why):
        self.lost.append(Event('lost', why, (), {}, st.pc, tuple(self.genstack), self.site(), self.fname(), len(self.lost)))

    def x_Pass(self, n, st):
        return st

    def x_Global(self, n, st):
        return st

    def x_Nonlocal(self, n, st):
        c = self.cur[-1]
        c.nonlocals = set(getattr(c, 'nonlocals', ())) | set(n.names)
        return st

    def x_Import(self, n, st):
        for a in n.names:
            m = self.module(a.name, st) if a.name.startswith('nempy') else None
            if m is not None:
                if a.asname:
                    self.assign_name(a.asname, m, st)
                else:
                    self.assign_name(a.name.split('.')[0], self.module('nempy', st) or Ext('nempy'), st)
            else:
                self.assign_name(a.asname or a.name.split('.')[0], Ext(a.name if a.asname else a.name.split('.')[0]), st)
        return st

    def x_ImportFrom(self, n, st):
        modname = n.module or ''
        if n.level:
            parts = self.cur[-1].func.module.name.split('.')
            isdir = self.cur[-1].func.module.path.endswith('__init__.py')
            parts = parts[:len(parts) - (n.level - (1 if isdir else 0))]
            modname = '.'.join(parts + ([modname] if modname else []))
        for a in n.names:
            v = None
            if modname.startswith('nempy'):
                v = self.module(modname + '.' + a.name, st)
                if v is None:
                    m = self.module(modname, st)
                    if m is not None:
                        v = self.get(st, m.env).vars.get(a.name)
            if v is None:
                v = self.libs.ext_attr(modname + '.' + a.name) if modname == 'mip' else Ext(modname + '.' + a.name)
            self.assign_name(a.asname or a.name, v, st)
        return st

    def x_FunctionDef(self, n, st):
        defaults = []
        for d in n.args.defaults:
            v, st = self.ev(d, st)
            defaults.append(v)
        kwd = {}
        for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
            if d is not None:
                v, st = self.ev(d, st)
                kwd[a.arg] = v
        ctx = self.cur[-1]
        env = ctx.env if ctx.func.name != '<module>' else None
        f = FuncVal(n, ctx.func.module, env, n.name, None, defaults, kwd)
        val = f
        for d in reversed(n.decorator_list):
            dv, st = self.ev(d, st)
            if isinstance(dv, Ext) and dv.path == 'builtins.staticmethod':
                f.kind = 'static'
            elif isinstance(dv, Ext) and dv.path == 'builtins.classmethod':
                f.kind = 'class'
            elif isinstance(dv, Ext) and dv.path == 'builtins.property':
                f.kind = 'property'
            elif isinstance(dv, FuncVal):
                val, st = self.call(dv, [val], {}, st)
                if st is None:
                    return None
            else:
                pass
        self.assign_name(n.name, val, st)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, n, st):
        bases = []
        for b in n.bases:
            v, st = self.ev(b, st)
            bases.append(v)
        ctx = self.cur[-1]
        env = self.new(st, Env({}, ctx.env))
        c2 = FnCtx(FuncVal(n, ctx.func.module, None, '<module>'), env)
        self.cur.append(c2)
        try:
            st = self.exec_block(n.body, st)
        finally:
            self.cur.pop()
        attrs = dict(self.get(st, env).vars)
        cls = ClassVal(n.name, ctx.func.module, bases, attrs)
        for k, v in attrs.items():
            if isinstance(v, FuncVal) and v.cls is None:
                v.cls = cls
        self.assign_name(n.name, cls, st)
        return st

    def x_Return(self, n, st):
        v = NONE
        if n.value is not None:
            v, st = self.ev(n.value, st)
            if st is None:
                return None
        self.cur[-1].returns.append((st, v))
        return None

    def x_Raise(self, n, st):
        exc = 'Exception'
        if n.exc is not None:
            v, st = self.ev(n.exc, st)
            if st is None:
                return None
            if isinstance(v, Ref) and isinstance(self.get(st, v), Obj):
                exc = self.get(st, v)
            elif isinstance(v, (ClassVal, Ext)):
                exc = v
            elif isinstance(v, T) and v.op == 'exc':
                exc = Ext(v.args[0])
        self.do_raise(st, exc, n)
        return None

    def do_raise(self, st, exc, node):
        self.node = node
        self.raises.append(Raise(st.pc, exc, st.heap, self.site(), self.fname()))

    def x_Assert(self, n, st):
        v, st = self.ev(n.test, st)
        if st is None:
            return None
        c = self.truth(v, st)
        if c is not TRUE:
            bad = State(st.heap, conj(st.pc, neg(c)))
            if bad.pc is not FALSE:
                self.do_raise(bad, 'AssertionError', n)
            if c is FALSE:
                return None
            st = State(st.heap, conj(st.pc, c))
        return st

    def x_Assign(self, n, st):
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        for t in n.targets:
            st = self.assign(t, v, st)
            if st is None:
                return None
        return st

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return st
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        return self.assign(n.target, v, st)

    def x_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n)
        cur, st = self.ev(load, st)
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        opname = type(n.op).__name__
        if isinstance(cur, Ref) and isinstance(self.get(st, cur), ListObj) and opname == 'Add':
            self.libs.list_extend(cur, v, st)
            return st
        r = self.libs.binop(opname, cur, v, st)
        return self.assign(n.target, r, st)

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                o, st = self.ev(t.value, st)
                k, st = self.ev(t.slice, st)
                self.libs.delitem(o, k, st)
            elif isinstance(t, ast.Attribute):
                o, st = self.ev(t.value, st)
                if isinstance(o, Ref) and isinstance(self.get(st, o), Obj):
                    ob = self.get(st, o)
                    at = dict(ob.attrs)
                    at.pop(t.attr, None)
                    st.heap[o.oid] = Obj(ob.cls, at)
        return st

    def x_If(self, n, st):
        v, st = self.ev(n.test, st)
        if st is None:
            return None
        c = self.truth(v, st)
        if c is TRUE:
            return self.exec_block(n.body, st)
        if c is FALSE:
            return self.exec_block(n.orelse, st)
        s1 = State(dict(st.heap), conj(st.pc, c))
        s2 = State(dict(st.heap), conj(st.pc, neg(c)))
        if s1.pc is FALSE:
            return self.exec_block(n.orelse, s2)
        if s2.pc is FALSE:
            return self.exec_block(n.body, s1)
        r1 = self.exec_block(n.body, s1)
        r2 = self.exec_block(n.orelse, s2)
        return self.merge_states(c, r1, r2, st.pc)

    def x_With(self, n, st):
        for it in n.items:
            v, st = self.ev(it.context_expr, st)
            if st is None:
                return None
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, v, st)
        return self.exec_block(n.body, st)

    def x_Try(self, n, st):
        base = st
        mark = len(self.raises)
        evmark = len(self.events)
        entry = State(dict(st.heap), st.pc)
        s = self.exec_block(n.body, st)
        if s is not None and n.orelse:
            s = self.exec_block(n.orelse, s)
        raised = self.raises[mark:]
        kept = []
        results = []
        for r in raised:
            h = self.find_handler(n, r.exc, st if s is None else s)
            if h is None:
                kept.append(r)
                continue
            hs = State(dict(r.heap), r.pc)
            if h.name:
                self.assign_name(h.name, mk('exc', exc_name(r.exc)), hs)
            hs = self.exec_block(h.body, hs)
            if hs is not None:
                results.append((r.pc, hs))
        self.raises[mark:] = kept + self.raises[mark + len(raised):]
        # library exceptions: may or may not happen
        for h in n.handlers:
            names = self.handler_classes(h, entry)
            if names and all(isinstance(x, Ext) and x.path in self.exact for x in names):
                continue
            if any(isinstance(x, Ext) or x is None for x in names):
                lab = ','.join(sorted((x.path if isinstance(x, Ext) else 'Exception') for x in names
                                      if isinstance(x, Ext) or x is None))
                if lab.split('.')[-1] in ('KeyError', 'ImportError', 'ModuleNotFoundError') and not _has_ext_calls(n.body):
                    pass
                b = mk('bsym', 'exception %s in try' % lab)
                if all(r.pc is not None for r in raised) and s is None and raised and not kept:
                    pass
                hs = State(dict(entry.heap), conj(entry.pc, b))
                m2 = len(self.events)
                if h.name:
                    self.assign_name(h.name, mk('exc', lab), hs)
                hs = self.exec_block(h.body, hs)
                if s is not None:
                    s = State(s.heap, conj(s.pc, neg(b)))
                if hs is not None:
                    results.append((b, hs))
        for c, hs in results:
            rc = conj(*(tm.literals(c) - tm.literals(entry.pc))) if c.op == 'and' else c
            s = self.merge_states(rc, hs, s, entry.pc)
        if s is not None and n.finalbody:
            s = self.exec_block(n.finalbody, s)
        return s

    def handler_classes(self, h, st):
        if h.type is None:
            return [None]
        v, _ = self.ev(h.type, st)
        return list(v.items) if isinstance(v, Tup) else [v]

    def find_handler(self, n, exc, st):
        for h in n.handlers:
            for c in self.handler_classes(h, st):
                if c is None:
                    return h
                ec = exc.cls if isinstance(exc, Obj) else exc
                if isinstance(ec, ClassVal):
                    if isinstance(c, ClassVal) and ec.is_sub(c):
                        return h
                    if isinstance(c, Ext) and c.path.split('.')[-1] in ('Exception', 'BaseException'):
                        return h
                    if isinstance(c, Ext) and any(isinstance(b, Ext) and b.path == c.path for b in ec.bases):
                        return h
                else:
                    nm = exc_name(exc)
                    cn = c.path.split('.')[-1] if isinstance(c, Ext) else getattr(c, 'name', None)
                    if nm == cn or cn in ('Exception', 'BaseException'):
                        return h
                    if cn == 'LookupError' and nm in ('KeyError', 'IndexError'):
                        return h
        return None

    def x_Break(self, n, st):
        self.cur[-1].loops[-1].breaks.append(st)
        return None

    def x_Continue(self, n, st):
        self.cur[-1].loops[-1].continues.append(st)
        return None

    # ---- loops
    def x_For(self, n, st):
        it, st = self.ev(n.iter, st)
        if st is None:
            return None
        return self.for_loop(n, it, st)

    def for_loop(self, n, it, st):
        it = self.simp(it, st)
        if isinstance(it, Alt):
            # iterate each alternative on its own
            res = None
            for c, v in reversed(it.alts):
                s = State(dict(st.heap), conj(st.pc, c))
                if s.pc is FALSE:
                    continue
                s = self.for_loop(n, v, s)
                res = s if res is None else self.merge_states(c, s, res, st.pc)
            return res
        items = self.libs.iterate(it, st)
        broken = []
        for item in items:
            if st is None:
                break
            if item[0] == 'v':
                lc = LoopCtx()
                self.cur[-1].loops.append(lc)
                pres = tm.assume(item[2], st.facts)
                if pres is FALSE:
                    self.cur[-1].loops.pop()
                    continue
                s0 = st
                s = State(dict(st.heap), conj(st.pc, pres)) if pres is not TRUE else st
                s = self.assign(n.target, item[1], s)
                s = self.exec_block(n.body, s) if s is not None else None
                self.cur[-1].loops.pop()
                for cst in lc.continues:
                    s = self.join(s, cst)
                for b in lc.breaks:
                    broken.append(b)
                if pres is not TRUE:
                    skip = State(s0.heap, conj(s0.pc, neg(pres)))
                    st = self.merge_states(pres, s, skip, s0.pc)
                else:
                    st = s
            elif item[0] == 'each':
                st, brk = self.generic_loop(n, item, st)
                broken += brk
            else:
                st = self.havoc_loop(n, st, item[1])
        if st is not None and n.orelse:
            st = self.exec_block(n.orelse, st)
        for b in broken:
            st = self.join(st, b)
        return st

    def join(self, s1, s2):
        """join two live states with disjoint path conditions"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        common = tm.literals(s1.pc) & tm.literals(s2.pc)
        c = conj(*(tm.literals(s1.pc) - common))
        c2 = conj(*(tm.literals(s2.pc) - common))
        if c is TRUE and c2 is not TRUE:
            return self.merge_states(c2, s2, s1, TRUE)
        return self.merge_states(c, s1, s2, TRUE)

    def havoc_loop(self, n, st, reason):
        """unknown iteration: everything the body may write becomes unknown"""
        names = assigned_names(n.body) | target_names(n.target)
        for nm in names:
            self.assign_name(nm, top(reason), st)
        s = State(dict(st.heap), st.pc)
        lc = LoopCtx()
        self.cur[-1].loops.append(lc)
        m = len(self.raises)
        ctxr = len(self.cur[-1].returns)
        r = self.exec_block(n.body, s)
        self.cur[-1].loops.pop()
        post = [x for x in [r] + lc.breaks + lc.continues if x is not None]
        for p in post:
            for k, o in p.heap.items():
                if k in st.heap and st.heap[k] is not o:
                    st.heap[k] = havoc_obj(st.heap[k], reason)
        if len(self.raises) > m:
            # whether the body raises is as unknown as its iterations
            r = self.raises[m]
            del self.raises[m:]
            self.raises.append(Raise(conj(st.pc, top(reason)), r.exc, dict(st.heap), r.site, r.func))
        if len(self.cur[-1].returns) > ctxr:
            del self.cur[-1].returns[ctxr:]
            self.cur[-1].returns.append((State(dict(st.heap), conj(st.pc, top(reason))), top(reason)))
        return st

    def generic_loop(self, n, item, st):
        _, gens, guard, value = item
        # fresh generators for this walk
        m = {g: tm.fresh_gid() for g, _ in gens}
        gens = tuple((m[g], tm.subst(t, m)) for g, t in gens)
        guard = tm.subst(guard, m)
        value = self.libs.subst_value(value, m, st)
        return self.generic_body(n.target, value, n.body, gens, guard, st)

    def generic_body(self, target, value, body, gens, guard, st, bodyfn=None):
        base = st
        pre_heap = dict(st.heap)
        ids = {g for g, _ in gens}
        ctx = self.cur[-1]
        envref = ctx.env
        names = assigned_names(body) if body is not None else set()
        tn = target_names(target) if target is not None else set()
        env0 = self.get(st, envref)
        s = State(dict(st.heap), conj(st.pc, guard))
        phis = {}
        vars = dict(env0.vars)
        for nm in sorted(names - tn):
            if nm in vars and isinstance(vars[nm], T):
                p = mk('phi', nm, tm.fresh_gid())
                phis[nm] = (p, vars[nm])
                vars[nm] = p
        s.heap[envref.oid] = Env(vars, env0.parent)
        entry_heap = dict(s.heap)
        rmark = len(self.raises)
        retmark = len(ctx.returns)
        lc = LoopCtx()
        ctx.loops.append(lc)
        self.genstack.append((gens, guard))
        self.readers.append(set())
        try:
            if target is not None:
                s = self.assign(target, value, s)
            if s is not None:
                s = self.exec_block(body, s) if bodyfn is None else bodyfn(s)
        finally:
            self.genstack.pop()
            ctx.loops.pop()
            reads = self.readers.pop()
        outs = [x for x in [s] + lc.continues + lc.breaks + [r for r, _ in ctx.returns[retmark:]] if x is not None]
        changed = {k for x in outs for k, o in x.heap.items() if k in reads and pre_heap.get(k, o) is not o
                   and isinstance(o, (ListObj, DictObj))}
        changed |= {k for x in outs for k, o in x.heap.items() if isinstance(o, Obj) and isinstance(pre_heap.get(k), Obj) and
                    pre_heap[k] is not o and any(
                        (k, n, id(v)) in reads and o.attrs.get(n) is not v for n, v in pre_heap[k].attrs.items())}
        if changed:
            # a container is read and extended by the same loop: what one iteration reads depends on the earlier ones
            why = 'container read and changed in a loop'
            heap = dict(pre_heap)
            for x in outs:
                for k, o in x.heap.items():
                    if k in pre_heap and pre_heap[k] is not o and k != envref.oid:
                        heap[k] = havoc_obj(pre_heap[k], why)
            nv = dict(env0.vars)
            for x in outs:
                for nm, v in self.get(x, envref).vars.items():
                    if v is not vars.get(nm):
                        nv[nm] = top(why)
            heap[envref.oid] = Env(nv, env0.parent)
            if len(self.raises) > rmark:
                r = self.raises[rmark]
                del self.raises[rmark:]
                self.raises.append(Raise(conj(base.pc, top(why)), r.exc, dict(heap), r.site, r.func))
            if len(ctx.returns) > retmark:
                del ctx.returns[retmark:]
                ctx.returns.append((State(dict(heap), conj(base.pc, top(why))), top(why)))
            return State(heap, base.pc), []
        for c in lc.continues:
            s = self.join(s, c)
        basel = tm.literals(base.pc)

        def rel_pc(pc):
            return conj(guard, *[x for x in tm.literals(pc) if x not in basel])

        stop = []
        # exceptions leaving the body
        newr = self.raises[rmark:]
        del self.raises[rmark:]
        for r in newr:
            e = tm.exists([tm.br(gens, rel_pc(r.pc))])
            self.raises.append(Raise(conj(base.pc, e), r.exc, r.heap, r.site, r.func))
            stop.append(e)
        # returns inside the body: the first row that gets there
        newret = ctx.returns[retmark:]
        del ctx.returns[retmark:]
        for rs, rv in newret:
            rp = rel_pc(rs.pc)
            e = tm.exists([tm.br(gens, rp)])
            heap = dict(pre_heap) if same_heap(entry_heap, rs.heap, envref) else self.wrap_heap(
                pre_heap, rs.heap, gens, rp, envref, ids)
            ctx.returns.append((State(heap, conj(base.pc, e)), self.first_of(rv, gens, rp, ids)))
            stop.append(e)
        brk = []
        for b in lc.breaks:
            rp = rel_pc(b.pc)
            e = tm.exists([tm.br(gens, rp)])
            bs = State(dict(pre_heap), conj(base.pc, e))
            if not same_heap(entry_heap, b.heap, envref):
                bs.heap = self.wrap_heap(pre_heap, b.heap, gens, top('effects before break'), envref, ids)
            benv = self.get(b, envref)
            nv = dict(env0.vars)
            for nm, v in benv.vars.items():
                if nm in phis:
                    p, init = phis[nm]
                    if v is p:
                        continue
                    nv[nm] = self.first_of(v, gens, rp, ids) if not (isinstance(v, T) and tm.contains(v, p)) else top(
                        'loop-carried value at break')
                elif env0.vars.get(nm) is not v:
                    nv[nm] = self.first_of(v, gens, rp, ids)
            bs.heap[envref.oid] = Env(nv, env0.parent)
            brk.append(bs)
            stop.append(e)
        if s is None and not (newr or newret or lc.breaks):
            return None, []
        # normal completion
        pc = conj(base.pc, *[neg(e) for e in stop])
        if pc is FALSE:
            return None, brk
        if s is None:
            # every iteration leaves the loop early: normal completion only when there is no row
            some = tm.exists([tm.br(gens, guard)])
            out = State(dict(pre_heap), conj(base.pc, neg(some)))
            if out.pc is FALSE:
                return None, brk
            return out, brk
        gd = conj(guard, *[x for x in tm.literals(s.pc) if x not in basel and (tm.gens_of(x) & ids)])
        if stop:
            # in the completed loop no row met an exit condition
            gd = conj(guard, *[x for x in tm.literals(s.pc) if x not in basel and (tm.gens_of(x) & ids)
                               and not any(False for _ in ())])
        heap = self.wrap_heap(pre_heap, s.heap, gens, guard, envref, ids)
        nv = dict(env0.vars)
        post = s.heap[envref.oid]
        for nm, v in post.vars.items():
            if nm in phis:
                p, init = phis[nm]
                nv[nm] = self.close_phi(v, p, init, gens, guard, ids)
            elif nm in env0.vars and env0.vars[nm] is v:
                pass
            elif nm in env0.vars and not isinstance(v, T) and env0.vars[nm] == v:
                pass
            else:
                nv[nm] = self.last_of(v, gens, guard, ids, env0.vars.get(nm))
        heap[envref.oid] = Env(nv, env0.parent)
        return State(heap, pc), brk

    def note_read(self, ref):
        for r in self.readers:
            r.add(ref.oid)

    def first_of(self, v, gens, guard, ids):
        return self.pick(v, 'first', gens, guard, ids)

    def pick(self, v, kind, gens, guard, ids):
        if isinstance(v, T):
            if not (tm.gens_of(v) & ids):
                return v
            return tm.agg(kind, [tm.br(gens, guard, v)])
        if isinstance(v, Tup):
            return Tup([self.pick(x, kind, gens, guard, ids) for x in v.items])
        if isinstance(v, (FuncVal, ClassVal, ModVal, Ext)):
            return v
        return top('value chosen by a loop')

    def last_of(self, v, gens, guard, ids, init):
        some = tm.exists([tm.br(gens, guard)])
        r = self.pick(v, 'last', gens, guard, ids)
        if isinstance(r, T):
            return ite(some, r, init if isinstance(init, T) else mk('undef', 'unbound'))
        return r

    def close_phi(self, v, p, init, gens, guard, ids):
        if v is p:
            return init
        if not isinstance(v, T):
            return top('loop-carried variable changes kind')
        some = tm.exists([tm.br(gens, guard)])
        if not tm.contains(v, p):
            return ite(some, self.pick(v, 'last', gens, guard, ids), init)
        if v.op == '+' and p in v.args:
            e = v.args[1] if v.args[0] is p else v.args[0]
            if not tm.contains(e, p):
                return tm.app('+', init, tm.agg('sum', [tm.br(gens, guard, e)]))
        if v.op == '-' and v.args[0] is p and not tm.contains(v.args[1], p):
            return tm.app('-', init, tm.agg('sum', [tm.br(gens, guard, v.args[1])]))
        if v.op == 'ite' and not tm.contains(v.args[0], p):
            c, a, b = v.args
            if b is p and not tm.contains(a, p):
                g = conj(guard, c)
                return ite(tm.exists([tm.br(gens, g)]), self.pick(a, 'last', gens, g, ids), init)
            if a is p and not tm.contains(b, p):
                g = conj(guard, neg(c))
                return ite(tm.exists([tm.br(gens, g)]), self.pick(b, 'last', gens, g, ids), init)
            # conditional accumulation
            da, db = acc_delta(a, p), acc_delta(b, p)
            if da is not None and db is not None:
                return tm.app('+', init, tm.agg('sum', [tm.br(gens, guard, ite(c, da, db))]))
        if v.op == 'or':
            pp = mk('truth', p)
            rest = [x for x in v.args if x is not p and x is not pp]
            if len(rest) < len(v.args) and not any(tm.contains(x, p) for x in rest):
                return disj(as_bool(init), tm.exists([tm.br(gens, conj(guard, disj(*rest)))]))
        if v.op == 'and':
            pp = mk('truth', p)
            rest = [x for x in v.args if x is not p and x is not pp]
            if len(rest) < len(v.args) and not any(tm.contains(x, p) for x in rest):
                return conj(as_bool(init), neg(tm.exists([tm.br(gens, conj(guard, neg(conj(*rest))))])))
        return top('loop-carried value')

    def wrap_heap(self, pre, post, gens, guard, envref, ids):
        """close the heap effects of one generic iteration over its generators"""
        heap = {}
        for k, o in post.items():
            if k == envref.oid:
                continue
            p = pre.get(k)
            if p is None or p is o:
                heap[k] = o
                continue
            heap[k] = self.wrap_obj(p, o, gens, guard, ids)
        for k, p in pre.items():
            if k not in heap and k != envref.oid:
                heap[k] = p
        return heap

    def wrap_obj(self, p, o, gens, guard, ids):
        why = 'updated inside a loop over data'
        if isinstance(o, ListObj):
            n = len(p.items)
            if o.items[:n] == p.items:
                items = list(p.items)
                for it in o.items[n:]:
                    if it[0] == 'v':
                        items.append(('each', gens, conj(guard, it[2]), it[1]))
                    elif it[0] == 'each':
                        items.append(('each', gens + it[1], conj(guard, it[2]), it[3]))
                    else:
                        items.append(it)
                return ListObj(items, o.kind, o.origin)
            return ListObj([('top', why)], o.kind, o.origin)
        if isinstance(o, DictObj):
            ents = []
            pm = {e[1]: e for e in p.entries if e[0] == 'v'}
            for e in o.entries:
                if e in p.entries:
                    ents.append(e)
                elif e[0] == 'each':
                    ents.append(('each', gens + e[1], conj(guard, e[2]), e[3], e[4]))
                elif e[0] == 'v':
                    kdep = tm.gens_of(e[1]) & ids
                    if kdep:
                        ents.append(('each', gens, conj(guard, e[3]), e[1], e[2]))
                    else:
                        g = conj(guard, e[3])
                        some = tm.exists([tm.br(gens, g)])
                        old = pm.get(e[1])
                        if old is not None:
                            # value rewritten by the loop
                            if isinstance(e[2], T) and isinstance(old[2], T):
                                nv = top(why)
                                if not tm.contains(e[2], old[2]) or not (tm.gens_of(e[2]) & ids):
                                    c = conj(guard)
                                    if e[2].op == 'ite' and (e[2].args[1] is old[2] or e[2].args[2] is old[2]):
                                        cc, a, b = e[2].args
                                        if b is old[2] and not tm.contains(a, old[2]):
                                            gg = conj(guard, cc)
                                            nv = ite(tm.exists([tm.br(gens, gg)]), self.pick(a, 'last', gens, gg, ids), old[2])
                                        elif a is old[2] and not tm.contains(b, old[2]):
                                            gg = conj(guard, neg(cc))
                                            nv = ite(tm.exists([tm.br(gens, gg)]), self.pick(b, 'last', gens, gg, ids), old[2])
                                    elif not tm.contains(e[2], old[2]):
                                        nv = ite(some, self.pick(e[2], 'last', gens, g, ids), old[2])
                                ents.append(('v', e[1], nv, disj(old[3], some)))
                            elif e[2] == old[2]:
                                ents.append(('v', e[1], e[2], disj(old[3], some)))
                            else:
                                ents.append(('v', e[1], top(why), disj(old[3], some)))
                        else:
                            ents.append(('v', e[1], self.pick(e[2], 'last', gens, g, ids), some))
                else:
                    ents.append(e)
            return DictObj(ents, o.origin, o.default)
        if isinstance(o, FrameObj):
            return FrameObj(havoc_changed(p.frame, o.frame, why, ids), o.origin)
        if isinstance(o, Obj):
            attrs = {}
            for k, v in o.attrs.items():
                pv = p.attrs.get(k, UNBOUND)
                if v is pv or (not isinstance(v, T) and v == pv):
                    attrs[k] = v
                elif isinstance(v, T) and not (tm.gens_of(v) & ids):
                    some = tm.exists([tm.br(gens, guard)])
                    attrs[k] = ite(some, v, pv) if isinstance(pv, T) else v
                else:
                    attrs[k] = self.pick(v, 'last', gens, guard, ids) if isinstance(v, T) else top(why)
            return Obj(o.cls, attrs)
        if isinstance(o, Env):
            vs = {}
            for k, v in o.vars.items():
                pv = p.vars.get(k, UNBOUND)
                if v is pv or (not isinstance(v, T) and v == pv):
                    vs[k] = v
                else:
                    vs[k] = top(why)
            return Env(vs, o.parent)
        return o

    while_limit = 200     # decided iterations analysed one by one

    def x_While(self, n, st):
        # concrete unrolling while the condition is decided
        for k in range(self.while_limit):
            v, st = self.ev(n.test, st)
            if st is None:
                return None
            c = self.truth(v, st)
            if c is FALSE:
                return st
            if c is not TRUE:
                break
            lc = LoopCtx()
            self.cur[-1].loops.append(lc)
            s = self.exec_block(n.body, st)
            self.cur[-1].loops.pop()
            for x in lc.continues:
                s = self.join(s, x)
            if lc.breaks:
                for b in lc.breaks:
                    s = self.join(s, b) if s is None else None
                if s is None:
                    st = top
                    break
                return s
            if s is None:
                return None
            st = s
        else:
            return self.havoc_while(n, st, 'unbounded loop')
        # symbolic: a sequence phi0 = init, phi' = next(phi) while cond(phi)
        env = self.get(st, self.cur[-1].env)
        cand = [nm for nm in sorted(assigned_names(n.body)) if nm in env.vars and isinstance(env.vars[nm], T)
                and nm in {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}]
        if len(cand) != 1:
            return self.havoc_while(n, st, 'loop condition over several variables')
        nm = cand[0]
        init = env.vars[nm]
        phi = mk('wphi', 'x')
        probe = State(dict(st.heap), st.pc)
        vs = dict(env.vars)
        vs[nm] = phi
        probe.heap[self.cur[-1].env.oid] = Env(vs, env.parent)
        cv, probe = self.ev(n.test, probe)
        cond = self.truth(cv, probe)
        marks = (len(self.raises), len(self.events), len(self.cur[-1].returns), len(self.mutations))
        lc = LoopCtx()
        self.cur[-1].loops.append(lc)
        r = self.exec_block(n.body, probe)
        self.cur[-1].loops.pop()
        for x in lc.continues:
            r = self.join(r, x)
        del self.raises[marks[0]:]
        del self.events[marks[1]:]
        del self.cur[-1].returns[marks[2]:]
        del self.mutations[marks[3]:]
        if r is None or lc.breaks:
            return self.havoc_while(n, st, 'loop with early exit')
        nxt = self.get(r, self.cur[-1].env).vars[nm]
        g = tm.fresh_gid()
        # conditions on other state (e.g. a growing result) are kept in the sequence description
        table = mk('whileseq', init, cond if isinstance(cond, T) else TRUE, nxt if isinstance(nxt, T) else top('step'))
        s = State(dict(st.heap), st.pc)
        vs = dict(env.vars)
        vs[nm] = mk('cell', g, 'item')
        s.heap[self.cur[-1].env.oid] = Env(vs, env.parent)
        tgt = ast.Name(id=nm, ctx=ast.Store())
        res, brk = self.generic_body(tgt, mk('cell', g, 'item'), n.body, ((g, table),), TRUE, s)
        if res is not None:
            self.assign_name(nm, top('value after loop'), res)
        return res

    def havoc_while(self, n, st, reason):
        fake = ast.For(target=ast.Name(id='_', ctx=ast.Store()), iter=None, body=n.body, orelse=[])
        return self.havoc_loop(fake, st, reason)

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st)
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.libs.unpack(v, len(t.elts), st)
            for e, p in zip(t.elts, parts):
                if isinstance(e, ast.Starred):
                    e = e.value
                st = self.assign(e, p, st)
            return st
        if isinstance(t, ast.Attribute):
            o, st = self.ev(t.value, st)
            if st is None:
                return None
            if t.attr == 'columns' and self.libs.wrong_columns(o, v, st):
                self.do_raise(st, 'ValueError', t)
                return None
            self.libs.setattr(o, t.attr, v, st)
            return st
        if isinstance(t, ast.Subscript):
            o, st = self.ev(t.value, st)
            k, st = self.ev_slice(t.slice, st)
            if st is None:
                return None
            self.libs.setitem(o, k, v, st)
            return st
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisError('assignment target')

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        self.node = n if hasattr(n, 'lineno') else self.node
        meth = getattr(self, 'e_' + type(n).__name__, None)
        if meth is None:
            return top('expression ' + type(n).__name__), st
        try:
            v, s = meth(n, st)
        except Unsupported as e:
            return top('%s (%s)' % (e, self.site())), st
        return v, s

    def evs(self, ns, st):
        out = []
        for n in ns:
            v, st = self.ev(n, st)
            if st is None:
                return out, None
            out.append(v)
        return out, st

    def ev_slice(self, n, st):
        if isinstance(n, ast.Slice):
            parts = []
            for x in (n.lower, n.upper, n.step):
                if x is None:
                    parts.append(None)
                else:
                    v, st = self.ev(x, st)
                    parts.append(v)
            return ('slice',) + tuple(parts), st
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                v, st = self.ev_slice(e, st)
                out.append(v)
            return ('tuple', out), st
        return self.ev(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return top('constant'), st
        return const(v), st

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        if isinstance(v, T) and v.op == 'top' and not hasattr(builtins, n.id) and str(v.args[1]).startswith('undefined name'):
            self.do_raise(st, 'NameError', n)
            return None, None
        return self.simp(v, st), st

    def e_Attribute(self, n, st):
        o, st = self.ev(n.value, st)
        if st is None:
            return None, None
        self.node = n
        return self.libs.getattr(o, n.attr, st)

    def e_Subscript(self, n, st):
        o, st = self.ev(n.value, st)
        if st is None:
            return None, None
        k, st = self.ev_slice(n.slice, st)
        if st is None:
            return None, None
        self.node = n
        return self.libs.getitem(o, k, st)

    def e_Tuple(self, n, st):
        vs, st = self.ev_elts(n.elts, st)
        if st is None:
            return None, None
        return Tup([x[1] for x in vs]), st

    def ev_elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v, st = self.ev(e.value, st)
                if st is None:
                    return None, None
                out += self.libs.iterate(v, st)
            else:
                v, st = self.ev(e, st)
                if st is None:
                    return None, None
                out.append(('v', v, TRUE))
        return out, st

    def e_List(self, n, st):
        items, st = self.ev_elts(n.elts, st)
        if st is None:
            return None, None
        return self.new(st, ListObj(items)), st

    def e_Set(self, n, st):
        items, st = self.ev_elts(n.elts, st)
        if st is None:
            return None, None
        return self.new(st, ListObj(items, 'set')), st

    def e_Dict(self, n, st):
        ents = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                vv, st = self.ev(v, st)
                if isinstance(vv, Ref) and isinstance(self.get(st, vv), DictObj):
                    for e in self.get(st, vv).entries:
                        if e[0] == 'v':
                            ents = [x for x in ents if not (x[0] == 'v' and x[1] is e[1])]
                        ents.append(e)
                else:
                    ents.append(('top', 'dict unpacking'))
                continue
            kk, st = self.ev(k, st)
            if st is None:
                return None, None
            vv, st = self.ev(v, st)
            if st is None:
                return None, None
            if isinstance(kk, T):
                ents = [x for x in ents if not (x[0] == 'v' and x[1] is kk)]
                ents.append(('v', kk, vv, TRUE))
            else:
                ents.append(('v', self.libs.keyterm(kk, st), vv, TRUE))
        return self.new(st, DictObj(ents)), st

    def e_JoinedStr(self, n, st):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v, st = self.ev(p.value, st)
                if st is None:
                    return None, None
                spec = None
                if p.format_spec is not None:
                    sv, st = self.ev(p.format_spec, st)
                    spec = sv
                parts.append(self.libs.fmt_part(v, spec, st))
        return self.libs.strcat(parts), st

    def e_BinOp(self, n, st):
        a, st = self.ev(n.left, st)
        if st is None:
            return None, None
        b, st = self.ev(n.right, st)
        if st is None:
            return None, None
        self.node = n
        for x, y, names in ((a, b, DUNDER), (b, a, RDUNDER)):
            x = self.simp(x, st)
            ob = self.get(st, x) if isinstance(x, Ref) else None
            if isinstance(ob, Obj):
                m = ob.cls.find(names.get(type(n.op).__name__, '')) if hasattr(ob.cls, 'find') else None
                if m is not None:
                    return self.call(m, [x, y], {}, st)
        return self.libs.binop(type(n.op).__name__, a, b, st), st

    def e_UnaryOp(self, n, st):
        v, st = self.ev(n.operand, st)
        if st is None:
            return None, None
        op = type(n.op).__name__
        if op == 'Not':
            return neg(self.truth(v, st)), st
        return self.libs.unop(op, v, st), st

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v, st = self.ev(n.values[0], st)
        for nx in n.values[1:]:
            if st is None:
                return None, None
            c = self.truth(v, st)
            if isand and c is FALSE:
                return v, st
            if not isand and c is TRUE:
                return v, st
            if (isand and c is TRUE) or (not isand and c is FALSE):
                v, st = self.ev(nx, st)
                continue
            s1 = State(dict(st.heap), conj(st.pc, c if isand else neg(c)))
            if s1.pc is FALSE:
                continue
            rm = len(self.raises)
            w, s1 = self.ev(nx, s1)
            if s1 is None:
                st = State(st.heap, conj(st.pc, neg(c) if isand else c))
                continue
            wt = self.truth(w, s1)
            extra = [x for x in s1.facts if x not in st.facts]
            new = self.merge_states(c if isand else neg(c), s1, State(st.heap, conj(st.pc, neg(c) if isand else c)), st.pc)
            boolish = isinstance(w, T) and isinstance(v, T)
            if isand:
                v2 = conj(c, wt)
            else:
                v2 = disj(c, wt)
            if not boolish or not (is_boolish(v) and is_boolish(w)):
                # value of and/or is one of the operands
                vv = self.merge_val(c, w, v) if isand else self.merge_val(c, v, w)
                v = vv if not (isinstance(vv, T)) else vv
                if isinstance(v, T) and (is_boolish(w) or is_boolish(v)):
                    v = v2
            else:
                v = v2
            st = new
        return v, st

    def e_Compare(self, n, st):
        a, st = self.ev(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            if st is None:
                return None, None
            b, st = self.ev(r, st)
            if st is None:
                return None, None
            self.node = n
            x = self.libs.compare(type(op).__name__, a, b, st)
            if res is None:
                res = x
            else:
                res = conj(as_bool(res), as_bool(x)) if isinstance(x, T) and isinstance(res, T) else top('chained comparison')
            a = b
        return res, st

    def e_IfExp(self, n, st):
        v, st = self.ev(n.test, st)
        if st is None:
            return None, None
        c = self.truth(v, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        s1 = State(dict(st.heap), conj(st.pc, c))
        s2 = State(dict(st.heap), conj(st.pc, neg(c)))
        if s1.pc is FALSE:
            return self.ev(n.orelse, s2)
        if s2.pc is FALSE:
            return self.ev(n.body, s1)
        a, s1 = self.ev(n.body, s1)
        b, s2 = self.ev(n.orelse, s2)
        if s1 is None:
            return b, s2
        if s2 is None:
            return a, s1
        return self.merge_val(c, a, b), self.merge_states(c, s1, s2, st.pc)

    def e_Yield(self, n, st):
        ref = self.cur[-1].yields
        if ref is None:
            raise Unsupported('yield')
        v = NONE
        if n.value is not None:
            v, st = self.ev(n.value, st)
            if st is None:
                return None, None
        return self.libs.list_method(ref, self.get(st, ref), 'append', [v], {}, st)

    def e_YieldFrom(self, n, st):
        ref = self.cur[-1].yields
        if ref is None:
            raise Unsupported('yield')
        v, st = self.ev(n.value, st)
        if st is None:
            return None, None
        return self.libs.list_method(ref, self.get(st, ref), 'extend', [v], {}, st)

    def e_Lambda(self, n, st):
        defaults = []
        for d in n.args.defaults:
            v, st = self.ev(d, st)
            defaults.append(v)
        ctx = self.cur[-1]
        env = ctx.env if ctx.func.name != '<module>' else None
        return FuncVal(n, ctx.func.module, env, '<lambda>', None, defaults), st

    def e_NamedExpr(self, n, st):
        v, st = self.ev(n.value, st)
        if st is None:
            return None, None
        st = self.assign(n.target, v, st)
        return v, st

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    # comprehensions
    def comp(self, generators, st, emit):
        """returns list of items; emit(state) -> (value, state)"""
        return self._comp(generators, 0, st, emit)

    def _comp(self, gs, k, st, emit):
        if k == len(gs):
            v, st = emit(st)
            return [('v', v, TRUE)] if st is not None else [], st
        g = gs[k]
        it, st = self.ev(g.iter, st)
        if st is None:
            return [], None
        out = []
        for item in self.libs.iterate(it, st):
            if item[0] == 'top':
                out.append(item)
                continue
            if item[0] == 'v':
                gens, guard, value = (), item[2], item[1]
            else:
                _, gens0, guard0, value0 = item
                m = {x: tm.fresh_gid() for x, _ in gens0}
                gens = tuple((m[x], tm.subst(t, m)) for x, t in gens0)
                guard = tm.subst(guard0, m)
                value = self.libs.subst_value(value0, m, st)
            s = State(dict(st.heap), conj(st.pc, guard))
            if s.pc is FALSE:
                continue
            s = self.assign(g.target, value, s)
            cond = TRUE
            rm = len(self.raises)
            if gens:
                self.genstack.append((gens, guard))
            try:
                for i in g.ifs:
                    cv, s = self.ev(i, s)
                    if s is None:
                        break
                    c = self.truth(cv, s)
                    cond = conj(cond, c)
                    s = State(s.heap, conj(s.pc, c))
                    if s.pc is FALSE:
                        s = None
                        break
                if s is None:
                    sub = []
                else:
                    sub, s = self._comp(gs, k + 1, s, emit)
            finally:
                if gens:
                    self.genstack.pop()
            if gens and len(self.raises) > rm:
                basel = st.facts
                for i in range(rm, len(self.raises)):
                    r = self.raises[i]
                    rp = conj(guard, *[x for x in tm.literals(r.pc) if x not in basel])
                    self.raises[i] = Raise(conj(st.pc, tm.exists([tm.br(gens, rp)])), r.exc, r.heap, r.site, r.func)
            full = conj(guard, cond)
            for it2 in sub:
                if it2[0] == 'v':
                    out.append(('each', gens, conj(full, it2[2]), it2[1]) if gens else ('v', it2[1], conj(full, it2[2])))
                elif it2[0] == 'each':
                    out.append(('each', gens + it2[1], conj(full, it2[2]), it2[3]))
                else:
                    out.append(it2)
            # new heap objects created while evaluating elements must stay reachable
            if s is not None:
                for kk, o in s.heap.items():
                    if kk not in st.heap:
                        st.heap[kk] = o
        return out, st

    def e_ListComp(self, n, st):
        items, st = self.comp(n.generators, st, lambda s: self.ev(n.elt, s))
        if st is None:
            return None, None
        return self.new(st, ListObj(items)), st

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        items, st = self.comp(n.generators, st, lambda s: self.ev(n.elt, s))
        if st is None:
            return None, None
        return self.new(st, ListObj(items, 'set')), st

    def e_DictComp(self, n, st):
        def emit(s):
            k, s = self.ev(n.key, s)
            if s is None:
                return None, None
            v, s = self.ev(n.value, s)
            return Tup([k, v]), s
        items, st = self.comp(n.generators, st, emit)
        if st is None:
            return None, None
        return self.new(st, DictObj(self.libs.pairs_to_entries(items, st))), st

    # calls
    def e_Call(self, n, st):
        f, st = self.ev(n.func, st)
        if st is None:
            return None, None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v, st = self.ev(a.value, st)
                if st is None:
                    return None, None
                for it in self.libs.iterate(v, st):
                    if it[0] == 'v' and len(it) > 2 and isinstance(it[2], T) and self.assumed(it[2], st) is not TRUE:
                        args.append(Maybe(None, it[1], it[2]))
                    else:
                        args.append(it[1] if it[0] == 'v' else top('argument unpacking'))
            else:
                v, st = self.ev(a, st)
                if st is None:
                    return None, None
                args.append(v)
        kwargs = {}
        for k in n.keywords:
            v, st = self.ev(k.value, st)
            if st is None:
                return None, None
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.get(st, v), DictObj):
                    for e in self.get(st, v).entries:
                        if e[0] == 'v' and e[1].op == 'const':
                            if self.assumed(e[3], st) is TRUE:
                                kwargs[e[1].value] = e[2]
                            else:
                                args.append(Maybe(e[1].value, e[2], e[3]))
                        else:
                            raise Unsupported('argument unpacking')
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        self.node = n
        try:
            return self.call_maybe(f, args, kwargs, st, n)
        except MissingColumn as e:
            self.do_raise(st, 'KeyError', n)
            return None, None

    def assumed(self, c, st):
        return tm.assume(c, tm.literals(st.pc))

    def call_maybe(self, f, args, kwargs, st, n):
        """a call some of whose unpacked arguments are there only under a condition"""
        j = next((i for i, a in enumerate(args) if isinstance(a, Maybe)), None)
        if j is None:
            return self.call(f, args, kwargs, st)
        a = args[j]
        c = self.assumed(a.cond, st)
        there = list(args[:j]) + ([a.value] if a.name is None else []) + list(args[j + 1:])
        kw = dict(kwargs) if a.name is None else dict(kwargs, **{a.name: a.value})
        if c is TRUE:
            return self.call_maybe(f, there, kw, st, n)
        if c is FALSE:
            return self.call_maybe(f, list(args[:j]) + list(args[j + 1:]), kwargs, st, n)
        s1, s2 = State(dict(st.heap), conj(st.pc, c)), State(dict(st.heap), conj(st.pc, neg(c)))
        v1, s1 = self.call_maybe(f, there, kw, s1, n)
        self.node = n
        v2, s2 = self.call_maybe(f, list(args[:j]) + list(args[j + 1:]), kwargs, s2, n)
        if s1 is None:
            return v2, s2
        if s2 is None:
            return v1, s1
        return self.merge_val(c, v1, v2), self.merge_states(c, s1, s2, st.pc)

    def call(self, f, args, kwargs, st):
        f = self.simp(f, st)
        if isinstance(f, Alt):
            res = None
            rst = None
            for c, x in reversed(f.alts):
                s = State(dict(st.heap), conj(st.pc, c))
                v, s = self.call(x, args, kwargs, s)
                if s is None:
                    continue
                if rst is None:
                    res, rst = v, s
                else:
                    res, rst = self.merge_val(c, v, res), self.merge_states(c, s, rst, st.pc)
            return res, rst
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, Bound):
            if f.func is not None:
                fn = f.func
                if isinstance(fn, FuncVal):
                    if fn.kind == 'static':
                        return self.call_func(fn, args, kwargs, st)
                    return self.call_func(fn, [f.obj] + list(args), kwargs, st)
                return self.call(fn, args, kwargs, st)
            return self.libs.call_method(f.obj, f.name, args, kwargs, st)
        if isinstance(f, ClassVal):
            if f.qual in self.intercepts:
                return self.intercepts[f.qual](self, f, args, kwargs, st), st
            ref = self.new(st, Obj(f, {}))
            init = f.find('__init__')
            if isinstance(init, FuncVal):
                _, st = self.call_func(init, [ref] + list(args), kwargs, st)
                if st is None:
                    return None, None
            return ref, st
        if isinstance(f, Ref):
            o = self.get(st, f)
            if isinstance(o, Obj):
                m = o.cls.find('__call__')
                if isinstance(m, FuncVal):
                    return self.call_func(m, [f] + list(args), kwargs, st)
        return self.libs.call_ext(f, args, kwargs, st)

    def call_func(self, f, args, kwargs, st):
        if f.qual in self.intercepts:
            r = self.intercepts[f.qual](self, f, args, kwargs, st)
            if r is not NotImplemented:
                return r, st
        if self.depth > self.MAX_DEPTH or sum(1 for c in self.cur if c.func is f) > 10:
            return top('recursion'), st
        self.fn_seen[f.qual] = self.fn_seen.get(f.qual, 0) + 1
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        if len(args) > len(names) and a.vararg is None:
            self.do_raise(st, 'TypeError', self.node)
            return None, None
        for nm, v in zip(names, args):
            vars[nm] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = Tup(args[len(names):])
        extra = []
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vars[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.do_raise(st, 'TypeError', self.node)
                return None, None
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.dict_ref(st, extra)
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            vars.setdefault(nm, d)
        for k, d in f.kwdefaults.items():
            vars.setdefault(k, d)
        for nm in names:
            if nm not in vars:
                self.do_raise(st, 'TypeError', self.node)
                return None, None
        env = self.new(st, Env(vars, f.env))
        ctx = FnCtx(f, env)
        if is_generator(f.node):
            ctx.yields = self.new(st, ListObj([]))      # a generator function: the list of what it yields, in order
        self.cur.append(ctx)
        self.depth += 1
        savenode = self.node
        pc0 = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v, s = self.ev(f.node.body, st)
                return (v, s)
            s = self.exec_block(f.node.body, st)
            if s is not None:
                ctx.returns.append((s, NONE))
        finally:
            self.cur.pop()
            self.depth -= 1
            self.node = savenode
        if not ctx.returns:
            return None, None
        rs, rv = ctx.returns[-1]
        if ctx.yields is not None:
            ctx.returns = [(s, ctx.yields) for s, _ in ctx.returns]
            rv = ctx.yields
        for s2, v2 in reversed(ctx.returns[:-1]):
            common = tm.literals(rs.pc) & tm.literals(s2.pc)
            c = conj(*(tm.literals(s2.pc) - common))
            rv = self.merge_val(c, v2, rv)
            rs = self.merge_states(c, s2, rs, pc0)
        return rv, rs


# ------------------------------------------------------------------ helpers
_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        todo = [] if isinstance(node, ast.Lambda) else list(getattr(node, 'body', []))
        while todo and not r:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        _GEN[node] = r
    return r


def cond_item(it, c):
    if it[0] == 'v':
        return ('v', it[1], conj(it[2], c))
    if it[0] == 'each':
        return ('each', it[1], conj(it[2], c), it[3])
    return it


DUNDER = {'Div': '__truediv__', 'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}
RDUNDER = {'Div': '__rtruediv__', 'Add': '__radd__', 'Sub': '__rsub__', 'Mult': '__rmul__'}


def cond_entry(e, c):
    if e[0] == 'v':
        return ('v', e[1], e[2], conj(e[3], c))
    if e[0] == 'each':
        return ('each', e[1], conj(e[2], c), e[3], e[4])
    return e


def is_boolish(v):
    return isinstance(v, T) and (v is TRUE or v is FALSE or v.op in tm.BOOL_OPS or v.op == 'bsym' or
                                 (v.op == 'agg' and v.args[0] == 'exists'))


def acc_delta(t, p):
    """t == p + delta ?"""
    if t is p:
        return const(0)
    if t.op == '+' and t.args[0] is p and not tm.contains(t.args[1], p):
        return t.args[1]
    if t.op == '+' and t.args[1] is p and not tm.contains(t.args[0], p):
        return t.args[0]
    return None


def same_heap(a, b, envref):
    for k, o in b.items():
        if k in a and a[k] is not o and k != envref.oid:
            return False
    return True


def havoc_obj(o, reason):
    if isinstance(o, ListObj):
        return ListObj([('top', reason)], o.kind, o.origin)
    if isinstance(o, DictObj):
        return DictObj([('top', reason)], o.origin)
    if isinstance(o, FrameObj):
        f = o.frame
        return FrameObj(f.like(cols={n: (tuple(top(reason) for _ in t), p) for n, (t, p) in f.cols.items()}), o.origin)
    if isinstance(o, Obj):
        return Obj(o.cls, {k: (top(reason) if isinstance(v, T) else v) for k, v in o.attrs.items()})
    if isinstance(o, Env):
        return o
    return o


def havoc_changed(p, f, why, ids):
    cols = {}
    if len(f.branches) != len(p.branches):
        return f.like(cols={n: (tuple(top(why) for _ in t), pr) for n, (t, pr) in f.cols.items()})
    for n, (t, pr) in f.cols.items():
        if n in p.cols and p.cols[n] == (t, pr):
            cols[n] = (t, pr)
        else:
            cols[n] = (tuple(x if not (tm.gens_of(x) & ids) and not (n in p.cols) else top(why) for x in t), pr)
    return f.like(cols=cols)


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for s in body:
        V().visit(s)
    return out


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


def _has_ext_calls(body):
    return any(isinstance(x, ast.Call) for s in body for x in ast.walk(s))
