"""Abstract interpreter: gated value numbering over the syntax tree.

Every statement is analysed once per calling context; control-flow merges join states with gated
(if-then-else) values, loops over symbolic ranges are summarised from one abstract iteration.
No program path is enumerated and nothing is executed.
"""
import ast
import os
from .terms import *
from .values import *


class AbsRaise(Exception):
    """The current abstract evaluation cannot complete normally (exception states already sunk)."""


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('heap', 'pc', '_facts')

    def __init__(self, heap, pc=TRUE):
        self.heap = heap
        self.pc = pc
        self._facts = None

    def copy(self):
        return State(dict(self.heap), self.pc)

    def facts(self):
        if self._facts is None or self._facts[0] is not self.pc:
            self._facts = (self.pc, Facts().with_cond(self.pc))
        return self._facts[1]


class Flow:
    __slots__ = ('normal', 'rets', 'conts', 'brks')

    def __init__(self, normal):
        self.normal = normal
        self.rets = []
        self.conts = []
        self.brks = []


class Exc:
    """An abstract exception: condition, class name, location."""
    __slots__ = ('state', 'cls', 'loc', 'val')

    def __init__(self, state, cls, loc, val=None):
        self.state, self.cls, self.loc, self.val = state, cls, loc, val

    def __repr__(self):
        return 'Exc(%s if %s at %s)' % (self.cls, self.state.pc, self.loc)


class Event:
    __slots__ = ('kind', 'pc', 'loc', 'data', 'loop')

    def __init__(self, kind, pc, loc, data):
        self.kind, self.pc, self.loc, self.data = kind, pc, loc, data

    def __repr__(self):
        return 'Event(%s %s if %s at %s)' % (self.kind, self.data, self.pc, self.loc)


EXC_PARENTS = {
    'ModuleNotFoundError': ['ImportError'], 'ImportError': ['Exception'], 'KeyError': ['LookupError'],
    'IndexError': ['LookupError'], 'LookupError': ['Exception'], 'ValueError': ['Exception'],
    'TypeError': ['Exception'], 'AttributeError': ['Exception'], 'MemoryError': ['Exception'],
    'AssertionError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'RuntimeError': ['Exception'],
    'ZeroDivisionError': ['ArithmeticError'], 'ArithmeticError': ['Exception'], 'OSError': ['Exception'],
    'FileExistsError': ['OSError'], 'FileNotFoundError': ['OSError'], 'UnicodeDecodeError': ['ValueError'],
    'StopIteration': ['Exception'], 'Exception': ['BaseException'],
}


def exc_isa(name, parent):
    seen = [name]
    while seen:
        n = seen.pop()
        if n == parent:
            return True
        seen.extend(EXC_PARENTS.get(n, []))
    return False


class Interp:
    def __init__(self, root, package='kinisi', specdir=None):
        from . import library
        self.root = root
        self.package = package
        self.lib = library
        self.next_id = [1]
        self.st = State({})
        self.modules = {}      # name -> frame id
        self.mod_src = {}
        self.events = []
        self.exc_sink = []
        self.cuts = {}
        self.loc = ('?', 0, '?')
        self.depth = 0
        self.frames = []       # stack of frame ids
        self.funcs_seen = {}   # qual -> (file, line)
        self.notes = []
        self.unresolved = 0
        self.cur_self = None
        self.stores = {}
        self.loading = set()
        self.opaque_sites = {}
        self.exec_count = 0
        self.loop_stack = []
        self.cls_cache = {}
        self.specdir = specdir
        self.rng = self.alloc_raw(RngC(sym('global-rng-entropy')))
        self.attr_reads = set()

    # ------------------------------------------------------------ heap
    def alloc_raw(self, content):
        i = self.next_id[0]
        self.next_id[0] += 1
        self.st.heap[i] = content
        return i

    def alloc(self, content):
        return Ref(self.alloc_raw(content))

    def new_list(self, items, prov=frozenset()):
        return self.alloc(ListC([Item(v) for v in items], prov))

    def new_arr(self, a, base=None):
        return self.alloc(ArrC(a, base))

    def content(self, ref):
        return self.st.heap[ref.id]

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def event(self, kind, data):
        self.events.append(Event(kind, self.st.pc, self.loc, data))

    def opaque(self, why, *args, kind='obj'):
        ts = []
        for a in args:
            try:
                ts.append(self.term(a))
            except Exception:
                ts.append(mk('sym', '?unreifiable'))
        name = '?' + why
        self.opaque_sites.setdefault(why, self.loc)
        return TV(mk('fn', name, *ts), kind)

    # ------------------------------------------------------------ modules
    def load_text(self, name, src):
        """Abstractly execute a reference module given as text; -> {name: value}"""
        fid = self.alloc_raw(FrameC({'__name__': Str(name), '__file__': Str(name)}, None))
        self.modules[name] = fid
        self.mod_src[name] = (name, ast.parse(src, name))
        self.frames.append(fid)
        try:
            fl = self.exec_block(self.mod_src[name][1].body)
            if fl.normal is not None:
                self.st = fl.normal
        finally:
            self.frames.pop()
        return self.st.heap[fid].vars

    def load_module(self, name, path=None):
        if name in self.modules:
            return self.modules[name]
        if path is None:
            rel = name.replace('.', '/')
            p1 = os.path.join(self.root, rel + '.py')
            p2 = os.path.join(self.root, rel, '__init__.py')
            path = p1 if os.path.exists(p1) else p2
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        fid = self.alloc_raw(FrameC({'__name__': Str(name), '__file__': Str(path)}, None))
        self.modules[name] = fid
        self.mod_src[name] = (path, tree)
        self.frames.append(fid)
        old = self.loc
        self.loc = (path, 0, name)
        try:
            try:
                fl = self.exec_block(tree.body)
                if fl.normal is not None:
                    self.st = fl.normal
            except AbsRaise:
                self.note('module %s: top level raises' % name)
        finally:
            self.frames.pop()
            self.loc = old
        return fid

    def module_of_frame(self, fid):
        f = self.st.heap[fid]
        while f.parent is not None:
            f = self.st.heap[f.parent]
        return f.vars.get('__name__').s

    def lookup_global(self, modname, name):
        fid = self.load_module(modname)
        return self.st.heap[fid].vars.get(name)

    def resolve(self, qual):
        """'kinisi.parser.Parser.get_disp' -> value, or None"""
        parts = qual.split('.')
        for k in range(len(parts), 0, -1):
            m = '.'.join(parts[:k])
            try:
                self.load_module(m)
            except FileNotFoundError:
                continue
            v = self.lookup_global(m, parts[k]) if k < len(parts) else None
            for nm in parts[k + 1:]:
                if v is None:
                    return None
                if isinstance(v, ClsV):
                    v = self.class_lookup(v, nm)
                else:
                    return None
            return v
        return None

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fid = self.frames[-1]
        while fid is not None:
            f = self.st.heap[fid]
            if name in f.vars:
                v = f.vars[name]
                if v is UNDEF:
                    break
                if isinstance(v, IteV):
                    v = self.defined(v, 'NameError')
                return v
            fid = f.parent
        b = self.lib.BUILTINS.get(name)
        if b is not None:
            return b
        self.raise_exc('NameError', None)

    def defined(self, v, exc):
        """A possibly undefined value: the undefined case raises, the rest goes on."""
        while isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
            c = self.st.facts().simplify(v.c)
            bad = c if v.a is UNDEF else c_not(c)
            if bad is TRUE:
                self.raise_exc(exc)
            if bad is not FALSE:
                e = self.st.copy()
                e.pc = c_and(e.pc, bad)
                self.exc_sink.append(Exc(e, exc, self.loc))
                self.st.pc = c_and(self.st.pc, c_not(bad))
            v = v.b if v.a is UNDEF else v.a
        if v is UNDEF:
            self.raise_exc(exc)
        return v

    def assign_name(self, name, v):
        fid = self.frames[-1]
        f = self.st.heap[fid]
        if name in f.globals_:
            g = fid
            while self.st.heap[g].parent is not None:
                g = self.st.heap[g].parent
            gf = self.st.heap[g]
            self.event('global-store', name)
            nv = dict(gf.vars)
            nv[name] = v
            self.st.heap[g] = FrameC(nv, gf.parent, gf.globals_)
            return
        if ('nonlocal', name) in f.globals_:
            g = f.parent
            while g is not None:
                gf = self.st.heap[g]
                if name in gf.vars:
                    nv = dict(gf.vars)
                    nv[name] = v
                    self.st.heap[g] = FrameC(nv, gf.parent, gf.globals_)
                    return
                g = gf.parent
        nv = dict(f.vars)
        nv[name] = v
        self.st.heap[fid] = FrameC(nv, f.parent, f.globals_)

    # ------------------------------------------------------------ exceptions
    def raise_exc(self, cls, val=None):
        self.exc_sink.append(Exc(self.st.copy(), cls, self.loc, val))
        raise AbsRaise()

    # ------------------------------------------------------------ merging
    def merge_states(self, c, a, b):
        """State equal to a where c holds, else b."""
        if a is None:
            return b
        if b is None:
            return a
        heap = {}
        self_st = self.st
        out = State(heap, c_or(a.pc, b.pc))
        self.st = out
        ha, hb = a.heap, b.heap
        for i in ha.keys() | hb.keys():
            if i not in hb:
                heap[i] = ha[i]
            elif i not in ha:
                heap[i] = hb[i]
            elif ha[i] is hb[i]:
                heap[i] = ha[i]
        todo = [i for i in ha if i in hb and ha[i] is not hb[i]]
        for i in todo:
            heap[i] = ha[i]  # placeholder so that merge of refs can read cells
        for i in todo:
            heap[i] = self.merge_content(c, ha[i], hb[i], ha, hb)
        self.st = self_st
        return out

    def merge_content(self, c, x, y, ha, hb):
        if isinstance(x, FrameC):
            vs = {}
            for k in x.vars.keys() | y.vars.keys():
                vs[k] = self.merge_val(c, x.vars.get(k, UNDEF), y.vars.get(k, UNDEF), ha, hb)
            return FrameC(vs, x.parent, x.globals_)
        if isinstance(x, ObjC) and isinstance(y, ObjC):
            vs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                vs[k] = self.merge_val(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF), ha, hb)
            return ObjC(x.cls, vs, x.prov)
        if isinstance(x, DictC) and isinstance(y, DictC):
            vs = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                vs[k] = self.merge_val(c, x.d.get(k, UNDEF), y.d.get(k, UNDEF), ha, hb)
            return DictC(vs, x.prov)
        if isinstance(x, ListC) and isinstance(y, ListC):
            return ListC(self.merge_segs(c, x.segs, y.segs, ha, hb), x.prov | y.prov, x.kind)
        if isinstance(x, ArrC) and isinstance(y, ArrC):
            v = self.merge_val(c, x.v, y.v, ha, hb)
            return ArrC(v, x.base)
        if isinstance(x, RngC) and isinstance(y, RngC):
            return RngC(ite(c, x.p, y.p))
        return x

    def merge_segs(self, c, xs, ys, ha=None, hb=None):
        n = 0
        while n < len(xs) and n < len(ys) and (xs[n] is ys[n] or (isinstance(xs[n], CarrySeg) and isinstance(ys[n], CarrySeg) and xs[n].tag == ys[n].tag)):
            n += 1
        pre, xs, ys = xs[:n], xs[n:], ys[n:]
        if len(xs) == len(ys) and all(isinstance(a, Item) and isinstance(b, Item) and a.guard is TRUE and b.guard is TRUE
                                      for a, b in zip(xs, ys)):
            return pre + [Item(self.merge_val(c, a.v, b.v, ha, hb)) for a, b in zip(xs, ys)]
        out = list(pre)
        for side, cc in ((xs, c), (ys, c_not(c))):
            for s in side:
                if isinstance(s, Item):
                    out.append(Item(s.v, c_and(cc, s.guard)))
                elif isinstance(s, Seg):
                    out.append(Seg(s.size, lambda k, s=s, cc=cc: [Item(i.v, c_and(cc, i.guard)) for i in s.fn(k)]))
                else:
                    out.append(s)
        return out

    def merge_val(self, c, a, b, ha=None, hb=None):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or b is UNDEF:
            return IteV(c, a, b)
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(ite(c, a.p, b.p), a.kind if a.kind == b.kind else None)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(c_ite(c, a.c, b.c))
        if isinstance(a, Str) and isinstance(b, Str) and a.s == b.s and type(a.s) is type(b.s):
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, ha, hb) for x, y in zip(a.items, b.items)], a.names if a.names == b.names else None)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and (a.dtype == 'bool') == (b.dtype == 'bool'):
            shape = [ite(c, s, t) for s, t in zip(a.shape, b.shape)]
            if a.dtype == 'bool':
                f = lambda *ix: c_ite(c, a.fn(*ix), b.fn(*ix))
            else:
                f = lambda *ix: ite(c, a.fn(*ix), b.fn(*ix))
            return Arr(shape, f, a.dtype if a.dtype == b.dtype else 'float', a.prov | b.prov)
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            return Seq(self.merge_segs(c, a.segs, b.segs, ha, hb), a.kind, a.prov | b.prov)
        if isinstance(a, Seq) and isinstance(b, Arr) and a.kind == 'array' and b.ndim == 1:
            return self.merge_val(c, a, self.lib.arr_to_seq(b), ha, hb)
        if isinstance(b, Seq) and isinstance(a, Arr) and b.kind == 'array' and a.ndim == 1:
            return self.merge_val(c, self.lib.arr_to_seq(a), b, ha, hb)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            xa, xb = ha or self.st.heap, hb or self.st.heap
            ca = xa.get(a.id)
            cb = xb.get(b.id)
            # objects that live on both sides keep their identity: a write has to reach the right one
            shared = a.id in xb and b.id in xa
            if isinstance(ca, ArrC) and isinstance(cb, ArrC):
                v = self.merge_val(c, ca.v, cb.v, ha, hb)
                if isinstance(v, (Arr, Seq)):
                    base = None
                    if shared:
                        base = [(a, lambda old, new: self.merge_val(c, new, old)), (b, lambda old, new: self.merge_val(c, old, new))]
                    return self.new_arr(v, base)
            if shared and isinstance(ca, (ListC, DictC)) and isinstance(cb, (ListC, DictC)):
                return IteV(c, a, b)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.alloc(ListC(self.merge_segs(c, ca.segs, cb.segs, ha, hb), ca.prov | cb.prov, ca.kind))
            if isinstance(ca, DictC) and isinstance(cb, DictC) and set(ca.d) == set(cb.d):
                return self.alloc(self.merge_content(c, ca, cb, ha, hb))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(*[self.merge_val(c, x, y, ha, hb) for x, y in ((a.a, b.a), (a.b, b.b), (a.s, b.s))])
        if isinstance(a, TV) and isinstance(b, TV) and a.t is b.t:
            return a
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.q == b.q:
            return a
        if isinstance(a, Ref) and isinstance(b, (Arr, Seq)) or isinstance(b, Ref) and isinstance(a, (Arr, Seq)):
            ca = (ha or self.st.heap).get(a.id) if isinstance(a, Ref) else None
            cb = (hb or self.st.heap).get(b.id) if isinstance(b, Ref) else None
            x = ca.v if isinstance(ca, ArrC) else a
            y = cb.v if isinstance(cb, ArrC) else b
            if isinstance(x, (Arr, Seq)) and isinstance(y, (Arr, Seq)) and (x is not a or y is not b):
                return self.merge_val(c, x, y, ha, hb)
        return IteV(c, a, b)

    def rel(self, pc, base):
        """pc relative to an implied base condition."""
        f = Facts().with_cond(base)
        for a, v in f.assign.items():
            pc = c_restrict(pc, a, v)
        return f.simplify(pc)

    def merge_many(self, pairs, base):
        """[(State, value)] with disjoint pcs -> (State, value)"""
        pairs = [p for p in pairs if p[0] is not None]
        if not pairs:
            return None, None
        st, val = pairs[-1]
        for s, v in reversed(pairs[:-1]):
            c = self.rel(s.pc, base)
            if c is TRUE or c is FALSE:
                # overlapping or undetermined: fall back on the raw condition
                c = s.pc if s.pc is not base else c
            save = self.st
            m = self.merge_states(c, s, st)
            self.st = m
            if val is None and v is None:
                nv = None
            else:
                nv = self.merge_val(c, v if v is not None else NONE, val if val is not None else NONE, s.heap, st.heap)
            self.st = save
            st, val = m, nv
        return st, val

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """Execute from self.st; returns Flow.  self.st is undefined afterwards."""
        flow = Flow(None)
        for idx, s in enumerate(stmts):
            f = self.exec_stmt(s)
            flow.rets += f.rets
            flow.conts += f.conts
            flow.brks += f.brks
            if f.normal is None:
                return flow
            self.st = f.normal
        flow.normal = self.st
        return flow

    def exec_stmt(self, s):
        self.loc = (self.loc[0], getattr(s, 'lineno', self.loc[1]), self.loc[2])
        self.exec_count += 1
        tick()
        m = getattr(self, 'x_' + type(s).__name__, None)
        flow = Flow(None)
        try:
            if m is None:
                self.note('unsupported statement %s at %s:%s' % (type(s).__name__, self.loc[0], self.loc[1]))
                self.havoc_stmt(s)
                flow.normal = self.st
                return flow
            r = m(s)
            if isinstance(r, Flow):
                return r
            flow.normal = self.st
            return flow
        except AbsRaise:
            return flow
        except (RecursionError, Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
            # the analysis gives up on this statement: everything it assigns becomes unknown
            if os.environ.get('KV_DEBUG'):
                raise
            self.note('gave up on %s at %s:%s (%s: %s)' % (type(s).__name__, self.loc[0], self.loc[1], type(e).__name__, e))
            self.havoc_stmt(s)
            flow.normal = self.st
            return flow

    def havoc_stmt(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(n.id, self.opaque('havoc:%s' % n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    o = self.eval(n.value)
                    if isinstance(o, Ref) and isinstance(self.content(o), ObjC):
                        self.set_attr(o, n.attr, self.opaque('havoc:%s' % n.attr))
                except Exception:
                    pass
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                try:
                    self.assign_name(n.value.id, self.opaque('havoc:%s' % n.value.id))
                except Exception:
                    pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value)
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            nm = a.name
            if nm.split('.')[0] == self.package:
                self.load_module(nm)
                v = self.pkg_value(nm if a.asname else nm.split('.')[0])
            else:
                v = ExtV(nm if a.asname else nm.split('.')[0])
            self.assign_name(a.asname or nm.split('.')[0], v)

    def pkg_value(self, nm):
        return ExtV(nm)

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            cur = self.module_of_frame(self.frames[-1])
            parts = cur.split('.')
            base = parts[:len(parts) - s.level]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                if mod.split('.')[0] == self.package:
                    fid = self.load_module(mod)
                    for k, v in self.st.heap[fid].vars.items():
                        if not k.startswith('_'):
                            self.assign_name(k, v)
                else:
                    self.note('star import from %s' % mod)
                continue
            v = None
            if mod.split('.')[0] == self.package or mod in self.modules:
                try:
                    fid = self.load_module(mod)
                    v = self.st.heap[fid].vars.get(a.name)
                except FileNotFoundError:
                    pass
                if v is None:
                    try:
                        self.load_module(mod + '.' + a.name)
                        v = ExtV(mod + '.' + a.name)
                    except FileNotFoundError:
                        v = ExtV(mod + '.' + a.name)
            else:
                v = self.lib.ext_attr(self, mod, a.name)
            self.assign_name(a.asname or a.name, v)

    def x_Global(self, s):
        f = self.st.heap[self.frames[-1]]
        self.st.heap[self.frames[-1]] = FrameC(f.vars, f.parent, f.globals_ | set(s.names))

    def x_Nonlocal(self, s):
        f = self.st.heap[self.frames[-1]]
        self.st.heap[self.frames[-1]] = FrameC(f.vars, f.parent, f.globals_ | {('nonlocal', n) for n in s.names})

    def x_FunctionDef(self, s):
        v = self.make_func(s)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v)
        self.assign_name(s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, name=None):
        f = FuncV()
        f.node = s
        f.module = self.module_of_frame(self.frames[-1])
        f.env = self.frames[-1]
        f.name = name or s.name
        f.cls = None
        f.kind = 'function'
        a = s.args
        f.defaults = []
        for d in a.defaults:
            v = self.eval(d)
            self.mark_default(v, f.name)
            f.defaults.append(v)
        f.kwdefaults = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.eval(d)
                self.mark_default(v, f.name)
                f.kwdefaults[k.arg] = v
        f.qual = self.qual_prefix() + '.' + f.name
        f.isgen = False
        if not isinstance(s, ast.Lambda):
            for n in _walk_own(s):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    f.isgen = True
        return f

    def qual_prefix(self):
        fr = self.st.heap[self.frames[-1]]
        q = fr.vars.get('__qual__')
        if q is not None:
            return q.s
        return self.module_of_frame(self.frames[-1])

    def mark_default(self, v, fname):
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                self.st.heap[v.id] = ListC(c.segs, c.prov | {'default:' + fname}, c.kind)
            elif isinstance(c, DictC):
                self.st.heap[v.id] = DictC(c.d, c.prov | {'default:' + fname})

    def apply_decorator(self, d, v):
        nm = ast.unparse(d)
        if nm in ('staticmethod', 'classmethod', 'property'):
            v.kind = nm
            return v
        if nm.split('.')[-1] in ('setter', 'abstractmethod', 'wraps', 'overload'):
            if nm.endswith('.setter'):
                v.kind = 'setter'
            return v
        if nm in ('functools.cached_property', 'cached_property'):
            v.kind = 'property'
            self.event('cache', v.qual)
            return v
        if nm.split('(')[0].split('.')[-1] in ('lru_cache', 'cache'):
            self.event('cache', v.qual)
            return v
        try:
            dv = self.eval(d)
            return self.call(dv, [v], {})
        except AbsRaise:
            return self.opaque('decorator:' + nm)

    def x_ClassDef(self, s):
        c = ClsV()
        c.name = s.name
        c.bases = [self.eval(b) for b in s.bases]
        c.module = self.module_of_frame(self.frames[-1])
        c.node = s
        fid = self.alloc_raw(FrameC({'__qual__': Str(c.module + '.' + s.name)}, self.frames[-1]))
        self.frames.append(fid)
        fl = self.exec_block(s.body)
        if fl.normal is not None:
            self.st = fl.normal
        self.frames.pop()
        ns = self.st.heap[fid].vars
        c.ns = {k: v for k, v in ns.items() if k != '__qual__'}
        for k, v in c.ns.items():
            if isinstance(v, FuncV) and v.cls is None:
                v.cls = c
                v.env = self.frames[-1]
        self.assign_name(s.name, c)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        f = Flow(None)
        f.rets.append((self.st, v))
        return f

    def x_Continue(self, s):
        f = Flow(None)
        f.conts.append(self.st)
        return f

    def x_Break(self, s):
        f = Flow(None)
        f.brks.append(self.st)
        return f

    def x_Raise(self, s):
        cls = 'Exception'
        val = None
        if s.exc is None:
            cls = getattr(self, 'handling', None) or 'Exception'
        else:
            e = s.exc
            v = None
            if isinstance(e, ast.Call):
                cls = ast.unparse(e.func)
                for a in e.args:
                    try:
                        self.eval(a)
                    except AbsRaise:
                        raise
                    except Exception:
                        pass
            else:
                cls = ast.unparse(e)
                if isinstance(e, ast.Name):
                    try:
                        vv = self.lookup(e.id)
                        if isinstance(vv, XObj) and vv.kind == 'exc':
                            cls = vv.f['cls']
                    except AbsRaise:
                        pass
            # an exception class bound to a name
            try:
                fv = self.eval(e.func if isinstance(e, ast.Call) else e)
                if isinstance(fv, ExtV):
                    cls = fv.q.split('.')[-1]
                elif isinstance(fv, ClsV):
                    cls = fv.name
                    for b in fv.bases:
                        if isinstance(b, ExtV):
                            EXC_PARENTS.setdefault(cls, []).append(b.q.split('.')[-1])
                elif isinstance(fv, XObj) and fv.kind == 'exc':
                    cls = fv.f['cls']
                elif isinstance(fv, FuncV) and isinstance(e, ast.Call):
                    rv = self.call(fv, [self.eval(a) for a in e.args], {k.arg: self.eval(k.value) for k in e.keywords if k.arg})
                    if isinstance(rv, XObj) and rv.kind == 'exc':
                        cls = rv.f['cls']
            except AbsRaise:
                raise
            except Exception:
                pass
        self.raise_exc(cls, val)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        c = self.st.facts().simplify(c)
        if c is TRUE:
            return
        bad = self.st.copy()
        bad.pc = c_and(self.st.pc, c_not(c))
        self.exc_sink.append(Exc(bad, 'AssertionError', self.loc))
        self.st.pc = c_and(self.st.pc, c)
        if c is FALSE:
            raise AbsRaise()

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.assign_name(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                if isinstance(o, Ref) and isinstance(self.content(o), DictC):
                    k = self.dict_key(self.eval(t.slice))
                    c = self.content(o)
                    self.mutate_check(c.prov, 'del')
                    d = dict(c.d)
                    d.pop(k, None)
                    self.st.heap[o.id] = DictC(d, c.prov)
                else:
                    self.call(MethV(o, '__delitem__'), [self.eval(t.slice)], {})
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref) and isinstance(self.content(o), ObjC):
                    c = self.content(o)
                    d = dict(c.attrs)
                    d.pop(t.attr, None)
                    self.st.heap[o.id] = ObjC(c.cls, d, c.prov)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.inplace(op, cur, self.eval(s.value))
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.get_attr(o, t.attr)
            v = self.inplace(op, cur, self.eval(s.value))
            self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            if self.masked_inplace(op, o, k, s.value):
                return
            cur = self.get_item(o, k)
            v = self.binop(op, cur, self.eval(s.value)) if not isinstance(cur, Ref) else self.inplace(op, cur, self.eval(s.value))
            self.set_item(o, k, v)
        else:
            raise Unsupported('augassign')

    def masked_inplace(self, op, o, k, expr):
        """a[mask] op= scalar"""
        a, m = self.arrval(o) if isinstance(o, Ref) else None, self.arrval(k) if isinstance(k, (Ref, Arr)) else None
        if not isinstance(a, Arr) or not isinstance(m, Arr) or m.dtype != 'bool' or not 0 < m.ndim <= a.ndim:
            return False
        val = self.eval(expr)
        if not isinstance(val, Num):
            v = self.binop(op, self.get_item(o, k), val)
            self.set_item(o, k, v)
            return True
        new = self.arrval(self.binop(op, o, val))
        if not isinstance(new, Arr):
            return False
        self.write_array(o, Arr(a.shape, lambda *J: ite(m.fn(*J[:m.ndim]), new.fn(*J), a.fn(*J)), new.dtype))
        return True

    def inplace(self, op, cur, val):
        if isinstance(cur, IteV) and any(isinstance(x, (Ref, IteV)) for x in (cur.a, cur.b)):
            return self.split(cur.c, lambda: self.inplace(op, cur.a, val), lambda: self.inplace(op, cur.b, val))
        if isinstance(cur, Ref):
            c = self.content(cur)
            if isinstance(c, ArrC):
                old = c.v
                new = self.arrval(self.binop(op, cur, val))
                if isinstance(old, Arr) and isinstance(new, Arr) and old.dtype == 'int' and new.dtype == 'float' and \
                        not is_int(new.fn(*[fresh('q', ub=x) for x in new.shape])):
                    self.raise_exc('TypeError', Str('numpy: the result of an in-place %s cannot be stored in an integer array' % op))
                self.write_array(cur, new)
                return cur
            if isinstance(c, ListC) and op == 'Add':
                self.mutate_check(c.prov, 'list +=')
                segs = c.segs + self.lib.segs_of(self, val)
                self.st.heap[cur.id] = ListC(segs, c.prov, c.kind)
                return cur
            if isinstance(c, DictC) and op == 'BitOr':
                return self.call(MethV(cur, 'update'), [val], {}) and cur
        if isinstance(cur, (Arr, Seq)) and cur.prov:
            self.mutate_check(cur.prov, 'in-place %s' % op)
        return self.binop(op, cur, val)

    def mutate_check(self, prov, what):
        if prov:
            self.event('mutate', (tuple(sorted(prov)), what))

    def write_array(self, ref, new):
        """Overwrite the contents of the array cell (and the storage it is a view of)."""
        c = self.content(ref)
        old = c.v
        prov = getattr(old, 'prov', frozenset())
        self.mutate_check(prov, 'in-place array write')
        if isinstance(new, Arr):
            new = Arr(new.shape, new.fn, new.dtype if isinstance(old, Seq) else getattr(old, 'dtype', new.dtype), prov)
        self.st.heap[ref.id] = ArrC(new, c.base)
        if c.base is not None:
            for bref, writer in (c.base if isinstance(c.base, list) else [c.base]):
                if bref.id in self.st.heap:
                    bc = self.content(bref)
                    nb = writer(bc.v, new)
                    self.write_array(bref, nb)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack(v, None)
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, self.new_list(items[k:len(items) - after]))
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
            else:
                items = self.unpack(v, len(t.elts))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n):
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        it = self.lib.chunks(self, v)
        if all(ch[0] == 'item' and ch[1] is TRUE for ch in it):
            items = [ch[2] for ch in it]
            if n is not None and len(items) != n:
                self.raise_exc('ValueError')
            return items
        if n is None:
            raise Unsupported('star unpack of symbolic sequence')
        return [self.get_item(v, Num(k, 'int')) for k in range(n)]

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, then, els):
        base = self.st
        c = base.facts().simplify(c)
        if c is TRUE:
            return then()
        if c is FALSE:
            return els()
        s1 = base.copy()
        s1.pc = c_and(base.pc, c)
        s2 = base.copy()
        s2.pc = c_and(base.pc, c_not(c))
        loc = self.loc
        self.st = s1
        f1 = then()
        self.loc = loc
        self.st = s2
        f2 = els()
        out = Flow(None)
        out.rets = f1.rets + f2.rets
        out.conts = f1.conts + f2.conts
        out.brks = f1.brks + f2.brks
        if f1.normal is None:
            out.normal = f2.normal
        elif f2.normal is None:
            out.normal = f1.normal
        else:
            out.normal = self.merge_states(c, f1.normal, f2.normal)
        return out

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            ev = v
            try:
                if isinstance(v, Ref) and isinstance(self.content(v), ObjC):
                    ev = self.call(self.get_attr(v, '__enter__'), [], {})
            except AbsRaise:
                ev = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ev)
        return self.exec_block(s.body)

    def x_Try(self, s):
        outer = self.exc_sink
        self.exc_sink = []
        base = self.st
        f = self.exec_block(s.body)
        mine = self.exc_sink
        self.exc_sink = outer
        out = Flow(None)
        out.rets, out.conts, out.brks = f.rets, f.conts, f.brks
        normals = []
        if f.normal is not None:
            if s.orelse:
                self.st = f.normal
                g = self.exec_block(s.orelse)
                out.rets += g.rets
                out.conts += g.conts
                out.brks += g.brks
                if g.normal is not None:
                    normals.append((g.normal, None))
            else:
                normals.append((f.normal, None))
        for e in mine:
            handled = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['BaseException']
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x).split('.')[-1] for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                if any(exc_isa(e.cls, n) for n in names):
                    self.st = e.state
                    old = getattr(self, 'handling', None)
                    self.handling = e.cls
                    if h.name:
                        self.assign_name(h.name, XObj('exc', cls=e.cls))
                    g = self.exec_block(h.body)
                    self.handling = old
                    out.rets += g.rets
                    out.conts += g.conts
                    out.brks += g.brks
                    if g.normal is not None:
                        normals.append((g.normal, None))
                    handled = True
                    break
            if not handled:
                self.exc_sink.append(e)
        st, _ = self.merge_many(normals, base.pc)
        out.normal = st
        if s.finalbody:
            if st is not None:
                self.st = st
                g = self.exec_block(s.finalbody)
                out.normal = g.normal
                out.rets += g.rets
        # possible implicit failures of the body that a handler would convert
        self.record_guarded_try(s, base)
        return out

    def record_guarded_try(self, s, base):
        for h in s.handlers:
            for n in h.body:
                if isinstance(n, ast.Raise) and n.exc is not None:
                    cls = ast.unparse(n.exc.func if isinstance(n.exc, ast.Call) else n.exc)
                    self.events.append(Event('try-raise', base.pc, self.loc, (cls, [ast.unparse(x)[:80] for x in s.body])))

    def x_While(self, s):
        # conditional constant propagation: a loop whose condition is false is skipped
        save, ev0, nx = self.st.copy(), len(self.events), len(self.exc_sink)
        c = self.st.facts().simplify(self.truth(self.eval(s.test)))
        if c is FALSE:
            return self.exec_block(s.orelse)
        self.st = save.copy()
        del self.events[ev0:]
        try:
            size = sym('rounds~%d' % self.next_id[0], True, 0)
            self.next_id[0] += 1
            base_pc = self.st.pc
            f = self.sym_loop(None, size, None, s.body, test=s.test)
            out = Flow(None)
            out.rets = f.rets
            if f.normal is not None:
                self.st = f.normal
                if s.orelse:
                    g = self.exec_block(s.orelse)
                    out.rets += g.rets
                    out.conts += g.conts
                    out.brks += g.brks
                    f.normal = g.normal
            out.normal, _ = self.merge_many([(x, None) for x in f.brks + ([f.normal] if f.normal is not None else [])], base_pc)
            return out
        except (Unsupported, AttributeError, TypeError, KeyError) as e:
            if os.environ.get('KV_TRACE'):
                print('while loop not summarised:', type(e).__name__, e)
            self.st = save
            del self.events[ev0:]
            del self.exc_sink[nx:]
            self.eval(s.test)
        base = self.st.copy()
        self.event('while-unresolved', (ast.unparse(s.test),))
        outer = self.exc_sink
        # havoc everything the body may change, analyse the body once for its effects
        body_state = base.copy()
        self.st = body_state
        body_state.pc = c_and(base.pc, c) if c is not TRUE else base.pc
        ev0 = len(self.events)
        f = self.exec_block(s.body)
        ends = [x for x in [f.normal] + f.conts + f.brks if x is not None]
        changed = set()
        for e in ends:
            changed |= self.diff_locs(base, e)
        self.st = base
        for loc in changed:
            self.set_loc(loc, self.opaque('while', *[]))
            if loc[0] == 'cell':
                self.st.heap[loc[1]] = self.havoc_cell(base.heap[loc[1]])
        if f.rets:
            rets = [(st, self.opaque('while-return')) for st, v in f.rets]
            out = Flow(self.st)
            out.rets = rets
            return out
        return None

    def havoc_cell(self, c):
        t = mk('sym', '?while%d' % self.next_id[0])
        self.next_id[0] += 1
        if isinstance(c, ListC):
            return ListC([Seg(fn('?len', t), lambda k: [Item(TV(mk('fn', '?item', t, P(k))))])], c.prov, c.kind)
        if isinstance(c, ArrC):
            return ArrC(Arr([fn('?len', t)], lambda k: el(mk('head', '?while', t), k)))
        if isinstance(c, RngC):
            return RngC(fn('?while', c.p, t))
        return c

    # ------------------------------------------------------------ for loops
    def x_For(self, s):
        it = self.eval(s.iter)
        return self.run_loop(s.target, it, s.body, s.orelse)

    def run_loop(self, target, it, body, orelse=()):
        if isinstance(it, IteV):
            return self.branch(it.c, lambda: self.run_loop(target, it.a, body, orelse), lambda: self.run_loop(target, it.b, body, orelse))
        chunks = []
        for ch in self.lib.chunks(self, it):
            n = self.lib.cint(ch[1]) if ch[0] == 'seg' else None
            if n is not None and n <= 16:
                chunks += [('item', (lambda f=ch[2], k=k: f(const(k))), None) for k in range(n)]
            else:
                chunks.append(ch)
        out = Flow(None)
        base_pc = self.st.pc
        broken = []
        for ch in chunks:
            if ch[0] == 'item':
                _, guard, val = ch
                if not isinstance(guard, Node):
                    guard, val = guard()      # items of a trajectory are produced one by one

                def one():
                    self.assign(target, val)
                    return self.exec_block(body)
                try:
                    f = self.branch(guard, one, lambda: Flow(self.st))
                except AbsRaise:
                    return out
                out.rets += f.rets
                broken += [(b, None) for b in f.brks]
                st, _ = self.merge_many([(x, None) for x in ([f.normal] if f.normal is not None else []) + f.conts], base_pc)
                if st is None:
                    break
                self.st = st
            else:
                _, size, fnk = ch
                f = self.sym_loop(target, size, fnk, body)
                out.rets += f.rets
                broken += [(b, None) for b in f.brks]
                if f.normal is None:
                    st = None
                    break
                self.st = f.normal
        else:
            if orelse:
                f = self.exec_block(orelse)
                out.rets += f.rets
                out.conts += f.conts
                out.brks += f.brks
                self.st = f.normal
            st, _ = self.merge_many(broken + ([(self.st, None)] if self.st is not None else []), base_pc)
            out.normal = st
            return out
        st, _ = self.merge_many(broken, base_pc)
        out.normal = st
        return out

    def diff_locs(self, a, b):
        """Locations of heap a whose content differs in b."""
        out = set()
        for i, ca in a.heap.items():
            cb = b.heap.get(i)
            if cb is ca or cb is None:
                continue
            if isinstance(ca, FrameC):
                for k in ca.vars.keys() | cb.vars.keys():
                    if ca.vars.get(k, UNDEF) is not cb.vars.get(k, UNDEF):
                        if not self.quick_same(ca.vars.get(k, UNDEF), cb.vars.get(k, UNDEF)):
                            out.add(('var', i, k))
            elif isinstance(ca, ObjC):
                for k in ca.attrs.keys() | cb.attrs.keys():
                    if ca.attrs.get(k, UNDEF) is not cb.attrs.get(k, UNDEF):
                        if not self.quick_same(ca.attrs.get(k, UNDEF), cb.attrs.get(k, UNDEF)):
                            out.add(('attr', i, k))
            elif isinstance(ca, DictC):
                for k in ca.d.keys() | cb.d.keys():
                    if ca.d.get(k, UNDEF) is not cb.d.get(k, UNDEF):
                        if not self.quick_same(ca.d.get(k, UNDEF), cb.d.get(k, UNDEF)):
                            out.add(('key', i, k))
            else:
                out.add(('cell', i, None))
        return out

    def quick_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Num) and isinstance(b, Num):
            return a.p == b.p
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.c is b.c
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.q == b.q
        return False

    def get_loc(self, st, loc):
        kind, i, k = loc
        c = st.heap[i]
        if kind == 'var':
            return c.vars.get(k, UNDEF)
        if kind == 'attr':
            return c.attrs.get(k, UNDEF)
        if kind == 'key':
            return c.d.get(k, UNDEF)
        return c

    def set_loc(self, loc, v):
        kind, i, k = loc
        c = self.st.heap[i]
        if kind == 'var':
            nv = dict(c.vars)
            nv[k] = v
            self.st.heap[i] = FrameC(nv, c.parent, c.globals_)
        elif kind == 'attr':
            nv = dict(c.attrs)
            nv[k] = v
            self.st.heap[i] = ObjC(c.cls, nv, c.prov)
        elif kind == 'key':
            nv = dict(c.d)
            nv[k] = v
            self.st.heap[i] = DictC(nv, c.prov)
        else:
            if isinstance(v, TV):
                return
            self.st.heap[i] = v

    def peel(self, pre, target, size, elem, body):
        """The loop as its first iteration followed by the others (whose carried values are then of one kind)."""
        def rest():
            guard, val = elem(ZERO)
            base_pc = self.st.pc

            def one():
                self.assign(target, val)
                return self.exec_block(body)
            out = Flow(None)
            try:
                f = self.branch(guard, one, lambda: Flow(self.st))
            except AbsRaise:
                return out
            out.rets += f.rets
            out.brks += f.brks
            st, _ = self.merge_many([(x, None) for x in ([f.normal] if f.normal is not None else []) + f.conts], base_pc)
            if st is None:
                return out
            self.st = st
            f = self.sym_loop(target, P(size) - 1, lambda k: elem(P(k) + 1), body, peeled=True)
            out.rets += f.rets
            out.brks += f.brks
            out.normal = f.normal
            return out
        self.st = pre.copy()
        return self.branch(c_lt0(-P(size)), rest, lambda: Flow(self.st))

    def sym_loop(self, target, size, elem, body, test=None, peeled=False):
        """Summarise a loop of `size` iterations; with `test` (a while loop) size is a placeholder for the number of completed rounds."""
        pre = self.st
        tagbase = 'L%d' % self.next_id[0]
        self.next_id[0] += 1
        markers = {}   # loc -> (tag, kind)
        ev0 = len(self.events)
        sink = self.exc_sink
        sink_start = list(sink)
        end = start = i = flow = None
        lastend = None
        for attempt in range(7):
            del self.events[ev0:]
            self.exc_sink = []
            st = pre.copy()
            self.st = st
            i = fresh('i', ub=size if test is None else None)
            for loc, (tag, mkd) in markers.items():
                mv = self.make_marker(loc, tag, mkd)
                if loc[0] == 'cell':
                    st.heap[loc[1]] = mv
                else:
                    self.set_loc(loc, mv)
            start = self.st.copy()
            going = TRUE
            if test is None:
                guard, val = elem(i)

                def one():
                    self.assign(target, val)
                    return self.exec_block(body)
            else:
                guard = TRUE
                going = self.truth(self.eval(test))
                if not isinstance(going, Node):
                    raise Unsupported('while condition')
                self.st.pc = c_and(self.st.pc, going)

                def one():
                    return self.exec_block(body)
            base_pc = c_and(pre.pc, going)
            try:
                flow = self.branch(guard, one, lambda: Flow(self.st))
            except AbsRaise:
                flow = Flow(None)
            normals = ([flow.normal] if flow.normal is not None else []) + flow.conts
            end, _ = self.merge_many([(x, None) for x in normals], base_pc)
            if end is None:
                break
            ch = self.diff_locs(start, end)
            new = [l for l in ch if l not in markers]
            lastend = end
            if not new:
                break
            for l in sorted(new, key=str):
                tag = '%s.%s' % (tagbase, len(markers))
                markers[l] = (tag, self.marker_kind(pre, end, l))
                if test is None and not peeled and l[0] != 'cell' and self.get_loc(pre, l) is NONE:
                    del self.events[ev0:]
                    self.exc_sink = sink
                    return self.peel(pre, target, size, elem, body)
        loop_excs = self.exc_sink
        self.exc_sink = sink
        ia = i.single_atom()
        # exceptions in the body: exists an iteration
        for e in loop_excs:
            c = self.rel(e.state.pc, pre.pc)
            ex = self.exists(ia, size, c)
            s2 = e.state
            s2.pc = c_and(pre.pc, ex)
            self.exc_sink.append(Exc(s2, e.cls, e.loc, e.val))
        out = Flow(None)
        if end is None:
            if flow is not None and (flow.rets or flow.brks):
                # body always leaves: only the first iteration runs
                first = {ia: ZERO}
                self.st = pre
                self.note('loop body always exits')
                out.rets = [(self.subst_state(s, first, pre), self.map_terms(self.freeze(v, s), lambda t: subst(t, first))) for s, v in flow.rets]
                out.brks = [self.subst_state(s, first, pre) for s in flow.brks]
            return out
        notes0, sink0, pend0 = list(self.notes), list(self.exc_sink), self.unresolved
        fin, closing = self.resolve_loop(pre, end, markers, ia, size)
        if self.unresolved != pend0 and test is None and not peeled:
            # a value that only settles after the first iteration: look at the rest of the loop separately
            ev1, notes1, pend1 = self.events[ev0:], list(self.notes), self.unresolved
            sink1 = list(self.exc_sink)
            del self.events[ev0:]
            self.notes[:] = notes0
            self.exc_sink[:] = sink_start
            try:
                f = self.peel(pre, target, size, elem, body)
            except Unsupported:
                f = None
            if f is not None and self.unresolved == pend1:
                self.unresolved = pend0
                return f
            self.st = pre
            self.events[ev0:] = ev1
            self.notes[:] = notes1
            self.exc_sink[:] = sink1
            self.unresolved = pend1
        stops = [(s, v, 'ret') for s, v in flow.rets] + [(s, None, 'brk') for s in flow.brks]
        stop_c = FALSE
        for s, v, k in stops:
            stop_c = c_or(stop_c, self.rel(s.pc, base_pc))
        if stops or test is not None:
            stop_c = closing(BoolV(stop_c)).c
        if test is not None:
            going = closing(BoolV(going)).c
            if self.carries(BoolV(c_and(going, stop_c)), tagbase + '.'):
                raise Unsupported('while condition depends on unresolved values')
            rounds = mk_fn('exit_round', mk_arrT([ia], c_or(c_not(going), stop_c)))
            mpw = {size.single_atom(): rounds}
            self.event('while', (going, rounds, self.loc))
            fin = {loc: (RngC(subst(v.p, mpw)) if isinstance(v, RngC) else self.subst_cell(v, mpw)) if loc[0] == 'cell' else self.map_terms(v, lambda t: subst(t, mpw)) for loc, v in fin.items()}
        post = pre.copy()
        self.st = post
        for loc, v in fin.items():
            if loc[0] == 'cell':
                post.heap[loc[1]] = v
            else:
                self.set_loc(loc, self.thaw(v))
        post = self.st
        # early exits
        if test is not None:
            mp = {ia: rounds}
            ex = subst(c_and(going, stop_c), mp)
            if stop_c is FALSE:
                ex = FALSE
        elif stops:
            f_idx = self.first_true(ia, size, stop_c)
            ex = self.exists(ia, size, stop_c)
            mp = {ia: f_idx}
        if stops:
            for s, v, k in stops:
                s2 = pre.copy()
                s2.pc = c_and(pre.pc, ex, subst(closing(BoolV(self.rel(s.pc, base_pc))).c, mp) if len(stops) > 1 else TRUE)
                # state changes visible at the exit
                self.st = s2
                for loc in self.diff_locs(pre, s):
                    self.st = s
                    try:
                        fv = closing(self.freeze(self.get_loc(s, loc), s) if loc[0] != 'cell' else self.freeze_content(s.heap[loc[1]], s))
                    except Exception:
                        fv = None
                    self.st = s2
                    if fv is None or not isinstance(fv, V) or self.carries(fv, tagbase + '.'):
                        if loc[0] == 'cell':
                            s2.heap[loc[1]] = self.havoc_cell(pre.heap[loc[1]])
                        else:
                            self.set_loc(loc, self.opaque('break-carry'))
                    elif loc[0] == 'cell':
                        fv = self.map_terms(fv, lambda t: subst(t, mp))
                        s2.heap[loc[1]] = self.as_cell(fv, pre.heap[loc[1]])
                    else:
                        self.set_loc(loc, self.thaw(self.map_terms(fv, lambda t: subst(t, mp))))
                    s2 = self.st
                if k == 'ret':
                    self.st = s
                    fv = closing(self.freeze(v, s))
                    self.st = s2
                    fv = self.opaque('return-carry') if self.carries(fv, tagbase + '.') else self.thaw(self.map_terms(fv, lambda t: subst(t, mp)))
                    out.rets.append((self.st, fv))
                else:
                    out.brks.append(self.st)
            post.pc = c_and(pre.pc, c_not(ex))
        out.normal = post
        return out

    def subst_state(self, s, mp, pre):
        save = self.st
        s2 = pre.copy()
        s2.pc = subst(s.pc, mp)
        self.st = s2
        for loc in self.diff_locs(pre, s):
            if loc[0] == 'cell':
                fc = self.map_content(self.freeze_content(s.heap[loc[1]], s), lambda t: subst(t, mp))
                s2.heap[loc[1]] = RngC(fc.p) if isinstance(s.heap[loc[1]], RngC) else self.thaw_content(fc)
            else:
                self.set_loc(loc, self.thaw(self.map_terms(self.freeze(self.get_loc(s, loc), s), lambda t: subst(t, mp))))
        r = self.st
        self.st = save
        return r

    def exists(self, ia, size, c):
        if ia not in free(c):
            return c_and(c_lt0(-P(size)), c)
        sz = P(size)
        k = sz.cval()
        if k is not None and k <= 8:
            r = FALSE
            for j in range(int(k)):
                r = c_or(r, subst(c, {ia: const(j)}))
            return r
        c = Facts().simplify(c)
        if ia not in free(c):
            return c_and(c_lt0(-P(size)), c)
        # split off conjuncts/disjuncts not depending on ia is left to the comparison
        return mk_b('any', mk_arrT([ia], c, sz))

    def first_true(self, ia, size, c):
        return fn('first_true', mk_arrT([ia], c, P(size)))

    def marker_kind(self, pre, end, loc):
        v = self.get_loc(pre, loc)
        e = self.get_loc(end, loc)
        if loc[0] == 'cell':
            if isinstance(v, ListC):
                return 'list'
            if isinstance(v, ArrC):
                if isinstance(v.v, Arr) and isinstance(e.v, Arr) and v.v.ndim == e.v.ndim:
                    return ('arr', v.v.shape, v.v.dtype, v.v.prov)
                return 'seqarr'
            if isinstance(v, RngC):
                return 'rng'
            return 'other'
        if v is UNDEF:
            return 'undef'
        if isinstance(v, Num):
            return ('num', v.kind if isinstance(e, Num) and e.kind == v.kind else None)
        if isinstance(v, BoolV):
            return 'bool'
        if isinstance(v, Ref):
            c = pre.heap.get(v.id)
            ce = end.heap.get(e.id) if isinstance(e, Ref) else None
            if isinstance(c, ArrC):
                if isinstance(c.v, Arr) and isinstance(ce, ArrC) and isinstance(ce.v, Arr) and ce.v.ndim == c.v.ndim and tuple(ce.v.shape) == tuple(c.v.shape):
                    return ('refarr', c.v.shape, c.v.dtype, frozenset())
                return 'refseqarr'
            if isinstance(c, ListC):
                return 'reflist'
        return 'other'

    def make_marker(self, loc, tag, k):
        nm = 'carry:' + tag
        if k == 'list':
            old = self.st.heap[loc[1]]
            return ListC([CarrySeg(tag)], old.prov, old.kind)
        if k == 'seqarr':
            return ArrC(Seq([CarrySeg(tag)], 'array'))
        if k == 'refseqarr':
            return self.new_arr(Seq([CarrySeg(tag)], 'array'))
        if k == 'reflist':
            return self.alloc(ListC([CarrySeg(tag)]))
        if k == 'rng':
            return RngC(sym(nm))
        if isinstance(k, tuple) and k[0] in ('arr', 'refarr'):
            h = mk('head', nm)
            if k[2] == 'bool':
                a = Arr(k[1], lambda *ix: c_b(nm, *ix), 'bool', k[3])
            else:
                a = Arr(k[1], lambda *ix: el(h, *ix), k[2], k[3])
            return ArrC(a, self.st.heap[loc[1]].base) if k[0] == 'arr' else self.new_arr(a)
        if isinstance(k, tuple) and k[0] == 'num':
            return Num(sym(nm, int_=(k[1] == 'int')), k[1])
        if k == 'bool':
            return BoolV(c_b(nm))
        return TV(mk('sym', nm))

    def carries(self, v, own=None):
        """Tags of the loop-carried values in v (only those of the loop that `own` belongs to, if given)."""
        if own is not None:
            own = own.split('.')[0]
            return {t for t in self.carries(v) if t.split('.')[0] == own}
        acc = set()
        t = self.term(v)

        seen = set()

        def scan(x):
            if isinstance(x, Poly):
                for m, _ in x.terms:
                    for a, _ in m:
                        scan(a)
            elif isinstance(x, tuple):
                for y in x:
                    scan(y)
            elif isinstance(x, Node):
                if x in seen:
                    return
                seen.add(x)
                if x.kind in ('sym', 'head', 'b', 'carryseg', 'fn') and isinstance(x.args[0], str):
                    if x.args[0].startswith('carry:'):
                        acc.add(x.args[0][6:])
                    elif x.kind == 'fn' and x.args[0] == 'carrylen':
                        acc.add(x.args[1].args[0][6:])
                for y in x.args:
                    scan(y)
        scan(t)
        return acc

    def resolve_loop(self, pre, end, markers, ia, size):
        save = self.st
        tag2loc = {tag: loc for loc, (tag, k) in markers.items()}
        pend = {}
        prev = {}
        for loc, (tag, k) in markers.items():
            if loc[0] == 'cell':
                ce = end.heap[loc[1]]
                self.st = end
                pend[loc] = self.freeze_content(ce, end)
                self.st = pre
                prev[loc] = self.freeze_content(pre.heap[loc[1]], pre)
            else:
                self.st = end
                pend[loc] = self.freeze(self.get_loc(end, loc), end)
                self.st = pre
                prev[loc] = self.freeze(self.get_loc(pre, loc), pre)
        self.st = save
        closed = {}   # tag -> python fn(k Poly) -> frozen value at start of iteration k
        lens = {}     # tag -> fn(k) -> Poly
        final = {}
        progress = True
        facts0 = Facts().with_cond(pre.pc)

        def apply_closed(v):
            tags = self.carries(v) & (set(closed) | set(lens))
            if not tags:
                return v

            def f(a):
                if a.kind == 'sym' and a.args[0].startswith('carry:') and a.args[0][6:] in closed:
                    cv = closed[a.args[0][6:]](atom(ia))
                    if isinstance(cv, Num):
                        return cv.p
                    return None
                if a.kind == 'el' and a.args[0].args[0].startswith('carry:') and a.args[0].args[0][6:] in closed:
                    cv = closed[a.args[0].args[0][6:]](atom(ia))
                    if isinstance(cv, Arr):
                        idx = rebuild(a.args[1], f, {})
                        return cv.fn(*idx)
                    if isinstance(cv, Seq) and len(a.args[1]) == 1:
                        try:
                            cv = self.lib.seq_to_arr(self, cv)
                            r = cv.fn(*rebuild(a.args[1], f, {})) if isinstance(cv, Arr) and cv.ndim == 1 else None
                        except Unsupported:
                            r = None
                        return r if isinstance(r, Poly) else None
                    return None
                if a.kind == 'b' and a.args[0].startswith('carry:') and a.args[0][6:] in closed:
                    cv = closed[a.args[0][6:]](atom(ia))
                    if isinstance(cv, BoolV):
                        return cv.c
                    if isinstance(cv, Arr):
                        return cv.fn(*rebuild(a.args[1:], f, {}))
                    return None
                if a.kind == 'fn' and a.args[0] == '?carryitem' and a.args[1].args[0][6:] in closed:
                    cv = closed[a.args[1].args[0][6:]](atom(ia))
                    try:
                        cv = self.lib.seq_to_arr(self, Seq(cv.segs, 'array')) if isinstance(cv, Seq) else cv
                        r = cv.fn(rebuild(a.args[2], f, {})) if isinstance(cv, Arr) and cv.ndim == 1 else None
                    except Unsupported:
                        r = None
                    return r if isinstance(r, Poly) else None
                if a.kind == 'fn' and a.args[0] == 'carrylen' and a.args[1].args[0][6:] in lens:
                    return lens[a.args[1].args[0][6:]](atom(ia))
                if a.kind == 'seq' and any(isinstance(y, Node) and y.kind == 'carryseg' and y.args[0][6:] in closed for y in a.args):
                    ys = []
                    for y in a.args:
                        if y.kind == 'carryseg' and y.args[0][6:] in closed:
                            cv = closed[y.args[0][6:]](atom(ia))
                            ys += [self.seg_term(z) for z in cv.segs] if isinstance(cv, Seq) else [y]
                        else:
                            ys.append(rebuild(y, f, {}))
                    return atom(mk('seq', *ys))
                return None

            def splice(x):
                if isinstance(x, Seq):
                    segs = []
                    for z in x.segs:
                        if isinstance(z, CarrySeg) and z.tag in closed and isinstance(closed[z.tag](atom(ia)), Seq):
                            segs += closed[z.tag](atom(ia)).segs
                        else:
                            segs.append(Item(splice(z.v), z.guard) if isinstance(z, Item) else z)
                    return Seq(segs, x.kind, x.prov)
                if isinstance(x, Tup):
                    return Tup([splice(y) for y in x.items], x.names)
                if isinstance(x, IteV):
                    return IteV(x.c, splice(x.a), splice(x.b))
                if isinstance(x, XObj):
                    return XObj(x.kind, x.prov, **{k: splice(y) if isinstance(y, V) else y for k, y in x.f.items()})
                return x

            def tvf(tv):
                t = tv.t
                if t.kind == 'sym' and t.args[0].startswith('carry:') and t.args[0][6:] in closed:
                    return closed[t.args[0][6:]](atom(ia))
                return None
            return self.map_terms(splice(v), lambda t: facts_i.simp(rebuild(t, f, {})) if not is_bool(t) else facts_i.simplify(rebuild(t, f, {})), tvf)
        facts_i = facts0
        while progress:
            progress = False
            for loc in sorted(pend, key=str):
                v = apply_closed(pend[loc])
                pend[loc] = v
                tag, k = markers[loc]
                p0 = prev[loc]
                deps = self.carries(v, tag)
                r = None
                if k == 'rng' and deps == {tag}:
                    step = mk_arrT([ia, mk('sym', 'carry:' + tag)], v.p)

                    def rcl(kk, step=step, base=p0.p):
                        return Num(mk_fn('rngiter', base, step, P(kk)))
                    r = (rcl, Num(mk_fn('rngiter', p0.p, step, P(size))))
                elif not deps:
                    def cl(kk, v=v, p0=p0):
                        kk = P(kk)
                        nxt = self.map_terms(v, lambda t: subst(t, {ia: kk - 1}))
                        return self.merge_val(c_eq0(kk), p0, nxt) if p0 is not UNDEF else nxt
                    lastv = self.map_terms(v, lambda t: subst(t, {ia: P(size) - 1}))
                    c = facts0.simplify(c_lt0(-P(size)))
                    if p0 is UNDEF:
                        fv = lastv if c is TRUE else IteV(c, lastv, UNDEF) if False else lastv
                    else:
                        fv = self.merge_val(c, lastv, p0)
                    r = (cl, fv)
                elif deps == {tag}:
                    r = self.match_acc(v, p0, tag, k, ia, size, facts0)
                elif k in ('list', 'seqarr', 'refseqarr', 'reflist') and isinstance(v, Seq) and v.segs and isinstance(v.segs[0], CarrySeg):
                    # length information is available even while other carries are pending
                    if tag not in lens:
                        ln = self.emission_len(v, p0, tag, ia, size)
                        if ln is not None:
                            lens[tag] = ln
                            progress = True
                if r is not None:
                    cl, fv = r
                    if isinstance(fv, tuple) and fv and fv[0] == 'len':
                        lens[tag] = fv[1]
                        fv = fv[2]
                    if cl is not None:
                        closed[tag] = cl
                    final[loc] = fv
                    del pend[loc]
                    progress = True
                    break
        for loc in pend:
            tag, k = markers[loc]
            if os.environ.get('KV_TRACE'):
                print('unresolved loop location', loc, k, pend[loc])
            self.unresolved += 1
            self.note('loop-carried %s not resolved at %s:%s' % (loc[2], self.loc[0], self.loc[1]))
            self.st = pre
            o = self.opaque('loop:%s' % (loc[2],), *[])
            o = TV(mk('fn', '?loop:%s' % (loc[2],), self.term(Num(size)), mk('sym', '?' + tag)))
            p0 = prev[loc]
            if isinstance(p0, Num):
                o = Num(atom(o.t), None)
            elif isinstance(p0, Arr):
                o = Arr(p0.shape, (lambda *ix, t=o.t: el(mk('head', '?loop', t), *ix)), p0.dtype)
            elif isinstance(p0, BoolV):
                o = BoolV(c_b('?loop', o.t))
            elif isinstance(p0, Seq):
                o = Seq([Seg(fn('?len', o.t), (lambda kk, t=o.t: [Item(TV(mk('fn', '?item', t, P(kk))))]))], p0.kind)
            final[loc] = o
        self.st = save
        out = {}
        for loc, v in final.items():
            out[loc] = self.as_cell(v, pre.heap[loc[1]]) if loc[0] == 'cell' else v
        return out, apply_closed

    def as_cell(self, v, c0):
        if isinstance(c0, ListC):
            return ListC(v.segs if isinstance(v, Seq) else [Seg(fn('?len'), lambda k: [Item(TV(mk('sym', '?')))])], c0.prov, c0.kind)
        if isinstance(c0, ArrC):
            if isinstance(v, Arr):
                v = Arr(v.shape, v.fn, c0.v.dtype if isinstance(c0.v, Arr) else v.dtype, getattr(c0.v, 'prov', frozenset()))
            return ArrC(v, c0.base)
        if isinstance(c0, RngC):
            return RngC(v.p if isinstance(v, Num) else P(v.t))
        return c0

    def subst_cell(self, c, mp):
        g = lambda t: subst(t, mp)
        if isinstance(c, ListC):
            return ListC(self.map_terms(Seq(c.segs), g).segs, c.prov, c.kind)
        if isinstance(c, ArrC):
            return ArrC(self.map_terms(c.v, g), c.base)
        return c

    def emission_len(self, v, p0, tag, ia, size):
        items = v.segs[1:]
        if any(not isinstance(s, (Item, Seg)) for s in items):
            return None
        cnt = ZERO
        for s in items:
            if isinstance(s, Item):
                g = s.guard
                t = ite(g, ONE, ZERO)
            else:
                t = self.lib.seg_len(s)
            cnt = cnt + t
        if self.carries(Num(cnt), tag):
            return None
        n0 = self.lib.seq_len(p0 if isinstance(p0, Seq) else self.lib.arr_to_seq(p0))

        def ln(k):
            return n0 + sum_over(k, lambda j: subst(cnt, {ia: j}))
        return ln

    def match_acc(self, v, p0, tag, kind, ia, size, facts0):
        """Recognise an accumulator.  Returns (closed form at iteration start | None, final value) or None."""
        nm = 'carry:' + tag
        if isinstance(v, Seq):
            if v.segs and isinstance(v.segs[0], CarrySeg) and v.segs[0].tag == tag:
                rest = v.segs[1:]
                if not any(isinstance(s, CarrySeg) for s in rest):
                    if not self.carries(Seq(rest), tag):
                        base = p0
                        if isinstance(base, Arr):
                            base = self.lib.arr_to_seq(base)
                        if not isinstance(base, Seq):
                            return None

                        def f(k, rest=rest):
                            k = P(k)
                            out = []
                            for s in rest:
                                if isinstance(s, Item):
                                    out.append(Item(self.map_terms(s.v, lambda t: subst(t, {ia: k})), subst(s.guard, {ia: k})))
                                else:
                                    out.append(('seg', self.map_seg(s, lambda t: subst(t, {ia: k}))))
                            return out
                        def upto(size):
                            if all(isinstance(s, Item) for s in rest):
                                seg = Seg(size, f)
                            elif len(rest) == 1 and isinstance(rest[0], Seg) and not isinstance(rest[0], NestedSeg) and ia not in free(rest[0].size):
                                m = rest[0].size   # rounds of m elements: one flat segment

                                def flat(k):
                                    k = P(k)
                                    sg = f(mk_fn('div', k, m))[0][1]
                                    return sg.fn(mk_fn('mod', k, m))
                                seg = Seg(P(size) * m, flat)
                            else:
                                seg = NestedSeg(size, f)
                            return Seq(list(base.segs) + [seg], base.kind if isinstance(p0, Seq) else 'array', v.prov)
                        fin = upto(size)
                        ln = self.emission_len(v, p0, tag, ia, size)
                        if ln is not None:
                            return (lambda k: upto(P(k))), ('len', ln, fin)
                        return (lambda k: upto(P(k))), fin
            return None
        if isinstance(v, IteV):
            return self.match_gated(v, p0, tag, ia, size, facts0)
        if isinstance(v, Num) and isinstance(p0, Num):
            cs = mk('sym', nm)
            r = self.match_scalar(v.p, atom(cs), p0.p, ia, size, facts0)
            if r is None:
                return None
            cl, fv = r
            return (lambda k: Num(cl(P(k)), v.kind)) if cl else None, Num(fv, v.kind)
        if isinstance(v, BoolV) and isinstance(p0, BoolV):
            a = mk('b', nm)
            hi, lo = c_restrict(v.c, a, True), c_restrict(v.c, a, False)
            if a in c_atoms(hi) or a in c_atoms(lo):
                return None
            if hi is TRUE:   # carry or lo
                return None, BoolV(c_or(p0.c, self.exists(ia, size, lo)))
            if lo is FALSE:  # carry and hi
                return None, BoolV(c_and(p0.c, c_not(self.exists(ia, size, c_not(hi)))))
            return None
        if isinstance(v, Arr) and isinstance(p0, Arr) and v.ndim == p0.ndim:
            h = mk('head', nm)
            J = [fresh('J', ub=s) for s in p0.shape]
            if v.dtype == 'bool':
                return None
            body = v.fn(*J)
            ce = el(h, *J)
            # the carry may only be read at J itself
            r = self.match_scalar(body, ce, p0.fn(*J), ia, size, facts0, J=[j.single_atom() for j in J])
            if r is None:
                return None
            cl, fv = r
            Ja = [j.single_atom() for j in J]

            def mkarr(p):
                return Arr(p0.shape, lambda *ix: subst(p, dict(zip(Ja, [P(x) for x in ix]))), v.dtype, p0.prov)
            return (lambda k: mkarr(cl(P(k)))) if cl else None, mkarr(fv)
        return None

    def match_gated(self, v, p0, tag, ia, size, facts0):
        """A gated overwrite `x = X if c else x` with c solvable for the iteration number."""
        leaves = []

        def walk(x, c):
            if isinstance(x, IteV):
                walk(x.a, c_and(c, x.c))
                walk(x.b, c_and(c, c_not(x.c)))
            elif c is not FALSE:
                leaves.append((c, x))
        walk(v, TRUE)

        def is_carry(x):
            return isinstance(x, TV) and x.t.kind == 'sym' and x.t.args[0] == 'carry:' + tag
        writes = [(c, x) for c, x in leaves if not is_carry(x)]
        if any(self.carries(x, tag) or self.carries(BoolV(c), tag) for c, x in writes):
            return None
        sols = []
        for c, x in writes:
            for c1, alts in self.cubes(facts0.simplify(c)):
                e = None
                for a, val in alts:
                    if a.kind == 'eq' and val:
                        e = solve_for(a.args[0], ia)
                    elif a.kind == 'lt' and val and a.args[0] == atom(ia) - 1:
                        e = ZERO
                    if e is not None:
                        break
                if e is None:
                    if ia in free(c1) or len(writes) != 1:
                        return None
                    e = P(size) - 1
                    sols.append((None, e, subst(c1, {ia: e}), self.map_terms(x, lambda t: subst(t, {ia: e})), x))
                else:
                    sols.append((e, e, subst(c1, {ia: e}), self.map_terms(x, lambda t: subst(t, {ia: e})), x))
        if len(sols) != 1:
            return None
        fixed, e, c1, x, x0 = sols[0]

        def build(limit):
            if fixed is None:
                cc = facts0.simplify(c_and(c1, c_lt(0, limit)))
                w = self.map_terms(x0, lambda t: subst(t, {ia: limit - 1}))
            else:
                cc = facts0.simplify(c_and(c1, c_le(0, e), c_lt(e, limit)))
                w = x
            if p0 is UNDEF or isinstance(p0, V):
                return w if cc is TRUE else self.merge_val(cc, w, p0)
            return None
        return (lambda k: build(P(k))), build(P(size))

    def match_scalar(self, p, carry, init, ia, size, facts0, J=()):
        ca = carry.single_atom()

        def has(x):
            return self._has_node(x, ca)

        def sub_carry(q):
            l = lift_ite(q)
            if isinstance(l, tuple) and has(l[1]) | has(l[2]):
                c, x, y = l
                return ite(c, sub_carry(x), sub_carry(y))
            return q - carry
        # store pattern: nested ite with carry at the end
        clauses = []
        q = p
        ok = True
        p_s = facts0.simp(p)
        work = p_s
        conds = []
        # additive
        e = sub_carry(p_s)
        if not has(e):
            return (lambda k: init + sum_over(k, lambda j: subst(e, {ia: j}))), init + sum_over(size, lambda j: subst(e, {ia: j}))
        # decision-tree form: leaves either carry-free or exactly carry
        leaves = []

        def walk(x, cond):
            l = lift_ite(x)
            if isinstance(l, tuple):
                c, a, b = l
                walk(a, c_and(cond, c))
                walk(b, c_and(cond, c_not(c)))
            else:
                leaves.append((cond, x))
        walk(p_s, TRUE)
        if any(has(c) for c, _ in leaves):
            # running maximum / minimum: ite(carry < e, e, carry)
            if len(leaves) == 2:
                (c1, x1), (c2, x2) = leaves
                for (cc, xx, yy) in ((c1, x1, x2), (c2, x2, x1)):
                    if yy == carry and not has(xx):
                        if cc is c_lt(carry, xx) or cc is c_le(carry, xx):
                            return None, fn('runmax', init, mk_arrT([ia], xx, P(size)))
                        if cc is c_lt(xx, carry) or cc is c_le(xx, carry):
                            return None, fn('runmin', init, mk_arrT([ia], xx, P(size)))
            return None
        writes = [(c, x) for c, x in leaves if x != carry]
        if any(has(x) for _, x in writes):
            # accumulation restricted to some cells: value - carry carry-free
            if all(not has(x - carry) for _, x in writes):
                e = ZERO
                for c, x in writes:
                    e = e + ite(c, x - carry, ZERO)
                return (lambda k: init + sum_over(k, lambda j: subst(e, {ia: j}))), init + sum_over(size, lambda j: subst(e, {ia: j}))
            return None
        # merge clauses writing under conditions solvable for ia
        sols = []
        for c, x in writes:
            for c1, alts in self.cubes(c):
                e = None
                for a, val in alts:
                    if a.kind == 'eq' and val:
                        e = solve_for(a.args[0], ia)
                        if e is not None:
                            break
                if e is None:
                    e = self.solve_block(alts, ia, size)
                if e is None:
                    if ia not in free(c1) and len(writes) == 1:
                        # same cell written in every iteration: the last one wins
                        e = P(size) - 1
                    else:
                        return None
                inr = c_and(c_le(0, e), c_lt(e, size))
                cond = c_and(inr, subst(c1, {ia: e}))
                sols.append((e, cond, subst(x, {ia: e})))
        sols2 = []
        for e, c, x in sols:
            c = facts0.simplify(c)
            if c is not FALSE:
                sols2.append((e, c, x))

        def build(limit):
            r = init
            done = []
            for e, c, x in sols2:
                cc = c if limit is None else c_and(c, c_lt(e, limit))
                # later iterations win over earlier ones
                for e2, c2 in done:
                    cc = c_and(cc, c_or(c_not(c2), c_not(c_lt(e, e2))))
                cc = facts0.simplify(cc)
                r = ite(cc, x, r)
                done.append((e, c))
            return r
        return (lambda k: build(P(k))), build(None)

    def solve_block(self, alts, ia, size):
        """Bounds a*i <= J < a*(i+1): i = J // a."""
        for a, val in alts:
            if a.kind == 'lt' and not val:
                p = a.args[0]  # p >= 0 : J - a*i (+ c)
                cf = ZERO
                rest = ZERO
                for m, c in p.terms:
                    d = dict(m)
                    if ia in d:
                        if d[ia] != 1:
                            return None
                        d2 = tuple(sorted([(x, e) for x, e in d.items() if x is not ia], key=lambda t: t[0].id))
                        cf = cf + Poly(((d2, c),))
                    else:
                        rest = rest + Poly(((m, c),))
                if cf.terms and not (ia in free(rest)):
                    blk = -cf
                    f = Facts()
                    if f.prove_ge0(blk - 1):
                        # confirm matching upper bound
                        for b, v2 in alts:
                            if b.kind == 'lt' and v2:
                                if b.args[0] == rest - blk * atom(ia) - blk:
                                    return div_(rest, blk)
        return None

    def cubes(self, c):
        """Disjoint cubes of a BDD: [(cond, [(atom, value)])]"""
        out = []

        def go(n, path):
            if n is FALSE:
                return
            if n is TRUE:
                cc = TRUE
                for a, v in path:
                    cc = c_and(cc, catom(a) if v else c_not(catom(a)))
                out.append((cc, list(path)))
                return
            a, hi, lo = n.args
            go(hi, path + [(a, True)])
            go(lo, path + [(a, False)])
        go(c, [])
        return out

    def _has_node(self, x, node):
        seen = set()

        def scan(y):
            if isinstance(y, Poly):
                return any(scan(a) for m, _ in y.terms for a, _ in m)
            if isinstance(y, tuple):
                return any(scan(z) for z in y)
            if isinstance(y, Node):
                if y is node:
                    return True
                if node.kind == 'el' and y is node.args[0]:
                    return True
                if y in seen:
                    return False
                seen.add(y)
                return any(scan(z) for z in y.args)
            return False
        return scan(x)

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, depth=0):
        if depth > 12:
            return TV(mk('sym', '?deep'))
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            return self.freeze_content(c, st, depth + 1)
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, depth + 1) for x in v.items], v.names)
        if isinstance(v, IteV):
            return self.merge_val(v.c, self.freeze(v.a, st, depth + 1), self.freeze(v.b, st, depth + 1))
        if isinstance(v, Seq):
            return Seq([self.freeze_seg(s, st, depth + 1) for s in v.segs], v.kind, v.prov)
        return v

    def freeze_seg(self, s, st, depth=0):
        if isinstance(s, Item):
            return Item(self.freeze(s.v, st, depth + 1), s.guard)
        return s

    def freeze_content(self, c, st, depth=0):
        if isinstance(c, ListC):
            return Seq([self.freeze_seg(s, st, depth + 1) for s in c.segs], c.kind, c.prov)
        if isinstance(c, ArrC):
            return c.v
        if isinstance(c, DictC):
            return FDict({k: self.freeze(x, st, depth + 1) for k, x in c.d.items()}, c.prov)
        if isinstance(c, ObjC):
            return FObj(c.cls, {k: self.freeze(x, st, depth + 1) for k, x in c.attrs.items()})
        if isinstance(c, RngC):
            return Num(c.p)
        if isinstance(c, FrameC):
            return TV(mk('sym', 'frame'))
        if c is None:
            return TV(mk('sym', '?missing'))
        return c

    def thaw(self, v):
        if isinstance(v, Arr):
            return self.new_arr(v)
        if isinstance(v, Seq):
            if v.kind == 'array':
                return self.new_arr(v)
            if v.kind == 'tuple':
                return v
            return self.alloc(ListC([Item(self.thaw(s.v), s.guard) if isinstance(s, Item) else s for s in v.segs], v.prov, v.kind))
        if isinstance(v, FDict):
            return self.alloc(DictC({k: self.thaw(x) for k, x in v.d.items()}, v.prov))
        if isinstance(v, FObj):
            return self.alloc(ObjC(v.cls, {k: self.thaw(x) for k, x in v.attrs.items()}))
        if isinstance(v, Tup):
            return Tup([self.thaw(x) for x in v.items], v.names)
        if isinstance(v, IteV):
            return IteV(v.c, self.thaw(v.a), self.thaw(v.b))
        return v

    def thaw_content(self, v):
        r = self.thaw(v)
        if isinstance(r, Ref):
            return self.content(r)
        return r

    def map_content(self, v, g):
        if isinstance(v, tuple):
            return v
        return self.map_terms(v, g)

    def map_seg(self, s, g):
        if isinstance(s, Item):
            return Item(self.map_terms(s.v, g), g(s.guard))
        if isinstance(s, NestedSeg):
            def nf(k):
                z = fresh('z', ub=s.size)
                mp = {z.single_atom(): P(k)}
                h = lambda t: subst(g(t), mp)
                return [self.map_seg(x, h) if isinstance(x, Item) else ('seg', self.map_seg(x[1], h)) for x in s.fn(z)]
            return NestedSeg(g(s.size), nf)
        if isinstance(s, Seg):
            def f(k):
                z = fresh('z', ub=s.size)
                its = s.fn(z)
                za = z.single_atom()
                out = []
                for it in its:
                    v = self.map_terms(it.v, g)
                    gd = g(it.guard)
                    out.append(Item(self.map_terms(v, lambda t: subst(t, {za: P(k)})), subst(gd, {za: P(k)})))
                return out
            return Seg(g(s.size), f)
        return s

    def map_terms(self, v, g, tvf=None):
        """Apply a term transformer to every term inside a frozen value (capture-avoiding)."""
        if isinstance(v, Num):
            return Num(g(v.p), v.kind)
        if isinstance(v, BoolV):
            return BoolV(g(v.c))
        if isinstance(v, Arr):
            shape = [g(s) for s in v.shape]

            def f(*ix, v=v):
                zs = [fresh('z', ub=s) for s in v.shape]
                b = g(v.fn(*zs))
                mp = {z.single_atom(): P(x) for z, x in zip(zs, ix)}
                return subst(b, mp)
            return Arr(shape, f, v.dtype, v.prov)
        if isinstance(v, Tup):
            return Tup([self.map_terms(x, g, tvf) for x in v.items], v.names)
        if isinstance(v, Seq):
            segs = []
            for s in v.segs:
                if isinstance(s, Item):
                    segs.append(Item(self.map_terms(s.v, g, tvf), g(s.guard)))
                elif isinstance(s, Seg):
                    segs.append(self.map_seg(s, g))
                else:
                    segs.append(s)
            return Seq(segs, v.kind, v.prov)
        if isinstance(v, IteV):
            return self.merge_val(g(v.c), self.map_terms(v.a, g, tvf), self.map_terms(v.b, g, tvf))
        if isinstance(v, FDict):
            return FDict({k: self.map_terms(x, g, tvf) for k, x in v.d.items()}, v.prov)
        if isinstance(v, FObj):
            return FObj(v.cls, {k: self.map_terms(x, g, tvf) for k, x in v.attrs.items()})
        if isinstance(v, XObj):
            return XObj(v.kind, v.prov, **{k: (self.map_terms(x, g, tvf) if isinstance(x, V) else (g(x) if isinstance(x, (Poly,)) or is_bool(x) else x)) for k, x in v.f.items()})
        if isinstance(v, TV):
            if tvf is not None:
                r = tvf(v)
                if r is not None:
                    return r
            t = g(v.t)
            if isinstance(t, Poly):
                a = t.single_atom()
                if a is None:
                    return Num(t)
                t = a
            return TV(t, v.kind, v.info)
        if isinstance(v, SliceV):
            return SliceV(*[self.map_terms(x, g, tvf) for x in (v.a, v.b, v.s)])
        if isinstance(v, RangeV):
            return RangeV(*[self.map_terms(x, g, tvf) for x in (v.a, v.b, v.s)])
        if isinstance(v, MethV):
            return MethV(self.map_terms(v.obj, g, tvf), v.name)
        return v

    # ------------------------------------------------------------ reification
    def term(self, v, depth=0):
        """A canonical term for any value."""
        if depth > 14:
            return mk('sym', '?deep')
        if isinstance(v, Num):
            return v.p
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, Str):
            return mk('strc', v.s)
        if v is NONE:
            return mk('none')
        if v is UNDEF:
            return mk('undef')
        if isinstance(v, TV):
            return v.t
        if isinstance(v, Arr):
            return self.arr_term(v)
        if isinstance(v, Tup):
            return mk('tup', *[self.term(x, depth + 1) for x in v.items])
        if isinstance(v, Seq):
            if v.kind == 'array':
                a = self.lib.seq_to_arr(self, v, strict=True)
                if a is not None:
                    return self.arr_term(a)
            return mk('seq', *[self.seg_term(s, depth + 1) for s in v.segs])
        if isinstance(v, Ref):
            c = self.st.heap.get(v.id)
            if isinstance(c, ListC):
                return mk('seq', *[self.seg_term(s, depth + 1) for s in c.segs])
            if isinstance(c, ArrC):
                return self.term(c.v, depth + 1)
            if isinstance(c, DictC):
                return mk('dict', *[mk('kv', _key_term(k), self.term(x, depth + 1)) for k, x in sorted(c.d.items(), key=lambda t: str(t[0]))])
            if isinstance(c, ObjC):
                return mk('obj', c.cls.name, v.id)
            return mk('sym', 'cell%d' % v.id)
        if isinstance(v, FDict):
            return mk('dict', *[mk('kv', _key_term(k), self.term(x, depth + 1)) for k, x in sorted(v.d.items(), key=lambda t: str(t[0]))])
        if isinstance(v, FObj):
            return mk('fobj', v.cls.name, *[mk('kv', _key_term(k), self.term(x, depth + 1)) for k, x in sorted(v.attrs.items())])
        if isinstance(v, IteV):
            return mk('vite', v.c, self.term(v.a, depth + 1), self.term(v.b, depth + 1))
        if isinstance(v, XObj):
            return mk('x', v.kind, *[mk('kv', _key_term(k), self.term(x, depth + 1) if isinstance(x, V) else x) for k, x in sorted(v.f.items()) if isinstance(x, (V, Poly, Node, str, int))])
        if isinstance(v, SliceV):
            return mk('slice', *[self.term(x, depth + 1) for x in (v.a, v.b, v.s)])
        if isinstance(v, RangeV):
            return mk('range', *[self.term(x, depth + 1) for x in (v.a, v.b, v.s)])
        if isinstance(v, ExtV):
            return mk('ext', v.q)
        if isinstance(v, FuncV):
            return self.lib.closure_term(self, v)
        if isinstance(v, BoundV):
            return mk('bound', self.term(v.func, depth + 1), self.term(v.self, depth + 1))
        if isinstance(v, ClsV):
            return mk('cls', v.module + '.' + v.name)
        if isinstance(v, MethV):
            return mk('meth', self.term(v.obj, depth + 1), v.name)
        if isinstance(v, tuple):
            return mk('raw', str(v))
        return mk('sym', '?value:%s' % type(v).__name__)

    def seg_term(self, s, depth=0):
        if isinstance(s, Item):
            return mk('item', s.guard, self.term(s.v, depth + 1))
        if isinstance(s, CarrySeg):
            return mk('carryseg', 'carry:' + s.tag)
        if isinstance(s, NestedSeg):
            k = fresh('t', ub=s.size)
            body = []
            for x in s.fn(k):
                if isinstance(x, Item):
                    body.append(mk('item', x.guard, self.term(x.v, depth + 1)))
                else:
                    body.append(self.seg_term(x[1], depth + 1))
            return mk('seg', mk_arrT([k.single_atom()], tuple(body), s.size))
        k = fresh('t', ub=s.size)
        body = tuple(mk('item', it.guard, self.term(it.v, depth + 1)) for it in s.fn(k))
        return mk('seg', mk_arrT([k.single_atom()], body, s.size))

    def arr_term(self, a):
        """Reify an array: constant small axes are enumerated, symbolic axes are bound."""
        small = []
        for s in a.shape:
            c = s.cval()
            small.append(int(c) if c is not None and c.denominator == 1 and 0 <= c <= 4 else None)
        bs = []
        idx_axes = []
        for s, k in zip(a.shape, small):
            if k is None:
                b = fresh('t', ub=s)
                bs.append(b)
                idx_axes.append([b])
            else:
                idx_axes.append([const(j) for j in range(k)])
        combos = [[]]
        for ax in idx_axes:
            combos = [c + [x] for c in combos for x in ax]
        if len(combos) > 128:
            combos = combos[:128]
        body = tuple(a.fn(*c) for c in combos)
        return mk_arrT([b.single_atom() for b in bs], body, tuple(a.shape))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, BoolV):
            return v.c
        if isinstance(v, Num):
            return c_not(c_eq0(v.p))
        if v is NONE:
            return FALSE
        if isinstance(v, Str):
            return TRUE if v.s else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, IteV):
            return c_ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC):
                return c_not(c_eq0(self.lib.seq_len(Seq(c.segs))))
            if isinstance(c, DictC):
                return TRUE if c.d else FALSE
            if isinstance(c, ArrC):
                return self.truth(c.v)
            return TRUE
        if isinstance(v, Seq):
            return c_not(c_eq0(self.lib.seq_len(v)))
        if isinstance(v, Arr):
            if v.dtype == 'bool' and v.ndim == 0:
                return v.fn()
            if v.ndim == 0:
                return c_not(c_eq0(v.fn()))
            if all(s.cval() == 1 for s in v.shape):
                x = v.fn(*[ZERO] * v.ndim)
                return x if v.dtype == 'bool' else c_not(c_eq0(x))
            self.raise_exc('ValueError')
        if isinstance(v, FDict):
            return TRUE if v.d else FALSE
        if isinstance(v, (FuncV, ClsV, ExtV, XObj, FObj, BoundV, MethV, SliceV)):
            return TRUE
        if isinstance(v, TV):
            return c_b('truthy', v.t) if not has_opaque(v.t) else c_b('?truthy', v.t)
        if isinstance(v, RangeV):
            return c_not(c_eq0(self.lib.range_len(v)))
        return c_b('?truthy', self.term(v))

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expr:' + type(e).__name__)
        if hasattr(e, 'lineno'):
            self.loc = (self.loc[0], e.lineno, self.loc[2])
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, int):
            return Num(const(v), 'int')
        if isinstance(v, float):
            return Num(from_float(v), 'float')
        if isinstance(v, (str, bytes)):
            return Str(v)
        if isinstance(v, complex):
            return self.opaque('complex')
        return self.opaque('const')

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Str(x.value))
            else:
                try:
                    v = self.eval(x.value)
                except AbsRaise:
                    raise
                if x.format_spec is not None or (x.conversion not in (-1, 115)):
                    v = TV(mk('fn', 'format', self.term(v), ast.unparse(x)), 'str')
                parts.append(v)
        return self.lib.strcat(self, parts)

    def e_FormattedValue(self, e):
        return self.lib.to_str(self, self.eval(e.value))

    def e_Tuple(self, e):
        items = self.eval_items(e.elts)
        if isinstance(items, list):
            return Tup(items)
        return Seq(items.segs, 'tuple')

    def e_List(self, e):
        items = self.eval_items(e.elts)
        if isinstance(items, list):
            return self.new_list(items)
        return self.alloc(ListC(items.segs))

    def e_Set(self, e):
        items = self.eval_items(e.elts)
        return self.alloc(ListC([Item(v) for v in items] if isinstance(items, list) else items.segs, kind='set'))

    def eval_items(self, elts):
        out = []
        segs = None
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                s = self.lib.segs_of(self, v)
                if all(isinstance(y, Item) and y.guard is TRUE for y in s):
                    if segs is None:
                        out.extend(y.v for y in s)
                    else:
                        segs.extend(s)
                else:
                    if segs is None:
                        segs = [Item(v) for v in out]
                    segs.extend(s)
            else:
                v = self.eval(x)
                if segs is None:
                    out.append(v)
                else:
                    segs.append(Item(v))
        if segs is None:
            return out
        return Seq(segs)

    def e_Dict(self, e):
        d = {}
        ref = self.alloc(DictC(d))
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v)
                for kk, vv in self.lib.dict_items(self, m):
                    d[kk] = vv
            else:
                kk = self.dict_key(self.eval(k))
                d[kk] = self.eval(v)
        self.st.heap[ref.id] = DictC(d)
        return ref

    def dict_key(self, v):
        if isinstance(v, Str):
            return v.s
        if isinstance(v, Num):
            c = v.p.cval()
            if c is not None:
                return int(c) if c.denominator == 1 else float(c)
            return ('term', v.p)
        if v is NONE:
            return None
        if isinstance(v, BoolV) and v.c in (TRUE, FALSE):
            return v.c is TRUE
        if isinstance(v, Tup):
            return tuple(self.dict_key(x) for x in v.items)
        return ('term', self.term(v))

    def key_value(self, k):
        if k is None:
            return NONE
        if isinstance(k, bool):
            return BoolV(k)
        if isinstance(k, int):
            return Num(k, 'int')
        if isinstance(k, float):
            return Num(from_float(k), 'float')
        if isinstance(k, (str, bytes)):
            return Str(k)
        if isinstance(k, tuple) and k and k[0] == 'term':
            return TV(k[1]) if isinstance(k[1], Node) else Num(k[1])
        if isinstance(k, tuple):
            return Tup([self.key_value(x) for x in k])
        return self.opaque('key')

    def e_Slice(self, e):
        return SliceV(*[self.eval(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Lambda(self, e):
        f = self.make_func(e, '<lambda>')
        return f

    def e_IfExp(self, e):
        c = self.st.facts().simplify(self.truth(self.eval(e.test)))
        if c is TRUE:
            return self.eval(e.body)
        if c is FALSE:
            return self.eval(e.orelse)
        return self.split(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def split(self, c, f1, f2):
        base = self.st
        c = base.facts().simplify(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        s1 = base.copy()
        s1.pc = c_and(base.pc, c)
        s2 = base.copy()
        s2.pc = c_and(base.pc, c_not(c))
        self.st = s1
        v1 = v2 = None
        try:
            v1 = f1()
            e1 = self.st
        except AbsRaise:
            e1 = None
        self.st = s2
        try:
            v2 = f2()
            e2 = self.st
        except AbsRaise:
            e2 = None
        if e1 is None and e2 is None:
            raise AbsRaise()
        if e1 is None:
            self.st = e2
            return v2
        if e2 is None:
            self.st = e1
            return v1
        m = self.merge_states(c, e1, e2)
        self.st = m
        return self.merge_val(c, v1, v2, e1.heap, e2.heap)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for x in e.values[1:]:
            c = self.st.facts().simplify(self.truth(v))
            if c is TRUE or c is FALSE:
                if (c is TRUE) == isand:
                    v = self.eval(x)
                continue
            v0 = v
            if isand:
                v = self.split(c, lambda: self.eval(x), lambda: BoolV(FALSE) if isinstance(v0, BoolV) else v0)
            else:
                v = self.split(c, lambda: BoolV(TRUE) if isinstance(v0, BoolV) else v0, lambda: self.eval(x))
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return BoolV(c_not(self.truth(v)))
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, IteV):
            return self.merge_val(v.c, self.unop(op, v.a), self.unop(op, v.b))
        if op == 'USub':
            if isinstance(v, BoolV):
                v = Num(ite(v.c, 1, 0), 'int')
            if isinstance(v, Num):
                return Num(-v.p, v.kind)
            a = self.arrval(v)
            if a is not None:
                return self.lib.ufunc1(self, lambda x: -x, v)
            return self.opaque('neg', v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, BoolV):
                return BoolV(c_not(v.c))
            a = self.arrval(v)
            if isinstance(a, Arr) and a.dtype == 'bool':
                return self.new_arr(Arr(a.shape, lambda *ix: c_not(a.fn(*ix)), 'bool'))
            return self.opaque('invert', v)
        return self.opaque('unop', v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, IteV):
            return self.split(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, IteV):
            return self.split(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        return self.lib.binop(self, op, a, b)

    def arrval(self, v):
        """Arr / array-Seq behind a value, or None."""
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ArrC):
                return c.v
            return None
        if isinstance(v, Arr):
            return v
        if isinstance(v, Seq) and v.kind == 'array':
            return v
        return None

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                res = BoolV(c_and(self.truth(res), self.truth(v)))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, IteV):
            return self.merge_val(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, IteV):
            return self.merge_val(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        return self.lib.compare(self, op, a, b)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        return self.get_item(o, k)

    def get_item(self, o, k):
        if isinstance(o, IteV):
            return self.split(o.c, lambda: self.get_item(o.a, k), lambda: self.get_item(o.b, k))
        if isinstance(k, IteV):
            return self.split(k.c, lambda: self.get_item(o, k.a), lambda: self.get_item(o, k.b))
        if isinstance(o, Ref) and isinstance(self.content(o), ObjC):
            m = self.get_attr(o, '__getitem__')
            return self.call(m, [k], {})
        return self.lib.get_item(self, o, k)

    def set_item(self, o, k, v):
        if isinstance(o, IteV):
            f1 = lambda: (self.set_item(o.a, k, v), NONE)[1]
            f2 = lambda: (self.set_item(o.b, k, v), NONE)[1]
            self.split(o.c, f1, f2)
            return
        if isinstance(k, IteV):
            f1 = lambda: (self.set_item(o, k.a, v), NONE)[1]
            f2 = lambda: (self.set_item(o, k.b, v), NONE)[1]
            self.split(k.c, f1, f2)
            return
        self.lib.set_item(self, o, k, v)

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.get_attr(o, e.attr)

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClsV):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            else:
                out.append(b)
        return out

    def class_lookup(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClsV):
                if name in k.ns:
                    return k.ns[name]
        return None

    def get_attr(self, o, name, default=None):
        if isinstance(o, IteV):
            return self.split(o.c, lambda: self.get_attr(o.a, name, default), lambda: self.get_attr(o.b, name, default))
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c.cls, c.attrs, name, default)
        if isinstance(o, FObj):
            return self.obj_attr(o, o.cls, o.attrs, name, default)
        if isinstance(o, ClsV):
            if name == '__name__':
                return Str(o.name)
            if name == '__new__':
                return ExtV('builtins.object.__new__')
            v = self.class_lookup(o, name)
            if v is None:
                if default is not None:
                    return default
                for b in self.mro(o):
                    if isinstance(b, ExtV):
                        return ExtV(b.q + '.' + name)
                if name == '__init__':
                    return ExtV('builtins.object.__init__')
                self.raise_exc('AttributeError')
            if isinstance(v, FuncV) and v.kind == 'classmethod':
                return BoundV(v, o)
            return v
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, ExtV):
            if o.q in self.modules:
                v = self.st.heap[self.modules[o.q]].vars.get(name)
                if v is not None:
                    return v
                try:
                    self.load_module(o.q + '.' + name)
                    return ExtV(o.q + '.' + name)
                except FileNotFoundError:
                    self.raise_exc('AttributeError')
            if o.q == self.package:
                try:
                    self.load_module(o.q + '.' + name)
                    return ExtV(o.q + '.' + name)
                except FileNotFoundError:
                    pass
            return self.lib.ext_attr(self, o.q, name)
        if isinstance(o, FuncV):
            if name == '__name__':
                return Str(o.name)
            if name == '__doc__':
                return self.opaque('doc')
        if isinstance(o, Tup) and o.names and name in o.names:
            return o.items[o.names.index(name)]
        return self.lib.get_attr(self, o, name, default)

    def obj_attr(self, o, cls, attrs, name, default=None):
        v = self.class_lookup(cls, name)
        if isinstance(v, FuncV) and v.kind == 'property':
            return self.call_func(v, [o], {})
        if name in attrs:
            a = attrs[name]
            if a is UNDEF:
                self.raise_exc('AttributeError')
            self.attr_reads.add((cls.name, name))
            if isinstance(a, IteV) and (a.a is UNDEF or a.b is UNDEF):
                # defined on one branch only
                c = self.st.facts().simplify(a.c)
                if c is TRUE:
                    return a.a
                if c is FALSE:
                    return a.b
                bad = self.st.copy()
                bad.pc = c_and(self.st.pc, c_not(c) if a.b is UNDEF else c)
                self.exc_sink.append(Exc(bad, 'AttributeError', self.loc))
                return a.a if a.b is UNDEF else a.b
            return a
        if name == '__class__':
            return cls
        if name == '__dict__':
            return self.alloc(DictC(dict(attrs)))
        if v is None:
            for b in self.mro(cls):
                if isinstance(b, ExtV):
                    return self.lib.ext_instance_attr(self, o, b, name, attrs)
            if default is not None:
                return default
            self.raise_exc('AttributeError')
        if isinstance(v, FuncV):
            if v.kind == 'staticmethod':
                return v
            if v.kind == 'classmethod':
                return BoundV(v, cls)
            return BoundV(v, o)
        return v

    def super_attr(self, o, name):
        inst = o.self
        if isinstance(inst, ClsV):
            start = inst
        else:
            c = self.content(inst) if isinstance(inst, Ref) else inst
            start = c.cls
        mro = self.mro(start)
        idx = mro.index(o.cls) if o.cls in mro else 0
        for k in mro[idx + 1:]:
            if isinstance(k, ClsV):
                if name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, FuncV):
                        if v.kind == 'property':
                            return self.call_func(v, [inst], {})
                        if v.kind == 'staticmethod':
                            return v
                        if v.kind == 'classmethod':
                            return BoundV(v, inst if isinstance(inst, ClsV) else start)
                        return BoundV(v, inst)
                    return v
            elif isinstance(k, ExtV):
                return MethV(XObj('superext', base=Str(k.q), inst=inst), name)
        if name == '__init__':
            return ExtV('builtins.object.__init__')
        if name == '__new__':
            return ExtV('builtins.object.__new__')
        self.raise_exc('AttributeError')

    def set_attr(self, o, name, v):
        if isinstance(o, IteV):
            self.split(o.c, lambda: (self.set_attr(o.a, name, v), NONE)[1], lambda: (self.set_attr(o.b, name, v), NONE)[1])
            return
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ObjC):
                pv = None
                for k in self.mro(c.cls):
                    if isinstance(k, ClsV):
                        for kk, vv in k.ns.items():
                            if kk == name and isinstance(vv, FuncV) and vv.kind == 'setter':
                                pv = vv
                if pv is not None:
                    self.call_func(pv, [o, v], {})
                    return
                if c.prov:
                    self.mutate_check(c.prov, 'set attribute %s' % name)
                d = dict(c.attrs)
                d[name] = v
                self.stores.setdefault((c.cls.name, name), []).append(self.loc)
                self.st.heap[o.id] = ObjC(c.cls, d, c.prov)
                return
        if isinstance(o, XObj):
            if o.prov:
                self.mutate_check(o.prov, 'set attribute %s' % name)
            self.lib.x_set_attr(self, o, name, v)
            return
        if isinstance(o, ClsV):
            self.event('global-store', o.name + '.' + name)
            o.ns = dict(o.ns)
            o.ns[name] = v
            return
        if isinstance(o, ExtV):
            self.event('global-store', o.q + '.' + name)
            return
        if isinstance(o, FuncV):
            self.event('global-store', o.qual + '.' + name)
            return
        a = self.arrval(o)
        if a is not None and name == 'shape':
            return
        self.note('attribute store on %r' % (o,))

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'gen')

    def comp(self, e, kind):
        fid = self.alloc_raw(FrameC({}, self.frames[-1]))
        f = self.st.heap[self.frames[-1]]
        if '__qual__' in f.vars and f.parent is not None and isinstance(self.st.heap[f.parent], FrameC):
            self.st.heap[fid] = FrameC({}, self.frames[-1])
        out = self.alloc(ListC([], kind=kind))
        self.frames.append(fid)
        self.st.heap[fid] = FrameC({'__out__': out}, self.st.heap[fid].parent)
        call = ast.Expr(ast.Call(ast.Attribute(ast.Name('__out__', ast.Load()), 'append', ast.Load()), [e.elt], []))
        body = self.comp_body(e.generators, [call], e)
        try:
            fl = self.exec_block(body)
        finally:
            self.frames.pop()
        if fl.normal is None:
            raise AbsRaise()
        self.st = fl.normal
        return out

    def comp_body(self, gens, inner, e):
        for g in reversed(gens):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        for n in inner:
            ast.copy_location(n, e)
            ast.fix_missing_locations(n)
        return inner

    def e_DictComp(self, e):
        fid = self.alloc_raw(FrameC({}, self.frames[-1]))
        out = self.alloc(DictC({}))
        self.frames.append(fid)
        self.st.heap[fid] = FrameC({'__out__': out}, self.st.heap[fid].parent)
        store = ast.Assign([ast.Subscript(ast.Name('__out__', ast.Load()), e.key, ast.Store())], e.value)
        body = self.comp_body(e.generators, [store], e)
        try:
            fl = self.exec_block(body)
        finally:
            self.frames.pop()
        if fl.normal is None:
            raise AbsRaise()
        self.st = fl.normal
        return out

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        out = self.lookup('__yield__')
        self.call(MethV(out, 'append'), [v], {})
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        out = self.lookup('__yield__')
        self.call(MethV(out, 'extend'), [v], {})
        return NONE

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Await(self, e):
        return self.eval(e.value)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.st.heap[self.frames[-1]]
            fid = self.frames[-1]
            while fid is not None and '__class__' not in self.st.heap[fid].vars:
                fid = self.st.heap[fid].parent
            if fid is None:
                raise Unsupported('super()')
            fr = self.st.heap[fid]
            return SuperV(fr.vars['__class__'], fr.vars['__self__'])
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars', 'eval', 'exec') and e.func.id not in self.st.heap[self.frames[-1]].vars:
            if e.func.id == 'vars' and e.args:
                o = self.eval(e.args[0])
                if isinstance(o, Ref) and isinstance(self.content(o), ObjC):
                    return self.get_attr(o, '__dict__')
            if e.func.id == 'locals':
                return self.alloc(DictC({k: v for k, v in self.st.heap[self.frames[-1]].vars.items() if not k.startswith('__')}))
            return self.opaque(e.func.id)
        fv = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.star_items(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value)
                for kk, vv in self.lib.dict_items(self, m):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        self.loc = (self.loc[0], e.lineno if hasattr(e, 'lineno') else self.loc[1], self.loc[2])
        return self.call(fv, args, kw)

    def star_items(self, v):
        if isinstance(v, IteV):
            v1 = self.star_items(v.a)
            v2 = self.star_items(v.b)
            if len(v1) == len(v2):
                return [self.merge_val(v.c, x, y) for x, y in zip(v1, v2)]
            raise Unsupported('star of gated sequences')
        ch = self.lib.chunks(self, v)
        if all(c[0] == 'item' and c[1] is TRUE for c in ch):
            return [c[2] for c in ch]
        return [XObj('star', seq=self.freeze(v, self.st))]

    def call(self, fv, args, kw):
        if isinstance(fv, IteV):
            return self.split(fv.c, lambda: self.call(fv.a, args, kw), lambda: self.call(fv.b, args, kw))
        if isinstance(fv, BoundV):
            return self.call_func(fv.func, [fv.self] + list(args), kw) if isinstance(fv.func, FuncV) else self.call(fv.func, [fv.self] + list(args), kw)
        if isinstance(fv, FuncV):
            return self.call_func(fv, args, kw)
        if isinstance(fv, ClsV):
            return self.instantiate(fv, args, kw)
        if isinstance(fv, ExtV):
            if fv.q in self.cuts:
                return self.cuts[fv.q](self, args, kw)
            return self.lib.ext_call(self, fv.q, args, kw)
        if isinstance(fv, MethV):
            if isinstance(fv.obj, IteV):
                o = fv.obj
                return self.split(o.c, lambda: self.call(self.get_attr(o.a, fv.name), args, kw), lambda: self.call(self.get_attr(o.b, fv.name), args, kw))
            return self.lib.method(self, fv.obj, fv.name, args, kw)
        if isinstance(fv, Ref) and isinstance(self.content(fv), ObjC):
            return self.call(self.get_attr(fv, '__call__'), args, kw)
        if isinstance(fv, XObj):
            return self.lib.x_call(self, fv, args, kw)
        if isinstance(fv, TV):
            return TV(mk('fn', 'call', fv.t, *[self.term(a) for a in args], *[mk('kw', k, self.term(v)) for k, v in sorted(kw.items())]))
        if fv is NONE or isinstance(fv, (Num, Str, Tup, BoolV)):
            self.raise_exc('TypeError')
        return self.opaque('call', fv, *args)

    def instantiate(self, c, args, kw):
        ext = [b for b in self.mro(c) if isinstance(b, ExtV) and b.q not in ('builtins.object', 'abc.ABC', 'typing.Protocol')]
        if ext and any(exc_isa(b.q.split('.')[-1], 'BaseException') for b in ext):
            return XObj('exc', cls=c.name)
        if any(b.q in ('typing.NamedTuple', 'collections.namedtuple') for b in ext):
            fields = [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign)]
            return self.alloc(ObjC(c, dict(zip(fields, args)) | kw))
        o = self.alloc(ObjC(c, {}))
        init = self.class_lookup(c, '__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif any(ast.unparse(d).split('(')[0].endswith('dataclass') for d in c.node.decorator_list):
            attrs = {}
            names = []
            for k in reversed([x for x in self.mro(c) if isinstance(x, ClsV)]):
                for n in k.node.body:
                    if isinstance(n, ast.AnnAssign):
                        names.append(n.target.id)
                        if n.value is not None:
                            attrs[n.target.id] = k.ns.get(n.target.id, NONE)
            for n, a in zip(names, args):
                attrs[n] = a
            attrs.update(kw)
            self.st.heap[o.id] = ObjC(c, attrs)
            post = self.class_lookup(c, '__post_init__')
            if post is not None:
                self.call_func(post, [o], {})
        elif ext:
            self.lib.ext_init(self, o, ext[0], args, kw)
        elif args or kw:
            self.raise_exc('TypeError')
        return o

    def call_func(self, f, args, kw):
        if f.qual in self.cuts:
            return self.cuts[f.qual](self, args, kw)
        if self.depth > 40:
            return self.opaque('recursion:' + f.qual)
        node = f.node
        path = self.mod_src.get(f.module, (self.loc[0], None))[0]
        self.funcs_seen[f.qual] = (path, getattr(node, 'lineno', 0))
        vars_ = self.bind(f, args, kw)
        if f.cls is not None:
            vars_['__class__'] = f.cls
            if args:
                vars_['__self__'] = args[0]
        vars_['__qual__'] = Str(f.qual + '.<locals>')
        fid = self.alloc_raw(FrameC(vars_, f.env))
        if f.isgen:
            out = self.alloc(ListC([], kind='gen'))
            vars_['__yield__'] = out
        self.frames.append(fid)
        self.depth += 1
        oldloc = self.loc
        self.loc = (path, getattr(node, 'lineno', 0), f.qual)
        entry_pc = self.st.pc
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            fl = self.exec_block(node.body)
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = oldloc
        pairs = list(fl.rets)
        if fl.normal is not None:
            pairs.append((fl.normal, NONE))
        if not pairs:
            raise AbsRaise()
        st, val = self.merge_many(pairs, entry_pc)
        self.st = st
        if f.isgen:
            return out
        return val

    def bind(self, f, args, kw):
        a = f.node.args
        vars_ = {}
        kw = dict(kw)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        extra = []
        stars = [x for x in args if isinstance(x, XObj) and x.kind == 'star']
        if stars:
            k = args.index(stars[0])
            seq = stars[0].f['seq']
            need = len(pos) - k
            if a.vararg is not None and need <= 0:
                vars_[a.vararg.arg] = seq if k == len(pos) else self.opaque('varargs')
                args = args[:k]
            else:
                # unpack as many as there are parameters: the arity of a symbolic argument vector
                nd = len(f.defaults)
                args = args[:k] + [self.get_item(seq, Num(j, 'int')) for j in range(need - nd)]
        for nm, v in zip(pos, args):
            vars_[nm] = v
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_exc('TypeError')
            extra = args[len(pos):]
        if a.vararg is not None and a.vararg.arg not in vars_:
            vars_[a.vararg.arg] = Tup(extra)
        for nm in pos + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                if nm in vars_:
                    self.raise_exc('TypeError')
                vars_[nm] = kw.pop(nm)
        nd = len(f.defaults)
        for nm, d in zip(pos[len(pos) - nd:], f.defaults):
            vars_.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            vars_.setdefault(nm, d)
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.alloc(DictC(kw))
        elif kw:
            self.raise_exc('TypeError')
        for nm in pos + [x.arg for x in a.kwonlyargs]:
            if nm not in vars_:
                self.raise_exc('TypeError')
        return vars_


class NestedSeg(Seg):
    """A loop segment whose iterations themselves emit loop segments."""
    __slots__ = ()


def _key_term(k):
    return mk('strc', k) if isinstance(k, (str, bytes)) else mk('key', str(k))


def _walk_own(node):
    """Walk a function body without entering nested functions."""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
