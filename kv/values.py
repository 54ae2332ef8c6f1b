"""Abstract values."""
from .terms import *


class V:
    __slots__ = ()


class Num(V):
    __slots__ = ('p', 'kind')  # kind: 'int' | 'float' | None (numpy scalar / unknown)

    def __init__(self, p, kind=None):
        self.p = P(p)
        self.kind = kind

    def __repr__(self):
        return 'Num(%s)' % (self.p,)


class Inexact(Num):
    """A whole number obtained from quantities that are not, by floating-point division or multiplication: the machine value may lie
    just below it, so that truncating it loses one."""
    __slots__ = ()


class BoolV(V):
    __slots__ = ('c',)

    def __init__(self, c):
        if c is True:
            c = TRUE
        elif c is False:
            c = FALSE
        self.c = c

    def __repr__(self):
        return 'Bool(%s)' % (self.c,)


class NoneT(V):
    __slots__ = ()

    def __repr__(self):
        return 'None'


NONE = NoneT()


class Undef(V):
    __slots__ = ()

    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Str(V):
    """constant str or bytes"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class TV(V):
    """A symbolic non-numeric value named by a term.  kind is a type hint ('str', 'obj', ...)."""
    __slots__ = ('t', 'kind', 'info')

    def __init__(self, t, kind='obj', info=None):
        self.t = t
        self.kind = kind
        self.info = info

    def __repr__(self):
        return 'TV:%s(%s)' % (self.kind, show(self.t))


class Arr(V):
    """An array in index notation: shape (tuple of Poly) and fn(*idx) -> Poly (or Cond when dtype is bool).

    prov: frozenset of labels of storage this array may share (empty: freshly allocated)."""
    __slots__ = ('shape', 'fn', 'dtype', 'prov', 'note')

    def __init__(self, shape, fn, dtype='float', prov=frozenset(), note=None):
        self.shape = tuple(P(s) for s in shape)
        self.fn = fn
        self.dtype = dtype
        self.prov = prov
        self.note = note

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        return self.fn(*[P(i) for i in idx])

    def size(self):
        r = ONE
        for s in self.shape:
            r = r * s
        return r

    def __repr__(self):
        ix = [fresh('q', ub=s) for s in self.shape]
        try:
            return 'Arr%s λ%s.%s' % (show(self.shape), show(tuple(ix)), show(self.fn(*ix)))
        except Exception as e:  # pragma: no cover
            return 'Arr<%s>' % e


class Item:
    """One (possibly guarded) element of a sequence."""
    __slots__ = ('guard', 'v')

    def __init__(self, v, guard=TRUE):
        self.v = v
        self.guard = guard

    def __repr__(self):
        return 'Item(%r%s)' % (self.v, '' if self.guard is TRUE else ' if %s' % (self.guard,))


class Seg:
    """Elements produced by a loop of `size` iterations; fn(k) -> list of Item."""
    __slots__ = ('size', 'fn')

    def __init__(self, size, fn):
        self.size = P(size)
        self.fn = fn

    def __repr__(self):
        k = fresh('q', ub=self.size)
        return 'Seg[%s<%s: %s]' % (show(k), show(self.size), self.fn(k))


class CarrySeg:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Carry(%s)' % self.tag


class Seq(V):
    """Immutable sequence of segments: frozen list, tuple of unknown length, or 1-d array built by appending.

    kind: 'list' | 'array' | 'tuple' | 'set' | 'gen'"""
    __slots__ = ('segs', 'kind', 'prov')

    def __init__(self, segs, kind='list', prov=frozenset()):
        self.segs = list(segs)
        self.kind = kind
        self.prov = prov

    def items(self):
        """list of Item if fully concrete with no guards, else None"""
        if all(isinstance(s, Item) and s.guard is TRUE for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def dense(self):
        """(size, fn k->value) if unguarded, else None"""
        it = self.items()
        if it is not None:
            return None
        if len(self.segs) == 1 and isinstance(self.segs[0], Seg):
            s = self.segs[0]
            k = fresh('q', ub=s.size)
            its = s.fn(k)
            if len(its) == 1 and its[0].guard is TRUE:
                return s.size, (lambda i, s=s: s.fn(P(i))[0].v)
        return None

    def __repr__(self):
        return 'Seq:%s%r' % (self.kind, self.segs)


class Tup(V):
    __slots__ = ('items', 'names')

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class FDict(V):
    """Frozen dict with constant keys."""
    __slots__ = ('d', 'prov')

    def __init__(self, d, prov=frozenset()):
        self.d = dict(d)
        self.prov = prov

    def __repr__(self):
        return 'FDict(%r)' % (self.d,)


class FObj(V):
    """Frozen instance of a repository class."""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

    def __repr__(self):
        return 'FObj(%s)' % self.cls.name


class XObj(V):
    """Instance of an external library type; immutable record named by a model."""
    __slots__ = ('kind', 'f', 'prov')

    def __init__(self, kind, prov=frozenset(), **f):
        self.kind = kind
        self.f = f
        self.prov = prov

    def __repr__(self):
        return 'X:%s(%s)' % (self.kind, ', '.join('%s=%r' % kv for kv in self.f.items()))


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref%d' % self.id


class IteV(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IteV(%s, %r, %r)' % (self.c, self.a, self.b)


class SliceV(V):
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __repr__(self):
        return 'Slice(%r,%r,%r)' % (self.a, self.b, self.s)


class EllipsisT(V):
    __slots__ = ()


ELLIPSIS = EllipsisT()


class FuncV(V):
    __slots__ = ('node', 'module', 'env', 'defaults', 'kwdefaults', 'name', 'qual', 'cls', 'kind', 'isgen')

    def __repr__(self):
        return 'Func(%s)' % self.qual


class BoundV(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return 'Bound(%r, %r)' % (self.func, self.self)


class ClsV(V):
    __slots__ = ('name', 'bases', 'ns', 'module', 'node')

    def __repr__(self):
        return 'Cls(%s)' % self.name


class ExtV(V):
    """External module / function / class, by qualified name."""
    __slots__ = ('q',)

    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return 'Ext(%s)' % self.q


class MethV(V):
    """Method of a non-repository value: resolved at call time."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return 'Meth(%r.%s)' % (self.obj, self.name)


class SuperV(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class RangeV(V):
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __repr__(self):
        return 'Range(%r,%r,%r)' % (self.a, self.b, self.s)


# heap contents -------------------------------------------------------------
class ListC:
    __slots__ = ('segs', 'prov', 'kind')

    def __init__(self, segs, prov=frozenset(), kind='list'):
        self.segs = list(segs)
        self.prov = prov
        self.kind = kind

    def __repr__(self):
        return 'ListC%r' % (self.segs,)


class DictC:
    __slots__ = ('d', 'prov')

    def __init__(self, d, prov=frozenset()):
        self.d = d
        self.prov = prov

    def __repr__(self):
        return 'DictC%r' % (self.d,)


class ArrC:
    __slots__ = ('v', 'base')  # v: Arr or Seq(kind='array'); base: None or (ref, writer)

    def __init__(self, v, base=None):
        self.v = v
        self.base = base

    def __repr__(self):
        return 'ArrC(%r)' % (self.v,)


class ObjC:
    __slots__ = ('cls', 'attrs', 'prov')

    def __init__(self, cls, attrs, prov=frozenset()):
        self.cls = cls
        self.attrs = attrs
        self.prov = prov

    def __repr__(self):
        return 'ObjC(%s,%r)' % (self.cls.name, list(self.attrs))


class FrameC:
    __slots__ = ('vars', 'parent', 'globals_')

    def __init__(self, vars, parent=None, globals_=None):
        self.vars = vars
        self.parent = parent
        self.globals_ = globals_ or set()

    def __repr__(self):
        return 'FrameC(%r)' % (list(self.vars),)


class RngC:
    """State of a random number generator (or any other single-valued cell), named by a term."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    def __repr__(self):
        return 'RngC(%s)' % (self.p,)
