"""Contexts: one abstract run of a public entry point under a fixed configuration."""
import copy
from .interp import *
from .values import *
from .terms import *
from . import extmodel as xm
from .prelude import TEXT as PRELUDE

EXTRA_MODULES = ['kinisi.parser', 'kinisi.diffusion', 'kinisi.analyzer', 'kinisi.diffusion_analyzer',
                 'kinisi.jump_diffusion_analyzer', 'kinisi.conductivity_analyzer', 'kinisi.arrhenius', 'kinisi.analyze']


class Result:
    def __init__(self, I, value, raised, excs, events, cuts_hit, notes):
        self.I = I
        self.value = value        # abstract value or None
        self.raised = raised      # no normal completion
        self.excs = excs
        self.events = events
        self.cuts_hit = cuts_hit
        self.notes = notes
        self.pc = I.st.pc

    def exc_conds(self, *classes):
        c = FALSE
        for e in self.excs:
            if not classes or any(exc_isa(e.cls, k) for k in classes):
                c = c_or(c, e.state.pc)
        return c


class Ctx:
    """Analyses the package at `root`; run() starts from a pristine state every time."""

    def __init__(self, root='/repo', package='kinisi'):
        self.root = root
        self.I = Interp(root, package)
        self.package = package
        self.missing = []
        for m in EXTRA_MODULES:
            try:
                self.I.load_module(m)
            except FileNotFoundError:
                self.missing.append(m)
        self.I.prelude = self.I.load_text('kv.prelude', PRELUDE)
        self.snap = self.I.st.copy()
        self.load_events = list(self.I.events)
        self.runs = 0
        self.funcs = {}

    def reset(self):
        I = self.I
        I.st = self.snap.copy()
        I.events = []
        I.exc_sink = []
        I.cuts = {}
        I.frames = []
        I.depth = 0
        I.stores = {}
        I.loc = ('?', 0, '?')
        self.n_notes = len(I.notes)
        I.notes = []
        # calls made by a rule itself happen in an empty frame
        I.frames = [I.alloc_raw(FrameC({'__name__': Str('__rule__')}, None))]
        return I

    def resolve(self, qual):
        return self.I.resolve(qual)

    def run(self, fv, args=(), kw=None, cuts=None):
        """Call an abstract function value in the current state (after reset())."""
        I = self.I
        if isinstance(fv, str):
            q = fv
            fv = I.resolve(fv)
            if fv is None:
                raise MissingAnchor(q)
            par = I.resolve(q.rsplit('.', 1)[0])
            if isinstance(par, ClsV) and isinstance(fv, FuncV):
                fv = I.get_attr(par, q.rsplit('.', 1)[1])
        self.runs += 1
        I.exc_sink = []
        n0 = len(I.events)
        hits = {}
        old = I.cuts
        if cuts is not None:
            I.cuts = {k: self._count(k, f, hits) for k, f in cuts.items()}
        raised = False
        v = None
        try:
            v = I.call(fv, list(args), dict(kw or {}))
        except AbsRaise:
            raised = True
        finally:
            I.cuts = old
        self.funcs.update(I.funcs_seen)
        r = Result(I, v, raised, I.exc_sink, I.events[n0:], hits, list(I.notes))
        I.exc_sink = []
        return r

    @staticmethod
    def _count(k, f, hits):
        def g(I, args, kw):
            hits[k] = hits.get(k, 0) + 1
            return f(I, args, kw)
        return g

    def attr(self, obj, name):
        """obj.name evaluated abstractly (runs properties)."""
        I = self.I
        I.exc_sink = []
        n0 = len(I.events)
        self.runs += 1
        try:
            v = I.get_attr(obj, name)
            raised = False
        except AbsRaise:
            v, raised = None, True
        self.funcs.update(I.funcs_seen)
        r = Result(I, v, raised, I.exc_sink, I.events[n0:], {}, list(I.notes))
        I.exc_sink = []
        return r


class MissingAnchor(Exception):
    pass


# ------------------------------------------------------------------ input builders
def num(name, int_=False, lo=None, kind=None):
    return Num(sym(name, int_, lo), kind or ('int' if int_ else 'float'))


def lst(I, size, f, prov=None):
    return I.alloc(ListC([Seg(P(size), lambda k: [Item(f(k))])], frozenset([prov]) if prov else frozenset()))


def ilist(I, name, size, prov=None):
    h = tensor(name, int_=True, nonneg=True)
    return lst(I, size, lambda k: Num(el(h, k), 'int'), prov)


def flist(I, name, size, prov=None, pos=False):
    h = tensor(name, pos=pos)
    return lst(I, size, lambda k: Num(el(h, k), 'float'), prov)


def arr(I, name, shape, dtype='float', prov=None, **kw):
    h = tensor(name, int_=(dtype == 'int'), **kw)
    return I.new_arr(Arr(shape, lambda *ix: el(h, *ix), dtype, frozenset([prov]) if prov else frozenset()))


def clist(I, vals, prov=None):
    return I.alloc(ListC([Item(v) for v in vals], frozenset([prov]) if prov else frozenset()))


def cdict(I, d, prov=None):
    return I.alloc(DictC(dict(d), frozenset([prov]) if prov else frozenset()))
