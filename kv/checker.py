"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager
from .harness import *
from .compare import compare, Out, EQ, DIFF, UNDEC, cut
from .interp import Unsupported
from .valuation import TOL
from decimal import Decimal

PHYS = Decimal(10)**-8   # precision to which physical constants may be written

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')


class Checker:
    def __init__(self, pid, tier='quick', seed=1, ctx=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.C = ctx or Ctx(REPO)
        self.obs = []
        self.configs = 0
        self.cfg = ''
        self.rule_text = ''
        self.missing = []
        self.t0 = time.time()

    @property
    def I(self):
        return self.C.I

    # ------------------------------------------------------------ locations
    def where(self, at):
        if not at:
            return '?'
        if isinstance(at, tuple):
            return '%s:%s (%s)' % at
        try:
            v = self.C.resolve(at)
        except Exception:
            v = None
        node = getattr(v, 'node', None)
        if node is None:
            return at
        mod = getattr(v, 'module', None)
        mod = mod if isinstance(mod, str) else getattr(mod, 'name', '')
        return '%s.py:%d (%s)' % (str(mod).replace('.', '/'), node.lineno, at.split('.', 2)[-1])

    # ------------------------------------------------------------ obligations
    def add(self, name, verdict, at, how='', got='', want='', witness=''):
        self.obs.append(dict(name=name, config=self.cfg, verdict=verdict, where=self.where(at), how=how,
                             got=cut(got), want=cut(want), witness=cut(witness)))
        return verdict

    def eq(self, name, got, want, at, assume=TRUE, n=14, tol=None):
        old = TOL[0]
        try:
            TOL[0] = tol or old
            o = compare(self.I, got, want, assume, n=n, seed=self.seed)
        except (Unsupported, RecursionError, Exception) as e:
            if os.environ.get('KV_DEBUG'):
                traceback.print_exc()
            o = Out(UNDEC, 'comparison failed: %s: %s' % (type(e).__name__, e))
        finally:
            TOL[0] = old
        return self.add(name, o.verdict, at, o.how, o.got, o.want, o.witness)

    def flag(self, name, ok, at, detail='', want=''):
        """ok: True / False / None (undecided)."""
        return self.add(name, EQ if ok is True else (DIFF if ok is False else UNDEC), at, 'flow analysis', detail, want)

    def undecided(self, name, at, why):
        return self.add(name, UNDEC, at, why)

    @contextmanager
    def config(self, text, at):
        """One abstract run; anything the engine cannot follow becomes an undecided obligation."""
        self.cfg = text
        self.configs += 1
        try:
            yield
        except MissingAnchor as e:
            self.missing.append(str(e))
            self.add('anchor', UNDEC, at, 'entry point %s not found' % e)
        except AbsRaise:
            self.add('analysis', UNDEC, at, 'abstract exception outside a run')
        except RecursionError:
            self.add('analysis', UNDEC, at, 'too deep')
        except Exception as e:
            if os.environ.get('KV_DEBUG'):
                traceback.print_exc()
            self.add('analysis', UNDEC, at, 'not analysable: %s: %s' % (type(e).__name__, e))
        finally:
            self.cfg = ''

    def ran(self, r, at, allow=()):
        """The run completed normally; conditional exceptions other than `allow` are reported by the caller."""
        if r.raised or r.value is None:
            why = '; '.join(sorted({exc_text(e) for e in r.excs})[:3])
            opq = any(has_opaque(e.state.pc) for e in r.excs)
            self.add('completes normally', UNDEC if opq else DIFF, at, 'raises on every path', why, 'returns')
            return False
        return True

    def no_raise(self, r, at, assume=TRUE, ignore=(), name='raises nothing on valid input'):
        """No exception is reachable under `assume`."""
        for e in r.excs:
            if any(exc_isa(e.cls, k) for k in ignore):
                continue
            c = e.state.pc
            o = compare(self.I, BoolV(c_and(c, assume)), BoolV(FALSE), TRUE, seed=self.seed)
            if o.verdict != EQ:
                v = o.verdict
                self.add(name, v, e.loc_at if hasattr(e, 'loc_at') else at, o.how, exc_text(e) + ' when ' + show(c), 'no exception', o.witness)
                return False
        self.add(name, EQ, at, 'path conditions of all raise sites are contradictory')
        return True

    def raises(self, r, classes, at, cond=TRUE, assume=TRUE, name='raises'):
        """Exactly under `cond` an exception of one of `classes` is raised."""
        c = FALSE
        for e in r.excs:
            if any(exc_isa(e.cls, k) for k in classes):
                c = c_or(c, e.state.pc)
        return self.eq(name, BoolV(c), BoolV(cond), at, assume)

    # ------------------------------------------------------------ verdict
    def summary(self):
        n = {EQ: 0, DIFF: 0, UNDEC: 0}
        for o in self.obs:
            n[o['verdict']] += 1
        return n


def exc_text(e):
    return '%s%s' % (getattr(e.cls, 'name', None) or getattr(e.cls, 'q', None) or e.cls, ' at %s:%s' % (e.loc[0], e.loc[1]) if getattr(e, 'loc', None) else '')
