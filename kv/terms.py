"""Canonical terms: the value-numbering domain of the analysis.

Scalars are generalised Laurent polynomials over interned atoms (`Poly`), conditions are ordered
binary decision diagrams over canonical comparison atoms, and sums are binders with canonical
bound names.  Two program fragments that compute the same value number are interned to the same
term; nothing here executes the program under analysis.
"""
from fractions import Fraction
from itertools import permutations
import sys
import time

sys.setrecursionlimit(20000)


class OutOfTime(Exception):
    pass


DEADLINE = [None]


def tick():
    """A run that would take too long is given up: what is left stays undecided."""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime('time budget')


_INTERN = {}
_COUNT = [0]


class Node:
    __slots__ = ('kind', 'args', 'id', '_h', '_free', '_opq', '_height', '_conds')

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def mk(kind, *args):
    k = (kind, args)
    n = _INTERN.get(k)
    if n is None:
        n = Node()
        n.kind = kind
        n.args = args
        _COUNT[0] += 1
        n.id = _COUNT[0]
        n._h = hash(k)
        n._free = None
        n._opq = None
        n._height = None
        n._conds = None
        _INTERN[k] = n
    return n


# ---------------------------------------------------------------- Poly
class Poly:
    """Immutable polynomial: sorted tuple of (monomial, coefficient)."""
    __slots__ = ('terms', '_h')

    def __init__(self, terms):
        self.terms = terms
        self._h = hash(terms)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self._h == o._h and self.terms == o.terms

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.terms:
            return o
        if not o.terms:
            return self
        d = dict(self.terms)
        for m, c in o.terms:
            s = d.get(m, 0) + c
            if s == 0:
                d.pop(m, None)
            else:
                d[m] = s
        return _from_dict(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.terms))

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        if len(self.terms) == 1 and self.terms[0][0] == ():
            c0 = self.terms[0][1]
            if c0 == 1:
                return o
            return Poly(tuple((m, c * c0) for m, c in o.terms))
        if len(o.terms) == 1 and o.terms[0][0] == ():
            return o * self
        acc = {}
        extra = ZERO
        for m1, c1 in self.terms:
            for m2, c2 in o.terms:
                m, ex = _mono_mul(m1, m2)
                c = c1 * c2
                if ex is None:
                    s = acc.get(m, 0) + c
                    if s == 0:
                        acc.pop(m, None)
                    else:
                        acc[m] = s
                else:
                    extra = extra + Poly(((m, c),)) * ex
        r = _from_dict(acc)
        return r + extra if extra.terms else r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * P(o).power(Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) * self.power(Fraction(-1))

    def power(self, e):
        e = Fraction(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.terms:
            return ZERO if e > 0 else atom(mk('fn', '?div0'))
        if len(self.terms) == 1:
            m, c = self.terms[0]
            r = ONE
            if e.denominator == 1:
                r = const(Fraction(c)**int(e))
            else:
                r = _const_pow(c, e)
            for a, x in m:
                if e.denominator % 2 == 0 and x.denominator == 1 and x % 2 == 0 and not _nonneg_atom(a):
                    # sqrt(x^2) = |x|
                    r = r * mk_fn('abs', atom(a)).power(x * e)
                else:
                    r = r * _atom_pow(a, x * e)
            return r
        if e.denominator == 1 and 0 < e <= 6:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        # primitive part
        content, mono, prim = primitive(self)
        if content < 0 and e.denominator != 1:
            content, prim = -content, -prim
        r = const(Fraction(content)**int(e)) if e.denominator == 1 else _const_pow(content, e)
        for a, x in mono:
            r = r * _atom_pow(a, x * e)
        if len(prim.terms) == 1:
            return r * prim.power(e)
        return r * Poly((((((mk('poly', prim)), e),), Fraction(1)),))

    __pow__ = power

    # queries
    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and self.terms[0][0] == ())

    def cval(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and self.terms[0][0] == ():
            return self.terms[0][1]
        return None

    def single_atom(self):
        if len(self.terms) == 1:
            m, c = self.terms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def _from_dict(d):
    return Poly(tuple(sorted(d.items(), key=_mkey)))


def _mkey(item):
    return tuple((a.id, e) for a, e in item[0])


def _const_pow(c, e):
    c = Fraction(c)
    if c < 0:
        return atom(mk('fn', 'cpow', const(c), const(e)))
    # exact root?
    num, den = c.numerator, c.denominator
    q = e.denominator

    def iroot(n):
        r = round(n**(1.0 / q)) if n < 10**300 else 0
        for cand in (r - 1, r, r + 1):
            if cand >= 0 and cand**q == n:
                return cand
        return None
    a, b = iroot(num), iroot(den)
    if a is not None and b is not None:
        return const((Fraction(a) / Fraction(b))**e.numerator)
    k = e.numerator // q  # pull integer part
    frac = e - k
    return const(c**k) * Poly((((((mk('num', c)), frac),), Fraction(1)),))


def _nonneg_atom(a):
    lo = atom_lo(a)
    return lo is not None and lo >= 0


def _atom_pow(a, e):
    if e == 0:
        return ONE
    if a.kind == 'fn' and a.args[0] == 'abs' and e.denominator == 1 and e % 2 == 0:
        return a.args[1].power(e)
    if a.kind == 'poly' and e.denominator == 1 and e > 0:
        return a.args[0].power(e)
    if a.kind == 'num':
        return _const_pow(a.args[0], e)
    if a.kind == 'ite' and e != 1:
        c, x, y = a.args
        if e.denominator != 1 or e < 0:
            return ite(c, x.power(e), y.power(e))
        if e > 1:
            return ite(c, x.power(e), y.power(e))
    return Poly(((((a, e),), Fraction(1)),))


_MONO_MEMO = {}


def _mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    key = (m1, m2)
    r = _MONO_MEMO.get(key)
    if r is not None:
        return r
    d = dict(m1)
    ex = None
    for a, e in m2:
        if a in d:
            s = d[a] + e
            if s == 0:
                del d[a]
            else:
                d[a] = s
            # fold powers that become expandable
            if a in d and a.kind == 'poly' and d[a].denominator == 1 and d[a] > 0:
                k = d.pop(a)
                x = a.args[0].power(k)
                ex = x if ex is None else ex * x
            elif a in d and a.kind == 'num' and (d[a] >= 1 or d[a] < 0):
                k = d.pop(a)
                x = _const_pow(a.args[0], k)
                ex = x if ex is None else ex * x
            elif a in d and a.kind == 'ite':
                k = d.pop(a)
                x = _atom_pow(a, k)
                ex = x if ex is None else ex * x
        else:
            d[a] = e
    m = tuple(sorted(d.items(), key=lambda t: t[0].id))
    r = (m, ex)
    _MONO_MEMO[key] = r
    return r


def primitive(p):
    """content, common monomial, primitive part with leading coefficient positive 1-normalised."""
    cs = [c for _, c in p.terms]
    # divide by the leading coefficient: unique up to scale
    lead = cs[0]
    common = None
    for m, _ in p.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        # atoms missing from a monomial have exponent 0
    neg = {}
    for m, _ in p.terms:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    mono = {}
    for a in set(list(common) + list(neg)):
        es = []
        for m, _ in p.terms:
            es.append(dict(m).get(a, Fraction(0)))
        k = min(es)
        if k != 0:
            mono[a] = k
    mono = tuple(sorted(mono.items(), key=lambda t: t[0].id))
    q = p
    if mono:
        inv = tuple((a, -e) for a, e in mono)
        q = ZERO
        for m, c in p.terms:
            mm, ex = _mono_mul(m, inv)
            t = Poly(((mm, c),))
            q = q + (t if ex is None else t * ex)
    if not q.terms:
        return Fraction(1), mono, q
    lead = q.terms[0][1]
    q = Poly(tuple((m, c / lead) for m, c in q.terms))
    return lead, mono, q


ZERO = Poly(())
ONE = Poly((((), Fraction(1)),))


def const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return Poly((((), c),))


def atom(n):
    return Poly(((((n, Fraction(1)),), Fraction(1)),))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Node):
        return atom(x)
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return from_float(x)
    raise TypeError(repr(x))


def from_float(x):
    if x != x:
        return atom(mk('fn', 'nan'))
    if x in (float('inf'), float('-inf')):
        return INF if x > 0 else -INF
    return const(Fraction(repr(x)))


INF_ATOM = mk('fn', 'inf')
INF = atom(INF_ATOM)
PI = atom(mk('fn', 'pi'))

# ---------------------------------------------------------------- symbols
SYMINFO = {}  # atom -> dict(int=bool, lo=Fraction|None, ub=Poly|None)
_FRESH = [0]


def sym(name, int_=False, lo=None, ub=None):
    n = mk('sym', name)
    if n not in SYMINFO or (int_ or lo is not None or ub is not None):
        SYMINFO[n] = dict(int=int_, lo=None if lo is None else Fraction(lo), ub=ub)
    return atom(n)


def fresh(prefix='k', int_=True, lo=0, ub=None):
    _FRESH[0] += 1
    return sym('%s~%d' % (prefix, _FRESH[0]), int_, lo, ub)


def bv(height, pos, info):
    n = mk('bv', height, pos)
    # bound names are shared by all binders, so only information common to all is kept
    SYMINFO.setdefault(n, dict(int=True, lo=Fraction(0), ub=None))
    return n


INT_FNS = {'floor', 'ceil', 'div', 'len', 'count', 'first_true', 'exit_round', 'rint', 'argmax', 'argmin', 'randint', 'trunc'}
NONNEG_FNS = {'len', 'count', 'abs', 'first_true', 'exit_round', 'argmax', 'argmin', 'exp', 'pi', 'mod', 'inf'}
INT_TENSORS = set()
NONNEG_TENSORS = set()
POS_TENSORS = set()
TENSOR_LO = {}
MONO_TENSORS = set()  # strictly increasing in their only index


def atom_is_int(a):
    k = a.kind
    if k in ('sym', 'bv'):
        return SYMINFO.get(a, {}).get('int', False)
    if k == 'fn':
        if a.args[0] in INT_FNS:
            return True
        if a.args[0] in ('mod', 'max', 'min', 'abs'):
            return all(is_int(x) for x in a.args[1:] if isinstance(x, Poly))
        return a.args[0] in INT_TENSORS
    if k == 'el':
        h = a.args[0]
        return h.args[0] in INT_TENSORS
    if k == 'sum':
        return is_int(a.args[1])
    if k == 'ite':
        return is_int(a.args[1]) and is_int(a.args[2])
    return False


def is_int(p):
    for m, c in p.terms:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0 or not atom_is_int(a):
                return False
    return True


def atom_lo(a):
    """A proved lower bound of an atom, or None."""
    k = a.kind
    if k in ('sym', 'bv'):
        return SYMINFO.get(a, {}).get('lo')
    if k == 'fn':
        if a.args[0] == 'div':
            l1, l2 = poly_lo(a.args[1]), poly_lo(a.args[2])
            return Fraction(0) if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0 else None
        if a.args[0] in ('max', 'min', 'floor', 'trunc', 'ceil', 'rint') and all(isinstance(x, Poly) for x in a.args[1:]):
            ls = [poly_lo(x) for x in a.args[1:]]
            if a.args[0] == 'max':
                ls = [x for x in ls if x is not None]
                return max(ls) if ls else None
            if any(x is None for x in ls):
                return None
            l = min(ls)
            return l if a.args[0] == 'min' else Fraction(l.numerator // l.denominator)
        if a.args[0] in NONNEG_FNS or a.args[0] in NONNEG_TENSORS:
            return Fraction(1) if a.args[0] in POS_TENSORS else Fraction(0)
        return None
    if k == 'el':
        h = a.args[0]
        if h.args[0] in TENSOR_LO:
            return TENSOR_LO[h.args[0]]
        if h.args[0] in POS_TENSORS:
            return Fraction(1) if h.args[0] in INT_TENSORS else Fraction(0)
        if h.args[0] in NONNEG_TENSORS:
            return Fraction(0)
        return None
    if k == 'num':
        return Fraction(0)
    if k == 'poly':
        lo = poly_lo(a.args[0])
        return Fraction(0) if lo is not None and lo >= 0 else None
    if k == 'sum':
        lo = poly_lo(a.args[1])
        return Fraction(0) if lo is not None and lo >= 0 else None
    if k == 'ite':
        l1, l2 = poly_lo(a.args[1]), poly_lo(a.args[2])
        if l1 is None or l2 is None:
            return None
        return min(l1, l2)
    return None


def poly_lo(p):
    """Sum of monomial lower bounds, or None."""
    s = Fraction(0)
    for m, c in p.terms:
        if m == ():
            s += c
            continue
        if c < 0:
            return None
        lo = Fraction(1)
        for a, e in m:
            if e.denominator == 1 and int(e) % 2 == 0 and e > 0:
                al = atom_lo(a)
                lo *= (al**int(e) if al is not None and al >= 0 else 0)
                continue
            al = atom_lo(a)
            if al is None or al < 0:
                return None
            if e < 0 or e.denominator != 1:
                lo *= 0
            else:
                lo *= al**int(e)
        s += c * lo
    return s


# ---------------------------------------------------------------- functions
def fn(name, *args):
    return atom(mk('fn', name, *args))


def el(head, *idx):
    return atom(mk('el', head, tuple(P(i) for i in idx)))


def tensor(name, int_=False, nonneg=False, pos=False, lo=None):
    if lo is not None:
        TENSOR_LO[name] = Fraction(lo)
        nonneg = nonneg or lo >= 0
    if int_:
        INT_TENSORS.add(name)
    if nonneg or pos:
        NONNEG_TENSORS.add(name)
    if pos:
        POS_TENSORS.add(name)
    return mk('head', name)


def fhead(name, *args):
    return mk('head', name, *args)


def floor_(p):
    p = P(p)
    c = p.cval()
    if c is not None:
        return const(c.numerator // c.denominator)
    if is_int(p):
        return p
    # pull integer part out
    ip = ZERO
    rp = ZERO
    for m, c in p.terms:
        t = Poly(((m, c),))
        if m == ():
            k = c.numerator // c.denominator
            ip = ip + k
            rp = rp + (c - k)
        elif is_int(t):
            ip = ip + t
        else:
            rp = rp + t
    return ip + fn('floor', rp)


def div_(a, b):
    """floor division of integers (symbolic)."""
    a, b = P(a), P(b)
    ca, cb = a.cval(), b.cval()
    if cb == 1:
        return floor_(a)
    if ca is not None and cb is not None and cb != 0:
        q = ca / cb
        return const(q.numerator // q.denominator)
    if is_int(a) and is_int(b):
        # a = q*b + r with 0<=r<b provable
        q, r = _split_multiple(a, b)
        if q.terms and _in_range(r, b):
            return q
        if _in_range(a, b):
            return ZERO
        return q + atom(mk('fn', 'div', r, b))
    return floor_(a / b)


def mod_(a, b):
    a, b = P(a), P(b)
    ca, cb = a.cval(), b.cval()
    if ca is not None and cb is not None and cb != 0:
        q = ca / cb
        return const(ca - cb * (q.numerator // q.denominator))
    if is_int(a) and is_int(b):
        q, r = _split_multiple(a, b)
        if _in_range(r, b):
            return r
        if not r.terms:
            return ZERO
        return atom(mk('fn', 'mod', r, b))
    if cb is not None:
        # drop integer multiples of b
        q, r = ZERO, ZERO
        for m, c in a.terms:
            t = Poly(((m, c),))
            if is_int(t / b):
                continue
            r = r + t
        return atom(mk('fn', 'mod', r, b)) if r.terms else ZERO
    return atom(mk('fn', 'mod', a, b))


def _split_multiple(a, b):
    """a = q*b + r, moving monomials divisible by b (b monomial)."""
    if len(b.terms) != 1:
        return ZERO, a
    (bm, bc), = b.terms
    q = ZERO
    r = ZERO
    bd = dict(bm)
    for m, c in a.terms:
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in bd.items()) and (c / bc).denominator == 1:
            q = q + Poly(((m, c),)) / b
        else:
            r = r + Poly(((m, c),))
    return q, r


def _in_range(r, b):
    f = Facts()
    return f.prove_ge0(r) and f.prove_ge0(b - 1 - r)


# ---------------------------------------------------------------- conditions (ROBDD)
TRUE = mk('T')
FALSE = mk('F')


def is_bool(n):
    return isinstance(n, Node) and n.kind in ('T', 'F', 'B')


def _node(a, hi, lo):
    if hi is lo:
        return hi
    return mk('B', a, hi, lo)


def catom(a):
    return _node(a, TRUE, FALSE)


def c_lt0(p):
    """p < 0"""
    p = P(p)
    v = p.cval()
    if v is not None:
        return TRUE if v < 0 else FALSE
    p = lift_ite(p)
    if isinstance(p, tuple):
        c, x, y = p
        return c_ite(c, c_lt0(x), c_lt0(y))
    content = abs(p.terms[0][1])
    if is_int(p) or all(c.denominator == 1 for _, c in p.terms):
        from math import gcd
        g = 0
        for m, c in p.terms:
            if m != ():
                g = gcd(g, int(c))
        content = Fraction(g or 1)
    if is_int(p):
        # divide by gcd g of non-constant coefficients and floor the constant: g*q + k < 0 <=> q + ceil.. 
        k = dict(p.terms).get((), Fraction(0))
        q = (p - k) / content
        # q*content + k < 0  <=> q < -k/content <=> q <= ceil(-k/content)-1
        t = -k / content
        ceil = -((-t.numerator) // t.denominator)
        q = q - ceil  # q < ceil  <=> q - ceil < 0
        lead = next(c for m, c in q.terms if m != ())
        if lead < 0:
            # q < 0 <=> q <= -1 <=> -q >= 1 <=> not (-q - 1 < 0)
            return c_not(catom(mk('lt', -q - 1)))
        return catom(mk('lt', q))
    return catom(mk('lt', p * const(1 / content)))


def c_eq0(p):
    p = P(p)
    v = p.cval()
    if v is not None:
        return TRUE if v == 0 else FALSE
    p = lift_ite(p)
    if isinstance(p, tuple):
        c, x, y = p
        return c_ite(c, c_eq0(x), c_eq0(y))
    p = p * const(1 / p.terms[0][1])
    return catom(mk('eq', p))


def c_lt(a, b):
    return c_lt0(P(a) - P(b))


def c_le(a, b):
    return c_not(c_lt0(P(b) - P(a)))


def c_b(name, *args):
    return catom(mk('b', name, *args))


_AND = {}


def c_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _AND.get(k)
    if r is not None:
        return r
    tops = [x.args[0] for x in (c, a, b) if x.kind == 'B']
    t = min(tops, key=lambda n: n.id)

    def co(x, v):
        if x.kind == 'B' and x.args[0] is t:
            return x.args[1] if v else x.args[2]
        return x
    r = _node(t, c_ite(co(c, 1), co(a, 1), co(b, 1)), c_ite(co(c, 0), co(a, 0), co(b, 0)))
    _AND[k] = r
    return r


def c_and(*cs):
    r = TRUE
    for c in cs:
        r = c_ite(r, c, FALSE)
    return r


def c_or(*cs):
    r = FALSE
    for c in cs:
        r = c_ite(r, TRUE, c)
    return r


def c_not(c):
    return c_ite(c, FALSE, TRUE)


def c_atoms(c, acc=None):
    if acc is None:
        acc = set()
    if c.kind == 'B':
        acc.add(c.args[0])
        c_atoms(c.args[1], acc)
        c_atoms(c.args[2], acc)
    return acc


def c_restrict(c, a, v):
    if c.kind != 'B':
        return c
    if c.args[0] is a:
        return c.args[1] if v else c.args[2]
    return _node2(c.args[0], c_restrict(c.args[1], a, v), c_restrict(c.args[2], a, v))


def _node2(a, hi, lo):
    return c_ite(catom(a), hi, lo)


# ---------------------------------------------------------------- ite scalars
def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if c.kind == 'B' and c.args[1] is FALSE and c.args[2] is TRUE:
        # a negated atom: swap
        c, a, b = _node(c.args[0], TRUE, FALSE), b, a
    a, b = _under(a, c, 1), _under(b, c, 2)
    if a == b:
        return a
    return atom(mk('ite', c, a, b))


def _under(p, c, j):
    """top-level conditionals of p on the same condition are decided"""
    mp = None
    for m, _ in p.terms:
        for x, _e in m:
            if x.kind == 'ite' and x.args[0] is c:
                if mp is None:
                    mp = {}
                mp[x] = x.args[j]
    return p if mp is None else replace_atoms(p, mp)


def lift_ite(p):
    """If a top-level ite atom occurs in p return (cond, p_true, p_false) else p.  All top-level ites on that condition are resolved."""
    cond = None
    tr, fa = {}, {}
    for m, c in p.terms:
        for a, e in m:
            if a.kind == 'ite':
                c0 = a.args[0]
                if cond is None:
                    cond = c0
                    ncond = c_not(c0)
                if c0 is cond:
                    tr[a], fa[a] = a.args[1], a.args[2]
                elif c0 is ncond:
                    tr[a], fa[a] = a.args[2], a.args[1]
    if cond is None:
        return p
    return cond, replace_atoms(p, tr), replace_atoms(p, fa)


def replace_atoms(p, mp):
    d = {}
    r = ZERO
    for m, c in p.terms:
        if not any(x in mp for x, _ in m):
            d[m] = d.get(m, 0) + c
            continue
        t = Poly(((tuple((x, e) for x, e in m if x not in mp), c),))
        for x, e in m:
            if x in mp:
                t = t * mp[x].power(e)
        for m2, c2 in t.terms:
            s = d.get(m2, 0) + c2
            if s == 0:
                d.pop(m2, None)
            else:
                d[m2] = s
    return _from_dict({m: c for m, c in d.items() if c != 0})


def replace_atom(p, a, val):
    r = ZERO
    for m, c in p.terms:
        t = const(c)
        for x, e in m:
            if x is a:
                t = t * val.power(e)
            else:
                t = t * _atom_pow(x, e)
        r = r + t
    return r


# ---------------------------------------------------------------- traversal
def free(x):
    """Set of sym/bv atoms occurring free."""
    if isinstance(x, Poly):
        r = set()
        for m, _ in x.terms:
            for a, _ in m:
                r |= free(a)
        return r
    if isinstance(x, Node):
        if x._free is not None:
            return x._free
        if x.kind in ('sym', 'bv'):
            r = frozenset([x])
        elif x.kind == 'sum':
            r = free(x.args[1])
            for b, s in x.args[0]:
                r = r | free(s)
            r = frozenset(r - {b for b, _ in x.args[0]})
        elif x.kind == 'arrT':
            bs, body = x.args[0], x.args[1:]
            r = set()
            for y in body:
                r |= free(y)
            r = frozenset(r - set(bs))
        else:
            r = set()
            for y in x.args:
                r |= free(y)
            r = frozenset(r)
        x._free = frozenset(r)
        return x._free
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= free(y)
        return r
    return set()


def height(x):
    if isinstance(x, Poly):
        h = 0
        for m, _ in x.terms:
            for a, _ in m:
                h = max(h, height(a))
        return h
    if isinstance(x, Node):
        if x._height is not None:
            return x._height
        h = 0
        for y in x.args:
            h = max(h, height(y))
        if x.kind == 'sum':
            h = max(h, max(b.args[0] for b, _ in x.args[0]))
        elif x.kind == 'arrT':
            h = max([h] + [b.args[0] for b in x.args[0]])
        elif x.kind == 'bv':
            h = 0
        x._height = h
        return h
    if isinstance(x, tuple):
        return max([0] + [height(y) for y in x])
    return 0


def has_opaque(x):
    if isinstance(x, Poly):
        return any(has_opaque(a) for m, _ in x.terms for a, _ in m)
    if isinstance(x, Node):
        if x._opq is None:
            x._opq = False
            r = x.kind in ('fn', 'b', 'head', 'sym') and isinstance(x.args[0], str) and x.args[0].startswith('?')
            x._opq = r or any(has_opaque(y) for y in x.args)
        return x._opq
    if isinstance(x, (tuple, list)):
        return any(has_opaque(y) for y in x)
    if isinstance(x, str):
        return False
    return False


def opaque_names(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for m, _ in x.terms:
            for a, _ in m:
                opaque_names(a, acc)
    elif isinstance(x, Node):
        if has_opaque(x):
            if x.kind in ('fn', 'b', 'head', 'sym') and isinstance(x.args[0], str) and x.args[0].startswith('?'):
                acc.add(x.args[0])
            for y in x.args:
                opaque_names(y, acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            opaque_names(y, acc)
    return acc


# ---------------------------------------------------------------- rebuild / substitution
class Sub:
    """Substitution of free symbols; subterms without them are shared."""
    __slots__ = ('mp', 'keys')

    def __init__(self, mp):
        self.mp = mp
        self.keys = frozenset(mp)

    def __call__(self, a):
        return self.mp.get(a)

    def plus(self, m2):
        d = dict(self.mp)
        d.update(m2)
        return Sub(d)


WORK = [0]   # terms rebuilt so far
EQ_WORK = 150000


def rebuild(x, f, memo):
    """Rebuild a term bottom-up through the smart constructors.  f maps leaf atoms to Poly or None."""
    WORK[0] += 1
    if isinstance(x, Poly):
        k = x
        r = memo.get(k)
        if r is not None:
            return r
        if type(f) is Sub and f.keys.isdisjoint(free(x)):
            memo[k] = x
            return x
        r = ZERO
        for m, c in x.terms:
            t = const(c)
            for a, e in m:
                t = t * rebuild_atom(a, f, memo).power(e)
            r = r + t
        memo[k] = r
        return r
    if isinstance(x, tuple):
        return tuple(rebuild(y, f, memo) for y in x)
    if isinstance(x, Node):
        if x.kind in ('T', 'F'):
            return x
        if type(f) is Sub and f.keys.isdisjoint(free(x)):
            return x
        if x.kind == 'B':
            r = memo.get(x)
            if r is None:
                a = rebuild_catom(x.args[0], f, memo)
                r = c_ite(a, rebuild(x.args[1], f, memo), rebuild(x.args[2], f, memo))
                memo[x] = r
            return r
        if x.kind in ('head',):
            r = memo.get(x)
            if r is None:
                r = mk('head', x.args[0], *[rebuild(y, f, memo) for y in x.args[1:]])
                memo[x] = r
            return r
        if x.kind == 'arrT':
            r = memo.get(x)
            if r is None:
                bs = x.args[0]
                fr = [fresh('r') for _ in bs]
                m2 = {b: v for b, v in zip(bs, fr)}

                if type(f) is Sub:
                    f2, mm = f.plus(m2), {}
                    body = tuple(rebuild(y, f2, mm) for y in x.args[1:])
                else:
                    # rename bound to fresh first
                    f2, mm, m3 = Sub(m2), {}, {}
                    body = tuple(rebuild(rebuild(y, f2, mm), f, m3) for y in x.args[1:])
                r = mk_arrT([v.single_atom() for v in fr], *body)
                memo[x] = r
            return r
        r = rebuild_atom(x, f, memo)
        a = r.single_atom() if isinstance(r, Poly) else None
        return a if a is not None else r
    return x


def rebuild_catom(a, f, memo):
    r = memo.get(a)
    if r is not None:
        return r
    sp = f(a)
    if sp is not None:
        return sp
    if a.kind == 'lt':
        r = c_lt0(rebuild(a.args[0], f, memo))
    elif a.kind == 'eq':
        r = c_eq0(rebuild(a.args[0], f, memo))
    else:
        r = mk_b(a.args[0], *[rebuild(y, f, memo) for y in a.args[1:]])
    memo[a] = r
    return r


STREQ_CONSTS = {}  # class of string-valued terms -> constants they are compared with


def str_class(p):
    return (p.kind,) + tuple(a for a in p.args[:1] if isinstance(a, str))


def mk_b(name, *args):
    """Boolean uninterpreted atom with the few simplifications we rely on."""
    if name == 'streq':
        x, y = args
        if x is y:
            return TRUE
        if isinstance(x, Node) and isinstance(y, Node) and x.kind == 'strc' and y.kind == 'strc':
            return FALSE
        for p, q in ((x, y), (y, x)):
            p = p.single_atom() if isinstance(p, Poly) else p
            if isinstance(p, Node) and isinstance(q, Node) and q.kind == 'strc' and p.kind != 'strc':
                STREQ_CONSTS.setdefault(str_class(p), set()).add(q.args[0])
        if isinstance(x, Node) and isinstance(y, Node) and y.id < x.id:
            x, y = y, x
        return catom(mk('b', 'streq', x, y))
    if name == 'any':
        at = args[0]
        body = at.args[1]
        if body is FALSE:
            return FALSE
        if body is TRUE:
            return c_lt0(-_prod(at.args[2:]))
        return catom(mk('b', name, *args))
    return catom(mk('b', name, *args))


def _prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def rebuild_atom(a, f, memo):
    """-> Poly"""
    r = memo.get(a)
    if r is not None:
        return r
    sp = f(a)
    if sp is not None:
        return sp
    k = a.kind
    if type(f) is Sub and f.keys.isdisjoint(free(a)):
        return a.args[0] if k == 'poly' else atom(a)
    if k in ('sym', 'bv', 'num'):
        r = atom(a) if k != 'num' else atom(a)
    elif k == 'poly':
        r = rebuild(a.args[0], f, memo)
        # caller applies power
        memo[a] = r
        return r
    elif k == 'fn':
        r = mk_fn(a.args[0], *[rebuild(y, f, memo) for y in a.args[1:]])
    elif k == 'el':
        r = mk_el(rebuild(a.args[0], f, memo), *rebuild(a.args[1], f, memo))
    elif k == 'ite':
        c = rebuild(a.args[0], f, memo)
        r = ite(c, rebuild(a.args[1], f, memo), rebuild(a.args[2], f, memo))
    elif k == 'sum':
        bs = a.args[0]
        m2 = {}
        cur = []
        body = a.args[1]
        for b, s in bs:
            v = fresh('s')
            m2[b] = v
            cur.append([v, s])
        if type(f) is Sub:
            f2, mm = f.plus(m2), {}
            body = rebuild(body, f2, mm)
            cur = [(v, rebuild(s, f2, mm)) for v, s in cur]
        else:
            f2, mm, m3 = Sub(m2), {}, {}
            body = rebuild(rebuild(body, f2, mm), f, m3)
            cur = [(v, rebuild(rebuild(s, f2, mm), f, m3)) for v, s in cur]
        for v, s in cur:
            va = v.single_atom()
            SYMINFO[va]['ub'] = s
        for v, s in reversed(cur):
            body = sum_body(v.single_atom(), s, body)
        r = body
    elif k in ('lt', 'eq', 'b'):
        raise TypeError('condition atom in scalar position')
    else:
        r = atom(mk(k, *[rebuild(y, f, memo) for y in a.args]))
    memo[a] = r
    return r


FN_RULES = {}


def mk_fn(name, *args):
    if name == 'floor':
        return floor_(args[0])
    if name == 'div':
        return div_(*args)
    if name == 'mod':
        return mod_(*args)
    if name in FN_RULES:
        return FN_RULES[name](*args)
    return fn(name, *args)


def mk_el(head, *idx):
    r = EL_RULES.get(head.args[0])
    if r is not None:
        v = r(head, *idx)
        if v is not None:
            return v
    return el(head, *idx)


EL_RULES = {}


def subst(x, mapping):
    """mapping: sym/bv Node -> Poly"""
    if not mapping:
        return x
    fr = free(x)
    mp = {k: v for k, v in mapping.items() if k in fr}
    if not mp:
        return x
    return rebuild(x, Sub(mp), {})


# ---------------------------------------------------------------- binders
def mk_arrT(bs, *body):
    """Close body over the fresh symbols bs (list of Nodes) with canonical names."""
    h = 1 + max([0] + [height(y) for y in body])
    names = [bv(h, i, None) for i in range(len(bs))]
    mp = {b: atom(n) for b, n in zip(bs, names)}
    body = tuple(subst(y, mp) for y in body)
    return mk('arrT', tuple(names), *body)


def sum_over(size, f):
    size = P(size)
    c = size.cval()
    if c is not None and c.denominator == 1 and c <= 12:
        r = ZERO
        for k in range(int(c)):
            r = r + f(const(k))
        return r
    v = fresh('s', ub=size)
    return sum_body(v.single_atom(), size, f(v))


def sum_body(v, size, body):
    size = P(size)
    c = size.cval()
    if c is not None and c.denominator == 1 and c <= 12:
        r = ZERO
        for k in range(int(c)):
            r = r + subst(body, {v: const(k)})
        return r
    if v not in free(body):
        return body * size
    # Kronecker conditions on v
    kr = _find_kron(v, body)
    if kr is not None:
        a, e = kr
        b0 = assume_atom(body, a, False)
        b1 = assume_atom(body, a, True)
        d = subst(b1, {v: e}) - subst(b0, {v: e})
        inr = c_and(c_le(0, e), c_lt(e, size))
        f = Facts()
        inr = f.simplify(inr)
        return sum_body(v, size, b0) + ite(inr, d, ZERO)
    # product range with div/mod only
    dm = _find_divmod(v, size, body)
    if dm is not None:
        return dm
    r = ZERO
    for m, cf in body.terms:
        dep = [(a, e) for a, e in m if v in free(a)]
        ind = tuple((a, e) for a, e in m if v not in free(a))
        t = Poly(((ind, cf),))
        if not dep:
            r = r + t * size
        else:
            r = r + t * _sum_mono([(v, size)], dep)
    return r


def _find_kron(v, x):
    """A cond atom eq(p) with p = ±v + e occurring in ite atoms of x (not under binders)."""
    for a in sorted(cond_atoms(x), key=lambda n: n.id):
        if a.kind == 'eq':
            e = solve_for(a.args[0], v)
            if e is not None:
                return a, e
    return None


def solve_for(p, v):
    """p == 0 solved for symbol v when linear with unit coefficient."""
    cf = None
    rest = ZERO
    for m, c in p.terms:
        if m == ((v, Fraction(1)),):
            cf = c
        else:
            t = Poly(((m, c),))
            if v in free(t):
                return None
            rest = rest + t
    if cf is None:
        return None
    return rest * const(-1 / cf)


def _find_divmod(v, size, body):
    found = set()
    seen = set()

    def scan(x):
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for a, _ in m:
                    scan(a)
        elif isinstance(x, tuple):
            for y in x:
                scan(y)
        elif isinstance(x, Node):
            if x in seen or v not in free(x):
                return
            seen.add(x)
            if x.kind == 'fn' and x.args[0] in ('div', 'mod') and x.args[1] == atom(v):
                found.add(x.args[2])
            for y in x.args:
                scan(y)
    scan(body)
    if len(found) != 1:
        return None
    M = found.pop()
    N = size / M
    if any(e < 0 for m, _ in N.terms for _, e in m):
        return None
    d, md = mk('fn', 'div', atom(v), M), mk('fn', 'mod', atom(v), M)
    x, y = fresh('s', ub=N), fresh('s', ub=M)
    b2 = rebuild(body, lambda a: x if a is d else (y if a is md else None), {})
    if v in free(b2):
        return None
    return sum_body(x.single_atom(), N, sum_body(y.single_atom(), M, b2))


def _sum_mono(binders, factors):
    """Σ_binders Π factors with every binder used; flatten, split into components, canonicalise."""
    out = []
    extra = []
    for a, e in factors:
        if a.kind == 'sum' and e == 1:
            mp = {}
            inner = []
            for b, s in a.args[0]:
                w = fresh('s')
                mp[b] = w
                inner.append((w, s))
            body = subst(a.args[1], mp)
            for w, s in inner:
                s2 = subst(s, mp)
                SYMINFO[w.single_atom()]['ub'] = s2
                extra.append((w.single_atom(), s2))
            (m, c), = body.terms
            assert c == 1
            out.extend(m)
        else:
            out.append((a, e))
    binders = binders + extra
    # merge equal atoms
    d = {}
    for a, e in out:
        d[a] = d.get(a, 0) + e
    factors = [(a, e) for a, e in d.items() if e != 0]
    bset = {b for b, _ in binders}
    # components
    groups = []
    for a, e in factors:
        vs = free(a) & bset
        groups.append((set(vs), [(a, e)]))
    for b, s in binders:
        groups.append(({b} | (free(s) & bset), []))
    merged = []
    for vs, fs in groups:
        if not vs:
            merged.append((vs, fs))
            continue
        vs = set(vs)
        fs = list(fs)
        rest = []
        for v2, f2 in merged:
            if v2 & vs:
                vs |= v2
                fs = f2 + fs
            else:
                rest.append((v2, f2))
        merged = rest + [(vs, fs)]
    r = ONE
    for vs, fs in merged:
        bs = [(b, s) for b, s in binders if b in vs]
        p = ONE
        for a, e in fs:
            p = p * _atom_pow(a, e)
        if not bs:
            r = r * p
        elif len(p.terms) != 1 or p.terms[0][1] != 1 or any(not (free(atom(b)) & free(p)) for b, _ in bs):
            # needs the general path
            q = p
            for b, s in reversed(bs):
                q = sum_body(b, s, q)
            r = r * q
        else:
            r = r * _canon_sum(bs, p)
    return r


def _canon_sum(bs, p):
    h = 1 + max([height(p)] + [height(s) for _, s in bs])
    best = None
    for perm in permutations(range(len(bs))):
        order = [bs[i] for i in perm]
        # a binder may only depend on earlier ones
        ok = True
        seen = set()
        allb = {b for b, _ in bs}
        for b, s in order:
            if (free(s) & allb) - seen:
                ok = False
                break
            seen.add(b)
        if not ok:
            continue
        mp = {b: atom(bv(h, i, None)) for i, (b, _) in enumerate(order)}
        body = subst(p, mp)
        node = mk('sum', tuple((bv(h, i, None), subst(s, mp)) for i, (b, s) in enumerate(order)), body)
        if best is None or node.id < best.id:
            best = node
    return atom(best)


# ---------------------------------------------------------------- conditions inside terms
def cond_atoms(x, bound=frozenset()):
    """Condition atoms occurring in x that do not depend on bound names."""
    acc = set()
    seen = set()

    def scan(y, bnd):
        if isinstance(y, Poly):
            for m, _ in y.terms:
                for a, _ in m:
                    scan(a, bnd)
        elif isinstance(y, tuple):
            for z in y:
                scan(z, bnd)
        elif isinstance(y, Node):
            if (y, bnd) in seen:
                return
            seen.add((y, bnd))
            if y.kind == 'B':
                a = y.args[0]
                if not (free(a) & bnd):
                    acc.add(a)
                scan(a, bnd)
                scan(y.args[1], bnd)
                scan(y.args[2], bnd)
            elif y.kind == 'sum':
                b2 = bnd | {b for b, _ in y.args[0]}
                for _, s in y.args[0]:
                    scan(s, b2)
                scan(y.args[1], b2)
            elif y.kind == 'arrT':
                b2 = bnd | set(y.args[0])
                for z in y.args[1:]:
                    scan(z, b2)
            else:
                for z in y.args:
                    scan(z, bnd)
    scan(x, bound)
    return acc


def assume_atom(x, a, val):
    c = TRUE if val else FALSE

    def f(n):
        if n is a:
            return c
        return None
    r = rebuild(x, f, {})
    if val and a.kind == 'eq':
        for s in sorted(free(a.args[0]), key=lambda n: -n.id):
            if s.kind == 'sym':
                e = solve_for(a.args[0], s)
                if e is not None:
                    r = subst(r, {s: e})
                    break
    return r


class Facts:
    """A conjunction of linear facts (polynomials known >= 0), disequalities and boolean assignments."""

    def __init__(self, ge=(), assign=None):
        self.ge = list(ge)
        self.assign = dict(assign or {})

    def with_(self, a, v):
        f = Facts(self.ge, self.assign)
        f.assign[a] = v
        if a.kind == 'lt':
            p = a.args[0]
            if v:
                f.ge.append(-p - 1 if is_int(p) else -p)
            else:
                f.ge.append(p)
        elif a.kind == 'eq' and v:
            f.ge.append(a.args[0])
            f.ge.append(-a.args[0])
        return f

    def with_cond(self, c):
        """Add the facts a condition implies (its forced atoms)."""
        f = self
        changed = True
        while changed and c.kind == 'B':
            changed = False
            for a in c_atoms(c):
                if c_restrict(c, a, True) is FALSE:
                    f = f.with_(a, False)
                    c = c_restrict(c, a, False)
                    changed = True
                    break
                if c_restrict(c, a, False) is FALSE:
                    f = f.with_(a, True)
                    c = c_restrict(c, a, True)
                    changed = True
                    break
        return f

    def bounds_of(self, p):
        out = []
        for s in free(p):
            ub = SYMINFO.get(s, {}).get('ub')
            if ub is not None:
                out.append(ub - 1 - atom(s))
        return out

    def prove_ge0(self, p, depth=3, seen=None):
        lo = poly_lo(p)
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        for f in self.ge + self.bounds_of(p):
            # p = k*f + rest; choose k to cancel a negative monomial of p
            negs = {m: c for m, c in p.terms if c < 0 and m != ()}
            fd = dict(f.terms)
            for m, c in negs.items():
                cf = fd.get(m)
                if cf is not None and cf < 0:
                    k = c / cf
                    if self.prove_ge0(p - f * const(k), depth - 1):
                        return True
            if not negs and p.terms:
                # constant too negative: use f with k=1
                if dict(p.terms).get((), Fraction(0)) < 0:
                    for m, c in p.terms:
                        if m != () and c > 0 and fd.get(m, 0) > 0:
                            k = c / fd[m]
                            if self.prove_ge0(p - f * const(k), depth - 1):
                                return True
        return False

    def decide(self, a):
        if a in self.assign:
            return self.assign[a]
        if a.kind == 'lt':
            p = a.args[0]
            if self.prove_ge0(p):
                return False
            q = -p - 1 if is_int(p) else -p
            if is_int(p):
                if self.prove_ge0(q):
                    return True
            else:
                lo = poly_lo(q)
                if lo is not None and lo > 0:
                    return True
                for g in self.ge:
                    lo = poly_lo(q - g)
                    if lo is not None and lo > 0:
                        return True
            return None
        if a.kind == 'eq':
            p = a.args[0]
            if is_int(p):
                if self.prove_ge0(p - 1) or self.prove_ge0(-p - 1):
                    return False
            else:
                lo = poly_lo(p)
                if lo is not None and lo > 0:
                    return False
            if self.prove_ge0(p) and self.prove_ge0(-p):
                return True
            # strict facts
            for b, v in self.assign.items():
                if b.kind == 'lt' and v and (b.args[0] == p or b.args[0] == -p):
                    return False
            return None
        return None

    def feasible(self):
        for a, v in self.assign.items():
            if a.kind == 'lt' and v:
                # lt true but provably >=0 from the other facts
                f = Facts([g for g in self.ge], {b: w for b, w in self.assign.items() if b is not a})
                own = -a.args[0] - 1 if is_int(a.args[0]) else -a.args[0]
                f.ge = [g for g in f.ge if g != own]
                d = f.decide(a)
                if d is False:
                    return False
            elif a.kind == 'lt' and not v:
                f = Facts([g for g in self.ge if g != a.args[0]], {b: w for b, w in self.assign.items() if b is not a})
                if f.decide(a) is True:
                    return False
            elif a.kind == 'eq':
                f = Facts([g for g in self.ge if g != a.args[0] and g != -a.args[0]],
                          {b: w for b, w in self.assign.items() if b is not a})
                d = f.decide(a)
                if d is not None and d != v:
                    return False
        return True

    def simplify(self, c):
        """Simplify a condition under the facts."""
        if c.kind != 'B':
            return c
        a = c.args[0]
        d = self.decide(a)
        if d is True:
            return self.simplify(c.args[1])
        if d is False:
            return self.simplify(c.args[2])
        hi = self.with_(a, True).simplify(c.args[1])
        lo = self.with_(a, False).simplify(c.args[2])
        return c_ite(catom(a), hi, lo)

    def simp(self, x):
        """Simplify every decidable condition in a term."""
        for _ in range(20):
            done = True
            for a in sorted(cond_atoms(x), key=lambda n: n.id):
                d = self.decide(a)
                if d is not None:
                    x = assume_atom(x, a, d)
                    done = False
                    break
            if done:
                return x
        return x


# ---------------------------------------------------------------- equality
class Diff(Exception):
    def __init__(self, left, right, facts, note=''):
        self.left, self.right, self.facts, self.note = left, right, facts, note


def is_zero(p):
    """Zero test of a rational form: clear the inverse polynomial atoms, then expand."""
    for _ in range(24):
        if not p.terms:
            return True
        worst = None
        for m, c in p.terms:
            for a, e in m:
                if a.kind == 'poly' and e < 0:
                    worst = a
        if worst is None:
            return False
        k = max(-dict(m).get(worst, Fraction(0)) for m, _ in p.terms)
        q = ZERO
        for m, c in p.terms:
            d = dict(m)
            e = d.pop(worst, Fraction(0)) + k
            t = Poly(((tuple(sorted(d.items(), key=lambda t: t[0].id)), c),))
            if e.denominator == 1:
                t = t * (worst.args[0].power(e) if e else ONE)
            else:
                t = t * _atom_pow(worst, e)
            q = q + t
        if q == p:
            return False
        p = q
    return False


def equal(p, q, facts=None, budget=None):
    """Decide p == q for every valuation satisfying facts.  Raises Diff at the first differing leaf."""
    facts = facts or Facts()
    if budget is None:
        budget = [400, WORK[0] + EQ_WORK]
    if WORK[0] > budget[1]:
        raise Diff(atom(mk('fn', '?budget')), q, facts, 'work budget')
    p, q = facts.simp(p), facts.simp(q)
    if p == q or is_zero(p - q):
        return True
    d = p - q
    atoms = cond_atoms(d)
    if not atoms:
        # conditions may sit in both sides' shared parts
        if facts.feasible():
            raise Diff(p, q, facts)
        return True
    budget[0] -= 1
    if budget[0] < 0:
        raise Diff(atom(mk('fn', '?budget')), q, facts, 'case split budget')
    a = min(atoms, key=lambda n: (0 if n.kind == 'eq' else 1, n.id))
    for v in (True, False):
        f = facts.with_(a, v)
        if not f.feasible():
            continue
        p2, q2 = assume_atom(p, a, v), assume_atom(q, a, v)
        f2 = f
        if v and a.kind == 'eq':
            f2 = _subst_facts(f, a)
        equal(p2, q2, f2, budget)
    return True


def _subst_facts(f, a):
    for s in sorted(free(a.args[0]), key=lambda n: -n.id):
        if s.kind == 'sym':
            e = solve_for(a.args[0], s)
            if e is not None:
                mp = {s: e}
                ub = SYMINFO.get(s, {}).get('ub')
                lo = SYMINFO.get(s, {}).get('lo')
                g = Facts([subst(x, mp) for x in f.ge], f.assign)
                if ub is not None:
                    g.ge.append(subst(ub - 1 - atom(s), mp))
                if lo is not None:
                    g.ge.append(e - lo)
                g.ge = [x for x in g.ge if x.terms]
                return g
    return f


def c_equal(c1, c2, facts=None):
    """Conditions equal under facts (truth table over their atoms, infeasible rows skipped)."""
    facts = facts or Facts()
    c1, c2 = facts.simplify(c1), facts.simplify(c2)
    if c1 is c2:
        return True
    ats = sorted(c_atoms(c1) | c_atoms(c2), key=lambda n: n.id)
    if not ats:
        if facts.feasible():
            raise Diff(c1, c2, facts)
        return True
    a = ats[0]
    for v in (True, False):
        f = facts.with_(a, v)
        if not f.feasible():
            continue
        x, y = c_restrict(c1, a, v), c_restrict(c2, a, v)
        if v and a.kind == 'eq':
            x, y = assume_atom(x, a, v), assume_atom(y, a, v)
            f = _subst_facts(f, a)
        c_equal(x, y, f)
    return True


# ---------------------------------------------------------------- printing
def show(x, depth=0):
    if isinstance(x, Poly):
        if not x.terms:
            return '0'
        out = []
        for m, c in x.terms[:12]:
            fs = []
            for a, e in m:
                s = show(a, depth + 1)
                fs.append(s if e == 1 else '%s^%s' % (s, e if e.denominator == 1 and e > 0 else '(%s)' % e))
            if c != 1 or not fs:
                cs = str(c) if abs(c.numerator) < 10**9 and c.denominator < 10**9 else '%.6g' % float(c)
                fs.insert(0, cs)
            out.append('*'.join(fs))
        if len(x.terms) > 12:
            out.append('...')
        s = ' + '.join(out)
        return s if len(out) == 1 or depth == 0 else '(' + s + ')'
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, depth + 1) for y in x) + ')'
    if not isinstance(x, Node):
        return str(x)
    if depth > 14:
        return '…'
    k = x.kind
    if k == 'sym':
        return x.args[0]
    if k == 'bv':
        return 'b%d_%d' % x.args[:2]
    if k == 'fn':
        return x.args[0] + ('(' + ', '.join(show(y, depth + 1) for y in x.args[1:]) + ')' if len(x.args) > 1 else '')
    if k == 'el':
        return show(x.args[0], depth + 1) + '[' + ', '.join(show(y, 0) for y in x.args[1]) + ']'
    if k == 'head':
        return x.args[0] + ('(' + ', '.join(show(y, depth + 1) for y in x.args[1:]) + ')' if len(x.args) > 1 else '')
    if k == 'poly':
        return '(' + show(x.args[0], 0) + ')'
    if k == 'num':
        return str(x.args[0])
    if k == 'sum':
        return 'Σ_{' + ','.join('%s<%s' % (show(b), show(s)) for b, s in x.args[0]) + '}[' + show(x.args[1], depth + 1) + ']'
    if k == 'ite':
        return 'if(' + show(x.args[0], depth + 1) + ' ? ' + show(x.args[1], depth + 1) + ' : ' + show(x.args[2], depth + 1) + ')'
    if k == 'lt':
        return show(x.args[0]) + ' < 0'
    if k == 'eq':
        return show(x.args[0]) + ' == 0'
    if k == 'b':
        return x.args[0] + '(' + ', '.join(show(y, depth + 1) for y in x.args[1:]) + ')'
    if k == 'T':
        return 'true'
    if k == 'F':
        return 'false'
    if k == 'B':
        if x.args[1] is TRUE and x.args[2] is FALSE:
            return show(x.args[0], depth + 1)
        if x.args[1] is FALSE and x.args[2] is TRUE:
            return 'not(' + show(x.args[0], depth + 1) + ')'
        if x.args[1] is FALSE:
            return 'not(%s) and %s' % (show(x.args[0], depth + 1), show(x.args[2], depth + 1))
        if x.args[2] is FALSE:
            return '%s and %s' % (show(x.args[0], depth + 1), show(x.args[1], depth + 1))
        return 'ite(' + ', '.join(show(y, depth + 1) for y in x.args) + ')'
    if k == 'arrT':
        return 'λ' + ','.join(show(b) for b in x.args[0]) + '.' + show(x.args[1], depth + 1)
    if k == 'strc':
        return repr(x.args[0])
    return k + '(' + ', '.join(show(y, depth + 1) for y in x.args) + ')'
