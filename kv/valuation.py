"""Random interpretation of terms (Gulwani & Necula): the second, semantic equality test of the value numbering.

Two canonical terms that differ in shape may still denote the same function of their free symbols.  They are
compared by assigning pseudo-random values to the free symbols (small naturals to sizes, hash values to
uninterpreted tensors and functions) and evaluating the *terms*.  No statement of the analysed program is run.
"""
import hashlib
import math
from decimal import Decimal, Context, localcontext, ROUND_FLOOR, ROUND_CEILING, ROUND_HALF_EVEN, InvalidOperation, DivisionByZero, Overflow
import decimal
from fractions import Fraction
from .terms import *

D0, D1 = Decimal(0), Decimal(1)
decimal.getcontext().prec = 50
EPS = Decimal(10)**-30
TOL = [Decimal(10)**-13]   # relative difference below which two values are the same
CAP = 6000
STEPS = 150000   # elements enumerated under binders in one valuation
D_PI = Decimal('3.14159265358979323846264338327950288419716939937510582')


SYM_MATS = {'cov_nearest'}  # uninterpreted symmetric matrices


class Skip(Exception):
    """The valuation does not give the term a value (division by zero, empty range, too large...)."""


def frac(c):
    return Decimal(c.numerator) / Decimal(c.denominator)


def key(x):
    if isinstance(x, Decimal):
        if abs(x) < EPS:
            return '0'
        with localcontext() as c:
            c.prec = 24
            return str((+x).normalize())
    return x


def close(x, y):
    d = abs(x - y)
    return d <= EPS or d <= TOL[0] * max(abs(x), abs(y))


def seed_digest(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=12).digest(), 'big')


BIG = 12   # literals of at least this size in counts, indices and their comparisons are treated as limits


def atom_counts(a):
    """an atom that is a whole number (sizes, indices, lengths)"""
    return atom_is_int(a) or a.kind == 'fn' and a.args[0] in ('ulen', 'masklen')


def counts(p):
    """a polynomial over whole-number atoms"""
    return all(e.denominator == 1 and e > 0 and atom_counts(a) for m, _ in p.terms for a, e in m)


def shrink(c, sigma):
    for k, d in ((c, False), (1 / c, True)):
        if k.denominator == 1 and abs(k) in sigma:
            x = Fraction(sigma[abs(k)]) * (1 if k > 0 else -1)
            return 1 / x if d else x
    return c


def limits(terms):
    """large literals in counts, indices and comparisons of counts"""
    out, seen = set(), set()

    def take(p):
        if isinstance(p, Poly) and counts(p):
            for _, c in p.terms:
                for k in (c, 1 / c):
                    if k.denominator == 1 and abs(k) >= BIG:
                        out.add(abs(k))

    def go(x):
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for a, _ in m:
                    go(a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Node):
            if x in seen:
                return
            seen.add(x)
            k = x.kind
            if k in ('lt', 'eq'):
                take(x.args[0])
            elif k == 'fn' and x.args[0] in ('floor', 'ceil', 'div', 'mod', 'max', 'min'):
                for y in x.args[1:]:
                    take(y)
            elif k == 'el':
                for y in x.args[1]:
                    take(y)
            elif k == 'ite' and atom_counts(x):
                take(x.args[1])
                take(x.args[2])
            elif k == 'sum':
                for _, y in x.args[0]:
                    take(y if isinstance(y, Poly) else None)
            elif k in ('arrT', 'seg'):
                for y in x.args[2:]:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        take(z)
            for y in x.args:
                go(y)
    for t in terms:
        go(t)
    return out


def sigmas(ks, n=3):
    """small stand-ins of the limits, keeping their order and the differences of close ones"""
    ks = sorted(ks)
    for s in range(2, 2 + n):
        m, nxt, prev = {}, s, None
        for k in ks:
            if prev is not None and k - prev <= 3:
                m[k] = m[prev] + int(k - prev)
            else:
                m[k] = nxt
            nxt = m[k] + 2
            prev = k
        yield m


class Valuation:
    def __init__(self, seed, fixed=None, spread=4, scale=1, sigma=None, patterns=(), skewed=False):
        self.seed = seed
        self.patterns = patterns
        self.skewed = skewed
        self.sigma = sigma
        self.spread = spread
        self.mixed = scale == 'mixed'
        self.scale = D1 if self.mixed else Decimal(scale)
        self.env = dict(fixed or {})
        self.memo = {}
        self.pins = {}
        self.work = 0
        self.steps = 0

    # ---------------------------------------------------------------- hashing
    def h(self, *parts):
        return seed_digest(self.seed, *parts)

    def rnd(self, *parts):
        """A pseudo-random decimal in about [-2, 2], never zero."""
        v = self.h(*parts)
        return Decimal(v % 40009 - 20004) / Decimal(10007) + Decimal(1) / Decimal(7919)

    def size_of(self, name):
        return Decimal(10)**(self.h('size', name) % 9 - 4) if self.mixed else self.scale

    def rnd_for(self, name, parts):
        v = self.h(name, *parts)
        if name in TENSOR_LO:
            lo = int(TENSOR_LO[name])
            return Decimal(lo + v % self.spread)
        if name in INT_TENSORS or name in INT_FNS:
            lo = 1 if name in POS_TENSORS else 0
            return Decimal(lo + v % (self.spread + 1))
        r = self.rnd(name, *parts) * self.size_of(name)
        if name in NONNEG_TENSORS or name in NONNEG_FNS:
            return abs(r)
        return r

    # ---------------------------------------------------------------- symbols
    def sym(self, n):
        v = self.env.get(n)
        if v is not None:
            return v
        info = SYMINFO.get(n, {})
        lo = info.get('lo')
        ub = info.get('ub')
        if info.get('int'):
            l = int(lo) if lo is not None else -3
            if ub is not None:
                u = self.num(ub)
                w = int(u) - l
                if w <= 0:
                    raise Skip('empty range')
                v = Decimal(l + self.h('sym', n.args) % w)
            else:
                v = Decimal(l + self.h('sym', n.args) % self.spread)
        else:
            v = self.rnd('sym', n.args) * self.size_of(n.args)
            if lo is not None:
                v = abs(v) + frac(lo)
        self.env[n] = v
        return v

    # ---------------------------------------------------------------- evaluation
    def num(self, p):
        if not p.terms:
            return D0
        self.work += 1
        if self.work > 3000000:
            raise Skip('work')
        if self.work % 20000 == 0:
            tick()
        s = D0
        for m, c in p.terms:
            t = frac(c)
            for a, e in m:
                t = t * self.power(self.atom(a), e)
                if not t:
                    break
            s += t
        return s

    def numi(self, p):
        """value of a polynomial that counts, indexes or compares counts: large literals stand for any limit (see `sigma`)"""
        if self.sigma is None or not isinstance(p, Poly) or not counts(p):
            return self.num(p)
        s = D0
        for m, c in p.terms:
            t = frac(shrink(c, self.sigma))
            for a, e in m:
                t = t * self.power(self.atom(a), e)
                if not t:
                    break
            s += t
        return s

    def power(self, x, e):
        if e == 1:
            return x
        if abs(x) < EPS:
            if e > 0:
                return D0
            raise Skip('division by zero')
        if e.denominator == 1:
            return x**int(e)
        x = abs(x)
        if e.denominator == 2:
            return x.sqrt()**int(e.numerator)
        return (x.ln() * frac(e)).exp()

    def mkey(self, a):
        f = free(a)
        return (a, tuple(sorted((n.id, self.env.get(n, D0)) for n in f if n.kind == 'bv' or n in self.local)))

    local = frozenset()

    def atom(self, a):
        k = a.kind
        if k in ('sym', 'bv'):
            return self.sym(a)
        if k == 'num':
            return frac(a.args[0])
        mk_ = self.mkey(a)
        v = self.memo.get(mk_)
        if v is None:
            v = self.atom_(a)
            self.memo[mk_] = v
        return v

    def atom_(self, a):
        k = a.kind
        if k == 'poly':
            return self.num(a.args[0])
        if k == 'ite':
            return self.numi(a.args[1] if self.cond(a.args[0]) else a.args[2]) if self.sigma and atom_counts(a) else self.num(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if k == 'sum':
            tot = D0
            for _ in self.bind(a.args[0]):
                tot += self.num(a.args[1])
            return tot
        if k == 'fn':
            return self.fn(a)
        if k == 'el':
            return self.el(a)
        # unknown kinds: hash of their key
        return self.rnd('node', self.akey(a))

    def bind(self, bs):
        """Enumerate binders [(bv, size)] (sizes may depend on earlier binders)."""
        names = [b for b, _ in bs]
        saved = [(b, self.env.get(b)) for b in names]
        cnt = 0

        def go(i):
            if i == len(bs):
                yield None
                return
            b, s = bs[i]
            n = int(self.numi(s).to_integral_value(ROUND_HALF_EVEN)) if not isinstance(s, int) else s
            if n > CAP:
                raise Skip('range too large')
            for j in range(n):
                self.env[b] = Decimal(j)
                yield from go(i + 1)
        try:
            for _ in go(0):
                cnt += 1
                if cnt > CAP:
                    raise Skip('range too large')
                self.steps += 1
                if self.steps > STEPS:
                    raise Skip('valuation too expensive')
                yield None
        finally:
            for b, v in saved:
                if v is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = v

    def cond(self, c):
        while c.kind == 'B':
            c = c.args[1] if self.catom(c.args[0]) else c.args[2]
        return c.kind == 'T'

    def catom(self, a):
        mk_ = self.mkey(a)
        v = self.memo.get(mk_)
        if v is None:
            v = self.catom_(a)
            self.memo[mk_] = v
        return v

    def catom_(self, a):
        if a.kind == 'lt':
            return self.numi(a.args[0]) < -EPS
        if a.kind == 'eq':
            return abs(self.numi(a.args[0])) <= EPS
        name = a.args[0]
        if name == 'any':
            t = a.args[1]
            sizes = t.args[2:]
            if len(sizes) == 1 and isinstance(sizes[0], tuple):
                sizes = sizes[0]
            for _ in self.bind(list(zip(t.args[0], sizes))):
                if self.cond(t.args[1]):
                    return True
            return False
        if name == 'streq':
            return self.strval(a.args[1]) == self.strval(a.args[2])
        return self.h('b', name, tuple(self.akey(x) for x in a.args[1:])) % 2 == 1

    def strval(self, x):
        if isinstance(x, Poly):
            x = x.single_atom() or x
        if isinstance(x, Node) and x.kind == 'strc':
            return x.args[0]
        k = self.akey(x)
        if isinstance(x, Node):
            pool = sorted(STREQ_CONSTS.get(str_class(x), ()), key=repr)
            if pool:
                i = self.h('str', k) % (len(pool) + 1)
                if i < len(pool):
                    return pool[i]
        return ('s', k)

    # ---------------------------------------------------------------- keys of arguments
    def akey(self, x):
        if isinstance(x, Poly):
            return key(self.num(x))
        if isinstance(x, tuple):
            return tuple(self.akey(y) for y in x)
        if isinstance(x, Node):
            if x.kind in ('T', 'F', 'B'):
                return self.cond(x)
            if x.kind in ('lt', 'eq', 'b'):
                return self.catom(x)
            if x.kind == 'arrT':
                mk_ = (x, 'key', self.mkey(x)[1])
                v = self.memo.get(mk_)
                if v is None:
                    v = self.arrkey(x)
                    self.memo[mk_] = v
                return v
            if x.kind == 'seq':
                out = []
                for y in x.args:
                    out.extend(self.segkey(y))
                return ('L', tuple(out))
            if x.kind == 'vite':
                return self.akey(x.args[1] if self.cond(x.args[0]) else x.args[2])
            if x.kind in ('sym', 'bv', 'fn', 'el', 'sum', 'ite', 'poly', 'num'):
                return key(self.atom(x))
            return (x.kind,) + tuple(self.akey(y) for y in x.args)
        return x

    def segkey(self, y):
        if y.kind == 'item':
            return [self.akey(y.args[1])] if self.cond(y.args[0]) else []
        if y.kind == 'seg':
            t = y.args[0]
            out = []
            for _ in self.bind([(t.args[0][0], t.args[2])]):
                for it in t.args[1]:
                    out.extend(self.segkey(it))
            return out
        return [self.akey(y)]

    def form(self, t):
        """(sizes, body) of an arrT node, or None for a closure."""
        rest = t.args[2:]
        if not rest:
            return None
        if len(rest) == 1 and isinstance(rest[0], tuple):
            return rest[0], t.args[1]
        return rest, t.args[1]

    def arrkey(self, t):
        f = self.form(t)
        bs = t.args[0]
        if f is None:
            # a closure: probe
            out = []
            saved = [(b, self.env.get(b)) for b in bs]
            try:
                for r in range(3):
                    for i, b in enumerate(bs):
                        self.env[b] = Decimal(self.h('probe', r, i) % 5) if (b.kind == 'bv' and i == 0 and len(bs) > 1) else self.rnd('probe', r, i)
                    out.append(self.akey(t.args[1]))
            finally:
                for b, v in saved:
                    if v is None:
                        self.env.pop(b, None)
                    else:
                        self.env[b] = v
            return ('clo', len(bs), tuple(out))
        shape, body = f
        if isinstance(body, tuple) and body and isinstance(body[0], Node) and body[0].kind == 'item':
            return ('L', tuple(self.segkey(mk('seg', t))))
        sh, cells = self.cells(t)
        return self.nest(sh, [key(x) if isinstance(x, Decimal) else x for x in cells])

    @staticmethod
    def nest(sh, cells):
        if not sh:
            return cells[0]
        n = sh[0]
        if n == 0:
            return ('L', ())
        w = len(cells) // n
        return ('L', tuple(Valuation.nest(sh[1:], cells[i * w:(i + 1) * w]) for i in range(n)))

    def cells(self, t):
        """(int shape, row-major list of evaluated cells) of an arr_term."""
        shape, body = self.form(t)
        sh = [int(self.numi(P(s)).to_integral_value(ROUND_HALF_EVEN)) for s in shape]
        tot = 1
        for s in sh:
            tot *= s
        if tot > CAP:
            raise Skip('array too large')
        bs = list(t.args[0])
        if isinstance(body, tuple):
            # constant axes (<= 4) are enumerated in the body, the others bound in order
            axes = []
            for s in shape:
                c = P(s).cval()
                axes.append(c is not None and c.denominator == 1 and 0 <= c <= 4)
            if sum(1 for x in axes if not x) != len(bs):
                raise Skip('array form')
        else:
            axes = [False] * len(shape)
            body = (body,)
            if len(bs) != len(shape):
                raise Skip('array form')
        out = []
        saved = [(b, self.env.get(b)) for b in bs]

        def go(i, bi, off):
            if i == len(sh):
                y = body[off]
                out.append(self.scalar(y))
                return
            if axes[i]:
                for j in range(sh[i]):
                    go(i + 1, bi, off * sh[i] + j)
            else:
                for j in range(sh[i]):
                    self.env[bs[bi]] = Decimal(j)
                    go(i + 1, bi + 1, off)
        try:
            go(0, 0, 0)
        finally:
            for b, v in saved:
                if v is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = v
        return sh, out

    def scalar(self, y):
        if isinstance(y, Poly):
            return self.num(y)
        return self.akey(y)

    # ---------------------------------------------------------------- functions
    def fn(self, a):
        name, args = a.args[0], a.args[1:]
        f = FN.get(name)
        if f is not None:
            try:
                return f(self, *args)
            except (InvalidOperation, DivisionByZero, Overflow):
                raise Skip('arithmetic')
        return self.rnd_for(name, tuple(self.akey(x) for x in args))

    def el(self, a):
        head, idx = a.args
        name = head.args[0]
        ix = [self.numi(i) for i in idx]
        f = EL.get(name)
        if f is not None:
            r = f(self, head, ix)
            if r is not None:
                return r
        args = tuple(self.akey(x) for x in head.args[1:])
        if self.pins:
            r = self.pins.get((name, args, tuple(key(i) for i in ix)))
            if r is not None:
                return r
        if name in MONO_TENSORS and len(ix) == 1 and ix[0] == ix[0].to_integral_value() and 0 <= ix[0] <= 60:
            return sum((abs(self.rnd_for(name, args + (key(Decimal(j)),))) for j in range(int(ix[0]) + 1)), D0)
        if name in SYM_MATS and len(ix) == 2:
            ix = sorted(ix)
        if name in self.patterns and ix:
            return self.structured(name, args, ix)
        return self.rnd_for(name, args + tuple(key(i) for i in ix))

    def structured(self, name, args, ix):
        """an element of a tensor whose values repeat along an axis or are (nearly) diagonal in the last two"""
        h = self.h('pattern', name)
        if name in SYM_MATS:
            # ill-conditioned: the diagonal falls off by orders of magnitude
            full = self.rnd_for(name, args + tuple(key(i) for i in ix))
            f = Decimal(10) ** -min(int((1, 2, 3)[h % 3] * max(ix)), 11)
            return abs(full) * f if ix[0] == ix[1] else full * f * Decimal('1e-3')
        if self.skewed:
            return self.rnd_for(name, args + tuple(key(i) for i in ix)) * Decimal(10)**-min(int((1, 2, 3)[h % 3] * ix[-1]), 11)
        kind, ax, eps = h % 6, (h // 7) % len(ix), (D0, Decimal('1e-3'), Decimal('1e-6'))[(h // 101) % 3]
        full = self.rnd_for(name, args + tuple(key(i) for i in ix))
        if kind in (0, 1):      # constant along an axis
            b = self.rnd_for(name, args + tuple('*' if k == ax else key(i) for k, i in enumerate(ix)))
        elif kind == 2:         # period two along an axis
            b = self.rnd_for(name, args + tuple(key(i % 2) if k == ax else key(i) for k, i in enumerate(ix)))
        elif kind == 3:         # constant
            b = self.rnd_for(name, args)
        elif kind == 4 and len(ix) >= 2:
            b = full if ix[-1] == ix[-2] else D0
        elif kind == 5 and len(ix) >= 3:   # diagonal and constant along the leading axis
            b = self.rnd_for(name, args + ('*',) + tuple(key(i) for i in ix[1:])) if ix[-1] == ix[-2] else D0
        else:
            b = full
        return b + eps * full

    def pin(self, a, v):
        """give one tensor element a value, however its index is written"""
        head, idx = a.args
        k = head.args[0], tuple(self.akey(x) for x in head.args[1:]), tuple(key(self.numi(i)) for i in idx)
        self.pins[k] = v
        self.memo.clear()

    def head_cells(self, head, i=1):
        mk_ = (head, 'cells', i, self.mkey(head.args[i])[1])
        v = self.memo.get(mk_)
        if v is None:
            v = self.cells(head.args[i])
            self.memo[mk_] = v
        return v

    def matrix(self, t):
        sh, c = self.cells(t)
        if len(sh) != 2 or sh[0] != sh[1]:
            raise Skip('matrix')
        n = sh[0]
        return [[c[i * n + j] for j in range(n)] for i in range(n)]


def det(m):
    n = len(m)
    m = [list(r) for r in m]
    d = D1
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < EPS:
            return D0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= f * m[i][c]
    return d


def inverse(m):
    n = len(m)
    a = [list(r) + [D1 if i == j else D0 for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p][i]) < EPS:
            raise Skip('singular')
        a[i], a[p] = a[p], a[i]
        d = a[i][i]
        a[i] = [x / d for x in a[i]]
        for r in range(n):
            if r != i:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


def _floor(x):
    return (x + EPS).to_integral_value(ROUND_FLOOR)


def _ceil(x):
    return (x - EPS).to_integral_value(ROUND_CEILING)


def _guard_list(v, t):
    out = []
    for _ in v.bind([(t.args[0][0], t.args[2] if not isinstance(t.args[2], tuple) else t.args[2][0])]):
        if v.cond(t.args[1]):
            out.append(v.env[t.args[0][0]])
    return out


def _first(v, t):
    g = _guard_list(v, t)
    if not g:
        raise Skip('no element')
    return g[0]


def _exit_round(v, t):
    for _ in v.bind([(t.args[0][0], const(8))]):
        if v.cond(t.args[1]):
            return v.env[t.args[0][0]]
    raise Skip('loop does not end within 8 rounds')


def _nth(v, t, k):
    g = _guard_list(v, t)
    j = int(v.num(k))
    if not (-len(g) <= j < len(g)):
        raise Skip('no element')
    return g[j]


def _ddiv(v, a, b):
    a, b = v.numi(a), v.numi(b)
    if abs(b) < EPS:
        raise Skip('division by zero')
    return _floor(a / b)


def _dmod(v, a, b):
    a, b = v.numi(a), v.numi(b)
    if abs(b) < EPS:
        raise Skip('division by zero')
    return a - b * _floor(a / b)


def _pow(v, a, b):
    a, b = v.num(a), v.num(b)
    if b == b.to_integral_value():
        return v.power(a, Fraction(int(b)))
    if abs(a) < EPS:
        return D0
    return (abs(a).ln() * b).exp()


def _cells1(v, t):
    return [x for x in v.cells(t)[1]]


def _uniq(v, t):
    out = []
    for x in sorted(_cells1(v, t)):
        if not out or not close(out[-1], x):
            out.append(x)
    return out


def _amax(v, t, best=max):
    c = _cells1(v, t)
    if not c:
        raise Skip('empty')
    return best(c)


def _arg(v, t, best):
    c = _cells1(v, t)
    if not c:
        raise Skip('empty')
    b = best(c)
    for i, x in enumerate(c):
        if close(x, b):
            return Decimal(i)


def _run(best):
    def f(v, init, t):
        r = v.num(init)
        for _ in v.bind([(t.args[0][0], t.args[2])]):
            r = best(r, v.num(t.args[1]))
        return r
    return f


def _prod_(v, t):
    r = D1
    for x in _cells1(v, t):
        r *= x
    return r


def _exp(v, x):
    x = v.num(x)
    if abs(x) > 10**6:
        raise Skip('overflow')
    return x.exp()


def _log(v, x):
    x = v.num(x)
    if x <= EPS:
        raise Skip('log domain')
    return x.ln()


def d_sin(x):
    x = x - (x / (2 * D_PI)).to_integral_value(ROUND_HALF_EVEN) * 2 * D_PI
    t, s, k = x, x, 1
    while abs(t) > Decimal(10)**-48:
        k += 2
        t = -t * x * x / ((k - 1) * k)
        s += t
    return s


def d_cos(x):
    return d_sin(x + D_PI / 2)


def d_atan(x):
    n = 0
    while abs(x) > Decimal('0.1'):
        x = x / (1 + (1 + x * x).sqrt())
        n += 1
    t, s, k = x, x, 1
    while abs(t) > Decimal(10)**-48:
        t = -t * x * x
        k += 2
        s += t / k
    return s * 2**n


def d_atan2(y, x):
    if abs(x) < EPS:
        if abs(y) < EPS:
            return D0
        return D_PI / 2 if y > 0 else -D_PI / 2
    a = d_atan(y / x)
    if x > 0:
        return a
    return a + D_PI if y >= 0 else a - D_PI


def _trunc(v, x):
    x = v.num(x)
    return _floor(x) if x >= 0 else _ceil(x)


def _mask_true(v, t):
    return [i for i, x in enumerate(v.cells(t)[1]) if x]


def _narrow(v, x, bits):
    """rounded to so many significant bits"""
    x, b = v.num(x), int(v.num(bits))
    if x == 0:
        return x
    e, one = 0, abs(x)
    while one >= 2:
        one, e = one / 2, e + 1
    while one < 1:
        one, e = one * 2, e - 1
    s = Decimal(2)**(b - 1 - e)
    return (x * s).to_integral_value(ROUND_HALF_EVEN) / s


FN = {
    'narrow': _narrow,
    'abs': lambda v, x: abs(v.num(x)),
    'exp': _exp,
    'log': _log,
    'pi': lambda v: D_PI,
    'floor': lambda v, x: _floor(v.numi(x)),
    'ceil': lambda v, x: _ceil(v.numi(x)),
    'trunc': _trunc,
    'rint': lambda v, x: v.num(x).to_integral_value(ROUND_HALF_EVEN),
    'div': _ddiv, 'mod': _dmod,
    'max': lambda v, *a: max(v.numi(x) for x in a),
    'min': lambda v, *a: min(v.numi(x) for x in a),
    'sign': lambda v, x: D0 if abs(v.num(x)) < EPS else (D1 if v.num(x) > 0 else -D1),
    'pow': _pow,
    'first_true': _first, 'exit_round': _exit_round, 'nth': _nth,
    'masklen': lambda v, t: Decimal(len(_mask_true(v, t))),
    'ulen': lambda v, t: Decimal(len(_uniq(v, t))),
    'amax': _amax, 'amin': lambda v, t: _amax(v, t, min),
    'argmax': lambda v, t: _arg(v, t, max), 'argmin': lambda v, t: _arg(v, t, min),
    'runmax': _run(max), 'runmin': _run(min),
    'prod': _prod_,
    'det': lambda v, t: det(v.matrix(t)),
    'inf': lambda v: Decimal(10)**60,
    'sin': lambda v, x: d_sin(v.num(x)), 'cos': lambda v, x: d_cos(v.num(x)),
    'arctan': lambda v, x: d_atan(v.num(x)), 'atan2': lambda v, y, x: d_atan2(v.num(y), v.num(x)),
    'cpow': lambda v, a, b: (abs(v.num(a)).ln() * v.num(b)).exp(),
}


def el_sort(v, head, ix):
    sh, c = v.head_cells(head)
    if len(sh) != 1 or len(ix) != 1:
        return None
    c = sorted(c)
    return pick(c, ix[0])


def pick(c, i):
    i = int(i)
    if not (-len(c) <= i < len(c)):
        raise Skip('index')
    return c[i]


def el_uniq(v, head, ix):
    return pick(_uniq(v, head.args[1]), ix[0])


def el_argsort(v, head, ix):
    sh, c = v.head_cells(head)
    if len(sh) != 1:
        return None
    return Decimal(pick(sorted(range(len(c)), key=lambda i: c[i]), ix[0]))


def jacobi(m):
    """eigenvalues and orthonormal eigenvectors (columns) of a symmetric matrix"""
    n = len(m)
    a = [list(r) for r in m]
    q = [[D1 if i == j else D0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] * a[i][j] for i in range(n) for j in range(n) if i != j)
        if off < Decimal(10)**-50 * sum(a[i][i] * a[i][i] for i in range(n)):
            break
        for i in range(n):
            for j in range(i + 1, n):
                if a[i][j] == 0:
                    continue
                th = (a[j][j] - a[i][i]) / (2 * a[i][j])
                t = (D1 if th >= 0 else -D1) / (abs(th) + (th * th + 1).sqrt())
                c = D1 / (t * t + 1).sqrt()
                s = t * c
                for k in range(n):
                    x, y = a[k][i], a[k][j]
                    a[k][i], a[k][j] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[i][k], a[j][k]
                    a[i][k], a[j][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = q[k][i], q[k][j]
                    q[k][i], q[k][j] = c * x - s * y, s * x + c * y
    return [a[i][i] for i in range(n)], q


def el_inv(v, head, ix):
    t = head.args[1]
    if len(head.args) > 2:
        # pseudo-inverse with a cut-off: eigenvalues not above it are dropped
        mk_ = (head, 'pinv', v.mkey(head)[1])
        m = v.memo.get(mk_)
        if m is None:
            a = v.matrix(t)
            cut = {k.args[0]: v.num(k.args[1]) for k in head.args[2:]}
            n = len(a)
            if any(abs(a[i][j] - a[j][i]) > Decimal('1e-9') * (abs(a[i][j]) + abs(a[j][i])) for i in range(n) for j in range(i)):
                # pinv(A) = pinv(A'A) A' with the squared singular values as eigenvalues
                w, q = jacobi([[sum((a[k][i] * a[k][j] for k in range(n)), D0) for j in range(n)] for i in range(n)])
                lim = (cut.get('atol', D0) + cut.get('rtol', D0) * max(w).sqrt())**2
                g = [[sum((q[i][k] * q[j][k] / w[k] for k in range(n) if w[k] > lim), D0) for j in range(n)] for i in range(n)]
                m = v.memo[mk_] = [[sum((g[i][k] * a[j][k] for k in range(n)), D0) for j in range(n)] for i in range(n)]
                return pick(pick(m, ix[0]), ix[1])
            w, q = jacobi(a)
            lim = cut.get('atol', D0) + cut.get('rtol', D0) * max(abs(x) for x in w)
            m = v.memo[mk_] = [[sum((q[i][k] * q[j][k] / w[k] for k in range(n) if abs(w[k]) > lim), D0) for j in range(n)] for i in range(n)]
        return pick(pick(m, ix[0]), ix[1])
    mk_ = (t, 'inv', v.mkey(t)[1])
    m = v.memo.get(mk_)
    if m is None:
        m = inverse(v.matrix(t))
        v.memo[mk_] = m
    return pick(pick(m, ix[0]), ix[1])


def el_masked(v, head, ix):
    sa, ca = v.head_cells(head, 1)
    sm, cm = v.head_cells(head, 2)
    sel = [i for i, x in enumerate(cm) if x]
    tail = sa[len(sm):]
    w = 1
    for s in tail:
        w *= s
    off = 0
    for s, i in zip(tail, ix[1:]):
        off = off * s + int(i)
    return pick(ca, pick(sel, ix[0]) * w + off)


def fn_rankof(v, tm, *J):
    mk_ = (tm, 'rank', v.mkey(tm)[1])
    c = v.memo.get(mk_)
    if c is None:
        c = v.memo[mk_] = v.cells(tm)
    sh, cells = c
    o = 0
    for s, j in zip(sh, J):
        o = o * s + int(v.num(j))
    return Decimal(sum(1 for x in cells[:o] if x))


def el_nonzero(v, head, ix):
    sh, c = v.head_cells(head, 1)
    ax = int(v.num(head.args[2]))
    sel = pick([i for i, x in enumerate(c) if (x if isinstance(x, bool) else abs(x) > EPS)], ix[0])
    for k in range(len(sh) - 1, ax, -1):
        sel //= sh[k]
    return Decimal(sel % sh[ax])


FN['rankof'] = fn_rankof
EL = {'sort': el_sort, 'sorti': el_sort, 'uniquei': el_uniq, 'unique': el_uniq, 'argsort': el_argsort,
      'inv': el_inv, 'pinvh': el_inv, 'pinv': el_inv, 'masked': el_masked, 'nonzero': el_nonzero}


# ---------------------------------------------------------------- concretising abstract values
class Concrete:
    """Nested Python structure of an abstract value under a valuation (leaves: Decimal, bool, str, tuples of keys)."""

    def __init__(self, I, val, cap=400):
        self.I, self.val, self.cap = I, val, cap

    def __call__(self, v, depth=0):
        from . import values as W
        I, val = self.I, self.val
        if depth > 12:
            raise Skip('deep')
        if isinstance(v, Poly):
            return val.num(v)
        if isinstance(v, W.Num):
            return val.num(v.p)
        if isinstance(v, W.BoolV):
            return val.cond(v.c)
        if isinstance(v, Node):
            return val.akey(v)
        if isinstance(v, W.Str):
            return v.s
        if v is W.NONE:
            return None
        if isinstance(v, W.IteV):
            return self(v.a if val.cond(v.c) else v.b, depth + 1)
        if isinstance(v, W.Arr):
            return self.arr(v)
        if isinstance(v, W.Tup):
            return [self(x, depth + 1) for x in v.items]
        if isinstance(v, W.Seq):
            return self.segs(v.segs, depth)
        if isinstance(v, W.Ref):
            c = I.st.heap.get(v.id)
            if isinstance(c, W.ListC):
                return self.segs(c.segs, depth)
            if isinstance(c, W.ArrC):
                return self(I.arr_of(v) if hasattr(I, 'arr_of') else c.v, depth + 1)
            if isinstance(c, W.DictC):
                return {k: self(x, depth + 1) for k, x in c.d.items()}
        if isinstance(v, W.FDict):
            return {k: self(x, depth + 1) for k, x in v.d.items()}
        return ('term', val.akey(I.term(v)))

    def arr(self, a):
        val = self.val
        sh = []
        for s in a.shape:
            n = val.numi(s)
            if n != n.to_integral_value() or n < 0:
                raise Skip('shape')
            sh.append(int(n))
        tot = 1
        for s in sh:
            tot *= s
        if tot > 4000:
            raise Skip('array too large')
        if not sh:
            b = a.fn()
            return val.num(b) if isinstance(b, Poly) else val.akey(b)
        sm = []
        for s in a.shape:
            c = s.cval()
            sm.append(c is not None and c <= 4)
        q = [None if k else fresh('vq', ub=s) for k, s in zip(sm, a.shape)]
        combos = [[]]
        for k, n in zip(sm, sh):
            combos = [c + [x] for c in combos for x in (range(n) if k else [None])]
        terms = {}
        for c in combos:
            terms[tuple(c)] = a.fn(*[qq if cc is None else const(cc) for qq, cc in zip(q, c)]) if tot else None
        old = val.local
        val.local = old | {x.single_atom() for x in q if x is not None}

        def go(i, key_):
            if i == len(sh):
                b = terms[tuple(key_)]
                return val.num(b) if isinstance(b, Poly) else val.akey(b)
            out = []
            for j in range(sh[i]):
                if sm[i]:
                    out.append(go(i + 1, key_ + [j]))
                else:
                    val.env[q[i].single_atom()] = Decimal(j)
                    out.append(go(i + 1, key_ + [None]))
            return out
        try:
            return go(0, [])
        finally:
            for x in q:
                if x is not None:
                    val.env.pop(x.single_atom(), None)
            val.local = old

    def segs(self, segs, depth):
        from . import values as W
        val = self.val
        out = []
        for s in segs:
            if isinstance(s, W.Item):
                if val.cond(s.guard):
                    out.append(self(s.v, depth + 1))
            elif isinstance(s, W.CarrySeg):
                raise Skip('carry')
            else:
                n = val.numi(s.size)
                if n > 400:
                    raise Skip('too long')
                # elements may be heap objects: take them at constant indices
                for j in range(int(n)):
                    for it in s.fn(const(j)):
                        if isinstance(it, W.Item):
                            if val.cond(it.guard):
                                out.append(self(it.v, depth + 1))
                        else:
                            out.extend(self.segs([it[1] if isinstance(it, tuple) else it], depth))
        return out


def same(x, y):
    if isinstance(x, Decimal) and isinstance(y, Decimal):
        return close(x, y)
    if isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, Decimal) or isinstance(y, Decimal):
            return Decimal(int(x)) == Decimal(int(y))
        return x == y
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    return type(x) == type(y) and x == y
