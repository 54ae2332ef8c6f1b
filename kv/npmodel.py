"""Model of numpy: array functions and methods in index notation.

Functions that are linear-algebraic or order-dependent (inv, det, sort, unique, ...) are known uninterpreted
functions of their canonical argument term; functions not listed here become opaque ('?...') values.
"""
from .terms import *
from .values import *
from . import prelude
from . import interp as _interp
from . import library as L
from .library import (num, numf, asint, cint, scalar, wrap, maxi, mini, as_arr, elementwise, lift, ufunc1, bidx,
                      bshape, elt, seq_len, arr_to_seq, seq_to_arr, any_over)

CONSTANTS = {
    'numpy.pi': Num(PI, 'float'), 'numpy.inf': Num(INF, 'float'), 'numpy.Inf': Num(INF, 'float'),
    'numpy.infty': Num(INF, 'float'), 'numpy.newaxis': NONE, 'numpy.nan': Num(fn('nan'), 'float'),
    'numpy.e': Num(fn('exp', ONE), 'float'),
}


def rngiter(base, step, k):
    if P(k).cval() == 0:
        return base
    return fn('rngiter', base, step, P(k))


FN_RULES['rngiter'] = rngiter


class Args:
    """Bind positional and keyword arguments of a library call."""

    def __init__(self, I, q, names, args, kw):
        self.I, self.q = I, q
        self.d = {}
        for n, a in zip(names, args):
            self.d[n] = a
        self.extra = list(args[len(names):])
        for k, v in kw.items():
            self.d[k] = v
        self.unknown = [k for k in kw if k not in names]

    def get(self, n, default=NONE):
        return self.d.get(n, default)

    def has(self, n):
        return n in self.d and self.d[n] is not NONE

    def flag(self, n, default=False):
        v = self.d.get(n)
        if v is None or v is NONE:
            return default
        c = self.I.truth(v)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        raise _interp.Unsupported('symbolic flag %s' % n)


def opq(I, q, *args):
    return I.opaque('np:' + q.replace('numpy.', ''), *args)


def shape_of(I, v):
    """tuple of Poly from a shape argument."""
    if isinstance(v, (Num, BoolV)):
        return [num(v)]
    if isinstance(v, Tup):
        return [numf(I, x) for x in v.items]
    if isinstance(v, Ref) and isinstance(I.content(v), ListC):
        its = Seq(I.content(v).segs).items()
        if its is not None:
            return [numf(I, x) for x in its]
    if isinstance(v, Seq):
        its = v.items()
        if its is not None:
            return [numf(I, x) for x in its]
    a = as_arr(I, v)
    if a is not None and a.ndim == 1 and cint(a.shape[0]) is not None:
        return [a.fn(const(k)) for k in range(cint(a.shape[0]))]
    if isinstance(v, TV):
        return [numf(I, v)]
    raise _interp.Unsupported('shape argument')


def dtype_name(v):
    if v is None or v is NONE:
        return None
    if isinstance(v, ExtV):
        n = v.q.split('.')[-1]
    elif isinstance(v, Str):
        n = v.s
    elif isinstance(v, XObj) and v.kind == 'dtype':
        n = v.f['name'].s
    elif isinstance(v, XObj) and v.kind == 'type':
        n = str(v.f.get('name'))
    else:
        return '?'
    n = n.rstrip('_')
    if n.startswith('int') or n.startswith('uint') or n in ('i8', 'i4', 'i'):
        return 'int'
    if n.startswith('float') or n in ('double', 'f8', 'f4', 'd', 'f'):
        return 'float'
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('complex'):
        return 'float'
    if n == 'object':
        return 'object'
    return '?'


NARROW = {'float32': 24, 'single': 24, 'f4': 24, '<f4': 24, 'f': 24, 'float16': 11, 'half': 11, 'f2': 11}


def narrow_bits(v):
    """significant bits of a floating-point type narrower than the usual one, else None"""
    if isinstance(v, ExtV):
        return NARROW.get(v.q.split('.')[-1])
    if isinstance(v, Str):
        return NARROW.get(v.s)
    return None


def narrowed(I, v, dt):
    """v rounded to the narrow type dt"""
    b = narrow_bits(dt)
    if b is None:
        return v
    r = lift(I, lambda x: x if x.cval() is not None and x.cval().denominator == 1 else fn('narrow', x, const(b)), [v], dtype='float')
    return v if r is None else r


def cast(I, a, dt):
    if dt is None or dt == a.dtype or dt == 'object':
        return a
    if dt == 'int':
        if a.dtype == 'bool':
            return Arr(a.shape, lambda *ix: ite(a.fn(*ix), ONE, ZERO), 'int')
        return Arr(a.shape, lambda *ix: mk_fn('trunc', a.fn(*ix)), 'int')
    if dt == 'float':
        return Arr(a.shape, lambda *ix: elt(a, a.fn(*ix)), 'float')
    if dt == 'bool':
        return Arr(a.shape, lambda *ix: L.to_bool(elt(a, a.fn(*ix))), 'bool')
    return None


def axes_of(I, ax, nd):
    if ax is NONE or ax is None:
        return list(range(nd))
    if isinstance(ax, Tup):
        out = []
        for x in ax.items:
            k = asint(x)
            if k is None:
                raise _interp.Unsupported('axis')
            out.append(k % nd if nd else 0)
        return sorted(out)
    k = asint(ax)
    if k is None:
        raise _interp.Unsupported('axis')
    if k >= nd or k < -nd:
        I.raise_exc('ValueError')
    return [k % nd]


def split_axes(a, axes):
    """(kept shape, reduced shape, f(kept idx, red idx) -> element)"""
    kept = [i for i in range(a.ndim) if i not in axes]

    def f(kix, rix):
        src = [None] * a.ndim
        for i, x in zip(kept, kix):
            src[i] = x
        for i, x in zip(axes, rix):
            src[i] = x
        return elt(a, a.fn(*src))
    return kept, f


def keep_shape(a, axes, keepdims):
    if keepdims:
        return [ONE if i in axes else a.shape[i] for i in range(a.ndim)]
    return [a.shape[i] for i in range(a.ndim) if i not in axes]


def kept_idx(a, axes, ix, keepdims):
    if keepdims:
        return [x for i, x in enumerate(ix) if i not in axes]
    return ix


def sum_box(sizes, f, ix=()):
    if not sizes:
        return f(list(ix))
    return sum_over(sizes[0], lambda k: sum_box(sizes[1:], f, list(ix) + [k]))


def reduce_sum(I, v, ax, g=lambda x: x, keepdims=False):
    """Sum of g(element) over axes; also returns the count."""
    a = I.arrval(v) if not isinstance(v, (Arr, Seq)) else v
    if isinstance(a, Seq) and (ax is NONE or asint(ax) in (0, -1)):
        r = seq_sum(I, a, g)
        if r is not None:
            return r[0], r[1], None
    a = as_arr(I, v)
    if a is None:
        return None
    axes = axes_of(I, ax, a.ndim)
    if a.dtype == 'bool' and a.ndim == 1 and axes and g(ONE) is ONE and not keepdims:
        sm = L.step_mask(a.shape[0], lambda k: a.fn(P(k)))
        if sm is not None:
            c = a.shape[0] - sm[0] if sm[1] else sm[0]
            return Arr([], lambda: c, 'int'), a.shape[0], a
    kept, f = split_axes(a, axes)
    sizes = [a.shape[i] for i in axes]
    n = ONE
    for s in sizes:
        n = n * s
    return Arr(keep_shape(a, axes, keepdims),
               lambda *ix: sum_box(sizes, lambda r: g(f(kept_idx(a, axes, ix, keepdims), r))), a.dtype if a.dtype != 'bool' else 'int'), n, a


def seq_sum(I, q, g):
    """Σ over a possibly guarded scalar Seq -> (0-d Arr, count) or None."""
    tot, cnt = ZERO, ZERO
    for s in q.segs:
        if isinstance(s, CarrySeg) or isinstance(s, L.NestedSegT()):
            return None
        if isinstance(s, Item):
            p = num(s.v)
            if p is None:
                return None
            tot = tot + ite(s.guard, g(p), ZERO)
            cnt = cnt + ite(s.guard, ONE, ZERO)
            continue
        k = fresh('q', ub=s.size)
        for it in s.fn(k):
            if num(it.v) is None:
                return None

        def f(j, s=s):
            t = ZERO
            for it in s.fn(j):
                t = t + ite(it.guard, g(num(it.v)), ZERO)
            return t
        tot = tot + sum_over(s.size, f)
        cnt = cnt + L.seg_len(s)
    return Arr((), lambda: tot), cnt


def f_sum(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'dtype', 'out', 'keepdims'], args, kw)
    v = A.get('a')
    if isinstance(v, (Num,)):
        return v
    r = reduce_sum(I, v, A.get('axis'), keepdims=A.flag('keepdims'))
    if r is None:
        return opq(I, q, v)
    if A.unknown:
        return opq(I, q, v, *[A.get(k) for k in A.unknown])
    return wrap(I, r[0])


def f_mean(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'dtype', 'out', 'keepdims'], args, kw)
    v = A.get('a')
    if isinstance(v, Num):
        return v
    if A.unknown:
        return opq(I, q, v, *[A.get(k) for k in A.unknown])
    r = reduce_sum(I, v, A.get('axis'), keepdims=A.flag('keepdims'))
    if r is None:
        return opq(I, q, v)
    s, n, _ = r
    return wrap(I, Arr(s.shape, lambda *ix: s.fn(*ix) / n, 'float'))


def var_arr(I, v, ax, ddof, keepdims=False):
    r = reduce_sum(I, v, ax, keepdims=keepdims)
    r2 = reduce_sum(I, v, ax, lambda x: x * x, keepdims=keepdims)
    if r is None or r2 is None:
        return None
    s, n, _ = r
    s2 = r2[0]

    def f(*ix):
        m = s.fn(*ix)
        return (s2.fn(*ix) - m * m / n) / (n - ddof)
    return Arr(s.shape, f, 'float')


def f_var(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'], args, kw)
    v = A.get('a')
    d = A.get('ddof')
    ddof = num(d) if d is not NONE else ZERO
    if A.unknown or ddof is None:
        return opq(I, q, v)
    r = var_arr(I, v, A.get('axis'), ddof, A.flag('keepdims'))
    if r is None:
        return opq(I, q, v)
    if q.endswith('std'):
        return wrap(I, Arr(r.shape, lambda *ix: nn_sqrt(r.fn(*ix)), 'float'))
    return wrap(I, r)


def nn_sqrt(p):
    return p.power(Fraction(1, 2))


def f_average(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'weights', 'returned', 'keepdims'], args, kw)
    v = A.get('a')
    if A.unknown or A.flag('returned'):
        return opq(I, q, v)
    if not A.has('weights'):
        return f_mean(I, q, [v], {'axis': A.get('axis')})
    a, w = as_arr(I, v), as_arr(I, A.get('weights'))
    if a is None or w is None:
        return opq(I, q, v, A.get('weights'))
    axes = axes_of(I, A.get('axis'), a.ndim)
    kept, f = split_axes(a, axes)
    sizes = [a.shape[i] for i in axes]
    kd = A.flag('keepdims')
    if w.ndim == a.ndim:
        _, wf = split_axes(w, axes)

        def wt(k, r):
            return wf(k, r)
    elif w.ndim == len(axes):
        def wt(k, r):
            return elt(w, w.fn(*r))
    else:
        I.raise_exc('TypeError')

    def g(*ix):
        k = kept_idx(a, axes, ix, kd)
        return sum_box(sizes, lambda r: wt(k, r) * f(k, r)) / sum_box(sizes, lambda r: wt(k, r))
    return wrap(I, Arr(keep_shape(a, axes, kd), g, 'float'))


def f_prod(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'dtype', 'out', 'keepdims'], args, kw)
    v = A.get('a')
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, v)
    axes = axes_of(I, A.get('axis'), a.ndim)
    kept, f = split_axes(a, axes)
    sizes = [a.shape[i] for i in axes]
    ks = [cint(s) for s in sizes]

    def g(*ix):
        if all(k is not None and k <= 12 for k in ks):
            combos = [[]]
            for k in ks:
                combos = [c + [const(j)] for c in combos for j in range(k)]
            r = ONE
            for c in combos:
                r = r * f(list(ix), c)
            return r
        return fn('prod', red_term(sizes, lambda r: f(list(ix), r)))
    return wrap(I, Arr(keep_shape(a, axes, False), g, a.dtype))


def red_term(sizes, f):
    bs = [fresh('t', ub=s) for s in sizes]
    return mk_arrT([b.single_atom() for b in bs], f(bs), tuple(sizes))


def reduce_minmax(I, v, ax, mx, keepdims=False):
    a = as_arr(I, v)
    if a is None:
        return I.opaque('max' if mx else 'min', v)
    axes = axes_of(I, ax if ax is not None else NONE, a.ndim)
    kept, f = split_axes(a, axes)
    sizes = [a.shape[i] for i in axes]

    def g(*ix):
        k = kept_idx(a, axes, ix, keepdims)
        ks = [cint(s) for s in sizes]
        if all(x is not None and 0 < x <= 4 for x in ks):
            combos = [[]]
            for x in ks:
                combos = [c + [const(j)] for c in combos for j in range(x)]
            r = None
            for c in combos:
                e = f(k, c)
                r = e if r is None else (maxi(r, e) if mx else mini(r, e))
            return r
        if mx:
            return amax(sizes, lambda r: f(k, r))
        return -amax(sizes, lambda r: -f(k, r))
    return wrap(I, Arr(keep_shape(a, axes, keepdims), g, a.dtype))


def amax(sizes, f):
    bs = [fresh('t', ub=s) for s in sizes]
    body = f(bs)
    if not any(b.single_atom() in free(body) for b in bs):
        return body
    # positive constant factors come out; additive parts free of the bound names come out
    bset = {b.single_atom() for b in bs}
    out = ZERO
    rest = ZERO
    for m, c in body.terms:
        t = Poly(((m, c),))
        if free(t) & bset:
            rest = rest + t
        else:
            out = out + t
    keep = [(b.single_atom(), s) for b, s in zip(bs, sizes) if b.single_atom() in free(rest)]
    if len(keep) == 1 and is_int(rest):
        # linear in the bound index
        (b, s), = keep
        cf = None
        lin = True
        for m, c in rest.terms:
            if m == ((b, Fraction(1)),):
                cf = c
            else:
                lin = False
        if lin and cf is not None:
            return out + (const(cf) * (s - 1) if cf > 0 else ZERO)
    c = abs(rest.terms[0][1])
    rest = rest * const(1 / c)
    # positive common factors come out
    best = None
    for perm in permutations(range(len(keep))):
        t = mk_arrT([keep[i][0] for i in perm], rest, tuple(keep[i][1] for i in perm))
        if best is None or t.id < best.id:
            best = t
    return out + const(c) * fn('amax', best)


def f_minmax(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'out', 'keepdims', 'initial'], args, kw)
    mx = q.endswith('max')
    if A.unknown or A.has('initial'):
        return opq(I, q, A.get('a'))
    if isinstance(A.get('a'), Num):
        return A.get('a')
    return reduce_minmax(I, A.get('a'), A.get('axis'), mx, A.flag('keepdims'))


def f_argminmax(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'out', 'keepdims'], args, kw)
    mx = q.endswith('max')
    a = as_arr(I, A.get('a'))
    if a is None:
        return opq(I, q, A.get('a'))
    if not A.has('axis') and a.ndim != 1:
        a = reshape_arr(I, a, [a.size()])
    if a.dtype == 'bool' and mx and a.ndim == 1:
        k = fresh('q', ub=a.shape[0])
        g = mk_arrT([k.single_atom()], a.fn(k), a.shape[0])
        ex = any_over([a.shape[0]], lambda j: a.fn(j))
        return Num(ite(ex, mk_fn('first_true', g), ZERO), 'npint')
    axes = axes_of(I, A.get('axis') if a.ndim > 1 else NONE, a.ndim)
    kept, f = split_axes(a, axes)
    sizes = [a.shape[i] for i in axes]
    return wrap(I, Arr(keep_shape(a, axes, False),
                       lambda *ix: fn('argmax' if mx else 'argmin', red_term(sizes, lambda r: f(list(ix), r))), 'int'))


def f_anyall(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'out', 'keepdims'], args, kw)
    isany = q.endswith('any') or q.endswith('sometrue')
    v = A.get('a')
    a = I.arrval(v)
    if isinstance(a, Seq):
        x = seq_to_arr(I, a)
        if x is None:
            return L.b_anyall(isany)(I, [v], {})
        a = x
    if a is None:
        a = as_arr(I, v)
    if a is None:
        if isinstance(v, (BoolV,)):
            return v
        return I.opaque('anyall', v)
    axes = axes_of(I, A.get('axis'), a.ndim)
    kept = [i for i in range(a.ndim) if i not in axes]
    sizes = [a.shape[i] for i in axes]

    def b(x):
        return x if a.dtype == 'bool' else L.to_bool(x)

    def g(*ix):
        def at(*r):
            src = [None] * a.ndim
            for i, x in zip(kept, ix):
                src[i] = x
            for i, x in zip(axes, r):
                src[i] = x
            return b(a.fn(*src))
        if isany:
            return any_over(sizes, at)
        return c_not(any_over(sizes, lambda *r: c_not(at(*r))))
    return wrap(I, Arr([a.shape[i] for i in kept], g, 'bool'))


def f_count_nonzero(I, q, args, kw):
    A = Args(I, q, ['a', 'axis'], args, kw)
    a = as_arr(I, A.get('a'))
    if a is None:
        return opq(I, q, A.get('a'))
    b = a if a.dtype == 'bool' else cast(I, a, 'bool')
    r = reduce_sum(I, b, A.get('axis'))
    return wrap(I, r[0])


# ---------------------------------------------------------------- construction
def ragged(I, v):
    """nested sequences of provably different sizes do not form an array"""
    its = _items(I, v)
    if its is None or not 2 <= len(its) <= 64:
        return
    shapes = []
    for x in its:
        if isinstance(x, (Num, Str, TV, BoolV)):
            return
        b = L.elem_arr(I, x)
        if b is None:
            return
        shapes.append(b.shape)
    for s in shapes[1:]:
        if len(s) == len(shapes[0]) and any((P(p) - P(q)).cval() not in (None, 0) for p, q in zip(s, shapes[0])):
            I.raise_exc('ValueError')


def f_array(I, q, args, kw):
    A = Args(I, q, ['object', 'dtype', 'copy', 'order', 'subok', 'ndmin'], args, kw)
    if A.d.get('a') is not None and A.get('object') is NONE:
        A.d['object'] = A.d['a']
    v = A.get('object')
    if isinstance(v, IteV):
        rest = {k: x for k, x in A.d.items() if k != 'object'}
        return I.split(v.c, lambda: f_array(I, q, [v.a], rest), lambda: f_array(I, q, [v.b], rest))
    noshare = q.endswith('.array') and not (isinstance(A.get('copy'), BoolV) and A.get('copy').c is FALSE)
    dt = dtype_name(A.d.get('dtype'))
    a = I.arrval(v)
    if a is not None and not noshare and (dt is None or (isinstance(a, Arr) and dt == a.dtype)):
        return v if isinstance(v, Ref) else I.new_arr(a)
    if isinstance(a, Seq) and dt in (None, 'float'):
        return I.new_arr(Seq(a.segs, 'array'))
    if a is None and isinstance(v, Ref) and isinstance(I.content(v), ListC) and dt in (None, 'float'):
        q2 = Seq(I.content(v).segs, 'array')
        if not any(isinstance(s, CarrySeg) for s in q2.segs) and L.seq_items_scalar(q2) and q2.items() is None:
            x = seq_to_arr(I, q2)
            return I.new_arr(x if x is not None else q2)
    ragged(I, v)
    a = as_arr(I, v)
    if a is None:
        its = _items(I, v)
        if its is not None and its and all(isinstance(x, (Str,)) or isinstance(x, TV) and x.kind == 'str' for x in its):
            return v
        if isinstance(v, TV):
            if dt == 'int':
                return I.opaque('np:array', v)
            return I.opaque('np:array', v) if has_opaque(v.t) else TV(mk('fn', 'np:array', v.t), v.kind)
        return opq(I, q, v)
    if dt == '?':
        return opq(I, q, v)
    a2 = cast(I, a, dt)
    if a2 is None:
        return opq(I, q, v)
    nd = asint(A.get('ndmin')) if A.has('ndmin') else 0
    if nd and a2.ndim < nd:
        k = nd - a2.ndim
        a3 = a2
        a2 = Arr([ONE] * k + list(a3.shape), lambda *ix: a3.fn(*ix[k:]), a3.dtype)
    return I.new_arr(Arr(a2.shape, a2.fn, a2.dtype))


def _items(I, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Seq):
        return v.items()
    if isinstance(v, Ref) and isinstance(I.content(v), ListC):
        return Seq(I.content(v).segs).items()
    return None


def f_fill(val):
    def f(I, q, args, kw):
        A = Args(I, q, ['shape', 'dtype', 'order'], args, kw)
        sh = shape_of(I, A.get('shape'))
        dt = dtype_name(A.d.get('dtype')) or 'float'
        if dt in ('?', 'object'):
            return opq(I, q, *args)
        if dt == 'bool':
            return I.new_arr(Arr(sh, lambda *ix: TRUE if val else FALSE, 'bool'))
        if val is None:
            uid = fn('?empty', const(I.next_id[0]))
            I.next_id[0] += 1
            h = mk('head', '?empty', uid)
            return I.new_arr(Arr(sh, lambda *ix: el(h, *ix), dt))
        return I.new_arr(Arr(sh, lambda *ix: const(val), dt))
    return f


def f_full(I, q, args, kw):
    A = Args(I, q, ['shape', 'fill_value', 'dtype'], args, kw)
    sh = shape_of(I, A.get('shape'))
    v = A.get('fill_value')
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, *args)
    r = Arr(sh, lambda *ix: a.fn(*bidx(a.shape, ix)), a.dtype)
    dt = dtype_name(A.d.get('dtype'))
    r = cast(I, r, dt) if dt else r
    return I.new_arr(r) if r is not None else opq(I, q, *args)


def f_like(val):
    def f(I, q, args, kw):
        A = Args(I, q, ['a', 'dtype'] if val != 'full' else ['a', 'fill_value', 'dtype'], args, kw)
        a = as_arr(I, A.get('a'))
        if a is None:
            return opq(I, q, *args)
        kw2 = {'dtype': A.d['dtype']} if A.has('dtype') else {'dtype': Str(a.dtype)}
        sh = Tup([Num(s, 'int') for s in a.shape])
        if val == 'full':
            return f_full(I, q, [sh, A.get('fill_value')], kw2)
        return f_fill(val)(I, q, [sh], kw2)
    return f


def f_eye(I, q, args, kw):
    A = Args(I, q, ['N', 'M', 'k'], args, kw)
    n = num(A.get('N'))
    m = num(A.get('M')) if A.has('M') else n
    k = num(A.get('k')) if A.has('k') else ZERO
    return I.new_arr(Arr([n, m], lambda i, j: ite(Facts().simplify(c_eq0(P(j) - P(i) - k)), ONE, ZERO)))


def f_arange(I, q, args, kw):
    A = Args(I, q, ['start', 'stop', 'step', 'dtype'], args, kw)
    if A.has('stop'):
        a, b = numf(I, A.get('start')), numf(I, A.get('stop'))
    else:
        a, b = ZERO, numf(I, A.get('start'))
    s = numf(I, A.get('step')) if A.has('step') else ONE
    isint = all(is_int(x) for x in (a, b, s))
    if s == ONE:
        n = b - a if isint else mk_fn('ceil', b - a)
    else:
        n = mk_fn('ceil', (b - a) / s)
    n = maxi(n, ZERO) if not Facts().prove_ge0(n) else n
    kinds = [x.kind if isinstance(x, Num) else None for x in (A.get('start'), A.get('stop'), A.get('step')) if x is not NONE]
    dt = dtype_name(A.d.get('dtype')) or ('int' if isint and all(k in ('int', 'npint') for k in kinds) else 'float')
    return I.new_arr(Arr([n], lambda k: a + s * P(k), dt))


def f_linspace(I, q, args, kw):
    A = Args(I, q, ['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype', 'axis'], args, kw)
    a, b = numf(I, A.get('start')), numf(I, A.get('stop'))
    n = numf(I, A.get('num')) if A.has('num') else const(50)
    if A.flag('retstep'):
        return opq(I, q, *args)
    d = n - 1 if A.flag('endpoint', True) else n
    if n.cval() == 1:
        r = Arr([n], lambda k: a)
    else:
        # a single point is the start itself
        one = Facts().simplify(c_eq0(d))
        r = Arr([n], lambda k: a + (b - a) * P(k) * ite(one, ZERO, d.power(-1)))
    dt = dtype_name(A.d.get('dtype'))
    r = cast(I, r, dt) if dt else r
    return I.new_arr(r)


def f_geomspace(I, q, args, kw):
    A = Args(I, q, ['start', 'stop', 'num', 'endpoint', 'dtype', 'axis'], args, kw)
    a, b = numf(I, A.get('start')), numf(I, A.get('stop'))
    n = numf(I, A.get('num')) if A.has('num') else const(50)
    if not A.flag('endpoint', True) or A.unknown:
        return opq(I, q, *args)
    h = mk('head', 'geomspace', a, b, n)
    # a single point is the start itself
    r = Arr([n], lambda k: a if n.cval() == 1 or P(k).cval() == 0 else el(h, P(k)))
    dt = dtype_name(A.d.get('dtype'))
    r = cast(I, r, dt) if dt else r
    return I.new_arr(r)


NONNEG_TENSORS.add('geomspace')


def f_copy(I, q, args, kw):
    v = args[0] if args else kw.get('a')
    a = I.arrval(v)
    if a is None:
        a = as_arr(I, v)
    if a is None:
        return TV(v.t, v.kind) if isinstance(v, TV) else opq(I, q, v)
    if isinstance(a, Seq):
        return I.new_arr(Seq(a.segs, 'array'))
    return I.new_arr(Arr(a.shape, a.fn, a.dtype))


def concat_arrs(I, arrs, ax):
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        I.raise_exc('ValueError')
    ax = ax % nd
    dts = {a.dtype for a in arrs}
    dt = dts.pop() if len(dts) == 1 else ('float' if 'float' in dts else 'int')
    offs, tot = [], ZERO
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[ax]
    shape = list(arrs[0].shape)
    for a in arrs:
        for i in range(nd):
            if i != ax and a.shape[i] != shape[i] and a.shape[i].cval() is not None and shape[i].cval() is not None:
                I.raise_exc('ValueError')
    shape[ax] = tot

    def f(*ix):
        k = P(ix[ax])
        fx = Facts()
        r = None
        kc = k.cval()
        for a, o in reversed(list(zip(arrs, offs))):
            jx = list(ix)
            jx[ax] = k - o
            if r is None:
                if kc is not None and o.cval() is not None and kc < o.cval():
                    continue
                x = a.fn(*jx)
                r = x if dt == 'bool' or a.dtype != 'bool' else ite(x, ONE, ZERO)
                continue
            c = fx.simplify(c_lt(k, o + a.shape[ax]))
            if c is FALSE:
                continue
            x = a.fn(*jx)
            x = x if dt == 'bool' or a.dtype != 'bool' else ite(x, ONE, ZERO)
            r = c_ite(c, x, r) if dt == 'bool' else ite(c, x, r)
        return r
    return Arr(shape, f, dt)


def f_concatenate(I, q, args, kw):
    A = Args(I, q, ['arrays', 'axis'], args, kw)
    v = A.get('arrays')
    axv = A.get('axis') if 'axis' in A.d else Num(0)
    its = _items(I, v)
    if its is None:
        arr = as_arr(I, v)
        if arr is not None and arr.ndim >= 2 and asint(axv) in (0, 1, -1) and arr.ndim >= 2:
            # list of equal-shaped arrays: merge axis 0 with axis ax+1
            ax = asint(axv) % (arr.ndim - 1)
            x = move_axis(arr, 0, ax)
            sh = list(x.shape)
            m = sh[ax] * sh[ax + 1]
            return I.new_arr(reshape_arr(I, x, sh[:ax] + [m] + sh[ax + 2:]))
        # ragged list of 1-d chunks
        r = concat_ragged(I, v)
        if r is not None:
            return r
        return opq(I, q, v)
    if not its:
        I.raise_exc('ValueError')
    if axv is NONE:
        arrs = [as_arr(I, x) for x in its]
        if any(a is None for a in arrs):
            return opq(I, q, v)
        return I.new_arr(concat_arrs(I, [reshape_arr(I, a, [a.size()]) for a in arrs], 0))
    ax = asint(axv)
    vals = [I.arrval(x) for x in its]
    if any(isinstance(x, Seq) for x in vals) and ax in (0, -1):
        segs = []
        ok = True
        for x, o in zip(vals, its):
            if x is None:
                x = as_arr(I, o)
            if x is None or isinstance(x, Arr) and x.ndim != 1:
                ok = False
                break
            segs += arr_to_seq(x).segs
        if ok:
            return I.new_arr(Seq(segs, 'array'))
    arrs = [as_arr(I, x) for x in its]
    if any(a is None for a in arrs) or ax is None:
        return opq(I, q, v)
    if any(a.ndim == 0 for a in arrs):
        I.raise_exc('ValueError')
    return I.new_arr(concat_arrs(I, arrs, ax))


def concat_ragged(I, v):
    """concatenate a list whose segments are 1-d arrays/sequences of varying length."""
    if not (isinstance(v, Ref) and isinstance(I.content(v), ListC)) and not isinstance(v, Seq):
        return None
    segs = I.content(v).segs if isinstance(v, Ref) else v.segs
    out = []
    for s in segs:
        if isinstance(s, Item) and s.guard is TRUE:
            a = I.arrval(s.v) or as_arr(I, s.v)
            if a is None:
                return None
            out += arr_to_seq(a).segs
            continue
        if isinstance(s, Seg) and not isinstance(s, L.NestedSegT()):
            f = L.seg_dense(s)
            if f is None:
                return None
            z = fresh('q', ub=s.size)
            a = as_arr(I, f(z))
            if a is None or a.ndim != 1:
                return None

            def g(k, f=f):
                a = as_arr(I, f(k))
                return [('seg', Seg(a.shape[0], lambda j, a=a: [Item(scalar(a.fn(P(j)), a.dtype))]))]
            out.append(L.NestedSegT()(s.size, g))
            continue
        return None
    return I.new_arr(Seq(out, 'array'))


def f_append(I, q, args, kw):
    A = Args(I, q, ['arr', 'values', 'axis'], args, kw)
    x, y = A.get('arr'), A.get('values')
    if A.has('axis'):
        return f_concatenate(I, 'numpy.concatenate', [Tup([x, y])], {'axis': A.get('axis')})
    a, b = I.arrval(x), I.arrval(y)
    if a is None:
        a = as_arr(I, x)
    if b is None:
        b = as_arr(I, y)
    if b is None and isinstance(y, TV) and a is not None:
        b = Seq([Item(y)], 'array')
    if a is None or b is None:
        if a is not None and isinstance(y, TV):
            b = Seq([Item(y)], 'array')
        else:
            return opq(I, q, x, y)
    sa = flat_seq(I, a)
    sb = flat_seq(I, b)
    return I.new_arr(Seq(list(sa.segs) + list(sb.segs), 'array'))


def flat_seq(I, a):
    if isinstance(a, Seq):
        if any(isinstance(s, CarrySeg) for s in a.segs) or L.seq_items_scalar(a):
            return a
        x = seq_to_arr(I, a)
        if x is None or x.ndim == 1:
            return a
        a = x
    if a.ndim == 0:
        return Seq([Item(scalar(a.fn(), a.dtype))], 'array')
    if a.ndim > 1:
        a = reshape_arr(I, a, [a.size()])
    return arr_to_seq(a)


def f_stack(I, q, args, kw):
    A = Args(I, q, ['arrays', 'axis'], args, kw)
    a = as_arr(I, A.get('arrays'))
    ax = asint(A.get('axis')) if A.has('axis') else 0
    if a is None or ax is None:
        return opq(I, q, *args)
    return I.new_arr(move_axis(a, 0, ax % a.ndim))


def f_vhstack(I, q, args, kw):
    its = _items(I, args[0])
    if its is None:
        a = as_arr(I, args[0])
        if a is None:
            return opq(I, q, *args)
        n = cint(a.shape[0])
        if n is None:
            if q.endswith('vstack') and a.ndim == 2:
                return I.new_arr(a)
            if q.endswith('vstack') and a.ndim >= 3:
                return I.new_arr(reshape_arr(I, a, [a.shape[0] * a.shape[1]] + list(a.shape[2:])))
            if q.endswith('column_stack') and a.ndim == 2:
                return I.new_arr(move_axis(a, 0, 1))
            return opq(I, q, *args)
        its = [I.new_arr(L.sub_arr(a, const(k))) if a.ndim > 1 else scalar(a.fn(const(k)), a.dtype) for k in range(n)]
    arrs = [as_arr(I, x) for x in its]
    if any(a is None for a in arrs):
        return opq(I, q, *args)
    nm = q.split('.')[-1]
    if nm == 'vstack':
        arrs = [reshape_arr(I, a, [ONE] + list(a.shape)) if a.ndim < 2 else a for a in arrs]
        arrs = [reshape_arr(I, a, [ONE] + list(a.shape)) if a.ndim < 2 else a for a in arrs]
        return I.new_arr(concat_arrs(I, arrs, 0))
    if nm == 'hstack':
        arrs = [reshape_arr(I, a, [ONE]) if a.ndim < 1 else a for a in arrs]
        return I.new_arr(concat_arrs(I, arrs, 0 if arrs[0].ndim == 1 else 1))
    if nm == 'column_stack':
        arrs = [reshape_arr(I, a, [a.shape[0], ONE]) if a.ndim == 1 else a for a in arrs]
        return I.new_arr(concat_arrs(I, arrs, 1))
    return opq(I, q, *args)


# ---------------------------------------------------------------- shape manipulation
def move_axis(a, src, dst):
    if src == dst:
        return a
    order = [i for i in range(a.ndim) if i != src]
    order.insert(dst, src)
    return permute(a, order)


def permute(a, order):
    def f(*ix):
        src = [None] * a.ndim
        for k, ax in enumerate(order):
            src[ax] = ix[k]
        return a.fn(*src)
    return Arr([a.shape[i] for i in order], f, a.dtype, a.prov)


def reshape_arr(I, a, shape):
    shape = [P(s) for s in shape]
    if any(s.cval() == -1 for s in shape):
        known = ONE
        for s in shape:
            if s.cval() != -1:
                known = known * s
        tot = a.size() / known
        shape = [tot if s.cval() == -1 else s for s in shape]
    ash = list(a.shape)
    ca, cb = ONE, ONE
    for s in ash:
        ca = ca * s
    for s in shape:
        cb = cb * s
    if ca != cb and ca.cval() is not None and cb.cval() is not None:
        I.raise_exc('ValueError')
    lead = 0
    while lead < len(ash) and lead < len(shape) and ash[lead] == shape[lead]:
        lead += 1
    trail = 0
    while trail < len(ash) - lead and trail < len(shape) - lead and ash[-1 - trail] == shape[-1 - trail]:
        trail += 1
    A = ash[lead:len(ash) - trail]
    B = shape[lead:len(shape) - trail]

    def f(*ix):
        pre = list(ix[:lead])
        post = list(ix[len(ix) - trail:]) if trail else []
        mid = ix[lead:len(ix) - trail]
        # linear index of the middle block
        lin = ZERO
        for s, i in zip(B, mid):
            lin = lin * s + P(i)
        out = []
        rem = lin
        # peel from the last axis
        for n, s in enumerate(reversed(A)):
            if n == len(A) - 1:
                out.append(rem)
            elif s.cval() == 1:
                out.append(ZERO)
            else:
                out.append(L.gated2(mod_, rem, s))
                rem = L.gated2(div_, rem, s)
        if A:
            out.reverse()
            if A[0].cval() == 1:
                out[0] = ZERO
        return a.fn(*(pre + out + post))
    return Arr(shape, f, a.dtype, a.prov)


def view_of(I, o, a, new, back):
    """Array value sharing storage with o."""
    base = (o, back) if isinstance(o, Ref) else None
    return I.new_arr(new, base)


def f_reshape(I, q, args, kw):
    A = Args(I, q, ['a', 'newshape', 'order'], args, kw)
    if 'shape' in kw:
        A.d['newshape'] = kw['shape']
    v = A.get('a')
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, *args)
    return do_reshape(I, v, a, A.get('newshape'))


def do_reshape(I, v, a, shp):
    sh = shape_of(I, shp)
    new = reshape_arr(I, a, sh)

    def back(old, nw):
        r = reshape_arr(I, nw, old.shape)
        return Arr(old.shape, r.fn, old.dtype, old.prov)
    return view_of(I, v if I.arrval(v) is not None else None, a, new, back)


def f_ravel(I, q, args, kw):
    v = args[0]
    a = I.arrval(v)
    if isinstance(a, Seq):
        return I.new_arr(flat_seq(I, a))
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, *args)
    return do_reshape(I, v, a, Num(-1))


def f_transpose(I, q, args, kw):
    A = Args(I, q, ['a', 'axes'], args, kw)
    v = A.get('a')
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, *args)
    if A.has('axes'):
        order = [cint(x) for x in shape_of(I, A.get('axes'))]
        order = [k % a.ndim for k in order]
    else:
        order = list(reversed(range(a.ndim)))
    inv = [order.index(i) for i in range(a.ndim)]
    return view_of(I, v, a, permute(a, order), lambda old, nw: Arr(old.shape, permute(nw, inv).fn, old.dtype, old.prov))


def f_swapaxes(I, q, args, kw):
    a = as_arr(I, args[0])
    i, j = asint(args[1]), asint(args[2])
    if a is None or i is None or j is None:
        return opq(I, q, *args)
    order = list(range(a.ndim))
    i, j = i % a.ndim, j % a.ndim
    order[i], order[j] = order[j], order[i]
    return view_of(I, args[0], a, permute(a, order), lambda old, nw: Arr(old.shape, permute(nw, order).fn, old.dtype, old.prov))


def f_moveaxis(I, q, args, kw):
    a = as_arr(I, args[0])
    i, j = asint(args[1]), asint(args[2])
    if a is None or i is None or j is None:
        return opq(I, q, *args)
    return I.new_arr(move_axis(a, i % a.ndim, j % a.ndim))


def f_squeeze(I, q, args, kw):
    A = Args(I, q, ['a', 'axis'], args, kw)
    v = A.get('a')
    a = as_arr(I, v)
    if a is None:
        return opq(I, q, *args)
    if A.has('axis'):
        axes = axes_of(I, A.get('axis'), a.ndim)
        if any(a.shape[i].cval() not in (None, 1) for i in axes):
            I.raise_exc('ValueError')
    else:
        axes = [i for i in range(a.ndim) if a.shape[i].cval() == 1]
    keep = [i for i in range(a.ndim) if i not in axes]

    def f(*ix):
        src = [ZERO] * a.ndim
        for i, x in zip(keep, ix):
            src[i] = x
        return a.fn(*src)
    new = Arr([a.shape[i] for i in keep], f, a.dtype, a.prov)
    if new.ndim == 0:
        return wrap(I, new)

    def back(old, nw):
        return Arr(old.shape, lambda *ix: nw.fn(*[x for i, x in enumerate(ix) if i in keep]), old.dtype, old.prov)
    return view_of(I, v, a, new, back)


def f_expand_dims(I, q, args, kw):
    A = Args(I, q, ['a', 'axis'], args, kw)
    v = A.get('a')
    a = as_arr(I, v)
    ax = asint(A.get('axis'))
    if a is None or ax is None:
        return opq(I, q, *args)
    ax = ax % (a.ndim + 1)
    sh = list(a.shape)
    sh.insert(ax, ONE)
    new = Arr(sh, lambda *ix: a.fn(*(ix[:ax] + ix[ax + 1:])), a.dtype, a.prov)
    return view_of(I, v, a, new, lambda old, nw: Arr(old.shape, lambda *ix: nw.fn(*(list(ix[:ax]) + [ZERO] + list(ix[ax:]))), old.dtype, old.prov))


def f_atleast(n):
    def f(I, q, args, kw):
        a = as_arr(I, args[0])
        if a is None:
            return opq(I, q, *args)
        if a.ndim >= n:
            return args[0] if I.arrval(args[0]) is not None else I.new_arr(a)
        k = n - a.ndim
        if n == 3 and a.ndim:
            return opq(I, q, *args)
        return I.new_arr(Arr([ONE] * k + list(a.shape), lambda *ix: a.fn(*ix[k:]), a.dtype, a.prov))
    return f


def f_broadcast_to(I, q, args, kw):
    a = as_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    sh = shape_of(I, args[1])
    return I.new_arr(Arr(sh, lambda *ix: a.fn(*bidx(a.shape, ix)), a.dtype, a.prov))


def f_tile(I, q, args, kw):
    A = Args(I, q, ['A', 'reps'], args, kw)
    a = as_arr(I, A.get('A'))
    if a is None:
        return opq(I, q, *args)
    reps = shape_of(I, A.get('reps'))
    nd = max(a.ndim, len(reps))
    reps = [ONE] * (nd - len(reps)) + reps
    sh = [ONE] * (nd - a.ndim) + list(a.shape)

    def f(*ix):
        src = []
        for i, s, r in zip(ix, sh, reps):
            if s.cval() == 1:
                src.append(ZERO)
            elif r.cval() == 1:
                src.append(P(i))
            else:
                src.append(L.gated2(mod_, P(i), s))
        return a.fn(*src[nd - a.ndim:])
    return I.new_arr(Arr([s * r for s, r in zip(sh, reps)], f, a.dtype))


def f_repeat(I, q, args, kw):
    A = Args(I, q, ['a', 'repeats', 'axis'], args, kw)
    a = as_arr(I, A.get('a'))
    r = num(A.get('repeats'))
    if a is None or r is None:
        return opq(I, q, *args)
    if not A.has('axis'):
        if a.ndim != 1:
            a = reshape_arr(I, a, [a.size()])
        ax = 0
    else:
        ax = asint(A.get('axis')) % a.ndim
    if a.ndim == 0:
        return I.new_arr(Arr([r], lambda k: a.fn(), a.dtype))
    sh = list(a.shape)
    one = sh[ax].cval() == 1
    sh[ax] = sh[ax] * r

    def f(*ix):
        src = list(ix)
        src[ax] = ZERO if one else L.gated2(div_, P(ix[ax]), r)
        return a.fn(*src)
    return I.new_arr(Arr(sh, f, a.dtype))


def f_flip(I, q, args, kw):
    A = Args(I, q, ['m', 'axis'], args, kw)
    a = as_arr(I, A.get('m'))
    if a is None:
        return opq(I, q, *args)
    axes = axes_of(I, A.get('axis'), a.ndim)
    return I.new_arr(Arr(a.shape, lambda *ix: a.fn(*[a.shape[i] - 1 - P(x) if i in axes else x for i, x in enumerate(ix)]), a.dtype, a.prov))


def f_diag(I, q, args, kw):
    A = Args(I, q, ['v', 'k'], args, kw)
    a = as_arr(I, A.get('v'))
    k = asint(A.get('k')) if A.has('k') else 0
    if a is None or k is None:
        return opq(I, q, *args)
    if a.ndim == 1 and k == 0:
        return I.new_arr(Arr([a.shape[0], a.shape[0]],
                             lambda i, j: ite(Facts().simplify(c_eq0(P(i) - P(j))), a.fn(P(i)), ZERO), a.dtype))
    if a.ndim == 2 and k == 0:
        return I.new_arr(Arr([mini(a.shape[0], a.shape[1])], lambda i: a.fn(i, i), a.dtype))
    return opq(I, q, *args)


def f_trace(I, q, args, kw):
    a = as_arr(I, args[0])
    if a is None or a.ndim != 2 or len(args) > 1 or kw:
        return opq(I, q, *args)
    return Num(sum_over(a.shape[0], lambda i: a.fn(i, i)))


def f_triangle(upper):
    def f(I, q, args, kw):
        A = Args(I, q, ['m', 'k'], args, kw)
        a = as_arr(I, A.get('m'))
        k = num(A.get('k')) if A.has('k') else ZERO
        if a is None or a.ndim != 2 or k is None:
            return opq(I, q, *args)

        def g(i, j):
            c = c_le(P(i) + k, P(j)) if upper else c_le(P(j), P(i) + k)
            return ite(Facts().simplify(c), elt(a, a.fn(i, j)), ZERO)
        return I.new_arr(Arr(a.shape, g, a.dtype))
    return f


def f_tri_indices(I, q, args, kw):
    return opq(I, q, *args)


def f_meshgrid(I, q, args, kw):
    A = Args(I, q, [], [], kw)
    ix = kw.get('indexing')
    arrs = [as_arr(I, x) for x in args]
    if any(a is None or a.ndim > 1 for a in arrs) or len(arrs) != 2:
        return opq(I, q, *args)
    a, b = arrs
    if isinstance(ix, Str) and ix.s == 'ij':
        sh = [a.shape[0], b.shape[0]]
        return I.new_list([I.new_arr(Arr(sh, lambda i, j: a.fn(i), a.dtype)), I.new_arr(Arr(sh, lambda i, j: b.fn(j), b.dtype))])
    sh = [b.shape[0], a.shape[0]]
    return I.new_list([I.new_arr(Arr(sh, lambda i, j: a.fn(j), a.dtype)), I.new_arr(Arr(sh, lambda i, j: b.fn(i), b.dtype))])


# ---------------------------------------------------------------- selection
def f_where(I, q, args, kw):
    if len(args) == 1:
        return f_nonzero(I, q, args, kw)
    c, x, y = args
    ca = as_arr(I, c)
    xa, ya = as_arr(I, x), as_arr(I, y)
    if ca is None or xa is None or ya is None:
        return opq(I, q, *args)
    sh = bshape(I, [ca.shape, xa.shape, ya.shape])
    dt = 'bool' if xa.dtype == ya.dtype == 'bool' else ('int' if xa.dtype in ('int', 'bool') and ya.dtype in ('int', 'bool') else 'float')

    def f(*ix):
        cc = ca.fn(*bidx(ca.shape, ix))
        if ca.dtype != 'bool':
            cc = L.to_bool(cc)
        u, v = xa.fn(*bidx(xa.shape, ix)), ya.fn(*bidx(ya.shape, ix))
        if dt == 'bool':
            return c_ite(cc, u, v)
        return ite(cc, elt(xa, u), elt(ya, v))
    return wrap(I, Arr(sh, f, dt))


def bool_arr(I, v):
    a = as_arr(I, v)
    if a is None:
        return None
    return a if a.dtype == 'bool' else cast(I, a, 'bool')


def index_seq(a):
    """Ascending indices where the 1-d boolean array holds."""
    return Seq([Seg(a.shape[0], lambda k: [Item(Num(P(k), 'npint'), a.fn(P(k)))])], 'array')


def nd_nonzero(I, a):
    t = I.arr_term(a)
    n = fn('masklen', t)
    return n, [mk('head', 'nonzero', t, const(ax)) for ax in range(a.ndim)]


def f_nonzero(I, q, args, kw):
    a = bool_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    if a.ndim == 1:
        return Tup([I.new_arr(index_seq(a))])
    n, hs = nd_nonzero(I, a)
    return Tup([I.new_arr(Arr([n], lambda k, h=h: el(h, P(k)), 'int')) for h in hs])


def f_flatnonzero(I, q, args, kw):
    a = bool_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    if a.ndim != 1:
        a = reshape_arr(I, a, [a.size()])
    return I.new_arr(index_seq(a))


def f_argwhere(I, q, args, kw):
    a = bool_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    if a.ndim == 1:
        s = index_seq(a)
        x = seq_to_arr(I, s)
        if x is None:
            return opq(I, q, *args)
        return I.new_arr(Arr([x.shape[0], ONE], lambda i, j: x.fn(i), 'int'))
    n, hs = nd_nonzero(I, a)
    return I.new_arr(Arr([n, const(a.ndim)], lambda i, j: el(hs[cint(j)], P(i)) if cint(j) is not None else fn('?argwhere'), 'int'))


INT_TENSORS.update(['nonzero'])
NONNEG_TENSORS.update(['nonzero'])


def f_searchsorted(I, q, args, kw):
    """number of elements below (side left) or not above (side right) the value; the array is sorted by contract"""
    A = Args(I, q, ['a', 'v', 'side', 'sorter'], args, kw)
    a, v = as_arr(I, A.get('a')), as_arr(I, A.get('v'))
    side = A.get('side') if A.has('side') else Str('left')
    if a is None or v is None or a.ndim != 1 or A.has('sorter') or not isinstance(side, Str) or side.s not in ('left', 'right'):
        return opq(I, q, *args)

    def cnt(*ix):
        x = elt(v, v.fn(*ix))
        n = a.shape[0]
        at = lambda k: c_le(x, elt(a, a.fn(k))) if side.s == 'left' else c_lt(x, elt(a, a.fn(k)))
        k = fresh('q', ub=n)
        return ite(any_over([n], at), mk_fn('first_true', mk_arrT([k.single_atom()], at(k), n)), n)
    return wrap(I, Arr(v.shape, cnt, 'int'))


def f_isin(I, q, args, kw):
    a = as_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    if kw:
        return opq(I, q, *args)
    return wrap(I, Arr(a.shape, lambda *ix: L.member(I, Num(elt(a, a.fn(*ix))), args[1]), 'bool'))


def f_setdiff1d(I, q, args, kw):
    a = I.arrval(args[0]) or as_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    s = arr_to_seq(a)
    if not L.monotone(I, s.segs):
        return opq(I, q, *args)
    segs = L.filter_segs(I, s.segs, lambda v: c_not(L.member(I, v, args[1])))
    return I.new_arr(Seq(segs, 'array'))


def f_unique(I, q, args, kw):
    A = Args(I, q, ['ar', 'return_index', 'return_inverse', 'return_counts', 'axis'], args, kw)
    v = A.get('ar')
    if any(A.has(k) for k in ('return_index', 'return_inverse', 'return_counts', 'axis')):
        return opq(I, q, v)
    a = as_arr(I, v)
    if a is None:
        its = _items(I, v)
        return opq(I, q, v)
    if a.ndim != 1:
        a = reshape_arr(I, a, [a.size()])
    try:
        if L.monotone(I, arr_to_seq(a).segs):
            return I.new_arr(Arr(a.shape, a.fn, a.dtype))
    except Exception:
        pass
    k = fresh('q', ub=a.shape[0])
    x = a.fn(k)
    if k.single_atom() not in free(x) and cint(a.shape[0]) is None:
        return I.new_arr(Arr([ite(Facts().simplify(c_lt0(-a.shape[0])), ONE, ZERO)], lambda j: x, a.dtype))
    s = x.single_atom()
    if s is not None and s.kind == 'el' and s.args[0].args[0] in ('unique', 'uniquei') and s.args[1] == (k,):
        return I.new_arr(Arr(a.shape, a.fn, a.dtype))
    t = I.arr_term(a)
    nm = 'uniquei' if a.dtype == 'int' else 'unique'
    if a.dtype == 'int':
        # lower bound carries over
        if Facts().prove_ge0(x):
            NONNEG_TENSORS.add(nm) if False else None
    h = mk('head', nm, t)
    return I.new_arr(Arr([fn('ulen', t)], lambda j: el(h, P(j)), a.dtype))


INT_TENSORS.add('uniquei')
INT_FNS.add('ulen')
NONNEG_FNS.add('ulen')


def sort_arr(I, a):
    if a.ndim != 1:
        h = mk('head', 'sort', I.arr_term(a))
        return Arr(a.shape, lambda *ix: el(h, *ix), a.dtype)
    try:
        if L.monotone(I, arr_to_seq(a).segs):
            return a
    except Exception:
        pass
    k = fresh('q', ub=a.shape[0])
    s = a.fn(k).single_atom()
    if s is not None and s.kind == 'el' and s.args[0].args[0] in ('unique', 'uniquei', 'sort', 'sorti') and s.args[1] == (k,):
        return a
    h = mk('head', 'sorti' if a.dtype == 'int' else 'sort', I.arr_term(a))
    return Arr(a.shape, lambda j: el(h, P(j)), a.dtype)


INT_TENSORS.add('sorti')


def f_sort(I, q, args, kw):
    a = as_arr(I, args[0])
    if a is None:
        return opq(I, q, *args)
    if kw or len(args) > 1:
        return opq(I, q, *args)
    return I.new_arr(sort_arr(I, a))


def f_argsort(I, q, args, kw):
    a = as_arr(I, args[0])
    if a is None or a.ndim != 1:
        return opq(I, q, *args)
    try:
        if L.monotone(I, arr_to_seq(a).segs):
            return I.new_arr(Arr(a.shape, lambda k: P(k), 'int'))
    except Exception:
        pass
    h = mk('head', 'argsort', I.arr_term(a))
    INT_TENSORS.add('argsort')
    NONNEG_TENSORS.add('argsort')
    return I.new_arr(Arr(a.shape, lambda j: el(h, P(j)), 'int'))


# ---------------------------------------------------------------- differences and cumulation
def f_diff(I, q, args, kw):
    A = Args(I, q, ['a', 'n', 'axis', 'prepend', 'append'], args, kw)
    a = as_arr(I, A.get('a'))
    n = asint(A.get('n')) if A.has('n') else 1
    if a is None or n is None or a.ndim == 0:
        return opq(I, q, *args)
    ax = asint(A.get('axis')) if A.has('axis') else -1
    ax = ax % a.ndim
    for key in ('prepend', 'append'):
        if A.has(key):
            p = as_arr(I, A.get(key))
            if p is None:
                return opq(I, q, *args)
            if p.ndim == 0:
                sh = list(a.shape)
                sh[ax] = ONE
                p0 = p
                p = Arr(sh, lambda *ix: p0.fn(), p0.dtype)
            a = concat_arrs(I, [p, a] if key == 'prepend' else [a, p], ax)
    for _ in range(n):
        b = a
        sh = list(b.shape)
        sh[ax] = sh[ax] - 1

        def f(*ix, b=b):
            j = list(ix)
            j[ax] = P(j[ax]) + 1
            return elt(b, b.fn(*j)) - elt(b, b.fn(*ix))
        a = Arr(sh, f, b.dtype)
    return I.new_arr(a)


def f_cumsum(I, q, args, kw):
    A = Args(I, q, ['a', 'axis', 'dtype', 'out'], args, kw)
    a = as_arr(I, A.get('a'))
    if a is None:
        return opq(I, q, *args)
    if not A.has('axis'):
        if a.ndim != 1:
            a = reshape_arr(I, a, [a.size()])
        ax = 0
    else:
        ax = asint(A.get('axis'))
        if ax is None:
            return opq(I, q, *args)
        ax = ax % a.ndim

    def f(*ix):
        def g(k):
            j = list(ix)
            j[ax] = k
            return elt(a, a.fn(*j))
        return sum_over(P(ix[ax]) + 1, g)
    return I.new_arr(Arr(a.shape, f, a.dtype))


# ---------------------------------------------------------------- linear algebra
def einsum(I, spec, arrs):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        cnt = {}
        for c in lhs.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    subs = lhs.split(',')
    if '.' in spec:
        # ellipsis: the leading axes
        n = max(a.ndim - (len(s) - 3) for s, a in zip(subs, arrs) if '...' in s)
        pool = [chr(c) for c in range(ord('A'), ord('Z') + 1) if chr(c) not in spec][:n]
        ell = ''.join(pool)
        subs = [s.replace('...', ell[len(ell) - (a.ndim - (len(s) - 3)):] if '...' in s else '') for s, a in zip(subs, arrs)]
        out = out.replace('...', ell) if '->' in spec else ell + out
    if len(subs) != len(arrs) or any(len(s) != a.ndim for s, a in zip(subs, arrs)):
        I.raise_exc('ValueError')
    size = {}
    for s, a in zip(subs, arrs):
        for c, n in zip(s, a.shape):
            if c not in size or size[c].cval() == 1:
                size[c] = n
    red = [c for c in size if c not in out]

    def f(*ix):
        env = dict(zip(out, ix))

        def body(r):
            e = dict(env)
            e.update(zip(red, r))
            t = ONE
            for s, a in zip(subs, arrs):
                t = t * elt(a, a.fn(*[ZERO if n.cval() == 1 else e[c] for c, n in zip(s, a.shape)]))
            return t
        return sum_box([size[c] for c in red], body)
    return Arr([size[c] for c in out], f, 'float' if any(a.dtype == 'float' for a in arrs) else 'int')


def f_einsum(I, q, args, kw):
    if not isinstance(args[0], Str):
        return opq(I, q, *args)
    arrs = [as_arr(I, x) for x in args[1:]]
    if any(a is None for a in arrs):
        return opq(I, q, *args)
    return wrap(I, einsum(I, args[0].s, arrs))


def matmul_arr(I, a, b):
    if a.ndim == 0 or b.ndim == 0:
        I.raise_exc('ValueError')
    if a.ndim == 1 and b.ndim == 1:
        return Arr((), lambda: sum_over(a.shape[0], lambda k: elt(a, a.fn(k)) * elt(b, b.fn(k))))
    if a.ndim == 1:
        return Arr(list(b.shape[:-2]) + [b.shape[-1]],
                   lambda *ix: sum_over(a.shape[0], lambda k: elt(a, a.fn(k)) * elt(b, b.fn(*(list(ix[:-1]) + [k, ix[-1]])))))
    if b.ndim == 1:
        return Arr(a.shape[:-1], lambda *ix: sum_over(b.shape[0], lambda k: elt(a, a.fn(*(list(ix) + [k]))) * elt(b, b.fn(k))))
    lead = bshape(I, [a.shape[:-2], b.shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()
    n = a.shape[-1] if a.shape[-1].cval() is not None or b.shape[-2].cval() is None else b.shape[-2]
    if a.shape[-1].cval() is not None and b.shape[-2].cval() is not None and a.shape[-1] != b.shape[-2]:
        I.raise_exc('ValueError')

    def f(*ix):
        l, i, j = ix[:-2], ix[-2], ix[-1]
        la, lb = bidx(a.shape[:-2], l), bidx(b.shape[:-2], l)
        return sum_over(n, lambda k: elt(a, a.fn(*(la + [i, k]))) * elt(b, b.fn(*(lb + [k, j]))))
    return Arr(list(lead) + [a.shape[-2], b.shape[-1]], f)


def matmul(I, x, y):
    a, b = as_arr(I, x), as_arr(I, y)
    if a is None or b is None:
        return I.opaque('matmul', x, y)
    return wrap(I, matmul_arr(I, a, b))


def f_matmul(I, q, args, kw):
    return matmul(I, args[0], args[1])


def f_dot(I, q, args, kw):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if a is None or b is None:
        return opq(I, q, *args)
    if a.ndim == 0 or b.ndim == 0:
        return lift(I, lambda x, y: x * y, args[:2])
    if b.ndim <= 2 and a.ndim >= 1:
        return wrap(I, matmul_arr(I, a, b))
    # sum over last axis of a and second-to-last of b
    na, nb = a.ndim - 1, b.ndim

    def f(*ix):
        ia, ib = list(ix[:na]), list(ix[na:])
        return sum_over(a.shape[-1], lambda k: elt(a, a.fn(*(ia + [k]))) * elt(b, b.fn(*(ib[:-1] + [k, ib[-1]]))))
    return wrap(I, Arr(list(a.shape[:-1]) + list(b.shape[:-2]) + [b.shape[-1]], f))


def f_tensordot(I, q, args, kw):
    A = Args(I, q, ['a', 'b', 'axes'], args, kw)
    a, b = as_arr(I, A.get('a')), as_arr(I, A.get('b'))
    ax = asint(A.get('axes')) if A.has('axes') else 2
    if a is None or b is None or ax is None:
        return opq(I, q, *args)
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = la[a.ndim - ax:] + [chr(97 + a.ndim + i) for i in range(b.ndim - ax)]
    out = la[:a.ndim - ax] + lb[ax:]
    return wrap(I, einsum(I, ''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), [a, b]))


def f_outer(I, q, args, kw):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if a is None or b is None:
        return opq(I, q, *args)
    if a.ndim != 1:
        a = reshape_arr(I, a, [a.size()])
    if b.ndim != 1:
        b = reshape_arr(I, b, [b.size()])
    return I.new_arr(Arr([a.shape[0], b.shape[0]], lambda i, j: elt(a, a.fn(i)) * elt(b, b.fn(j))))


def f_cross(I, q, args, kw):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if a is None or b is None or cint(a.shape[-1]) != 3 or cint(b.shape[-1]) != 3 or kw or len(args) > 2:
        return opq(I, q, *args)
    sh = bshape(I, [a.shape, b.shape])

    def f(*ix):
        k = cint(ix[-1])
        if k is None:
            return sum_over(3, lambda j: ite(c_eq0(P(ix[-1]) - j), f(*(list(ix[:-1]) + [j])), ZERO))
        p, r = (k + 1) % 3, (k + 2) % 3
        A = lambda m: a.fn(*bidx(a.shape, list(ix[:-1]) + [const(m)]))
        B = lambda m: b.fn(*bidx(b.shape, list(ix[:-1]) + [const(m)]))
        return A(p) * B(r) - A(r) * B(p)
    return I.new_arr(Arr(sh, f))


def mat2(I, v):
    a = as_arr(I, v)
    return a if a is not None and a.ndim >= 2 else None


def batch(I, a, name):
    """UF on the last two axes, batched over the leading ones."""
    def t(l):
        return I.arr_term(Arr(a.shape[-2:], lambda i, j: a.fn(*(list(l) + [i, j])), a.dtype))
    return t


def f_inv(I, q, args, kw):
    a = mat2(I, args[0])
    if a is None:
        return opq(I, q, *args)
    t = batch(I, a, 'inv')
    nm = q.split('.')[-1]
    kw = dict(zip(('rcond', 'hermitian'), args[1:]), **kw)
    cut = [v for k, v in kw.items() if k in ('rcond', 'rtol') and v is not NONE]
    if len(cut) > 1 or set(kw) - {'rcond', 'rtol', 'hermitian'}:
        return opq(I, q, *args, *kw.values())
    ex = tuple(mk('kw', 'rtol', I.term(I.freeze(v, I.st))) for v in cut)
    return I.new_arr(Arr(a.shape, lambda *ix: el(mk('head', nm, t(ix[:-2]), *ex), ix[-2], ix[-1])))


def f_solve(I, q, args, kw):
    a, b = mat2(I, args[0]), as_arr(I, args[1])
    if a is None or b is None:
        return opq(I, q, *args)
    inv = f_inv(I, 'numpy.linalg.inv', [args[0]], {})
    return matmul(I, inv, args[1])


def f_det(I, q, args, kw):
    a = mat2(I, args[0])
    if a is None:
        return opq(I, q, *args)
    t = batch(I, a, 'det')
    if a.ndim == 2 and cint(a.shape[0]) == 3 and cint(a.shape[1]) == 3:
        m = [[a.fn(const(i), const(j)) for j in range(3)] for i in range(3)]
        return Num(m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    return wrap(I, Arr(a.shape[:-2], lambda *ix: fn('det', t(ix))))


def f_slogdet(I, q, args, kw):
    a = mat2(I, args[0])
    if a is None or a.ndim != 2:
        return opq(I, q, *args)
    d = fn('det', batch(I, a, 'det')(()))
    return Tup([Num(mk_fn('sign', d)), Num(mk_fn('log', mk_fn('abs', d)))], ('sign', 'logabsdet'))


def f_eig(I, q, args, kw):
    """eigen-decomposition as an uninterpreted spectrum; the Hermitian variants are the same spectrum in ascending order"""
    a = mat2(I, args[0])
    nm = q.split('.')[-1]
    if a is None or a.ndim != 2 or (kw and nm not in ('eigh', 'eigvalsh')) or len(args) > 1:
        return opq(I, q, *args)
    t = I.arr_term(a)
    n = a.shape[0]
    hw, hv = mk('head', 'eig_w', t), mk('head', 'eig_v', t)
    w = Arr([n], lambda k: el(hw, P(k)))
    v = Arr([n, n], lambda i, j: el(hv, P(i), P(j)))
    if nm in ('eigh', 'eigvalsh'):
        INT_TENSORS.add('argsort')
        NONNEG_TENSORS.add('argsort')
        hp = mk('head', 'argsort', I.arr_term(w))
        w, v = Arr([n], lambda k: el(hw, el(hp, P(k)))), Arr([n, n], lambda i, j: el(hv, P(i), el(hp, P(j))))
    w = I.new_arr(w)
    if nm in ('eigvals', 'eigvalsh'):
        return w
    return Tup([w, I.new_arr(v)], ('eigenvalues', 'eigenvectors'))


def f_norm(I, q, args, kw):
    A = Args(I, q, ['x', 'ord', 'axis', 'keepdims'], args, kw)
    a = as_arr(I, A.get('x'))
    if a is None or A.has('ord'):
        return opq(I, q, *args)
    r = reduce_sum(I, a, A.get('axis'), lambda x: x * x, A.flag('keepdims'))
    return wrap(I, Arr(r[0].shape, lambda *ix: nn_sqrt(r[0].fn(*ix))))


def f_clip(I, q, args, kw):
    A = Args(I, q, ['a', 'a_min', 'a_max'], args, kw)
    for k, k2 in (('min', 'a_min'), ('max', 'a_max')):
        if k in A.d:
            A.d[k2] = A.d[k]
    v = A.get('a')
    if A.has('a_min'):
        v = lift(I, pmax, [v, A.get('a_min')])
    if A.has('a_max') and v is not None:
        v = lift(I, pmin, [v, A.get('a_max')])
    return v if v is not None else opq(I, q, *args)


def pmax(a, b):
    l = lift_ite(a)
    if isinstance(l, tuple):
        return ite(l[0], pmax(l[1], b), pmax(l[2], b))
    return maxi(a, b)


def pmin(a, b):
    return -pmax(-a, -b)


def f_cov(I, q, args, kw):
    A = Args(I, q, ['m', 'y', 'rowvar', 'bias', 'ddof', 'fweights', 'aweights'], args, kw)
    a = as_arr(I, A.get('m'))
    if a is None or A.has('y') or A.has('fweights') or A.has('aweights') or A.has('bias') or a.ndim != 2:
        return opq(I, q, *args)
    if not A.flag('rowvar', True):
        a = permute(a, [1, 0])
    n = a.shape[1]
    dd = num(A.get('ddof')) if A.has('ddof') else ONE

    def f(i, j):
        mi = sum_over(n, lambda k: a.fn(i, k))
        mj = sum_over(n, lambda k: a.fn(j, k))
        return (sum_over(n, lambda k: a.fn(i, k) * a.fn(j, k)) - mi * mj / n) / (n - dd)
    return I.new_arr(Arr([a.shape[0], a.shape[0]], f))


# ---------------------------------------------------------------- elementwise
def _hyp(a, b):
    return (a * a + b * b).power(Fraction(1, 2))


def f_u1(f, dtype=None, boolres=False):
    def g(I, q, args, kw):
        if kw and set(kw) - {'dtype'}:
            return opq(I, q, *args)
        if boolres:
            r = lift(I, f, [args[0]], boolres=True)
        else:
            r = lift(I, f, [args[0]], dtype=dtype)
        return r if r is not None else opq(I, q, *args)
    return g


def f_u2(f, boolres=False):
    def g(I, q, args, kw):
        if kw and set(kw) - {'dtype'}:
            return opq(I, q, *args)
        r = lift(I, f, args[:2], boolres=boolres)
        return r if r is not None else opq(I, q, *args)
    return g


def f_bin(op):
    def g(I, q, args, kw):
        if kw:
            if set(kw) == {'out'} and isinstance(kw['out'], Ref):
                I.inplace_store(kw['out'], I.binop(op, args[0], args[1])) if hasattr(I, 'inplace_store') else None
            return opq(I, q, *args)
        a, b = args[:2]
        if I.arrval(a) is None and num(a) is None:
            a = f_array(I, 'numpy.asarray', [a], {})
        if I.arrval(b) is None and num(b) is None:
            b = f_array(I, 'numpy.asarray', [b], {})
        return I.binop(op, a, b)
    return g


def f_cmp(op):
    def g(I, q, args, kw):
        a, b = args[:2]
        if I.arrval(a) is None and num(a) is None:
            a = f_array(I, 'numpy.asarray', [a], {})
        return I.compare(op, a, b)
    return g


def f_logical(op):
    def g(I, q, args, kw):
        if op == 'not':
            a = bool_arr(I, args[0])
            if a is None:
                return opq(I, q, *args)
            return wrap(I, Arr(a.shape, lambda *ix: c_not(a.fn(*ix)), 'bool'))
        a, b = bool_arr(I, args[0]), bool_arr(I, args[1])
        if a is None or b is None:
            return opq(I, q, *args)
        f = {'and': c_and, 'or': c_or, 'xor': lambda x, y: c_ite(x, c_not(y), y)}[op]
        return wrap(I, elementwise(I, f, [a, b], boolres=True, rawbool=True))
    return g


def f_real(I, q, args, kw):
    v = args[0]
    a = I.arrval(v)
    if a is None:
        return v if isinstance(v, (Num, TV)) else opq(I, q, *args)
    return v


def f_isclose(I, q, args, kw):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if a is None or b is None:
        return opq(I, q, *args)
    tol = {'rtol': P(Fraction(1, 10**5)), 'atol': P(Fraction(1, 10**8))}
    for k, x in list(zip(('rtol', 'atol'), args[2:])) + [(k, x) for k, x in kw.items() if k in tol]:
        t = num(x)
        if t is None:
            return opq(I, q, *args)
        tol[k] = t

    def near(x, y):
        return TRUE if x == y else c_not(c_lt0(tol['atol'] + tol['rtol'] * mk_fn('abs', y) - mk_fn('abs', x - y)))
    e = elementwise(I, near, [a, b], boolres=True)
    if q.endswith('allclose'):
        return BoolV(c_not(any_over(e.shape, lambda *ix: c_not(e.fn(*ix)))))
    return wrap(I, e)


def f_isnan(I, q, args, kw):
    nm = q.split('.')[-1]
    if isinstance(args[0], XObj) and args[0].kind == 'optindex':
        from .extmodel import block_found
        return BoolV(c_not(block_found(args[0])) if nm == 'isnan' else (block_found(args[0]) if nm == 'isfinite' else FALSE))
    r = lift(I, lambda x: (FALSE if nm != 'isfinite' else TRUE) if x.cval() is not None else c_b(nm, x), [args[0]], boolres=True)
    return r if r is not None else opq(I, q, *args)


def _square(x):
    return x * x


def _sqrt(x):
    return x.power(Fraction(1, 2))


def _isint_floor(x):
    l = lift_ite(x)
    if isinstance(l, tuple):
        return ite(l[0], _isint_floor(l[1]), _isint_floor(l[2]))
    return floor_(x)


def f_round(I, q, args, kw):
    d = args[1] if len(args) > 1 else kw.get('decimals', NONE)
    if d is not NONE and asint(d) != 0:
        r = lift(I, lambda x: L.round_to(x, asint(d)), [args[0]])
    else:
        r = lift(I, lambda x: mk_fn('rint', x), [args[0]])
    return r if r is not None else opq(I, q, *args)


def f_finfo(I, q, args, kw):
    return XObj('finfo')


# ---------------------------------------------------------------- random numbers
def rng_state(I, cell):
    return I.st.heap[cell].p


def draw(I, cell, name, args, shape, dtype='float'):
    """A draw of the generator in heap cell: an element tensor named by the state before the draw."""
    st = rng_state(I, cell)
    ts = tuple(args)
    h = mk('head', 'draw', mk('strc', name), st, *ts)
    I.st.heap[cell] = RngC(fn('rngnext', st, mk('strc', name), *ts))
    if shape is None:
        return Num(el(h, ZERO))
    return I.new_arr(Arr(shape, lambda *ix: el(h, *ix), dtype))


def rng_method(I, cell, name, args, kw):
    T = lambda v: I.term(I.freeze(v, I.st))
    if name == 'seed':
        s = args[0] if args else kw.get('seed', NONE)
        if s is NONE:
            I.st.heap[cell] = RngC(fn('rngseed', fn('global-rng-entropy')))
        else:
            I.st.heap[cell] = RngC(fn('rngseed', T(s)))
        return NONE
    if name in ('randn', 'rand'):
        shape = [numf(I, x) for x in args]
        return draw(I, cell, 'randn' if name == 'randn' else 'rand', [tuple(shape)], shape or None)
    sizes = {'standard_normal': (['size'], 'randn'), 'random_sample': (['size'], 'rand'), 'random': (['size'], 'rand'),
             'normal': (['loc', 'scale', 'size'], 'normal'), 'uniform': (['low', 'high', 'size'], 'uniform'),
             'randint': (['low', 'high', 'size', 'dtype'], 'randint'), 'choice': (['a', 'size', 'replace', 'p'], 'choice'),
             'multivariate_normal': (['mean', 'cov', 'size'], 'mvn'), 'multinomial': (['n', 'pvals', 'size'], 'multinomial'), 'dirichlet': (['alpha', 'size'], 'dirichlet'),
             'permutation': (['x'], 'permutation'), 'exponential': (['scale', 'size'], 'exponential'), 'integers': (['low', 'high', 'size'], 'randint')}
    if name in ('get_state',):
        return TV(mk('fn', 'rngget', rng_state(I, cell)), 'rngstate')
    if name == 'set_state':
        v = args[0]
        if isinstance(v, TV) and v.t.kind == 'fn' and v.t.args[0] == 'rngget':
            I.st.heap[cell] = RngC(v.t.args[1])
        else:
            I.st.heap[cell] = RngC(fn('rngset', T(v)))
        return NONE
    if name not in sizes:
        st = rng_state(I, cell)
        I.st.heap[cell] = RngC(fn('rngnext', st, mk('strc', '?' + name)))
        return I.opaque('rng:' + name, *args)
    names, canon = sizes[name]
    A = Args(I, name, names, args, kw)
    sz = A.get('size')
    ts = []
    for n in names:
        if n == 'size':
            continue
        v = A.get(n)
        if n == 'loc' and v is NONE:
            v = Num(0)
        if n == 'scale' and v is NONE:
            v = Num(1)
        if canon == 'randint' and n == 'high' and v is NONE:
            continue
        if n == 'dtype':
            continue
        ts.append(T(v))
    if canon == 'randint' and (A.get('high') is NONE):
        ts = [T(Num(0)), T(A.get('low'))]
    shape = None if sz is NONE else shape_of(I, sz)
    if canon in ('mvn', 'dirichlet', 'multinomial'):
        m = as_arr(I, A.get({'mvn': 'mean', 'dirichlet': 'alpha', 'multinomial': 'pvals'}[canon]))
        tail = list(m.shape) if m is not None else [fn('?dim')]
        full = (shape or []) + tail
        return draw(I, cell, canon, ts + [tuple(full)], full)
    if canon == 'choice':
        a = as_arr(I, A.get('a'))
        if a is not None and a.ndim == 1:
            st = rng_state(I, cell)
            w = draw(I, cell, 'choice', [T(Num(a.shape[0]))] + ts[1:] + [tuple(shape or ())], shape, 'int')
            return L.get_item(I, A.get('a') if I.arrval(A.get('a')) is not None else I.new_arr(a), w)
    r = draw(I, cell, canon, ts + [tuple(shape) if shape is not None else ()], shape, 'int' if canon == 'randint' else 'float')
    return r


def f_random(I, q, args, kw):
    nm = q[len('numpy.random.'):]
    nm = nm.replace('mtrand.', '')
    if nm in ('RandomState', 'default_rng', 'Generator'):
        s = args[0] if args else kw.get('seed', NONE)
        if s is NONE:
            p = fn('rngseed', fn('global-rng-entropy'))
        elif isinstance(s, XObj) and s.kind == 'rs':
            return s
        else:
            p = fn('rngseed', I.term(I.freeze(s, I.st)))
        return XObj('rs', cell=I.alloc_raw(RngC(p)))
    return rng_method(I, I.rng, nm, args, kw)


# ---------------------------------------------------------------- tables
FUNCS = {'numpy.' + k: prelude.defined(v) for k, v in prelude.NAMES.items()}


def reg(names, f):
    for n in names.split():
        FUNCS['numpy.' + n] = f


reg('array asarray asanyarray ascontiguousarray asfarray', f_array)
reg('zeros', f_fill(0))
reg('ones', f_fill(1))
reg('empty', f_fill(None))
reg('full', f_full)
reg('zeros_like', f_like(0))
reg('ones_like', f_like(1))
reg('empty_like', f_like(None))
reg('full_like', f_like('full'))
reg('eye identity', f_eye)
reg('arange', f_arange)
reg('linspace', f_linspace)
reg('geomspace', f_geomspace)
reg('copy', f_copy)
reg('concatenate', f_concatenate)
reg('append', f_append)
reg('stack', f_stack)
reg('vstack hstack column_stack', f_vhstack)
reg('sum', f_sum)
reg('mean', f_mean)
reg('var std', f_var)
reg('average', f_average)
reg('prod product', f_prod)
reg('max min amax amin', f_minmax)
reg('argmax argmin', f_argminmax)
reg('any all', f_anyall)
reg('count_nonzero', f_count_nonzero)
reg('searchsorted', f_searchsorted)
reg('reshape', f_reshape)
reg('ravel', f_ravel)
reg('transpose permute_dims', f_transpose)
reg('swapaxes', f_swapaxes)
reg('moveaxis', f_moveaxis)
reg('squeeze', f_squeeze)
reg('expand_dims', f_expand_dims)
reg('atleast_1d', f_atleast(1))
reg('atleast_2d', f_atleast(2))
reg('atleast_3d', f_atleast(3))
reg('broadcast_to', f_broadcast_to)
reg('tile', f_tile)
reg('repeat', f_repeat)
reg('flip', f_flip)
reg('diag diagonal', f_diag)
reg('trace', f_trace)
reg('triu', f_triangle(True))
reg('tril', f_triangle(False))
reg('meshgrid', f_meshgrid)
reg('where', f_where)
reg('nonzero', f_nonzero)
reg('flatnonzero', f_flatnonzero)
reg('argwhere', f_argwhere)
reg('isin in1d', f_isin)
reg('setdiff1d', f_setdiff1d)
reg('unique', f_unique)
reg('sort', f_sort)
reg('argsort', f_argsort)
reg('diff', f_diff)
reg('cumsum', f_cumsum)
reg('einsum', f_einsum)
reg('matmul', f_matmul)
reg('dot vdot inner', f_dot)
reg('tensordot', f_tensordot)
reg('outer', f_outer)
reg('cross', f_cross)
reg('linalg.inv linalg.pinv', f_inv)
reg('linalg.solve', f_solve)
reg('linalg.det', f_det)
reg('linalg.slogdet', f_slogdet)
reg('linalg.eig linalg.eigh linalg.eigvals linalg.eigvalsh', f_eig)
reg('linalg.norm', f_norm)
reg('clip', f_clip)
reg('cov', f_cov)
reg('real', f_real)
reg('isclose allclose', f_isclose)
reg('isnan isinf isfinite', f_isnan)
reg('round around round_', f_round)
reg('finfo', f_finfo)
for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'log10', 'log2', 'log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'sign', 'cbrt'):
    reg(_n, f_u1(lambda x, n=_n: mk_fn(n, x)))
reg('atan', f_u1(lambda x: mk_fn('arctan', x)))
reg('sqrt', f_u1(_sqrt))
reg('square', f_u1(_square))
reg('abs absolute fabs', f_u1(lambda x: mk_fn('abs', x)))
reg('negative', f_u1(lambda x: -x))
reg('positive', f_u1(lambda x: x))
reg('reciprocal', f_u1(lambda x: x.power(-1)))
def trunc_of(f):
    g = f_u1(f)

    def h(I, q, args, kw):
        L.truncating(I, args[0])
        return g(I, q, args, kw)
    return h


reg('floor', trunc_of(_isint_floor))
reg('ceil', f_u1(lambda x: mk_fn('ceil', x)))
reg('trunc fix', trunc_of(lambda x: mk_fn('trunc', x)))
reg('rint', f_u1(lambda x: mk_fn('rint', x)))
reg('deg2rad radians', f_u1(lambda x: x * PI / 180))
reg('rad2deg degrees', f_u1(lambda x: x * 180 / PI))
reg('arctan2', f_u2(lambda y, x: mk_fn('atan2', y, x)))
reg('hypot', f_u2(_hyp))
reg('maximum fmax', f_u2(pmax))
reg('minimum fmin', f_u2(pmin))
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
               ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod')):
    reg(_n, f_bin(_o))
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    reg(_n, f_cmp(_o))
for _n in ('and', 'or', 'xor', 'not'):
    reg('logical_' + _n, f_logical(_n))


def f_identity_ctx(I, q, args, kw):
    return XObj('ctx')


reg('errstate printoptions', f_identity_ctx)
reg('seterr set_printoptions', lambda I, q, a, k: NONE)

OUTER = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div'}


def call(I, q, args, kw):
    if any(isinstance(a, IteV) for a in args):
        # distribute over an undecided alternative
        for n, a in enumerate(args):
            if isinstance(a, IteV):
                return I.split(a.c, lambda: call(I, q, args[:n] + [a.a] + args[n + 1:], kw),
                               lambda: call(I, q, args[:n] + [a.b] + args[n + 1:], kw))
    for k, a in kw.items():
        if isinstance(a, IteV):
            return I.split(a.c, lambda: call(I, q, args, dict(kw, **{k: a.a})), lambda: call(I, q, args, dict(kw, **{k: a.b})))
    if q.startswith('numpy.random.'):
        return f_random(I, q, args, kw)
    if q in ('numpy.float64', 'numpy.float32', 'numpy.float_', 'numpy.double', 'numpy.single', 'numpy.float16', 'numpy.half'):
        return narrowed(I, L.b_float(I, args, kw), ExtV(q))
    if narrow_bits(kw.get('dtype')) is not None and q.split('.')[-1] not in ('empty', 'zeros', 'ones', 'empty_like', 'zeros_like', 'ones_like'):
        return narrowed(I, call(I, q, args, dict(kw, dtype=Str('float'))), kw['dtype'])
    if q in ('numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp'):
        return L.b_int(I, args, kw)
    if q in ('numpy.bool_',):
        return L.b_bool(I, args, kw)
    f = FUNCS.get(q)
    if f is None and q.count('.') == 2:
        _, base, meth = q.split('.')
        if base in OUTER and meth == 'outer':
            a, b = as_arr(I, args[0]), as_arr(I, args[1])
            if a is not None and b is not None:
                x = Arr(list(a.shape) + [ONE] * b.ndim, lambda *ix: a.fn(*ix[:a.ndim]), a.dtype)
                return I.binop(OUTER[base], I.new_arr(x), I.new_arr(b))
        if base == 'add' and meth == 'reduce':
            kw2 = dict(kw)
            if len(args) == 1 and 'axis' not in kw2:
                kw2['axis'] = Num(0)
            return f_sum(I, 'numpy.sum', args, kw2)
        if base == 'add' and meth == 'accumulate':
            kw2 = dict(kw)
            if len(args) == 1 and 'axis' not in kw2:
                kw2['axis'] = Num(0)
            return f_cumsum(I, 'numpy.cumsum', args, kw2)
        if base in ('maximum', 'minimum') and meth == 'reduce':
            kw2 = dict(kw)
            if len(args) == 1 and 'axis' not in kw2:
                kw2['axis'] = Num(0)
            return f_minmax(I, 'numpy.' + base[:3], args, kw2)
    if f is None:
        return opq(I, q, *args)
    out = kw.get('out')
    if out is not None and out is not NONE:
        kw2 = {k: v for k, v in kw.items() if k != 'out'}
        r = f(I, q, args, kw2)
        store_out(I, out, r)
        return out
    try:
        return f(I, q, args, kw)
    except _interp.Unsupported:
        return opq(I, q, *args)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        import os
        if os.environ.get('KV_DEBUG'):
            raise
        return opq(I, q, *args)


def store_out(I, out, r):
    L.set_item(I, out, SliceV(NONE, NONE, NONE), r)


METHOD_FUNCS = {
    'sum': f_sum, 'mean': f_mean, 'var': f_var, 'std': f_var, 'prod': f_prod, 'max': f_minmax, 'min': f_minmax,
    'searchsorted': f_searchsorted, 'argmax': f_argminmax, 'argmin': f_argminmax, 'any': f_anyall, 'all': f_anyall, 'ravel': f_ravel,
    'squeeze': f_squeeze, 'swapaxes': f_swapaxes, 'repeat': f_repeat, 'cumsum': f_cumsum, 'dot': f_dot, 'clip': f_clip,
    'copy': f_copy, 'diagonal': f_diag, 'trace': f_trace, 'argsort': f_argsort, 'round': f_round, 'take': prelude.defined('take'), 'ptp': prelude.defined('ptp'),
}


def method(I, obj, a, name, args, kw):
    """Method of an array or numeric scalar."""
    if a is None:
        p = num(obj)
        if name == 'item' or name == 'conjugate' or name == 'copy':
            return obj
        if name == 'astype':
            dt = dtype_name(args[0] if args else kw.get('dtype'))
            if dt == 'int':
                L.truncating(I, obj)
                return Num(mk_fn('trunc', p), 'npint')
            return narrowed(I, obj, args[0] if args else kw.get('dtype'))
        if name == 'is_integer':
            return BoolV(c_eq0(p - floor_(p))) if not is_int(p) else BoolV(TRUE)
        if name in ('sum', 'mean', 'max', 'min', 'squeeze'):
            return obj
        if name == 'tolist':
            return obj
        if name in METHOD_FUNCS or name in ('reshape', 'flatten'):
            return method(I, I.new_arr(Arr((), lambda: p)), Arr((), lambda: p), name, args, kw)
        I.raise_exc('AttributeError')
    if name in METHOD_FUNCS:
        return call(I, 'numpy.' + name, [obj] + list(args), kw)
    if name == 'flatten':
        x = a if isinstance(a, Seq) else None
        if x is not None:
            return I.new_arr(flat_seq(I, x))
        return I.new_arr(drop_prov(reshape_arr(I, a, [a.size()])))
    if name == 'reshape':
        x = as_arr(I, obj)
        if x is None:
            return I.opaque('np:reshape', obj)
        shp = args[0] if len(args) == 1 else Tup(args)
        return do_reshape(I, obj, x, shp)
    if name == 'transpose':
        if not args:
            return f_transpose(I, 'numpy.transpose', [obj], {})
        return f_transpose(I, 'numpy.transpose', [obj, args[0] if len(args) == 1 else Tup(args)], {})
    if name == 'astype':
        da = args[0] if args else kw.get('dtype')
        if narrow_bits(da) is not None:
            return narrowed(I, method(I, obj, a, name, [Str('float')], {}), da)
        dt = dtype_name(da)
        if isinstance(a, Seq):
            if dt in ('float', None):
                return I.new_arr(Seq(a.segs, 'array'))
            if dt == 'int':
                r = lift(I, lambda x: mk_fn('trunc', x), [obj], dtype='npint')
                return r if r is not None else I.opaque('astype', obj)
            x = seq_to_arr(I, a)
            if x is None:
                return I.opaque('astype', obj)
            a = x
        r = cast(I, a, dt) if dt != '?' else None
        if r is None:
            return I.opaque('astype', obj)
        return I.new_arr(drop_prov(r))
    if name == 'tolist':
        if isinstance(a, Seq):
            return I.alloc(ListC(list(a.segs)))
        return arr_tolist(I, a)
    if name == 'item':
        if args:
            return L.get_item(I, obj, args[0])
        return Num(numf(I, obj))
    if name == 'view':
        return obj
    if name == 'fill':
        v = as_arr(I, args[0])
        I.mutate_check(a.prov, 'fill')
        L.set_item(I, obj, ELLIPSIS, args[0])
        return NONE
    if name == 'sort':
        x = as_arr(I, obj)
        I.mutate_check(a.prov, 'sort')
        if x is None:
            return NONE
        I.write_array(obj, sort_arr(I, x))
        return NONE
    if name == 'nonzero':
        return f_nonzero(I, 'numpy.nonzero', [obj], {})
    if name in ('conj', 'conjugate'):
        return obj
    if name == 'setflags':
        return NONE
    return I.opaque('method:' + name, obj, *args)


def drop_prov(a):
    return Arr(a.shape, a.fn, a.dtype)


def arr_tolist(I, a):
    if a.ndim == 0:
        return scalar(a.fn(), a.dtype)
    n = cint(a.shape[0])

    def elem(k):
        if a.ndim == 1:
            v = scalar(a.fn(P(k)), a.dtype)
            if isinstance(v, Num):
                v = Num(v.p, 'int' if a.dtype == 'int' else 'float')
            return v
        s = L.sub_arr(a, P(k))
        return arr_tolist_f(s)
    if n is not None and n <= 16:
        return I.new_list([I.thaw(elem(const(k))) for k in range(n)])
    return I.alloc(ListC([Seg(a.shape[0], lambda k: [Item(elem(k))])]))


def arr_tolist_f(a):
    n = cint(a.shape[0])

    def elem(k):
        if a.ndim == 1:
            return scalar(a.fn(P(k)), a.dtype)
        return arr_tolist_f(L.sub_arr(a, P(k)))
    if n is not None and n <= 16:
        return Seq([Item(elem(const(k))) for k in range(n)], 'list')
    return Seq([Seg(a.shape[0], lambda k: [Item(elem(k))])], 'list')
