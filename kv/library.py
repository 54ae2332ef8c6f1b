"""Core of the library model: sequences, arrays, indexing, operators, builtins.

numpy functions live in npmodel, the other third-party packages in extmodel.
"""
from .terms import *
from .values import *
from . import interp as _interp


def NestedSegT():
    return _interp.NestedSeg


# ---------------------------------------------------------------- small helpers
def num(v):
    """Poly of a scalar value, or None."""
    if isinstance(v, Num):
        return v.p
    if isinstance(v, BoolV):
        return ite(v.c, ONE, ZERO)
    if isinstance(v, Arr) and v.ndim == 0:
        x = v.fn()
        return ite(x, ONE, ZERO) if v.dtype == 'bool' else x
    return None


def numf(I, v):
    """Poly of anything scalar-like; opaque values become atoms."""
    p = num(v)
    if p is not None:
        return p
    if isinstance(v, Ref):
        a = I.arrval(v)
        if isinstance(a, Arr):
            if all(s.cval() == 1 for s in a.shape):
                x = a.fn(*[ZERO] * a.ndim)
                return ite(x, ONE, ZERO) if a.dtype == 'bool' else x
    if isinstance(v, IteV):
        return ite(v.c, numf(I, v.a), numf(I, v.b))
    if isinstance(v, TV):
        return P(v.t) if isinstance(v.t, Node) and not is_bool(v.t) else fn('?num', v.t)
    return fn('?num', I.term(v))


def asint(v):
    """Python int of a constant, or None."""
    p = num(v)
    if p is None:
        return None
    c = p.cval()
    if c is None or c.denominator != 1:
        return None
    return int(c)


def cint(p):
    c = P(p).cval()
    if c is None or c.denominator != 1:
        return None
    return int(c)


def scalar(p, dtype='float'):
    if dtype == 'bool' or is_bool(p):
        return BoolV(p)
    return Num(p, 'npint' if dtype == 'int' else None)


def wrap(I, a, base=None):
    """Value for an array result: 0-d arrays become scalars."""
    if isinstance(a, Arr) and a.ndim == 0:
        return scalar(a.fn(), a.dtype)
    return I.new_arr(a, base)


def maxi(a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    d = a - b
    if (d.cval() or 0) != 0:
        return a if d.cval() > 0 else b
    f = Facts()
    if f.prove_ge0(d):
        return a
    if f.prove_ge0(-d):
        return b
    lead = next(c for m, c in d.terms)
    if lead > 0:
        return ite(c_lt0(d), b, a)
    return ite(c_lt0(-d), a, b)


def mini(a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    d = a - b
    if (d.cval() or 0) != 0:
        return b if d.cval() > 0 else a
    f = Facts()
    if f.prove_ge0(d):
        return b
    if f.prove_ge0(-d):
        return a
    lead = next(c for m, c in d.terms)
    if lead > 0:
        return ite(c_lt0(d), a, b)
    return ite(c_lt0(-d), b, a)


def prove_neg(I, p):
    p = P(p)
    c = p.cval()
    if c is not None:
        return c < 0
    if not is_int(p):
        return False
    return I.st.facts().prove_ge0(-p - 1)


# ---------------------------------------------------------------- sequences
def seg_len(s):
    if isinstance(s, CarrySeg):
        return fn('carrylen', mk('sym', 'carry:' + s.tag))
    if isinstance(s, Item):
        return ite(s.guard, ONE, ZERO)
    if isinstance(s, NestedSegT()):
        def f(k):
            t = ZERO
            for x in s.fn(k):
                t = t + (ite(x.guard, ONE, ZERO) if isinstance(x, Item) else seg_len(x[1]))
            return t
        return sum_over(s.size, f)

    def g(k):
        t = ZERO
        for it in s.fn(k):
            t = t + ite(it.guard, ONE, ZERO)
        return t
    return sum_over(s.size, g)


def seq_len(q):
    r = ZERO
    for s in q.segs:
        r = r + seg_len(s)
    return r


def arr_to_seq(a):
    """1-d (or n-d along the first axis) array -> Seq of kind 'array'."""
    if isinstance(a, Seq):
        return a
    n = cint(a.shape[0]) if a.ndim else None
    if a.ndim == 1:
        if n is not None and n <= 16:
            return Seq([Item(scalar(a.fn(const(k)), a.dtype)) for k in range(n)], 'array', a.prov)
        return Seq([Seg(a.shape[0], lambda k: [Item(scalar(a.fn(P(k)), a.dtype))])], 'array', a.prov)
    return Seq([Seg(a.shape[0], lambda k: [Item(sub_arr(a, k))])], 'array', a.prov)


def sub_arr(a, k):
    """a[k] along the first axis"""
    if a.ndim == 1:
        return scalar(a.fn(P(k)), a.dtype)
    return Arr(a.shape[1:], lambda *ix: a.fn(P(k), *ix), a.dtype, a.prov)


def size_guard(c):
    """A guard that only compares sizes (prefix-closed by the dense-prefix assumption)."""
    return all(a.kind in ('lt', 'eq') and SIZE_GUARDS and all(is_int(x) for x in a.args if isinstance(x, Poly)) for a in c_atoms(c))


SIZE_GUARDS = False


def seg_dense(s):
    """fn k -> value for a segment emitting one value per iteration (guards prefix-closed), else None."""
    if not isinstance(s, Seg) or isinstance(s, NestedSegT()):
        return None
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) == 1 and (its[0].guard is TRUE or size_guard(its[0].guard)):
        return lambda i: s.fn(P(i))[0].v
    return None


def seg_alt(I, s):
    """fn k -> value for a segment whose items per iteration are mutually exclusive and exhaustive."""
    if not isinstance(s, Seg) or isinstance(s, NestedSegT()):
        return None
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) < 2:
        return None
    tot = FALSE
    for it in its:
        if c_and(tot, it.guard) is not FALSE:
            return None
        tot = c_or(tot, it.guard)
    if Facts().simplify(tot) is not TRUE and not size_guard(tot):
        return None

    def f(i):
        xs = s.fn(P(i))
        v = xs[-1].v
        for it in reversed(xs[:-1]):
            v = I.merge_val(it.guard, it.v, v)
        return v
    return f


def norm_segs(I, segs):
    """Merge alternatives so that each segment emits one item per iteration when possible."""
    out = []
    i = 0
    while i < len(segs):
        s = segs[i]
        if isinstance(s, Item) and s.guard is not TRUE:
            # exhaustive run of guarded items
            tot, j, ok = FALSE, i, True
            vals = []
            while j < len(segs) and isinstance(segs[j], Item) and segs[j].guard is not TRUE and c_and(tot, segs[j].guard) is FALSE:
                vals.append(segs[j])
                tot = c_or(tot, segs[j].guard)
                j += 1
                if tot is TRUE:
                    break
            if tot is TRUE:
                v = vals[-1].v
                for it in reversed(vals[:-1]):
                    v = I.merge_val(it.guard, it.v, v)
                out.append(Item(v))
                i = j
                continue
        if isinstance(s, Seg):
            f = seg_alt(I, s)
            if f is not None:
                k = fresh('q', ub=s.size)
                tot = FALSE
                for it in s.fn(k):
                    tot = c_or(tot, it.guard)
                ka = k.single_atom()
                s = Seg(s.size, lambda kk, f=f, tot=tot, ka=ka: [Item(f(kk), Facts().simplify(subst(tot, {ka: P(kk)})))])
        out.append(s)
        i += 1
    return out


def segs_of(I, v):
    """Segments of any iterable value."""
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return list(c.segs)
        if isinstance(c, ArrC):
            return segs_of(I, c.v)
        if isinstance(c, DictC):
            return [Item(I.key_value(k)) for k in c.d]
    if isinstance(v, Seq):
        return list(v.segs)
    if isinstance(v, Arr):
        return arr_to_seq(v).segs
    out = []
    for ch in chunks(I, v):
        if ch[0] == 'item':
            out.append(Item(ch[2], ch[1]))
        else:
            out.append(Seg(ch[1], lambda k, f=ch[2]: [Item(f(k)[1], f(k)[0])]))
    return out


def chunks_of_segs(I, segs):
    out = []
    for s in norm_segs(I, segs):
        if isinstance(s, Item):
            out.append(('item', s.guard, s.v))
        elif isinstance(s, CarrySeg):
            t = mk('sym', 'carry:' + s.tag)
            out.append(('seg', fn('carrylen', t), lambda k, t=t: (TRUE, TV(mk('fn', '?carryitem', t, P(k))))))
        elif isinstance(s, NestedSegT()):
            out.append(_nested_chunk(I, s))
        else:
            k = fresh('q', ub=s.size)
            its = s.fn(k)
            if not its:
                continue
            n = cint(s.size)
            if n is not None and n <= 16:
                for j in range(n):
                    for it in s.fn(const(j)):
                        out.append(('item', it.guard, it.v))
                continue
            if len(its) == 1:
                out.append(('seg', s.size, lambda k, s=s: (s.fn(P(k))[0].guard, s.fn(P(k))[0].v)))
            else:
                raise _interp.Unsupported('several items per iteration')
    return out


def _nested_chunk(I, s):
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) == 1 and not isinstance(its[0], Item):
        inner = its[0][1]
        if isinstance(inner, Seg) and not isinstance(inner, NestedSegT()) and k.single_atom() not in free(inner.size):
            j = fresh('q', ub=inner.size)
            xs = inner.fn(j)
            if len(xs) == 1:
                n = inner.size

                def f(q, s=s, n=n):
                    q = P(q)
                    x = s.fn(div_(q, n))[0][1].fn(mod_(q, n))[0]
                    return x.guard, x.v
                return ('seg', s.size * n, f)
    raise _interp.Unsupported('nested sequence')


def chunks(I, v):
    """Iteration structure of a value."""
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return chunks_of_segs(I, c.segs)
        if isinstance(c, ArrC):
            return chunks(I, c.v)
        if isinstance(c, DictC):
            return [('item', TRUE, I.key_value(k)) for k in c.d]
        if isinstance(c, ObjC):
            m = I.class_lookup(c.cls, '__iter__')
            if m is not None:
                return chunks(I, I.call_func(m, [v], {}))
            if I.class_lookup(c.cls, '__getitem__') is not None and I.class_lookup(c.cls, '__len__') is not None:
                n = numf(I, I.call(I.get_attr(v, '__len__'), [], {}))
                return [('seg', n, lambda k: (TRUE, I.get_item(v, Num(k, 'int'))))]
            flds = [n.target.id for n in c.cls.node.body if hasattr(n, 'target') and hasattr(n.target, 'id')]
            if flds and all(f in c.attrs for f in flds):
                return [('item', TRUE, c.attrs[f]) for f in flds]
            I.raise_exc('TypeError')
    if isinstance(v, Seq):
        return chunks_of_segs(I, v.segs)
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_exc('TypeError')
        n = cint(v.shape[0])
        if n is not None and n <= 16:
            return [('item', TRUE, sub_arr(v, const(k))) for k in range(n)]
        return [('seg', v.shape[0], lambda k: (TRUE, sub_arr(v, k)))]
    if isinstance(v, Tup):
        return [('item', TRUE, x) for x in v.items]
    if isinstance(v, FDict):
        return [('item', TRUE, I.key_value(k)) for k in v.d]
    if isinstance(v, Str):
        if isinstance(v.s, str):
            return [('item', TRUE, Str(ch)) for ch in v.s]
        return [('item', TRUE, Num(ch, 'int')) for ch in v.s]
    if isinstance(v, RangeV):
        a, b, s = num(v.a), num(v.b), num(v.s)
        n = range_len(v)
        c = cint(n)
        kd = 'int'
        if c is not None and c <= getattr(I, 'unroll', 64):
            return [('item', TRUE, Num(a + s * k, kd)) for k in range(c)]
        return [('seg', n, lambda k: (TRUE, Num(a + s * P(k), kd)))]
    if isinstance(v, XObj):
        from . import extmodel
        return extmodel.x_chunks(I, v)
    if v is NONE or isinstance(v, (Num, BoolV)):
        I.raise_exc('TypeError')
    if isinstance(v, TV):
        t = v.t
        o = '' if not has_opaque(t) else ''
        return [('seg', fn('len', t), lambda k: (TRUE, TV(mk('fn', 'item', t, P(k)))))]
    raise _interp.Unsupported('iterate %r' % (v,))


def range_len(v):
    a, b, s = num(v.a), num(v.b), num(v.s)
    d = b - a
    if s.cval() == 1:
        c = d.cval()
        if c is not None:
            return const(max(0, c))
        return d
    cs = s.cval()
    if cs is not None and cs < 0:
        d, s = -d, -s
        if s.cval() == 1:
            return d if d.cval() is None else const(max(0, d.cval()))
    r = div_(d + s - 1, s)
    c = r.cval()
    return const(max(0, c)) if c is not None else r


def seq_elem(I, segs, k):
    """Element at (non-negative) position k of a segment list."""
    segs = norm_segs(I, segs)
    k = P(k)
    kc = cint(k)
    # leading concrete items
    pos = ZERO
    outs = []   # (start, length, fn)
    for s in segs:
        if isinstance(s, Item):
            if s.guard is TRUE or size_guard(s.guard):
                outs.append((pos, ONE, lambda j, s=s: s.v))
                pos = pos + 1
            else:
                return seq_elem_guarded(I, segs, k)
        elif isinstance(s, CarrySeg):
            ln = seg_len(s)
            t = mk('sym', 'carry:' + s.tag)
            outs.append((pos, ln, lambda j, t=t: TV(mk('fn', '?carryitem', t, P(j)))))
            pos = pos + ln
        else:
            f = seg_dense(s)
            if f is None:
                return seq_elem_guarded(I, segs, k)
            q = fresh('q', ub=s.size)
            g = s.fn(q)[0].guard
            if g is not TRUE:
                I.note('dense-prefix assumption used for indexing a filtered sequence')
            outs.append((pos, s.size, f))
            pos = pos + s.size
    # carry followed by the item just appended, indexed by the loop counter
    if len(segs) >= 2 and isinstance(segs[0], CarrySeg) and all(isinstance(s, Item) for s in segs[1:]):
        j = k - outs[1][0]
        jc = j.cval()
        if jc is not None:
            if 0 <= jc < len(segs) - 1:
                return segs[1 + int(jc)].v
        a = k.single_atom()
        if len(segs) == 2 and a is not None and a.kind == 'sym' and a.args[0].startswith('i~'):
            I.note('dense-prefix assumption used for indexing the element appended in the same iteration')
            return segs[1].v
    facts = I.st.facts()
    val = None
    cands = []
    for st, ln, f in outs:
        lo = facts.simplify(c_le(st, k))
        hi = facts.simplify(c_lt(k, st + ln))
        if lo is TRUE and hi is TRUE:
            return f(k - st)
        if lo is FALSE:
            continue
        if hi is FALSE:
            continue
        cands.append((c_and(lo, hi), f, st))
    if not cands:
        if cint(pos) is not None and kc is not None:
            I.raise_exc('IndexError')
        if outs:
            st, ln, f = outs[-1]
            return f(k - st)
        if kc is not None:
            I.raise_exc('IndexError')
        return TV(mk('fn', '?elem', I.term(Seq(segs)), k))
    c, f, st = cands[-1]
    val = f(k - st)
    for c, f, st in reversed(cands[:-1]):
        val = I.merge_val(c, f(k - st), val)
    return val


def seq_elem_guarded(I, segs, k):
    """k-th surviving element of a filtered sequence."""
    if len(segs) == 1 and isinstance(segs[0], Seg) and not isinstance(segs[0], NestedSegT()):
        s = segs[0]
        q = fresh('q', ub=s.size)
        its = s.fn(q)
        if len(its) == 1:
            qa = q.single_atom()
            g = its[0].guard
            if P(k).cval() == 0:
                idx = fn('first_true', mk_arrT([qa], g, s.size))
            else:
                idx = fn('nth', mk_arrT([qa], g, s.size), P(k))
            return s.fn(idx)[0].v
    if all(isinstance(s, Item) for s in segs) and cint(k) is not None and len(segs) <= 12:
        # k-th among concrete guarded items
        def go(i, need):
            if i == len(segs):
                return TV(mk('fn', '?indexerror'))
            s = segs[i]
            if s.guard is TRUE:
                return s.v if need == 0 else go(i + 1, need - 1)
            a = s.v if need == 0 else go(i + 1, need - 1)
            return I.merge_val(s.guard, a, go(i + 1, need))
        return go(0, cint(k))
    return TV(mk('fn', 'elem', I.term(Seq(segs)), P(k)))


ITEM = {'bool': 1, 'float32': 4, 'int32': 4}   # bytes per element, 8 otherwise


def seq_to_arr(I, q, strict=False):
    """Array in index notation for an array-like Seq; None if its shape is not expressible."""
    segs = norm_segs(I, q.segs)
    if any(isinstance(s, CarrySeg) for s in segs) and (strict or q.kind != 'array'):
        return None
    if not segs:
        return Arr([ZERO], lambda k: ZERO, 'float', q.prov)
    parts = []
    for s in segs:
        if isinstance(s, CarrySeg):
            # the numbers collected by the earlier rounds of the loop
            h = mk('head', 'carry:' + s.tag)
            parts.append((fn('carrylen', mk('sym', 'carry:' + s.tag)), lambda j, h=h: Num(el(h, j))))
        elif isinstance(s, Item):
            if s.guard is not TRUE and not size_guard(s.guard):
                return _guarded_arr(I, segs, q)
            parts.append((ite(s.guard, ONE, ZERO), lambda j, s=s: s.v))
        elif isinstance(s, NestedSegT()):
            try:
                ch = _nested_chunk(I, s)
            except _interp.Unsupported:
                return None
            z = fresh('q', ub=ch[1])
            if ch[2](z)[0] is not TRUE:
                return None
            parts.append((ch[1], lambda j, f=ch[2]: f(j)[1]))
        else:
            f = seg_dense(s)
            if f is None:
                return _guarded_arr(I, segs, q)
            parts.append((seg_len(s), f))
    return stack_parts(I, parts, q.prov if q.kind == 'array' else frozenset())


def _guarded_arr(I, segs, q):
    if len(segs) != 1:
        return None
    s = segs[0]
    if isinstance(s, Item):
        return stack_parts(I, [(ite(s.guard, ONE, ZERO), lambda j, s=s: s.v)], frozenset())
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) != 1:
        return None
    n = seg_len(s)
    g = mk_arrT([k.single_atom()], its[0].guard, s.size)

    def val(j):
        return s.fn(mk_fn('nth', g, P(j)))[0].v
    return stack_parts(I, [(n, val)], frozenset())


def elem_arr(I, v):
    """An element of a list as an array (0-d for scalars)."""
    if isinstance(v, Num):
        return Arr((), lambda: v.p, 'int' if v.kind in ('int', 'npint') else 'float')
    if isinstance(v, BoolV):
        return Arr((), lambda: v.c, 'bool')
    if isinstance(v, TV):
        if v.kind == 'str':
            return None
        p = P(v.t) if isinstance(v.t, Node) else v.t
        return Arr((), lambda: p, 'float')
    if isinstance(v, IteV):
        a, b = elem_arr(I, v.a), elem_arr(I, v.b)
        if a is None or b is None:
            return None
        r = I.merge_val(v.c, a, b)
        return r if isinstance(r, Arr) else None
    return as_arr(I, v)


def stack_parts(I, parts, prov=frozenset()):
    """Stack list parts [(count, fn j -> value)] along a new first axis."""
    probes = []
    for n, f in parts:
        z = fresh('q', ub=n)
        a = elem_arr(I, f(const(0)) if cint(n) == 1 else f(z))
        if a is None:
            return None
        probes.append(a)
    nd = probes[0].ndim
    if any(a.ndim != nd for a in probes):
        return None
    dts = {a.dtype for a in probes}
    dt = dts.pop() if len(dts) == 1 else ('float' if 'float' in dts else 'int')
    total = ZERO
    offs = []
    for n, f in parts:
        offs.append(total)
        total = total + n
    shape = probes[-1].shape
    for a in probes:
        if all(not has_fresh(s) for s in a.shape):
            shape = a.shape
            break
    if any(has_fresh(s) for s in shape):
        # ragged
        shape = [s if not has_fresh(s) else fn('?ragged', s) for s in shape]

    def get(f, j, ix):
        a = elem_arr(I, f(j))
        x = a.fn(*ix)
        if dt != 'bool' and a.dtype == 'bool':
            x = ite(x, ONE, ZERO)
        return x

    def fnn(k, *ix):
        k = P(k)
        kc = k.cval()
        if kc is not None:
            for (n, f), o in zip(parts, offs):
                oc, nc = o.cval(), n.cval()
                if oc is None:
                    break
                if nc is not None:
                    if oc <= kc < oc + nc:
                        return get(f, k - o, ix)
                elif oc <= kc:
                    return get(f, k - o, ix)
        fx = Facts()
        r = None
        for (n, f), o in reversed(list(zip(parts, offs))):
            if r is None:
                r = get(f, k - o, ix)
            else:
                c = fx.simplify(c_lt(k, o + n))
                if c is FALSE:
                    continue
                v = get(f, k - o, ix)
                r = c_ite(c, v, r) if dt == 'bool' else ite(c, v, r)
        return r
    return Arr([total] + list(shape), fnn, dt, prov)


def has_fresh(p):
    return any(a.kind == 'sym' and a.args[0].startswith('q~') for a in free(p))


def as_arr(I, v):
    """Array behind any array-like value, or None."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ArrC):
            return c.v if isinstance(c.v, Arr) else seq_to_arr(I, c.v)
        if isinstance(c, ListC):
            return list_to_arr(I, c.segs)
        return None
    if isinstance(v, Seq):
        return seq_to_arr(I, v)
    if isinstance(v, Num):
        return Arr((), lambda: v.p, 'int' if v.kind in ('int', 'npint') else 'float')
    if isinstance(v, BoolV):
        return Arr((), lambda: v.c, 'bool')
    if isinstance(v, Tup):
        return list_to_arr(I, [Item(x) for x in v.items])
    if isinstance(v, RangeV):
        a, s = num(v.a), num(v.s)
        return Arr([range_len(v)], lambda k: a + s * P(k), 'int')
    if isinstance(v, IteV):
        a, b = as_arr(I, v.a), as_arr(I, v.b)
        if a is None or b is None:
            return None
        r = I.merge_val(v.c, a, b)
        return r if isinstance(r, Arr) else None
    if isinstance(v, XObj):
        from . import extmodel
        return extmodel.x_as_arr(I, v)
    if isinstance(v, TV) and v.kind == 'num':
        return Arr((), lambda: P(v.t), 'float')
    return None


def list_to_arr(I, segs):
    return seq_to_arr(I, Seq(segs))


# ---------------------------------------------------------------- broadcasting
def bshape(I, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        dims = []
        for s in shapes:
            k = ax - (nd - len(s))
            if k >= 0:
                dims.append(s[k])
        d = None
        for x in dims:
            if x.cval() == 1:
                continue
            if d is None:
                d = x
            elif d != x:
                if d.cval() is not None and x.cval() is not None:
                    I.raise_exc('ValueError')
                if x.cval() is not None:
                    d = x
        out.append(d if d is not None else ONE)
    return tuple(out)


def bidx(shape, idx):
    """Indices into an array of `shape` for a broadcast result index."""
    k = len(idx) - len(shape)
    out = []
    for s, i in zip(shape, idx[k:]):
        out.append(ZERO if s.cval() == 1 else i)
    return out


def elt(a, x):
    return ite(x, ONE, ZERO) if a.dtype == 'bool' else x


def elementwise(I, f, args, dtype=None, boolres=False, rawbool=False):
    """f over broadcast arrays; args are Arr."""
    shape = bshape(I, [a.shape for a in args])

    def g(*ix):
        xs = []
        for a in args:
            x = a.fn(*bidx(a.shape, ix))
            xs.append(x if rawbool else elt(a, x))
        return f(*xs)
    if boolres:
        dt = 'bool'
    elif dtype is None:
        dt = 'int' if all(a.dtype in ('int', 'bool') for a in args) else 'float'
    else:
        dt = dtype
    return Arr(shape, g, dt)


def aligned(I, *qs):
    """Are Seqs element-aligned (same segment structure and guards)?"""
    n = len(qs[0].segs)
    if any(len(q.segs) != n for q in qs):
        return False
    for col in zip(*[q.segs for q in qs]):
        if all(isinstance(s, Item) for s in col):
            if len({s.guard for s in col}) != 1:
                return False
            if any(not isinstance(s.v, (Num, BoolV)) for s in col):
                return False
        elif all(isinstance(s, Seg) and not isinstance(s, NestedSegT()) for s in col):
            if len({s.size for s in col}) != 1:
                return False
            k = fresh('q', ub=col[0].size)
            its = [s.fn(k) for s in col]
            if any(len(x) != len(its[0]) for x in its):
                return False
            for row in zip(*its):
                if len({x.guard for x in row}) != 1:
                    return False
                if any(not isinstance(x.v, (Num, BoolV)) for x in row):
                    return False
        else:
            return False
    return True


def map_seqs(I, f, qs):
    """Elementwise over aligned Seqs -> Seq."""
    out = []
    for col in zip(*[q.segs for q in qs]):
        if isinstance(col[0], Item):
            out.append(Item(f(*[s.v for s in col]), col[0].guard))
        else:
            def g(k, col=col):
                rows = [s.fn(k) for s in col]
                return [Item(f(*[x.v for x in row]), row[0].guard) for row in zip(*rows)]
            out.append(Seg(col[0].size, g))
    return Seq(out, 'array')


def lift(I, f, vals, boolres=False, dtype=None):
    """Apply a scalar term function to scalars / arrays / appended sequences with broadcasting.

    f works on Poly; returns a value or None when an operand is not array-like."""
    ps = [num(v) for v in vals]
    if all(p is not None for p in ps):
        if boolres:
            return BoolV(f(*ps))
        kinds = [v.kind if isinstance(v, Num) else ('int' if isinstance(v, BoolV) else None) for v in vals]
        return Num(f(*ps), combine_kind(kinds) if dtype is None else dtype)
    avs = []
    for v, p in zip(vals, ps):
        if p is not None:
            avs.append(v)
            continue
        a = I.arrval(v)
        avs.append(a if a is not None else v)
    seqs = [a for a in avs if isinstance(a, Seq)]
    if seqs and all(isinstance(a, Seq) or num(a) is not None for a in avs) and not any(isinstance(s, CarrySeg) for q in seqs for s in q.segs):
        if len(seqs) == 1 and seq_items_scalar(seqs[0]) or (len(seqs) > 1 and aligned(I, *seqs)):
            def h(*xs):
                it = iter(xs)
                full = [numf(I, next(it)) if isinstance(a, Seq) else num(a) for a in avs]
                r = f(*full)
                return BoolV(r) if boolres else Num(r)
            return I.new_arr(map_seqs(I, h, seqs))
    arrs = []
    for a in avs:
        x = as_arr(I, a)
        if x is None:
            return None
        arrs.append(x)
    return wrap(I, elementwise(I, f, arrs, dtype=dtype, boolres=boolres))


def seq_items_scalar(q):
    for s in q.segs:
        if isinstance(s, Item):
            if not isinstance(s.v, (Num, BoolV)):
                return False
        elif isinstance(s, NestedSegT()) or not isinstance(s, Seg):
            return False
        else:
            k = fresh('q', ub=s.size)
            if any(not isinstance(x.v, (Num, BoolV)) for x in s.fn(k)):
                return False
    return True


def combine_kind(kinds):
    if all(k == 'int' for k in kinds):
        return 'int'
    if all(k in ('int', 'npint') for k in kinds):
        return 'npint'
    if all(k in ('int', 'float') for k in kinds):
        return 'float'
    return None


def ufunc1(I, f, v, dtype=None):
    r = lift(I, f, [v], dtype=dtype)
    if r is None:
        return I.opaque('ufunc', v)
    return r


# ---------------------------------------------------------------- scalar functions
def p_pow(a, b):
    c = b.cval()
    if c is not None and c.denominator <= 4 and abs(c) <= 64:
        return a.power(c)
    if a.cval() == 1:
        return ONE
    return mk_fn('pow', a, b)


def _r_pow(a, b):
    c = b.cval()
    if c is not None and c.denominator <= 4 and abs(c) <= 64:
        return a.power(c)
    return fn('pow', a, b)


def _fold(name, py=None):
    def r(x):
        l = lift_ite(x)
        if isinstance(l, tuple):
            return ite(l[0], r(l[1]), r(l[2]))
        c = x.cval()
        if c is not None and py is not None:
            v = py(c)
            if v is not None:
                return P(v)
        return fn(name, x)
    return r


def _abs(x):
    l = lift_ite(x)
    if isinstance(l, tuple):
        return ite(l[0], _abs(l[1]), _abs(l[2]))
    c = x.cval()
    if c is not None:
        return const(abs(c))
    f = Facts()
    if f.prove_ge0(x):
        return x
    if f.prove_ge0(-x):
        return -x
    if x.terms[0][1] < 0:
        x = -x
    return fn('abs', x)


def _exp(x):
    if not x.terms:
        return ONE
    return fn('exp', x)


def _log(x):
    if x.cval() == 1:
        return ZERO
    if len(x.terms) == 1:
        m, c = x.terms[0]
        if c > 0 and len(m) + (c != 1) > 1 and all((atom_lo(a) or -1) >= 0 or a.kind == 'fn' and a.args[0] == 'pi' for a, e in m):
            r = fn('log', const(c)) if c != 1 else ZERO
            for a, e in m:
                r = r + fn('log', atom(a)) * const(e)
            return r
    return fn('log', x)


def _cos(x):
    if not x.terms:
        return ONE
    if x.terms[0][1] < 0:
        x = -x
    return fn('cos', x)


def _sin(x):
    if not x.terms:
        return ZERO
    if x.terms[0][1] < 0:
        return -fn('sin', -x)
    return fn('sin', x)


def _atan2(y, x):
    return fn('atan2', y, x)


def _trunc(x):
    l = lift_ite(x)
    if isinstance(l, tuple):
        return ite(l[0], _trunc(l[1]), _trunc(l[2]))
    c = x.cval()
    if c is not None:
        return const(int(c))
    if is_int(x):
        return x
    lo = poly_lo(x)
    if lo is not None and lo >= 0:
        return floor_(x)
    return fn('trunc', x)


def _ceil(x):
    l = lift_ite(x)
    if isinstance(l, tuple):
        return ite(l[0], _ceil(l[1]), _ceil(l[2]))
    return -floor_(-x)


def _nth(g, k):
    k = P(k)
    if k.cval() == 0:
        return fn('first_true', g)
    body = g.args[1]
    if body is TRUE:
        return k
    return fn('nth', g, k)


def _exit_round(g):
    if g.args[1] is TRUE:
        return ZERO
    return fn('exit_round', g)


def _first_true(g):
    body = g.args[1]
    if body is TRUE:
        return ZERO
    return fn('first_true', g)


def _rint(x):
    c = x.cval()
    if c is not None:
        return const(round(c))
    if is_int(x):
        return x
    l = lift_ite(x)
    if isinstance(l, tuple):
        return ite(l[0], _rint(l[1]), _rint(l[2]))
    return fn('rint', x)


def round_to(x, d):
    """x rounded to d decimals"""
    if d is None or abs(d) > 30:
        return fn('?round', P(x))
    s = const(Fraction(10)**d)
    if is_int(P(x) * s):
        return P(x)
    return _rint(P(x) * s) / s


INT_FNS.add('nth')
NONNEG_FNS.update(['nth', 'carrylen', 'masklen', 'count'])
INT_FNS.update(['carrylen', 'masklen', 'itemsize'])

SCALAR_FNS = {
    'exp': _exp, 'log': _log, 'cos': _cos, 'sin': _sin, 'abs': _abs, 'trunc': _trunc, 'ceil': _ceil,
    'tan': _fold('tan'), 'arctan': _fold('arctan'), 'arcsin': _fold('arcsin'), 'arccos': _fold('arccos'),
    'log10': _fold('log10'), 'log2': _fold('log2'), 'log1p': _fold('log1p'), 'expm1': _fold('expm1'),
    'sinh': _fold('sinh'), 'cosh': _fold('cosh'), 'tanh': _fold('tanh'), 'sign': _fold('sign', lambda c: (c > 0) - (c < 0)),
    'cbrt': lambda x: x.power(Fraction(1, 3)), 'rint': _rint,
}
for _n, _f in SCALAR_FNS.items():
    FN_RULES[_n] = _f
FN_RULES['atan2'] = _atan2
FN_RULES['nth'] = _nth
FN_RULES['first_true'] = _first_true
FN_RULES['exit_round'] = _exit_round
FN_RULES['pow'] = _r_pow


def to_bool(p):
    return c_not(c_eq0(p))


# ---------------------------------------------------------------- operators
def p_op(op):
    if op == 'Add':
        return lambda a, b: a + b
    if op == 'Sub':
        return lambda a, b: a - b
    if op == 'Mult':
        return lambda a, b: a * b
    if op == 'Div':
        return lambda a, b: a / b
    if op == 'Pow':
        return p_pow
    if op == 'FloorDiv':
        return lambda a, b: gated2(div_, a, b)
    if op == 'Mod':
        return lambda a, b: gated2(mod_, a, b)
    return None


def gated2(f, a, b):
    l = lift_ite(a)
    if isinstance(l, tuple):
        return ite(l[0], gated2(f, l[1], b), gated2(f, l[2], b))
    l = lift_ite(b)
    if isinstance(l, tuple):
        return ite(l[0], gated2(f, a, l[1]), gated2(f, a, l[2]))
    return f(a, b)


def is_listlike(I, v):
    if isinstance(v, Ref):
        return isinstance(I.content(v), ListC)
    return isinstance(v, Seq) and v.kind in ('list', 'tuple', 'gen', 'set') or isinstance(v, Tup)


def kind_of_list(I, v):
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, Seq):
        return v.kind
    return I.content(v).kind


def binop(I, op, a, b):
    # operator overloading on repository objects
    for x, y, pre in ((a, b, '__'), (b, a, '__r')):
        if isinstance(x, Ref) and isinstance(I.content(x), ObjC):
            nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'MatMult': 'matmul', 'Mod': 'mod', 'FloorDiv': 'floordiv'}.get(op)
            m = I.class_lookup(I.content(x).cls, pre + nm + '__') if nm else None
            if m is not None:
                return I.call_func(m, [x, y], {})
    if isinstance(a, Str) or isinstance(b, Str) or (isinstance(a, TV) and a.kind == 'str') or (isinstance(b, TV) and b.kind == 'str'):
        if op == 'Add':
            if isinstance(a, (Str, TV)) and isinstance(b, (Str, TV)):
                return strcat(I, [a, b])
            I.raise_exc('TypeError')
        if op == 'Mod':
            return TV(mk('fn', 'strformat', I.term(a), I.term(b)), 'str')
        if op == 'Mult' and isinstance(a, Str) and asint(b) is not None:
            return Str(a.s * asint(b))
        if op == 'Div':
            return TV(mk('fn', 'pathjoin', I.term(a), I.term(b)), 'str')
        return I.opaque('strop', a, b)
    if a is NONE or b is NONE:
        I.raise_exc('TypeError')
    if is_listlike(I, a) and is_listlike(I, b) and I.arrval(a) is None and I.arrval(b) is None:
        ka, kb = kind_of_list(I, a), kind_of_list(I, b)
        if op == 'Add':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if ka == 'tuple':
                return Seq(segs_of(I, a) + segs_of(I, b), 'tuple')
            return I.alloc(ListC(segs_of(I, a) + segs_of(I, b), kind='list'))
        if op in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
            sa, sb = segs_of(I, a), segs_of(I, b)
            if op in ('Sub', 'BitAnd'):
                neg = op == 'Sub'
                return I.alloc(ListC(filter_segs(I, sa, lambda v: (lambda c: c_not(c) if neg else c)(member(I, v, b))), kind='set'))
            if op == 'BitOr':
                return I.alloc(ListC(sa + filter_segs(I, sb, lambda v: c_not(member(I, v, a))), kind='set'))
        return I.opaque('listop', a, b)
    if op == 'Mult' and (is_listlike(I, a) or is_listlike(I, b)) and I.arrval(a) is None and I.arrval(b) is None:
        l, n = (a, b) if is_listlike(I, a) else (b, a)
        k = asint(n)
        segs = segs_of(I, l)
        if k is not None and 0 <= k <= 16:
            out = segs * k
            if isinstance(l, Tup):
                return Tup([s.v for s in out])
            return I.alloc(ListC(out))
        if num(n) is not None and len(segs) == 1 and isinstance(segs[0], Item):
            it = segs[0]
            return I.alloc(ListC([Seg(num(n), lambda q: [Item(it.v, it.guard)])]))
        return I.opaque('listmul', a, b)
    if op == 'MatMult':
        from . import npmodel
        return npmodel.matmul(I, a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        f = {'BitAnd': c_and, 'BitOr': c_or, 'BitXor': lambda x, y: c_ite(x, c_not(y), y)}[op]
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(f(a.c, b.c))
        x, y = as_arr(I, a), as_arr(I, b)
        if x is not None and y is not None and x.dtype == 'bool' and y.dtype == 'bool':
            return wrap(I, elementwise(I, f, [x, y], boolres=True, rawbool=True))
        if isinstance(a, Ref) and isinstance(I.content(a), DictC) and op == 'BitOr':
            d = dict(I.content(a).d)
            for k, v in dict_items(I, b):
                d[k] = v
            return I.alloc(DictC(d))
        return I.opaque('bitop:' + op, a, b)
    f = p_op(op)
    if f is None:
        if op in ('LShift', 'RShift') and num(a) is not None and asint(b) is not None:
            return Num(num(a) * const(2**asint(b)) if op == 'LShift' else div_(num(a), const(2**asint(b))), 'int')
        return I.opaque('binop:' + op, a, b)
    if isinstance(a, XObj) or isinstance(b, XObj):
        from . import extmodel
        r = extmodel.x_binop(I, op, a, b)
        if r is not None:
            return r
    tva, tvb = isinstance(a, TV), isinstance(b, TV)
    if tva or tvb:
        # an unknown operand: elementwise unknown
        if tva and tvb:
            return TV(mk('fn', 'op:' + op, a.t, b.t))
        t, o = (a, b) if tva else (b, a)
        x = I.arrval(o)
        if x is None and num(o) is None:
            x = as_arr(I, o)
        if x is None:
            if num(o) is not None:
                return Num(f(numf(I, a), numf(I, b)))
            return TV(mk('fn', 'op:' + op, I.term(a), I.term(b)))
        if isinstance(x, Seq):
            return TV(mk('fn', 'op:' + op, I.term(a), I.term(b)))
        h = mk('head', '?bcast', t.t) if has_opaque(t.t) else mk('head', 'bcast', t.t)
        y = Arr(x.shape, lambda *ix: el(h, *ix), 'float')
        pa, pb = (y, x) if tva else (x, y)
        return wrap(I, elementwise(I, f, [pa, pb]))
    dt = None
    r = lift(I, f, [a, b])
    if r is None:
        if isinstance(a, (Ref, Seq, Tup)) and isinstance(b, (Ref, Seq, Tup, Num)):
            return I.opaque('binop:' + op, a, b)
        I.raise_exc('TypeError')
    # result kinds
    if isinstance(r, Num) and op in ('Div', 'Mult', 'FloorDiv') and isinstance(a, Num) and isinstance(b, Num) and not (is_int(a.p) and is_int(b.p)):
        q = r.p if op != 'FloorDiv' else a.p / b.p
        if q.cval() is None and is_int(q):
            if op == 'FloorDiv':
                I.event('truncation', q)
            else:
                r = Inexact(r.p, r.kind)
    if isinstance(r, Num) and not isinstance(r, Inexact):
        ka = getattr(a, 'kind', None)
        kb = getattr(b, 'kind', None)
        if op == 'Div' and r.kind in ('int', 'npint'):
            r = Num(r.p, 'float' if r.kind == 'int' else None)
        if op == 'Pow' and r.kind == 'int':
            c = num(b).cval()
            if c is None or c < 0:
                r = Num(r.p, 'float')
        return r
    if isinstance(r, Inexact):
        return r
    if isinstance(r, Ref) and op == 'Div':
        c = I.content(r)
        if isinstance(c, ArrC) and isinstance(c.v, Arr) and c.v.dtype == 'int':
            I.st.heap[r.id] = ArrC(Arr(c.v.shape, c.v.fn, 'float'))
    return r


def filter_segs(I, segs, pred):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(s.v, c_and(s.guard, pred(s.v))))
        elif isinstance(s, NestedSegT()) or isinstance(s, CarrySeg):
            raise _interp.Unsupported('filter nested')
        else:
            out.append(Seg(s.size, lambda k, s=s: [Item(x.v, c_and(x.guard, pred(x.v))) for x in s.fn(k)]))
    return [s for s in out if not (isinstance(s, Item) and s.guard is FALSE)]


def any_over(sizes, f):
    """exists idx in the box: f(idx); canonical."""
    bs = [fresh('e', ub=s) for s in sizes]
    c = f(*bs)
    return _any([b.single_atom() for b in bs], [P(s) for s in sizes], c)


def _any(bs, sizes, c):
    if c is FALSE:
        return FALSE
    # split product ranges
    for n, (b, s) in enumerate(zip(bs, sizes)):
        r = _div_split(b, s, c)
        if r is not None:
            (x, N), (y, M), c2 = r
            return _any(bs[:n] + [x, y] + bs[n + 1:], sizes[:n] + [N, M] + sizes[n + 1:], c2)
    keep, ks = [], []
    nonempty = TRUE
    for b, s in zip(bs, sizes):
        k = cint(s)
        if k is not None and k <= 8:
            c2 = FALSE
            for j in range(k):
                c2 = c_or(c2, subst(c, {b: const(j)}))
            c = c2
            continue
        if b in free(c):
            keep.append(b)
            ks.append(s)
        else:
            nonempty = c_and(nonempty, Facts().simplify(c_lt0(-s)))
    # eliminate equalities b == e
    for b, s in list(zip(keep, ks)):
        if c.kind == 'B':
            for a in sorted(c_atoms(c), key=lambda n: n.id):
                if a.kind == 'eq':
                    e = solve_for(a.args[0], b)
                    if e is not None and c_restrict(c, a, False) is FALSE:
                        rest = subst(c_restrict(c, a, True), {b: e})
                        inr = Facts().simplify(c_and(c_le(0, e), c_lt(e, s)))
                        keep2 = [(x, y) for x, y in zip(keep, ks) if x is not b]
                        return c_and(nonempty, _any([x for x, _ in keep2], [y for _, y in keep2], c_and(inr, rest)))
    if not keep:
        return c_and(nonempty, c)
    # distribute over conjuncts/disjuncts independent of the bound names
    if c.kind == 'B':
        ind = [a for a in sorted(c_atoms(c), key=lambda n: n.id) if not (free(a) & set(keep))]
        if ind:
            a = ind[0]
            return c_and(nonempty, c_ite(catom(a), _any(keep, ks, c_restrict(c, a, True)), _any(keep, ks, c_restrict(c, a, False))))
    if c is TRUE or c is FALSE:
        for s in ks:
            nonempty = c_and(nonempty, Facts().simplify(c_lt0(-s)))
        return c_and(nonempty, c)
    best = None
    for perm in permutations(range(len(keep))):
        t = mk_arrT([keep[i] for i in perm], c, *[ks[i] for i in perm])
        if best is None or t.id < best.id:
            best = t
    return c_and(nonempty, mk_b('any', best))


def _div_split(v, size, body):
    found = set()

    def scan(x):
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for a, _ in m:
                    scan(a)
        elif isinstance(x, tuple):
            for y in x:
                scan(y)
        elif isinstance(x, Node):
            if x.kind == 'fn' and x.args[0] in ('div', 'mod') and x.args[1] == atom(v):
                found.add(x.args[2])
            for y in x.args:
                scan(y)
    scan(body)
    if len(found) != 1:
        return None
    M = found.pop()
    N = size / M
    if any(e < 0 for m, _ in N.terms for _, e in m):
        return None
    d, md = mk('fn', 'div', atom(v), M), mk('fn', 'mod', atom(v), M)
    x, y = fresh('e', ub=N), fresh('e', ub=M)
    b2 = rebuild(body, lambda a: x if a is d else (y if a is md else None), {})
    if v in free(b2):
        return None
    return (x.single_atom(), N), (y.single_atom(), M), b2


def veq(I, a, b):
    """Condition a == b for two values."""
    if isinstance(a, IteV):
        return c_ite(a.c, veq(I, a.a, b), veq(I, a.b, b))
    if isinstance(b, IteV):
        return c_ite(b.c, veq(I, a, b.a), veq(I, a, b.b))
    pa, pb = num(a), num(b)
    if pa is not None and pb is not None:
        return c_eq0(pa - pb)
    if isinstance(a, Str) and isinstance(b, Str):
        return TRUE if a.s == b.s and type(a.s) is type(b.s) else FALSE
    if a is NONE or b is NONE:
        if a is b:
            return TRUE
        o = a if b is NONE else b
        if isinstance(o, TV):
            return FALSE if not has_opaque(o.t) and not I.carries(o) else c_b('?isnone', o.t)
        return FALSE
    sa = isinstance(a, Str) or isinstance(a, TV)
    sb = isinstance(b, Str) or isinstance(b, TV)
    if sa and sb:
        ta, tb = I.term(a), I.term(b)
        if ta is tb:
            return TRUE
        nm = 'streq'
        if has_opaque(ta) or has_opaque(tb):
            return c_b('?eq', ta, tb)
        return mk_b(nm, ta, tb)
    if isinstance(a, TV) and pb is not None or isinstance(b, TV) and pa is not None:
        return c_eq0(numf(I, a) - numf(I, b))
    if (isinstance(a, Str) and pb is not None) or (isinstance(b, Str) and pa is not None):
        return FALSE
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        return c_and(*[veq(I, x, y) for x, y in zip(a.items, b.items)])
    if is_listlike(I, a) and is_listlike(I, b):
        x, y = segs_of(I, a), segs_of(I, b)
        if all(isinstance(s, Item) and s.guard is TRUE for s in x + y):
            if len(x) != len(y):
                return FALSE
            return c_and(*[veq(I, p.v, q.v) for p, q in zip(x, y)])
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return TRUE
    if isinstance(a, (ExtV, ClsV)) and isinstance(b, (ExtV, ClsV)):
        return TRUE if I.term(a) is I.term(b) else FALSE
    ta, tb = I.term(a), I.term(b)
    if ta is tb:
        return TRUE
    if isinstance(a, (Str, Num, BoolV)) or isinstance(b, (Str, Num, BoolV)):
        if isinstance(a, (XObj,)) or isinstance(b, (XObj,)):
            return c_b('?eq', ta, tb)
        if not (isinstance(a, Ref) and I.arrval(a) is not None) and not (isinstance(b, Ref) and I.arrval(b) is not None):
            return FALSE
    return c_b('?eq', ta, tb)


def member(I, x, c):
    """Condition x in c."""
    if isinstance(c, IteV):
        return c_ite(c.c, member(I, x, c.a), member(I, x, c.b))
    if isinstance(x, IteV):
        return c_ite(x.c, member(I, x.a, c), member(I, x.b, c))
    if isinstance(c, Str):
        if isinstance(x, Str):
            return TRUE if x.s in c.s else FALSE
        return c_b('substr', I.term(x), I.term(c))
    if isinstance(c, TV):
        if c.kind == 'str':
            return c_b('substr', I.term(x), c.t)
        return c_b('member' if not has_opaque(c.t) else '?member', I.term(x), c.t)
    if isinstance(c, Ref):
        cc = I.content(c)
        if isinstance(cc, DictC):
            k = I.dict_key(x)
            if k in cc.d:
                return TRUE
            if isinstance(k, tuple) and k and k[0] == 'term':
                r = FALSE
                for kk in cc.d:
                    r = c_or(r, veq(I, x, I.key_value(kk)))
                return r
            return FALSE
        if isinstance(cc, ArrC) and isinstance(cc.v, Arr):
            c = cc.v
    if isinstance(c, FDict):
        return TRUE if I.dict_key(x) in c.d else FALSE
    if isinstance(c, Arr):
        p = numf(I, x)
        return any_over(c.shape, lambda *ix: c_eq0(elt(c, c.fn(*ix)) - p))
    if isinstance(c, RangeV):
        p = numf(I, x)
        a, b, s = num(c.a), num(c.b), num(c.s)
        if s.cval() == 1:
            f = I.st.facts()
            return f.simplify(c_and(c_le(a, p), c_lt(p, b)))
        return any_over([range_len(c)], lambda k: c_eq0(a + s * k - p))
    r = FALSE
    for s in segs_of(I, c):
        if isinstance(s, Item):
            r = c_or(r, c_and(s.guard, veq(I, x, s.v)))
        elif isinstance(s, CarrySeg):
            r = c_or(r, c_b('?carrymember', I.term(x), mk('sym', 'carry:' + s.tag)))
        elif isinstance(s, NestedSegT()):
            def g(k, s=s):
                q = FALSE
                for y in s.fn(k):
                    if isinstance(y, Item):
                        q = c_or(q, c_and(y.guard, veq(I, x, y.v)))
                    else:
                        q = c_or(q, any_over([y[1].size], lambda j: _or_items(I, x, y[1].fn(j))))
                return q
            r = c_or(r, any_over([s.size], g))
        else:
            r = c_or(r, any_over([s.size], lambda k, s=s: _or_items(I, x, s.fn(k))))
    return r


def _or_items(I, x, items):
    r = FALSE
    for it in items:
        r = c_or(r, c_and(it.guard, veq(I, x, it.v)))
    return r


def compare(I, op, a, b):
    for x, y in ((a, b), (b, a)):
        if op in ('Eq', 'NotEq') and isinstance(x, Ref) and isinstance(I.content(x), ObjC):
            m = I.class_lookup(I.content(x).cls, '__eq__')
            if m is not None:
                r = I.call_func(m, [x, y], {})
                return r if op == 'Eq' else BoolV(c_not(I.truth(r)))
    if op in ('Is', 'IsNot'):
        neg = op == 'IsNot'
        if a is NONE or b is NONE:
            c = veq(I, a, b)
        elif isinstance(a, Ref) and isinstance(b, Ref):
            c = TRUE if a.id == b.id else FALSE
        elif isinstance(a, BoolV) and isinstance(b, BoolV):
            c = c_ite(a.c, b.c, c_not(b.c))
        elif isinstance(a, (ExtV, ClsV)) or isinstance(b, (ExtV, ClsV)):
            c = TRUE if isinstance(a, type(b)) and I.term(a) is I.term(b) else FALSE
        elif isinstance(a, BoolV) != isinstance(b, BoolV) and isinstance(a, (BoolV, Num, Str, Tup, Arr, Seq)) and isinstance(b, (BoolV, Num, Str, Tup, Arr, Seq)):
            c = FALSE
        else:
            c = veq(I, a, b)
        return BoolV(c_not(c) if neg else c)
    if op in ('In', 'NotIn'):
        c = member(I, a, b)
        return BoolV(c_not(c) if op == 'NotIn' else c)
    xa, xb = I.arrval(a), I.arrval(b)
    if xa is None and xb is None and num(a) is None or num(b) is None and xb is None and xa is None:
        if op in ('Eq', 'NotEq'):
            c = veq(I, a, b)
            return BoolV(c_not(c) if op == 'NotEq' else c)
        if isinstance(a, (TV,)) or isinstance(b, (TV,)):
            if (isinstance(a, TV) and a.kind == 'str') or (isinstance(b, TV) and b.kind == 'str'):
                return BoolV(c_b('strcmp:' + op, I.term(a), I.term(b)))
        elif a is NONE or b is NONE:
            I.raise_exc('TypeError')
        elif isinstance(a, Str) and isinstance(b, Str):
            return BoolV({'Lt': a.s < b.s, 'LtE': a.s <= b.s, 'Gt': a.s > b.s, 'GtE': a.s >= b.s}[op])
    if op in ('Eq', 'NotEq') and (xa is not None and (b is NONE or isinstance(b, Str)) or xb is not None and (a is NONE or isinstance(a, Str))):
        return BoolV(op == 'NotEq') if (a is NONE or b is NONE) else I.opaque('arr-str-compare', a, b)
    if isinstance(a, TV) and xb is None and num(b) is not None or isinstance(b, TV) and xa is None and num(a) is not None or (isinstance(a, TV) and isinstance(b, TV)):
        a, b = Num(numf(I, a)), Num(numf(I, b))
    f = {'Lt': lambda x, y: c_lt(x, y), 'LtE': lambda x, y: c_le(x, y), 'Gt': lambda x, y: c_lt(y, x),
         'GtE': lambda x, y: c_le(y, x), 'Eq': lambda x, y: c_eq0(x - y), 'NotEq': lambda x, y: c_not(c_eq0(x - y))}[op]
    if xa is not None and isinstance(b, TV):
        b = Num(numf(I, b))
    if xb is not None and isinstance(a, TV):
        a = Num(numf(I, a))
    r = lift(I, f, [a, b], boolres=True)
    if r is None:
        return BoolV(c_b('?cmp:' + op, I.term(a), I.term(b)))
    return r


# ---------------------------------------------------------------- indexing
def get_item(I, o, k):
    if isinstance(o, ExtV):
        if o.q in ('numpy.s_', 'numpy.index_exp'):
            return k
        return o    # typing subscripts
    if isinstance(o, ClsV):
        return o
    if isinstance(o, Tup):
        if isinstance(k, SliceV):
            idx = const_slice(k, len(o.items))
            if idx is not None:
                return Tup([o.items[i] for i in idx])
        n = asint(k)
        if n is not None:
            if -len(o.items) <= n < len(o.items):
                return o.items[n]
            I.raise_exc('IndexError')
        if num(k) is not None:
            return seq_index(I, [Item(x) for x in o.items], k)
        return I.opaque('tupindex', o, k)
    if isinstance(o, Str):
        n = asint(k)
        if n is not None:
            return Str(o.s[n:n + 1] if n != -1 else o.s[-1:]) if isinstance(o.s, str) else Num(o.s[n], 'int')
        if isinstance(k, SliceV):
            idx = const_slice(k, len(o.s))
            if idx is not None:
                return Str(''.join(o.s[i] for i in idx) if isinstance(o.s, str) else bytes(o.s[i] for i in idx))
        return I.opaque('strindex', o, k)
    if isinstance(o, FDict):
        kk = I.dict_key(k)
        if kk in o.d:
            return o.d[kk]
        I.raise_exc('KeyError')
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, DictC):
            return dict_get(I, o, c, k)
        if isinstance(c, ListC):
            if isinstance(k, SliceV):
                return slice_list(I, o, c.segs, k, c.kind, c.prov)
            if isinstance(k, Num) or isinstance(k, BoolV):
                return seq_index(I, c.segs, k)
            if isinstance(k, TV):
                return seq_index(I, c.segs, Num(numf(I, k)))
            I.raise_exc('TypeError')
        if isinstance(c, ArrC):
            return arr_index(I, o, c.v, k)
    if isinstance(o, Seq):
        if o.kind == 'array':
            return arr_index(I, None, o, k)
        if isinstance(k, SliceV):
            return slice_list(I, o, o.segs, k, o.kind, o.prov)
        return seq_index(I, o.segs, k)
    if isinstance(o, Arr):
        return arr_index(I, None, o, k)
    if isinstance(o, RangeV):
        if isinstance(k, SliceV):
            a = as_arr(I, o)
            st, n, s = slice_spec(I, k, a.shape[0])
            return RangeV(Num(a.fn(st), 'int'), Num(a.fn(st) + n * s * num(o.s), 'int'), Num(s * num(o.s), 'int'))
        p = num(k)
        if prove_neg(I, p):
            p = p + range_len(o)
        return Num(num(o.a) + num(o.s) * p, 'int')
    if isinstance(o, XObj):
        from . import extmodel
        return extmodel.x_get_item(I, o, k)
    if o is NONE or isinstance(o, (Num, BoolV)):
        I.raise_exc('TypeError')
    if isinstance(o, TV):
        return TV(mk('fn', 'item' if not has_opaque(o.t) else '?item', o.t, I.term(k)))
    return I.opaque('getitem', o, k)


def dict_get(I, o, c, k):
    kk = I.dict_key(k)
    if kk in c.d:
        v = c.d[kk]
        if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
            g = v.c if v.b is UNDEF else c_not(v.c)
            g = I.st.facts().simplify(g)
            if g is FALSE:
                I.raise_exc('KeyError')
            if g is not TRUE:
                bad = I.st.copy()
                bad.pc = c_and(I.st.pc, c_not(g))
                I.exc_sink.append(_interp.Exc(bad, 'KeyError', I.loc))
            return v.a if v.b is UNDEF else v.b
        if v is UNDEF:
            I.raise_exc('KeyError')
        return v
    if isinstance(kk, tuple) and kk and kk[0] == 'term':
        # symbolic key over constant keys
        cases = [(veq(I, k, I.key_value(q)), v) for q, v in c.d.items() if not (isinstance(q, tuple) and q and q[0] == 'term')]
        cases = [(cc, v) for cc, v in cases if cc is not FALSE]
        if cases:
            tot = FALSE
            val = None
            for cc, v in reversed(cases):
                val = v if val is None else I.merge_val(cc, v, val)
                tot = c_or(tot, cc)
            bad = I.st.copy()
            bad.pc = c_and(I.st.pc, c_not(tot))
            I.exc_sink.append(_interp.Exc(bad, 'KeyError', I.loc))
            I.st.pc = c_and(I.st.pc, tot)
            return val
        return I.opaque('dict-symbolic-key', k)
    if getattr(c, 'prov', None) and 'opendict' in c.prov:
        return I.opaque('opendict', k)
    I.raise_exc('KeyError')


def const_slice(k, n):
    vals = []
    for x in (k.a, k.b, k.s):
        if x is NONE:
            vals.append(None)
        else:
            v = asint(x)
            if v is None:
                return None
            vals.append(v)
    return range(*slice(*vals).indices(n))


def seq_index(I, segs, k):
    p = numf(I, k)
    if prove_neg(I, p):
        pc = cint(p)
        # from the end
        if pc is not None:
            tail = -pc
            sg = norm_segs(I, segs)
            if len(sg) >= tail and all(isinstance(s, Item) and s.guard is TRUE for s in sg[-tail:]):
                return sg[-tail].v
            if tail == 1 and sg and isinstance(sg[-1], Item) and size_guard(sg[-1].guard):
                return sg[-1].v
            if all(isinstance(s, Item) for s in sg) and len(sg) < tail:
                I.raise_exc('IndexError')
        p = p + seq_len(Seq(segs))
    return seq_elem(I, segs, p)


def slice_spec(I, k, n):
    """(start, length, step) of a slice over an axis of length n (in-range assumption for symbolic bounds)."""
    n = P(n)
    nc = cint(n)
    if nc is not None:
        r = const_slice(k, nc)
        if r is not None:
            return const(r.start), const(len(r)), const(r.step)
    s = ONE if k.s is NONE else numf(I, k.s)
    sc = cint(s)
    if sc is not None and sc < 0:
        st = n - 1 if k.a is NONE else numf(I, k.a)
        if prove_neg(I, st):
            st = st + n
        en = const(-1) if k.b is NONE else numf(I, k.b)
        if k.b is not NONE and prove_neg(I, en):
            en = en + n
        ln = st - en
        if sc != -1:
            ln = div_(st - en + (-s) - 1, -s)
        return st, ln, s
    st = ZERO if k.a is NONE else numf(I, k.a)
    if prove_neg(I, st):
        st = st + n
        if nc is not None and st.cval() is not None and st.cval() < 0:
            st = ZERO
    en = n if k.b is NONE else numf(I, k.b)
    if k.b is not NONE and prove_neg(I, en):
        en = en + n
    w = (en - st).cval()
    if k.b is not NONE and (en.cval() is not None and en.cval() > 0 or w is not None and w >= 2) and not I.st.facts().prove_ge0(n - en):
        # a literal end, or a window of fixed width, is cut at the end of the axis
        en = mini(en, n)
        ln = en - st
        if not I.st.facts().prove_ge0(n - st):
            ln = maxi(ZERO, ln)
    elif k.b is NONE and k.a is not NONE and st.cval() is not None and st.cval() > 0 and not I.st.facts().prove_ge0(n - st):
        ln = maxi(ZERO, n - st)
    else:
        ln = en - st
    if s.cval() != 1:
        ln = gated2(div_, ln + s - 1, s)
    return st, ln, s


def slice_list(I, o, segs, k, kind, prov):
    out_kind = kind
    segs = norm_segs(I, segs)
    if all(isinstance(s, Item) for s in segs) and all(s.guard is TRUE for s in segs):
        r = const_slice(k, len(segs))
        if r is not None:
            out = [segs[i] for i in r]
            return I.alloc(ListC(out, kind=kind)) if kind != 'tuple' else Tup([s.v for s in out])
    if k.a is NONE and k.b is NONE and (k.s is NONE or asint(k.s) == 1):
        return I.alloc(ListC(segs, kind=kind))
    a, b, s = [asint(x) if x is not NONE else None for x in (k.a, k.b, k.s)]
    if (k.s is NONE or s == 1) and segs:
        # strip concrete items at the ends
        if a is not None and a >= 0 and (k.b is NONE):
            lead = 0
            while lead < len(segs) and lead < a and isinstance(segs[lead], Item) and segs[lead].guard is TRUE:
                lead += 1
            if lead == a:
                return I.alloc(ListC(segs[lead:], kind=kind))
        if b is not None and b < 0 and (k.a is NONE or a == 0):
            t = -b
            if len(segs) > t and all(isinstance(x, Item) and x.guard is TRUE for x in segs[-t:]):
                return I.alloc(ListC(segs[:-t], kind=kind))
    n = seq_len(Seq(segs))
    st, ln, sp = slice_spec(I, k, n)
    if any(isinstance(x, (CarrySeg,)) for x in segs):
        return I.opaque('slice-carry', o, k)
    # keep guards when a filtered list is cut by its own iteration index
    c = cint(ln)
    if c is not None and 0 <= c <= 8:
        return I.alloc(ListC([Item(seq_elem(I, segs, st + sp * const(j))) for j in range(c)], kind=kind))
    return I.alloc(ListC([Seg(ln, lambda q: [Item(seq_elem(I, segs, st + sp * P(q)))])], kind=kind))


def arr_index(I, ref, a, k):
    """numpy indexing."""
    if isinstance(a, Seq):
        if isinstance(k, Num) or isinstance(k, BoolV):
            return seq_index(I, a.segs, k)
        if isinstance(k, SliceV) and k.a is NONE and k.b is NONE and k.s is NONE:
            return I.new_arr(a)
        # boolean mask of the same structure
        x = seq_to_arr(I, a)
        if x is None:
            if isinstance(k, SliceV) and not any(isinstance(s, CarrySeg) for s in a.segs):
                r = slice_list(I, a, a.segs, k, 'array', a.prov)
                if isinstance(r, Ref):
                    return I.new_arr(Seq(I.content(r).segs, 'array'))
            return I.opaque('seqindex', a, k)
        a = x
    items = list(k.items) if isinstance(k, Tup) else [k]
    if isinstance(k, Tup) and any(isinstance(x, XObj) for x in items):
        return I.opaque('index-obj', a, k)
    flat = []
    for x in items:
        flat.append(x)
    # expand Ellipsis
    def consumes(x):
        if x is NONE or x is ELLIPSIS:
            return 0
        m = I.arrval(x)
        if isinstance(m, Arr) and m.dtype == 'bool':
            return m.ndim
        return 1
    if any(x is ELLIPSIS for x in flat):
        i = next(j for j, x in enumerate(flat) if x is ELLIPSIS)
        used = sum(consumes(x) for x in flat)
        flat = flat[:i] + [SliceV(NONE, NONE, NONE)] * (a.ndim - used) + flat[i + 1:]
    used = sum(consumes(x) for x in flat)
    if used > a.ndim:
        I.raise_exc('IndexError')
    flat = flat + [SliceV(NONE, NONE, NONE)] * (a.ndim - used)
    # classify
    plan = []   # per result/axis
    ax = 0
    adv = []
    for x in flat:
        if x is NONE:
            plan.append(('new',))
            continue
        if isinstance(x, SliceV):
            st, ln, sp = slice_spec(I, x, a.shape[ax])
            plan.append(('slice', ax, st, ln, sp))
            ax += 1
            continue
        p = num(x)
        if p is None and isinstance(x, TV):
            p = numf(I, x)
        if p is not None and not (isinstance(x, BoolV)):
            n = a.shape[ax]
            if prove_neg(I, p):
                p = p + n
            elif p.cval() is not None and n.cval() is not None and p.cval() >= n.cval():
                I.raise_exc('IndexError')
            plan.append(('int', ax, p))
            ax += 1
            continue
        m = as_arr(I, x)
        if m is None:
            return I.opaque('index', Num(ZERO), x)
        if m.dtype == 'bool':
            # boolean mask
            r = mask_index(I, a, m, ax, flat, x)
            if r is not None:
                return r
            return mask_uf(I, a, m)
        plan.append(('adv', ax, m))
        adv.append(m)
        ax += 1
    advax = [i for i, p in enumerate(plan) if p[0] == 'adv']
    basic = not advax
    if advax:
        # integers act as 0-d advanced indices
        anyint = [i for i, p in enumerate(plan) if p[0] == 'int']
        pos = sorted(advax + anyint)
        contiguous = all(pos[i + 1] == pos[i] + 1 for i in range(len(pos) - 1))
        bs = bshape(I, [m.shape for m in adv])
        first = pos[0] if contiguous else 0
        shape = []
        where = []
        placed = False
        order = []
        rest = [(i, p) for i, p in enumerate(plan) if p[0] in ('new', 'slice')]
        seq = []
        if not contiguous:
            seq.append('adv')
            seq += [p for _, p in rest]
        else:
            for i, p in enumerate(plan):
                if i == pos[0]:
                    seq.append('adv')
                if p[0] in ('new', 'slice'):
                    seq.append(p)
        for s in seq:
            if s == 'adv':
                shape += list(bs)
            elif s[0] == 'new':
                shape.append(ONE)
            else:
                shape.append(s[3])
        nb = len(bs)

        def f(*ix):
            j = 0
            src = [None] * a.ndim
            bi = None
            for s in seq:
                if s == 'adv':
                    bi = ix[j:j + nb]
                    j += nb
                elif s[0] == 'new':
                    j += 1
                else:
                    src[s[1]] = s[2] + s[4] * P(ix[j])
                    j += 1
            for p in plan:
                if p[0] == 'int':
                    src[p[1]] = p[2]
                elif p[0] == 'adv':
                    m = p[2]
                    q = m.fn(*bidx(m.shape, bi))
                    if q.cval() is not None and q.cval() < 0:
                        q = q + a.shape[p[1]]
                    elif q.cval() is None and Facts().prove_ge0(-q - 1):
                        q = q + a.shape[p[1]]
                    src[p[1]] = q
            return a.fn(*src)
        return I.new_arr(Arr(shape, f, a.dtype))
    shape = []
    for p in plan:
        if p[0] == 'new':
            shape.append(ONE)
        elif p[0] == 'slice':
            shape.append(p[3])

    def f(*ix):
        j = 0
        src = [None] * a.ndim
        for p in plan:
            if p[0] == 'new':
                j += 1
            elif p[0] == 'slice':
                src[p[1]] = p[2] + p[4] * P(ix[j])
                j += 1
            else:
                src[p[1]] = p[2]
        return a.fn(*src)
    if not shape:
        return scalar(f(), a.dtype)
    base = None
    if ref is not None:
        base = (ref, lambda old, new, plan=plan: write_plan(I, old, plan, new))
    return I.new_arr(Arr(shape, f, a.dtype, a.prov), base)


def step_mask(n, f):
    """(first index of the upper part, True if the condition holds in the upper part) for a condition that compares one strictly
    increasing tensor with something fixed, so that it changes its value at most once along the index; else None"""
    k = fresh('q', ub=n)
    ka = k.single_atom()
    c = f(k)
    if c.kind != 'B' or c.args[1] not in (TRUE, FALSE) or c.args[2] not in (TRUE, FALSE) or c.args[0].kind != 'lt':
        return None
    sign = None
    for m, q in c.args[0].args[0].terms:
        if not any(x is ka or ka in free(x) for x, _ in m):
            continue
        if len(m) != 1 or m[0][1] != 1 or sign is not None:
            return None
        x = m[0][0]
        if x.kind != 'el' or len(x.args[0].args) != 1 or x.args[0].args[0] not in MONO_TENSORS or x.args[1] != (k,):
            return None
        sign = 1 if q > 0 else -1
    if sign is None:
        return None
    up = (sign < 0) == (c.args[1] is TRUE)
    g = f if up else (lambda i: c_not(f(i)))
    return ite(any_over([n], g), mk_fn('first_true', mk_arrT([ka], g(k), n)), P(n)), up


def mask_index(I, a, m, ax, flat, x):
    """a[mask] for a 1-d mask on the first axis: a filtered sequence."""
    if ax != 0 or m.ndim != 1:
        return None
    rest = [y for y in flat if y is not x]
    if any(not (isinstance(y, SliceV) and y.a is NONE and y.b is NONE and y.s is NONE) for y in rest):
        return None
    n = a.shape[0]
    sm = step_mask(n, lambda k: m.fn(P(k)))
    if sm is not None:
        lo = sm[0] if sm[1] else ZERO
        return I.new_arr(Arr([n - lo if sm[1] else sm[0]] + list(a.shape[1:]), lambda i, *ix: a.fn(P(i) + lo, *ix), a.dtype))
    seg = Seg(n, lambda k: [Item(sub_arr(a, P(k)), m.fn(P(k)))])
    if a.ndim == 1:
        return I.new_arr(Seq([seg], 'array'))
    k = fresh('q', ub=n)
    g = mk_arrT([k.single_atom()], m.fn(k), n)
    cnt = sum_over(n, lambda j: ite(m.fn(j), ONE, ZERO))
    tm = I.arr_term(m)

    def at(i, *ix):
        J = ranked(i, tm)
        return a.fn(J[0] if J else mk_fn('nth', g, P(i)), *ix)
    return I.new_arr(Arr([cnt] + list(a.shape[1:]), at, a.dtype))


def ranked(i, tm):
    """the cell J if i is its position among the cells selected by the mask"""
    a = P(i).single_atom()
    if a is not None and a.kind == 'fn' and a.args[0] == 'rankof' and a.args[1] is tm:
        return [P(x) for x in a.args[2:]]
    return None


def mask_uf(I, a, m):
    ta, tm = I.arr_term(a), I.arr_term(m)
    extra = list(a.shape[m.ndim:])
    h = mk('head', 'masked', ta, tm)

    def at(i, *ix):
        J = ranked(i, tm)
        return a.fn(*J, *ix) if J else el(h, P(i), *ix)
    return I.new_arr(Arr([fn('masklen', tm)] + extra, at, a.dtype))


def write_plan(I, old, plan, new):
    """old array with the cells selected by a basic-index plan replaced by `new` (Arr)."""
    if isinstance(old, Seq):
        old = seq_to_arr(I, old)

    def f(*J):
        cond = TRUE
        ix = []
        for p in plan:
            if p[0] == 'new':
                ix.append(ZERO)
            elif p[0] == 'slice':
                _, ax, st, ln, sp = p
                j = P(J[ax])
                d = j - st
                if sp.cval() == 1:
                    fx = Facts()
                    lo = TRUE if not st.terms else fx.simplify(c_le(st, j))
                    hi = TRUE if (st + ln) == old.shape[ax] else fx.simplify(c_lt(j, st + ln))
                    cond = c_and(cond, lo, hi)
                    ix.append(d)
                else:
                    q = div_(d, sp)
                    cond = c_and(cond, c_eq0(mod_(d, sp)), Facts().simplify(c_and(c_le(0, d), c_lt(q, ln))))
                    ix.append(q)
            elif p[0] == 'int':
                cond = c_and(cond, Facts().simplify(c_eq0(P(J[p[1]]) - p[2])))
        if cond is FALSE:
            return old.fn(*J)
        v = new.fn(*bidx(new.shape, ix))
        o = old.fn(*J)
        if old.dtype == 'bool':
            if new.dtype != 'bool':
                v = to_bool(v)
            return c_ite(cond, v, o)
        v = elt(new, v)
        return ite(cond, v, o)
    dt = old.dtype
    return Arr(old.shape, f, dt, old.prov)


def set_item(I, o, k, v):
    if isinstance(o, Ref):
        c = I.content(o)
        if isinstance(c, DictC):
            kk = I.dict_key(k)
            I.mutate_check(c.prov, 'item assignment')
            d = dict(c.d)
            d[kk] = v
            I.st.heap[o.id] = DictC(d, c.prov)
            return
        if isinstance(c, ListC):
            I.mutate_check(c.prov, 'list item assignment')
            segs = norm_segs(I, c.segs)
            n = asint(k) if not isinstance(k, SliceV) else None
            if n is not None and all(isinstance(s, Item) and s.guard is TRUE for s in segs):
                if not -len(segs) <= n < len(segs):
                    I.raise_exc('IndexError')
                segs = list(segs)
                segs[n] = Item(v)
                I.st.heap[o.id] = ListC(segs, c.prov, c.kind)
                return
            if n is not None and n >= 0 and len(segs) > n and all(isinstance(s, Item) and s.guard is TRUE for s in segs[:n + 1]):
                segs = list(segs)
                segs[n] = Item(v)
                I.st.heap[o.id] = ListC(segs, c.prov, c.kind)
                return
            if n is not None and n < 0 and len(segs) >= -n and all(isinstance(s, Item) and s.guard is TRUE for s in segs[n:]):
                segs = list(segs)
                segs[n] = Item(v)
                I.st.heap[o.id] = ListC(segs, c.prov, c.kind)
                return
            p = num(k)
            if p is not None and not any(isinstance(s, CarrySeg) for s in segs):
                ln = seq_len(Seq(segs))
                if prove_neg(I, p):
                    p = p + ln
                fv = I.freeze(v, I.st)
                I.st.heap[o.id] = ListC([Seg(ln, lambda q: [Item(I.merge_val(Facts().simplify(c_eq0(P(q) - p)), fv, seq_elem(I, segs, q)))])], c.prov, c.kind)
                return
            if isinstance(k, SliceV) and k.a is NONE and k.b is NONE:
                I.st.heap[o.id] = ListC(segs_of(I, v), c.prov, c.kind)
                return
            I.note('list store with symbolic index at %s:%s' % I.loc[:2])
            I.st.heap[o.id] = ListC([Seg(fn('?len'), lambda q: [Item(TV(mk('fn', '?liststore', P(q))))])], c.prov, c.kind)
            return
        if isinstance(c, ArrC):
            arr_store(I, o, c.v, k, v)
            return
        if isinstance(c, ObjC):
            m = I.get_attr(o, '__setitem__')
            I.call(m, [k, v], {})
            return
    if isinstance(o, XObj):
        from . import extmodel
        extmodel.x_set_item(I, o, k, v)
        return
    if isinstance(o, (Arr, Seq)):
        I.mutate_check(o.prov, 'item assignment')
        I.note('store into an anonymous array')
        return
    if isinstance(o, (Tup, Str, Num)) or o is NONE:
        I.raise_exc('TypeError')
    I.note('item store on %r' % (o,))


def arr_store(I, ref, a, k, v):
    if isinstance(a, Seq):
        I.mutate_check(a.prov, 'array write')
        p = num(k) if not isinstance(k, (SliceV, Tup)) else None
        if p is not None:
            # replace the element just appended
            segs = list(a.segs)
            if segs and isinstance(segs[-1], Item) and p.cval() == -1:
                segs[-1] = Item(v, segs[-1].guard)
                I.st.heap[ref.id] = ArrC(Seq(segs, 'array', a.prov))
                return
        x = seq_to_arr(I, a)
        if x is None:
            I.st.heap[ref.id] = ArrC(Arr([fn('?len', I.term(a))], lambda q: fn('?seqstore', P(q))))
            return
        a = x
    nv = same_filter(I, a, k, v)
    if nv is None:
        nv = as_arr(I, v)
    if nv is None:
        nv = elem_arr(I, v)
    if nv is None:
        t = I.term(v)
        nv = Arr((), lambda: fn('?stored', t))
    items = list(k.items) if isinstance(k, Tup) else [k]
    if any(x is ELLIPSIS for x in items):
        i = next(j for j, x in enumerate(items) if x is ELLIPSIS)
        used = len([x for x in items if x is not ELLIPSIS and x is not NONE])
        items = items[:i] + [SliceV(NONE, NONE, NONE)] * (a.ndim - used) + items[i + 1:]
    if a.dtype == 'int' and nv.dtype == 'float':   # stored values lose their fraction
        nf = nv
        nv = Arr(nf.shape, lambda *ix: _trunc(nf.fn(*ix)), 'int')
    # boolean mask / where-tuple stores
    masks = [I.arrval(x) if not isinstance(x, Arr) else x for x in items]
    if len(items) == 1 and isinstance(masks[0], Arr) and masks[0].dtype == 'bool':
        m = masks[0]
        _mask_store(I, ref, a, lambda *J: m.fn(*J[:m.ndim]), nv, m)
        return
    if len(items) == 1 and isinstance(masks[0], Seq):
        mseq = masks[0]
        mm = _where_mask(I, mseq)
        if mm is not None:
            if mm[1]:     # boolean values
                _mask_store(I, ref, a, lambda *J: mm[0](J[0]), nv)
            else:
                _mask_store(I, ref, a, lambda *J: mm[0](J[0]), nv)
            return
    plan = []
    ax = 0
    advs = []
    for x in items + [SliceV(NONE, NONE, NONE)] * (a.ndim - len([y for y in items if y is not NONE])):
        if x is NONE:
            plan.append(('new',))
            continue
        if isinstance(x, SliceV):
            st, ln, sp = slice_spec(I, x, a.shape[ax])
            plan.append(('slice', ax, st, ln, sp))
            ax += 1
            continue
        p = num(x)
        if p is None and isinstance(x, TV):
            p = numf(I, x)
        if p is not None:
            if prove_neg(I, p):
                p = p + a.shape[ax]
            plan.append(('int', ax, p))
            ax += 1
            continue
        m = as_arr(I, x)
        if m is None or m.dtype == 'bool':
            _havoc_arr(I, ref, a, 'store')
            return
        plan.append(('adv', ax, m))
        advs.append((ax, m))
        ax += 1
    if advs:
        # fancy store a[idx] = value ; supported for index arrays with a recognisable inverse
        r = _adv_store(I, a, plan, advs, nv)
        if r is None:
            _havoc_arr(I, ref, a, 'fancy-store')
            return
        I.write_array(ref, r)
        return
    I.write_array(ref, write_plan(I, a, plan, nv))


def _adv_store(I, a, plan, advs, nv):
    # diagonal-like: all index arrays are arange
    ms = [m for _, m in advs]
    if all(m.ndim == 1 for m in ms):
        n = ms[0].shape[0]
        k = fresh('k', ub=n)
        ka = k.single_atom()
        es = [m.fn(k) for m in ms]
        # solve first for k
        e0 = es[0]

        def f(*J):
            sol = solve_for(e0 - P(J[advs[0][0]]), ka)
            if sol is None:
                return None
            cond = Facts().simplify(c_and(c_le(0, sol), c_lt(sol, n)))
            for (ax, m), e in zip(advs[1:], es[1:]):
                cond = c_and(cond, Facts().simplify(c_eq0(subst(e, {ka: sol}) - P(J[ax]))))
            ix = []
            done = False
            for p in plan:
                if p[0] == 'adv':
                    if not done:
                        ix.append(sol)
                        done = True
                elif p[0] == 'slice':
                    j = P(J[p[1]])
                    if p[4].cval() != 1:
                        return None
                    cond = c_and(cond, Facts().simplify(c_and(c_le(p[2], j), c_lt(j, p[2] + p[3]))))
                    ix.append(j - p[2])
                elif p[0] == 'int':
                    cond = c_and(cond, Facts().simplify(c_eq0(P(J[p[1]]) - p[2])))
            v = elt(nv, nv.fn(*bidx(nv.shape, ix)))
            return ite(cond, v, a.fn(*J))
        J = [fresh('q', ub=s) for s in a.shape]
        if f(*J) is not None:
            return Arr(a.shape, f, a.dtype, a.prov)
    if len(ms) == 1 and ms[0].ndim == 1:
        # any index array: a position takes the value written to it last
        (axis, m), n = advs[0], ms[0].shape[0]

        def g(*J):
            j = P(J[axis])
            r = fresh('k', ub=n)
            last = n - 1 - fn('first_true', mk_arrT([r.single_atom()], c_eq0(m.fn(n - 1 - r) - j), n))
            cond = any_over([n], lambda k: c_eq0(m.fn(k) - j))
            ix = []
            for p in plan:
                if p[0] == 'adv':
                    ix.append(None)
                elif p[0] == 'slice':
                    q = P(J[p[1]])
                    if p[4].cval() != 1:
                        return None
                    cond = c_and(cond, Facts().simplify(c_and(c_le(p[2], q), c_lt(q, p[2] + p[3]))))
                    ix.append(q - p[2])
                elif p[0] == 'int':
                    cond = c_and(cond, Facts().simplify(c_eq0(P(J[p[1]]) - p[2])))
                else:
                    return None
            k = fresh('k', ub=n)
            v = elt(nv, nv.fn(*bidx(nv.shape, [k if x is None else x for x in ix])))
            e = m.fn(k).single_atom()
            w = subst(v, {e: j}) if e is not None and e.kind in ('el', 'fn') else v
            if k.single_atom() in free(w):
                w = subst(v, {k.single_atom(): last})
            return ite(cond, w, a.fn(*J))
        J = [fresh('q', ub=s) for s in a.shape]
        if g(*J) is not None:
            return Arr(a.shape, g, a.dtype, a.prov)
    return None


def _havoc_arr(I, ref, a, why):
    I.note('array store not modelled at %s:%s' % I.loc[:2])
    t = mk('sym', '?store%d' % I.next_id[0])
    I.next_id[0] += 1
    I.opaque_sites.setdefault(why, I.loc)
    h = mk('head', '?' + why, t)
    I.write_array(ref, Arr(a.shape, lambda *ix: el(h, *ix), a.dtype, a.prov))


def _where_mask(I, q):
    """For a filtered index sequence {k : g(k)} return (fn k -> cond, isbool)."""
    segs = norm_segs(I, q.segs)
    if len(segs) != 1 or not isinstance(segs[0], Seg) or isinstance(segs[0], NestedSegT()):
        return None
    s = segs[0]
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) != 1:
        return None
    v = its[0].v
    if isinstance(v, Num) and v.p == k:
        return (lambda j: s.fn(P(j))[0].guard), False
    if isinstance(v, BoolV):
        return (lambda j: c_and(s.fn(P(j))[0].guard, s.fn(P(j))[0].v.c)), True
    return None


def same_filter(I, a, k, v):
    """a[m] = f(a[m]) for a one-dimensional mask m: the array of all f(a[i])"""
    q = I.arrval(v)
    if not isinstance(q, Seq) or len(q.segs) != 1 or not isinstance(q.segs[0], Seg) or isinstance(q.segs[0], NestedSegT()) or a.ndim != 1:
        return None
    m = I.arrval(k) if not isinstance(k, (Tup, SliceV, Num)) else None
    s = q.segs[0]
    if not isinstance(m, Arr) or m.dtype != 'bool' or m.ndim != 1 or s.size != a.shape[0]:
        return None
    j = fresh('q', ub=s.size)
    its = s.fn(j)
    if len(its) != 1 or its[0].guard is not m.fn(j) or num(its[0].v) is None:
        return None
    return Arr(a.shape, lambda i: num(s.fn(P(i))[0].v), a.dtype)


INT_FNS.add('rankof')


def _mask_store(I, ref, a, cond, nv, m=None):
    if m is not None and nv.ndim == a.ndim - m.ndim + 1 and m.ndim > 0 and not all(s.cval() == 1 for s in nv.shape):
        tm = I.arr_term(m)
        k = fresh('q', ub=m.shape[0])
        if nv.shape[0] == fn('masklen', tm) or (m.ndim == 1 and nv.shape[0] == sum_over(m.shape[0], lambda j: ite(m.fn(j), ONE, ZERO))):
            g = nv
            nv = Arr(a.shape, lambda *J: g.fn(fn('rankof', tm, *[P(x) for x in J[:m.ndim]]), *J[m.ndim:]), g.dtype)
    if nv.ndim > 0 and not all(s.cval() == 1 for s in nv.shape):
        if nv.ndim == a.ndim and all(x == y for x, y in zip(nv.shape, a.shape)):
            pass
        else:
            # value already masked the same way: a[m] = f(a[m])
            _havoc_arr(I, ref, a, 'mask-store')
            return

    def f(*J):
        v = nv.fn(*bidx(nv.shape, J)) if nv.ndim else nv.fn()
        c = cond(*J)
        if a.dtype == 'bool':
            return c_ite(c, v if nv.dtype == 'bool' else to_bool(v), a.fn(*J))
        return ite(c, elt(nv, v), a.fn(*J))
    I.write_array(ref, Arr(a.shape, f, a.dtype, a.prov))


# ---------------------------------------------------------------- dicts / strings
def dict_items(I, m):
    if isinstance(m, Ref):
        c = I.content(m)
        if isinstance(c, DictC):
            return list(c.d.items())
    if isinstance(m, FDict):
        return list(m.d.items())
    if m is NONE:
        I.raise_exc('TypeError')
    raise _interp.Unsupported('dict items of %r' % (m,))


def to_str(I, v):
    if isinstance(v, Str):
        return v if isinstance(v.s, str) else TV(mk('fn', 'str', I.term(v)), 'str')
    if isinstance(v, TV) and v.kind == 'str':
        return v
    p = num(v)
    if p is not None:
        c = p.cval()
        if c is not None and c.denominator == 1 and isinstance(v, Num) and v.kind == 'int':
            return Str(str(int(c)))
    if isinstance(v, XObj):
        from . import extmodel
        r = extmodel.x_str(I, v)
        if r is not None:
            return r
    if v is NONE:
        return Str('None')
    return TV(mk('fn', 'str', I.term(v)), 'str')


def strcat(I, parts):
    out = []
    for p in parts:
        if isinstance(p, IteV):
            p = IteV(p.c, to_str(I, p.a), to_str(I, p.b))
            a, b = p.a, p.b
            rest = parts[parts.index(p) + 1:] if p in parts else []
        s = to_str(I, p) if not isinstance(p, (IteV,)) and not (isinstance(p, Str) and isinstance(p.s, bytes)) else p
        if isinstance(s, Str) and out and isinstance(out[-1], Str) and type(out[-1].s) is type(s.s):
            out[-1] = Str(out[-1].s + s.s)
        elif isinstance(s, Str) and not s.s:
            continue
        else:
            # flatten nested concatenations
            if isinstance(s, TV) and s.t.kind == 'fn' and s.t.args[0] == 'cat':
                for x in s.t.args[1:]:
                    sx = Str(x.args[0]) if x.kind == 'strc' else TV(x, 'str')
                    if isinstance(sx, Str) and out and isinstance(out[-1], Str):
                        out[-1] = Str(out[-1].s + sx.s)
                    else:
                        out.append(sx)
            else:
                out.append(s)
    if not out:
        return Str('')
    if len(out) == 1:
        return out[0]
    return TV(mk('fn', 'cat', *[I.term(x) for x in out]), 'str')


def closure_term(I, f, args=None):
    """Canonical term of a function value: its body evaluated on symbolic arguments."""
    key = f.qual
    if args is None:
        return mk('func', key)
    save_st, save_sink, save_ev = I.st, I.exc_sink, len(I.events)
    I.st = I.st.copy()
    I.exc_sink = []
    try:
        v = I.call(f, args, {})
        t = I.term(I.freeze(v, I.st))
    except _interp.AbsRaise:
        t = mk('sym', 'raises')
    finally:
        I.st = save_st
        I.exc_sink = save_sink
    return t


# ---------------------------------------------------------------- attributes of non-repository values
def type_names(I, v):
    """Names of the Python types a value is an instance of."""
    if isinstance(v, Num):
        if v.kind == 'int':
            return {'int', 'object', 'Number', 'Integral', 'Real'}
        if v.kind == 'float':
            return {'float', 'object', 'Number', 'Real'}
        if v.kind == 'npint':
            return {'integer', 'int64', 'generic', 'object', 'Number', 'Integral', 'Real', 'number', 'signedinteger'}
        return {'float', 'floating', 'float64', 'generic', 'object', 'Number', 'Real', 'number'}
    if isinstance(v, BoolV):
        return {'bool', 'int', 'object', 'Number', 'Integral'}
    if isinstance(v, Str):
        return {'str', 'object', 'Sequence', 'Iterable'} if isinstance(v.s, str) else {'bytes', 'object', 'Iterable'}
    if v is NONE:
        return {'NoneType', 'object'}
    if isinstance(v, Tup):
        return {'tuple', 'object', 'Tuple', 'Sequence', 'Iterable', 'Collection', 'Sized'}
    if isinstance(v, Arr):
        return {'ndarray', 'object', 'Iterable', 'Sized', 'Collection'} if v.ndim else {'float', 'float64', 'generic', 'object'}
    if isinstance(v, Seq):
        if v.kind == 'array':
            return {'ndarray', 'object', 'Iterable', 'Sized'}
        if v.kind == 'tuple':
            return {'tuple', 'object', 'Tuple', 'Sequence', 'Iterable'}
        if v.kind == 'gen':
            return {'generator', 'object', 'Iterable', 'Iterator'}
        return {'list', 'object', 'List', 'Sequence', 'Iterable', 'MutableSequence', 'Sized'}
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            if c.kind == 'set':
                return {'set', 'object', 'Set', 'Iterable', 'Sized'}
            if c.kind == 'gen':
                return {'generator', 'object', 'Iterable', 'Iterator'}
            if c.kind == 'tuple':
                return {'tuple', 'object', 'Tuple', 'Sequence', 'Iterable'}
            return {'list', 'object', 'List', 'Sequence', 'Iterable', 'MutableSequence', 'Sized', 'Collection'}
        if isinstance(c, DictC):
            return {'dict', 'object', 'Dict', 'Mapping', 'MutableMapping', 'Iterable'}
        if isinstance(c, ArrC):
            return {'ndarray', 'object', 'Iterable', 'Sized'}
        if isinstance(c, ObjC):
            return {b.name if isinstance(b, ClsV) else b.q.split('.')[-1] for b in I.mro(c.cls)} | {'object'}
    if isinstance(v, (FDict,)):
        return {'dict', 'object', 'Dict', 'Mapping'}
    if isinstance(v, FObj):
        return {b.name if isinstance(b, ClsV) else b.q.split('.')[-1] for b in I.mro(v.cls)} | {'object'}
    if isinstance(v, RangeV):
        return {'range', 'object', 'Sequence', 'Iterable'}
    if isinstance(v, SliceV):
        return {'slice', 'object'}
    if isinstance(v, (FuncV, BoundV)):
        return {'function', 'object', 'Callable'}
    if isinstance(v, XObj):
        from . import extmodel
        return extmodel.x_types(v) | {'object'}
    if isinstance(v, TV):
        if v.kind == 'str':
            return {'str', 'object', 'Sequence', 'Iterable'}
        if v.kind == 'num':
            return {'float', 'object', 'Number', 'Real'}
        if v.kind != 'obj':
            return {v.kind, 'object'}
        return None
    return None


def isinstance_(I, v, t):
    if isinstance(v, IteV):
        return c_ite(v.c, isinstance_(I, v.a, t), isinstance_(I, v.b, t))
    if isinstance(t, IteV):
        return c_ite(t.c, isinstance_(I, v, t.a), isinstance_(I, v, t.b))
    if isinstance(t, Tup):
        r = FALSE
        for x in t.items:
            r = c_or(r, isinstance_(I, v, x))
        return r
    if is_listlike(I, t):
        I.raise_exc('TypeError')
    tn = type_names(I, v)
    if isinstance(t, ClsV):
        nm = t.name
    elif isinstance(t, ExtV):
        nm = t.q.split('.')[-1]
    elif isinstance(t, XObj) and t.kind == 'type':
        nm = t.f['name'].s
    elif t is NONE:
        nm = 'NoneType'
    else:
        return c_b('?isinstance', I.term(v), I.term(t))
    if tn is None:
        return c_b('?isinstance', I.term(v), mk('strc', nm))
    return TRUE if nm in tn else FALSE


ARR_METHODS = {
    'sum', 'mean', 'var', 'std', 'min', 'max', 'argmin', 'argmax', 'reshape', 'flatten', 'ravel', 'copy', 'astype',
    'transpose', 'squeeze', 'dot', 'any', 'all', 'cumsum', 'prod', 'tolist', 'item', 'nonzero', 'swapaxes', 'clip',
    'round', 'fill', 'sort', 'argsort', 'repeat', 'take', 'view', 'diagonal', 'trace', 'conj', 'searchsorted', 'ptp',
    '__len__', '__getitem__', 'tobytes', 'cumprod', 'put', 'compress', 'itemset', 'resize', '__iter__', '__setitem__',
    '__array__', '__add__', '__mul__', '__sub__', '__truediv__', '__contains__',
}


def get_attr(I, o, name, default=None):
    a = I.arrval(o)
    if a is not None:
        return arr_attr(I, o, a, name)
    if isinstance(o, Num):
        if name == 'T' or name == 'real':
            return o
        if name == 'imag':
            return Num(0)
        if name == 'size':
            return Num(1, 'int')
        if name == 'shape':
            return Tup([])
        if name == 'ndim':
            return Num(0, 'int')
        if name == 'dtype':
            return XObj('dtype', name=Str('int' if o.kind in ('int', 'npint') else 'float'))
        if name == 'itemsize':
            return Num(8, 'int')
        if name in ('n', 's') and False:
            pass
        if o.kind in ('int', 'float') and name in ('shape', 'size', 'T', 'ndim', 'dtype'):
            I.raise_exc('AttributeError')
        return MethV(o, name)
    if isinstance(o, XObj):
        from . import extmodel
        return extmodel.x_get_attr(I, o, name, default)
    if isinstance(o, (Ref, Seq, Tup, Str, FDict, RangeV, SliceV, FuncV, BoundV, BoolV, Arr)):
        if isinstance(o, RangeV) and name in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.s}[name]
        if isinstance(o, SliceV) and name in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.s}[name]
        if isinstance(o, (Ref, Seq, Tup)) and name in ('shape', 'size', 'ndim', 'T', 'dtype', 'samples'):
            if default is not None:
                return default
            I.raise_exc('AttributeError')
        if name == '__class__':
            return XObj('type', name=Str(sorted(type_names(I, o) or {'object'})[0]))
        if isinstance(o, BoolV) and name in ('shape', 'size', 'ndim'):
            return {'shape': Tup([]), 'size': Num(1, 'int'), 'ndim': Num(0, 'int')}[name]
        return MethV(o, name)
    if o is NONE:
        if default is not None:
            return default
        I.raise_exc('AttributeError')
    if isinstance(o, TV):
        if o.kind == 'str':
            return MethV(o, name)
        return TV(mk('fn', 'attr:' + name, o.t), 'obj')
    if isinstance(o, MethV):
        return TV(mk('fn', '?attr:' + name, I.term(o)))
    return I.opaque('attr:' + name, o)


def arr_attr(I, o, a, name):
    if isinstance(a, Seq):
        n = seq_len(a)
        if name == 'size':
            return Num(n, 'int')
        if name == 'shape':
            if seq_items_scalar(a) if not any(isinstance(s, CarrySeg) for s in a.segs) else True:
                return Tup([Num(n, 'int')])
            x = seq_to_arr(I, a)
            if x is not None:
                return Tup([Num(s, 'int') for s in x.shape])
            return I.opaque('shape', a)
        if name == 'ndim':
            return Num(1, 'int')
        if name == 'dtype':
            return XObj('dtype', name=Str('float'))
        if name == 'itemsize':
            return Num(8, 'int')
        if name == 'nbytes':
            return Num(8 * n, 'int')
        if name == 'T':
            return o
        return MethV(o, name)
    if name == 'shape':
        return Tup([Num(s, 'int') for s in a.shape])
    if name == 'size':
        return Num(a.size(), 'int')
    if name == 'ndim':
        return Num(a.ndim, 'int')
    if name == 'itemsize':
        return Num(ITEM.get(a.dtype, 8), 'int')
    if name == 'nbytes':
        return Num(a.size() * ITEM.get(a.dtype, 8), 'int')
    if name == 'dtype':
        return XObj('dtype', name=Str(a.dtype))
    if name == 'T':
        base = None
        if isinstance(o, Ref):
            base = (o, lambda old, new: Arr(old.shape, lambda *ix: new.fn(*reversed(ix)), old.dtype, old.prov))
        return I.new_arr(Arr(tuple(reversed(a.shape)), lambda *ix: a.fn(*reversed(ix)), a.dtype, a.prov), base)
    if name == 'real':
        return o if not isinstance(o, Arr) else I.new_arr(o)
    if name == 'imag':
        return I.new_arr(Arr(a.shape, lambda *ix: ZERO))
    if name == 'flat':
        from . import npmodel
        return wrap(I, npmodel.reshape_arr(I, a, [a.size()]))
    if name in ARR_METHODS:
        return MethV(o, name)
    I.raise_exc('AttributeError')


def ext_attr(I, mod, name):
    from . import npmodel, extmodel
    q = mod + '.' + name
    q = canon_q(q)
    c = npmodel.CONSTANTS.get(q)
    if c is not None:
        return c
    c = extmodel.CONSTANTS.get(q)
    if c is not None:
        return c() if callable(c) else c
    return ExtV(q)


ALIASES = {
    'numpy.random.mtrand.RandomState': 'numpy.random.RandomState',
    'tqdm.tqdm': 'tqdm.tqdm', 'tqdm.auto.tqdm': 'tqdm.tqdm', 'tqdm.std.tqdm': 'tqdm.tqdm', 'tqdm.trange': 'tqdm.trange',
    'math.pi': 'numpy.pi', 'math.inf': 'numpy.inf',
    'posixpath.splitext': 'os.path.splitext',
    'numpy.linalg.linalg.inv': 'numpy.linalg.inv',
    'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.det': 'numpy.linalg.det',
    'scipy.linalg.eigh': 'numpy.linalg.eigh',
    'scipy.stats._multivariate.multivariate_normal': 'scipy.stats.multivariate_normal',
}
MATH = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'floor', 'ceil', 'atan2', 'log10', 'prod', 'isclose', 'trunc', 'fabs', 'pow', 'isnan', 'isinf', 'isfinite', 'fsum', 'log2', 'hypot', 'dist'}


def canon_q(q):
    if q.startswith('math.') and q[5:] in MATH:
        return 'numpy.' + {'atan2': 'arctan2', 'fabs': 'abs', 'pow': 'power', 'fsum': 'sum'}.get(q[5:], q[5:])
    return ALIASES.get(q, q)


# ---------------------------------------------------------------- calls
def ext_call(I, q, args, kw):
    from . import npmodel, extmodel
    q = canon_q(q)
    if q.startswith('builtins.'):
        f = BI.get(q[9:])
        if f is not None:
            return f(I, args, kw)
        nm = q[9:]
        if nm.endswith('Error') or nm in ('Exception', 'UserWarning', 'Warning', 'StopIteration', 'DeprecationWarning', 'RuntimeWarning'):
            return XObj('exc', cls=nm)
        return I.opaque('builtin:' + nm, *args)
    if q.startswith('numpy.'):
        return npmodel.call(I, q, args, kw)
    return extmodel.call(I, q, args, kw)


def method(I, obj, name, args, kw):
    from . import npmodel, extmodel
    if isinstance(obj, IteV):
        return I.split(obj.c, lambda: method(I, obj.a, name, args, kw), lambda: method(I, obj.b, name, args, kw))
    a = I.arrval(obj)
    if a is not None or isinstance(obj, Num):
        return npmodel.method(I, obj, a, name, args, kw)
    if isinstance(obj, BoolV):
        return npmodel.method(I, Num(num(obj)), None, name, args, kw)
    if isinstance(obj, XObj):
        return extmodel.x_method(I, obj, name, args, kw)
    if isinstance(obj, Str) or isinstance(obj, TV) and obj.kind == 'str':
        return str_method(I, obj, name, args, kw)
    if isinstance(obj, Ref):
        c = I.content(obj)
        if isinstance(c, ListC):
            return list_method(I, obj, c, name, args, kw)
        if isinstance(c, DictC):
            return dict_method(I, obj, c, name, args, kw)
    if isinstance(obj, (Seq, Tup)):
        return seq_method(I, obj, name, args, kw)
    if isinstance(obj, FDict):
        r = I.thaw(obj)
        return dict_method(I, r, I.content(r), name, args, kw)
    if isinstance(obj, TV):
        nm = ('?' if has_opaque(obj.t) else '') + 'call:' + name
        return TV(mk('fn', nm, obj.t, *[I.term(x) for x in args], *[mk('kw', k, I.term(v)) for k, v in sorted(kw.items())]))
    return I.opaque('method:' + name, obj, *args)


def list_method(I, ref, c, name, args, kw):
    if name in ('append', 'add', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'update', 'discard', '__setitem__', '__delitem__'):
        I.mutate_check(c.prov, 'list.%s' % name)
    segs = c.segs

    def put(s):
        I.st.heap[ref.id] = ListC(s, c.prov, c.kind)
    if name in ('append', 'add'):
        v = args[0]
        if isinstance(v, IteV) and not (v.a is UNDEF or v.b is UNDEF):
            pass
        put(segs + [Item(v)])
        return NONE
    if name in ('extend', 'update'):
        put(segs + segs_of(I, args[0]))
        return NONE
    if name == 'insert':
        n = asint(args[0])
        if n == 0:
            put([Item(args[1])] + segs)
            return NONE
        if n is not None and all(isinstance(s, Item) and s.guard is TRUE for s in segs):
            l = list(segs)
            l.insert(n, Item(args[1]))
            put(l)
            return NONE
        if n is not None and n > 0 and len(segs) >= n and all(isinstance(s, Item) and s.guard is TRUE for s in segs[:n]):
            put(segs[:n] + [Item(args[1])] + segs[n:])
            return NONE
        p = num(args[0])
        if p is not None and p == seq_len(Seq(segs)):
            put(segs + [Item(args[1])])
            return NONE
        put([Seg(fn('?len'), lambda q: [Item(TV(mk('fn', '?insert', P(q))))])])
        return NONE
    if name == 'pop':
        n = asint(args[0]) if args else -1
        if n is not None:
            ss = norm_segs(I, segs)
            if ss and ((n == -1 and isinstance(ss[-1], Item) and ss[-1].guard is TRUE)):
                put(ss[:-1])
                return ss[-1].v
            if ss and n >= 0 and len(ss) > n and all(isinstance(s, Item) and s.guard is TRUE for s in ss[:n + 1]):
                v = ss[n].v
                put(ss[:n] + ss[n + 1:])
                return v
            if not ss:
                I.raise_exc('IndexError')
            if n == 0 and len(ss) == 1 and isinstance(ss[0], Seg) and seg_dense(ss[0]):
                s = ss[0]
                f = seg_dense(s)
                put([Seg(s.size - 1, lambda k: [Item(f(P(k) + 1))])])
                return f(ZERO)
            if n == -1 and len(ss) == 1 and isinstance(ss[0], Seg) and seg_dense(ss[0]):
                s = ss[0]
                f = seg_dense(s)
                put([Seg(s.size - 1, lambda k: [Item(f(P(k)))])])
                return f(s.size - 1)
        put([Seg(fn('?len'), lambda q: [Item(TV(mk('fn', '?pop', P(q))))])])
        return I.opaque('pop', ref)
    if name == 'clear':
        put([])
        return NONE
    if name == 'copy':
        return I.alloc(ListC(segs, kind=c.kind))
    if name == 'reverse':
        put(reverse_segs(I, segs))
        return NONE
    if name == 'sort':
        r = sort_segs(I, segs, kw)
        put(r)
        return NONE
    if name == 'index':
        return index_of(I, segs, args[0])
    if name == 'count':
        cnt = ZERO
        for s in segs:
            if isinstance(s, Item):
                cnt = cnt + ite(c_and(s.guard, veq(I, s.v, args[0])), ONE, ZERO)
            else:
                cnt = cnt + sum_over(s.size, lambda k, s=s: sum((ite(c_and(x.guard, veq(I, x.v, args[0])), ONE, ZERO) for x in s.fn(k)), ZERO))
        return Num(cnt, 'int')
    if name in ('__len__',):
        return Num(seq_len(Seq(segs)), 'int')
    if name == '__getitem__':
        return I.get_item(ref, args[0])
    if name == '__contains__':
        return BoolV(member(I, args[0], ref))
    if name in ('difference', 'intersection', 'union', 'symmetric_difference'):
        op = {'difference': 'Sub', 'intersection': 'BitAnd', 'union': 'BitOr'}.get(name)
        if op:
            o = args[0]
            if not is_listlike(I, o) or I.arrval(o) is not None:
                o = I.alloc(ListC(segs_of(I, o), kind='set'))
            return binop(I, op, ref, o)
    if name == '__iter__':
        return ref
    if name == '__next__':
        return BI['next'](I, [ref], {})
    if name in ('close',):
        return NONE
    if name in ('size', 'shape'):
        I.raise_exc('AttributeError')
    if name in ('tolist', 'flatten', 'mean', 'sum', 'astype', 'reshape', 'items', 'keys', 'values', 'get', 'lower'):
        I.raise_exc('AttributeError')
    return I.opaque('list.' + name, ref, *args)


def seq_method(I, o, name, args, kw):
    segs = segs_of(I, o)
    if name == 'index':
        return index_of(I, segs, args[0])
    if name in ('__len__',):
        return Num(seq_len(Seq(segs)), 'int')
    if name == 'count':
        r = I.alloc(ListC(segs))
        return list_method(I, r, I.content(r), name, args, kw)
    if name in ('append', 'extend', 'insert') and isinstance(o, Tup):
        I.raise_exc('AttributeError')
    if isinstance(o, Seq) and o.kind != 'tuple':
        r = I.alloc(ListC(segs, o.prov, o.kind))
        return list_method(I, r, I.content(r), name, args, kw)
    return I.opaque('tuple.' + name, o, *args)


def index_of(I, segs, v):
    if all(isinstance(s, Item) and s.guard is TRUE for s in segs):
        r = None
        for k in reversed(range(len(segs))):
            c = veq(I, segs[k].v, v)
            r = Num(k, 'int') if r is None and c is TRUE else (Num(ite(c, const(k), r.p), 'int') if r is not None else Num(ite(c, const(k), fn('?notfound')), 'int'))
        if r is None:
            I.raise_exc('ValueError')
        return r
    if len(segs) == 1 and isinstance(segs[0], Seg):
        s = segs[0]
        k = fresh('q', ub=s.size)
        its = s.fn(k)
        if len(its) == 1 and its[0].guard is TRUE:
            return Num(fn('first_true', mk_arrT([k.single_atom()], veq(I, its[0].v, v), s.size)), 'int')
    return Num(fn('?index', I.term(Seq(segs)), I.term(v)), 'int')


def reverse_segs(I, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Item):
            out.append(s)
        elif isinstance(s, Seg) and not isinstance(s, NestedSegT()):
            out.append(Seg(s.size, lambda k, s=s: list(reversed(s.fn(s.size - 1 - P(k))))))
        else:
            raise _interp.Unsupported('reverse')
    return out


def sort_segs(I, segs, kw=None):
    if kw and kw.get('key') is not None and kw['key'] is not NONE:
        its = [s.v for s in segs if isinstance(s, Item) and s.guard is TRUE]
        if len(its) == len(segs):
            keys = [I.call(kw['key'], [v], {}) for v in its]
            ks = [I.dict_key(k) for k in keys]
            if all(isinstance(k, (int, float, str)) for k in ks) and len({type(k) for k in ks}) <= 1:
                rev = kw.get('reverse') is not None and I.truth(kw['reverse']) is TRUE
                order = sorted(range(len(its)), key=lambda i: ks[i], reverse=rev)
                return [Item(its[i]) for i in order]
        t = mk('seq', *[I.seg_term(s) for s in segs])
        return [Seg(seq_len(Seq(segs)), lambda k: [Item(TV(mk('fn', '?sorted', t, P(k))))])]
    rev = bool(kw and kw.get('reverse') is not None and I.truth(kw['reverse']) is TRUE)
    items = [s.v for s in segs if isinstance(s, Item) and s.guard is TRUE]
    if len(items) == len(segs):
        ks = [I.dict_key(v) for v in items]
        if all(isinstance(k, (int, float)) for k in ks) or all(isinstance(k, str) for k in ks) or all(isinstance(k, bytes) for k in ks):
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
            return [Item(items[i]) for i in order]
    if monotone(I, segs) and not rev:
        return segs
    q = Seq(segs)
    a = seq_to_arr(I, q)
    if a is not None and a.ndim == 1:
        from . import npmodel
        s = npmodel.sort_arr(I, a)
        if rev:
            n = s.shape[0]
            return [Seg(n, lambda k: [Item(scalar(s.fn(n - 1 - P(k)), s.dtype))])]
        return [Seg(s.shape[0], lambda k: [Item(scalar(s.fn(P(k)), s.dtype))])]
    t = mk('seq', *[I.seg_term(s) for s in segs])
    return [Seg(seq_len(q), lambda k: [Item(TV(mk('fn', '?sorted', t, P(k))))])]


def monotone(I, segs):
    """Single filtered segment whose value increases with the iteration index."""
    if len(segs) != 1 or not isinstance(segs[0], Seg) or isinstance(segs[0], NestedSegT()):
        return False
    s = segs[0]
    k = fresh('q', ub=s.size)
    its = s.fn(k)
    if len(its) != 1 or not isinstance(its[0].v, Num):
        return False
    p = its[0].v.p
    d = subst(p, {k.single_atom(): k + 1}) - p
    c = d.cval()
    return c is not None and c > 0


def dict_method(I, ref, c, name, args, kw):
    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem', '__setitem__', '__delitem__'):
        I.mutate_check(c.prov, 'dict.%s' % name)
    if name == 'items':
        return I.alloc(ListC([Item(Tup([I.key_value(k), v])) for k, v in c.d.items() if v is not UNDEF]))
    if name == 'keys':
        return I.alloc(ListC([Item(I.key_value(k)) for k in c.d]))
    if name == 'values':
        return I.alloc(ListC([Item(v) for v in c.d.values()]))
    if name == 'get':
        k = I.dict_key(args[0])
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        if k in c.d:
            v = c.d[k]
            if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
                return I.merge_val(v.c, v.a if v.a is not UNDEF else d, v.b if v.b is not UNDEF else d)
            return v
        if isinstance(k, tuple) and k and k[0] == 'term':
            val = d
            for kk, v in c.d.items():
                val = I.merge_val(veq(I, args[0], I.key_value(kk)), v, val)
            return val
        return d
    if name == 'pop':
        k = I.dict_key(args[0])
        if k in c.d:
            d = dict(c.d)
            v = d.pop(k)
            I.st.heap[ref.id] = DictC(d, c.prov)
            if isinstance(v, IteV) and len(args) > 1 and (v.a is UNDEF or v.b is UNDEF):
                return I.merge_val(v.c, v.a if v.a is not UNDEF else args[1], v.b if v.b is not UNDEF else args[1])
            return v
        if len(args) > 1:
            return args[1]
        I.raise_exc('KeyError')
    if name == 'update':
        d = dict(c.d)
        if args:
            for k, v in dict_items(I, args[0]):
                d[k] = v
        for k, v in kw.items():
            d[k] = v
        I.st.heap[ref.id] = DictC(d, c.prov)
        return NONE
    if name == 'setdefault':
        k = I.dict_key(args[0])
        if k in c.d:
            return c.d[k]
        d = dict(c.d)
        d[k] = args[1] if len(args) > 1 else NONE
        I.st.heap[ref.id] = DictC(d, c.prov)
        return d[k]
    if name == 'copy':
        return I.alloc(DictC(dict(c.d)))
    if name == 'clear':
        I.st.heap[ref.id] = DictC({}, c.prov)
        return NONE
    if name == '__contains__':
        return BoolV(member(I, args[0], ref))
    if name == '__getitem__':
        return I.get_item(ref, args[0])
    if name == '__len__':
        return Num(len(c.d), 'int')
    return I.opaque('dict.' + name, ref, *args)


def str_method(I, o, name, args, kw):
    if isinstance(o, Str) and all(isinstance(a, (Str,)) or asint(a) is not None or isinstance(a, Tup) for a in args) and not kw:
        pa = []
        ok = True
        for a in args:
            if isinstance(a, Str):
                pa.append(a.s)
            elif isinstance(a, Tup):
                if all(isinstance(x, Str) for x in a.items):
                    pa.append(tuple(x.s for x in a.items))
                else:
                    ok = False
            else:
                pa.append(asint(a))
        if ok and name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'join', 'encode', 'decode',
                           'title', 'capitalize', 'lstrip', 'rstrip', 'find', 'rfind', 'count', 'isdigit', 'rsplit', 'partition',
                           'rpartition', 'casefold', 'index', 'zfill', 'removeprefix', 'removesuffix', 'isnumeric', 'isalpha', 'swapcase', 'splitlines', 'format'):
            try:
                r = getattr(o.s, name)(*pa)
            except Exception as e:
                I.raise_exc(type(e).__name__)
            return from_py(I, r)
    if name == '__str__':
        return to_str(I, o)
    if name == 'join' and isinstance(o, Str):
        xs = segs_of(I, args[0])
        if all(isinstance(s, Item) and s.guard is TRUE for s in xs):
            parts = []
            for n, s in enumerate(xs):
                if n and o.s:
                    parts.append(o)
                parts.append(s.v)
            return strcat(I, parts)
    if name in ('encode', 'decode') and isinstance(o, TV):
        return TV(mk('fn', 'str.' + name, o.t), 'str')
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'isalpha'):
        return BoolV(c_b('str.' + name, I.term(o), *[I.term(a) for a in args]))
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
        return TV(mk('fn', 'str.' + name, I.term(o), *[I.term(a) for a in args]), 'obj')
    if name == 'format':
        return TV(mk('fn', 'str.format', I.term(o), *[I.term(a) for a in args], *[mk('kw', k, I.term(v)) for k, v in sorted(kw.items())]), 'str')
    if name in ('find', 'rfind', 'index', 'count'):
        return Num(fn('str.' + name, I.term(o), *[I.term(a) for a in args]), 'int')
    return TV(mk('fn', 'str.' + name, I.term(o), *[I.term(a) for a in args]), 'str')


def from_py(I, r):
    if r is None:
        return NONE
    if isinstance(r, bool):
        return BoolV(r)
    if isinstance(r, int):
        return Num(r, 'int')
    if isinstance(r, (str, bytes)):
        return Str(r)
    if isinstance(r, tuple):
        return Tup([from_py(I, x) for x in r])
    if isinstance(r, list):
        return I.new_list([from_py(I, x) for x in r])
    raise _interp.Unsupported('from_py')


# ---------------------------------------------------------------- builtins
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, IteV):
        return I.split(v.c, lambda: b_len(I, [v.a], kw), lambda: b_len(I, [v.b], kw))
    if isinstance(v, Tup):
        return Num(len(v.items), 'int')
    if isinstance(v, Str):
        return Num(len(v.s), 'int')
    if isinstance(v, FDict):
        return Num(len(v.d), 'int')
    if isinstance(v, RangeV):
        return Num(range_len(v), 'int')
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            if c.kind == 'gen':
                I.raise_exc('TypeError')
            return Num(seq_len(Seq(norm_segs(I, c.segs))), 'int')
        if isinstance(c, DictC):
            return Num(len(c.d), 'int')
        if isinstance(c, ArrC):
            v = c.v
        elif isinstance(c, ObjC):
            m = I.class_lookup(c.cls, '__len__')
            if m is None:
                I.raise_exc('TypeError')
            return I.call_func(m, [v], {})
    if isinstance(v, Seq):
        return Num(seq_len(Seq(norm_segs(I, v.segs))), 'int')
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_exc('TypeError')
        return Num(v.shape[0], 'int')
    if isinstance(v, (Num, BoolV)) or v is NONE:
        I.raise_exc('TypeError')
    if isinstance(v, XObj):
        from . import extmodel
        return extmodel.x_len(I, v)
    if isinstance(v, TV):
        return Num(fn('len' if not has_opaque(v.t) else '?len', v.t), 'int')
    return I.opaque('len', v)


def b_range(I, args, kw):
    xs = []
    for a in args:
        if isinstance(a, IteV):
            a = Num(numf(I, a), 'int')
        if isinstance(a, Num) and a.kind == 'float':
            I.raise_exc('TypeError')
        xs.append(Num(numf(I, a), 'int'))
    if len(xs) == 1:
        return RangeV(Num(0, 'int'), xs[0], Num(1, 'int'))
    if len(xs) == 2:
        return RangeV(xs[0], xs[1], Num(1, 'int'))
    return RangeV(*xs)


def elems(I, v):
    """(length, fn k -> value) view of an unguarded iterable."""
    segs = segs_of(I, v)
    segs = norm_segs(I, segs)
    return seq_len(Seq(segs)), (lambda k: seq_elem(I, segs, k))


def b_enumerate(I, args, kw):
    start = numf(I, args[1]) if len(args) > 1 else numf(I, kw['start']) if 'start' in kw else ZERO
    v = args[0]
    if isinstance(v, XObj) or isinstance(v, IteV):
        if isinstance(v, IteV):
            return I.split(v.c, lambda: b_enumerate(I, [v.a] + args[1:], kw), lambda: b_enumerate(I, [v.b] + args[1:], kw))
        return XObj('enumerate', it=v, start=Num(start, 'int'))
    out = []
    pos = start
    for s in norm_segs(I, segs_of(I, v)):
        if isinstance(s, Item):
            out.append(Item(Tup([Num(pos, 'int'), s.v]), s.guard))
            pos = pos + ite(s.guard, ONE, ZERO)
        elif isinstance(s, Seg) and not isinstance(s, NestedSegT()):
            k = fresh('q', ub=s.size)
            its = s.fn(k)
            if len(its) == 1 and its[0].guard is TRUE:
                out.append(Seg(s.size, lambda k, s=s, pos=pos: [Item(Tup([Num(pos + P(k), 'int'), s.fn(k)[0].v]))]))
                pos = pos + s.size
            elif len(its) == 1:
                def f(k, s=s, pos=pos):
                    x = s.fn(k)[0]
                    if size_guard(x.guard):
                        idx = pos + P(k)
                    else:
                        idx = pos + sum_over(P(k), lambda j: ite(s.fn(j)[0].guard, ONE, ZERO))
                    return [Item(Tup([Num(idx, 'int'), x.v]), x.guard)]
                out.append(Seg(s.size, f))
                pos = pos + seg_len(s)
            else:
                raise _interp.Unsupported('enumerate')
        else:
            raise _interp.Unsupported('enumerate')
    return Seq(out, 'gen')


def b_zip(I, args, kw):
    if len(args) == 1 and isinstance(args[0], XObj) and args[0].kind == 'star':
        return I.opaque('zip-star', args[0].f['seq'])
    if any(isinstance(a, XObj) for a in args):
        return XObj('zip', its=Tup(args))
    sg = [norm_segs(I, segs_of(I, a)) for a in args]
    if all(all(isinstance(s, Item) and s.guard is TRUE for s in x) for x in sg):
        return Seq([Item(Tup([s.v for s in col])) for col in zip(*sg)], 'gen')
    # same structure
    if len({len(x) for x in sg}) == 1:
        ok = True
        out = []
        for col in zip(*sg):
            if all(isinstance(s, Item) and s.guard is TRUE for s in col):
                out.append(Item(Tup([s.v for s in col])))
            elif all(isinstance(s, Seg) and not isinstance(s, NestedSegT()) for s in col) and len({s.size for s in col}) == 1:
                k = fresh('q', ub=col[0].size)
                its = [s.fn(k) for s in col]
                gs = {tuple(x.guard for x in i) for i in its}
                if len(gs) == 1 and all(len(i) == 1 for i in its):
                    out.append(Seg(col[0].size, lambda k, col=col: [Item(Tup([s.fn(k)[0].v for s in col]), col[0].fn(k)[0].guard)]))
                else:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok:
            return Seq(out, 'gen')
    views = [(seq_len(Seq(s)), (lambda k, s=s: seq_elem(I, s, k))) for s in sg]
    n = None
    for ln, f in views:
        n = ln if n is None else (n if n == ln else mini(n, ln))
    c = cint(n)
    if c is not None and c <= 16:
        return Seq([Item(Tup([f(const(k)) for _, f in views])) for k in range(c)], 'gen')
    return Seq([Seg(n, lambda k: [Item(Tup([f(P(k)) for _, f in views]))])], 'gen')


def b_map(I, args, kw):
    f = args[0]
    if len(args) == 2:
        segs = norm_segs(I, segs_of(I, args[1]))
        return comp_map(I, segs, lambda v: I.call(f, [v], {}))
    z = b_zip(I, args[1:], {})
    return comp_map(I, z.segs, lambda v: I.call(f, list(v.items), {}))


def comp_map(I, segs, f):
    """Map a pure function over segments (bodies are analysed per symbolic element)."""
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(f(s.v), s.guard))
        else:
            def g(k, s=s):
                save = I.st
                I.st = I.st.copy()
                r = [Item(I.freeze(f(x.v), I.st), x.guard) for x in s.fn(k)]
                I.st = save
                return r
            out.append(Seg(s.size, g))
    return Seq(out, 'gen')


def b_filter(I, args, kw):
    f = args[0]
    return Seq(filter_segs(I, segs_of(I, args[1]), lambda v: I.truth(I.call(f, [v], {}) if f is not NONE else v)), 'gen')


def b_list(I, args, kw):
    if not args:
        return I.new_list([])
    v = args[0]
    if isinstance(v, IteV):
        return I.split(v.c, lambda: b_list(I, [v.a], kw), lambda: b_list(I, [v.b], kw))
    return I.alloc(ListC(segs_of(I, v)))


def b_tuple(I, args, kw):
    if not args:
        return Tup([])
    v = args[0]
    if isinstance(v, IteV):
        return I.split(v.c, lambda: b_tuple(I, [v.a], kw), lambda: b_tuple(I, [v.b], kw))
    s = norm_segs(I, segs_of(I, v))
    if all(isinstance(x, Item) and x.guard is TRUE for x in s):
        return Tup([x.v for x in s])
    return Seq(s, 'tuple')


def b_set(I, args, kw):
    if not args:
        return I.alloc(ListC([], kind='set'))
    v = args[0]
    segs = segs_of(I, v)
    items = [s.v for s in segs if isinstance(s, Item) and s.guard is TRUE]
    if len(items) == len(segs):
        out, seen = [], set()
        for x in items:
            t = I.term(x)
            if t not in seen:
                seen.add(t)
                out.append(Item(x))
        return I.alloc(ListC(out, kind='set'))
    return I.alloc(ListC(segs, kind='set'))


def b_dict(I, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.content(v), DictC) or isinstance(v, FDict):
            for k, x in dict_items(I, v):
                d[k] = x
        else:
            for s in segs_of(I, v):
                if not isinstance(s, Item) or s.guard is not TRUE:
                    raise _interp.Unsupported('dict of symbolic')
                k, x = I.unpack(s.v, 2)
                d[I.dict_key(k)] = x
    for k, x in kw.items():
        d[k] = x
    return I.alloc(DictC(d))


def b_sum(I, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', Num(0, 'int'))
    segs = norm_segs(I, segs_of(I, v))
    acc = start
    for s in segs:
        if isinstance(s, Item):
            x = s.v
            if s.guard is not TRUE:
                nx = I.binop('Add', acc, x)
                acc = I.merge_val(s.guard, nx, acc)
            else:
                acc = I.binop('Add', acc, x)
        elif isinstance(s, CarrySeg):
            return I.opaque('sum-carry')
        elif isinstance(s, NestedSegT()):
            ch = _nested_chunk(I, s)
            acc = I.binop('Add', acc, Num(sum_over(ch[1], lambda k: ite(ch[2](k)[0], numf(I, ch[2](k)[1]), ZERO))))
        else:
            k = fresh('q', ub=s.size)
            its = s.fn(k)
            if all(isinstance(x.v, (Num, BoolV, TV)) for x in its):
                p = sum_over(s.size, lambda k, s=s: sum((ite(x.guard, numf(I, x.v), ZERO) for x in s.fn(k)), ZERO))
                kd = its[0].v.kind if its and isinstance(its[0].v, Num) else None
                acc = I.binop('Add', acc, Num(p, kd if kd in ('int', 'float') else None))
            elif all(I.arrval(x.v) is not None for x in its) and its:
                a0 = as_arr(I, its[0].v)

                def f(*ix, s=s):
                    return sum_over(s.size, lambda k: sum((ite(x.guard, elt(as_arr(I, x.v), as_arr(I, x.v).fn(*ix)), ZERO) for x in s.fn(k)), ZERO))
                acc = I.binop('Add', acc, I.new_arr(Arr(a0.shape, f, a0.dtype)))
            else:
                return I.opaque('sum', v)
    return acc


def b_minmax(mx):
    f = maxi if mx else mini

    def g(I, args, kw):
        if len(args) == 1:
            v = args[0]
            a = I.arrval(v)
            segs = norm_segs(I, segs_of(I, v)) if not isinstance(a, Arr) else None
            if segs is not None and all(isinstance(s, Item) and s.guard is TRUE for s in segs) and segs and 'key' not in kw:
                args = [s.v for s in segs]
                if len(args) == 1:
                    return args[0]
            else:
                if 'key' in kw:
                    return I.opaque('max-key', v)
                from . import npmodel
                if segs is not None and not segs:
                    if 'default' in kw:
                        return kw['default']
                    I.raise_exc('ValueError')
                x = as_arr(I, v)
                if x is None:
                    return I.opaque('max', v)
                return npmodel.reduce_minmax(I, x, None, mx)
        ps = [numf(I, x) for x in args]
        r = ps[0]
        for p in ps[1:]:
            r = f(r, p)
        kinds = [x.kind if isinstance(x, Num) else None for x in args]
        return Num(r, combine_kind(kinds))
    return g


def b_int(I, args, kw):
    if not args:
        return Num(0, 'int')
    v = args[0]
    if isinstance(v, IteV):
        return I.split(v.c, lambda: b_int(I, [v.a], kw), lambda: b_int(I, [v.b], kw))
    if isinstance(v, Str):
        try:
            return Num(int(v.s), 'int')
        except ValueError:
            I.raise_exc('ValueError')
    if isinstance(v, TV) and v.kind == 'str':
        return Num(fn('parseint', v.t), 'int')
    p = numf(I, v)
    truncating(I, v)
    return Num(_trunc(p), 'int')


def truncating(I, v):
    if isinstance(v, Inexact):
        I.event('truncation', v.p)


def b_float(I, args, kw):
    if not args:
        return Num(0, 'float')
    v = args[0]
    if isinstance(v, Str):
        try:
            return Num(from_float(float(v.s)), 'float')
        except ValueError:
            I.raise_exc('ValueError')
    return Num(numf(I, v), 'float')


def b_round(I, args, kw):
    v = args[0]
    nd = args[1] if len(args) > 1 else kw.get('ndigits')
    if nd is None or nd is NONE:
        return Num(_rint(numf(I, v)), 'int')
    from .npmodel import asint
    return Num(round_to(numf(I, v), asint(nd)))


def b_abs(I, args, kw):
    return ufunc1(I, _abs, args[0])


def b_anyall(isany):
    def g(I, args, kw):
        v = args[0]
        r = FALSE if isany else TRUE
        a = I.arrval(v)
        if isinstance(a, Arr) and a.ndim == 1:
            c = any_over(a.shape, lambda *ix: (lambda x: x if isany else c_not(x))(a.fn(*ix) if a.dtype == 'bool' else to_bool(a.fn(*ix))))
            return BoolV(c if isany else c_not(c))
        for s in norm_segs(I, segs_of(I, v)):
            if isinstance(s, Item):
                t = I.truth(s.v)
                r = c_or(r, c_and(s.guard, t)) if isany else c_and(r, c_or(c_not(s.guard), t))
            elif isinstance(s, Seg) and not isinstance(s, NestedSegT()):
                def body(k, s=s):
                    q = FALSE
                    for x in s.fn(k):
                        t = I.truth(x.v)
                        q = c_or(q, c_and(x.guard, t if isany else c_not(t)))
                    return q
                c = any_over([s.size], body)
                r = c_or(r, c) if isany else c_and(r, c_not(c))
            else:
                return BoolV(c_b('?any', I.term(v)))
        return BoolV(r)
    return g


def b_isinstance(I, args, kw):
    return BoolV(isinstance_(I, args[0], args[1]))


def b_sorted(I, args, kw):
    return I.alloc(ListC(sort_segs(I, norm_segs(I, segs_of(I, args[0])), kw)))


def b_reversed(I, args, kw):
    v = args[0]
    if isinstance(v, RangeV):
        a, s = num(v.a), num(v.s)
        n = range_len(v)
        return RangeV(Num(a + s * (n - 1), 'int'), Num(a - s, 'int'), Num(-s, 'int'))
    return Seq(reverse_segs(I, norm_segs(I, segs_of(I, v))), 'gen')


def b_getattr(I, args, kw):
    nm = args[1]
    if not isinstance(nm, Str):
        return I.opaque('getattr', *args)
    if len(args) > 2:
        save = I.exc_sink
        I.exc_sink = []
        st = I.st.copy()
        try:
            v = I.get_attr(args[0], nm.s)
            I.exc_sink = save
            return v
        except _interp.AbsRaise:
            I.exc_sink = save
            I.st = st
            return args[2]
    return I.get_attr(args[0], nm.s)


def b_hasattr(I, args, kw):
    save = I.exc_sink
    I.exc_sink = []
    st = I.st.copy()
    try:
        v = I.get_attr(args[0], args[1].s)
        ex = I.exc_sink
        I.exc_sink = save
        I.st = st
        if isinstance(v, MethV):
            tn = type_names(I, v.obj) or set()
            known = _PY_ATTRS(tn)
            if known is not None:
                return BoolV(args[1].s in known)
        if isinstance(v, TV) and has_opaque(v.t):
            return BoolV(c_b('?hasattr', I.term(args[0]), mk('strc', args[1].s)))
        return BoolV(TRUE)
    except _interp.AbsRaise:
        I.exc_sink = save
        I.st = st
        return BoolV(FALSE)


def _PY_ATTRS(tn):
    for n, t in (('list', list), ('tuple', tuple), ('dict', dict), ('str', str), ('bytes', bytes), ('int', int), ('set', set), ('range', range)):
        if n in tn:
            return set(dir(t))
    if 'ndarray' in tn:
        return ARR_METHODS | {'shape', 'size', 'dtype', 'T', '__len__', '__iter__', '__array__'}
    if 'float' in tn:
        return set(dir(float))
    return None


def b_setattr(I, args, kw):
    if isinstance(args[1], Str):
        I.set_attr(args[0], args[1].s, args[2])
        return NONE
    I.note('setattr with a symbolic name')
    return NONE


def b_next(I, args, kw):
    v = args[0]
    segs = norm_segs(I, segs_of(I, v))
    if not segs and len(args) > 1:
        return args[1]
    r = None
    if segs and isinstance(segs[0], Item) and segs[0].guard is TRUE:
        r = segs[0].v
        if isinstance(v, Ref):
            c = I.content(v)
            I.st.heap[v.id] = ListC(segs[1:], c.prov, c.kind)
        return r
    if not segs:
        I.raise_exc('StopIteration')
    if len(args) > 1:
        ex = c_not(c_eq0(seq_len(Seq(segs)))) if all(isinstance(s, Item) for s in segs) else exists_any(I, segs)
        return I.merge_val(ex, seq_elem(I, segs, ZERO), args[1])
    if isinstance(v, Ref) and len(segs) == 1 and isinstance(segs[0], Seg):
        f = seg_dense(segs[0])
        if f is not None:
            c = I.content(v)
            I.st.heap[v.id] = ListC([Seg(segs[0].size - 1, lambda k: [Item(f(P(k) + 1))])], c.prov, c.kind)
            return f(ZERO)
    return seq_elem(I, segs, ZERO)


def exists_any(I, segs):
    r = FALSE
    for s in segs:
        if isinstance(s, Item):
            r = c_or(r, s.guard)
        else:
            def g(k, s=s):
                q = FALSE
                for x in s.fn(k):
                    q = c_or(q, x.guard)
                return q
            r = c_or(r, any_over([s.size], g))
    return r


def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.content(v), ObjC):
        return I.content(v).cls
    if isinstance(v, FObj):
        return v.cls
    tn = type_names(I, v)
    if tn is None:
        return I.opaque('type', v)
    order = ['bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'ndarray', 'NoneType', 'range']
    for o in order:
        if o in tn:
            if o == 'ndarray':
                return ExtV('numpy.ndarray')
            return ExtV('builtins.' + o)
    return XObj('type', name=Str(sorted(tn)[0]))


def b_print(I, args, kw):
    I.event('print', len(args))
    return NONE


def b_str(I, args, kw):
    if not args:
        return Str('')
    v = args[0]
    if isinstance(v, IteV):
        return I.merge_val(v.c, b_str(I, [v.a], kw), b_str(I, [v.b], kw))
    return to_str(I, v)


def b_bool(I, args, kw):
    return BoolV(I.truth(args[0]) if args else FALSE)


def b_slice(I, args, kw):
    if len(args) == 1:
        return SliceV(NONE, args[0], NONE)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else NONE)


def b_pow(I, args, kw):
    return I.binop('Pow', args[0], args[1])


def b_divmod(I, args, kw):
    return Tup([I.binop('FloorDiv', args[0], args[1]), I.binop('Mod', args[0], args[1])])


def b_noop(I, args, kw):
    return NONE


def b_iter(I, args, kw):
    return I.alloc(ListC(segs_of(I, args[0]), kind='gen')) if not isinstance(args[0], XObj) else args[0]


def b_new(I, args, kw):
    c = args[0]
    if isinstance(c, ClsV):
        return I.alloc(ObjC(c, {}))
    return I.opaque('object.__new__', *args)


def b_callable(I, args, kw):
    v = args[0]
    return BoolV(isinstance(v, (FuncV, BoundV, ClsV, ExtV, MethV)))


def b_issubclass(I, args, kw):
    c, t = args
    if isinstance(c, ClsV) and isinstance(t, ClsV):
        return BoolV(t in I.mro(c))
    return BoolV(c_b('?issubclass', I.term(c), I.term(t)))


def b_id(I, args, kw):
    return I.opaque('id')


def b_super(I, args, kw):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    return I.opaque('super')


BI = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter, 'list': b_list,
    'tuple': b_tuple, 'set': b_set, 'frozenset': b_set, 'dict': b_dict, 'sum': b_sum, 'min': b_minmax(False), 'max': b_minmax(True),
    'int': b_int, 'float': b_float, 'round': b_round, 'abs': b_abs, 'any': b_anyall(True), 'all': b_anyall(False),
    'isinstance': b_isinstance, 'sorted': b_sorted, 'reversed': b_reversed, 'getattr': b_getattr, 'hasattr': b_hasattr,
    'setattr': b_setattr, 'next': b_next, 'iter': b_iter, 'type': b_type, 'print': b_print, 'str': b_str, 'repr': b_str,
    'bool': b_bool, 'slice': b_slice, 'pow': b_pow, 'divmod': b_divmod, 'object.__new__': b_new, 'object.__init__': b_noop,
    'callable': b_callable, 'issubclass': b_issubclass, 'id': b_id, 'super': b_super, 'object': lambda I, a, k: XObj('object'),
    'bytes': lambda I, a, k: I.opaque('bytes', *a), 'format': lambda I, a, k: TV(mk('fn', 'format', *[I.term(x) for x in a]), 'str'),
    'open': lambda I, a, k: (I.event('open', [I.term(x) for x in a]), I.opaque('open', *a))[1],
    'ord': lambda I, a, k: Num(ord(a[0].s), 'int') if isinstance(a[0], Str) else I.opaque('ord', *a),
    'chr': lambda I, a, k: Str(chr(asint(a[0]))) if asint(a[0]) is not None else I.opaque('chr', *a),
    'hash': lambda I, a, k: I.opaque('hash', *a), 'staticmethod': lambda I, a, k: a[0], 'classmethod': lambda I, a, k: a[0],
    'input': lambda I, a, k: I.opaque('input'),
}
BUILTINS = {n: ExtV('builtins.' + n) for n in BI}
for _n in ('Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'MemoryError', 'RuntimeError',
           'NotImplementedError', 'ModuleNotFoundError', 'ImportError', 'AssertionError', 'StopIteration', 'ZeroDivisionError', 'OSError',
           'FileExistsError', 'FileNotFoundError', 'UserWarning', 'Warning', 'DeprecationWarning', 'RuntimeWarning', 'FutureWarning',
           'ArithmeticError', 'LookupError', 'NameError', 'OverflowError', 'FloatingPointError', 'IOError', 'PermissionError', 'property',
           'memoryview', 'bytearray', 'complex', 'UnicodeDecodeError', 'RecursionError', 'EOFError', 'KeyboardInterrupt', 'SystemExit'):
    BUILTINS[_n] = ExtV('builtins.' + _n)
BUILTINS['NotImplemented'] = TV(mk('sym', 'NotImplemented'))
BUILTINS['Ellipsis'] = ELLIPSIS
BUILTINS['__name__'] = Str('kinisi')
BUILTINS['__debug__'] = BoolV(TRUE)


# ---------------------------------------------------------------- hooks used by the interpreter
def ext_instance_attr(I, o, base, name, attrs):
    from . import extmodel
    return extmodel.ext_instance_attr(I, o, base, name, attrs)


def ext_init(I, o, ext, args, kw):
    from . import extmodel
    return extmodel.ext_init(I, o, ext, args, kw)


def x_set_attr(I, o, name, v):
    from . import extmodel
    return extmodel.x_set_attr(I, o, name, v)


def x_call(I, o, args, kw):
    from . import extmodel
    return extmodel.x_call(I, o, args, kw)
