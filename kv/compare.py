"""Three-valued comparison of abstract values: canonical equality first, random interpretation of the terms second."""
from .terms import *
from .values import *
from .valuation import Valuation, Concrete, Skip, same, frac, EPS, limits, sigmas, SYM_MATS
from .terms import Diff as _Diff
from decimal import Decimal

EQ, DIFF, UNDEC = 'holds', 'differs', 'undecided'


class Out:
    def __init__(self, verdict, how, got='', want='', witness=''):
        self.verdict, self.how, self.got, self.want, self.witness = verdict, how, got, want, witness

    def __repr__(self):
        return '%s (%s) got=%s want=%s %s' % (self.verdict, self.how, self.got[:300], self.want[:300], self.witness[:300])


def cut(s, n=700):
    s = str(s)
    return s if len(s) <= n else s[:n] + ' …'


def to_term(I, v):
    if isinstance(v, (Poly, Node)):
        return v
    return I.term(v)


def structural(I, a, b, facts):
    """True when canonically equal.  Never raises."""
    try:
        if isinstance(a, (Poly, Node)) or isinstance(b, (Poly, Node)):
            a, b = scalar(a), scalar(b)
            if a is None or b is None:
                return False
            if isinstance(a, Poly) and isinstance(b, Poly):
                return equal(a, b, facts)
            if is_bool(a) and is_bool(b):
                return c_equal(a, b, facts)
            return a is b
        if isinstance(a, Num) and isinstance(b, Num):
            return equal(a.p, b.p, facts)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return c_equal(a.c, b.c, facts)
        if isinstance(a, Seq) and isinstance(b, Arr):
            a = I.lib.seq_to_arr(I, a) or a
        if isinstance(b, Seq) and isinstance(a, Arr):
            b = I.lib.seq_to_arr(I, b) or b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                return False
            for x, y in zip(a.shape, b.shape):
                equal(x, y, facts)
            ax = []
            for x in a.shape:
                c = x.cval()
                ax.append([const(j) for j in range(int(c))] if c is not None and c <= 4 else [fresh('e', ub=x)])
            combos = [[]]
            for x in ax:
                combos = [c + [y] for c in combos for y in x]
            for c in combos:
                p, q = a.fn(*c), b.fn(*c)
                if isinstance(p, Poly) and isinstance(q, Poly):
                    equal(p, q, facts)
                elif is_bool(p) and is_bool(q):
                    c_equal(p, q, facts)
                elif p is not q:
                    return False
            return True
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(structural(I, x, y, facts) for x, y in zip(a.items, b.items))
        if isinstance(a, FDict) and isinstance(b, FDict):
            return a.d.keys() == b.d.keys() and all(structural(I, a.d[k], b.d[k], facts) for k in a.d)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.items() is not None and b.items() is not None:
                x, y = a.items(), b.items()
                return len(x) == len(y) and all(structural(I, p, q, facts) for p, q in zip(x, y))
            da, db = a.dense(), b.dense()
            if da and db:
                equal(da[0], db[0], facts)
                k = fresh('e', ub=da[0])
                return structural(I, da[1](k), db[1](k), facts)
        return I.term(a) is I.term(b)
    except _Diff:
        return False
    except RecursionError:
        return False


def scalar(x):
    if isinstance(x, (Poly, Node)):
        return x
    if isinstance(x, Num):
        return x.p
    if isinstance(x, BoolV):
        return x.c
    if isinstance(x, Arr) and not x.shape:
        return x.fn()
    if isinstance(x, TV):
        return x.t
    return None


def all_catoms(x, acc, seen):
    if isinstance(x, Poly):
        for m, _ in x.terms:
            for a, _ in m:
                all_catoms(a, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            all_catoms(y, acc, seen)
    elif isinstance(x, Node):
        if x in seen:
            return
        seen.add(x)
        if x.kind in ('lt', 'eq'):
            acc.add(x)
        for y in x.args:
            all_catoms(y, acc, seen)


def spread_choice(p, depth=3):
    """the polynomials p stands for: each branch of a choice, either sign of a magnitude"""
    out = [p]
    for _ in range(depth):
        nxt = []
        for q in out:
            for m, c in q.terms:
                hit = None
                for a, e in m:
                    if e == 1 and a.kind == 'fn' and a.args[0] == 'abs' and isinstance(a.args[1], Poly):
                        hit = a, [a.args[1], -a.args[1]]
                    elif e == 1 and a.kind == 'fn' and a.args[0] in ('max', 'min') and all(isinstance(x, Poly) for x in a.args[1:]):
                        hit = a, list(a.args[1:])
                    elif e == 1 and a.kind == 'ite' and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
                        hit = a, [a.args[1], a.args[2]]
                    if hit:
                        break
                if hit:
                    rest = Poly(((tuple((x, e) for x, e in m if x is not hit[0]), c),))
                    other = q - Poly(((m, c),))
                    nxt += [other + rest * r for r in hit[1]]
                    break
            else:
                nxt.append(q)
        if len(nxt) == len(out) or len(nxt) > 8:
            break
        out = nxt
    return out


def boundaries(terms, known=()):
    """(node, rest, coefficient) triples: symbols/elements that occur linearly in a comparison, to be pinned at its boundary
    (where coefficient * node + rest = 0); comparisons the specification does not make come first."""
    acc, seen = set(), set()
    for t in terms:
        all_catoms(t, acc, seen)
    kn = set()
    for t in known:
        all_catoms(t, kn, set())
    out = []
    ps = []
    for a in sorted(acc, key=lambda n: n.id):
        bs = sorted((f for f in free(a.args[0]) if f.kind == 'bv'), key=lambda n: n.id)
        new = a not in kn
        if bs:
            # a comparison under a binder: its instances for the first indices
            ps += [(subst(a.args[0], {b: const(j + i) for i, b in enumerate(bs)}), j, new) for j in (1, 0, 2)]
        else:
            ps.append((a.args[0], 0, new))
    kn = set()
    for t in known:
        visit(t, lambda x: kn.add(x), set())
    ms = []
    for t in terms:
        visit(t, lambda x: ms.append(x) if x.kind == 'fn' and x.args[0] in ('max', 'min') and x not in kn else None, set())
    for x in ms:
        # the larger or smaller of several: the point where they swap
        xs = [y for y in x.args[1:] if isinstance(y, Poly)]
        for i in range(len(xs)):
            for y in xs[:i]:
                d = xs[i] - y
                bs = sorted((f for f in free(d) if f.kind == 'bv'), key=lambda n: n.id)
                ps += [(subst(d, {b: const(j + i) for i, b in enumerate(bs)}), j, True) for j in (1, 0, 2)] if bs else [(d, 0, True)]
    ps.sort(key=lambda t: (not t[2], t[1] != 0))
    done = set()
    for p0, _, _ in ps:
        for p in spread_choice(p0):
            xs = []
            for m, c in p.terms:
                for x, e in m:
                    if e == 1 and x.kind in ('sym', 'el') and x not in xs:
                        xs.append(x)
            for x in xs:
                if any(f.kind == 'bv' for f in free(x)):
                    continue
                if x.kind == 'el' and (not plain(x.args[0]) or x.args[0].args[0] in MONO_TENSORS):
                    continue
                q, rest = ZERO, ZERO
                ok = True
                for m, c in p.terms:
                    es = [e for y, e in m if y is x]
                    if not es:
                        rest = rest + Poly(((m, c),))
                    elif es[0] == 1:
                        q = q + Poly(((tuple((y, e) for y, e in m if y is not x), c),))
                    else:
                        ok = False
                if ok and (x, rest, q) not in done:
                    done.add((x, rest, q))
                    out.append((x, rest, q))
    return out


def visit(x, f, seen):
    if isinstance(x, Poly):
        for m, _ in x.terms:
            for a, _ in m:
                visit(a, f, seen)
    elif isinstance(x, tuple):
        for y in x:
            visit(y, f, seen)
    elif isinstance(x, Node) and x not in seen:
        seen.add(x)
        f(x)
        for y in x.args:
            visit(y, f, seen)


def plain(h):
    """an input array: its name and, for the readers, the name of the trajectory"""
    return len(h.args) == 1 or (len(h.args) == 2 and isinstance(h.args[1], Node) and h.args[1].kind == 'strc' and h.args[0] in ('md.cell', 'md.pos', 'ase.cell', 'ase.scaled', 'pmg.cell', 'pmg.frac'))


def tensors(ts):
    """names of the free tensors in the terms"""
    names = set()

    def f(x):
        if x.kind == 'el' and plain(x.args[0]) and isinstance(x.args[0].args[0], str):
            nm = x.args[0].args[0]
            if nm not in INT_TENSORS and nm not in MONO_TENSORS and nm not in SYM_MATS:
                names.add(nm)
    seen = set()
    for t in ts:
        visit(t, f, seen)
    return names


def patterned(tg, tw):
    """tensors inside comparisons that only the analysed code makes"""
    acc, kn = set(), set()
    all_catoms(tg, acc, set())
    all_catoms(tw, kn, set())
    return tensors(acc - kn)


def cut_off(tg, tw):
    """tensors inside inverses with a cut-off the specification does not have: ill-conditioned matrices tell them apart"""
    def find(t):
        d = {}

        def f(x):
            if x.kind == 'head' and x.args[0] in ('pinvh', 'pinv') and len(x.args) > 2:
                d.setdefault(x.args[2:], []).append(x)
        visit(t, f, set())
        return d
    g, w = find(tg), find(tw)
    hs = [x for k in g if k not in w for x in g[k]]
    return tensors(hs) | SYM_MATS if hs else set()


def compare(I, got, want, assume=TRUE, n=14, seed=1, structural_only=False):
    """Does `got` equal `want` for every valuation of the free symbols satisfying `assume`?"""
    st = I.st
    if isinstance(got, V):
        got = I.freeze(got, st)
    if isinstance(want, V):
        want = I.freeze(want, st)
    facts = Facts().with_cond(assume)
    if structural(I, got, want, facts):
        return Out(EQ, 'canonical')
    try:
        tg, tw = to_term(I, got), to_term(I, want)
    except RecursionError:
        return Out(UNDEC, 'term too deep')
    if tg is tw:
        return Out(EQ, 'canonical')
    opq = sorted(opaque_names((tg, tw)) if True else [])
    gs, ws = cut(show(tg)), cut(show(tw))
    accepted = diffs = 0
    wit = ''
    plans = [dict(spread=4)] * (n - 10) + [dict(spread=9)] * 3 + [dict(spread=4, scale=20)] * 3 + [dict(spread=4, scale=10**5), dict(spread=4, scale='1e-5')] + [dict(spread=4, scale='mixed')] * 2
    tries = [(i, p, None) for i, p in enumerate(plans)] + [(100 + i, plans[i % n], None) for i in range(2 * n)]
    bd = boundaries((tg, tw, assume), (tw, assume))[:40]
    tries += [(1000 + i, dict(spread=5), (b, d)) for i, b in enumerate(bd) for d in (0, 1, -1)]
    new = limits((tg,)) - limits((tw,))
    if new:
        # limits on sizes that the specification does not have: any value of theirs must give the same result
        for i, m in enumerate(sigmas(new | limits((tw,)))):
            tries += [(2000 + 10 * i + j, dict(spread=(4, 7, 10)[j % 3], sigma=m), None) for j in range(6)]
    pats = patterned(tg, tw)
    if pats:
        # data with structure (constant, repeating, nearly diagonal ...) can make such a comparison come out differently
        tries += [(3000 + i, dict(spread=4, patterns=pats), None) for i in range(36)]
    pats = cut_off(tg, tw)
    if pats:
        tries += [(3100 + i, dict(spread=4, patterns=pats, skewed=True), None) for i in range(12)]
    def eigs(t):
        acc = set()
        visit(t, lambda x: acc.add(x) if x.kind == 'head' and x.args[0] in ('eig_w', 'eigh_w') else None, set())
        return acc
    eg = eigs(tg)
    if eg and bd and not pats:
        # a limit on the spectrum matters for ill-conditioned matrices only
        pats = tensors(eg) | SYM_MATS
        tries += [(4000 + i, dict(spread=4, patterns=pats, skewed=True), (b, d)) for i, b in enumerate(bd[:8]) for d in (2, '0.5', '1e-3')]
    reasons = {}
    for s, plan, bound in tries:
        tick()
        if bound is None and 100 <= s < 1000 and accepted >= n:
            continue
        val = Valuation((seed, s), **plan)
        try:
            if bound is not None:
                (x, rest, q), d = bound
                cq = val.num(q)
                if abs(cq) < EPS:
                    continue
                v = -val.num(rest) / cq
                whole = SYMINFO.get(x, {}).get('int') if x.kind == 'sym' else x.args[0].args[0] in INT_TENSORS
                if s >= 4000:
                    v *= Decimal(d)
                else:
                    v += d if whole or abs(v) >= 1 else d * abs(v) / 10
                if x.kind == 'sym':
                    info = SYMINFO.get(x, {})
                    if info.get('int') and v != v.to_integral_value():
                        continue
                    if info.get('lo') is not None and v < frac(info['lo']):
                        continue
                    if info.get('ub') is not None and v >= val.num(info['ub']):
                        continue
                    if info.get('int') and v > 60:
                        continue
                    val = Valuation((seed, s), fixed={x: v}, **plan)
                else:
                    nm = x.args[0].args[0]
                    if nm in INT_TENSORS and v != v.to_integral_value():
                        continue
                    lo = TENSOR_LO.get(nm, Fraction(1) if nm in POS_TENSORS and nm in INT_TENSORS else (Fraction(0) if nm in NONNEG_TENSORS else None))
                    if lo is not None and v < frac(lo):
                        continue
                    if nm in INT_TENSORS and v > 60:
                        continue
                    val = Valuation((seed, s), **plan)
                    val.pin(x, v)
            if not val.cond(assume):
                reasons['assumption'] = reasons.get('assumption', 0) + 1
                continue
            C = Concrete(I, val)
            x, y = C(got), C(want)
        except Skip as e:
            reasons[str(e)] = reasons.get(str(e), 0) + 1
            continue
        except RecursionError:
            return Out(UNDEC, 'recursion', gs, ws)
        if isinstance(x, (list, tuple)) and empty(x) and empty(y) and same(x, y):
            # nothing was compared
            reasons['empty'] = reasons.get('empty', 0) + 1
            continue
        accepted += 1
        if not same(x, y):
            diffs += 1
            if not wit:
                wit = witness(val, x, y)
            if diffs >= 2:
                break
    if diffs:
        if opq:
            return Out(UNDEC, 'differs, but the analysed value contains unmodelled operations: %s' % ', '.join(opq[:6]), gs, ws, wit)
        return Out(DIFF, 'random interpretation', gs, ws, wit)
    if accepted >= 3:
        return Out(EQ, 'random interpretation (%d valuations)' % accepted)
    return Out(UNDEC, 'no comparable valuation (%s)' % ', '.join('%s:%d' % kv for kv in reasons.items()), gs, ws)


def empty(x):
    return isinstance(x, (list, tuple)) and all(empty(y) for y in x)


def witness(val, x, y):
    syms = ', '.join('%s=%s' % (n.args[0], short(v)) for n, v in sorted(val.env.items(), key=lambda t: t[0].id)
                     if n.kind == 'sym' and '~' not in n.args[0])
    d = first_diff(x, y)
    if val.sigma:
        syms += ', '.join([''] + ['the limit %s taken as %s' % (k, v) for k, v in sorted(val.sigma.items())])
    return 'with %s: %s' % (syms, d)


def short(v):
    if isinstance(v, Decimal):
        v = float(v)
        return '%d' % v if abs(v) < 1e9 and v == int(v) else '%.6g' % v
    return cut(str(v), 60)


def first_diff(x, y, path=''):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return '%s has length %d, expected %d' % (path or 'value', len(x), len(y))
        for i, (a, b) in enumerate(zip(x, y)):
            if not same(a, b):
                return first_diff(a, b, '%s[%d]' % (path, i))
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y), key=str):
            if k not in x or k not in y:
                return '%s[%r] present on one side only' % (path, k)
            if not same(x[k], y[k]):
                return first_diff(x[k], y[k], '%s[%r]' % (path, k))
    return '%s computed %s, expected %s' % (path or 'value', short(x), short(y))
