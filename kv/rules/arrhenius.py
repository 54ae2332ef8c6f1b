"""Rules about the temperature dependence models."""
from ..checker import *
from .sampling import same_value, unwrap

A_ = 'kinisi.arrhenius.'
K_EV = const(Fraction('1.380649e-23') / Fraction('1.602176634e-19'))
MODELS = {'arrhenius': ('StandardArrhenius', False), 'super_arrhenius': ('SuperArrhenius', True)}


def model(ea, a, t, t0=None):
    return a * mk_fn('exp', -ea / (K_EV * (t if t0 is None else t - t0)))


def c24(ck):
    """The two model functions are compared with A exp(-Ea/(k T)) and A exp(-Ea/(k (T - T0))), k in eV/K, for scalar and array temperatures.
    Every object is built from arbitrary data and bounds: the abstract fit set-up (function, temperatures, data, errors, bounds) must be the
    user's; then the variables are replaced by arbitrary samples and each reported parameter, the distribution and the extrapolation are
    compared with the model evaluated at every sample, and again after the samples were replaced once more."""
    C, I = ck.C, ck.I
    for fname, (cname, sup) in MODELS.items():
        at = A_ + fname
        for form in ('scalar', 'array'):
            with ck.config('%s of a temperature %s' % (fname, form), at):
                C.reset()
                ea, a, t0 = Num(K_EV * sym('Ea')), num('A'), num('T0')
                T = num('T') if form == 'scalar' else arr(I, 'T', [sym('nT', True, 1)])
                r = C.run(at, [T, ea, a] + ([t0] if sup else []))
                if not ck.ran(r, at):
                    continue
                ck.no_raise(r, at)
                h = tensor('T')
                z = t0.p if sup else None
                want = Num(model(ea.p, a.p, T.p, z)) if form == 'scalar' else Arr([sym('nT', True, 1)], lambda k: model(ea.p, a.p, el(h, P(k)), z))
                ck.eq('model value', r.value, want, at, tol=PHYS)
        with ck.config('%s far below the activation energy' % fname, at):
            C.reset()
            a, t0, T, u = num('A'), num('T0'), num('T', lo=1), sym('u', lo=0)
            x = 700 * u / T.p
            r = C.run(at, [Num(T.p + t0.p) if sup else T, Num(K_EV * 700 * u), a] + ([t0] if sup else []))
            if ck.ran(r, at) and isinstance(r.value, Num):
                ck.eq('model value relative to its size', Num(r.value.p * mk_fn('exp', x)), a, at, assume=c_lt(x, P(1000)), tol=Decimal(10)**-6)
        cls = A_ + cname
        for bounds in ('default', 'given') + (('open',) if sup else ()):
            for err in (False, True):
                with ck.config('%s, bounds %s, errors %s' % (cname, bounds, 'given' if err else 'omitted'), cls):
                    C.reset()
                    m = sym('m', True, 2)
                    h = tensor('T', pos=True)
                    T = arr(I, 'T', [m], prov='input:temperature', pos=True)
                    y = arr(I, 'y', [m], prov='input:diffusion')
                    e = arr(I, 'err', [m], prov='input:diffusion_error', pos=True)
                    kw = {}
                    b = [('b%d' % j) for j in range(3 if sup else 2)]
                    pair = lambda s: Tup([num(s + 'lo'), num(s + 'hi')])
                    bs = [pair(s) for s in b]
                    if bounds == 'open':
                        bs[2] = Tup([num('b2lo'), NONE])
                    if bounds != 'default':
                        kw['bounds'] = Tup(bs)
                    if err:
                        kw['diffusion_error'] = e
                    r = C.run(cls, [T, y], kw)
                    if not ck.ran(r, cls):
                        continue
                    ck.no_raise(r, cls)
                    ev = [x for x in r.events if x.kind == 'relationship']
                    if len(ev) != 1:
                        ck.undecided('fit set-up', cls, '%d base class initialisations' % len(ev))
                        continue
                    d = ev[0].data[1]
                    f = d.get('function')
                    q = C.resolve(at)
                    ck.flag('fitted function', True if isinstance(f, FuncV) and f.node is q.node else None if not isinstance(f, FuncV) else same_function(ck, f, q, sup), cls, repr(f)[:200])
                    ck.eq('temperatures', d.get('abscissa'), T, cls)
                    ck.eq('data', d.get('ordinate'), y, cls)
                    if err and d.get('ordinate_error', NONE) is NONE:
                        ck.flag('data errors', False, cls, 'none', 'those given')
                    elif err:
                        ck.eq('data errors', d.get('ordinate_error'), e, cls)
                    else:
                        ck.flag('no data errors', d.get('ordinate_error', NONE) is NONE, cls, repr(d.get('ordinate_error')))
                    if bounds == 'default':
                        w = [(0, 1), (0, 10**20)]
                        w = [Tup([Num(p, 'int'), Num(q_)]) for p, q_ in w] + ([Tup([Num(0, 'int'), Num(el(h, ZERO))])] if sup else [])
                    elif bounds == 'open':
                        w = bs[:2] + [Tup([num('b2lo'), Num(el(h, ZERO))])]
                    else:
                        w = bs
                    got = I.freeze(d.get('bounds'), I.st)
                    its = got.items if isinstance(got, Tup) else (got.items() if isinstance(got, Seq) else None)
                    if its is None:
                        ck.eq('bounds', got, Tup(w), cls)
                        continue
                    if len(its) != len(w):
                        ck.flag('bounds', False, cls, repr(got)[:300], repr(w)[:300])
                        continue
                    for j, (g, v) in enumerate(zip(its, w)):
                        ck.eq('bounds of parameter %d' % j, I.freeze(g, I.st), v, cls)
        with ck.config('%s, reported values of arbitrary samples' % cname, cls):
            C.reset()
            m, n = sym('m', True, 2), sym('n_flat', True, 1)
            T = arr(I, 'T', [m], pos=True)
            y = arr(I, 'y', [m])
            r = C.run(cls, [T, y], {'diffusion_error': arr(I, 'err', [m], pos=True)})
            if not ck.ran(r, cls):
                continue
            o = r.value
            # read twice, with other samples in between (the object is sampled again)
            for rnd, tag, lbl in ((0, 'rel.variable', ''), (1, 'rel.variable2', ' after sampling again')):
                reported(ck, cls, o, sup, model, m, n, rnd, tag, lbl)


def reported(ck, cls, o, sup, model, m, n, rnd, tag, lbl):
    C, I = ck.C, ck.I
    hv = [mk('head', tag, const(j)) for j in range(3)]
    v = lambda j: (lambda k: (K_EV if j == 0 else ONE) * el(hv[j], P(k)))
    I.set_attr(o, 'variables', I.new_list([XObj('dist', samples=Arr([n], v(j)), name=Str('v')) for j in range(3 if sup else 2)]))
    for name, j in (('activation_energy', 0), ('preexponential_factor', 1)) + ((('T0', 2),) if sup else ()):
        g = C.attr(o, name)
        if ck.ran(g, cls + '.' + name):
            same_value(ck, name + lbl, unwrap(I.freeze(g.value, I.st)), Arr([n], v(j)), cls + '.' + name)
    ht = tensor('T', pos=True)
    g = C.attr(o, 'distribution')
    if ck.ran(g, cls + '.distribution'):
        ck.no_raise(g, cls + '.distribution')
        ck.eq('distribution' + lbl, g.value, Arr([m, n], lambda i, k: model(v(0)(k), v(1)(k), el(ht, P(i)), v(2)(k) if sup else None)), cls + '.distribution', tol=PHYS)
    x = num('Tx%d' % rnd)
    g = C.run(I.get_attr(o, 'extrapolate'), [x])
    if ck.ran(g, cls + '.extrapolate'):
        ck.no_raise(g, cls + '.extrapolate')
        ck.eq('extrapolation' + lbl, unwrap(I.freeze(g.value, I.st)), Arr([n], lambda k: model(v(0)(k), v(1)(k), x.p, v(2)(k) if sup else None)), cls + '.extrapolate', tol=PHYS)


def same_function(ck, f, q, sup):
    """another function object: same value as the public one"""
    I = ck.I
    ea, a, t0, t = Num(K_EV * sym('Ea')), num('A'), num('T0'), num('T')
    args = [t, ea, a] + ([t0] if sup else [])
    o = compare(I, I.call(f, args, {}), Num(model(ea.p, a.p, t.p, t0.p if sup else None)))
    return {EQ: True, DIFF: False, UNDEC: None}[o.verdict]


RULES = {'C24': c24}
