"""Rules about the fit: covariance, regime, likelihood, sampling, conversion, predictive distribution."""
from ..checker import *
from .parser import B, HALF
from .diffusion import KINDS, DIMS, BOOT, D_, Obs, kwargs
from ..terms import MONO_TENSORS

COV_NEAREST = 'statsmodels.stats.correlation_tools.cov_nearest'
MINEIG = D_ + 'minimum_eigenvalue_method'
PER_INTERVAL = {'dt': ('t', dict(pos=True)), 'n': ('m', {}), 'v': ('w', dict(pos=True)), 'n_i': ('c', dict(pos=True)), 's': ('sd', dict(pos=True)), 'ngp': ('g', {})}


class Fit:
    """An analysed object whose per-interval data are arbitrary: every attribute holding the same value as a public per-interval
    accessor is replaced by one free tensor."""

    def __init__(self, ck, kind='MSD', dim='xyz', n=None, cuts=None, **kw):
        C, I = self.C, self.I = ck.C, ck.I
        self.ck, self.kind, self.dim = ck, kind, dim
        C.reset()
        o = self.o = Obs(ck, kind, dim, n=n)
        r = C.run(KINDS[kind], o.args, kwargs(o, **kw), cuts=cuts or {})
        if r.raised or r.value is None:
            raise Unsupported('construction raises')
        b = self.b = r.value
        K = self.K = sym('K', True, 3)
        c = I.content(b)
        MONO_TENSORS.add('t')
        for acc, (nm, kw) in PER_INTERVAL.items():
            old = C.attr(b, acc).value
            if old is None:
                if acc in ('n_i',):
                    raise Unsupported('no accessor %s' % acc)
                continue
            new = arr(I, nm, [K], **kw)
            hit = False
            for a, v in list(I.content(b).attrs.items()):
                if a in ('_delta_t',) or not isinstance(v, V):
                    continue
                if (isinstance(v, Ref) and isinstance(old, Ref) and v.id == old.id) or self.same(v, old):
                    I.set_attr(b, a, new)
                    hit = True
            if not hit or not self.same(C.attr(b, acc).value, new):
                raise Unsupported('accessor %s is not a stored array' % acc)
        self.b = b
        T_ = lambda nm, **kw: (lambda i, h=tensor(nm, **kw): el(h, P(i)))
        self.t, self.m, self.w, self.c = T_('t', pos=True), T_('m'), T_('w', pos=True), T_('c', pos=True)
        self.start = sym('start')
        k = fresh('q', ub=K)
        self.reg = mk_fn('first_true', mk_arrT([k.single_atom()], c_le(self.start, self.t(k)), K))
        self.size = K - self.reg
        self.some = I.lib.any_over([K], lambda i: c_le(self.start, self.t(i)))

    def same(self, a, b):
        I = self.I
        try:
            a, b = I.freeze(a, I.st), I.freeze(b, I.st)
            if not isinstance(a, (Arr, Seq)) or not isinstance(b, (Arr, Seq)):
                return False
            return I.term(a) is I.term(b)
        except Exception:
            return False

    def run(self, method='diffusion', args=None, **kw):
        kw.setdefault('progress', B(False))
        return self.C.run(self.I.get_attr(self.b, method), args or [Num(self.start)], kw)

    def get(self, name):
        return self.C.attr(self.b, name).value

    def samples(self, name):
        v = self.get(name)
        v = self.I.freeze(v, self.I.st) if v is not None else None
        return v.f['samples'] if isinstance(v, XObj) and v.kind == 'dist' else v

    # ---------------------------------------------------------------- reference
    def raw_cov(self, w=None):
        w = w or (lambda i: self.w(self.reg + i))
        c = lambda i: self.c(self.reg + i)
        lo = lambda i, j: ite(c_le(i, j), P(i), P(j))
        hi = lambda i, j: ite(c_le(i, j), P(j), P(i))
        return Arr([self.size, self.size], lambda i, j: ite(c_le(i, j), w(i) * c(i) / c(j), w(j) * c(j) / c(i)))

    def nearest(self, m):
        return self.I.call(ExtV(COV_NEAREST), [self.I.new_arr(m) if isinstance(m, Arr) else m], {})

    def loglik(self, cov, th, icpt):
        """log-density of the kept means for parameters th, covariance `cov` (an Arr)"""
        I = self.I
        c = I.lib.as_arr(I, cov)
        n = c.shape[0]
        t = I.arr_term(c)
        h = mk('head', 'pinvh', t)
        r = lambda i: th(0) * self.t(self.reg + i) + (th(1) if icpt else ZERO) - self.m(self.reg + i)
        q = sum_over(n, lambda i: sum_over(n, lambda j: r(i) * el(h, P(i), P(j)) * r(j)))
        lp = (q + mk_fn('log', mk_fn('abs', fn('det', t))) + n * mk_fn('log', 2 * PI)) * const(Fraction(-1, 2))
        return ite(c_lt(th(0), ZERO), -fn('inf'), lp)


def min_eig(I, m, cond):
    """reference reconditioning: V diag(max(w, max(w)/cond)) V^T"""
    t = I.arr_term(m)
    n = m.shape[0]
    hw, hv = mk('head', 'eig_w', t), mk('head', 'eig_v', t)
    k0 = fresh('q', ub=n)
    floor = mk_fn('amax', mk_arrT([k0.single_atom()], el(hw, k0), n)) / cond
    return Arr([n, n], lambda i, j: sum_over(n, lambda k: el(hv, P(i), k) * ite(c_lt(el(hw, k), floor), floor, el(hw, k)) * el(hv, P(j), k)))


def c12(ck):
    """After a fit, the reported covariance is compared entry by entry with the code's own reconditioning applied to the reference matrix
    (variance of the shorter interval x ratio of independent observations, over the diffusive regime); with the model variance the
    variances are the fitted ones. Symmetry follows from the reference. A refit
    (other variance model, other start) must leave what a first fit leaves."""
    C, I = ck.C, ck.I
    for kind in KINDS:
        for model in (False, True):
            at = KINDS[kind]
            with ck.config('%s, model variance %s' % (kind, model), at):
                f = Fit(ck, kind)
                cond = num('cond', lo=1)
                r = f.run(cond_max=cond, model=B(model))
                if not ck.ran(r, at):
                    continue
                cov = f.get('covariance_matrix')
                w = None
                if model:
                    h = model_variance(f)
                    w = lambda i: h * f.t(f.reg + i)**2 / f.c(f.reg + i)
                want = f.raw_cov(w)
                m = C.run(MINEIG, [I.new_arr(want), cond])
                ck.eq('covariance of the interval means', cov, f.nearest(m.value), BOOT, assume=f.some)
    for model in (False, True):
        at = BOOT + '.generate_covariance_matrix'
        with ck.config('refit, model variance %s then %s' % (not model, model), at):
            again(ck, Fit(ck), at, dict(model=B(not model)), dict(model=B(model)), ('covariance_matrix',), start0=None)
    with ck.config('refit from another start, model variance', at):
        again(ck, Fit(ck), at, dict(model=B(True)), dict(model=B(True)), ('covariance_matrix',))


def model_variance(f):
    """the fitted multiplier: least squares of a*t^2/c to the variances, 0 <= a"""
    I = f.I
    th = tensor('theta')
    t = I.term(Arr([f.size], lambda i: el(th, ZERO) / f.c(f.reg + i) * f.t(f.reg + i)**2))
    y = I.term(Arr([f.size], lambda i: f.w(f.reg + i)))
    ex = mk('kw', 'bounds', I.term(Tup([Num(0, 'int'), Num(fn('inf'))])))
    return el(mk('head', 'curve_fit', t, y, ex), ZERO)


def c13(ck):
    """The reconditioning function is compared, for an arbitrary symmetric matrix and limit, with raising eigenvalues below largest/limit to
    that floor; after a fit the reported covariance must be the nearest positive-definite matrix of the reconditioned one, and the sampled
    density must be built from the reported covariance. A refit with another condition limit must leave what a first fit leaves."""
    C, I = ck.C, ck.I
    at = MINEIG
    for given in (True, False):
        with ck.config('reconditioning, condition limit %s' % ('given' if given else 'default'), at):
            C.reset()
            n = sym('n', True, 2)
            a = tensor('A')
            m = Arr([n, n], lambda i, j: ite(c_le(i, j), el(a, i, j), el(a, j, i)))
            cond = sym('cond', lo=1)
            r = C.run(at, [I.new_arr(m)] + ([Num(cond)] if given else []))
            if ck.ran(r, at):
                ck.eq('reconditioned matrix', r.value, min_eig(I, m, cond if given else const(10**16)), at)
    for given in (True, False):
        at = BOOT + '.bootstrap_GLS'
        with ck.config('covariance after a fit, condition limit %s' % ('given' if given else 'default'), at):
            f = Fit(ck)
            cond = sym('cond', lo=1)
            r = f.run(**(dict(cond_max=Num(cond)) if given else {}))
            if not ck.ran(r, at):
                continue
            raw = f.raw_cov()
            ck.eq('reported covariance', f.get('covariance_matrix'), f.nearest(min_eig(I, raw, cond if given else const(10**16))), at, assume=f.some)
            likelihood(ck, f, r, True, at, 'density uses the reported covariance')
    for a, b in (('cond0', 'cond'), ('cond0', None), (None, 'cond')):
        with ck.config('refit, condition limit %s then %s' % (a or 'default', b or 'default'), at):
            again(ck, Fit(ck), at, dict(cond_max=num(a, lo=1)) if a else {}, dict(cond_max=num(b, lo=1)) if b else {}, ('covariance_matrix',), start0=None)


def likelihood(ck, f, r, icpt, at, name, assume=TRUE):
    ev = [e for e in r.events if e.kind == 'sampler']
    if len(ev) != 1:
        ck.undecided(name, at, '%d samplers' % len(ev))
        return
    t, nd = ev[0].data
    th = tensor('theta')
    want = f.loglik(f.get('covariance_matrix'), lambda k: el(th, const(k)), icpt)
    ck.eq(name, as_num(t), Num(want), at, assume=c_and(f.some, assume))
    ck.eq('number of parameters', Num(nd), Num(2 if icpt else 1), at)


def as_num(t):
    return Num(t) if isinstance(t, Poly) else (Num(atom(t)) if isinstance(t, Node) and t.kind in ('ite', 'fn', 'el', 'sum', 'sym') else TV(t))


def c14(ck):
    """The first kept interval is compared with the first one whose time is not below the requested start, through the size and content of
    the reported covariance, of the data in the sampled density, and of the predictive distribution; a refit
    from another start must leave what a first fit leaves."""
    C, I = ck.C, ck.I
    for method, args in (('diffusion', []), ('jump_diffusion', []), ('conductivity', ['T', 'V'])):
        for icpt in (True, False):
            at = BOOT + '.' + method
            with ck.config('%s, intercept %s' % (method, icpt), at):
                f = Fit(ck)
                r = f.run(method, [Num(f.start)] + [num(x, lo=1) for x in args], fit_intercept=B(icpt))
                if not ck.ran(r, at):
                    continue
                cov = I.lib.as_arr(I, f.get('covariance_matrix'))
                ck.eq('number of kept intervals', Num(cov.shape[0]), Num(f.size), at, assume=f.some)
                want = f.nearest(C.run(MINEIG, [I.new_arr(f.raw_cov())]).value)
                ck.eq('covariance of the kept intervals', f.get('covariance_matrix'), want, at, assume=f.some)
                likelihood(ck, f, r, icpt, at, 'density over the kept intervals')
                p = C.run(I.get_attr(f.b, 'posterior_predictive'), [num('np_', True, 1), num('nq', True, 1)], dict(progress=B(False)))
                if ck.ran(p, at):
                    a = I.lib.as_arr(I, p.value)
                    ck.eq('predicted intervals', Num(a.shape[1]) if a is not None and a.ndim == 2 else p.value, Num(f.size), at, assume=f.some)
    with ck.config('refit from another start', BOOT + '.bootstrap_GLS'):
        again(ck, Fit(ck), BOOT + '.bootstrap_GLS', {}, {}, ('covariance_matrix',))


def c15(ck):
    """The function handed to the sampler is summarised as a term in its parameter vector and compared with the log-density of the
    multivariate normal (minus infinity for negative gradients); the minimised function must be its negative. The density of a
    refit must be the one of a first fit."""
    C, I = ck.C, ck.I
    for kind in KINDS:
        for icpt in (True, False):
            at = BOOT + '.bootstrap_GLS'
            with ck.config('%s, intercept %s' % (kind, icpt), at):
                f = Fit(ck, kind)
                r = f.run(fit_intercept=B(icpt), cond_max=num('cond', lo=1))
                if not ck.ran(r, at):
                    continue
                likelihood(ck, f, r, icpt, at, 'log-density')
                mn = [e for e in r.events if e.kind == 'minimize']
                sm = [e for e in r.events if e.kind == 'sampler']
                if len(mn) == 1 and len(sm) == 1:
                    th0 = el(tensor('theta'), ZERO)
                    ck.eq('start of the chain maximises the density', as_num(mn[0].data[0]), Num(-scalar_of(sm[0].data[0])), at,
                          assume=c_and(f.some, c_le(ZERO, th0)))
    with ck.config('refit with other settings', at):
        again(ck, Fit(ck), at, dict(fit_intercept=B(True), cond_max=num('cond0', lo=1)), dict(fit_intercept=B(False)), ('intercept',))


def scalar_of(t):
    return t if isinstance(t, Poly) else atom(t)


N_A, E_, R_ = (Fraction(x) for x in ('6.02214076e23', '1.602176634e-19', '8.31446261815324'))


def c16(ck):
    """Coefficient samples are compared element by element with the gradient samples times the documented factors for every dimension
    choice and displacement kind; gradient, intercept and chain must be the ones of the fit, also in a refit of an
    object with another temperature and volume."""
    C, I = ck.C, ck.I
    for kind in KINDS:
        for dim in DIMS:
            for method, acc in (('diffusion', 'D'), ('jump_diffusion', 'D_J'), ('conductivity', 'sigma')):
                at = BOOT + '.' + method
                if kind != {'diffusion': 'MSD', 'jump_diffusion': 'MSTD', 'conductivity': 'MSCD'}[method] and dim != 'xyz':
                    continue
                with ck.config('%s.%s dimension=%s' % (kind, method, dim), at):
                    f = Fit(ck, kind, dim)
                    te, vo = num('T', lo=1), num('V', lo=1)
                    r = f.run(method, [Num(f.start)] + ([te, vo] if method == 'conductivity' else []))
                    if not ck.ran(r, at):
                        continue
                    ck.no_raise(r, at, assume=f.some)
                    untouched(ck, r, at)
                    g = f.samples('gradient')
                    d = len(dim)
                    fac = const(Fraction(1, 20000 * d))
                    if method == 'jump_diffusion':
                        fac = fac / f.o.N
                    if method == 'conductivity':
                        fac = fac * 1000 * const(N_A * E_ * E_) * N_A / (te.p * vo.p * const(Fraction('1e-24')) * const(R_) * N_A)
                        fac = const(Fraction(1, 20000 * d) * 1000 * N_A * E_ * E_ / (R_ * Fraction('1e-24'))) / (te.p * vo.p)
                    if not isinstance(g, Arr):
                        ck.undecided('gradient samples', at, 'not an array')
                        continue
                    got = f.samples(acc)
                    near(ck, 'coefficient samples', got, Arr(g.shape, lambda k: g.fn(k) * fac), at)
                    ch = I.lib.as_arr(I, f.get('flatchain'))
                    ck.eq('gradient is the first sampled parameter', g, Arr([ch.shape[0]], lambda k: ch.fn(k, ZERO)), at, assume=f.some)
                    ck.eq('intercept is the second sampled parameter', f.samples('intercept'), Arr([ch.shape[0]], lambda k: ch.fn(k, ONE)), at, assume=f.some)
    for kind, method, acc, names in (('MSD', 'diffusion', 'D', ''), ('MSTD', 'jump_diffusion', 'D_J', ''), ('MSCD', 'conductivity', 'sigma', 'TV')):
        at = BOOT + '.' + method
        with ck.config('%s.%s again' % (kind, method), at):
            again(ck, Fit(ck, kind), at, {}, {}, (acc, 'gradient'), method, [num(x + '0', lo=1) for x in names], [num(x, lo=1) for x in names])
        if names:
            with ck.config('%s.%s again, from the same start' % (kind, method), at):
                again(ck, Fit(ck, kind), at, {}, {}, (acc, 'gradient'), method, [num(x + '0', lo=1) for x in names], [num(x, lo=1) for x in names], start0=None)
        with ck.config('%s.%s again, same arguments, other options' % (kind, method), at):
            args = [num(x, lo=1) for x in names]
            again(ck, Fit(ck, kind), at, dict(fit_intercept=B(False), n_samples=num('ns0', True, 1)), {}, (acc, 'gradient'), method, args, args, start0=None)


def untouched(ck, r, at):
    """no write reaches the samples of a stored distribution"""
    ev = [e for e in r.events if e.kind == 'mutate' and 'samples of a distribution' in e.data[0]]
    for e in ev:
        o = compare(ck.I, BoolV(e.pc), BoolV(FALSE), TRUE, seed=ck.seed)
        if o.verdict != EQ:
            return ck.flag('stored samples are unchanged', False if o.verdict == DIFF and len(e.data[0]) == 1 else None,
                           e.loc if isinstance(getattr(e, 'loc', None), tuple) else at, '%s under %s' % (e.data[1], show(e.pc)[:200]), 'no write')
    return ck.flag('stored samples are unchanged', True, at)


def near(ck, name, got, want, at, tol=Fraction(1, 10**7)):
    """Equality up to the precision of physical constants: both sides a constant times the same term."""
    if isinstance(got, Arr) and isinstance(want, Arr) and len(got.shape) == len(want.shape) == 1:
        k = fresh('e', ub=want.shape[0])
        try:
            p = got.fn(k) / want.fn(k)
            c = p.cval()
            if c is not None and abs(c - 1) <= tol and equal_(got.shape[0], want.shape[0]):
                return ck.add(name, EQ, at, 'canonical up to constants')
        except Exception:
            pass
    return ck.eq(name, got, want, at, tol=PHYS)


def equal_(a, b):
    return a == b or (a - b).cval() == 0


def c17(ck):
    """The reported chain is compared with the sampler's chain after the requested burn-in, thinning and length (symbolic), its columns with
    gradient and intercept, and the walkers' start with small relative perturbations of the maximum; a second fit on the same object must
    leave exactly what it would leave on a fresh one."""
    C, I = ck.C, ck.I
    at = BOOT + '.bootstrap_GLS'
    for icpt in (True, False):
        for default in (False, True):
            with ck.config('intercept %s, %s lengths' % (icpt, 'default' if default else 'symbolic'), at):
                f = Fit(ck)
                ns, nw, nb, th = (const(1000), const(32), const(500), const(10)) if default else (sym('ns', True, 1), sym('nw', True, 4), sym('nb', True, 0), sym('th', True, 1))
                kw = {} if default else dict(n_samples=Num(ns, 'int'), n_walkers=Num(nw, 'int'), n_burn=Num(nb, 'int'), thin=Num(th, 'int'))
                r = f.run(fit_intercept=B(icpt), **kw)
                if not ck.ran(r, at):
                    continue
                ch = I.lib.as_arr(I, f.get('flatchain'))
                h = emcee_head(ch)
                if h is None:
                    ck.undecided('sample chain', at, 'not an emcee chain')
                    continue
                nd = 2 if icpt else 1
                L = I.lib
                want = Arr([L.gated2(div_, ns, th) * nw, const(nd)], lambda k, d: el(h, nb + th - 1 + th * L.gated2(div_, P(k), nw), L.gated2(mod_, P(k), nw), P(d)))
                ck.eq('sample chain', ch, want, at)
                ck.eq('length of the chain', Num(h.args[5]), Num(ns + nb), at)
                ck.eq('number of walkers', Num(h.args[6]), Num(nw), at)
                ck.eq('gradient samples', f.samples('gradient'), Arr([ch.shape[0]], lambda k: ch.fn(k, ZERO)), at)
                iv = f.get('intercept')
                if icpt:
                    ck.eq('intercept samples', f.samples('intercept'), Arr([ch.shape[0]], lambda k: ch.fn(k, ONE)), at)
                else:
                    ck.flag('no intercept', iv is NONE, at, repr(iv)[:200], 'None')
                start_points(ck, f, r, h, nw, nd, at)
    for first in (True, False):
        for second in (True, False):
            with ck.config('refit, intercept %s then %s' % (first, second), at):
                again(ck, Fit(ck), at, dict(fit_intercept=B(first), n_samples=num('ns0', True, 1)), dict(fit_intercept=B(second)),
                      ('flatchain', 'gradient', 'intercept', 'D', 'covariance_matrix'))


def again(ck, f, at, kw0, kw1, attrs, method='diffusion', args0=(), args1=(), start0='start0'):
    """a fit of an object that has been fitted before (with other settings) leaves what it would leave on a fresh one"""
    I = ck.I
    st = I.st.copy()
    r0 = f.run(method, [Num(f.start)] + list(args1), **kw1)
    ok = ck.ran(r0, at)
    ref = {a: self_freeze(I, f.get(a)) for a in attrs} if ok else {}
    ev0 = [e for e in r0.events if e.kind == 'sampler']
    I.st = st
    s1 = f.start
    if start0 is not None:
        f.start = sym(start0)
    f.run(method, [Num(f.start)] + list(args0), **kw0)
    f.start = s1
    # same generator state as the reference run
    I.st.heap[I.rng] = st.heap[I.rng]
    r = f.run(method, [Num(f.start)] + list(args1), **kw1)
    if not ok or not ck.ran(r, at):
        return
    for a, v in ref.items():
        got = self_freeze(I, f.get(a))
        if v is NONE or got is NONE:
            ck.flag('%s after a refit' % a, v is got, at, repr(got)[:200], repr(v)[:200])
        elif isinstance(v, XObj) and isinstance(got, XObj):
            ck.eq('%s after a refit' % a, got.f['samples'], v.f['samples'], at, assume=f.some)
        else:
            ck.eq('%s after a refit' % a, got, v, at, assume=f.some)
    ev = [e for e in r.events if e.kind == 'sampler']
    if len(ev) == len(ev0) == 1:
        ck.eq('log-density after a refit', as_num(ev[0].data[0]), as_num(ev0[0].data[0]), at, assume=f.some)


def self_freeze(I, v):
    return I.freeze(v, I.st) if v is not None else NONE


def emcee_head(a):
    if a is None or a.ndim != 2:
        return None
    p = a.fn(fresh('e', ub=a.shape[0]), ZERO)
    x = p.single_atom()
    if x is not None and x.kind == 'el' and x.args[0].args[0] == 'emcee':
        return x.args[0]
    return None


def start_points(ck, f, r, h, nw, nd, at):
    ev = [e for e in r.events if e.kind == 'minimum']
    pos = h.args[2]
    if len(ev) != 1 or not (isinstance(pos, Node) and pos.kind == 'mcmc'):
        ck.undecided('start of the walkers', at, 'not a minimum')
        return
    mh = ev[0].data[0]
    init = pos.args[2]
    dr = find_draw(init)
    if dr is None:
        ck.undecided('start of the walkers', at, 'no random perturbation found')
        return
    want = Arr([nw, const(nd)], lambda w, d: el(mh, P(d)) * (1 + el(dr, P(w), P(d)) * const(Fraction(1, 1000))))
    ck.eq('start of the walkers', TV(init), TV(f.I.term(want)), at)
    ck.flag('perturbation is standard normal', dr_kind(dr), at, show(dr)[:200], 'standard normal draw')


def find_draw(t):
    seen = set()
    out = []

    def go(x):
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for a, _ in m:
                    go(a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Node):
            if x in seen:
                return
            seen.add(x)
            if x.kind == 'head' and str(x.args[0]).startswith('draw'):
                out.append(x)
                return
            for y in x.args:
                go(y)
    go(t)
    return out[0] if len(out) == 1 else None


def dr_kind(h):
    s = show(h)
    return True if 'randn' in s or 'standard_normal' in s or 'normal' in s else None


RULES = {'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17}
